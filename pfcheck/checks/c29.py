from ..harness import *
from ..domain import case_valuation
from .c25 import lift
from .c10 import facts as indexing
NEED = 60
EXPLANATION = ('The interface limit callbacks are interpreted, through ext2int, the model object and int2ext, on cases of concrete structure '
               '(numbering, outages, interfaces) with symbolic contents; the constraint they add and the flows and multipliers '
               'they report are compared with the dc flow across each interface written out branch by branch.')
ASSUMPTIONS = ['interfaces and their branches are concrete examples; limits, branch data and solutions are symbolic']
BUS = dict(bus=[30, 10, 25, 40, 12], type=[1, 3, 4, 2, 1], gbus=[40, 10, 30], gst=[1, 2, -1], areas=None, user=None, q=False,
           f=[10, 30, 40, 25, 12, 10], t=[30, 40, 12, 10, 10, 40])
S = {
    'all branches in service': dict(bst=[1, 1, 1, 1, 1, 1], map=[[1, -1], [1, 4], [2, 2], [2, -5]], nums=[1, 2]),
    'outages, isolated bus': dict(bst=[1, 0, 1, 1, 1, 1], map=[[1, -1], [1, 4], [2, 2], [2, -3], [2, -5]], nums=[1, 2]),
    'first branches': dict(bst=[0, 1, 1, 1, 0, 1], map=[[1, 0], [1, -1], [1, 5], [3, -2], [3, 4], [3, -1]], nums=[1, 3]),
    'branch zero': dict(bst=[1, 1, 0, 1, 1, 1], map=[[4, 0], [4, 1], [4, 2], [7, -4], [7, 0]], nums=[4, 7]),
    'interfaces in any order': dict(bst=[1, 0, 1, 1, 1, 1], map=[[5, -2], [2, 4], [5, 5], [9, 0], [2, -5]], nums=[9, 2, 5]),
    'map of numbers of any kind': dict(bst=[1, 0, 1, 1, 1, 1], map=[[5, -2], [2, 4], [5, 5], [2, -5]], nums=[5, 2], float=True),
}


def case(C, s):
    t = dict(BUS, **s)
    nl = len(t['f'])
    m = polymat([[P.const(v) for v in r] for r in s['map']])
    if s.get('float'):
        m.dtype = 'f'
    L = C.ctable('limits', len(s['nums']), 3, {0: s['nums']})
    return C.dict({'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', 5, 13, {0: t['bus'], 1: t['type']}),
                   'gen': C.ctable('gen', 3, 21, {0: t['gbus'], 7: t['gst']}),
                   'branch': C.ctable('branch', nl, 17, {0: t['f'], 1: t['t'], 10: t['bst']}), 'if': C.dict({'map': C.arr(m), 'lims': L})})


def facts(s):
    f, _ = indexing(dict(BUS, **s))
    rows = []
    for n in s['nums']:
        rows.append([[abs(b), f['branch'].index(abs(b)), f['f'][f['branch'].index(abs(b))], f['t'][f['branch'].index(abs(b))], -1 if b < 0 else 1]
                     for i, b in s['map'] if i == n and abs(b) in f['branch']])
    return f, rows


def check(k):
    k.rule('interface limits', 'the dc flow over the in-service branches of each interface, with direction and phase shifts, is kept within the '
                               'limits of that interface; flows and multipliers are reported in the rows of the limits and the map comes back as given')
    for lab, s in S.items():
        def go():
            f, rows = facts(s)
            C, R = k.ctx(), k.ctx()

            def args(C):
                x = C.dict({a: C.vec('x' + a, cdim(m)) for a, m in (('Pf', len(f['branch'])), ('l', len(rows)), ('u', len(rows)))})
                return [case(C, s), C.dict({'bus': Const(len(f['bus'])), 'gen': Const(len(f['gen']))}), x]
            v = C.call('spec.iflims', 'iflims', *args(C))
            w = R.call('spec.iflims', 'iflims_ref', *(args(R) + [R.dict({'rows': lift(R, rows)})]))
            k.compare('interface limits', k.where('toggle_iflims', 'userfcn_iflims_formulation'), 'limits [%s]' % lab, C, v, R, w, case_valuation)
        k.guarded('limits [%s]' % lab, go)
