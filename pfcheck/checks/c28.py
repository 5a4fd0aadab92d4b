from ..harness import *
from ..domain import case_valuation
from .c25 import lift
from .c10 import facts as indexing
NEED = 100
EXPLANATION = ('The reserve callbacks are interpreted, through ext2int, the model object and int2ext, on cases of concrete structure '
               '(numbering, status, zones, participating units, ramp limits) with symbolic contents; the internal data, the model '
               'they build and the results they report are compared with the documented formulation.')
ASSUMPTIONS = ['ramp rates and maximum quantities are concrete examples; requirements, costs, limits and solutions are symbolic']
BUS = dict(bus=[30, 10, 25, 40, 12], type=[1, 3, 4, 2, 1], f=[10, 30, 40, 12], t=[30, 40, 12, 10], bst=[1, 1, 1, 1], areas=None, user=None, q=False)
S = {
    'two zones, offline and isolated units': dict(gbus=[40, 25, 10, 40, 30, 10], gst=[1, 2, -1, 1, 1, 1],
                                                  zones=[[1, 1, 0, 0, 1, 0], [0, 1, 0, 1, 1, 0]], ramp=[0, 3, 4, 20, 0, 6], qty=[15, 9, 9, 25, 30, 8]),
    'participating only': dict(gbus=[40, 30, 10, 40, 30, 10], gst=[1, 1, 1, 1, 0, 1], zones=[[1, 0, 0, 0, 0, 1], [0, 0, 1, 0, 1, 1]],
                               ramp=[5, 3, 0, 20, 7, 6], qty=[15, 2, 8], pick=True),
    'one zone': dict(gbus=[40, 30, 10], gst=[1, 1, 1], zones=[[1, 0, 1]], ramp=[0, 0, 7], qty=None),
    'one zone, all units': dict(gbus=[12, 30, 10, 30], gst=[1, 0, 1, 1], zones=[[1, 1, 1, 1]], ramp=[0, 2, 7, 0], qty=[1, 2, 30, 0]),
    'no participant in a zone': dict(gbus=[40, 10, 30], gst=[1, 1, 0], zones=[[1, 0, 0], [0, 0, 1]], ramp=[0, 0, 0], qty=[4, 5, 6]),
}


def case(C, s):
    t = dict(BUS, **s)
    nb, ng, nl = 5, len(s['gbus']), 4
    z = s['zones']
    igr = [g for g in range(ng) if any(r[g] for r in z)]
    n = len(igr) if s.get('pick') else ng
    r = {'zones': C.arr(polymat([[P.const(v) for v in q] for q in z])), 'req': C.vec('zreq', cdim(len(z))), 'cost': C.vec('zcost', cdim(n))}
    if s['qty'] is not None:
        q = s['qty'] if not s.get('pick') else qtys(s, igr)
        r['qty'] = C.arr(const_vec(q if not s.get('pick') else [q[g] for g in igr], 'f'))
    return C.dict({'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', nb, 13, {0: t['bus'], 1: t['type']}),
                   'gen': C.ctable('gen', ng, 21, {0: s['gbus'], 7: s['gst'], 17: s['ramp']}),
                   'branch': C.ctable('branch', nl, 13, {0: t['f'], 1: t['t'], 10: t['bst']}), 'reserves': C.dict(r)})


def qtys(s, igr):
    q = [0] * len(s['gbus'])
    for k, g in enumerate(igr):
        q[g] = s['qty'][k % len(s['qty'])] if s.get('pick') else s['qty'][g]
    return q


def facts(s):
    f, _ = indexing(dict(BUS, **s))
    igr = [g for g in range(len(s['gbus'])) if any(r[g] for r in s['zones'])]
    q = None if s['qty'] is None else qtys(s, igr)
    return dict(gen=f['gen'], zone=s['zones'], igr=igr, ng0=len(s['gbus']), ramp=s['ramp'], qty=q), len(f['bus'])


def check(k):
    k.rule('reserves', 'reserve variables, requirement, capacity and cost are those of the documented formulation, in internal order; results '
                       'are reported per unit of the original tables and the input fields come back as given')
    for lab, s in S.items():
        def go():
            f, nb = facts(s)
            nr = len([g for g in f['gen'] if g in f['igr']])
            C, R = k.ctx(), k.ctx()

            def args(C):
                x = C.dict({a: C.vec('x' + a, cdim(m)) for a, m in (('R', nr), ('l', nr), ('u', nr), ('p', nr), ('q', len(s['zones'])))})
                C.st.heap[x.loc].items['c'] = C.sym('totalcost')
                return [case(C, s), C.dict({'bus': Const(nb), 'gen': Const(len(f['gen']))}), x]
            v = C.call('spec.reserves', 'reserves', *args(C))
            w = R.call('spec.reserves', 'reserves_ref', *(args(R) + [R.dict({a: lift(R, b) if b is not None else Const(None) for a, b in f.items()})]))
            k.compare('reserves', k.where('toggle_reserves', 'userfcn_reserves_formulation'), 'reserves [%s]' % lab, C, v, R, w, case_valuation)
        k.guarded('reserves [%s]' % lab, go)
