from ..harness import *
from ..domain import case_valuation
from .c25 import lift
from .c10 import facts as indexing
NEED = 60
EXPLANATION = ('The dc line callbacks are interpreted, through ext2int, the model object and int2ext, on cases of concrete structure '
               '(numbering, outages, flow limits, cost models) with symbolic contents; the generators, costs and constraint that stand for '
               'the lines and the flows and multipliers reported are compared with the documented line model, row by row.')
ASSUMPTIONS = ['dc lines in service end at connected buses', 'flow limits and the number of cost coefficients are concrete examples; '
               'set points, losses, limits, costs and solutions are symbolic']
BUS = dict(bus=[30, 10, 25, 40, 12], type=[1, 3, 4, 2, 1], gbus=[40, 10, 30, 12], gst=[1, 2, -1, 1], areas=None, user=None, q=False,
           f=[10, 30, 40, 12], t=[30, 40, 12, 10], bst=[1, 1, 1, 1])
LINES = dict(lf=[30, 12, 30, 40, 10, 12], lt=[12, 40, 10, 12, 12, 10], lst=[1, 1, 0, 1, 1, 1],
             limits=[(1, 10), (-5, 7), (0, 3), (-8, -2), (0, 4), (-6, 0)])
POLY = [[2, 3], [2, 2], [2, 1], [2, 4], [2, 3], [2, 2]]
MIX = [[2, 3], [1, 3], [2, 1], [1, 2], [2, 4], [1, 4]]
S = {
    'no costs of lines': dict(LINES),
    'all in service': dict(LINES, lst=[1] * 6, gcost=False),
    'polynomial costs': dict(LINES, cost=POLY, width=8),
    'mixed costs, wider than those of units': dict(LINES, cost=MIX, width=12),
    'costs narrower than those of units': dict(LINES, cost=[[2, 2], [2, 1], [2, 2], [2, 2], [2, 2], [2, 1]], width=6),
    'solved case': dict(LINES, solved=True),
    'power flow': dict(LINES, opf=False),
    'power flow without costs': dict(LINES, opf=False, gcost=False, lst=[0, 0, 1, 0, 1, 0]),
}


def case(C, s):
    t = dict(BUS, **s)
    nd = len(t['lf'])
    w = 25 if s.get('opf', True) else 21
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', 5, 13, {0: t['bus'], 1: t['type']}),
         'gen': C.ctable('gen', 4, w, {0: t['gbus'], 7: t['gst']}),
         'branch': C.ctable('branch', 4, 17, {0: t['f'], 1: t['t'], 10: t['bst']}),
         'dcline': C.ctable('dcline', nd, 23 if s.get('solved') else 17,
                            {0: t['lf'], 1: t['lt'], 2: t['lst'], 9: [a for a, b in t['limits']], 10: [b for a, b in t['limits']]})}
    if s.get('gcost', True):
        d['gencost'] = C.ctable('gencost', 4, 8, {0: [2] * 4, 3: [2] * 4})
    if s.get('cost'):
        d['dclinecost'] = C.ctable('dclinecost', nd, s['width'], {0: [a for a, b in s['cost']], 3: [b for a, b in s['cost']]})
    return C.dict(d)


def facts(s):
    f, _ = indexing(dict(BUS, **s))
    num = {BUS['bus'][i]: k for k, i in enumerate(f['bus'])}
    lines = [k for k in range(len(s['lf'])) if s['lst'][k]]
    return dict(gen=f['gen'], gbus=f['gbus'], bus=f['bus'], lines=lines, ends=[[num[s['lf'][k]], num[s['lt'][k]]] for k in lines],
                limits=[list(l) for l in s['limits']], cost=s['width'] if s.get('cost') else None)


def check(k):
    k.rule('dc lines', 'each line in service is a pair of generators with its set points and limits, linked by its losses, with its cost as a '
                       'function of the flow; flows, voltages and multipliers are reported per line and the case comes back as given')
    for lab, s in S.items():
        def go():
            f = facts(s)
            opf = s.get('opf', True)
            nb, ng, nd = len(f['bus']), len(f['gen']), len(f['lines'])
            C, R = k.ctx(), k.ctx()

            def args(C):
                x = C.ctable('answer', ng + 2 * nd, 25 if opf else 21, {0: f['gbus'] + [e[0] for e in f['ends']] + [e[1] for e in f['ends']]})
                return [case(C, s), C.dict({'bus': Const(nb), 'gen': Const(ng), 'line': Const(nd)}), x, Const(opf)]
            v = C.call('spec.dclines', 'dclines', *args(C))
            w = R.call('spec.dclines', 'dclines_ref', *(args(R) + [R.dict({a: Const(None) if b is None else lift(R, b) for a, b in f.items()})]))
            k.compare('dc lines', k.where('toggle_dcline', 'userfcn_dcline_ext2int'), 'dc lines [%s]' % lab, C, v, R, w, case_valuation)
        k.guarded('dc lines [%s]' % lab, go)
