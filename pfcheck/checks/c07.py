from ..domain import case_valuation
from ..harness import *
from ..interp import INF
NEED = 3
EXPLANATION = ('Abstract interpretation of pfsoln; every column of the three result tables is compared with the reference '
               'formulas of the solved operating point.')
ASSUMPTIONS = ['every reference bus has a running generator', 'eps regularisation in the Q split is treated as 0 (tolerance 1e-6)']


def args(C):
    P.declare('V', polar=True)
    return [C.sym('baseMVA'), C.table('bus'), C.table('gen'), C.table('branch'), C.mat('Y', 'nb', 'nb', 'c', 'sp', False),
            C.mat('Yf', 'nl', 'nb', 'c', 'sp', False), C.mat('Yt', 'nl', 'nb', 'c', 'sp', False), C.vec('V', 'nb', 'c', polar=True),
            C.vec('ref', 1, 'i'), C.vec('pv', 'npv', 'i'), C.vec('pq', 'npq', 'i')]


def multi(s):
    """several units per bus, some buses with zero reactive range"""
    V = case_valuation(s, ng=5 if s % 3 else 1, nb=3 if s % 3 else 4)
    V.tol = 1e-4       # eps regularisation
    g = V.atoms['gen']
    if s % 2 == 0:
        for row in g:
            if row[0] == g[0][0]:
                row[3] = row[4] = 11.0 + row[1] / 7
    return V


def check(k):
    k.wide = {'V': (-4, 1), ('bus', 2): (-4, 2), ('bus', 3): (-4, 2)}
    k.rule('solution', 'result tables are the stated functions of the solved voltages')
    k.ref('solution', 'bus,gen,branch', ('pfsoln', 'pfsoln'), ('network', 'solution'), args, vals=multi)
    k.rule('references', 'at every reference bus the first running unit supplies what the others do not')
    for n, (u, ref) in REFERENCES.items():
        k.ref('references', n, ('pfsoln', 'pfsoln'), ('network', 'solution'), lambda C: few(C, u, ref), vals=small)
    k.rule('unbounded', 'units whose reactive limits are infinite share the output with finite stand-ins for those limits')
    for n, u in UNBOUNDED.items():
        k.ref('unbounded', n, ('pfsoln', 'pfsoln'), ('network', 'solution'), lambda C: few(C, u), vals=small)


# units: (bus, status, QMAX, QMIN); None: symbolic finite
UNBOUNDED = {
    'all limits infinite': [(1, 1, INF, -INF), (1, 1, INF, -INF), (0, 1, INF, -INF)],
    'upper limits infinite': [(0, 1, INF, None), (1, 1, INF, None), (1, 1, INF, None)],
    'one of two units': [(2, 1, None, None), (2, 1, INF, -INF), (0, 1, None, -INF), (2, 0, INF, None)],
    'alone': [(0, 1, -INF, -INF), (1, 1, None, -INF), (2, 1, INF, None)],
}


REFERENCES = {
    'two references': ([(2, 1, None, None), (0, 0, None, None), (2, 2, None, None), (0, 1, None, None)], [0, 2]),
    'three references': ([(2, 1, None, None), (1, 1, None, None), (0, -1, None, None), (0, 1, None, None), (1, 1, None, None)], [2, 0, 1]),
}


def few(C, u, ref=(0,)):
    """three buses in a row"""
    P.declare('V', polar=True)
    P.declare('cQ', real=True)
    bus = C.ctable('bus', 3, 13, {0: [0, 1, 2], 1: [3, 2, 2]})
    gen = C.ctable('gen', len(u), 21, {0: [x[0] for x in u], 7: [x[1] for x in u], 3: [x[2] for x in u], 4: [x[3] for x in u]})
    branch = C.ctable('branch', 2, 17, {0: [0, 1], 1: [1, 2], 10: [1, 1]})
    n, m = cdim(3), cdim(2)
    return [C.sym('baseMVA'), bus, gen, branch, C.mat('Y', n, n, 'c', 'sp', False), C.mat('Yf', m, n, 'c', 'sp', False),
            C.mat('Yt', m, n, 'c', 'sp', False), C.vec('V', n, 'c', polar=True), C.arr(const_vec(list(ref), 'i')),
            C.arr(const_vec([i for i in range(3) if i not in ref], 'i')), C.arr(const_vec([], 'i'))]


def small(s):
    V = case_valuation(s)
    V.tol = 1e-4
    return V
