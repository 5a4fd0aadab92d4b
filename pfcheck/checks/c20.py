from ..harness import *
from ..interp import INF as FAR
from ..domain import case_valuation
NEED = 20
EXPLANATION = ('pips is interpreted on problems with symbolic quadratic-quartic cost, symbolic linear rows and curved nonlinear constraints, for '
               'every outcome of its convergence and step length tests within a bounded number of iterations; solution, cost, flag, iteration '
               'count and every multiplier are compared with the reference interior point method.')
ASSUMPTIONS = ['small numbers of variables and constraints, at most two iterations', 'linear solves are exact and never produce nan']
INF = float('inf')


# one bound pair for each kind of row: equal, above only, below only, both, free, far (but finite) above
def bounds(kinds):
    lo = [{'e': .3, 'u': -INF, 'd': -.4, 'b': -1.7, 'f': -INF, 'w': -.8}[b] + .01 * i for i, b in enumerate(kinds)]
    hi = [{'e': .3, 'u': .6, 'd': INF, 'b': 1.9, 'f': INF, 'w': 2e9}[b] + .01 * i for i, b in enumerate(kinds)]
    lo, hi = [round(x, 4) for x in lo], [round(x, 4) for x in hi]
    return lo, hi


def number(x):
    return FAR if x == INF else -FAR if x == -INF else P.const(x)


def problem(C, n, rows, nn=0, mn=0):
    lo, hi = bounds(rows)
    m = len(rows)
    P.declare('W', real=True)
    W = [[P.const(1 if i == j else 0) if i < n else P.atom('W', P.const(i), P.const(j)) for j in range(n)] for i in range(m)]
    d = {'c': C.vec('c', n), 'Q': C.mat('Q', n, n), 'k': C.sym('k'), 'AA': C.arr(polymat(W)),
         'lo': C.polyvec([number(x) for x in lo]), 'hi': C.polyvec([number(x) for x in hi]), 'nonlinear': Const(bool(nn or mn)),
         'G': C.mat('G', nn, n), 'g0': C.vec('g0', nn), 'H': C.mat('H', mn, n), 'h0': C.vec('h0', mn)}
    d['kinds'] = C.I.newlist(C.st, [C.I.newlist(C.st, [Const(i) for i, b in enumerate(rows) if b in t]) for t in ('e', 'u', 'd', 'bw')])
    return C.dict(d)


def options(C, mi, o):
    d = {} if o.get('few') else {'step_control': Const(o.get('sc', False)), 'max_red': Const(2), 'verbose': Const(0),
                                 'cost_mult': C.sym('cm', pos=True) if o.get('cm') else Const(1)}
    for t in ('feastol', 'gradtol', 'comptol', 'costtol'):
        d[t] = C.sym(t, pos=True)
    if o.get('forced'):
        # the relative change of the cost starts as zero, which is not below zero: at least one iteration is made
        d['costtol'] = Const(0)
    d['max_it'] = Const(mi)
    return C.dict(d)


# start and cost that make a bound's price shrink twice by the largest step
SMALL = [(9.9, -11.9), (12.6, -16.2), (11.6, 13.7), (-6.7, -2.4), (9.9, -10.7)]


def vals(seed, n, m, nn, mn, small=False, steep=False, wild=False):
    V = case_valuation(seed)
    r = V.r
    u = lambda a, b: round(r.uniform(a, b), 4)
    A = [[u(-1, 1) for j in range(n)] for i in range(n)]
    Q = [[sum(A[i][k] * A[j][k] for k in range(n)) + (i == j) for j in range(n)] for i in range(n)]
    V.atoms.update(c=[u(-1, 1) for i in range(n)], Q=Q, k=u(0, .3), W=[[u(-1, 1) for j in range(n)] for i in range(m)],
                   G=[[u(-1, 1) for j in range(n)] for i in range(nn)], g0=[u(-.5, .5) for i in range(nn)],
                   H=[[u(.2, 1) for j in range(n)] for i in range(mn)], h0=[u(-1, .5) for i in range(mn)],
                   x0=[u(-.5, .5) for i in range(n)], cm=u(.3, 3))
    for t in ('feastol', 'gradtol', 'comptol', 'costtol'):
        V.atoms[t] = r.choice([1e-6, .1, .5, 5])
    if small:
        # too few iterations to converge, but steep enough for a negligible price
        V.atoms.update(c=list(SMALL[seed % len(SMALL)]), Q=[[2, .5], [.5, 1]], k=.1, x0=[.1, -.2], gradtol=1e-6, comptol=1e-6,
                       feastol=[1e-6, 50][seed % 2])
    if steep:
        # the first step is cut to almost nothing
        V.atoms.update(c=[r.choice([-1, -1, 1]) * u(1, 9) * 1e9 for i in range(n)], k=.1, gradtol=1e-6, feastol=[1e-6, 50][seed % 2])
    if wild:
        # the full step overshoots by far
        V.atoms.update(c=[r.choice([-1, 1]) * u(.5, 3) for i in range(n)], Q=[[.01 * (i == j) for j in range(n)] for i in range(n)], k=u(.5, 2),
                       feastol=1e-6, gradtol=1e-6, x0=[u(-.1, .1) for i in range(n)])
    V.tol = 1e-7
    return V


# variables, rows, nonlinear equalities, nonlinear inequalities, iterations, call form, options
CASES = [
    (2, 'ff', 0, 0, (0, 1, 2), '', {}),
    (2, 'ff', 0, 0, (0, 1), 'unbounded', {}),
    (2, 'ub', 0, 0, (0, 1), 'dict', {}),
    (2, 'ff', 0, 0, (2,), '', {'cm': True}),
    (2, 'eb', 0, 0, (2,), '', {'cm': True}),
    (2, 'ub', 0, 0, (2,), '', {'small': True}),
    (2, 'fdeu', 0, 0, (0, 1), '', {'cm': True}),
    (2, 'fbde', 1, 0, (0, 1), '', {}),
    (2, 'ffb', 0, 2, (0, 1), 'unbounded', {}),
    (2, 'fuud', 1, 1, (0, 1), 'dict', {'cm': True}),
    (2, 'fb', 0, 0, (1,), '', {'sc': True}),
    (2, 'fb', 1, 1, (1,), '', {'sc': True, 'cm': True}),
    (2, 'bu', 1, 0, (1,), '', {'forced': True}),
    (2, 'fed', 0, 1, (1,), 'dict', {'forced': True, 'sc': True}),
    (2, 'eb', 0, 0, (0,), '', {'few': True}),
    (2, 'fwu', 0, 0, (0, 1), '', {}),
    (2, 'ub', 0, 0, (1, 2), '', {'steep': True}),
    (2, 'ub', 0, 1, (1,), '', {'steep': True}),
    (2, 'fb', 0, 0, (1,), '', {'sc': True, 'wild': True}),
    (2, 'fe', 1, 0, (1,), '', {'sc': True, 'wild': True}),
    (2, 'fe', 1, 0, (1,), '', {'sc': True}),
    (2, 'ff', 0, 2, (1,), '', {'sc': True, 'wild': True}),
]


def check(k):
    k.rule('method', 'solution, objective, exit flag, iteration count and multipliers are those of the interior point method')
    k.rule('inputs kept', 'starting point, bounds, matrices and options of the caller are left as they were')
    where = k.where('pips', 'pips')
    for n, rows, nn, mn, its, form, o in CASES:
        for mi in sorted(set(its) | {2}) if k.thorough else its:
            lab = 'pips [%s, %d+%d nonlinear, %sat most %d iterations%s]' % (
                rows, nn, mn, form + ', ' if form else '', mi, ''.join(', ' + x for x in sorted(o)))

            def go():
                C, R = k.ctx(max_steps=3000000), k.ctx(max_steps=3000000)
                for X in (C, R):
                    X.I.unroll = 4
                    X.I.letsize = 3
                    X.I.nonan = True
                a, b = [(problem(X, n, rows, nn, mn), X.vec('x0', n), options(X, mi, o))
                        for X in (C, R)]
                v = C.call('spec.ips', 'code', *(a + (Const(form),)))
                w = R.call('spec.ips', 'solve', *b)
                f = lambda s: vals(s, n, len(rows), nn, mn, bool(o.get('small')), o.get('steep'), o.get('wild'))
                r, q = C.I.seq_items(v.items[0], C.st), R.I.seq_items(w, R.st)
                if mi and not o.get('forced'):
                    # the length of the history depends on the path
                    r, q = r[:9] + r[11:], q[:9] + q[11:]
                if o.get('steep'):
                    # rounding: only what was reported, not where the step ended
                    r, q = r[2:5], q[2:5]
                k.compare('method', where, lab, C, Tup(r), R, Tup(q), f)
                k.compare('inputs kept', where, lab + ' arguments', C, v.items[1], R, R.call('spec.ips', 'same', *b), f)
            k.guarded(lab, go)
