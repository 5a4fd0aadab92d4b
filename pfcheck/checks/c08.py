import cmath
from ..harness import *
from ..domain import case_valuation
NEED = 30
EXPLANATION = ('newtonpf, fdpf and gausspf are interpreted for every outcome of the convergence test within a bounded number of iterations '
               '(loop unrolled under symbolic tests); voltages, convergence flag and iteration count are compared with the reference '
               'iteration, whose flag is by construction the mismatch test at the returned voltages.')
ASSUMPTIONS = ['at most two iterations (three in the thorough tier); every further iteration repeats the same code',
               'linear solves are exact']


def inputs(C, b=False, n=None, own=True):
    P.declare('V0', polar=True)
    C.I.unroll = 5
    C.I.letsize = 6 if n else 0
    nb = cdim(n) if n else 'nb'
    a = [C.mat('Y', nb, nb, 'c', 'sp', False), C.vec('S', nb, 'c'), C.vec('V0', nb, 'c', polar=True)]
    if b:
        a += [C.mat('Bp', nb, nb, kind='sp'), C.mat('Bpp', nb, nb, kind='sp')]
    return a


def types(C, t=None):
    if t:
        return [C.arr(const_vec([i for i, x in enumerate(t) if x == c], 'i')) for c in (3, 2, 1)]
    return [C.vec('ref', 1, 'i'), C.vec('pv', 'npv', 'i'), C.vec('pq', 'npq', 'i')]


def options(C, mi, verbose=0, other=0):
    return C.dict({'PF_TOL': C.sym('tol'), 'PF_MAX_IT': Const(mi[0]), 'PF_MAX_IT_FD': Const(mi[1]), 'PF_MAX_IT_GS': Const(mi[2]),
                   'VERBOSE': Const(verbose), 'PF_LIN_SOLVER_NR': Const('')})


def vals(seed, n=None, types=None):
    """nearly solved, diagonally dominant problems with tolerances around the mismatches met"""
    V = case_valuation(seed, nb=n)
    r = V.r
    n = V.sizes['nb']
    if types:
        for c, x in ((3, 'ref'), (2, 'pv'), (1, 'pq')):
            V.atoms[x] = [i for i, t in enumerate(types) if t == c]
    Y = [[0] * n for i in range(n)]
    for i in range(n):
        for j in range(i):
            y = 1 / complex(r.uniform(.01, .1), r.uniform(.1, .5))
            Y[i][j] -= y
            Y[j][i] -= y * cmath.exp(0.1j * r.choice([0, 1]))
            Y[i][i] += y * r.choice([1, 1.03])
            Y[j][j] += y
    V0 = [cmath.rect(r.uniform(.95, 1.05), r.uniform(-.1, .1)) for i in range(n)]
    U = [v * cmath.rect(r.uniform(.97, 1.03), r.uniform(-.05, .05)) for v in V0]
    if seed % 4 == 0:
        U = [v * cmath.rect(1 + 1e-4 * r.uniform(-1, 1), 1e-4 * r.uniform(-1, 1)) for v in V0]
    flow = lambda W: [W[i] * (sum(Y[i][j] * W[j] for j in range(n))).conjugate() for i in range(n)]
    S = flow(U)
    if seed % 4 == 1:
        S = [-r.uniform(.5, 3) * abs(Y[i][i]) * cmath.exp(1j * r.uniform(-2, 2)) for i in range(n)]       # overloaded: wild steps
    mis = [x for a, b in zip(flow(V0), S) for x in (abs((a - b).real), abs((a - b).imag))]
    tol = r.choice([1e-6, 1e-3] + 4 * [r.choice(mis) * r.choice([.05, .2, .4, .7, 1.01]) or 1e-2])
    V.atoms.update(Y=Y, V0=V0, S=S, Bp=[[-z.imag for z in x] for x in Y], Bpp=[[-z.imag * 1.1 for z in x] for x in Y],
                   tol=tol)
    V.tol = 1e-7
    return V


def method(k, name, spec, b, slot, n=None, t=None, max_its=(0, 1, 2)):
    rule = 'iteration'
    where = k.where(name, name)
    for mi in max_its:
        def go():
            C, R = k.ctx(max_steps=3000000), k.ctx(max_steps=3000000)
            m = [77, 78, 79]
            m[slot] = mi
            a = inputs(C, b, n)
            v = C.call(name, name, *(a + types(C, t) + [options(C, m)]))
            w = R.call('spec.powerflow', spec, *(inputs(R, b, n) + types(R, t) + [R.sym('tol'), Const(mi)]))
            f = lambda s: vals(s, n, t)
            k.compare(rule, where, '%s, at most %d iterations: V, converged, iterations' % (name, mi), C, v, R, w, f)
            k.compare('inputs kept', where, '%s, at most %d iterations: arguments' % (name, mi), C, Tup(a), R, Tup(inputs(R, b, n)), f)
        k.guarded('%s %d' % (name, mi), go)
    for verbose in (1, 2, 3):
        def talk():
            C = k.ctx(max_steps=3000000)
            m = [77, 78, 79]
            m[slot] = 1
            C.call(name, name, *(inputs(C, b, n) + types(C, t) + [options(C, m, verbose)]))
            k.ok('%s verbose=%d' % (name, verbose))
        k.guarded('%s verbose=%d' % (name, verbose), talk)


def check(k):
    k.rule('iteration', 'the returned voltages, convergence flag and iteration count are those of the method; the flag is the mismatch '
                        'test at the returned voltages')
    k.rule('inputs kept', 'the arguments of the solver are left as they were')
    its = (0, 1, 2)
    method(k, 'newtonpf', 'newton', False, 0)
    method(k, 'fdpf', 'fast_decoupled', True, 1, max_its=its[:2])
    method(k, 'fdpf', 'fast_decoupled', True, 1, 3, [1, 3, 2], its[2:])
    method(k, 'gausspf', 'gauss_seidel', False, 2, 4, [1, 2, 3, 1])
    method(k, 'gausspf', 'gauss_seidel', False, 2, 3, [1, 3, 1])
    method(k, 'gausspf', 'gauss_seidel', False, 2, 3, [2, 3, 2])
    method(k, 'gausspf', 'gauss_seidel', False, 2, 4, [2, 2, 3, 2], its[:2])
