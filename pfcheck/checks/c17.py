from ..harness import *
from ..domain import case_valuation
NEED = 20
EXPLANATION = ('qps_pips and qps_pypower are interpreted with the solvers replaced by recorders; the problem each solver is asked to solve '
               '(its objective function probed at a symbolic point, constraints, bounds, start and options), the choice of solver and what '
               'is handed back are compared with the documented quadratic program.')
ASSUMPTIONS = ['the Hessian matrix is symmetric', 'the solver called solves what it is asked (C20 for the built-in one)']
N, M = 3, 2
ARGS = 'H c A l u xmin xmax x0 opt'.split()
OUT = ['x', 'f', 'eflag', 'output', 'lmbda']


def arguments(C, given, opt=None):
    P.declare('Q', real=True)
    Q = lambda i, j: P.atom('Q', P.const(min(i, j)), P.const(max(i, j)))
    d = {'H': lambda: C.arr(polymat([[Q(i, j) for j in range(N)] for i in range(N)], kind='sp')),
         'c': lambda: C.vec('c', N), 'A': lambda: C.arr(polymat([[P.const(3 * i + 2 * j + 1) for j in range(N)] for i in range(M)], kind='sp')),
         'l': lambda: C.vec('l', M), 'u': lambda: C.vec('u', M), 'xmin': lambda: C.vec('xmin', N), 'xmax': lambda: C.vec('xmax', N),
         'x0': lambda: C.vec('x0', N), 'opt': lambda: opt(C) if opt else C.dict({'feastol': C.sym('tol'), 'max_it': Const(7)})}
    return [d[a]() if a in given else NONE for a in ARGS]


def solution(I, st, C):
    d = {k: scalar(P.atom('sol_' + k)) for k in OUT}
    d['x'] = C.vec('sol_x', N)
    d['output'] = I.newdict(st, {'iterations': Const(5)})
    d['lmbda'] = I.newdict(st, {'mu_l': C.vec('sol_mu', M)})
    return d


def record(C, log):
    """solvers that note what they are asked"""
    def pips(I, st, args, kw):
        z = C.vec('z', N)
        f = C.func('spec.qp', 'asked')
        log.append(('pips', I.call(f, [args[0], z], {}, st, None)))
        return I.newdict(st, solution(I, st, C))

    def other(name):
        def fn(I, st, args, kw):
            a = dict(zip(ARGS, args))
            a.update(kw)
            log.append((name, Tup([a.get(x, NONE) for x in ARGS])))
            d = solution(I, st, C)
            return Tup([d[k] for k in OUT])
        return PyFunc(fn, name)
    C.I.overrides['pypower.pips.pips'] = PyFunc(pips, 'pips')
    for s in ('ipopt', 'cplex', 'mosek', 'gurobi'):
        C.I.overrides['pypower.qps_%s.qps_%s' % (s, s)] = other(s)


def vals(seed):
    V = case_valuation(seed)
    r = V.r
    V.atoms['z'] = [0] * N if seed % 4 == 0 else [r.choice([0, r.uniform(-2, 2)]) for i in range(N)]
    return V


GIVEN = {
    'everything': ARGS,
    'no start and bounds': 'H c A l u'.split(),
    'no constraints': 'H c xmin xmax x0 opt'.split(),
    'linear cost': 'c A l u xmin xmax x0 opt'.split(),
    'linear cost, bounds only': 'c xmin xmax'.split(),
    'linear cost, upper bounds only': 'c xmax'.split(),
    'linear cost, constraints only': 'c A l u'.split(),
    'no cost': 'A l u xmin xmax'.split(),
    'one-sided constraints': 'H c A u xmin'.split(),
}


def check(k):
    k.rule('problem posed', 'the solver is asked for the minimum of x\'Hx/2 + c\'x under the given constraints, from the given start with the '
                            'given options; its answer is handed back')
    k.rule('choice', 'the solver asked for runs; without preference the first one installed of cplex, mosek, gurobi, else the built-in one')
    k.rule('inputs kept', 'the problem of the caller is left as it was')
    for form in ('args', 'dict'):
        for name in GIVEN:
            lab = 'qps_pips %s [%s]' % (form, name)

            def go():
                C, R = k.ctx(), k.ctx()
                log = []
                record(C, log)
                w = k.where('qps_pips', 'qps_pips')
                a = arguments(C, GIVEN[name])
                v = C.call('spec.qp', 'direct', Const(form), *a)
                b = arguments(R, GIVEN[name])
                if len(log) != 1:
                    return k.violate('problem posed', w, lab, 'the solver is called %d times' % len(log))
                e = R.call('spec.qp', 'posed', *(b + [Const(N), R.vec('z', N)]))
                k.compare('problem posed', w, lab, C, log[0][1], R, e, vals)
                d = solution(R.I, R.st, R)
                k.compare('problem posed', w, lab + ' answer', C, v.items[0], R, R.I.newlist(R.st, [d[x] for x in OUT]), vals)
                k.compare('inputs kept', w, lab + ' caller', C, v.items[1], R, R.call('spec.qp', 'kept', Const(form), *b), vals)
            k.guarded(lab, go)
    OPT = {
        'nothing': lambda C, alg: C.dict({}),
        'alg': lambda C, alg: C.dict({'alg': Const(alg)}),
        'all': lambda C, alg: C.dict({'alg': Const(alg), 'verbose': Const(0), 'max_it': C.sym('mi'),
                                      'pips_opt': C.dict({'feastol': C.sym('tol'), 'max_it': Const(3), 'step_control': Const(alg == 200)})}),
        'pips only': lambda C, alg: C.dict({'alg': Const(alg), 'verbose': Const(2), 'pips_opt': C.dict({'cost_mult': C.sym('cm')})}),
    }
    have = [(), ('gurobipy',), ('mosek', 'gurobipy'), ('cplex', 'mosek', 'gurobipy'), ('mosek',)]
    names = {200: 'pips', 250: 'pips', 400: 'ipopt', 500: 'cplex', 600: 'mosek', 700: 'gurobi'}
    runs = [(0, o, h) for o in ('nothing', 'alg') for h in have] + \
        [(a, o, have[3]) for a in names for o in ('alg', 'all', 'pips only')]
    for form in ('args', 'dict'):
        for alg, o, h in runs:
            lab = 'qps_pypower %s [alg %d, options %s, installed: %s]' % (form, alg, o, ' '.join(h) or 'none')

            def go2():
                C, R = k.ctx(), k.ctx()
                log = []
                record(C, log)
                C.I.overrides['pypower.util.have_fcn'] = PyFunc(lambda I, st, args, kw: Const(args[0].v in h), 'have_fcn')
                w = k.where('qps_pypower', 'qps_pypower')
                mk = lambda X: arguments(X, ARGS, lambda Y: OPT[o](Y, alg))
                a = mk(C)
                v = C.call('spec.qp', 'chosen', Const(form), *a)
                b = mk(R)
                want = names[alg] if alg else 'cplex' if 'cplex' in h else 'mosek' if 'mosek' in h else 'gurobi' if h else 'pips'
                if len(log) != 1 or log[0][0] != want:
                    return k.violate('choice', w, lab, 'runs %s instead of %s' % (' '.join(x[0] for x in log) or 'nothing', want))
                k.ok(lab + ' choice')
                if want == 'pips':
                    op = R.call('spec.qp', 'pips_options', b[-1], Const(alg == 250))
                    e = R.call('spec.qp', 'posed', *(b[:-1] + [op, Const(N), R.vec('z', N)]))
                else:
                    e = Tup(b)
                k.compare('problem posed', w, lab, C, log[0][1], R, e, vals)
                d = solution(R.I, R.st, R)
                cell = dict(R.I.cell(R.st, d['output']).items)
                cell['alg'] = Const(alg or {'cplex': 500, 'mosek': 600, 'gurobi': 700, 'pips': 200}[want])
                d['output'] = R.dict(cell)
                k.compare('problem posed', w, lab + ' answer', C, v.items[0], R, R.I.newlist(R.st, [d[x] for x in OUT]), vals)
                p = [x for _, x in sorted(zip(ARGS, b), key=lambda t: t[0])]
                k.compare('inputs kept', w, lab + ' caller', C, v.items[1], R, R.I.newlist(R.st, p + [Const(len(ARGS))]), vals)
            k.guarded(lab, go2)
    for alg in (100, 300, 800):
        lab = 'qps_pypower [alg %d]' % alg

        def go3():
            C = k.ctx()
            log = []
            record(C, log)
            C.I.overrides['pypower.util.have_fcn'] = PyFunc(lambda I, st, args, kw: Const(True), 'have_fcn')
            try:
                C.call('spec.qp', 'chosen', Const('args'), *arguments(C, ARGS, lambda Y: OPT['alg'](Y, alg)))
            except RaiseOut:
                pass
            C.I.events[:] = []
            if log:
                return k.violate('choice', k.where('qps_pypower', 'qps_pypower'), lab, 'an unknown algorithm code runs ' + log[0][0])
            k.ok(lab)
        k.guarded(lab, go3)
