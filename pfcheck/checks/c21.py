import cmath
from ..harness import *
from ..domain import case_valuation
from ..deriv import jac
from . import c08, c10, c11
NEED = 20
EXPLANATION = ('The step equation and its gradient, the predictor and the corrector of the continuation power flow are interpreted for every '
               'parameterization and outcome of the convergence test; runcpf is interpreted from the two cases to the reported curve with '
               'the numerical steps replaced by arbitrary answers.')
ASSUMPTIONS = ['at most two corrector iterations; every further iteration repeats the same code', 'linear solves are exact',
               'base and target case have the same equipment']
N = 3
TYPES = {'one of each': [1, 3, 2], 'no controlled bus': [1, 3, 1], 'no load bus': [2, 3, 2]}


def inputs(C, t):
    for n in ('V', 'Vprv'):
        P.declare(n, polar=True)
    C.I.unroll, C.I.letsize = 5, 6
    nb = cdim(N)
    C.I.nonan = True
    return dict(Y=C.mat('Y', nb, nb, 'c', 'sp', False), S=C.vec('S', nb, 'c'), X=C.vec('X', nb, 'c'), V=C.vec('V', nb, 'c', polar=True),
                Vprv=C.vec('Vprv', nb, 'c', polar=True), lam=C.sym('lam'), lamprv=C.sym('lamprv'), step=C.sym('step', pos=True),
                z=direction(C, t), ref=lst(C, t, 3), pv=lst(C, t, 2), pq=lst(C, t, 1), tol=C.sym('tol'))


def lst(C, t, c):
    return C.arr(const_vec([i for i, x in enumerate(t) if x == c], 'i'))


def direction(C, t):
    """previous direction: nonzero for the unknowns only"""
    P.declare('z', real=True)
    on = [x != 3 for x in t] + [x == 1 for x in t] + [True]
    return C.polyvec([P.atom('z', P.const(i)) if x else ZERO for i, x in enumerate(on)])


def vals(t):
    def f(seed):
        V = c08.vals(seed, N, t)
        r = V.r
        u = V.atoms['V0']
        d = .3 if seed % 3 else 1e-4
        V.atoms.update(V=u, Vprv=[v * cmath.rect(1 + d * r.uniform(-.1, .1), d * r.uniform(-.3, .3)) for v in u],
                       X=[complex(r.uniform(-1, 1), r.uniform(-1, 1)) for i in range(N)], lam=r.uniform(0, .5), step=d * r.uniform(.1, 1),
                       z=[r.uniform(-1, 1) for i in range(2 * N + 1)])
        V.atoms['S'] = [s - V.atoms['lam'] * x for s, x in zip(V.atoms['S'], V.atoms['X'])]
        V.atoms['lamprv'] = r.choice([V.atoms['lam'], V.atoms['lam'] + d * r.uniform(-1, 1)])
        return V
    return f


def seq(a, names):
    return [a[n] for n in names.split()]


def check(k):
    k.rule('step equation', 'the step equation is the distance from the previous point (in lambda, along the arc, along the direction) less the step')
    k.rule('gradient', 'the gradient is the exact derivative of the step equation; on the spot it points to increasing lambda')
    k.rule('predictor', 'the predicted point lies one step along the normalised tangent of the curve')
    k.rule('corrector', 'the corrector takes Newton steps on power balance and step equation; its flag is the mismatch test at the point returned')
    k.rule('inputs kept', 'the arguments are left as they were')
    k.rule('run', 'the curve runs from the base case in the direction of the target, each step from the last point; it stops where asked, '
                  'and the tables reported are those of the last point')
    for n, d in RUNS.items():
        def go():
            R = k.ctx()
            f, _ = c10.facts(S)
            if d.get('same'):
                return run(k, n, d)
            with P.assuming([R.A(R.call('spec.cpf', 'transfer', *(list(cases(R)) + [c11.dct(R, f)]))).p()]):
                run(k, n, d)
        k.guarded('runcpf ' + n, go)
    for tn, t in TYPES.items():
        for kind in (1, 2, 3):
            one(k, tn, t, kind)


def one(k, tn, t, kind):
    lab = '[%s, parameterization %d]' % (tn, kind)
    f = vals(t)

    def equation():
        C, R = k.ctx(), k.ctx()
        a, b = inputs(C, t), inputs(R, t)
        v = C.call('cpf_p', 'cpf_p', Const(kind), *seq(a, 'step z V lam Vprv lamprv pv pq'))
        w = R.call('spec.cpf', 'equation', Const(kind), *seq(b, 'step z V lam Vprv lamprv pv pq'))
        k.compare('step equation', k.where('cpf_p', 'cpf_p'), 'cpf_p %s' % lab, C, C.call('spec.cpf', 'flat', v), R, R.call('spec.cpf', 'flat', w), f)
    k.guarded('cpf_p ' + lab, equation)

    def gradient():
        C, R = k.ctx(), k.ctx()
        a, b = inputs(C, t), inputs(R, t)
        v = C.call('cpf_p_jac', 'cpf_p_jac', Const(kind), *seq(a, 'z V lam Vprv lamprv pv pq'))
        w = R.call('spec.cpf', 'gradient', Const(kind), *seq(b, 'z V lam Vprv lamprv pv pq'))
        k.compare('gradient', k.where('cpf_p_jac', 'cpf_p_jac'), 'cpf_p_jac %s' % lab, C, v, R, w, f)
    k.guarded('cpf_p_jac ' + lab, gradient)

    def predict():
        C, R = k.ctx(), k.ctx()
        a, b = inputs(C, t), inputs(R, t)
        kept = 'V lam Y X pv pq step Vprv lamprv'
        v = C.call('cpf_predictor', 'cpf_predictor', *(seq(a, 'V lam Y X pv pq step z Vprv lamprv') + [Const(kind)]))
        w = R.call('spec.cpf', 'predictor', *(seq(b, 'V lam Y X pv pq step z Vprv lamprv') + [Const(kind)]))
        wh = k.where('cpf_predictor', 'cpf_predictor')
        k.compare('predictor', wh, 'cpf_predictor %s' % lab, C, v, R, w, f)
        k.compare('inputs kept', wh, 'cpf_predictor %s arguments' % lab, C, Tup(seq(a, kept)), R, Tup(seq(b, kept)), f)
    k.guarded('cpf_predictor ' + lab, predict)

    def correct(mi):
        C, R = k.ctx(max_steps=3000000), k.ctx(max_steps=3000000)
        a, b = inputs(C, t), inputs(R, t)
        names = 'Y S V ref pv pq lam X Vprv lamprv z step'
        o = C.dict({'PF_TOL': a['tol'], 'PF_MAX_IT': Const(mi), 'VERBOSE': Const(0), 'PF_LIN_SOLVER_NR': Const('')})
        v = C.call('cpf_corrector', 'cpf_corrector', *(seq(a, names) + [Const(kind), o]))
        w = R.call('spec.cpf', 'corrector', *(seq(b, names) + [Const(kind), b['tol'], Const(mi)]))
        wh = k.where('cpf_corrector', 'cpf_corrector')
        v = C.I.seq_items(v, C.st)
        v[3] = C.call('spec.cpf', 'flat', v[3])
        w = R.I.seq_items(w, R.st)
        w[3] = R.call('spec.cpf', 'flat', w[3])
        k.compare('corrector', wh, 'cpf_corrector %s, at most %d iterations' % (lab, mi), C, C.I.newlist(C.st, v), R, R.I.newlist(R.st, w), f)
        k.compare('inputs kept', wh, 'cpf_corrector %s, %d, arguments' % (lab, mi), C, Tup(seq(a, names)), R, Tup(seq(b, names)), f)

    def talk(v):
        C = k.ctx(max_steps=3000000)
        a = inputs(C, t)
        o = C.dict({'PF_TOL': a['tol'], 'PF_MAX_IT': Const(1), 'VERBOSE': Const(v), 'PF_LIN_SOLVER_NR': Const('')})
        C.call('cpf_corrector', 'cpf_corrector', *(seq(a, 'Y S V ref pv pq lam X Vprv lamprv z step') + [Const(kind), o]))
        k.ok('cpf_corrector %s verbose=%d' % (lab, v))
    for v in (1, 2):
        k.guarded('cpf_corrector %s verbose %d' % (lab, v), lambda: talk(v))
    for mi in (0, 1, 2):
        k.guarded('cpf_corrector %s %d' % (lab, mi), lambda: correct(mi))


# -- the whole run: answers of the numerical steps are arbitrary; lambda follows a script (predicted, corrected)
S = dict(c11.S['mixed'], narrow=True)
RUNS = {
    'nose': dict(stop='NOSE', lam=[(.05, .04), (.09, .1), (.15, .1), (.15, .08)]),
    'nose, corrector fails': dict(stop='NOSE', lam=[(.05, .04), (.09, .1)], ok=0),
    'full': dict(stop='FULL', lam=[(.05, .08), (.13, .1), (.15, .07), (.04, .03), (0, 0)]),
    'full, lower case': dict(stop='full', lam=[(.05, .04), (.03, .06), (.02, 1e-9)]),
    'target': dict(stop=.12, lam=[(.05, .04), (.09, .1), (.12, .12)]),
    'target reached at once': dict(stop=.05, lam=[(.05, .05)]),
    'target beyond the nose': dict(stop=2, lam=[(.05, .04), (.09, .03)]),
    'whole target': dict(stop=1, step=.6, lam=[(.6, .6), (1., 1.)]),
    'natural parameter': dict(stop='NOSE', lam=[(.05, .05), (.1, .09), (.14, .08)], kind=1),
    'adaptive': dict(stop='NOSE', lam=[(.05, .04), (.09, .1), (.1, .08)], adapt=True),
    'adaptive to target': dict(stop=.12, lam=[(.05, .04), (.08, .118), (.12, .12)], adapt=True),
    'nose, verbose': dict(stop='NOSE', lam=[(.05, .04), (.09, .03)], verbose=3),
    'target, verbose': dict(stop=.05, lam=[(.05, .04), (.05, .05)], verbose=2),
    'corrector fails, verbose': dict(stop='NOSE', lam=[(.05, .04)], verbose=2, ok=0),
    'no transfer': dict(stop='NOSE', lam=[], same=True),
    'integer tables': dict(stop='NOSE', lam=[(.05, .04), (.05, .03)], whole=True),
}


def cases(C, whole=False, same=False):
    a = c11.case(C, S, whole=whole)
    if same:
        return a, c11.case(C, S, whole=whole)
    nb, ng, nl = len(S['bus']), len(S['gbus']), len(S['f'])
    t = [C.ctable('bus', nb, 13, {0: S['bus'], 1: S['type']}, atom='tbus'), C.ctable('gen', ng, 21, {0: S['gbus'], 7: S['gst']}, atom='tgen'),
         C.ctable('branch', nl, 13, {0: S['f'], 1: S['t'], 10: S['bst']}, atom='tbranch')]
    if whole:
        t = [c11.integer(C, x) for x in t]
    b = C.dict({'version': Const('2'), 'baseMVA': C.sym('tbase', pos=True), 'bus': t[0], 'gen': t[1], 'branch': t[2]})
    return a, b


def answers(C, n, d):
    nb = cdim(n)
    out = []
    for i, (p, c) in enumerate(d['lam']):
        out.append([C.vec('Vp%d' % i, nb, 'c', polar=True), Const(p), C.vec('z%d' % i, cdim(2 * n + 1)),
                    C.vec('Vc%d' % i, nb, 'c', polar=True), Const(c), Const(3 + i)])
    return C.vec('Vbase', nb, 'c', polar=True), out


def run(k, n, d):
    C, R = k.ctx(), k.ctx()
    for X in (C, R):
        X.I.unroll = 8
        X.I.nonan = True
    c11.quiet(C)
    f, _ = c10.facts(S)
    nb = len(f['bus'])
    steps = d['lam']
    ok = d.get('ok', 1)
    first, seq_ = answers(C, nb, d)
    log = []

    def flow(I, st, args, kw):
        log.append(list(args[:6]))
        return Tup([first, Const(1), Const(4)])

    def predict(I, st, args, kw):
        log.append([I.newarr(st, I.arr_of(st, x)) if i == 7 else x for i, x in enumerate(args)])
        x = seq_[min(len(log) // 2, len(steps)) - 1] if len(log) % 2 == 0 else seq_[-1]
        return Tup(x[:3])

    def correct(I, st, args, kw):
        log.append(list(args[:-1]))
        i = min(len(log) // 2, len(steps)) - 1
        x = seq_[i]
        return Tup([x[3], Const(ok if i == len(steps) - 1 else 1), x[5], x[4]])
    for m, g in (('newtonpf', flow), ('cpf_predictor', predict), ('cpf_corrector', correct)):
        C.I.overrides['pypower.%s.%s' % (m, m)] = PyFunc(g)
    kind, step, adapt = d.get('kind', 3), d.get('step', .05), d.get('adapt', False)
    kw = dict(CPF_PARAMETERIZATION=kind, CPF_STOP_AT=d['stop'], CPF_STEP=step, CPF_ADAPT_STEP=adapt, CPF_ERROR_TOL=1e-3, CPF_STEP_MIN=1e-3,
              CPF_STEP_MAX=.3, VERBOSE=d.get('verbose', 0))
    out = C.I.seq_items(C.call('spec.cpf', 'run', *(list(cases(C, d.get('whole'), d.get('same'))) + [c11.options(C, **kw)])), C.st)
    first, rs = answers(R, nb, d)
    stop = d['stop'].upper() if isinstance(d['stop'], str) else d['stop']
    w = R.call('spec.cpf', 'curve', *(list(cases(R, same=d.get('same'))) + [c11.dct(R, f), first, R.I.newlist(R.st, [R.I.newlist(R.st, x) for x in rs])] +
               [Const(x) for x in (bool(ok), stop, step, kind, adapt, 1e-3, 1e-3, .3)]))
    asked = C.I.newlist(C.st, [C.I.newlist(C.st, x) for x in log])
    k.compare('run', k.where('runcpf', 'runcpf'), 'runcpf [%s]' % n, C, Tup([asked] + out), R, w, run_vals)


def run_vals(seed):
    V = c11.vals(seed)
    r = V.r
    V.atoms['tbase'] = r.choice([10., 100.])
    for i in range(6):
        near = r.choice([1e-4, .05])
        v = [cmath.rect(r.uniform(.9, 1.1), r.uniform(-.5, .5)) for j in range(6)]
        V.atoms['Vc%d' % i] = v
        V.atoms['Vp%d' % i] = [x * cmath.rect(1 + near * r.uniform(-1, 1), near * r.uniform(-1, 1)) for x in v]
    return V
