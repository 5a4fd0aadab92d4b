from ..harness import *
from ..domain import case_valuation
NEED = 60
EXPLANATION = ('Sequences of model-building calls are interpreted on variable sets of concrete sizes (including empty sets) with '
               'symbolic contents; assembled matrices, bounds, parameters, index ranges and costs are compared with the '
               'block structure the documentation states.')
ASSUMPTIONS = ['the quadratic coefficient matrix H of user costs is symmetric', 'set names are distinct']
SIZES = [dict(a=2, b=0, c=3, d=1, f=2), dict(a=1, b=2, c=1, d=2, f=1)]


def sizes(C, s):
    return C.dict({k: Const(v) for k, v in s.items()})


def sp(C, name, r, c):
    return C.mat(name, r, c, 'f', 'sp')


def lin_args(s):
    def args(C):
        a, b, c, d = s['a'], s['b'], s['c'], s['d']
        return [sizes(C, s), sp(C, 'A1', 2, c + a), C.vec('l1', cdim(2)), C.vec('u1', cdim(2)),
                sp(C, 'A2', 1, a + b + c), C.vec('l2', cdim(1)), C.vec('u2', cdim(1)),
                sp(C, 'A3', 2, b + d), C.vec('l3', cdim(2)), sp(C, 'A4', 1, d), C.vec('u4', cdim(1))]
    return args


def cost_args(s, regime=None):
    def args(C):
        a, b, c, d = s['a'], s['b'], s['c'], s['d']
        sym = lambda n, k: C.arr(polymat([[P.atom(n, P.const(min(i, j)), P.const(max(i, j))) for j in range(k)] for i in range(k)],
                                         kind='sp'))
        P.declare('Hp', real=True)
        P.declare('Hr', real=True)
        p = {'N': sp(C, 'Np', 2, c + a), 'Cw': C.vec('Cp', cdim(2)), 'H': sym('Hp', 2), 'dd': C.arr(const_vec([2, 1], 'f')),
             'kk': C.vec('kp', cdim(2), nonneg=True)}
        q = {'N': sp(C, 'Nq', 1, a + b + c), 'Cw': C.vec('Cq', cdim(1)), 'rh': C.vec('rq', cdim(1))}
        r = {'N': sp(C, 'Nr', 1, d), 'Cw': C.vec('Cr', cdim(1)), 'H': sym('Hr', 1), 'rh': C.vec('rr', cdim(1)),
             'mm': C.vec('mr', cdim(1))}
        return [sizes(C, s), C.dict(p), C.dict(q), C.dict(r)]
    return args


def var_args(s):
    n = s['a'] + s['b'] + s['c'] + s['d']
    return lambda C: [sizes(C, s), C.vec('v0', cdim(n)), C.vec('vl', cdim(n)), C.vec('vu', cdim(n))]


def check(k):
    k.rule('variables', 'variable sets occupy consecutive ranges in the order added, with their initial values and bounds')
    k.rule('linear', 'the stacked linear constraints place every block on the variables it names, missing bounds are infinite')
    k.rule('costs', 'user cost sets are combined by block, with documented defaults, and asking for one set changes nothing')
    k.rule('evaluation', 'the user cost of the model or of one set is the documented function')
    for s in SIZES:
        lab = ','.join('%s=%d' % x for x in s.items())
        for rule, f, args, fn in (('variables', 'variables', var_args(s), 'getv'),
                                  ('linear', 'linear', lin_args(s), 'linear_constraints'),
                                  ('costs', 'costs', cost_args(s), 'build_cost_params')):
            k.guarded('%s [%s]' % (rule, lab), lambda: pair(k, rule, f, args, 'opf_model.' + fn, '%s [%s]' % (rule, lab)))
    small = dict(a=1, b=0, c=1, d=1)
    for g in ('above inside', 'below above', 'inside below'):
        k.guarded('evaluation [%s]' % g, lambda: evaluation(k, small, g))


def pair(k, rule, f, args, fn, lab):
    C, R = k.ctx(), k.ctx()
    v = C.call('spec.opfmodel', f, *args(C))
    w = R.call('spec.opfmodel', f + '_ref', *args(R))
    k.compare(rule, k.where('opf_model', fn), lab, C, v, R, w, case_valuation)


def evaluation(k, s, g):
    """fix the side of the dead zone for the rows of set p (kk symbolic) and the sign for q and r"""
    C, R = k.ctx(), k.ctx()
    n = s['a'] + s['c'] + s['d']
    x = [P.atom('x', P.const(i)) for i in range(n)]
    P.declare('x', real=True)
    at = lambda m, i, j: P.atom(m, P.const(i), P.const(j))
    a = cost_args(s)
    av, ar = a(C), a(R)
    out = []
    for i, h in enumerate(g.split()):
        r = at('Np', i, 0) * x[1] + at('Np', i, 1) * x[0]
        kk = P.atom('kp', P.const(i))
        out += {'below': [-kk - r, -r], 'above': [r - kk, r], 'inside': [kk - r, kk + r, kk]}[h]
    out.append(at('Nq', 0, 0) * x[0] + at('Nq', 0, 1) * x[1] - P.atom('rq', ZERO))
    out.append(P.atom('rr', ZERO) - at('Nr', 0, 0) * x[2])

    def vals(seed):
        V = case_valuation(seed)
        r = V.r
        u = lambda: r.choice([-1, 1]) * r.uniform(.2, 2)
        X = [u() for _ in range(n)]
        Np = [[u(), u()], [u(), u()]]
        kp = []
        for i, h in enumerate(g.split()):
            d = Np[i][0] * X[1] + Np[i][1] * X[0]
            if h != 'inside' and (d > 0) != (h == 'above'):
                Np[i] = [-q for q in Np[i]]
            kp.append(abs(d) * (r.uniform(1.1, 2) if h == 'inside' else r.uniform(.1, .9)))
        Nq, Nr = [[u(), u()]], [[u()]]
        V.atoms.update(x=X, Np=Np, kp=kp, Nq=Nq, Nr=Nr)
        V.atoms['rq'] = [Nq[0][0] * X[0] + Nq[0][1] * X[1] - r.uniform(.1, 2)]
        V.atoms['rr'] = [Nr[0][0] * X[2] + r.uniform(.1, 2)]
        return V
    with P.assuming(out):
        v = C.call('spec.opfmodel', 'evaluate', *(av + [C.polyvec(x)]))
        w = R.call('spec.opfmodel', 'evaluate_ref', *(ar + [R.polyvec(x)]))
        k.compare('evaluation', k.where('opf_model', 'opf_model.compute_cost'), 'compute_cost [%s]' % g, C, v, R, w, vals)
