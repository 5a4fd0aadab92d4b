from ..domain import case_valuation
from ..harness import *
from ..deriv import jac, hess, weighted
NEED = 20
EXPLANATION = ('The second-derivative routines are interpreted abstractly; every matrix entry is compared with the exact '
               'symbolic second derivative (computed by the analyser) of the multiplier-weighted function.')
ASSUMPTIONS = ['voltages are nonzero', 'first derivatives passed to the squared-magnitude routines are exact (checked separately)']


def ins(C, names):
    P.declare('V', polar=True)
    mk = {'V': lambda: C.vec('V', 'nb', 'c', polar=True), 'Y': lambda: C.mat('Y', 'nb', 'nb', 'c', 'sp', False),
          'Yf': lambda: C.mat('Yf', 'nl', 'nb', 'c', 'sp', False), 'Cf': lambda: C.mat('Cf', 'nl', 'nb', 'f', 'sp'),
          'lamb': lambda: C.vec('lamb', 'nb', 'c'), 'laml': lambda: C.vec('laml', 'nl', 'c'),
          'mu': lambda: C.vec('mu', 'nl')}
    return [mk[n]() for n in names]


def check(k):
    k.wide = {'V': (-4, 2), 'lamb': (-6, 4), 'laml': (-6, 4), 'mu': (-6, 4)}
    k.rule('second-derivative', 'returned Hessian block equals the exact second derivative of the weighted function')
    order = (('a', 'a'), ('a', 'm'), ('m', 'a'), ('m', 'm'))

    def plain(mod, names, fn, fargs, lam):
        C, R = k.ctx(), k.ctx()
        v = C.call(mod, mod, *ins(C, names))
        f = R.A(R.call('spec.flows', fn, *ins(R, fargs)))
        nb = R.A(ins(R, ['V'])[0]).dims[0]
        s = weighted(f, R.A(ins(R, [lam])[0]))
        w = Tup([hess(s, a, b, nb, nb) for a, b in order])
        k.compare('second-derivative', k.where(mod, mod), mod, C, v, R, w)
    k.guarded('d2Sbus_dV2', lambda: plain('d2Sbus_dV2', ['Y', 'V', 'lamb'], 'bus_power', ['Y', 'V'], 'lamb'))
    k.guarded('d2Sbr_dV2', lambda: plain('d2Sbr_dV2', ['Cf', 'Yf', 'V', 'laml'], 'end_power', ['Cf', 'Yf', 'V'], 'laml'))
    k.guarded('d2Ibr_dV2', lambda: plain('d2Ibr_dV2', ['Yf', 'V', 'laml'], 'current', ['Yf', 'V'], 'laml'))

    def squared(mod, real):
        C, R = k.ctx(), k.ctx()
        both = []
        for X in (C, R):
            V, Cf, Yf = ins(X, ['V', 'Cf', 'Yf'])
            f = X.A(X.call('spec.flows', 'end_power', Cf, Yf, V) if mod == 'd2ASbr_dV2' else X.call('spec.flows', 'current', Yf, V))
            if real:
                f = Arr(f.dims, lambda i, f=f: f.at(i).real(), 'f')
            both.append((f, X.A(V).dims[0]))
        f, nb = both[0]
        S = lambda a: C.arr(Arr(a.dims, a.fn, a.dtype, 'sp'))
        Cf, Yf, V, mu = ins(C, ['Cf', 'Yf', 'V', 'mu'])
        a = [S(jac(f, 'a', nb)), S(jac(f, 'm', nb)), C.arr(f)] + ([Cf] if mod == 'd2ASbr_dV2' else []) + [Yf, V, mu]
        v = C.call(mod, mod, *a)
        f, nb = both[1]
        s = weighted(R.A(R.call('spec.flows', 'sqmag', R.arr(f))), R.A(ins(R, ['mu'])[0]))
        w = Tup([hess(s, a, b, nb, nb) for a, b in order])
        k.compare('second-derivative', k.where(mod, mod), '%s (%s)' % (mod, 'real power' if real else 'magnitude'), C, v, R, w)
    k.guarded('d2ASbr_dV2', lambda: squared('d2ASbr_dV2', False))
    k.guarded('d2ASbr_dV2 real', lambda: squared('d2ASbr_dV2', True))
    k.guarded('d2AIbr_dV2', lambda: squared('d2AIbr_dV2', False))
