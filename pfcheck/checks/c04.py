from ..domain import case_valuation
from ..harness import *
from ..deriv import jac, split
NEED = 16
EXPLANATION = ('The first-derivative routines are interpreted abstractly; every matrix entry is compared with the exact '
               'symbolic derivative (computed by the analyser) of the bus injection, branch flow and current functions.')
ASSUMPTIONS = ['sparse and dense matrix inputs', 'voltages are nonzero']


def ins(C, names, kind='sp'):
    P.declare('V', polar=True)
    r = {'V': C.vec('V', 'nb', 'c', polar=True), 'Y': C.mat('Y', 'nb', 'nb', 'c', kind, False),
         'Yf': C.mat('Yf', 'nl', 'nb', 'c', kind, False), 'Yt': C.mat('Yt', 'nl', 'nb', 'c', kind, False),
         'branch': C.table('branch')}
    return [r[n] for n in names]


def check(k):
    k.wide = {'V': (-6, 2)}
    k.rule('first-derivative', 'returned Jacobian entry equals the exact partial derivative of the stated function')
    k.rule('flow-value', 'returned flow vector equals the stated flow function')

    def bus(kind):
        C, R = k.ctx(), k.ctx()
        a = ins(C, ['Y', 'V'], kind)
        v = C.call('dSbus_dV', 'dSbus_dV', *a)
        s = R.A(R.call('spec.flows', 'bus_power', *ins(R, ['Y', 'V'])))
        nb = R.A(ins(R, ['V'])[0]).dims[0]
        w = Tup([jac(s, 'm', nb), jac(s, 'a', nb)])
        k.compare('first-derivative', k.where('dSbus_dV', 'dSbus_dV'), 'dSbus_dVm,dSbus_dVa (%s)' % kind, C, v, R, w)
    for kind in ('sp', 'nd'):
        k.guarded('dSbus_dV ' + kind, lambda: bus(kind))

    def br(mod, kind):
        C, R = k.ctx(), k.ctx()
        v = C.call(mod, mod, *ins(C, ['branch', 'Yf', 'Yt', 'V'], kind))
        branch, Yf, Yt, V = ins(R, ['branch', 'Yf', 'Yt', 'V'])
        nb = R.A(V).dims[0]
        if mod == 'dSbr_dV':
            cell = R.A(branch)
            fb = R.arr(Arr((cell.dims[0],), lambda i: cell.at(i, P.const(0)), 'i'))
            tb = R.arr(Arr((cell.dims[0],), lambda i: cell.at(i, P.const(1)), 'i'))
            f = R.A(R.call('spec.flows', 'branch_power', fb, Yf, V))
            t = R.A(R.call('spec.flows', 'branch_power', tb, Yt, V))
        else:
            f = R.A(R.call('spec.flows', 'current', Yf, V))
            t = R.A(R.call('spec.flows', 'current', Yt, V))
        w = Tup([jac(f, 'a', nb), jac(f, 'm', nb), jac(t, 'a', nb), jac(t, 'm', nb), f, t])
        k.compare('first-derivative', k.where(mod, mod), '%s (%s)' % (mod, kind), C, v, R, w)
    for mod in ('dSbr_dV', 'dIbr_dV'):
        for kind in ('sp', 'nd'):
            k.guarded('%s %s' % (mod, kind), lambda: br(mod, kind))

    # squared magnitudes: derivative of |s|^2 given s and ds, with s built from a polar vector
    def mag(real):
        C, R = k.ctx(), k.ctx()
        out = []
        for X in (C, R):
            branch, Yf, Yt, V = ins(X, ['branch', 'Yf', 'Yt', 'V'])
            nb = X.A(V).dims[0]
            f = X.A(X.call('spec.flows', 'current', Yf, V))
            t = X.A(X.call('spec.flows', 'current', Yt, V))
            if real:
                f = Arr(f.dims, lambda i, f=f: f.at(i).real(), 'f')
                t = Arr(t.dims, lambda i, t=t: t.at(i).real(), 'f')
            out.append((f, t, nb))
        f, t, nb = out[0]
        S = lambda a: C.arr(Arr(a.dims, a.fn, a.dtype, 'sp'))
        v = C.call('dAbr_dV', 'dAbr_dV', S(jac(f, 'a', nb)), S(jac(f, 'm', nb)), S(jac(t, 'a', nb)), S(jac(t, 'm', nb)),
                   C.arr(f), C.arr(t))
        f, t, nb = out[1]
        f, t = R.A(R.call('spec.flows', 'sqmag', R.arr(f))), R.A(R.call('spec.flows', 'sqmag', R.arr(t)))
        w = Tup([jac(f, 'a', nb), jac(f, 'm', nb), jac(t, 'a', nb), jac(t, 'm', nb)])
        k.compare('first-derivative', k.where('dAbr_dV', 'dAbr_dV'), 'dAbr_dV (%s flows)' % ('real' if real else 'complex'), C, v, R, w)
    for real in (False, True):
        k.guarded('dAbr_dV', lambda: mag(real))
