# quadratic programs
from numpy import zeros, ones, inf
def objective(H, c, x):
    return (x @ (H @ x)) / 2 + c @ x


def symmetric(H):
    H = H.toarray()
    return H - H.T


def zero(n):
    return zeros((n, n))


# -- what the interior point solver is asked by the QP interface

def asked(p, z):
    """the problem posed, probed at z"""
    f, df = p['f_fcn'](z)
    f2, df2, d2f = p['f_fcn'](z, True)
    keys = [p[k] if k in p else None for k in ['A', 'l', 'u', 'xmin', 'xmax', 'x0', 'opt']]
    return [[f, df, f2, df2, d2f]] + keys + ['gh_fcn' in p, 'hess_fcn' in p]


def posed(H, c, A, l, u, xmin, xmax, x0, opt, n, z):
    H = zeros((n, n)) if H is None else H.toarray()
    c = zeros(n) if c is None else c
    f = z @ (H @ z) / 2 + c @ z
    df = H @ z + c
    xmin = -inf * ones(n) if xmin is None else xmin
    xmax = inf * ones(n) if xmax is None else xmax
    x0 = zeros(n) if x0 is None else x0
    return [[f, df, f, df, H], A, l, u, xmin, xmax, x0, opt, False, False]


def direct(form, H, c, A, l, u, xmin, xmax, x0, opt):
    from pypower.qps_pips import qps_pips
    p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'x0': x0, 'opt': opt}
    keep = dict(p)
    if form == 'dict':
        for k in ['xmin', 'xmax', 'x0', 'opt']:
            if p[k] is None:
                del p[k]
        keep = dict(p)
        r = qps_pips(p)
    else:
        r = qps_pips(H, c, A, l, u, xmin, xmax, x0, opt)
    return [r[i] for i in range(5)], [p[k] for k in sorted(keep)] + [len(p) - len(keep)]


def kept(form, H, c, A, l, u, xmin, xmax, x0, opt):
    p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'x0': x0, 'opt': opt}
    if form == 'dict':
        for k in ['xmin', 'xmax', 'x0', 'opt']:
            if p[k] is None:
                del p[k]
    return [p[k] for k in sorted(p)] + [0]


def chosen(form, H, c, A, l, u, xmin, xmax, x0, opt):
    from pypower.qps_pypower import qps_pypower
    p = {'H': H, 'c': c, 'A': A, 'l': l, 'u': u, 'xmin': xmin, 'xmax': xmax, 'x0': x0, 'opt': opt}
    if form == 'dict':
        r = qps_pypower(p)
    else:
        r = qps_pypower(H, c, A, l, u, xmin, xmax, x0, opt)
    return [r[i] for i in range(5)], [p[k] for k in sorted(p)] + [len(p)]


def pips_options(opt, control):
    """options of the interior point solver"""
    o = dict(opt['pips_opt']) if 'pips_opt' in opt else {}
    if 'max_it' in opt:
        o['max_it'] = opt['max_it']
    o['step_control'] = control
    o['verbose'] = opt['verbose'] if 'verbose' in opt else 0
    return o
