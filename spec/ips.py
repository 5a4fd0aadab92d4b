"""Reference: primal-dual interior point method with slack variables (the documented algorithm of the solver)."""
from numpy import array, zeros, ones, eye, r_, c_, inf, dot, log, abs, any, isnan, finfo, linalg, diag, sqrt
from pypower.pplinsolve import pplinsolve
from scipy.sparse import csr_matrix

EPS = finfo(float).eps


def objective(x, c, Q, k, hessian=False):
    """c'x + x'Qx/2 + k x0^4"""
    f = dot(c, x) + dot(x, Q @ x) / 2 + k * x[0] ** 4
    df = c + Q @ x
    df[0] = df[0] + 4 * k * x[0] ** 3
    if not hessian:
        return f, df
    d2 = 1 * Q
    d2[0, 0] = d2[0, 0] + 12 * k * x[0] ** 2
    return f, df, csr_matrix(d2)


def constraints(x, G, g0, H, h0):
    """g = g0 + G x + x0 x1, h = h0 + H x^2"""
    g = g0 + G @ x + x[0] * x[1]
    dg = G.T + 0
    for i in range(len(g0)):
        dg[0, i] = dg[0, i] + x[1]
        dg[1, i] = dg[1, i] + x[0]
    h = h0 + H @ (x ** 2)
    dh = (2 * H * x).T
    # no constraints of a kind: no derivatives
    return h, g, csr_matrix(dh) if len(h0) else None, csr_matrix(dg) if len(g0) else None


def lagrangian(x, lam, cost_mult, c, Q, k, H):
    d2 = cost_mult * Q
    d2[0, 0] = d2[0, 0] + cost_mult * 12 * k * x[0] ** 2
    e = sum(lam['eqnonlin'])
    d2[0, 1] = d2[0, 1] + e
    d2[1, 0] = d2[1, 0] + e
    m = 2 * (H.T @ lam['ineqnonlin'])
    for i in range(len(x)):
        d2[i, i] = d2[i, i] + m[i]
    return csr_matrix(d2)


def norm(v):
    return linalg.norm(v, inf) if len(v) else 0


def kinds(lo, hi):
    """rows that are equalities, bounded above only, below only, on both sides"""
    eq = [i for i in range(len(lo)) if abs(hi[i] - lo[i]) <= EPS]
    up = [i for i in range(len(lo)) if i not in eq and hi[i] < 1e10 and lo[i] <= -1e10]
    dn = [i for i in range(len(lo)) if i not in eq and hi[i] >= 1e10 and lo[i] > -1e10]
    bx = [i for i in range(len(lo)) if i not in eq and hi[i] < 1e10 and lo[i] > -1e10]
    return eq, up, dn, bx


def evaluate(p, x, cm):
    """scaled cost and gradient; all constraint values and their gradients as columns, nonlinear ones first"""
    f, df = objective(x, p['c'], p['Q'], p['k'])
    n = len(x)
    W = p['AA']
    eq, up, dn, bx = p['kinds']
    g = [dot(W[i, :], x) - p['hi'][i] for i in eq]
    h = [dot(W[i, :], x) - p['hi'][i] for i in up] + [p['lo'][i] - dot(W[i, :], x) for i in dn] + \
        [dot(W[i, :], x) - p['hi'][i] for i in bx] + [p['lo'][i] - dot(W[i, :], x) for i in bx]
    dg = [W[i, :] for i in eq]
    dh = [W[i, :] for i in up] + [-W[i, :] for i in dn] + [W[i, :] for i in bx] + [-W[i, :] for i in bx]
    if p['nonlinear']:
        hn, gn, dhn, dgn = constraints(x, p['G'], p['g0'], p['H'], p['h0'])
        g = [gn[i] for i in range(len(gn))] + g
        h = [hn[i] for i in range(len(hn))] + h
        dg = [dgn.toarray()[:, i] for i in range(len(gn))] + dg
        dh = [dhn.toarray()[:, i] for i in range(len(hn))] + dh
    return f * cm, df * cm, array(g), array(h), columns(dg, n), columns(dh, n)


def columns(c, n):
    M = zeros((n, len(c)))
    for j in range(len(c)):
        M[:, j] = c[j]
    return M


def conditions(x, z, lam, mu, f, df, g, h, dg, dh, f0):
    Lx = df + dg @ lam + dh @ mu
    # never negative: the norm of no equations is zero
    worst = norm(g)
    if len(h):
        worst = max([worst, max(h)])
    feas = worst / (1 + max([norm(x), norm(z)]))
    grad = norm(Lx) / (1 + max([norm(lam), norm(mu)]))
    comp = dot(z, mu) / (1 + norm(x))
    cost = abs(f - f0) / (1 + abs(f0))
    return Lx, feas, grad, comp, cost


def step(d, v):
    """longest step, at most 1, that keeps v positive with a margin"""
    a = 1
    for i in range(len(v)):
        if d[i] < 0:
            r = 0.99995 * v[i] / -d[i]
            if r < a:
                a = r
    return a


def merit(f, g, h, z, lam, mu, gamma):
    return f + dot(lam, g) + dot(mu, h + z) - gamma * sum(log(z))


def shorten(p, cm, x, z, lam, mu, gamma, f, g, h, Lx, Lxx, feas, grad, dx, most):
    """halve a step that worsens feasibility and gradient until the merit function follows its quadratic model"""
    f1, df1, g1, h1, dg1, dh1 = evaluate(p, x + dx, cm)
    L1, feas1, grad1, _, _ = conditions(x + dx, z, lam, mu, f1, df1, g1, h1, dg1, dh1, f)
    a = 1
    if feas1 > feas and grad1 > grad:
        L = merit(f, g, h, z, lam, mu, gamma)
        for j in range(most):
            d = a * dx
            f1, df1, g1, h1, dg1, dh1 = evaluate(p, x + d, cm)
            rho = (merit(f1, g1, h1, z, lam, mu, gamma) - L) / (dot(Lx, d) + dot(d, Lxx @ d) / 2)
            if rho > 0.95 and rho < 1.05:
                break
            a = a / 2
    return a


def solve(p, x0, opt):
    tol = dict({'cost_mult': 1, 'step_control': False, 'max_red': 20}, **opt)
    cm = tol['cost_mult']
    n = len(x0)
    x = 1 * x0
    f, df, g, h, dg, dh = evaluate(p, x, cm)
    neq, niq = len(g), len(h)
    nn = len(p['g0']) if p['nonlinear'] else 0
    mn = len(p['h0']) if p['nonlinear'] else 0
    gamma = 1
    lam = zeros(neq)
    z = ones(niq)
    mu = ones(niq)
    for i in range(niq):
        if h[i] < -1:
            z[i] = -h[i]
        if 1 / z[i] > 1:
            mu[i] = 1 / z[i]
    it = 0
    failed = False
    size, ap, ad = 0, 0, 0
    Lx, feas, grad, comp, cost = conditions(x, z, lam, mu, f, df, g, h, dg, dh, f)
    done = (feas < tol['feastol']) * (grad < tol['gradtol']) * (comp < tol['comptol']) * (cost < tol['costtol'])
    while not done and it < opt['max_it']:
        it = it + 1
        if p['nonlinear']:
            Lxx = lagrangian(x, {'eqnonlin': lam[:nn], 'ineqnonlin': mu[:mn]}, cm, p['c'], p['Q'], p['k'], p['H']).toarray()
        else:
            Lxx = cm * objective(x, p['c'], p['Q'], p['k'], True)[2].toarray()
        K = zeros((n + neq, n + neq))
        K[:n, :n] = Lxx + (dh * (mu / z)) @ dh.T
        K[:n, n:] = dg
        K[n:, :n] = dg.T
        rhs = zeros(n + neq)
        rhs[:n] = -Lx - dh @ ((mu * h + gamma) / z)
        rhs[n:] = -g
        d = pplinsolve(csr_matrix(K), rhs)
        dx, dlam = d[:n], d[n:]
        dz = -h - z - dh.T @ dx
        dmu = -mu + (gamma - mu * dz) / z
        if tol['step_control']:
            a = shorten(p, cm, x, z, lam, mu, gamma, f, g, h, Lx, Lxx, feas, grad, dx, tol['max_red'])
            dx, dz, dlam, dmu = a * dx, a * dz, a * dlam, a * dmu
        size = linalg.norm(dx)
        ap, ad = step(dz, z), step(dmu, mu)
        f0 = f
        x = x + ap * dx
        z = z + ap * dz
        lam = lam + ad * dlam
        mu = mu + ad * dmu
        if niq:
            gamma = 0.1 * dot(z, mu) / niq
        f, df, g, h, dg, dh = evaluate(p, x, cm)
        Lx, feas, grad, comp, cost = conditions(x, z, lam, mu, f, df, g, h, dg, dh, f0)
        done = (feas < tol['feastol']) * (grad < tol['gradtol']) * (comp < tol['comptol']) * (cost < tol['costtol'])
        if not done:
            if (ap < 1e-8) + (ad < 1e-8) + (gamma < EPS) + (gamma > 1 / EPS) > 0:
                failed = True
                break
    for i in range(niq):
        if h[i] < -tol['feastol'] and mu[i] < 1e-5:
            mu[i] = 0
    r, rn = multipliers(p, n, lam / cm, mu / cm, nn, mn)
    return [x, f / cm, done, it, failed] + r + [it + 1, [feas, grad, comp, cost, gamma, size, f / cm, ap, ad]] + rn


def multipliers(p, n, lam, mu, nn, mn):
    """shadow prices by constraint: lower, upper (variables), mu_l, mu_u (linear), nonlinear"""
    eq, up, dn, bx = p['kinds']
    m = len(p['lo'])
    lo, hi = zeros(m), zeros(m)
    for k in range(len(eq)):
        v = lam[nn + k]
        lo[eq[k]] = -v * (v < 0)
        hi[eq[k]] = v * (v > 0)
    j = mn
    for i in up:
        hi[i] = mu[j]
        j = j + 1
    for i in dn:
        lo[i] = mu[j]
        j = j + 1
    for i in bx:
        hi[i] = mu[j]
        j = j + 1
    for i in bx:
        lo[i] = mu[j]
        j = j + 1
    return [lo[:n], hi[:n], lo[n:], hi[n:]], ([lam[:nn]] if nn else []) + ([mu[:mn]] if mn else [])


# -- runs of the solver under test

def code(p, x0, opt, form):
    from pypower.pips import pips

    def f_fcn(x, hessian=False):
        return objective(x, p['c'], p['Q'], p['k'], hessian)

    def gh_fcn(x):
        return constraints(x, p['G'], p['g0'], p['H'], p['h0'])

    def hess_fcn(x, lam, cost_mult):
        return lagrangian(x, lam, cost_mult, p['c'], p['Q'], p['k'], p['H'])
    n = len(x0)
    A = csr_matrix(p['AA'][n:, :]) if len(p['lo']) > n else None
    a = {'f_fcn': f_fcn, 'x0': x0, 'opt': opt}
    if A is not None:
        a['A'] = A
        a['l'] = p['lo'][n:]
        a['u'] = p['hi'][n:]
    if form != 'unbounded':
        a['xmin'] = p['lo'][:n]
        a['xmax'] = p['hi'][:n]
    if p['nonlinear']:
        a['gh_fcn'] = gh_fcn
        a['hess_fcn'] = hess_fcn
    s = pips(a) if form == 'dict' else pips(**a)
    o = s['output']
    m = s['lmbda']
    t = o['hist'][-1]
    r = [s['x'], s['f'], s['eflag'], o['iterations'], o['message'] == 'Numerically failed', m['lower'], m['upper'], m['mu_l'], m['mu_u']]
    r = r + [len(o['hist']), [t['feascond'], t['gradcond'], t['compcond'], t['costcond'], t['gamma'], t['stepsize'], t['obj'],
                              t['alphap'], t['alphad']]]
    if len(p['g0']):
        r = r + [m['eqnonlin']]
    if len(p['h0']):
        r = r + [m['ineqnonlin']]
    return r, [x0, p['lo'], p['hi'], p['AA'], opt, len(opt)]


def same(p, x0, opt):
    return [x0, p['lo'], p['hi'], p['AA'], opt, len(opt)]
