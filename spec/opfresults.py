# What an optimal power flow reports, given what the solver returned.
from numpy import zeros, ones, pi, exp, conj, r_, arange, where, maximum, array, c_
from copy import deepcopy
from pypower.opf import opf
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf_setup import opf_setup
from pypower.makeYbus import makeYbus
from pypower.opf_costfcn import opf_costfcn
from pypower.opf_consfcn import opf_consfcn
from pypower.opf_hessfcn import opf_hessfcn
from spec.network import ymatrices, dcmatrices


def report(ppc, ppopt, names, cons, nlns, costs):
    r = opf(ppc, ppopt)
    mu = r['mu']
    d = [r['bus'], r['gen'], r['branch'], r['f'], r['x'], r['success'], r['raw']['xr'], r['raw']['pimul'], r['raw']['info'],
         mu['var']['l'], mu['var']['u'], mu['lin']['l'], mu['lin']['u'],
         [(r['var']['val'][n], r['var']['mu']['l'][n], r['var']['mu']['u'][n]) for n in names],
         [(r['lin']['mu']['l'][n], r['lin']['mu']['u'][n]) for n in cons], [r['cost'][n] for n in costs],
         r['baseMVA'], r['raw']['output']['iterations'], [ppc[k] for k in ('bus', 'gen', 'branch', 'gencost')], 'order' in ppc]
    if nlns:
        d.append([mu['nln']['l'], mu['nln']['u']] + [(r['nln']['mu']['l'][n], r['nln']['mu']['u'][n]) for n in nlns])
    return d


def blocks(idx, names, *vs):
    return [tuple([v[idx['i1'][n]:idx['iN'][n]] for v in vs]) for n in names]


def widen(t, n):
    return c_[t, zeros((t.shape[0], n - t.shape[1]))] if t.shape[1] < n else 1 * t


def model(ppc, ppopt):
    c = {}
    for k in ppc:
        c[k] = ppc[k]
    c['bus'] = widen(ppc['bus'], 17)
    c['gen'] = widen(ppc['gen'], 25)
    c['branch'] = widen(ppc['branch'], 21)
    i = ext2int(c)
    om = opf_setup(i, ppopt)
    om.build_cost_params()
    return i, om


def offline(r, s):
    """equipment out of service carries no power and no price"""
    for k in s['goff']:
        for c in [1, 2, 21, 22]:
            r['gen'][k, c] = 0
    for k in s['loff']:
        for c in range(13, 21):
            r['branch'][k, c] = 0
    return r


def finish(ppc, i, om, s, x, f, info, mu_l, mu_u, lo, up, costs, it, pimul, nx):
    vv, ll, nn, cc = om.get_idx()
    r = offline(int2ext(i), s)
    single = zeros(s['single'])
    y = lambda x: r_[x[:nx], single, x[nx:]] if s['single'] else x
    return [r['bus'], r['gen'], r['branch'], f, y(x), info, y(x), pimul, it[0],
            lo, up, mu_l, mu_u, blocks(vv, s['vars'], x, lo, up), blocks(ll, s['lin'], mu_l, mu_u),
            [om.compute_cost(x, n) for n in costs], r['baseMVA'], it[1],
            [1 * ppc[k] for k in ('bus', 'gen', 'branch', 'gencost')], False]


def angle_prices(branch, om, ll, mu_l, mu_u):
    if ll['N']['ang']:
        k = om.userdata('iang')
        branch[k, 19] = mu_l[ll['i1']['ang']:ll['iN']['ang']] * pi / 180
        branch[k, 20] = mu_u[ll['i1']['ang']:ll['iN']['ang']] * pi / 180


def ac(ppc, ppopt, s, sol):
    i, om = model(ppc, ppopt)
    x, f, lam = sol['x'], sol['f'], sol['lmbda']
    ok = sol['eflag'] > 0
    vv, ll, nn, cc = om.get_idx()
    base, bus, gen, branch = i['baseMVA'], i['bus'], i['gen'], i['branch']
    nb, nl, ng = bus.shape[0], branch.shape[0], gen.shape[0]
    Va, Vm, Pg, Qg = x[:nb], x[nb:2 * nb], x[2 * nb:2 * nb + ng], x[2 * nb + ng:2 * nb + 2 * ng]
    bus[:, 8] = Va * 180 / pi
    bus[:, 7] = Vm
    gen[:, 1] = Pg * base
    gen[:, 2] = Qg * base
    g = s['gbus']
    gen[:, 5] = Vm[g]
    V = Vm * exp(1j * Va)
    Y, Yf, Yt = ymatrices(base, bus, branch)
    Sf = V[s['f']] * conj(Yf @ V) * base
    St = V[s['t']] * conj(Yt @ V) * base
    branch[:, 13] = Sf.real
    branch[:, 14] = Sf.imag
    branch[:, 15] = St.real
    branch[:, 16] = St.imag
    # the limit is on the squared flow: d(rate^2)/d(rate) = 2 rate, all in per unit
    il = s['il']
    n = len(il)
    muf, mut = zeros(nl), zeros(nl)
    h = lam['ineqnonlin']
    for k in range(n):
        muf[il[k]] = 2 * branch[il[k], 5] / base * h[k]
        mut[il[k]] = 2 * branch[il[k], 5] / base * h[n + k]
    lo, up, mu_l, mu_u, e = lam['lower'], lam['upper'], lam['mu_l'], lam['mu_u'], lam['eqnonlin']
    bus[:, 13] = e[:nb] / base
    bus[:, 14] = e[nb:2 * nb] / base
    bus[:, 15] = up[nb:2 * nb]
    bus[:, 16] = lo[nb:2 * nb]
    branch[:, 17] = muf / base
    branch[:, 18] = mut / base
    pu, pl = up[2 * nb:2 * nb + ng] / base, lo[2 * nb:2 * nb + ng] / base
    qu, ql = up[2 * nb + ng:2 * nb + 2 * ng] / base, lo[2 * nb + ng:2 * nb + 2 * ng] / base
    if ok and s['pq']:
        # sloped sides of the capability curve price both outputs
        A, l, u = om.linear_constraints()
        a, b = ll['i1']['PQh'], ll['iN']['PQl']
        c = A.toarray()[a:b, :].T @ (mu_u[a:b] - mu_l[a:b])
        p = pu - pl + c[2 * nb:2 * nb + ng] / base
        q = qu - ql + c[2 * nb + ng:2 * nb + 2 * ng] / base
        pu, pl = where(p > 0, p, 0), where(p < 0, -p, 0)
        qu, ql = where(q > 0, q, 0), where(q < 0, -q, 0)
    gen[:, 21], gen[:, 22], gen[:, 23], gen[:, 24] = pu, pl, qu, ql
    if ok:
        angle_prices(branch, om, ll, mu_l, mu_u)
    nl_l = r_[where(e < 0, -e, 0), zeros(2 * nl)]
    nl_u = r_[where(e > 0, e, 0), muf, mut]
    pimul = r_[nl_l - nl_u, mu_l - mu_u, -ones(s['any_y']), lo - up]
    d = finish(ppc, i, om, s, x, f, ok, mu_l, mu_u, lo, up, s['costs'], (sol['eflag'], 13), pimul, 2 * nb + 2 * ng)
    d.append([nl_l, nl_u] + blocks(nn, s['nln'], nl_l, nl_u))
    return d


def dc(ppc, ppopt, s, sol):
    i, om = model(ppc, ppopt)
    x, lam = sol['x'], sol['lmbda']
    ok = sol['eflag'] == 1
    vv, ll, nn, cc = om.get_idx()
    base, bus, gen, branch = i['baseMVA'], i['bus'], i['gen'], i['branch']
    nb, nl, ng = bus.shape[0], branch.shape[0], gen.shape[0]
    Va, Pg = x[:nb], x[nb:nb + ng]
    B, Bf, Pb, Pf = dcmatrices(base, bus, branch)
    bus[:, 8] = Va * 180 / pi
    gen[:, 1] = Pg * base
    branch[:, 13] = (Bf @ Va + Pf) * base
    branch[:, 15] = -branch[:, 13]
    branch[:, 14] = 0
    branch[:, 16] = 0
    lo, up, mu_l, mu_u = lam['lower'], lam['upper'], lam['mu_l'], lam['mu_u']
    m = mu_u / base
    i0, j0 = ll['i1']['Pf'], ll['i1']['Pt']
    bus[:, 13] = (mu_u[:nb] - mu_l[:nb]) / base
    bus[:, 14:17] = 0
    branch[:, 17:19] = 0
    for k in range(len(s['il'])):
        branch[s['il'][k], 17] = m[i0 + k]
        branch[s['il'][k], 18] = m[j0 + k]
    gen[:, 21] = up[nb:nb + ng] / base
    gen[:, 22] = lo[nb:nb + ng] / base
    gen[:, 23:25] = 0
    if ok:
        angle_prices(branch, om, ll, mu_l, mu_u)
    pimul = r_[mu_l - mu_u, -ones(s['any_y']), lo - up]
    f = dc_cost(i, om, s, x)
    return finish(ppc, i, om, s, x, f, ok, mu_l, mu_u, lo, up, s['costs'], (sol['eflag'], 13), pimul, nb + ng)


def dc_cost(i, om, s, x):
    """cost in the original units of the case: polynomials of the outputs, helper variables of piecewise linear costs, user costs"""
    nb = i['bus'].shape[0]
    gc = i['gencost']
    f = 0
    for k in s['poly']:
        p = x[nb + k] * i['baseMVA']
        n = int(gc[k, 3])
        for j in range(n):
            f = f + gc[k, 4 + j] * p ** (n - 1 - j)
    for k in s['ycol']:
        f = f + x[k]
    if s['costs']:
        # linear user costs: w = m (N x - r)
        cp = om.get_cost_params()
        w = cp['mm'] * (cp['N'].toarray() @ x - cp['rh'])
        f = f + w @ (cp['H'].toarray() @ w) / 2 + cp['Cw'] @ w
    return f


# -- what the solver is asked
def start(i, om, s):
    x0, lo, hi = om.getv()
    vv, ll, nn, cc = om.get_idx()
    x = (where(lo < -1e20, -1e10, lo) + where(hi > 1e20, 1e10, hi)) / 2
    nb = i['bus'].shape[0]
    x[:nb] = i['bus'][s['ref'], 8] * pi / 180
    if s['last']:
        top = max([i['gencost'][k, c] for k, c in s['last']])
        x[s['ycol']] = top + 0.1 * abs(top)
    return x


def asked_ac(ppc, ppopt, s, x, lam):
    i, om = model(ppc, ppopt)
    Y, Yf, Yt = makeYbus(i['baseMVA'], i['bus'], i['branch'])
    il = array(s['il'])
    A, l, u = om.linear_constraints()
    x0, lo, hi = om.getv()
    f, df = opf_costfcn(x, om)[:2]
    h, g, dh, dg = opf_consfcn(x, om, Y, Yf[il, :], Yt[il, :], ppopt, il)
    return ([dense(A), l, u, lo, hi, start(i, om, s), f, df, h, g, dh.toarray(), dg.toarray()],
            opf_hessfcn(x, lam, om, Y, Yf[il, :], Yt[il, :], ppopt, il, 0.25).toarray())


def asked_dc(ppc, ppopt, s):
    i, om = model(ppc, ppopt)
    A, l, u = om.linear_constraints()
    x0, lo, hi = om.getv()
    return [dense(A), l, u, lo, hi, start(i, om, s)]


def functions(f_fcn, gh_fcn, hess_fcn, x, lam):
    f, df = f_fcn(x)[:2]
    h, g, dh, dg = gh_fcn(x)
    return [f, df, h, g, dh.toarray(), dg.toarray()], hess_fcn(x, lam, 0.25).toarray()


def dense(A):
    return A.toarray() if A is not None else None
