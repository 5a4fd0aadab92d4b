# The optimal power flow model a case describes: variables, limits and linear constraints.
from numpy import array, zeros, ones, inf, pi, arange, r_, sqrt, where
from pypower.opf_setup import opf_setup
from spec.network import dcmatrices
from spec.cost import segment


# -- what the code builds, block by block
def block(om, A, l, u, name, vars):
    vv, ll, nn, cc = om.get_idx()
    if name not in ll['N']:
        return 0, None
    i, j = ll['i1'][name], ll['iN'][name]
    if j == i:
        return 0, None
    return j - i, [A[i:j, vv['i1'][v]:vv['iN'][v]] for v in vars], l[i:j], u[i:j]


def build(ppc, ppopt, vars, cons):
    om = opf_setup(ppc, ppopt)
    vv, ll, nn, cc = om.get_idx()
    A, l, u = om.linear_constraints()
    return ([om.getv(v) for v in vars], [vv['N'][v] for v in vars], om.getN('var'),
            [block(om, A.toarray(), l, u, c, vars) for c in cons], om.getN('lin'), om.get_ppc()['gencost'])


def nonlinear(ppc, ppopt, names):
    om = opf_setup(ppc, ppopt)
    vv, ll, nn, cc = om.get_idx()
    return [nn['N'][n] for n in names], om.getN('nln')


def costs(ppc, ppopt):
    om = opf_setup(ppc, ppopt)
    om.build_cost_params()
    cp = om.get_cost_params()
    vv, ll, nn, cc = om.get_idx()
    A, l, u = om.linear_constraints()
    i, j = ll['i1']['usr'], ll['iN']['usr']
    return cp['N'], cp['Cw'], cp['H'], cp['dd'], cp['rh'], cp['kk'], cp['mm'], A.toarray()[i:j, :], l[i:j], u[i:j]


def costs_ref(ppc, keep, nx, ny):
    f = ppc['fparm']
    return (spread(ppc['N'], keep, nx, ny), ppc['Cw'], ppc['H'].toarray(), f[:, 0], f[:, 1], f[:, 2], f[:, 3],
            spread(ppc['A'], keep, nx, ny), ppc['l'], ppc['u'])


def spread(M, keep, nx, ny):
    """user columns: standard variables first, then z; the y variables lie between"""
    M = M.toarray()[:, keep]
    W = zeros((M.shape[0], len(keep) + ny))
    W[:, :nx] = M[:, :nx]
    W[:, nx + ny:] = M[:, nx:]
    return W


# -- what the case describes
def angles(bus, ref):
    va = bus[:, 8] * pi / 180
    lo, hi = -inf * ones(len(va)), inf * ones(len(va))
    for i in ref:
        lo[i] = va[i]
        hi[i] = va[i]
    return va, lo, hi


def magnitudes(bus, gen, gbus):
    vm = 1 * bus[:, 7]
    for k in range(len(gbus)):
        vm[gbus[k]] = gen[k, 5]
    return vm, bus[:, 12], bus[:, 11]


def active(baseMVA, gen):
    return gen[:, 1] / baseMVA, gen[:, 9] / baseMVA, gen[:, 8] / baseMVA


def reactive(baseMVA, gen):
    return gen[:, 2] / baseMVA, gen[:, 4] / baseMVA, gen[:, 3] / baseMVA


def free(n):
    return zeros(n), -inf * ones(n), inf * ones(n)


def split(A, sizes):
    """columns of the blocks of variables"""
    out = []
    k = 0
    for n in sizes:
        out.append(A[:, k:k + n])
        k = k + n
    return out


def rows(A, l, u, sizes):
    if len(l) == 0:
        return 0, None
    return len(l), split(A, sizes), l, u


def angle_limits(branch, ang, sizes):
    """ang: branches with a limit, and which of the two limits are finite"""
    n = len(ang)
    A = zeros((n, sum(sizes)))
    l, u = -inf * ones(n), inf * ones(n)
    for k in range(n):
        i, f, t, low, high = ang[k]
        A[k, f] = 1
        A[k, t] = -1
        if low:
            l[k] = branch[i, 11] * pi / 180
        if high:
            u[k] = branch[i, 12] * pi / 180
    return rows(A, l, u, sizes)


def capability(baseMVA, gen, units, upper, p0, q0, sizes):
    """a unit's (P, Q) stays on the inner side of the line through (Pc1, Qc1) and (Pc2, Qc2);
    rows are scaled to unit length"""
    n = len(units)
    A = zeros((n, sum(sizes)))
    u = zeros(n)
    for k in range(n):
        i = units[k]
        p1, p2 = gen[i, 10], gen[i, 11]
        if upper:
            q1, q2 = gen[i, 13], gen[i, 15]
        else:
            q1, q2 = gen[i, 12], gen[i, 14]
        # normal of the line, pointing outwards
        a, b = q1 - q2, p2 - p1
        if not upper:
            a, b = -a, -b
        d = sqrt(a * a + b * b)
        A[k, p0 + i] = a / d
        A[k, q0 + i] = b / d
        u[k] = (a * p1 + b * q1) / d / baseMVA
    return rows(A, -inf * ones(n), u, sizes)


def power_factor(gen, loads, p0, q0, sizes):
    """dispatchable loads keep the ratio of their limits"""
    n = len(loads)
    A = zeros((n, sum(sizes)))
    for k in range(n):
        i, col = loads[k]
        p, q = gen[i, 9], gen[i, col]
        d = sqrt(p * p + q * q)
        A[k, p0 + i] = q / d
        A[k, q0 + i] = -p / d
    return rows(A, zeros(n), zeros(n), sizes)


def basins(baseMVA, gencost, pwl, p0, y0, sizes):
    """y is above every segment of its piecewise linear cost; rows of gencost beyond the units are reactive"""
    A = []
    u = []
    for j in range(len(pwl)):
        i = pwl[j]
        for k in range(int(gencost[i, 3]) - 1):
            x1, f1, x2, f2 = [gencost[i, 4 + 2 * k + h] for h in range(4)]
            m = (f2 - f1) / (x2 / baseMVA - x1 / baseMVA)
            row = zeros(sum(sizes))
            row[p0 + i] = m
            row[y0 + j] = -1
            A.append(row)
            u.append(m * x1 / baseMVA - f1)
    n = len(u)
    if n == 0:
        return 0, None
    return rows(array(A), -inf * ones(n), array(u), sizes)


def linear_costs(gencost, single):
    """piecewise linear costs with one segment, written as polynomials"""
    g = 1 * gencost
    for i in single:
        x0, y0, x1, y1 = [gencost[i, 4 + h] for h in range(4)]
        g[i, 0] = 2
        g[i, 3] = 2
        g[i, 4] = (y1 - y0) / (x1 - x0)
        g[i, 5] = y0 - (y1 - y0) / (x1 - x0) * x0
    return g


def significant(gencost, model, n):
    """columns that carry meaning"""
    out = []
    for i in range(len(model)):
        w = 2 * n[i] if model[i] == 1 else n[i]
        out.append(gencost[i, :4 + w])
    return out


def ac(ppc, s, sizes):
    baseMVA, bus, gen, branch = ppc['baseMVA'], ppc['bus'], ppc['gen'], ppc['branch']
    gc = linear_costs(ppc['gencost'], s['single'])
    nb, ng = sizes[0], sizes[2]
    ny = len(s['pwl'])
    nz = s['nz']
    v = [angles(bus, s['ref']), magnitudes(bus, gen, s['gbus']), active(baseMVA, gen), reactive(baseMVA, gen)]
    if ny:
        v.append(free(ny))
    if nz:
        v.append((ppc['z0'], ppc['zl'], ppc['zu']))
    p0 = 2 * nb
    q0 = p0 + ng
    c = [angle_limits(branch, s['ang'], sizes), capability(baseMVA, gen, s['pqh'], True, p0, q0, sizes),
         capability(baseMVA, gen, s['pql'], False, p0, q0, sizes), power_factor(gen, s['load'], p0, q0, sizes),
         basins(baseMVA, gc, s['pwl'], p0, q0 + ng, sizes)]
    if 'A' in ppc:
        c.append(user(ppc, sizes, q0 + ng, ny))
    return finish(v, c, sizes, gc)


def user(ppc, sizes, y0, ny):
    A = ppc['A'].toarray()
    n = A.shape[0]
    W = zeros((n, sum(sizes)))
    W[:, :y0] = A[:, :y0]
    W[:, y0 + ny:] = A[:, y0:]
    return rows(W, ppc['l'], ppc['u'], sizes)


def finish(v, c, sizes, gc):
    n = 0
    for b in c:
        n = n + b[0]
    return v, sizes, sum(sizes), c, n, gc


def dc(ppc, s, sizes):
    baseMVA, bus, gen, branch = ppc['baseMVA'], ppc['bus'], ppc['gen'], ppc['branch']
    nb, ng = sizes[0], sizes[1]
    gc = linear_costs(ppc['gencost'][:ng, :], s['single'])
    ny = len(s['pwl'])
    v = [angles(bus, s['ref']), active(baseMVA, gen)]
    if ny:
        v.append(free(ny))
    B, Bf, Pbus, Pf = dcmatrices(baseMVA, bus, branch)
    # power balance: flow out of the bus = generation - load - shunt
    A = zeros((nb, sum(sizes)))
    A[:, :nb] = B
    for k in range(ng):
        A[s['gbus'][k], nb + k] = -1
    b = -(bus[:, 2] + bus[:, 4]) / baseMVA - Pbus
    il = s['il']
    n = len(il)
    F = zeros((n, sum(sizes)))
    F[:, :nb] = Bf[il, :]
    lim = branch[il, 5] / baseMVA
    # a branch flow is within its rating in both directions: -rating <= Bf Va + Pf <= rating
    c = [rows(A, b, b, sizes), rows(F, -inf * ones(n), lim - Pf[il], sizes), rows(-F, -inf * ones(n), lim + Pf[il], sizes),
         angle_limits(branch, s['ang'], sizes), basins(baseMVA, gc, s['pwl'], nb, nb + ng, sizes)]
    if s['nz']:
        v.append((ppc['z0'], ppc['zl'], ppc['zu']))
        c.append(user(ppc, sizes, nb + ng, ny))
    return finish(v, c, sizes, gc)
