# Reference formulas: pi-model branches with an ideal phase-shifting
# transformer at the from end, bus shunts, dc approximation.
from numpy import array, zeros, exp, pi, conj, where, ones, arange, eye, diag, ix_, r_, sum, copy, angle, isinf, sign
from numpy import flatnonzero as find
from numpy.linalg import solve

F, T, R, X, B, TAP, SHIFT, STAT = 0, 1, 2, 3, 4, 8, 9, 10


def incidence(idx, nb):
    """C[l, i] = 1 where branch l ends at bus i"""
    return (idx.reshape((len(idx), 1)) == arange(nb).reshape((1, nb))) * 1.0


def turns(branch):
    return where(branch[:, TAP] == 0, 1.0, branch[:, TAP])


def col(v):
    return v.reshape((len(v), 1))


def ymatrices(baseMVA, bus, branch):
    nb = bus.shape[0]
    on = branch[:, STAT]
    y = on / (branch[:, R] + 1j * branch[:, X])
    half = 0.5j * on * branch[:, B]
    t = turns(branch)
    ph = exp(1j * pi * branch[:, SHIFT] / 180)
    Cf = incidence(branch[:, F], nb)
    Ct = incidence(branch[:, T], nb)
    # from side:  If = (y + half)/t^2 Vf - y/(t e^{-j}) Vt
    Yf = col((y + half) / t ** 2) * Cf - col(y / t * ph) * Ct
    Yt = col(y + half) * Ct - col(y / t * conj(ph)) * Cf
    shunt = (bus[:, 4] + 1j * bus[:, 5]) / baseMVA
    Ybus = Cf.T @ Yf + Ct.T @ Yt + diag(shunt)
    return Ybus, Yf, Yt


def dcmatrices(baseMVA, bus, branch):
    nb = bus.shape[0]
    b = branch[:, STAT] / (branch[:, X] * turns(branch))
    Cf = incidence(branch[:, F], nb)
    Ct = incidence(branch[:, T], nb)
    A = Cf - Ct
    Bf = col(b) * A
    Bbus = A.T @ Bf
    Pfinj = -b * branch[:, SHIFT] * pi / 180
    Pbusinj = A.T @ Pfinj
    return Bbus, Bf, Pbusinj, Pfinj


def sbus(baseMVA, bus, gen):
    nb = bus.shape[0]
    Cg = incidence(gen[:, 0], nb)
    s = Cg.T @ ((gen[:, 7] > 0) * (gen[:, 1] + 1j * gen[:, 2]))
    return (s - (bus[:, 2] + 1j * bus[:, 3])) / baseMVA


def fdpf_matrices(baseMVA, bus, branch, alg):
    """B', B'': susceptance part of the admittance matrix of a modified network"""
    nb = bus.shape[0]
    nl = branch.shape[0]
    on = branch[:, STAT]
    r1 = branch[:, R]
    r2 = branch[:, R]
    if alg == 2:
        r1 = zeros(nl)
    if alg == 3:
        r2 = zeros(nl)
    ph = exp(1j * pi * branch[:, SHIFT] / 180)
    Cf = incidence(branch[:, F], nb)
    Ct = incidence(branch[:, T], nb)
    y1 = on / (r1 + 1j * branch[:, X])
    # no shunts, no charging, unity taps
    Y1 = Cf.T @ (col(y1) * Cf - col(y1 * ph) * Ct) + Ct.T @ (col(y1) * Ct - col(y1 * conj(ph)) * Cf)
    # no phase shifters
    t = turns(branch)
    half = 0.5j * on * branch[:, B]
    y2 = on / (r2 + 1j * branch[:, X])
    Y2 = Cf.T @ (col((y2 + half) / t ** 2) * Cf - col(y2 / t) * Ct) + Ct.T @ (col(y2 + half) * Ct - col(y2 / t) * Cf)
    Y2 = Y2 + diag((bus[:, 4] + 1j * bus[:, 5]) / baseMVA)
    return -Y1.imag, -Y2.imag


def ptdf_slack(baseMVA, bus, branch, slack):
    """column k: flows for one unit injected at bus k and withdrawn at bus `slack`
    (angle reference at the slack bus)"""
    nb = bus.shape[0]
    Bbus, Bf, p, q = dcmatrices(baseMVA, bus, branch)
    free = find(arange(nb) != slack)
    theta = solve(Bbus[ix_(free, free)], eye(nb)[free, :])
    return Bf[:, free] @ theta


def ptdf_default(baseMVA, bus, branch):
    ref = find(bus[:, 1] == 3)
    return ptdf_slack(baseMVA, bus, branch, ref[0])


def ptdf_weights(baseMVA, bus, branch, w):
    """slack taken up in proportion to the weights w"""
    H = ptdf_slack(baseMVA, bus, branch, 0)
    s = w / sum(w)
    return H - (H @ s).reshape((branch.shape[0], 1)) * ones((1, bus.shape[0]))


def ptdf_matrix(baseMVA, bus, branch, M):
    return ptdf_slack(baseMVA, bus, branch, 0) @ M


def lodf(branch, H):
    nl = branch.shape[0]
    nb = H.shape[1]
    Cf = incidence(branch[:, F], nb)
    Ct = incidence(branch[:, T], nb)
    D = H @ (Cf - Ct).T          # flow on l for a unit transfer along k
    own = diag(D)
    L = D / (1 - own.reshape((1, nl)))
    return where(eye(nl) == 1, -1.0, L)


def dcpf(B, Pbus, Va0, ref, pv, pq):
    free = r_[pv, pq]
    Va = copy(Va0)
    Va[free] = solve(B[ix_(free, free)], Pbus[free] - B[ix_(free, ref)] @ Va0[ref])
    return Va


def bus_types(bus, gen):
    """reference / voltage controlled / load buses: a bus holds its type only with a running generator"""
    nb = bus.shape[0]
    on = 1 * (gen[:, 7] > 0)
    k = incidence(gen[:, 0], nb).T @ on
    has = k != 0
    ref = find((bus[:, 1] == 3) & has)
    pv = find((bus[:, 1] == 2) & has)
    pq = find((bus[:, 1] == 1) | (k == 0))
    if len(ref) == 0:
        ref = pv[0:1]
        pv = pv[1:]
    return ref, pv, pq


def solution(baseMVA, bus, gen, branch, Ybus, Yf, Yt, V, ref, pv, pq):
    """power flow results as a function of the solved voltages"""
    nb = bus.shape[0]
    bus = copy(bus)
    gen = copy(gen)
    branch = copy(branch)
    bus[:, 7] = abs(V)
    bus[:, 8] = angle(V) / pi * 180
    S = V * conj(Ybus @ V) * baseMVA
    Cg = incidence(gen[:, 0], nb)
    on = 1 * (gen[:, 7] > 0)
    n = Cg.T @ on
    Q = S.imag + bus[:, 3]
    P = S.real + bus[:, 2]
    nz = where(n == 0, 1.0, n)
    # infinite limits count as the reactive power and the finite limits of the bus together
    lo, hi = gen[:, 4], gen[:, 3]
    known = where(isinf(lo), 0, abs(lo)) + where(isinf(hi), 0, abs(hi)) + abs(Cg @ (Q / nz))
    most = Cg @ (Cg.T @ (on * known))
    lo, hi = where(isinf(lo), sign(lo) * most, lo), where(isinf(hi), sign(hi) * most, hi)
    qmin = Cg.T @ (on * lo)
    qmax = Cg.T @ (on * hi)
    width = qmax - qmin
    rng = where(width == 0, 1.0, width)
    frac = (Q - qmin) / rng
    equal = Cg @ (Q / nz)
    prop = lo + (Cg @ frac) * (hi - lo)
    gen[:, 2] = on * where(Cg @ width == 0, equal, prop)
    # slack: first running unit at each reference bus balances the bus
    ison = find(gen[:, 7] > 0)
    for k in range(len(ref)):
        units = ison[find(gen[ison, 0] == ref[k])]
        others = sum(gen[units[1:], 1])
        gen[units[0], 1] = P[ref[k]] - others
    onb = branch[:, 10]
    Sf = (incidence(branch[:, 0], nb) @ V) * conj(Yf @ V) * baseMVA * onb
    St = (incidence(branch[:, 1], nb) @ V) * conj(Yt @ V) * baseMVA * onb
    branch[:, 13] = Sf.real
    branch[:, 14] = Sf.imag
    branch[:, 15] = St.real
    branch[:, 16] = St.imag
    return bus, gen, branch
