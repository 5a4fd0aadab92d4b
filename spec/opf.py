# Objective and constraints of the ac optimal power flow as functions of the
# optimisation vector (Va, Vm, Pg, Qg, y, z).
from numpy import conj, exp, r_, sum, zeros, inf, array, where, arange
from spec.network import incidence


def balance(Va, Vm, Pg, Qg, baseMVA, bus, gen, Ybus):
    """real and reactive power mismatch at every bus"""
    V = Vm * exp(1j * Va)
    Cg = incidence(gen[:, 0], len(Va))
    S = V * conj(Ybus @ V) - Cg.T @ (gen[:, 7] * (Pg + 1j * Qg)) + (bus[:, 2] + 1j * bus[:, 3]) / baseMVA
    return r_[S.real, S.imag]


def flows(Va, Vm, branch, Yf, Yt, limit):
    """squared flow in the unit of the limit at both ends (rows of Yf, Yt are the limited branches)"""
    V = Vm * exp(1j * Va)
    nb = len(Va)
    If = Yf @ V
    It = Yt @ V
    Sf = (incidence(branch[:, 0], nb) @ V) * conj(If)
    St = (incidence(branch[:, 1], nb) @ V) * conj(It)
    if limit == 2:
        return r_[If.real ** 2 + If.imag ** 2, It.real ** 2 + It.imag ** 2]
    if limit == 1:
        return r_[Sf.real ** 2, St.real ** 2]
    return r_[Sf.real ** 2 + Sf.imag ** 2, St.real ** 2 + St.imag ** 2]


def limits(branch, baseMVA):
    m = (branch[:, 5] / baseMVA) ** 2
    m = where(m == 0, inf, m)
    return r_[m, m]


def poly_cost(gencost, p):
    """sum of polynomial costs; p in MW, rows with piecewise linear cost are carried by y"""
    f = 0
    for i in range(len(p)):
        if gencost[i, 0] == 2:
            n = int(gencost[i, 3])
            for k in range(n):
                f = f + gencost[i, 4 + k] * p[i] ** (n - 1 - k)
    return f


def objective(Pg, Qg, y, x, gencost, baseMVA, N, Cw, H, dd, rh, kk, mm):
    p = r_[Pg, Qg] * baseMVA
    p = p[:gencost.shape[0]]
    f = poly_cost(gencost, p) + sum(y)
    if N is not None:
        f = f + user_cost(x, N, Cw, H, dd, rh, kk, mm)
    return f


def user_cost(x, N, Cw, H, dd, rh, kk, mm):
    """w = mm * (shifted deviation, linear or squared), zero inside the dead zone"""
    r = N @ x - rh
    low = r < -kk
    high = r > kk
    none = (r == 0) & (kk == 0)
    f = 0
    nw = len(dd)
    w = []
    for i in range(nw):
        if dd[i] == 1:
            w.append(mm[i] * (low[i] * (r[i] + kk[i]) + high[i] * (r[i] - kk[i]) + none[i] * r[i]))
        else:
            w.append(mm[i] * (low[i] * (r[i] + kk[i]) ** 2 + high[i] * (r[i] - kk[i]) ** 2 + none[i] * r[i] ** 2))
    for i in range(nw):
        f = f + Cw[i] * w[i]
        for j in range(nw):
            f = f + w[i] * H[i, j] * w[j] / 2
    return f
