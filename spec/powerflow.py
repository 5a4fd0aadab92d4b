"""Reference formulas: iterative power flow solutions (internal numbering)."""
from numpy import array, angle, abs, conj, exp, r_, inf, linalg, zeros, copy
from scipy.sparse import hstack, vstack
from pypower.dSbus_dV import dSbus_dV
from pypower.pplinsolve import pplinsolve


def newton(Ybus, Sbus, V0, ref, pv, pq, tol, max_it):
    """Newton iterations on the polar power balance equations"""
    pvpq = r_[pv, pq]
    npvpq = len(pvpq)
    V = 1 * V0
    it = 0
    mis = V * conj(Ybus * V) - Sbus
    F = r_[mis[pvpq].real, mis[pq].imag]
    done = linalg.norm(F, inf) < tol
    while not done and it < max_it:
        dVm, dVa = dSbus_dV(Ybus, V)
        J = vstack([hstack([dVa[array([pvpq]).T, pvpq].real, dVm[array([pvpq]).T, pq].real]),
                    hstack([dVa[array([pq]).T, pvpq].imag, dVm[array([pq]).T, pq].imag])], format='csr')
        dx = pplinsolve(J, -F)
        Va = angle(V)
        Vm = abs(V)
        Va[pvpq] = Va[pvpq] + dx[:npvpq]
        Vm[pq] = Vm[pq] + dx[npvpq:]
        V = Vm * exp(1j * Va)
        it = it + 1
        mis = V * conj(Ybus * V) - Sbus
        F = r_[mis[pvpq].real, mis[pq].imag]
        done = linalg.norm(F, inf) < tol
    return [V, done, it]


def fast_decoupled(Ybus, Sbus, V0, Bp, Bpp, ref, pv, pq, tol, max_it):
    """half-iterations B' dVa = -dP/V and B'' dVm = -dQ/V, mismatches evaluated after each"""
    pvpq = r_[pv, pq]
    A1 = Bp[array([pvpq]).T, pvpq]
    A2 = Bpp[array([pq]).T, pq]
    V = 1 * V0
    Va = angle(V)
    Vm = abs(V)
    it = 0
    mis = (V * conj(Ybus * V) - Sbus) / Vm
    P = mis[pvpq].real
    Q = mis[pq].imag
    done = (linalg.norm(P, inf) < tol) * (linalg.norm(Q, inf) < tol)
    while not done and it < max_it:
        it = it + 1
        for half in (0, 1):
            if half == 0:
                Va[pvpq] = Va[pvpq] - pplinsolve(A1, P)
            else:
                Vm[pq] = Vm[pq] - pplinsolve(A2, Q)
            V = Vm * exp(1j * Va)
            mis = (V * conj(Ybus * V) - Sbus) / Vm
            P = mis[pvpq].real
            Q = mis[pq].imag
            done = (linalg.norm(P, inf) < tol) * (linalg.norm(Q, inf) < tol)
            if done:
                break
    return [V, done, it]


def gauss_seidel(Ybus, Sbus, V0, ref, pv, pq, tol, max_it):
    """V_k = (conj(S_k / V_k) - sum_{i != k} Y_ki V_i) / Y_kk in turn, load buses first; magnitudes of pv buses restored"""
    V = 1 * V0
    S = 1 * Sbus
    Vm = abs(V0)
    it = 0
    sel = r_[pv, pq]
    mis = V * conj(Ybus * V) - S
    done = linalg.norm(r_[mis[sel].real, mis[pq].imag], inf) < tol
    while not done and it < max_it:
        it = it + 1
        for k in list(pq) + list(pv):
            I = (Ybus * V)[k]
            if k in list(pv):
                s = S[k].real + 1j * (V[k] * conj(I)).imag
            else:
                s = S[k]
            V[k] = (conj(s / V[k]) - (I - Ybus[k, k] * V[k])) / Ybus[k, k]
        V[pv] = Vm[pv] * V[pv] / abs(V[pv])
        mis = V * conj(Ybus * V) - S
        done = linalg.norm(r_[mis[sel].real, mis[pq].imag], inf) < tol
    return [V, done, it]
