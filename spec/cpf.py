# Continuation power flow: S(V) = Sbase + lam * Sxfr, one further equation P(V, lam) = 0 fixes the step along the curve.
from numpy import array, zeros, angle, abs, conj, exp, r_, inf, linalg, sqrt
from scipy.sparse import hstack, vstack
from pypower.dSbus_dV import dSbus_dV
from pypower.pplinsolve import pplinsolve
from pypower.runcpf import runcpf
from spec.network import ymatrices, sbus, bus_types, solution
from spec.indexing import internal_tables
from spec.pf import tables, start, outside


def state(V, lam, pv, pq):
    return r_[angle(V)[r_[pv, pq]], abs(V)[pq], lam]


def equation(kind, step, z, V, lam, Vprv, lamprv, pv, pq):
    """natural parameter, arc length, pseudo arc length"""
    if kind == 1:
        return (lam - lamprv) * (lam >= lamprv) + (lamprv - lam) * (lam < lamprv) - step
    d = state(V, lam, pv, pq) - state(Vprv, lamprv, pv, pq)
    if kind == 2:
        return sum(d * d) - step * step
    return sum(z[positions(len(V), pv, pq)] * d) - step


def positions(nb, pv, pq):
    """angles of controlled and load buses, magnitudes of load buses, lambda"""
    return array(list(pv) + list(pq) + [nb + i for i in pq] + [2 * nb])


def gradient(kind, z, V, lam, Vprv, lamprv, pv, pq):
    if kind == 1:
        return zeros(len(pv) + 2 * len(pq)), 2 * (lam >= lamprv) - 1.0
    if kind == 2:
        d = 2 * (state(V, lam, pv, pq) - state(Vprv, lamprv, pv, pq))
        # on the spot the direction of increasing lambda
        return d[:-1], d[-1] + 1.0 * (lam == lamprv)
    g = z[positions(len(V), pv, pq)]
    return g[:-1], g[-1]


def jacobian(kind, Ybus, Sxfr, z, V, lam, Vprv, lamprv, pv, pq):
    pvpq = r_[pv, pq]
    dVm, dVa = dSbus_dV(Ybus, V)
    J = vstack([hstack([dVa[array([pvpq]).T, pvpq].real, dVm[array([pvpq]).T, pq].real]),
                hstack([dVa[array([pq]).T, pvpq].imag, dVm[array([pq]).T, pq].imag])], format='csr')
    dlam = -r_[Sxfr[pvpq].real, Sxfr[pq].imag]
    dV, dl = gradient(kind, z, V, lam, Vprv, lamprv, pv, pq)
    return vstack([hstack([J, dlam.reshape((len(dlam), 1))]), r_[dV, dl].reshape((1, len(dlam) + 1))], format='csr')


def predictor(V, lam, Ybus, Sxfr, pv, pq, step, z, Vprv, lamprv, kind):
    """step along the normalised tangent, lambda increasing along the previous direction"""
    nb = len(V)
    n = len(pv) + 2 * len(pq) + 1
    s = zeros(n)
    s[n - 1] = 1
    t = pplinsolve(jacobian(kind, Ybus, Sxfr, z, V, lam, Vprv, lamprv, pv, pq), s)
    full = zeros(2 * nb + 1)
    full[positions(nb, pv, pq)] = t
    full = full / sqrt(sum(t * t))
    Va, Vm = angle(V), abs(V)
    for i in list(pv) + list(pq):
        Va[i] = Va[i] + step * full[i]
    for i in pq:
        Vm[i] = Vm[i] + step * full[nb + i]
    return Vm * exp(1j * Va), lam + step * full[2 * nb], full


def corrector(Ybus, Sbus, V0, ref, pv, pq, lam0, Sxfr, Vprv, lamprv, z, step, kind, tol, max_it):
    """Newton iterations on the power balance and the step equation"""
    pvpq = r_[pv, pq]
    V, lam = 1 * V0, lam0
    n = len(pvpq)
    it = 0
    mis = V * conj(Ybus * V) - Sbus - lam * Sxfr
    F = r_[mis[pvpq].real, mis[pq].imag, equation(kind, step, z, V, lam, Vprv, lamprv, pv, pq)]
    done = linalg.norm(F, inf) < tol
    while not done and it < max_it:
        dx = -pplinsolve(jacobian(kind, Ybus, Sxfr, z, V, lam, Vprv, lamprv, pv, pq), F)
        Va, Vm = angle(V), abs(V)
        Va[pvpq] = Va[pvpq] + dx[:n]
        Vm[pq] = Vm[pq] + dx[n:-1]
        V = Vm * exp(1j * Va)
        lam = lam + dx[-1]
        it = it + 1
        mis = V * conj(Ybus * V) - Sbus - lam * Sxfr
        F = r_[mis[pvpq].real, mis[pq].imag, equation(kind, step, z, V, lam, Vprv, lamprv, pv, pq)]
        done = linalg.norm(F, inf) < tol
    return [V, done, it, lam]


def flat(x):
    return r_[x][0]


def run(base, target, ppopt):
    r, ok = runcpf(base, target, ppopt)
    cpf = r['cpf']
    out = [sorted(cpf), [cpf[x] for x in sorted(cpf)]]
    return [r['bus'], r['gen'], r['branch'], ok, r['success'], r['baseMVA'], out], [base[n] for n in ('bus', 'gen', 'branch')] + ['order' in base], \
        [target[n] for n in ('bus', 'gen', 'branch')] + ['order' in target]


def spread(s, n, cols):
    """values of the buses in the network in the rows of the case; the others have none"""
    m = zeros((n, len(cols)), complex) + float('nan')
    for j in range(len(cols)):
        for k in range(len(s['bus'])):
            m[s['bus'][k], j] = cols[j][k]
    return m


def curve(ppc, tgt, s, first, steps, ok, stop, step, kind, adapt, tol, smin, smax):
    """the calls made and the results, given the answers of the power flow, predictor and corrector"""
    bus, gen, branch = tables(ppc, s)
    tbus, tgen, tbranch = tables(tgt, s)
    ref, pv, pq = bus_types(bus, gen)
    Y, Yf, Yt = ymatrices(ppc['baseMVA'], bus, branch)
    S = sbus(ppc['baseMVA'], bus, gen)
    X = sbus(tgt['baseMVA'], tbus, tgen) - S
    asked = [[Y, S, start(bus, gen, ref, pv), ref, pv, pq]]
    nb = len(first)
    V, lam = first, 0
    Vprv, lamprv = V, lam
    z = zeros(2 * nb + 1)
    z[2 * nb] = 1
    Vp, lp, Vc, lc = [V], [0], [V], [0]
    n = 0
    good = 1
    more = len(steps) > 0
    while more:
        Vk, lk, zk, Vn, ln, its = steps[n]
        asked = asked + [[V, lam, Y, X, pv, pq, step, z, Vprv, lamprv, kind],
                         [Y, S, Vk, ref, pv, pq, lk, X, V, lam, zk, step, kind]]
        Vprv, lamprv = V, lam
        V, lam, z = Vn, ln, zk
        n = n + 1
        if n == len(steps) and not ok:
            good = 0
            break
        Vp, lp, Vc, lc = Vp + [Vk], lp + [lk], Vc + [V], lc + [lam]
        if stop == 'NOSE':
            more = lam >= lamprv
        elif stop == 'FULL':
            # back at the base case; the last step ends there
            more = abs(lam) >= 1e-8
            if more and lam < lamprv and lam < step:
                step, kind, adapt = lam, 1, False
        else:
            # the last step ends at the wanted point
            more = lam >= lamprv and abs(stop - lam) >= 1e-8
            if more and lam + step > stop:
                step, kind, adapt = stop - lam, 1, False
        if adapt and more:
            # longer steps while the predictor is good
            err = linalg.norm(r_[angle(V[pq]), abs(V[r_[pv, pq]]), lam] - r_[angle(Vk[pq]), abs(Vk[r_[pv, pq]]), lk], inf)
            step = step * tol / err
            if err < tol:
                if step > smax:
                    step = smax
            elif step < smin:
                step = smin
    base = 1 * bus
    for c in (2, 3):
        tbus[:, c] = base[:, c] + lam * (tbus[:, c] - base[:, c])
    tgen[:, 1] = gen[:, 1] + lam * (tgen[:, 1] - gen[:, 1])
    tbus, tgen, tbranch = solution(tgt['baseMVA'], tbus, tgen, tbranch, Y, Yf, Yt, V, ref, pv, pq)
    b, g, l = outside(tgt, s, tbus, tgen, tbranch)
    if good:
        N = ppc['bus'].shape[0]
        names = ['V_c', 'V_p', 'iterations', 'lam_c', 'lam_p', 'max_lam']
        out = [spread(s, N, Vc), spread(s, N, Vp), n, array(lc), array(lp), max(lc)]
    else:
        names, out = ['iterations'], [steps[n - 1][5]]
    same = lambda c: [c['bus'], c['gen'], c['branch'], False]
    return asked, [b, g, l, good, good, tgt['baseMVA'], [names, out]], same(ppc), same(tgt)


def transfer(ppc, tgt, s):
    bus, gen, branch = tables(ppc, s)
    tbus, tgen, tbranch = tables(tgt, s)
    return linalg.norm(sbus(tgt['baseMVA'], tbus, tgen) - sbus(ppc['baseMVA'], bus, gen))
