# What a power flow run asks its solver and reports.
from numpy import zeros, ones, pi, exp, angle, abs, array
from pypower.runpf import runpf
from spec.network import ymatrices, dcmatrices, fdpf_matrices, sbus, bus_types, solution, dcpf
from spec.indexing import internal_tables


def run(ppc, ppopt):
    r, ok = runpf(ppc, ppopt)
    return [r['bus'], r['gen'], r['branch'], ok, r['success'], r['baseMVA']], [ppc['bus'], ppc['gen'], ppc['branch'], 'order' in ppc]


def start(bus, gen, ref, pv):
    """initial voltages: those of the case, with the set points of the units at controlled buses"""
    vm = 1 * bus[:, 7]
    for b in list(ref) + list(pv):
        for g in range(gen.shape[0]):
            if gen[g, 0] == b:
                vm[b] = gen[g, 5]
    return vm * exp(1j * pi * bus[:, 8] / 180)


def outside(ppc, s, bus, gen, branch):
    """rows back in place; equipment out of service carries no power"""
    b, g, l = 1 * ppc['bus'], 1 * ppc['gen'], 1 * ppc['branch']
    if l.shape[1] < 17:
        w = zeros((l.shape[0], 17))
        w[:, :l.shape[1]] = l
        l = w
    for k in range(len(s['bus'])):
        b[s['bus'][k], 1:] = bus[k, 1:]
    for k in range(len(s['gen'])):
        g[s['gen'][k], 1:] = gen[k, 1:]
    for k in range(len(s['branch'])):
        l[s['branch'][k], 2:] = branch[k, 2:]
    for k in range(g.shape[0]):
        if k not in s['gen']:
            g[k, 1:3] = [0, 0]
    for k in range(l.shape[0]):
        if k not in s['branch']:
            l[k, 13:17] = [0, 0, 0, 0]
    return b, g, l


def tables(ppc, s):
    d = internal_tables(ppc, s)
    br = d[2]
    if br.shape[1] < 17:
        w = zeros((br.shape[0], 17))
        w[:, :br.shape[1]] = br
        br = w
    return d[0], d[1], br


def ac(ppc, s, alg, V, ok):
    bus, gen, branch = tables(ppc, s)
    base = ppc['baseMVA']
    ref, pv, pq = bus_types(bus, gen)
    Y, Yf, Yt = ymatrices(base, bus, branch)
    asked = [Y, sbus(base, bus, gen), start(bus, gen, ref, pv)]
    if alg == 2 or alg == 3:
        Bp, Bpp = fdpf_matrices(base, bus, branch, alg)
        asked = asked + [Bp, Bpp]
    asked = asked + [ref, pv, pq]
    bus, gen, branch = solution(base, bus, gen, branch, Y, Yf, Yt, V, ref, pv, pq)
    b, g, l = outside(ppc, s, bus, gen, branch)
    return asked, [b, g, l, ok, ok, base], [ppc['bus'], ppc['gen'], ppc['branch'], False]


def dc(ppc, s):
    bus, gen, branch = tables(ppc, s)
    base = ppc['baseMVA']
    ref, pv, pq = bus_types(bus, gen)
    B, Bf, Pinj, Pf = dcmatrices(base, bus, branch)
    p = sbus(base, bus, gen).real - bus[:, 4] / base - Pinj
    Va = dcpf(B, p, bus[:, 8] * pi / 180, ref, pv, pq)
    flow = base * (Bf @ Va + Pf)
    branch[:, 13] = flow
    branch[:, 14] = 0
    branch[:, 15] = -flow
    branch[:, 16] = 0
    bus[:, 7] = 1
    bus[:, 8] = Va * 180 / pi
    for r in ref:
        first = True
        for k in range(gen.shape[0]):
            if first and gen[k, 0] == r:
                # the bus balances: injection = B Va + phase shifters + shunt
                gen[k, 1] = gen[k, 1] + base * ((B @ Va)[r] - p[r])
                first = False
    b, g, l = outside(ppc, s, bus, gen, branch)
    return [b, g, l, True, True, base], [ppc['bus'], ppc['gen'], ppc['branch'], False]


# -- reactive power limits

def scripted(bus, gen, branch, V, ref, q, pslack):
    """a solved operating point with given reactive outputs and output of the slack unit"""
    bus[:, 7] = abs(V)
    bus[:, 8] = angle(V) * 180 / pi
    first = True
    for k in range(gen.shape[0]):
        gen[k, 2] = q[k] * (gen[k, 7] > 0)
        if first and gen[k, 7] > 0 and gen[k, 0] == ref[0]:
            gen[k, 1] = pslack
            first = False
    return bus, gen, branch


def limited(ppc, s, script, Vs, Ps, one, multi):
    """units beyond a limit are held there (all of them, or only the worst) and their buses become load buses"""
    bus, gen, branch = tables(ppc, s)
    base = ppc['baseMVA']
    ref, pv, pq = bus_types(bus, gen)
    ref0, va0 = ref, 1 * bus[:, 8]
    ng = gen.shape[0]
    V0 = start(bus, gen, ref, pv)
    held = {}
    order = []
    asked = []
    ok = 1
    n = 0
    free = 1 * gen
    load = 1 * bus
    while True:
        asked = asked + [[sbus(base, load, free), V0, ref, pv, pq]]
        V = Vs[n]
        q = script[n]
        load, free, branch = scripted(load, free, branch, V, ref, q, Ps[n])
        n = n + 1
        over = [k for k in range(ng) if k not in held and q[k] > gen[k, 3] + 5e-6]
        under = [k for k in range(ng) if k not in held and q[k] < gen[k, 4] - 5e-6]
        if len(over) + len(under) == 0:
            break
        left = [k for k in range(ng) if k not in held and load[int(gen[k, 0]), 1] > 1]
        if sorted(over + under) == left:
            ok = 0
            break
        new = over + under
        if one:
            worst, far = -1, 0
            for k in new:
                d = q[k] - gen[k, 3] if k in over else gen[k, 4] - q[k]
                if d > far:
                    worst, far = k, d
            new = [worst]
        for k in new:
            lim = gen[k, 3] if k in over else gen[k, 4]
            held[k] = lim
            b = int(gen[k, 0])
            load[b, 2] = load[b, 2] - free[k, 1]
            load[b, 3] = load[b, 3] - lim
            free[k, 7] = 0
            free[k, 2] = lim
        for k in new:
            load[int(gen[k, 0]), 1] = 1
        ref, pv, pq = bus_types(load, free)
        load[ref, 1] = 3
        load[pv, 1] = 2
    for k in held:
        b = int(gen[k, 0])
        free[k, 7] = gen[k, 7]
        free[k, 2] = held[k]
        load[b, 2] = load[b, 2] + free[k, 1]
        load[b, 3] = load[b, 3] + held[k]
    if list(ref) != list(ref0) and len(held) > 0:
        load[:, 8] = load[:, 8] - load[ref0[0], 8] + va0[ref0[0]]
    b, g, l = outside(ppc, s, load, free, branch)
    return asked, [b, g, l, ok, ok, base], [ppc['bus'], ppc['gen'], ppc['branch'], False]
