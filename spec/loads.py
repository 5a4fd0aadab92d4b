# Loads by zone: totals and scaling.
from numpy import array, zeros
BUS_I, PD, QD, BUS_AREA = 0, 2, 3, 6
GEN_BUS, PG, QG, QMAX, QMIN, GEN_STATUS, PMAX, PMIN = 0, 1, 2, 3, 4, 7, 8, 9


def dispatchable(gen, i):
    """running unit with negative minimum and zero maximum output"""
    return (gen[i, PMIN] < 0) * (gen[i, PMAX] == 0) * (gen[i, GEN_STATUS] > 0)


def is_load(gen):
    return array([(gen[i, PMIN] < 0) * (gen[i, PMAX] == 0) for i in range(len(gen))])


def zone_of(bus, number, zone):
    return [zone[b] for b in range(len(bus)) if bus[b, BUS_I] == number][0]


def totals(bus, gen, zone, fixed, disp):
    """load per zone; the reactive load of a dispatchable unit is its only nonzero limit"""
    nz = max(zone)
    Pd, Qd = zeros(nz), zeros(nz)
    for b in range(len(bus)):
        if zone[b] > 0 and fixed:
            Pd[zone[b] - 1] = Pd[zone[b] - 1] + bus[b, PD]
            Qd[zone[b] - 1] = Qd[zone[b] - 1] + bus[b, QD]
    if disp:
        for i in range(len(gen)):
            z = zone_of(bus, gen[i, GEN_BUS], zone)
            if z > 0:
                on = dispatchable(gen, i)
                Pd[z - 1] = Pd[z - 1] - on * gen[i, PMIN]
                Qd[z - 1] = Qd[z - 1] - on * ((gen[i, QMIN] == 0) * gen[i, QMAX] + (gen[i, QMAX] == 0) * gen[i, QMIN])
    return Pd, Qd


def factors(load, bus, gen, zone, which):
    """factor that brings each zone's real load to the target; refused when there is nothing to scale"""
    r = []
    for k in range(len(load)):
        f, d = 0, 0
        for b in range(len(bus)):
            if zone[b] == k + 1:
                f = f + bus[b, PD]
        for i in range(len(gen)):
            if zone_of(bus, gen[i, GEN_BUS], zone) == k + 1:
                d = d - dispatchable(gen, i) * gen[i, PMIN]
        part = f + d if which == 'BOTH' else f if which == 'FIXED' else d
        rest = 0 if which == 'BOTH' else d if which == 'FIXED' else f
        if part != 0:
            s = (load[k] - rest) / part
        elif load[k] == rest:
            s = 1
        else:
            raise ValueError('nothing to scale')
        r = r + [s]
    return r


def scaled(load, bus, gen, zone, quantity, pq, which):
    b2, g2 = bus.copy(), gen.copy()
    s = factors(load, bus, gen, zone, which) if quantity else load
    for b in range(len(bus)):
        if zone[b] > 0 and which != 'DISPATCHABLE':
            b2[b, PD] = bus[b, PD] * s[zone[b] - 1]
            if pq:
                b2[b, QD] = bus[b, QD] * s[zone[b] - 1]
    for i in range(len(gen)):
        z = zone_of(bus, gen[i, GEN_BUS], zone)
        if z > 0 and which != 'FIXED':
            t = 1 + dispatchable(gen, i) * (s[z - 1] - 1)
            for c in [PG, PMIN] + ([QG, QMIN, QMAX] if pq else []):
                g2[i, c] = gen[i, c] * t
    return b2, g2


# -- runs of the code under test

def total(bus, gen, zone, which):
    from pypower.total_load import total_load
    P, Q = total_load(bus, gen, zone, which)
    return P, Q, bus, gen, zone


def scale(load, bus, gen, zone, opt):
    from pypower.scale_load import scale_load
    b, g = scale_load(load, bus, gen, zone, opt)
    return [b, g], [load, bus, gen, zone, opt, sorted(opt) if opt is not None else 0]


def kept(load, bus, gen, zone, opt):
    return [load, bus, gen, zone, opt, sorted(opt) if opt is not None else 0]
