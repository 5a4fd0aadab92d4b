"""Input domains: valuations of the case tables a user may supply."""
import random
from .evalnf import Valuation


def bus_table(r, nb, types=None, nref=1, cols=13, isolated=False):
    rows = []
    t = [1] * nb
    for i in range(nb):
        t[i] = r.choice([1, 1, 2])
    for i in r.sample(range(nb), nref):
        t[i] = 3
    if nb >= 3:
        pq = [i for i in range(nb) if t[i] == 1]
        if not pq:
            k = [i for i in range(nb) if t[i] == 2]
            t[k[0]] = 1
    for i in range(nb):
        rows.append([i, t[i], r.choice([0, u(r, 10, 90), u(r, 10, 90), u(r, -20, -5)]), r.choice([0, u(r, 5, 40), u(r, 5, 40), u(r, -9, -2)]),
                     r.choice([0, u(r, 1, 9), u(r, 1, 9), u(r, -4, -1)]), r.choice([0, u(r, 2, 20), u(r, 2, 20), u(r, -20, -2)]), r.choice([1, 1, 2]),
                     u(r, 0.93, 1.07), u(r, -25, 25), r.choice([135, 230]), r.choice([1, 2]), u(r, 1.05, 1.1), u(r, 0.9, 0.95)] +
                    [u(r, 1, 5) for _ in range(max(0, cols - 13))])
    return rows


def u(r, a, b):
    return round(r.uniform(a, b), 4)


def gen_table(r, ng, nb, bus=None, cols=21):
    rows = []
    for i in range(ng):
        row = [0.0] * cols
        gb = r.randrange(nb)
        row[0] = gb
        row[1] = u(r, 5, 80)
        row[2] = u(r, -20, 30)
        row[3] = u(r, 40, 60)
        row[4] = u(r, -60, -30)
        row[5] = u(r, 0.95, 1.05)
        row[6] = r.choice([100.0, 90.0])
        row[7] = r.choice([1, 1, 0, 2, -1])
        row[8] = u(r, 90, 150)
        row[9] = u(r, 0, 5)
        for c in range(10, cols):
            row[c] = u(r, 1, 30)
        rows.append(row)
    if bus is not None:
        # the reference bus carries an in-service generator
        ref = [i for i in range(nb) if bus[i][1] == 3]
        if ref and ng:
            k = r.randrange(ng)
            rows[k][0] = ref[0]
            rows[k][7] = 1
    return rows


def branch_table(r, nl, nb, cols=17):
    rows = []
    for i in range(nl):
        f, t = r.sample(range(nb), 2) if nb > 1 else (0, 0)
        if i < nb - 1:
            f, t = (i, i + 1) if r.random() < 0.5 else (i + 1, i)
        row = [f, t, r.choice([0, u(r, 0.01, 0.09), u(r, 0.01, 0.09)]), r.choice([u(r, 0.05, 0.4)] * 5 + [u(r, -0.3, -0.15)]), r.choice([0, u(r, 0.01, 0.3), u(r, 0.01, 0.3)]), r.choice([0, u(r, 50, 90)]), u(r, 50, 90), u(r, 50, 90),
               r.choice([0, 0, u(r, 0.9, 1.1)]), r.choice([0, 0, u(r, -12, 12)]), r.choice([1, 1, 1, 0]),
               r.choice([-360, 0, u(r, -40, -10)]), r.choice([360, 0, u(r, 10, 40)])]
        row += [u(r, -60, 60) for _ in range(cols - 13)]
        rows.append(row)
    return rows


def case_valuation(seed, nb=None, ng=None, nl=None, atoms=None, sizes=None, tweak=None):
    r = random.Random(seed * 7919 + 13)
    nb = nb or r.choice([3, 4, 5])
    ng = ng or r.choice([2, 3, 4])
    nl = nl or r.choice([nb, nb + 1, nb + 2])
    bus = bus_table(r, nb)
    A = {'bus': bus, 'gen': gen_table(r, ng, nb, bus), 'branch': branch_table(r, nl, nb), 'baseMVA': r.choice([100.0, 50.0, 10.0])}
    V = Valuation(seed, {'nb': nb, 'ng': ng, 'nl': nl}, A)
    V.r = r
    V.atoms['eps'] = 1e-7      # formulas with eps are compared to first order
    # index vectors by bus type
    V.atoms['ref'] = [i for i in range(nb) if bus[i][1] == 3]
    V.atoms['pv'] = [i for i in range(nb) if bus[i][1] == 2]
    V.atoms['pq'] = [i for i in range(nb) if bus[i][1] == 1]
    V.sizes['npv'] = len(V.atoms['pv'])
    V.sizes['npq'] = len(V.atoms['pq'])
    V.sizes['nref'] = 1
    if sizes:
        V.sizes.update(sizes)
    if atoms:
        V.atoms.update(atoms)
    if tweak:
        tweak(V, r)
    return V


def connected(seed):
    """in-service branches span all buses; at least one extra branch"""
    def tw(V, r):
        nb = V.sizes['nb']
        for i in range(nb - 1):
            V.atoms['branch'][i][10] = 1
    return case_valuation(seed, tweak=tw)
