from fractions import Fraction
from ..harness import *
from ..domain import case_valuation
from ..evalnf import h01
from .c25 import lift
NEED = 1000
EXPLANATION = ('uopf is interpreted with the optimal power flow replaced by its answers for every set of running units: symbolic cost, outputs, voltages and '
               'multipliers, with an enumerated order of the costs, outcomes and signs of the multipliers; what it returns is compared with the reference search.')
ASSUMPTIONS = ['loads, minimum outputs and unit costs are concrete examples', 'up to four generators',
               'orders of the costs, outcomes and signs of multipliers range over a list']
# minimum outputs (negative: dispatchable load), initial statuses, fixed load, polynomial costs
S = {
    'all fit': dict(pmin=[20, 30, 10], on=[1, 1, 1], load=[150, 20], cost=[(.1, 5, 10), (.2, 3, 0), (.1, 9, 5)]),
    'a unit off': dict(pmin=[20, 30, 10, 15], on=[1, 0, 1, 1], load=[150, 20], cost=[(.1, 5, 10)] * 4),
    'zero minimum and a load': dict(pmin=[20, 0, -40, 10], on=[1, 1, 1, 1], load=[50, 0], cost=[(.1, 5, 10), (.2, 3, 7), (.1, 9, 5), (.1, 2, 3)]),
    'one too many': dict(pmin=[60, 50, 70], on=[1, 1, 1], load=[100, 45], cost=[(.1, 5, 10), (.3, 5, 10), (.1, 5, 20)]),
    'two too many': dict(pmin=[60, 50, 70, 40], on=[1, 1, 1, 1], load=[80, 20], cost=[(.1, 5, 10), (.1, 9, 10), (.1, 5, 20), (.1, 12, 1)]),
    'load makes room': dict(pmin=[60, -50, 70, 40], on=[1, 1, 1, 1], load=[90, 10], cost=[(.1, 5, 10), (.1, 9, 10), (.1, 5, 20), (.1, 12, 1)]),
    'load out of service': dict(pmin=[60, -50, 70, 40], on=[1, 0, 1, 1], load=[90, 10], cost=[(.1, 5, 10), (.1, 9, 10), (.1, 5, 20), (.1, 12, 1)]),
    'costs of reactive power too': dict(pmin=[60, 50, 70], on=[1, 1, 1], load=[100, 45], cost=[(.1, 5, 10), (.3, 5, 10), (.1, 5, 20)], q=True),
}


def fits(s):
    """statuses after the initial decommitment: the most expensive unit per MW at its minimum goes first"""
    on = list(s['on'])
    n = len(on)
    room = sum(s['load']) - sum(s['pmin'][i] for i in range(n) if on[i] and s['pmin'][i] < 0)
    while True:
        run = [i for i in range(n) if on[i] and s['pmin'][i] >= 0]
        if sum(s['pmin'][i] for i in run) <= room:
            return on
        F = lambda i: sum(Fraction(str(c)) * s['pmin'][i] ** e for c, e in zip(s['cost'][i], (2, 1, 0)))
        on[max((i for i in run if s['pmin'][i]), key=lambda i: F(i) / s['pmin'][i])] = 0


def case(C, s):
    n, nb = len(s['on']), len(s['load'])
    bus = C.ctable('bus', nb, 13, {0: [2, 1], 1: [3, 1], 2: s['load'], 6: [1] * nb, 10: [1] * nb})
    gen = C.ctable('gen', n, 21, {0: [1 + i % 2 for i in range(n)], 7: s['on'], 8: [0 if p < 0 else None for p in s['pmin']], 9: s['pmin']})
    cost = {0: [2] * n, 3: [3] * n}
    for c in range(3):
        cost[4 + c] = [Fraction(str(x[c])) for x in s['cost']]
    if s.get('q'):
        cost = {c: v + [1 if c == 4 else v[0]] * n for c, v in cost.items()}
    return {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': bus, 'gen': gen, 'branch': C.ctable('branch', 1, 13, {0: [1], 1: [2], 10: [1]}),
            'gencost': C.ctable('gencost', n * (2 if s.get('q') else 1), 7, cost)}


P.declare('upg', real=True)
P.declare('uvm', real=True)
P.declare('ubase', real=True)
P.declare('umu', real=True, pos=True)


class Answers(object):
    """outcome, cost rank and signs of the multipliers of the minimum outputs for every set of running units"""
    def __init__(self, n, seed):
        self.n = n
        N = range(2 ** n)
        few = [0, 60, 150][seed % 3]           # how much fewer units tend to save
        r = {m: int(100 * h01(seed, m, 1)) * 32 + m + 32 * few * bin(m).count('1') for m in N}
        for m in N:
            for i in range(n):
                if m & 1 << i and h01(seed, m, i, 7) < 0.08:
                    r[m - (1 << i)] = r[m]     # no gain
        self.rank = [r[m] for m in N]
        self.ok = [h01(seed, m, 2) > 0.15 for m in N]
        # solvers leave tiny negative multipliers as well as exact zeros
        self.mu = [[(h01(seed, m, i, 3) > 0.3) - (h01(seed, m, i, 3) < 0.15) for i in range(n)] for m in N]


def oracle(C, ans, log):
    """the optimal power flow: the answer for the statuses it is given"""
    def opf(I, st, args, kw):
        args = list(args) + list(kw.values())
        d = I.cell(st, args[0])
        log.append((args[1] if len(args) > 1 else None, st.fork()))
        gen, bus = I.arr_of(st, d.items['gen']), I.arr_of(st, d.items['bus'])
        n = gen.dims[0].const()
        on = [gen.at(P.const(i), P.const(7)).const() for i in range(n)]
        if None in on:
            return Unk('optimal power flow with unknown statuses')
        m = sum(2 ** i for i in range(n) if on[i] > 0)

        def g(i, j):
            i, j = P.flat(i), P.flat(j)
            c, r = j.const_int(), i.const_int()
            if c is None:
                return P.atom('?gen', i, j)
            if r is None:
                acc = ZERO
                for k in range(n):
                    acc = acc + P.eq(i - P.const(k)) * g(P.const(k), j)
                return acc
            if c in (1, 2) and m & 1 << r:
                return P.atom('upg', P.const(m), i).scale(1 if c == 1 else -1)
            if c == 22:
                return P.atom('umu', P.const(m), i).scale(ans.mu[m][r])
            return gen.at(i, j) if c < 21 else ZERO

        def b(i, j):
            c = P.flat(j).const_int()
            if c is None:
                return P.atom('?bus', P.flat(i), P.flat(j))
            return P.atom('uvm', P.const(m), P.flat(i)) if c == 7 else bus.at(i, j) if c < 13 else ZERO
        r = dict(d.items)
        r.update(gen=I.newarr(st, Arr((gen.dims[0], cdim(25)), g, 'f')), bus=I.newarr(st, Arr((bus.dims[0], cdim(17)), b, 'f')),
                 f=scalar(P.atom('ubase') + P.const(ans.rank[m]), 'f'), success=Const(ans.ok[m]), mask=Const(m), start=scalar(bus.at(ZERO, P.const(7)), 'f'))
        return I.newdict(st, r)
    C.I.overrides['pypower.opf.opf'] = PyFunc(opf)


def check(k):
    k.rule('search', 'the result is the solved case the staged search ends with: units that cannot fit go first, then one unit per stage while it pays')
    k.rule('options', 'the optimal power flows run with the options of the caller, one step less verbose')
    k.rule('ties', 'of several greatest values, each may be picked')
    where = k.where('uopf', 'uopf')
    for a, lab in enumerate(S):
        for b in range(200 if k.thorough else 24):
            k.guarded('%s %d' % (lab, b), lambda: one(k, lab, S[lab], 100 * a + b, b % 2 * (1 + b % 3), where))
    for lab, x in (('one', [5]), ('first', [9, 3, 4]), ('two', [1, 7, 7]), ('all', [2, 2, 2]), ('negative', [-3, -1, -1, -2])):
        k.guarded('fairmax ' + lab, lambda: ties(k, lab, x))


def ties(k, lab, x):
    where = k.where('fairmax', 'fairmax')
    best = [i for i in range(len(x)) if x[i] == max(x)]
    got = set()
    for r in (Fraction(0), Fraction(1, 10), Fraction(34, 100), Fraction(1, 2), Fraction(67, 100), Fraction(999999, 1000000)):
        C = k.ctx()
        C.I.random, C.I.nonan = r, True
        v = C.call('fairmax', 'fairmax', C.arr(const_vec(x)))
        it = [C.A(y) for y in v.items] if isinstance(v, Tup) else []
        v = [y.p().const() for y in it if y is not None and y.rank == 0]
        if len(v) != 2 or None in v:
            return k.undecided('fairmax ' + lab, 'the results are not known numbers')
        if v[0] != max(x) or v[1] not in best:
            return k.violate('ties', where, 'fairmax %s' % lab, 'of %r the greatest is said to be %s at position %s' % (x, v[0], v[1]))
        got.add(v[1])
    if got != set(best):
        return k.violate('ties', where, 'fairmax %s' % lab, 'of %r, position %s is never picked' % (x, sorted(set(best) - got)[0]))
    k.ok('fairmax ' + lab)


def one(k, lab, s, seed, verb, where):
    label = '%s %d%s' % (lab, seed % 100, ', verbose' if verb else '')
    n, nb = len(s['on']), len(s['load'])
    ans = Answers(n, seed)
    C, R = k.ctx(), k.ctx()
    for c in (C, R):
        c.I.unroll, c.I.nonan, c.I.random = 6, True, Fraction(1, 3)
    log = []
    oracle(C, ans, log)
    opt = C.I.call(C.func('ppoption', 'ppoption'), [], {'VERBOSE': Const(verb), 'OPF_VIOLATION': Const(0.125)}, C.st, None)
    v = C.call('spec.uopf', 'solve', C.func('uopf', 'uopf'), C.dict(case(C, s)), opt)
    t = lambda nm, *d: R.arr(Arr(tuple(cdim(x) for x in d), lambda *ix: P.atom(nm, *[P.flat(i) for i in ix]), 'f'))
    on = fits(s)
    d = case(R, s)
    cols = lambda a, cs: R.arr(Arr((R.A(a).dims[0], cdim(len(cs))), lambda i, j: polyvec([R.A(a).at(i, P.const(c)) for c in cs]).at(j), 'f'))
    vm = R.arr(Arr((cdim(nb),), lambda i: R.A(d['bus']).at(i, P.const(7)), 'f'))
    out = cols(d['gen'], [1, 2, 7, 9])
    keys = sorted(list(d) + ['f', 'success', 'mask', 'start', 'et'])
    w = R.call('spec.uopf', 'solve_ref', cols(d['gen'], [1, 2, 7]), vm, out, lift(R, [i for i in range(n) if not s['on'][i]]), lift(R, on),
               lift(R, [i for i in range(n) if s['pmin'][i] > 0]), lift(R, keys), lift(R, ans.rank), lift(R, ans.ok), lift(R, ans.mu),
               R.sym('ubase'), t('upg', 2 ** n, n), t('uvm', 2 ** n, nb))
    k.compare('search', where, label, C, v, R, w)
    bad = [level(C, st, o) for o, st in log if o is None or level(C, st, o) != (max(verb - 1, 0), 0.125)]
    if bad:
        k.violate('options', where, label + ': options', 'an optimal power flow runs with VERBOSE and OPF_VIOLATION %s' % (bad[0],))
    elif log:
        k.ok(label + ': options')
    else:
        k.undecided(label + ': options', 'no optimal power flow is run')


def level(C, st, o):
    c = C.I.cell(st, o)
    x = [C.I.arr_of(st, c.items[a]) if not isinstance(c.items[a], Const) else c.items[a].v for a in ('VERBOSE', 'OPF_VIOLATION')]
    return tuple(y if isinstance(y, (int, float)) else float(y.p().const()) for y in x)
