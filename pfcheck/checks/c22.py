from ..harness import *
from ..domain import case_valuation
NEED = 30
EXPLANATION = ('total_load and scale_load are interpreted on tables of concrete topology and zones with symbolic contents, for every '
               'combination of their options, and compared with the documented sums and scaled tables.')
ASSUMPTIONS = ['every unit stands at a bus of the table']
NUMBERS = [10, 3, 7, 5, 21]
AREAS = [2, 1, 1, 3, 2]
UNITS = [7, 10, 3, 10, 5, 21]


def tables(C, gens=True):
    b = C.ctable('bus', len(NUMBERS), 13, {0: NUMBERS, 6: AREAS})
    g = C.ctable('gen', len(UNITS), 21, {0: UNITS})
    return b, g if gens else C.ctable('gen', 0, 21, {})


def vals(seed):
    V = case_valuation(seed)
    r = V.r
    u = lambda a, b: round(r.uniform(a, b), 3)
    bus = [[n, 1, r.choice([0, u(5, 90)]), r.choice([0, u(-9, 20)])] + [0, 0, a] + [1] * 6 for n, a in zip(NUMBERS, AREAS)]
    if seed % 3 == 0:
        for x in bus:
            if x[6] == 1 + seed % 2:
                x[2] = x[3] = 0
    gen = []
    for n in UNITS:
        row = [n] + [u(1, 9) for i in range(20)]
        row[7] = r.choice([1, 1, 0]) if seed % 2 else 1
        row[8] = r.choice([0, 0, 0, u(10, 50)]) if seed % 2 else 0
        row[9] = r.choice([u(-50, -5), u(-50, -5), 0, u(1, 5)]) if seed % 2 else u(-50, -5)
        row[3:5] = r.choice([[0, u(-9, -1)], [u(1, 9), 0], [0, 0], [u(1, 9), u(-9, -1)]])
        gen.append(row)
    V.atoms.update(cbus=bus, cgen=gen, load=[r.choice([0, u(10, 200), u(10, 200)]) for i in range(4)], load0=u(10, 200),
                   iload=[r.choice([0, 30, 100]) for i in range(3)])
    return V


ZONES = {'areas': None, 'all': 'all', 'given': [2, 0, 1, 1, 2], 'given, one left out': [3, 1, 0, 3, 1]}


def check(k):
    k.rule('total', 'the load of each zone is the sum of the fixed loads and of the dispatchable loads in service')
    k.rule('scaling', 'fixed and dispatchable loads are multiplied by the factor of their zone, or the factor that meets the target; '
                      'everything else is kept')
    k.rule('refusal', 'a target is refused exactly when there is nothing to scale and it is not already met')
    k.rule('inputs kept', 'tables, zones, factors and options of the caller are left as they were')
    k.rule('dispatchable', 'a dispatchable load has a negative minimum and zero maximum output')
    k.ref('dispatchable', 'isload', ('isload', 'isload'), ('loads', 'is_load'), lambda C: [tables(C)[1]], vals)
    w = k.where('total_load', 'total_load')
    for gens in (True, False):
        for zn, z in ZONES.items():
            for wt in (None, 'BOTH', 'FIXED', 'DISPATCHABLE'):
                lab = 'total_load [%s, %s%s]' % (zn, wt, '' if gens else ', no units')

                def go():
                    C, R = k.ctx(), k.ctx()
                    b, g = tables(C)
                    zone = lambda X: NONE if z is None else Const(z) if z == 'all' else X.arr(const_vec(z))
                    v = C.call('spec.loads', 'total', b, g if gens else NONE, zone(C), NONE if wt is None else Const(wt))
                    rb, rg = tables(R)
                    full = R.I.newlist(R.st, [Const(x) for x in (AREAS if z is None else [1] * len(AREAS) if z == 'all' else z)])
                    fixed = wt != 'DISPATCHABLE' or not gens
                    disp = wt != 'FIXED' and gens
                    q = R.call('spec.loads', 'totals', rb, rg, full, Const(fixed), Const(disp))
                    k.compare('total', w, lab, C, Tup(v.items[:2]), R, q, vals)
                    k.compare('inputs kept', w, lab + ' arguments', C, Tup(v.items[2:]), R, Tup([rb, rg if gens else NONE, zone(R)]), vals)
                k.guarded(lab, go)
    w = k.where('scale_load', 'scale_load')
    # a single factor given as a number, targets given as integers
    SC = {'number': ('number', None, [1] * 5), 'integers, areas': ('int', None, AREAS), 'one': (1, None, [1] * 5), 'areas': (3, None, AREAS), 'given': (2, ZONES['given'], ZONES['given']),
          'given, one left out': (3, ZONES['given, one left out'], ZONES['given, one left out']),
          'one, given': (1, [1, 0, 1, 0, 1], [1, 0, 1, 0, 1])}
    for gens in (True, False):
        for zn, (n, given, full) in SC.items():
            for sc in (None, 'FACTOR', 'QUANTITY'):
                for wt in (None, 'BOTH', 'FIXED', 'DISPATCHABLE'):
                    for pq in (None, 'PQ', 'P'):
                        if not k.thorough and (pq is None) != (sc is None) or (not gens and wt not in (None, 'FIXED')):
                            continue
                        o = {a: b for a, b in (('scale', sc), ('which', wt), ('pq', pq)) if b}
                        lab = 'scale_load [%s%s%s]' % (zn, ''.join(', ' + o[x] for x in sorted(o)), '' if gens else ', no units')

                        def go2():
                            C, R = k.ctx(), k.ctx()
                            for X in (C, R):
                                X.I.letsize = 3

                            def args(X):
                                b, g = tables(X)
                                opt = X.dict({a: Const(b) for a, b in o.items()}) if o else NONE
                                ld = X.sym('load0') if n == 'number' else X.vec('iload', 3, 'i') if n == 'int' else X.vec('load', n)
                                return [ld, b, g if gens else NONE, NONE if given is None else X.arr(const_vec(given)), opt]
                            v = C.call('spec.loads', 'scale', *args(C))
                            a = args(R)
                            l = R.I.newlist(R.st, [a[0]]) if n == 'number' else a[0]
                            rg = tables(R, gens)[1]
                            q = R.call('spec.loads', 'scaled', l, a[1], rg, R.I.newlist(R.st, [Const(x) for x in full]),
                                       Const(sc == 'QUANTITY'), Const(pq != 'P'), Const((wt or 'BOTH') if gens else 'FIXED'))
                            q = list(q.items)
                            g = v.items[0]
                            r = C.I.seq_items(g, C.st)
                            if not gens:
                                r, q = r[:1], q[:1]
                            k.refusal('refusal', w, lab + ' refusal', C, R, vals)
                            k.compare('scaling', w, lab, C, Tup(r), R, Tup(q), k.accepted(R, vals))
                            k.compare('inputs kept', w, lab + ' arguments', C, v.items[1], R, R.call('spec.loads', 'kept', *a), vals)
                        k.guarded(lab, go2)
