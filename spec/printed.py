from numpy import pi, cos, sqrt


def put(fd, fmt, *v):
    fd.write(' ' + fmt % v + ' ')


def title(fd, t):
    fd.write('\n|     ' + t + '      |\n')


def total(a, rows):
    t = 0.0
    for i in rows:
        t = t + a[i]
    return t


def extremes(v, rows):
    lo, il, hi, ih = v[0], rows[0], v[0], rows[0]
    for i in range(1, len(rows)):
        if v[i] < lo:
            lo, il = v[i], rows[i]
        if v[i] > hi:
            hi, ih = v[i], rows[i]
    return lo, il, hi, ih


def peak(v, a, b):
    hi, f, t = v[0], a[0], b[0]
    for i in range(1, len(a)):
        if v[i] > hi:
            hi, f, t = v[i], a[i], b[i]
    return hi, f, t


def flows(r, s, dc):
    bus, branch = r['bus'], r['branch']
    P, Q, F, T = [], [], [], []
    for i in range(len(s['f'])):
        f, t = s['f'][i], s['t'][i]
        k = branch[i, 8] if i in s['xfmr'] else 1.0
        if i in s['out'] or dc:
            P.append(0.0)
            Q.append(0.0)
            F.append(0.0)
            T.append(0.0)
        else:
            a, b = bus[f, 7] / k, bus[t, 7]
            d = a ** 2 + b ** 2 - 2 * a * b * cos(pi / 180 * (bus[f, 8] - bus[t, 8] - branch[i, 9]))
            z = r['baseMVA'] * d / (branch[i, 2] ** 2 + branch[i, 3] ** 2)
            P.append(z * branch[i, 2])
            Q.append(z * branch[i, 3])
            F.append(a ** 2 * branch[i, 4] * r['baseMVA'] / 2)
            T.append(b ** 2 * branch[i, 4] * r['baseMVA'] / 2)
    return P, Q, F, T


def noted(results, fd, ppopt, args):
    fd.write('\n @callback %d %d %.2f \n' % (ppopt['OUT_ALL'], ppopt['OUT_ALL_LIM'], args))
    return results


def with_callback(r, o, fd, printpf):
    d = dict(r)
    d['userfcn'] = {'printpf': [{'fcn': noted, 'args': 7.5}]}
    printpf(d, fd, o)
    return r['bus'], r['gen'], r['branch'], r['baseMVA'], o


def with_callback_ref(r, o, s, fd):
    out = there_ref(r, o, s, fd)
    if o['OUT_ALL'] != 0:
        fd.write('\n @callback %d %d %.2f \n' % (o['OUT_ALL'], o['OUT_ALL_LIM'] if 'f' in r else 0, 7.5))
    return out


def there(r, o, fd, how, printpf):
    if how == 0:
        printpf(r, fd, o)
    elif how == 1:
        printpf(r['baseMVA'], r['bus'], r['gen'], r['branch'], r['f'] if 'f' in r else None, r['success'], r['et'], fd, o)
    elif how == 2:
        printpf(r['baseMVA'], r['bus'], r['gen'], r['branch'], r['f'] if 'f' in r else None, r['success'], r['et'], ppopt=o)
    elif how == 3:
        printpf(r, ppopt=None)
    elif how == 4:
        printpf(r, None, o)
    elif how == 5:
        printpf(r['baseMVA'], r['bus'], r['gen'], r['branch'], r['f'] if 'f' in r else None, r['success'], r['et'])
    return r['bus'], r['gen'], r['branch'], r['baseMVA'], o


def there_ref(r, o, s, fd):
    b, g, br = r['bus'].copy(), r['gen'].copy(), r['branch'].copy()
    report(r, o, s, fd)
    return b, g, br, r['baseMVA'], o


def wanted(o, x):
    return o['OUT_ALL'] == 1 or (o['OUT_ALL'] == -1 and o[x])


def level(o, x):
    if o['OUT_ALL'] == 1:
        return 2
    if o['OUT_ALL'] == -1:
        if o['OUT_ALL_LIM'] == -1:
            return o[x]
        return o['OUT_ALL_LIM']
    return 0


def report(r, o, s, fd):
    if o['OUT_ALL'] == 0:
        return
    dc = o['PF_DC']
    opf = 'f' in r
    sections = [wanted(o, 'OUT_SYS_SUM'), wanted(o, 'OUT_AREA_SUM'), wanted(o, 'OUT_GEN'), wanted(o, 'OUT_BUS'), wanted(o, 'OUT_BRANCH')]
    limits = [level(o, 'OUT_V_LIM'), level(o, 'OUT_PG_LIM'), level(o, 'OUT_QG_LIM'), level(o, 'OUT_LINE_LIM')]
    if True in sections or 1 in limits or 2 in limits:
        if r['success']:
            put(fd, 'Converged in %.2f seconds', r['et'])
        else:
            put(fd, 'Did not converge ( %.2f seconds)', r['et'])
        if opf:
            put(fd, 'Objective Function Value = %.2f', r['f'])
    bus, gen, branch = r['bus'].copy(), r['gen'].copy(), r['branch'].copy()
    if dc:
        for i in range(bus.shape[0]):
            bus[i, 3] = 0.0
            bus[i, 5] = 0.0
        for i in range(gen.shape[0]):
            gen[i, 2] = 0.0
            gen[i, 3] = 0.0
            gen[i, 4] = 0.0
    loss = flows(r, s, dc)
    if sections[0]:
        system(bus, gen, branch, loss, s, fd, dc, opf)
    if sections[1]:
        areas(bus, gen, branch, loss, s, fd)
    if sections[2]:
        generators(bus, gen, s, fd, opf)
    if sections[3]:
        buses(bus, gen, s, fd, opf)
    if sections[4]:
        branches(branch, loss, s, fd)
    if opf:
        constraints(bus, gen, branch, o, limits, s, fd, dc)


def system(bus, gen, branch, loss, s, fd, dc, opf):
    allg, ong, onld, nzld, nzsh = s['allg'], s['ong'], s['onld'], s['nzld'], s['nzsh']
    title(fd, 'System Summary')
    put(fd, '%d %.1f %.1f %.1f', len(s['num']), total(gen[:, 8], allg), total(gen[:, 4], allg), total(gen[:, 3], allg))
    put(fd, '%d %.1f %.1f %.1f', len(allg), total(gen[:, 8], ong), total(gen[:, 4], ong), total(gen[:, 3], ong))
    put(fd, '%d %.1f %.1f', len(ong), total(gen[:, 1], ong), total(gen[:, 2], ong))
    put(fd, '%d %.1f %.1f', len(nzld) + len(onld), total(bus[:, 2], nzld) - total(gen[:, 1], onld), total(bus[:, 3], nzld) - total(gen[:, 2], onld))
    put(fd, '%d %.1f %.1f', len(nzld), total(bus[:, 2], nzld), total(bus[:, 3], nzld))
    put(fd, '%d %.1f %.1f %.1f', len(onld), -total(gen[:, 1], onld), -total(gen[:, 9], onld), -total(gen[:, 2], onld))
    put(fd, '%d %.1f %.1f', len(nzsh), -total(bus[:, 7] ** 2 * bus[:, 4], nzsh), total(bus[:, 7] ** 2 * bus[:, 5], nzsh))
    every = range(len(s['f']))
    put(fd, '%d %.2f %.2f', len(s['f']), total(loss[0], every), total(loss[1], every))
    put(fd, '%d - %.1f', len(s['xfmr']), total(loss[2], every) + total(loss[3], every))
    put(fd, '%d %.1f %.1f', len(s['ties']), total(abs(branch[:, 13] - branch[:, 15]), s['ties']) / 2,
        total(abs(branch[:, 14] - branch[:, 16]), s['ties']) / 2)
    put(fd, '%d', len(s['areas']))
    put(fd, '%.3f %d %.3f %d', *extremes(bus[:, 7], s['num']))
    put(fd, '%.2f %d %.2f %d', *extremes(bus[:, 8], s['num']))
    if not dc:
        put(fd, '- %.2f %d %d', *peak(loss[0], s['fnum'], s['tnum']))
        put(fd, '- %.2f %d %d', *peak(loss[1], s['fnum'], s['tnum']))
    if opf:
        put(fd, '%.2f %d %.2f %d', *extremes(bus[:, 13], s['num']))
        put(fd, '%.2f %d %.2f %d', *extremes(bus[:, 14], s['num']))


def within(rows, place, inside):
    return [i for i in rows if place[i] in inside]


def areas(bus, gen, branch, loss, s, fd):
    nb, nl = len(s['num']), len(s['f'])
    title(fd, 'Area Summary')
    members = s['members'] + [range(nb)]
    heads = ['%d ' % a for a in s['areas']] + ['']
    for a in range(len(members)):
        m = members[a]
        every = a == len(s['areas'])
        g, on, ld = within(s['allg'], s['gbus'], m), within(s['ong'], s['gbus'], m), within(s['onld'], s['gbus'], m)
        fixed, sh = [i for i in s['nzld'] if i in m], [i for i in s['nzsh'] if i in m]
        own = [i for i in range(nl) if s['f'][i] in m and s['t'][i] in m]
        ties = s['ties'] if every else [i for i in range(nl) if (s['f'][i] in m) != (s['t'][i] in m)]
        put(fd, heads[a] + '%d %d %d %d %d %d %d %d %d %d', len(m), len(g), len(on), len(fixed) + len(ld), len(fixed), len(ld), len(sh), len(own),
            len([i for i in own if i in s['xfmr']]), len(ties))
    for a in range(len(members)):
        m = members[a]
        g, on = within(s['allg'], s['gbus'], m), within(s['ong'], s['gbus'], m)
        put(fd, heads[a] + '%.1f %.1f %.1f', total(gen[:, 8], g), total(gen[:, 4], g), total(gen[:, 3], g))
        put(fd, '%.1f %.1f %.1f', total(gen[:, 8], on), total(gen[:, 4], on), total(gen[:, 3], on))
        put(fd, '%.1f %.1f', total(gen[:, 1], on), total(gen[:, 2], on))
    for a in range(len(members)):
        m = members[a]
        ld, fixed = within(s['onld'], s['gbus'], m), [i for i in s['nzld'] if i in m]
        q = 0.0
        for i in ld:
            if gen[i, 4] == 0:
                q = q - gen[i, 3]
            if gen[i, 3] == 0:
                q = q - gen[i, 4]
        p1, q1, p2, q2 = -total(gen[:, 1], ld), -total(gen[:, 2], ld), total(bus[:, 2], fixed), total(bus[:, 3], fixed)
        put(fd, heads[a] + '%.1f %.1f %.1f %.1f %.1f %.1f %.1f %.1f', -total(gen[:, 9], ld), q, p1, q1, p2, q2, p1 + p2, q1 + q2)
    for a in range(len(members)):
        m = members[a]
        sh = [i for i in s['nzsh'] if i in m]
        put(fd, heads[a] + '%.1f %.1f', -total(bus[:, 7] ** 2 * bus[:, 4], sh), total(bus[:, 7] ** 2 * bus[:, 5], sh))
        charge, p, q, pe, qe = 0.0, 0.0, 0.0, 0.0, 0.0
        for i in range(nl):
            if i not in s['out']:
                f, t = s['f'][i] in m, s['t'][i] in m
                charge = charge + (loss[2][i] if f else 0.0) + (loss[3][i] if t else 0.0)
                share = (0.5 if f else 0.0) + (0.5 if t else 0.0)
                p, q = p + share * loss[0][i], q + share * loss[1][i]
                if f != t:
                    pe = pe + (branch[i, 13] if f else branch[i, 15]) - loss[0][i] / 2
                    qe = qe + (branch[i, 14] if f else branch[i, 16]) - loss[1][i] / 2
        put(fd, '%.1f %.2f %.2f', charge, p, q)
        if a < len(s['areas']):
            put(fd, '%.1f %.1f', pe, qe)
        else:
            put(fd, '- -')


def generators(bus, gen, s, fd, opf):
    title(fd, 'Generator Data')
    for i in s['ong']:
        unit(bus, gen, i, 1, s, fd, opf)
    put(fd, '%.2f %.2f', total(gen[:, 1], s['ong']), total(gen[:, 2], s['ong']))
    if len(s['onld']) > 0:
        title(fd, 'Dispatchable Load Data')
        for i in s['onld']:
            unit(bus, gen, i, -1, s, fd, opf)
        put(fd, '%.2f %.2f', -total(gen[:, 1], s['onld']), -total(gen[:, 2], s['onld']))


def unit(bus, gen, i, sign, s, fd, opf):
    b = s['gbus'][i]
    put(fd, '%d %d %d', i, s['num'][b], gen[i, 7])
    if gen[i, 1] != 0 or gen[i, 2] != 0:
        put(fd, '%.2f %.2f', sign * gen[i, 1], sign * gen[i, 2])
    else:
        put(fd, '- -')
    if opf:
        put(fd, '%.2f %.2f', bus[b, 13], bus[b, 14])


def buses(bus, gen, s, fd, opf):
    title(fd, 'Bus Data')
    for i in range(len(s['num'])):
        put(fd, '%d %.3f %.3f' + ('*' if i in s['ref'] else ''), s['num'][i], bus[i, 7], bus[i, 8])
        g, ld = [j for j in s['ong'] if s['gbus'][j] == i], [j for j in s['onld'] if s['gbus'][j] == i]
        if len(g) > 0:
            put(fd, '%.2f %.2f', total(gen[:, 1], g), total(gen[:, 2], g))
        else:
            put(fd, '- -')
        if len(ld) > 0:
            put(fd, '%.2f* %.2f*', bus[i, 2] - total(gen[:, 1], ld), bus[i, 3] - total(gen[:, 2], ld))
        elif i in s['nzld']:
            put(fd, '%.2f %.2f', bus[i, 2], bus[i, 3])
        else:
            put(fd, '- -')
        if opf:
            put(fd, '%.3f', bus[i, 13])
            if abs(bus[i, 14]) > 1e-4:
                put(fd, '%.3f', bus[i, 14])
            else:
                put(fd, '-')
    put(fd, '%.2f %.2f', total(gen[:, 1], s['ong']), total(gen[:, 2], s['ong']))
    put(fd, '%.2f %.2f', total(bus[:, 2], s['nzld']) - total(gen[:, 1], s['onld']), total(bus[:, 3], s['nzld']) - total(gen[:, 2], s['onld']))


def branches(branch, loss, s, fd):
    title(fd, 'Branch Data')
    for i in range(len(s['f'])):
        put(fd, '%d %d %d', i, s['fnum'][i], s['tnum'][i])
        put(fd, '%.2f %.2f %.2f %.2f', branch[i, 13], branch[i, 14], branch[i, 15], branch[i, 16])
        put(fd, '%.3f %.2f', loss[0][i], loss[1][i])
    put(fd, '%.3f %.2f', total(loss[0], range(len(s['f']))), total(loss[1], range(len(s['f']))))


def active(x, lo, hi, mlo, mhi, tol):
    return [x < lo + tol or mlo > 1e-4, x > hi - tol or mhi > 1e-4]


def limit(fd, fmt, x):
    put(fd, fmt, x)


def constraints(bus, gen, branch, o, limits, s, fd, dc):
    tol = o['OPF_VIOLATION']
    V, P, Q, L = limits
    if not dc and V > 0:
        rows = []
        some = V == 2
        for i in range(len(s['num'])):
            a = active(bus[i, 7], bus[i, 12], bus[i, 11], bus[i, 16], bus[i, 15], tol)
            rows.append(a)
            some = some or a[0] or a[1]
        if some:
            title(fd, 'Voltage Constraints')
            for i in range(len(s['num'])):
                a = rows[i]
                if V == 2 or a[0] or a[1]:
                    put(fd, '%d', s['num'][i])
                    mark(fd, a[0], bus[i, 16])
                    put(fd, '%.3f %.3f %.3f', bus[i, 12], bus[i, 7], bus[i, 11])
                    mark(fd, a[1], bus[i, 15])
    for kind in [0, 1]:
        which = s['onld'] if kind else s['ong']
        name = 'Dispatchable Load Constraints' if kind else 'Generation Constraints'
        cols = [(1, 9, 8, 22, 21), (2, 4, 3, 24, 23)]
        act, some = [], []
        for c in range(2):
            x, lo, hi, ml, mh = cols[c]
            lev = P if c == 0 else Q
            a = [active(gen[i, x], gen[i, lo], gen[i, hi], gen[i, ml], gen[i, mh], tol) for i in which]
            y = lev == 2
            if lev == 1:
                for z in a:
                    y = y or z[0] or z[1]
            if c == 1 and dc and not kind:
                y = False
            act.append(a)
            some.append(y)
        if some[0] or some[1]:
            title(fd, name)
        for c in range(2):
            x, lo, hi, ml, mh = cols[c]
            lev = P if c == 0 else Q
            if some[c] and not (c == 1 and dc):
                fd.write('\n' + ['@active', '@reactive'][c] + '\n')
                for n in range(len(which)):
                    i, a = which[n], act[c][n]
                    if lev == 2 or a[0] or a[1]:
                        put(fd, '%d %d', i, s['num'][s['gbus'][i]])
                        mark(fd, a[0], gen[i, ml])
                        if gen[i, x] != 0:
                            put(fd, '%.2f %.2f %.2f', gen[i, lo], gen[i, x], gen[i, hi])
                        else:
                            put(fd, '%.2f - %.2f', gen[i, lo], gen[i, hi])
                        mark(fd, a[1], gen[i, mh])
    if L > 0:
        F, T, rows = [], [], []
        some = L == 2
        for i in range(len(s['f'])):
            if dc or o['OPF_FLOW_LIM'] == 1:
                f, t = branch[i, 13], branch[i, 15]
            else:
                f, t = sqrt(branch[i, 13] ** 2 + branch[i, 14] ** 2), sqrt(branch[i, 15] ** 2 + branch[i, 16] ** 2)
                if o['OPF_FLOW_LIM'] == 2:
                    f, t = f / bus[s['f'][i], 7], t / bus[s['t'][i], 7]
            F.append(f)
            T.append(t)
            rate = branch[i, 5]
            a = branch[i, 17] > 1e-4 or branch[i, 18] > 1e-4
            if i not in s['free']:
                a = a or abs(f) > rate - tol or abs(t) > rate - tol
            rows.append(a)
            some = some or a
        if some:
            title(fd, 'Branch Flow Constraints')
            for i in range(len(s['f'])):
                if L == 2 or rows[i]:
                    put(fd, '%d %d', i, s['fnum'][i])
                    mark(fd, F[i] > branch[i, 5] - tol or branch[i, 17] > 1e-4, branch[i, 17])
                    put(fd, '%.2f %.2f %.2f', F[i], branch[i, 5], T[i])
                    mark(fd, T[i] > branch[i, 5] - tol or branch[i, 18] > 1e-4, branch[i, 18])
                    put(fd, '%d', s['tnum'][i])


def mark(fd, on, x):
    if on:
        put(fd, '%.3f', x)
    else:
        put(fd, '-')
