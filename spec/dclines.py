# DC lines, modelled as two linked generators.
from numpy import array, zeros, ones, inf
from pypower.toggle_dcline import toggle_dcline
from pypower.run_userfcn import run_userfcn
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf_model import opf_model


def dclines(ppc, n, x, opf):
    on = toggle_dcline(ppc, 'on')
    i = ext2int(on)
    inner = [i['bus'][:, 1], i['gen'], i['gencost'] if 'gencost' in i else None, i['dcline'][:, :4], i['dcline'][:, 5:17]]
    model = None
    if opf:
        om = opf_model(i)
        om.add_vars('Va', n['bus'])
        om.add_vars('Pg', n['gen'] + 2 * n['line'])
        om = run_userfcn(i['userfcn'], 'formulation', om)
        A, l, u = om.linear_constraints()
        vv, ll, nn, cc = om.get_idx()
        model = [ll['i1']['dcline'], ll['iN']['dcline'], A.toarray(), l, u]
    i['gen'] = x                    # any solution
    e = int2ext(i)
    out = [e['dcline'], e['gen'], e['gencost'] if 'gencost' in e else None]
    off = toggle_dcline(e, 'off')
    return inner, model, out, [len(off['userfcn'][s]) for s in sorted(off['userfcn'])]


def mirrored(c, w):
    """the cost c(p) as a function of -p, with w columns"""
    r = zeros(w)
    n = int(c[3])
    for k in range(4):
        r[k] = c[k]
    if c[0] == 2:
        for k in range(n):
            degree = n - 1 - k
            r[4 + k] = c[4 + k] if degree % 2 == 0 else -c[4 + k]
    else:
        for k in range(n):
            r[4 + 2 * k] = -c[4 + 2 * (n - 1 - k)]
            r[5 + 2 * k] = c[5 + 2 * (n - 1 - k)]
    return r


def dclines_ref(ppc, n, x, opf, s):
    d0 = ppc['dcline']
    lines, ends = s['lines'], s['ends']
    nd, ng = len(lines), n['gen']
    g0 = ppc['gen']
    w = g0.shape[1]
    bt = [ppc['bus'][b, 1] for b in s['bus']]
    for e in ends:
        for b in e:
            if bt[b] != 3:
                bt[b] = 2
    gen = zeros((ng + 2 * nd, w))
    for k in range(ng):
        gen[k, :] = g0[s['gen'][k], :]
        gen[k, 0] = s['gbus'][k]
    small = -1e-6
    dc = zeros((nd, 17))
    for k in range(nd):
        d = d0[lines[k], :]
        dc[k, :] = d
        dc[k, 0] = ends[k][0]
        dc[k, 1] = ends[k][1]
        lo, hi = s['limits'][lines[k]]
        f = [-hi if hi >= 0 else -inf, -lo if lo >= 0 else inf]          # extraction at "from" is the flow
        t = [lo if lo < 0 else -inf, hi if hi < 0 else inf]              # injection at "to"
        if f[0] < 0 and f[1] == 0:
            f[1] = small                                                # not a dispatchable load
        if t[0] < 0 and t[1] == 0:
            t[1] = small
        for v in [[ng + k, ends[k][0], f, -d[3], d[5], d[7], d[11], d[12]],
                  [ng + nd + k, ends[k][1], t, d[3] - d[15] - d[16] * d[3], d[6], d[8], d[13], d[14]]]:
            row = v[0]
            gen[row, 0] = v[1]
            gen[row, 1] = v[3]
            gen[row, 2] = v[4]
            gen[row, 3] = v[7]
            gen[row, 4] = v[6]
            gen[row, 5] = v[5]
            gen[row, 6] = 100
            gen[row, 7] = d[2]
            gen[row, 8] = v[2][1]
            gen[row, 9] = v[2][0]
    cost = None
    if 'gencost' in ppc:
        gc = ppc['gencost']
        wc = gc.shape[1]
        if s['cost'] is not None and s['cost'] > wc:
            wc = s['cost']
        cost = zeros((ng + 2 * nd, wc))
        for k in range(ng):
            cost[k, :gc.shape[1]] = gc[s['gen'][k], :]
        for k in range(nd):
            for row in [ng + k, ng + nd + k]:
                cost[row, 0] = 2
                cost[row, 3] = 2
            if s['cost'] is not None:
                cost[ng + k, :] = mirrored(ppc['dclinecost'][lines[k], :], wc)
    inner = [array(bt), gen, cost, dc[:, :4], dc[:, 5:]]
    model = None
    if opf:
        A = zeros((nd, n['bus'] + ng + 2 * nd))
        l = zeros(nd)
        for k in range(nd):         # flow at "to" end = flow at "from" end - loss
            A[k, n['bus'] + ng + k] = 1 - d0[lines[k], 16]
            A[k, n['bus'] + ng + nd + k] = 1
            l[k] = -d0[lines[k], 15] / ppc['baseMVA']
        model = [0, nd, A, l, l]
    wide = x.shape[1] > 24
    r = zeros((len(d0), 23 if wide else 17))
    for k in range(len(d0)):
        r[k, :17] = d0[k, :17]
    for k in range(nd):
        f, t = x[ng + k, :], x[ng + nd + k, :]
        row = lines[k]
        r[row, 3] = -f[1]
        r[row, 4] = t[1]
        r[row, 5] = f[2]
        r[row, 6] = t[2]
        r[row, 7] = f[5]
        r[row, 8] = t[5]
        if wide:                    # multipliers on lower and upper flow limits, reactive limits at both ends
            r[row, 17] = f[21] + t[22]
            r[row, 18] = f[22] + t[21]
            r[row, 19] = f[24]
            r[row, 20] = f[23]
            r[row, 21] = t[24]
            r[row, 22] = t[23]
    g = 1 * g0
    for k in range(ng):
        g[s['gen'][k], :] = x[k, :]
        g[s['gen'][k], 0] = g0[s['gen'][k], 0]
    return inner, model, [r, g, ppc['gencost'] if 'gencost' in ppc else None], [0, 0, 0, 0, 0]
