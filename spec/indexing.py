# External and internal ordering of a case.
# s: which rows take part, in internal order, and the internal bus number of every row
from numpy import array, zeros, r_
from pypower.ext2int import ext2int, ext2int1
from pypower.int2ext import int2ext, int2ext1
from pypower.e2i_data import e2i_data
from pypower.i2e_data import i2e_data
from pypower.e2i_field import e2i_field
from pypower.i2e_field import i2e_field

TABLES = ['bus', 'gen', 'branch', 'areas', 'gencost', 'A', 'N']


def tables(ppc):
    return [ppc[t] if t in ppc else None for t in TABLES]


def internal(ppc):
    i = ext2int(ppc)
    again = ext2int(i)
    return tables(i), i['order']['state'], tables(again), tables(ppc)


def renumber(table, rows, cols, num):
    t = 1 * table[rows, :]
    for k in range(len(rows)):
        for c in cols:
            t[k, c] = num[k]
    return t


def rows_in(table, rows, cols):
    """rows of a table; cols: column -> internal bus numbers"""
    t = 1 * table[rows, :]
    for c in cols:
        for k in range(len(rows)):
            t[k, c] = cols[c][k]
    return t


def internal_tables(ppc, s):
    d = [rows_in(ppc['bus'], s['bus'], {0: range(len(s['bus']))}), rows_in(ppc['gen'], s['gen'], {0: s['gbus']}),
         rows_in(ppc['branch'], s['branch'], {0: s['f'], 1: s['t']})]
    d.append(rows_in(ppc['areas'], s['areas'], {1: s['abus']}) if 'areas' in ppc else None)
    d.append(ppc['gencost'][s['costs'], :] if 'gencost' in ppc else None)
    d.append(ppc['A'].toarray()[:, s['cols']] if 'A' in ppc else None)
    d.append(ppc['N'].toarray()[:, s['cols']] if 'N' in ppc else None)
    return d


def internal_ref(ppc, s):
    d = internal_tables(ppc, s)
    return d, 'i', d, tables(ppc)


def solved(i):
    """new values in the internal tables, as a solver would leave them"""
    i['bus'][:, 7:] = 2 * i['bus'][:, 7:] + 1
    i['gen'][:, 1:3] = 3 * i['gen'][:, 1:3] - 1
    i['branch'][:, 13:] = 5 * i['branch'][:, 13:] + 2
    i['extra'] = 7
    return i


def external(ppc):
    i = solved(ext2int(ppc))
    before = tables(i)
    e = int2ext(i)
    twice = ext2int(e)
    return tables(e), e['order']['state'], e['extra'], 'ext' in e['order'], tables(i), tables(twice), tables(e['order']['int'])[:3], before


def external_ref(ppc, s):
    d = internal_tables(ppc, s)
    bus, gen, branch = 1 * ppc['bus'], 1 * ppc['gen'], 1 * ppc['branch']
    for k in s['bus']:
        bus[k, 7:] = 2 * bus[k, 7:] + 1
    for k in s['gen']:
        gen[k, 1:3] = 3 * gen[k, 1:3] - 1
    for k in s['branch']:
        branch[k, 13:] = 5 * branch[k, 13:] + 2
    e = ppc.copy()
    e['bus'], e['gen'], e['branch'] = bus, gen, branch
    i = solved({'bus': d[0], 'gen': d[1], 'branch': d[2]})
    n = [i['bus'], i['gen'], i['branch']]
    return tables(e), 'e', 7, False, n + d[3:], n + d[3:], n, n + d[3:]


def extra_data(ppc, v, w, nbus, nall, M):
    i = ext2int(ppc)
    out = [e2i_data(i, v['bus'], 'bus'), e2i_data(i, v['gen'], 'gen'), e2i_data(i, v['branch'], 'branch'),
           e2i_data(i, nbus, 'bus', 1), e2i_data(i, nall, ['bus', 'gen', 'branch']), e2i_data(i, M, ['gen', 'bus'], 1),
           e2i_data(i, M.T, ['gen', 'bus'], 0)]
    back = [i2e_data(i, w['bus'], v['bus'], 'bus'), i2e_data(i, w['gen'], v['gen'], 'gen'),
            i2e_data(i, w['branch'], v['branch'], 'branch'), i2e_data(i, out[3] * 2, nbus, 'bus', 1),
            i2e_data(i, out[4] * 2, nall, ['bus', 'gen', 'branch']), i2e_data(i, out[5] * 2, M, ['gen', 'bus'], 1),
            i2e_data(i, out[6] * 2, M.T, ['gen', 'bus'], 0)]
    return out, back, v, w, nbus, nall, M


def pick(v, rows):
    return array([v[k] for k in rows])


def put(v, rows, w):
    v = 1 * v
    for k in range(len(rows)):
        v[rows[k]] = w[k]
    return v


def extra_data_ref(ppc, v, w, nbus, nall, M, s, n):
    b, g, l = s['bus'], s['gen'], s['branch']
    allrows = [k for k in b] + [n['bus'] + k for k in g] + [n['bus'] + n['gen'] + k for k in l]
    rest = [k for k in range(n['bus'] + n['gen'] + n['branch'], len(nall))]
    cols = [k for k in g] + [n['gen'] + k for k in b]
    A = M.toarray()
    more = [k for k in range(n['gen'] + n['bus'], A.shape[1])]
    out = [pick(v['bus'], b), pick(v['gen'], g), pick(v['branch'], l), nbus[:, b], pick(nall, allrows + rest), A[:, cols + more],
           A.T[cols + more, :]]
    nb = 1 * nbus
    for k in b:
        nb[:, k] = 2 * nbus[:, k]
    A2 = 1 * A
    for k in cols + more:
        A2[:, k] = 2 * A[:, k]
    back = [put(v['bus'], b, w['bus']), put(v['gen'], g, w['gen']), put(v['branch'], l, w['branch']), nb,
            put(nall, allrows + rest, 2 * pick(nall, allrows + rest)), A2, A2.T]
    return out, back, v, w, nbus, nall, M


def fields(ppc, v, nbus):
    ppc = ppc.copy()
    ppc['x'] = v['gen']
    ppc['r'] = {'cost': v['gen'], 'zones': nbus, 'deep': {'a': v['branch'], 'b': v['bus']}}
    i = ext2int(ppc)
    i = e2i_field(i, 'x', 'gen')
    i = e2i_field(i, ['r', 'cost'], 'gen')
    i = e2i_field(i, ['r', 'zones'], 'bus', 1)
    i = e2i_field(i, ['r', 'deep', 'a'], 'branch')
    i = e2i_field(i, ['r', 'deep', 'b'], 'bus')
    first = shown(i)
    keys = [k in i['order']['ext'] for k in ['cost', 'zones', 'deep', 'a', 'b']]
    i['x'] = 2 * i['x']
    i['r']['deep']['a'] = 2 * i['r']['deep']['a']
    for f in [['x', 'gen', 0], [['r', 'cost'], 'gen', 0], [['r', 'zones'], 'bus', 1], [['r', 'deep', 'a'], 'branch', 0],
              [['r', 'deep', 'b'], 'bus', 0]]:
        i = i2e_field(i, f[0], f[1], f[2])
    return first, shown(i), keys


def shown(i):
    return i['x'], i['r']['cost'], i['r']['zones'], i['r']['deep']['a'], i['r']['deep']['b']


def fields_ref(ppc, v, nbus, s):
    b, g, l = s['bus'], s['gen'], s['branch']
    x, y = 1 * v['gen'], 1 * v['branch']
    for k in g:
        x[k] = 2 * x[k]
    for k in l:
        y[k] = 2 * y[k]
    return ((pick(v['gen'], g), pick(v['gen'], g), nbus[:, b], pick(v['branch'], l), pick(v['bus'], b)),
            (x, v['gen'], nbus, y, v['bus']), [False] * 5)


def numbers(ppc):
    i2e, bus, gen, branch, areas = ext2int1(ppc['bus'].copy(), ppc['gen'].copy(), ppc['branch'].copy(), ppc['areas'].copy())
    inner = [bus.copy(), gen.copy(), branch.copy(), areas.copy()]
    back = int2ext1(i2e, bus, gen, branch, areas)
    i2e2, bus2, gen2, branch2 = ext2int1(ppc['bus'].copy(), ppc['gen'].copy(), ppc['branch'].copy())
    return inner, back, [bus2, gen2, branch2]


def numbers_ref(ppc, m):
    inner = [rows_in(ppc['bus'], range(len(m['bus'])), {0: m['bus']}), rows_in(ppc['gen'], range(len(m['gen'])), {0: m['gen']}),
             rows_in(ppc['branch'], range(len(m['f'])), {0: m['f'], 1: m['t']}),
             rows_in(ppc['areas'], range(len(m['areas'])), {1: m['areas']})]
    return inner, (ppc['bus'], ppc['gen'], ppc['branch'], ppc['areas']), inner[:3]
