# Saving cases and loading them again.
from numpy import array, zeros
from scipy.sparse import issparse
from pypower.savecase import savecase
from pypower.loadcase import loadcase
from pypower.toggle_reserves import toggle_reserves
from pypower.toggle_iflims import toggle_iflims
from pypower.toggle_dcline import toggle_dcline

TABLES = ['bus', 'gen', 'branch']
FIRST = {'bus': 13, 'gen': 21, 'branch': 13}        # columns up to the results, saved with nine digits


def both(ppc, fname):
    saved = savecase(fname, ppc)
    return saved, loadcase(saved)


def there(ppc, fname, tables, rest, costs):
    saved, got = both(ppc, fname)
    out = [saved, got['baseMVA'], got['version']]
    for k in tables:
        if k == 'gencost':          # columns beyond the longest cost need not be kept
            out.append([len(got[k]), got[k][:, :costs]])
        else:
            out.append([got[k].shape, got[k][:, :FIRST[k]] if k in TABLES else got[k]])
    for k in rest:
        out.append(got[k].toarray() if issparse(got[k]) else got[k])
    return out, [x for x in ppc if x not in got]


def there_ref(ppc, fname, tables, rest, costs):
    out = [fname, ppc['baseMVA'], '2']
    for k in tables:
        if k == 'gencost':          # columns beyond the longest cost need not be kept
            out.append([len(ppc[k]), ppc[k][:, :costs]])
        else:
            out.append([ppc[k].shape, ppc[k][:, :FIRST[k]] if k in TABLES else ppc[k]])
    for k in rest:
        out.append(ppc[k].toarray() if issparse(ppc[k]) else ppc[k])
    return out, []


def results(ppc, fname):
    saved, got = both(ppc, fname)
    return [got[k][:, FIRST[k]:] for k in TABLES]


def results_ref(ppc, fname):
    return [ppc[k][:, FIRST[k]:] for k in TABLES]


def reserves(ppc):
    saved, got = both(toggle_reserves(ppc, 'on'), 'res')
    r = got['reserves']
    return [saved, sorted(r), [r[k] for k in sorted(r) if k != 'mu'], [r['mu'][k] for k in sorted(r['mu'])] if 'mu' in r else 0, got['bus']]


def reserves_ref(ppc):
    r = ppc['reserves']
    return ['res.py', sorted(r), [r[k] for k in sorted(r) if k != 'mu'], [r['mu'][k] for k in sorted(r['mu'])] if 'mu' in r else 0, ppc['bus']]


def iflims(ppc):
    saved, got = both(toggle_iflims(ppc, 'on'), 'ifl.py')
    r = got['if']
    return [saved, sorted(r), [r[k] for k in sorted(r) if k != 'mu'], [r['mu'][k] for k in sorted(r['mu'])] if 'mu' in r else 0, got['bus']]


def iflims_ref(ppc):
    r = ppc['if']
    return ['ifl.py', sorted(r), [r[k] for k in sorted(r) if k != 'mu'], [r['mu'][k] for k in sorted(r['mu'])] if 'mu' in r else 0, ppc['bus']]


def dcline(ppc):
    saved, got = both(toggle_dcline(ppc, 'on'), 'dcl')
    return [saved, got['dcline'], got['dclinecost'] if 'dclinecost' in got else 0, got['bus']]


def dcline_ref(ppc):
    return ['dcl.py', ppc['dcline'], ppc['dclinecost'] if 'dclinecost' in ppc else 0, ppc['bus']]


def saves(ppc, name, comment):
    r = savecase(name, ppc, comment) if comment else savecase(name, ppc)
    got = loadcase(r)
    return r, got['bus'], sorted(ppc), ppc['version'], [ppc[k] for k in sorted(ppc) if k not in ('A', 'version')]


def saves_ref(ppc, name, comment):
    r = name if name.endswith(('.py', '.mat')) else name + '.py'
    return r, ppc['bus'], sorted(ppc), ppc['version'], [ppc[k] for k in sorted(ppc) if k not in ('A', 'version')]


def opens(name, opt):
    r = loadcase(name, **opt)
    if isinstance(r, int):
        return r
    if isinstance(r, list):
        return r
    return [r['baseMVA'], r['bus'], r['gen'], r['branch'], r['version']]


def opens_ref(want, base, mat):
    bus = array([[1, 3, 0.5, 2], [2, 1, 4, 3.5]])
    gen = zeros((1, 21))
    gen[0, :10] = array([1, 7, 8, 9, 6, 5, 4, 1, 3, 2])
    branch = array([[1, 2, 0.1, 0.2, 0.3, 0, 0, 0, 0, 0, 1, -360, 360]])
    if isinstance(want, int):
        return want
    if want == 'mat':
        return [30, mat['bus'], mat['gen'], mat['branch'], '2']
    if want == 'list4':
        return [base, bus, gen, branch]
    if want == 'list5':
        return [base, bus, gen, branch, array([[2, 0, 0, 2, 3, 4]])]
    if want == 'list6':
        return [base, bus, gen, branch, array([[1, 2]]), array([[2, 0, 0, 2, 3, 4]])]
    return [base, bus, gen, branch, '2']


def copies(ppc, half):
    keys = sorted(ppc)
    r = loadcase(ppc)
    loaded = [sorted(r), r['baseMVA'], r['version']] + [1 * r[k] for k in ('bus', 'gen', 'branch', 'gencost', 'extra')]
    for k in ('bus', 'gen', 'branch', 'gencost'):
        r[k][0, 2] = half
    r['extra'][0] = half
    r['version'] = '3'
    return loaded, [r['bus'], r['gencost']], sorted(ppc) == keys, [ppc[k] for k in ('bus', 'gen', 'branch', 'gencost', 'extra', 'version')]


def insert(t, at, n, lo, hi, width):
    r = zeros((t.shape[0], width))
    r[:, :at] = t[:, :at]
    for k in range(t.shape[0]):
        r[k, at] = lo
        r[k, at + 1] = hi
    m = t.shape[1] - at
    if m > 0:
        r[:, at + n:at + n + m] = t[:, at:]
    return r


def copies_ref(ppc, half):
    bus, gen, branch, cost, extra = [1. * ppc[k] for k in ('bus', 'gen', 'branch', 'gencost', 'extra')]
    g, b = gen, branch
    if gen.shape[1] < 21:
        g = insert(gen, 10, 11, 0, 0, 21 if gen.shape[1] == 10 else 25)
        b = insert(branch, 11, 2, -360, 360, {11: 13, 15: 17, 17: 21}[branch.shape[1]])
    loaded = [sorted([k for k in ppc if k != 'areas']), ppc['baseMVA'], '2', 1 * bus, 1 * g, 1 * b, 1 * cost, 1 * extra]
    bus[0, 2] = half
    cost[0, 2] = half
    return loaded, [bus, cost], True, [ppc[k] for k in ('bus', 'gen', 'branch', 'gencost', 'extra', 'version')]
