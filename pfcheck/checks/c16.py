from ..harness import *
from ..domain import case_valuation
from ..evalnf import h01
from ..compare import UND, EQ
from ..text import FileV
from .. import textcmp
from .c25 import lift
NEED = 40
EXPLANATION = ('printpf is interpreted on solved cases of concrete structure with symbolic quantities; the text it writes, a sequence of '
               'literals and formatted symbolic numbers under conditions, is compared with the reference report: section titles, numbers '
               'in order (with their decimals) and dashes for absent values. Blanks, rules and column headings do not count.')
ASSUMPTIONS = ['structure (buses, areas, units, statuses, zero loads and shunts) is a set of concrete examples; all other entries are symbolic',
               'printed numbers are compared within one unit of the last decimal']
S = {
    'three areas': dict(bus=[30, 10, 25, 7, 12], type=[3, 1, 2, 1, 1], area=[1, 4, 4, 1, 2], pd=[None, 0, None, 0, None], qd=[None, 0, 0, None, None],
                        gs=[0, None, 0, 0, 0], bs=[0, 0, None, 0, 0], gbus=[30, 25, 10, 25, 12, 7, 30], gst=[1, 1, 2, 0, 1, -1, 1],
                        load=[0, 0, 1, 0, 1, 1, 0], qlim=[0, 0, 'lo', 0, 'hi', 'lo', 0], idle=[6],
                        f=[30, 10, 25, 7, 12, 30, 10], t=[10, 25, 7, 30, 25, 12, 12], bst=[1, 1, 1, 0, 1, 1, 0],
                        tap=[0, None, 0, 0, None, 0, 0], rate=[0, None, None, None, None, 0, None]),
    'one area': dict(bus=[2, 1], type=[3, 1], area=[7, 7], pd=[0, None], qd=[0, None], gs=[0, 0], bs=[0, 0], gbus=[2], gst=[1], load=[0], qlim=[0],
                     idle=[], f=[1], t=[2], bst=[1], tap=[0], rate=[None]),
}


def facts(s, dc):
    z = lambda v: v == 0
    nb = len(s['bus'])
    at = {b: i for i, b in enumerate(s['bus'])}
    f, t = [at[b] for b in s['f']], [at[b] for b in s['t']]
    on = [i for i in range(len(s['gbus'])) if s['gst'][i] > 0]
    ar = sorted(set(s['area']))
    return dict(
        num=s['bus'], f=f, t=t, fnum=s['f'], tnum=s['t'], gbus=[at[b] for b in s['gbus']],
        allg=[i for i in range(len(s['gbus'])) if not s['load'][i]], ong=[i for i in on if not s['load'][i]], onld=[i for i in on if s['load'][i]],
        nzld=[i for i in range(nb) if not z(s['pd'][i]) or (not z(s['qd'][i]) and not dc)],
        nzsh=[i for i in range(nb) if not z(s['gs'][i]) or (not z(s['bs'][i]) and not dc)],
        areas=ar, members=[[i for i in range(nb) if s['area'][i] == a] for a in ar],
        ties=[i for i in range(len(f)) if s['area'][f[i]] != s['area'][t[i]]], xfmr=[i for i in range(len(f)) if not z(s['tap'][i])],
        out=[i for i in range(len(f)) if not s['bst'][i]], free=[i for i in range(len(f)) if z(s['rate'][i])],
        ref=[i for i in range(nb) if s['type'][i] == 3])


def case(C, s, opf, ok=True):
    nb, ng, nl = len(s['bus']), len(s['gbus']), len(s['f'])
    wide = opf
    g = {0: s['gbus'], 7: s['gst'], 8: [0 if x else None for x in s['load']], 3: [0 if x == 'lo' else None for x in s['qlim']],
         4: [0 if x == 'hi' else None for x in s['qlim']]}
    g[9] = [P.const(-1) * P.atom('cpmin', P.const(i)) if s['load'][i] else P.atom('cpmin', P.const(i)) for i in range(ng)]
    for c in (1, 2):
        g[c] = [0 if i in s['idle'] or s['gst'][i] <= 0 else None for i in range(ng)]
    b = {0: s['bus'], 1: s['type'], 6: s['area'], 2: s['pd'], 3: s['qd'], 4: s['gs'], 5: s['bs']}
    d = {'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', nb, 17 if wide else 13, b),
         'gen': C.ctable('gen', ng, 25 if wide else 21, g),
         'branch': C.ctable('branch', nl, 21 if wide else 17, {0: s['f'], 1: s['t'], 10: s['bst'], 8: s['tap'], 5: s['rate']}),
         'success': Const(ok), 'et': C.sym('et')}
    if opf:
        d['f'] = C.sym('fval')
    return d


P.declare('cpmin', real=True, pos=True)
OPT = {'PF_DC': False, 'OUT_ALL': 1, 'OUT_SYS_SUM': True, 'OUT_AREA_SUM': True, 'OUT_BUS': True, 'OUT_BRANCH': True, 'OUT_GEN': True,
       'OUT_ALL_LIM': -1, 'OUT_V_LIM': 1, 'OUT_LINE_LIM': 1, 'OUT_PG_LIM': 1, 'OUT_QG_LIM': 1, 'OPF_VIOLATION': 5e-6, 'OPF_FLOW_LIM': 0}
NO = {'OUT_' + x: False for x in ('SYS_SUM', 'AREA_SUM', 'BUS', 'BRANCH', 'GEN')}


def only(*on, **lim):
    d = dict(NO, OUT_ALL=-1, **{'OUT_%s_LIM' % x: 0 for x in ('V', 'LINE', 'PG', 'QG')})
    d.update({'OUT_' + x: True for x in on})
    d.update({'OUT_%s_LIM' % a: b for a, b in lim.items()})
    return d


RUNS = [
    ('everything', True, {}), ('everything', False, {}), ('everything', True, {'PF_DC': True}), ('everything', False, {'PF_DC': True}),
    ('nothing', True, {'OUT_ALL': 0}), ('nothing selected', True, only()),
    ('defaults', True, {'OUT_ALL': -1, 'OUT_AREA_SUM': False, 'OUT_GEN': False}),
] + [('only ' + x, opf, only(x)) for x in ('SYS_SUM', 'AREA_SUM', 'BUS', 'BRANCH', 'GEN') for opf in (True, False)] + \
    [('%s limits %d' % (x, n), True, only(**{x: n})) for x in ('V', 'LINE', 'PG', 'QG') for n in (1, 2)] + \
    [('%s limits %d dc' % (x, n), True, dict(only(**{x: n}), PF_DC=True)) for x in ('V', 'LINE', 'PG', 'QG') for n in (1, 2) if (x, n) not in
     (('QG', 1), ('QG', 2))] + \
    [('line limits, kind %d' % n, True, dict(only(LINE=m), OPF_FLOW_LIM=n)) for n in (1, 2) for m in (1, 2)] + \
    [('all limits %d' % n, True, dict(only(), OUT_ALL_LIM=n, OUT_V_LIM=2 - n)) for n in (0, 1, 2)]


def vals(s):
    nb, ng, nl = len(s['bus']), len(s['gbus']), len(s['f'])

    def f(seed):
        V = case_valuation(seed)
        r = V.r
        V.atoms['baseMVA'] = r.choice([100.0, 50.0, 10.0])
        rel = [r.choice('lhm0') for _ in range(max(nb, ng, nl))]       # at the lower limit, the upper, between, multiplier only

        def bus(i, j):
            lo, hi = 0.9 + 0.01 * (i % 3), 1.1 - 0.01 * (i % 2)
            x = {7: lo if rel[i] == 'l' else hi if rel[i] == 'h' else lo + (hi - lo) * (0.2 + 0.6 * h01(seed, i)), 8: 40 * h01(seed, i, 8) - 25,
                 11: hi, 12: lo, 13: 20 + 30 * h01(seed, i, 13), 14: 0.0 if h01(seed, i, 14) < 0.5 else 4 * h01(seed, i, 15) + 0.1,
                 15: 5 * h01(seed, i, 15) + 0.1 if rel[i] == 'h' or h01(seed, i, 21) < 0.1 else 0.0,
                 16: 5 * h01(seed, i, 16) + 0.1 if rel[i] == 'l' or h01(seed, i, 22) < 0.1 else 0.0}
            return x[j] if j in x else 5 + 80 * h01(seed, i, j)

        def gen(i, j):
            ld = s['load'][i]
            pmin, pmax = V.atoms['cpmin'](i) * (-1 if ld else 1), 0.0 if ld else 100 + 10 * i
            qmin = -40.0 - i if s['qlim'][i] != 'hi' else 0.0
            qmax = 50.0 + i if s['qlim'][i] != 'lo' else 0.0
            a, b = rel[i], rel[(i + 2) % len(rel)]
            mid = lambda lo, hi, n: lo + (hi - lo) * (0.2 + 0.6 * h01(seed, i, n))
            x = {1: pmin if a == 'l' else pmax if a == 'h' else mid(pmin, pmax, 1), 2: qmin if b == 'l' else qmax if b == 'h' else mid(qmin, qmax, 2),
                 3: qmax, 4: qmin, 8: pmax, 9: pmin}
            if j >= 21:
                on = (a, 'h') if j == 21 else (a, 'l') if j == 22 else (b, 'h') if j == 23 else (b, 'l')
                return 5 * h01(seed, i, j) + 0.1 if on[0] == on[1] or h01(seed, i, j, 1) < 0.1 else 0.0
            return x[j] if j in x else 5 + 80 * h01(seed, i, j)

        def branch(i, j):
            if j in (17, 18):
                return 5 * h01(seed, i, j) + 0.1 if rel[i] == 'h' or h01(seed, i, j, 1) < 0.1 else 0.0
            if 13 <= j <= 16:
                return (160 if rel[i] == 'l' and j in (13, 15) else 60) * (h01(seed, i, j) - 0.4)
            return {2: 0.01 + 0.05 * h01(seed, i, 2), 3: 0.05 + 0.3 * h01(seed, i, 3), 4: 0.2 * h01(seed, i, 4), 5: 60 + 10 * h01(seed, i, 5),
                    8: 0.9 + 0.2 * h01(seed, i, 8), 9: 20 * h01(seed, i, 9) - 10}.get(j, 30.0)
        V.atoms['cpmin'] = lambda i: 10 + 10 * h01(seed, i, 77)
        V.atoms['cbus'], V.atoms['cgen'], V.atoms['cbranch'] = bus, gen, branch
        V.atoms['et'], V.atoms['fval'] = 1.23, 4567.891
        return V
    return f


def ctx(k):
    C = k.ctx()
    C.I.files = {'report.txt': []}
    C.I.unroll = 8
    C.I.letsize = 3
    C.I.nonan = True
    return C


def check(k):
    k.rule('report', 'the report shows, section by section, the quantities of the results it was given, and only the sections asked for')
    k.rule('unchanged', 'printing changes neither the results nor the options')
    where = k.where('printpf', 'printpf')
    for n, s in S.items():
        V = vals(s)
        for i, (lab, opf, o) in enumerate(RUNS):
            if n != 'three areas' and i > 4:
                break
            for ok in ((True, False) if lab == 'everything' else (True,)):
                how = (i + ok) % 2
                label = '%s, %s%s%s [%s]' % (lab, 'opf' if opf else 'pf', '' if ok else ', not converged', '' if how == 0 else ', tables', n)
                k.guarded(label, lambda: one(k, s, label, opf, dict(OPT, **o), ok, how, V, where))


    s = S['three areas']
    k.rule('forms', 'without a file the report goes to the standard output; without options the documented defaults apply')
    for lab, how, o in (('tables without a file', 2, OPT), ('without options', 3, DEFAULT), ('without a file', 4, OPT), ('tables without options', 5, DEFAULT)):
        for opf in (True, False):
            label = '%s, %s' % (lab, 'opf' if opf else 'pf')
            k.guarded(label, lambda: one(k, s, label, opf, o, True, how, vals(s), where, 'forms', 'stdout'))
    k.rule('callbacks', 'callbacks print after the report, with the same options; without constraint information unless an opf was solved')
    for opf in (True, False):
        for a in (-1, 0, 1):
            label = 'callback, %s, level %d' % ('opf' if opf else 'pf', a)
            k.guarded(label, lambda: one(k, s, label, opf, dict(OPT, OUT_ALL=a), True, 'with_callback', vals(s), where, 'callbacks'))


DEFAULT = dict(OPT, OUT_ALL=-1, OUT_AREA_SUM=False, OUT_GEN=False)


def one(k, s, label, opf, o, ok, how, V, where, rule='report', to='report.txt'):
    C, R = ctx(k), ctx(k)
    fn, how = (how, []) if isinstance(how, str) else ('there', [Const(how)])
    opt = lambda c: c.dict({a: Const(b) for a, b in o.items()})
    v = C.call('spec.printed', fn, C.dict(case(C, s, opf, ok)), opt(C), FileV(to, 'w'), *how, C.func('printpf', 'printpf'))
    w = R.call('spec.printed', fn + '_ref', R.dict(case(R, s, opf, ok)), opt(R), R.dict({a: lift(R, b) for a, b in facts(s, o['PF_DC']).items()}),
               FileV(to, 'w'))
    k.compare('unchanged', where, label, C, v, R, w, V)
    r = textcmp.compare(k.comparer(V), C, to, R, to)
    k.record(rule, where, label, [('text', r)])
