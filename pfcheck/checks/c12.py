from ..harness import *
from ..domain import case_valuation
from ..interp import Thrown, INF
from .c25 import lift
NEED = 40
EXPLANATION = ('savecase is interpreted on cases of concrete structure with symbolic contents; the text it writes (a sequence of literals and '
               'formatted symbolic numbers) is parsed as a Python module in which a name stands for every such number, and loadcase is '
               'interpreted on it; what comes back is compared with what was saved. MAT files are modelled as tables of 2-D arrays.')
ASSUMPTIONS = ['structure (sizes, numbers, statuses, cost models) is a set of concrete examples; all other entries are symbolic numbers',
               'a number printed with nine significant digits, and results printed with four decimals, count as saved',
               'scipy.io writes arrays as 2-D arrays and reads them back unchanged']
nb, ng, nl = 3, 2, 3
BUS = {0: [30, 10, 25], 1: [3, 1, 2], 6: [1, 1, 2], 10: [1, 2, 1]}


def case(C, bus=13, gen=21, branch=13, areas=False, cost=None, inf=False, over=()):
    g = {0: [30, 25], 7: [1, 0]}
    if inf:
        g[8] = [INF, 100]
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', nb, bus, BUS), 'gen': C.ctable('gen', ng, gen, g),
         'branch': C.ctable('branch', nl, branch, {0: [30, 10, 25], 1: [10, 25, 30], 10: [1, 1, 0]})}
    if areas:
        d['areas'] = C.arr(polymat([[P.const(1), P.const(30)], [P.const(2), P.const(10)]]))
    if cost:
        w, models, n = cost
        d['gencost'] = C.ctable('gencost', len(models), w, {0: models, 3: n})
    return d


for _a in ('uA', 'uN', 'uH'):
    P.declare(_a, real=True, pos=True)


def user(C, what):
    n = 2 * nb + 2 * ng
    m = 1 if '1' in what.split() else 2
    d = {}
    if 'A' in what:
        d['A'] = C.arr(polymat([[P.atom('uA', P.const(i), P.const(j)).scale((-1) ** j) if (i + j) % 3 else ZERO for j in range(n)] for i in range(m)], 'f', 'sp'))
    if 'N' in what:
        d['N'] = C.arr(polymat([[P.atom('uN', P.const(i), P.const(j)) if (i + j) % 4 == 1 else ZERO for j in range(n)] for i in range(m)], 'f', 'sp'))
        d['Cw'] = C.vec('uCw', cdim(m))
    if 'H' in what:
        d['H'] = C.arr(polymat([[P.atom('uH', P.const(min(i, j)), P.const(max(i, j))) for j in range(m)] for i in range(m)], 'f', 'sp'))
    if 'f' in what:
        d['fparm'] = C.ctable('fparm', m, 4, {0: [1, 2][:m]}, atom='ufparm')
    for a in ('l', 'u', 'z0', 'zl', 'zu'):
        if a in what.split():
            d[a] = C.vec('u' + a, cdim(m))
    for x in d.values():
        a = C.A(x)
        if a.kind == 'sp':
            a.note = 'csr'
    return d


CASES = {
    'unsolved': (dict(), ''),
    'areas and costs': (dict(areas=True, cost=(7, [2, 2], [3, 2])), ''),
    'costs of both kinds': (dict(cost=(10, [1, 2], [3, 3])), ''),
    'costs of reactive power too': (dict(cost=(8, [1, 2, 2, 1], [2, 3, 1, 2])), ''),
    'longer polynomial': (dict(cost=(9, [1, 2], [2, 5])), ''),
    'wide cost table': (dict(cost=(12, [1, 2], [2, 3])), ''),
    'power flow results': (dict(branch=17), ''),
    'optimal power flow results': (dict(bus=17, gen=25, branch=21, cost=(7, [2, 2], [3, 2])), ''),
    'unlimited unit': (dict(inf=True), ''),
    'user constraints': (dict(), 'A l u'),
    'user constraints, upper': (dict(), 'A u'),
    'user constraints, lower, costs': (dict(), 'A l N H f'),
    'user costs': (dict(), 'N f'),
    'user costs, plain': (dict(), 'N H'),
    'user variables': (dict(), 'A l u z0 zl zu'),
    'user variables, start': (dict(), 'A l u N z0'),
    'one of each, A u': (dict(), '1 A u'),
    'one of each, A l': (dict(), '1 A l'),
    'one of each, A l u N H f': (dict(), '1 A l u N H f'),
    'one of each, N f zl': (dict(), '1 N f zl'),
    'one of each, N zu': (dict(), '1 N zu'),
    'one of each, z0 zl': (dict(), '1 z0 zl'),
    'one of each, z0 zu': (dict(), '1 z0 zu'),
}


def run(k, label, f, where, rule):
    """an exception of the code is the violation; other limits leave the obligation undecided"""
    def go():
        try:
            f()
        except Thrown as e:
            at = where
            if e.value and e.value[0] in k.prog.mods and not e.value[0].startswith('spec.'):
                at = k.where(e.value[0], e.value[1])
            k.violate(rule, at, label, '%s: raises %s%s' % (label, e.cls.__name__, ': ' + e.value[2] if e.value else ''))
    k.guarded(label, go)


def ctx(k, decimals=9):
    C = k.ctx()
    C.I.files, C.I.decimals, C.I.tries = {}, decimals, 1
    C.I.nonan = True
    return C


def check(k):
    k.rule('round trip', 'a case saved to a Python or MAT file and loaded again has the tables, costs, areas and user data it had')
    where = k.where('savecase', 'savecase')
    for lab, (c, u) in CASES.items():
        for ext in ('.py', '.mat'):
            def data(C):
                d = case(C, **c)
                d.update(user(C, u))
                return d

            def exact():
                C, R = ctx(k), ctx(k)
                dc, dr = data(C), data(R)
                tables = [x for x in ('bus', 'gen', 'branch', 'areas', 'gencost') if x in dc]
                rest = [x for x in dc if x not in tables and x not in ('version', 'baseMVA')]
                w = 4 + max([(2 if m == 1 else 1) * n for m, n in zip(*c['cost'][1:])]) if c.get('cost') else 0
                a = ['some/where/mycase' + ext, tables, rest, w]
                v = C.call('spec.casefiles', 'there', C.dict(dc), *[lift(C, x) for x in a])
                w = R.call('spec.casefiles', 'there_ref', R.dict(dr), *[lift(R, x) for x in a])
                k.compare('round trip', where, '%s%s' % (lab, ext), C, v, R, w, case_valuation)

            def rounded():
                C, R = ctx(k, 4), ctx(k, 4)
                a = ['mycase' + ext]
                v = C.call('spec.casefiles', 'results', C.dict(data(C)), *[lift(C, x) for x in a])
                w = R.call('spec.casefiles', 'results_ref', R.dict(data(R)), *[lift(R, x) for x in a])
                k.compare('round trip', where, '%s%s results' % (lab, ext), C, v, R, w, case_valuation)
            run(k, lab + ext, exact, where, 'round trip')
            if 'results' in lab:
                run(k, lab + ext + ' results', rounded, where, 'round trip')
    callbacks(k, where)
    saving(k, where)
    loading(k)


# reserves, interface limits and dc lines are saved by their callbacks
def reserves(C, solved):
    d = {'zones': C.arr(polymat([[P.const(1), P.const(0)], [P.const(1), P.const(1)]])), 'req': C.vec('rreq', cdim(2)), 'cost': C.vec('rcost', cdim(2))}
    if solved:
        d.update({a: C.vec('r' + a, cdim(2)) for a in ('qty', 'R', 'Rmin', 'Rmax', 'prc')})
        d['mu'] = C.dict({a: C.vec('rmu' + a, cdim(2)) for a in ('l', 'u', 'Pmax')})
        d['totalcost'] = C.sym('rtotal')
    return C.dict(d)


def iflims(C, solved):
    d = {'map': C.arr(polymat([[P.const(x) for x in r] for r in ([1, -1], [1, 2], [2, 0])])), 'lims': C.ctable('iflims', 2, 3, {0: [1, 2]})}
    if solved:
        d['P'] = C.vec('ifP', cdim(2))
        d['mu'] = C.dict({a: C.vec('ifmu' + a, cdim(2)) for a in 'lu'})
    return C.dict(d)


def callbacks(k, where):
    for what in ('reserves', 'iflims', 'dcline'):
        for solved in (False, True):
            def data(C):
                d = case(C)
                if what == 'reserves':
                    d['reserves'] = reserves(C, solved)
                elif what == 'iflims':
                    d['if'] = iflims(C, solved)
                else:
                    d['dcline'] = C.ctable('dcline', 2, 23 if solved else 17, {0: [30, 10], 1: [10, 25], 2: [1, 0]})
                    if not solved:
                        d['dclinecost'] = C.ctable('dclinecost', 2, 7, {0: [2, 2], 3: [3, 2]})
                return C.dict(d)

            def go():
                C, R = ctx(k, 4), ctx(k, 4)
                v = C.call('spec.casefiles', what, data(C))
                w = R.call('spec.casefiles', what + '_ref', data(R))
                k.compare('round trip', k.where('toggle_' + what, 'toggle_' + what), '%s%s' % (what, ' with results' if solved else ''),
                          C, v, R, w, case_valuation)
            run(k, what + (' with results' if solved else ''), go, where, 'round trip')


def saving(k, where):
    k.rule('names', 'savecase returns the name of the file it wrote, with the extension added when it has none, and leaves the case as it was')
    for name in ('case7', 'dir/case7', 'case7.py', 'case7.mat', 'x', 'a.b.mat'):
        for comment in (None, 'one line', ['two', 'lines']):
            if comment and name != 'case7':
                continue

            def go():
                C, R = ctx(k), ctx(k)

                def args(C):
                    d = case(C, areas=True, cost=(7, [2, 2], [3, 2]))
                    d.update(user(C, 'A l u'))
                    return [C.dict(d), lift(C, name), lift(C, comment)]
                v = C.call('spec.casefiles', 'saves', *args(C))
                w = R.call('spec.casefiles', 'saves_ref', *args(R))
                k.compare('names', where, 'save as %s%s' % (name, ', comment' if comment else ''), C, v, R, w, case_valuation)
            run(k, 'save as %s' % name, go, where, 'names')


PY = """from numpy import array
def %s():
    bus = array([[1, 3, 0.5, 2], [2, 1, 4, 3.5]])
    gen = array([[1, 7, 8, 9, 6, 5, 4, 1, 3, 2]])
    branch = array([[1, 2, 0.1, 0.2, 0.3, 0, 0, 0, 0, 0, 1]])
    %s
"""
FILES = {
    'good.py': PY % ('good', "return {'version': '1', 'baseMVA': 10., 'bus': bus, 'gen': gen, 'branch': branch}"),
    'six.py': PY % ('six', 'return 10., bus, gen, branch, array([[1, 2]]), array([[2, 0, 0, 2, 3, 4]])'),
    'four.py': PY % ('four', 'return 10., bus, gen, branch'),
    'less.py': PY % ('less', "return {'version': '2', 'baseMVA': 10., 'bus': bus, 'gen': gen}"),
    'none.py': PY % ('none', "return {'version': '2', 'baseMVA': None, 'bus': bus, 'gen': gen, 'branch': branch}"),
    'syntax.py': 'def syntax(:\n',
    'other.py': 'def another():\n    return {}\n',
    'two.py': PY % ('two', "return {'version': '1', 'baseMVA': 20., 'bus': bus, 'gen': gen, 'branch': branch}"),
}
# file, options, expected error code or the expected value of baseMVA
OPENS = [('good', {}, None), ('good.py', {}, None), ('six.py', {}, None), ('four', {}, None), ('less', {}, 5), ('none.py', {}, 5), ('syntax', {}, 5),
         ('other.py', {}, 5), ('nothing', {}, 2), ('nothing.py', {}, 4), ('nothing.mat', {}, 3), ('two', {}, 'mat'), ('two.mat', {}, 'mat'),
         ('two.py', {}, None),
         ('six', {'return_as_obj': False}, 'list6'), ('six', {'return_as_obj': False, 'expect_areas': False}, 'list5'),
         ('four', {'return_as_obj': False, 'expect_gencost': False, 'expect_areas': False}, 'list4'),
         ('good', {'return_as_obj': False}, 5)]


def loading(k):
    k.rule('loading', 'loadcase finds the file, reports what is wrong by the documented code, and returns the data as documented')
    where = k.where('loadcase', 'loadcase')
    for name, opt, want in OPENS:
        def go():
            C, R = ctx(k), ctx(k)
            for X in (C, R):
                X.I.files = dict(FILES)
                X.I.files['two.mat'] = {'baseMVA': X.arr(polymat([[P.const(30)]])), 'bus': X.ctable('bus', nb, 13, BUS),
                                        'gen': X.ctable('gen', ng, 21, {}), 'branch': X.ctable('branch', nl, 13, {})}
            v = C.call('spec.casefiles', 'opens', Const(name), C.dict({a: lift(C, b) for a, b in opt.items()}))
            w = R.call('spec.casefiles', 'opens_ref', lift(R, want), lift(R, 20. if 'two' in name else 10.),
                       R.dict({x: R.I.files['two.mat'][x] for x in ('bus', 'gen', 'branch')}))
            k.compare('loading', where, 'load %s %s' % (name, opt or ''), C, v, R, w, case_valuation)
        run(k, 'load %s %s' % (name, opt or ''), go, where, 'loading')

    def wrong():
        C = ctx(k)
        for lab, x in (('a number', Const(3)), ('a list', C.I.newlist(C.st, [])), ('nothing', NONE)):
            v = C.call('loadcase', 'loadcase', x)
            k.compare('loading', where, 'load %s' % lab, C, v, C, Const(1), case_valuation)
    run(k, 'wrong argument', wrong, where, 'loading')
    k.rule('copies', 'loadcase of a dict returns an independent copy with tables of floats, without empty areas; the dict is left alone')
    k.rule('version 1', 'tables of version 1 get the columns of version 2 inserted, with results and multipliers moved')
    for lab, g, b in (('plain', 10, 11), ('with flows', 10, 15), ('solved', 14, 17), ('version 2', 21, 13), ('version 2 solved', 25, 21)):
        for ints in (False, True):
            def go():
                C, R = ctx(k), ctx(k)

                def args(C):
                    d = case(C, gen=g, branch=b, cost=(6, [2, 2], [2, 2]))
                    d['areas'] = C.arr(Arr((cdim(0), cdim(2)), lambda i, j: ZERO, 'f'))
                    d['extra'] = C.vec('xtra', cdim(2))
                    if ints:
                        for x in ('bus', 'gen', 'branch', 'gencost'):
                            a = C.A(d[x])
                            d[x] = C.arr(Arr(a.dims, a.fn, 'i'))
                    return [C.dict(d), C.sym('half')]
                v = C.call('spec.casefiles', 'copies', *args(C))
                w = R.call('spec.casefiles', 'copies_ref', *args(R))
                k.compare('version 1', where, 'dict, %s%s' % (lab, ' of integers' if ints else ''), C, v, R, w, case_valuation)
            run(k, 'dict, %s' % lab, go, where, 'copies')
