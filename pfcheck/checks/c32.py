from ..harness import *
from .. import text, files
from ..domain import case_valuation
from ..compare import EQ, UND
from .c25 import lift
from .c26 import bound
from . import c10, c11, c21
NEED = 5000
EXPLANATION = ('Every run function is interpreted with its solver replaced by canned answers and with recorders in place of the report and of saving: '
               'where the report goes, with which options and results, what is saved, and what is returned are compared with the documentation.')
ASSUMPTIONS = ['files are modelled by their contents; one that cannot be opened raises PermissionError', 'printing and saving are decided under C16 and C12']
OPF = ('runopf', 'rundcopf', 'runuopf', 'runduopf', 'runopf_w_res')
PF = ('runpf', 'rundcpf')
FLOW = c11.S['mixed']
WAYS = {
    'to the screen': ('', '', None), 'to a new file': ('report.txt', '', None), 'to a file with earlier reports': ('old.txt', '', None),
    'saved': ('', 'solved.py', None), 'report and case': ('report.txt', 'solved.mat', None), 'file that cannot be opened': ('locked.txt', 'solved.py', None),
    'default options': ('report.txt', 'solved.py', 'default'), 'no arguments': ('', '', 'nothing'),
}


def check(k):
    k.rule('report', 'the report goes, once, to the end of the file named, or to the screen when no file is named')
    k.rule('options', 'the calculation and the report use the options of the caller (dc runs: with the dc model)')
    k.rule('results', 'what is printed and saved is what is returned')
    k.rule('saved', 'the solved case is saved, once, under the name given, and only if a name is given')
    for fn in OPF + PF + ('runcpf',):
        for way in WAYS:
            k.guarded('%s %s' % (fn, way), lambda: one(k, fn, way))


def snapshot(I, st, v):
    return I.np.b_copy(st, [v], {}, None, deep=True)


def made(C, st, f):
    """a value built in the state of the call"""
    old, C.st = C.st, st
    try:
        return f()
    finally:
        C.st = old


def opfcase(C, fn):
    s = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', 3, 13, {0: [1, 2, 3], 1: [3, 1, 1]}),
         'gen': C.ctable('gen', 2, 21, {0: [1, 2], 7: [1, 1]}), 'branch': C.ctable('branch', 2, 13, {0: [1, 2], 1: [2, 3], 10: [1, 1]}),
         'gencost': C.ctable('gencost', 2, 7, {0: [2, 2], 3: [3, 3]})}
    if fn == 'runopf_w_res':
        s['reserves'] = C.dict({'zones': lift(C, [[1, 1]]), 'req': lift(C, [60]), 'cost': lift(C, [2, 3])})
    return s


def solved(C, d):
    r = dict(d)
    r.update(bus=C.ctable('bus', 3, 17, {0: [1, 2, 3]}, atom='tbus'), gen=C.ctable('gen', 2, 25, {0: [1, 2]}, atom='tgen'), f=C.sym('f'), success=Const(True),
             et=Const(0.5))
    return r


def one(k, fn, way):
    fname, save, how = WAYS[way]
    label = '%s, %s' % (fn, way)
    where = k.where(fn, fn)
    C, R = k.ctx(), k.ctx()
    I = C.I
    I.files, I.tries, I.nonan, I.unroll = {'old.txt': 'earlier report'}, 1, True, 6
    R.I.nonan = True
    I.locked = ('locked.txt',)
    printed, kept, asked, loaded = [], [], [], []

    def report(I, st, args, kw):
        a = bound(I, st, 'pypower.printpf.printpf', args, kw)
        fd = a.get('bus', NONE)
        tag = fd.tag if isinstance(fd, text.FileV) else 'stdout' if isinstance(fd, Const) and fd.v is None else getattr(fd, 'name', repr(fd)).split('.')[-1]
        printed.append((st.guard, tag, snapshot(I, st, a['baseMVA']), a.get('gen', NONE), st.fork()))
        text.write(I, st, fd if isinstance(fd, text.FileV) else tag, Const('REPORT'), None)
        return NONE

    def keep(I, st, args, kw):
        a = bound(I, st, 'pypower.savecase.savecase', args, kw)
        kept.append((st.guard, a['fname'], snapshot(I, st, a['ppc']), st.fork()))
        return a['fname']
    I.overrides['pypower.printpf.printpf'] = PyFunc(report)
    I.overrides['pypower.savecase.savecase'] = PyFunc(keep)

    def solver(name):
        def go(I, st, args, kw):
            a = list(args) + list(kw.values())
            asked.append((name, a, st.fork()))
            c = I.cell(st, a[0])
            if c is None:
                loaded.append(a[0])
                return made(C, st, lambda: C.dict(solved(C, opfcase(C, fn))))
            return made(C, st, lambda: C.dict(solved(C, c.items)))
        return PyFunc(go)
    for m in ('opf', 'uopf'):
        I.overrides['pypower.%s.%s' % (m, m)] = solver(m)
    nb = 4
    for m in ('newtonpf', 'fdpf', 'gausspf'):
        def flow(I, st, args, kw, m=m):
            asked.append((m, [None, list(args)[-1]], st.fork()))
            return Tup([C.vec('Vsol', cdim(nb), 'c', polar=True), Const(1), Const(3)])
        I.overrides['pypower.%s.%s' % (m, m)] = PyFunc(flow)
    if how == 'nothing':
        real = C.func('loadcase', 'loadcase')

        def load(I, st, args, kw):
            loaded.append(args[0])
            return made(C, st, lambda: C.dict(opfcase(C, fn)) if fn in OPF else c11.case(C, FLOW) if fn in PF else c21.cases(C, same=True)[0])
        I.overrides['pypower.loadcase.loadcase'] = PyFunc(load)
        if fn == 'runopf_w_res':
            return
    opts = dict(OUT_BUS=0, OPF_VIOLATION=0.25, VERBOSE=0, ENFORCE_Q_LIMS=0, CPF_STEP=0.375, CPF_PLOT_LEVEL=0)
    c = [] if how == 'nothing' else [C.dict(opfcase(C, fn))] if fn in OPF else [c11.case(C, FLOW)] if fn in PF else list(c21.cases(C, same=True))
    opt = I.call(C.func('ppoption', 'ppoption'), [], {a: Const(b) for a, b in opts.items()}, C.st, None)
    given = snapshot(I, C.st, opt)
    args = c + ([] if how == 'nothing' else [NONE if how == 'default' else opt, Const(fname), Const(save)])
    out = C.call(fn, fn, *args)
    res = out
    if fn in PF + ('runcpf',):
        res = C.I.seq_items(out, C.st)[0] if isinstance(out, Tup) else out
    if I.cell(C.st, res) is None:
        return k.undecided(label, 'the results are not a known dict: %r' % (res,))
    # where it goes
    expect = [] if fname == 'locked.txt' else [fname or 'stdout']
    got = [x[1] for x in printed]
    if any(x[0].const() != 1 for x in printed) or any(x[0].const() != 1 for x in kept):
        k.undecided(label + ': report', 'printed or saved under conditions')
    elif got != expect:
        k.violate('report', where, label + ': report', 'the report goes to %s, not %s' % (got or 'nowhere', expect or 'nowhere'))
    elif fname in I.files:
        body = files.read(I, text.FileV(fname)).v
        want = ('earlier report' if fname == 'old.txt' else '') + 'REPORT'
        if body == want:
            k.ok(label + ': report')
        else:
            k.violate('report', where, label + ': report', 'the file contains %r, not %r' % (body, want))
    else:
        k.ok(label + ': report')
    if fname == 'locked.txt':
        err = [x for x in I.textlog if x[1] == 'stderr']
        if err:
            k.ok(label + ': message')
        else:
            k.violate('report', where, label + ': message', 'nothing is said about the file that cannot be opened')
    names = [x[1].v if isinstance(x[1], Const) else repr(x[1]) for x in kept]
    if names != [save] * bool(save):
        k.violate('saved', where, label + ': saved', 'the case is saved as %s instead of %s' % (names, [save] * bool(save)))
    else:
        k.ok(label + ': saved')
    # with which options
    o = {} if how else dict(opts)
    if fn in ('rundcpf', 'rundcopf', 'runduopf'):
        o['PF_DC'] = True
    ref = R.I.call(R.func('ppoption', 'ppoption'), [], {a: Const(b) for a, b in o.items()}, R.st, None)
    for what, v, st in [('report', x[3], x[4]) for x in printed] + [('calculation', x[1][1] if len(x[1]) > 1 else NONE, x[2]) for x in asked]:
        if what == 'calculation' and C.I.cell(st, v) is not None:
            v = made(C, st, lambda: C.dict({a: b for a, b in I.cell(st, v).items.items() if a != 'VERBOSE'}))
            compare(k, 'options', where, '%s: options of the %s' % (label, what), C, st, v, R, R.st,
                    R.dict({a: b for a, b in R.I.cell(R.st, ref).items.items() if a != 'VERBOSE'}))
        else:
            compare(k, 'options', where, '%s: options of the %s' % (label, what), C, st, v, R, R.st, ref)
    if not asked and fn not in ('rundcpf',):
        k.undecided(label + ': options', 'the solver is not called')
    compare(k, 'options', where, label + ': options kept', C, C.st, opt, C, C.st, given)
    # what
    drop = ('userfcn',) if fn == 'runopf_w_res' else ()
    for what, v, st in [('printed', x[2], x[4]) for x in printed] + [('saved', x[2], x[3]) for x in kept]:
        a, b = dict(I.cell(st, v).items), dict(I.cell(C.st, res).items)
        for key in drop:
            if what == 'printed' and not callbacks(I, st, a.get(key)):
                k.violate('results', where, '%s: %s callbacks' % (label, what), 'the reserves are not printed')
            a.pop(key, None)
            if callbacks(I, C.st, b.pop(key, None)):
                k.violate('results', where, '%s: callbacks' % label, 'reserves stay switched on')
        if sorted(a) != sorted(b):
            k.violate('results', where, '%s: %s' % (label, what), 'the fields %s are %s, those of the results %s' % (what, sorted(a), sorted(b)))
            continue
        for key in sorted(a):
            compare(k, 'results', where, '%s: %s %s' % (label, what, key), C, st, a[key], C, C.st, b[key])
    if fn in OPF:
        ref = solved(R, opfcase(R, fn))
        b = dict(I.cell(C.st, res).items)
        for key in drop:
            b.pop(key, None)
        for key in sorted(ref):
            if key not in b:
                k.violate('results', where, '%s: returned %s' % (label, key), 'missing')
            else:
                compare(k, 'results', where, '%s: returned %s' % (label, key), C, C.st, b[key], R, R.st, ref[key])
        want = 'uopf' if 'uopf' in fn else 'opf'
        if [x[0] for x in asked] != [want]:
            k.violate('results', where, label + ': solver', 'the solvers called are %s' % [x[0] for x in asked])
    if how == 'nothing':
        bad = [x for x in loaded if not (isinstance(x, Const) and isinstance(x.v, str) and x.v.rsplit('/', 1)[-1] in ('case9', 'case9target'))]
        if bad and not all(isinstance(x, Const) for x in bad):
            k.undecided(label + ': case', 'the case run is unknown')
        elif bad:
            k.violate('results', where, label + ': case', 'the case run is %r' % (bad[0],))
        else:
            k.ok(label + ': case')


def callbacks(I, st, v):
    c = I.cell(st, v) if v is not None else None
    return any(I.seq_items(x, st) for x in c.items.values()) if c is not None else False


def compare(k, rule, where, label, C, cst, v, R, rst, w):
    pairs = k.comparer(case_valuation).values(C.I, cst, v, R.I, rst, w, label)
    for path, r in pairs:
        k.count('values compared')
        if r.status == EQ:
            k.ok(path)
        elif r.status == UND:
            k.undecided(path, r.why)
        else:
            k.violate(rule, where, path, '%s: %s' % (path, r.why), r.detail, label=path)
