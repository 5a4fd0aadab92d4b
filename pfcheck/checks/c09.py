from ..harness import *
from ..domain import case_valuation
from ..compare import EQ, UND
from ..values import *          # noqa
from .c25 import lift
from .c32 import made
from . import c10, c11, c12, c21, c26, c27
NEED = 1500
EXPLANATION = ('Each function is interpreted on symbolic data; after the call every table, vector, matrix, dict and list passed to it is compared with what '
               'it was, and the objects reachable from the result are compared with those reachable from the arguments (escape analysis).')
ASSUMPTIONS = ['iterative solvers are replaced by arbitrary answers in whole runs; they are analysed themselves under C08, C17, C20 and C21']


def check(k):
    k.rule('kept', 'everything passed to the function is afterwards what it was')
    k.rule('not shared', 'the result holds no table, matrix, dict or list of the caller: changing one later leaves the other as it is')
    k.rule('no memory', 'the result of a call does not depend on the calls made before')
    for label, mod, fn, build, prep, share in entries():
        k.guarded(label, lambda: one(k, label, mod, fn, build, prep, share))
        k.guarded(label + ' again', lambda: again(k, label, mod, fn, build, prep))


def again(k, label, mod, fn, build, prep):
    C, R = k.ctx(), k.ctx()
    for X in (C, R):
        X.I.unroll, X.I.nonan = 6, True
        X.st.env['go'] = None
    where = k.where(mod, fn)
    if prep:
        prep(C)
    names = [x.arg for x in C.func(mod, fn).node.args.args]
    C.call(mod, fn, *[other(C, x, n) for x, n in zip(build(C), names + [''] * 9)])
    for X in (C, R):
        if prep:
            prep(X)
    v, w = C.call(mod, fn, *build(C)), R.call(mod, fn, *build(R))
    same(k, where, label + ', called again', C, v, R, w)


def other(C, v, name=''):
    """different data of the same structure; some branches are drawn from the other end"""
    a = C.A(v) if not isinstance(v, Const) else None
    if a is not None and a.dtype in 'fc':
        d = [x.const() for x in a.dims]
        if None not in d:
            if name == 'branch':
                m = [[keep(a.at(P.const(i), P.const(j))) for j in range(d[1])] for i in range(d[0])]
                for x in m[1::2]:
                    x[0], x[1] = x[1], x[0]
                return C.arr(polymat(m))
            r = Arr(a.dims, lambda *ix: keep(a.at(*ix)), a.dtype, a.kind)
            return C.arr(r) if a.rank else scalar(keep(a.p()), a.dtype)
    c = C.I.cell(C.st, v)
    if isinstance(c, DictCell):
        return C.dict({n: other(C, x, n) for n, x in c.items.items()})
    return v


def keep(p):
    return p if p.const() is not None else p.scale(2)


def same(k, where, label, C, v, R, w):
    a, b = C.I.cell(C.st, v), R.I.cell(R.st, w)
    if isinstance(a, DictCell) and isinstance(b, DictCell) and set(a.items) == set(b.items):
        for n in sorted(b.items):
            same(k, where, "%s['%s']" % (label, n), C, a.items[n], R, b.items[n])
    elif isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
        for i, (x, y) in enumerate(zip(v.items, w.items)):
            same(k, where, '%s[%d]' % (label, i), C, x, R, y)
    elif lists(C, a, R, b):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            same(k, where, '%s[%d]' % (label, i), C, x, R, y)
    elif isinstance(b, ObjCell) or isinstance(w, (FuncV, PyFunc)) or w is None or 'et' == label[-4:-2]:
        pass
    else:
        for path, r in k.comparer(case_valuation).values(C.I, C.st, v, R.I, R.st, w, label):
            k.count('values compared')
            if r.status == EQ:
                k.ok(path)
            elif r.status == UND:
                k.undecided(path, r.why)
            else:
                k.violate('no memory', where, path, '%s: %s' % (path, r.why), r.detail, label=path)


def one(k, label, mod, fn, build, prep, share):
    C, R = k.ctx(), k.ctx()
    for X in (C, R):
        X.I.unroll, X.I.nonan = 6, True
    if prep:
        prep(C)
    where = k.where(mod, fn)
    args = build(C)
    # the caller knows the value itself and whatever is inside it
    old = reach(C.I, C.st, args)
    before = {x: C.st.heap.get(x) for x in old}
    ref = build(R)
    names = [x.arg for x in C.func(mod, fn).node.args.args] or ['argument %d' % (i + 1) for i in range(len(args))]
    names += ['argument %d' % (i + 1) for i in range(len(names), len(args))]
    out = C.call(mod, fn, *args)
    for n, a, b in zip(names, args, ref):
        compare(k, where, '%s: %s' % (label, n), C, a, R, b)
    if share:
        new = reach(C.I, C.st, [out])
        if not new:
            k.undecided(label + ': result', 'the result is unknown: %r' % (out,))
            return
        both = sorted(set(old) & set(new), key=lambda x: int(x[1:]))
        for x in both:
            if not isinstance(C.st.heap.get(x), ObjCell):
                k.violate('not shared', where, '%s: %s' % (label, new[x]), 'result%s is the same object as %s of the caller' % (new[x], name(old[x], names)))
        if not both:
            k.ok('%s: %d objects of the result are not among the %d of the caller' % (label, len(new), len(old)))


def name(path, names):
    i, rest = path[1:].split(']', 1)
    return names[int(i)] + rest


def reach(I, st, vals):
    """location -> path, of every object reachable from the values"""
    out = {}
    todo = [('[%d]' % i, v) for i, v in enumerate(vals)] if len(vals) != 1 or isinstance(vals, list) and not isinstance(vals[0], Tup) else [('', vals[0])]
    while todo:
        path, v = todo.pop()
        if isinstance(v, Phi):
            todo += [(path, v.a), (path, v.b)]
        elif isinstance(v, (Tup, Zip)):
            todo += [('%s[%d]' % (path, i), x) for i, x in enumerate(v.items)]
        elif isinstance(v, Ref) and v.loc not in out:
            out[v.loc] = path
            c = st.heap.get(v.loc)
            if isinstance(c, DictCell):
                todo += [("%s['%s']" % (path, n), x) for n, x in c.items.items()]
            elif isinstance(c, ListCell):
                todo += [('%s[%d]' % (path, i), x) for i, x in enumerate(c.items)]
            elif isinstance(c, ViewCell):
                todo.append((path, c.parent if isinstance(c.parent, Ref) else Ref(c.parent)))
            elif isinstance(c, ObjCell):
                todo += [('%s.%s' % (path, n), x) for n, x in c.attrs.items()]
    return out


def compare(k, where, label, C, a, R, b):
    ca, cb = C.I.cell(C.st, a), R.I.cell(R.st, b)
    if isinstance(ca, DictCell) and isinstance(cb, DictCell):
        if sorted(ca.items) != sorted(cb.items):
            k.violate('kept', where, label, 'fields %s instead of %s' % (sorted(ca.items), sorted(cb.items)))
            return
        for n in sorted(cb.items):
            compare(k, where, "%s['%s']" % (label, n), C, ca.items[n], R, cb.items[n])
        return
    if lists(C, ca, R, cb):
        for i, (x, y) in enumerate(zip(ca.items, cb.items)):
            compare(k, where, '%s[%d]' % (label, i), C, x, R, y)
        return
    if isinstance(b, (FuncV, PyFunc)):
        return
    x, y = C.A(a), R.A(b)
    if x is not None and y is not None and (x.rank != y.rank or x.dtype != y.dtype):
        k.violate('kept', where, label, '%s instead of %s' % (x, y))
        return
    k.compare('kept', where, label, C, a, R, b, case_valuation)


def lists(C, a, R, b):
    """lists of equal length of things that are not numbers"""
    return isinstance(a, ListCell) and isinstance(b, ListCell) and len(a.items) == len(b.items) and \
        any(isinstance(x, (FuncV, PyFunc)) or isinstance(X.I.cell(X.st, x), (DictCell, ListCell)) for X, l in ((C, a), (R, b)) for x in l.items)


# -- what is called
def net(C):
    return dict(bus=C.ctable('bus', 3, 13, {0: [0, 1, 2], 1: [3, 2, 1]}), gen=C.ctable('gen', 3, 21, {0: [0, 1, 1], 7: [1, 0, 1]}),
                branch=C.ctable('branch', 3, 17, {0: [0, 1, 0], 1: [1, 2, 2], 10: [1, 1, 0]}),
                gencost=C.ctable('gencost', 3, 10, {0: [2, 1, 2], 3: [3, 3, 2]}), baseMVA=C.sym('baseMVA', pos=True))


def tables(*names):
    def f(C):
        d = net(C)
        return [d[n] if isinstance(n, str) and n in d else n(C) if callable(n) else Const(n) for n in names]
    return f


def entries():
    Vc = lambda C: C.vec('V', cdim(3), 'c', polar=True)
    mat = lambda n, r, c: lambda C: C.arr(Arr((cdim(r), cdim(c)), lambda i, j: P.atom(n, P.flat(i), P.flat(j)), 'c', 'sp'))
    for n in ('Y', 'Yf', 'Yt'):
        P.declare(n, real=False)
    Y, Yf, Yt = mat('Y', 3, 3), mat('Yf', 3, 3), mat('Yt', 3, 3)
    rm = lambda n, r, c: lambda C: C.mat(n, r, c)
    idx = lambda v: lambda C: C.arr(const_vec(v, 'i'))
    vec = lambda n, d, t='f': lambda C: C.vec(n, cdim(d), t)
    al = lambda C: C.sym('alpha', pos=True)
    curves = lambda C: C.ctable('gen', 3, 21, {0: [0, 1, 1], 7: [1, 0, 1], 3: [9, 9, 9], 4: [-9] * 3, 8: [50] * 3, 9: [1] * 3, 10: [0, 5, 10], 11: [0, 40, 45],
                                               12: [0, -5, -6], 13: [0, 5, 6], 14: [0, -2, -3], 15: [0, 2, 3]})
    opt = lambda **kw: lambda C: c11.options(C, **kw)
    low = [
        ('bustypes', ('bus', 'gen')), ('makeYbus', ('baseMVA', 'bus', 'branch')), ('makeSbus', ('baseMVA', 'bus', 'gen')),
        ('makeBdc', ('baseMVA', 'bus', 'branch')), ('makeB', ('baseMVA', 'bus', 'branch', 2)), ('makeB', ('baseMVA', 'bus', 'branch', 3)),
        ('makePTDF', ('baseMVA', 'bus', 'branch', 0)), ('makePTDF', ('baseMVA', 'bus', 'branch', vec('w', 3))),
        ('makeLODF', ('branch', rm('H', 3, 3))), ('dcpf', (rm('B', 3, 3), vec('Pb', 3), vec('Va0', 3), idx([0]), idx([1]), idx([2]))),
        ('dSbus_dV', (Y, Vc)), ('dIbr_dV', ('branch', Yf, Yt, Vc)), ('dSbr_dV', ('branch', Yf, Yt, Vc)),
        ('d2Sbus_dV2', (Y, Vc, vec('lam', 3))),
        ('isload', ('gen',)), ('hasPQcap', ('gen',)), ('totcost', ('gencost', vec('Pg', 3))), ('modcost', ('gencost', al, 'SHIFT_X')),
        ('modcost', ('gencost', al, 'SCALE_X')), ('modcost', ('gencost', al, 'SHIFT_F')), ('modcost', ('gencost', al, 'SCALE_F')), ('pqcost', ('gencost', 3)),
        ('total_load', ('bus', 'gen')), ('makeAang', ('baseMVA', 'branch', 3, opt())), ('makeApq', ('baseMVA', curves)), ('makeAvl', ('baseMVA', 'gen')),
        ('makeAy', ('baseMVA', 3, 'gencost', 0, 3, 6)),
    ]
    for n, a in low:
        yield '%s(%s)' % (n, ', '.join(x if isinstance(x, str) else '%d' % x if isinstance(x, int) else '..' for x in a)), n, n, tables(*a), None, False
    # conversions
    for lab in ('mixed', 'isolated'):
        s = c10.S[lab]
        yield 'ext2int [%s]' % lab, 'ext2int', 'ext2int', (lambda s: lambda C: [extra(C, C.I.cell(C.st, c10.case(C, s)).items)])(s), None, True
        yield 'int2ext [%s]' % lab, 'int2ext', 'int2ext', (lambda s: lambda C: [C.call('ext2int', 'ext2int', extra(C, C.I.cell(C.st, c10.case(C, s)).items))])(s), None, True
    yield 'loadcase', 'loadcase', 'loadcase', (lambda C: [extra(C, C.I.cell(C.st, c11.case(C, c11.S['mixed'])).items)]), None, True
    # separate tables
    def positional(C):
        it = C.I.cell(C.st, c26.case(C, c26.S['plain'], False)).items
        return [it[x] for x in ('baseMVA', 'bus', 'gen', 'branch')] + [C.arr(const_vec([])), it['gencost'], c11.options(C)]
    yield 'opf [separate tables]', 'opf', 'opf', positional, (lambda C: optimal(C, 'plain', False)), True
    # whole runs
    flow = lambda C: extra(C, C.I.cell(C.st, c11.case(C, c11.S['mixed'])).items)
    for alg in (1, 2, 4):
        yield 'runpf [method %d]' % alg, 'runpf', 'runpf', (lambda a: lambda C: [flow(C), c11.options(C, PF_ALG=a)])(alg), solvers, True
    yield 'runpf [reactive limits]', 'runpf', 'runpf', (lambda C: [flow(C), c11.options(C, ENFORCE_Q_LIMS=1)]), limited, True
    yield 'rundcpf', 'rundcpf', 'rundcpf', (lambda C: [flow(C), c11.options(C)]), solvers, True
    yield 'runcpf', 'runcpf', 'runcpf', (lambda C: list(c21.cases(C, same=True)) + [c11.options(C)]), solvers, True
    for n, dc in (('plain', False), ('reactive', False), ('user', False), ('plain', True), ('piecewise', True), ('user', True)):
        def build(C, n=n, dc=dc):
            return [c26.case(C, c26.S[n], dc), c26.options(C, dc)]
        for fn in ('opf', 'runopf'):
            yield '%s [%s, %s]' % (fn, n, 'dc' if dc else 'ac'), fn, fn, build, (lambda n, dc: lambda C: optimal(C, n, dc))(n, dc), True
    s = c27.S['two too many']
    yield 'uopf', 'uopf', 'uopf', (lambda C: [extra(C, c27.case(C, s)), c11.options(C)]), decommit(4), True
    yield 'runuopf', 'runuopf', 'runuopf', (lambda C: [extra(C, c27.case(C, s)), c11.options(C)]), decommit(4), True


def extra(C, d):
    """a case with fields of the user"""
    d = dict(d)
    d['note'] = C.dict({'numbers': C.vec('unote', cdim(3)), 'list': lift(C, [1, 2])})
    # a callback of the caller that does nothing
    d['userfcn'] = C.dict({'printpf': C.I.newlist(C.st, [C.dict({'fcn': C.func('spec.effects', 'callback'), 'args': lift(C, [1])})])})
    return C.dict(d)


def solvers(C):
    c11.quiet(C)
    for m in ('newtonpf', 'fdpf', 'gausspf'):
        def solve(I, st, args, kw):
            n = I.arr_of(st, args[2]).dims[0].const() if m != 'x' else 0
            return Tup([made(C, st, lambda: C.vec('Vsol', cdim(n), 'c', polar=True)), Const(1), Const(3)])
        C.I.overrides['pypower.%s.%s' % (m, m)] = PyFunc(solve)


def limited(C):
    """the first solution is beyond the limits of a unit, the second is not"""
    solvers(C)
    turn = []

    def solution(I, st, args, kw):
        a = c26.bound(I, st, 'pypower.pfsoln.pfsoln', args, kw)
        turn.append(1)
        g = I.arr_of(st, a['gen0'])
        rows = [[g.at(P.const(i), P.const(j)) for j in range(21)] for i in range(g.dims[0].const())]
        for i, r in enumerate(rows):
            r[2] = r[3] + P.const(5 if i == 0 and len(turn) == 1 else -1)
            r[4] = r[3] - P.const(9)
        I.call(C.func('spec.effects', 'fill'), [a['gen0'], I.newarr(st, polymat(rows))], {}, st, None)
        return Tup([a['bus0'], a['gen0'], a['branch0']])
    C.I.overrides['pypower.pfsoln.pfsoln'] = PyFunc(solution)


def optimal(C, n, dc):
    c11.quiet(C)
    f, nvar, nlin = c26.facts(c26.S[n], dc)
    nm = 'pypower.qps_pypower.qps_pypower' if dc else 'pypower.pips.pips'
    C.I.overrides['pypower.util.have_fcn'] = PyFunc(lambda I, st, args, kw: Const(False))
    C.I.overrides[nm] = c26.stub(c26.answer(C, nvar, nlin, dc, 1), nm, [])


def decommit(n):
    def prep(C):
        from fractions import Fraction
        c11.quiet(C)
        C.I.random = Fraction(1, 3)
        c27.oracle(C, c27.Answers(n, 2), [])
    return prep
