"""Abstract inputs and comparison of abstract results."""
import os
from .interp import *          # noqa
from .values import *          # noqa
from . import poly as P
from .npmodel import const_vec

REPO = os.environ.get('PFCHECK_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# column roles of the case tables (integer-valued and 0/1 columns)
TABLES = {
    'bus': ('nb', 13, (0, 1, 6, 10), ()),
    'gen': ('ng', 21, (0,), ()),
    'branch': ('nl', 17, (0, 1), (10,)),
}


def declare_sizes():
    for n in ('nb', 'nl', 'ng', 'n1', 'n2', 'n3', 'nz'):
        P.declare(n, real=True, int=True, nonneg=True, pos=True)
    P.declare('baseMVA', real=True, pos=True)


declare_sizes()


def load_program():
    return Program(REPO, extra_dirs=[('spec', os.path.join(HERE, 'spec'))])


class Ctx(object):
    """one analysis: an interpreter with a state"""

    def __init__(self, prog, max_steps=400000, overrides=None):
        self.I = Interp(prog, max_steps)
        self.st = State({}, {}, ONE)
        if overrides:
            self.I.overrides.update(overrides)

    # -- inputs
    def table(self, name, rows=None, cols=None, ints=None, bools=None, atom=None):
        d = TABLES.get(name, (None, None, (), ()))
        rows = rows or d[0]
        cols = cols or d[1]
        atom = atom or name
        P.declare(atom, real=True, intcols=set(d[2] if ints is None else ints),
                  boolcols=set(d[3] if bools is None else bools))
        rd = Dim(size=P.atom(rows)) if isinstance(rows, str) else cdim(rows)
        return self.arr(Arr((rd, cdim(cols)), lambda i, j: P.atom(atom, P.flat(i), P.flat(j)), 'f', note=atom))

    def ctable(self, name, rows, cols, fixed, atom=None):
        """table with a concrete number of rows and concrete contents of some columns
        (topology, status, cost model; None in a column: symbolic); the other entries are symbolic"""
        atom = atom or 'c' + name
        P.declare(atom, real=True)

        def column(b):
            f = list(fixed[b])
            if any(x is None or isinstance(x, P.Poly) for x in f):
                return polyvec([x if isinstance(x, P.Poly) else P.const(x) if x is not None else P.atom(atom, P.const(i), P.const(b))
                                for i, x in enumerate(f)])
            return const_vec(f)

        def fn(i, j):
            i, j = P.flat(i), P.flat(j)
            a, b = i.const_int(), j.const_int()
            if b is not None:
                if b not in fixed:
                    return P.atom(atom, i, j)
                return column(b).at(i)
            acc = P.atom(atom, i, j)
            for c in fixed:
                d = P.eq(j - P.const(c))
                acc = acc + d * (column(c).at(i) - P.atom(atom, i, P.const(c)))
            return acc
        return self.arr(Arr((cdim(rows), cdim(cols)), fn, 'f'))

    def polyvec(self, ps, dtype='f', kind='nd'):
        """concrete-length vector of given polynomials"""
        return self.arr(polyvec(ps, dtype))

    def arr(self, a):
        return self.I.newarr(self.st, a)

    def vec(self, name, size, dtype='f', polar=False, **kw):
        if polar:
            P.declare(name, polar=True)
        else:
            P.declare(name, real=dtype != 'c', int=dtype == 'i', **kw)
        if dtype == 'b':
            P.declare(name, boolcols='all')
        d = Dim(size=P.atom(size)) if isinstance(size, str) else (size if isinstance(size, Dim) else cdim(size))
        return self.arr(Arr((d,), lambda i: P.atom(name, P.flat(i)), dtype, note=name))

    def mat(self, name, r, c, dtype='f', kind='nd', real=True):
        P.declare(name, real=real)
        mk = lambda s: Dim(size=P.atom(s)) if isinstance(s, str) else (s if isinstance(s, Dim) else cdim(s))
        return self.arr(Arr((mk(r), mk(c)), lambda i, j: P.atom(name, P.flat(i), P.flat(j)), dtype, kind))

    def sym(self, name, dtype='f', **kw):
        P.declare(name, real=dtype != 'c', int=dtype == 'i', **kw)
        if dtype == 'b':
            P.declare(name, boolcols='all')
            return scalar(P.ne(P.factor_raw(('T', name, ()))), 'b')
        return scalar(P.atom(name), dtype)

    def dict(self, items, **kw):
        return self.I.newdict(self.st, items, **kw)

    def func(self, mod, name):
        f = self.I.get_function(mod if '.' in mod else 'pypower.' + mod, name)
        if f is None:
            raise AnchorLost('%s.%s' % (mod, name))
        return f

    def call(self, mod, name, *args, **kw):
        f = self.func(mod, name)
        return self.I.call(f, list(args), kw, self.st, None)

    def A(self, v):
        return self.I.arr_of(self.st, v)


def polyvec(ps, dtype='f'):
    ps = list(ps)

    def fn(i):
        i = P.flat(i)
        c = i.const_int()
        if c is not None:
            return ps[c] if 0 <= c < len(ps) else ZERO
        acc = ZERO
        for k, x in enumerate(ps):
            acc = acc + P.eq(i - P.const(k)) * x
        return acc
    return Arr((cdim(len(ps)),), fn, dtype)


def polymat(rows, dtype='f', kind='nd'):
    rows = [list(r) for r in rows]

    def fn(i, j):
        i, j = P.flat(i), P.flat(j)
        a, b = i.const_int(), j.const_int()
        if a is not None and b is not None:
            return rows[a][b]
        acc = ZERO
        for x, r in enumerate(rows):
            if a is not None and a != x:
                continue
            for y, q in enumerate(r):
                if q.t and (b is None or b == y):
                    t = q if a is not None else P.eq(i - P.const(x)) * q
                    acc = acc + (t if b is not None else P.eq(j - P.const(y)) * t)
        return acc
    return Arr((cdim(len(rows)), cdim(len(rows[0]))), fn, dtype, kind)


class AnchorLost(Exception):
    pass


def show(v, I, st):
    a = I.arr_of(st, v)
    if a is not None:
        r = ['%s' % a]
        for k, p in entries(a).items():
            r.append('  %s: %s' % (','.join(k), p))
        return '\n'.join(r)
    c = I.cell(st, v)
    if isinstance(c, DictCell):
        return 'dict{' + ', '.join('%s: %s' % (k, show(x, I, st)) for k, x in c.items.items()) + '}'
    if isinstance(v, Tup):
        return '(' + ',\n '.join(show(x, I, st) for x in v.items) + ')'
    if isinstance(c, ListCell):
        return '[' + ',\n '.join(show(x, I, st) for x in c.items) + ']'
    if isinstance(v, Phi):
        return 'Phi(%s ? %s : %s)' % (v.c, show(v.a, I, st), show(v.b, I, st))
    return repr(v) + (repr(c) if c is not None else '')
