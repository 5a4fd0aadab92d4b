"""Abstract values."""
from .poly import *          # noqa
from . import poly as P


class Const(object):
    """a Python literal: int, float, complex, str, bool, None, Ellipsis"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Const(%r)' % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash((type(self.v), self.v))


NONE = Const(None)


class Unk(object):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Unk(%s)' % self.why


class Arr(object):
    """immutable tensor description"""
    __slots__ = ('dims', 'fn', 'dtype', 'kind', '_memo', '_key', 'note')

    def __init__(self, dims, fn, dtype='f', kind='nd', note=None):
        self.dims = tuple(dims)
        self.fn = fn
        self.dtype = dtype
        self.kind = kind
        self._memo = {}
        self._key = None
        self.note = note

    @property
    def rank(self):
        return len(self.dims)

    def at(self, *ix):
        k = tuple((i.k, i.ix) if isinstance(i, BIdx) else i for i in ix)
        r = self._memo.get(k)
        if r is None:
            ix2 = []
            for d, i in zip(self.dims, ix):
                if d.parts and not isinstance(i, BIdx):
                    b = split_index(d, i)
                    ix2.append(b if b is not None else i)
                elif not d.parts and isinstance(i, BIdx):
                    ix2.append(i.flat())
                else:
                    ix2.append(i)
            r = self.fn(*ix2)
            self._memo[k] = r
        return r

    def p(self):
        return self.at()

    def __repr__(self):
        return 'Arr<%s %s %s>' % (self.kind, self.dtype, 'x'.join(d.key for d in self.dims))


def split_index(dim, i):
    """flat index poly -> BIdx if it is off_k + v with v ranging over block k.
    Only decided for constants inside constant-size leading blocks."""
    off = ZERO
    for k, p in enumerate(dim.parts):
        r = (i - off)
        c = r.const_int()
        n = p.size.const_int()
        if c is not None and c >= 0 and (n is None or c < n):
            return BIdx(dim, k, r)
        off = off + p.size
    return None


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Zip(object):
    """zip or enumerate over arrays of unknown length"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class SliceV(object):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Ref(object):
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return 'Ref(%s)' % self.loc

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc

    def __hash__(self):
        return hash(self.loc)


class FuncV(object):
    __slots__ = ('node', 'mod', 'env', 'name', 'defaults', 'kwdefaults', 'cls')

    def __init__(self, node, mod, env, name, defaults=(), kwdefaults=None, cls=None):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults or {}, cls

    def __repr__(self):
        return 'FuncV(%s)' % self.name


class PyFunc(object):
    """analyser-side intrinsic: fn(interp, st, args, kwargs) -> value"""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class ClassV(object):
    __slots__ = ('node', 'mod', 'env', 'name', 'methods')

    def __init__(self, node, mod, env, name, methods):
        self.node, self.mod, self.env, self.name, self.methods = node, mod, env, name, methods


class ModV(object):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod


class ExtV(object):
    """symbol of an external library, by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Bound(object):
    __slots__ = ('self_', 'name')

    def __init__(self, self_, name):
        self.self_, self.name = self_, name


class Phi(object):
    """value a where cond (0/1 Poly) holds, else b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Phi(%s ? %r : %r)' % (self.c, self.a, self.b)


# -- heap cells (immutable objects; the heap maps locations to them)
class DictCell(object):
    __slots__ = ('items', 'open', 'name')

    def __init__(self, items, open=False, name=None):
        self.items, self.open, self.name = items, open, name


class ListCell(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class ArrCell(object):
    __slots__ = ('arr',)

    def __init__(self, arr):
        self.arr = arr


class ViewCell(object):
    """basic-slice view of another array cell"""
    __slots__ = ('parent', 'sel', 'extra')

    def __init__(self, parent, sel):
        self.parent, self.sel = parent, sel


class ObjCell(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class UnkCell(object):
    """heap object about which nothing is known any more"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


# --------------------------------------------------------------------------
def scalar(p, dtype='f'):
    return Arr((), lambda: p, dtype)


def cdim(n):
    return Dim(size=P.const(n))


def canon_axes(arr):
    """list over axes of lists of (label, index) to enumerate"""
    out = []
    for ax, d in enumerate(arr.dims):
        out.append(enum_dim(d, ax))
    return out


def enum_dim(d, ax):
    if d.parts:
        r = []
        for k, p in enumerate(d.parts):
            for lab, ix in enum_dim(p, ax):
                r.append(('b%d:%s' % (k, lab), BIdx(d, k, ix)))
        return r
    n = d.const()
    if n is not None and n <= 40:
        return [(str(i), P.const(i)) for i in range(n)]
    v = '$%d' % ax
    return [(v, P.ixvar_raw(v))]


def entries(arr):
    """canonical entry polynomials of the whole array: label -> Poly"""
    out = {}
    axes = canon_axes(arr)

    def rec(i, lab, ix):
        if i == len(axes):
            out[tuple(lab)] = arr.at(*ix)
            return
        for l, x in axes[i]:
            rec(i + 1, lab + [l], ix + [x])
    rec(0, [], [])
    return out


_names = {}


def arr_key(arr):
    """closed canonical name of an array's contents"""
    if arr._key is None:
        e = entries(arr)
        s = '|'.join(d.key for d in arr.dims) + '{' + ';'.join(
            '%s=%s' % (','.join(k), e[k]) for k in sorted(e)) + '}'
        import hashlib
        h = hashlib.sha1(s.encode()).hexdigest()[:10]
        _names[h] = s
        arr._key = (h, any_unknown(e.values()))
    return arr._key[0]


def key_unknown(arr):
    arr_key(arr)
    return arr._key[1]


def any_unknown(polys):
    for p in polys:
        if poly_unknown(p):
            return True
    return False


_pu = {}


def poly_unknown(p):
    r = _pu.get(p)
    if r is None:
        r = '?' in p.s()
        _pu[p] = r
    return r


# --------------------------------------------------------------------------
# opaque names: registry so that substitution reaches inside
OPAQUE = {}      # name -> (fname, args) with args Arr / Poly / str
NORMS = {}       # name -> (fname, dims, entries list)


def rename_atoms(p, amap, memo=None):
    """replace atom arrays by other arrays: amap atom name -> Arr"""
    if memo is None:
        memo = {}
    if p in memo:
        return memo[p]

    def fn(f):
        tag = f[0]
        if tag in ('T', 'Tc', 'M', 'U'):
            nm = f[1]
            if nm in amap:
                v = amap[nm].at(*f[2])
                if tag == 'T':
                    return v
                if tag == 'Tc':
                    return v.conj()
                if tag == 'M':
                    return P.pabs(v)
                return v * P.power(P.pabs(v), -1)
            if nm in OPAQUE or nm in NORMS:
                n2 = rename_name(nm, amap, memo)
                if n2 != nm:
                    return P.atom(n2, *f[2]) if tag == 'T' else P.factor_raw((tag, n2, f[2]))
            return None
        if tag in ('fn', 'fnc'):
            args = []
            ch = False
            for a in f[2]:
                if isinstance(a, str) and (a in OPAQUE or a in NORMS):
                    b = rename_name(a, amap, memo)
                    ch = ch or b != a
                    args.append(b)
                else:
                    args.append(a)
            fn2 = f[1]
            if fn2 in OPAQUE or fn2 in NORMS:
                fn2 = rename_name(fn2, amap, memo)
                ch = ch or fn2 != f[1]
            if ch:
                return P.factor_raw((tag, fn2, tuple(args)))
        return None
    r = p.map_factors(fn)
    memo[p] = r
    return r


def rename_name(nm, amap, memo):
    k = ('name', nm)
    if k in memo:
        return memo[k]
    memo[k] = nm
    if nm in NORMS:
        fname, ent, mk = NORMS[nm]
        r = mk(fname, {l: rename_atoms(q, amap, memo) for l, q in ent.items()})
    else:
        fname, args, mk = OPAQUE[nm]
        new = []
        for a in args:
            if isinstance(a, Arr):
                new.append(Arr(a.dims, (lambda a: lambda *ix: rename_atoms(a.at(*ix), amap, memo))(a), a.dtype, a.kind))
            elif isinstance(a, Poly):
                new.append(rename_atoms(a, amap, memo))
            else:
                new.append(a)
        r = mk(fname, *new)
        if nm in P.ATTR:
            P.declare(r, **P.ATTR[nm])
    memo[k] = r
    return r
