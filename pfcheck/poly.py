"""Index-notation normal forms.

Every numeric value the analyser tracks is described by its *entry
expression*: a polynomial (sum of monomials) over commuting scalar factors,
with explicit index variables, bound summation variables, Kronecker deltas and
0/1 indicator factors.  Matrix products, diagonal scaling, gathers, scatters,
sparse-triplet constructors and element-wise code all map to the same normal
form, so two pieces of code that compute the same multilinear function obtain
the same polynomial however they are written.

Nothing here evaluates anything numerically.
"""
from fractions import Fraction
from itertools import permutations, count

_gensym = count()


def fresh(prefix='@v'):
    return '%s%d' % (prefix, next(_gensym))


class TooBig(Exception):
    pass


LIMIT = 4000     # monomials per polynomial

# --------------------------------------------------------------------------
# attributes of atoms, and index domains
ATTR = {}        # atom name -> dict(real=bool, polar=bool, int=bool)
DIMS = {}        # dim key -> Dim


def declare(name, **kw):
    ATTR.setdefault(name, {}).update(kw)


class Dim(object):
    """One axis.  Atomic dims have a symbolic size; composite dims are the
    concatenation of parts.  `sel` = (idxname, maskfn, parent) marks the axis of
    an index array find(mask) over the parent axis."""
    __slots__ = ('size', 'parts', 'sel', 'key', 'label')

    def __init__(self, size=None, parts=None, sel=None, label=None):
        if parts:
            flat = []
            for p in parts:
                if p.parts:
                    flat.extend(p.parts)
                else:
                    flat.append(p)
            parts = tuple(p for p in flat if not p.size == ZERO)
            if len(parts) == 1:
                size, sel, label = parts[0].size, parts[0].sel, parts[0].label
                parts = None
            elif len(parts) == 0:
                size, parts = ZERO, None
        self.parts = tuple(parts) if parts else None
        self.sel = sel
        if self.parts:
            s = ZERO
            for p in self.parts:
                s = s + p.size
            self.size = s
            self.key = '(' + '|'.join(p.key for p in self.parts) + ')'
        else:
            self.size = size
            self.key = str(size) if sel is None else 'sel:' + sel[0]
        self.label = label or self.key
        if self.key not in DIMS:
            DIMS[self.key] = self

    def const(self):
        return self.size.const_int()

    def __eq__(self, o):
        return isinstance(o, Dim) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return 'Dim(%s)' % self.key


class BIdx(object):
    """Index into a composite dim: block number plus index in that block."""
    __slots__ = ('dim', 'k', 'ix')

    def __init__(self, dim, k, ix):
        self.dim, self.k, self.ix = dim, k, ix

    def flat(self):
        off = ZERO
        for p in self.dim.parts[:self.k]:
            off = off + p.size
        return off + self.ix


def flat(ix):
    return ix.flat() if isinstance(ix, BIdx) else ix


# --------------------------------------------------------------------------
class Poly(object):
    __slots__ = ('t', '_s', '_h', '_fv')

    def __init__(self, terms=None):
        self.t = terms or {}
        self._s = None
        self._h = None
        self._fv = None

    # -- identity
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def s(self):
        if self._s is None:
            if not self.t:
                self._s = '0'
            else:
                self._s = ' + '.join(sorted(mono_str(m, c) for m, c in self.t.items()))
        return self._s

    __str__ = s
    __repr__ = s

    def fv(self):
        """free index variables and everything name-like occurring."""
        if self._fv is None:
            v = set()
            for (b, fs) in self.t:
                w = set()
                for f, _ in fs:
                    w |= ffv(f)
                v |= w - set(x[0] for x in b)
            self._fv = frozenset(v)
        return self._fv

    # -- constants
    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and EMPTY in self.t:
            return self.t[EMPTY]
        return None

    def const_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    # -- arithmetic
    def __add__(self, o):
        o = aspoly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig()
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-aspoly(o))

    def __rsub__(self, o):
        return aspoly(o) - self

    def scale(self, c):
        c = Fraction(c)
        if c == 0:
            return ZERO
        return Poly({m: k * c for m, k in self.t.items()})

    def __mul__(self, o):
        o = aspoly(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        if len(self.t) * len(o.t) > 4 * LIMIT:
            raise TooBig()
        acc = {}
        for (b1, f1), c1 in self.t.items():
            for (b2, f2), c2 in o.t.items():
                if b1 and b2:
                    bb1, ff1 = rename_fresh(b1, f1)
                else:
                    bb1, ff1 = b1, f1
                fd = {}
                for f, e in ff1:
                    fd[f] = e
                for f, e in f2:
                    fd[f] = fd.get(f, 0) + e
                p = build(c1 * c2, fd, dict(tuple(bb1) + tuple(b2)))
                addto(acc, p)
        return Poly(acc)

    __rmul__ = __mul__

    def single(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return m, c
        return None

    def __truediv__(self, o):
        return self * power(aspoly(o), -1)

    def conj(self):
        acc = {}
        for (b, fs), c in self.t.items():
            fd = {}
            for f, e in fs:
                g, ge, sg = fconj(f, e)
                c = c * sg
                fd[g] = fd.get(g, 0) + ge
            addto(acc, build(c, fd, dict(b)))
        return Poly(acc)

    def real(self):
        return (self + self.conj()).scale(Fraction(1, 2))

    def imag(self):
        return ((self - self.conj()) * J).scale(Fraction(-1, 2))

    def is_real(self):
        return self.conj() == self

    def subst(self, m):
        """m: index variable name -> Poly"""
        keys = set(m)
        if not (keys & self.fv()):
            return self
        acc = {}
        for (b, fs), c in self.t.items():
            addto(acc, subst_mono(b, fs, c, m, keys))
        return Poly(acc)

    def map_factors(self, fn):
        """Rebuild, replacing every factor f by fn(f) (a Poly or None=keep);
        recursion into sub-polynomials happens first."""
        acc = {}
        for (b, fs), c in self.t.items():
            if b:
                b, fs = rename_fresh(b, fs)
            fd = {}
            extra = ONE
            for f, e in fs:
                g = fmap(f, fn)
                r = fn(g)
                if r is None:
                    if isinstance(g, Poly):
                        extra = extra * power(g, e)
                    else:
                        fd[g] = fd.get(g, 0) + e
                else:
                    extra = extra * power(r, e)
            if extra is ONE:
                addto(acc, build(c, fd, dict(b)))
            else:
                base = build(c, fd, {}) * extra
                for v, d in b:
                    base = sum_over(v, DIMS[d], base)
                addto(acc, base)
        return Poly(acc)

    def factors(self):
        """all factors anywhere inside"""
        for (b, fs), c in self.t.items():
            for f, e in fs:
                yield f
                for g in fsub(f):
                    for x in g.factors():
                        yield x


EMPTY = ((), ())
ZERO = Poly()
ONE = Poly({EMPTY: Fraction(1)})


def const(c):
    c = Fraction(c) if not isinstance(c, float) else Fraction(repr(c))
    return Poly({EMPTY: c}) if c else ZERO


def aspoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, BIdx):
        return x.flat()
    return const(x)


def factor(f, e=1):
    return build(Fraction(1), {f: e}, {})


def ixvar(name):
    return factor(('ix', name))


def addto(acc, p):
    for m, c in p.t.items():
        n = acc.get(m, 0) + c
        if n:
            acc[m] = n
        else:
            acc.pop(m, None)
    if len(acc) > LIMIT:
        raise TooBig()


# --------------------------------------------------------------------------
# factors
def fsub(f):
    tag = f[0]
    if tag in ('T', 'Tc', 'M', 'U'):
        return f[2]
    if tag in ('exp', 'ne', 'gt', 'eq', 'abs', 'pow'):
        return (f[1],)
    if tag in ('fn', 'fnc'):
        return tuple(a for a in f[2] if isinstance(a, Poly))
    return ()


def frebuild(f, subs):
    """f with sub-polynomials replaced; returns Poly"""
    tag = f[0]
    if tag in ('T', 'Tc', 'M', 'U'):
        return atom_factor(tag, f[1], tuple(subs))
    if tag == 'exp':
        return exp(subs[0])
    if tag == 'ne':
        return ne(subs[0])
    if tag == 'gt':
        return gt(subs[0])
    if tag == 'eq':
        return eq(subs[0])
    if tag == 'abs':
        return pabs(subs[0])
    if tag == 'pow':
        return power(subs[0], 1)
    if tag in ('fn', 'fnc'):
        it = iter(subs)
        args = tuple(next(it) if isinstance(a, Poly) else a for a in f[2])
        return factor((tag, f[1], args))
    raise AssertionError(f)


_ffv = {}


def ffv(f):
    r = _ffv.get(f)
    if r is None:
        if f[0] == 'ix':
            r = frozenset([f[1]])
        else:
            r = frozenset()
            for p in fsub(f):
                r |= p.fv()
            if f[0] in ('fn', 'fnc'):
                for a in f[2]:
                    if not isinstance(a, Poly):
                        r |= getattr(a, 'fv', lambda: frozenset())()
        _ffv[f] = r
    return r


_fstr = {}


def fstr(f):
    r = _fstr.get(f)
    if r is None:
        tag = f[0]
        if tag == 'J':
            r = 'j'
        elif tag == 'pi':
            r = 'pi'
        elif tag == 'ix':
            r = f[1]
        elif tag in ('T', 'Tc', 'M', 'U'):
            pre = {'T': '', 'Tc': 'conj ', 'M': 'mag ', 'U': 'unit '}[tag]
            r = '%s%s[%s]' % (pre, f[1], ','.join(p.s() for p in f[2]))
        elif tag in ('exp', 'abs', 'pow'):
            r = '%s(%s)' % (tag, f[1].s())
        elif tag == 'ne':
            r = '[%s!=0]' % f[1].s()
        elif tag == 'gt':
            r = '[%s>0]' % f[1].s()
        elif tag == 'eq':
            r = 'delta(%s)' % f[1].s()
        else:
            r = '%s%s(%s)' % ('conj ' if tag == 'fnc' else '', f[1], ','.join(str(a) for a in f[2]))
        _fstr[f] = r
    return r


def mono_str(m, c):
    b, fs = m
    s = '*'.join(fstr(f) + ('' if e == 1 else '^%s' % e) for f, e in fs)
    if b:
        s = 'sum{%s}(%s)' % (','.join('%s<%s' % x for x in b), s)
    if c == 1 and s:
        return s
    return '%s%s%s' % (c, '*' if s else '', s)


def is_real_factor(f):
    tag = f[0]
    if tag in ('pi', 'ix', 'ne', 'gt', 'eq', 'abs', 'M', 'fn'):
        if tag == 'fn':
            return f[1] not in COMPLEX_FN
        return True
    if tag == 'T':
        return ATTR.get(f[1], {}).get('real', True)
    return False


COMPLEX_FN = set()


def fconj(f, e):
    """-> factor, exponent, sign"""
    tag = f[0]
    if tag == 'J':
        return f, e, (-1 if e % 2 else 1)
    if is_real_factor(f):
        return f, e, 1
    if tag == 'U':
        return f, -e, 1
    if tag == 'T':
        return ('Tc',) + f[1:], e, 1
    if tag == 'Tc':
        return ('T',) + f[1:], e, 1
    if tag == 'exp':
        return ('exp', f[1].conj()), e, 1
    if tag == 'pow':
        return ('pow', f[1].conj()), e, 1
    if tag == 'fn':
        return ('fnc',) + f[1:], e, 1
    if tag == 'fnc':
        return ('fn',) + f[1:], e, 1
    raise AssertionError(f)


def fmap(f, fn):
    subs = fsub(f)
    if not subs:
        return f
    new = tuple(p.map_factors(fn) for p in subs)
    if new == subs:
        return f
    return unwrap(frebuild(f, new))


def unwrap(p):
    """Poly that is exactly one factor^1 -> the factor, else the Poly"""
    s = p.single()
    if s and s[1] == 1 and not s[0][0] and len(s[0][1]) == 1 and s[0][1][0][1] == 1:
        return s[0][1][0][0]
    return p


# --------------------------------------------------------------------------
def rename_fresh(b, fs):
    m = {v: ixvar_raw(fresh()) for v, _ in b}
    keys = set(m)
    nb = tuple((m[v].single()[0][1][0][0][1], d) for v, d in b)
    nf = []
    for f, e in fs:
        g = fren(f, m, keys)
        nf.append((g, e))
    return nb, tuple(nf)


def ixvar_raw(name):
    return Poly({((), ((('ix', name), 1),)): Fraction(1)})


def fren(f, m, keys):
    """rename index variables (var -> var only) inside a factor"""
    if not (keys & ffv(f)):
        return f
    if f[0] == 'ix':
        return m[f[1]].single()[0][1][0][0]
    subs = tuple(pren(p, m, keys) for p in fsub(f))
    tag = f[0]
    if tag in ('T', 'Tc', 'M', 'U'):
        return (tag, f[1], subs)
    if tag in ('fn', 'fnc'):
        it = iter(subs)
        return (tag, f[1], tuple(next(it) if isinstance(a, Poly) else a for a in f[2]))
    return (tag, subs[0])


def pren(p, m, keys):
    if not (keys & p.fv()):
        return p
    t = {}
    for (b, fs), c in p.t.items():
        nf = tuple(sorted(((fren(f, m, keys), e) for f, e in fs), key=_fkey))
        k = (b, nf)
        t[k] = t.get(k, 0) + c
    return Poly({k: c for k, c in t.items() if c})


def _fkey(x):
    return fstr(x[0]) + '^' + str(x[1])


def subst_mono(b, fs, c, m, keys):
    if b:
        b, fs = rename_fresh(b, fs)
    fd = {}
    extra = None
    for f, e in fs:
        if keys & ffv(f):
            if f[0] == 'ix':
                r = m[f[1]]
            else:
                r = frebuild(f, tuple(p.subst(m) for p in fsub(f)))
            u = unwrap(r)
            if isinstance(u, tuple):
                fd[u] = fd.get(u, 0) + e
            else:
                r = power(r, e)
                extra = r if extra is None else extra * r
        else:
            fd[f] = fd.get(f, 0) + e
    if extra is None:
        return build(c, fd, dict(b))
    base = build(c, fd, {}) * extra
    for v, d in b:
        base = sum_over(v, DIMS[d], base)
    return base


# --------------------------------------------------------------------------
def linear_in(p, v):
    """p = a*v + rest with a constant, rest free of v -> (a, rest)"""
    if v not in p.fv():
        return None
    key = ((), ((('ix', v), 1),))
    a = p.t.get(key)
    if a is None:
        return None
    rest = Poly({m: c for m, c in p.t.items() if m != key})
    if v in rest.fv():
        return None
    return a, rest


def build(c, fd, bound):
    """Normalise one monomial c * prod fd, summed over `bound`
    (var -> dimkey).  Returns Poly."""
    c = Fraction(c)
    if c == 0:
        return ZERO
    if bound:
        for v in bound:
            if v[0] == '_':
                # open the scope under fresh names: canonical names are only
                # ever used for closed sums (no capture)
                nb, nf = rename_fresh(tuple(bound.items()), tuple(fd.items()))
                bound = dict(nb)
                fd = {}
                for f, e in nf:
                    fd[f] = fd.get(f, 0) + e
                break
    fd = {f: e for f, e in fd.items() if e != 0}
    # J
    e = fd.get(('J',))
    if e is not None:
        e = e % 4
        if e >= 2:
            c = -c
        if e % 2:
            fd[('J',)] = 1
        else:
            del fd[('J',)]
    # indicators idempotent; exp merge; abs^2
    exps = None
    for f in list(fd):
        tag = f[0]
        if tag in ('ne', 'gt', 'eq'):
            if fd[f] != 1:
                if fd[f] > 0:
                    fd[f] = 1
                else:
                    fd[f] = 1      # 1/indicator: only met where it is 1
        elif tag == 'exp' and (fd[f] != 1 or exps is not None):
            pass
    ex = [f for f in fd if f[0] == 'exp']
    if len(ex) > 1 or (ex and fd[ex[0]] != 1):
        s = ZERO
        for f in ex:
            s = s + f[1].scale(fd.pop(f))
        return build(c, fd, {}) * exp(s) if not bound else resum(build(c, fd, {}) * exp(s), bound)
    for f in list(fd):
        if f[0] == 'abs' and (fd[f] >= 2 or fd[f] <= -2) and not isinstance(fd[f], Fraction):
            k = abs(fd[f]) // 2 * (1 if fd[f] > 0 else -1)
            e = fd.pop(f) - 2 * k
            if e:
                fd[f] = e
            sq = power(f[1] * f[1].conj(), k)
            return resum(build(c, fd, {}) * sq, bound)
        if f[0] == 'pow' and _isint(fd[f]) and fd[f] > 0:
            e = fd.pop(f)
            return resum(build(c, fd, {}) * power(f[1], int(e)), bound)
        if f[0] == 'eq':
            k = f[1].const()
            if k is not None:
                if k != 0:
                    return ZERO
                fd.pop(f)
    # ne(p) with p's own factor present, gt absorbs ne
    nes = [f for f in fd if f[0] == 'ne']
    for f in nes:
        s = f[1].single()
        if s and not s[0][0] and len(s[0][1]) == 1 and fd.get(s[0][1][0][0], 0) > 0:
            fd.pop(f, None)
        elif ('gt', f[1]) in fd:
            fd.pop(f, None)
    nes = [f for f in fd if f[0] == 'ne']
    if len(nes) > 1:
        for i in range(len(nes)):
            for k in range(i):
                d = (nes[i][1] - nes[k][1]).const()
                if d is not None and d != 0:
                    fi, fk = nes[i], nes[k]
                    fd.pop(fi)
                    fd.pop(fk)
                    return resum(build(c, fd, {}) *
                                 (factor_raw(fi) + factor_raw(fk) - ONE), bound)
    # delta elimination
    eqs = [f for f in fd if f[0] == 'eq']
    if eqs:
        for f in sorted(eqs, key=fstr):
            cand = sorted(v for v in f[1].fv() if v in bound)
            for v in cand:
                lin = linear_in(f[1], v)
                if lin is None or DIMS[bound[v]].sel and False:
                    continue
                a, rest = lin
                if abs(a) != 1:
                    continue
                val = rest.scale(Fraction(-1, 1) / a)
                fd.pop(f)
                bound = dict(bound)
                bound.pop(v)
                r = ONE_OF(c)
                return subst_fd(c, fd, bound, {v: val})
        for f in sorted(eqs, key=fstr):
            cand = sorted(v for v in f[1].fv() if v not in bound)
            done = False
            for v in reversed(cand):
                lin = linear_in(f[1], v)
                if lin is None or abs(lin[0]) != 1:
                    continue
                others = [g for g in fd if g != f and v in ffv(g)]
                if not others:
                    done = True
                    break
                val = lin[1].scale(Fraction(-1, 1) / lin[0])
                fd.pop(f)
                rest = subst_fd(c, fd, {}, {v: val})
                return resum(mul_raw(rest, f), bound)
            if done:
                continue
            if not any(linear_in(f[1], v) for v in f[1].fv()):
                # no top-level index variable: generic equality of values
                fd.pop(f)
                return resum(build(c, fd, {}) * (ONE - ne(f[1])), bound)
    # bound variables
    if bound:
        for v in sorted(bound):
            used = [f for f in fd if v in ffv(f)]
            dim = DIMS[bound[v]]
            if not used:
                b2 = dict(bound)
                b2.pop(v)
                return resum(build(c, fd, {}) * dim.size, b2)
            if dim.sel is not None:
                name, mask, parent = dim.sel
                w = fresh()
                new = replace_sel(fd, name, v, w)
                if new is not None:
                    b2 = dict(bound)
                    b2.pop(v)
                    b2[w] = parent.key
                    body = new(c)
                    body = body * mask(ixvar_raw(w))
                    return resum(body, b2)
        bound, fd = canon_bound(bound, fd)
    items = tuple(sorted(fd.items(), key=_fkey))
    return Poly({(tuple(sorted(bound.items())), items): c})


def ONE_OF(c):
    return c


def _isint(e):
    return not isinstance(e, Fraction) or e.denominator == 1


def factor_raw(f):
    return Poly({((), ((f, 1),)): Fraction(1)})


def mul_raw(p, f):
    """p * f without re-triggering elimination on f (f's variable is gone)"""
    acc = {}
    for (b, fs), c in p.t.items():
        fd = dict(fs)
        if f in fd:
            addto(acc, Poly({(b, fs): c}))
            continue
        if b:
            b, fs = rename_fresh(b, fs)
            fd = dict(fs)
        fd[f] = 1
        addto(acc, build(c, fd, dict(b)))
    return Poly(acc)


def resum(p, bound):
    if not bound:
        return p
    acc = {}
    for (b, fs), c in p.t.items():
        if b:
            b, fs = rename_fresh(b, fs)
        bd = dict(b)
        bd.update(bound)
        addto(acc, build(c, dict(fs), bd))
    return Poly(acc)


def subst_fd(c, fd, bound, m):
    keys = set(m)
    nd = {}
    extra = None
    for f, e in fd.items():
        if keys & ffv(f):
            r = m[f[1]] if f[0] == 'ix' else frebuild(f, tuple(p.subst(m) for p in fsub(f)))
            u = unwrap(r)
            if isinstance(u, tuple):
                nd[u] = nd.get(u, 0) + e
            else:
                r = power(r, e)
                extra = r if extra is None else extra * r
        else:
            nd[f] = nd.get(f, 0) + e
    if extra is None:
        return build(c, nd, bound)
    return resum(build(c, nd, {}) * extra, bound)


def replace_sel(fd, name, v, w):
    """replace T(name,(v,)) by index variable w everywhere; None if v is used
    in any other way.  Returns builder(c) -> Poly"""
    target = ('T', name, (ixvar_raw(v),))
    wp = ixvar_raw(w)

    def fn(f):
        if f == target:
            return wp
        return None
    out = {}
    extra = ONE
    for f, e in fd.items():
        if v in ffv(f):
            if f == target:
                extra = extra * power(wp, e)
                continue
            g = fmap(f, fn)
            gp = g if isinstance(g, Poly) else None
            if v in (gp.fv() if gp is not None else ffv(g)):
                return None
            if gp is not None:
                extra = extra * power(gp, e)
            else:
                out[g] = out.get(g, 0) + e
        else:
            out[f] = out.get(f, 0) + e
    return lambda c: build(c, out, {}) * extra


def _height(f):
    """max bound-variable height used inside the factor"""
    h = -1
    for p in fsub(f):
        for (b, fs) in p.t:
            for v, _ in b:
                if v.startswith('_'):
                    h = max(h, int(v.split('_')[1]))
            for g, _ in fs:
                h = max(h, _height(g))
    return h


def canon_bound(bound, fd):
    h = 0
    for f in fd:
        h = max(h, _height(f) + 1)
    vs = sorted(bound)
    n = len(vs)
    if n > 7:
        raise TooBig()
    # signatures
    sig = {}
    for v in vs:
        m = {u: ixvar_raw('_?') for u in vs if u != v}
        m[v] = ixvar_raw('_!')
        keys = set(vs)
        sig[v] = bound[v] + ';' + ';'.join(sorted(fstr(fren(f, m, keys)) + '^' + str(e) for f, e in fd.items() if v in ffv(f)))
    order = sorted(vs, key=lambda v: sig[v])
    groups = []
    for v in order:
        if groups and sig[groups[-1][0]] == sig[v]:
            groups[-1].append(v)
        else:
            groups.append([v])

    def orders(gs):
        if not gs:
            yield []
            return
        for p in permutations(gs[0]):
            for rest in orders(gs[1:]):
                yield list(p) + rest
    best = None
    npos = 1
    for g in groups:
        for i in range(2, len(g) + 1):
            npos *= i
    if npos > 720:
        raise TooBig()
    for o in orders(groups):
        m = {v: ixvar_raw('_%d_%d' % (h, i)) for i, v in enumerate(o)}
        keys = set(m)
        nf = {}
        for f, e in fd.items():
            g = fren(f, m, keys)
            nf[g] = nf.get(g, 0) + e
        if npos == 1:
            best = (None, o, nf)
            break
        k = '*'.join(sorted(_fkey(x) for x in nf.items()))
        if best is None or k < best[0]:
            best = (k, o, nf)
    _, o, nf = best
    return {'_%d_%d' % (h, i): bound[v] for i, v in enumerate(o)}, nf


def sum_over(v, dim, p):
    """sum over index variable v ranging over atomic dim"""
    if v not in p.fv():
        return p * dim.size
    acc = {}
    for (b, fs), c in p.t.items():
        if b:
            b, fs = rename_fresh(b, fs)
        bd = dict(b)
        bd[v] = dim.key
        addto(acc, build(c, dict(fs), bd))
    return Poly(acc)


# --------------------------------------------------------------------------
J = Poly({((), ((('J',), 1),)): Fraction(1)})
PI = Poly({((), ((('pi',), 1),)): Fraction(1)})


def atom_factor(tag, name, idxs):
    # find(mask) inverse simplifications: T(sel, inv(sel, e)) = e
    if tag == 'T' and len(idxs) == 1:
        s = unwrap(idxs[0])
        if isinstance(s, tuple) and s[0] == 'fn' and s[1] == 'inv' and s[2][0] == name:
            return s[2][1]
    return factor_raw((tag, name, idxs))


def atom(name, *idxs):
    idxs = tuple(aspoly(i) for i in idxs)
    a = ATTR.get(name, {})
    if a.get('polar'):
        return factor_raw(('M', name, idxs)) * factor_raw(('U', name, idxs))
    bc = a.get('boolcols')
    if bc is not None and (bc == 'all' or (idxs and idxs[-1].const_int() in bc)):
        # a 0/1 flag is its own indicator
        return factor_raw(('ne', factor_raw(('T', name, idxs))))
    return atom_factor('T', name, idxs)


def nonneg_factor(f):
    if f[0] in ('abs', 'M', 'ne', 'gt', 'pi', 'eq'):
        return True
    if f[0] == 'T':
        a = ATTR.get(f[1], {})
        return bool(a.get('nonneg') or a.get('pos'))
    return False


def pos_factor(f):
    if f[0] == 'pi':
        return True
    return f[0] == 'T' and bool(ATTR.get(f[1], {}).get('pos'))


def fn(name, *args, **kw):
    if kw.get('cplx'):
        COMPLEX_FN.add(name)
    return factor_raw(('fn', name, tuple(args)))


LETS = {}           # name -> definition
_LETN = {}


def let(p):
    """an atom standing for the (real, closed) formula p"""
    k = p.const()
    if k is not None:
        return p
    nm = _LETN.get(p)
    if nm is None:
        nm = _LETN[p] = '=q%d' % len(_LETN)
        LETS[nm] = p
        declare(nm, real=True)
    return atom(nm)


def let_bool(p):
    if p.const() is not None or p.fv():
        return p
    nm = _LETN.get(p)
    if nm is None:
        nm = _LETN[p] = '=q%d' % len(_LETN)
        LETS[nm] = p
        declare(nm, boolcols='all', real=True)
    return ne(atom(nm))


def exp(p):
    if p == ZERO:
        return ONE
    # exp(j*angle(z)) -> unit
    s = p.single()
    if s:
        (b, fs), c = s
        if not b and len(fs) == 2:
            d = dict(fs)
            if d.get(('J',)) == 1:
                o = [f for f in d if f != ('J',)][0]
                if o[0] == 'fn' and o[1] == 'angle' and d[o] == 1 and c in (1, -1):
                    z = o[2][0]
                    u = z * power(pabs(z), -1)
                    return u if c == 1 else u.conj()
    return shannon(p, lambda q: ONE if q == ZERO else factor_raw(('exp', q)))


def indicators(p):
    out = []
    for (b, fs) in p.t:
        for f, e in fs:
            if f[0] == 'ne' or f[0] == 'gt':
                if f not in out and not b:
                    out.append(f)
    return out


def assume(p, f, val):
    """p under the assumption that indicator f has the value val"""
    if val:
        acc = {}
        for (b, fs), c in p.t.items():
            fd = dict(fs)
            fd.pop(f, None)
            if f[0] == 'gt':
                fd.pop(('ne', f[1]), None)
            if b and f in dict(fs):
                bb, fs2 = rename_fresh(b, tuple(fd.items()))
                addto(acc, build(c, dict(fs2), dict(bb)))
            else:
                addto(acc, build(c, fd, dict(b)))
        return Poly(acc)
    acc = {}
    zf = None
    if f[0] == 'ne':
        s = f[1].single()
        if s and not s[0][0] and len(s[0][1]) == 1:
            zf = s[0][1][0][0]
    for (b, fs), c in p.t.items():
        d = dict(fs)
        if f in d:
            continue
        if f[0] == 'ne' and ('gt', f[1]) in d:
            continue
        if zf is not None and d.get(zf, 0) > 0:
            continue
        acc[(b, fs)] = acc.get((b, fs), 0) + c
    return Poly(acc)


def shannon(p, g, depth=0):
    """apply the scalar function g to p piecewise over its indicators"""
    ind = indicators(p)
    if not ind or depth > 6:
        return g(p)
    f = sorted(ind, key=fstr)[0]
    i = factor_raw(f)
    a = shannon(assume(p, f, True), g, depth + 1)
    b = shannon(assume(p, f, False), g, depth + 1)
    if a == b:
        return a
    return i * a + (ONE - i) * b


def _factor_neg(p):
    """canonical sign: leading (sorted) coefficient positive -> (sign, p)"""
    if not p.t:
        return 1, p
    k = min(p.t, key=lambda m: mono_str(m, 1))
    if p.t[k] < 0:
        return -1, -p
    return 1, p


def power(p, e):
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if _isint(e) and e > 0:
        e = int(e)
        r = ONE
        for _ in range(e):
            r = r * p
        return r
    return shannon(p, lambda q: _power1(q, e))


def _power1(p, e):
    s = p.single()
    if s is None:
        if not p.t:
            return ZERO if e > 0 else factor_raw(('fn', 'powzero', (str(e),)))
        # pull out a common leading coefficient
        k = min(p.t, key=lambda m: mono_str(m, 1))
        lead = p.t[k]
        if _isint(e):
            q = p.scale(1 / lead)
            return factor_pow(q, e).scale(lead ** int(e))
        q = p.scale(1 / abs(lead))
        r = _cpow(abs(lead), e)
        return r * factor_pow(q, e)
    (b, fs), c = s
    if b:
        if _isint(e):
            return factor_pow(Poly({(b, fs): Fraction(1)}), e).scale(c ** int(e))
        return factor_pow(p, e)
    if _isint(e):
        return build(c ** int(e), {f: k * e for f, k in fs}, {})
    if c < 0:
        return factor_pow(p, e)
    r = _cpow(c, e)
    fd = {}
    for f, k in fs:
        ke = k * e
        if ke.denominator == 1:
            ke = int(ke)
            if k % 2 == 0 and ke % 2 == 1 and f[0] not in ('M', 'abs'):
                r = r * power(pabs(factor_raw(f)), ke)
                continue
        fd[f] = ke
    return r * build(1, fd, {})


def _cpow(c, e):
    if c == 1:
        return ONE
    return Poly({((), ((('fn', 'cpow', (str(c),)), e),)): Fraction(1)}) if True else None


def factor_pow(p, e):
    return Poly({((), ((('pow', p), e),)): Fraction(1)})


def pabs(p):
    def g(q):
        if not q.t:
            return ZERO
        s = q.single()
        if s is None:
            _, q2 = _factor_neg(q)
            k = min(q2.t, key=lambda m: mono_str(m, 1))
            lead = q2.t[k]
            return Poly({((), ((('abs', q2.scale(1 / lead)), 1),)): abs(lead)})
        (b, fs), c = s
        if b:
            return Poly({((), ((('abs', Poly({(b, fs): Fraction(1)})), 1),)): abs(c)})
        r = const(abs(c))
        for f, e in fs:
            tag = f[0]
            if tag in ('J', 'U'):
                continue
            if tag in ('M', 'pi', 'ne', 'gt', 'eq', 'abs'):
                r = r * Poly({((), ((f, e),)): Fraction(1)})
            elif tag == 'exp':
                re = f[1].real()
                if re == ZERO:
                    continue
                r = r * exp(re.scale(e))
            else:
                if tag == 'Tc':
                    f = ('T',) + f[1:]
                if tag == 'fnc':
                    f = ('fn',) + f[1:]
                r = r * Poly({((), ((('abs', factor_raw(f)), e),)): Fraction(1)}) \
                    if tag != 'pow' else \
                    r * Poly({((), ((('abs', f[1]), e),)): Fraction(1)})
        return r
    return shannon(p, g)


def angle(p):
    return shannon(p, lambda q: ZERO if not q.t else factor_raw(('fn', 'angle', (q,))))


# -- case assumptions: polynomials assumed positive in the case under analysis
ASSUME = []


class assuming(object):
    """with P.assuming([p, ...]): analyse the case p > 0, ..."""

    def __init__(self, ps):
        self.ps = list(ps)

    def __enter__(self):
        ASSUME.extend(self.ps)

    def __exit__(self, *a):
        del ASSUME[len(ASSUME) - len(self.ps):]


def _assumed(q):
    """sign of q under the assumptions: 1, -1 or None"""
    for a in ASSUME:
        for sg in (1, -1):
            x = q if sg > 0 else -q
            # largest multiple of a contained in x, remainder must be non-negative
            rs = [x.t[m] / a.t[m] for m in a.t if m in x.t]
            if len(rs) != len(a.t):
                continue
            c = min(r.real if isinstance(r, complex) else r for r in rs) if rs else 0
            if c <= 0:
                continue
            rem = x - a.scale(c)
            if all(not m[0] and all(nonneg_factor(f) for f, e in m[1]) and k > 0 for m, k in rem.t.items()):
                return sg
    return None


# -- indicators
def _scale_pos(p):
    k = min(p.t, key=lambda m: mono_str(m, 1))
    return p.scale(1 / abs(p.t[k]))


def ne(p):
    c = p.const()
    if c is not None:
        return ONE if c else ZERO

    def g(q):
        c = q.const()
        if c is not None:
            return ONE if c else ZERO
        if ASSUME and _assumed(q) or rounding(q):
            return ONE
        q = _scale_pos(q)
        _, q = _factor_neg(q)
        # single monomial: product of atoms, all must be non-zero
        s = q.single()
        if s and not s[0][0]:
            r = ONE
            for f, e in s[0][1]:
                if f[0] in ('J', 'pi', 'exp', 'U') or pos_factor(f):
                    continue
                if f[0] in ('ne', 'gt', 'eq'):
                    r = r * factor_raw(f)
                elif f[0] == 'abs':
                    r = r * ne(f[1])
                else:
                    r = r * factor_raw(('ne', factor_raw(f)))
            return r
        return factor_raw(('ne', q))
    return shannon(p, g)


EPS_MONO = ((), ((('T', 'eps', ()), 1),))


def rounding(q):
    """sign of a constant plus a multiple of the rounding unit, else 0"""
    if len(q.t) > 2 or EPS_MONO not in q.t:
        return 0
    e, c = q.t[EPS_MONO], q.t.get(EMPTY, 0)
    if len(q.t) == 2 and not c or abs(e) > 10 ** 9 * abs(c) > 0:
        return 0
    return 1 if (c or e) > 0 else -1


def gt(p):
    """[p > 0]"""
    c = p.const()
    if c is not None:
        return ONE if c > 0 else ZERO

    def g(q):
        c = q.const()
        if c is not None:
            return ONE if c > 0 else ZERO
        c = rounding(q)
        if c:
            return ONE if c > 0 else ZERO
        if ASSUME:
            a = _assumed(q)
            if a:
                return ONE if a > 0 else ZERO
        q = _scale_pos(q)
        s = q.single()
        sign, q2 = _factor_neg(q)
        if s and not s[0][0] and all(nonneg_factor(f) for f, e in s[0][1]):
            return ne(q) if sign > 0 else ZERO
        if all(not m[0] and all(pos_factor(f) for f, e in m[1]) and (c > 0) == (sign > 0)
               for m, c in q.t.items()):
            return ONE if sign > 0 else ZERO
        if sign < 0:
            return factor_raw(('ne', q2)) - factor_raw(('gt', q2)) if q2.single() is None \
                else ne(q2) - factor_raw(('gt', q2))
        return factor_raw(('gt', q2))
    return shannon(p, g)


def eq(p):
    """Kronecker delta / equality indicator [p == 0]"""
    c = p.const()
    if c is not None:
        return ZERO if c else ONE
    if any(linear_in(p, v) for v in p.fv()):
        _, q = _factor_neg(p)
        return build(1, {('eq', q): 1}, {})
    return ONE - ne(p)


# --------------------------------------------------------------------------
# differentiation
class NotDiff(Exception):
    pass


def diff(p, dfac):
    """derivative; dfac(factor) -> Poly derivative of that atomic factor"""
    acc = ZERO
    for (b, fs), c in p.t.items():
        if b:
            b, fs = rename_fresh(b, fs)
        tot = ZERO
        for i, (f, e) in enumerate(fs):
            d = dfactor(f, dfac)
            if not d.t:
                continue
            fd = {g: x for k, (g, x) in enumerate(fs) if k != i}
            r = build(c, fd, {}) * d.scale(e)
            if e != 1:
                r = r * Poly({((), ((f, e - 1),)): Fraction(1)})
            tot = tot + r
        for v, d in b:
            tot = sum_over(v, DIMS[d], tot)
        acc = acc + tot
    return acc


def dfactor(f, dfac):
    tag = f[0]
    if tag in ('J', 'pi', 'ix', 'ne', 'gt', 'eq'):
        return ZERO
    if tag in ('T', 'Tc', 'M', 'U'):
        return dfac(f)
    if tag == 'exp':
        return diff(f[1], dfac) * factor_raw(f)
    if tag == 'pow':
        return diff(f[1], dfac)
    if tag == 'abs':
        d = diff(f[1], dfac)
        if not d.t:
            return ZERO
        z = f[1]
        return (z * d.conj() + z.conj() * d).scale(Fraction(1, 2)) * Poly({((), ((f, -1),)): Fraction(1)})
    if tag in ('fn', 'fnc'):
        for a in f[2]:
            if isinstance(a, Poly) and diff(a, dfac).t:
                raise NotDiff(fstr(f))
        return ZERO
    raise NotDiff(fstr(f))


def d_polar(name, which, k):
    """dfac for d/dangle(name_k) or d/dmag(name_k)"""
    def dfac(f):
        if f[0] in ('M', 'U') and f[1] == name:
            if which == 'a' and f[0] == 'U':
                return J * eq(f[2][0] - k) * factor_raw(f)
            if which == 'm' and f[0] == 'M':
                return eq(f[2][0] - k)
        return ZERO
    return dfac


def d_atom(name, *ks):
    def dfac(f):
        if f[0] == 'T' and f[1] == name:
            r = ONE
            for a, k in zip(f[2], ks):
                r = r * eq(a - k)
            return r
        return ZERO
    return dfac
