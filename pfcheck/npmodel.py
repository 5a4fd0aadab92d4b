"""Transfer functions for numpy / scipy.sparse / builtins on abstract arrays."""
from fractions import Fraction
from .values import *          # noqa
from .values import OPAQUE, NORMS
from .poly import *            # noqa
from . import poly as P
from . import text
from . import files

NORMDIMS = {}
ALL = ('all',)
NEW = ('new',)


def ones_like_dim(n):
    return n


def bmap(d, i):
    """adapt index i to axis d (flat <-> block)"""
    return i


def sumdim(dim, f):
    """sum of f(index) over the axis"""
    if dim.parts:
        r = ZERO
        for k, p in enumerate(dim.parts):
            r = r + sumdim(p, lambda i, k=k: f(BIdx(dim, k, i)))
        return r
    n = dim.const()
    if n is not None and n <= 40:
        r = ZERO
        for i in range(n):
            r = r + f(P.const(i))
        return r
    v = P.fresh('@s')
    return P.sum_over(v, dim, f(P.ixvar_raw(v)))


def const_vec(ks, dtype='i'):
    """concrete vector"""
    ks = list(ks)

    def fn(i):
        p = aspoly(flat(i))
        c = p.const_int()
        if c is not None:
            return P.const(ks[c]) if 0 <= c < len(ks) else ZERO
        acc = ZERO
        for k, x in enumerate(ks):
            if x:
                acc = acc + P.eq(p - P.const(k)).scale(x)
        return acc
    return Arr((cdim(len(ks)),), fn, dtype)


def mod_fold(a, b):
    x, y = a.const_int(), b.const_int()
    if x is not None and y:
        return P.const(x % y)
    return P.fn('mod', a, b)


def const_entries(a):
    """numeric entries of a rank-1 array, or None"""
    if a.rank != 1:
        return None
    n = a.dims[0].const()
    if n is None or n > 60:
        return None
    r = [a.at(P.const(i)).const() for i in range(n)]
    if any(x is None for x in r):
        return None
    return [x.real if isinstance(x, complex) and not x.imag else x for x in r]


def opaque_name(fname, *arrs):
    """closed name for fname applied to whole arrays"""
    ks = []
    unk = False
    for a in arrs:
        if isinstance(a, Arr):
            ks.append(arr_key(a))
            unk = unk or key_unknown(a)
        elif isinstance(a, Poly):
            ks.append(a.s())
            unk = unk or poly_unknown(a) or bool(a.fv())
        else:
            ks.append(str(a))
            unk = unk or '?' in str(a) or '@' in str(a)
    nm = '%s%s{%s}' % ('?' if unk else '', fname, ','.join(ks))
    if nm not in OPAQUE:
        OPAQUE[nm] = (fname, arrs, opaque_name)
    return nm


def pick_dim(x, y):
    if x.const() == 1:
        return y
    if y.const() == 1:
        return x
    if x.parts:
        return x
    if y.parts:
        return y
    return x


class NP(object):
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------------
    def from_list(self, st, items):
        """array from a python list of values"""
        n = len(items)
        if n == 0:
            return Arr((cdim(0),), lambda i: ZERO, 'f')
        arrs = []
        for x in items:
            a = self.I.arr_of(st, x)
            if a is None:
                return None
            arrs.append(a)
        r = arrs[0].rank
        if any(a.rank != r for a in arrs):
            return None
        from .interp import join_dtype
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = join_dtype(dt, a.dtype)
        d = cdim(n)

        def fn(i, *rest):
            c = aspoly(i).const_int()
            if c is not None and 0 <= c < n:
                return arrs[c].at(*rest)
            acc = ZERO
            for k in range(n):
                acc = acc + P.eq(aspoly(i) - k) * arrs[k].at(*rest)
            return acc
        return Arr((d,) + arrs[0].dims, fn, dt)

    def dim_of(self, st, v):
        """Dim for a size value"""
        if isinstance(v, Const) and isinstance(v.v, bool):
            return cdim(int(v.v))
        if isinstance(v, Const) and isinstance(v.v, int):
            return cdim(v.v)
        a = self.I.arr_of(st, v)
        if a is not None and a.rank == 0:
            p = a.p()
            return Dim(size=p)
        return None

    def dims_of(self, st, v):
        items = self.I.seq_items(v, st)
        if items is not None:
            ds = [self.dim_of(st, x) for x in items]
            return None if any(d is None for d in ds) else ds
        a = self.I.arr_of(st, v)
        if a is not None and a.rank == 1 and a.dims[0].const() is not None:
            return [Dim(size=a.at(P.const(i))) for i in range(a.dims[0].const())]
        d = self.dim_of(st, v)
        return None if d is None else [d]

    def filled(self, st, shape, p, dtype, kind='nd'):
        ds = self.dims_of(st, shape)
        if ds is None:
            return self.I.unk('shape')
        return self.I.newarr(st, Arr(ds, lambda *ix: p, dtype, kind))

    # ------------------------------------------------------------------
    # indexing
    def index(self, st, idx, node=None):
        """normalised selector tuple or None"""
        if isinstance(idx, Tup):
            out = []
            for x in idx.items:
                s = self.index1(st, x)
                if s is None:
                    return None
                out.append(s)
            return tuple(out)
        s = self.index1(st, idx)
        return None if s is None else (s,)

    def index1(self, st, x):
        if isinstance(x, SliceV):
            def g(v):
                if isinstance(v, Const) and v.v is None:
                    return None
                a = self.I.arr_of(st, v)
                if a is None or a.rank != 0:
                    return False
                return a.p()
            lo, hi, step = g(x.lo), g(x.hi), g(x.step)
            if False in (lo, hi, step):
                return None
            if step is not None and step != ONE:
                if step == -ONE and lo is None and hi is None:
                    return ('rev',)
                cs = [None if q is None else q.const_int() for q in (lo, hi, step)]
                if cs[2] and (lo is None or cs[0] is not None) and (hi is None or cs[1] is not None):
                    return ('stp',) + tuple(cs)
                return None
            if lo is None and hi is None:
                return ALL
            return ('rng', lo, hi)
        if isinstance(x, Const):
            if x.v is None:
                return NEW
            if x.v is Ellipsis:
                return ('ell',)
            if isinstance(x.v, bool):
                return None
        a = self.I.arr_of(st, x)
        if a is None:
            return None
        if a.dtype == 'b' and a.rank == 1:
            return self.find(a)
        return a

    def is_view(self, a, sel):
        if a.kind == 'sp':
            return False
        for s in sel:
            if isinstance(s, Arr) and s.rank >= 1:
                return False
        # full scalar indexing gives a scalar
        return True

    def slice_dim(self, d, lo, hi):
        """-> (newdim, map)"""
        size = d.size
        z = ZERO

        def norm(p, default):
            if p is None:
                return default
            c = p.const()
            if c is not None and c < 0:
                return size + p
            return p
        lo = norm(lo, z)
        hi = norm(hi, size)
        n = d.const()
        if n is not None and hi.const() is not None and hi.const() > n:
            hi = size
        if lo == z and hi == size:
            return d, (lambda i: i)
        if d.parts:
            offs = [ZERO]
            for p in d.parts:
                offs.append(offs[-1] + p.size)
            if lo in offs and hi in offs:
                k1 = offs.index(lo)
                k2 = len(offs) - 1 - offs[::-1].index(hi)
                if k1 == k2:
                    return cdim(0), (lambda i: i)
                nd = Dim(parts=d.parts[k1:k2])
                if nd.parts:
                    def m(i, k1=k1, d=d):
                        if isinstance(i, BIdx):
                            return BIdx(d, i.k + k1, i.ix)
                        return i + offs[k1]
                    return nd, m
                # skip zero-size parts
                kk = [k for k in range(k1, k2) if not d.parts[k].size == ZERO][0]
                return nd, (lambda i: BIdx(d, kk, i))
        nd = Dim(size=hi - lo)
        return nd, (lambda i: aspoly(i) + lo)

    def fix_sel(self, a, sel):
        sel = list(sel)
        if ('ell',) in [s for s in sel if not isinstance(s, Arr)]:
            k = [i for i, s in enumerate(sel) if not isinstance(s, Arr) and s == ('ell',)][0]
            n = a.rank - (len([s for s in sel if s is not NEW]) - 1)
            sel[k:k + 1] = [ALL] * n
        need = a.rank - len([s for s in sel if not (s is NEW)])
        if need < 0:
            return None
        sel += [ALL] * need
        ax = 0
        for k, s in enumerate(sel):
            if not isinstance(s, Arr) and s == NEW:
                continue
            if not isinstance(s, Arr) and s[0] == 'stp':
                n = a.dims[ax].const()
                if n is None:
                    return None
                sel[k] = ('vec', const_vec(range(*slice(*s[1:]).indices(n))))
            ax += 1
        return sel

    def getitem_arr(self, st, a, sel):
        if len(sel) == 1 and isinstance(sel[0], Arr) and sel[0].dtype == 'b' and sel[0].rank == 2:
            return None
        sel = self.fix_sel(a, sel)
        if sel is None:
            return None
        adv = [i for i, s in enumerate(sel) if isinstance(s, Arr) and s.rank >= 1]
        if len(adv) == 2:
            s0, s1 = sel[adv[0]], sel[adv[1]]
            if a.rank != 2:
                return None
            if s0.rank == 2 and s0.dims[1].const() == 1 and (s1.rank == 1 or (s1.rank == 2 and s1.dims[0].const() == 1)):
                d1 = s1.dims[-1]
                g1 = (lambda j: s1.at(j)) if s1.rank == 1 else (lambda j: s1.at(ZERO, j))
                return Arr((s0.dims[0], d1), lambda i, j: a.at(s0.at(i, ZERO), g1(j)), a.dtype, a.kind)
            if s0.rank == 1 and s1.rank == 1:
                d = pick_dim(s0.dims[0], s1.dims[0])
                return Arr((d,), lambda i: a.at(s0.at(i), s1.at(i)), a.dtype, 'nd')
            return None
        if len(adv) > 2:
            return None
        dims = []
        plan = []      # per source axis: function of result indices list
        ax = 0
        pos = 0
        for s in sel:
            if not isinstance(s, Arr) and s == NEW:
                dims.append(cdim(1))
                pos += 1
                continue
            d = a.dims[ax]
            if isinstance(s, Arr):
                if s.rank == 0:
                    c = s.p().const_int()
                    n = d.const()
                    p = s.p()
                    if c is not None and c < 0:
                        p = d.size + p
                    if a.kind in ('sp', 'mat') and not all(isinstance(q, Arr) and q.rank == 0 for q in sel):
                        dims.append(cdim(1))
                        pos += 1
                    if d.parts:
                        b = split_index(d, p)
                        if b is None and c is not None and c < 0 and d.parts[-1].const() is not None:
                            b = BIdx(d, len(d.parts) - 1, d.parts[-1].size + c)
                        plan.append(lambda ix, p=(b if b is not None else p): p)
                    else:
                        plan.append(lambda ix, p=p: p)
                else:
                    if s.rank == 1:
                        dims.append(s.dims[0])
                        plan.append(lambda ix, k=pos, s=s: s.at(ix[k]))
                        pos += 1
                    else:
                        r = s.rank
                        dims.extend(s.dims)
                        plan.append(lambda ix, k=pos, s=s, r=r: s.at(*ix[k:k + r]))
                        pos += r
            elif s == ALL:
                dims.append(d)
                plan.append(lambda ix, k=pos: ix[k])
                pos += 1
            elif s[0] == 'rng':
                nd, m = self.slice_dim(d, s[1], s[2])
                dims.append(nd)
                plan.append(lambda ix, k=pos, m=m: m(ix[k]))
                pos += 1
            elif s[0] == 'vec':
                dims.append(s[1].dims[0])
                plan.append(lambda ix, k=pos, s=s: s[1].at(ix[k]))
                pos += 1
            elif s[0] == 'rev':
                if d.parts:
                    return None
                dims.append(d)
                plan.append(lambda ix, k=pos, d=d: d.size - 1 - ix[k])
                pos += 1
            else:
                return None
            ax += 1

        def fn(*ix):
            return a.at(*[f(ix) for f in plan])
        return Arr(dims, fn, a.dtype, a.kind if len(dims) == 2 else 'nd')

    # -- stores
    def axis_alts(self, d, s):
        """-> function e -> list of (member Poly, vindex or None, rewrite) for
        destination index e; and the Dim of the value axis (None if scalar)"""
        if isinstance(s, Arr) and s.rank == 0:
            p = s.p()
            c = p.const_int()
            if c is not None and c < 0:
                p = d.size + p

            def f(e):
                return [(P.eq(flat(e) - p), None, None)]
            return f, None
        if not isinstance(s, Arr) and s[0] == 'vec':
            s = s[1]
        if not isinstance(s, Arr):
            if s == ALL:
                return (lambda e: [(ONE, e, None)]), d
            if s[0] == 'rng':
                nd, m = self.slice_dim(d, s[1], s[2])
                if nd is d:
                    return (lambda e: [(ONE, e, None)]), d
                if d.parts:
                    offs = [ZERO]
                    for p in d.parts:
                        offs.append(offs[-1] + p.size)
                    lo = s[1] if s[1] is not None else ZERO
                    hi = s[2] if s[2] is not None else d.size
                    if lo in offs and hi in offs:
                        k1 = offs.index(lo)
                        k2 = len(offs) - 1 - offs[::-1].index(hi)

                        def f(e):
                            if isinstance(e, BIdx):
                                if k1 <= e.k < k2:
                                    if nd.parts:
                                        return [(ONE, BIdx(nd, e.k - k1, e.ix), None)]
                                    return [(ONE, e.ix, None)]
                                return [(ZERO, ZERO, None)]
                            return None
                        return f, nd
                lo = s[1] if s[1] is not None else ZERO
                size = d.size
                c = lo.const()
                if c is not None and c < 0:
                    lo = size + lo
                hi = lo + nd.size

                def f(e):
                    e = flat(e)
                    mem = ONE
                    if lo != ZERO:
                        mem = mem * (ONE - P.gt(lo - e))
                    if hi != size:
                        mem = mem * P.gt(hi - e)
                    return [(mem, e - lo, None)]
                return f, nd
            return None, None
        if s.rank != 1:
            return None, None
        # index array
        sd = s.dims[0]
        ce = const_entries(s) if not sd.parts else None
        if ce and all(float(c).is_integer() for c in ce) and (len(set(ce)) < len(ce) or min(ce) < 0):
            # the last of several assignments to one element stays
            last = {}
            for i, c in enumerate(ce):
                last[c if c >= 0 else (c + d.size if d.const() is None else c + d.const())] = i

            def alts(e):
                e0 = flat(e)
                return [(P.eq(e0 - aspoly(c if isinstance(c, P.Poly) else P.const(int(c)))), P.const(i), None) for c, i in last.items()]
            return alts, sd

        def alts(e):
            e0 = flat(e)
            out = []
            for lab, k in self.blocks(sd):
                out.extend(self.arr_alt(s, sd, k, e0, d))
            return out
        return alts, sd

    def blocks(self, d):
        if d.parts:
            r = []
            for k, p in enumerate(d.parts):
                for lab, ix in self.blocks(p):
                    r.append((k, BIdx(d, k, ix)))
            return r
        n = d.const()
        if n is not None and n <= 40:
            return [(i, P.const(i)) for i in range(n)]
        return [(0, None)]

    def arr_alt(self, s, sd, k, e, base=None):
        """alternatives for one block of an index array: k is a constant index,
        a BIdx with inner None/const, or None (whole atomic axis)"""
        v = P.fresh('@k')
        kv = P.ixvar_raw(v)
        if k is None:
            kk = kv
            dim = sd
        elif isinstance(k, BIdx):
            if k.ix is None:
                kk = BIdx(k.dim, k.k, kv)
                dim = k.dim.parts[k.k]
            else:
                return [(P.eq(e - s.at(k)), k, None)]
        else:
            return [(P.eq(e - s.at(k)), k, None)]
        if k is None and self.I.letsize and dim.sel:
            ms = self.picked(Arr((dim,), s.at, 'i'))
            if ms is not None:
                name = dim.sel[0]
                out = []
                for j, (m, x) in enumerate(ms):
                    m = m * P.eq(e - x)
                    # the last of several assignments to one element stays
                    for m2, x2 in ms[j + 1:]:
                        if m.t and x2 == x:
                            m = m * (ONE - m2)
                    out.append((m, P.atom('inv' + name, P.const(j)), None))
                return out
        p = s.at(kk)
        mk = (lambda x: BIdx(kk.dim, kk.k, x)) if isinstance(kk, BIdx) else (lambda x: x)
        lin = P.linear_in(p, v)
        if lin is not None and abs(lin[0]) == 1:
            # affine in the position
            a, rest = lin
            inv = (e - rest).scale(1 / a)
            mem = ONE
            if not (rest == ZERO and a == 1):
                mem = (ONE - P.gt(-inv)) * P.gt(dim.size - inv)
            elif not (dim.size is not None):
                mem = P.gt(dim.size - inv)
            return [(mem, mk(inv), None)]
        if v not in p.fv():
            some = ONE if dim.const() is not None else P.gt(dim.size)
            return [(some * P.eq(e - p), mk(ZERO), None)]
        u = P.unwrap(p)
        if isinstance(u, tuple) and u[0] == 'T' and u[2] == (kv,):
            name = u[1]
            if dim.sel is not None and dim.sel[0] == name:
                mem = dim.sel[1](e)
                if base is not None and not (base.size == dim.sel[2].size):
                    mem = mem * P.gt(dim.sel[2].size - e)
            else:
                mem = P.fn('in', name, e)
            inv = P.fn('inv', name, e)
        else:
            sub = Arr((dim,), lambda i: s.at(mk(i)), 'i')
            name = opaque_name('idx', sub)
            mem = P.fn('in', name, e)
            inv = P.fn('inv', name, e)
        target = u if isinstance(u, tuple) else None

        def rewrite(q):
            # q mentions kv; the selected position's index value is e
            if target is not None:
                q = q.map_factors(lambda f: e if f == target else None)
            if v in q.fv():
                q = q.subst({v: inv})
            return q
        return [(mem, mk(kv), rewrite)]

    def setitem_arr(self, st, a, sel, v):
        if sel == 'T':
            return Arr(a.dims, self.transpose(v).fn, a.dtype, a.kind) if v.rank == 2 else None
        sel = self.fix_sel(a, sel)
        if sel is None:
            return None
        if any((not isinstance(s, Arr)) and s == NEW for s in sel):
            return None
        adv = [s for s in sel if isinstance(s, Arr) and s.rank >= 1]
        sel2 = []
        outer = False
        pointwise = False
        if len(adv) == 2:
            s0, s1 = adv
            if s0.rank == 2 and s0.dims[1].const() == 1 and (s1.rank == 1 or s1.dims[0].const() == 1):
                t0 = Arr((s0.dims[0],), lambda i: s0.at(i, ZERO), s0.dtype)
                t1 = s1 if s1.rank == 1 else Arr((s1.dims[1],), lambda i: s1.at(ZERO, i), s1.dtype)
                it = iter([t0, t1])
                sel = [next(it) if isinstance(s, Arr) and s.rank >= 1 else s for s in sel]
            else:
                return self.setitem_pointwise(a, sel, v)
        elif len(adv) == 1 and adv[0].rank == 2:
            t = self.ravel(adv[0])
            if a.rank != 1 or t is None or 1 not in [d.const() for d in adv[0].dims]:
                return None
            if v.rank == 2:
                v = self.ravel(v)
                if v is None:
                    return None
            sel = [t]
        fs = []
        vd = []
        for d, s in zip(a.dims, sel):
            f, x = self.axis_alts(d, s)
            if f is None:
                return None
            fs.append(f)
            if x is not None:
                vd.append(x)
        nv = len(vd)
        if v.rank > nv:
            # allow leading singleton axes
            if all(d.const() == 1 for d in v.dims[:v.rank - nv]):
                k = v.rank - nv
                vv = v
                v = Arr(vv.dims[k:], lambda *ix: vv.at(*([ZERO] * k + list(ix))), vv.dtype)
            else:
                return None
        off = nv - v.rank
        dt = a.dtype
        old = a

        def fn(*e):
            total = ZERO
            mem_sum = ZERO
            lists = []
            for f, x in zip(fs, e):
                al = f(x)
                if al is None:
                    raise TooBig()
                lists.append(al)

            def rec(i, mem, vix, rws):
                nonlocal total, mem_sum
                if not mem.t:
                    return
                if i == len(lists):
                    ix = []
                    for k in range(v.rank):
                        y = vix[off + k]
                        if v.dims[k].const() == 1 and vd[off + k].const() != 1:
                            y = ZERO
                        ix.append(y)
                    q = v.at(*ix)
                    for r in rws:
                        q = r(q)
                    total = total + mem * q
                    mem_sum = mem_sum + mem
                    return
                for (m, vi, rw) in lists[i]:
                    rec(i + 1, mem * m, vix + ([vi] if vi is not None else []), rws + ([rw] if rw else []))
            rec(0, ONE, [], [])
            if not mem_sum.t:
                return old.at(*e)
            if mem_sum == ONE:
                return total
            return total + (ONE - mem_sum) * old.at(*e)
        if dt == 'b' and v.dtype != 'b':
            pass
        if dt == 'i' and v.dtype in 'f':
            note = 'int-store'
        return Arr(a.dims, fn, dt, a.kind)

    def setitem_pointwise(self, a, sel, v):
        """A[i, j] = v with two rank-1 index arrays"""
        if a.rank != 2 or len(sel) != 2:
            return None
        s0, s1 = sel
        if s0.rank != 1 or s1.rank != 1 or s0.dims[0] != s1.dims[0] or s0.dims[0].parts:
            return None
        d = s0.dims[0]
        v0 = P.fresh('@k')
        kv = P.ixvar_raw(v0)
        p0, p1 = s0.at(kv), s1.at(kv)
        if p0 != kv:
            return None
        return Arr(a.dims, lambda i, j: P.eq(flat(j) - s1.at(i)) * (v.at(i) if v.rank else v.p()) +
                   (ONE - P.eq(flat(j) - s1.at(i))) * a.at(i, j), a.dtype, a.kind)

    def setitem_unknown(self, st, a, sel):
        """store of an unknown value: unknown where selected"""
        sel2 = self.fix_sel(a, sel)
        if sel2 is None:
            return None
        nm = '?' + P.fresh('u')
        try:
            return self.setitem_arr(st, a, sel, scalar(P.atom(nm), a.dtype))
        except Exception:
            return None

    # ------------------------------------------------------------------
    def find(self, mask):
        d = mask.dims[0]
        if d.parts:
            pieces = []
            off = ZERO
            for k, p in enumerate(d.parts):
                sub = Arr((p,), lambda i, k=k: mask.at(BIdx(d, k, i)), 'b')
                pieces.append((self.find(sub), off))
                off = off + p.size
            dim = Dim(parts=[x.dims[0] for x, _ in pieces])
            pieces = [x for x in pieces if not x[0].dims[0].size == ZERO]
            if not dim.parts:
                x, o = pieces[0] if pieces else (Arr((cdim(0),), lambda i: ZERO, 'i'), ZERO)
                return Arr(x.dims, lambda i: x.at(i) + o, 'i')
            return Arr((dim,), lambda i: pieces[i.k][0].at(i.ix) + pieces[i.k][1] if isinstance(i, BIdx)
                       else P.atom(opaque_name('findcat', mask), i), 'i')
        n = d.const()
        if n is not None and n <= 40:
            vals = [mask.at(P.const(i)).const() for i in range(n)]
            if all(x is not None for x in vals):
                ks = [i for i, x in enumerate(vals) if x]
                return const_vec(ks)
        if self.I.letsize and n is not None and n <= 12:
            # conditions of the entries as short formulas
            ents = [self.I.named(scalar(mask.at(P.const(i)), 'b')).p() for i in range(n)]

            def entry(i):
                c = aspoly(flat(i)).const_int()
                if c is not None:
                    return ents[c] if 0 <= c < n else ZERO
                r = ZERO
                for k, x in enumerate(ents):
                    r = r + P.eq(aspoly(flat(i)) - P.const(k)) * x
                return r
            mask = Arr((d,), entry, 'b')
        v = P.ixvar_raw('$0')
        m0 = mask.at(v)
        if m0 == ONE:
            return Arr((d,), lambda i: aspoly(i), 'i')
        if m0 == ZERO:
            return Arr((cdim(0),), lambda i: ZERO, 'i')
        name = opaque_name('find', mask)
        P.declare(name, real=True, int=True)
        nm = 'n' + name if not name.startswith('?') else '?n' + name[1:]
        P.declare(nm, real=True, nonneg=True, int=True)
        size = P.atom(nm)
        if self.I.letsize and n is not None and n <= 12:
            size = ZERO
            for i in range(n):
                size = size + mask.at(P.const(i))
            if len(size.t) > self.I.letsize:
                size = P.let(size)
        dim = Dim(size=size, sel=(name, lambda e: mask.at(e), d))
        inv = {P.atom('inv' + name, P.const(i)): P.const(i) for i in range(n)} if n is not None and n <= 12 else {}

        def fn(i):
            i = flat(i)
            return inv[i] if i in inv else P.atom(name, i)
        return Arr((dim,), fn, 'i')

    def picked(self, a):
        """[(condition, entry)] of a vector over the selected positions of a short vector"""
        s = a.dims[0].sel
        if a.rank != 1 or not s:
            return None
        name, mem, base = s
        n = base.const()
        if n is None or n > 12 or base.parts:
            return None
        return [(mem(P.const(i)), a.at(P.atom('inv' + name, P.const(i)))) for i in range(n)]

    def to_bool(self, a):
        if a.dtype == 'b':
            return a
        return Arr(a.dims, lambda *ix: P.ne(a.at(*ix)), 'b', a.kind)

    # ------------------------------------------------------------------
    # operators
    def broadcast(self, x, y):
        r = max(x.rank, y.rank)
        dims = []
        for k in range(r):
            i, j = x.rank - r + k, y.rank - r + k
            if i < 0:
                dims.append(y.dims[j])
            elif j < 0:
                dims.append(x.dims[i])
            else:
                dims.append(pick_dim(x.dims[i], y.dims[j]))
        return dims

    def bcat(self, a, dims):
        """accessor of a under result dims"""
        r = len(dims)
        off = r - a.rank

        def g(*ix):
            out = []
            for k in range(a.rank):
                i = ix[off + k]
                if a.dims[k].const() == 1 and dims[off + k].const() != 1:
                    i = ZERO
                out.append(i)
            return a.at(*out)
        return g

    def ewise(self, x, y, f, dtype, kind=None):
        dims = self.broadcast(x, y)
        gx, gy = self.bcat(x, dims), self.bcat(y, dims)
        if kind is None:
            kind = 'nd'
            if len(dims) == 2:
                if 'mat' in (x.kind, y.kind):
                    kind = 'mat'
                elif x.kind == 'sp' and y.kind == 'sp':
                    kind = 'sp'
                elif 'sp' in (x.kind, y.kind) and (x.rank == 0 or y.rank == 0):
                    kind = 'sp'
                elif 'sp' in (x.kind, y.kind):
                    kind = 'mat'
        return Arr(dims, lambda *ix: f(gx(*ix), gy(*ix)), dtype, kind)

    def shape_clash(self, st, x, y, node):
        for k in range(1, min(x.rank, y.rank) + 1):
            a, b = x.dims[-k].const(), y.dims[-k].const()
            if a is not None and b is not None and a != b and a != 1 and b != 1:
                self.I.event('shape', node, 'operands of shapes %s and %s' % (x.dims, y.dims), st=st)
                return True
        return False

    def binop(self, st, op, x, y, node=None):
        from .interp import join_dtype
        dt = join_dtype(x.dtype, y.dtype)
        if op == '*' and (x.kind in ('sp', 'mat') or y.kind in ('sp', 'mat')) and x.rank and y.rank:
            return self.matmul(x, y, node, st)
        if op == '@':
            return self.matmul(x, y, node, st)
        if x.rank and y.rank and self.shape_clash(st, x, y, node):
            return None
        if op == '+':
            return self.ewise(x, y, lambda a, b: a + b if dt != 'b' else a + b - a * b, dt)
        if op == '-':
            return self.ewise(x, y, lambda a, b: a - b, 'i' if dt == 'b' else dt)
        if op == '*':
            return self.ewise(x, y, lambda a, b: a * b, dt)
        if op == '/':
            k = None
            if x.kind == 'sp' and y.rank == 0:
                k = 'sp'
            return self.ewise(x, y, lambda a, b: a * P.power(b, -1) if b.const() != 0 else P.atom('?div0'),
                              'f' if dt in 'bi' else dt, k)
        if op == '**':
            if y.rank == 0:
                e = y.p().const()
                if e is not None:
                    if x.kind in ('sp', 'mat'):
                        if x.kind == 'mat' or e.denominator != 1 or e < 1:
                            return None
                        r = x
                        for _ in range(int(e) - 1):
                            r = self.matmul(r, x, node, st)
                        return r
                    return Arr(x.dims, lambda *ix: P.power(x.at(*ix), e), dt, x.kind)
                return self.ewise(x, y, lambda a, b: P.fn('powv', a, b), dt)
            return self.ewise(x, y, lambda a, b: P.power(a, b.const()) if b.const() is not None
                              else P.fn('powv', a, b), dt)
        if op in '&|^':
            if dt == 'b':
                g = {'&': lambda a, b: a * b, '|': lambda a, b: a + b - a * b,
                     '^': lambda a, b: a + b - (a * b).scale(2)}[op]
                return self.ewise(x, y, g, 'b')
            if x.dtype in 'bi' and y.dtype in 'bi':
                cx = x.rank == 0 and x.p().const()
                def bit(a, b):
                    ca, cb = a.const_int(), b.const_int()
                    if ca is not None and cb is not None:
                        return P.const({'&': ca & cb, '|': ca | cb, '^': ca ^ cb}[op])
                    return P.fn('bit' + op, *sorted((a, b), key=str))
                return self.ewise(x, y, bit, 'i')
            self.I.event('bitop-float', node, 'bitwise %s on %s and %s' % (op, x.dtype, y.dtype), st=st)
            return None
        if op == '%':
            return self.ewise(x, y, mod_fold, dt)
        if op == '//':
            return self.ewise(x, y, lambda a, b: P.fn('floordiv', a, b), dt)
        return None

    def matmul(self, x, y, node=None, st=None):
        from .interp import join_dtype
        dt = join_dtype(join_dtype(x.dtype, y.dtype), 'i' if 'b' != x.dtype or 'b' != y.dtype else 'b')
        if x.rank == 0 or y.rank == 0:
            return self.ewise(x, y, lambda a, b: a * b, dt)
        kind = 'nd'
        if x.rank == 2 and y.rank == 2:
            if x.kind == 'sp' and y.kind == 'sp':
                kind = 'sp'
            elif 'mat' in (x.kind, y.kind):
                kind = 'mat'
            elif x.kind == 'sp' or y.kind == 'sp':
                kind = 'nd'
        if x.kind == 'mat' and y.rank == 1:
            y0 = y
            y = Arr((cdim(1), y0.dims[0]), lambda i, j: y0.at(j), y0.dtype, 'mat')
            kind = 'mat'
        inner = None
        xd = x.dims[-1]
        yd = y.dims[0]
        cx, cy = xd.const(), yd.const()
        if cx is not None and cy is not None and cx != cy:
            if st is not None:
                self.I.event('shape', node, 'product of %s and %s' % (x.dims, y.dims), st=st)
            return None
        inner = xd if xd.parts else (yd if yd.parts else xd)
        if inner.sel is None and yd.sel is not None and not xd.parts and not yd.parts:
            inner = yd
        if x.rank == 2 and y.rank == 2:
            return Arr((x.dims[0], y.dims[1]), lambda i, j: sumdim(inner, lambda k: x.at(i, k) * y.at(k, j)), dt, kind)
        if x.rank == 2 and y.rank == 1:
            return Arr((x.dims[0],), lambda i: sumdim(inner, lambda k: x.at(i, k) * y.at(k)), dt)
        if x.rank == 1 and y.rank == 2:
            return Arr((y.dims[1],), lambda j: sumdim(inner, lambda k: x.at(k) * y.at(k, j)), dt)
        return Arr((), lambda: sumdim(inner, lambda k: x.at(k) * y.at(k)), dt)

    def compare(self, st, op, x, y, node):
        if x.rank and y.rank and self.shape_clash(st, x, y, node):
            return None
        if op == '==':
            f = lambda a, b: P.eq(a - b)
        elif op == '!=':
            f = lambda a, b: ONE - P.eq(a - b)
        elif op == '>':
            f = lambda a, b: gt_inf(a, b)
        elif op == '<':
            f = lambda a, b: gt_inf(b, a)
        elif op == '>=':
            f = lambda a, b: ONE - gt_inf(b, a)
        elif op == '<=':
            f = lambda a, b: ONE - gt_inf(a, b)
        else:
            return None
        kind = None
        if 'sp' in (x.kind, y.kind):
            kind = 'sp'
        return self.ewise(x, y, f, 'b', kind)

    # ------------------------------------------------------------------
    def transpose(self, a):
        if a.rank < 2:
            return a
        return Arr(a.dims[::-1], lambda *ix: a.at(*ix[::-1]), a.dtype, a.kind)

    def map1(self, a, f, dtype=None):
        return Arr(a.dims, lambda *ix: f(a.at(*ix)), dtype or a.dtype, a.kind)

    def size_value(self, p):
        c = p.const_int()
        return Const(c) if c is not None else scalar(p, 'i')

    def listvec(self, ps, dtype):
        """vector of given formulas"""
        ps = list(ps)

        def fn(i):
            i = flat(i)
            c = i.const_int()
            if c is not None:
                return ps[c] if 0 <= c < len(ps) else ZERO
            acc = ZERO
            for k, x in enumerate(ps):
                acc = acc + P.eq(i - P.const(k)) * x
            return acc
        return Arr((cdim(len(ps)),), fn, dtype)

    def array_attr(self, st, base, a, attr):
        N = lambda x: self.I.newarr(st, x)
        if attr == 'shape':
            return Tup([self.size_value(d.size) for d in a.dims])
        if attr == 'ndim':
            return Const(a.rank)
        if attr == 'size':
            p = ONE
            for d in a.dims:
                p = p * d.size
            return self.size_value(p)
        if attr == 'nnz':
            ns = [d.const() for d in a.dims]
            if all(n is not None for n in ns) and a.rank == 2 and ns[0] * ns[1] <= 400:
                ps = [P.ne(a.at(P.const(i), P.const(j))) for i in range(ns[0]) for j in range(ns[1])]
                if all(p.const() is not None for p in ps):
                    return scalar(sum(ps, ZERO), 'i')
            return scalar(P.atom(opaque_name('nnz', a)), 'i')
        if attr in ('row', 'col', 'data') and a.kind == 'sp' and a.rank == 2:
            if attr != 'data' and a.note == 'csr':
                self.I.event('no-attribute', None, 'csr_matrix has no attribute ' + attr, st=st)
                return self.I.unk('no attribute')
            ns = [d.const() for d in a.dims]
            if all(n is not None for n in ns) and ns[0] * ns[1] <= 400:
                ix = [(i, j) for i in range(ns[0]) for j in range(ns[1])]
                ps = [P.ne(a.at(P.const(i), P.const(j))).const() for i, j in ix]
                if None not in ps:
                    ix = [x for x, p in zip(ix, ps) if p]
                    if attr == 'data':
                        v = [a.at(P.const(i), P.const(j)) for i, j in ix]
                    else:
                        v = [P.const(x[0 if attr == 'row' else 1]) for x in ix]
                    return N(self.listvec(v, a.dtype if attr == 'data' else 'i'))
            return self.I.unk('entries of a sparse matrix')
        if attr == 'T':
            return N(self.transpose(a))
        if attr == 'H':
            return N(self.map1(self.transpose(a), lambda p: p.conj()))
        if attr == 'real':
            return N(self.map1(a, lambda p: p.real(), 'f' if a.dtype == 'c' else a.dtype)) if a.dtype == 'c' or True else base
        if attr == 'imag':
            return N(self.map1(a, lambda p: p.imag(), 'f' if a.dtype == 'c' else a.dtype))
        if attr == 'flat':
            return N(self.ravel(a)) if a.rank != 1 else N(a)
        if attr == 'dtype':
            return Const('dtype:' + a.dtype)
        return None

    def ravel(self, a, order='C'):
        if a.rank == 1:
            return a
        if a.rank == 0:
            return Arr((cdim(1),), lambda i: a.p(), a.dtype)
        if a.rank == 2:
            if a.dims[1].const() == 1:
                return Arr((a.dims[0],), lambda i: a.at(i, ZERO), a.dtype)
            if a.dims[0].const() == 1:
                return Arr((a.dims[1],), lambda i: a.at(ZERO, i), a.dtype)
            if order == 'F':
                b = self.transpose(a)
                return self.ravel(Arr(b.dims, b.fn, b.dtype))
            n = a.dims[0].const()
            if n is not None and n <= 12:
                d = Dim(parts=[a.dims[1]] * n)
                return Arr((d,), lambda i: a.at(P.const(i.k), i.ix) if isinstance(i, BIdx) else P.atom('?ravel', i), a.dtype)
        return None

    # ------------------------------------------------------------------
    def method(self, st, obj, name, args, kw, node):
        I = self.I
        N = lambda x: I.newarr(st, x) if isinstance(x, Arr) else x
        if isinstance(obj, Phi):
            a = self.method(st, obj.a, name, args, kw, node)
            b = self.method(st, obj.b, name, args, kw, node)
            return I.phi_deep(obj.c, a, b, st)
        if isinstance(obj, text.FileV):
            if name == 'write' and args:
                text.write(I, st, obj, args[0], node)
            elif name == 'read' and not args and I.files is not None:
                return files.read(I, obj)
            elif name == 'writelines' and args:
                for x in I.iter_items(args[0], st) or [I.unk('lines')]:
                    text.write(I, st, obj, x, node)
            return NONE
        c = I.cell(st, obj)
        if isinstance(c, DictCell):
            return self.dict_method(st, obj, c, name, args, kw, node)
        if isinstance(c, ListCell):
            return self.list_method(st, obj, c, name, args, kw, node)
        if isinstance(obj, Const) and isinstance(obj.v, str):
            if name in ('lower', 'upper', 'strip') and not args:
                return Const(getattr(obj.v, name)())
            if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], Tup) and all(isinstance(x, Const) for x in args[0].items):
                return Const(getattr(obj.v, name)(tuple(x.v for x in args[0].items)))
            if name in ('startswith', 'endswith') and args and isinstance(args[0], Const):
                return Const(getattr(obj.v, name)(args[0].v))
            if name == 'join' and len(args) == 1:
                cl = I.cell(st, args[0])
                its = args[0].items if isinstance(args[0], Tup) else cl.items if isinstance(cl, ListCell) else [None]
                if all(isinstance(x, Const) and isinstance(x.v, str) for x in its):
                    return Const(obj.v.join(x.v for x in its))
                if its and its != [None] and all(text.parts_of(x) is not None for x in its):
                    out = list(text.parts_of(its[0]))
                    for x in its[1:]:
                        out += [obj.v] + list(text.parts_of(x))
                    return text.mk(out)
                return Unk('str')
            if name == 'format':
                r = text.format_call(I, st, obj.v, args, kw, node)
                return Unk('str') if r is None else r
            if name == 'split' and all(isinstance(x, Const) for x in args):
                return I.newlist(st, [Const(x) for x in obj.v.split(*[x.v for x in args])])
            return Unk('str')
        a = I.arr_of(st, obj)
        if a is None:
            if isinstance(obj, Unk):
                return I.unk('method %s of %s' % (name, obj.why))
            if isinstance(c, UnkCell) or obj is None:
                return I.unk('method ' + name)
            return I.unk('method %s' % name)
        if name in ('copy', 'tocsr', 'tocsc', 'tocoo', 'tolil', 'todia', 'asformat'):
            return N(Arr(a.dims, a.at, a.dtype, a.kind))
        if name in ('toarray',):
            return N(Arr(a.dims, a.at, a.dtype, 'nd'))
        if name == 'todense':
            return N(Arr(a.dims, a.at, a.dtype, 'mat'))
        if name in ('conj', 'conjugate'):
            return N(self.map1(a, lambda p: p.conj()))
        if name == 'transpose':
            return N(self.transpose(a))
        if name == 'getH':
            return N(self.map1(self.transpose(a), lambda p: p.conj()))
        if name == 'astype':
            return N(self.astype(a, args[0]))
        if name == 'clip':
            return self.n_clip(st, [obj] + list(args), kw, node)
        if name in ('flatten', 'ravel'):
            o = args[0].v if args and isinstance(args[0], Const) else 'C'
            r = self.ravel(a, o)
            if r is not None and a.kind == 'mat':
                return N(Arr((cdim(1),) + tuple(r.dims), lambda i, j, r=r: r.at(j), r.dtype, 'mat'))
            return N(Arr(r.dims, r.at, r.dtype)) if r is not None else I.unk('ravel')
        if name == 'reshape':
            return self.reshape(st, a, args)
        if name == 'multiply':
            b = I.arr_of(st, args[0])
            if b is None:
                return I.unk('multiply')
            from .interp import join_dtype
            return N(self.ewise(a, b, lambda p, q: p * q, join_dtype(a.dtype, b.dtype), 'sp'))
        if name == 'dot':
            b = I.arr_of(st, args[0])
            return N(self.matmul(a, b, node, st)) if b is not None else I.unk('dot')
        if name == 'diagonal':
            return N(Arr((a.dims[0],), lambda i: a.at(i, i), a.dtype))
        if name == 'item':
            if a.rank == 0:
                return scalar(a.p(), a.dtype)
            if all(d.const() == 1 for d in a.dims):
                return scalar(a.at(*([ZERO] * a.rank)), a.dtype)
            from .interp import num0
            k = num0(args[0]) if args else None
            if a.rank == 1 and k is not None and k[0].const() is not None:
                return I.getitem(obj, args[0], st, node)
            return I.unk('item')
        if name in ('sum', 'any', 'all', 'max', 'min', 'mean', 'prod', 'argmax', 'argmin', 'cumsum'):
            return self.np_call(st, name, [obj] + args, kw, node)
        if name == 'nonzero':
            return self.np_call(st, 'nonzero', [obj], kw, node)
        if name == 'tolist':
            return obj
        if name in ('tobytes', 'tostring'):
            n = [d.const() for d in a.dims]
            if None in n:
                return I.unk(name)
            import itertools
            return Tup([scalar(a.at(*[P.const(i) for i in ix]), a.dtype) for ix in itertools.product(*[range(m) for m in n])])
        if name == 'getcol':
            pass
        if name in ('sort', 'fill', 'resize', 'put', 'itemset', 'setdiag', 'eliminate_zeros', 'sort_indices'):
            I.taint(st, obj, 'in-place method ' + name)
            I.mutated(st, obj, node) if isinstance(obj, Ref) else None
            return NONE
        return I.unk('array method ' + name)

    def dict_method(self, st, obj, c, name, args, kw, node):
        I = self.I
        if name == 'copy':
            return I.newdict(st, c.items, c.open, c.name)
        if name == 'keys':
            if c.open:
                return I.unk('keys of open dict')
            return I.newlist(st, [Const(k) for k in c.items])
        if name == 'values' and not c.open:
            return I.newlist(st, list(c.items.values()))
        if name == 'items' and not c.open:
            return I.newlist(st, [Tup([Const(k), v]) for k, v in c.items.items()])
        if name in ('get', 'pop', 'setdefault') and args:
            args = [I.dkey(args[0], st)] + list(args[1:])
        if name in ('get', 'pop', 'setdefault') and args and isinstance(args[0], Const) and I.key_state(c, args[0].v) is not None:
            k = args[0].v
            d = args[1] if len(args) > 1 else NONE
            if k in c.items:
                v = c.items[k]
                pr = I.present(v)
                v = strip_missing2(v)
                if pr.const() != 1:
                    v = I.phi(pr, v, d)
            elif c.open:
                v = I.unk('get from open dict')
            else:
                v = d
            if name == 'pop' and k in c.items:
                it = dict(c.items)
                del it[k]
                st.heap[obj.loc] = DictCell(it, c.open, c.name)
                I.mutated(st, obj, node)
            if name == 'setdefault' and k not in c.items:
                it = dict(c.items)
                it[k] = v
                st.heap[obj.loc] = DictCell(it, c.open, c.name)
                I.mutated(st, obj, node)
            return v
        if name == 'update':
            it = dict(c.items)
            opn = c.open
            for a in args:
                d = I.cell(st, a)
                if isinstance(d, DictCell):
                    it.update(d.items)
                    opn = opn or d.open
                else:
                    opn = True
            it.update(kw)
            st.heap[obj.loc] = DictCell(it, opn, c.name)
            I.mutated(st, obj, node)
            return NONE
        if name in ('clear', 'popitem'):
            I.taint(st, obj, name)
            return I.unk(name)
        if name == 'has_key' and args:
            return scalar(I.in_test(args[0], obj, st), 'b')
        return I.unk('dict method ' + name)

    def list_method(self, st, obj, c, name, args, kw, node):
        I = self.I
        if name == 'append':
            st.heap[obj.loc] = ListCell(c.items + (args[0],))
            I.mutated(st, obj, node)
            return NONE
        if name == 'extend':
            it = I.seq_items(args[0], st)
            if it is None:
                I.taint(st, obj, 'extend')
            else:
                st.heap[obj.loc] = ListCell(c.items + tuple(it))
            I.mutated(st, obj, node)
            return NONE
        if name == 'copy':
            return I.newlist(st, c.items)
        if name == 'index' and isinstance(args[0], Const) and all(isinstance(x, Const) for x in c.items):
            vs = [x.v for x in c.items]
            if args[0].v in vs:
                return Const(vs.index(args[0].v))
        if name in ('insert', 'remove', 'pop', 'sort', 'reverse', 'clear'):
            if name == 'pop' and (not args or isinstance(args[0], Const)) and c.items:
                k = args[0].v if args else -1
                it = list(c.items)
                v = it.pop(k)
                st.heap[obj.loc] = ListCell(it)
                I.mutated(st, obj, node)
                return v
            I.taint(st, obj, name)
            I.mutated(st, obj, node)
            return I.unk('list.' + name)
        return I.unk('list method ' + name)

    # ------------------------------------------------------------------
    def dtype_code(self, v):
        if isinstance(v, ExtV):
            n = v.name.split('.')[-1]
            if n in ('int', 'int32', 'int64', 'intp', 'int_', 'int8', 'uint8', 'intc'):
                return 'i'
            if n in ('float', 'float64', 'float32', 'double', 'float_'):
                return 'f'
            if n in ('complex', 'complex128', 'complex_'):
                return 'c'
            if n in ('bool', 'bool_'):
                return 'b'
        if isinstance(v, Const) and isinstance(v.v, str):
            s = v.v
            if s.startswith('dtype:'):
                return s[-1]
            return {'i': 'i', 'int': 'i', 'f': 'f', 'd': 'f', 'float': 'f', 'bool': 'b', 'b': None,
                    'complex': 'c', 'c': None, 'D': 'c'}.get(s)
        return None

    def astype(self, a, t):
        c = self.dtype_code(t)
        if c == 'b':
            return self.to_bool(a)
        if c is None:
            return Arr(a.dims, lambda *ix: P.atom('?astype'), 'f', a.kind)
        if c == 'i' and a.dtype in ('f',):
            return Arr(a.dims, lambda *ix: self.toint(a.at(*ix)), 'i', a.kind)
        return Arr(a.dims, a.at, c, a.kind)

    def whole(self, v):
        """values as stored in an integer array"""
        return Arr(v.dims, lambda *ix: self.toint(v.at(*ix)), 'i', v.kind)

    def toint(self, p):
        """truncation: identity on integer-valued atoms (bus numbers, flags)"""
        k = p.const()
        if isinstance(k, (Fraction, int)):
            return P.const(int(k))
        return p if int_valued(p) else P.fn('trunc', p)

    def reshape(self, st, a, args):
        I = self.I
        shp = args[0] if len(args) == 1 else Tup(args)
        ds = self.dims_of(st, shp)
        if ds is None:
            return I.unk('reshape')
        neg = [i for i, d in enumerate(ds) if d.const() == -1]
        if a.rank == 1 and len(ds) == 2:
            if ds[1].const() == 1:
                return I.newarr(st, Arr((a.dims[0], cdim(1)), lambda i, j: a.at(i), a.dtype))
            if ds[0].const() == 1:
                return I.newarr(st, Arr((cdim(1), a.dims[0]), lambda i, j: a.at(j), a.dtype))
        if len(ds) == 1:
            r = self.ravel(a)
            if r is not None:
                return I.newarr(st, r)
        if a.rank == len(ds) and not neg and all(x.size == y.size for x, y in zip(a.dims, ds)):
            return I.newarr(st, a)
        return I.unk('reshape')

    def concat(self, st, arrs, axis=0, kind=None):
        from .interp import join_dtype
        arrs = [a for a in arrs]
        dt = arrs[0].dtype
        for a in arrs[1:]:
            dt = join_dtype(dt, a.dtype)
        nz = [a for a in arrs if a.dims[axis].const() != 0]
        if not nz:
            return arrs[0]
        arrs = nz
        if len(arrs) == 1:
            a = arrs[0]
            return Arr(a.dims, a.at, dt, kind or a.kind)
        r = arrs[0].rank
        if any(a.rank != r for a in arrs):
            return None
        # flatten nested blocks
        blocks = []
        for a in arrs:
            d = a.dims[axis]
            if d.parts:
                for k, p in enumerate(d.parts):
                    blocks.append((p, a, (lambda i, d=d, k=k: BIdx(d, k, i))))
            elif d.const() is not None and False:
                pass
            else:
                blocks.append((d, a, (lambda i: i)))
        # merge constant-size neighbours into plain parts
        dim = Dim(parts=[b[0] for b in blocks])
        if dim.const() is not None:
            # all sizes constant: plain axis
            tot = dim.const()
            starts = []
            o = 0
            for b in blocks:
                starts.append(o)
                o += b[0].const()
            d2 = cdim(tot)

            def fnc(*ix):
                c = aspoly(ix[axis]).const_int()
                if c is None:
                    acc = ZERO
                    for t in range(tot):
                        jx = list(ix)
                        jx[axis] = P.const(t)
                        acc = acc + P.eq(aspoly(ix[axis]) - t) * fnc(*jx)
                    return acc
                for k in range(len(blocks) - 1, -1, -1):
                    if c >= starts[k]:
                        jx = list(ix)
                        jx[axis] = blocks[k][2](P.const(c - starts[k]))
                        return blocks[k][1].at(*jx)
            dims = list(arrs[0].dims)
            dims[axis] = d2
            return Arr(dims, fnc, dt, kind or 'nd')
        blocks = [b for b in blocks if not b[0].size == ZERO]
        dims = []
        for k in range(r):
            if k == axis:
                dims.append(dim)
            else:
                d = arrs[0].dims[k]
                for a in arrs[1:]:
                    d = pick_dim(d, a.dims[k])
                dims.append(d)
        me = [None]

        def fn(*ix):
            i = ix[axis]
            if isinstance(i, BIdx) and i.dim.key == dim.key:
                jx = list(ix)
                jx[axis] = blocks[i.k][2](i.ix)
                return blocks[i.k][1].at(*jx)
            i = flat(i)
            b = split_index(dim, i)
            if b is not None:
                jx = list(ix)
                jx[axis] = b
                return fn(*jx)
            return P.atom(opaque_name('cat', me[0]), *[flat(x) for x in ix])
        res = Arr(dims, fn, dt, kind or ('sp' if all(a.kind == 'sp' for a in arrs) else 'nd'))
        me[0] = res
        return res

    def ext_getitem(self, st, base, idx, node):
        """r_[...] and c_[...]"""
        I = self.I
        n = base.name.split('.')[-1]
        items = list(idx.items) if isinstance(idx, Tup) else [idx]
        if n == 'r_':
            arrs = []
            for x in items:
                if isinstance(x, SliceV):
                    a = self.slice_arange(st, x)
                else:
                    a = I.arr_of(st, x)
                    if a is None and isinstance(x, Phi):
                        a = self.single(st, x)
                if a is None:
                    return I.unk('r_')
                if a.rank == 0:
                    a = Arr((cdim(1),), lambda i, a=a: a.p(), a.dtype)
                arrs.append(a)
            r = self.concat(st, arrs, 0)
            return I.newarr(st, r) if r is not None else I.unk('r_')
        if n == 'c_':
            arrs = []
            for x in items:
                a = I.arr_of(st, x)
                if a is None:
                    return I.unk('c_')
                if a.rank == 1:
                    a = Arr((a.dims[0], cdim(1)), lambda i, j, a=a: a.at(i), a.dtype)
                elif a.rank == 0:
                    a = Arr((cdim(1), cdim(1)), lambda i, j, a=a: a.p(), a.dtype)
                arrs.append(a)
            r = self.concat(st, arrs, 1)
            return I.newarr(st, r) if r is not None else I.unk('c_')
        return I.unk('item of ' + base.name)

    def single(self, st, v):
        """conditional value whose candidates are numbers or vectors of length one, as a number"""
        if isinstance(v, Phi):
            a, b = self.single(st, v.a), self.single(st, v.b)
            if a is None or b is None:
                return None
            p = v.c * a.p() + (ONE - v.c) * b.p()
            return Arr((), lambda: p, 'c' if 'c' in (a.dtype, b.dtype) else 'f')
        a = self.I.arr_of(st, v)
        if a is not None and a.rank == 1 and a.dims[0].const() == 1:
            p = a.at(ZERO)
            return Arr((), lambda: p, a.dtype)
        return a if a is not None and a.rank == 0 else None

    def slice_arange(self, st, s):
        g = lambda v: None if isinstance(v, Const) and v.v is None else I.arr_of(st, v)
        I = self.I
        lo, hi, stp = g(s.lo), g(s.hi), g(s.step)
        if hi is None:
            return None
        l = lo.p() if lo is not None else ZERO
        if stp is not None and stp.p() != ONE:
            return None
        return self.arange_arr(l, hi.p())

    def arange_arr(self, lo, hi):
        d = Dim(size=hi - lo)
        return Arr((d,), lambda i: lo + aspoly(i), 'i')

    # ------------------------------------------------------------------
    def call(self, st, name, args, kw, node):
        I = self.I
        short = name.split('.')[-1]
        if name in ('sys.stdout.write', 'sys.stderr.write') and args:
            text.write(I, st, name[4:10], args[0], node)
            return Unk('io')
        if I.files is not None:
            r = files.call(I, st, name, args, kw, node)
            if r is not None:
                return r
        if any(isinstance(a, Unk) for a in args) and short not in ('array', 'deepcopy', 'isinstance', 'len', 'exec'):
            # library calls are pure: an unknown argument gives an unknown result
            if name.startswith('builtins.') and short in ('print',):
                return NONE
            return I.unk('%s of unknown (%s)' % (short, [a.why for a in args if isinstance(a, Unk)][0]))
        # distribute over one Phi argument
        for i, a in enumerate(args):
            if isinstance(a, Phi) and short not in ('isinstance', 'deepcopy'):
                if I.arr_of(st, a) is not None:
                    continue
                x = self.call(st, name, args[:i] + [a.a] + args[i + 1:], kw, node)
                y = self.call(st, name, args[:i] + [a.b] + args[i + 1:], kw, node)
                return I.phi_deep(a.c, x, y, st)
        if name.startswith('builtins.'):
            f = getattr(self, 'b_' + short, None)
            if f is not None:
                return f(st, args, kw, node)
            if short in ('sum', 'abs', 'max', 'min', 'any', 'all', 'round'):
                return self.np_call(st, short if short not in ('sum', 'any', 'all', 'max', 'min') else 'b' + short, args, kw, node)
            return I.unk('builtin ' + short)
        if name.startswith('numpy.ndarray.') and args and I.arr_of(st, args[0]) is not None:
            return self.method(st, args[0], short, args[1:], kw, node)
        if name.startswith('numpy.') or name.startswith('scipy.'):
            if name.startswith('scipy.sparse.') or short in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix'):
                if 'linalg' in name:
                    return self.linsolve(st, short, args, kw, node)
                return self.sp_call(st, short, args, kw, node)
            if name.startswith('numpy.linalg') or name.startswith('scipy.linalg'):
                return self.linalg(st, short, args, kw, node)
            return self.np_call(st, short, args, kw, node)
        if name in ('copy.copy', 'copy.deepcopy'):
            return self.b_copy(st, args, kw, node, deep=short == 'deepcopy')
        if name in ('sys.stdout.write', 'sys.stderr.write', 'time.time', 'sys.exit'):
            if name == 'sys.exit':
                from .interp import RaiseOut
                raise RaiseOut()
            return Unk('io')
        if name in ('random.random', 'numpy.random.random', 'numpy.random.rand') and not args and not kw and I.random is not None:
            return scalar(P.const(I.random), 'f')
        return I.unk('external ' + name)

    # -- builtins
    def b_pow(self, st, args, kw, node):
        return self.n_power(st, args, kw, node)

    def n_linspace(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args)
        n = A[2].p().const_int() if len(A) == 3 and A[2] is not None and A[2].rank == 0 else None
        if n is None or kw or any(a is None or a.rank for a in A) or not 0 <= n <= 60:
            return I.unk('linspace')
        lo, hi = A[0].p(), A[1].p()
        return I.newarr(st, Arr((cdim(n),), lambda i: lo if n == 1 else lo + (hi - lo).scale(Fraction(1, n - 1)) * flat(i), 'f'))

    def n_power(self, st, args, kw, node):
        A = self.arrs(st, args)
        if len(A) != 2 or any(a is None for a in A):
            return self.I.unk('pow')
        r = self.binop(st, '**', A[0], A[1], node)
        return self.I.unk('pow') if r is None else self.I.newarr(st, r)

    def b_len(self, st, args, kw, node):
        I = self.I
        v = args[0]
        it = I.seq_items(v, st)
        if it is not None:
            return Const(len(it))
        if isinstance(v, Const) and isinstance(v.v, str):
            return Const(len(v.v))
        c = I.cell(st, v)
        if isinstance(c, DictCell) and not c.open:
            return Const(len(c.items))
        a = I.arr_of(st, v)
        if a is not None and a.rank >= 1:
            return self.size_value(a.dims[0].size)
        if a is not None and a.rank == 0:
            I.event('len-scalar', node, 'len() of a scalar', st=st)
        return I.unk('len')

    def b_range(self, st, args, kw, node):
        I = self.I
        ps = []
        for a in args:
            x = I.arr_of(st, a)
            if x is None or x.rank != 0:
                return I.unk('range')
            if x.dtype not in ('i', 'b'):
                I.event('range-float', node, 'range() of a float', st=st)
            ps.append(x.p())
        if len(ps) == 1:
            lo, hi = ZERO, ps[0]
        elif len(ps) == 2:
            lo, hi = ps
        else:
            c = [p.const_int() for p in ps]
            if None in c:
                return I.unk('range step')
            return I.newlist(st, [Const(i) for i in range(*c)])
        a, b = lo.const_int(), hi.const_int()
        if a is not None and b is not None and b - a <= 60:
            return I.newlist(st, [Const(i) for i in range(a, b)])
        return I.newarr(st, self.arange_arr(lo, hi))

    b_xrange = b_range

    def b_list(self, st, args, kw, node):
        I = self.I
        if not args:
            return I.newlist(st, [])
        it = I.iter_items(args[0], st)
        if it is not None:
            return I.newlist(st, it)
        a = I.arr_of(st, args[0])
        if a is not None:
            return I.newarr(st, a)
        return I.unk('list()')

    def b_tuple(self, st, args, kw, node):
        it = self.I.iter_items(args[0], st) if args else []
        return Tup(it) if it is not None else self.I.unk('tuple()')

    def b_dict(self, st, args, kw, node):
        I = self.I
        items = {}
        opn = False
        if args:
            c = I.cell(st, args[0])
            if isinstance(c, DictCell):
                items.update(c.items)
                opn = c.open
            else:
                opn = True
        items.update(kw)
        return I.newdict(st, items, opn)

    def b_isinstance(self, st, args, kw, node):
        I = self.I
        v = args[0]
        t = args[1]
        names = [x.name.split('.')[-1] for x in (t.items if isinstance(t, Tup) else [t]) if isinstance(x, ExtV)]
        k = self.type_name(st, v)
        if any(not isinstance(x, (ExtV, ClassV)) for x in (t.items if isinstance(t, Tup) else [t])):
            k = None
        if k is None:
            return scalar(P.fn('?isinstance' + P.fresh('c')), 'b')
        if isinstance(t, ClassV):
            return Const(k == t.name)
        al = {'str': ('str', 'basestring', 'unicode'), 'dict': ('dict',), 'ndarray': ('ndarray',), 'list': ('list',),
              'tuple': ('tuple',), 'int': ('int', 'Number', 'Integral'), 'float': ('float', 'Number'), 'scalar': (), 'sp': ('spmatrix',), 'func': ('FunctionType',)}
        if k == 'scalar':
            if all(n in ('str', 'basestring', 'unicode', 'dict', 'list', 'tuple', 'ndarray', 'spmatrix', 'FunctionType') for n in names) and \
                    len(names) == len(t.items if isinstance(t, Tup) else [t]):
                return Const(False)
            return scalar(P.fn('?isinstance' + P.fresh('c')), 'b')
        return Const(any(n in al.get(k, ()) for n in names))

    def type_name(self, st, v):
        I = self.I
        if isinstance(v, Const):
            if isinstance(v.v, str):
                return 'str'
            if isinstance(v.v, bool):
                return 'int'
            if isinstance(v.v, int):
                return 'int'
            if isinstance(v.v, float):
                return 'float'
            return 'none'
        if isinstance(v, Tup):
            return 'tuple'
        if isinstance(v, FuncV):
            return 'func'
        c = I.cell(st, v)
        if isinstance(c, DictCell):
            return 'dict'
        if isinstance(c, ListCell):
            return 'list'
        if isinstance(c, (ArrCell, ViewCell)):
            a = I.arr_of(st, v)
            if a is None:
                return None
            return 'sp' if a.kind == 'sp' else 'ndarray'
        if isinstance(c, ObjCell):
            return c.cls.name if c.cls is not None else 'obj'
        if isinstance(v, Arr):
            return 'scalar'
        return None

    def b_hasattr(self, st, args, kw, node):
        I = self.I
        c = I.cell(st, args[0])
        if isinstance(c, DictCell) and isinstance(args[1], Const):
            if not hasattr({}, args[1].v):
                I.event('hasattr-dict', node, 'hasattr(dict, %r) is never true' % args[1].v, st=st)
                return Const(False)
            return Const(True)
        if isinstance(c, ObjCell) and isinstance(args[1], Const) and c.cls is not None:
            return Const(args[1].v in c.attrs or args[1].v in c.cls.methods)
        if isinstance(args[0], FuncV) and isinstance(args[1], Const) and args[1].v[:2] != '__':
            c = st.heap.get('@%s.%s' % (args[0].mod.name, args[0].name))
            if c is None or args[1].v not in c.items:
                return Const(False)
            return scalar(I.present(c.items[args[1].v]), 'b')
        if isinstance(args[1], Const) and isinstance(args[1].v, str):
            n = args[1].v
            if isinstance(args[0], Const):
                return Const(hasattr(args[0].v, n))
            if isinstance(c, ListCell):
                return Const(hasattr([], n))
            if isinstance(args[0], Tup):
                return Const(hasattr((), n))
            if isinstance(c, ArrCell) and n in ('__len__', '__iter__', '__getitem__', 'shape', 'dtype', 'ndim', 'T', 'copy', 'astype'):
                return Const(True)
            if isinstance(args[0], Arr) and not args[0].shape and n in ('__len__', '__iter__', '__getitem__', 'append', 'keys'):
                return Const(False)
        return scalar(P.fn('?hasattr' + P.fresh('c')), 'b')

    def b_getattr(self, st, args, kw, node):
        if len(args) == 3 and isinstance(args[0], FuncV) and isinstance(args[1], Const):
            c = st.heap.get('@%s.%s' % (args[0].mod.name, args[0].name))
            return self.I.filled(c.items[args[1].v], lambda: args[2]) if c is not None and args[1].v in c.items else args[2]
        if len(args) > 1 and isinstance(args[1], Const) and isinstance(args[1].v, str):
            c = self.I.cell(st, args[0])
            if len(args) == 2 or (isinstance(c, ObjCell) and args[1].v in c.attrs):
                return self.I.getattr(args[0], args[1].v, st, node)
        return self.I.unk('builtin getattr')

    def b_int(self, st, args, kw, node):
        I = self.I
        if not args:
            return Const(0)
        if isinstance(args[0], Const) and isinstance(args[0].v, (int, float)):
            return Const(int(args[0].v))
        a = I.arr_of(st, args[0])
        if a is not None and (a.rank == 0 or all(d.const() == 1 for d in a.dims)):
            p = a.at(*[ZERO] * a.rank)
            return scalar(p if a.dtype in 'ib' else self.toint(p), 'i')
        return I.unk('int()')

    def b_float(self, st, args, kw, node):
        if isinstance(args[0], Const) and isinstance(args[0].v, str):
            try:
                return Const(float(args[0].v))
            except ValueError:
                self.I.event('type-error', node, 'float() of %r' % args[0].v, st=st)
        a = self.I.arr_of(st, args[0])
        if a is not None and a.rank == 0:
            return scalar(a.p(), 'f')
        return self.I.unk('float()')

    def b_bool(self, st, args, kw, node):
        t = self.I.truth(args[0], st, node)
        k = t.const()
        return Const(bool(k)) if k is not None else scalar(t, 'b')

    def b_open(self, st, args, kw, node):
        mode = args[1] if len(args) > 1 else kw.get('mode', Const('r'))
        if isinstance(args[0], Const) and isinstance(mode, Const):
            return text.FileV(args[0].v, mode.v)
        return text.FileV(None, None)

    def b_str(self, st, args, kw, node):
        if args and isinstance(args[0], Const) and isinstance(args[0].v, (str, int)) and not isinstance(args[0].v, bool):
            return Const(str(args[0].v))
        return Unk('str')

    b_repr = b_str

    def b_exec(self, st, args, kw, node):
        """exec of a string known to the analysis runs in the calling frame"""
        import ast
        from .interp import Budget
        v = args[0]
        if not (isinstance(v, Const) and isinstance(v.v, str)) or len(args) > 1:
            raise Budget("exec of a computed string %r" % (v,))
        r = self.I.exec_block(ast.parse(v.v).body, st, self.I.cur_frame)
        if r is not None and r is not st:
            st.env.clear()
            st.env.update(r.env)
            st.heap.clear()
            st.heap.update(r.heap)
        return NONE

    def b_eval(self, st, args, kw, node):
        import ast
        v = args[0]
        if not (isinstance(v, Const) and isinstance(v.v, str)) or len(args) > 1:
            return self.I.unk('eval')
        return self.I.ev(ast.parse(v.v, mode='eval').body, st, self.I.cur_frame)

    def n_result_type(self, st, args, kw, node):
        from .interp import join_dtype
        cs = []
        for x in args:
            c = self.dtype_code(x)
            if c is None:
                a = self.I.arr_of(st, x)
                if a is None:
                    return self.I.unk('result_type')
                c = a.dtype
            cs.append(c)
        d = cs[0]
        for c in cs[1:]:
            d = join_dtype(d, c)
        return Const('dtype:' + d)

    def b_print(self, st, args, kw, node):
        return NONE

    def b_sorted(self, st, args, kw, node):
        it = self.I.iter_items(args[0], st) if args else None
        if it is not None and all(isinstance(x, Const) for x in it) and not kw:
            return self.I.newlist(st, [Const(v) for v in sorted(x.v for x in it)])
        return self.I.unk('sorted')

    def b_zip(self, st, args, kw, node):
        its = [self.I.iter_items(a, st) for a in args]
        if any(i is None for i in its):
            ars = [self.I.arr_of(st, x) for x in args]
            if all(a is not None and a.rank and not a.dims[0].parts and a.dims[0] == ars[0].dims[0] for a in ars):
                return Zip(args)
            return self.I.unk('zip')
        return self.I.newlist(st, [Tup(x) for x in zip(*its)])

    def b_enumerate(self, st, args, kw, node):
        it = self.I.iter_items(args[0], st)
        s0 = args[1].v if len(args) > 1 and isinstance(args[1], Const) else 0
        if it is None:
            a = self.I.arr_of(st, args[0])
            if a is not None and a.rank and not a.dims[0].parts:
                return Zip([self.I.newarr(st, Arr(a.dims[:1], lambda i: flat(i) + P.const(s0), 'i')), args[0]])
            return self.I.unk('enumerate')
        return self.I.newlist(st, [Tup([Const(i + s0), x]) for i, x in enumerate(it)])

    def b_set(self, st, args, kw, node):
        return self.b_list(st, args, kw, node)

    def b_slice(self, st, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        while len(a) < 3:
            a.append(NONE)
        return SliceV(*a)

    def b_callable(self, st, args, kw, node):
        return Const(isinstance(args[0], (FuncV, PyFunc)))

    def b_copy(self, st, args, kw, node, deep=False):
        I = self.I
        v = args[0]
        return self.copyval(st, v, deep, {})

    def copyval(self, st, v, deep, memo):
        I = self.I
        if isinstance(v, Ref):
            if v.loc in memo:
                return memo[v.loc]
            c = st.heap.get(v.loc, I.modheap.get(v.loc))
            if isinstance(c, (ArrCell, ViewCell)):
                a = I.arr_of(st, v)
                r = I.alloc(st, ArrCell(a)) if a is not None else I.unk('copy')
            elif isinstance(c, DictCell):
                r = I.alloc(st, DictCell({}, c.open, c.name))
                memo[v.loc] = r
                st.heap[r.loc] = DictCell({k: (self.copyval(st, x, True, memo) if deep else x) for k, x in c.items.items()}, c.open, c.name)
            elif isinstance(c, ListCell):
                r = I.alloc(st, ListCell([(self.copyval(st, x, True, memo) if deep else x) for x in c.items]))
            elif isinstance(c, ObjCell):
                r = I.alloc(st, ObjCell(c.cls, {k: (self.copyval(st, x, True, memo) if deep else x) for k, x in c.attrs.items()}))
            else:
                r = I.alloc(st, UnkCell('copy'))
            memo[v.loc] = r
            return r
        if isinstance(v, Phi):
            return I.phi(v.c, self.copyval(st, v.a, deep, memo), self.copyval(st, v.b, deep, memo))
        if isinstance(v, Tup) and deep:
            return Tup([self.copyval(st, x, True, memo) for x in v.items])
        return v

    # -- numpy
    def arrs(self, st, args):
        return [self.I.arr_of(st, a) for a in args]

    def np_call(self, st, f, args, kw, node):
        I = self.I
        N = lambda x: I.newarr(st, x) if isinstance(x, Arr) else (x if x is not None else I.unk(f))
        h = getattr(self, 'n_' + f, None)
        if h is not None:
            return h(st, args, kw, node)
        A = self.arrs(st, args)
        a = A[0] if A else None
        if f == 'isnan' and a is not None and I.nonan:
            return N(Arr(a.dims, lambda *ix: ZERO, 'b', a.kind))
        if f in ('isinf', 'isfinite') and a is not None and I.finite:
            from .interp import INF
            z = lambda p: P.shannon(p, lambda q: ONE if q in (INF, -INF) else ZERO)
            return N(Arr(a.dims, lambda *ix: z(a.at(*ix)) if f == 'isinf' else ONE - z(a.at(*ix)), 'b', a.kind))
        if f in ELEM and a is not None:
            g, dt = ELEM[f]
            return N(Arr(a.dims, lambda *ix: g(a.at(*ix)), dt or a.dtype, a.kind))
        if f in ('conj', 'conjugate') and a is not None:
            return N(self.map1(a, lambda p: p.conj()))
        if f in ('absolute', 'abs', 'fabs') and a is not None:
            return N(self.map1(a, lambda p: far_abs(p), 'f' if a.dtype == 'c' else a.dtype))
        if f in ('real', 'imag') and a is not None:
            return N(self.map1(a, lambda p: getattr(p, f)(), 'f' if a.dtype == 'c' else a.dtype))
        if f in ('asarray', 'asmatrix', 'matrix', 'asanyarray', 'ascontiguousarray', 'copy'):
            if a is None:
                return I.unk(f)
            kind = 'mat' if f in ('asmatrix', 'matrix') else 'nd'
            if f == 'copy':
                kind = a.kind
            if kind == 'mat' and a.rank == 1:
                b = a
                a = Arr((cdim(1), b.dims[0]), lambda i, j: b.at(j), b.dtype, 'mat')
            if f in ('asarray', 'asanyarray') and a.kind == 'nd' and isinstance(args[0], Ref):
                return args[0]
            return N(Arr(a.dims, a.at, a.dtype, kind))
        if f in ('logical_and', 'logical_or', 'logical_not') and a is not None:
            x = self.to_bool(a)
            if f == 'logical_not':
                return N(self.map1(x, lambda p: ONE - p, 'b'))
            y = self.to_bool(A[1])
            return N(self.binop(st, '&' if f == 'logical_and' else '|', x, y, node))
        if f in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'power') and a is not None and A[1] is not None:
            op = {'multiply': '*', 'add': '+', 'subtract': '-', 'divide': '/', 'true_divide': '/', 'power': '**'}[f]
            if op == '*':
                from .interp import join_dtype
                return N(self.ewise(a, A[1], lambda p, q: p * q, join_dtype(a.dtype, A[1].dtype)))
            return N(self.binop(st, op, a, A[1], node))
        if f in ('dot', 'matmul') and a is not None and A[1] is not None:
            return N(self.matmul(a, A[1], node, st))
        if f == 'outer' and a is not None and A[1] is not None:
            b = A[1]
            return N(Arr((a.dims[0], b.dims[0]), lambda i, j: a.at(i) * b.at(j), 'f'))
        return I.unk('numpy.' + f)

    def n_array(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        if a is None:
            return I.unk('array()')
        if dt is not None and not (isinstance(dt, Const) and dt.v is None):
            a = self.astype(a, dt)
        return I.newarr(st, Arr(a.dims, a.at, a.dtype, 'nd')) if a.rank else a

    def n_zeros(self, st, args, kw, node):
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        c = self.dtype_code(dt) if dt is not None else 'f'
        return self.filled(st, args[0] if args else kw.get('shape'), ZERO, c or 'f')

    def n_ones(self, st, args, kw, node):
        dt = args[1] if len(args) > 1 else kw.get('dtype')
        c = self.dtype_code(dt) if dt is not None else 'f'
        return self.filled(st, args[0] if args else kw.get('shape'), ONE, c or 'f')

    n_empty = n_zeros

    def n_full(self, st, args, kw, node):
        a = self.I.arr_of(st, args[1])
        return self.filled(st, args[0], a.p(), a.dtype) if a is not None and a.rank == 0 else self.I.unk('full')

    def n_zeros_like(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return self.I.newarr(st, Arr(a.dims, lambda *ix: ZERO, a.dtype)) if a is not None else self.I.unk('zeros_like')

    def n_ones_like(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return self.I.newarr(st, Arr(a.dims, lambda *ix: ONE, a.dtype)) if a is not None else self.I.unk('ones_like')

    def n_eye(self, st, args, kw, node, kind='nd'):
        d = self.dim_of(st, args[0])
        e = self.dim_of(st, args[1]) if len(args) > 1 else d
        if d is None or e is None:
            return self.I.unk('eye')
        return self.I.newarr(st, Arr((d, e), lambda i, j: P.eq(flat(i) - flat(j)), 'f', kind))

    n_identity = n_eye

    def n_arange(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args)
        if any(a is None or a.rank for a in A) or not 1 <= len(A) <= 2:
            cs = [a.p().const_int() if a is not None and a.rank == 0 else None for a in A]
            if len(A) == 3 and cs[2] == 1:
                A = A[:2]
            elif len(A) == 3 and cs[2] and None not in cs:
                return I.newarr(st, const_vec(range(*cs), 'f' if any(a.dtype == 'f' for a in A) else 'i'))
            else:
                return I.unk('arange')
        for a in A:
            if a.dtype == 'f':
                dt = 'f'
        lo, hi = (ZERO, A[0].p()) if len(A) == 1 else (A[0].p(), A[1].p())
        r = self.arange_arr(lo, hi)
        if 'dtype' in kw:
            r.dtype = self.dtype_code(kw['dtype']) or 'f'
        elif any(a.dtype == 'f' for a in A):
            r.dtype = 'f'
        return I.newarr(st, r)

    def n_diag(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        k = args[1] if len(args) > 1 else kw.get('k', Const(0))
        if a is None or not (isinstance(k, Const) and k.v == 0):
            return self.I.unk('diag')
        return self.I.newarr(st, self.diag(a, 'nd'))

    def n_matrix(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None or a.rank > 2:
            return self.I.unk('matrix')
        if a.rank == 0:
            a2 = Arr((cdim(1), cdim(1)), lambda i, j: a.p(), a.dtype, 'mat')
        elif a.rank == 1:
            a2 = Arr((cdim(1), a.dims[0]), lambda i, j: a.at(j), a.dtype, 'mat')
        else:
            a2 = Arr(a.dims, a.at, a.dtype, 'mat')
        return self.I.newarr(st, a2)

    n_asmatrix = n_matrix
    n_mat = n_matrix

    def diag(self, a, kind):
        if a.rank == 1:
            return Arr((a.dims[0], a.dims[0]), lambda i, j: dmul(i, j, a.at(i)), a.dtype, kind)
        return Arr((a.dims[0],), lambda i: a.at(i, i), a.dtype)

    def n_diagflat(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        r = self.ravel(a) if a is not None else None
        return self.I.newarr(st, self.diag(r, 'nd')) if r is not None else self.I.unk('diagflat')

    def n_flatnonzero(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None or a.rank > 2 or a.rank == 0:
            return self.I.unk('find')
        if a.rank == 2:
            a = self.ravel(a)
            if a is None:
                return self.I.unk('find 2-D')
        return self.I.newarr(st, self.find(self.to_bool(a)))

    def n_nonzero(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None or a.rank != 1:
            return self.I.unk('nonzero')
        return Tup([self.I.newarr(st, self.find(self.to_bool(a)))])

    def n_where(self, st, args, kw, node):
        if len(args) == 1:
            return self.n_nonzero(st, args, kw, node)
        I = self.I
        A = self.arrs(st, args)
        if any(a is None for a in A):
            return I.unk('where')
        c, x, y = A
        c = self.to_bool(c)
        from .interp import join_dtype
        t = self.ewise(x, y, lambda p, q: p, 'f')
        dims = self.broadcast(c, t)
        gc, gx, gy = self.bcat(c, dims), self.bcat(x, dims), self.bcat(y, dims)
        return I.newarr(st, Arr(dims, lambda *ix: gc(*ix) * gx(*ix) + (ONE - gc(*ix)) * gy(*ix),
                                join_dtype(x.dtype, y.dtype)))

    def n_arctan2(self, st, args, kw, node):
        A = self.arrs(st, args)
        if len(A) != 2 or any(a is None for a in A) or kw:
            return self.I.unk('arctan2')
        return self.I.newarr(st, self.ewise(A[0], A[1], lambda y, x: P.angle(x + J * y), 'f'))

    def n_angle(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None or len(args) > 1 or kw:
            return self.I.unk('angle')
        return self.I.newarr(st, self.map1(a, P.angle, 'f'))

    def n_sum(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if a is None:
            return I.unk('sum')
        if a.rank == 0:
            return a
        dt = 'i' if a.dtype == 'b' else a.dtype
        if ax is None or (isinstance(ax, Const) and ax.v is None):
            if a.rank == 1:
                return scalar(sumdim(a.dims[0], lambda i: a.at(i)), dt)
            return scalar(sumdim(a.dims[0], lambda i: sumdim(a.dims[1], lambda j: a.at(i, j))), dt)
        if not isinstance(ax, Const):
            return I.unk('sum axis')
        k = ax.v % a.rank
        if a.rank == 1:
            return scalar(sumdim(a.dims[0], lambda i: a.at(i)), dt)
        if a.rank == 2:
            if k == 0:
                r = Arr((a.dims[1],), lambda j: sumdim(a.dims[0], lambda i: a.at(i, j)), dt)
                if a.kind in ('sp', 'mat'):
                    return I.newarr(st, Arr((cdim(1), a.dims[1]), lambda i, j: r.at(j), dt, 'mat'))
            else:
                r = Arr((a.dims[0],), lambda i: sumdim(a.dims[1], lambda j: a.at(i, j)), dt)
                if a.kind in ('sp', 'mat'):
                    return I.newarr(st, Arr((a.dims[0], cdim(1)), lambda i, j: r.at(i), dt, 'mat'))
            return I.newarr(st, r)
        return I.unk('sum')

    def n_bsum(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is not None and a.rank == 1 and len(args) == 1:
            return self.n_sum(st, args, kw, node)
        if a is not None and a.rank == 2 and a.kind == 'nd' and len(args) == 1:
            return self.n_sum(st, [args[0], Const(0)], kw, node)
        return self.I.unk('builtin sum')

    def n_any(self, st, args, kw, node, which='any'):
        I = self.I
        a = I.arr_of(st, args[0])
        if a is None or len(args) > 1 or kw:
            if a is not None and a.rank == 2 and a.kind == 'nd':
                ax = args[1] if len(args) > 1 else kw.get('axis')
                if isinstance(ax, Const) and ax.v in (0, 1):
                    b = self.to_bool(a)
                    k = ax.v
                    d = a.dims[1 - k]
                    row = (lambda i: Arr((a.dims[k],), (lambda j: b.at(j, i)) if k == 0 else (lambda j: b.at(i, j)), 'b'))

                    def f(i):
                        m = row(i)
                        cnt = sumdim(m.dims[0], lambda j: m.at(j) if which == 'any' else ONE - m.at(j))
                        p = P.ne(cnt)
                        return p if which == 'any' else ONE - p
                    return I.newarr(st, Arr((d,), f, 'b'))
            return I.unk('any')
        if a.rank == 0:
            return scalar(self.to_bool(a).p(), 'b')
        b = self.to_bool(a)
        if a.rank == 1:
            m = b if which == 'any' else self.map1(b, lambda p: ONE - p, 'b')
            n = self.find(m).dims[0].size
            p = ne_size(n)
        else:
            if b.kind == 'sp':
                return I.unk('any sparse')
            e = entries(b)
            vals = set(e.values())
            if vals == {ZERO}:
                p = ZERO if which == 'any' else ONE
            elif vals == {ONE}:
                p = ONE
                return Const(True)
            else:
                p = P.fn(opaque_name(which, b))
                k = None
                return scalar(p, 'b')
            if which == 'all':
                return scalar(p, 'b')
        if which == 'all':
            p = ONE - p
        k = p.const()
        return Const(bool(k)) if k is not None else scalar(p, 'b')

    def n_all(self, st, args, kw, node):
        return self.n_any(st, args, kw, node, 'all')

    def n_bany(self, st, args, kw, node, which='any'):
        I = self.I
        it = I.seq_items(args[0], st)
        if it is not None:
            t = ZERO if which == 'any' else ONE
            for x in it:
                q = I.truth(x, st, node)
                t = t + q - t * q if which == 'any' else t * q
            k = t.const()
            return Const(bool(k)) if k is not None else scalar(t, 'b')
        a = I.arr_of(st, args[0])
        if a is not None and a.rank == 2 and a.kind == 'nd':
            I.event('builtin-any-2d', node, 'builtin %s() over the rows of a 2-D array' % which, st=st)
            return I.unk('builtin any 2-D')
        return self.n_any(st, args, kw, node, which)

    def n_ball(self, st, args, kw, node):
        return self.n_bany(st, args, kw, node, 'all')

    def red(self, st, f, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        if a is None:
            return I.unk(f)
        ax = args[1] if len(args) > 1 else kw.get('axis')
        if ax is None:
            if a.rank == 0:
                return a
            cs = const_entries(a)
            if cs and f in ('max', 'min', 'argmax', 'argmin'):
                v = (max if f[-3:] == 'max' else min)(cs)
                v = cs.index(v) if f[:3] == 'arg' else v
                return Const(int(v)) if a.dtype == 'i' or f[:3] == 'arg' else scalar(P.const(v), a.dtype)
            if f in ('max', 'min') and a.rank == 1 and a.dims[0].const() is not None and 1 <= a.dims[0].const() <= 6:
                ps = sorted(set(a.at(P.const(i)) for i in range(a.dims[0].const())), key=str)
                return scalar(P.fn(f, *ps) if len(ps) > 1 else ps[0], a.dtype)
            if f in ('max', 'min') and a.rank == 1 and I.letsize and a.dims[0].sel:
                ms = self.picked(a)
                if ms:
                    ms = sorted(((m, I.small(x)) for m, x in ms if m.t), key=str)
                    if ms:
                        return scalar(P.fn(f + 'sel', *[x for q in ms for x in q]), a.dtype)
            return scalar(P.atom(opaque_name(f, a)), a.dtype)
        if a.rank == 2 and isinstance(ax, Const) and ax.v in (0, 1):
            d = a.dims[1 - ax.v]
            nm = opaque_name('%s_ax%d' % (f, ax.v), a)
            return I.newarr(st, Arr((d,), lambda i: P.atom(nm, flat(i)), a.dtype))
        if a.rank == 1:
            return scalar(P.atom(opaque_name(f, a)), a.dtype)
        return I.unk(f)

    def n_max(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is not None and a.rank == 1 and len(args) == 1 and not kw and not const_entries(a):
            r = self.maxabs(a)
            if r is not None:
                return r
        return self.red(st, 'max', args, kw, node)

    def maxabs(self, a):
        """max(abs(x)) as inf-norm of x"""
        e = entries(a)
        subs = {}
        for k, p in e.items():
            s = p.single()
            if s is None:
                return None
            (b, fs), c = s
            if b or len(fs) != 1 or fs[0][1] != 1 or fs[0][0][0] != 'abs' or c <= 0:
                return None
            subs[k] = fs[0][0][1].scale(c)
        return scalar(P.atom(self.norm_name('norminf', subs, block_dims(a))), 'f')

    def norm_name(self, f, e, dims):
        """name of a norm of an array given by entries; insensitive to sign and to block order"""
        s = []
        for k in e:
            p = e[k]
            q = -p
            lab = k[0].split(':')[-1]
            s.append(min(p.s(), q.s()))
        unk = any(poly_unknown(p) for p in e.values())
        import hashlib
        nm = '%s%s{%s}' % ('?' if unk else '', f, hashlib.sha1(';'.join(sorted(s)).encode()).hexdigest()[:10])
        if nm not in NORMS:
            NORMS[nm] = (f, dict(e), lambda f2, e2: self.norm_name(f2, e2, dims))
            NORMDIMS[nm] = dims
        return nm

    def n_min(self, st, args, kw, node):
        return self.red(st, 'min', args, kw, node)

    n_amax = n_max
    n_amin = n_min

    def n_nanmax(self, st, args, kw, node):
        return self.n_max(st, args, kw, node) if self.I.nonan else self.I.unk('nanmax of numbers that may be nan')

    def n_bmax(self, st, args, kw, node, f='max'):
        I = self.I
        if len(args) > 1:
            A = self.arrs(st, args)
            if all(a is not None and a.rank == 0 for a in A):
                ks = [a.p().const() for a in A]
                if all(k is not None for k in ks):
                    v = (max if f == 'max' else min)(ks)
                    return args[ks.index(v)]
                return scalar(P.fn(f, *sorted([a.p() for a in A], key=str)), 'f')
            return I.unk('builtin ' + f)
        it = I.seq_items(args[0], st) if I.arr_of(st, args[0]) is None else None
        if it:
            A = self.arrs(st, it)
            if all(a is not None and (a.rank == 0 or a.rank == 1 and a.dims[0].const() == 1) for a in A):
                if len(A) == 1:
                    return it[0]
                return self.n_bmax(st, [scalar(a.p() if a.rank == 0 else a.at(ZERO), a.dtype) for a in A], {}, node, f)
        return self.red(st, f, args, kw, node) if f == 'min' else self.n_max(st, args, kw, node)

    def n_bmin(self, st, args, kw, node):
        return self.n_bmax(st, args, kw, node, 'min')

    def n_maximum(self, st, args, kw, node, f='max'):
        A = self.arrs(st, args)
        if any(a is None for a in A):
            return self.I.unk(f)
        return self.I.newarr(st, self.ewise(A[0], A[1], lambda p, q: P.fn(f, *sorted([p, q], key=str)), A[0].dtype))

    def n_clip(self, st, args, kw, node):
        a = list(args) + [NONE] * (3 - len(args))
        lo, hi = kw.get('a_min', kw.get('min', a[1])), kw.get('a_max', kw.get('max', a[2]))
        r = args[0]
        if lo != NONE:
            r = self.n_maximum(st, [r, lo], {}, node)
        return self.n_maximum(st, [r, hi], {}, node, 'min') if hi != NONE else r

    def n_minimum(self, st, args, kw, node):
        return self.n_maximum(st, args, kw, node, 'min')

    def n_mean(self, st, args, kw, node):
        return self.red(st, 'mean', args, kw, node)

    def n_argmax(self, st, args, kw, node):
        r = self.red(st, 'argmax', args, kw, node)
        if isinstance(r, Arr):
            r.dtype = 'i'
        return r

    def n_argmin(self, st, args, kw, node):
        r = self.red(st, 'argmin', args, kw, node)
        if isinstance(r, Arr):
            r.dtype = 'i'
        return r

    def n_concatenate(self, st, args, kw, node):
        I = self.I
        it = I.seq_items(args[0], st)
        ax = args[1] if len(args) > 1 else kw.get('axis', Const(0))
        if it is None or not isinstance(ax, Const):
            return I.unk('concatenate')
        A = self.arrs(st, it)
        if any(a is None for a in A) or any(a.rank == 0 for a in A):
            return I.unk('concatenate')
        r = self.concat(st, A, ax.v % A[0].rank)
        return I.newarr(st, r) if r is not None else I.unk('concatenate')

    def stack(self, st, args, kw, axis, kind):
        I = self.I
        it = I.seq_items(args[0], st)
        if it is None:
            return I.unk('stack')
        A = [I.arr_of(st, x) for x in it if not (isinstance(x, Const) and x.v is None)]
        if any(a is None for a in A):
            return I.unk('stack')
        B = []
        for a in A:
            if a.rank == 1:
                if kind == 'nd' and axis == 1:
                    B.append(a)
                else:
                    B.append(Arr((cdim(1), a.dims[0]), lambda i, j, a=a: a.at(j), a.dtype, kind))
            else:
                B.append(a)
        if B[0].rank == 1 and axis == 1:
            r = self.concat(st, B, 0)
        else:
            r = self.concat(st, B, axis, kind)
        if r is None:
            return I.unk('stack')
        return I.newarr(st, Arr(r.dims, r.at, r.dtype, kind))

    def n_vstack(self, st, args, kw, node):
        return self.stack(st, args, kw, 0, 'nd')

    def n_hstack(self, st, args, kw, node):
        return self.stack(st, args, kw, 1, 'nd')

    def n_ix_(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args)
        if any(a is None or a.rank != 1 for a in A) or len(A) != 2:
            return I.unk('ix_')
        A = [self.find(a) if a.dtype == 'b' else a for a in A]
        x, y = A
        return Tup([I.newarr(st, Arr((x.dims[0], cdim(1)), lambda i, j: x.at(i), x.dtype)),
                    I.newarr(st, Arr((cdim(1), y.dims[0]), lambda i, j: y.at(j), y.dtype))])

    def n_size(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None:
            return self.I.unk('size')
        if len(args) > 1 and isinstance(args[1], Const):
            return self.size_value(a.dims[args[1].v].size)
        return self.array_attr(st, args[0], a, 'size')

    def n_shape(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return self.array_attr(st, args[0], a, 'shape') if a is not None else self.I.unk('shape')

    def n_isscalar(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return Const(a.rank == 0) if a is not None else self.I.unk('isscalar')

    def n_transpose(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return self.I.newarr(st, self.transpose(a)) if a is not None else self.I.unk('transpose')

    def n_reshape(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return self.reshape(st, a, args[1:]) if a is not None else self.I.unk('reshape')

    def n_ravel(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        r = self.ravel(a) if a is not None else None
        return self.I.newarr(st, r) if r is not None else self.I.unk('ravel')

    def n_tile(self, st, args, kw, node):
        return self.I.unk('tile')

    def n_polyval(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args)
        if any(a is None for a in A) or A[0].rank != 1 or A[1].rank != 0:
            return I.unk('polyval')
        n = A[0].dims[0].const()
        if n is None:
            return I.unk('polyval')
        r = ZERO
        for i in range(n):
            r = r * A[1].p() + A[0].at(P.const(i))
        return scalar(r, 'f')

    def setop(self, st, f, args, kw, node):
        """order-insensitive opaque index set"""
        I = self.I
        A = self.arrs(st, args)
        if any(a is None or a.rank > 1 for a in A):
            return I.unk(f)
        xs = [const_entries(a) if a.rank == 1 else None for a in A]
        if all(x is not None for x in xs) and (len(xs) == 2 or f in ('unique', 'sort')):
            if f == 'sort':
                r = sorted(xs[0])
            elif f == 'unique':
                r = sorted(set(xs[0]))
            elif f == 'union':
                r = sorted(set(xs[0]) | set(xs[1]))
            elif f == 'intersect':
                r = sorted(set(xs[0]) & set(xs[1]))
            else:
                r = sorted(set(xs[0]) - set(xs[1]))
            return I.newarr(st, const_vec(r))
        nm = opaque_name(f, *A)
        P.declare(nm, real=True, int=True)
        P.declare('n' + nm, nonneg=True, int=True)
        return I.newarr(st, Arr((Dim(size=P.atom('n' + nm)),), lambda i: P.atom(nm, flat(i)), A[0].dtype))

    def n_delete(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        ix = self.arrs(st, args[1:2])[0] if len(args) > 1 else None
        ax = args[2] if len(args) > 2 else kw.get('axis')
        if a is None or ix is None or ix.rank > 1:
            return I.unk('delete')
        k = 0
        if ax is None or isinstance(ax, Const) and ax.v is None:
            if a.rank != 1:
                return I.unk('delete')
        else:
            k = getattr(ax, 'v', None)
            if not isinstance(k, int):
                return I.unk('delete')
        n = a.dims[k].const()
        ks = const_entries(ix) if ix.rank == 1 else ([ix.at().const()] if ix.at().const() is not None else None)
        if n is None or ks is None:
            return I.unk('delete')
        gone = set(int(c) % n for c in ks)
        sel = [ALL] * a.rank
        sel[k] = const_vec([i for i in range(n) if i not in gone])
        return I.newarr(st, self.getitem_arr(st, a, sel))

    def n_setdiff1d(self, st, args, kw, node):
        return self.setop(st, 'setdiff', args, kw, node)

    def n_union1d(self, st, args, kw, node):
        return self.setop(st, 'union', args, kw, node)

    def n_intersect1d(self, st, args, kw, node):
        return self.setop(st, 'intersect', args, kw, node)

    def n_unique(self, st, args, kw, node):
        if kw or len(args) > 1:
            return self.I.unk('unique')
        return self.setop(st, 'unique', args, kw, node)

    def n_sort(self, st, args, kw, node):
        return self.setop(st, 'sort', args, kw, node)

    def n_ndim(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        return Const(a.rank) if a is not None else self.I.unk('ndim')

    def n_argsort(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        if a is None or a.rank != 1:
            return I.unk('argsort')
        xs = const_entries(a)
        if xs is not None:
            return I.newarr(st, const_vec(sorted(range(len(xs)), key=lambda k: xs[k])))
        nm = opaque_name('argsort', a)
        P.declare(nm, real=True, int=True)
        return I.newarr(st, Arr(a.dims, lambda i: P.atom(nm, flat(i)), 'i'))

    def n_cumsum(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        if a is None or a.rank != 1:
            return I.unk('cumsum')
        n = a.dims[0].const()
        if n is not None and n <= 60:
            def f(i):
                i = flat(i)
                c = i.const_int()
                acc = ZERO
                for k in range(n if c is None else c + 1):
                    t = a.at(P.const(k))
                    acc = acc + (t if c is not None else t * (ONE - P.gt(P.const(k) - i)))
                return acc
            return I.newarr(st, Arr(a.dims, f, a.dtype))
        nm = opaque_name('cumsum', a)
        return I.newarr(st, Arr(a.dims, lambda i: P.atom(nm, flat(i)), a.dtype))

    def n_diff(self, st, args, kw, node):
        I = self.I
        a = I.arr_of(st, args[0])
        if a is None or a.rank != 1 or len(args) > 1 or kw or a.dims[0].parts:
            return I.unk('diff')
        d = Dim(size=a.dims[0].size - 1)
        return I.newarr(st, Arr((d,), lambda i: a.at(aspoly(i) + 1) - a.at(i), a.dtype))

    def n_in1d(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args)
        if any(a is None for a in A):
            return I.unk('in1d')
        nm = opaque_name('isin', A[1])
        return I.newarr(st, Arr(A[0].dims, lambda *ix: P.fn('isin', nm, A[0].at(*ix)), 'b'))

    n_isin = n_in1d

    def n_issparse(self, st, args, kw, node):
        return self.sp_call(st, 'issparse', args, kw, node)

    def n_sign(self, st, args, kw, node):
        a = self.I.arr_of(st, args[0])
        if a is None:
            return self.I.unk('sign')
        return self.I.newarr(st, self.map1(a, lambda p: P.gt(p) - P.gt(-p)))

    def n_polyder(self, st, args, kw, node):
        return self.I.unk('polyder')

    def n_array_equal(self, st, args, kw, node):
        I = self.I
        A = self.arrs(st, args[:2])
        if any(a is None for a in A):
            return I.unk('array_equal')
        a, b = A
        if a.rank != b.rank:
            return Const(False)
        for d, e in zip(a.dims, b.dims):
            m, n = d.const(), e.const()
            if m is not None and n is not None and m != n:
                return Const(False)
        if a.rank == 1:
            x, y = const_entries(a), const_entries(b)
            if x is not None and y is not None:
                return Const(x == y)
        if all(d.const() is not None and e.const() is not None for d, e in zip(a.dims, b.dims)) and a.rank == 1 and a.dims[0].const() <= 60:
            e = [(a.at(P.const(i)) - b.at(P.const(i))) for i in range(a.dims[0].const())]
            if all(x.const() == 0 for x in e):
                return Const(True)
            r = P.const(1)
            for x in e:
                r = r * P.eq(x)
            return scalar(r, 'b')
        return scalar(P.fn('?array_equal' + P.fresh('c')), 'b')

    def n_int32(self, st, args, kw, node):
        return self.b_int(st, args, kw, node)

    n_int64 = n_int32

    # -- scipy.sparse
    def sp_call(self, st, f, args, kw, node):
        I = self.I
        N = lambda x: I.newarr(st, x) if x is not None else I.unk('sparse.' + f)
        if f in ('issparse', 'isspmatrix', 'isspmatrix_csr'):
            v = args[0]
            if isinstance(v, Const):
                return Const(False)
            a = I.arr_of(st, v)
            if a is not None:
                return Const(a.kind == 'sp')
            if isinstance(v, (Tup,)) or isinstance(I.cell(st, v), (DictCell, ListCell)):
                return Const(False)
            return scalar(P.fn('?issparse' + P.fresh('c')), 'b')
        if f in ('csr_matrix', 'csc_matrix', 'coo_matrix', 'lil_matrix', 'csr_array', 'csc_array', 'dok_matrix'):
            return self.sp_build(st, args, kw, node)
        if f in ('vstack', 'hstack'):
            return self.stack(st, args, kw, 0 if f == 'vstack' else 1, 'sp')
        if f in ('eye', 'identity', 'speye'):
            a2 = [args[0]]
            if len(args) > 1 and not (isinstance(args[1], Const) and isinstance(args[1].v, str)):
                a2.append(args[1])
            r = self.n_eye(st, a2, {}, node, 'sp')
            return r
        if f in ('spdiags', 'dia_matrix', 'diags'):
            if f == 'diags' and len(args) >= 1:
                a = I.arr_of(st, args[0])
                k = args[1] if len(args) > 1 else kw.get('offsets', Const(0))
                if a is not None and a.rank == 1 and isinstance(k, Const) and k.v == 0:
                    return N(self.diag(a, 'sp'))
            if f == 'spdiags' and len(args) == 4:
                a = I.arr_of(st, args[0])
                if a is not None and a.rank == 1 and isinstance(args[1], Const) and args[1].v == 0:
                    return N(self.diag(a, 'sp'))
            return I.unk(f)
        if f == 'kron' or f == 'bmat' or f == 'block_diag':
            return I.unk(f)
        if f == 'find':
            return I.unk('sparse.find')
        return I.unk('sparse.' + f)

    def sp_build(self, st, args, kw, node):
        I = self.I
        shp = args[1] if len(args) > 1 else kw.get('shape')
        v = args[0]
        it = I.seq_items(v, st)
        if it is not None and len(it) == 2:
            ij = I.seq_items(it[1], st)
            if ij is not None and len(ij) == 2:
                d, i, j = I.arr_of(st, it[0]), I.arr_of(st, ij[0]), I.arr_of(st, ij[1])
                if d is None or i is None or j is None:
                    return I.unk('sparse triplet')
                if i.rank != 1 or j.rank != 1:
                    return I.unk('sparse triplet rank')
                kd = i.dims[0]
                for x in (j.dims[0],) + ((d.dims[0],) if d.rank == 1 else ()):
                    kd = pick_dim(kd, x) if kd.parts or not x.parts else x
                if d.rank == 1 and d.dims[0].parts is None and not kd.parts:
                    kd = d.dims[0] if d.dims[0].sel is not None else kd
                if shp is not None:
                    ds = self.dims_of(st, shp)
                    if ds is None or len(ds) != 2:
                        return I.unk('sparse shape')
                else:
                    # shape inferred from the indices: a full 0..n-1 range
                    ds = []
                    for x in (i, j):
                        q = Arr(x.dims, x.at, 'i')
                        if not q.dims[0].parts:
                            v0 = P.ixvar_raw('$0')
                            if q.at(v0) == v0:
                                ds.append(q.dims[0])
                                continue
                        ce = const_entries(q)
                        if ce:
                            ds.append(cdim(int(max(ce)) + 1))
                            continue
                        ds.append(Dim(size=P.atom(opaque_name('maxp1', q))))
                # Dim objects with structure: prefer the index range itself
                cplx = d.dtype
                dat = (lambda k: d.at(k)) if d.rank == 1 else (lambda k: d.p())
                if d.dtype == 'b':
                    cplx = 'b'
                return I.newarr(st, Arr(ds, lambda r, c: sumdim(
                    kd, lambda k: dmul2(i.at(k), r, j.at(k), c, dat(k))), cplx, 'sp'))
            # (m, n) -> zero matrix
            ds = self.dims_of(st, v)
            if ds is not None and all(self.I.arr_of(st, x) is not None and self.I.arr_of(st, x).rank == 0 for x in it) \
                    and isinstance(v, Tup):
                return I.newarr(st, Arr(ds, lambda i, j: ZERO, 'f', 'sp'))
        a = I.arr_of(st, v)
        if a is None:
            return I.unk('sparse()')
        if a.rank == 1:
            return I.newarr(st, Arr((cdim(1), a.dims[0]), lambda i, j: a.at(j), a.dtype, 'sp'))
        return I.newarr(st, Arr(a.dims, a.at, a.dtype, 'sp'))

    def n_finfo(self, st, args, kw, node):
        return self.I.alloc(st, ObjCell(None, {'eps': scalar(P.atom('eps'), 'f')}))

    # -- linear algebra
    def linsolve(self, st, f, args, kw, node):
        I = self.I
        if f in ('spsolve', 'solve'):
            A, b = self.arrs(st, args[:2])
            if A is None or b is None:
                return I.unk(f)
            r = self.solve(A, b)
            if f == 'spsolve' and r.rank == 2 and r.dims[1].const() == 1:
                r2 = r
                r = Arr((r2.dims[0],), lambda i: r2.at(i, ZERO), r2.dtype)
            return I.newarr(st, r)
        if f in ('splu', 'factorized'):
            A = I.arr_of(st, args[0])
            if A is None:
                return I.unk(f)

            def solve(Itp, s, a, k):
                b = Itp.arr_of(s, a[0])
                return Itp.newarr(s, self.solve(A, b)) if b is not None else Itp.unk('solve')
            pf = PyFunc(solve, 'solve')
            return pf if f == 'factorized' else I.alloc(st, ObjCell(None, {'solve': pf}))
        return I.unk('linalg.' + f)

    def solve(self, A, b):
        """A \\ b, uninterpreted in A, linear in the sign of b"""
        nA = opaque_name('solve', A, Arr(b.dims, b.at, b.dtype) if b.rank == 1 else b)
        dt = 'c' if 'c' in (A.dtype, b.dtype) else 'f'
        P.declare(nA, real=dt != 'c')
        return Arr((A.dims[1],) + b.dims[1:], lambda *ix: P.atom(nA, *[flat(i) for i in ix]), dt)

    def linalg(self, st, f, args, kw, node):
        I = self.I
        if f == 'norm':
            a = I.arr_of(st, args[0])
            o = args[1] if len(args) > 1 else kw.get('ord')
            if a is None:
                return I.unk('norm')
            isinf = isinstance(o, ExtV) and o.name.endswith('.inf') or isinstance(o, ExtV) and o.name.lower().endswith('.inf') or \
                isinstance(o, Const) and o.v == float('inf')
            if isinf and a.rank == 1:
                return scalar(P.atom(self.norm_name('norminf', entries(a), block_dims(a))), 'f')
            n = a.dims[0].const() if a.rank == 1 and not a.dims[0].parts else None
            if n is not None and n <= 12 and (o is None or isinstance(o, Const) and o.v in (None, 2)):
                t = ZERO
                for i in range(n):
                    p = P.pabs(a.at(P.const(i))) if a.dtype == 'c' else a.at(P.const(i))
                    t = t + p * p
                return scalar(P.power(t, Fraction(1, 2)), 'f')
            return scalar(P.atom(opaque_name('norm%s' % (getattr(o, 'v', getattr(o, 'name', '2'))), a)), 'f')
        if f == 'solve':
            return self.linsolve(st, f, args, kw, node)
        return I.unk('linalg.' + f)


def block_dims(a):
    """entry label -> atomic axis, for a rank-1 array"""
    out = {}
    for lab, ix in enum_dim(a.dims[0], 0):
        d = a.dims[0]
        while isinstance(ix, BIdx):
            d, ix = ix.dim.parts[ix.k], ix.ix
        out[(lab,)] = d.key
    return out


def ne_size(p):
    return P.ne(p)


def dmul(i, j, p):
    if isinstance(i, BIdx) and isinstance(j, BIdx) and i.dim.key == j.dim.key:
        if i.k != j.k:
            return ZERO
        return P.eq(i.ix - j.ix) * p
    return P.eq(flat(i) - flat(j)) * p


def dmul2(a, r, b, c, p):
    x = P.eq(aspoly(a) - flat(r))
    if not x.t:
        return ZERO
    return x * P.eq(aspoly(b) - flat(c)) * p


def gt_inf(a, b):
    """[a > b] with infinite constants"""
    from .interp import INF
    if a == b:
        return ZERO
    if b == INF:
        return ZERO
    if a == -INF:
        return ZERO
    if a == INF:
        return ONE - P.fn('isposinf', b) if not finite(b) else ONE
    if b == -INF:
        return ONE - P.fn('isneginf', a) if not finite(a) else ONE
    d = a - b
    s = unbounded(d)
    if s:
        return ONE if s > 0 else ZERO
    return P.gt(d)


def finite(p):
    return p.const() is not None or bool(P.rounding(p))


def far_abs(p):
    from .interp import INF
    return INF if unbounded(p) else P.pabs(p)


def unbounded(p):
    """sign of a constant multiple of infinity plus a constant, else 0"""
    from .interp import INF
    if len(p.t) > 2:
        return 0
    (k, _), = INF.t.items()
    c = p.t.get(k)
    if c is None or (p - INF.scale(c)).const() is None:
        return 0
    return 1 if c > 0 else -1


def int_valued(p):
    """is the polynomial known to be integer valued (bus numbers, counts)?"""
    for (b, fs), c in p.t.items():
        if c.denominator != 1:
            return False
        for f, e in fs:
            if f[0] == 'ix' or f[0] in ('ne', 'gt', 'eq'):
                continue
            if f[0] == 'T':
                a = P.ATTR.get(f[1], {})
                if a.get('int') and e > 0:
                    continue
                ic = a.get('intcols')
                if ic and len(f[2]) == 2 and f[2][1].const_int() in ic:
                    continue
            return False
    return True


def strip_missing2(v):
    from .interp import strip_missing
    while isinstance(v, Phi) and strip_missing(v) is not v:
        v = strip_missing(v)
    return v


def _mod(f):
    return lambda p: P.shannon(p, lambda q: P.fn(f, q))


ELEM = {
    'exp': (P.exp, None),
    'sqrt': (lambda p: P.power(p, Fraction(1, 2)), None),
    'cos': (lambda p: (P.exp(J * p) + P.exp(-(J * p))).scale(Fraction(1, 2)), None),
    'sin': (lambda p: (P.exp(J * p) - P.exp(-(J * p))) * J.scale(Fraction(-1, 2)), None),
    'tan': (_mod('tan'), None),
    'arcsin': (_mod('arcsin'), None),
    'arctan': (_mod('arctan'), None),
    'log': (_mod('log'), None),
    'isinf': (lambda p: isinf_p(p), 'b'),
    'isnan': (lambda p: P.fn('isnan', p), 'b'),
    'isfinite': (lambda p: ONE - isinf_p(p), 'b'),
    'fix': (_mod('trunc'), None),
    'round': (_mod('round'), None),
    'around': (_mod('round'), None),
    'floor': (_mod('floor'), None),
    'ceil': (_mod('ceil'), None),
    'deg2rad': (lambda p: p * P.PI.scale(Fraction(1, 180)), 'f'),
    'radians': (lambda p: p * P.PI.scale(Fraction(1, 180)), 'f'),
    'rad2deg': (lambda p: p * P.power(P.PI, -1).scale(180), 'f'),
    'degrees': (lambda p: p * P.power(P.PI, -1).scale(180), 'f'),
    'square': (lambda p: p * p, None),
}


def isinf_p(p):
    from .interp import INF
    if p == INF or p == -INF:
        return ONE
    if p.const() is not None:
        return ZERO
    return P.shannon(p, lambda q: ONE if q in (INF, -INF) else (ZERO if q.const() is not None else P.fn('isinf', q)))
