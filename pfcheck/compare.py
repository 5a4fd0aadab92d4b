"""Comparison of an extracted value with the reference value."""
from .values import *          # noqa
from .interp import strip_missing
from .evalnf import Valuation, CannotEval, HashVal, flatl, real
from . import poly as P

EQ, DIFF, UND = 'equal', 'different', 'undecided'


class Result(object):
    def __init__(self, status, why='', detail=None):
        self.status, self.why, self.detail = status, why, detail or {}

    def __repr__(self):
        return '%s %s' % (self.status, self.why)


def short(p, n=600):
    s = str(p)
    return s if len(s) <= n else s[:n] + ' ...'


def diff_terms(a, b):
    """monomials only in a, only in b"""
    x = {m: c for m, c in a.t.items() if b.t.get(m) != c}
    y = {m: c for m, c in b.t.items() if a.t.get(m) != c}
    return [P.mono_str(m, c) for m, c in x.items()], [P.mono_str(m, c) for m, c in y.items()]


def same_structure(a, b):
    if a.rank != b.rank:
        return False
    return all(x.key == y.key for x, y in zip(a.dims, b.dims))


def nf_equal(a, b, mask=None):
    if not same_structure(a, b):
        return None
    try:
        ea, eb = entries(a), entries(b)
    except P.TooBig:
        return None
    if set(ea) != set(eb):
        return None
    for k in ea:
        if ea[k] != eb[k]:
            return False
    return True


def arr_unknown(a):
    try:
        for d in a.dims:
            if '?' in d.key or '?' in str(d.size):
                return 'axis ' + d.key
        for k, p in entries(a).items():
            if poly_unknown(p):
                s = str(p)
                i = s.index('?')
                return s[max(0, i - 10):i + 50]
    except P.TooBig:
        return 'formula too large'
    return None


def close(x, y, tol=1e-6):
    if isinstance(x, HashVal):
        x = x.num(())
    if isinstance(y, HashVal):
        y = y.num(())
    if abs(x) > 1e28 or abs(y) > 1e28:
        return abs(x) > 1e28 and abs(y) > 1e28 and (real(x) > 0) == (real(y) > 0)
    return abs(x - y) <= tol * (1 + max(abs(x), abs(y)))


def shape_of(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        x = x[0] if x else None
    return tuple(s)


class Comparer(object):
    """vals: function seed -> Valuation over the input domain"""

    def __init__(self, vals, n=10, need=3, wide=None, enough=6):
        self.vals, self.n, self.need, self.enough = vals, n, need, enough
        self.wide = wide or {}      # atoms that are also tried very small and very large
        self.cache = {}
        self.stats = {'normal_form': 0, 'identity_test': 0, 'undecided': 0, 'different': 0}

    def V(self, k):
        if k not in self.cache:
            self.cache[k] = self.vals(k)
        v = self.cache[k]
        v.budget = 4000000
        return v

    def arrays(self, a, b, ordered=True):
        """a: code, b: reference"""
        r = self._arrays(a, b, ordered)
        if r.status == EQ:
            self.stats['normal_form' if not r.why else 'identity_test'] += 1
        elif r.status == UND:
            self.stats['undecided'] += 1
        else:
            self.stats['different'] += 1
        return r

    def _arrays(self, a, b, ordered=True):
        if a.kind == 'sp' and b.kind != 'sp' and b.rank == 1 and False:
            pass
        q = nf_equal(a, b)
        if q:
            u = arr_unknown(a)
            if u:
                return Result(UND, 'unknown part: ' + u)
            return Result(EQ)
        u = arr_unknown(a)
        if u:
            return Result(UND, 'code value not fully known: ' + u)
        u = arr_unknown(b)
        if u:
            return Result(UND, 'reference value not fully known: ' + u)
        good = 0
        whys = set()
        for k in range(1, self.n + 1):
            V = self.V(k)
            try:
                y = V.array(b)
            except CannotEval as e:
                whys.add(str(e))
                continue
            except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, P.TooBig) as e:
                whys.add(repr(e))
                continue
            try:
                x = V.array(a)
            except CannotEval as e:
                whys.add(str(e))
                if str(e).startswith('index') or str(e) in ('division by zero', 'inv of non-member'):
                    pass
                continue
            except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, P.TooBig) as e:
                whys.add(repr(e))
                continue
            if a.rank != b.rank:
                if squeeze(shape_of(x)) != squeeze(shape_of(y)):
                    return Result(DIFF, 'rank %d instead of %d' % (a.rank, b.rank), {'valuation': k})
            sx, sy = shape_of(x), shape_of(y)
            if squeeze(sx) != squeeze(sy):
                return Result(DIFF, 'shape %s instead of %s' % (sx, sy), {'valuation': k, 'sizes': V.sizes})
            fx, fy = flatl(x), flatl(y)
            if not ordered:
                fx, fy = sorted(map(real, fx)), sorted(map(real, fy))
            for i, (p, q) in enumerate(zip(fx, fy)):
                if not close(p, q, getattr(V, 'tol', 1e-6)):
                    return Result(DIFF, 'entry %d of shape %s: %s instead of %s' % (i, sx, fmt(p), fmt(q)),
                                  self.explain(a, b, V, k))
            good += 1
            if good >= self.enough:
                break
        if good >= self.need:
            for k in range(1, 5) if self.wide else ():
                V = self.vals(k)
                V.wide = self.wide
                try:
                    fx, fy = flatl(V.array(a)), flatl(V.array(b))
                except (CannotEval, ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, P.TooBig):
                    continue
                top = max([abs(q) for q in fy if not isinstance(q, HashVal)] or [0])
                for i, (p, q) in enumerate(zip(fx, fy)):
                    if not close(p, q, getattr(V, 'tol', 1e-6)) and abs(p - q) > max(1e-9, 1e-4 * getattr(V, 'tol', 0)) * top:
                        return Result(DIFF, 'entry %d: %s instead of %s (very small and large data)' % (i, fmt(p), fmt(q)), {'valuation': k})
            return Result(EQ, 'identity test at %d valuations' % good)
        return Result(UND, 'normal forms differ and could not be evaluated (%s)' % '; '.join(sorted(whys))[:200])

    def explain(self, a, b, V, k):
        d = {'valuation': k, 'sizes': {n: V.sizes[n] for n in V.sizes}}
        try:
            if same_structure(a, b):
                ea, eb = entries(a), entries(b)
                for lab in ea:
                    if lab in eb and ea[lab] != eb[lab]:
                        x, y = diff_terms(ea[lab], eb[lab])
                        d['entry'] = ','.join(lab)
                        d['only_in_code'] = [short(t, 300) for t in x[:6]]
                        d['only_in_reference'] = [short(t, 300) for t in y[:6]]
                        break
            else:
                d['code_axes'] = [short(x.key, 100) for x in a.dims]
                d['reference_axes'] = [short(x.key, 100) for x in b.dims]
        except P.TooBig:
            pass
        return d

    # -- structured values
    def values(self, Ia, sa, a, Ib, sb, b, path='result', out=None, ordered=True):
        """deep comparison; appends (path, Result)"""
        if out is None:
            out = []
        a, b = strip(a), strip(b)
        if isinstance(b, Unk):
            out.append((path, Result(UND, 'reference unknown: ' + b.why)))
            return out
        if isinstance(a, Unk):
            out.append((path, Result(UND, 'code value unknown: ' + a.why)))
            return out
        ca, cb = Ia.cell(sa, a), Ib.cell(sb, b)
        if isinstance(cb, DictCell):
            if isinstance(ca, DictCell):
                for k in cb.items:
                    if k not in ca.items:
                        out.append(('%s[%r]' % (path, k), Result(UND if ca.open else DIFF, 'key missing')))
                    else:
                        self.values(Ia, sa, ca.items[k], Ib, sb, cb.items[k], '%s[%r]' % (path, k), out, ordered)
            elif ca is None or isinstance(ca, UnkCell):
                out.append((path, Result(UND, 'dict expected')))
            else:
                out.append((path, Result(DIFF, 'dict expected')))
            return out
        if isinstance(a, Phi) or isinstance(b, Phi):
            aa, bb = Ia.arr_of(sa, a), Ib.arr_of(sb, b)
            if aa is not None and bb is not None:
                out.append((path, self.arrays(aa, bb, ordered)))
            else:
                out.append((path, self.phis(Ia, sa, a, Ib, sb, b, ordered)))
            return out
        sqa, sqb = Ia.seq_items(a, sa), Ib.seq_items(b, sb)
        if sqa is not None and sqb is not None and len(sqa) == len(sqb) and \
                not all(isarr(Ib, sb, x) and Ib.arr_of(sb, x).rank == 0 for x in sqb):
            for i, (x, y) in enumerate(zip(sqa, sqb)):
                self.values(Ia, sa, x, Ib, sb, y, '%s[%d]' % (path, i), out, ordered)
            return out
        if sqa is not None and sqb is not None and len(sqa) != len(sqb):
            out.append((path, Result(DIFF, '%d items instead of %d' % (len(sqa), len(sqb)))))
            return out
        if isinstance(b, Const) and not isinstance(b.v, (int, float, complex)):
            if isinstance(a, Const):
                out.append((path, Result(EQ if a == b else DIFF, '%r instead of %r' % (a.v, b.v))))
            else:
                out.append((path, Result(DIFF if Ia.arr_of(sa, a) is not None else UND, 'instead of %r' % (b.v,))))
            return out
        aa, bb = Ia.arr_of(sa, a), Ib.arr_of(sb, b)
        if bb is None:
            out.append((path, Result(UND, 'reference is not an array: %r' % (b,))))
        elif aa is None:
            if isinstance(a, Const) or isinstance(ca, DictCell):
                out.append((path, Result(DIFF, '%r instead of an array' % (a,))))
            else:
                out.append((path, Result(UND, 'not an array: %r' % (a,))))
        else:
            out.append((path, self.arrays(aa, bb, ordered)))
        return out

    def pick(self, I, st, v, V):
        n = 0
        while isinstance(v, Phi) and n < 50:
            if poly_unknown(v.c):
                raise CannotEval('unknown condition')
            v = v.a if abs(V.ev(v.c, {})) > 0.5 else v.b
            n += 1
        return v

    def phis(self, Ia, sa, a, Ib, sb, b, ordered):
        good = 0
        why = ''
        for k in range(1, self.n + 1):
            V = self.V(k)
            try:
                x, y = self.pick(Ia, sa, a, V), self.pick(Ib, sb, b, V)
                if isinstance(x, Const) and isinstance(y, Const) and not isinstance(y.v, (int, float)):
                    if x != y:
                        return Result(DIFF, '%r instead of %r' % (x.v, y.v), {'valuation': k})
                    good += 1
                    continue
                xa, ya = Ia.arr_of(sa, x), Ib.arr_of(sb, y)
                if xa is None or ya is None:
                    if (isinstance(x, Const) and ya is not None) or (isinstance(y, Const) and xa is not None):
                        return Result(DIFF, '%r instead of %r' % (x, y), {'valuation': k})
                    why = 'not arrays'
                    continue
                p, q = V.array(xa), V.array(ya)
                if squeeze(shape_of(p)) != squeeze(shape_of(q)):
                    return Result(DIFF, 'shape %s instead of %s' % (shape_of(p), shape_of(q)), {'valuation': k})
                fx, fy = flatl(p), flatl(q)
                if not ordered:
                    fx, fy = sorted(map(real, fx)), sorted(map(real, fy))
                for s, t in zip(fx, fy):
                    if not close(s, t):
                        return Result(DIFF, '%s instead of %s' % (fmt(s), fmt(t)), {'valuation': k})
                good += 1
            except (CannotEval, ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, P.TooBig) as e:
                why = str(e)
        if good >= self.need:
            self.stats['identity_test'] += 1
            return Result(EQ, 'identity test')
        self.stats['undecided'] += 1
        return Result(UND, 'joined values not decided (%s)' % why)


def isarr(I, st, v):
    return I.arr_of(st, v) is not None


def strip(v):
    n = 0
    while isinstance(v, Phi) and strip_missing(v) is not v and n < 30:
        v = strip_missing(v)
        n += 1
    return v


def squeeze(s):
    if 0 in s:
        return (0,)
    return tuple(x for x in s if x != 1)


def fmt(x):
    if isinstance(x, HashVal):
        x = x.num(())
    if isinstance(x, complex):
        if abs(x.imag) < 1e-12:
            return '%.6g' % x.real
        return '%.6g%+.6gj' % (x.real, x.imag)
    return '%.6g' % x
