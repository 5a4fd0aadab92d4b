"""Identity testing of index-notation formulas.

Two extracted formulas whose normal forms coincide are equal.  When they do
not coincide they are still compared at valuations drawn from the property's
input domain (small axis sizes, exact index semantics), so that a difference
is reported only with a witness valuation and never because the normaliser is
incomplete.  Only formulas extracted from the source are evaluated, never the
source."""
import cmath
import hashlib
import math
import random
from .values import *          # noqa
from .values import OPAQUE, NORMS
from . import poly as P
from .poly import DIMS, ATTR, BIdx, Poly


class CannotEval(Exception):
    pass


def h01(*k):
    h = hashlib.md5(repr(k).encode()).digest()
    return int.from_bytes(h[:6], 'big') / float(1 << 48)


# table entries that are often zero in practice (every other valuation has some)
ZEROS = {'cbus': (2, 3, 4, 5, 8), 'tbus': (2, 3, 4, 5, 8), 'cgen': (1, 2), 'tgen': (1, 2), 'cbranch': (2, 4, 8, 9), 'tbranch': (2, 4, 8, 9),
         'cgencost': (5, 7)}


class Valuation(object):
    def __init__(self, seed, sizes=None, atoms=None):
        self.seed = seed
        self.rng = random.Random(seed)
        self.sizes = dict(sizes or {})
        self.atoms = dict(atoms or {})      # name -> value | fn(*idx) | nested list
        self.memo = {}
        self.omemo = {}
        self.budget = 4000000
        self.wide = {}      # atom -> powers of ten its magnitudes are spread over

    # -- atoms
    def base(self, name, idx):
        v = self.base1(name, idx)
        w = self.wide and (self.wide.get(name) or len(idx) == 2 and self.wide.get((name, idx[1])))
        if w:
            a, b = w
            v = v * 10 ** (a + (b - a) * h01(self.seed, name, idx, 'wide'))
        return v

    def base1(self, name, idx):
        if name in self.sizes and not idx:
            return self.sizes[name]
        v = self.atoms.get(name)
        if v is not None:
            if callable(v):
                v = v(*idx)
                if v is not None:
                    return v
            else:
                for i in idx:
                    if not 0 <= i < len(v):
                        return round(h01(self.seed, name, idx, 'oob'), 3)
                    v = v[i]
                return v
        if '?' in name or '@' in name:
            raise CannotEval(name)
        a = ATTR.get(name, {})
        r = h01(self.seed, name, idx)
        ic = a.get('intcols')
        if name in ZEROS and self.seed % 2 and len(idx) == 2 and idx[1] in ZEROS[name] and h01(self.seed, name, idx, 'z') < .25:
            return 0
        if a.get('int') or (ic and len(idx) == 2 and idx[1] in ic):
            return int(r * 4) + 1
        if a.get('boolcols') == 'all':
            return 1 if r > 0.4 else 0
        bc = a.get('boolcols')
        if bc and idx and idx[-1] in bc:
            return 1 if r > 0.4 else 0
        if a.get('polar') or a.get('real') is False:
            r2 = h01(self.seed, name, idx, 'i')
            return cmath.rect(0.5 + r, 5.0 * (r2 - 0.5))
        if a.get('nonneg') or a.get('pos'):
            # overall magnitude varies between valuations
            return (0.25 + 1.5 * r) * (1, 0.1, 4)[int(h01(self.seed, name) * 3)]
        s = h01(self.seed, name, idx, 's')
        return (0.3 + 1.4 * r) * (1 if s > 0.35 else -1)

    def atom(self, name, idx):
        k = (name, idx)
        if k in self.memo:
            return self.memo[k]
        if name in OPAQUE or name in NORMS:
            v = self.opaque(name)
            try:
                for i in idx:
                    if i < 0:
                        raise IndexError
                    v = v[i]
            except (IndexError, TypeError):
                v = 0       # out of range: only met in cancelling terms
        elif name in P.LETS:
            v = self.ev(P.LETS[name], {})
        elif name[:1] == 'n' and name[1:] in OPAQUE and not idx:
            v = len(self.opaque(name[1:]))
        else:
            v = self.base(name, idx)
        self.memo[k] = v
        return v

    def dimsize(self, d):
        if isinstance(d, str):
            d = DIMS[d]
        n = self.ev(d.size, {})
        n = self.asint(n)
        if n < 0 or n > 400:
            raise CannotEval('size %s' % n)
        return n

    @staticmethod
    def asint(x):
        if isinstance(x, complex):
            if abs(x.imag) > 1e-9:
                raise CannotEval('complex index')
            x = x.real
        r = int(round(x))
        if abs(x - r) > 1e-6:
            raise CannotEval('non-integer index %r' % x)
        return r

    # -- whole arrays
    def array(self, arr):
        """nested python lists of the array's entries"""
        if arr.rank == 0:
            return self.ev(arr.p(), {})
        axes = []
        for ax, d in enumerate(arr.dims):
            axes.append(self.axis(d, '$a%d_%d' % (ax, arr.rank)))

        def build(i, ix, env):
            if i == len(axes):
                p = arr.at(*ix)
                return [] if False else ('leaf', p, env)
            out = []
            for sym, vals in axes[i]:
                out.append((sym, vals))
            return out
        # enumerate block combinations, then index values
        import itertools
        sizes = [sum(len(v) for _, _, v in a) for a in axes]
        if arr.rank == 1:
            res = []
            for bix, var, vals in axes[0]:
                if not vals:
                    continue
                p = arr.at(bix)
                for v in vals:
                    res.append(self.ev(p, {var: v} if var else {}))
            return res
        if arr.rank == 2:
            res = []
            for b0, v0, n0 in axes[0]:
                if not n0:
                    continue
                ps = [(arr.at(b0, b1), v1, n1) for b1, v1, n1 in axes[1] if n1]
                for x in n0:
                    row = []
                    for p, v1, n1 in ps:
                        for y in n1:
                            e = {}
                            if v0:
                                e[v0] = x
                            if v1:
                                e[v1] = y
                            row.append(self.ev(p, e))
                    res.append(row)
            return res
        raise CannotEval('rank %d' % arr.rank)

    def axis(self, d, var):
        """[(index, variable or None, values)]"""
        if d.parts:
            r = []
            for k, p in enumerate(d.parts):
                for ix, v, vals in self.axis(p, '%s_%d' % (var, k)):
                    r.append((BIdx(d, k, ix), v, vals))
            return r
        n = d.const()
        if n is not None and n <= 40:
            return [(P.const(i), None, [i]) for i in range(n)]
        return [(P.ixvar_raw(var), var, list(range(self.dimsize(d))))]

    def opaque(self, name):
        if name in self.omemo:
            v = self.omemo[name]
            if isinstance(v, CannotEval):
                raise v
            return v
        try:
            if name in NORMS:
                f, ent, _ = NORMS[name]
                v = self.norm(name, ent)
            else:
                f, args, _ = OPAQUE[name]
                v = self.ofun(name, f, args)
        except CannotEval as e:
            self.omemo[name] = e
            raise
        self.omemo[name] = v
        return v

    def norm(self, name, ent):
        from .npmodel import NORMDIMS
        dims = NORMDIMS[name]
        m = 0.0
        for lab, p in ent.items():
            var = '$0'
            if var in p.fv():
                for i in range(self.dimsize(dims[lab])):
                    m = max(m, abs(self.ev(p, {var: i})))
            elif lab[0].split(':')[-1] != '$0' or self.dimsize(dims[lab]) > 0:
                m = max(m, abs(self.ev(p, {})))
        return m

    def ofun(self, name, f, args):
        if f == 'normvec':
            arr = self.array(args[0])
            return max([abs(x) for x in arr] or [0.0])
        A = []
        for a in args:
            if isinstance(a, Arr):
                A.append(self.array(a))
            elif isinstance(a, Poly):
                A.append(self.ev(a, {}))
            else:
                A.append(a)
        if f == 'find' or f == 'findcat':
            return [i for i, x in enumerate(A[0]) if truthy(x)]
        if f == 'solve':
            return solve(A[0], A[1])
        if f == 'argsort':
            return [i for i, _ in sorted(enumerate(A[0]), key=lambda t: (real(t[1]), t[0]))]
        if f == 'sort':
            return sorted(real(x) for x in A[0])
        if f == 'cumsum':
            r, s = [], 0
            for x in A[0]:
                s = s + x
                r.append(s)
            return r
        if f == 'unique':
            return sorted(set(real(x) for x in A[0]))
        if f == 'union':
            return sorted(set(real(x) for x in A[0]) | set(real(x) for x in A[1]))
        if f == 'setdiff':
            b = set(real(x) for x in A[1])
            return sorted(set(x for x in map(real, A[0]) if x not in b))
        if f == 'intersect':
            return sorted(set(map(real, A[0])) & set(map(real, A[1])))
        if f in ('cat', 'idx'):
            return A[0]
        if f == 'isin':
            return set(real(x) for x in A[0])
        if f == 'nnz':
            return sum(1 for r in A[0] for x in (r if isinstance(r, list) else [r]) if abs(x) > 1e-12)
        if f == 'maxp1':
            return max(real(x) for x in A[0]) + 1
        if f in ('max', 'min'):
            xs = [real(x) for x in flatl(A[0])]
            if not xs:
                raise CannotEval('max of empty')
            return (max if f == 'max' else min)(xs)
        if f in ('argmax', 'argmin'):
            xs = [real(x) for x in A[0]]
            if not xs:
                raise CannotEval('argmax of empty')
            return xs.index((max if f == 'argmax' else min)(xs))
        if f == 'mean':
            xs = flatl(A[0])
            return sum(xs) / len(xs)
        if f in ('max_ax1', 'min_ax1'):
            return [(max if f[:3] == 'max' else min)(real(x) for x in r) for r in A[0]]
        if f in ('max_ax0', 'min_ax0'):
            return [(max if f[:3] == 'max' else min)(real(r[j]) for r in A[0]) for j in range(len(A[0][0]))]
        if f.startswith('norm'):
            xs = flatl(A[0])
            if 'inf' in f:
                return max([abs(x) for x in xs] or [0])
            return math.sqrt(sum(abs(x) ** 2 for x in xs))
        # uninterpreted: a function of the evaluated arguments
        k = (f, repr(rnd(A)))
        return HashVal(k)

    # -- polynomials
    def ev(self, p, env):
        r = 0
        undef = []
        for (b, fs), c in p.t.items():
            if any(f[:2] == ('fn', 'powzero') for f, _ in fs):
                undef.append((b, tuple(x for x in fs if x[0][:2] != ('fn', 'powzero')), c))
                continue
            r = r + self.mono(b, fs, env) * num(c)
        if undef:
            # a quotient by zero must be cancelled by the conditions around it
            t = [self.mono(b, fs, env) * num(c) for b, fs, c in undef]
            if abs(sum(t)) > 1e-12 * (1 + max(abs(x) for x in t)):
                raise CannotEval('0**neg')
        return r

    def mono(self, b, fs, env):
        self.budget -= 1
        if self.budget < 0:
            raise CannotEval('budget')
        if not b:
            v = 1
            # indicators first: skip the rest when zero
            for f, e in fs:
                if f[0] in ('ne', 'gt', 'eq') or f[:2] == ('fn', 'in'):
                    x = self.fac(f, env)
                    if x == 0:
                        return 0
            for f, e in fs:
                if f[0] in ('ne', 'gt', 'eq') or f[:2] == ('fn', 'in'):
                    continue
                x = self.fac(f, env)
                if x == 0 and e < 0:
                    raise CannotEval('division by zero')
                if isinstance(e, int) or e.denominator == 1:
                    v = v * x ** int(e)
                else:
                    if isinstance(x, complex) and abs(x.imag) < 1e-12:
                        x = x.real
                    if not isinstance(x, complex) and x < 0:
                        raise CannotEval('root of negative')
                    v = v * x ** float(e)
            return v
        (v, d), rest = b[0], b[1:]
        n = self.dimsize(d)
        tot = 0
        e2 = dict(env)
        for i in range(n):
            e2[v] = i
            tot = tot + self.mono(rest, fs, e2)
        return tot

    def fac(self, f, env):
        tag = f[0]
        if tag == 'ix':
            try:
                return env[f[1]]
            except KeyError:
                raise CannotEval('free index %s' % f[1])
        if tag == 'J':
            return 1j
        if tag == 'pi':
            return math.pi
        k = (f, tuple((v, env[v]) for v in sorted(P.ffv(f)) if v in env))
        r = self.memo.get(k)
        if r is None:
            r = self.fac1(f, env)
            self.memo[k] = r
        return r

    def fac1(self, f, env):
        tag = f[0]
        if tag in ('T', 'Tc', 'M', 'U'):
            idx = tuple(self.asint(self.ev(q, env)) for q in f[2])
            v = self.atom(f[1], idx)
            if isinstance(v, HashVal):
                v = v.num(idx)
            if tag == 'Tc':
                return v.conjugate()
            if tag == 'M':
                return abs(v)
            if tag == 'U':
                return v / abs(v)
            return v
        if tag == 'exp':
            return cmath.exp(self.ev(f[1], env))
        if tag == 'ne':
            return 1 if abs(self.ev(f[1], env)) > 1e-10 else 0
        if tag == 'eq':
            return 1 if abs(self.ev(f[1], env)) <= 1e-10 else 0
        if tag == 'gt':
            return 1 if real(self.ev(f[1], env)) > 1e-10 else 0
        if tag == 'abs':
            return abs(self.ev(f[1], env))
        if tag == 'pow':
            return self.ev(f[1], env)
        if tag in ('fn', 'fnc'):
            r = self.fun(f, env)
            return r.conjugate() if tag == 'fnc' else r
        raise CannotEval(tag)

    def fun(self, f, env):
        nm, args = f[1], f[2]
        if nm == 'cpow':
            return float(num(__import__('fractions').Fraction(args[0])))
        if nm == 'in' or nm == 'inv':
            arr = self.namearr(args[0])
            e = self.ev(args[1], env)
            for i, x in enumerate(arr):
                if abs(x - e) < 1e-9:
                    return i if nm == 'inv' else 1
            if nm == 'in':
                return 0
            # only met in terms that cancel (guarded by membership)
            return 0
        if nm == 'isin':
            s = self.opaque(args[0])
            return 1 if real(self.ev(args[1], env)) in s else 0
        A = []
        for a in args:
            A.append(self.ev(a, env) if isinstance(a, Poly) else a)
        if nm == 'angle':
            return cmath.phase(A[0])
        if nm == 'inf':
            return 1e30
        if nm == 'mod':
            return math.fmod(real(A[0]), real(A[1])) if real(A[0]) >= 0 else real(A[0]) % real(A[1])
        if nm == 'floordiv':
            return real(A[0]) // real(A[1])
        if nm == 'trunc':
            return int(real(A[0]) + (1e-9 if real(A[0]) >= 0 else -1e-9))
        if nm == 'shown':
            return float(A[1] % real(A[0]))
        if nm == 'floor':
            return math.floor(real(A[0]) + 1e-9)
        if nm == 'ceil':
            return math.ceil(real(A[0]) - 1e-9)
        if nm == 'powv':
            return A[0] ** A[1]
        if nm in ('max', 'min'):
            return (max if nm == 'max' else min)(*[real(x) for x in A])
        if nm in ('maxsel', 'minsel'):
            xs = [real(A[i + 1]) for i in range(0, len(A), 2) if truthy(A[i])]
            return (max if nm == 'maxsel' else min)(xs) if xs else (-1e30 if nm == 'maxsel' else 1e30)
        if nm == 'tan':
            return math.tan(real(A[0]))
        if nm == 'arcsin':
            return math.asin(max(-1, min(1, real(A[0]))))
        if nm == 'arctan':
            return math.atan(real(A[0]))
        if nm == 'log':
            return math.log(abs(A[0]))
        if nm in ('isinf', 'isposinf'):
            return 1 if real(A[0]) > 1e29 or (nm == 'isinf' and real(A[0]) < -1e29) else 0
        if nm == 'isneginf':
            return 1 if real(A[0]) < -1e29 else 0
        if nm == 'isnan':
            return 0
        if nm.startswith('bit'):
            x, y = self.asint(A[0]), self.asint(A[1])
            return {'&': x & y, '|': x | y, '^': x ^ y}[nm[3:]]
        if nm == 'powzero':
            raise CannotEval('0**neg')
        if '?' in nm or any(isinstance(a, str) and '?' in a for a in args):
            raise CannotEval(nm)
        return HashVal((nm, repr(rnd(A)), self.seed)).num(())

    def namearr(self, name):
        if name in OPAQUE:
            return self.opaque(name)
        v = self.atoms.get(name)
        if isinstance(v, (list, tuple)):
            return v
        raise CannotEval('array ' + name)


class HashVal(object):
    """value of an uninterpreted function"""

    def __init__(self, k):
        self.k = k

    def __getitem__(self, i):
        return HashVal(self.k + (i,))

    def num(self, idx):
        return 0.3 + h01(self.k)


def rnd(x):
    if isinstance(x, list):
        return [rnd(y) for y in x]
    if isinstance(x, HashVal):
        return x.k
    if isinstance(x, complex):
        return (round(x.real, 7) + 0.0, round(x.imag, 7) + 0.0)
    if isinstance(x, (int, float)):
        return (round(float(x), 7) + 0.0, 0.0)
    return x


def flatl(a):
    if isinstance(a, list):
        r = []
        for x in a:
            r.extend(flatl(x))
        return r
    return [a.num(()) if isinstance(a, HashVal) else a]


def real(x):
    if isinstance(x, HashVal):
        x = x.num(())
    return x.real if isinstance(x, complex) else x


def truthy(x):
    return abs(x) > 1e-10


def num(c):
    return int(c) if c.denominator == 1 else c.numerator / c.denominator


def solve(A, b):
    n = len(A)
    mat = isinstance(b[0], list) if b else False
    M = [[complex(x) for x in A[i]] + ([complex(y) for y in b[i]] if mat else [complex(b[i])]) for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda r: abs(M[r][k]))
        if abs(M[p][k]) < 1e-9:
            raise CannotEval('singular')
        M[k], M[p] = M[p], M[k]
        for r in range(n):
            if r != k and M[r][k]:
                f = M[r][k] / M[k][k]
                for c in range(k, len(M[r])):
                    M[r][c] -= f * M[k][c]
    res = [[M[i][n + j] / M[i][i] for j in range(len(M[i]) - n)] for i in range(n)]
    return res if mat else [r[0] for r in res]
