"""Comparison of what is written by the code with what the reference writes, at valuations of the symbolic numbers: numbers in order,
dashes for absent values and section titles; blanks, rules and column headings do not count."""
import re
from .evalnf import CannotEval, HashVal, real
from .compare import Result, EQ, DIFF, UND
from . import poly as P
from . import text
from .values import poly_unknown

NUM = re.compile(r'\(?(-?\d+(?:\.\d+)?(?:e[-+]?\d+)?|-?inf|nan)(\*)?[),]?$')
TITLE = re.compile(r'\|\s+(\S.*?)\s+\|$')
WORDS = ('Converged', 'Did')


def render(I, log, V, tag):
    out = []
    for g, f, v, node in log:
        if poly_unknown(g):
            raise CannotEval('unknown condition at line %d' % getattr(node, 'lineno', 0))
        if abs(V.ev(g, {})) < 0.5:
            continue
        if f != tag:
            out.append('\n(another file)\n')
            continue
        v = pick(I, v, V)
        ps = text.parts_of(v)
        if ps is None:
            raise CannotEval('unknown text at line %d' % getattr(node, 'lineno', 0))
        parts(ps, V, out)
    return ''.join(out)


def pick(I, v, V):
    from .values import Phi
    while isinstance(v, Phi):
        if poly_unknown(v.c):
            raise CannotEval('unknown condition')
        v = v.a if abs(V.ev(v.c, {})) > 0.5 else v.b
    return v


def parts(ps, V, out):
    for x in ps:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, text.Alt):
            if poly_unknown(x.c):
                raise CannotEval('unknown condition')
            parts(x.a if abs(V.ev(x.c, {})) > 0.5 else x.b, V, out)
        else:
            if poly_unknown(x.p):
                raise CannotEval('unknown number')
            y = V.ev(x.p, {})
            if isinstance(y, HashVal):
                y = y.num(())
            y = real(y)
            c = x.conv
            out.append(text.spec(c) % (int(y) if c[3] in 'di' else y))


def tokens(s):
    out = []
    for l in s.split('\n'):
        m = TITLE.match(l.strip())
        if m:
            out.append(('title', m.group(1)))
            continue
        for a, b in (('Active Power Limits', '@active'), ('Reactive Power Limits', '@reactive')):
            if a in l:
                l = b
        for w in l.split():
            m = NUM.match(w)
            if m:
                out.append(('num', m.group(1)))
                if m.group(2):
                    out.append(('mark', '*'))
            elif re.match(r'\d+-\d+$', w):
                out += [('num', x) for x in w.split('-')]
            elif w == '-' or w[0] == '@' and len(w) > 1 or w in WORDS:
                out.append(('word', w))
            elif w == '(another':
                out.append(('word', w))
    return out


def unit(s):
    return 10.0 ** -len(s.split('.')[1]) if '.' in s and 'e' not in s else 1e-9


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] != 'num':
        return a[1] == b[1]
    x, y = a[1], b[1]
    if len(x.split('.')[1:] and x.split('.')[1]) != len(y.split('.')[1:] and y.split('.')[1]):
        return False
    return x == y or abs(float(x) - float(y)) <= 1.01 * unit(x)


def compare(cmp, C, tag, R, rtag, need=3):
    """Result"""
    good, whys = 0, set()
    last = None
    for k in range(1, cmp.n + 1):
        V = cmp.V(k)
        try:
            y = tokens(render(R.I, R.I.textlog, V, rtag))
            x = tokens(render(C.I, C.I.textlog, V, tag))
        except (CannotEval, ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, P.TooBig) as e:
            whys.add(repr(e) if not isinstance(e, CannotEval) else str(e))
            continue
        sec = ''
        for i in range(max(len(x), len(y))):
            p, q = x[i] if i < len(x) else ('end', 'nothing'), y[i] if i < len(y) else ('end', 'nothing')
            if not same(p, q):
                return Result(DIFF, '%sitem %d: %s instead of %s' % (sec, i, p[1], q[1]),
                              {'valuation': k, 'written': ' '.join(t[1] for t in x[max(0, i - 12):i + 12]),
                               'expected': ' '.join(t[1] for t in y[max(0, i - 12):i + 12])})
            if q[0] == 'title':
                sec = q[1] + ', '
        good += 1
        last = len(y)
        if good >= 6:
            return Result(EQ, 'identity test, %d items' % last)
    if good >= need:
        return Result(EQ, 'identity test, %d items' % last)
    return Result(UND, 'text could not be evaluated (%s)' % '; '.join(sorted(whys))[:200])
