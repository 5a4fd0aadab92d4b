"""Text with formatted fields, files and what is written to them."""
import re
from .values import *          # noqa
from . import poly as P

SPEC = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?[hlL]?([diouxXeEfFgGcrsa%])')
BRACE = re.compile(r'(?:([<>^=]))?([-+ ])?(#)?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z%])?$')


class Fld(object):
    """a formatted value; conv = (flags, width, precision, type)"""
    __slots__ = ('conv', 'p', 'dtype')

    def __init__(self, conv, p, dtype):
        self.conv, self.p, self.dtype = conv, p, dtype

    def __repr__(self):
        return '{%s %s}' % (spec(self.conv), self.p)

    def __eq__(self, o):
        return isinstance(o, Fld) and o.conv == self.conv and o.p == self.p and o.dtype == self.dtype

    def __hash__(self):
        return hash(self.conv)


class Alt(object):
    """text that depends on a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Text(Unk):
    """a string made of literal text and formatted fields; anything that does not know it sees an unknown string"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.why, self.parts = 'str', tuple(parts)


class FileV(Unk):
    """an open file"""
    __slots__ = ('tag', 'mode')

    def __init__(self, tag, mode='r'):
        self.why, self.tag, self.mode = 'file', tag, mode


def spec(conv):
    f, w, p, t = conv
    return '%' + f + (w or '') + ('.' + p if p is not None else '') + t


def mk(parts):
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    if not out:
        return Const('')
    if len(out) == 1 and isinstance(out[0], str):
        return Const(out[0])
    return Text(out)


def parts_of(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v.v,)
    if isinstance(v, Text):
        return v.parts
    return None


def field(I, st, conv, v, node):
    """text parts of one value, or None; events for values the conversion refuses"""
    t = conv[3]
    if isinstance(v, Const):
        if t not in 'sra' and (v.v is None or isinstance(v.v, str)):
            if t != 'c':
                I.event('type-error', node, '%%%s of %r' % (t, v.v), st=st)
            return None
        try:
            return [spec(conv) % (v.v,)]
        except (TypeError, ValueError, OverflowError):
            return None
    if isinstance(v, Text):
        return list(v.parts) if t == 's' and conv[:3] == ('', None, None) else None
    if isinstance(v, Phi) and I.arr_of(st, v) is None:
        a, b = field(I, st, conv, v.a, node), field(I, st, conv, v.b, node)
        return None if a is None or b is None else [Alt(v.c, a, b)]
    a = I.arr_of(st, v)
    if a is None:
        return None
    if a.rank and t in 'diouxXeEfFgG' and all(d.const() is not None for d in a.dims):
        n = 1
        for d in a.dims:
            n *= d.const()
        if n != 1:
            I.event('type-error', node, '%%%s of an array' % t, st=st)
            return None
        while a.rank:
            a = I.np.getitem_arr(st, a, [P.ZERO]) if False else Arr(a.dims[1:], (lambda f: lambda *ix: f(P.ZERO, *ix))(a.at), a.dtype)
    if a.rank or t in 'rac%':
        return None
    p = a.p()
    c = p.const()
    if c is not None and c.denominator == 1 and (t == 'd' or a.dtype == 'i'):
        return [spec(conv) % int(c)]
    return [Fld(conv, p, a.dtype)]


def percent(I, st, fmt, b, node):
    """fmt % b"""
    if isinstance(b, Tup):
        vals = list(b.items)
    elif isinstance(b, Const) or isinstance(b, Text):
        vals = [b]
    elif I.arr_of(st, b) is not None:
        vals = [b]
    elif isinstance(b, Phi):
        vals = [b]
    else:
        return None
    specs = [m for m in SPEC.finditer(fmt) if m.group(5) != '%']
    if any(m.group(1) for m in specs) or '*' in fmt and re.search(r'%[-+ #0\d.]*\*', fmt):
        return None
    if len(specs) != len(vals):
        I.event('type-error', node, 'format with %d conversions applied to %d values' % (len(specs), len(vals)), st=st)
        return None
    out, pos, k = [], 0, 0
    for m in SPEC.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        f = field(I, st, (m.group(2), m.group(3), m.group(4), 'd' if m.group(5) == 'i' else m.group(5)), vals[k], node)
        k += 1
        if f is None:
            return None
        out += f
    return mk(out + [fmt[pos:]])


def braced(I, st, s, v, node):
    """text parts of format(v, s)"""
    m = BRACE.match(s)
    if m is None:
        return None
    al, sg, alt, z, w, p, t = m.groups()
    if s == '' and isinstance(v, Const) and isinstance(v.v, (str, int)):
        return [str(v.v)]
    if alt or al in ('^', '='):
        return None
    string = parts_of(v) is not None
    if isinstance(v, Text):
        return list(v.parts) if s in ('', 's') else None
    if isinstance(v, Const) and t == 'd' and not isinstance(v.v, int):
        I.event('type-error', node, 'format d of %r' % (v.v,), st=st)
        return None
    a = None if string else I.arr_of(st, v)
    if t == 'd' and a is not None and a.dtype not in ('i', 'b'):
        I.event('type-error', node, 'format d of a float', st=st)
        return None
    flags = ('-' if al == '<' or (al is None and string) else '') + (sg if sg in ('+', ' ') else '') + (z or '')
    if t is None:
        t = 's' if string or p is None else 'g'
        if not string and flags == '' and w and al is None:
            return None if a is None else field(I, st, ('', w, p, t), v, node)
    return field(I, st, (flags, w, p, t), v, node)


def format_call(I, st, fmt, args, kw, node):
    """fmt.format(*args, **kw)"""
    out, pos, auto = [], 0, 0
    for m in re.finditer(r'\{\{|\}\}|\{(\w*)(?::([^{}]*))?\}', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        n = m.group(1)
        if n == '':
            n, auto = auto, auto + 1
        if isinstance(n, int) or n.isdigit():
            n = int(n)
            if n >= len(args):
                I.event('type-error', node, 'format of %d values needs value %d' % (len(args), n), st=st)
                return None
            v = args[n]
        else:
            v = kw.get(n)
        f = None if v is None else braced(I, st, m.group(2) or '', v, node)
        if f is None:
            return None
        out += f
    if '{' in fmt[pos:]:
        return None
    return mk(out + [fmt[pos:]])


def write(I, st, f, v, node):
    I.textlog.append((st.guard, f.tag if isinstance(f, FileV) else f, v, node))
    if I.files is not None and isinstance(f, FileV) and isinstance(I.files.get(f.tag), list):
        I.files[f.tag].append((st.guard, v, node))


def number(conv, v):
    """the number a field shows when the value is v"""
    f, w, p, t = conv
    s = spec((f, None, p, t)) % (int(v) if t == 'd' else v)
    return float(s)
