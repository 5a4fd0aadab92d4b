"""Files whose contents are part of the analysis: text written with formatted symbolic numbers is read back as Python source in which a
name stands for each of these numbers; MAT files are tables of arrays with at least two dimensions."""
import ast
import os
from .values import *          # noqa
from . import poly as P
from . import text


def throw(cls):
    from .interp import Thrown
    raise Thrown(cls)


def shown(I, f):
    """the number read back from a field"""
    flags, w, p, t = f.conv
    digits = 6 if p is None else int(p)
    if t == 'd':
        return scalar(f.p, 'i') if f.dtype in 'ib' else scalar(I.np.toint(f.p), 'i')
    if t == 's' or t == 'r':
        return scalar(f.p, f.dtype)
    exact = digits >= I.decimals if t in 'fF' else digits >= 9 if t in 'gG' else digits >= 8
    return scalar(f.p if exact else P.fn('shown', f.p, text.spec((flags, None, p, t))), 'f')


def flatten(I, parts):
    from .interp import INF, Budget
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, text.Fld):
            if x.p == INF:
                out.append('inf')
            elif x.p == -INF:
                out.append('-inf')
            else:
                n = '__number%d' % len(I.holders)
                I.holders[n] = shown(I, x)
                out.append(n)
        else:
            raise Budget('text that depends on a condition')
    return ''.join(out)


def read(I, f):
    from .interp import Budget
    c = I.files.get(f.tag)
    if isinstance(c, str):
        return Const(c)
    if not isinstance(c, list):
        throw(ValueError)
    out = []
    for g, v, node in c:
        k = g.const()
        if k == 0:
            continue
        ps = text.parts_of(v)
        if k is None or ps is None:
            raise Budget('unknown text written at line %d' % getattr(node, 'lineno', 0))
        out.append(flatten(I, ps))
    s = ''.join(out)
    I.files[f.tag] = s
    return Const(s)


def matval(I, st, v):
    """a value as stored in a MAT file"""
    from .interp import Budget
    c = I.cell(st, v)
    if isinstance(c, DictCell):
        raise Budget('struct in a MAT file')
    if isinstance(v, Const) and isinstance(v.v, str):
        return v
    a = I.arr_of(st, v)
    if a is None:
        raise Budget('%r in a MAT file' % (v,))
    if a.rank == 0:
        return I.newarr(st, Arr((cdim(1), cdim(1)), (lambda f: lambda i, j: f())(a.at), a.dtype))
    if a.rank == 1:
        return I.newarr(st, Arr((cdim(1), a.dims[0]), (lambda f: lambda i, j: f(j))(a.at), a.dtype))
    return I.newarr(st, a)


def call(I, st, name, args, kw, node):
    """calls that touch files; None for the others"""
    s = [a.v if isinstance(a, Const) and isinstance(a.v, str) else None for a in args]
    short = name.split('.')[-1]
    if name == 'builtins.open' and args:
        mode = args[1] if len(args) > 1 else kw.get('mode', Const('r'))
        if s[0] is None or not isinstance(mode, Const):
            return None
        if s[0] in I.locked:
            throw(PermissionError)
        if 'r' in mode.v and '+' not in mode.v:
            if s[0] not in I.files:
                throw(FileNotFoundError)
        elif 'w' in mode.v:
            I.files[s[0]] = []
        else:
            c = I.files.setdefault(s[0], [])
            if isinstance(c, str):
                I.files[s[0]] = [(P.ONE, Const(c), node)]
        return text.FileV(s[0], mode.v)
    if name == 'builtins.compile' and args and s[0] is not None:
        parse(s[0])
        return args[0]
    if name == 'builtins.exec' and len(args) == 1 and s[0] is not None:
        run(I, st, s[0])
        return NONE
    if short in ('exists', 'isfile') and name.startswith('os.') and len(args) == 1 and s[0] is not None:
        return Const(s[0] in I.files)
    if name in ('os.path.splitext', 'os.path.basename', 'os.path.dirname', 'os.path.split') and len(args) == 1 and s[0] is not None:
        r = getattr(os.path, short)(s[0])
        return Const(r) if isinstance(r, str) else Tup([Const(x) for x in r])
    if name == 'os.path.join' and args and None not in s:
        return Const(os.path.join(*s))
    if name == 'time.time':
        I.ticks += 1
        return scalar(P.atom('clock', P.const(I.ticks)), 'f')
    if short == 'savemat' and len(args) >= 2 and s[0] is not None:
        c = I.cell(st, args[1])
        if not isinstance(c, DictCell) or c.open:
            return None
        I.files[s[0]] = {k: matval(I, st, v) for k, v in c.items.items()}
        return NONE
    if short == 'loadmat' and args and s[0] is not None:
        if s[0] not in I.files:
            throw(FileNotFoundError)
        if not isinstance(I.files[s[0]], dict):
            throw(ValueError)
        out = {k: Const(k) for k in ('__header__', '__version__', '__globals__')}
        out.update({k: v if isinstance(v, Const) and isinstance(v.v, str) else I.newarr(st, I.arr_of(st, v)) for k, v in I.files[s[0]].items()})
        return I.newdict(st, out)
    return None


def parse(s):
    try:
        return ast.parse(s)
    except SyntaxError:
        pass
    throw(SyntaxError)


def run(I, st, s):
    """exec in a function: names go to its locals, but functions defined there only see the globals of its module"""
    from .interp import Frame
    fr = I.cur_frame
    r = I.exec_block(parse(s).body, st, Frame('<module>', fr.mod, None))
    if r is not None and r is not st:
        st.env.clear()
        st.env.update(r.env)
        st.heap.clear()
        st.heap.update(r.heap)
