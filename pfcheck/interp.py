"""Abstract interpreter over Python source (ast).

Every repository function is interpreted over the abstract values of
values.py: both branches of a test that is not decided are analysed and joined
(no path enumeration), loops are summarised by congruence invariants, calls to
repository functions are analysed in place, library calls go through the
transfer functions of npmodel.py.  Nothing of the repository is executed.
"""
import ast
import os
from .values import *          # noqa
from .poly import *            # noqa
from . import poly as P
from . import text
from .text import FileV


class Budget(Exception):
    pass


class RaiseOut(Exception):
    """every path of the current expression raises"""


class Thrown(RaiseOut):
    """an exception of a known class, thrown where only files and concrete structure decide"""

    def __init__(self, cls, value=None):
        self.cls, self.value = cls, value


# exception raised at run time by the constructs reported as events
EVENT_EXC = {'undefined': NameError, 'missing-arg': TypeError, 'extra-arg': TypeError, 'unpack': ValueError, 'len-scalar': TypeError,
             'not-callable': TypeError, 'keyerror': KeyError, 'type-error': TypeError, 'index-range': IndexError,
             'no-attribute': AttributeError}


class State(object):
    __slots__ = ('env', 'heap', 'guard')

    def __init__(self, env, heap, guard):
        self.env, self.heap, self.guard = env, heap, guard

    def fork(self, extra=None):
        g = self.guard if extra is None else self.guard * extra
        return State(dict(self.env), dict(self.heap), g)


class Frame(object):
    def __init__(self, func, mod, closure):
        self.func, self.mod, self.closure = func, mod, closure
        self.returns = []
        self.raises = []
        self.loops = []
        self.globals_decl = set()


class Module(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = None
        self.funcs = {}


class Program(object):
    """the parsed package"""

    def __init__(self, root, package='pypower', extra_dirs=()):
        self.root = root
        self.package = package
        self.mods = {}
        pk = os.path.join(root, package)
        for fn in sorted(os.listdir(pk)):
            if fn.endswith('.py'):
                self._load(package + '.' + fn[:-3] if fn != '__init__.py' else package,
                           os.path.join(pk, fn))
        for name, d in extra_dirs:
            for fn in sorted(os.listdir(d)):
                if fn.endswith('.py'):
                    self._load(name + '.' + fn[:-3], os.path.join(d, fn))

    def _load(self, name, path):
        with open(path, encoding='utf-8', errors='replace') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError:
            return
        m = Module(name, path, tree)
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                m.funcs[n.name] = n
        self.mods[name] = m

    def funcdef(self, mod, name):
        m = self.mods.get(mod)
        return m.funcs.get(name) if m else None


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.Mod: '%', ast.FloorDiv: '//',
          ast.MatMult: '@', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==',
          ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class SymKey:
    """a number that is not known, as the key of a dict"""
    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, SymKey) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '<%s>' % (self.p,)


def distinct(a, b):
    """two keys that cannot be the same"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) != len(b) or any(distinct(x, y) for x, y in zip(a, b))
    if isinstance(a, SymKey) or isinstance(b, SymKey):
        if isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)) or a is None or b is None:
            return True
        f = lambda x: x.p if isinstance(x, SymKey) else P.const(x)
        return P.eq(f(a) - f(b)).const() == 0
    return a != b


class Interp(object):
    MAXDEPTH = 40

    def __init__(self, prog, max_steps=400000):
        self.envs = {}
        self.prog = prog
        self.depth = 0
        self.steps = 0
        self.max_steps = max_steps
        self.nloc = 0
        self.events = []           # (kind, module path, lineno, function, detail)
        self.refusals = []         # (guard, module, line) of every raise statement reached
        self.stack = []            # function names
        self.called = set()        # (module, function) analysed
        self.loopnest = 0
        self.finite = True         # numbers are finite unless they are infinite constants
        self.nonan = False         # numbers are never nan
        self.letsize = 0           # >0: stored scalars with more terms are named
        self.unroll = 0            # >0: while loops are unrolled up to this many iterations
        self.random = None         # the number random() returns
        self.quiet = 0             # >0 during exploratory (havoc) passes
        self.overrides = {}        # 'mod.func' -> PyFunc
        self.files = None          # contents of all files by name (text or table of variables); None: not modelled
        self.ticks = 0             # how often the clock was read
        self.locked = ()           # names of files that cannot be opened
        self.holders = {}          # names standing for symbolic numbers in such files
        self.tries = 0
        self.decimals = 4          # digits after the point that count as exact
        self.textlog = []          # (guard, file, text, node) of everything written
        self.modheap = {}
        self.unk_log = {}
        from . import npmodel
        self.np = npmodel.NP(self)

    # ------------------------------------------------------------------
    def event(self, kind, node, detail, fr=None, st=None):
        if self.tries and self.files is not None and kind in EVENT_EXC and st is not None and st.guard.const():
            f = self.cur_frame
            raise Thrown(EVENT_EXC[kind], (f.mod.name if f else '?', self.stack[-1].split('.')[-1] if self.stack else '?', detail))
        if self.quiet:
            return
        f = self.cur_frame
        self.events.append((kind, f.mod.name if f else '?', getattr(node, 'lineno', 0),
                            self.stack[-1] if self.stack else '<module>', detail,
                            st.guard if st is not None else None))

    def unk(self, why):
        self.unk_log[why] = self.unk_log.get(why, 0) + 1
        return Unk(why)

    # -- heap
    def alloc(self, st, cell):
        self.nloc += 1
        loc = 'L%d' % self.nloc
        st.heap[loc] = cell
        return Ref(loc)

    def newarr(self, st, arr):
        if arr.rank == 0:
            return arr
        return self.alloc(st, ArrCell(arr))

    def newlist(self, st, items):
        return self.alloc(st, ListCell(items))

    def newdict(self, st, items, open=False, name=None):
        return self.alloc(st, DictCell(dict(items), open, name))

    def cell(self, st, v):
        if isinstance(v, Ref):
            c = st.heap.get(v.loc)
            return c if c is not None else self.modheap.get(v.loc)
        return None

    def dkey(self, v, st):
        """a key of a dict: numbers and tuples of numbers become constants, numbers that are not known are told apart by their polynomial"""
        if isinstance(v, Tup):
            ks = [self.dkey(x, st) for x in v.items]
            return Const(tuple(x.v for x in ks)) if all(isinstance(x, Const) for x in ks) else v
        if isinstance(v, Arr) and v.rank == 0:
            c = v.p().const()
            if c is not None and c.imag == 0:
                return Const(c.real if isinstance(c, complex) else c)
            return Const(SymKey(v.p()))
        return v

    def key_state(self, c, k):
        """whether the (closed) dict has the key: True, False, None"""
        if k in c.items:
            return True
        return False if all(distinct(k, x) for x in c.items) else None

    def arr_of(self, st, v):
        """Arr content of a value (constants and lists included) or None"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Const):
            if isinstance(v.v, bool):
                return scalar(P.const(int(v.v)), 'b')
            if isinstance(v.v, int):
                return scalar(P.const(v.v), 'i')
            if isinstance(v.v, float):
                if v.v != v.v:
                    return scalar(P.fn('nan'), 'f')
                if v.v in (float('inf'), float('-inf')):
                    return scalar(INF if v.v > 0 else -INF, 'f')
                return scalar(P.const(v.v), 'f')
            if isinstance(v.v, complex):
                return scalar(P.const(v.v.real) + J * P.const(v.v.imag), 'c')
            return None
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ArrCell):
                return c.arr
            if isinstance(c, ViewCell):
                pa = self.arr_of(st, c.parent)
                if pa is None:
                    return None
                return self.np.transpose(pa) if c.sel == 'T' else self.np.getitem_arr(st, pa, c.sel)
            if isinstance(c, ListCell):
                return self.np.from_list(st, c.items)
            return None
        if isinstance(v, Tup):
            return self.np.from_list(st, v.items)
        if isinstance(v, Phi):
            a, b = self.arr_of(st, v.a), self.arr_of(st, v.b)
            if a is not None and b is not None and a.rank == b.rank and a.dims == b.dims:
                r = phi_arr(v.c, a, b)
                if self.letsize and r.rank and all(d.const() is not None for d in r.dims):
                    r = Arr(r.dims, self.named_fn(r), r.dtype, r.kind)
                return r
            return None
        return None

    # ------------------------------------------------------------------
    # modules
    def module_env(self, mod):
        if mod.name not in self.envs:
            env = self.envs[mod.name] = {'__name__': Const(mod.name), '__file__': Const(mod.path)}
            fr = Frame('<module>', mod, None)
            st = State(env, self.modheap, ONE)
            save, self.cur_frame = getattr(self, 'cur_frame', None), fr
            steps = self.steps
            try:
                for s in mod.tree.body:
                    r = self.exec_stmt(s, st, fr)
                    if r is None:
                        break
                    if r is not st:
                        st = r
                self.envs[mod.name] = st.env
                if st.heap is not self.modheap:
                    self.modheap.update(st.heap)
            finally:
                self.cur_frame = save
                self.steps = steps
        return self.envs[mod.name]

    cur_frame = None

    def assigned(self, mod, name, st):
        c = st.heap.get('@' + mod.name)
        if c is not None and name in c.items:
            return self.filled(c.items[name], lambda: self.lookup_global(mod, name) or self.unk('undefined global ' + name))
        return self.lookup_global(mod, name)

    def lookup_global(self, mod, name):
        env = self.module_env(mod)
        if name in env:
            return env[name]
        import builtins
        if hasattr(builtins, name):
            return ExtV('builtins.' + name)
        return None

    def get_function(self, modname, name):
        m = self.prog.mods.get(modname)
        if m is None:
            return None
        return self.module_env(m).get(name)

    def import_value(self, modname, attr=None):
        m = self.prog.mods.get(modname)
        if m is not None:
            if attr is None:
                return ModV(m)
            env = self.module_env(m)
            if attr in env:
                return env[attr]
            sub = self.prog.mods.get(modname + '.' + attr)
            if sub is not None:
                return ModV(sub)
            return self.unk('import %s.%s' % (modname, attr))
        return self.ext_value(modname if attr is None else modname + '.' + attr)

    def ext_value(self, name):
        short = name.split('.')[-1]
        if name.startswith('numpy.') or name.startswith('scipy.') or name.startswith('math.'):
            if short == 'pi':
                return scalar(P.PI, 'f')
            if short in ('inf', 'Inf', 'infty', 'Infinity', 'PINF'):
                return Const(float('inf'))
            if short in ('nan', 'NaN'):
                return Const(float('nan'))
            if short == 'newaxis':
                return NONE
            if short in ('any', 'all', 'sum', 'max', 'min', 'abs', 'round') and name.count('.') == 1:
                return ExtV('numpy.' + short)
        if name == 'sys.version_info':
            return Tup([Const(3), Const(12), Const(0)])
        return ExtV(name)

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, body, st, fr):
        for s in body:
            st = self.exec_stmt(s, st, fr)
            if st is None:
                return None
        return st

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            return st
        try:
            return m(s, st, fr)
        except Thrown:
            raise
        except RaiseOut:
            return None

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def st_Pass(self, s, st, fr):
        return st

    def st_Global(self, s, st, fr):
        fr.globals_decl |= set(s.names)
        return st

    def put(self, st, where, name, v):
        """global variables that functions assign, and attributes of functions"""
        c = st.heap.get('@' + where)
        st.heap['@' + where] = DictCell(dict(c.items if c is not None else {}, **{name: v}))

    def filled(self, v, f):
        if isinstance(v, Phi):
            return self.phi(v.c, self.filled(v.a, f), self.filled(v.b, f))
        return f() if isinstance(v, Const) and v.v == '<missing>' else v

    def st_Assert(self, s, st, fr):
        return st

    def st_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.import_value(a.name)
            else:
                st.env[a.name.split('.')[0]] = self.import_value(a.name.split('.')[0])
        return st

    def st_ImportFrom(self, s, st, fr):
        mod = s.module or ''
        if s.level:
            base = fr.mod.name.rsplit('.', s.level)[0] if fr.mod.path.find('__init__') < 0 else fr.mod.name
            mod = base + ('.' + mod if mod else '')
        for a in s.names:
            if a.name == '*':
                m = self.prog.mods.get(mod)
                if m is not None:
                    st.env.update(self.module_env(m))
                continue
            st.env[a.asname or a.name] = self.import_value(mod, a.name)
        return st

    def st_FunctionDef(self, s, st, fr):
        defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, st, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        closure = None if fr.func == '<module>' else st.env
        st.env[s.name] = FuncV(s, fr.mod, (closure, fr.closure), s.name, defaults, kwd)
        return st

    def st_ClassDef(self, s, st, fr):
        methods = {}
        for n in s.body:
            if isinstance(n, ast.FunctionDef):
                d = [self.ev(x, st, fr) for x in n.args.defaults]
                methods[n.name] = FuncV(n, fr.mod, (None, None), n.name, d, {}, s.name)
        st.env[s.name] = ClassV(s, fr.mod, None, s.name, methods)
        return st

    def st_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.returns.append((st.guard, v, st))
        return None

    def st_Raise(self, s, st, fr):
        if s.exc is not None:
            self.ev(s.exc, st, fr)
            if self.tries and self.files is not None and st.guard.const():
                import builtins
                n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                c = getattr(builtins, n.id, None) if isinstance(n, ast.Name) else None
                if c is not None:
                    raise Thrown(c)
        fr.raises.append((st.guard, s.lineno))
        if not self.quiet:
            self.refusals.append((st.guard, fr.mod.name, s.lineno))
        return None

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                c = self.cell(st, base)
                k = self.dkey(k, st) if isinstance(c, DictCell) else k
                if isinstance(c, DictCell) and isinstance(k, Const):
                    items = dict(c.items)
                    if k.v not in items and not c.open:
                        self.event('keyerror', t, k.v, st=st)
                    items.pop(k.v, None)
                    st.heap[base.loc] = DictCell(items, c.open, c.name)
                elif isinstance(c, ListCell) and isinstance(k, Const) and isinstance(k.v, int) and -len(c.items) <= k.v < len(c.items):
                    items = list(c.items)
                    del items[k.v]
                    st.heap[base.loc] = ListCell(items)
                elif isinstance(base, Ref):
                    self.taint(st, base, 'del')
        return st

    def st_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def st_AugAssign(self, s, st, fr):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            old = self.load_name(s.target.id, s.target, st, fr)
            r = self.ev(s.value, st, fr)
            v = self.binop(op, old, r, st, s)
            c = self.cell(st, old)
            if isinstance(c, (ArrCell, ViewCell)):
                a = self.arr_of(st, v)
                oa = self.arr_of(st, old)
                if a is not None and oa is not None and oa.kind != 'sp':
                    self.store_whole(st, old, a, s)
                    return st
                if oa is not None and oa.kind == 'sp':
                    st.env[s.target.id] = v
                    return st
                self.taint(st, old, 'augassign')
                return st
            if isinstance(old, Phi):
                ls = leaves(old)
                if all(isinstance(x, Ref) and isinstance(st.heap.get(x.loc), (ArrCell, ViewCell)) for x, _ in ls):
                    for x, k in ls:
                        oa, na = self.arr_of(st, x), self.arr_of(st, self.binop(op, x, r, st, s))
                        if oa is None or na is None:
                            self.taint(st, x, 'augassign')
                        elif oa.kind != 'sp':
                            self.store_whole(st, x, phi_arr(k, na, oa), s)
                    if not any(a is not None and a.kind == 'sp' for a in [self.arr_of(st, x) for x, _ in ls]):
                        return st
            if isinstance(c, ListCell) and op == '+':
                rc = self.cell(st, r)
                if isinstance(rc, ListCell):
                    st.heap[old.loc] = ListCell(c.items + rc.items)
                elif isinstance(r, Tup):
                    st.heap[old.loc] = ListCell(c.items + r.items)
                else:
                    self.taint(st, old, 'list +=')
                return st
            st.env[s.target.id] = v
            return st
        if isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, st, fr)
            idx = self.ev(s.target.slice, st, fr)
            old = self.getitem(base, idx, st, s.target)
            v = self.binop(op, old, self.ev(s.value, st, fr), st, s)
            self.setitem(base, idx, v, st, s)
            return st
        if isinstance(s.target, ast.Attribute):
            old = self.ev(s.target, st, fr)
            v = self.binop(op, old, self.ev(s.value, st, fr), st, s)
            self.assign(s.target, v, st, fr)
        return st

    def st_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st, s.test)
        return self.branch(c, st, fr, lambda x: self.exec_block(s.body, x, fr),
                           lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, c, st, fr, fa, fb):
        c = self.simplify_cond(c, st)
        k = c.const()
        if k is not None:
            return fa(st) if k else fb(st)
        sa, sb = st.fork(c), st.fork(ONE - c)
        ga, gb = sa.guard, sb.guard
        a = fa(sa)
        b = fb(sb)
        if a is None:
            return b
        if b is None:
            return a
        # a path that left inside one of the branches is not in the state after them
        left = a.guard is not ga and a.guard != ga or b.guard is not gb and b.guard != gb
        return self.merge(c, a, b, a.guard + b.guard if left else st.guard)

    def simplify_cond(self, c, st):
        if c.const() is None and st.guard is not ONE:
            g = st.guard
            try:
                gc = g * c
                if gc == g:
                    return ONE
                if not gc.t:
                    return ZERO
            except TooBig:
                pass
        return c

    def merge(self, c, a, b, guard):
        if self.letsize and len(c.t) > self.letsize:
            c = P.let_bool(c)
        env = {}
        for k in set(a.env) | set(b.env):
            if k in a.env and k in b.env:
                env[k] = self.phi(c, a.env[k], b.env[k])
            else:
                env[k] = a.env[k] if k in a.env else b.env[k]
        heap = self.merge_heap(c, a.heap, b.heap)
        return State(env, heap, guard)

    def merge_heap(self, c, ha, hb):
        if ha is hb:
            return ha
        heap = dict(hb)
        for k, x in ha.items():
            y = hb.get(k)
            if y is None:
                heap[k] = self.phi_cell(c, x, DictCell({}), ha, hb) if k[0] == '@' else x
            elif x is not y:
                heap[k] = self.phi_cell(c, x, y, ha, hb)
        for k, y in hb.items():
            if k[0] == '@' and k not in ha:
                heap[k] = self.phi_cell(c, DictCell({}), y, ha, hb)
        return heap

    def phi(self, c, a, b):
        if a is b:
            return a
        k = c.const()
        if k is not None:
            return a if k else b
        if isinstance(a, Const) and isinstance(b, Const) and a == b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        an, bn = num0(a), num0(b)
        if an is not None and bn is not None:
            if an[0] == bn[0] and an[1] == bn[1]:
                return a
            try:
                p = c * an[0] + (ONE - c) * bn[0]
            except TooBig:
                return self.unk('phi too big')
            if self.letsize:
                return self.named(scalar(p, join_dtype(an[1], bn[1])))
            return scalar(p, join_dtype(an[1], bn[1]))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Unk) and isinstance(b, Unk):
            return a
        if depth_phi(a) + depth_phi(b) > 8:
            return self.unk('phi depth')
        return Phi(c, a, b)

    def phi_cell(self, c, x, y, ha, hb):
        if isinstance(x, ArrCell) and isinstance(y, ArrCell):
            if x.arr is y.arr:
                return x
            if x.arr.rank == y.arr.rank and same_dims(x.arr, y.arr):
                r = phi_arr(c, x.arr, y.arr)
                if self.letsize and r.rank and all(d.const() is not None for d in r.dims):
                    r = Arr(r.dims, self.named_fn(r), r.dtype, r.kind)
                return ArrCell(r)
            return UnkCell('phi of different shapes')
        if isinstance(x, DictCell) and isinstance(y, DictCell):
            items = {}
            ok = True
            for k in set(x.items) | set(y.items):
                if k in x.items and k in y.items:
                    items[k] = self.phi(c, x.items[k], y.items[k])
                else:
                    miss = Const('<missing>')
                    items[k] = Phi(c, x.items.get(k, miss), y.items.get(k, miss))
            return DictCell(items, x.open or y.open, x.name or y.name)
        if isinstance(x, ListCell) and isinstance(y, ListCell) and len(x.items) == len(y.items):
            return ListCell([self.phi(c, p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, ObjCell) and isinstance(y, ObjCell) and x.cls is y.cls:
            at = {}
            for k in set(x.attrs) | set(y.attrs):
                if k in x.attrs and k in y.attrs:
                    at[k] = self.phi(c, x.attrs[k], y.attrs[k])
                else:
                    at[k] = x.attrs.get(k, y.attrs.get(k))
            return ObjCell(x.cls, at)
        if isinstance(x, ViewCell) and isinstance(y, ViewCell) and x.parent == y.parent and x.sel is y.sel:
            return x
        return UnkCell('phi of different cells')

    # -- loops
    def st_While(self, s, st, fr):
        from .loops import run_while
        return run_while(self, s, st, fr)

    def st_For(self, s, st, fr):
        from .loops import run_for
        return run_for(self, s, st, fr)

    def st_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['break'].append(st)
        return None

    def st_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['continue'].append(st)
        return None

    def st_Try(self, s, st, fr):
        # analysed as the non-raising path followed by else/finally; handlers
        # are analysed from the pre-state for their effects on names only
        if self.files is not None:
            return self.exact_try(s, st, fr)
        pre = st.fork()
        nr = len(fr.raises)
        out = self.exec_block(s.body, st, fr)
        if out is not None and s.orelse:
            out = self.exec_block(s.orelse, out, fr)
        # a try body guarding an import of an absent optional package
        only_imports = all(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        hs = []
        if not only_imports:
            for h in s.handlers:
                c = P.fn('?exc', str(s.lineno))
                hst = pre.fork(c)
                if h.name:
                    hst.env[h.name] = Unk('exception')
                r = self.exec_block(h.body, hst, fr)
                if r is not None:
                    hs.append((c, r))
        for c, r in hs:
            if out is None:
                out = r
            else:
                out = self.merge(c, r, out, pre.guard)
        if out is not None and s.finalbody:
            out = self.exec_block(s.finalbody, out, fr)
        return out

    def exact_try(self, s, st, fr):
        """with files known, which exceptions are thrown is known too"""
        import builtins
        self.tries += 1
        try:
            out = self.exec_block(s.body, st, fr)
            caught = None
        except Thrown as e:
            caught = e
        finally:
            self.tries -= 1
        if caught is None:
            if out is not None and s.orelse:
                out = self.exec_block(s.orelse, out, fr)
        else:
            out = None
            for h in s.handlers:
                ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                cs = [getattr(builtins, t.id, None) if isinstance(t, ast.Name) else None for t in ts]
                if None in cs:
                    raise Budget('exception class')
                if not cs or issubclass(caught.cls, tuple(cs)):
                    if h.name:
                        st.env[h.name] = Unk('exception')
                    out = self.exec_block(h.body, st, fr)
                    break
            else:
                if s.finalbody:
                    self.exec_block(s.finalbody, st, fr)
                raise caught
        if out is not None and s.finalbody:
            out = self.exec_block(s.finalbody, out, fr)
        return out

    def st_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    # ------------------------------------------------------------------
    # assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if self.letsize:
                v = self.name_formulas(v, st)
            if t.id in fr.globals_decl and fr.func != '<module>':
                self.put(st, fr.mod.name, t.id, v)
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), st, t,
                                star=[i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)])
            for e, x in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            idx = self.ev(t.slice, st, fr)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            c = self.cell(st, base)
            if isinstance(c, ObjCell):
                at = dict(c.attrs)
                at[t.attr] = v
                st.heap[base.loc] = ObjCell(c.cls, at)
            elif isinstance(base, FuncV):
                self.put(st, '%s.%s' % (base.mod.name, base.name), t.attr, v)
            elif isinstance(base, ModV):
                self.put(st, base.mod.name, t.attr, v)
            elif isinstance(base, Ref) and t.attr == 'shape':
                self.taint(st, base, 'shape assignment')

    def unpack(self, v, n, st, node, star=()):
        if star:
            return [self.unk('starred')] * n
        items = self.seq_items(v, st)
        if items is not None and len(items) == n:
            return items
        if items is not None:
            self.event('unpack', node, 'cannot unpack %d values into %d' % (len(items), n), st=st)
            return [self.unk('unpack arity')] * n
        if isinstance(v, Phi):
            a = self.unpack(v.a, n, st, node)
            b = self.unpack(v.b, n, st, node)
            return [self.phi(v.c, x, y) for x, y in zip(a, b)]
        a = self.arr_of(st, v)
        if a is not None and a.rank >= 1 and a.dims[0].const() == n:
            return [self.getitem(v, Const(i), st, node) for i in range(n)]
        return [self.unk('unpack %r' % (v,))] * n

    def seq_items(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        c = self.cell(st, v)
        if isinstance(c, ListCell):
            return list(c.items)
        return None

    def store_whole(self, st, ref, arr, node=None):
        """in-place replacement of an array's contents"""
        c = st.heap.get(ref.loc)
        if isinstance(c, ViewCell):
            pa = self.arr_of(st, c.parent)
            new = self.np.setitem_arr(st, pa, c.sel, arr) if pa is not None else None
            if new is None:
                self.taint(st, c.parent, 'store through view')
            else:
                self.store_whole(st, c.parent, new, node)
            self.mutated(st, ref, node)
            return
        if self.letsize and arr.rank and all(d.const() is not None for d in arr.dims):
            arr = Arr(arr.dims, self.named_fn(arr), arr.dtype, arr.kind)
        st.heap[ref.loc] = ArrCell(arr)
        self.mutated(st, ref, node)

    def name_formulas(self, v, st):
        if isinstance(v, Arr) and v.rank == 0:
            return self.named(v)
        c = self.cell(st, v)
        if isinstance(c, ArrCell) and c.arr.rank and c.arr.note != 'named' and all(d.const() is not None for d in c.arr.dims):
            a = c.arr
            st.heap[v.loc] = ArrCell(Arr(a.dims, self.named_fn(a), a.dtype, a.kind, note='named'))
        return v

    def small(self, p):
        return self.named(scalar(p)).p() if self.letsize else p

    def named_fn(self, arr):
        return lambda *ix: self.named(scalar(arr.at(*ix), arr.dtype)).p()

    mut_hook = None

    def mutated(self, st, ref, node):
        if self.mut_hook is not None and not self.quiet:
            self.mut_hook(st, ref, node)

    def taint(self, st, v, why):
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if isinstance(c, ViewCell):
                self.taint(st, c.parent, why)
                return
            if isinstance(c, ArrCell):
                a = c.arr
                nm = '?' + fresh('t')
                st.heap[v.loc] = ArrCell(Arr(a.dims, lambda *ix: P.atom(nm, *[flat(i) for i in ix]), a.dtype, a.kind))
            else:
                st.heap[v.loc] = UnkCell(why)
            self.unk_log['taint: ' + why] = self.unk_log.get('taint: ' + why, 0) + 1
        elif isinstance(v, Phi):
            self.taint(st, v.a, why)
            self.taint(st, v.b, why)

    def setitem(self, base, idx, v, st, node):
        if isinstance(base, Phi):
            # weak update of every candidate
            for side, c in leaves(base):
                if isinstance(side, Ref):
                    x = st.heap.get(side.loc)
                    if isinstance(x, (ArrCell, ViewCell)):
                        old = self.arr_of(st, side)
                        tmp = st.fork()
                        self.setitem(side, idx, v, tmp, node)
                        new = self.arr_of(tmp, side)
                        if old is not None and new is not None:
                            self.store_whole(st, side, phi_arr(c, new, old), node)
                        else:
                            self.taint(st, side, 'weak update')
                    else:
                        old = x
                        tmp = st.fork()
                        self.setitem(side, idx, v, tmp, node)
                        st.heap.update({k: q for k, q in tmp.heap.items() if k not in st.heap})
                        st.heap[side.loc] = self.phi_cell(c, tmp.heap[side.loc], old, tmp.heap, st.heap)
            return
        c = self.cell(st, base)
        if isinstance(c, DictCell):
            idx = self.dkey(idx, st)
            if isinstance(idx, Const) and self.key_state(c, idx.v) is not None:
                items = dict(c.items)
                items[idx.v] = v
                st.heap[base.loc] = DictCell(items, c.open, c.name)
                self.mutated(st, base, node)
            else:
                self.taint(st, base, 'dict store with unknown key')
            return
        if isinstance(c, ListCell):
            if isinstance(idx, Const) and isinstance(idx.v, int) and -len(c.items) <= idx.v < len(c.items):
                it = list(c.items)
                it[idx.v] = v
                st.heap[base.loc] = ListCell(it)
            else:
                self.taint(st, base, 'list store')
            return
        if isinstance(c, (ArrCell, ViewCell)):
            old = self.arr_of(st, base)
            va = self.arr_of(st, v)
            sel = self.np.index(st, idx, node)
            if self.letsize and va is not None and va.rank == 0:
                va = self.named(va)
            new = None
            if old is not None and sel is not None:
                self.check_index(sel, node, st)
            if old is not None and va is not None and sel is not None:
                try:
                    if old.dtype == 'i' and va.dtype == 'f':
                        va = self.np.whole(va)
                    new = self.np.setitem_arr(st, old, sel, va)
                except TooBig:
                    new = None
            if new is None and old is not None and sel is not None:
                new = self.np.setitem_unknown(st, old, sel)
            if new is None:
                self.taint(st, base, 'array store')
                self.mutated(st, base, node)
            else:
                self.store_whole(st, base, new, node)
            return
        if isinstance(base, Ref):
            self.taint(st, base, 'store into unknown')

    def named(self, a):
        """a scalar with a large formula becomes an opaque quantity (congruent: equal formulas, equal quantities)"""
        try:
            p = a.p()
            if len(p.t) <= self.letsize:
                return a
            if p.fv():
                return a
            if a.dtype == 'b':
                return scalar(P.let_bool(p), 'b')
            q = P.let(p.real())
            if a.dtype == 'c':
                q = q + J * P.let(p.imag())
            return scalar(q, a.dtype)
        except TooBig:
            return a

    def check_index(self, sel, node, st):
        for s in sel:
            if isinstance(s, Arr) and s.rank >= 1 and s.dtype in ('f', 'c') and not (s.rank == 1 and s.dims[0].const() == 0):
                self.event('float-index', node, 'index array of dtype %s' % s.dtype, st=st)
            elif isinstance(s, Arr) and s.rank == 0 and s.dtype in ('f', 'c'):
                self.event('float-index', node, 'scalar index of dtype %s' % s.dtype, st=st)

    # ------------------------------------------------------------------
    # truth values
    def truth(self, v, st, node=None):
        """0/1 Poly"""
        p = self.truth1(v, st, node)
        if self.letsize and len(p.t) > self.letsize:
            p = P.let_bool(p)
        return p

    def truth1(self, v, st, node=None):
        if isinstance(v, Const):
            return ONE if v.v else ZERO
        if isinstance(v, Arr):
            if v.rank == 0:
                if v.dtype == 'b':
                    return v.p()
                return P.ne(v.p())
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Phi):
            return v.c * self.truth(v.a, st, node) + (ONE - v.c) * self.truth(v.b, st, node)
        if isinstance(v, (FuncV, ClassV, ModV, PyFunc, ExtV, Bound)):
            return ONE
        c = self.cell(st, v)
        if isinstance(c, ListCell):
            return ONE if c.items else ZERO
        if isinstance(c, DictCell) and not c.open:
            return ONE if c.items else ZERO
        if isinstance(c, ObjCell):
            return ONE
        if isinstance(c, (ArrCell, ViewCell)):
            a = self.arr_of(st, v)
            if a is not None:
                if a.rank and all(d.const() == 1 for d in a.dims):
                    p = a.at(*[ZERO] * a.rank)
                    return p if a.dtype == 'b' else P.ne(p)
                if a.kind == 'nd' and not all(d.const() == 1 for d in a.dims):
                    self.event('array-truth', node, 'truth value of an array with %s elements' %
                               'x'.join(str(d.size) for d in a.dims), st=st)
        return P.fn('?cond' + fresh('c'))

    # ------------------------------------------------------------------
    # expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            return self.unk('expr ' + type(e).__name__)
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('steps')
        try:
            return m(e, st, fr)
        except TooBig:
            return self.unk('expression too big')

    def ex_Constant(self, e, st, fr):
        return Const(e.value)

    def load_name(self, name, node, st, fr):
        if name in st.env:
            return st.env[name]
        cl = fr.closure
        while cl is not None:
            env, nxt = cl
            if env is not None and name in env:
                return env[name]
            cl = nxt
        v = self.assigned(fr.mod, name, st)
        if v is None and name in self.holders:
            return self.holders[name]
        if v is None:
            self.event('undefined', node, name, st=st)
            return self.unk('undefined name ' + name)
        return v

    def ex_Name(self, e, st, fr):
        return self.load_name(e.id, e, st, fr)

    def ex_Tuple(self, e, st, fr):
        return Tup(self.elts(e.elts, st, fr))

    def elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.seq_items(self.ev(x.value, st, fr), st)
                if it is None:
                    out.append(self.unk('star'))
                else:
                    out.extend(it)
            else:
                out.append(self.ev(x, st, fr))
        return out

    def ex_List(self, e, st, fr):
        return self.newlist(st, self.elts(e.elts, st, fr))

    def ex_Set(self, e, st, fr):
        return self.newlist(st, self.elts(e.elts, st, fr))

    def ex_Dict(self, e, st, fr):
        items = {}
        opn = False
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                c = self.cell(st, vv)
                if isinstance(c, DictCell):
                    items.update(c.items)
                else:
                    opn = True
                continue
            kk = self.ev(k, st, fr)
            kk = self.dkey(kk, st)
            if isinstance(kk, Const) and all(kk.v == x or distinct(kk.v, x) for x in items):
                items[kk.v] = vv
            else:
                opn = True
        return self.newdict(st, items, opn)

    def ex_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.ev(x, st, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def ex_Index(self, e, st, fr):          # py<3.9
        return self.ev(e.value, st, fr)

    def ex_JoinedStr(self, e, st, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st, fr)
                f = Const('') if v.format_spec is None else self.ev(v.format_spec, st, fr)
                f = text.braced(self, st, f.v, x, e) if isinstance(f, Const) and v.conversion in (-1, None) else None
            else:
                f = [v.value]
            out = None if out is None or f is None else out + f
        return Unk('str') if out is None else text.mk(out)

    def ex_Lambda(self, e, st, fr):
        d = [self.ev(x, st, fr) for x in e.args.defaults]
        return FuncV(e, fr.mod, (st.env, fr.closure), '<lambda>', d)

    def ex_IfExp(self, e, st, fr):
        c = self.simplify_cond(self.truth(self.ev(e.test, st, fr), st, e.test), st)
        k = c.const()
        if k is not None:
            return self.ev(e.body if k else e.orelse, st, fr)
        a = self.ev(e.body, st, fr)
        b = self.ev(e.orelse, st, fr)
        if isinstance(a, Ref) and isinstance(b, Ref) and (isinstance(e.body, ast.Name) or isinstance(e.orelse, ast.Name)):
            # an alias of one of them: later stores reach it
            return self.phi(c, a, b)
        return self.phi_deep(c, a, b, st)

    def phi_deep(self, c, a, b, st):
        r = self.phi(c, a, b)
        if isinstance(r, Phi):
            x, y = self.arr_of(st, a), self.arr_of(st, b)
            if x is not None and y is not None and x.rank == y.rank and same_dims(x, y):
                return self.newarr(st, phi_arr(c, x, y))
        return r

    def ex_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        acc = None
        for x in e.values:
            v = self.ev(x, st, fr)
            vals.append(v)
            t = self.simplify_cond(self.truth(v, st, x), st)
            k = t.const()
            if acc is None:
                acc = t
            else:
                acc = acc * t if isand else acc + t - acc * t
            if k is not None and bool(k) != isand:
                if len(vals) == 1 or acc.const() is not None:
                    return v
                break
        if all(isinstance(v, Const) for v in vals):
            r = vals[0].v
            for v in vals[1:]:
                r = (r and v.v) if isand else (r or v.v)
            return Const(r)
        if isinstance(e, ast.BoolOp) and len(vals) == 2 and not isand and acc.const() is None and \
                not any(isinstance(v, Arr) and v.rank == 0 for v in vals):
            # "x or default" idiom
            t = self.truth(vals[0], st, e.values[0])
            if not poly_unknown(t):
                return self.phi_deep(t, vals[0], vals[1], st)
        k = acc.const()
        if k is not None:
            return Const(bool(k))
        return scalar(acc, 'b')

    def ex_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            t = self.simplify_cond(self.truth(v, st, e.operand), st)
            k = t.const()
            if k is not None:
                return Const(not k)
            return scalar(ONE - t, 'b')
        return self.unop(e.op, v, st, e)

    def unop(self, op, v, st, node=None):
        if isinstance(v, Phi):
            return self.phi_deep(v.c, self.unop(op, v.a, st, node), self.unop(op, v.b, st, node), st)
        if isinstance(v, Const) and isinstance(v.v, (int, float, complex)):
            if isinstance(op, ast.USub):
                return Const(-v.v)
            if isinstance(op, ast.UAdd):
                return v
            if isinstance(op, ast.Invert) and isinstance(v.v, int):
                return Const(~v.v)
        a = self.arr_of(st, v)
        if a is None:
            return self.unk('unary on %r' % (v,))
        if isinstance(op, ast.USub):
            if a.dtype == 'b' and a.rank and node is not None:
                self.event('type-error', node, 'negative of a boolean array', st=st)
            return self.newarr(st, Arr(a.dims, lambda *ix: -a.at(*ix), 'i' if a.dtype == 'b' else a.dtype, a.kind))
        if isinstance(op, ast.UAdd):
            return self.newarr(st, a)
        if a.dtype == 'b':
            return self.newarr(st, Arr(a.dims, lambda *ix: ONE - a.at(*ix), 'b', a.kind))
        return self.unk('invert')

    def ex_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        r = self.binop(BINOPS[type(e.op)], a, b, st, e)
        if self.letsize and isinstance(r, Arr) and r.rank == 0 and r.dtype == 'b':
            return self.named(r)
        return r

    def binop(self, op, a, b, st, node=None):
        if op == '%' and isinstance(a, Const) and isinstance(a.v, str):
            parts = [b] if isinstance(b, Const) else list(b.items) if isinstance(b, Tup) else [None]
            if all(isinstance(x, Const) and isinstance(x.v, (str, int)) for x in parts):
                try:
                    return Const(a.v % tuple(x.v for x in parts))
                except (TypeError, ValueError):
                    pass
            r = text.percent(self, st, a.v, b, node)
            return Unk('str') if r is None else r
        if op == '+' and (isinstance(a, text.Text) or isinstance(b, text.Text)):
            x, y = text.parts_of(a), text.parts_of(b)
            return Unk('str') if x is None or y is None else text.mk(x + y)
        if isinstance(a, Const) and isinstance(b, Const):
            r = const_binop(op, a.v, b.v)
            if r is not None:
                return r
            if op == '+' and isinstance(a.v, str) and isinstance(b.v, str):
                return Const(a.v + b.v)
        if isinstance(a, Phi) and not isinstance(b, Phi):
            return self.phi_deep(a.c, self.binop(op, a.a, b, st, node), self.binop(op, a.b, b, st, node), st)
        if isinstance(b, Phi) and not isinstance(a, Phi):
            return self.phi_deep(b.c, self.binop(op, a, b.a, st, node), self.binop(op, a, b.b, st, node), st)
        if isinstance(a, Const) and isinstance(a.v, str):
            if op == '*' and isinstance(b, Const) and isinstance(b.v, int):
                return Const(a.v * b.v)
            return Unk('str')
        if isinstance(b, Const) and isinstance(b.v, str):
            return Unk('str')
        # list / tuple concatenation and repetition
        ca, cb = self.cell(st, a), self.cell(st, b)
        if isinstance(ca, ListCell) and isinstance(cb, ListCell) and op == '+':
            return self.newlist(st, ca.items + cb.items)
        if isinstance(ca, ListCell) and op == '*' and isinstance(b, Const) and isinstance(b.v, int):
            return self.newlist(st, ca.items * b.v)
        if isinstance(a, Tup) and isinstance(b, Tup) and op == '+':
            return Tup(a.items + b.items)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.unk('operand: ' + (a if isinstance(a, Unk) else b).why)
        x, y = self.arr_of(st, a), self.arr_of(st, b)
        if x is None or y is None:
            return self.unk('binop %s on %r, %r' % (op, a, b))
        r = self.np.binop(st, op, x, y, node)
        if r is None:
            return self.unk('binop %s' % op)
        return self.newarr(st, r)

    def ex_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            v = self.compare(CMPOPS[type(op)], left, right, st, e)
            if acc is None:
                acc = v
            else:
                t = self.truth(acc, st, e) * self.truth(v, st, e)
                k = t.const()
                acc = Const(bool(k)) if k is not None else scalar(t, 'b')
            left = right
        return acc

    def compare(self, op, a, b, st, node):
        if op in ('is', 'is not'):
            r = self.is_test(a, b, st)
            if isinstance(r, bool):
                return Const(r if op == 'is' else not r)
            return scalar(r if op == 'is' else ONE - r, 'b')
        if op in ('in', 'not in'):
            r = self.in_test(a, b, st)
            k = r.const()
            if k is not None:
                return Const(bool(k) == (op == 'in'))
            return scalar(r if op == 'in' else ONE - r, 'b')
        if op in ('==', '!='):
            for u, w in ((a, b), (b, a)):
                if isinstance(u, Const) and isinstance(u.v, str) and u.v.startswith('dtype:'):
                    d = self.np.dtype_code(w)
                    if d is not None:
                        return Const((d == u.v[-1]) == (op == '=='))
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const({'<': lambda: a.v < b.v, '<=': lambda: a.v <= b.v, '>': lambda: a.v > b.v,
                              '>=': lambda: a.v >= b.v, '==': lambda: a.v == b.v,
                              '!=': lambda: a.v != b.v}[op]())
            except TypeError:
                return self.unk('comparison')
        if op in ('==', '!=') and isinstance(a, FuncV) and isinstance(b, FuncV):
            same = a is b or a.node is b.node and a.env is b.env
            if same or a.node is not b.node:
                return Const(same == (op == '=='))
        if isinstance(a, Phi):
            return self.phi_deep(a.c, self.compare(op, a.a, b, st, node), self.compare(op, a.b, b, st, node), st)
        if isinstance(b, Phi):
            return self.phi_deep(b.c, self.compare(op, a, b.a, st, node), self.compare(op, a, b.b, st, node), st)
        if isinstance(a, Const) and not isinstance(a.v, (int, float, complex)) or \
                isinstance(b, Const) and not isinstance(b.v, (int, float, complex)):
            oth = b if isinstance(a, Const) and not isinstance(a.v, (int, float)) else a
            k = a if oth is b else b
            if op in ('==', '!=') and isinstance(oth, (Arr, Ref, Tup, FuncV)):
                if k.v is None and isinstance(oth, Ref):
                    c = self.cell(st, oth)
                    if isinstance(c, (ArrCell, ViewCell)):
                        arr = self.arr_of(st, oth)
                        if arr is not None and arr.kind == 'nd':
                            z = ZERO if op == '==' else ONE
                            self.event('array-none-compare', node, 'array %s None is elementwise' % op, st=st)
                            return self.newarr(st, Arr(arr.dims, lambda *ix: z, 'b'))
                return Const(op == '!=')
            return self.unk('compare')
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.unk('operand: ' + (a if isinstance(a, Unk) else b).why)
        sa, sb = self.seq_items(a, st), self.seq_items(b, st)
        if sa is not None and sb is not None and op in ('==', '!='):
            if len(sa) != len(sb) or isinstance(a, Tup) != isinstance(b, Tup):
                return Const(op == '!=')
            if op in ('==', '!='):
                t = ONE
                for x, y in zip(sa, sb):
                    t = t * self.truth(self.compare('==', x, y, st, node), st, node)
                if op == '!=':
                    t = ONE - t
                k = t.const()
                return Const(bool(k)) if k is not None else scalar(t, 'b')
        x, y = self.arr_of(st, a), self.arr_of(st, b)
        if x is None or y is None:
            return self.unk('compare')
        r = self.np.compare(st, op, x, y, node)
        if r is None:
            return self.unk('compare')
        if r.rank == 0:
            k = r.p().const()
            if k is not None:
                return Const(bool(k))
        return self.newarr(st, r)

    def is_test(self, a, b, st):
        if isinstance(a, Phi):
            x, y = self.is_test(a.a, b, st), self.is_test(a.b, b, st)
            x = aspoly(int(x)) if isinstance(x, bool) else x
            y = aspoly(int(y)) if isinstance(y, bool) else y
            r = a.c * x + (ONE - a.c) * y
            k = r.const()
            return bool(k) if k is not None else r
        if isinstance(b, Const):
            if isinstance(a, Const):
                return a.v is b.v or (a.v == b.v and type(a.v) is type(b.v))
            if isinstance(a, Unk) and type(a) is Unk:
                return P.fn('?is' + fresh('c'))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.loc == b.loc
        return P.fn('?is' + fresh('c'))

    def in_test(self, a, b, st):
        if isinstance(b, Phi):
            return b.c * self.in_test(a, b.a, st) + (ONE - b.c) * self.in_test(a, b.b, st)
        c = self.cell(st, b)
        if isinstance(c, DictCell):
            a = self.dkey(a, st)
        if isinstance(c, DictCell) and isinstance(a, Const):
            if a.v in c.items:
                return self.present(c.items[a.v])
            if self.key_state(c, a.v) is None:
                return P.fn('?in' + fresh('c'))
            if not c.open:
                return ZERO
            return P.fn('has', '%s.%s' % (c.name or '?', a.v))
        items = self.seq_items(b, st)
        if items is not None and isinstance(a, Const) and all(isinstance(x, Const) for x in items):
            return ONE if any(x.v == a.v for x in items) else ZERO
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return ONE if a.v in b.v else ZERO
        if items is not None and isinstance(a, Arr) and a.rank == 0:
            ps = [self.arr_of(st, x) for x in items]
            if all(p is not None and p.rank == 0 for p in ps):
                r = ZERO
                for p in ps:
                    t = P.eq(a.p() - p.p())
                    r = r + t - r * t
                return r
        return P.fn('?in' + fresh('c'))

    def present(self, v):
        if isinstance(v, Phi):
            return v.c * self.present(v.a) + (ONE - v.c) * self.present(v.b)
        if isinstance(v, Const) and v.v == '<missing>':
            return ZERO
        return ONE

    def ex_Attribute(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        if isinstance(base, Const) and base.v is None and not hasattr(None, e.attr):
            self.event('no-attribute', None, 'None has no attribute ' + e.attr, st=st)
            return self.unk('no attribute')
        return self.getattr(base, e.attr, st, e)

    def getattr(self, base, attr, st, node):
        if isinstance(base, ModV):
            sub = self.prog.mods.get(base.mod.name + '.' + attr)
            env = self.module_env(base.mod)
            c = st.heap.get('@' + base.mod.name)
            if attr in env or c is not None and attr in c.items:
                return self.assigned(base.mod, attr, st)
            if sub is not None:
                return ModV(sub)
            return self.unk('module attr ' + attr)
        if isinstance(base, ExtV):
            return self.ext_value(base.name + '.' + attr)
        if isinstance(base, Phi):
            return self.phi_deep(base.c, self.getattr(base.a, attr, st, node), self.getattr(base.b, attr, st, node), st)
        if isinstance(base, FuncV):
            c = st.heap.get('@%s.%s' % (base.mod.name, base.name))
            if c is not None and attr in c.items:
                return self.filled(c.items[attr], lambda: self.unk('attribute ' + attr))
        c = self.cell(st, base)
        if isinstance(c, ObjCell):
            if attr in c.attrs:
                return c.attrs[attr]
            if c.cls is not None and attr in c.cls.methods:
                return Bound(base, attr)
            return self.unk('attribute ' + attr)
        if isinstance(c, (ArrCell, ViewCell)) or isinstance(base, Arr):
            a = self.arr_of(st, base)
            if a is not None:
                if attr == 'T' and a.kind == 'nd' and isinstance(base, Ref) and a.rank < 3:
                    return base if a.rank == 1 else self.alloc(st, ViewCell(base, 'T'))
                r = self.np.array_attr(st, base, a, attr)
                if r is not None:
                    return r
            return Bound(base, attr)
        if isinstance(base, FileV):
            return Bound(base, attr)
        if isinstance(base, Unk):
            return self.unk('attr %s of %s' % (attr, base.why))
        if isinstance(base, Const) and isinstance(base.v, (int, float)) and attr in ('real', 'imag'):
            return Const(getattr(base.v, attr))
        return Bound(base, attr)

    def ex_Subscript(self, e, st, fr):
        base = self.ev(e.value, st, fr)
        idx = self.ev(e.slice, st, fr)
        return self.getitem(base, idx, st, e)

    def getitem(self, base, idx, st, node):
        if isinstance(base, Phi):
            return self.phi_deep(base.c, self.getitem(base.a, idx, st, node), self.getitem(base.b, idx, st, node), st)
        if isinstance(base, ExtV):
            return self.np.ext_getitem(st, base, idx, node)
        if isinstance(base, Const) and isinstance(base.v, str):
            ix = idx.v if isinstance(idx, Const) else None
            if isinstance(idx, SliceV):
                k = [x.v if isinstance(x, Const) else '?' for x in (idx.lo, idx.hi, idx.step)]
                ix = slice(*k) if '?' not in k else None
            if ix is None:
                return self.unk('part of a string')
            try:
                return Const(base.v[ix])
            except (IndexError, TypeError) as e:
                self.event('index-range', node, str(e), st=st)
                return self.unk('index')
        if isinstance(base, Tup) or isinstance(self.cell(st, base), ListCell):
            items = self.seq_items(base, st)
            if isinstance(idx, Const) and isinstance(idx.v, int):
                if -len(items) <= idx.v < len(items):
                    return items[idx.v]
                self.event('index-range', node, 'index %d of %d items' % (idx.v, len(items)), st=st)
                return self.unk('index')
            if isinstance(idx, SliceV):
                k = [x.v if isinstance(x, Const) else '?' for x in (idx.lo, idx.hi, idx.step)]
                if '?' not in k:
                    r = items[slice(*k)]
                    return Tup(r) if isinstance(base, Tup) else self.newlist(st, r)
            if isinstance(idx, Arr) and idx.rank == 0 and items:
                a = self.arr_of(st, base)
                if a is not None:
                    return self.getitem(self.newarr(st, a), idx, st, node)
            return self.unk('list index')
        c = self.cell(st, base)
        if isinstance(c, DictCell):
            idx = self.dkey(idx, st)
            if isinstance(idx, Const) and self.key_state(c, idx.v) is None:
                return self.unk('dict key')
            if isinstance(idx, Const):
                if idx.v in c.items:
                    v = c.items[idx.v]
                    if isinstance(v, Phi):
                        v = strip_missing(v)
                    return v
                if c.open:
                    if c.name:
                        nm = '%s.%s' % (c.name, idx.v)
                        v = scalar(P.atom(nm), 'f')
                        return v
                    return self.unk('key %r' % (idx.v,))
                self.event('keyerror', node, idx.v, st=st)
                return self.unk('missing key %r' % (idx.v,))
            if isinstance(idx, Phi) and isinstance(idx.a, Const) and isinstance(idx.b, Const):
                return self.phi_deep(idx.c, self.getitem(base, idx.a, st, node), self.getitem(base, idx.b, st, node), st)
            return self.unk('dict key')
        if isinstance(base, Const) and isinstance(base.v, str):
            return Unk('str')
        if isinstance(base, Unk):
            return self.unk('item of ' + base.why)
        a = self.arr_of(st, base)
        if a is not None:
            sel = self.np.index(st, idx, node)
            if sel is None:
                return self.unk('index')
            self.check_index(sel, node, st)
            if self.np.is_view(a, sel) and isinstance(base, Ref):
                r = self.np.getitem_arr(st, a, sel)
                if r is None:
                    return self.unk('index')
                if r.rank == 0:
                    return r
                return self.alloc(st, ViewCell(base, sel))
            r = self.np.getitem_arr(st, a, sel)
            if r is None:
                return self.unk('index')
            return self.newarr(st, r)
        return self.unk('subscript of %r' % (base,))

    # -- comprehensions
    def ex_ListComp(self, e, st, fr):
        return self.comp(e, st, fr)

    ex_GeneratorExp = ex_ListComp
    ex_SetComp = ex_ListComp

    def generate(self, gens, st, fr, emit):
        """run a comprehension over known sequences with decided filters; False if some part is not known"""
        if not gens:
            return emit() is not False
        g = gens[0]
        items = self.iter_items(self.ev(g.iter, st, fr), st)
        if items is None or len(items) > 200:
            return False
        for x in items:
            self.assign(g.target, x, st, fr)
            use = True
            for c in g.ifs:
                k = self.truth(self.ev(c, st, fr), st, c).const()
                if k is None:
                    return False
                if not k:
                    use = False
                    break
            if use and not self.generate(gens[1:], st, fr, emit):
                return False
        return True

    def comp(self, e, st, fr):
        save = dict(st.env)
        out = []
        done = self.generate(e.generators, st, fr, lambda: out.append(self.ev(e.elt, st, fr)))
        st.env.clear()
        st.env.update(save)
        if done:
            return self.newlist(st, out)
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.ev(g.iter, st, fr)
            a = self.arr_of(st, it)
            if a is not None and a.rank == 1 and isinstance(g.target, ast.Name) and not a.dims[0].parts:
                v = fresh('@c')
                st.env[g.target.id] = scalar(a.at(P.ixvar_raw(v)), a.dtype)
                r = self.ev(e.elt, st, fr)
                st.env.clear()
                st.env.update(save)
                ra = self.arr_of(st, r)
                if ra is not None and ra.rank == 0:
                    p = ra.p()
                    if not poly_unknown_except(p, v):
                        return self.newarr(st, Arr((a.dims[0],), lambda i: p.subst({v: aspoly(i)}), ra.dtype))
        return self.unk('comprehension')

    def ex_DictComp(self, e, st, fr):
        save = dict(st.env)
        out = {}

        def emit():
            k = self.ev(e.key, st, fr)
            if not isinstance(k, Const):
                return False
            out[k.v] = self.ev(e.value, st, fr)
        done = self.generate(e.generators, st, fr, emit)
        st.env.clear()
        st.env.update(save)
        return self.newdict(st, out) if done else self.unk('dict comprehension')

    def iter_items(self, it, st):
        """finite list of values to iterate, or None"""
        items = self.seq_items(it, st)
        if items is not None:
            return items
        c = self.cell(st, it)
        if isinstance(c, DictCell) and not c.open:
            return [Const(k) if isinstance(k, (str, int, float)) else self.unk('dict key') for k in c.items]
        if isinstance(it, Const) and isinstance(it.v, str):
            return [Const(x) for x in it.v]
        a = self.arr_of(st, it)
        if a is not None and a.rank >= 1:
            n = a.dims[0].const()
            if n is not None and n <= 60:
                return [self.getitem(it, Const(i), st, None) for i in range(n)]
        return None

    # ------------------------------------------------------------------
    # calls
    def ex_Call(self, e, st, fr):
        f = self.ev(e.func, st, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.seq_items(self.ev(a.value, st, fr), st)
                if it is None:
                    args.append(self.unk('star arg'))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.cell(st, v)
                if isinstance(c, DictCell) and not c.open:
                    kw.update(c.items)
                continue
            kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    def call(self, f, args, kw, st, node):
        if isinstance(f, Phi):
            a = self.call(f.a, args, kw, st, node)
            b = self.call(f.b, args, kw, st, node)
            return self.phi_deep(f.c, a, b, st)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, st, node)
        if isinstance(f, PyFunc):
            return f.fn(self, st, args, kw)
        if isinstance(f, ClassV):
            ref = self.alloc(st, ObjCell(f, {}))
            init = f.methods.get('__init__')
            if init is not None:
                self.call_func(init, [ref] + args, kw, st, node)
            return ref
        if isinstance(f, ExtV):
            r = self.np.call(st, f.name, args, kw, node)
            return r
        if isinstance(f, Bound):
            c = self.cell(st, f.self_)
            if isinstance(c, ObjCell) and c.cls is not None:
                return self.call_func(c.cls.methods[f.name], [f.self_] + args, kw, st, node)
            return self.np.method(st, f.self_, f.name, args, kw, node)
        if isinstance(f, Unk):
            for a in args:
                pass
            return self.unk('call of ' + f.why)
        c = self.cell(st, f)
        if isinstance(c, ObjCell) and c.cls is not None and '__call__' in c.cls.methods:
            return self.call_func(c.cls.methods['__call__'], [f] + args, kw, st, node)
        if isinstance(c, (ArrCell, ViewCell, ListCell, DictCell)) or isinstance(f, (Arr, Tup, Const)):
            self.event('not-callable', node, 'call of a non-callable value', st=st)
        return self.unk('call')

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        nd = len(f.defaults)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env[n] = f.defaults[i - (len(names) - nd)]
            else:
                self.event('missing-arg', node, '%s() missing %s' % (f.name, n), st=st)
                env[n] = self.unk('missing argument ' + n)
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(names):])
        elif len(args) > len(names):
            self.event('extra-arg', node, '%s() takes %d positional arguments, %d given' %
                       (f.name, len(names), len(args)), st=st)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
        if a.kwarg:
            env[a.kwarg.arg] = self.newdict(st, kw)
        elif kw:
            for k in kw:
                self.event('extra-arg', node, '%s() got unexpected keyword %s' % (f.name, k), st=st)
        return env

    def call_func(self, f, args, kw, st, node):
        key = '%s.%s' % (f.mod.name, f.name)
        ov = self.overrides.get(key)
        if ov is not None:
            return ov.fn(self, st, args, kw)
        if self.depth >= self.MAXDEPTH or self.stack.count(key) >= 2:
            return self.unk('call depth')
        env = self.bind(f, args, kw, st, node)
        self.called.add(key)
        fr = Frame(f.name, f.mod, f.env)
        sub = State(env, st.heap, st.guard)
        save = self.cur_frame
        self.cur_frame = fr
        self.depth += 1
        self.stack.append(key)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, sub, fr)
                self.absorb(st, sub.heap)
                return v
            out = self.exec_block(f.node.body, sub, fr)
        except TooBig:
            raise Budget('formula too large in ' + f.name)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur_frame = save
        if out is not None:
            fr.returns.append((out.guard, NONE, out))
        if not fr.returns:
            st.guard = ZERO
            raise RaiseOut()
        # merge returns
        g, v, s = fr.returns[-1]
        heap = s.heap
        for g2, v2, s2 in reversed(fr.returns[:-1]):
            c = self.rel_guard(g2, st.guard)
            if isinstance(v2, Tup) and isinstance(v, Tup) and len(v.items) == len(v2.items):
                v = Tup([self.phi_x(c, p, q, s2.heap, heap) for p, q in zip(v2.items, v.items)])
            else:
                v = self.phi_x(c, v2, v, s2.heap, heap)
            heap = self.merge_heap(c, s2.heap, heap)
        self.absorb(st, heap)
        return self.resolve_phi(v, st)

    def phi_x(self, c, a, b, ha, hb):
        return self.phi(c, a, b)

    def resolve_phi(self, v, st):
        if isinstance(v, Phi) and (isinstance(v.a, Ref) or isinstance(v.b, Ref)):
            a, b = self.arr_of(st, v.a), self.arr_of(st, v.b)
            if a is not None and b is not None and a.rank == b.rank and a.rank > 0 and same_dims(a, b) \
                    and not self.is_param_ref(v.a, st) and not self.is_param_ref(v.b, st):
                return v
        return v

    def is_param_ref(self, v, st):
        return False

    def absorb(self, st, heap):
        if heap is not st.heap:
            st.heap.clear() if False else None
            st.heap = heap

    def rel_guard(self, g, base):
        """condition, relative to the entry guard, under which a return happens"""
        if base is ONE:
            return g
        return g        # g already implies base; used only under base


# --------------------------------------------------------------------------
INF = P.factor_raw(('fn', 'inf', ()))


def num0(v):
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return P.const(int(v.v)), 'b'
        if isinstance(v.v, int):
            return P.const(v.v), 'i'
        if isinstance(v.v, float) and v.v == v.v and v.v not in (float('inf'), float('-inf')):
            return P.const(v.v), 'f'
        if isinstance(v.v, float) and v.v in (float('inf'), float('-inf')):
            return (INF if v.v > 0 else -INF), 'f'
        return None
    if isinstance(v, Arr) and v.rank == 0:
        return v.p(), v.dtype
    return None


ORDER = 'bifc'


def leaves(v):
    """candidates of a conditional value with their conditions"""
    out, todo = [], [(v, ONE)]
    while todo:
        x, c = todo.pop()
        if isinstance(x, Phi):
            todo += [(x.b, c * (ONE - x.c)), (x.a, c * x.c)]
        else:
            out.append((x, c))
    return out


def join_dtype(a, b):
    return ORDER[max(ORDER.index(a), ORDER.index(b))]


def same_dims(a, b):
    return all(x == y for x, y in zip(a.dims, b.dims))


def phi_arr(c, a, b):
    k = c.const()
    if k is not None:
        return a if k else b
    nc = ONE - c
    return Arr(a.dims, lambda *ix: c * a.at(*ix) + nc * b.at(*ix), join_dtype(a.dtype, b.dtype),
               a.kind if a.kind == b.kind else 'nd')


def depth_phi(v, d=0):
    if isinstance(v, Phi) and d < 20:
        return 1 + max(depth_phi(v.a, d + 1), depth_phi(v.b, d + 1))
    return 0


def strip_missing(v):
    if isinstance(v, Phi):
        if isinstance(v.a, Const) and v.a.v == '<missing>':
            return v.b
        if isinstance(v.b, Const) and v.b.v == '<missing>':
            return v.a
    return v


def poly_unknown_except(p, v):
    return '?' in p.s()


def const_binop(op, a, b):
    try:
        if op == '+':
            return Const(a + b)
        if op == '-':
            return Const(a - b)
        if op == '*':
            return Const(a * b)
        if op == '/':
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and b:
                from fractions import Fraction
                fa, fb = Fraction(repr(a)) if isinstance(a, float) else Fraction(a), \
                    Fraction(repr(b)) if isinstance(b, float) else Fraction(b)
                q = fa / fb
                if q.denominator == 1 and isinstance(a, int) and isinstance(b, int):
                    return Const(a / b)
                return scalar(P.const(q), 'f')
            return Const(a / b)
        if op == '**':
            return Const(a ** b)
        if op == '//':
            return Const(a // b)
        if op == '%':
            if isinstance(a, str):
                return Unk('str')
            return Const(a % b)
        if op == '&':
            return Const(a & b)
        if op == '|':
            return Const(a | b)
        if op == '^':
            return Const(a ^ b)
    except Exception:
        return None
    return None
