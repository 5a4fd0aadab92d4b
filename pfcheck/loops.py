"""Loop summaries.

* a loop over a known finite sequence is unrolled;
* a loop over a symbolic index range whose iterations are independent is
  turned into the array expression it computes (map / accumulate loops);
* any other loop is summarised by its inductive congruences: every variable
  modified in the loop starts from the optimistic hypothesis that the equation
  which holds between it and the other variables at loop entry also holds at
  the loop head, and hypotheses the body does not preserve are dropped until
  the rest is inductive (Alpern/Wegman/Zadeck-style optimistic value
  numbering).
"""
import ast
from .values import *        # noqa
from .poly import *          # noqa
from . import poly as P
from itertools import product
from .values import rename_atoms


class Unrolled(Exception):
    pass


def exec_body(I, body, st, fr):
    """run a loop body; -> (state at end of iteration or None, break states)"""
    info = {'break': [], 'continue': []}
    fr.loops.append(info)
    try:
        out = I.exec_block(body, st, fr)
    finally:
        fr.loops.pop()
    for c in reversed(info['continue']):
        if out is None:
            out = c
        else:
            out = I.merge(c.guard, c, out, st.guard if out.guard is ONE else c.guard + out.guard)
    return out, info['break']


def join_breaks(I, out, breaks, guard):
    for b in reversed(breaks):
        if out is None:
            out = b
        else:
            out = I.merge(b.guard, b, out, guard)
    if out is not None:
        out.guard = guard
    return out


def run_for(I, s, st, fr):
    it = I.ev(s.iter, st, fr)
    items = None
    if isinstance(it, Phi):
        items = None
    else:
        items = I.iter_items(it, st)
    g0 = st.guard
    if items is not None and len(items) <= 64:
        breaks = []
        cur = st
        for x in items:
            I.assign(s.target, x, cur, fr)
            cur, br = exec_body(I, s.body, cur, fr)
            breaks.extend(br)
            if cur is None:
                break
        if cur is not None and s.orelse:
            cur = I.exec_block(s.orelse, cur, fr)
        if not breaks:
            return cur
        return join_breaks(I, cur, breaks, g0)
    # symbolic range
    items = it.items if isinstance(it, Zip) else [it]
    arrs = [None if isinstance(x, Phi) else I.arr_of(st, x) for x in items]
    lvar = None
    ldim = None
    lval = I.unk('loop variable')
    if all(a is not None and a.rank and not a.dims[0].parts for a in arrs):
        lvar = P.fresh('@L')
        ldim = arrs[0].dims[0]
        vs = [element(I, st, a, P.ixvar_raw(lvar)) for a in arrs]
        lval = Tup(vs) if isinstance(it, Zip) else vs[0]

    def setup(x):
        I.assign(s.target, lval, x, fr)
        return x
    out = summarise(I, st, fr, s.body, lambda x: ONE, setup, lvar, ldim)
    if out is not None and s.orelse:
        out = I.exec_block(s.orelse, out, fr)
    return out


def element(I, st, a, i):
    if a.rank == 1:
        return scalar(a.at(i), a.dtype)
    return I.newarr(st, Arr(a.dims[1:], lambda *ix: a.at(i, *ix), a.dtype))


def run_while(I, s, st, fr):
    def cond(x):
        return I.simplify_cond(I.truth(I.ev(s.test, x, fr), x, s.test), x)
    # concrete turns are executed one by one
    g0, cur, breaks = st.guard, st, []
    for it in range(200):
        k = cond(cur).const()
        if k is None or breaks or it == 199:
            break
        if not k:
            return I.exec_block(s.orelse, cur, fr) if s.orelse else cur
        cur, br = exec_body(I, s.body, cur, fr)
        breaks.extend(br)
        if cur is None:
            return join_breaks(I, None, breaks, g0)
    f = counting(s)
    if I.unroll:
        out = unrolled(I, s, cur, fr, cond)
    elif f is not None:
        out = run_for(I, f, cur, fr)
    else:
        out = summarise(I, cur, fr, s.body, cond, lambda x: x, None, None)
    return join_breaks(I, out, breaks, g0) if breaks else out


def counting(s):
    """while i < n: ... i = i + 1 ...   as   for k in range(i, n): i = k; ... i = i + 1 ..."""
    t = s.test
    if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    i, n = t.left, t.comparators[0]
    if isinstance(t.ops[0], (ast.Gt, ast.GtE)):
        i, n = n, i
    elif not isinstance(t.ops[0], (ast.Lt, ast.LtE)):
        return None
    if not isinstance(i, ast.Name):
        return None
    steps = 0
    stored = set()
    for x in s.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                stored.add(y.id)
                if y.id == i.id:
                    steps += 1
            if isinstance(y, (ast.Continue, ast.Break)):
                return None
    one = [x for x in s.body if increment(x, i.id)]
    if steps != 1 or len(one) != 1 or any(isinstance(y, ast.Name) and y.id in stored for y in ast.walk(n)):
        return None
    if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
        n = ast.BinOp(n, ast.Add(), ast.Constant(1))
    k = '_turn_of_' + i.id
    f = ast.For(ast.Name(k, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Name(i.id, ast.Load()), n], []),
                [ast.Assign([ast.Name(i.id, ast.Store())], ast.Name(k, ast.Load()))] + list(s.body), [], None)
    ast.copy_location(f, s)
    for y in ast.walk(f):
        if not hasattr(y, 'lineno'):
            ast.copy_location(y, s)
    return ast.fix_missing_locations(f)


def increment(x, i):
    if isinstance(x, ast.AugAssign):
        return isinstance(x.target, ast.Name) and x.target.id == i and isinstance(x.op, ast.Add) and is_one(x.value)
    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i:
        v = x.value
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            for p, q in ((v.left, v.right), (v.right, v.left)):
                if isinstance(p, ast.Name) and p.id == i and is_one(q):
                    return True
    return False


def is_one(x):
    return isinstance(x, ast.Constant) and x.value == 1


def unrolled(I, s, st, fr, cond):
    """a while loop that provably ends within I.unroll iterations on the inputs analysed"""
    g0 = st.guard
    exits, breaks = [], []
    cur = st
    for it in range(I.unroll + 1):
        c = cond(cur)
        k = c.const()
        if k == 0:
            exits.append((None, cur))
            break
        if k is None:
            exits.append((ONE - c, cur.fork(ONE - c)))
            cur = cur.fork(c)
        if it == I.unroll:
            I.steps = I.max_steps + 1
            raise Unrolled('loop does not end within %d iterations' % I.unroll)
        cur, br = exec_body(I, s.body, cur, fr)
        breaks.extend(br)
        if cur is None:
            break
    out = None
    for c, x in reversed(exits):
        if s.orelse and x is not None:
            x = I.exec_block(s.orelse, x, fr)
        if x is None:
            continue
        out = x if out is None else I.merge(c, x, out, g0)
    out = join_breaks(I, out, breaks, g0)
    return out


def changed(I, base, out, locs=True):
    env = set()
    heap = set()
    for k, v in out.env.items():
        if k not in base.env or base.env[k] is not v:
            b = base.env.get(k)
            if isinstance(b, Const) and isinstance(v, Const) and b == v:
                continue
            if isinstance(b, Ref) and isinstance(v, Ref) and b.loc == v.loc:
                continue
            if isinstance(b, Arr) and isinstance(v, Arr) and b.rank == 0 and v.rank == 0 and b.p() == v.p():
                continue
            env.add(k)
    if locs:
        for k, c in out.heap.items():
            if k in base.heap and base.heap[k] is not c:
                heap.add(k)
    return env, heap


def havoc_value(I, st, v, tag):
    """fresh unknown of the same shape -> (value, [atom names])"""
    if isinstance(v, (Const,)) and not isinstance(v.v, (int, float)):
        return I.unk('loop-modified ' + tag)
    a = I.arr_of(st, v)
    if a is None:
        return I.unk('loop-modified ' + tag)
    arr = havoc_arr(a, tag)
    if arr.rank == 0:
        return arr
    return I.newarr(st, arr)


def havoc_arr(a, tag):
    nm = '?lp_%s_%s' % (tag, P.fresh(''))
    if a.dtype == 'c':
        P.declare(nm, polar=True)
    else:
        P.declare(nm, real=True, int=a.dtype in 'ib')
    d = a.dims
    arr = Arr(d, lambda *ix: P.atom(nm, *[flat(i) for i in ix]), a.dtype, a.kind, note=nm)
    return arr


def summarise(I, st, fr, body, cond, setup, lvar, ldim):
    I.loopnest += 1
    I.quiet += 1
    nret, nrs = len(fr.returns), len(fr.raises)
    try:
        entry = st.fork()
        # 1. what does the loop modify?
        env_m, heap_m = set(), set()
        probe = st.fork()
        for rnd in range(3):
            x = probe.fork()
            g = x.guard
            c = cond(x)
            if c.const() == 0:
                return st
            setup(x)
            out, brs = exec_body(I, body, x, fr)
            del fr.returns[nret:]
            del fr.raises[nrs:]
            n0 = len(env_m) + len(heap_m)
            for o in ([out] if out is not None else []) + brs:
                e, h = changed(I, probe, o)
                env_m |= e
                heap_m |= h
            if len(env_m) + len(heap_m) == n0 and rnd:
                break
            probe = make_head(I, entry, env_m, heap_m, {}, {})[0]
        # 2. hypotheses
        hyp_env, hyp_heap, leaders = initial_hyps(I, entry, env_m, heap_m)
        if I.loopnest > 2:
            hyp_env, hyp_heap = {}, {}
        for rnd in range(8):
            head, atoms = make_head(I, entry, env_m, heap_m, hyp_env, hyp_heap, leaders)
            x = head.fork()
            c = cond(x)
            x.guard = x.guard * c
            setup(x)
            out, brs = exec_body(I, body, x, fr)
            del fr.returns[nret:]
            del fr.raises[nrs:]
            if out is None:
                break
            bad = refute(I, entry, head, out, c, hyp_env, hyp_heap, leaders, atoms)
            if not bad:
                break
            for kind, k in bad:
                (hyp_env if kind == 'e' else hyp_heap).pop(k, None)
        else:
            hyp_env, hyp_heap = {}, {}
            head, atoms = make_head(I, entry, env_m, heap_m, {}, {}, leaders)
    finally:
        I.quiet -= 1
        I.loopnest -= 1
    # 3. final pass (events recorded)
    x = head.fork()
    c = cond(x)
    x.guard = x.guard * c
    setup(x)
    I.loopnest += 1
    try:
        out, brs = exec_body(I, body, x, fr)
    finally:
        I.loopnest -= 1
    ex = head.fork()
    ex.guard = entry.guard
    if out is not None and lvar is not None and not brs:
        close_map(I, entry, head, out, ex, env_m, heap_m, atoms, lvar, ldim)
    # variables first bound inside the loop are known afterwards only as unknown
    if out is not None:
        for k in out.env:
            if k not in ex.env:
                ex.env[k] = havoc_value(I, ex, out.env[k], k) if not isinstance(out.env[k], (FuncV, ExtV, ModV)) else out.env[k]
    return join_breaks(I, ex, brs, entry.guard)


def initial_hyps(I, entry, env_m, heap_m):
    """items modified by the loop: leaders (plain atoms at entry) and
    hypotheses (item -> Arr at entry)"""
    leaders = {}        # atom name -> (kind, key)
    hyp_env, hyp_heap = {}, {}
    seen_locs = {}

    def visit(kind, key, arr):
        nm = plain_atom(arr)
        if nm is not None and nm not in leaders and arr.rank >= 1:
            leaders[nm] = (kind, key)
            return
        (hyp_env if kind == 'e' else hyp_heap)[key] = arr
    for k in sorted(env_m):
        v = entry.env.get(k)
        if v is None:
            continue
        if isinstance(v, Const) and not isinstance(v.v, (int, float, bool)):
            continue
        a = I.arr_of(entry, v) if v is not None else None
        if a is not None:
            visit('e', k, a)
    for k in sorted(heap_m):
        c = entry.heap.get(k)
        if isinstance(c, ArrCell):
            visit('h', k, c.arr)
    return hyp_env, hyp_heap, leaders


def plain_atom(a):
    """name if every entry of the array is the atom name[indices]"""
    e = entries(a)
    nm = None
    for lab, p in e.items():
        s = p.single()
        if s is None or s[1] != 1 or s[0][0]:
            return None
        for f, x in s[0][1]:
            if f[0] not in ('T', 'M', 'U') or x != 1:
                return None
            if nm is None:
                nm = f[1]
            if f[1] != nm or len(f[2]) != a.rank:
                return None
            for i, q in enumerate(f[2]):
                if not (lab[i].endswith('$%d' % i)) or q != P.ixvar_raw('$%d' % i):
                    return None
        if len(s[0][1]) not in (1, 2):
            return None
    return nm


def make_head(I, entry, env_m, heap_m, hyp_env, hyp_heap, leaders=None):
    h = entry.fork()
    atoms = {}
    amap = {}
    led = {v: k for k, v in (leaders or {}).items()}
    # leaders and refuted items first
    for k in sorted(env_m):
        v = entry.env.get(k)
        if v is None:
            continue
        if k in hyp_env:
            continue
        nv = havoc_value(I, h, v, k)
        h.env[k] = nv
        a = I.arr_of(h, nv)
        if a is not None:
            atoms[('e', k)] = a
            if ('e', k) in led:
                amap[led[('e', k)]] = a
    for k in sorted(heap_m):
        c = entry.heap.get(k)
        if k in hyp_heap:
            continue
        if isinstance(c, ArrCell):
            a = havoc_arr(c.arr, k)
            h.heap[k] = ArrCell(a)
            atoms[('h', k)] = a
            if ('h', k) in led:
                amap[led[('h', k)]] = a
        elif isinstance(c, DictCell):
            # keys changed by the loop become unknown
            h.heap[k] = DictCell({q: I.unk('loop-modified dict entry') for q in c.items}, True, None)
        elif isinstance(c, ViewCell):
            pass
        else:
            h.heap[k] = UnkCell('loop-modified')
    for k, a in hyp_env.items():
        b = map_arr(a, amap)
        h.env[k] = I.newarr(h, b) if b.rank else (simp_const(entry.env[k], b))
        atoms[('e', k)] = b
    for k, a in hyp_heap.items():
        h.heap[k] = ArrCell(map_arr(a, amap))
    return h, (atoms, amap)


def simp_const(orig, b):
    if isinstance(orig, Const):
        return orig
    return b


def map_arr(a, amap):
    if not amap:
        return a
    memo = {}
    return Arr(a.dims, lambda *ix: rename_atoms(a.at(*ix), amap, memo), a.dtype, a.kind)


def item_arr(I, st, kind, k):
    if kind == 'e':
        v = st.env.get(k)
        return None if v is None else I.arr_of(st, v)
    c = st.heap.get(k)
    return c.arr if isinstance(c, ArrCell) else None


def refute(I, entry, head, out, c, hyp_env, hyp_heap, leaders, atoms):
    """hypotheses not preserved by the body"""
    bad = []
    amap = {}
    for nm, (kind, k) in leaders.items():
        a = item_arr(I, out, kind, k)
        if a is None:
            amap = None
            break
        amap[nm] = a
    g = c
    for kind, hyps in (('e', hyp_env), ('h', hyp_heap)):
        for k, a in list(hyps.items()):
            new = item_arr(I, out, kind, k)
            if amap is None or new is None or new.rank != a.rank:
                bad.append((kind, k))
                continue
            want = map_arr(a, amap)
            try:
                en, ew = entries(new), entries(want)
                ok = set(en) == set(ew)
                if ok:
                    for lab in en:
                        if en[lab] == ew[lab]:
                            continue
                        if g is not ONE and not ((en[lab] - ew[lab]) * g).t:
                            continue
                        ok = False
                        break
            except TooBig:
                ok = False
            if not ok:
                bad.append((kind, k))
    return bad


def close_map(I, entry, head, out, ex, env_m, heap_m, atoms, lvar, ldim):
    """closed forms of independent-iteration loops"""
    names = set()
    for (kind, k), a in atoms[0].items():
        if a.note:
            names.add(a.note)

    def mentions(p, nms):
        s = p.s()
        return any(n in s for n in nms)
    for kind, keys in (('h', heap_m), ('e', env_m)):
        for k in sorted(keys):
            a0 = item_arr(I, entry, kind, k)
            new = item_arr(I, out, kind, k)
            ha = atoms[0].get((kind, k))
            if a0 is None or new is None or ha is None or not ha.note or new.rank != a0.rank:
                continue
            nm = ha.note
            try:
                closed = close_arr(a0, new, nm, names, lvar, ldim, mentions)
            except TooBig:
                closed = None
            if closed is None:
                continue
            if kind == 'h':
                ex.heap[k] = ArrCell(closed)
            else:
                ex.env[k] = I.newarr(ex, closed)


def close_arr(a0, new, nm, names, lvar, ldim, mentions):
    others = names
    # verify the shape of the update on canonical entries
    for ix in product(*[[i for l, i in ax] for ax in canon_axes(new)]):
        if split_update(new.at(*ix), nm, others, mentions, lvar, ix) is None:
            return None

    def fn(*ix):
        p = new.at(*ix)
        r = split_update(p, nm, others, mentions, lvar, ix)
        if r is None:
            raise TooBig()
        A, M, kind = r
        A, M = within(A, lvar, ldim), within(M, lvar, ldim) if kind != 'add' else M
        sA = P.sum_over(lvar, ldim, A)
        if kind == 'add':
            return a0.at(*ix) + sA
        sM = P.sum_over(lvar, ldim, M)
        # M is a delta in the loop index: the sum counts iterations writing here
        return sA + (ONE - sM) * a0.at(*ix)
    return Arr(a0.dims, fn, new.dtype if a0.dtype != 'i' else a0.dtype, a0.kind)


def within(p, v, dim):
    """p with the range of the turn made explicit where a shifted or partial range selects an entry"""
    acc = {}
    natural = dim.size.single() is not None
    for (b, fs), c in p.t.items():
        q = Poly({(b, fs): c})
        for f, e in fs:
            x = P.linear_in(f[1], v) if f[0] == 'eq' else None
            if x is None or abs(x[0]) != 1:
                continue
            r = -x[1] if x[0] == 1 else x[1]          # the turn is r
            vs = r.fv()
            k = r.t.get(P.EMPTY, 0)
            if len(vs) != 1 or r - P.const(k) != P.ixvar_raw(list(vs)[0]):
                continue
            if k < 0:
                q = q * P.gt(r + ONE)
            if k > 0 or not natural:
                q = q * P.gt(dim.size - r)
            break
        P.addto(acc, q)
    return Poly(acc)


def split_update(p, nm, names, mentions, lvar, own=None):
    """p = A + B*h with h the entry's own previous value (atom nm).
    -> (A, M, 'add'|'set')"""
    A, B = {}, {}
    h = None
    for (b, fs), c in p.t.items():
        hs = [(f, e) for f, e in fs if f[0] in ('T', 'M', 'U') and f[1] == nm]
        rest = tuple(x for x in fs if x not in hs)
        rp = Poly({(b, rest): c})
        if mentions(rp, names):
            return None
        if not hs:
            P.addto(A, rp)
            continue
        key = tuple(f[2] for f, e in hs)
        if any(e != 1 for f, e in hs) or len(set(key)) != 1:
            return None
        if own is not None:
            ok = tuple(P.flat(i) for i in own)
            if key[0] != ok:
                # the index may have been rewritten through a delta of the same term
                fd = dict(rest)
                for f, e in hs:
                    g = f[:2] + (ok,) + f[3:]
                    fd[g] = e
                if P.build(c, fd, dict(b)) != Poly({(b, fs): c}):
                    return None
                key = (ok,) * len(hs)
        if h is None:
            h = key[0]
        elif h != key[0]:
            return None
        if b:
            return None
        P.addto(B, P.build(c, dict(rest), {}))
    A, B = Poly(A), Poly(B)
    if lvar in ''.join(q.s() for q in (h or ())):
        return None
    if B == ONE:
        return A, ZERO, 'add'
    M = ONE - B
    if h is None:
        # own value does not appear: either overwritten at constant place or
        # the entry is exactly selected
        # (last iteration wins): not summarised
        return None
    # M must be a delta pinning the loop index
    for (b, fs), c in M.t.items():
        if not any(f[0] == 'eq' and P.linear_in(f[1], lvar) is not None for f, e in fs):
            return None
    return A, M, 'set'
