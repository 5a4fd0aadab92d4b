from ..harness import *
from ..domain import case_valuation
from ..evalnf import h01
from . import c10
from .c25 import lift
from .c26 import bound
NEED = 30
EXPLANATION = ('runpf is interpreted from the external case to the returned results with the iterative solver replaced by an arbitrary '
               'answer (symbolic voltages, either outcome); the arguments given to the solver, all result tables and the untouched '
               'input are compared with the reference description of a power flow.')
ASSUMPTIONS = ['the solver returns finite voltages', 'eps regularisation in the reactive split is treated as 0']
# units: two at a controlled bus, one off; isolated bus; a branch off; parallel branches
S = {
    'mixed': dict(bus=[20, 7, 35, 50, 11], type=[3, 1, 2, 4, 2], gbus=[35, 20, 35, 50, 20, 11], gst=[1, 2, 1, 1, 1, -1],
                  f=[20, 7, 20, 50, 35, 20, 11], t=[7, 35, 35, 7, 7, 7, 35], bst=[1, 1, 1, 1, 1, 0, 1], areas=None, q=False, user=None),
    'lost reference': dict(bus=[3, 1, 2], type=[3, 2, 2], gbus=[2, 3, 1], gst=[1, 0, 1], f=[1, 3, 3], t=[2, 1, 2], bst=[1, 1, 1], areas=None,
                           q=False, user=None, narrow=True),
    'two references': dict(bus=[4, 9, 2, 7], type=[3, 2, 3, 1], gbus=[2, 4, 9, 2, 4], gst=[1, 0, 1, 1, 1], f=[4, 9, 2, 7], t=[9, 2, 7, 4],
                           bst=[1, 1, 1, 1], areas=None, q=False, user=None),
}


def case(C, s, gen=None, whole=False):
    nb, ng, nl = len(s['bus']), len(s['gbus']), len(s['f'])
    g = {0: s['gbus'], 7: s['gst']}
    g.update(gen or {})
    t = [C.ctable('bus', nb, 13, {0: s['bus'], 1: s['type']}), C.ctable('gen', ng, 21, g),
         C.ctable('branch', nl, 13 if s.get('narrow') else 17, {0: s['f'], 1: s['t'], 10: s['bst']})]
    if whole:
        t = [integer(C, a) for a in t]
    return C.dict({'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': t[0], 'gen': t[1], 'branch': t[2]})


def integer(C, a):
    """the same table stored with an integer element type"""
    x = C.I.arr_of(C.st, a)
    return C.arr(Arr(x.dims, x.fn, 'i', x.kind))


def options(C, **kw):
    o = {'VERBOSE': Const(0), 'OUT_ALL': Const(0)}
    o.update({k: Const(v) for k, v in kw.items()})
    return C.I.call(C.func('ppoption', 'ppoption'), [], o, C.st, None)


SOLVERS = {1: 'newtonpf', 2: 'fdpf', 3: 'fdpf', 4: 'gausspf'}


def quiet(C):
    C.I.overrides['pypower.printpf.printpf'] = PyFunc(lambda I, st, args, kw: Unk('io'))


def vals(seed):
    V = case_valuation(seed)
    V.atoms['baseMVA'] = V.r.choice([1, 10, 100, 100]) * 1.0
    V.tol = 1e-4
    V.atoms['cbus'] = lambda i, j: 0.9 + 0.2 * h01(seed, i) if j == 7 else None
    return V


def dead(seed):
    """voltage magnitudes do not matter"""
    V = vals(seed)
    V.atoms['cbus'] = lambda i, j: (0.0 if (seed + i) % 3 == 0 else 0.9 + 0.2 * h01(seed, i)) if j == 7 else None
    return V


def dct(C, f):
    return C.dict({k: lift(C, v) for k, v in f.items()})


def ac(k, n, s, alg, ok, whole=False):
    C, R = k.ctx(), k.ctx()
    C.I.unroll = R.I.unroll = 6
    quiet(C)
    f, _ = c10.facts(s)
    nb = len(f['bus'])
    log = []

    def solver(I, st, args, kw):
        log.append(list(args) + list(kw.values()))
        return Tup([C.vec('Vsol', cdim(nb), 'c', polar=True), Const(ok), Const(3)])
    for m in ('newtonpf', 'fdpf', 'gausspf'):
        C.I.overrides['pypower.%s.%s' % (m, m)] = PyFunc(solver if m == SOLVERS[alg] else lambda I, st, args, kw: Unk('wrong solver'))
    out = C.I.seq_items(C.call('spec.pf', 'run', case(C, s, whole=whole), options(C, PF_ALG=alg)), C.st)
    label = 'ac power flow [%s, method %d%s%s]' % (n, alg, '' if ok else ', not converged', ', integer tables' if whole else '')
    if len(log) != 1:
        k.undecided(label, 'solver called %d times' % len(log))
        return
    w = R.call('spec.pf', 'ac', case(R, s), dct(R, f), Const(alg), R.vec('Vsol', cdim(nb), 'c', polar=True), Const(ok))
    k.compare('ac run', k.where('runpf', 'runpf'), label, C, Tup([C.I.newlist(C.st, log[0][:-1])] + out), R, w, vals)


def dc(k, n, s, whole=False):
    C, R = k.ctx(), k.ctx()
    quiet(C)
    f, _ = c10.facts(s)
    v = C.call('spec.pf', 'run', case(C, s, whole=whole), options(C, PF_DC=True))
    w = R.call('spec.pf', 'dc', case(R, s), dct(R, f))
    k.compare('dc run', k.where('runpf', 'runpf'), 'dc power flow [%s%s]' % (n, ', integer tables' if whole else ''), C, v, R, w, dead)


def check(k):
    k.rule('ac run', 'the solver receives the network, injections, initial voltages and bus types of the case; the results follow from its answer')
    k.rule('dc run', 'the dc power flow reports the dc solution')
    for n, s in S.items():
        for alg in (1, 2, 3, 4):
            if alg == 1 or n == 'mixed':
                k.guarded('%s %d' % (n, alg), lambda: ac(k, n, s, alg, 1))
        k.guarded('%s not converged' % n, lambda: ac(k, n, s, 1, 0))
        k.guarded('%s dc' % n, lambda: dc(k, n, s))
        k.guarded('%s integer' % n, lambda: ac(k, n, s, 1, 1, True))
        k.guarded('%s dc integer' % n, lambda: dc(k, n, s, True))


# -- reactive power limits (property C14)

LIM = {
    # internal order of units: reference bus first
    'none violated': dict(script=[[10, 20, -5, 7]]),
    'one over': dict(script=[[10, 60, -5, 7], [12, 0, -6, 8]]),
    'over and under': dict(script=[[10, 60, -45, 7], [12, 0, 0, 8]]),
    'in turn': dict(script=[[10, 60, -5, 7], [12, 0, -70, 8], [12, 0, 0, 9]]),
    'reference unit': dict(script=[[90, 10, -5, 7], [0, 11, -6, 8], ]),
    'reference unit later': dict(script=[[10, 60, -5, 7], [-77, 0, -6, 8], [0, 0, 1, 2]]),
    'all': dict(script=[[90, 60, -45, 70]]),
    'all that remain': dict(script=[[10, 60, -45, 7], [88, 0, 0, 7]]),
    'as many as remain': dict(script=[[10, 60, -5, -90], [99, 0, -66, 0], [0, 0, 0, 0]], bus2=True),
    'within tolerance': dict(script=[[50.000004, 30, -30, 7]]),
    'within tolerance below': dict(script=[[10, 30, -30.000004, 7]]),
    'just outside below': dict(script=[[10, 30, -30.00001, 7], [0, 1, 2, 3]]),
    'just outside': dict(script=[[50.00001, 30, -30, 7], [0, 1, 2, 3]]),
    'worst over': dict(script=[[10, 60, -45, 99], [11, 61, -44, 0], [12, 0, -33, 0], [13, 0, 0, 0]], one=True),
    'worst under': dict(script=[[10, 31, -45, 7], [11, 32, 0, 7], [12, 0, 0, 7]], one=True),
    'worst is first under': dict(script=[[10, 31, -60, -42], [10, 31, 0, -42], [10, 31, 0, 0], [10, 0, 0, 0]], one=True),
}
N14 = {
    False: dict(bus=[4, 9, 2, 7], type=[3, 2, 2, 1], gbus=[9, 4, 2, 2, 9], gst=[1, 1, 1, 1, 0], f=[4, 9, 2, 7], t=[9, 2, 7, 4], bst=[1, 1, 1, 1],
                areas=None, q=False, user=None),
    True: dict(bus=[4, 9, 2, 7], type=[3, 2, 2, 2], gbus=[9, 4, 7, 2, 9], gst=[1, 1, 1, 1, 0], f=[4, 9, 2, 7], t=[9, 2, 7, 4], bst=[1, 1, 1, 1],
               areas=None, q=False, user=None),
}


def limits(k, n, d):
    s = N14[bool(d.get('bus2'))]
    f, _ = c10.facts(s)
    # limits by internal position; external rows follow facts
    mx, mn = {}, {}
    for i, g in enumerate(f['gen']):
        mx[g], mn[g] = (50, 30, 40, 45)[i], (-50, -30, -30, -40)[i]
    ng = len(s['gbus'])
    gen = {3: [mx.get(g, 1) for g in range(ng)], 4: [mn.get(g, -1) for g in range(ng)]}
    C, R = k.ctx(), k.ctx()
    C.I.unroll = R.I.unroll = 8
    quiet(C)
    log = []
    n_s = len(d['script'])
    V = lambda X, i: X.vec('Vsol%d' % i, cdim(4), 'c', polar=True)
    Pk = lambda X, i: X.sym('Pslack%d' % i)

    def solver(I, st, args, kw):
        log.append([args[1], I.newarr(st, I.arr_of(st, args[2])), args[3], args[4], args[5]])
        return Tup([V(C, min(len(log), n_s) - 1), Const(1), Const(3)])

    def solution(I, st, args, kw):
        a = bound(I, st, 'pypower.pfsoln.pfsoln', args, kw)
        i = min(len(log), n_s) - 1
        return I.call(I.get_function('spec.pf', 'scripted'),
                      [a['bus0'], a['gen0'], a['branch0'], a['V'], a['ref'], lift(C, d['script'][i]), Pk(C, i)], {}, st, None)
    C.I.overrides['pypower.newtonpf.newtonpf'] = PyFunc(solver)
    C.I.overrides['pypower.pfsoln.pfsoln'] = PyFunc(solution)
    out = C.I.seq_items(C.call('spec.pf', 'run', case(C, s, gen), options(C, ENFORCE_Q_LIMS=2 if d.get('one') else 1)), C.st)
    asked = C.I.newlist(C.st, [C.I.newlist(C.st, x) for x in log])
    w = R.call('spec.pf', 'limited', case(R, s, gen), dct(R, f), lift(R, d['script']), R.I.newlist(R.st, [V(R, i) for i in range(n_s)]),
               R.I.newlist(R.st, [Pk(R, i) for i in range(n_s)]), Const(bool(d.get('one'))), Const(False))
    k.compare('reactive limits', k.where('runpf', 'runpf'), 'reactive limits [%s]' % n, C, Tup([asked] + out), R, w, vals)
