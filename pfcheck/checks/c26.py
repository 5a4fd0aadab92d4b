from ..harness import *
from ..domain import case_valuation
from . import c10
from .c25 import lift, CURVE
NEED = 20
EXPLANATION = ('opf is interpreted from the external case to the returned results with the numerical solver replaced by an arbitrary answer '
               '(symbolic solution, multipliers and status); every reported number is compared with its meaning: tables in external '
               'order and units, flows from the solution, prices per MW or MVA, zero for equipment out of service, dc objective.')
ASSUMPTIONS = ['the solver returns finite numbers', 'user costs of the dc problem are linear without dead zone, as documented',
               'rows of gencost stay polynomials or piecewise linear costs as in the list of structures']
# external structure: isolated bus 50, one unit and one branch out of service, a unit and a branch at the isolated bus
NET = dict(bus=[20, 7, 35, 50], type=[3, 1, 2, 4], gbus=[20, 20, 35, 50, 35, 7], gst=[1, -1, 2, 1, 1, 1],
           f=[20, 7, 20, 50, 35, 20], t=[7, 35, 35, 7, 7, 7], bst=[1, 1, 1, 1, 1, 0], areas=None, q=False, user=None)
GEN = {3: [80, 10, 80, 10, 0, 45], 4: [-80, -10, -80, -10, -12, -40], 8: [120, 10, 130, 10, 0, 90], 9: [0, 0, 10, 0, -30, 0]}
# per unit in service (internal order 0, 5, 2, 4 of the external rows): capability curves of c25's first, fourth, second, third unit
ROW = {0: 0, 5: 3, 2: 1, 4: 2}
BR = {5: [0, 250, 1e10, 90, 3000000, 70], 11: [-360, -30, 0, -5, -10, -20], 12: [360, 0, 0, 0, 400, 20]}
P3, P2, P1, L2, L3, L4 = (2, 3), (2, 2), (2, 1), (1, 2), (1, 3), (1, 4)
S = {
    'polynomial': dict(cost=[P3, P2, P2, P3, P1, P3]),
    'piecewise': dict(cost=[L3, L2, P3, P2, L2, L4]),
    'all piecewise': dict(cost=[L3, L3, L4, L3, L3, L3]),
    'reactive': dict(cost=[P3, L2, L3, P2, P2, P3, L3, P2, P2, P2, L2, P3]),
    'user': dict(cost=[P3, P2, L3, P2, P1, P3], user=True),
    'plain': dict(cost=[P3, P2, P2, P3, P1, P3], plain=True, narrow=True),
}


def case(C, s, dc):
    ng, nl = 6, 6
    gen = {0: NET['gbus'], 7: NET['gst']}
    for c in GEN:
        gen[c] = GEN[c]
    for c in CURVE:
        gen[c] = [0 if s.get('plain') or i not in ROW else CURVE[c][ROW[i]] for i in range(ng)]
    if s.get('plain'):
        gen[9] = [0, 0, 10, 0, 5, 0]
    br = {0: NET['f'], 1: NET['t'], 10: NET['bst']}
    for c in BR:
        br[c] = BR[c]
    if s.get('plain'):
        br[11], br[12] = [-360] * nl, [360] * nl
    nr = s.get('narrow')
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', 4, 13 if nr else 17, {0: NET['bus'], 1: NET['type']}),
         'gen': C.ctable('gen', ng, 21 if nr else 25, gen), 'branch': C.ctable('branch', nl, 13 if nr else 21, br),
         'gencost': C.ctable('gencost', len(s['cost']), 12, {0: [c[0] for c in s['cost']], 3: [c[1] for c in s['cost']]})}
    if s.get('user'):
        n = (4 + ng) * (1 if dc else 2) + 1
        d['A'] = C.mat('uA', 2, n, 'f', 'sp')
        d['l'], d['u'] = C.vec('ul', cdim(2)), C.vec('uu', cdim(2))
        d['z0'], d['zl'], d['zu'] = [C.vec(x, cdim(1)) for x in ('z0', 'zl', 'zu')]
        P.declare('uN', real=True)
        keep = [(0, 1), (0, n - 1), (1, 4 if dc else 8), (1, 6 if dc else 17)]
        d['N'] = C.arr(polymat([[P.atom('uN', P.const(i), P.const(j)) if (i, j) in keep else ZERO for j in range(n)] for i in range(2)],
                               kind='sp'))
        d['Cw'] = C.vec('uCw', cdim(2))
        P.declare('ufp', real=True)
        a = lambda i, j: P.atom('ufp', P.const(i), P.const(j))
        d['fparm'] = C.arr(polymat([[P.const(1), a(i, 1), ZERO, a(i, 3)] for i in range(2)]))
        P.declare('uH', real=True)
        d['H'] = C.arr(polymat([[P.atom('uH', P.const(min(i, j)), P.const(max(i, j))) for j in range(2)] for i in range(2)], kind='sp'))
    return C.dict(d)


def options(C, dc, **kw):
    o = {'PF_DC': Const(dc), 'VERBOSE': Const(0), 'OUT_ALL': Const(0)}
    o.update({k: Const(v) for k, v in kw.items()})
    return C.I.call(C.func('ppoption', 'ppoption'), [], o, C.st, None)


def facts(s, dc):
    f, n = c10.facts(dict(NET))
    ng = 4
    rows = f['gen'] if dc or len(s['cost']) == 6 else f['gen'] + [6 + g for g in f['gen']]
    cost = [s['cost'][i] for i in rows]
    nx = (3 + ng) * (1 if dc else 2)
    pwl = [i for i, c in enumerate(cost) if c[0] == 1 and c[1] > 2]
    names = ['Va', 'Pg'] if dc else ['Va', 'Vm', 'Pg', 'Qg']
    lin = ['Pmis', 'Pf', 'Pt'] if dc else []
    if not s.get('plain'):
        lin += ['ang'] if dc else ['PQh', 'PQl', 'vl', 'ang']
    if pwl:
        names.append('y')
        lin.append('ycon')
    if s.get('user'):
        names.append('z')
        lin.append('usr')
    nvar = nx + len(pwl) + (1 if s.get('user') else 0)
    nlin = (3 + 4) if dc else 0
    if not s.get('plain'):
        nlin += 2 if dc else 2 + 1 + 1 + 2
    nlin += sum(cost[i][1] - 1 for i in pwl) + (2 if s.get('user') else 0)
    return dict(gbus=f['gbus'], f=f['f'], t=f['t'], il=[1, 3], goff=[1, 3], loff=[3, 5], vars=names, lin=lin, pq=not s.get('plain'),
                nln=[] if dc else ['Pmis', 'Qmis', 'Sf', 'St'], costs=['usr'] if s.get('user') else [], any_y=1 if pwl else 0,
                poly=[i for i, c in enumerate(cost) if i not in pwl and i < ng], ycol=[nx + j for j in range(len(pwl))],
                single=len([c for c in cost if c == L2])), nvar, nlin


def answer(C, nvar, nlin, dc, eflag):
    """an arbitrary answer of the solver"""
    v = lambda n, k: C.vec(n, cdim(k))
    lam = {'lower': v('mulower', nvar), 'upper': v('muupper', nvar), 'mu_l': v('mul', nlin), 'mu_u': v('muu', nlin)}
    if not dc:
        lam['eqnonlin'] = v('lameq', 6)
        lam['ineqnonlin'] = v('muineq', 4)
    return C.dict({'x': v('xsol', nvar), 'f': C.sym('fsol'), 'eflag': Const(eflag), 'lmbda': C.dict(lam)})


def bound(I, st, name, args, kw):
    """arguments of a call by parameter name"""
    mod, fn = name.rsplit('.', 1)
    a = I.prog.funcdef(mod, fn).args
    names = [x.arg for x in a.args]
    d = dict(zip(names, args))
    d.update(kw)
    return d


def stub(sol, name, log, probe=False):
    def fn(I, st, args, kw):
        a = bound(I, st, name, args, kw)
        log.append(a)
        it = lambda x: I.cell(st, sol).items[x]
        out = I.newdict(st, {'iterations': Const(13)})
        if probe:
            a['functions'] = I.call(I.get_function('spec.opfresults', 'functions'),
                                    [a['f_fcn'], a['gh_fcn'], a['hess_fcn'], it('x'), it('lmbda')], {}, st, None)
        if name.endswith('.pips'):
            return I.newdict(st, {'x': it('x'), 'f': it('f'), 'eflag': it('eflag'), 'output': out, 'lmbda': it('lmbda')})
        f = I.call(I.get_function('spec.qp', 'objective'), [a['H'], a['c'], it('x')], {}, st, None)
        return Tup([it('x'), f, it('eflag'), out, it('lmbda')])
    return PyFunc(fn, name)


def vals(seed):
    V = case_valuation(seed)
    V.atoms['baseMVA'] = V.r.choice([1, 10, 100, 100]) * 1.0
    return V


def whole(C, d):
    """the same case with integer tables"""
    from .c11 import integer
    it = C.I.cell(C.st, d).items
    for t in ('bus', 'gen', 'branch', 'gencost'):
        it[t] = integer(C, it[t])
    return d


def results(k, n, s, dc, eflag, ints=False, **opts):
    f, nvar, nlin = facts(s, dc)
    C, R = k.ctx(), k.ctx()
    where = k.where('opf', 'opf')
    name = 'pypower.qps_pypower.qps_pypower' if dc else 'pypower.pips.pips'
    log = []
    sol = answer(C, nvar, nlin, dc, eflag)
    C.I.overrides['pypower.util.have_fcn'] = PyFunc(lambda I, st, args, kw: Const(False))
    C.I.overrides[name] = stub(sol, name, log)
    a = C.call('spec.opfresults', 'report', whole(C, case(C, s, dc)) if ints else case(C, s, dc), options(C, dc, **opts), lift(C, f['vars']), lift(C, f['lin']),
               lift(C, f['nln']), lift(C, f['costs']))
    b = R.call('spec.opfresults', 'dc' if dc else 'ac', case(R, s, dc), options(R, dc, **opts),
               R.dict({x: lift(R, y) for x, y in f.items()}), answer(R, nvar, nlin, dc, eflag))
    k.compare('dc results' if dc else 'ac results', where, '%s results [%s%s]' % ('dc' if dc else 'ac', n, ('' if eflag > 0 else ', not converged') + (', integer tables' if ints else '')),
              C, a, R, b, vals)


def asked(k, n, s, dc, alg, feastol):
    f, nvar, nlin = facts(s, dc)
    C, R = k.ctx(), k.ctx()
    where = k.where('dcopf_solver' if dc else 'pipsopf_solver', 'dcopf_solver' if dc else 'pipsopf_solver')
    name = 'pypower.qps_pypower.qps_pypower' if dc else 'pypower.pips.pips'
    log = []
    sol = answer(C, nvar, nlin, dc, 1)
    C.I.overrides['pypower.util.have_fcn'] = PyFunc(lambda I, st, args, kw: Const(False))
    C.I.overrides[name] = stub(sol, name, log, not dc)
    o = {'OPF_ALG_DC' if dc else 'OPF_ALG': alg, 'PDIPM_FEASTOL': feastol, 'OPF_VIOLATION': 3e-5, 'PDIPM_GRADTOL': 2e-4, 'PDIPM_COMPTOL': 5e-4,
         'PDIPM_COSTTOL': 7e-4, 'PDIPM_MAX_IT': 77, 'SCPDIPM_RED_IT': 11}
    C.call('pypower.opf', 'opf', case(C, s, dc), options(C, dc, **o))
    label = 'solver input [%s, %s]' % (n, 'dc' if dc else 'ac')
    if len(log) != 1:
        k.undecided(label, 'solver called %d times' % len(log))
        return
    a = log[0]
    co, rows = [], [g for g in c10.facts(dict(NET))[0]['gen']]
    rows = rows if dc or len(s['cost']) == 6 else rows + [6 + g for g in rows]
    pwl = [(i, 2 + 2 * s['cost'][r][1] + 1) for i, r in enumerate(rows) if s['cost'][r][0] == 1 and s['cost'][r][1] > 2]
    f = dict(f, ref=0, last=pwl)
    opt = C.I.cell(C.st, a['opt']).items
    if dc:
        opt = C.I.cell(C.st, opt['pips_opt']).items if 'pips_opt' in opt else {}
    want = {'feastol': feastol or 3e-5, 'gradtol': 2e-4, 'comptol': 5e-4, 'costtol': 7e-4, 'max_it': 77, 'max_red': 11,
            'cost_mult': 1 if dc else 1e-4}
    if not dc:
        want['step_control'] = alg == 565
    got = Tup([opt.get(x, Unk('missing option')) for x in sorted(want)])
    k.compare('solver input', where, label + ' options', C, got, R, Tup([Const(want[x]) for x in sorted(want)]), vals)
    e = [a['A'], a['l'], a['u'], a['xmin'], a['xmax'], a['x0']]
    e[0] = C.call('spec.opfresults', 'dense', e[0])
    fx = {x: lift(R, y) for x, y in f.items()}
    sol = answer(R, nvar, nlin, dc, 1)
    if dc:
        b = R.call('spec.opfresults', 'asked_dc', case(R, s, dc), options(R, dc, **o), R.dict(fx))
        k.compare('solver input', where, label, C, Tup(e), R, b, vals)
        H = C.I.call(C.func('spec.qp', 'symmetric'), [a['H']], {}, C.st, None)
        k.compare('solver input', where, label + ' symmetric H', C, H, R, R.call('spec.qp', 'zero', Const(nvar)), vals)
        return
    it = R.I.cell(R.st, sol).items
    b = R.call('spec.opfresults', 'asked_ac', case(R, s, dc), options(R, dc, **o), R.dict(fx), it['x'], it['lmbda'])
    fn = C.I.seq_items(a['functions'], C.st)
    e = Tup([C.I.newlist(C.st, e + C.I.seq_items(fn[0], C.st)), fn[1]])
    k.compare('solver input', where, label, C, e, R, b, vals)


def check(k):
    k.rule('solver input', 'the solver receives the objective, constraints, bounds and tolerances of the model and an interior starting point')
    for n, dc, alg, ft in (('plain', False, 0, 0), ('reactive', False, 565, 4e-3), ('piecewise', True, 0, 0), ('user', True, 200, 4e-3),
                           ('plain', True, 250, 0)):
        k.guarded('solver input [%s]' % n, lambda: asked(k, n, S[n], dc, alg, ft))

    k.rule('ac results', 'everything reported by the ac optimal power flow follows from the answer of the solver')
    k.rule('dc results', 'everything reported by the dc optimal power flow follows from the answer of the solver')
    for n in S:
        for dc in (False, True):
            k.guarded('%s [%s]' % ('dc' if dc else 'ac', n), lambda: results(k, n, S[n], dc, 1))
    for dc in (False, True):
        k.guarded('%s integer' % dc, lambda: results(k, 'plain', S['plain'], dc, 1, True))
        k.guarded('%s not converged' % dc, lambda: results(k, 'piecewise', S['piecewise'], dc, 0))
