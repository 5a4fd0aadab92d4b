from ..harness import *
from ..domain import case_valuation
NEED = 20
EXPLANATION = ('opf_setup is interpreted on cases of concrete structure (topology, limits present or absent, capability curves, '
               'dispatchable loads, cost models) with symbolic contents; every variable block and every linear constraint block '
               'of the resulting model is compared with the constraint the documentation states.')
ASSUMPTIONS = ['break points of piecewise linear costs are distinct', 'case tables are in internal order with all equipment in service',
               'capability curve numbers are concrete examples']
NB = 3
CURVE = {10: [0, 10, 0, 20], 11: [0, 100, 0, 90], 12: [0, -50, 0, -40], 13: [0, 60, 0, 50], 14: [0, -20, 0, -40], 15: [0, 10, 0, 20]}
GEN = {0: [0, 2, 2, 1], 3: [80, 80, 0, 45], 4: [-80, -80, -12, -40], 7: [1] * 4, 8: [120, 130, 0, 90], 9: [0, 10, -30, 0]}
GEN.update(CURVE)
# branches: unlimited, limited, beyond the cut-off, parallel to the second
BRANCH = {0: [0, 1, 0, 2], 1: [1, 2, 2, 1], 5: [0, 250, 1e10, 3000000], 10: [1] * 4, 11: [-360, -30, 0, -10], 12: [360, 0, 0, 400]}
ANG = [(1, 1, 2, True, False), (3, 2, 1, True, True)]
S = {
    'polynomial': dict(cost=[(2, 3), (2, 2), (2, 3), (2, 1)], bus=[3, 1, 2], ref=[0], pwl=[], single=[]),
    'piecewise': dict(cost=[(1, 3), (1, 2), (2, 3), (1, 4)], bus=[1, 2, 3], ref=[2], pwl=[0, 3], single=[1]),
    'reactive': dict(cost=[(1, 3), (2, 2), (1, 2), (2, 3), (2, 3), (1, 3), (2, 2), (1, 4)], bus=[3, 1, 3], ref=[0, 2], pwl=[0, 5, 7],
                     single=[2]),
    'reactive first': dict(cost=[(2, 2), (2, 2), (2, 2), (2, 2), (1, 3), (2, 1), (1, 3), (2, 1)], bus=[3, 1, 1], ref=[0], pwl=[4, 6], single=[]),
    'user': dict(cost=[(2, 3), (1, 3), (2, 3), (2, 2)], bus=[3, 1, 1], ref=[0], pwl=[1], single=[], nz=2),
    'user without y': dict(cost=[(2, 3), (2, 3), (2, 3), (2, 2)], bus=[3, 1, 1], ref=[0], pwl=[], single=[], nz=1),
    'no angle limits': dict(cost=[(2, 3), (2, 2), (2, 3), (2, 1)], bus=[3, 1, 1], ref=[0], pwl=[], single=[], ignore=True),
    'plain units': dict(cost=[(2, 3), (2, 2), (2, 3), (2, 1)], bus=[3, 1, 1], ref=[0], pwl=[], single=[], plain=True),
}


def ppopt(C, s, dc):
    return C.dict({'PF_DC': Const(dc), 'OPF_ALG': Const(0), 'VERBOSE': Const(0), 'OPF_IGNORE_ANG_LIM': Const(s.get('ignore', False)),
                   'OPF_FLOW_LIM': Const(0)})


def case(C, s, dc):
    ng = 4
    gen = dict(GEN)
    br = dict(BRANCH)
    if s.get('plain'):
        for c in range(10, 16):
            gen[c] = [0] * 4
        gen[9] = [0, 10, 5, -3]
        br[11], br[12] = [0, -360, 0, -400], [0, 360, 360, 0]
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', NB, 13, {0: range(NB), 1: s['bus']}),
         'gen': C.ctable('gen', ng, 21, gen), 'branch': C.ctable('branch', 4, 13, br),
         'gencost': C.ctable('gencost', len(s['cost']), 12, {0: [c[0] for c in s['cost']], 3: [c[1] for c in s['cost']]})}
    if s.get('nz'):
        nx = NB + ng if dc else 2 * NB + 2 * ng
        n = nx + s['nz']
        d['A'] = C.mat('uA', 2, n, 'f', 'sp')
        d['l'], d['u'] = C.vec('ul', cdim(2)), C.vec('uu', cdim(2))
        d['z0'], d['zl'], d['zu'] = [C.vec(x, cdim(s['nz'])) for x in ('z0', 'zl', 'zu')]
    return C.dict(d)


def facts(C, s, dc):
    plain = s.get('plain')
    load = [] if plain else [(2, 4)]
    f = {'ref': s['ref'], 'gbus': GEN[0], 'ang': [] if plain or s.get('ignore') else ANG,
         'pqh': [] if plain else [1, 3], 'pql': [] if plain else [1], 'load': load, 'pwl': [i for i in s['pwl'] if i < 4 or not dc],
         'single': [i for i in s['single'] if i < 4 or not dc], 'il': [1, 3], 'nz': s.get('nz', 0)}
    return C.dict({k: lift(C, v) for k, v in f.items()})


def user_case(C, dc, wide, z, default=(), given=True):
    """user costs (and constraints) given with the columns of the ac or of the dc formulation"""
    s = S['user' if z else 'user without y']
    d = case(C, dict(s, nz=0), dc)
    cell = C.I.cell(C.st, d)
    ng = 4
    n = (2 * NB + 2 * ng if wide else NB + ng) + z
    drop = list(range(NB, 2 * NB)) + list(range(2 * NB + ng, 2 * NB + 2 * ng)) if dc and wide else []
    P.declare('uN', real=True)
    P.declare('uA', real=True)
    M = lambda nm, r: C.arr(polymat([[ZERO if j in drop else P.atom(nm, P.const(i), P.const(j)) for j in range(n)] for i in range(r)], kind='sp'))
    P.declare('uH', real=True)
    it = cell.items
    it['N'] = M('uN', 2)
    it['Cw'] = C.vec('uCw', cdim(2))
    it['fparm'] = C.mat('ufp', 2, 4)
    it['H'] = C.arr(polymat([[P.atom('uH', P.const(min(i, j)), P.const(max(i, j))) for j in range(2)] for i in range(2)], kind='sp'))
    it['A'], it['l'], it['u'] = M('uA', 1), C.vec('ul', cdim(1)), C.vec('uu', cdim(1))
    usual = {'H': lambda: C.arr(polymat([[ZERO, ZERO], [ZERO, ZERO]], kind='sp')),
             'fparm': lambda: C.arr(polymat([[P.const(x) for x in (1, 0, 0, 1)] for i in range(2)]))}
    for x in default:
        if given:
            it[x] = usual[x]()
        else:
            del it[x]
    return d, [j for j in range(n) if j not in drop], len(s['pwl'])


def user(k, dc, wide, z, default=()):
    C, R = k.ctx(), k.ctx()
    d, keep, ny = user_case(C, dc, wide, z, default, False)
    s = S['user' if z else 'user without y']
    a = C.call('spec.opfsetup', 'costs', d, ppopt(C, s, dc))
    d, keep, ny = user_case(R, dc, wide, z, default)
    nx = (NB + 4) * (1 if dc else 2)
    b = R.call('spec.opfsetup', 'costs_ref', d, lift(R, keep), Const(nx), Const(ny))
    k.compare('user costs', k.where('opf_setup', 'opf_setup'), 'user costs and constraints [%s, %s columns, %d user variables%s]' % (
        'dc' if dc else 'ac', 'ac' if wide else 'dc', z, ''.join(', default ' + x for x in default)), C, a, R, b, vals(s))


def lift(C, v):
    if isinstance(v, list):
        return C.I.newlist(C.st, [lift(C, x) for x in v])
    if isinstance(v, tuple):
        return Tup([lift(C, x) for x in v])
    return Const(v)


def vals(s):
    def f(seed):
        V = case_valuation(seed)
        r = V.r
        rows = []
        for model, n in s['cost']:
            row = [model, r.uniform(0, 9), r.uniform(0, 9), n]
            p = r.uniform(-20, 5)
            for k in range(8):
                row.append(p if k % 2 == 0 and model == 1 else r.uniform(-9, 20))
                p += r.uniform(3, 20)
            rows.append(row)
        V.atoms['cgencost'] = rows
        V.atoms['baseMVA'] = r.choice([1, 10, 100, 100]) * 1.0
        return V
    return f


def check(k):
    k.rule('ac model', 'variables and linear constraints of the ac formulation are the documented ones')
    k.rule('dc model', 'variables and linear constraints of the dc formulation are the documented ones')
    k.rule('user costs', 'user-defined costs and constraints reach the variables of the formulation they name')
    k.rule('nonlinear', 'the ac formulation has power balance at every bus and a flow limit at both ends of every branch')
    for n in S:
        for dc in (False, True):
            k.guarded('%s [%s]' % ('dc' if dc else 'ac', n), lambda: model(k, n, S[n], dc))
    k.guarded('nonlinear', lambda: nonlinear(k))
    for dc in (False, True):
        for wide in ((True, False) if dc else (True,)):
            for z in (0, 1):
                k.guarded('user costs %s' % dc, lambda: user(k, dc, wide, z))
        for default in (('H',), ('fparm',), ('H', 'fparm')):
            k.guarded('user costs %s' % dc, lambda: user(k, dc, True, 0, default))


def model(k, n, s, dc):
    C, R = k.ctx(), k.ctx()
    v = ['Va', 'Pg'] if dc else ['Va', 'Vm', 'Pg', 'Qg']
    c = ['Pmis', 'Pf', 'Pt', 'ang', 'ycon'] if dc else ['ang', 'PQh', 'PQl', 'vl', 'ycon']
    ny = len([i for i in s['pwl'] if i < 4 or not dc])
    sizes = [NB, 4] if dc else [NB, NB, 4, 4]
    nz = s.get('nz', 0)
    for name, m in (('y', ny), ('z', nz)):
        if m:
            v.append(name)
            sizes.append(m)
    if nz:
        c.append('usr')
    a = C.call('spec.opfsetup', 'build', case(C, s, dc), ppopt(C, s, dc), lift(C, v), lift(C, c))
    b = R.call('spec.opfsetup', 'dc' if dc else 'ac', case(R, s, dc), facts(R, s, dc), lift(R, sizes))
    k.compare('dc model' if dc else 'ac model', k.where('opf_setup', 'opf_setup'), '%s model [%s]' % ('dc' if dc else 'ac', n), C, a, R, b, vals(s))


def nonlinear(k):
    C = k.ctx()
    R = k.ctx()
    s = S['polynomial']
    a = C.call('spec.opfsetup', 'nonlinear', case(C, s, False), ppopt(C, s, False), lift(C, ['Pmis', 'Qmis', 'Sf', 'St']))
    b = Tup([lift(R, [3, 3, 4, 4]), Const(14)])
    k.compare('nonlinear', k.where('opf_setup', 'opf_setup'), 'nonlinear constraint blocks', C, a, R, b, vals(s))
