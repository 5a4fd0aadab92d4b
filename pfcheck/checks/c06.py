from ..harness import *
from ..deriv import *
from ..domain import case_valuation
NEED = 40
EXPLANATION = ('Objective, constraint and Lagrangian-Hessian routines are interpreted on models of concrete structure '
               '(topology, cost models, user cost rows) with symbolic contents; values are compared with reference formulas '
               'and derivatives with exact symbolic derivatives of the reference.')
ASSUMPTIONS = ['structures explored: 3 buses, 2-3 generators, 3 branches (parallel, unlimited), with and without reactive, '
               'piecewise-linear and user-defined costs', 'voltage magnitudes are positive', 'the quadratic coefficient matrix H of user costs is symmetric']
NB = 3
STRUCT = {
    # gencost rows (model, n), generator buses, limited branches, user cost rows (dd)
    'quadratic': dict(cost=[(2, 3), (2, 3)], gbus=[0, 2], il=None, dd=None, ny=0, nz=0),
    'mixed': dict(cost=[(1, 2), (2, 3), (2, 2)], gbus=[0, 2, 2], il=[0, 2], dd=None, ny=1, nz=1),
    'reactive': dict(cost=[(2, 2), (2, 3), (2, 3), (2, 4)], gbus=[1, 0], il=[2], dd=None, ny=0, nz=0),
    'one-poly': dict(cost=[(2, 3), (1, 2)], gbus=[1, 0], il=None, dd=None, ny=1, nz=0),
    'reactive-pwl': dict(cost=[(2, 2), (1, 2), (1, 2), (2, 3)], gbus=[1, 0], il=[1, 2], dd=None, ny=2, nz=1),
    'user-linear': dict(cost=[(2, 3), (2, 2)], gbus=[0, 2], il=[0], dd=[1], N=[[6, 10]], ny=0, nz=1),
    'user-quadratic': dict(cost=[(2, 2), (2, 2)], gbus=[0, 2], il=[0], dd=[2], N=[[1, 7]], ny=0, nz=0),
    'user-both': dict(cost=[(2, 2), (2, 2)], gbus=[0, 2], il=[0], dd=[2, 1], N=[[6], [4]], ny=0, nz=0),
    'user-single': dict(cost=[(2, 2)], gbus=[1], il=[0], dd=[2], N=[[6]], ny=0, nz=0),
    'pwl-only': dict(cost=[(1, 2), (1, 3)], gbus=[1, 0], il=None, dd=None, ny=2, nz=0),
}
FB, TB, RATE = [0, 1, 1], [1, 2, 2], [10, 0, 20]


class M(object):
    """symbolic inputs of one model"""

    def __init__(self, C, s, regime='', exact=False):
        for n, kw in (('Va', {}), ('Vm', {'pos': True}), ('Pg', {}), ('Qg', {}), ('y', {}), ('z', {})):
            P.declare('x' + n, real=True, **kw)
        self.C = C
        ng = len(s['gbus'])
        self.ng, self.ny, self.nz = ng, s['ny'], s['nz']
        seg = [('Va', NB), ('Vm', NB), ('Pg', ng), ('Qg', ng), ('y', s['ny']), ('z', s['nz'])]
        self.names = [(n, k) for n, c in seg for k in range(c)]
        at = lambda n, k: P.atom('x' + n, P.const(k))
        self.at = at
        self.x = C.polyvec([at(n, k) for n, k in self.names])
        self.part = {n: C.polyvec([at(n, k) for k in range(c)]) for n, c in seg}
        self.baseMVA = C.sym('baseMVA')
        cost = s['cost']
        self.gencost = C.ctable('gencost', len(cost), 4 + max(4, 4), {0: [c[0] for c in cost], 3: [c[1] for c in cost]})
        self.bus = C.ctable('bus', NB, 13, {0: range(NB)})
        self.gen = C.ctable('gen', ng, 21, {0: s['gbus'], 7: [1] * ng})
        self.branch = C.ctable('branch', 3, 17, {0: FB, 1: TB, 10: [1, 1, 1], 5: RATE})
        self.il = s['il']
        nl2 = len(s['il']) if s['il'] is not None else 3
        self.lb = C.arr(self.rows(C.A(self.branch), s['il'] or [0, 1, 2]))
        self.Y = C.mat('Y', NB, NB, 'c', 'sp', False)
        self.Yf = C.mat('Yf', nl2, NB, 'c', 'sp', False)
        self.Yt = C.mat('Yt', nl2, NB, 'c', 'sp', False)
        self.nl2 = nl2
        n = len(self.names)
        self.user = None
        if s['dd']:
            nw = len(s['dd'])
            P.declare('uN', real=True)
            P.declare('uH', real=True)
            pat = s['N']
            self.user = dict(N=C.arr(matrix([[P.atom('uN', P.const(i), P.const(j)) if j in pat[i] else ZERO for j in range(n)]
                                             for i in range(nw)], kind='sp')), Cw=C.vec('uCw', cdim(nw)), H=C.arr(polymat([[P.atom('uH', P.const(min(i, j)), P.const(max(i, j)))
                                              for j in range(nw)] for i in range(nw)], kind='sp')),
                             dd=C.arr(const_vec(s['dd'], 'f')), rh=C.vec('urh', cdim(nw)),
                             kk=C.polyvec([ZERO if 'none' in g else P.atom('ukk', P.const(i)) for i, g in enumerate(regime.split())]),
                             mm=C.vec('umm', cdim(nw)))
            P.declare('ukk', real=True, nonneg=True)
            self.dev = []
            for i in range(nw):
                d = -P.atom('urh', P.const(i))
                for j in pat[i]:
                    d = d + P.atom('uN', P.const(i), P.const(j)) * at(*self.names[j])
                self.dev.append(d)
            if exact:
                # rows exactly at their target
                at_target = [P.atom('urh', P.const(i)) + self.dev[i] if g == 'none0' else P.atom('urh', P.const(i))
                             for i, g in enumerate(regime.split())]
                self.user['rh'] = C.polyvec(at_target)

    def rows(self, a, il):
        return Arr((cdim(len(il)), a.dims[1]), lambda i, j: a.at(const_vec(il).at(P.flat(i)), j), 'f')

    def om(self):
        C = self.C
        ppc = C.dict({'baseMVA': self.baseMVA, 'bus': self.bus, 'gen': self.gen, 'branch': self.branch, 'gencost': self.gencost})
        cost = C.dict(dict(self.user)) if self.user else Const(None)
        return C.call('spec.opfmodel', 'make', ppc, Const(NB), Const(self.ng), Const(self.ny), Const(self.nz), cost, Const(None))

    def dvar(self, p, k):
        n, i = self.names[k]
        return P.diff(p, P.d_atom('x' + n, P.const(i)))

    def objective(self):
        u = self.user or {}
        C = self.C
        a = [u.get(n, Const(None)) for n in ('N', 'Cw', 'H', 'dd', 'rh', 'kk', 'mm')]
        return C.A(C.call('spec.opf', 'objective', self.part['Pg'], self.part['Qg'], self.part['y'], self.x, self.gencost,
                          self.baseMVA, *a))

    def g(self):
        p = self.part
        return self.C.A(self.C.call('spec.opf', 'balance', p['Va'], p['Vm'], p['Pg'], p['Qg'], self.baseMVA, self.bus, self.gen, self.Y))

    def h(self, lim):
        p = self.part
        return self.C.A(self.C.call('spec.opf', 'flows', p['Va'], p['Vm'], self.lb, self.Yf, self.Yt, Const(lim)))

    def hmax(self):
        return self.C.A(self.C.call('spec.opf', 'limits', self.lb, self.baseMVA))

    def ilarg(self):
        return Const(None) if self.il is None else self.C.arr(const_vec(self.il))


def flat1(a):
    """entries of a rank-1 array"""
    out = []
    for lab, p in entries(a).items():
        out.append(p)
    return out


matrix = polymat


# position of every user cost row relative to its dead zone; 'none': zero-width dead zone
REGIMES = {'user-linear': ['below', 'inside', 'above', 'none+', 'none-', 'none0'],
           'user-quadratic': ['below', 'inside', 'above', 'none+', 'none-', 'none0'],
           'user-single': ['below', 'inside', 'none-', 'none0'],
           'user-both': ['below above', 'inside above', 'above none+', 'none- below', 'below inside', 'none0 none0']}


def assumptions(m, s, regime):
    out = []
    for i, g in enumerate(regime.split()):
        r = m.dev[i]
        k = P.atom('ukk', P.const(i))
        out += {'below': [-k - r, -r], 'above': [r - k, r], 'inside': [k - r, k + r, k], 'none+': [r], 'none-': [-r], 'none0': []}[g]
    return out


def regime_vals(s, regime):
    def vals(seed):
        V = case_valuation(seed)
        r = V.r
        u = lambda a, b: r.choice([-1, 1]) * r.uniform(a, b)
        ng = len(s['gbus'])
        x = {'Va': [u(.01, .5) for _ in range(NB)], 'Vm': [r.uniform(.9, 1.1) for _ in range(NB)],
             'Pg': [u(.1, 2) for _ in range(ng)], 'Qg': [u(.1, 2) for _ in range(ng)], 'y': [u(1, 9)] * s['ny'],
             'z': [u(1, 2) for _ in range(s['nz'])]}
        flat = []
        for n in ('Va', 'Vm', 'Pg', 'Qg', 'y', 'z'):
            V.atoms['x' + n] = x[n]
            flat += x[n]
        N = [[u(.2, 2) if j in q else 0 for j in range(len(flat))] for q in s['N']]
        kk = []
        rh = []
        for i, g in enumerate(regime.split()):
            k = r.uniform(.5, 2)
            dev = {'below': -k - r.uniform(.1, 3), 'above': k + r.uniform(.1, 3), 'inside': k * r.uniform(-.9, .9),
                   'none+': r.uniform(.1, 3), 'none-': -r.uniform(.1, 3), 'none0': 0}[g]
            kk.append(k)
            rh.append(sum(a * b for a, b in zip(N[i], flat)) - dev)
        V.atoms['uN'], V.atoms['ukk'], V.atoms['urh'] = N, kk, rh
        return V
    return vals


def vals(s):
    V = case_valuation(s)
    V.atoms['inf'] = 1e30
    return V


def check(k):
    k.rule('objective', 'objective value, gradient and Hessian are the stated cost function and its exact derivatives')
    k.rule('constraints', 'mismatches and flow-limit violations are the stated functions, their Jacobians the exact derivatives')
    k.rule('lagrangian', 'Hessian of the Lagrangian is the exact second derivative of cost and multiplier-weighted constraints')
    for name in STRUCT:
        s = STRUCT[name]
        for g in REGIMES.get(name, ['']):
            k.guarded('objective ' + name + ' ' + g, lambda: cost(k, name, s, g))
    for name in STRUCT:
        s = STRUCT[name]
        for lim in (0, 1, 2):
            if name.startswith('user') or (lim and name not in ('mixed', 'reactive', 'quadratic')):
                continue
            k.guarded('constraints %s flow limit %d' % (name, lim), lambda: cons(k, name, s, lim))
    for name in STRUCT:
        s = STRUCT[name]
        for lim in (0, 1, 2):
            if lim and name not in ('mixed', 'reactive-pwl'):
                continue
            if lim == 2 and s['il'] is not None and not k.thorough and name != 'mixed':
                continue
            for g in REGIMES.get(name, ['']):
                k.guarded('lagrangian %s %s flow limit %d' % (name, g, lim), lambda: hessian(k, name, s, lim, g))


def cost(k, name, s, g):
    C, R = k.ctx(), k.ctx()
    m = M(C, s, g, True)
    with P.assuming(assumptions(m, s, g)):
        v = C.call('opf_costfcn', 'opf_costfcn', m.x, m.om(), Const(True))
    # a row without dead zone continues to its target from either side
    with P.assuming(assumptions(m, s, g.replace('none0', 'none+'))):
        cost1(k, name, s, g, C, R, m, v)


def cost1(k, name, s, g, C, R, m, v):
    r = M(R, s, g)
    f = r.objective()
    p = f.at()
    n = len(r.names)
    df = [r.dvar(p, i) for i in range(n)]
    d2 = [[r.dvar(df[i], j) for j in range(n)] for i in range(n)]
    w = Tup([f, R.polyvec(df), R.arr(matrix(d2))])
    k.compare('objective', k.where('opf_costfcn', 'opf_costfcn'), 'objective,gradient,Hessian [%s]' % (name + ' ' + g).strip(), C, v, R, w,
              regime_vals(s, g) if g else vals)


def cons(k, name, s, lim):
    C, R = k.ctx(), k.ctx()
    m = M(C, s)
    v = C.call('opf_consfcn', 'opf_consfcn', m.x, m.om(), m.Y, m.Yf, m.Yt, C.dict({'OPF_FLOW_LIM': Const(lim)}), m.ilarg())
    r = M(R, s)
    g, h = flat1(r.g()), flat1(r.h(lim))
    n = len(r.names)
    hm = flat1(r.hmax())
    hv = R.polyvec([a - b for a, b in zip(h, hm)])
    dg = matrix([[r.dvar(q, i) for q in g] for i in range(n)])
    dh = matrix([[r.dvar(q, i) for q in h] for i in range(n)])
    k.compare('constraints', k.where('opf_consfcn', 'opf_consfcn'), 'h,g,dh,dg [%s, flow limit %d]' % (name, lim), C, v, R,
              Tup([hv, R.polyvec(g), R.arr(dh), R.arr(dg)]), vals)


def hessian(k, name, s, lim, g):
    C, R = k.ctx(), k.ctx()
    m = M(C, s, g, True)
    l, u, cm = lam(C, m)
    with P.assuming(assumptions(m, s, g)):
        v = C.call('opf_hessfcn', 'opf_hessfcn', m.x, C.dict({'eqnonlin': l, 'ineqnonlin': u}), m.om(), m.Y, m.Yf, m.Yt,
                   C.dict({'OPF_FLOW_LIM': Const(lim)}), m.ilarg(), cm)
    with P.assuming(assumptions(m, s, g.replace('none0', 'none+'))):
        hessian1(k, name, s, lim, g, C, R, m, v)


def lam(X, m):
    return X.vec('lmb', cdim(2 * NB)), X.vec('kmu', cdim(2 * m.nl2)), X.sym('cm')


def hessian1(k, name, s, lim, g, C, R, m, v):
    r = M(R, s, g)
    l, u, cm = lam(R, r)
    L = r.objective().at() * R.A(cm).at()
    for a, b in zip(flat1(r.g()), flat1(R.A(l))):
        L = L + a * b
    for a, b in zip(flat1(r.h(lim)), flat1(R.A(u))):
        L = L + a * b
    n = len(r.names)
    d = [r.dvar(L, i) for i in range(n)]
    H = [[r.dvar(d[i], j) for j in range(n)] for i in range(n)]
    k.compare('lagrangian', k.where('opf_hessfcn', 'opf_hessfcn'), 'Lagrangian Hessian [%s, flow limit %d]' % ((name + ' ' + g).strip(), lim), C, v, R,
              R.arr(matrix(H)), regime_vals(s, g) if g else vals)
