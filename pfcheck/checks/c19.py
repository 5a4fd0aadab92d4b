from ..harness import *
from ..domain import case_valuation
NEED = 20
EXPLANATION = ('Cost routines are interpreted on cost tables of concrete structure (cost models and numbers of coefficients) '
               'with symbolic coefficients and compared with the documented functions; rescaling and shifting is checked as '
               'the documented functional equation, evaluated through the repository\'s own cost evaluation.')
ASSUMPTIONS = ['break points of piecewise linear costs are increasing', 'scale factors are positive']
TABLES_ = {
    'mixed': [(1, 2), (2, 3), (1, 3), (2, 1), (2, 2), (1, 4), (2, 6), (1, 6)],
    'polynomial': [(2, 2), (2, 6), (2, 3), (2, 1)],
    'piecewise': [(1, 3), (1, 2)],
    'one polynomial': [(2, 3)],
    'one piecewise': [(1, 4)],
    'long': [(2, 5), (2, 7)],
    'constant': [(2, 1), (2, 1)],
}


def table(C, rows, name='gencost'):
    return C.ctable(name, len(rows), 16, {0: [r[0] for r in rows], 3: [r[1] for r in rows]})


def P_(C, n):
    return C.vec('xP', cdim(n))


def vals(rows):
    def f(seed):
        V = case_valuation(seed)
        r = V.r
        t = []
        x = []
        for model, n in rows:
            row = [model, r.uniform(1, 9), r.uniform(1, 9), n]
            if model == 1:
                p = r.uniform(-20, 5)
                bp = []
                for k in range(n):
                    bp.append(p)
                    row += [p, r.uniform(-50, 200)]
                    p += r.uniform(1, 20)
                x.append(r.choice([r.uniform(bp[0] - 9, bp[-1] + 9), r.uniform(bp[0] - 9, bp[-1] + 9), r.choice(bp)]))
            else:
                row += [r.choice([0, r.uniform(-3, 3), r.uniform(-3, 3)]) for _ in range(n)]
                x.append(r.choice([0, r.uniform(-20, 20), r.uniform(-20, 20)]))
            row += [r.uniform(-9, 9) for _ in range(16 - len(row))]
            t.append(row)
        V.atoms['cgencost'] = t
        V.atoms['xP'] = x
        V.atoms['alpha'] = r.uniform(.3, 3)
        return V
    return f


# modtype -> (a, b, c, d): F_new(P) = a F(b P + c) + d in terms of alpha
MOD = {'SCALE_F': lambda al: (al, ONE, ZERO, ZERO), 'SCALE_X': lambda al: (ONE, P.power(al, -1), ZERO, ZERO),
       'SHIFT_F': lambda al: (ONE, ONE, ZERO, al), 'SHIFT_X': lambda al: (ONE, ONE, -al, ZERO)}


def check(k):
    k.rule('evaluation', 'cost evaluation and derivatives equal the documented polynomial and piecewise linear functions')
    k.rule('modification', 'modified costs satisfy the documented functional equation and keep all other columns')
    k.rule('linearisation', 'piecewise linear replacement interpolates the polynomial at evenly spaced points from zero or Pmin to Pmax')
    k.rule('split', 'real and reactive cost rows are split by position')
    for n, rows in TABLES_.items():
        ng = len(rows)
        k.ref('evaluation', 'total cost [%s]' % n, ('totcost', 'totcost'), ('cost', 'total'),
              lambda C: [table(C, rows), P_(C, ng)], vals(rows))
        if all(r[0] == 2 for r in rows):
            for d in (0, 1, 2):
                k.ref('evaluation', 'polynomial derivative %d [%s]' % (d, n), ('polycost', 'polycost'), ('cost', 'derivatives'),
                      lambda C: [table(C, rows), P_(C, ng), Const(d)], vals(rows))
        for mt in MOD:
            k.guarded('modcost %s %s' % (mt, n), lambda: modify(k, n, rows, mt))
    for npts in (3, 4) if not k.thorough else (3, 4, 5, 10):
        k.guarded('poly2pwl %d' % npts, lambda: pwl(k, npts))
    rows = TABLES_['mixed']
    for n, ng, on in (('both', 4, [0, 1, 2, 3]), ('both, one off', 4, [0, 2]), ('real only', 8, [1, 3, 4])):
        k.ref('split', 'pqcost [%s]' % n, ('pqcost', 'pqcost'), ('cost', 'split'),
              lambda C: [table(C, rows), Const(ng), C.arr(const_vec(on))], vals(rows))
    k.ref('split', 'pqcost [default]', ('pqcost', 'pqcost'), ('cost', 'split'),
          lambda C: [table(C, rows), Const(4)], vals(rows), specargs=lambda C: [table(C, rows), Const(4), C.arr(const_vec([0, 1, 2, 3]))])


def modify(k, n, rows, mt):
    C, R = k.ctx(), k.ctx()
    ng = len(rows)
    al = C.sym('alpha', pos=mt[:5] == 'SCALE')
    g = table(C, rows)
    old = C.A(g)
    new = C.call('modcost', 'modcost', g, al, Const(mt))
    v = C.call('totcost', 'totcost', new, P_(C, ng))
    a, b, c, d = [scalar(x, 'f') for x in MOD[mt](P.atom('alpha'))]
    R.sym('alpha', pos=mt[:5] == 'SCALE')
    w = R.call('spec.cost', 'total_scaled', table(R, rows), P_(R, ng), a, b, c, d)

    def vv(seed):
        V = vals(rows)(seed)
        if mt[:5] == 'SHIFT' and seed % 2:
            V.atoms['alpha'] *= -1
        al = V.atoms['alpha']
        # evaluate away from the moved break points
        if mt == 'SCALE_X':
            V.atoms['xP'] = [x * al for x in V.atoms['xP']]
        if mt == 'SHIFT_X':
            V.atoms['xP'] = [x + al for x in V.atoms['xP']]
        V.atoms['xP'] = [x + 0.0123 for x in V.atoms['xP']]
        return V
    wh = k.where('modcost', 'modcost')
    k.compare('modification', wh, 'modcost %s [%s] cost function' % (mt, n), C, v, R, w, vv)
    first = lambda X, t: X.arr(X.I.np.getitem_arr(X.st, X.A(t), [ALL, ('sl', ZERO, cdim(4))]))
    na, oa = C.A(new), old
    head = lambda a: Arr((a.dims[0], cdim(4)), lambda i, j: a.at(i, j), 'f')
    k.compare('modification', wh, 'modcost %s [%s] model and count columns' % (mt, n), C, C.arr(head(na)), R,
              R.arr(head(R.A(table(R, rows)))), vv)
    k.compare('modification', wh, 'modcost %s [%s] argument unchanged' % (mt, n), C, C.arr(C.A(g)), R, table(R, rows), vv)


def pwl(k, npts):
    rows = TABLES_['polynomial']
    signs = [1, -1, 0, -1]
    n = len(rows)

    def limits(X):
        pos = [P.atom('lim', P.const(i)) for i in range(2 * n)]
        P.declare('lim', real=True, pos=True)
        lo = X.polyvec([pos[i].scale(signs[i]) for i in range(n)])
        hi = X.polyvec([pos[i].scale(signs[i]) + pos[n + i] for i in range(n)])
        return lo, hi
    C, R = k.ctx(), k.ctx()
    v = C.call('poly2pwl', 'poly2pwl', table(C, rows), *(limits(C) + (Const(npts),)))
    w = R.call('spec.cost', 'to_piecewise', table(R, rows), *(limits(R) + (Const(npts), R.arr(const_vec([s > 0 for s in signs])))))
    a = C.A(v)
    width = 4 + 2 * npts
    if a is not None and (a.dims[1].const() or 0) >= width:
        v = C.arr(Arr((a.dims[0], cdim(width)), lambda i, j: a.at(i, j), 'f'))

    def vv(seed):
        V = vals(rows)(seed)
        V.atoms['lim'] = [V.r.uniform(1, 20) for _ in range(2 * n)]
        return V
    k.compare('linearisation', k.where('poly2pwl', 'poly2pwl'), 'poly2pwl [%d points]' % npts, C, v, R, w, vv)
