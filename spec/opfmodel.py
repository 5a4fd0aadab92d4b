# An OPF model with the standard variable blocks, as the formulation builds it.
from pypower.opf_model import opf_model


def make(ppc, nb, ng, ny, nz, cost, vset):
    om = opf_model(ppc)
    om.add_vars('Va', nb)
    om.add_vars('Vm', nb)
    om.add_vars('Pg', ng)
    om.add_vars('Qg', ng)
    om.add_vars('y', ny)
    om.add_vars('z', nz)
    if cost is not None:
        om.add_costs('usr', cost, vset)
    om.build_cost_params()
    return om


# -- containers: scenarios run against the class, expectations written out directly
from numpy import r_, array, inf, zeros, ones, arange


def filled(sizes, v0, vl, vu):
    om = opf_model({})
    k = 0
    for name in ['a', 'b', 'c', 'd']:
        n = sizes[name]
        om.add_vars(name, n, v0[k:k + n], vl[k:k + n], vu[k:k + n])
        k = k + n
    om.add_vars('f', sizes['f'])
    return om


def variables(sizes, v0, vl, vu):
    om = filled(sizes, v0, vl, vu)
    vv, ll, nn, cc = om.get_idx()
    names = ['a', 'b', 'c', 'd', 'f']
    return (om.getv(), om.getv('c'), om.getv('f'), om.getN('var'), [om.getN('var', n) for n in names], om.getN('var', 'nope'),
            [vv['i1'][n] for n in names], [vv['iN'][n] for n in names], [vv['N'][n] for n in names])


def variables_ref(sizes, v0, vl, vu):
    names = ['a', 'b', 'c', 'd', 'f']
    start = 0
    i1 = []
    iN = []
    for n in names:
        i1.append(start)
        start = start + sizes[n]
        iN.append(start)
    nf = sizes['f']
    z = zeros(nf)
    lo = -inf * ones(nf)
    hi = inf * ones(nf)
    c = arange(i1[2], iN[2])
    return ((r_[v0, z], r_[vl, lo], r_[vu, hi]), (v0[c], vl[c], vu[c]), (z, lo, hi), start, [sizes[n] for n in names], 0,
            i1, iN, [sizes[n] for n in names])


def linear(sizes, A1, l1, u1, A2, l2, u2, A3, l3, A4, u4):
    om = opf_model({})
    for name in ['a', 'b', 'c']:
        om.add_vars(name, sizes[name])
    om.add_constraints('one', A1, l1, u1, ['c', 'a'])
    om.add_constraints('two', A2, l2, u2)
    om.add_vars('d', sizes['d'])
    om.add_constraints('three', A3, l3, [], ['b', 'd'])
    om.add_constraints('none', zeros((0, 0)), array([]), array([]), ['b'])
    om.add_constraints('four', A4, [], u4, ['d'])
    om.add_constraints('free', A4, array([]), array([]), ['d'])
    om.add_constraints('nl', 7)
    om.add_constraints('nl2', 2)
    A, l, u = om.linear_constraints()
    vv, ll, nn, cc = om.get_idx()
    names = ['one', 'two', 'three', 'none', 'four', 'free']
    return (A, l, u, om.getN('lin'), [ll['i1'][n] for n in names], [ll['iN'][n] for n in names], [ll['N'][n] for n in names],
            om.getN('nln'), om.getN('nln', 'nl'), nn['i1']['nl2'], nn['iN']['nl2'], om.getN('lin', 'nope'))


def linear_ref(sizes, A1, l1, u1, A2, l2, u2, A3, l3, A4, u4):
    A1, A2, A3, A4 = A1.toarray(), A2.toarray(), A3.toarray(), A4.toarray()
    na, nb, nc, nd = sizes['a'], sizes['b'], sizes['c'], sizes['d']
    n = na + nb + nc + nd
    N = [A1.shape[0], A2.shape[0], A3.shape[0], 0, A4.shape[0], A4.shape[0]]
    A = zeros((sum(N), n))
    l = -inf * ones(sum(N))
    u = inf * ones(sum(N))
    i = 0
    A[i:i + N[0], na + nb:na + nb + nc] = A1[:, :nc]
    A[i:i + N[0], :na] = A1[:, nc:]
    l[i:i + N[0]] = l1
    u[i:i + N[0]] = u1
    i = i + N[0]
    A[i:i + N[1], :na + nb + nc] = A2
    l[i:i + N[1]] = l2
    u[i:i + N[1]] = u2
    i = i + N[1]
    A[i:i + N[2], na:na + nb] = A3[:, :nb]
    A[i:i + N[2], na + nb + nc:] = A3[:, nb:]
    l[i:i + N[2]] = l3
    i = i + N[2]
    A[i:i + N[4], na + nb + nc:] = A4
    u[i:i + N[4]] = u4
    i = i + N[4]
    A[i:i + N[5], na + nb + nc:] = A4
    i1 = [0, N[0], N[0] + N[1], N[0] + N[1] + N[2], N[0] + N[1] + N[2], i]
    return (A, l, u, sum(N), i1, [i1[k] + N[k] for k in range(6)], N, 9, 7, 7, 9, 0)


def model_costs(sizes, p, q, r):
    om = opf_model({})
    for name in ['a', 'b', 'c']:
        om.add_vars(name, sizes[name])
    om.add_costs('p', p, ['c', 'a'])
    om.add_costs('q', q, None)
    om.add_vars('d', sizes['d'])
    om.add_costs('r', r, ['d'])
    om.build_cost_params()
    return om


def fields(cp):
    return cp['N'], cp['Cw'], cp['H'], cp['dd'], cp['rh'], cp['kk'], cp['mm']


def costs(sizes, p, q, r):
    om = model_costs(sizes, p, q, r)
    first = fields(om.get_cost_params())
    one = fields(om.get_cost_params('q'))
    vv, ll, nn, cc = om.get_idx()
    return (first, one, fields(om.get_cost_params('r')), fields(om.get_cost_params()), om.getN('cost'),
            [cc['i1'][n] for n in ['p', 'q', 'r']], [cc['iN'][n] for n in ['p', 'q', 'r']])


def costs_ref(sizes, p, q, r):
    na, nb, nc, nd = sizes['a'], sizes['b'], sizes['c'], sizes['d']
    n1, n2, n3 = p['N'].shape[0], q['N'].shape[0], r['N'].shape[0]
    w = n1 + n2 + n3
    N = zeros((w, na + nb + nc + nd))
    P = p['N'].toarray()
    N[:n1, na + nb:na + nb + nc] = P[:, :nc]
    N[:n1, :na] = P[:, nc:]
    N[n1:n1 + n2, :na + nb + nc] = q['N'].toarray()
    N[n1 + n2:, na + nb + nc:] = r['N'].toarray()
    H = zeros((w, w))
    H[:n1, :n1] = p['H'].toarray()
    H[n1 + n2:, n1 + n2:] = r['H'].toarray()
    full = (N, r_[p['Cw'], q['Cw'], r['Cw']], H, r_[p['dd'], ones(n2), ones(n3)], r_[zeros(n1), q['rh'], r['rh']],
            r_[p['kk'], zeros(n2), zeros(n3)], r_[ones(n1), ones(n2), r['mm']])
    return (full, rows(full, n1, n1 + n2), rows(full, n1 + n2, w), full, w, [0, n1, n1 + n2], [n1, n1 + n2, w])


def rows(f, i, j):
    N, Cw, H, dd, rh, kk, mm = f
    return N[i:j, :], Cw[i:j], H[i:j, i:j], dd[i:j], rh[i:j], kk[i:j], mm[i:j]


def evaluate(sizes, p, q, r, x):
    om = model_costs(sizes, p, q, r)
    return om.compute_cost(x), om.compute_cost(x, 'q'), om.compute_cost(x, 'p'), om.compute_cost(x)


def evaluate_ref(sizes, p, q, r, x):
    f = costs_ref(sizes, p, q, r)[0]
    n1, n2 = p['N'].shape[0], q['N'].shape[0]
    a = value(f, x)
    return a, value(rows(f, n1, n1 + n2), x), value(rows(f, 0, n1), x), a


def value(f, x):
    N, Cw, H, dd, rh, kk, mm = f
    from spec.opf import user_cost
    return user_cost(x, N, Cw, H, dd, rh, kk, mm)
