# Fixed zonal reserve requirements on an optimal power flow.
from numpy import array, zeros, ones, inf
from pypower.toggle_reserves import toggle_reserves
from pypower.run_userfcn import run_userfcn
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf_model import opf_model


def fields(r):
    return [r['zones'], r['req'], r['cost'], r['qty'] if 'qty' in r else None]


def dense(A):
    return A.toarray()


def formulate(i, n):
    om = opf_model(i)
    om.add_vars('Va', n['bus'])
    om.add_vars('Pg', n['gen'])
    om.add_vars('x', 2)
    om = run_userfcn(i['userfcn'], 'formulation', om)
    return om


def reserves(ppc, n, x):
    on = toggle_reserves(ppc, 'on')
    i = ext2int(on)
    r = i['reserves']
    inner = [r['zones'], r['cost'], r['qty'] if 'qty' in r else None, r['igr']]
    om = formulate(i, n)
    A, l, u = om.linear_constraints()
    vv, ll, nn, cc = om.get_idx()
    order = [vv['i1']['R'], vv['iN']['R'], ll['i1']['Pg_plus_R'], ll['iN']['Pg_plus_R'], ll['i1']['Rreq'], ll['iN']['Rreq']]
    om.build_cost_params()
    cp = om.get_cost_params()
    model = [om.getv('R'), dense(A), l, u, dense(cp['N']), cp['Cw'], dense(cp['H']), cp['dd'], cp['rh'], cp['kk'], cp['mm']]
    i['om'] = om
    i['var'] = {'val': {'R': x['R']}, 'mu': {'l': {'R': x['l']}, 'u': {'R': x['u']}}}
    i['lin'] = {'mu': {'u': {'Pg_plus_R': x['p']}, 'l': {'Rreq': x['q']}}}
    i['cost'] = {'Rcost': x['c']}
    e = int2ext(i)
    r = e['reserves']
    out = [r['R'], r['Rmin'], r['Rmax'], r['mu']['l'], r['mu']['u'], r['mu']['Pmax'], r['prc'], r['totalcost'], r['igr']]
    off = toggle_reserves(e, 'off')
    return inner, order, model, out, fields(r), [len(off['userfcn'][s]) for s in sorted(off['userfcn'])], e['gen'], 'original' in r


def spread(v, rows, n):
    """values of the participating units on all units"""
    if len(v) == n:
        return 1 * v
    w = zeros(n)
    for k in range(len(rows)):
        w[rows[k]] = v[k]
    return w


def reserves_ref(ppc, n, x, s):
    base, r, zone, ext, gen = ppc['baseMVA'], ppc['reserves'], s['zone'], s['igr'], s['gen']
    ng, ng0 = len(gen), s['ng0']
    nz = len(zone)
    cost = spread(r['cost'], ext, ng0)
    qty = spread(r['qty'], ext, ng0) if 'qty' in r else None
    igr = [k for k in range(ng) if gen[k] in ext]       # participating units in internal order
    nr = len(igr)
    inner = [array([[zone[z][gen[k]] for k in range(ng)] for z in range(nz)]), array([cost[gen[k]] for k in range(ng)]),
             None if qty is None else array([qty[gen[k]] for k in range(ng)]), igr]
    nb = n['bus']
    at = nb + ng + 2                # first reserve variable
    order = [at, at + nr, 0, nr, nr, nr + nz]
    top = zeros(nr)
    for k in range(nr):
        g = gen[igr[k]]
        lim = s['ramp'][g] if s['ramp'][g] != 0 else inf
        if s['qty'] is not None and s['qty'][g] < lim:
            lim = s['qty'][g]
        top[k] = lim / base
    A = zeros((nr + nz, at + nr))
    u = inf * ones(nr + nz)
    l = -inf * ones(nr + nz)
    N = zeros((nr, at + nr))
    Cw = zeros(nr)
    for k in range(nr):
        g = gen[igr[k]]
        A[k, nb + igr[k]] = 1
        A[k, at + k] = 1
        u[k] = ppc['gen'][g, 8] / base
        N[k, at + k] = 1
        Cw[k] = cost[g] * base
        for z in range(nz):
            A[nr + z, at + k] = zone[z][g]
    for z in range(nz):
        l[nr + z] = r['req'][z] / base
    model = [(zeros(nr), zeros(nr), top), A, l, u, N, Cw, zeros((nr, nr)), ones(nr), zeros(nr), zeros(nr), ones(nr)]
    R, lo, hi, ml, mu, mp, prc = zeros(ng0), zeros(ng0), zeros(ng0), zeros(ng0), zeros(ng0), zeros(ng0), zeros(ng0)
    for k in range(nr):
        g = gen[igr[k]]
        R[g] = x['R'][k] * base
        hi[g] = top[k] * base
        ml[g] = x['l'][k] / base
        mu[g] = x['u'][k] / base
        mp[g] = x['p'][k] / base
    for g in ext:
        t = 0
        for z in range(nz):
            if zone[z][g] != 0:
                t = t + x['q'][z]
        prc[g] = t / base
    gen1 = 1 * ppc['gen']
    return (inner, order, model, [R, lo, hi, ml, mu, mp, prc, x['c'], ext], fields(r), [0, 0, 0, 0, 0], gen1, False)
