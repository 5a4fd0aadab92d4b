# DC interface flow limits on an optimal power flow.
from numpy import array, zeros
from pypower.toggle_iflims import toggle_iflims
from pypower.run_userfcn import run_userfcn
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext
from pypower.opf_model import opf_model


def iflims(ppc, n, x):
    on = toggle_iflims(ppc, 'on')
    i = ext2int(on)
    om = opf_model(i)
    om.add_vars('Va', n['bus'])
    om.add_vars('Pg', n['gen'])
    om = run_userfcn(i['userfcn'], 'formulation', om)
    A, l, u = om.linear_constraints()
    vv, ll, nn, cc = om.get_idx()
    model = [ll['i1']['iflims'], ll['iN']['iflims'], A.toarray(), l, u]
    i['om'] = om
    i['branch'][:, 13] = x['Pf']
    i['lin'] = {'mu': {'l': {'iflims': x['l']}, 'u': {'iflims': x['u']}}}
    e = int2ext(i)
    r = e['if']
    off = toggle_iflims(e, 'off')
    return model, [r['P'], r['mu']['l'], r['mu']['u'], r['map'], r['lims']], [len(off['userfcn'][s]) for s in sorted(off['userfcn'])]


def iflims_ref(ppc, n, x, s):
    base, limit = ppc['baseMVA'], ppc['if']['lims']
    nf = len(s['rows'])
    A = zeros((nf, n['bus'] + n['gen']))
    l, u, P = zeros(nf), zeros(nf), zeros(nf)
    for k in range(nf):
        shift = 0
        for m in s['rows'][k]:          # [branch of the case, internal branch, internal from, internal to, direction]
            row = ppc['branch'][m[0]]
            ratio = row[8] if row[8] != 0 else 1
            b = 1 / row[3] / ratio
            A[k, m[2]] = A[k, m[2]] + m[4] * b
            A[k, m[3]] = A[k, m[3]] - m[4] * b
            shift = shift - m[4] * b * row[9] * 3.141592653589793 / 180
            P[k] = P[k] + m[4] * x['Pf'][m[1]]
        l[k] = limit[k, 1] / base - shift
        u[k] = limit[k, 2] / base - shift
    return [0, nf, A, l, u], [P, x['l'], x['u'], ppc['if']['map'], limit], [0, 0, 0, 0, 0]
