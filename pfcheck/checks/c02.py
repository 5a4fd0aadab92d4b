from ..domain import connected, case_valuation
from ..harness import *
NEED = 14
EXPLANATION = ('Abstract interpretation of makeBdc, makeB, makePTDF, makeLODF and dcpf; normal forms of every output '
               'entry compared with reference formulas of the dc network model.')
ASSUMPTIONS = ['branch status is 0 or 1; bus numbers are internal (0..nb-1)', 'linear solves are treated as exact']


def bt(C):
    return [C.sym('baseMVA'), C.table('bus'), C.table('branch')]


def check(k):
    k.rule('dc-model', 'dc matrices and shift injections equal b = status/(x*tap) based reference formulas')
    k.ref('dc-model', 'Bbus,Bf,Pbusinj,Pfinj', ('makeBdc', 'makeBdc'), ('network', 'dcmatrices'), bt)
    k.rule('fdpf-matrices', "B' and B'' equal the reference definition for the XB and BX variants")
    for alg in (2, 3):
        k.ref('fdpf-matrices', 'Bp,Bpp alg=%d' % alg, ('makeB', 'makeB'), ('network', 'fdpf_matrices'),
              lambda C: bt(C) + [Const(alg)])
    k.rule('ptdf', 'PTDF columns are the branch flows of a unit injection withdrawn at the slack')
    k.ref('ptdf', 'PTDF default slack', ('makePTDF', 'makePTDF'), ('network', 'ptdf_default'), bt, vals=connected)
    k.ref('ptdf', 'PTDF slack bus', ('makePTDF', 'makePTDF'), ('network', 'ptdf_slack'),
          lambda C: bt(C) + [C.sym('slackbus', 'i')], vals=lambda s: with_slack(s))
    k.ref('ptdf', 'PTDF slack weights', ('makePTDF', 'makePTDF'), ('network', 'ptdf_weights'),
          lambda C: bt(C) + [C.vec('w', 'nb', pos=True)], vals=connected)
    k.ref('ptdf', 'PTDF slack matrix', ('makePTDF', 'makePTDF'), ('network', 'ptdf_matrix'),
          lambda C: bt(C) + [C.mat('M', 'nb', 'nb')], vals=connected)
    k.rule('lodf', 'LODF[l,k] = D[l,k]/(1-D[k,k]) with D the transfer flows, -1 on the diagonal')
    k.ref('lodf', 'LODF', ('makeLODF', 'makeLODF'), ('network', 'lodf'), lambda C: [C.table('branch'), C.mat('H', 'nl', 'nb')])
    k.rule('dc-solve', 'dc angles solve the reduced system; reference angles are kept')
    k.ref('dc-solve', 'Va', ('dcpf', 'dcpf'), ('network', 'dcpf'),
          lambda C: [C.mat('Bm', 'nb', 'nb', kind='sp'), C.vec('Pbus', 'nb'), C.vec('Va0', 'nb'), C.vec('ref', 1, 'i'),
                     C.vec('pv', 'npv', 'i'), C.vec('pq', 'npq', 'i')])


def with_slack(s):
    V = connected(s)
    V.atoms['slackbus'] = lambda: s % V.sizes['nb']
    return V
