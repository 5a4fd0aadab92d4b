NEED = 4
EXPLANATION = 'Abstract interpretation of makeSbus and bustypes; normal forms compared with reference formulas.'
ASSUMPTIONS = ['generators run where their status is positive; bus numbers are internal (0..nb-1)']
from ..domain import case_valuation
from ..harness import *


def lost_ref(s):
    """half of the valuations have no running unit at the reference bus"""
    V = case_valuation(s, nb=4, ng=4)
    if s % 2:
        b, g = V.atoms['bus'], V.atoms['gen']
        for row in g:
            if b[row[0]][1] == 3:
                row[7] = 0
        pv = [i for i in range(4) if b[i][1] != 3]
        b[pv[0]][1] = 2
        g[0][0], g[0][7] = pv[0], 1
    return V


def check(k):
    k.wide = {('bus', 2): (-4, 5), ('bus', 3): (-4, 5), ('gen', 1): (-4, 5), ('gen', 2): (-4, 5), ('gen', 8): (-2, 4)}
    k.rule('injection', 'bus injection = (in-service generation - load) / baseMVA')
    k.ref('injection', 'Sbus', ('makeSbus', 'makeSbus'), ('network', 'sbus'),
          lambda C: [C.sym('baseMVA'), C.table('bus'), C.table('gen')])
    k.rule('bus-types', 'a bus keeps its type only with a running generator; the first PV bus replaces a lost reference')
    k.ref('bus-types', 'ref,pv,pq', ('bustypes', 'bustypes'), ('network', 'bus_types'),
          lambda C: [C.table('bus'), C.table('gen')], vals=lost_ref)
