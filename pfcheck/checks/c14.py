from . import c11
NEED = 100
EXPLANATION = ('runpf with reactive limits enforced is interpreted for scripted sequences of solved operating points (reactive outputs per '
               'round given, everything else symbolic); every solver call (injections, start, bus types) and the final tables are '
               'compared with the documented procedure.')
ASSUMPTIONS = ['one reference bus', 'sequences of limit violations from a list; voltages, loads, real outputs symbolic']


def check(k):
    k.rule('reactive limits', 'units beyond a reactive limit are held at it and their buses solved as load buses until no limit is violated')
    for n, d in c11.LIM.items():
        k.guarded('reactive limits [%s]' % n, lambda: c11.limits(k, n, d))
