from ..harness import *
from ..domain import case_valuation
NEED = 30
EXPLANATION = ('opf_args and opf_args2 are interpreted for every documented calling form with symbolic tables, user constraints, costs, '
               'variables, callbacks and options; each form must describe the same problem as the corresponding case dict.')
ASSUMPTIONS = ['the case is given as tables or as a dict, not by file name']


def args(C, full=True, dtype='f'):
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA')}
    for t, c in (('bus', 13), ('gen', 21), ('branch', 13), ('gencost', 7), ('areas', 2)):
        P.declare('t' + t, real=True)
        n = cdim(2)
        d[t] = C.arr(Arr((n, cdim(c)), lambda i, j, t=t: P.atom('t' + t, P.flat(i), P.flat(j)), dtype))
    sp = lambda n, r, c: C.mat(n, r, c, 'f', 'sp')
    u = [sp('uA', 2, 9), C.vec('ul', cdim(2)), C.vec('uu', cdim(2)), sp('uN', 3, 9), C.mat('ufp', 3, 4), sp('uH', 3, 3),
         C.vec('uCw', cdim(3)), C.vec('uz0', cdim(1)), C.vec('uzl', cdim(1)), C.vec('uzu', cdim(1))]
    fcn = C.dict({'formulation': C.I.newlist(C.st, [])})
    opt = C.dict({'PF_DC': C.sym('oDC'), 'OPF_ALG': C.sym('oALG')})
    a = [C.dict(d)]
    if full:
        a += [opt, fcn]
    return a + [Tup(u)]


def check(k):
    k.rule('forms', 'every calling form yields the tables, user constraints, user costs, limits, callbacks and options it was given')
    k.rule('dict', 'the assembled case dict carries what the call gave and the caller\'s dict keeps its own fields only')
    for f, fn in (('case_forms', 'opf_args'), ('matrix_forms', 'opf_args'), ('default_forms', 'opf_args'), ('dict_forms', 'opf_args2')):
        def go():
            C, R = k.ctx(), k.ctx()
            full = f != 'default_forms'
            v = C.call('spec.opfargs', f, *args(C, full))
            w = R.call('spec.opfargs', f + '_ref', *args(R, full))
            k.compare('dict' if f == 'dict_forms' else 'forms', k.where('opf_args', fn), f.replace('_', ' '), C, v, R, w, case_valuation)
        k.guarded(f, go)
    k.rule('precision', 'results written into the tables keep their value, also when the tables were given as integers')
    for m in (False, True):
        def whole():
            C, R = k.ctx(), k.ctx()
            v = C.call('spec.opfargs', 'stored', *(args(C, dtype='i')[:2] + [C.sym('xres'), Const(m)]))
            w = R.call('spec.opfargs', 'stored_ref', *(args(R)[:2] + [R.sym('xres'), Const(m)]))
            k.compare('precision', k.where('opf_args', 'opf_args'), 'integer tables, %s' % ('separate' if m else 'dict'), C, v, R, w, case_valuation)
        k.guarded('precision %s' % m, whole)
