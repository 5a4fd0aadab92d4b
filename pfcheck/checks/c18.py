from ..harness import *
from ..domain import case_valuation
from .c25 import lift
from . import c10
NEED = 60
EXPLANATION = ('Sequences of adding and removing callbacks are interpreted with callbacks that record their calls; the calls made at every stage, '
               'their order and arguments, and what the callbacks of the conversion stages see are compared with the documented behaviour.')
ASSUMPTIONS = ['sequences of additions and removals and the values of arguments range over a list']
A, R = 'add', 'remove'
SEQ = {
    'order': [[A, 'ext2int', 'second'], [A, 'ext2int', 'first'], [A, 'formulation', 'first'], [A, 'printpf', 'second'], [A, 'savecase', 'first']],
    'arguments': [[A, 'int2ext', 'first', 3], [A, 'int2ext', 'second', [4, 5]], [A, 'printpf', 'first', 'name'], [A, 'savecase', 'second', 0],
                  [A, 'formulation', 'second', [1]], [A, 'ext2int', 'first', []]],
    'other object': [[A, 'ext2int', 'first'], [A, 'ext2int', 'third', 7], [A, 'ext2int', 'second'], [A, 'printpf', 'third'], [A, 'printpf', 'first'],
                     [A, 'int2ext', 'third', 2], [A, 'int2ext', 'first', 2]],
    'twice refused': [[A, 'ext2int', 'first', 1], [A, 'ext2int', 'second'], [A, 'ext2int', 'first', 2], [A, 'formulation', 'first']],
    'twice allowed': [[A, 'formulation', 'first', 1], [A, 'formulation', 'second'], [A, 'formulation', 'first', 2, True], [A, 'formulation', 'first', 3, True]],
    'remove last': [[A, 'formulation', 'first', 1], [A, 'formulation', 'second', 5], [A, 'formulation', 'first', 2, True], [R, 'formulation', 'first']],
    'remove in the middle': [[A, 'int2ext', 'first', 1], [A, 'int2ext', 'second', 2], [A, 'int2ext', 'third', 3], [R, 'int2ext', 'second']],
    'remove only one stage': [[A, 'ext2int', 'first'], [A, 'int2ext', 'first'], [A, 'printpf', 'first', 9], [R, 'int2ext', 'first'], [R, 'printpf', 'second']],
    'remove and add': [[A, 'savecase', 'first', 1], [A, 'savecase', 'second', 2], [R, 'savecase', 'first'], [A, 'savecase', 'first', 3], [R, 'savecase', 'second']],
    'remove all': [[A, 'savecase', 'first', 1], [A, 'savecase', 'first', 2, True], [R, 'savecase', 'first'], [R, 'savecase', 'first'], [A, 'printpf', 'second']],
    'none': [],
}


def check(k):
    k.rule('calls', 'at every stage the callbacks that were added and not removed run once, in the order added, each with its argument and with what '
                    'the one before returned')
    k.rule('conversion', 'conversion callbacks run on the internal case, on every conversion')
    for lab, s in SEQ.items():
        def go():
            C, D = k.ctx(), k.ctx()
            v = C.call('spec.callbacks', 'calls', lift(C, s))
            w = D.call('spec.callbacks', 'calls_ref', lift(D, s))
            k.compare('calls', k.where('run_userfcn', 'run_userfcn'), 'calls [%s]' % lab, C, v, D, w, case_valuation)
        k.guarded('calls [%s]' % lab, go)
    for lab in ('mixed', 'isolated'):
        def conv():
            s = c10.S[lab]
            f, _ = c10.facts(s)
            C, D = k.ctx(), k.ctx()
            v = C.call('spec.callbacks', 'conversion', c10.case(C, s))
            w = D.call('spec.callbacks', 'conversion_ref', c10.case(D, s), c10.dct(D, f))
            k.compare('conversion', k.where('ext2int', 'ext2int'), 'conversion [%s]' % lab, C, v, D, w, case_valuation)
        k.guarded('conversion [%s]' % lab, conv)
