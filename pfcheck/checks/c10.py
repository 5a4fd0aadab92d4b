from ..harness import *
from ..domain import case_valuation
from .c25 import lift
NEED = 20
EXPLANATION = ('ext2int, int2ext, the field and data converters are interpreted on cases of concrete numbering, status and topology '
               'with symbolic contents and compared with the ordering the documentation states, forwards, backwards and repeated.')
ASSUMPTIONS = ['bus numbers are distinct non-negative integers']
S = {
    # bus numbers and types; gen bus, status; branch from, to, status; area reference bus
    'mixed': dict(bus=[30, 10, 25, 40, 12], type=[1, 3, 4, 2, 1], gbus=[40, 25, 10, 40, 30, 10], gst=[1, 1, -1, 2, 1, 1],
                  f=[10, 30, 25, 40, 12, 12], t=[30, 40, 10, 12, 10, 30], bst=[1, 0, 1, 1, 1, 1], areas=[25, 40], q=True, user='ac'),
    'all in service': dict(bus=[3, 1, 2], type=[3, 1, 2], gbus=[2, 3, 1], gst=[1, 1, 1], f=[1, 3], t=[2, 1], bst=[1, 1], areas=[1], q=False,
                           user=None),
    'consecutive': dict(bus=[0, 1, 2, 3], type=[3, 2, 1, 1], gbus=[1, 0], gst=[1, 1], f=[0, 1, 2], t=[1, 2, 3], bst=[1, 0, 1], areas=None,
                        q=False, user='dc'),
    'isolated': dict(bus=[0, 5, 9, 2], type=[4, 3, 4, 1], gbus=[9, 5, 5, 0, 2], gst=[1, 1, 1, 0, 1], f=[5, 5, 5, 9], t=[0, 2, 9, 2],
                     bst=[1, 1, 1, 1], areas=[0, 9, 5], q=True, user='ac'),
    'two units': dict(bus=[8, 4], type=[1, 3], gbus=[8, 8, 4, 8], gst=[0, 1, 1, 1], f=[4, 4], t=[8, 8], bst=[0, 1], areas=None, q=True, user=None),
}


def facts(s):
    on = [i for i, t in enumerate(s['type']) if t != 4]
    num = {s['bus'][i]: k for k, i in enumerate(on)}
    g = [i for i in range(len(s['gbus'])) if s['gst'][i] > 0 and s['gbus'][i] in num]
    g.sort(key=lambda i: num[s['gbus'][i]])
    l = [i for i in range(len(s['f'])) if s['bst'][i] and s['f'][i] in num and s['t'][i] in num]
    a = [i for i, b in enumerate(s['areas'] or []) if b in num]
    nb, ng = len(s['bus']), len(s['gbus'])
    if s['user'] == 'dc':
        cols = on + [nb + i for i in g]
        n = nb + ng
    else:
        cols = on + [nb + i for i in on] + [2 * nb + i for i in g] + [2 * nb + ng + i for i in g]
        n = 2 * nb + 2 * ng
    cols = cols + [n, n + 1]
    return {'bus': on, 'gen': g, 'gbus': [num[s['gbus'][i]] for i in g], 'branch': l, 'f': [num[s['f'][i]] for i in l],
            't': [num[s['t'][i]] for i in l], 'areas': a, 'abus': [num[s['areas'][i]] for i in a],
            'costs': g + ([ng + i for i in g] if s['q'] else []), 'cols': cols}, n + 2


def case(C, s):
    f, n = facts(s)
    nb, ng, nl = len(s['bus']), len(s['gbus']), len(s['f'])
    d = {'version': Const('2'), 'baseMVA': C.sym('baseMVA'), 'bus': C.ctable('bus', nb, 13, {0: s['bus'], 1: s['type']}),
         'gen': C.ctable('gen', ng, 21, {0: s['gbus'], 7: s['gst']}),
         'branch': C.ctable('branch', nl, 17, {0: s['f'], 1: s['t'], 10: s['bst']}),
         'gencost': C.ctable('gencost', ng * (2 if s['q'] else 1), 7, {})}
    if s['areas'] is not None:
        d['areas'] = C.ctable('areas', len(s['areas']), 2, {1: s['areas']})
    if s['user']:
        d['A'] = C.mat('uA', 2, n, 'f', 'sp')
        d['N'] = C.mat('uN', 1, n, 'f', 'sp')
    return C.dict(d)


def dct(C, f):
    return C.dict({k: lift(C, v) for k, v in f.items()})


def data(C, s):
    nb, ng, nl = len(s['bus']), len(s['gbus']), len(s['f'])
    f, _ = facts(s)
    v = C.dict({'bus': C.vec('vbus', cdim(nb)), 'gen': C.vec('vgen', cdim(ng)), 'branch': C.vec('vbr', cdim(nl))})
    w = C.dict({'bus': C.vec('wbus', cdim(len(f['bus']))), 'gen': C.vec('wgen', cdim(len(f['gen']))), 'branch': C.vec('wbr', cdim(len(f['branch'])))})
    return [v, w, C.mat('vnb', 2, nb), C.vec('vall', cdim(nb + ng + nl + 2)), C.mat('vM', 2, ng + nb + 1, 'f', 'sp')]


def check(k):
    k.rule('internal', 'internal tables hold the connected equipment, buses numbered consecutively, units sorted by bus, other data reordered alike')
    k.rule('external', 'converting back restores every row, the original numbers and order, with the solved values of connected equipment')
    k.rule('data', 'user data ordered by bus, unit or branch converts both ways along either dimension, alone or in blocks')
    k.rule('numbers', 'bus numbers convert to consecutive numbers and back')
    for n, s in S.items():
        def pair(rule, f, mod, args, more=lambda R: []):
            def go():
                C, R = k.ctx(), k.ctx()
                v = C.call('spec.indexing', f, *args(C))
                w = R.call('spec.indexing', f + '_ref', *(args(R) + more(R)))
                k.compare(rule, k.where(mod, mod if mod not in ('numbers',) else 'ext2int1'), '%s [%s]' % (f, n), C, v, R, w, case_valuation)
            k.guarded('%s [%s]' % (f, n), go)
        f, _ = facts(s)
        fd = lambda R: [dct(R, f)]
        pair('internal', 'internal', 'ext2int', lambda C: [case(C, s)], fd)
        pair('external', 'external', 'int2ext', lambda C: [case(C, s)], fd)
        sizes = {'bus': len(s['bus']), 'gen': len(s['gbus']), 'branch': len(s['f'])}
        pair('data', 'extra_data', 'e2i_data', lambda C: [case(C, s)] + data(C, s), lambda R: [dct(R, f), dct(R, sizes)])
        pair('data', 'fields', 'e2i_field', lambda C: [case(C, s)] + [data(C, s)[i] for i in (0, 2)], fd)
        if s['areas'] is not None:
            num = {b: i for i, b in enumerate(s['bus'])}
            m = {'bus': range(len(s['bus'])), 'gen': [num[b] for b in s['gbus']], 'f': [num[b] for b in s['f']], 't': [num[b] for b in s['t']],
                 'areas': [num[b] for b in s['areas']]}
            pair('numbers', 'numbers', 'ext2int', lambda C: [case(C, s)], lambda R: [dct(R, {a: list(b) for a, b in m.items()})])
