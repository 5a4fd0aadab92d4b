# User callbacks: adding, removing and running them.
from pypower.add_userfcn import add_userfcn
from pypower.remove_userfcn import remove_userfcn
from pypower.run_userfcn import run_userfcn
from pypower.ext2int import ext2int
from pypower.int2ext import int2ext

STAGES = ['ext2int', 'formulation', 'int2ext', 'printpf', 'savecase']


def first(c, *rest):
    c['log'].append(['first'] + list(rest))
    return c


def second(c, *rest):
    c['log'].append(['second'] + list(rest))
    return c


def third(c, *rest):
    """returns another object than it was given"""
    d = dict(c)
    d['log'] = c['log'] + [['third'] + list(rest)]
    return d


def pick(name):
    return first if name == 'first' else second if name == 'second' else third


def apply(steps):
    c = {'log': []}
    for s in steps:
        if s[0] == 'add':
            if len(s) == 3:
                r = add_userfcn(c, s[1], pick(s[2]))
            elif len(s) == 4:
                r = add_userfcn(c, s[1], pick(s[2]), s[3])
            else:
                r = add_userfcn(c, s[1], pick(s[2]), s[3], s[4])
        else:
            r = remove_userfcn(c, s[1], pick(s[2]))
        c = r
    return c


def calls(steps):
    c = apply(steps)
    out = []
    for s in STAGES:
        r = {'log': []}
        if 'userfcn' in c:
            r = run_userfcn(c['userfcn'], s, r) if s in STAGES[:3] else run_userfcn(c['userfcn'], s, r, 'fd', 'extra')
        out.append(r['log'])
    return out


def calls_ref(steps):
    have = {s: [] for s in STAGES}
    for s in steps:
        l = have[s[1]]
        if s[0] == 'add':
            multiple = len(s) > 4 and s[4]
            if multiple or s[2] not in [f for f, a in l]:
                l.append((s[2], s[3] if len(s) > 3 else []))
        else:
            for k in range(len(l) - 1, -1, -1):
                if l[k][0] == s[2]:
                    del l[k]
                    break
    out = []
    for s in STAGES:
        out.append([[f, a] if s in STAGES[:3] else [f, 'fd', 'extra', a] for f, a in have[s]])
    return out


def look(c, tag):
    c['seen'] = c['seen'] + [[tag, c['order']['state'], c['bus'][:, 0], c['gen'][:, 0], c['branch'][:, 0], len(c['gen'])]]
    return c


def conversion(ppc):
    """what the callbacks see when the ordering of a case is converted, twice"""
    ppc['seen'] = []
    c = add_userfcn(ppc, 'ext2int', look, 'in')
    c = add_userfcn(c, 'int2ext', look, 'out')
    i = ext2int(c)
    a = i['seen']
    e = int2ext(i)
    j = ext2int(e)
    f = int2ext(j)
    return a, e['seen'], f['seen']


def conversion_ref(ppc, f):
    def row(tag):
        return [tag, 'i', list(range(len(f['bus']))), f['gbus'], f['f'], len(f['gen'])]
    return [row('in')], [row('in'), row('out')], [row('in'), row('out'), row('in'), row('out')]
