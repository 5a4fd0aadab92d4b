# Every calling form of the OPF describes the same problem.
from numpy import array
from pypower.opf_args import opf_args, opf_args2


def with_fields(ppc, extra):
    d = ppc.copy()
    for k in extra:
        d[k] = extra[k]
    return d


def case_forms(ppc, opt, fcn, u):
    """u: A, l, u, N, fparm, H, Cw, z0, zl, zu"""
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    every = with_fields(ppc, {'A': A, 'l': l, 'u': h, 'N': N, 'fparm': fparm, 'H': H, 'Cw': Cw, 'z0': z0, 'zl': zl, 'zu': zu,
                              'userfcn': fcn})
    return [named(opf_args(ppc, opt)), named(opf_args(ppc, fcn, opt)), named(opf_args(ppc, A, l, h, opt)),
            named(opf_args(ppc, A, l, h, opt, N, fparm, H, Cw)),
            named(opf_args(ppc, A, l, h, opt, N, fparm, H, Cw, z0, zl, zu)), named(opf_args(every, opt)),
            named(opf_args(every, A + A, l + l, h + h, opt)),
            named(opf_args(every, A + A, l + l, h + h, opt, N + N, fparm + 1, H + H, Cw + 1, z0 + 1, zl + 1, zu + 1))]


def matrix_forms(ppc, opt, fcn, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    m = [ppc[k] for k in ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost']]
    return [named(opf_args(*(m + [opt]))), named(opf_args(*(m + [fcn, opt]))), named(opf_args(*(m + [A, l, h, opt]))),
            named(opf_args(*(m + [A, l, h, opt, N, fparm, H, Cw]))),
            named(opf_args(*(m + [A, l, h, opt, N, fparm, H, Cw, z0, zl, zu])))]


def default_forms(ppc, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    m = [ppc[k] for k in ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost']]
    return [named(opf_args(ppc))[:-1], named(opf_args(ppc, A, l, h))[:-1], named(opf_args(*m))[:-1], named(opf_args(*(m + [A, l, h])))[:-1]]


def empty(x):
    """None and empty arrays both mean: not given"""
    if x is None:
        return None
    if len(x) == 0:
        return None
    return x


def named(r):
    baseMVA, bus, gen, branch, gencost, A, l, u, opt, N, fparm, H, Cw, z0, zl, zu, fcn, areas = r
    return [baseMVA, bus, gen, branch, gencost, A, empty(l), empty(u), N, empty(fparm), H, empty(Cw), empty(z0), empty(zl), empty(zu),
            empty(fcn), empty(areas), opt]


def expect(ppc, A, l, u, N, fparm, H, Cw, z0, zl, zu, fcn, opt):
    return [ppc['baseMVA'], ppc['bus'], ppc['gen'], ppc['branch'], ppc['gencost'], A, l, u, N, fparm, H, Cw, z0, zl, zu, fcn,
            ppc['areas'], opt]


def case_forms_ref(ppc, opt, fcn, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    n = None
    w = (N, fparm, H, Cw)
    z = (z0, zl, zu)
    return [expect(ppc, n, n, n, n, n, n, n, n, n, n, n, opt), expect(ppc, n, n, n, n, n, n, n, n, n, n, fcn, opt),
            expect(ppc, A, l, h, n, n, n, n, n, n, n, n, opt), expect(ppc, A, l, h, *w, n, n, n, n, opt),
            expect(ppc, A, l, h, *w, *z, n, opt), expect(ppc, A, l, h, *w, *z, fcn, opt),
            expect(ppc, A + A, l + l, h + h, *w, *z, fcn, opt),
            expect(ppc, A + A, l + l, h + h, N + N, fparm + 1, H + H, Cw + 1, z0 + 1, zl + 1, zu + 1, fcn, opt)]


def matrix_forms_ref(ppc, opt, fcn, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    n = None
    return [expect(ppc, n, n, n, n, n, n, n, n, n, n, n, opt), expect(ppc, n, n, n, n, n, n, n, n, n, n, fcn, opt),
            expect(ppc, A, l, h, n, n, n, n, n, n, n, n, opt), expect(ppc, A, l, h, N, fparm, H, Cw, n, n, n, n, opt),
            expect(ppc, A, l, h, N, fparm, H, Cw, z0, zl, zu, n, opt)]


def default_forms_ref(ppc, u):
    A, l, h = u[0], u[1], u[2]
    n = None
    plain = expect(ppc, n, n, n, n, n, n, n, n, n, n, n, n)[:-1]
    lin = expect(ppc, A, l, h, n, n, n, n, n, n, n, n, n)[:-1]
    return [plain, lin, plain, lin]


# -- the case dict used by the rest of the OPF
FIELDS = ['A', 'l', 'u', 'N', 'fparm', 'H', 'Cw', 'z0', 'zl', 'zu', 'userfcn', 'areas', 'baseMVA', 'bus', 'gen', 'branch', 'gencost',
          'reserves']


def packed(r):
    d, opt = r
    out = []
    for k in FIELDS:
        out.append(d[k] if k in d else None)
    return out + [opt]


def dict_forms(ppc, opt, fcn, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    mine = with_fields(ppc, {'reserves': 7})
    m = [ppc[k] for k in ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost']]
    out = [packed(opf_args2(mine, opt)), packed(opf_args2(mine, A, l, h, opt)),
           packed(opf_args2(mine, A, l, h, opt, N, fparm, H, Cw, z0, zl, zu)), packed(opf_args2(mine, fcn, opt)),
           packed(opf_args2(mine, opt)), packed(opf_args2(*(m + [A, l, h, opt, N, fparm, H, Cw, z0, zl, zu]))),
           packed(opf_args2(*(m + [fcn, opt])))]
    return out + [packed((mine, None))]


def pack(ppc, A, l, u, N, fparm, H, Cw, z0, zl, zu, fcn, res, opt):
    return [A, l, u, N, fparm, H, Cw, z0, zl, zu, fcn, ppc['areas'], ppc['baseMVA'], ppc['bus'], ppc['gen'], ppc['branch'],
            ppc['gencost'], res, opt]


def dict_forms_ref(ppc, opt, fcn, u):
    A, l, h, N, fparm, H, Cw, z0, zl, zu = u
    n = None
    plain = pack(ppc, n, n, n, n, n, n, n, n, n, n, n, 7, opt)
    return [plain, pack(ppc, A, l, h, n, n, n, n, n, n, n, n, 7, opt), pack(ppc, *u, n, 7, opt), pack(ppc, n, n, n, n, n, n, n, n, n, n, fcn, 7, opt),
            plain, pack(ppc, *u, n, n, opt), pack(ppc, n, n, n, n, n, n, n, n, n, n, fcn, n, opt),
            pack(ppc, n, n, n, n, n, n, n, n, n, n, n, 7, n)]


def stored(ppc, opt, x, matrices):
    """numbers written into the tables of the assembled problem"""
    if matrices:
        r = opf_args(*([ppc[k] for k in ['baseMVA', 'bus', 'gen', 'branch', 'areas', 'gencost']] + [opt]))
    else:
        r = opf_args(ppc, opt)
    out = []
    for t in r[1:5]:
        t[0, 1] = x
        t[1, :] = x
        out.append(t)
    return out


def stored_ref(ppc, opt, x, matrices):
    out = []
    for k in ['bus', 'gen', 'branch', 'gencost']:
        t = 1 * ppc[k]
        t[0, 1] = x
        t[1, :] = x
        out.append(t)
    return out
