# The options vector: names and defaults of the user's manual
from pypower.ppoption import ppoption

DEFAULTS = {
    'PF_ALG': 1, 'PF_TOL': 1e-8, 'PF_MAX_IT': 10, 'PF_MAX_IT_FD': 30, 'PF_MAX_IT_GS': 1000, 'ENFORCE_Q_LIMS': False,
    'PF_DC': False, 'PF_LIN_SOLVER_NR': '',
    'CPF_PARAMETERIZATION': 3, 'CPF_STOP_AT': 'NOSE', 'CPF_STEP': 0.05, 'CPF_ADAPT_STEP': False, 'CPF_ERROR_TOL': 1e-3,
    'CPF_STEP_MIN': 1e-4, 'CPF_STEP_MAX': 0.2, 'CPF_PLOT_LEVEL': 0, 'CPF_PLOT_BUS': '', 'CPF_USER_CALLBACK': '',
    'CPF_USER_CALLBACK_ARGS': '',
    'OPF_ALG': 0, 'OPF_VIOLATION': 5e-6, 'OPF_FLOW_LIM': 0, 'OPF_IGNORE_ANG_LIM': False, 'OPF_ALG_DC': 0,
    'VERBOSE': 1, 'OUT_ALL': -1, 'OUT_SYS_SUM': True, 'OUT_AREA_SUM': False, 'OUT_BUS': True, 'OUT_BRANCH': True,
    'OUT_GEN': False, 'OUT_ALL_LIM': -1, 'OUT_V_LIM': 1, 'OUT_LINE_LIM': 1, 'OUT_PG_LIM': 1, 'OUT_QG_LIM': 1,
    'RETURN_RAW_DER': 0,
    'PDIPM_FEASTOL': 0, 'PDIPM_GRADTOL': 1e-6, 'PDIPM_COMPTOL': 1e-6, 'PDIPM_COSTTOL': 1e-6, 'PDIPM_MAX_IT': 150,
    'SCPDIPM_RED_IT': 20,
}
NAMES = sorted(DEFAULTS)


def values(o):
    return [o[n] if n in o else None for n in NAMES]


def options(v, key):
    first = ppoption()
    key = dict(key)
    changed = ppoption(None, **key)
    first['PF_TOL'] = v                      # the caller does with its vector as it likes
    again = ppoption()
    base = {'PF_ALG': 2 * v, 'EXTRA': v}
    derived = ppoption(base, PF_TOL=3 * v, PF_ALG=v)
    plain = ppoption(base)
    plain['PF_DC'] = v
    own = ppoption(first, VERBOSE=v)
    return (values(changed), values(again), derived['PF_ALG'], derived['PF_TOL'], derived['EXTRA'], sorted(derived), sorted(base),
            base['PF_ALG'], values(own), values(first), sorted(own) == sorted(first), plain['PF_ALG'])


def options_ref(v, key):
    d = [key[n] if n in key else DEFAULTS[n] for n in NAMES]
    first = [v if n == 'PF_TOL' else DEFAULTS[n] for n in NAMES]
    own = [v if n in ('PF_TOL', 'VERBOSE') else DEFAULTS[n] for n in NAMES]
    return (d, [DEFAULTS[n] for n in NAMES], v, 3 * v, v, ['EXTRA', 'PF_ALG', 'PF_TOL'], ['EXTRA', 'PF_ALG'], 2 * v, own, first, True,
            2 * v)


def every(names):
    return sorted(ppoption())
