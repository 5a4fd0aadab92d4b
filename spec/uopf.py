def solve(uopf, case, opt):
    r = uopf(case, opt)
    return r['f'], r['success'], r['start'], r['mask'], r['gen'][:, [1, 2, 7, 9]], r['bus'][:, 7], sorted(r)


def solve_ref(given, vm0, out, off, on, units, keys, rank, ok, mu, base, pg, vm):
    """off: units out of service in the case; on: statuses once the minimum outputs fit; units: those that may be shut down"""
    ng = len(on)
    mask = 0
    for i in range(ng):
        mask = mask + 2 ** i * on[i]
    best, start = mask, vm0[0]
    searching = True
    while searching:
        searching = False
        stage = best
        for k in units:
            if (stage // 2 ** k) % 2 == 1 and mu[stage][k] > 0:
                trial = stage - 2 ** k
                if ok[trial] and rank[trial] < rank[best]:
                    best = trial
                    start = vm[stage, 0]
                    searching = True
    for i in range(ng):
        if (best // 2 ** i) % 2 == 1:
            out[i, 0] = pg[best, i]
            out[i, 1] = -pg[best, i]
        elif i in off:
            out[i, 0] = given[i, 0]
            out[i, 1] = given[i, 1]
        else:
            out[i, 0] = 0
            out[i, 1] = 0
            out[i, 2] = 0
    return base + rank[best], ok[best], start, best, out, vm[best, :], keys
