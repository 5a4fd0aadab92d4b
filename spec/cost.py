# Documented generator cost functions.
from numpy import array, where


def polynomial(row, p):
    n = int(row[3])
    f = 0
    for k in range(n):
        f = f + row[4 + k] * p ** (n - 1 - k)
    return f


def derivative(row, p, der):
    n = int(row[3])
    f = 0
    for k in range(n):
        e = n - 1 - k
        w = 1
        for d in range(der):
            w = w * (e - d)
        if e >= der:
            f = f + w * row[4 + k] * p ** (e - der)
    return f


def segment(row, k, p):
    x1, y1, x2, y2 = row[4 + 2 * k], row[5 + 2 * k], row[6 + 2 * k], row[7 + 2 * k]
    return (y2 - y1) / (x2 - x1) * p + y1 - (y2 - y1) / (x2 - x1) * x1


def piecewise(row, p):
    n = int(row[3])
    f = segment(row, n - 2, p)
    for k in range(n - 2):
        j = n - 3 - k
        f = where(p < row[4 + 2 * (j + 1)], segment(row, j, p), f)
    return f


def cost(row, p):
    if row[0] == 1:
        return piecewise(row, p)
    return polynomial(row, p)


def total(gencost, P):
    return array([cost(gencost[i], P[i]) for i in range(gencost.shape[0])])


def total_scaled(gencost, P, a, b, c, d):
    """a * F(b * P + c) + d"""
    return array([a * cost(gencost[i], b * P[i] + c) + d for i in range(gencost.shape[0])])


def derivatives(gencost, P, der):
    return array([derivative(gencost[i], P[i], der) for i in range(gencost.shape[0])])


def split(gencost, ng, on):
    p = gencost[on, :]
    if gencost.shape[0] > ng:
        return p, gencost[[i + ng for i in on], :]
    return p, array([])


def to_piecewise(gencost, Pmin, Pmax, npts, low):
    """points and values of the piecewise linear cost; low[i]: Pmin > 0, one extra point at zero"""
    rows = []
    for i in range(gencost.shape[0]):
        n = npts - 1 if low[i] else npts
        xs = [0] if low[i] else []
        for k in range(n):
            xs.append(Pmin[i] + (Pmax[i] - Pmin[i]) / (n - 1) * k)
        row = [1, gencost[i, 1], gencost[i, 2], npts]
        for x in xs:
            row.append(x)
            row.append(polynomial(gencost[i], x))
        rows.append(row)
    return array(rows)
