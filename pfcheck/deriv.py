"""Exact derivatives of reference functions, computed symbolically."""
from . import poly as P
from .values import Arr
from .harness import *


def jac(f, wrt, dim, name='V'):
    """matrix of d f_i / d wrt_k; wrt is 'a' (angle) or 'm' (magnitude) of polar vector `name`,
    or None for the real vector `name`"""
    if wrt is None:
        return Arr((f.dims[0], dim), lambda i, k: P.diff(f.at(i), P.d_atom(name, P.flat(k))), f.dtype)
    return Arr((f.dims[0], dim), lambda i, k: P.diff(f.at(i), P.d_polar(name, wrt, P.flat(k))), 'c')


def hess(s, w1, w2, d1, d2, name='V'):
    """second derivatives of scalar s"""
    def dd(wrt, k):
        return P.d_polar(name, wrt, P.flat(k)) if wrt else P.d_atom(name, P.flat(k))
    return Arr((d1, d2), lambda i, k: P.diff(P.diff(s.at(), dd(w1, i)), dd(w2, k)), 'c')


def weighted(f, lam):
    """sum_i lam_i f_i"""
    d = f.dims[0]
    v = P.fresh()
    return Arr((), lambda: P.sum_over(v, d, f.at(P.ixvar(v)) * lam.at(P.ixvar(v))), f.dtype)


def split(v, n):
    if not isinstance(v, Tup) or len(v.items) != n:
        return None
    return v.items
