# Power and current functions whose derivatives the code states.
from numpy import conj


def bus_power(Ybus, V):
    return V * conj(Ybus @ V)


def end_power(C, Y, V):
    return (C @ V) * conj(Y @ V)


def branch_power(end, Y, V):
    return V[end] * conj(Y @ V)


def current(Y, V):
    return Y @ V


def sqmag(s):
    return s.real ** 2 + s.imag ** 2
