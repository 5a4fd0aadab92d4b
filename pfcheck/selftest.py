"""Quick positive self-tests of the analyser itself (run by setup)."""
import sys
from . import poly as P
from .harness import *
from .compare import Comparer, DIFF, EQ
from .domain import case_valuation

SRC = {'good': 'from numpy import *\n', }


def main():
    prog = load_program()
    C, R = Ctx(prog), Ctx(prog)
    a = C.vec('a', 'nb')
    b = C.vec('b', 'nb')
    x = C.I.arr_of(C.st, a)
    y = C.I.arr_of(C.st, b)
    good = Arr(x.dims, lambda i: (x.at(i) + y.at(i)) * (x.at(i) - y.at(i)))
    same = Arr(x.dims, lambda i: x.at(i) * x.at(i) - y.at(i) * y.at(i))
    bad = Arr(x.dims, lambda i: x.at(i) * x.at(i) + y.at(i) * y.at(i))
    cmp = Comparer(case_valuation)
    assert cmp.arrays(good, same).status == EQ
    assert cmp.arrays(good, bad).status == DIFF
    print('selftest ok')
    return 0


if __name__ == '__main__':
    sys.exit(main())
