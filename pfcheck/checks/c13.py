import ast
import os
from ..harness import *
from ..domain import case_valuation
NEED = 100
EXPLANATION = ('ppoption is interpreted for the default vector, for every single override and for a given base vector, with symbolic '
               'values; every read of an option in the package is collected from the syntax trees and must name an option of the '
               'vector.')
ASSUMPTIONS = ['option readers of the optional third-party solvers (CPLEX, Gurobi, MOSEK, IPOPT) use their own options']
OWN = ('cplex', 'gurobi', 'mosek', 'ipopt')


def keys(tree):
    """(function, key, line, conditional) of every option read"""
    out = []

    def visit(n, fn, tested):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            fn = getattr(n, 'name', fn)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'ppopt' \
                and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            if n.slice.value not in tested:
                out.append((fn, n.slice.value, n.lineno))
        if isinstance(n, (ast.If, ast.IfExp)):
            t = set(tested)
            for x in ast.walk(n.test):
                if isinstance(x, ast.Compare) and isinstance(x.ops[0], ast.In) and isinstance(x.left, ast.Constant):
                    t.add(x.left.value)
            visit(n.test, fn, t)
            for x in n.body if isinstance(n.body, list) else [n.body]:
                visit(x, fn, t)
            for x in n.orelse if isinstance(n.orelse, list) else [n.orelse]:
                visit(x, fn, tested)
            return
        for x in ast.iter_child_nodes(n):
            visit(x, fn, tested)
    visit(tree, '', set())
    return out


def check(k):
    k.rule('defaults', 'every documented option has its documented default')
    k.rule('override', 'an override changes exactly the named option and leaves the given vector and the defaults alone')
    k.rule('known option', 'every option read by a solver or report is part of the vector')
    where = k.where('ppoption', 'ppoption')
    names = [sorted(ast.literal_eval(s.value)) for s in k.prog.mods['spec.options'].tree.body
             if isinstance(s, ast.Assign) and s.targets[0].id == 'DEFAULTS'][0]
    C = k.ctx()
    cell = C.I.cell(C.st, k.guarded('vector', lambda: C.call('ppoption', 'ppoption')))
    have = set(cell.items) if isinstance(cell, DictCell) and not cell.open else None
    for n, x in [(None, None)] + [(n, x) for n in names for x in ('sym', None, '', 0, False)]:
        def go():
            C, R = k.ctx(), k.ctx()
            val = lambda C: C.sym('chosen') if x == 'sym' else Const(x)
            v = C.call('spec.options', 'options', C.sym('value'), C.dict({n: val(C)} if n else {}))
            w = R.call('spec.options', 'options_ref', R.sym('value'), R.dict({n: val(R)} if n else {}))
            k.compare('override' if n else 'defaults', where, 'options with %s = %r' % (n, x), C, v, R, w, case_valuation)
        k.guarded('%s %r' % (n, x), go)
    for m in sorted(k.prog.mods):
        if not m.startswith('pypower.') or any(x in m for x in OWN) or '.t.' in m:
            continue
        for fn, key, line in keys(k.prog.mods[m].tree):
            k.count('option reads')
            lab = '%s reads %s' % (m, key)
            if have is None:
                k.undecided(lab, 'options vector unknown')
            elif key in have:
                k.ok(lab)
            else:
                k.violate('known option', (os.path.relpath(k.prog.mods[m].path, k.prog.root), fn), lab,
                          'option %s is read at line %d but is not in the options vector' % (key, line))
