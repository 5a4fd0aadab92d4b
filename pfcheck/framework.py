"""Running a check: obligations, verdicts, evidence, known findings."""
import json
import os
import sys
import time
import traceback
from .harness import *       # noqa
from .compare import Comparer, Result, EQ, DIFF, UND, strip
from .domain import case_valuation
from .interp import Budget, RaiseOut
from . import poly as P

EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Violation(object):
    def __init__(self, rule, file, func, construct, text, detail=None):
        self.rule, self.file, self.func, self.construct, self.text = rule, file, func, construct, text
        self.detail = detail or {}

    def key(self):
        return '%s|%s|%s|%s' % (self.rule, self.file, self.func, self.construct)


class K(object):
    def __init__(self, prop, tier, seed, prog):
        self.prop, self.tier, self.seed, self.prog = prop, tier, seed, prog
        self.obl = []           # (label, status, why)
        self.viol = []
        self.functions = set()
        self.rules = {}
        self.counts = {}
        self.notes = []
        self.ncmp = {}
        self.contexts = []
        self.t0 = time.time()

    # -- bookkeeping
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, label, rule='', why=''):
        self.obl.append((label, EQ, why))

    def undecided(self, label, why):
        self.obl.append((label, UND, why))

    def violate(self, rule, where, construct, text, detail=None, label=None):
        file, func = where
        self.obl.append((label or construct, DIFF, text))
        v = Violation(rule, file, func, construct, text, detail)
        if v.key() not in [x.key() for x in self.viol]:
            self.viol.append(v)

    def where(self, mod, func):
        mod = mod if '.' in mod else 'pypower.' + mod
        m = self.prog.mods.get(mod)
        if m is None:
            raise AnchorLost(mod)
        return (os.path.relpath(m.path, self.prog.root), func)

    def line(self, mod, func):
        mod = mod if '.' in mod else 'pypower.' + mod
        n = self.prog.funcdef(mod, func)
        return n.lineno if n is not None else 0

    # -- contexts
    def ctx(self, overrides=None, max_steps=600000):
        C = Ctx(self.prog, max_steps, overrides)
        C.I.finite = self.finite
        self.contexts.append(C)
        return C

    wide = {}
    finite = True
    enough = 12       # input valuations on which two formulas must agree

    def comparer(self, vals):
        k = id(vals)
        if k not in self.ncmp:
            n = 80 if self.thorough else 2 * self.enough
            self.ncmp[k] = (Comparer(lambda s: vals(s + 100 * self.seed), n=n, wide=self.wide, enough=self.enough), vals)
        return self.ncmp[k][0]

    # -- reference comparison
    def record(self, rule, where, label, pairs):
        for path, r in pairs:
            lab = '%s: %s' % (label, path)
            self.count('formulas compared')
            if r.status == EQ:
                self.obl.append((lab, EQ, r.why))
            elif r.status == UND:
                self.obl.append((lab, UND, r.why))
            else:
                self.violate(rule, where, '%s %s' % (label, path),
                             '%s: %s' % (path, r.why), r.detail, label=lab)

    def compare(self, rule, where, label, C, v, R, w, vals=case_valuation, ordered=True):
        """C/v: context and value of the code, R/w: of the reference"""
        cmp = self.comparer(vals)
        try:
            pairs = cmp.values(C.I, C.st, v, R.I, R.st, w, label, ordered=ordered)
        except (P.TooBig, Budget) as e:
            pairs = [(label, Result(UND, 'too large: %r' % e))]
        self.record(rule, where, label.split('[')[0] if False else '', pairs) if False else None
        for path, r in pairs:
            self.count('formulas compared')
            if r.status == EQ:
                self.obl.append((path, EQ, r.why))
            elif r.status == UND:
                self.obl.append((path, UND, r.why))
            else:
                self.violate(rule, where, path, '%s: %s' % (path, r.why), r.detail, label=path)

    # -- refused inputs
    def refused(self, C):
        """condition under which the code refuses its input (a raise statement is reached)"""
        t = ZERO
        for g, mod, line in C.I.refusals:
            t = t + g
        return P.ne(t)

    def refusal(self, rule, where, label, C, R, vals=case_valuation):
        self.compare(rule, where, label, C, scalar(self.refused(C), 'b'), R, scalar(self.refused(R), 'b'), vals)

    def accepted(self, R, vals=case_valuation):
        """valuations that the reference does not refuse"""
        cond = self.refused(R)
        if cond.const() == 0:
            return vals

        def f(seed):
            for t in range(40):
                V = vals(seed + 1000 * t)
                if not V.ev(cond, {}):
                    break
            return V
        return f

    def guarded(self, label, f):
        """run an extraction; analysis limits make the obligation undecided"""
        try:
            return f()
        except RaiseOut:
            self.undecided(label, 'every path raises')
        except (Budget, P.TooBig) as e:
            self.undecided(label, 'analysis limit: %r' % (e,))
        except AnchorLost:
            raise
        except RecursionError:
            self.undecided(label, 'recursion')
        except Exception as e:          # engine limitation on this source
            if os.environ.get('PFCHECK_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided(label, 'engine: %r at %s:%d' % (e, os.path.basename(tb.filename), tb.lineno))
        return None

    def ref(self, rule, label, code, spec, args, vals=case_valuation, pick=None, specargs=None,
            overrides=None, ordered=True, kw=None, post=None):
        """compare code function with reference function on the same inputs"""
        where = self.where(*code)

        def go():
            C, R = self.ctx(overrides), self.ctx(overrides)
            C.func(*code)
            a = args(C)
            v = C.call(code[0], code[1], *a, **(kw(C) if kw else {}))
            if post:
                v = post(C, v, a)
            b = (specargs or args)(R)
            w = R.call('spec.' + spec[0], spec[1], *b)
            if pick is not None:
                v = pick(C, v)
            self.compare(rule, where, label, C, v, R, w, vals, ordered)
            return True
        return self.guarded(label, go)

    # -- constructs that always raise
    RAISES = {'undefined', 'missing-arg', 'extra-arg', 'unpack', 'len-scalar', 'not-callable', 'range-float', 'float-index',
              'bitop-float', 'array-truth', 'builtin-any-2d', 'shape', 'index-range', 'keyerror', 'raise', 'type-error', 'no-attribute'}

    def raising(self):
        """constructs reached on some input of the explored domain that raise a runtime error"""
        for C in self.contexts:
            for (kind, mod, line, func, detail, guard) in C.I.events:
                if kind not in self.RAISES or mod.startswith('spec.'):
                    continue
                g = guard.const() if guard is not None else 1
                if g is None or not g:
                    continue
                m = self.prog.mods.get(mod)
                f = os.path.relpath(m.path, self.prog.root) if m else mod
                self.violate('completes', (f, func), '%s in %s: %s' % (kind, func, detail),
                             'always raises for the inputs analysed: %s: %s' % (kind, detail), {'line': line},
                             label='%s: no raising construct' % func)

    # -- finish
    def finish(self, need, level='other', explanation='', assumptions=()):
        for C in self.contexts:
            self.functions |= set(f for f in C.I.called if not f.startswith('spec.'))
        known = load_known(self.prop)
        self.rules.setdefault('completes', 'no construct that is certain to raise on the inputs analysed')
        self.raising()
        eq = [o for o in self.obl if o[1] == EQ]
        und = [o for o in self.obl if o[1] == UND]
        new = []
        for v in self.viol:
            kf = [k for k in known if k[0] == v.key()]
            if kf:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, kf[0][1]))
            else:
                new.append(v)
        rep = None
        if new:
            os.makedirs(EVID, exist_ok=True)
            rep = os.path.join(EVID, self.prop + '.violation.txt')
            with open(rep, 'w') as f:
                for v in new:
                    f.write('rule      %s\n          %s\nfile      %s\nfunction  %s\nconstruct %s\nviolation %s\n' % (
                        v.rule, self.rules.get(v.rule, ''), v.file, v.func, v.construct, v.text))
                    for k in v.detail:
                        d = v.detail[k]
                        if isinstance(d, list):
                            f.write('  %s:\n' % k)
                            for x in d:
                                f.write('      %s\n' % (x,))
                        else:
                            f.write('  %s: %s\n' % (k, d))
                    f.write('\n')
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': dict({
                'explanation': explanation,
                'rules': self.rules,
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions),
                'obligations': len(self.obl),
                'obligations_discharged': len(eq),
                'obligations_undecided': len(und),
                'undecided': [{'obligation': o[0], 'why': o[2]} for o in und][:60],
                'discharged_by_identity_test': len([o for o in eq if o[2].startswith('identity')]),
                'statements_interpreted': sum(C.I.steps for C in self.contexts),
            }, **self.counts),
            'assumptions': list(assumptions) + self.notes,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions analysed, %.1fs' % (
            self.prop, len(self.obl), len(eq), len(und), len(self.viol), len(self.functions), time.time() - self.t0))
        for o in und:
            print('UNDECIDED %s: %s' % (o[0], o[2]))
        for v in new:
            print('  %s:%s %s -- %s' % (v.file, v.func, v.rule, v.text))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        if len(self.obl) < need:
            print('ANALYSIS-BROKEN property=%s: %d obligations, at least %d expected' % (self.prop, len(self.obl), need))
            return 2
        return 0


def load_known(prop):
    """lines: known: property=<id> key=<key> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop) and ' key=' in l:
                k, what = l.split(' key=', 1)[1].split(' :: ', 1)
                out.append((k.strip(), what.strip()))
    return out
