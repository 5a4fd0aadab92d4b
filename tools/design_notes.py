"""Hand-written notes for DESIGN.md."""
NOTES = {
    'C04': 'Planted changes to the derivative routines are almost always caught by the stable tests too (they compare with finite '
           'differences), so few of them qualify.',
    'C07': 'The reactive split has an eps guard against empty ranges; its normal form is compared with the limit without eps, numerically '
           'with tolerance 1e-6.',
    'C08': 'Partial correctness per iteration: the flag returned is the mismatch test at the returned voltages, for every outcome of the '
           'tests within the unrolled iterations. That Newton\'s method converges, or to which solution, is not claimed.',
    'C10': 'The comparison covers the documented ordering, the restored external case, and the stored order data.',
    'C12': 'Text written to a file is a value of the analysis: literals and formatted fields. Reading it back replaces every field by a name '
           'for the number shown (exact when enough digits are printed, an uninterpreted rounding otherwise), parses it as Python and interprets '
           'it. exec in loadcase is modelled with its real scoping: functions of the case file see the globals of loadcase only. Exceptions are '
           'exact in this mode (files, arity, missing keys, undefined names), so the documented error codes are decided.',
    'C16': 'The code and the reference both write to a modelled file; what is written is a list of (condition, text with formatted fields), '
           'compared as tokens at sampled valuations, some with quantities exactly at their limits or at zero.',
    'C20': 'Every outcome of the inner tests is a symbolic condition, so step-length cuts and terminations at either test are compared in one run.',
    'C29': 'The documentation gives results["if"]["mu"] in $/MW, but the code returns the multiplier of the per-unit constraint; the '
           'stable tests assert these numbers, so the property speaks of the multipliers of the two limits only.',
    'C28': 'The documentation calls the price of a unit the maximum over its zones; the code, like MATPOWER, adds them. The property says '
           '"the prices of the zones each unit belongs to".',
}
TAIL = '''
## False alarms corrected

Alarms that turned out to be mistakes of the analysis or of a property that was too strong were corrected in the machinery or in the
statement (never listed as findings): padding columns of a cost table need not survive saving (C12); the number of columns of solved tables
(C11); multipliers of interface limits per unit (C29); dc lines at isolated buses (C31, an assumption).

## Robustness against refactoring

Development used mechanical rewrites of the whole package (returns through variables, negated and reordered conditions, early returns, loops
as comprehensions or while loops, extracted helpers, renamed locals, keyword arguments, numpy spellings, swapped commutative operands, tuple
unpacking, string formatting styles, and others, about 35 kinds). All checks have to stay quiet on all of them; where the analyser could not
follow one it was extended until it could, or the obligation becomes undecided, which is never an alarm.

## What static analysis cannot decide here

Whether the iterative solvers converge, to which of several solutions, how close the interior point method comes to a global optimum,
and how long anything takes, depend on run-time numbers no static argument in reach can bound; see the properties marked not applicable.
'''
