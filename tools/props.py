from gen_meta import prop
AI = ('abstract interpretation of the source to index-notation normal forms, compared with reference formulas '
      '(polynomial identity decision per matrix entry)')
NOTE = ('Holds for all table contents and all sizes within the stated assumptions: formulas are symbolic in the row '
        'counts and entries. Trusted: the analyser\'s transfer functions for numpy/scipy and the reference formulas.')
PROPS = [
prop('C01', 'Bus and branch admittance matrices follow the pi branch model',
     'For every network the bus and branch admittance matrices are exactly those of the standard pi branch model: series '
     'admittance, half the line charging at each end, off-nominal turns ratio (zero meaning nominal) and phase shift at the '
     'from end. Out-of-service branches contribute nothing, bus shunts enter the diagonal in per unit of the system base, '
     'and branches in parallel or with shared buses accumulate.',
     ['inputs'], 'all networks: any number of buses and branches, any parameters, status, taps and shifts',
     'Tests compare a handful of small cases; the formula has to hold entry by entry for every topology and parameter mix.',
     ['makeYbus.py'], [('pi-model assembly', 'makeYbus.py makeYbus')], AI, 'other', NOTE),
prop('C02', 'DC model, fast-decoupled matrices and sensitivity factors are exact',
     'For every network the dc susceptance matrices and phase-shifter injections, the two fast-decoupled matrices of the XB '
     'and BX variants, the power transfer distribution factors for every slack choice, and the line outage factors equal '
     'their textbook definitions on the network data. The dc solution satisfies the reduced linear system exactly and keeps '
     'the reference angles as given.',
     ['inputs', 'configurations'], 'all networks, both decoupled variants, any slack bus, weight vector or weight matrix',
     'Only one or two fixed networks are tested; taps, shifts, outages and slack variants combine multiplicatively.',
     ['makeBdc.py', 'makeB.py', 'makePTDF.py', 'makeLODF.py', 'dcpf.py'],
     [('dc susceptances', 'makeBdc.py makeBdc'), ("B' and B''", 'makeB.py makeB'), ('ptdf', 'makePTDF.py makePTDF'),
      ('lodf', 'makeLODF.py makeLODF'), ('dc solve', 'dcpf.py dcpf')], AI, 'other', NOTE),
prop('C03', 'Bus injections and bus types reflect only running equipment',
     'The complex bus injection is the sum of the running generators at the bus minus the load there, in per unit. A bus '
     'counts as reference or voltage controlled only if a running generator is connected; otherwise it is a load bus, and '
     'when no reference bus is left the first voltage-controlled bus takes its place, so that every bus gets exactly one type.',
     ['inputs'], 'all bus and generator tables, any number of units per bus, any status pattern',
     'The combinations of status, several units per bus and lost references are not enumerated by tests.',
     ['makeSbus.py', 'bustypes.py'], [('injection', 'makeSbus.py makeSbus'), ('types', 'bustypes.py bustypes')], AI, 'other', NOTE),
prop('C04', 'First derivatives of injections, flows and currents are exact',
     'The partial derivatives of bus power injections, branch power flows, branch currents and squared flow magnitudes with '
     'respect to voltage angles and magnitudes are exact for every network and voltage vector, for sparse and dense '
     'admittance matrices alike, and the flow values returned with them are the flows themselves.',
     ['inputs'], 'all admittance matrices, voltages and branch ends, sparse or dense',
     'Finite-difference tests sample one operating point with a tolerance; a wrong conjugate or scale can hide there.',
     ['dSbus_dV.py', 'dSbr_dV.py', 'dIbr_dV.py', 'dAbr_dV.py'],
     [('injection Jacobian', 'dSbus_dV.py dSbus_dV'), ('flow Jacobian', 'dSbr_dV.py dSbr_dV'),
      ('current Jacobian', 'dIbr_dV.py dIbr_dV'), ('squared flows', 'dAbr_dV.py dAbr_dV')],
     AI + '; the reference derivative is obtained by symbolic differentiation in the analyser', 'other', NOTE),
prop('C05', 'Second derivatives of injections, flows and currents are exact',
     'The multiplier-weighted second derivatives of bus power injections, branch power flows, branch currents, and squared '
     'apparent power, active power and current magnitudes are exact in all four angle/magnitude blocks for every network, '
     'voltage vector and multiplier vector.',
     ['inputs'], 'all admittance and connection matrices, voltages and multipliers',
     'Finite-difference tests sample one operating point and one multiplier vector with loose tolerances.',
     ['d2Sbus_dV2.py', 'd2Sbr_dV2.py', 'd2Ibr_dV2.py', 'd2ASbr_dV2.py', 'd2AIbr_dV2.py'],
     [('injection Hessian', 'd2Sbus_dV2.py d2Sbus_dV2'), ('flow Hessian', 'd2Sbr_dV2.py d2Sbr_dV2'),
      ('current Hessian', 'd2Ibr_dV2.py d2Ibr_dV2'), ('squared flow Hessians', 'd2ASbr_dV2.py d2ASbr_dV2'),
      ('squared current Hessians', 'd2AIbr_dV2.py d2AIbr_dV2')],
     AI + '; the reference Hessian is obtained by symbolic differentiation in the analyser', 'other', NOTE),
prop('C06', 'OPF objective, constraints, Jacobians and Hessians are exact',
     'The objective, its gradient and Hessian, the power balance and flow-limit constraints with their Jacobians, and the '
     'Hessian of the Lagrangian supplied to the ac OPF solvers equal the documented cost functions (polynomial P and Q '
     'costs, piecewise-linear costs through their helper variables, user-defined costs with dead zone, scaling, shift and '
     'linear or squared deviation) and the documented constraints, with exact derivatives, for every mix of cost models, '
     'limited branches and flow-limit type.',
     ['inputs', 'configurations'], 'all contents of the tables and multipliers, for structures that mix cost models, reactive '
     'costs, parallel and unlimited branches, user cost rows in every position relative to the dead zone',
     'Each cost model, dead-zone position and limit type is a separate formula with derivatives; tests run a few whole cases '
     'with tolerances, and some combinations (reactive costs, dead zones) never.',
     ['opf_costfcn.py', 'opf_consfcn.py', 'opf_hessfcn.py', 'polycost.py', 'totcost.py', 'opf_model.py'],
     [('objective', 'opf_costfcn.py opf_costfcn'), ('constraints', 'opf_consfcn.py opf_consfcn'),
      ('Lagrangian', 'opf_hessfcn.py opf_hessfcn'), ('cost parameters', 'opf_model.py opf_model.build_cost_params')],
     AI + '; the reference derivatives are obtained by symbolic differentiation in the analyser', 'other',
     'Symbolic in all contents; the structure (numbers of buses, units, branches, cost rows) ranges over nine small models. '
     'Trusted: the analyser\'s transfer functions and the reference formulas.'),
prop('C07', 'Power-flow result tables are the stated functions of the solved voltages',
     'After an ac power flow the bus voltages, branch flows, slack generation and reactive generation in the tables follow '
     'from the solved voltages: running units at a bus share its reactive output in proportion to their ranges (equally when '
     'there is no range; an infinite limit counts as the sizes of the output and of the finite limits at its bus together), idle units and branches out of service show zero, and units on the reference bus together supply '
     'exactly what the bus injects.',
     ['inputs'], 'all tables, several units per bus, any status pattern, any voltages',
     'Reactive sharing and slack assignment depend on unit counts, ranges and status patterns that tests do not enumerate.',
     ['pfsoln.py'], [('write-back', 'pfsoln.py pfsoln')], AI, 'other', NOTE),
prop('C08', 'Iterative power flow solvers report convergence honestly',
     'Starting from the given voltages, Newton, fast-decoupled and Gauss-Seidel iterations apply their documented updates to '
     'the angles and magnitudes of controlled and load buses only, keep the reference voltage, and stop as soon as the '
     'largest power mismatch at the voltages then returned is within tolerance. Success is reported exactly in that case and '
     'failure when the iteration limit is reached; the matrices, injections and starting voltages of the caller are kept.',
     ['inputs', 'configurations'], 'all networks and starting points; every outcome of the convergence tests within the first two or three iterations',
     'Tests run a few well-behaved cases to convergence; flags, limits and partial half-iterations are never observed.',
     ['newtonpf.py', 'fdpf.py', 'gausspf.py'],
     [('Newton', 'newtonpf.py newtonpf'), ('decoupled', 'fdpf.py fdpf'), ('Gauss-Seidel', 'gausspf.py gausspf')],
     AI + '; loops unrolled under symbolic convergence tests', 'other',
     'Each run is unrolled up to the iteration limit of the scenario (1 to 3); linear solves are uninterpreted but congruent.'),
prop('C09', 'Calculations neither change nor keep the data they are given',
     'Network matrices, power flows, optimal power flows (with or without decommitment), continuation runs, conversions between numberings and loading leave the '
     'case, tables, matrices and options passed to them exactly as they were. Results of whole runs and conversions hold no table or dict of the '
     'caller, so changing one later leaves the other as it is; and no calculation remembers anything: called again with other data it '
     'gives what it would have given first.',
     ['inputs', 'histories'], 'all data, for a list of cases, options and solver answers',
     'Tests look at results, hardly ever at the arguments afterwards, and rarely call a function twice.',
     ['runpf.py', 'opf.py', 'uopf.py', 'runcpf.py', 'loadcase.py', 'ext2int.py', 'int2ext.py', 'makeYbus.py', 'makeBdc.py'],
     [('copy of the case', 'loadcase.py loadcase'), ('conversion', 'ext2int.py ext2int'), ('options', 'opf_execute.py opf_execute')], AI, 'other',
     'Solvers, printing, load scaling and callbacks keep their arguments under C08, C16, C17, C20, C21, C22 and C28 to C31.'),
prop('C10', 'Internal indexing is a lossless reordering of the connected network',
     'Converting a case to internal indexing keeps exactly the connected in-service equipment, numbers buses consecutively '
     'from zero, sorts units by bus and reorders cost rows, areas and user constraint and cost matrices alike. Converting '
     'back restores every row, number and position, with the solved values of connected equipment and the untouched values '
     'of everything else; repeated conversions are harmless, and user data ordered by bus, unit or branch converts both '
     'ways along either dimension.',
     ['inputs', 'histories'], 'all contents of the tables for numberings, status patterns and isolated buses from a list of structures',
     'Optional fields, isolated buses and unsorted units combine; the tests use one numbering and one status pattern.',
     ['ext2int.py', 'int2ext.py', 'e2i_data.py', 'i2e_data.py', 'e2i_field.py', 'i2e_field.py', 'get_reorder.py', 'set_reorder.py'],
     [('to internal', 'ext2int.py ext2int'), ('to external', 'int2ext.py int2ext'), ('data', 'e2i_data.py e2i_data'),
      ('data back', 'i2e_data.py i2e_data'), ('fields', 'e2i_field.py e2i_field'), ('numbers', 'ext2int.py ext2int1')], AI, 'other',
     'Symbolic in table contents; numbering, status and topology range over a list of structures.'),
prop('C11', 'A power flow run solves the given case and reports that solution',
     'A power flow run gives the chosen solver the admittances, injections, starting voltages (generator set points at '
     'controlled buses) and bus types of the in-service network, and the returned case carries, in the rows and numbering of '
     'the input, exactly the quantities that follow from the answer of the solver, together with the success flag. Equipment out of service '
     'reports zero, dc runs report the exact dc solution, and the input case is not altered.',
     ['inputs', 'configurations'], 'all table contents and solver answers, for ac methods 1-4 and dc, on structures with outages, isolated buses, '
     'shared buses and lost references',
     'The tests compare one solved case per method; the wiring of indices, status and units has far more combinations.',
     ['runpf.py', 'ext2int.py', 'int2ext.py', 'makeSbus.py', 'pfsoln.py', 'dcpf.py'],
     [('run', 'runpf.py runpf'), ('solution', 'pfsoln.py pfsoln'), ('dc', 'dcpf.py dcpf')],
     AI + '; the iterative solver is replaced by an arbitrary symbolic answer', 'other',
     'Symbolic in table contents and in the answer of the solver; structures range over a list.'),
prop('C12', 'A case saved and loaded again is the case that was saved',
     'savecase followed by loadcase returns the case: buses, generators, branches, areas, costs, system base, user constraints, '
     'costs and variables, reserves, interface limits and dc lines, for Python files to nine significant digits (flows and '
     'multipliers to four decimals) and for MAT files exactly, whichever of these a case has and however wide its tables are; infinite '
     'limits survive. savecase returns the name it wrote and leaves the case alone. loadcase finds a file with or without extension, reports '
     'missing files and incomplete or broken data by the documented codes, converts version 1 tables to version 2 with results in '
     'their columns, and returns a copy independent of a dict it was given.',
     ['inputs', 'configurations'], 'all numbers, for a list of structures (which data a case has, table widths, cost models, file names)',
     'The stable tests never save a case; each combination of data takes its own path through the writer.',
     ['savecase.py', 'loadcase.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py'],
     [('writer', 'savecase.py savecase'), ('sparse matrices', 'savecase.py print_sparse'), ('reader', 'loadcase.py loadcase'),
      ('conversion', 'loadcase.py ppc_1to2')], AI, 'other',
     'Names whose base is a Python identifier; MAT files as scipy.io documents them; reserves, interface limits and dc lines in Python files.'),
prop('C13', 'Options have their documented defaults and every override takes effect',
     'The options vector holds every documented option with its documented default. An override changes exactly the named '
     'option, whatever its value, and leaves the vector it was derived from, the defaults and every other option as they were. '
     'Every option that a solver or report reads is in the vector.',
     ['inputs', 'configurations'], 'every option with any value; all option reads in the package',
     'Tests set a few options and never read the others back.',
     ['ppoption.py'], [('options', 'ppoption.py ppoption')],
     AI + '; syntax-tree query over all option reads', 'other', ''),
prop('C14', 'Reactive limit enforcement holds violating units exactly at their limits',
     'With reactive limits enforced, after each solution every running unit beyond a limit (or only the worst one, on '
     'request) is held at that limit, its bus becomes a load bus (another controlled bus taking over as reference if needed) '
     'and the flow is solved again, until no unit is beyond a limit or all that remain are, which is reported as failure. '
     'Results show held units running at their limits, the original loads, and angles relative to the original reference.',
     ['inputs', 'histories'], 'every table content, for scripted histories of limit violations over up to four rounds (upper, lower, both, '
     'reference unit, all units, within tolerance, one at a time)',
     'No test runs with limits enforced; histories of limit hits multiply.',
     ['runpf.py', 'bustypes.py'], [('limit loop', 'runpf.py runpf')],
     AI + '; solved operating points scripted, loop unrolled', 'other',
     'Histories of violated limits range over a list; voltages, loads, real outputs and all other data are symbolic.'),
prop('C15', 'The OPF model keeps variables, constraints and costs in consistent blocks',
     'Variable sets, linear and nonlinear constraint sets and user cost sets added to the OPF model occupy consecutive '
     'non-overlapping index ranges in the order added. The assembled bounds, starting point, constraint matrix and cost '
     'parameters contain exactly what each set contributed, with columns mapped to the variables the set refers to, '
     'defaults filled in, and repeated queries returning the same answer without altering stored data.',
     ['inputs', 'histories'], 'add/query sequences with sets of different sizes, omitted defaults, partial variable lists',
     'Index bookkeeping depends on the order and the sizes of everything added before; tests add sets only via the fixed '
     'OPF set-up.',
     ['opf_model.py'], [('add and assemble', 'opf_model.py opf_model')], AI, 'other',
     'Symbolic in all numbers; structures (orders, sizes, omitted arguments) range over a list of scenarios.'),
prop('C19', 'Generator cost functions evaluate, scale and convert as documented',
     'Total cost equals the polynomial or piecewise linear function described by each cost row, polynomial derivatives are '
     'exact, scaling or shifting a cost changes the function exactly as documented for all outputs while leaving its '
     'argument untouched, polynomial costs become piecewise linear costs through evenly spaced points on the true curve, '
     'and real and reactive cost rows are told apart by position.',
     ['inputs'], 'all coefficients, break points, outputs and factors; tables mixing models and lengths',
     'Tables mix models and numbers of coefficients; tests evaluate single rows at single points.',
     ['totcost.py', 'polycost.py', 'modcost.py', 'poly2pwl.py', 'pqcost.py'],
     [('evaluation', 'totcost.py totcost'), ('derivatives', 'polycost.py polycost'), ('rescaling', 'modcost.py modcost'),
      ('conversion', 'poly2pwl.py poly2pwl'), ('split', 'pqcost.py pqcost')], AI, 'other',
     'Symbolic in all numbers; row structures (models, numbers of coefficients) range over a list of tables.'),
prop('C16', 'The printed report shows the results, section by section',
     'printpf writes, for exactly the sections asked for by the OUT_* options, the quantities of the results it was given: counts, '
     'capacities, generation, loads, shunts, losses I^2 Z, charging and inter-tie flows of the system and of every area (each area once, '
     'with the totals), extreme voltages, losses and prices with the bus or line where they occur, outputs and prices per unit and '
     'dispatchable load, bus and branch data, and the constraints at each level: all of them or those binding or carrying a multiplier. '
     'After a DC solution reactive quantities and losses count as zero. The results and options are left as they were. Without a file '
     'the report goes to the standard output, without options the defaults apply; OUT_ALL 0 prints nothing; callbacks print after it.',
     ['inputs', 'configurations'], 'all numbers, for a list of structures (areas, units, statuses, loads) and option settings',
     'The stable tests run with printing off.',
     ['printpf.py'], [('report', 'printpf.py printpf')], AI, 'other',
     'Numbers, dashes and section titles in order count; blanks and column headings do not. Printed numbers may differ by one unit of the last decimal.'),
prop('C17', 'The QP interface poses exactly the given quadratic program',
     'A quadratic or linear program given by arguments or as a problem dict reaches the solver as the minimum of x\'Hx/2 + c\'x '
     '(value, gradient and Hessian agreeing at every point) under the given constraints and bounds, from the given start and '
     'with the given options, defaults filled in where documented; the solver is the one asked for, or the first installed '
     'one; its answer is handed back unchanged; and the data of the caller are not written to. Unknown solver codes run no solver.',
     ['inputs', 'configurations'], 'all contents; every combination of optional data documented, both calling forms, every solver code',
     'Tests solve five small programs with one solver; wrong defaults and altered inputs show only in combinations or on reuse.',
     ['qps_pips.py', 'qps_pypower.py'], [('built-in', 'qps_pips.py qps_pips'), ('choice', 'qps_pypower.py qps_pypower')],
     AI + '; the solvers are replaced by recorders', 'other', 'Symbolic in all numbers; three variables and two constraints.'),
prop('C20', 'The interior point solver takes the documented steps and reports what it reached',
     'From any starting point the interior point solver evaluates the cost and all equality, inequality and bound constraints '
     'as given, takes the primal-dual Newton step with the documented step lengths and optional step control, and stops with '
     'exactly the flag its documented termination tests give at the point it returns; the objective, iteration count, history and the '
     'multiplier of each bound, linear and nonlinear constraint belong to that point and constraint, unscaled by the cost multiplier. '
     'The problem data and options of the caller are kept.',
     ['inputs', 'histories'], 'all contents for problems with every kind of row (equal, one-sided, two-sided, free), with and without '
     'nonlinear constraints, up to two iterations',
     'Tests look at converged optima of a few problems; a wrong multiplier row, sign or stopping test shows only in other bound patterns or when it does not converge.',
     ['pips.py'], [('iteration', 'pips.py pips')], AI + ', loop unrolled under symbolic tests', 'other',
     'At most two iterations on two variables with up to two further rows and two nonlinear constraints; every further iteration repeats the same code.'),
prop('C18', 'User callbacks run at their stages, in order, with their arguments',
     'A callback added for a stage runs exactly once each time that stage is reached, after those added before it and with the argument '
     'given when it was added, on what the callback before it returned; conversion callbacks see the case in internal ordering. '
     'The same function is accepted a second time for a stage only on request, and removing takes away its last instance at that stage and nothing else.',
     ['histories', 'configurations'], 'a list of sequences of additions and removals over all stages',
     'Tests switch one set of callbacks on and off; sequences of additions and removals and arguments are not sampled.',
     ['add_userfcn.py', 'remove_userfcn.py', 'run_userfcn.py', 'ext2int.py', 'int2ext.py'],
     [('adding', 'add_userfcn.py add_userfcn'), ('removing', 'remove_userfcn.py remove_userfcn'), ('running', 'run_userfcn.py run_userfcn')],
     AI, 'other', 'Sequences range over a list.'),
prop('C21', 'Continuation power flow follows the solution curve and reports its points',
     'A continuation power flow moves injections along the straight line from the base to the target case. Every point is predicted one step along the '
     'normalised tangent and corrected by Newton steps on the power balance and the step equation of the chosen parameterization '
     '(natural, arc length, pseudo arc length), whose gradient is exact; the convergence flag is the mismatch test at the point returned. '
     'The run stops where asked (nose, full curve, given loading), adapts its step as documented, and reports the predicted and corrected '
     'voltages and loading of every point, the largest loading, and the case tables of the last point, in the rows of the original case.',
     ['inputs', 'configurations', 'histories'], 'all contents; all parameterizations and stopping rules, scripted sequences of loadings, every outcome of the corrector',
     'No test runs a continuation power flow; direction, step and stopping logic depend on the shape of the curve.',
     ['runcpf.py', 'cpf_p.py', 'cpf_p_jac.py', 'cpf_predictor.py', 'cpf_corrector.py', 'cpf_callbacks.py'],
     [('run', 'runcpf.py runcpf'), ('step equation', 'cpf_p.py cpf_p'), ('predictor', 'cpf_predictor.py cpf_predictor'),
      ('corrector', 'cpf_corrector.py cpf_corrector'), ('curve', 'cpf_callbacks.py cpf_default_callback')],
     AI + '; numerical steps of the run replaced by arbitrary answers', 'other',
     'Symbolic in all contents; three-bus structures, at most two corrector iterations, loadings of the run follow a list of scripts.'),
prop('C22', 'Load totals and load scaling act on exactly the loads of each zone',
     'The total load of each zone is the sum of its fixed loads and of its dispatchable loads in service; scaling multiplies '
     'exactly the chosen loads (fixed, dispatchable or both; real or real and reactive power) of each zone by its factor, or by the factor '
     'that makes the real load of the zone meet its target, whatever form the zones, factors and options are given in. Buses in no zone, other units '
     'and other columns are kept, an impossible target is refused, and the arguments of the caller are left as they were.',
     ['inputs', 'configurations'], 'all contents; every combination of zones, options and kinds of loads',
     'Tests scale one small case; the combinations of options, zones and dispatchable loads with status, numbering or zero load are not sampled.',
     ['total_load.py', 'scale_load.py', 'isload.py'], [('totals', 'total_load.py total_load'), ('scaling', 'scale_load.py scale_load')],
     AI, 'other', 'Symbolic in all contents; five buses, six units and a list of zone vectors.'),
prop('C25', 'The OPF model contains exactly the constraints the case describes',
     'Setting up an optimal power flow yields the documented variables, starting points and bounds (fixed reference angles, '
     'voltage, real and reactive power limits) and the documented linear constraints: angle-difference limits where given, '
     'upper and lower capability lines where not redundant, constant power factor of dispatchable loads, one row per segment '
     'of every piecewise linear real or reactive cost on the right unit, and in the dc case power balance and flow limits '
     'in both directions; user constraints and costs act on the variables they name.',
     ['inputs', 'configurations'], 'ac and dc formulation, all table contents for structures mixing the optional features',
     'The features are optional and combine; most rows never bind in the tested cases, so a wrong row or column goes unnoticed.',
     ['opf_setup.py', 'makeAang.py', 'makeApq.py', 'makeAvl.py', 'makeAy.py', 'hasPQcap.py', 'isload.py', 'opf_model.py'],
     [('set-up', 'opf_setup.py opf_setup'), ('angle limits', 'makeAang.py makeAang'), ('capability curves', 'makeApq.py makeApq'),
      ('dispatchable loads', 'makeAvl.py makeAvl'), ('piecewise costs', 'makeAy.py makeAy')], AI, 'other',
     'Symbolic in table contents; structures (limits present or absent, cost models, curves with fixed numbers) range over a list.'),
prop('C26', 'OPF results are the solution the solver returned, in the units of the case',
     'An optimal power flow hands the solver the objective, constraints, bounds and tolerances of the model with an interior '
     'starting point, and whatever the solver answers, converged or not, everything reported follows from that answer: '
     'voltages, outputs, flows at both branch ends, the objective in the units of the case, nodal prices, shadow prices of '
     'voltage, output, capability-curve, angle and flow limits, and values per named variable and constraint set, in the '
     'rows of the original case. Units and branches out of service carry no power, and the input case is not altered.',
     ['inputs', 'configurations'], 'every answer of the solver and all table contents, ac and dc, for a list of structures with '
     'outages, isolated buses, capability curves, piecewise costs, reactive costs and user costs',
     'Tests check a few entries of one solution; a wrong scale or row of a rarely binding price goes unnoticed.',
     ['opf.py', 'opf_execute.py', 'pipsopf_solver.py', 'dcopf_solver.py', 'update_mupq.py', 'int2ext.py'],
     [('ac answer', 'pipsopf_solver.py pipsopf_solver'), ('dc answer', 'dcopf_solver.py dcopf_solver'),
      ('named sets', 'opf_execute.py opf_execute'), ('capability prices', 'update_mupq.py update_mupq'), ('outages', 'opf.py opf')],
     AI + '; the numerical solver is replaced by an arbitrary symbolic answer', 'other',
     'Symbolic in table contents and in the answer of the solver; structures range over a list.'),
prop('C27', 'Unit decommitment ends with the cheapest schedule of its staged search',
     'The combined decommitment and optimal power flow first shuts down the units that are most expensive per MW at their minimum output until the '
     'minimum outputs fit the load that is connected (dispatchable loads included). From there, stage by stage, it tries shutting down each unit held at its '
     'minimum output, keeps the cheapest feasible result, and goes on from it with its voltages while that lowers the cost. It returns the solution of the '
     'best schedule found, with the units it shut down at zero output, and runs with the options of the caller.',
     ['inputs', 'histories'], 'all outputs, voltages and multipliers, for a list of cases and orders of the costs of the schedules',
     'Tests never shut a unit down; which schedule wins depends on the sequence of solutions met.',
     ['uopf.py', 'fairmax.py', 'opf_args.py', 'totcost.py', 'isload.py'],
     [('search', 'uopf.py uopf'), ('ties', 'fairmax.py fairmax')], AI, 'other', 'Orders of the costs, outcomes and signs of multipliers range over a list.'),
prop('C28', 'Reserve requirements are enforced and reported per unit and zone',
     'With fixed zonal reserves switched on, the optimal power flow gets one reserve variable per participating unit in service, between '
     'zero and the smaller of its maximum quantity and its ramp limit; generation plus reserve stays within the capacity of the unit, the '
     'reserves in every zone meet the requirement of the zone, and each unit of reserve costs what the case says. Reserve quantities, limits '
     'and multipliers are reported for the units of the original case, in its row order and units, zero for units that do not '
     'participate or are out, with the prices of the zones each unit belongs to and the total cost; the reserve data of the caller come back as given.',
     ['inputs', 'configurations'], 'all requirements, costs, limits and solutions, for a list of zone, status and numbering structures',
     'Tests solve one case; zones that overlap, units out of service and reserve data for participating units only are index permutations they do not combine.',
     ['toggle_reserves.py', 'ext2int.py', 'int2ext.py', 'run_userfcn.py', 'opf_model.py'],
     [('indexing', 'toggle_reserves.py userfcn_reserves_ext2int'), ('model', 'toggle_reserves.py userfcn_reserves_formulation'),
      ('results', 'toggle_reserves.py userfcn_reserves_int2ext')], AI, 'other', 'Structures (zones, status, ramp limits) range over a list.'),
prop('C29', 'Interface flow limits bound the dc flow over the branches of each interface',
     'With interface limits switched on, the optimal power flow keeps, for every interface, the sum of the dc flows of its branches in '
     'service, each with its direction and phase shift, between the limits given for that interface, whatever the order of interfaces, the '
     'numbering, and the branches out of service. The flow across every interface and the multipliers of its two limits are reported in '
     'the rows of the given limits, and the interface data of the caller come back as given.',
     ['inputs', 'configurations'], 'all limits, branch data and solutions, for a list of interfaces, outages and numberings',
     'Tests solve one case with sorted limits and no outages.',
     ['toggle_iflims.py', 'makeBdc.py', 'ext2int.py', 'int2ext.py'],
     [('indexing', 'toggle_iflims.py userfcn_iflims_ext2int'), ('constraint', 'toggle_iflims.py userfcn_iflims_formulation'),
      ('results', 'toggle_iflims.py userfcn_iflims_int2ext')], AI, 'other', 'Interfaces and outages range over a list.'),
prop('C30', 'Every calling form of the optimal power flow describes the same problem',
     'The tables, user constraints, user costs, user variables, callbacks and options given to an optimal power flow mean the '
     'same whether passed as a case dict, as separate arguments in any documented form, or as fields of the dict; explicit '
     'arguments take precedence over fields, and the call does not leave its arguments behind in the dict of the caller.',
     ['inputs', 'configurations'], 'all documented calling forms, all contents',
     'There are thirteen positional forms, shifted by hand; tests use two of them.',
     ['opf_args.py', 'loadcase.py'], [('forms', 'opf_args.py opf_args'), ('assembled dict', 'opf_args.py opf_args2')], AI, 'other', ''),
prop('C31', 'DC lines carry their flow, losses and costs, and are reported per line',
     'With dc lines switched on, every line in service takes its flow out of the network at one end and delivers it, less its losses '
     '(constant and linear), at the other, within its flow limits in either direction, its reactive limits and at its voltage set points, at '
     'its cost (polynomial or piecewise linear in the flow). In a power flow the scheduled flow is delivered. Flows, reactive power, voltages '
     'and multipliers of the limits are reported for every line of the case, lines out of service keep their data, and the generator and '
     'cost tables come back in the rows of the case.',
     ['inputs', 'configurations'], 'all set points, losses, costs and solutions, for a list of numberings, outages, flow limits and cost models',
     'No stable test runs a dc line; signs, row offsets and cost reversal only show with particular lines.',
     ['toggle_dcline.py', 'ext2int.py', 'int2ext.py', 'idx_dcline.py'],
     [('lines as units', 'toggle_dcline.py userfcn_dcline_ext2int'), ('losses', 'toggle_dcline.py userfcn_dcline_formulation'),
      ('results', 'toggle_dcline.py userfcn_dcline_int2ext')], AI, 'other', 'Structures (numbering, outages, flow limits, cost models) range over a list.'),
prop('C32', 'Run functions report and save what they return, where they are told to',
     'Every run function (ac and dc power flow, optimal power flow with or without decommitment or reserves, continuation power flow) prints the '
     'results it returns once: appended to the file named, keeping what the file contains, or on the screen if none is named, with the options of the '
     'caller, which the calculation uses too. It saves the results it returns under the name given for the solved case. A report '
     'file that cannot be opened loses neither results nor solved case; options left out take their defaults, a case left out is the 9-bus case.',
     ['inputs', 'configurations', 'crash points'], 'every run function, all results',
     'Tests run with printing off and never name a report or case file.',
     ['runpf.py', 'runopf.py', 'runuopf.py', 'rundcpf.py', 'rundcopf.py', 'runduopf.py', 'runcpf.py', 'runopf_w_res.py'],
     [('power flow', 'runpf.py runpf'), ('optimal power flow', 'runopf.py runopf'), ('decommitment', 'runuopf.py runuopf'),
      ('continuation', 'runcpf.py runcpf')], AI, 'other', ''),
prop('C90', 'The power flow converges wherever a nearby solution exists',
     'Started from a reasonable profile, the Newton, fast-decoupled and Gauss-Seidel power flows reach a solution of the network '
     'equations whenever one exists near the start, within the default iteration limits, and the three agree on it.',
     ['inputs'], 'all networks with a solution near the start', 'Convergence regions depend on the data of each network.',
     ['newtonpf.py', 'fdpf.py', 'gausspf.py'], [('iterations', 'newtonpf.py newtonpf')], '', 'other', '',
     na='Convergence depends on the numbers met at run time (spectral radii, conditioning); no sound static argument in reach bounds them. What '
        'is decided statically is the iteration itself and that the flag returned is the mismatch test (C08).'),
prop('C91', 'The optimal power flow finds the least cost, up to the tolerances',
     'For every case with a feasible operating point the optimal power flow converges, and no feasible operating point nearby costs less '
     'than the one returned, within the termination tolerances.',
     ['inputs'], 'all feasible cases', 'Optimality is a statement about all feasible points of each case.',
     ['pips.py', 'pipsopf_solver.py', 'opf.py'], [('interior point method', 'pips.py pips')], '', 'other', '',
     na='Non-convex optimisation: convergence and optimality depend on run-time numbers. Decided statically are the problem handed to the '
        'solver (C06, C25), the solver\'s iteration and termination tests (C20) and the reported results (C26).'),
]
