#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.
A property is claimed when checks/<id>_*.py exists and it is not in NA."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = 'inputs'
CFG = 'configurations'
HIS = 'histories'
P = []


def prop(id_, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=['pypower/' + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [])))


prop('C01', 'Admittance matrices are the branch pi-model of the case',
     'For every network whose buses are numbered consecutively, the bus and branch admittance matrices give, at every '
     'complex voltage, exactly the currents of the standard branch pi-model (series impedance, half the charging at each '
     'end, ideal transformer with ratio and phase shift at the from end, ratio 0 meaning 1) plus the bus shunts in per '
     'unit. A branch that is out of service carries no current and contributes nothing.',
     [INP], 'every branch parameter, shunt, base power, status pattern and voltage',
     'tests compare a handful of solved cases; parallel lines, phase shifters with taps, odd base powers and status '
     'patterns are values no test enumerates',
     ['makeYbus.py'], [('stamping of Yff,Yft,Ytf,Ytt', 'makeYbus.makeYbus')], ['makeYbus return values'])

prop('C02', 'Every bus gets exactly one role and a reference always exists',
     'The reference, PV and PQ bus lists partition the buses: a declared reference or PV bus keeps that role exactly '
     'when at least one in-service generator sits on it, and otherwise becomes PQ. When no bus qualifies as reference, '
     'the first PV bus becomes the reference and leaves the PV list.',
     [INP], 'every combination of bus types, generator locations and generator statuses',
     'the combinations of types and statuses are exponential; tests see only well-formed cases',
     ['bustypes.py'], [('gen status masks', 'bustypes.bustypes')], ['bustypes return values'])

prop('C03', 'Bus injections are in-service generation minus load, per unit',
     'The complex bus power injection used by all AC calculations equals, at every bus, the sum of the outputs of the '
     'in-service generators at that bus minus the bus load, divided by the system base. Out-of-service generators never '
     'contribute.',
     [INP], 'every load, dispatch, status, base power and generator placement (several units per bus)',
     'tests use one dispatch per case', ['makeSbus.py'], [('Cg sparse incidence', 'makeSbus.makeSbus')],
     ['makeSbus return value'])

prop('C04', 'DC network model and DC power flow solve the linear network equations',
     'The DC matrices give branch flow = (angle difference - phase shift) / (reactance x ratio) for every in-service '
     'branch, zero for out-of-service ones, and bus injections that are the sums of these flows. The DC power flow '
     'returns angles that keep the given reference angle and make the network injections equal the scheduled ones at '
     'all other buses.',
     [INP, CFG], 'every branch parameter, status, phase shift, ratio, angle and injection',
     'tests check two solved cases', ['makeBdc.py', 'dcpf.py'],
     [('Bf, Bbus, Pbusinj, Pfinj', 'makeBdc.makeBdc'), ('reduced solve', 'dcpf.dcpf')], ['makeBdc, dcpf'])

prop('C05', 'PTDFs reproduce DC branch flows for every balanced transfer',
     'Multiplying the power transfer distribution factor matrix by any bus injection pattern, balanced at the chosen '
     'slack bus or by the chosen slack weights, gives exactly the DC branch flows of that pattern. The result does not '
     'depend on the slack choice for balanced patterns.',
     [INP, CFG], 'every branch parameter, injection, slack bus and slack weight vector',
     'tests compare one network with a few slack choices', ['makePTDF.py', 'makeBdc.py'],
     [('reduced inverse', 'makePTDF.makePTDF'), ('slack distribution', 'makePTDF.makePTDF')], ['makePTDF'])

prop('C06', 'LODFs predict post-outage flows exactly in the DC model',
     'Adding, to the pre-outage DC flow of a branch, its line outage distribution factor times the pre-outage flow of '
     'the branch taken out gives the DC flow after that outage, for every injection pattern, whenever the outage does '
     'not split the network. The factor of a branch with respect to its own outage is -1.',
     [INP], 'every branch parameter and injection pattern, every outaged branch', 'tests check one network',
     ['makeLODF.py', 'makePTDF.py'], [('LODF formula', 'makeLODF.makeLODF')], ['makeLODF'])

prop('C07', 'Fast-decoupled matrices follow the XB and BX definitions',
     'The two fast-decoupled power flow matrices are the negated imaginary parts of the admittance matrix of the '
     'network in which, for the first one, shunts, charging and off-nominal ratios are removed and, for the second, '
     'phase shifts are removed; series resistance is ignored in the first for the XB version and in the second for '
     'the BX version. The caller\'s case data is not modified.',
     [INP, CFG], 'every branch and bus parameter, both versions', 'tests only see convergence of two cases',
     ['makeB.py'], [('temp branch/bus copies', 'makeB.makeB')], ['makeB'])

prop('C08', 'First derivatives of injections and flows are the true Jacobians',
     'The functions giving partial derivatives of bus injections, branch power flows, branch currents and squared flow '
     'magnitudes with respect to voltage angle and magnitude return exactly the derivatives of those quantities, for '
     'sparse and dense arguments alike, and the flow values returned alongside are those of the given voltages.',
     [INP], 'every admittance matrix and every voltage', 'tests difference numerically at one point of one case',
     ['dSbus_dV.py', 'dSbr_dV.py', 'dIbr_dV.py', 'dAbr_dV.py'],
     [('matrix chain rule', 'dSbus_dV, dSbr_dV, dIbr_dV, dAbr_dV')], ['return values'])

prop('C09', 'Second derivatives are the true Hessians',
     'For every multiplier vector, the second-derivative functions of bus injections, branch power flows, branch '
     'currents and squared magnitudes return exactly the Hessian of the multiplier-weighted sum of the corresponding '
     'quantities with respect to voltage angles and magnitudes.',
     [INP], 'every admittance matrix, voltage and multiplier vector',
     'tests difference numerically at one point of one case',
     ['d2Sbus_dV2.py', 'd2Sbr_dV2.py', 'd2Ibr_dV2.py', 'd2AIbr_dV2.py', 'd2ASbr_dV2.py'],
     [('matrix chain rule', 'd2*_dV2')], ['return values'])

prop('C10', 'A power flow reported as converged satisfies the power balance',
     'Whenever an AC power flow method (Newton, fast-decoupled, Gauss-Seidel) reports convergence, the returned voltages '
     'satisfy the power balance within the tolerance at all PQ buses, and the active balance at all PV buses, while '
     'reference voltages and PV magnitudes keep their given values. When the iteration limit is hit first, it reports '
     'non-convergence and does not exceed the limit.',
     [INP], 'every admittance matrix, scheduled injection, starting voltage and tolerance; bounded iterations',
     'convergence and divergence from arbitrary starting points cannot be sampled by a few solved cases',
     ['newtonpf.py', 'fdpf.py', 'gausspf.py'],
     [('mismatch test', 'newtonpf / fdpf / gausspf'), ('update steps', 'newtonpf / fdpf / gausspf')],
     ['returned V, converged, iterations'])

prop('C11', 'Power flow results are consistent with the solved voltages',
     'After a power flow, bus voltages, branch flows at both ends, generator reactive outputs and the reference active '
     'output stored in the case equal what the solved voltages imply: at each bus, generation minus load equals network '
     'injection, generators sharing a bus split reactive power without changing its total, out-of-service branches and '
     'generators carry zero.',
     [INP], 'every voltage, load, limit, status and generator placement', 'tests check three cases',
     ['pfsoln.py'], [('Q allocation', 'pfsoln.pfsoln'), ('slack P', 'pfsoln.pfsoln'), ('branch flows', 'pfsoln.pfsoln')],
     ['pfsoln return values'])

prop('C12', 'runpf solves the stated problem and reports success truthfully',
     'Running a DC power flow on any valid case (arbitrary bus numbers, isolated buses, out-of-service equipment) '
     'returns results, in the caller\'s own numbering, whose angles, branch flows and reference generation satisfy the '
     'DC network equations of the in-service network, and reports success. Equipment that is out of service keeps its '
     'data and is reported with zero flow and zero output.',
     [INP, CFG], 'every parameter, load, dispatch and status pattern on small networks',
     'tests run two fixed cases', ['runpf.py', 'ext2int.py', 'int2ext.py', 'dcpf.py'],
     [('DC branch of runpf', 'runpf.runpf')], ['runpf results'])

prop('C13', 'Reactive limit enforcement delivers limits or admits failure',
     'With generator reactive limits enforced, a successful power flow returns every in-service generator within its '
     'reactive limits (up to the termination tolerance of the check), with buses whose generators hit a limit solved as '
     'load buses, and the case returned has the caller\'s loads, bus types restored except a displaced reference, and '
     'generator statuses intact.',
     [INP, HIS], 'every sequence of violated limits over the outer iterations',
     'no test turns the option on', ['runpf.py'], [('qlim loop', 'runpf.runpf')], ['runpf results'])

prop('C14', 'External to internal renumbering and back loses nothing',
     'Converting a case to internal numbering removes exactly the isolated buses and the out-of-service (or isolated) '
     'generators and branches, numbers the remaining buses consecutively and consistently everywhere they are '
     'referenced, and orders generators by bus. Converting back restores the caller\'s case - numbering, order and '
     'removed rows - with results of in-service equipment in their original rows.',
     [INP], 'every numbering, type and status pattern on small cases, with and without costs',
     'tests use one case', ['ext2int.py', 'int2ext.py'],
     [('order bookkeeping', 'ext2int.ext2int'), ('restore', 'int2ext.int2ext')], ['ext2int, int2ext'])

prop('C15', 'Reordering user data by bus, generator or branch is invertible',
     'Data indexed by buses, generators or branches, along either dimension and for several stacked sets, converts to '
     'internal order by keeping exactly the entries of in-service elements in their internal positions; converting back '
     'restores these to their external positions and leaves the entries of out-of-service elements at their old values.',
     [INP], 'every data value and status pattern', 'the only test of it does not run',
     ['e2i_data.py', 'i2e_data.py', 'e2i_field.py', 'i2e_field.py', 'get_reorder.py', 'set_reorder.py'],
     [('index bookkeeping', 'get_reorder / set_reorder')], ['e2i_data, i2e_data, e2i_field, i2e_field'])

prop('C16', 'Loading a case returns an isolated copy and converts version 1 data faithfully',
     'Loading a case from a dictionary returns the same data without sharing any storage with the argument, so later '
     'changes to either do not affect the other. Version 1 data (with or without solved results) is converted so that '
     'every generator and branch quantity lands in its version 2 column with its value. Incomplete or unusable case '
     'data is answered with the documented exit code. Tables typed with whole numbers are loaded as real numbers, so that results '
     'written into them are not truncated.',
     [INP], 'every data value, both formats', 'tests compare one case',
     ['loadcase.py'], [('deepcopy', 'loadcase.loadcase'), ('ppc_1to2', 'loadcase.ppc_1to2')], ['loadcase'])

prop('C17', 'A saved case loads back as the same case',
     'Saving a case to a Python case file or a MAT file and loading it again gives the same system base and the same bus, '
     'generator, branch, area and cost tables (with or without solved results), and the same user constraints, costs and variables and the same reserve, interface and DC line data, each entry up '
     'to the number of digits written. Saving leaves the caller\'s case unchanged.',
     [INP], 'every table value', 'tests save one case',
     ['savecase.py', 'loadcase.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py'],
     [('column formats', 'savecase.savecase'), ('reading', 'loadcase.loadcase')], ['savecase + loadcase'])

prop('C18', 'Generator costs evaluate to the cost function the data describes',
     'Total cost is, for polynomial data of any order, the polynomial at the dispatch, and, for piecewise linear data '
     'of any length, the segment the dispatch falls into, continued with the end slopes outside the breakpoints; '
     'polynomial derivatives are exact; mixed tables are evaluated row by row. Splitting a cost table gives active '
     'rows first and reactive rows (or none) second.',
     [INP], 'every coefficient, breakpoint and dispatch, mixed models and orders',
     'tests use seven rows at a few points', ['totcost.py', 'polycost.py', 'pqcost.py'],
     [('segment search', 'totcost.totcost'), ('Horner evaluation', 'polycost.polycost')], ['totcost, polycost, pqcost'])

prop('C19', 'Modifying costs scales or shifts the cost function as requested',
     'Modified cost data evaluates, at every dispatch, to the requested scaling or shifting of the original cost '
     'function along either axis, for polynomial and piecewise linear rows in any mixture, and never alters the '
     'original table.',
     [INP], 'every coefficient, factor and dispatch', 'tests use fixed factors',
     ['modcost.py'], [('four modes', 'modcost.modcost')], ['modcost'])

prop('C20', 'Piecewise linear approximations of polynomial costs interpolate them',
     'Converting polynomial costs to piecewise linear ones gives the requested number of breakpoints, evenly spread from '
     'the minimum to the maximum output, the first one at zero when the minimum is positive, each with the '
     'polynomial\'s exact cost. The given table is not altered.',
     [INP], 'every polynomial and output range', 'no test covers it',
     ['poly2pwl.py'], [('breakpoints', 'poly2pwl.poly2pwl')], ['poly2pwl'])

prop('C21', 'Piecewise linear cost constraints describe the cost curve exactly',
     'The linear constraints built for piecewise linear generator costs admit a (dispatch, cost variable) pair exactly '
     'when the cost variable lies on or above every segment\'s line, so for convex data the smallest admissible value is '
     'the cost of that dispatch, for active and reactive costs and wherever these variables are placed.',
     [INP], 'every breakpoint set and dispatch', 'tests only solve four cases',
     ['makeAy.py'], [('slope/intercept rows', 'makeAy.makeAy')], ['makeAy'])

prop('C22', 'Sloped generator capability limits and their prices are translated exactly',
     'The linear constraints built for generators with sloped capability curves admit exactly the active/reactive pairs '
     'under the upper and above the lower line through the curve\'s corner points, and are left out only where the box limits imply them; and prices on these constraints are '
     'folded back into the active and reactive limit prices of the right generators with the right sign.',
     [INP], 'every curve, limit, dispatch and price', 'tests check five detection cases',
     ['hasPQcap.py', 'makeApq.py', 'update_mupq.py'],
     [('line coefficients', 'makeApq.makeApq'), ('price folding', 'update_mupq.update_mupq')],
     ['hasPQcap, makeApq, update_mupq'])

prop('C23', 'Dispatchable loads keep a constant power factor',
     'A generator counts as dispatchable load exactly when its lower active limit is negative and its upper one zero; '
     'for those with a reactive range the constraints force reactive power to stay proportional to active power at the '
     'power factor of the full load. Other units are not constrained.',
     [INP], 'every limit and dispatch', 'tests only solve one case with such loads',
     ['makeAvl.py', 'isload.py', 'opf_setup.py'], [('pf constraint rows', 'makeAvl.makeAvl')], ['makeAvl, isload'])

prop('C24', 'Branch angle difference limits bound exactly the limited branches',
     'The linear constraints for branch angle difference limits bound the angle difference of exactly the branches that '
     'have an effective limit, between their lower and upper limits in radians, and vanish when the option to ignore '
     'angle limits is set.',
     [INP, CFG], 'every limit pair and angle', 'no test sets angle limits',
     ['makeAang.py'], [('row selection', 'makeAang.makeAang')], ['makeAang'])

prop('C25', 'The OPF model assembles variables, constraints and costs without mixing them up',
     'For every sequence of added variable sets, linear and nonlinear constraint sets and cost sets, the assembled '
     'model places each set in its own consecutive index range, keeps its bounds, start values and coefficients '
     'against the variables it names, reports consistent counts, and evaluates costs per set and in total to the '
     'documented cost formula, independent of the order of queries.',
     [HIS, INP], 'every sequence of additions and queries, every coefficient',
     'tests only exercise the sequence of opf_setup', ['opf_model.py'],
     [('index registers', 'opf_model.opf_model'), ('getv/linear_constraints/build_cost_params', 'opf_model.opf_model')],
     ['opf_model methods'])

prop('C26', 'The OPF objective, gradient and Hessian agree with the cost data',
     'The OPF objective equals the total polynomial generation cost in real units plus the sum of the piecewise linear '
     'cost variables plus the generalized cost terms; the gradient and Hessian returned with it are its exact '
     'derivatives, whatever mixture of polynomial, piecewise linear, reactive and generalized costs is present.',
     [INP, CFG], 'every cost table, dispatch and generalized cost parameter',
     'tests difference nothing and use few mixtures', ['opf_costfcn.py'],
     [('cost assembly', 'opf_costfcn.opf_costfcn')], ['opf_costfcn'])

prop('C27', 'The OPF constraint functions and Jacobians are the physical ones',
     'The equality constraints are the per-unit power balance mismatch at every bus and the inequality constraints are '
     'squared apparent power, active power or current flow (as selected) at both ends of the limited branches minus the '
     'squared rating; the returned transposed Jacobians are their exact derivatives with respect to all variables.',
     [INP, CFG], 'every voltage, dispatch, rating and network parameter; three limit kinds',
     'tests difference one point of one case', ['opf_consfcn.py'],
     [('mismatch and flow constraints', 'opf_consfcn.opf_consfcn')], ['opf_consfcn'])

prop('C28', 'The OPF Lagrangian Hessian is exact',
     'For every point and every set of multipliers, the Hessian given to the solver is the exact Hessian of cost '
     'multiplier times objective plus multiplier-weighted constraints, for every flow limit kind and cost mixture.',
     [INP, CFG], 'every voltage, dispatch, multiplier and cost', 'tests only observe convergence of a few cases',
     ['opf_hessfcn.py'], [('block assembly', 'opf_hessfcn.opf_hessfcn')], ['opf_hessfcn'])

prop('C29', 'The OPF formulation encodes exactly the case\'s limits',
     'The optimization problem built from a case bounds voltage magnitudes, fixes reference angles, bounds active and '
     'reactive outputs in per unit and, in the DC case, imposes bus balance and flow limits including phase shift and '
     'shunt terms, so a point is feasible exactly when it satisfies the case\'s limits. User-supplied linear '
     'constraints and costs are applied to the variables they name.',
     [INP, CFG], 'every limit, load and network parameter; AC and DC', 'tests solve a few cases',
     ['opf_setup.py', 'opf_model.py'], [('variable and constraint sets', 'opf_setup.opf_setup')], ['opf_setup'])

prop('C30', 'The DC OPF poses the true cost and reads the answer back in place',
     'The quadratic objective assembled for the DC OPF equals, at every dispatch, the total generation cost of the '
     'case (polynomial up to second order, piecewise linear, generalized) up to the constant it reports separately, '
     'and the solver\'s solution and multipliers are returned as bus angles, dispatch, flows, nodal prices and limit '
     'prices of the right equipment in the right units.',
     [INP, CFG], 'every cost table, dispatch and solver answer', 'tests solve one case per cost type',
     ['dcopf_solver.py'], [('HH, CC, C0', 'dcopf_solver.dcopf_solver'), ('packaging', 'dcopf_solver.dcopf_solver')],
     ['arguments of the QP solver, returned results'])

prop('C31', 'A reported interior point optimum meets the optimality conditions',
     'Whenever the interior point solver reports convergence, the returned point satisfies the nonlinear constraints, '
     'linear constraints and bounds within the feasibility tolerance, inequality and bound multipliers are nonnegative, '
     'and stationarity and complementarity hold within their tolerances, with multipliers reported against the '
     'constraints and bounds they belong to. Exceeding the iteration limit or numerical failure is never reported as '
     'success.',
     [INP], 'every objective, constraint, start point within small dimensions and bounded iterations',
     'tests solve six problems', ['pips.py'],
     [('termination test', 'pips.pips'), ('multiplier packaging', 'pips.pips')], ['pips return values'])

prop('C32', 'QP problems reach the solver unchanged and come back unchanged',
     'The quadratic programming front ends accept the documented calling forms and optional arguments, pose the same '
     'problem to the underlying solver whatever form was used, with zero quadratic or missing bounds defaulted as '
     'documented, and return its solution, status and multipliers.',
     [INP, CFG], 'every problem data and calling form', 'tests use three problems',
     ['qps_pips.py', 'qps_pypower.py'], [('argument defaults', 'qps_pips.qps_pips')], ['qps_pips, qps_pypower'])

prop('C33', 'AC OPF results report the solver\'s solution, prices and limits in place',
     'The solver\'s solution and multipliers are returned as bus voltages, generator outputs, branch flows, nodal '
     'prices and limit prices of the right bus, generator and branch ends in the right units, the reported objective '
     'is the solver\'s, and nothing about out-of-limit or unlimited equipment is priced.',
     [INP, CFG], 'every solver answer', 'tests compare one solved case per formulation',
     ['pipsopf_solver.py', 'opf_execute.py', 'opf.py'], [('packaging', 'pipsopf_solver.pipsopf_solver')],
     ['pipsopf_solver results'])

prop('C34', 'Zonal reserves are formulated and reported as specified',
     'With fixed zonal reserves enabled, the problem requires every zone\'s reserve sum to meet its requirement, every '
     'reserve to lie between zero and the smaller of offered quantity and ramp limit, and output plus reserve to stay '
     'within the maximum output, adds the reserve cost, and reports reserves, limits and prices per unit.',
     [INP, CFG], 'every zone map, requirement, cost, quantity, ramp and status', 'tests solve one case',
     ['toggle_reserves.py'], [('formulation callback', 'toggle_reserves'), ('int2ext callback', 'toggle_reserves')],
     ['callbacks through run_userfcn'])

prop('C35', 'Interface flow limits bound the signed sum of branch flows',
     'With interface limits enabled, the signed sum of the DC flows of each interface\'s in-service branches is bounded '
     'by its limits in per unit and reported, with prices, in the caller\'s terms.',
     [INP, CFG], 'every interface map, limit and flow', 'no test covers it', ['toggle_iflims.py'],
     [('formulation callback', 'toggle_iflims')], ['callbacks through run_userfcn'])

prop('C36', 'DC lines act as coupled terminal injections with losses',
     'With DC lines enabled, each in-service line becomes a pair of generators at its terminals whose outputs are tied '
     'by the line\'s loss characteristic, limits and setpoints are those of the line, and solved flows, losses and '
     'prices are reported against the line; out-of-service lines are untouched.',
     [INP, CFG], 'every line parameter and status', 'tests stop before covering it', ['toggle_dcline.py'],
     [('ext2int callback', 'toggle_dcline'), ('formulation callback', 'toggle_dcline')],
     ['callbacks through run_userfcn'])

prop('C37', 'User callbacks run once each, in order, at their stage',
     'Callbacks registered for a stage run in registration order with their own arguments, each receiving the result '
     'of the previous one; removing a callback removes only its last registration.',
     [HIS], 'every sequence of registrations and removals', 'tests register one set',
     ['add_userfcn.py', 'remove_userfcn.py', 'run_userfcn.py'], [('list per stage', 'add_userfcn.add_userfcn')],
     ['run_userfcn result'])

prop('C38', 'Load totals and load scaling conserve what they claim',
     'Zone totals are the sums of in-service fixed and dispatchable loads of exactly the buses in each zone. Scaling '
     'multiplies loads by the given factor or meets the given total, for the selected kinds of load and zones only, '
     'keeping power factors when asked.',
     [INP, CFG], 'every load, zone map, factor, target and option', 'the tests of it stop early',
     ['total_load.py', 'scale_load.py'], [('zone sums', 'total_load.total_load'), ('scaling', 'scale_load.scale_load')],
     ['total_load, scale_load'])

prop('C39', 'Unit decommitment never returns something worse than all units on',
     'The decommitment procedure returns a successful solution whose cost is no larger than that of the initial '
     'optimal power flow, with the shut down units off at zero output, and with the data of the cheapest candidate '
     'it found at each stage.',
     [INP, HIS], 'every sequence of sub-problem outcomes', 'one test runs it',
     ['uopf.py', 'fairmax.py'], [('best candidate bookkeeping', 'uopf.uopf')], ['uopf result'])

prop('C40', 'Continuation power flow points lie on the loading curve',
     'Each corrected point reported as converged satisfies the power balance at its loading and the chosen '
     'parameterization within tolerance; corrector and predictor use the exact derivatives; the predictor steps along the '
     'normalized tangent. The driver starts each step from the last corrected point, stops by the chosen rule, never '
     'continues from an unsolved base case, and reports every point, the largest loading, and a final case whose loads, '
     'outputs and voltages are those of the reached loading.',
     [INP, CFG], 'every network, voltage, loading direction, step and solver answer', 'no stable test covers it',
     ['cpf_p.py', 'cpf_p_jac.py', 'cpf_corrector.py', 'cpf_predictor.py', 'runcpf.py', 'cpf_callbacks.py'],
     [('corrector', 'cpf_corrector.cpf_corrector'), ('predictor', 'cpf_predictor.cpf_predictor'), ('driver', 'runcpf.runcpf')],
     ['cpf functions', 'runcpf results'])

prop('C41', 'Options combine defaults, base options and overrides without side effects',
     'An options table contains every documented option at its default, or is a copy of the given base table, with the '
     'given overrides on top; neither the base table nor the defaults change. The run functions pass the caller\'s options '
     'on unchanged except for the switch they exist to set, run the method the options ask for, and every documented '
     'positional form of the optimal power flow puts each argument in its role. The report goes to the named file, '
     'after what it holds, or to standard output, with those options, and the solved case to the file named for it.',
     [HIS, CFG], 'every sequence of overrides, option value and call form', 'tests use fixed options and one call form',
     ['ppoption.py', 'opf_args.py', 'runpf.py', 'rundcpf.py', 'rundcopf.py', 'runduopf.py', 'runopf.py', 'runuopf.py', 'dcopf.py',
      'opf_execute.py'],
     [('copy and update', 'ppoption.ppoption'), ('argument forms', 'opf_args.opf_args')], ['ppoption', 'options received'])

prop('C42', 'Solving never modifies the caller\'s case',
     'Power flow, optimal power flow, unit decommitment, conversion, matrix-building, cost and load functions and the '
     'report leave the tables, entries and options of the caller exactly as they were, and changing the result of a '
     'solver or conversion afterwards does not change them either.',
     [INP], 'every value and status pattern', 'tests do not look at the input afterwards',
     ['loadcase.py', 'ext2int.py', 'runpf.py', 'opf_args.py', 'opf_setup.py', 'makeB.py', 'gausspf.py', 'printpf.py'],
     [('copies', 'loadcase.loadcase')], ['input case after the call'])

prop('C43', 'External commercial or IPOPT solvers receive the same problem',
     'Choosing CPLEX, Gurobi, MOSEK or IPOPT instead of the built-in solver poses the same optimization problem and '
     'returns results in the same form.',
     [CFG], 'every problem', 'the solvers are not installed',
     ['qps_cplex.py', 'qps_gurobi.py', 'qps_mosek.py', 'qps_ipopt.py', 'ipoptopf_solver.py'],
     [('translation', 'qps_*')], [])

prop('C44', 'The printed report shows the solved values',
     'The printed report of a solved case shows, against the right bus, unit or branch and to the printed decimals, its voltages, '
     'outputs, flows, losses and prices; system and area totals (loads, capacity, losses, charging, interchange) that are the sums '
     'of exactly the equipment concerned; and limit tables that list exactly the equipment that is at a limit or has a multiplier '
     'above the threshold, with its value, limits and multipliers; the reserve, interface and DC line sections show their units, '
     'interfaces and lines the same way. The report switches select the sections shown.',
     [INP, CFG], 'every solved case', 'tests do not read the report', ['printpf.py', 'toggle_reserves.py', 'toggle_iflims.py', 'toggle_dcline.py'],
     [('report sections', 'printpf.printpf'), ('extension sections', 'userfcn_*_printpf')], ['printpf'])

prop('C45', 'The command line runs the requested analysis with the requested options',
     'The pf and opf commands run exactly the analysis asked for (power flow; OPF, OPF with unit decommitment, OPF with reserves), '
     'once, on the built-in case or file asked for, with the given report and solved-case file names and with the default '
     'options changed exactly as given (the last one counts when repeated), and exit with 0 if it succeeded and 2 if not. Unknown options, malformed values and '
     'surplus arguments run nothing and exit with an error. Every offered option accepts every value of its documented kind.',
     [CFG], 'every option, value, word and combination of files', 'tests do not run the command line', ['main.py', 'ppoption.py'],
     [('option parser', 'main.parse_options'), ('commands', 'main.opf')], ['main.pf', 'main.opf'])

NA = {
    'C43': 'CPLEX, Gurobi, MOSEK and IPOPT bindings cannot be imported here, so there is no executable code path to '
           'encode or replay',
}
NOTE = ('bounded symbolic execution of the current source: every obligation is decided by z3 for all input values within '
        'the bounds in the evidence file; exact real arithmetic instead of floats; numpy/scipy stand-ins trusted, '
        'validated by replaying path witnesses on the real libraries')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        have = glob.glob(os.path.join(HERE, 'checks', pid.lower() + '_*.py'))
        if have and pid not in NA:
            checks.append(dict(property=pid, quick_cmd='./run.sh ' + pid, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + pid,
                               technique='symbolic execution of the real code, decided by z3 (QF_NRA), counterexamples '
                                         'replayed', level='model_checking', level_note=NOTE))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
    m = dict(version=1, setup_cmd='sh ./setup.sh', checks=checks, not_applicable=na,
             notes='no hooks in /repo; checks read /repo/pypower from its current working tree')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'claimed')


main()
