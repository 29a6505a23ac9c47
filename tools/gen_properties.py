"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
R = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    R.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))

PR, SO, MO, OP, OC, UT, HE, RK, AM = ['nosnoc/%s.py' % n for n in
    ('problem', 'solver', 'model', 'nosnoc_opts', 'ocp', 'utils', 'helpers', 'rk_utils', 'auto_model')]

P('C01', 'Every decision variable belongs to exactly one published index group',
  'For every problem that is built, the index groups the problem publishes (states, state derivatives, convex multipliers, Lagrange multipliers, algebraic states, step sizes, controls, global variables, speed-of-time, elastic slack, binaries) together name every entry of the decision vector exactly once, and each group\'s entry for a given control stage, finite element, integrator stage and subsystem names exactly the variables of that place, in order and with that place\'s dimension. The decision vector, its initial guess and its two bound vectors always have the same length, and the constraint vector and its two bound vectors always have the same length.',
  ['inputs', 'configurations'],
  'all models (any n_x, n_u, n_z, number of subsystems, ragged regions per subsystem), all option combinations, all numbers of control stages / finite elements per stage / integrator stages',
  'Tests build a few dozen fixed models, mostly with one subsystem, equal sizes and a uniform number of finite elements; an index that is wrong only for ragged sizes or a later stage still lets IPOPT converge.',
  [PR, UT], [('add_variable / add_constraint / _add_primal_vector / add_step_size_variable', PR), ('FiniteElement.__init__', PR), ('NosnocProblem.__collect_final_element', PR), ('increment_indices, flatten, flatten_layer, create_empty_list_matrix', UT)],
  [('w, lbw, ubw, w0', 'decision vector, bounds, guess', PR), ('ind_*', 'published index groups', PR), ('g, lbg, ubg', 'constraints', PR)],
  ['solver.problem.w / ind_x / ind_lam / ...'])

P('C02', 'Bounds and initial guesses reach the right variables',
  'Every state variable is bounded by the user\'s state bounds and starts at the initial state, every control, user algebraic variable and global variable carries the bounds and guess the user gave for it, and each step size lies within (1 -/+ gamma_h) times the nominal step of its own control stage and starts at the nominal step. Multipliers and convex weights have lower bound zero in the Scholtes and one-sided elastic modes and are unbounded below in the others, Heaviside weights have upper bound one in all modes, and the dual of the simplex constraint is free. The elastic slack and speed-of-time variables carry the bounds and guess from the options.',
  ['inputs', 'configurations'],
  'all bound vectors (including infinite and asymmetric ones), all option combinations, every stage / element / integrator stage / subsystem',
  'Tests use symmetric or infinite bounds, and a bound on the wrong entry usually stays inactive at the tested solutions.',
  [PR, OC, MO], [('FiniteElement.__init__', PR), ('NosnocProblem.__create_control_stage / __create_primal_variables', PR), ('add_variable', PR)],
  [('lbw, ubw, w0', 'bounds and guess', PR)], ['solver.problem.lbw / ubw / w0'])

P('C03', 'Each finite element is the selected Runge-Kutta collocation of the dynamics',
  'On every finite element the stage equations, the end-of-element state and the integrated running cost are exactly those of the selected implicit Runge-Kutta scheme applied with that element\'s step size to the (speed-of-time scaled) dynamics, starting from the end state of the preceding element or the initial state; the integral, differential and lifted representations impose equivalent equations. The algebraic equations of the reformulated system hold at every integrator stage, with that stage\'s own states and algebraic variables and its control stage\'s control and parameters, and the switching equations also hold at the element end wherever boundary multipliers exist.',
  ['inputs', 'configurations'],
  'all dynamics and running costs, all schemes and stage counts, the three representations, all numbers of elements and stages, with and without switch detection',
  'Tests run a handful of small models mostly with 1-3 stages; a wrong coefficient, state or neighbour often still gives a convergent low-order method within the test tolerances.',
  [PR, RK], [('FiniteElement.forward_simulation', PR), ('FiniteElement.X_fe', PR), ('FiniteElement.rk_stage_z', PR)],
  [('g, cost', 'constraints and objective of a finite element', PR)], ['solver.problem.g_fun, cost_fun'])

P('C04', 'Runge-Kutta tableaus have their nominal order',
  'For every scheme and every stage count the library offers, the differential tableau is row-consistent and satisfies the simplifying order conditions of its family (quadrature order 2s for Gauss-Legendre, 2s-1 for Radau IIA, stage order s) up to the precision of the tabulated numbers, and the integral-form coefficients built for the same scheme and stage count reproduce derivative and end value of every polynomial of degree at most s and integrate with the quadrature order of the scheme using the stage values alone. Radau schemes end at the right boundary, Gauss schemes do not, and unsupported stage counts of the tabulated form are refused rather than approximated.',
  ['inputs', 'configurations'],
  'all (scheme, stage count) pairs: the differential tables s=1..9, the integral form s=1..9; all polynomials',
  'Tests integrate with few stage counts and check loose tolerances; a digit wrong in a high-order table changes results below them.',
  [RK, OP], [('generate_butcher_tableu', RK), ('generate_butcher_tableu_integral', RK), ('NosnocOpts.preprocess', OP)],
  [('A_irk,b_irk,B_irk,C_irk,D_irk,irk_time_points', 'coefficients', OP)], ['nosnoc.rk_utils', 'opts after preprocess'])

P('C05', 'Cross-complementarity pairs every multiplier of an element with every weight',
  'With switch detection on, each convex weight at each integrator stage of a finite element is made complementary to its own multiplier at every stage of that element, at the element\'s right boundary point when one exists, and at the end of the preceding element (or to the initial multiplier), either pair by pair or with the multipliers summed as selected; without switch detection it is paired only with its own stage\'s multiplier. No weight is ever paired with a multiplier of another component, stage-inconsistent element or subsystem. The reported complementarity residual is the maximum over all these products.',
  ['inputs', 'configurations'],
  'all numbers of subsystems and regions (ragged), all stage counts, schemes, both cross-complementarity modes, both reformulations, every element position',
  'Tests check that switches are detected on a few one-subsystem examples; a missing pair at one position weakens detection only for particular switch locations.',
  [PR], [('FiniteElement.create_complementarity_constraints', PR), ('FiniteElement.get_complementarity_vector', PR), ('FiniteElementBase.Lambda, Theta, sum_Lambda, get_Lambdas_incl_last_prev_fe', PR)],
  [('ind_comp', 'complementarity constraints', PR)], ['solver.problem.g_fun, comp_res'])

P('C06', 'Each MPCC mode imposes its documented relaxation',
  'For every pair of complementarity vectors the constraints that are added are componentwise those of the selected mode: product (with summed partners) equal to or at most the relaxation parameter for Scholtes; product minus the elastic slack equal to, at most, or two-sided around zero for the elastic modes; the smoothed Fischer-Burmeister sums (with the two weighted augmentation blocks in the augmented mode) equal to zero; and big-M bounds with fresh 0..1 variables for the boolean mode. Elastic modes weight objective and slack with the relaxation parameter as selected, and every added row is listed in the complementarity index group.',
  ['inputs', 'configurations'],
  'all mode values, any number of partner vectors, any vector length (including zero), all values of the parameters',
  'Tests solve tiny problems in several modes and look only at the converged state, where all the relaxations agree.',
  [PR], [('NosnocFormulationObject.create_complementarity', PR), ('NosnocProblem.__init__ elastic cost', PR)],
  [('g, lbg, ubg', 'relaxed complementarity rows', PR)], ['solver.problem.g_fun, lbg, ubg, cost_fun'])

P('C07', 'Step sizes add up to the requested horizon',
  'With variable step sizes and an equidistant control grid the steps of every control stage sum to horizon length divided by the number of stages, and with a free control grid all steps sum to the horizon length, for any number of stages including one; with fixed steps every element has its stage\'s nominal step. With time freezing on an equidistant grid the physical clock at each control stage end matches its grid time within the selected tolerance, and speed-of-time variables multiply dynamics and running cost of their own stage (local) or of all stages (global). The reported step sizes, time grid and control grid are consistent with these steps and end at the horizon.',
  ['inputs', 'configurations'],
  'all horizons, stage counts and numbers of elements per stage (non-uniform included), all speed-of-time and time-freezing options',
  'Tests use one or a few uniform stages, and most check the state rather than the grid.',
  [PR, SO], [('NosnocProblem.__init__', PR), ('FiniteElement.__init__ step size', PR), ('get_results_from_primal_vector', SO)],
  [('ind_h, ind_sot', 'step size and speed-of-time variables', PR)], ['results["t_grid"], ["t_grid_u"], ["time_steps"]'])

P('C08', 'Step equilibration acts exactly between the elements of a control stage',
  'With switch detection on, the selected step-equilibration mode adds exactly its documented term: deviation of every step from its stage\'s nominal step (mean heuristic), or, for each consecutive pair of elements within a control stage, the squared step difference, optionally weighted by the (tanh-scaled) product over components of the switch indicator, or the corresponding equality or complementarity constraint. The switch indicator of a pair multiplies, for every component, the sum of forward and backward multiplier sums times each other plus the forward and backward weight sums times each other, where multiplier sums include the preceding element\'s end. Nothing is added across control stage boundaries or without switch detection.',
  ['inputs', 'configurations'],
  'all modes, numbers of elements and stages, ragged subsystems, all variable values',
  'Tests only check that some modes converge; the indicator is never compared with its definition.',
  [PR], [('FiniteElement.step_equilibration', PR), ('sum_Lambda, sum_Theta', PR)], (), ['solver.problem.g_fun, cost_fun'])

P('C09', 'The dynamic complementarity reformulation selects the right region',
  'For every piecewise-smooth model, the reformulated right-hand side is the sum over subsystems of region vector fields weighted by the convex multipliers (Stewart) or by the multi-affine indicator of the sign pattern in Heaviside weights (Step), so that when the weights indicate one region per subsystem it equals that region\'s vector field. The switching equations define the multipliers as discriminant plus simplex dual (Stewart) or as negative and positive parts of the switching functions (Step), the convexity and user algebraic equations are included once, and the initial multipliers computed from the initial state are the nonnegative complementary solution of these equations in the order in which the problem consumes them.',
  ['inputs', 'programs'],
  'all models: any number of subsystems, switching functions and regions, sign matrices with and without zeros, custom discriminants, general inclusions, parameters and controls',
  'Tests use a handful of models, mostly with one subsystem or equally sized ones.',
  [MO], [('NosnocModel.preprocess_model', MO), ('NosnocModel.create_stage_vars', MO), ('NosnocModel.compute_lambda00', MO)],
  [('z_all', 'order of the algebraic variables', MO)], ['model.f_x_fun, g_z_all_fun, g_z_switching_fun, lambda00_fun'])

P('C10', 'Parameter values reach the expressions they belong to',
  'At every control stage, user dynamics, costs and constraints see that stage\'s own time-varying parameter values and the global parameter values, initial state and relaxation parameters in force when the problem is solved, whatever was set before or between solves and in whatever order. Updating global or time-varying parameters changes those parameters for every stage (respectively stage by stage) and nothing else. Terminal terms see the last stage\'s parameters and global complementarities see the global parameters.',
  ['inputs', 'histories'],
  'all parameter dimensions (zero included), all numbers of stages, all sequences of parameter updates and solves',
  'Tests use global or time-varying parameters in a couple of fixed models, never both with several stages and updates between solves.',
  [MO, SO, PR], [('NosnocModel.preprocess_model parameters', MO), ('NosnocSolverBase.set', SO), ('NosnocSolverBase.setup_p_val', SO), ('NosnocProblem.__init__ p', PR)],
  [('p_val_ctrl_stages, p_val', 'numerical parameter values', MO)], ['the parameter vector passed to the NLP solver'])

P('C11', 'The homotopy drives the relaxation down and reports what happened',
  'The relaxation parameter starts at its initial value, follows the selected update rule from one solve to the next, and the loop stops exactly when the complementarity residual falls below its tolerance, the parameter has reached its final value, or the iteration limit is reached. Every NLP after the first starts from the previous solution with the same bounds and current parameters, and per-iteration statistics, the list of iterates, objective value and solution belong to the solves actually performed, in order. The reported status is success exactly when the last NLP solve performed ended with an accepted IPOPT status.',
  ['histories', 'configurations'],
  'all NLP outcomes (statuses, residual sequences), all sigma schedules, update rules, iteration limits',
  'Tests exercise real IPOPT runs that succeed; failure statuses, limits and early stops are barely reached.',
  [SO, UT], [('NosnocSolver.solve', SO), ('homotopy_sigma_update', SO), ('check_ipopt_success', UT)],
  [('sigma_k, w_all, nlp_iter, cpu_time_nlp', 'loop state and statistics', SO)], ['results of solve()'])

P('C12', 'Results are read from the right entries of the solution',
  'Every trajectory in the results is the solution vector read at the entries of its own quantity: states at element ends in time order preceded by the initial state, all stage states, controls and speed-of-time per stage, global variables, and weights, multipliers and algebraic variables at the last stored point of every element, kept apart per subsystem. The final state is the state at the end of the last element. Reported switch times are the grid times of exactly those element boundaries across which some weight changes by more than 0.1.',
  ['inputs', 'configurations'],
  'all solution vectors, all layouts (ragged subsystems, non-uniform elements, all representations and schemes)',
  'Tests check final states and a few arrays on fixed layouts.',
  [SO, UT], [('get_results_from_primal_vector', SO), ('flatten_layer, flatten_outer_layers, get_cont_algebraic_indices', UT)], (), ['results of solve()'])

P('C13', 'Setting and initializing values writes exactly the addressed entries',
  'Setting initial values for states, controls, global variables, convex weights or the whole vector writes the given numbers into exactly the addressed entries of the initial guess, with one row per control stage or per finite element as documented, and leaves all other entries unchanged. Before each solve the initialization strategy overwrites the state guesses with the current initial state (current-state strategies), keeps the guess (external), or continues from the previous solution (warm start), and nothing else. Unknown fields and wrong leading dimensions are refused.',
  ['inputs', 'histories'],
  'all fields, values, layouts, sequences of set and solve calls, initialization strategies',
  'Tests call set for x0, x and u on uniform layouts.',
  [SO], [('NosnocSolverBase.set', SO), ('NosnocSolverBase.initialize', SO), ('NosnocSolver.solve', SO)],
  [('w0', 'initial guess', PR)], ['solver.problem.w0'])

P('C14', 'The simulation loop chains steps without losing or mixing data',
  'Each simulation step starts from the final state of the previous one (the first from the given initial state) with that step\'s parameter values and initial guess, and the collected trajectories, steps, statuses, costs, solutions, switch times (shifted by the elapsed time) and the time grid are the concatenation of the per-step results in order. The loop refuses problems that are not pure simulation problems and parameter arrays of the wrong shape. When asked to stop on failure, it stops right after the first step that reports failure, and otherwise it always performs all steps.',
  ['histories', 'inputs'],
  'all sequences of step outcomes, all numbers of steps, parameter and guess sequences',
  'Tests run successful simulations with few steps.',
  [HE, PR], [('NosnocSimLooper.run / get_results / __init__', HE), ('NosnocProblem.is_sim_problem', PR)], (), ['looper.get_results()'])

P('C15', 'Path, terminal and complementarity terms act where the user asked',
  'User path constraints with the user\'s bounds are imposed at the end of every control stage, additionally at every element end or at every integrator stage when selected, with the state of that point and the control and parameters of that stage; the terminal constraint and cost act once on the final state. User complementarities are imposed once per integrator stage if they depend on states or algebraic variables, else once per control stage if they depend on controls or time-varying parameters, else once globally. The objective is exactly running cost plus terminal cost plus the selected equilibration and elastic terms.',
  ['inputs', 'configurations'],
  'all user expressions and bounds, all numbers of stages and elements (non-uniform included), all schemes and representations',
  'Tests use path constraints in one or two optimal control problems with uniform grids.',
  [PR, OC], [('FiniteElement.forward_simulation path constraints', PR), ('FiniteElement.create_complementarity_constraints', PR), ('NosnocOcp.preprocess_ocp', OC), ('NosnocProblem.__init__', PR)], (), ['solver.problem.g_fun, cost_fun, lbg, ubg'])

P('C16', 'Automatic reformulation preserves the nonsmooth right-hand side',
  'For every right-hand side built from smooth operations, sign, min and max, the model produced by the general-inclusion reformulation equals the original right-hand side at every point where no switching function vanishes when each Heaviside weight takes the value indicated by its switching function (one if positive, zero if negative). It has one weight per switching function in matching order. The smoothness, additivity and component-splitting queries answer consistently with the expression: the components sum to the expression, and an expression is called smooth exactly when it contains no nonsmooth operation.',
  ['programs', 'inputs'],
  'all expression trees over the supported operations, any nesting of smooth operations around nonsmooth ones',
  'Tests compare a few one-line expressions.',
  [AM], [('NosnocAutoModel._rebuild_nonlin', AM), ('_find_nonlinear_components, _check_smooth, _check_additive', AM), ('reformulate', AM)], (), ['NosnocAutoModel.reformulate()'])

P('C17', 'Options are isolated, validated and completed consistently',
  'Option objects do not influence each other: changing or preprocessing one never changes another, and preprocessing twice gives the same options as once. A user-set inner NLP tolerance, iteration limit, homotopy iteration limit or list of elements per stage is kept; unset ones are derived (tolerance one hundredth of the complementarity tolerance, applied to all inner tolerances; the homotopy iteration limit is one plus the rounded number of linear updates from the initial value to the complementarity tolerance; the same number of elements on every stage). Values of the wrong type are refused.',
  ['configurations', 'histories'],
  'all option values, any number of option objects created and modified in any order',
  'Tests create options one at a time and rarely inspect them.',
  [OP, UT], [('NosnocOpts.preprocess, tol_ipopt, nlp_max_iter', OP), ('validate', UT)], (), ['NosnocOpts fields, opts_casadi_nlp'])

P('C18', 'Inconsistent inputs are refused and missing inputs get neutral defaults',
  'A model or optimal control problem whose dimensions, types or combination of fields are inconsistent (bounds or guesses of wrong length, both or neither region descriptions, wrong list types, region counts, parameter value shapes, path complementarities not of width two, a reformulation mode that cannot represent the model) is refused with an error when the problem is built. Fields left unset become infinite bounds, zero guesses, zero parameter values and empty or zero expressions of the right dimension, and supplied values are used unchanged. The detected dimensions equal those of the supplied expressions.',
  ['inputs'],
  'all combinations of supplied, missing and mis-sized fields',
  'Tests contain a few negative cases.',
  [MO, OC], [('NosnocModel.__init__, preprocess_model', MO), ('NosnocOcp.preprocess_ocp', OC)], (), ['exceptions; model.dims; ocp fields'])

P('C19', 'Least-squares handling penalizes exactly the equality constraints',
  'With least-squares constraint handling the objective is the original objective plus the sum of squares of all constraint residuals, no constraints remain, and variable bounds are unchanged. A problem with any constraint that is not an equality to zero is refused instead of being changed silently. Constraint values of the original problem remain available.',
  ['inputs', 'configurations'],
  'all problems and variable values, all bound patterns',
  'One test solves a tiny problem in this mode.',
  [PR], [('NosnocProblem.__init__ LEAST_SQUARES', PR)], (), ['solver.problem.cost, g, lbg, ubg, g_fun'])

P('C20', 'Polishing fixes only weights and multipliers that are numerically decided',
  'The polishing step solves the unrelaxed problem starting from the given iterate, with bounds changed only for convex weights, multipliers and simplex duals that lie within ten complementarity tolerances of zero or one, which are fixed to exactly zero or one; states, controls, step sizes, algebraic, global, slack, speed-of-time and binary variables keep their bounds, and the problem\'s own bounds are not modified. It handles every variable layout the library can build. The polished solution, its status and its statistics are the ones reported.',
  ['inputs', 'configurations'],
  'all iterates and layouts',
  'One test polishes one small simulation.',
  [SO], [('NosnocSolver.polish_solution', SO)], (), ['bounds, guess and parameters passed to the NLP solver; results of solve()'])

P('C21', 'Smoothed initialization reproduces the smoothed dynamics consistently',
  'The smooth approximation built for RK4 initialization weights region vector fields by products of smoothed Heaviside functions of the switching functions such that, for full sign patterns, the weights of each subsystem are nonnegative and sum to one, and its right-hand side is the weighted sum. In the representations with stage states, initialization with it writes into every stage\'s state, weight and multiplier guess the values at that stage\'s time of the RK4 solution from the current initial state, each into its own subsystem\'s entries.',
  ['inputs', 'configurations'],
  'all models with a sign matrix description (one control stage, explicit right boundary), any number of subsystems, elements and stages',
  'One test checks only that a solve with this initialization succeeds.',
  [MO, SO, RK], [('NosnocModel.add_smooth_step_representation', MO), ('NosnocSolverBase.initialize RK4 branch', SO), ('rk4_on_timegrid', RK)], (), ['model.f_x_smooth_fun, theta_smooth_fun; solver.problem.w0'])

P('C22', 'Converged solutions approximate the Filippov solution with full order',
  'When the homotopy succeeds, the computed trajectory converges to the Filippov solution with the order of the integrator as the number of elements grows, with switches located to that accuracy.',
  ['inputs'], 'all models with finitely many transversal switches',
  'Order can only be sampled numerically.', [PR, SO], [('whole pipeline', PR)], (), ['trajectories'])
P('C23', 'Plots show the reported data',
  'Iterate and sparsity plots draw the quantities they are labelled with.', ['inputs'], 'all results',
  'Plots are not tested.', ['nosnoc/plot_utils.py'], [('plot_utils', 'nosnoc/plot_utils.py')], (), ['figures'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in R:
        f.write(json.dumps(r) + '\n')
print(len(R))
