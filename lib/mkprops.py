#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when checks/<id>_*.cpp exists;
that file's //@technique, //@level and //@note lines describe the check."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/sleipnir/"
A, O, S, U, Y = I + "autodiff/", I + "optimization/", I + "optimization/solver/", I + "optimization/solver/util/", I + "util/"

# id, title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanisms, observe_at
P = [
("P01", "Shared ownership destroys each object exactly once, with its last owner",
 "After any history of creating, attaching, copying, moving, converting, assigning (including self-assignment and assignment from something the target itself owns), clearing, comparing and swapping shared pointers, every pointer refers to the object it was last given and every live object's owner count equals the number of pointers that own it. An object is destroyed exactly when its last owner goes, never earlier, never later and never twice, and no operation touches a destroyed object.",
 ["histories"], "every operation history over a few pointers and objects that may own each other",
 "the 19 stable tests exercise single operations on one or two pointers; a history in which the assigned-from pointer dies with the assigned-to object is not among them",
 [Y + "intrusive_shared_ptr.hpp"], [("reference count in constructors, assignments, destructor", Y + "intrusive_shared_ptr.hpp IntrusiveSharedPtr")],
 ["counted destructions", "owner count", "pointer identity"]),
("P02", "A scope guard's action runs exactly once, at the end of the owning scope",
 "A scope guard runs its action exactly once, when the guard that currently holds it is destroyed, however the scope is left (normally or by exception) and however often the guard was moved; once released, or moved from, a guard runs nothing. Guards in one scope run in reverse order of construction.",
 ["histories"], "every sequence of construct, move, release, normal exit and throwing exit over several guards",
 "two tests cover one guard leaving scope normally and one released guard; moves and exceptional exits combine in unboundedly many ways",
 [Y + "scope_exit.hpp"], [("active flag cleared by move and release", Y + "scope_exit.hpp scope_exit")], ["action call counts and order"]),
("P03", "A function reference always calls the callable it was last bound to",
 "Calling a function reference invokes exactly the callable most recently bound to it by construction, assignment, copy or swap, with the arguments given and the result returned unchanged, for every kind of callable (function, stateful object, const object). A copy of a function reference keeps calling the original callable even when the reference it was copied from is rebound or destroyed.",
 ["histories"], "every sequence of bind, copy, assign, rebind, swap, destroy and call over several references and callables",
 "no stable test covers it; a stale binding only shows after a specific assign/rebind order",
 [Y + "function_ref.hpp"], [("type-erased object pointer and trampoline", Y + "function_ref.hpp function_ref")], ["which callable ran, with what argument and result"]),
("P04", "Slices select what Python's slice semantics select, and never step out of range",
 "For every start, stop and step (present, absent, negative, zero-length, or far out of range) and every length, adjusting a slice yields the same start, stop and number of elements as Python's slice.indices, and every index it then produces lies inside the sequence. Steps that cannot be negated are handled without undefined behaviour.",
 ["inputs"], "all combinations of start, stop, step and length in a range that contains every boundary, plus extreme integers",
 "the stable tests list a few dozen triples over one length",
 [A + "slice.hpp"], [("Slice::adjust", A + "slice.hpp Slice")], ["adjusted start/stop/step", "returned count"]),
("P05", "Building an expression never changes the value it denotes",
 "For every expression built from constants, decision variables and the supported operators and functions, its value equals that of the same formula evaluated directly in the scalar type, wherever that is finite, at every assignment of the variables. Simplifications made while building (constant folding, dropping neutral or absorbing operands) never change that value, and re-assigning a variable is always reflected by the next evaluation.",
 ["programs", "inputs"], "every expression up to a depth over a small operand alphabet containing the special values, at every point of a grid",
 "tests evaluate a fixed list of formulas at one point each; simplifications trigger on particular operand kinds and values in combination",
 [A + "expression.hpp", A + "expression_graph.hpp", A + "variable.hpp"],
 [("constant folding and pruning in the operator functions", A + "expression.hpp"), ("update_values in topological order", A + "expression_graph.hpp")],
 ["Variable::value()"]),
("P06", "Gradients, Jacobians and Hessians are the true derivatives",
 "For every expression and every point where it is differentiable, the gradient, Jacobian and Hessian, both as evaluated matrices and as expressions, equal the mathematical first and second derivatives of the denoted function, entry by entry, including for variables that do not occur, occur many times, or occur through shared subexpressions. The lower-triangle Hessian is the lower triangle of the full one.",
 ["programs", "inputs"], "every expression (and pair of rows) up to a depth over a small alphabet, with all orders and subsets of the differentiation variables, on a grid of points",
 "tests compare a fixed list of formulas at a point or two; a wrong rule for one operand side or one linear/nonlinear caching branch shows only in specific combinations",
 [A + "expression.hpp", A + "gradient.hpp", A + "jacobian.hpp", A + "hessian.hpp", A + "expression_graph.hpp"],
 [("grad_l/grad_r and grad_expr_l/grad_expr_r rules", A + "expression.hpp"), ("linear rows cached, nonlinear rows re-evaluated", A + "jacobian.hpp, " + A + "hessian.hpp")],
 ["Gradient/Jacobian/Hessian value() and get()"]),
("P07", "The reported expression type is never lower than the function's real degree",
 "The type reported for an expression (none, constant, linear, quadratic, nonlinear) is an upper bound of the polynomial degree of the function it denotes, so a quantity called constant, linear or quadratic really is. Combining types behaves as the degree lattice: operations give exactly the smallest type that is sound for arbitrary operands of the given types.",
 ["programs"], "every expression up to a depth over operands of every type, with degree checked by exact finite differences",
 "tests check a handful of type results; solver choice and derivative caching rely on the type for all expressions",
 [A + "expression.hpp", A + "expression_type.hpp", A + "variable.hpp"],
 [("type propagation per operator", A + "expression.hpp"), ("derivative caching by type", A + "jacobian.hpp, " + A + "hessian.hpp")], ["type()"]),
("P08", "Derivative objects stay correct under any interleaving of use",
 "Any number of gradients, Jacobians and Hessians over expressions that share nodes can be created, evaluated, turned into expressions and destroyed in any order, interleaved with variable assignments and with building further expressions, and each always returns the value for the current assignment. Evaluating one never disturbs another or any variable.",
 ["histories"], "every interleaving up to a depth of create, evaluate, get, assign and destroy on several derivative objects sharing one expression graph",
 "tests use one derivative object at a time; adjoint scratch, caches and evaluation order stored in shared nodes are only visible across objects",
 [A + "expression_graph.hpp", A + "gradient.hpp", A + "jacobian.hpp", A + "hessian.hpp"],
 [("scratch fields in shared nodes (adjoint, column, incoming edges) restored after use", A + "expression_graph.hpp, expression.hpp")], ["value() after every step"]),
("P09", "Expression graphs of any shape and size are memory safe and leak nothing",
 "Creating, sharing, overwriting and destroying expressions of any shape, depth, order of destruction and mixture of scalar types never touches freed or foreign memory, never overflows the stack, and returns every node for reuse once nothing refers to it. Two live expression nodes never share storage.",
 ["histories", "programs"], "every history up to a depth of building, overwriting and dropping expressions over shared nodes, plus chains up to a million nodes, under a memory checker",
 "tests build well-formed problems that die in one order; node recycling and iterative teardown are exercised by specific orders and sizes",
 [A + "expression.hpp", Y + "pool.hpp", Y + "intrusive_shared_ptr.hpp"],
 [("pool free list and blocks", Y + "pool.hpp"), ("iterative reference-count teardown", A + "expression.hpp dec_ref_count")], ["memory checker reports", "node addresses"]),
("P10", "Matrix views address exactly the selected elements, for reading and writing",
 "A block, row, column, segment or (possibly strided or reversed) slice of a variable matrix, and any such view of a view, refers to exactly the elements the same selection gives on an index matrix, in the same shape and order. Reading, assigning scalars, matrices or values through a view changes exactly those elements of the underlying matrix and no others.",
 ["programs", "inputs"], "every view of every matrix up to a size, and every view of such a view, with every way of reading and writing",
 "tests check a few slices of one matrix; nested strided offsets compose in ways a few examples cannot cover",
 [A + "variable_block.hpp", A + "variable_matrix.hpp", A + "slice.hpp"],
 [("composition of slices", A + "variable_block.hpp"), ("block/row/col/segment/operator[]", A + "variable_matrix.hpp")], ["element identity and values"]),
("P11", "Matrix arithmetic on variables equals matrix arithmetic on their values",
 "Every operation on variable matrices and views (sum, difference, product, scaling, division, transpose, element-wise map, reduction, block assembly, repetition, linear solve, power, comparison of shapes, compound assignment) yields the matrix the same operation yields on the current values, in value, shape and order, for all shapes it accepts. This also holds when operands alias the result.",
 ["programs", "inputs"], "every operation over all shapes up to a bound, all operand kinds (matrix, view, numeric matrix, scalar) and all aliasing patterns",
 "tests use one or two shapes per operation and never alias operands and results",
 [A + "variable_matrix.hpp", A + "variable_block.hpp"],
 [("operator implementations and closed-form solves up to 4x4", A + "variable_matrix.hpp")], ["value()", "rows()/cols()"]),
("P12", "Iterating a matrix or view visits each element once, in row-major order",
 "Forward, reverse, const and standard-algorithm iteration over a variable matrix or view visits each element exactly once in row-major (or exactly reversed) order, iterator arithmetic and comparison agree with element positions, and writing through an iterator changes that element of the underlying matrix.",
 ["programs", "inputs"], "every matrix and view up to a size and every pair of iterator positions",
 "tests iterate over one or two matrices front to back",
 [A + "variable_matrix.hpp", A + "variable_block.hpp"], [("iterator and const_iterator", A + "variable_matrix.hpp, " + A + "variable_block.hpp")], ["visited elements"]),
("P13", "Constraints mean what was written",
 "A constraint built from any combination of scalars, variables, matrices and views with =, <, <=, > or >= has one row per element pair, in order, whose sign and value express exactly the written relation, and it converts to true exactly when the relation holds at the current values. Bounds written as lower <= x <= upper, and concatenations of constraints, express all their parts in order.",
 ["programs", "inputs"], "every relation over all operand kinds, shapes up to a bound and value combinations around equality",
 "tests cover each operand-kind pair at a few values; orientation and broadcasting errors depend on kind, side and shape together",
 [A + "variable.hpp"], [("make_constraints, relational operators, bounds()", A + "variable.hpp")], ["constraint values", "bool conversion"]),
("P14", "The filter accepts exactly the iterates that no history entry dominates",
 "For every history of accepted iterates, second-order corrections, resets and feasibility bounds, the filter accepts a trial point exactly when it makes the documented sufficient progress (Armijo decrease of the cost, up to the cost's rounding error, when the switching condition holds, or improvement against the current point) and is not dominated by any retained entry. Non-finite cost or violation is never acceptable, and an accepted entry removes only entries it dominates.",
 ["histories", "inputs"], "every history up to a depth of trial entries over a grid of cost and violation levels including infinities and NaN, against a keep-everything reference filter",
 "no unit test covers the filter; solver tests exercise a single trajectory through it",
 [U + "filter.hpp"], [("Filter::try_add, add, is_acceptable", U + "filter.hpp")], ["accept/reject decisions"]),
("P15", "Bound detection and projection keep exactly the bound constraints' meaning",
 "From any set of inequality constraints, exactly those that bound a single decision variable are recognised, the derived interval for each variable equals the intersection of those constraints, conflicting bounds are exactly those with an empty intersection, and a problem with conflicting bounds is reported as globally infeasible. Projecting any starting point onto the bounds yields a point strictly inside every interval that has an interior and on the bound otherwise, leaving points already well inside unchanged.",
 ["inputs", "programs"], "all small sets of linear inequality rows over a coefficient alphabet and all starting points on a grid",
 "tests cover a few bound sets; interplay of signs, scaling and repeated bounds is combinatorial",
 [U + "bounds.hpp", O + "problem.hpp"], [("get_bounds, project_onto_bounds", U + "bounds.hpp")], ["bounds, conflict list, projected point", "exit status"]),
("P16", "The fraction-to-the-boundary step is the largest admissible one",
 "For every positive vector, direction and fraction, the step length returned lies in (0, 1], keeps every component at or above the required fraction of its distance to zero, and no larger step length up to one does.",
 ["inputs"], "all vectors up to a dimension with components over a grid spanning magnitudes, signs and zero",
 "no unit test covers it; solver tests see only smooth trajectories",
 [U + "fraction_to_the_boundary_rule.hpp"], [("fraction_to_the_boundary_rule", U + "fraction_to_the_boundary_rule.hpp")], ["returned step length"]),
("P17", "The optimality error and problem scaling match their definitions",
 "The optimality error used as the convergence test equals its documented definition in every problem class (stationarity, complementarity, equality and inequality residuals with the documented scaling), so it is zero exactly at points satisfying the optimality conditions and never underestimates a residual beyond that scaling. Problem scaling factors are finite, positive, at most one, and exactly the documented function of the derivative magnitudes, and the error reported for a scaled problem is that of the original one.",
 ["inputs"], "all small derivative, constraint and multiplier combinations over a value alphabet, against a dense reference",
 "no unit test covers it; a wrong norm or missing term still converges on the solver tests",
 [U + "kkt_error.hpp", U + "problem_scaling.hpp", U + "sparse_inf_norms.hpp"], [("kkt_error overloads", U + "kkt_error.hpp"), ("ProblemScaling", U + "problem_scaling.hpp")], ["returned errors and factors"]),
("P18", "Local infeasibility is declared exactly when its definition holds",
 "The tests for local infeasibility of equality and inequality constraints fire exactly when the constraint violation exceeds the threshold while the gradient of the violation norm is below its threshold, independent of constraint order and of satisfied inequality rows. Multipliers estimated after restoration are a least-squares solution of the stationarity and complementarity conditions (even where constraint gradients are linearly dependent), with inequality multipliers kept within the documented range.",
 ["inputs"], "all small Jacobians and constraint values over an alphabet, against a dense reference",
 "only end-to-end solver tests reach these",
 [U + "is_locally_infeasible.hpp", U + "lagrange_multiplier_estimate.hpp"], [("is_equality_locally_infeasible, is_inequality_locally_infeasible", U + "is_locally_infeasible.hpp"), ("lagrange_multiplier_estimate", U + "lagrange_multiplier_estimate.hpp")], ["returned flags and multipliers"]),
("P19", "The regularized factorization always yields a descent system with right inertia",
 "For every symmetric KKT matrix, in every order of successive factorizations on one object, a reported success means the factorized matrix has exactly the required numbers of positive, negative and zero eigenvalues, equals the given matrix plus the reported regularization (none when none was needed), and solving with it solves that system. This holds for the dense and the sparse variant, whatever was factorized before, and every finite matrix can be factorized.",
 ["inputs", "histories"], "all small integer KKT matrices over an alphabet and all short sequences of them, dense and sparse",
 "tests cover solves of fixed problems; inertia correction branches need singular or indefinite matrices in sequence",
 [U + "regularized_ldlt.hpp", U + "dense_regularized_ldlt.hpp", U + "sparse_regularized_ldlt.hpp", U + "inertia.hpp"], [("regularization loop", U + "dense_regularized_ldlt.hpp, sparse_regularized_ldlt.hpp"), ("Inertia", U + "inertia.hpp")], ["info()", "solve()", "regularization"]),
("P20", "Sparse assembly helpers place every entry exactly where it belongs",
 "Appending a stack of matrices or a diagonal at an offset produces exactly the entries of the dense construction, in the column-major order sorted assembly needs; sparse norms and finiteness tests agree with the dense ones for every pattern, including stored zeros, empty matrices and non-finite values.",
 ["inputs"], "all small sparse patterns and offsets over a value alphabet including zero, infinities and NaN",
 "no unit test covers these",
 [U + "append_as_triplets.hpp", U + "sparse_inf_norms.hpp", U + "all_finite.hpp"], [("append_as_triplets, append_diagonal_as_triplets", U + "append_as_triplets.hpp")], ["assembled matrices", "norms", "flags"]),
("P21", "A reported outcome is true of the returned point",
 "Whenever a solve reports success, the variables hold a finite point that satisfies every constraint and the first-order optimality conditions to within the tolerance (after the documented scaling); a strictly convex quadratic program whose constraints have an interior is solved; whenever it reports local or global infeasibility the constraints really are infeasible there. No problem whose constraints cannot be satisfied, however trivial (including constant constraints), is reported as solved.",
 ["programs", "inputs"], "all small problems over an alphabet of costs, equality and inequality constraints and starting points, each outcome certified independently",
 "tests solve a fixed list of well-posed problems; the claim is about every problem and every exit path",
 [O + "problem.hpp", S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", U + "kkt_error.hpp"], [("convergence tests on scaled optimality error", S + "interior_point.hpp, sqp.hpp, newton.hpp"), ("early exits", O + "problem.hpp")], ["exit status", "variable values"]),
("P22", "Non-finite evaluations never turn into a reported success",
 "If the starting point, the cost, a constraint or any derivative is or evaluates to a non-finite number, at any single evaluation or from any evaluation on, the solve ends with a truthful status within its iteration budget, never reports success for a point at which the variables, the cost, the constraints or their gradients are non-finite, and never hangs or crashes. A transient fault that the line search can step around does not stop a strictly convex problem from being solved.",
 ["fault_sequences"], "every evaluation index of every callback of several problems in all three solvers, made NaN or infinite once or persistently",
 "tests inject a bad value at the start only",
 [S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", U + "all_finite.hpp"], [("finiteness checks at start and in the line search", S + "interior_point.hpp, sqp.hpp, newton.hpp")], ["exit status", "returned point", "number of evaluations"]),
("P23", "Iteration callbacks, iteration limits and timeouts are honoured exactly",
 "Callbacks run once per iteration in the order they were added, persistent ones after the others and despite clearing, cleared ones never; a callback that asks to stop stops the solve in that iteration with the callback-requested status wherever the solver is at the time. The solve performs at most the configured number of iterations (one, if the limit isn't positive) and returns the corresponding status, and it stops with the timeout status in the first iteration that ends after the configured duration has elapsed.",
 ["histories", "fault_sequences"], "every stop iteration, iteration limit and clock schedule over several problems, solvers and callback registration histories",
 "tests cover a stop in the first iteration and one timeout of zero",
 [O + "problem.hpp", S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", U + "feasibility_restoration.hpp"], [("callback loop, iteration and clock checks", S + "interior_point.hpp, sqp.hpp, newton.hpp")], ["callback trace", "exit status"]),
("P24", "The solver fits the problem, and trivial problems are answered rightly",
 "The reported types of cost and constraints are the highest types added, the unconstrained, equality-constrained or interior-point method is used according to which constraints exist, and a problem without freedom or with more equality constraints than variables is answered immediately with the right status. Adding a cost or constraint in any order or grouping, or using maximize instead of minimizing the negation, gives an equivalent problem.",
 ["programs", "histories"], "every order and grouping of a small alphabet of costs and constraints",
 "tests check the type triple for individual problems",
 [O + "problem.hpp"], [("solve() dispatch", O + "problem.hpp")], ["cost_function_type and friends", "exit status", "diagnostic output"]),
("P25", "Re-solving depends only on the problem and starting point, not on history",
 "Solving a problem again after changing starting values, adding constraints or replacing the cost gives the same result as solving a freshly built identical problem from the same starting point, for any history of previous solves, failures, callbacks and other problems. Solving never alters anything but the decision variables.",
 ["histories"], "every history up to a depth of solve, set value, add constraint, replace cost and interleaved second problem",
 "tests solve each problem once",
 [O + "problem.hpp", A + "expression_graph.hpp"], [("solve() builds derivatives afresh and writes back the solution", O + "problem.hpp")], ["variable values and statuses"]),
("P26", "Iteration info handed to callbacks is the truth about the current iterate",
 "In every iteration, including those made while restoring feasibility, the information given to a callback is consistent: the iteration number counts up from zero, the iterate is the point being iterated on, and the gradient, Hessian and Jacobians are the true derivatives of the problem at that iterate (with the scaling in force).",
 ["programs", "histories"], "every iteration of every solve of a family of problems that includes restoration phases",
 "tests only count callbacks",
 [S + "iteration_info.hpp", S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", U + "feasibility_restoration.hpp", O + "problem.hpp"], [("IterationInfo construction", S + "*.hpp")], ["callback arguments"]),
("P27", "The feasible interior-point option keeps iterates feasible",
 "With the feasible-interior-point option, once all inequality constraints hold strictly at an iterate, they hold at all later iterates and at the result, however the steps were chosen, unless feasibility restoration (which relaxes all constraints) is entered.",
 ["programs", "inputs"], "all small inequality-constrained problems over an alphabet and a grid of starting points, observing every iterate",
 "one test uses the option",
 [S + "interior_point.hpp", S + "options.hpp"], [("slack reset from constraint values", S + "interior_point.hpp")], ["iterates seen by callbacks"]),
("P28", "Multistart returns the best outcome of all its starts, whatever the schedule",
 "Multistart runs the solve function exactly once for every initial guess and returns, for every interleaving of the concurrent solves and every combination of outcomes, a result that one of them produced: a successful one with the lowest cost whenever any succeeded. Its result does not depend on the order in which the solves finish.",
 ["schedules", "inputs"], "all completion orders and all combinations of statuses and costs (including ties and non-finite costs) for up to four starts",
 "one test runs two starts once under whatever schedule the machine picks",
 [O + "multistart.hpp"], [("async launch and minimum over results", O + "multistart.hpp")], ["calls made, returned result"]),
("P29", "Optimal control transcriptions encode the stated dynamics",
 "For every dynamics type, timestep method and transcription method, a trajectory satisfies the generated constraints exactly when it satisfies the documented discretisation (RK4 steps, trapezoidal-Hermite collocation, or recurrence) of the given dynamics from the given initial state, with the timestep method's relation between steps and the timestep bounds enforced. State, input and timestep accessors expose exactly the decision variables used, and per-step constraints apply to each step once.",
 ["configurations", "inputs"], "all combinations of dynamics type, timestep method, transcription method and step count, with perturbation of every variable",
 "tests solve two physical systems and look at the solution",
 [O + "ocp.hpp"], [("constrain_direct_collocation, constrain_transcription, constrain_single_shooting", O + "ocp.hpp")], ["constraint residuals", "solutions"]),
("P30", "Independent problems on different threads do not affect each other",
 "Building, evaluating, solving and destroying independent problems on different threads gives each thread exactly the results it gets alone, for every interleaving, without data races or memory errors, including when a thread ends while others keep working and when results are handed to another thread.",
 ["schedules"], "all interleavings at allocation and operation granularity of small per-thread histories, plus a free-running race-detector pass",
 "one test runs two concurrent solves once",
 [Y + "pool.hpp", A + "expression.hpp", O + "multistart.hpp"], [("thread-local node pool", Y + "pool.hpp, src/util/pool.cpp")], ["values per thread", "race and memory checker reports"]),
("P31", "Diagnostics, formatters and pattern files state exactly what they describe",
 "Printed names, formatted values, iteration tables, infeasibility reports and sparsity-pattern files correspond exactly to the statuses, matrices and constraints they describe: every status and type has its own name, every violated constraint (and no other) is listed, and a pattern file decodes to the written matrices. Formatting never fails or alters what is described.",
 ["inputs"], "all values of every enumeration, all small matrices and constraint vectors, all written sequences of matrices",
 "tests format a few values; files and reports aren't read back",
 [Y + "print_diagnostics.hpp", Y + "spy.hpp", Y + "print.hpp", S + "exit_status.hpp", A + "expression_type.hpp", U + "inertia.hpp"], [("formatters", S + "exit_status.hpp"), ("Spy", Y + "spy.hpp"), ("report functions", Y + "print_diagnostics.hpp")], ["produced text and bytes"]),
("P32", "Profilers account for time exactly",
 "For every sequence of starts and stops under any clock behaviour, a setup profiler's duration and a solve profiler's count, total, current and average durations equal those computed from the clock readings taken at its starts and stops. A scoped profiler stops exactly once, at the end of its scope or when stopped explicitly. The time traces and iteration durations a solve prints equal the evaluations made and the time spent in them.",
 ["histories", "programs"], "every sequence up to a depth of start, stop, scope and clock advance on a controlled clock; every solve of a family of problems whose evaluations take known amounts of time",
 "no unit test covers it",
 [Y + "profiler.hpp", Y + "print_diagnostics.hpp", S + "newton.hpp", S + "sqp.hpp", S + "interior_point.hpp"], [("SetupProfiler, SolveProfiler, ScopedProfiler", Y + "profiler.hpp"), ("profiled matrix callbacks and phases", S + "*.hpp")], ["reported durations and counts", "printed time traces"]),
("P33", "Solvers called directly with matrix callbacks keep their contract",
 "A solver called directly with matrix callbacks evaluates them only at vectors of the declared sizes, and does the same as with unit factors when no scaling is given, whichever overload is used. When it reports success under any positive scaling factors, the returned point, slacks and duals satisfy the optimality conditions of the unscaled problem within the tolerance, and solving again from them succeeds immediately without moving. Iterations are counted on from the given number.",
 ["programs", "configurations"], "all small problems as matrix callbacks under several scalings and all overloads, with and without feasibility restoration",
 "every test goes through Problem, which always supplies all scaling factors and drops the duals",
 [S + "newton.hpp", S + "sqp.hpp", S + "interior_point.hpp", U + "feasibility_restoration.hpp", U + "problem_scaling.hpp", U + "kkt_error.hpp"], [("solver overloads", S + "*.hpp"), ("restoration's scaling", U + "feasibility_restoration.hpp")], ["arguments of matrix callbacks", "returned primal and dual point", "exit status"]),
("P34", "Build options, output options and the scalar type don't change results",
 "A solve computes the same, bit for bit, with and without diagnostics, sparsity-pattern files and iteration callbacks, whether or not diagnostics support was compiled in, and for a user-defined scalar type that behaves like double. Nothing is written to standard output or to files unless asked for and compiled in. Compiled with bound projection, solves of problems without bounds are unchanged too; those with bounds start inside the bounds, and what they report is true of the returned point.",
 ["configurations", "programs"], "every build option and combination of output options, for all small problems over an alphabet of costs, rows and starting points",
 "the tests are run in one build configuration at a time and compare solutions to tolerances",
 [O + "problem.hpp", S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", U + "feasibility_restoration.hpp", Y + "profiler.hpp", Y + "print.hpp"],
 [("conditional compilation", S + "*.hpp, " + O + "problem.hpp"), ("diagnostics and spy options", O + "problem.hpp")], ["iterates", "exit status", "written bytes"]),
("P35", "The matrix exponential is that of the matrix's current values",
 "exp() of a square matrix or view of variables and constants has, at every assignment of values to the variables and not just those it had when the expression was built, the matrix exponential of those values as its value, and that function's first and second derivatives as its derivatives. The operand is left unchanged.",
 ["inputs", "sequences"], "every pair of value matrices over a grid (built at one, evaluated at the other), every pattern of constants and zeros, views and sizes up to 7x7",
 "the test evaluates a handful of matrices at the values they were built with, and mostly checks exp(A) exp(-A) = I, which wrong coefficients satisfy too",
 [A + "variable_matrix.hpp", A + "variable_block.hpp"], [("Pade approximant and its linear solve", A + "variable_matrix.hpp:exp")], ["VariableMatrix::exp() value", "VariableBlock::exp() value", "Jacobian and Hessian of its elements"]),
("P36", "Convex problems are solved to their minimizer at any size and sparsity",
 "solve() with default options returns success and the minimizer (within a tolerance of the order of the documented convergence tolerance's effect) for convex problems with a strictly feasible point and bounded coefficients: separable and coupled quadratics with bounds, ordering constraints, a simplex or sparse linear equations, sums of exponentials or logarithms, linear costs over balls and (nonconvex, from starts off the maximizer's ray) spheres, and linear programs with a unique minimizer; whatever the number of variables, the sparsity pattern, the way the constraints are written and the starting point, and also where cost differences near the minimizer are below the cost's rounding error.",
 ["inputs"], "every coefficient vector over grids for few variables, every periodic one for up to 90 (thorough 240) variables, three starting points",
 "the tests solve a few fixed problems and mostly small ones, so the sparse factorization and large index ranges are reached by one problem each",
 ["include/sleipnir/optimization/problem.hpp", S + "newton.hpp", S + "sqp.hpp", S + "interior_point.hpp", U + "regularized_ldlt.hpp", U + "append_as_triplets.hpp", U + "filter.hpp"],
 [("KKT assembly and factorization", U + "regularized_ldlt.hpp:compute"), ("line search acceptance", U + "filter.hpp:try_add"), ("exit", S + "interior_point.hpp:interior_point")], ["Problem::solve() exit status", "Variable::value()"]),
("P37", "Every iteration is a step of the documented algorithm",
 "Outside feasibility restoration, the primal and dual iterates handed to callbacks advance exactly as the algorithms documentation and the papers it cites prescribe: each direction solves the full (regularized) Newton-KKT system of the method at the current iterate and barrier parameter; primal and dual step sizes are the fraction-to-the-boundary maxima, the primal one halved until the filter accepts; a rejected full step that doesn't reduce the constraint violation gets up to five second-order corrections; a step that no step size makes acceptable is taken whole if it reduces the optimality error and otherwise leads to restoration (or, without constraints, to a line search failure); the filter restarts after repeated rejections of full steps; inequality multipliers stay within the documented range around the barrier parameter over the slack; and the barrier parameter, the boundary fraction and the filter change exactly when the barrier problem is solved well enough, by the documented rule. feasible_ipm ties slacks to constraint values once all inequalities hold. What rounding decides may go either way.",
 ["inputs", "histories"], "every problem with up to two (thorough: three) rows over a menu of costs, constraints and starting points, unscaled and scaled, with and without feasible_ipm, and every iteration of each solve",
 "tests compare final points, which a solver with a wrong correction, step size, acceptance rule or barrier update mostly reaches too",
 [S + "interior_point.hpp", S + "sqp.hpp", S + "newton.hpp", "docs/algorithms.md"], [("Newton-KKT system, line search, second-order corrections, barrier update", S + "interior_point.hpp:interior_point"), ("likewise without inequalities", S + "sqp.hpp:sqp"), ("likewise without constraints", S + "newton.hpp:newton")], ["IterationInfo x, s, y, z", "returned x, s, y, z"]),
]

NOT_APPLICABLE = {
}

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for id_, title, st, over, qt, why, files, mech, obs in P:
            assert len(title) <= 80, (id_, len(title))
            f.write(json.dumps({"id": id_, "title": title, "statement": st,
                "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": obs, "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for id_, *_ in P:
        h = glob.glob(f"{V}/checks/{id_}_*.cpp")
        if not h:
            na.append({"property": id_, "reason": NOT_APPLICABLE.get(id_, "no check has been built for it yet")})
            continue
        d = {"technique": "", "level": "exploration", "note": ""}
        for line in open(h[0]):
            for k in d:
                if line.startswith(f"//@{k} "):
                    d[k] = (d[k] + " " if k == "note" and d[k] else "") + line[len(k) + 4:].strip()
        assert d["technique"] and d["note"], id_
        checks.append({"property": id_, "quick_cmd": f"python3 lib/run.py {id_} quick",
            "thorough_cmd": f"python3 lib/run.py {id_} thorough",
            "evidence_file": f"evidence/{id_}.json", "technique": d["technique"],
            "level": d["level"], "level_note": d["note"]})
    json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py",
               "hooks": {"guard": "SLEIPNIR_VERIFY", "enable": "checks/P09_memory.cpp and P30 compile with -DSLEIPNIR_VERIFY (//@flags)",
                         "source_commits": ["875e56f642082a647f175d59f54281a60b1b3093"]}, "checks": checks, "not_applicable": na,
               "notes": "Each check compiles its harness (checks/<id>_*.cpp) together with /repo's sources and runs it; see DESIGN.md."},
              open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")

main()
