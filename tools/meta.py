#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json. Run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, claimed=True, reason=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, claimed=claimed, reason=reason, technique=technique))

I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"

prop("P01", "Variables, subvariables and derivatives form one consistent family",
 "A variable, its derivatives and primitives, and its subvariables (at any depth, over possibly non-Euclidean spaces) always agree: taking dot/primitive/basePrimitive/subvariable/superVariable along any path reaches the same object or the same piece of the same super-variable, with the size, space, shift and derivative number these relations imply. Writing a value through any of them is seen by exactly the variables which cover the written coordinates, and by no other; creating a derivative or a subvariable never changes an existing value. Containment and intersection tests agree with the sets of coordinates covered, and every handle stays valid as long as it is held, whatever the order in which the others are released.",
 [H, I], "all sequences of creations (dot, subvariable of subvariable, primitive), writes and releases over spaces of any (size, rSize, tSize)",
 "VariableTest checks a few fixed families; it never interleaves writes with creation of derivatives of subvariables, nor release orders.",
 ["include/tvm/Variable.h", "src/Variable.cpp", "include/tvm/Space.h", "src/Space.cpp"],
 [("shared memory between sub and super variable", "src/Variable.cpp Variable::subvariable"), ("derivative chain and reference counting", "include/tvm/Variable.h derivative_/primitive_"), ("space products", "src/Space.cpp")],
 ["Variable::value", "Variable::contains", "Variable::intersects", "Variable::isSubvariableOf", "Variable::getMappingIn"],
 "Random histories against a reference model which stores one flat array of coordinates per (root variable, derivative number). Model sizes: root spaces up to size 8, depth 3, 40 operations.")

prop("P02", "A variable vector maps disjoint variables to contiguous, up-to-date ranges",
 "After any sequence of additions and removals, a vector of variables holds, in order of insertion, variables that cover no coordinate twice, its total size is the sum of their sizes, and the range it reports for any contained variable or subvariable addresses exactly its coordinates in the concatenated value. Asking for a variable that is absent, adding one that overlaps a present one, or removing an absent one is rejected or ignored as documented and leaves the vector unchanged; reading or writing the concatenated value is equivalent to doing it variable by variable.",
 [H, I], "all sequences of add/remove/query/set on several vectors sharing variables, subvariables and derivatives",
 "VariableVectorTest follows a handful of fixed sequences; mappings are cached per variable, so stale entries only show after specific histories.",
 ["include/tvm/VariableVector.h", "src/VariableVector.cpp", "include/tvm/Variable.h"],
 [("mapping cache keyed by vector id and stamp", "src/VariableVector.cpp / Variable::getMappingIn"), ("intersection checks", "src/VariableVector.cpp add")],
 ["VariableVector::getMappingOf", "VariableVector::value", "VariableVector::contains"],
 "Random histories on up to 3 vectors against a list-of-coordinate-sets model.")

prop("P03", "Counting of ranges and variables equals the multiset of what was added",
 "After any valid sequence of additions and removals of ranges (or of variables and subvariables), the reported ranges are exactly the maximal runs of covered coordinates -- split where the multiplicity changes if splitting was asked for -- in increasing order, and the reported variables cover exactly these coordinates, once, grouped by super-variable. Whether something changed is reported if and only if the reported ranges changed. A partition of variables with respect to such a counting enumerates every coordinate exactly once.",
 [H, I], "all histories of add/remove of ranges and of (sub)variables, in both splitting modes",
 "RangeCountingTest enumerates some hand-made overlaps for short histories; VariableCountingVector is hardly exercised in split mode after removals.",
 ["include/tvm/internal/RangeCounting.h", "src/internal/RangeCounting.cpp", "include/tvm/internal/VariableCountingVector.h", "src/internal/VariableCountingVector.cpp", "include/tvm/internal/VariableVectorPartition.h"],
 [("list of limits with merge/split", "src/internal/RangeCounting.cpp"), ("cache invalidation", "src/internal/VariableCountingVector.cpp update")],
 ["RangeCounting::ranges", "VariableCountingVector::variables"],
 "Random histories against an integer array of multiplicities.")

prop("P04", "Declared and deduced matrix properties are true of the matrix",
 "Every property (shape, positiveness, invertibility, symmetry, constness) answered for a declared combination, and every property deduced for the opposite, the scaling, the sum, the difference or the product of matrices, is true for any matrices satisfying the declared properties of the operands. Contradictory declarations are rejected, non-contradictory ones accepted, and the order in which arguments are given does not matter. Deducing properties never fails on operands whose declarations are valid.",
 [I], "all valid combinations of declared properties and all matrices having them, for expressions of unary and binary operations",
 "MatrixPropertiesTest checks selected combinations of declarations and a table of products against expected enums, not against actual matrices.",
 ["include/tvm/internal/MatrixProperties.h", "src/internal/MatrixProperties.cpp", "include/tvm/internal/MatrixWithProperties.h"],
 [("deduction from shape", "MatrixProperties::build"), ("operators", "src/internal/MatrixProperties.cpp")],
 ["MatrixProperties accessors"],
 "Random declarations and random matrices having the declared properties; deduced properties are evaluated on the actual result. Soundness only (no demand that all true properties be deduced).")

prop("P05", "Affine expressions and task builders mean what they spell",
 "A linear function or task built from an expression (sums, differences, scalar or matrix multiplications of variables and constants, with repeated variables or subvariables, any association, any temporaries) has value, jacobian and right-hand side equal to those of the expression evaluated directly, at any variable values. Comparison operators build tasks whose type and bounds express the same set of admissible values, whichever side the constant is and whatever its form (scalar, vector, double-sided).",
 [I, "programs"], "all expressions of the expression language over variables of any size, all operators and right-hand side forms",
 "AffineExprTest instantiates a fixed list of expression templates with fixed variables.",
 ["include/tvm/utils/AffineExpr.h", "include/tvm/utils/internal/AffineExprOperators.h", "include/tvm/utils/internal/AffineExprDetail.h", "include/tvm/utils/ProtoTask.h", "src/function/BasicLinearFunction.cpp", "src/Task.cpp"],
 [("expression templates", "include/tvm/utils/internal/AffineExprOperators.h"), ("accumulation in BasicLinearFunction::add", "src/function/BasicLinearFunction.cpp"), ("task right-hand sides", "src/Task.cpp")],
 ["BasicLinearFunction::value/jacobian/b", "Task"],
 "A catalogue of about 40 expression shapes (types are static) with random sizes, coefficients, (sub)variables and values.")

prop("P06", "Function and constraint outputs are consistent with their linear definition",
 "For linear functions and basic linear constraints defined by any matrices over any variables and subvariables, once updated after any changes of variable values or of their matrices, the value is the sum of matrix times variable plus constant, the velocity is the same with the time derivatives of the variables, and normal acceleration and time-derivative of jacobians are zero. For any function, the jacobian and its time derivative with respect to a subvariable are the matching blocks of columns. Requests about variables the function does not depend on and data of wrong sizes are rejected.",
 [I, H], "all matrices, constants, lists of (sub)variables, and sequences of value changes / matrix changes / updates",
 "FunctionTest evaluates a few fixed functions once.",
 ["src/function/BasicLinearFunction.cpp", "src/function/LinearFunction.cpp", "src/function/IdentityFunction.cpp", "src/function/Function.cpp", "src/internal/FirstOrderProvider.cpp", "src/constraint/BasicLinearConstraint.cpp", "include/tvm/utils/internal/MapWithVariableAsKey.h"],
 [("jacobian slicing", "include/tvm/utils/internal/MapWithVariableAsKey.h"), ("value/velocity update", "src/function/LinearFunction.cpp")],
 ["Function::value/velocity/normalAcceleration/jacobian/JDot", "Constraint::value/jacobian/l/u/e"],
 "Random functions compared with a direct evaluation; tolerance 1e-9 relative.")

prop("P07", "A linearised task constraint expresses its task and task dynamics",
 "For any function, task type and task dynamics of order zero, one or two, the linear constraint built from a task relates the derivatives of the variables of the matching order through the jacobian of the function, and holds for a value of those derivatives exactly when the corresponding derivative of the error satisfies the task (=, >=, <= or between) for the reference values of the task dynamics. This is true after any sequence of variable, function and reference changes followed by an update.",
 [I, C, H], "all functions (linear and not), all task types, all task dynamics and orders, all states",
 "LinearizedTaskConstraintTest checks one function with one dynamics per type.",
 ["src/constraint/LinearizedTaskConstraint.cpp", "include/tvm/constraint/internal/LinearizedTaskConstraint.h", "src/constraint/RHSVectors.cpp", "src/Task.cpp"],
 [("right-hand sides from task dynamics minus drift", "src/constraint/LinearizedTaskConstraint.cpp"), ("jacobian forwarding with derivative key", "src/constraint/LinearizedTaskConstraint.cpp jacobian")],
 ["LinearizedTaskConstraint::jacobian/l/u/e/tensor sizes"],
 "Random quadratic functions with exact derivatives; membership of random points tested on both sides.")

prop("P08", "Task dynamics compute the reference they document",
 "Each task dynamics (constant, none, proportional, proportional-derivative, one-step-to-zero, reference, feed-forward, velocity damper, clamped) produces, for any function value, right-hand side, gains (scalar, diagonal or full matrix), time step and bounds, the value given by its documented formula, for every order it supports. Composed dynamics apply the composition to the inner dynamics' value; clamped values respect the bounds while keeping the direction and are not scaled more than needed. Changing gains or references at run time takes effect at the next update.",
 [I, C, H], "all parameters, compositions, states and run-time modifications",
 "TaskDynamicsTest evaluates each dynamics at one or two points.",
 ["src/task_dynamics/*.cpp", "include/tvm/task_dynamics/*.h"],
 [("formulas", "src/task_dynamics/*.cpp updateValue"), ("composition", "include/tvm/task_dynamics/Clamped.h, FeedForward.h")],
 ["TaskDynamicsImpl::value"],
 "Random parameters and states against independently written formulas; tolerance 1e-9 relative.")

prop("P09", "Executing a call graph runs each needed update once, in dependency order",
 "For any acyclic network of nodes declaring updates, outputs, internal and external dependencies, executing the plan for a set of requested inputs calls every update needed by these inputs, directly or transitively, exactly once, never calls an update that is not needed, and calls an update only after everything it depends on. Until the next plan update the plan remains the same; after any sequence of additions and removals of requested inputs, the same holds for a graph (re)built from the remaining requests. A cleared graph runs nothing and keeps nothing of what it was given alive. Declarations on missing or disabled outputs and cyclic dependencies are rejected rather than silently giving a wrong order.",
 ["programs", H], "all acyclic node networks and all histories of additions/removals of inputs",
 "The tests use a few hard-wired robot-like graphs and check final values, not that each call is made once and only when needed.",
 ["src/graph/CallGraph.cpp", "include/tvm/graph/CallGraph.h", "include/tvm/graph/abstract/Node.hpp", "src/graph/Inputs.cpp", "include/tvm/graph/internal/Inputs.hpp"],
 [("plan construction", "src/graph/CallGraph.cpp update"), ("dependency declaration", "include/tvm/graph/abstract/Node.hpp")],
 ["calls recorded by generated nodes"],
 "Random node networks (up to 10 nodes of one configurable C++ class) against a reachability oracle.")

prop("P10", "The dependency graph orders, reduces and groups nodes correctly",
 "For any directed graph built by any sequence of insertions and removals, the returned order contains every node once with dependencies first; strongly connected components are exactly the classes of mutual reachability and the reduced graph is their acyclic quotient; grouped orders keep groups valid. A cycle is always reported as an error when an order is asked for.",
 [I, H], "all directed graphs, with cycles, self-loops, isolated nodes, and node removals",
 "DependencyGraph tests use three hand-drawn graphs.",
 ["include/tvm/graph/internal/DependencyGraph.h", "src/graph/DependencyGraph.cpp"],
 [("depth-first order", "src/graph/DependencyGraph.cpp order"), ("Tarjan", "src/graph/DependencyGraph.cpp reduce")],
 ["DependencyGraph::order/groupedOrder/reduce"],
 "Random graphs of up to 9 nodes against transitive closure.")

prop("P11", "Compiled assignments compute the operation they are built for",
 "For every combination of assignment (copy, add, subtract, min, max), weight (none, minus, scalar, diagonal), multiplication (none, left/right matrix, inverse diagonal) and source (matrix, vector, constant, zero), running a compiled assignment gives the destination the value of the operation applied to the current values of its operands, wherever source and destination are moved and whatever operands are modified between runs, and through copies of the assignment, and touches nothing outside of the destination.",
 [C, I, H], "all legal template/run-time combinations, all sizes and values, all re-targetings between runs",
 "CompiledAssignmentTest runs each combination once or twice on fixed-size random data; the run-time wrapper's re-targeting is hardly covered.",
 ["include/tvm/scheme/internal/CompiledAssignment.h", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h"],
 [("operators", "include/tvm/scheme/internal/CompiledAssignment.h"), ("run-time wrapper", "include/tvm/scheme/internal/CompiledAssignmentWrapper.h")],
 ["destination matrices, with canaries around"],
 "Every combination exercised with random blocks of larger, canary-filled matrices, against plain loops.")

prop("P12", "Assigning a constraint to a solver's form preserves the set it describes",
 "For any constraint (equality, one- or double-sided inequality, any right-hand side convention, any jacobian structure) assigned to any target form a solver may ask for, the rows written describe exactly the same set of admissible variable values, scaled only as the weights require for objectives: the objective is the constraint's residual weighted by the square root of scalar and anisotropic weights. This holds after any later change of the constraint's data, weights, variables' positions or target rows; columns of other variables are zero and nothing outside of the target's rows is written.",
 [C, I, H], "all constraint type x right-hand side x target type x target convention combinations, all weights, all variable layouts, all updates",
 "AssignmentTest checks the combinations on one constraint, mostly for the first run only.",
 ["src/scheme/Assignment.cpp", "include/tvm/scheme/internal/Assignment.h", "include/tvm/scheme/internal/Assignment.hpp", "src/scheme/AssignmentTarget.cpp", "src/scheme/MatrixAssignment.cpp"],
 [("sign / side selection", "src/scheme/Assignment.cpp"), ("weights", "src/scheme/Assignment.cpp processRequirements"), ("target blocks", "src/scheme/AssignmentTarget.cpp")],
 ["target matrices and vectors"],
 "Random constraints, targets and histories; equality of row sets up to the documented scaling.")

prop("P13", "Substitution calculators return valid generalised inverses and nullspaces",
 "For any matrix of the declared rank and structure (generic, diagonal with or without zero or repeated rows), the calculator's pre-multiplications give a right-inverse-like map, a basis of the nullspace of full rank, and a basis of the left-nullspace, so that all solutions of A x = b, and only them, are obtained. Successive calls with new values of the matrix give results for these values; a matrix that has lost rank is reported.",
 [I, H], "all matrices of given rank/structure, sequences of updates",
 "SubstitutionTest uses a few fixed matrices, mostly square or full rank.",
 ["src/hint/GenericCalculator.cpp", "src/hint/DiagonalCalculator.cpp", "src/hint/SubstitutionCalculatorImpl.cpp", "src/hint/AutoCalculator.cpp", "src/hint/Substitution.cpp"],
 [("rank revealing QR", "src/hint/GenericCalculator.cpp"), ("diagonal structure", "src/hint/DiagonalCalculator.cpp")],
 ["SubstitutionCalculatorImpl::premultiplyByASharpAndSTranspose, postMultiplyByN, N, ..."],
 "Random matrices of controlled rank/structure; algebraic identities at 1e-7 relative.")

prop("P14", "Substituting variables does not change the problem",
 "For any set of declared substitutions (independent, chained, mutually dependent, of several variables, by several constraints, with or without nullspace, rank deficient, of subvariables), the substituted variables computed from the remaining ones satisfy the substituted constraints whenever the remaining constraints hold, and the problem given to the solver has the same solutions and costs as the original one, no solution being lost. Mutually dependent substitutions are solved together, and refused with an error only when rank deficient. Invalid substitutions (inequality constraints, intersecting variables, variable absent from the constraints, constraint without any of the variables, rank bigger than the number of unknowns, rank which is not the actual one) are rejected with an error. A constraint on a part of a variable which is substituted as a whole is either handled or refused with an error.",
 [I, C], "all substitution graphs and matrices, all values of the remaining variables",
 "SubstitutionTest has a handful of hand-made systems.",
 ["src/hint/Substitutions.cpp", "src/hint/SubstitutionUnit.cpp", "src/hint/Substitution.cpp", "src/scheme/Assignment.cpp"],
 [("grouping and ordering of substitutions", "src/hint/Substitutions.cpp finalize"), ("unit computations", "src/hint/SubstitutionUnit.cpp update")],
 ["Substitutions::variables/variableSubstitutions/additionalVariables/additionalConstraints", "problem handed to the back-end", "values of all variables after solve"],
 "Random systems; the affine solution set is compared with that of the original system computed by SVD. Ranks are numerically evident (no pivot near the threshold) and matrices well conditioned.")

prop("P15", "The weighted least-squares problem given to the solver is the user's problem",
 "For any set of tasks (linear in the unknowns, any types, priorities, weights, violation evaluations, bounds, subvariables), the problem handed to the numerical solver is equivalent to the user's: hard constraints and bounds of priority 0 describe the same feasible set, and the cost is the sum of the weighted squared residuals of the other tasks, lower priorities being scaled by the scalarisation weight. This is so for each supported solver interface and its options. The result is stored in the variables, whose other values are untouched; requests the scheme cannot honour are rejected with an error.",
 [I, C], "all problems, solver interfaces and options",
 "SolverTest and friends need third-party solvers absent here and check some final values on fixed problems.",
 ["src/scheme/WeightedLeastSquares.cpp", "src/solver/LeastSquareSolver.cpp", "src/solver/LSSOLLeastSquareSolver.cpp", "src/solver/QLDLeastSquareSolver.cpp", "src/solver/QuadprogLeastSquareSolver.cpp", "src/solver/LexLSLeastSquareSolver.cpp", "src/scheme/helpers.cpp", "src/scheme/SchemeAbilities.cpp", "src/LinearizedControlProblem.cpp"],
 [("problem processing", "src/scheme/WeightedLeastSquares.cpp processProblem"), ("row allocation", "src/solver/LeastSquareSolver.cpp"), ("solver conventions", "src/solver/*LeastSquareSolver.cpp")],
 ["data received by a recording stand-in of each third-party solver, variables after solve"],
 "Third-party numerical solvers are replaced by recording stand-ins; equivalence is decided on (H, g) and on the multiset of normalised constraint rows at 1e-7 relative.")

prop("P16", "Modifying a problem incrementally equals building it from scratch",
 "After any sequence of task additions and removals, substitution changes, weight and requirement changes, variable value changes and resolutions, the next resolution hands to the solver the same problem as a problem built from scratch from the current tasks. Operations that are not supported are rejected with an error rather than giving another problem.",
 [H, C], "all histories of modifications interleaved with resolutions, for each solver interface",
 "EventsTest and SolverTest do a few fixed modifications and are mostly disabled without a solver.",
 ["src/solver/LeastSquareSolver.cpp", "include/tvm/solver/internal/SolverEvents.h", "src/scheme/WeightedLeastSquares.cpp", "include/tvm/scheme/internal/ProblemComputationData.h", "src/LinearizedControlProblem.cpp", "src/ControlProblem.cpp", "src/scheme/Assignment.cpp"],
 [("event processing", "src/scheme/WeightedLeastSquares.cpp processEvents"), ("re-mapping of assignments", "src/solver/LeastSquareSolver.cpp process")],
 ["data received by the recording stand-ins"],
 "Histories of up to 18 operations, resolutions included. The cost is compared up to a positive factor: the documented incremental additions do not change the reference of the weights of the priority levels.")

prop("P17", "The hierarchical problem given to the solver is the user's hierarchy",
 "For any set of tasks with any priorities, each level handed to a hierarchical solver contains exactly the weighted rows of the tasks of this priority with their sides, levels come in order of priority, bounds (priority-0 tasks on one variable) are intersected in the first level, or before it when a feasible first level is asked for, and the damping level, if any, comes last. The result is stored in the variables. An already built problem is given with up-to-date data when solved again, and after a change of its tasks or weights it is either refused or right, never solved with stale data.",
 [I, C, H], "all problems, level structures, solver options and re-resolutions",
 "HierarchicalLeastSquareSolverTest needs LexLS, absent here.",
 ["src/scheme/HierarchicalLeastSquares.cpp", "src/solver/HierarchicalLeastSquareSolver.cpp", "src/solver/LexLSHierarchicalLeastSquareSolver.cpp"],
 [("level allocation", "src/solver/HierarchicalLeastSquareSolver.cpp startBuild"), ("processing", "src/scheme/HierarchicalLeastSquares.cpp")],
 ["data received by the recording stand-in"],
 "Same stand-in approach as P15: levels compared row by row (up to sign) with those computed from the tasks, over random problems, histories of changes with several schemes, substitutions, and direct reuse of the solver for several builds.")

prop("P18", "A control problem always computes with current data and stays well-formed",
 "After any sequence of additions and removals of tasks and substitutions, the set of tasks and constraints of a control problem is the one that results from these operations, an operation that is refused leaves it unchanged, and updating it brings every remaining task's constraint up to date with the current variables, functions and references. Removed tasks are no longer updated; several problems may share tasks without interfering.",
 [H], "all histories of additions/removals/updates on several problems sharing tasks",
 "No existing test removes tasks from several problems or inspects which functions get updated.",
 ["src/ControlProblem.cpp", "src/LinearizedControlProblem.cpp", "src/hint/Substitutions.cpp"],
 [("task list", "src/ControlProblem.cpp"), ("update graph", "src/LinearizedControlProblem.cpp")],
 ["ControlProblem::tasks/size, LinearizedControlProblem::constraints, constraint values, update counters of generated functions"],
 "Random histories against a model of the task list; freshness by comparing with direct evaluation.")

prop("P19", "Notifications reach exactly the live registrants",
 "For any sequence of registrations, releases, moves and destructions of callbacks, tokens, sources and listeners, in any order, a notification calls exactly the callbacks that are registered and not released at that time, once each. Paired tokens always know whether their counterpart is alive, and destroying either side first is harmless.",
 [H], "all lifetimes and orders of destruction",
 "PairElementTokenTest and the callback test follow single scripted lifetimes.",
 ["include/tvm/internal/CallbackManager.h", "include/tvm/internal/PairElementToken.h", "include/tvm/event/Source.h", "src/event/Source.cpp", "src/event/Listener.cpp", "include/tvm/requirements/abstract/SingleSolvingRequirement.h"],
 [("token pairing", "include/tvm/internal/PairElementToken.h"), ("callback map", "include/tvm/internal/CallbackManager.h")],
 ["call counts"],
 "Random histories against a model, under AddressSanitizer.")

prop("P20", "Selected outputs are exactly those enabled",
 "For any class hierarchy declaring outputs with static or dynamic disabling and for any sequence of enabling, disabling and locking operations, an output is reported enabled exactly when it exists, is not statically disabled and its last accepted selection enabled it. Operations on a locked selector or on unknown outputs, and enabling a statically disabled output, are rejected and change nothing; operations on several outputs apply to each in turn. A disabled output can not be requested.",
 [H, C], "all histories of selection operations on a family of classes",
 "OutputSelectorTest checks one sequence per class.",
 ["include/tvm/graph/abstract/OutputSelector.h", "include/tvm/graph/abstract/Outputs.h"],
 [("dynamic selection", "include/tvm/graph/abstract/OutputSelector.h")],
 ["isOutputEnabled"],
 "Random histories on several generated class hierarchies against a boolean-array model.")

prop("P21", "Solving requirements are what was asked for, and tell when they change",
 "Requirements built from any subset of priority, weight, anisotropic weight and violation evaluation, in any order, give the requested values and the documented defaults for the others, whether or not they carry callbacks. Changing one at run time changes this one only, keeps the default flag truthful and notifies its listeners once; negative weights and priorities are rejected.",
 [I, H], "all subsets and orders of requirements, all values, all sequences of changes",
 "SolvingRequirementsTest constructs a few combinations.",
 ["include/tvm/requirements/*.h"],
 [("variadic construction", "include/tvm/requirements/SolvingRequirements.h"), ("change notification", "include/tvm/requirements/abstract/SingleSolvingRequirement.h")],
 ["requirement values, isDefault, callbacks"],
 "Random subsets/orders from a static catalogue, random change histories.")

prop("P22", "Function checks accept correct functions and reject wrong ones",
 "The numerical check of a function's outputs accepts any smooth function whose jacobian, velocity, normal acceleration and time-derivative of jacobian are consistent with its value, and rejects a function for which the checked output is off by more than the tolerance of the check.",
 [I], "all smooth functions and all sizeable perturbations of one output, all configurations",
 "UtilsTest checks a small number of right and wrong functions at one point.",
 ["include/tvm/utils/checkFunction.h", "src/utils/checkFunction.cpp"],
 [("finite differences", "src/utils/checkFunction.cpp")],
 ["return value of the checks"],
 "Random quadratic functions and random perturbations well above or well below the tolerance.")

prop("P23", "Stand-alone evaluation of a function equals evaluating it in a graph",
 "Evaluating any output of a function for given variable values through the stand-alone wrapper gives the same result as setting the variables and updating the function in a call graph, for every way of passing the values (per variable, concatenated, partial, with or without velocities), for nested functions with deep dependencies. Invalid requests (wrong sizes, unknown variables) are rejected.",
 [I, C, H], "all functions, ways to pass values and sequences of evaluations",
 "UtilsTest evaluates a few functions once.",
 ["include/tvm/utils/UpdatelessFunction.h", "src/utils/UpdatelessFunction.cpp"],
 [("argument dispatch", "include/tvm/utils/UpdatelessFunction.h"), ("private call graph", "src/utils/UpdatelessFunction.cpp")],
 ["returned values"],
 "Random functions and argument forms against direct evaluation.")

prop("P24", "Diagnostics report the actual outputs of the graph",
 "Probing a call graph lists for each selected node the outputs actually enabled with their current values, follows exactly the dependencies from which an output is computed, and never changes the data it reports. Printing helpers give matrices with the values, variables and ranges they are asked for.",
 [I, C], "all node networks and probe configurations",
 "DiagnosticTest checks one graph.",
 ["include/tvm/diagnostic/*.h", "src/diagnostic/GraphProbe.cpp", "src/graph/Log.cpp", "include/tvm/diagnostic/matrix.h"],
 [("log of dependencies", "src/graph/Log.cpp"), ("follow up", "src/diagnostic/GraphProbe.cpp")],
 ["GraphProbe outputs"],
 "Random node networks, functions and control problems; reachability and direct accessors as reference.")

prop("P25", "Planes and clocks hold what they are given; integrators drive planes",
 "A clock counts the ticks it was advanced by, keeps its time step, and what depends on the time is updated at each execution. A plane reports the normal, offset, point and derivatives it was last given, whatever the sequence in which they are set; positioning it by a point makes the plane go through this point. A plane which has an integrator is brought up to date by exactly the updates of the integrator which the requested outputs need.",
 [I, H], "all sequences of settings and of graph executions, all subsets of requested outputs",
 "No test uses planes: the only users are the robot functions, which are not built.",
 ["include/tvm/geometry/Plane.h", "src/geometry/Plane.cpp", "include/tvm/Clock.h", "src/Clock.cpp"],
 [("offset from point", "src/geometry/Plane.cpp position"), ("direct dependencies", "include/tvm/geometry/Plane.h setIntegrator")],
 ["Plane accessors"],
 "Random histories against a record of the last values.")

prop("P26", "A solver runs with the options it was given",
 "Whatever the way a solver is created (options, factory, default factory), its back-end is run, at each resolution, with the options the user has set, and with the documented default for the others: tolerances, iteration limits, damping of the cost, warm start (from the solution and active set of the previous resolution) and verbosity. Absent sides of the constraints are given as the number the scheme, or for bounds the solver, was told to use for infinity, whatever the other schemes in use.",
 [I, H], "all subsets and values of the options, all sequences of resolutions and task additions",
 "The solvers are third-party libraries that are not available here: no test runs through their adapters. Options are simple to drop or mix up without any visible effect on small problems.",
 ["src/solver", "include/tvm/solver", "src/scheme/ResolutionScheme.cpp"],
 [("options", "include/tvm/solver/internal/Option.h"), ("default solver", "src/solver/defaultLeastSquareSolver.cpp"), ("number for infinity", "src/scheme/WeightedLeastSquares.cpp processProblem")],
 ["solver options", "SolverFactory", "big_number"],
 "Recording stand-ins of the back-ends compared with a record of the options set.")

prop("P27", "Assigning and solving do not allocate; the allocation guard nests",
 "Whether Eigen can allocate memory is what was last set, overridden or restored, overrides and restores being nested like a stack. Once a compiled assignment or a solver is built, running it with new data (copies, weights and products of the assignments, pre- and post-processing of the solver) allocates no memory in Eigen objects, and leaves the guard as it was. This is about what tvm executes itself: user functions and the third-party solvers may allocate.",
 [I, H], "all sequences of calls to the guard; all kinds of assignments, all tasks, weights and solvers, all data",
 "The tests forbid allocations for a few compiled assignments and calls only.",
 ["include/tvm/utils/memoryChecks.h", "src/utils/memoryChecks.cpp", "include/tvm/scheme/internal/CompiledAssignment.h", "src/solver"],
 [("guard", "src/utils/memoryChecks.cpp"), ("cached results", "include/tvm/scheme/internal/CompiledAssignment.h CachedResult")],
 ["is_malloc_allowed", "override_is_malloc_allowed"],
 "Random histories of the guard against a stack; random assignments and solvers executed with Eigen's allocations forbidden.")

prop("R01", "Robot functions have jacobians consistent with their values",
 "For any robot model, configuration and frame, the position, orientation, centre-of-mass, posture, collision and contact functions have values, velocities, jacobians and normal accelerations that are consistent with each other and with the model's kinematics and dynamics.",
 [I], "all robots, configurations, velocities and contact geometries",
 "The robot part is not built by the baseline; its tests need a robot description and third-party libraries.",
 ["src/Robot.cpp", "src/robot/*.cpp", "include/tvm/robot/*.h"],
 [("forward kinematics and jacobians", "src/robot/*.cpp")],
 ["function outputs"], "", claimed=False,
 reason="The robot part needs RBDyn, SpaceVecAlg and sch-core, which are not installed and cannot be fetched: the code cannot be compiled here, and a re-implementation of these libraries would be what is tested.")

if os.path.exists(os.path.join(V, "tools", "overrides.py")):
    exec(open(os.path.join(V, "tools", "overrides.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")

built = lambda id: os.path.exists(os.path.join(V, "harness", "props", id + ".cpp"))
checks, na = [], []
for p in P:
    if p["claimed"] and built(p["id"]):
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
            technique=p["technique"] or "property-based testing (generated cases and histories, explicit oracle, shrinking) under ASan/UBSan; libFuzzer in the thorough tier",
            level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["reason"] or "Check under construction."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
