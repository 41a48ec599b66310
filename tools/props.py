#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism[(name, where)], technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note))


COMMON = ("Decides structural necessary conditions of the property on every path of the current source (helpers are inlined, "
          "loops and branches kept symbolic); it does not evaluate tensors. Trusts python semantics without monkey patching and "
          "documented behaviour of torch. ")

INTERP = ("Abstract interpretation of the source in a domain of algebraic normal forms over symbolic tensor entries (large forms are named, "
          "value numbering), comparisons decided per region of the operand space; identities of normal forms are tested at points in general "
          "position. Nothing of the repository is imported or run; operations outside the modelled part of torch leave the obligation undecided. ")
RUNS = ("Whole runs of the real optimizers are also interpreted with a client cost function, over scripted sequences of"
        " improvements, rejections, convergences and solver failures, and compared with a reference of the documented rule. ")
prop("C01", "Copies preserve type, configuration and error function",
     "copy() of every variable, cost function, cost weight, robust cost, motion model and objective returns an object of the same class "
     "built from the same configuration: every constructor option that changes what the object computes (function handles, autograd "
     "options, modes, radii, flatten flags, weights, signed distance data, models) is carried over from the original. "
     "The copy registers the same optimization and auxiliary variables in the same order, with the requested name, and copies made with "
     "the option to keep variable names keep every variable's name.",
     ["inputs", "configurations"], "all copyable classes, all constructor options, all values of those options",
     "Tests copy a few objects with default options; they cannot enumerate every class times every option.",
     ["theseus/core", "theseus/embodied", "theseus/geometry"],
     [("_copy_impl overrides", "theseus/core/*.py, theseus/embodied/**"), ("TheseusFunction.copy", "theseus/core/theseus_function.py")],
     "constructor option flow: def-use from __init__ parameters to state to the copy's constructor arguments; abstract interpretation of copies of whole functions and objectives",
     COMMON + "An option is required when it flows into state read by other methods.")
prop("C02", "Copies are independent of the original",
     "A copy never shares a variable or a stored tensor with the original: every variable handed to the copy's constructor is itself a "
     "copy, and every tensor is cloned, so updating either object never changes the other. "
     "Copying an objective makes exactly one new variable for each original variable, shared by all the copied cost functions and weights "
     "that used it, and one new weight per original weight; a copy that would reuse an original variable is refused.",
     ["inputs", "histories"], "every copyable class and any later history of updates on original and copy",
     "Tests check a few classes by updating one side once.",
     ["theseus/core", "theseus/embodied", "theseus/geometry"],
     [("copy/_copy_impl", "theseus/core, theseus/embodied, theseus/geometry"), ("Objective.copy", "theseus/core/objective.py")],
     "ownership analysis of values reaching the copy's constructor and setters; abstract interpretation of updates on original and copy",
     COMMON + "Read-only configuration such as function handles and robot models may be shared.")
prop("C03", "Objective registries agree with the cost functions it holds",
     "After any sequence of adding and erasing cost functions, the objective lists exactly the optimization and auxiliary variables, "
     "weights and connected functions of the cost functions it currently holds: adding registers every variable of the cost function and "
     "its weight under its own name and connects it, erasing disconnects them and removes a variable or weight only when its last user is "
     "gone. "
     "A name that already belongs to a different object, a variable with another dtype, or a variable used both as optimization and "
     "auxiliary (unless enabled) is refused, and every query reads the registry it names.",
     ["histories", "inputs"], "all sequences of add/erase with shared variables and weights",
     "Tests use a handful of fixed add/erase sequences.",
     ["theseus/core/objective.py", "theseus/core/theseus_function.py"],
     [("Objective.add / erase", "theseus/core/objective.py"), ("register_optim_var / register_aux_var", "theseus/core/theseus_function.py")],
     "guarded effect analysis: paired registry updates, dominance of uniqueness checks, sibling agreement of add and erase",
     COMMON)
prop("C04", "A modified objective is never run by a stale optimizer or layer",
     "Every addition or removal of a cost function gives the objective a strictly newer version and turns off a vectorization built for "
     "the old structure. "
     "An optimizer or layer remembers the version it was built for, and running it on an objective with any other version raises "
     "RuntimeError before anything is evaluated or modified.",
     ["histories"], "all interleavings of construction, add, erase and run", "Tests modify the objective once, after construction.",
     ["theseus/core/objective.py", "theseus/optimizer/optimizer.py", "theseus/theseus_layer.py"],
     [("current_version", "theseus/core/objective.py"), ("optimize", "theseus/optimizer/optimizer.py"), ("forward", "theseus/theseus_layer.py")],
     "dominance analysis of the version test over run calls; coverage of structural writes by version increments",
     COMMON)
prop("C05", "Temporary error evaluation leaves no trace",
     "Evaluating the error or error metric with input tensors and without also_update leaves every variable of the objective with the "
     "tensor it had before the call and does not refresh the cached vectorized results; with also_update the inputs stay. "
     "The result is the concatenation, along the error dimension and in registration order, of the weighted error of every cost function "
     "evaluated with the given inputs, and the metric is the metric function applied to exactly that error.",
     ["inputs", "histories"], "all inputs naming optimization, auxiliary or weight variables, and all prior histories",
     "Tests use small objectives and a few names.", ["theseus/core/objective.py"],
     [("Objective.error / error_metric", "theseus/core/objective.py")],
     "ordered effect analysis: save dominates trial update, restore post-dominates evaluation",
     COMMON + "Exceptions raised by user cost functions during the evaluation are outside the property.")
prop("C06", "Updates validate, mask, count and resolve the batch size",
     "Updating an objective stores each given tensor in the variable of that name whatever its role, after refusing tensors with fewer "
     "than two dimensions, another device, another dtype or another data shape; batch entries selected by the ignore mask keep their old "
     "values, and unknown names only warn. "
     "A stored tensor is replaced and never modified in place, every replacement is counted, and afterwards the batch size is recomputed "
     "from all optimization and auxiliary variables, refusing sizes that are neither equal nor one.",
     ["inputs", "histories"], "all input dictionaries, masks and registries", "Tests sample a few shapes and masks.",
     ["theseus/core/objective.py", "theseus/core/variable.py"],
     [("Objective.update", "theseus/core/objective.py"), ("Variable.update", "theseus/core/variable.py")],
     "guard dominance over stores, who-may-write analysis of variable tensors",
     COMMON)
prop("C07", "Vectorized evaluation is equivalent to the plain one",
     "Cost functions are evaluated together only when they have the same class, the same classes and data shapes for all their variables and "
     "weight variables in order, the same weight class and, for robust and autograd costs, the same inner cost, loss and function. "
     "The vectorized batch stacks, for every cost function in order, its own variables broadcast to the objective's batch size, shared "
     "variables being expanded consistently, and each cost function gets back exactly its own slice of errors and jacobians in the order "
     "cost functions were added.",
     ["inputs", "configurations"], "all objectives, batch sizes and sharing patterns of variables", "Tests use a few schemas and batch sizes.",
     ["theseus/core/vectorizer.py"],
     [("_get_cost_function_schema", "theseus/core/vectorizer.py"), ("Vectorize._vectorize", "theseus/core/vectorizer.py")],
     "symbolic slice layout agreement between stacking and distribution; key completeness of the grouping schema; abstract interpretation of vectorized and plain objectives side by side",
     COMMON)
prop("C08", "Cached vectorized results are never stale",
     "Cached errors and jacobians are recomputed before they are served whenever any variable of the objective (of any role) was updated "
     "since they were computed, or when gradients are enabled and they were computed without; updates and retractions refresh them, and a "
     "refresh first discards the old results of all cost functions. "
     "Error-only evaluations never overwrite the cached results, and moving the objective to another device or dtype moves the vectorized "
     "containers too.",
     ["histories"], "all interleavings of update, retract, error and gradient mode changes", "Tests follow one history.",
     ["theseus/core/vectorizer.py", "theseus/core/objective.py"],
     [("update_vectorization_if_needed", "theseus/core/objective.py"), ("_vectorize", "theseus/core/vectorizer.py")],
     "must-precede analysis of refresh over serving; effect separation of evaluation modes; abstract interpretation of histories on vectorized and plain objectives side by side",
     COMMON)
prop("C09", "Masked or rejected batch elements are never moved",
     "Retracting a step with an ignore mask leaves the selected batch elements of every variable unchanged (unless forced), both with and "
     "without vectorization, and moves every other element by its own slice of the step. "
     "Optimizers pass the mask of converged or rejected batch elements to every retraction, and a rejected step changes neither the "
     "stored error nor the best solution.",
     ["inputs", "histories"], "all masks, orderings and step sequences", "Tests use few masks.",
     ["theseus/core/objective.py", "theseus/core/vectorizer.py", "theseus/optimizer/nonlinear/nonlinear_optimizer.py"],
     [("retract_vars_sequence", "theseus/core/objective.py"), ("_vectorized_retract_optim_vars", "theseus/core/vectorizer.py")],
     "argument flow of masks into every store; slice layout induction over the ordering; abstract interpretation of whole runs",
     COMMON + RUNS)
prop("C10", "Linearization puts every jacobian block in its variable's columns",
     "The dense and sparse linearizations place every weighted jacobian block in the rows of its cost function and the columns of its "
     "variable given by the variable ordering, and the right-hand side is the negated weighted error; blocks for the same variable "
     "accumulate and nothing survives from a previous linearization. "
     "The step returned by a linear solver uses the same column layout as the one by which the step is split and retracted, the dense "
     "normal equations are A^T A and A^T b, and products with the sparse matrix use its own row and column pattern.",
     ["inputs", "configurations"], "all objectives, orderings, dof mixes and batch sizes", "Tests compare random small systems.",
     ["theseus/optimizer"],
     [("DenseLinearization", "theseus/optimizer/dense_linearization.py"), ("SparseLinearization", "theseus/optimizer/sparse_linearization.py")],
     "symbolic layout analysis (offset induction) and sibling agreement of dense and sparse assembly",
     COMMON)
prop("C11", "A variable ordering is a bijection over the optimization variables",
     "A variable ordering contains each optimization variable of its objective at most once, its index queries are the inverse of its "
     "position queries after any sequence of appends, extends and removals, and it refuses variables unknown to the objective, duplicates "
     "and removals of absent variables. A complete ordering contains every optimization variable, the default ordering is complete and "
     "follows the objective, and linearizations refuse incomplete orderings.",
     ["histories"], "all sequences of ordering operations", "Tests use one sequence.",
     ["theseus/optimizer/variable_ordering.py", "theseus/optimizer/linearization.py"],
     [("VariableOrdering", "theseus/optimizer/variable_ordering.py")],
     "typestate/effect analysis: paired updates of the list and the index map",
     COMMON)
prop("C12", "Cost functions honour the error/jacobian contract",
     "For every cost function and weight, jacobians() returns exactly one block per optimization variable in registration order together "
     "with the same error that error() returns, and the weighted forms are the cost weight applied to exactly these; the declared "
     "dimension does not depend on tensor values. Every registered variable is stored under a registered attribute name and its "
     "role (optimization or auxiliary) is the one the documentation of the class states.",
     ["inputs", "programs"], "all cost functions in the library and all inputs", "Tests compare numerically at random points.",
     ["theseus/core", "theseus/embodied"],
     [("CostFunction", "theseus/core/cost_function.py")],
     "return-shape analysis of jacobian lists against registered variables; sibling agreement of error and jacobians",
     COMMON)
prop("C13", "Cost weights scale error and jacobians identically",
     "Every cost weight multiplies the error and every row of every jacobian by the same factor, computed from its current parameter "
     "values, and returns all jacobians in order without changing its inputs. The zero test of a weight reports exactly the batch "
     "elements for which all of its values are zero.",
     ["inputs"], "all weights, batch sizes (1 or full) and values", "Tests sample random values.",
     ["theseus/core/cost_weight.py", "theseus/embodied/motionmodel/double_integrator.py"],
     [("CostWeight", "theseus/core/cost_weight.py")],
     "sibling agreement: same factor term reaches the error and every jacobian; abstract interpretation of every weight as one linear map",
     COMMON)
prop("C14", "Robust costs rescale consistently and only there",
     "A robust cost evaluates the inner cost with its own weight, applies the loss to the squared weighted error summed per batch element "
     "(or per dimension when flattened) with the exponentiated radius, and scales jacobians and error by the same factor, so that their "
     "product is the gradient of the robust objective. Its variables, weight and radius are those of the inner cost plus the radius, setters "
     "reach the inner cost, and the optimizer's reported objective uses the robust value of each cost while linearization uses the rescaled "
     "one.",
     ["inputs", "configurations"], "all losses, radii, inner costs and flatten settings", "Tests compare one loss at random points.",
     ["theseus/core/robust_cost_function.py", "theseus/core/robust_loss.py"],
     [("RobustCostFunction", "theseus/core/robust_cost_function.py"), ("RobustLoss", "theseus/core/robust_loss.py")],
     "ingredient and sibling agreement analysis of the rescaling terms",
     COMMON + "The numerical shape of each loss is not decided.")
prop("C15", "Autograd costs evaluate only on temporary variables",
     "An autodiff cost function evaluates the user's function, for jacobians, on temporary variables holding the tensors being "
     "differentiated, in the registered order, and never on detached, reordered or stale ones; the registered variables are put back to "
     "their values even if the user's function raises. All three jacobian modes return one block per optimization variable with the "
     "same layout, the derivative of error(), and error() evaluates the function on the current values.",
     ["inputs", "fault_sequences"], "all user functions, modes and batch sizes", "Tests use a few functions and no faults.",
     ["theseus/core/cost_function.py"],
     [("AutoDiffCostFunction", "theseus/core/cost_function.py")],
     "abstract interpretation of error() and jacobians() over algebraic normal forms, torch's differentiation represented by its meaning",
     INTERP + "Client functions are those listed in the check (algebraic, and through the group operations); batch sizes up to three.")
prop("C16", "Global switches and temporary state are restored on every exit",
     "Every context that changes global or object state (Lie group checks, internal warnings, functional checks, tangent and euclidean tensor "
     "modes, masked variables, temporary tensors of variables) has its documented effect inside and restores the exact previous state on every "
     "exit, including return, break, exceptions, nesting and entering again, and except for set_lie_tangent_enabled changes nothing merely by "
     "being constructed. Operations and optimizations, failing ones included, leave these settings as they were, and torch's or the warnings "
     "module's process-wide settings are only changed by contexts.",
     ["histories", "fault_sequences"], "all nestings and all exceptions inside the contexts", "Tests never raise inside the contexts.",
     ["theseus/core/variable.py", "theseus/core/cost_function.py", "theseus/geometry/lie_group_check.py", "theseus/geometry/utils.py", "torchlie/torchlie"],
     [("context managers", "theseus/, torchlie/")],
     "abstract interpretation of every context under every kind of exit and every pair of nestings, probing what the settings do before, inside "
     "and after; syntactic rule for process-wide setters",
     INTERP + "Torch's own contexts (no_grad, catch_warnings) are trusted.")
prop("C17", "Evaluating and operating on values never mutates inputs",
     "Group operations, conversions, errors, jacobians and weighted errors leave every tensor and variable they are given with exactly the "
     "values it had, do not depend on earlier evaluations of the same object, and do not overwrite results handed out before. "
     "Copies, new group elements and jacobians do not share storage with a variable.",
     ["inputs", "histories"], "all operations, cost functions and weights of the library, any operand values, any number of evaluations",
     "Tests rarely compare the inputs after the call or evaluate twice.",
     ["theseus/geometry", "theseus/core", "theseus/embodied", "torchlie/torchlie/functional"],
     [("operations", "theseus/geometry, torchlie/torchlie/functional"), ("error/jacobians", "theseus/embodied, theseus/core")],
     "abstract interpretation with a storage (alias) model of tensors: views share storage and in-place operations write through",
     INTERP)
prop("C18", "Results keep the dtype and device of their inputs",
     "Group operations, conversions, constructors, errors, jacobians and cost weights return tensors with the dtype and device of their operands, "
     "whatever torch's default dtype and device are, and never combine tensors of different floating dtypes or devices on the way.",
     ["configurations", "inputs"], "all operations, cost functions and weights of the library, both precisions, any device",
     "Tests run on the CPU and mostly with one default dtype.",
     ["theseus/geometry", "theseus/core", "theseus/embodied", "torchlie/torchlie/functional"],
     [("operations", "theseus/geometry, torchlie/torchlie/functional"), ("error/jacobians", "theseus/embodied, theseus/core")],
     "abstract interpretation with dtype and device tags on tensors, propagated through every operation",
     INTERP)
prop("C19", "Group operations have their documented value",
     "Compose, inverse, between, local, retract, exp, log, adjoint, hat, vee, rotations and transformations of points, gradient projection, "
     "conversions and constructors of every variable class, every operation of the torchlie tables and every LieTensor method and operator, return the matrix group operation they "
     "document, as methods and as functions, for every broadcast combination of batch sizes and leading dimensions. Random and identity "
     "elements belong to the group.",
     ["inputs"], "all operand values (up to rounding), batch sizes one or equal, several leading shapes", "Tests sample operands per group.",
     ["theseus/geometry", "torchlie/torchlie/functional", "torchlie/torchlie/lie_tensor.py"],
     [("operator tables", "torchlie/torchlie/functional"), ("variable classes", "theseus/geometry"), ("LieTensor", "torchlie/torchlie/lie_tensor.py")],
     "abstract interpretation to algebraic normal forms, compared entry by entry with the documented matrix operation by identity testing",
     INTERP)
prop("C20", "Invalid group data is refused on every construction path",
     "Building a Lie group element from a tensor checks shape and every constraint of the group (unit norm, orthogonality, determinant one) in "
     "every batch element with the group's own tolerance: with strict checks invalid data is refused, otherwise it is replaced by a valid "
     "element with a warning, and it is taken as it is only where checks were disabled. Valid data is stored unchanged, elements built from "
     "angles and quaternions are valid, vee refuses matrices that are no hat matrices, and wrong shapes are refused. The functional layer "
     "checks its group operands, hat matrices and quaternions when its checks are switched on.",
     ["inputs"], "all tensors, groups and check settings", "Tests use a few invalid matrices.",
     ["theseus/geometry", "torchlie/torchlie/functional"],
     [("_check_tensor", "theseus/geometry/manifold.py"), ("check_group_tensor", "torchlie/torchlie/functional")],
     "abstract interpretation of constructors, normalization, vee and the functional operations on elements that violate one constraint of the "
     "group at a time, in one batch element",
     INTERP + "Violations are a fixed list per constraint, position and size; updating an existing variable only checks shapes.")
prop("C21", "Optimization bookkeeping matches the iterations performed",
     "The nonlinear optimizer runs at most the requested iterations, stops when and only when all batch elements have converged or an "
     "error made the step unusable, and per batch element records status, number of iterations, last error and, when tracking, best error, "
     "best iteration and best solution consistently: the best entries change exactly where the error improved and hold copies taken at "
     "that point. Per-iteration histories are indexed by the iteration they describe, and a failing linear solve stops with failed status and "
     "leaves the variables unmoved.",
     ["inputs", "histories"], "all error sequences, batch mixes of convergence, and solver failures", "Tests follow few trajectories.",
     ["theseus/optimizer/nonlinear/nonlinear_optimizer.py"],
     [("_optimize_loop", "theseus/optimizer/nonlinear/nonlinear_optimizer.py")],
     "guarded effect analysis of the optimization loop with loop-carried terms; abstract interpretation of whole runs against the documented bookkeeping",
     COMMON + RUNS)
prop("C22", "Backward modes confine gradients as documented",
     "Unrolled optimization keeps the gradient graph of all iterations, truncated keeps exactly the last iterations requested, and "
     "implicit and direct loss minimization run the solver without recording gradients and attach them by one final differentiable step "
     "from the detached solution. Error and state histories and best solutions of nonlinear optimizers never keep graphs, and gradient mode is what the caller set after return.",
     ["configurations", "inputs"], "all backward modes, iteration counts and optimizers", "Tests check gradients of small problems.",
     ["theseus/optimizer/nonlinear/nonlinear_optimizer.py", "theseus/theseus_layer.py"],
     [("_optimize_impl", "theseus/optimizer/nonlinear/nonlinear_optimizer.py")],
     "gradient-context effect analysis over the call graph per backward mode; abstract interpretation of whole runs with gradient tags",
     COMMON + RUNS)
prop("C23", "Damping and trust region adapt per batch element and reset per run",
     "Levenberg-Marquardt damping and trust-region radius start from the requested initial value at every run, change only through their "
     "documented rule with accepted elements decreasing damping and rejected ones increasing it, stay within their bounds, and are "
     "adapted independently per batch element from the reduction predicted by the same linear system that produced the step. A step is accepted "
     "or rejected by comparing the new error with the previous one of the same element.",
     ["inputs", "histories"], "all acceptance sequences per batch element", "Tests follow a few runs.",
     ["theseus/optimizer/nonlinear"],
     [("LevenbergMarquardt", "theseus/optimizer/nonlinear/levenberg_marquardt.py"), ("Dogleg", "theseus/optimizer/nonlinear/dogleg.py")],
     "abstract interpretation of whole adaptive runs over scripted landscapes, every iterate compared with the documented update rule",
     INTERP + RUNS)
prop("C24", "Linear solvers solve the current damped system",
     "Every linear solver solves the system currently held by its linearization with the damping requested for this call (additive or "
     "scaled by the diagonal, with the given epsilon), never modifies the linearization's stored matrices, and returns a step of shape "
     "batch by columns. Singular-system checks and damping use the documented diagonal, and unsupported damping is refused rather than "
     "ignored.",
     ["inputs", "histories"], "all solvers, damping values and repeated solves", "Tests solve single random systems.",
     ["theseus/optimizer/linear"],
     [("LinearSolver.solve", "theseus/optimizer/linear")],
     "argument flow of damping and freshness of matrix values into every factorization; purity of linearization state",
     COMMON)
prop("C25", "Custom derivative rules match their forward signature",
     "Every custom autograd function returns exactly one gradient per forward input, None for inputs that are not differentiable, and reads "
     "from its context only what its forward stored there; it does not write to its inputs or to tensors it saved. For the Lie group operations, sparse "
     "products, linear solves and direct loss minimization the gradient is the adjoint of the derivative of the forward value; gradients for a matrix and right-hand "
     "side of a linear solve come from solving with the same factorization used by the forward call.",
     ["inputs", "programs"], "all custom functions and combinations of inputs requiring gradients", "Tests gradcheck a few shapes.",
     ["theseus/optimizer/autograd", "torchlie/torchlie", "theseus/theseus_layer.py"],
     [("autograd.Function subclasses", "theseus/optimizer/autograd, torchlie/torchlie/functional")],
     "arity and save/use pairing analysis of autograd functions",
     COMMON)
prop("C26", "The layer returns the optimized values of its own inputs",
     "A layer's forward call applies all given input tensors to its objective before optimizing, returns the tensors of all optimization "
     "variables of the objective after the optimization under their names, forwards the optimizer arguments unchanged without modifying "
     "the caller's dictionaries, and gives results independent of earlier forward calls. Moving the layer moves the objective, the optimizer "
     "and any auxiliary problem it created.",
     ["inputs", "histories"], "all inputs, optimizer arguments and sequences of forward calls", "Tests call forward a few times.",
     ["theseus/theseus_layer.py"],
     [("TheseusLayer.forward", "theseus/theseus_layer.py")],
     "forward() interpreted over symbolic tensors with a client optimizer that records what it receives and leaves symbols in the variables; outputs, counters, "
     "arguments and repeated calls are compared with the contract",
     INTERP + "Device moves are followed as a tag of the tensors.")
prop("C27", "Values and gradients stay finite at singular inputs",
     "At every exact singular point of a closed form - the zero tangent, the identity, an exact half turn, equal elements, a zero residual, "
     "the threshold of a robust loss, a single elite sample - the Lie group operations, cost functions, jacobians, robust losses and custom "
     "derivative rules return finite values. No operation on the differentiable path is applied where its value or its derivative is "
     "infinite or undefined, also not in the alternative that a switch does not select, since back-propagation multiplies it by zero and gives nan.",
     ["inputs"], "the singular set of every closed form, all values of the remaining inputs", "Random tests almost never hit the singular set.",
     ["torchlie/torchlie/functional", "theseus/geometry", "theseus/core/robust_loss.py", "theseus/embodied", "theseus/optimizer/nonlinear/dcem.py"],
     [("torch.where guards", "torchlie/torchlie/functional"), ("singular points of costs", "theseus/embodied"),
      ("robust losses", "theseus/core/robust_loss.py")],
     "abstract interpretation on the singular set: every division, root, inverse trigonometric and logarithm argument is checked to stay away from its singularity on both sides of each switch",
     INTERP + "Vector division by zero and a projection at zero depth are documented as undefined and left out.")
prop("C28", "Robot kinematics use every joint and link exactly where the model says",
     "Forward kinematics returns, for every requested link in the requested order, the product of each joint's fixed transform and its motion "
     "by its own joint value along the path from the root, whatever the order of the description and wherever fixed joints are. Body and spatial "
     "jacobians and the custom derivative rule are the derivatives of these poses, with each joint's column at its index and zero columns for "
     "joints not on the path, every joint class moves along or about its own axis and the kinematics model names them by link.",
     ["inputs", "programs"], "all joint values, origins and axes, robots of every joint kind and tree shape in a set of representative trees", "Tests use two or three robots.",
     ["torchkin/torchkin"],
     [("forward_kinematics", "torchkin/torchkin/forward_kinematics.py"), ("Robot", "torchkin/torchkin/robot.py"), ("joints", "torchkin/torchkin/joint.py")],
     "abstract interpretation to algebraic normal forms, compared with the product of transforms along the path and its derivative",
     INTERP)
prop("C29", "Moving an object moves everything it computes with",
     "Calling to() on a variable, cost function, cost weight, robust cost, motion model, signed distance field, objective or layer moves "
     "every tensor it holds and computes with, including weights, inner cost functions, temporary variables, radius and cached buffers.",
     ["configurations"], "all classes and all tensors they hold", "Tests run on CPU with one dtype.",
     ["theseus/core", "theseus/embodied", "theseus/theseus_layer.py"],
     [("to()", "theseus/core, theseus/embodied")],
     "abstract interpretation with dtype and device tags: inventory of every tensor reachable from a moved object, and tags of its results",
     INTERP)
prop("C30", "Sparse matrix utilities keep the compressed format consistent",
     "Sparse matrix helpers (structures, transpose, products and the autograd wrappers on them, products with the diagonal) combine values with "
     "the row pointers and column indices of the same matrix, for every batch element, and never assume square or equal-sized blocks where the "
     "format does not. The sparse linearization stands for the same matrix as the dense one: every product with it gives the same result.",
     ["inputs"], "all values, for a set of sparsity patterns and problem structures (rectangular, empty rows, unequal blocks, repeated variables)",
     "Tests use random square systems.",
     ["theseus/optimizer/autograd", "theseus/utils/sparse_matrix_utils.py", "theseus/optimizer/sparse_linearization.py"],
     [("sparse mv/mtv", "theseus/utils/sparse_matrix_utils.py"), ("SparseStructure", "theseus/optimizer/linear_system.py")],
     "abstract interpretation to algebraic normal forms of the sparse kernels on a set of patterns, compared with the matrix the format stands for",
     INTERP)
prop("C31", "Sampling-based optimization keeps its distribution state per run",
     "The sampling-based optimizer starts every run from the current variables and initial covariance, scores every sample with the "
     "objective's error without leaving a trace in the variables, weights samples so that better scores weigh more, and updates the mean "
     "and covariance per batch element in the layout of the variable ordering, writing the final mean to the variables.",
     ["inputs", "histories"], "all populations, elites and repeated runs", "Tests check convergence on one problem.",
     ["theseus/optimizer/nonlinear/dcem.py"],
     [("DCEM", "theseus/optimizer/nonlinear/dcem.py")],
     "one step, the start of a run and the loop interpreted with symbolic noise; mean, deviation and weights are compared as algebraic forms with the ones "
     "the samples imply",
     INTERP + "The distribution is assumed to be mean + std * noise and the LML layer is a stand-in; four samples, batches of one and two.")
prop("C46", "Robust losses and their linearizations are the documented pair",
     "Every robust loss is a function of the squared error and of the exponential of its log radius, and its linearization is, in every "
     "branch, the derivative of its value with respect to the squared error. The losses are the documented ones (Welsch, Huber, Hinge, "
     "Geman-McClure) up to guards against division by zero, are zero without error and do not jump between their branches.",
     ["inputs"], "all squared errors, radii and control values", "Tests compare derivatives at random points away from the branch borders.",
     ["theseus/core/robust_loss.py"], [("RobustLoss.evaluate / linearize", "theseus/core/robust_loss.py")],
     "symbolic differentiation and normal forms of the closed forms in the source, per branch",
     "Exact over the reals for the closed forms in the source; selections and max/min are split on their comparison, ties and constants "
     "below 1e-6 (guards against division by zero) are ignored, radius and squared error are taken positive.")
prop("C40", "Analytic jacobians are the derivative of the value",
     "For every operation with jacobians of the variable classes and of torchlie, and for every cost function of the library, the analytic "
     "jacobian of each operand equals the derivative of the returned value along the tangent directions of that operand, for every batch "
     "element and for broadcast operands, and asking for jacobians does not change the value. "
     "There is one block per operand in order, and the forms used near zero and near half a turn agree with the general ones at the border "
     "of the region where they are used.",
     ["inputs"], "all operand values (up to rounding), batch sizes one or equal", "Tests compare with finite differences at random points.",
     ["theseus/geometry", "theseus/embodied", "torchlie/torchlie/functional"],
     [("jacobians()", "theseus/embodied"), ("log_map/exp_map/compose/between", "theseus/geometry"), ("j-operators", "torchlie/torchlie/functional")],
     "abstract interpretation to algebraic normal forms, symbolic differentiation, identity testing of normal forms, trace partitioning by branch decisions",
     INTERP)
prop("C45", "Signed distance interpolation is the field's bilinear interpolant",
     "The signed distance of a query point inside the grid is the bilinear interpolation of the four surrounding field values and the returned "
     "gradient is its exact gradient with respect to the point, with columns along x and rows along y. Points outside the grid get the "
     "boundary value and a zero gradient, every batch element uses its own field, origin and cell size, and a field made from an occupancy map is the signed distance to its obstacles.",
     ["inputs"], "all fields, origins, cell sizes and points, every cell of the grid", "A few fields and points.", ["theseus/embodied/collision"],
     [("signed_distance", "theseus/embodied/collision/signed_distance_field.py")],
     "abstract interpretation to algebraic normal forms per grid cell, compared with the interpolant's form",
     INTERP)
prop("C41", "exp and log are inverse on their domain",
     "exp(log(g)) equals g for every group element, log(exp(v)) equals v for tangent vectors with rotation below half a turn, and exp(log(exp(v))) "
     "equals exp(v) beyond, in double and single precision, through the series used near zero and near half a turn. The logarithm lies in the "
     "principal domain.",
     ["inputs"], "every region of rotation angles the source distinguishes, several axes, tolerance 2e-6 (3e-4 in the single precision regions)",
     "Random sampling hits the narrow regions near zero and half a turn rarely.", ["theseus/geometry", "torchlie/torchlie/functional"],
     [("exp/log", "torchlie/torchlie/functional"), ("exp_map/log_map", "theseus/geometry")],
     "abstract interpretation of the composed maps with trace partitioning by branch decisions, identity testing of the composed form in every region and at its borders",
     INTERP)
prop("C48", "Cost functions evaluate their documented residual",
     "error() of every cost function of the library is its documented residual for every value and batch combination: the logarithm of the "
     "deviation from target or measurement, the constant velocity and Gaussian process models, nonholonomic and quasi-static pushing models, "
     "pinhole reprojection with distortion, hinge limits, collision and contact distances. The Gaussian process weight squares to the inverse "
     "process covariance for errors and jacobians.",
     ["inputs"], "all variable values, batch sizes one or equal per operand", "A few samples, several compared with the implementation itself.",
     ["theseus/embodied", "theseus/utils/examples/motion_planning"],
     [("error()", "theseus/embodied"), ("GPCostWeight", "theseus/embodied/motionmodel/double_integrator.py")],
     "abstract interpretation to algebraic normal forms, compared entry by entry with the documented residual by identity testing",
     INTERP)
# ------------------------------------------------------------------ declined
prop("C49", "Samples drawn by the layer follow the linearized posterior",
     "compute_samples returns, for vector variables, one column per sample in the linearization's variable order whose mean is the current "
     "state moved by the solution of the linear system and whose covariance is the inverse of the system matrix times the temperature. "
     "Samples of different columns are independent, every batch element uses its own system, and without a linear solver there are no samples.",
     ["inputs"], "all systems, states, temperatures, batch sizes and orders in a set of representative problem structures", "Tests use one sampled trajectory without looking at its distribution.",
     ["theseus/theseus_layer.py"],
     [("TheseusLayer.compute_samples", "theseus/theseus_layer.py")],
     "abstract interpretation with noise entries as symbols: affine form of the samples, its mean and its covariance compared with the system in closed form",
     INTERP)
prop("C43", "Backward modes return the sensitivity of the solution",
     "At the solution of a problem that is linear in its variables, or whose residual vanishes, the gradients of returned values in unrolled, truncated and "
     "implicit mode are the derivative of the minimizer with respect to every input, shared inputs and weights included. "
     "The direct loss gradient approaches the incoming gradient times this derivative as its epsilon shrinks, and starting values get none.",
     ["inputs"], "all inputs and shapes of a set of client problems with closed-form minimizers, optimizers, linear solvers and iteration counts",
     "Tests compare modes with each other on one quadratic problem.",
     ["theseus/theseus_layer.py", "theseus/optimizer/nonlinear"],
     [("NonlinearOptimizer._optimize_impl", "theseus/optimizer/nonlinear/nonlinear_optimizer.py"), ("TheseusLayerDLMForward", "theseus/theseus_layer.py")],
     "abstract interpretation of whole runs with inputs as symbols; derivatives of the returned normal forms compared with the derivative of the minimizer in closed form",
     INTERP)
NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=reason))


na("C42", "Optimizers converge to a stationary point",
   "On well-posed problems every optimizer converges to a stationary point of the objective.", ["inputs"], "all well-posed problems",
   "A few problems are solved.", ["theseus/optimizer"], [("optimize", "theseus/optimizer")],
   "convergence depends on run-time values; only the bookkeeping (C21, C23) is structural")
na("C44", "CUDA and compiled sparse solvers agree with the CPU solvers",
   "GPU and extension-based solvers return the same solution as the reference CPU solvers.", ["configurations"], "all systems",
   "Needs hardware.", ["theseus/extlib", "theseus/optimizer/linear"], [("extensions", "theseus/extlib")],
   "numerical agreement of device kernels that are not built here (no CUDA, no baspacho); python wrappers are in C24/C25")
prop("C47", "Batch elements do not influence each other's results",
     "Every entry of batch element b of a group operation, error, jacobian, loss or weighted error depends on batch element b of the operands "
     "(and unbatched operands) only. A batch whose elements lie in different regions (near zero, general, near half a turn, inside and "
     "outside an obstacle) gives each element the value it has in a batch of its own.",
     ["inputs"], "all operand values and batch sizes one or equal per operand", "Tests compare few homogeneous batches.",
     ["theseus/geometry", "theseus/core", "theseus/embodied", "torchlie/torchlie/functional"],
     [("batch dimension", "theseus/geometry, theseus/embodied, torchlie/torchlie/functional")],
     "abstract interpretation to algebraic normal forms and dependency analysis of every entry on batch indices",
     INTERP)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + chr(10))
    checks, nas = [], []
    for p in P:
        if "na" in p:
            nas.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            nas.append({"property": p["id"], "reason": "check under construction"})
        else:
            checks.append({
                "property": p["id"], "quick_cmd": f"python3 run.py {p['id']}", "thorough_cmd": f"python3 run.py {p['id']} --thorough",
                "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"].strip(),
            })
    m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 9)'", "checks": checks,
         "not_applicable": nas,
         "notes": "All checks read /repo's current source only (python ast); nothing of the repository is imported or executed. "
                  "No hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write(chr(10))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    print(len(checks), "checks", len(nas), "not claimed")


main()
