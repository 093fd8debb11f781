"""Writes properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    P.append(d)

G = "theseus/geometry/"
L = "torchlie/torchlie/functional/"
prop("P01", "Lie groups and their point actions obey the group laws",
 "For every supported manifold (2D/3D rotations, rigid motions, vectors and points), composition, inverse, relative element, and the action on points (rotate, unrotate, transform to and from) agree with the corresponding matrix algebra, and therefore satisfy associativity, identity, inverse and action laws. Results are valid elements of the same type, dtype and batch size, and no operand is modified. The adjoint of an element conjugates: moving a tangent perturbation across the element by its adjoint gives the same element.",
 ["inputs"], "all group elements, tangent vectors, points, batch sizes and both float dtypes",
 "tests sample a handful of random elements with one fixed seed and seldom check mixed batch sizes or operand immutability",
 [G+"lie_group.py", G+"so2.py", G+"se2.py", G+"so3.py", G+"se3.py", G+"vector.py", G+"point_types.py"],
 [("group operations", G+"lie_group.py: compose/inverse/between/adjoint"), ("point action", G+"se3.py, se2.py, so2.py, so3.py: transform_from/transform_to/rotate/unrotate")])
prop("P02", "Exponential, logarithm, retraction and local are exact inverses",
 "For every manifold the exponential map equals the matrix exponential of the tangent vector, the logarithm inverts it (for rotations returning an angle of at most pi), and retracting an element by the local difference to another element yields that other element. This holds to within the numeric tolerance of the dtype over the whole domain, including zero, tiny, and near-pi rotations.",
 ["inputs"], "all tangent vectors and elements, in particular angles in the small-angle branches and within rounding of pi; both float dtypes",
 "tests cover a few seeded magnitudes; the near-zero and near-pi branch thresholds are crossed only at hand-picked points",
 [G+"so2.py", G+"se2.py", G+"so3.py", G+"se3.py", G+"manifold.py", L+"so3_impl.py", L+"se3_impl.py"],
 [("exp/log", L+"so3_impl.py, se3_impl.py: exp, log"), ("2D exp/log", G+"se2.py, so2.py: exp_map, log_map"), ("retract/local", G+"lie_group.py: _retract_impl, _local_impl")])
prop("P03", "Closed-form Jacobians of geometry operations equal true derivatives",
 "Whenever a geometry operation (exponential, logarithm, composition, inverse, relative element, local difference, rotating or transforming points, extracting components) returns Jacobians on request, each equals the derivative of the operation with respect to a right tangent-space perturbation of that operand. Requesting Jacobians never changes the returned value.",
 ["inputs"], "all operands of every differentiable geometry operation for every group",
 "tests compare at a few seeded points with loose tolerance, and never near the small-angle switch for every operation",
 [G+"lie_group.py", G+"so2.py", G+"se2.py", G+"so3.py", G+"se3.py", L+"so3_impl.py", L+"se3_impl.py"],
 [("jacobians", G+"*: jacobians= arguments"), ("3D kernels", L+"so3_impl.py, se3_impl.py: _j*_impl")])
prop("P04", "Automatic differentiation through geometry matches true derivatives",
 "Back-propagating through any geometry operation (including custom backward rules of the 3D groups) yields, along every tangent direction, the directional derivative of the operation. Projecting a Euclidean gradient onto the tangent space gives the gradient with respect to the retraction.",
 ["inputs"], "all operations, operands, output cotangents and batch shapes",
 "gradcheck in tests runs on a few seeds and not for every operation, branch or batch shape",
 [L+"so3_impl.py", L+"se3_impl.py", G+"lie_group.py", G+"utils.py"],
 [("custom backward", L+"so3_impl.py, se3_impl.py: *.backward"), ("gradient projection", G+"lie_group.py: project, euclidean_grad utilities")])
prop("P05", "The functional 3D Lie API is batch-shape independent and coherent",
 "For the functional rotation and rigid-motion API and the Lie tensor type, applying an operation to a tensor with any leading batch shape gives, element by element, what applying it to each element alone gives, with standard broadcasting between operands. The value returned together with Jacobians equals the value returned without them, gradient helpers (lift, project, left actions) satisfy their defining identities, and the Lie tensor type agrees with the functional API. Lie tensors made from or converted to other data keep the given values at the requested precision, and operands of the wrong shape are refused.",
 ["inputs", "configurations"], "all operations, leading batch shapes (including none, singleton and multi-dimensional), dtypes and broadcast combinations",
 "tests enumerate few batch shapes and mostly compare with the implementation itself",
 [L+"lie_group.py", L+"so3_impl.py", L+"se3_impl.py", "torchlie/torchlie/lie_tensor.py", L+"utils.py"],
 [("functional API", L+"lie_group.py: LieGroupFns and factories"), ("wrapper type", "torchlie/torchlie/lie_tensor.py: LieTensor")])
prop("P06", "Group construction, validation and conversions are faithful",
 "Every public way of building a group element (angles, unit or unnormalised quaternions, pose vectors, matrices, random sampling, normalisation) yields a valid element representing the given data, and converting back recovers that data up to the representation's sign ambiguity. Data that is not a valid element is rejected with an error while checks are enabled, hat and vee are mutual inverses, normalisation is the closest valid element, and uniform sampling is unbiased over the group.",
 ["inputs"], "all data tensors, valid and invalid, both dtypes and batch sizes",
 "tests use a few seeded tensors per constructor; rejection is checked for few malformed inputs",
 [G+"so2.py", G+"se2.py", G+"so3.py", G+"se3.py", G+"manifold.py", L+"so3_impl.py", L+"se3_impl.py", L+"check_contexts.py"],
 [("constructors", G+"*: __init__, from/to conversions"), ("validation", L+"so3_impl.py: check_*; "+G+"lie_group_check.py")])
C = "theseus/core/"
prop("P07", "An objective's contents always mirror its history of adds and erases",
 "After any sequence of adding, re-adding, erasing and copying cost functions, an objective reports exactly the cost functions added and not erased, in insertion order, and exactly the variables those functions and their weights use, with matching sizes and connections. Name clashes, dtype clashes and dual use of a variable are rejected with an error, and any change of structure is detectable by solvers built earlier. A copy is structurally identical and shares no state with the original.",
 ["histories"], "all sequences of add, erase, copy and lookup operations over cost functions sharing variables and weights",
 "tests execute fixed short scripts; sharing patterns and interleavings are unbounded",
 [C+"objective.py", C+"theseus_function.py", C+"cost_weight.py"],
 [("registration", C+"objective.py: add, _add_function_variables"), ("removal", C+"objective.py: erase, _erase_function_variables"), ("copy", C+"objective.py: copy, _copy_impl")])
prop("P08", "Objective updates and error evaluation follow the given data",
 "After updating an objective with named tensors, the error vector is the concatenation, in insertion order, of each cost function's weighted error evaluated on the current variable values, with batch size resolved to the unique non-singleton one; the error metric is half its squared norm unless customised. Inconsistent batch sizes and wrong shapes or dtypes are rejected; data for unknown names is ignored with a warning. A non-permanent evaluation leaves every variable's value as it was.",
 ["histories", "inputs"], "all sequences of updates and evaluations, batch-size mixes, and data dictionaries",
 "tests check a couple of update patterns on small fixed objectives",
 [C+"objective.py", C+"variable.py", C+"cost_function.py"],
 [("update", C+"objective.py: update"), ("error", C+"objective.py: error, error_metric"), ("variable data", C+"variable.py: update")])
prop("P09", "Vectorised evaluation is observationally identical to plain evaluation",
 "Turning cost-function vectorisation on or off never changes errors, their order, weighted errors, Jacobians, retractions or optimisation results, for any mix of cost function types, shared or distinct weights, shared auxiliary variables, singleton-versus-full batches, masks, and any history of updates, including updates of only some variables.",
 ["histories", "configurations"], "all objective structures and update histories",
 "tests compare a few fixed objectives after one update; staleness and grouping depend on the history and structure",
 [C+"vectorizer.py", C+"objective.py"],
 [("grouping by schema", C+"vectorizer.py: Vectorize"), ("cache refresh", C+"objective.py: update_vectorization_if_needed")])
E_ = "theseus/embodied/"
prop("P10", "Cost function Jacobians equal the derivative of their error",
 "For every analytic cost function provided, with any admissible variables and manifold types, the returned error equals the plain error and each Jacobian equals the derivative of that error with respect to the right perturbation of the corresponding optimisation variable. Documented opt-in approximations are the only exception.",
 ["inputs", "configurations"], "all variable values (smooth points), manifold types and batch sizes for every provided cost function",
 "tests compare to numeric derivatives at a few seeded points, often with the measurement consistent so errors in log terms vanish",
 [E_+"measurements/between.py", E_+"measurements/moving_frame_between.py", E_+"measurements/reprojection.py", E_+"misc/local_cost_fn.py", E_+"motionmodel/double_integrator.py", E_+"motionmodel/quasi_static_pushing_planar.py", E_+"motionmodel/misc.py", E_+"collision/collision.py", E_+"collision/eff_obj_contact.py"],
 [("jacobians", E_+"**: jacobians()")])
prop("P11", "Cost function errors equal their mathematical definition",
 "Each provided cost function's error equals its published formula computed independently: relative-pose and moving-frame residuals, local differences, pinhole reprojection with radial distortion, constant-velocity motion models, hinge limits, nonholonomic and quasi-static pushing constraints, collision and contact penalties. A copy of a cost function evaluates identically and is independent of the original.",
 ["inputs"], "all variable and auxiliary values and batch sizes, including singleton auxiliary data",
 "tests check few hand-computed values",
 [E_+"measurements/between.py", E_+"measurements/moving_frame_between.py", E_+"measurements/reprojection.py", E_+"misc/local_cost_fn.py", E_+"motionmodel/double_integrator.py", E_+"motionmodel/quasi_static_pushing_planar.py", E_+"motionmodel/misc.py", E_+"collision/collision.py", E_+"collision/eff_obj_contact.py"],
 [("errors", E_+"**: error()")])
prop("P12", "Signed distance fields interpolate the grid and reflect the occupancy map",
 "Querying a signed distance field returns the bilinear interpolation of the grid at points inside it, the boundary value with zero gradient outside, and a gradient equal to the derivative of the interpolation; each batch element uses its own grid, origin and cell size. A field built from an occupancy map is the exact distance to the nearest occupied cell outside obstacles, minus the distance to the nearest free cell inside.",
 ["inputs"], "all grids, origins, cell sizes, query points (inside, on cell borders, outside) and batches",
 "tests compare a few fixed grids and random interior points",
 [E_+"collision/signed_distance_field.py", "theseus/utils/utils.py"],
 [("interpolation", E_+"collision/signed_distance_field.py: signed_distance"), ("map conversion", E_+"collision/signed_distance_field.py: _compute_sdf_data_from_map"), ("gather", "theseus/utils/utils.py: gather_from_rows_cols")])
prop("P13", "Autodiff cost functions give the same exact Jacobians in every mode",
 "A cost function defined by a user error function returns that function's value and its exact derivative with respect to right perturbations of each optimisation variable, on Euclidean and Lie variables alike. All differentiation modes agree for every combination of singleton and full batch operands, and copies keep the mode and behaviour.",
 ["inputs", "configurations"], "all error functions from a generated family, variable types, batch combinations and modes",
 "tests use a couple of functions with equal batch sizes",
 [C+"cost_function.py"],
 [("autodiff modes", C+"cost_function.py: AutoDiffCostFunction")])
prop("P14", "Cost weights scale errors and Jacobians consistently",
 "Weighting a cost function multiplies its error and every Jacobian by the same square-root-information matrix defined by the weight's current data (scale, diagonal, Gaussian-process), for any mix of singleton and full batches. A zero weight contributes exactly nothing for that batch element, and masked evaluation gives zeros there without changing other elements. Data that does not define a weight (wrong rank, indefinite or non-square information, non-positive time step) is refused.",
 ["inputs", "configurations"], "all weight values, shapes, batch mixes and masks",
 "tests check a few shapes and single-batch combinations",
 [C+"cost_weight.py", C+"cost_function.py", E_+"motionmodel/double_integrator.py"],
 [("weights", C+"cost_weight.py: weight_error, weight_jacobians_and_error, is_zero"), ("masking", C+"cost_function.py: masked_jacobians, supports_masking")])
prop("P15", "Robust costs equal the robust loss and keep its gradient",
 "For each robust kernel, the objective contribution of a robust cost is half the kernel value of the squared weighted error times the kernel's scale, and the gradient from its rescaled error and Jacobians equals the gradient of that loss (per element or per dimension as configured). Kernels are nonnegative and nondecreasing and their slopes match their values; apart from the hinge, which ignores residuals below its margin, they never exceed the quadratic loss and approach it for small residuals.",
 ["inputs", "configurations"], "all residuals including zero and very large, radii, kernels, weights and flattening options",
 "tests compare only few residuals and radii",
 [C+"robust_loss.py", C+"robust_cost_function.py"],
 [("kernels", C+"robust_loss.py: evaluate, linearize"), ("rescaling", C+"robust_cost_function.py: weighted_error, weighted_jacobians_error")])
O = "theseus/optimizer/"
prop("P16", "Dense and sparse linearisations represent the same exact linear system",
 "For any objective and any variable ordering, the dense and the sparse linearisation both encode the Jacobian and right-hand side obtained by stacking every cost function's weighted Jacobian blocks at its variables' columns. Derived quantities (normal matrix, gradient, diagonal, matrix-vector products, splitting a step into per-variable steps) agree with that system for every batch element.",
 ["inputs", "configurations"], "all objective structures, variable dimensions, orderings and batch sizes",
 "tests compare on a few random structures and never vary ordering with unequal variable dimensions",
 [O+"dense_linearization.py", O+"sparse_linearization.py", O+"linearization.py", O+"variable_ordering.py"],
 [("dense", O+"dense_linearization.py"), ("sparse", O+"sparse_linearization.py"), ("ordering", O+"variable_ordering.py")])
prop("P17", "Linear solvers return the damped normal-equation solution",
 "Every available linear solver returns the step solving the (optionally damped, additively or proportionally to the diagonal) normal equations to the precision of the objective's dtype, independently for each batch element, with per-element damping respected. Solvers agree with each other, back-propagate the correct derivatives, and when asked to tolerate singular systems give zero steps only for the singular elements.",
 ["inputs", "configurations"], "all well-conditioned systems, dampings, batch sizes, dtypes and solver options",
 "tests solve few fixed random systems with loose tolerances",
 [O+"linear/dense_solver.py", O+"linear/cholmod_sparse_solver.py", O+"linear/utils.py", O+"autograd/cholmod_sparse_autograd.py"],
 [("dense solve", O+"linear/dense_solver.py"), ("sparse solve", O+"linear/cholmod_sparse_solver.py"), ("damping", O+"linear/utils.py"), ("sparse backward", O+"autograd/common.py")])
prop("P18", "Nonlinear optimisers solve and never worsen least-squares problems",
 "On a linear least-squares problem a full undamped step reaches the exact minimiser, and the linear optimizer takes exactly one such step or, when the system cannot be solved, reports failure without moving anything. On any problem, adaptive damping and trust-region variants never accept a step that increases an element's error, trust-region steps stay inside the current region, and at reported convergence the gradient is small; returned values are always valid manifold elements.",
 ["inputs", "configurations"], "all generated problems, starting points, optimiser variants and options",
 "tests run a few fixed problems and check only the final value",
 [O+"nonlinear/gauss_newton.py", O+"nonlinear/levenberg_marquardt.py", O+"nonlinear/dogleg.py", O+"nonlinear/trust_region.py", O+"nonlinear/nonlinear_least_squares.py"],
 [("step acceptance", O+"nonlinear/levenberg_marquardt.py, trust_region.py: _complete_step"), ("dogleg", O+"nonlinear/dogleg.py: compute_delta"), ("loop", O+"nonlinear/nonlinear_optimizer.py: _optimize_loop")])
prop("P19", "Optimiser reports are truthful",
 "The information returned by an optimisation is consistent with what happened: recorded error histories are the objective's errors at the recorded states, unused entries stay infinite, the best solution and its error and iteration are those with the smallest recorded error, convergence iterations and statuses match the histories, and final variables match the last recorded state. This holds for every optimiser, backward mode, and early convergence or iteration-limit exit.",
 ["inputs", "configurations"], "all problems, batch sizes, optimisers, history flags, backward modes and stopping conditions",
 "tests check a few fields in default mode only",
 [O+"nonlinear/nonlinear_optimizer.py", O+"nonlinear/nonlinear_least_squares.py", O+"nonlinear/dcem.py"],
 [("bookkeeping", O+"nonlinear/nonlinear_optimizer.py: _init_info, _update_info, _merge_infos"), ("status", O+"nonlinear/nonlinear_optimizer.py: _check_convergence, _optimize_impl")])
prop("P20", "Batch elements are optimised independently",
 "Solving a batch of problems gives for each element the solution obtained by solving that element alone for the same number of iterations, for any optimiser, linear solver, linearisation and damping, regardless of the other elements' data or order.",
 ["inputs", "configurations"], "all batches of problems, permutations, optimisers and solvers",
 "tests never compare batched with single solves element by element",
 [O+"nonlinear/nonlinear_optimizer.py", O+"nonlinear/nonlinear_least_squares.py", O+"nonlinear/levenberg_marquardt.py", O+"nonlinear/dogleg.py", C+"objective.py"],
 [("retract with masks", C+"objective.py: retract_vars_sequence"), ("per-element damping", O+"nonlinear/levenberg_marquardt.py")])
prop("P21", "Gradients through the optimisation layer are correct in every backward mode",
 "The forward solution does not depend on the backward mode. At convergence, differentiating the solution with respect to any auxiliary tensor through full unrolling, truncated unrolling, implicit differentiation or direct-loss minimisation gives the derivative of the minimiser, up to each mode's documented approximation.",
 ["inputs", "configurations"], "all generated problems, backward modes, optimisers and linear solvers",
 "tests compare modes on one or two fixed problems",
 ["theseus/theseus_layer.py", O+"nonlinear/nonlinear_optimizer.py", O+"autograd/cholmod_sparse_autograd.py"],
 [("modes", O+"nonlinear/nonlinear_optimizer.py: _optimize_impl"), ("direct loss minimisation", "theseus/theseus_layer.py: TheseusLayerDLMForward")])
prop("P22", "The layer is a repeatable function of its inputs",
 "A forward pass depends only on the input tensors and current auxiliary data: repeating it gives identical outputs, caller tensors are never modified, omitted inputs keep their last values, and outputs contain every optimisation variable. A layer whose objective changed structure afterwards refuses to run, and failing linear solves are reported as failure (or raise when gradients are required) without corrupting later calls.",
 ["histories", "fault_sequences"], "all sequences of forward calls with varying inputs, options, batch sizes and injected solver failures",
 "tests call forward once or twice with fixed inputs",
 ["theseus/theseus_layer.py", O+"optimizer.py", O+"nonlinear/nonlinear_optimizer.py"],
 [("forward", "theseus/theseus_layer.py: forward"), ("version check", O+"optimizer.py: optimize"), ("failure handling", O+"nonlinear/nonlinear_optimizer.py: _optimize_loop")])
prop("P23", "Robot forward kinematics and Jacobians follow the URDF tree",
 "For any robot description made of fixed, revolute, continuous and prismatic joints, each link pose equals the product of joint origins and joint motions from the root, regardless of declaration order and of which links are requested. Body and spatial Jacobians and back-propagated gradients equal the derivative of those poses, and batch elements are independent.",
 ["inputs", "programs"], "all kinematic trees, joint axes, origins, angles, link selections and batch sizes",
 "tests use a few fixed robot files",
 ["torchkin/torchkin/robot.py", "torchkin/torchkin/joint.py", "torchkin/torchkin/forward_kinematics.py", E_+"kinematics/kinematics_model.py"],
 [("tree building", "torchkin/torchkin/robot.py: from_urdf_file"), ("kinematics and jacobians", "torchkin/torchkin/forward_kinematics.py")])
prop("P24", "Sparse matrix helpers equal their dense counterparts with gradients",
 "Batched sparse matrix-vector products (plain and transposed) over a shared sparsity pattern equal the dense products for every batch element, and so do their derivatives with respect to values and vectors. Pattern utilities that build or damp normal matrices preserve the represented matrix.",
 ["inputs"], "all sparsity patterns (empty rows and columns included), values, batch sizes",
 "tests sample a few random patterns",
 ["theseus/utils/sparse_matrix_utils.py", O+"linear_system.py"],
 [("products", "theseus/utils/sparse_matrix_utils.py: sparse_mv, sparse_mtv")])
prop("P25", "Sampling-based optimisation respects its elite-weight and range contracts",
 "The differentiable top-k weighting used by the sampling optimiser returns weights between zero and one that sum to k, are monotone in the scores and invariant to shifting them, with derivatives matching finite differences. The sampling optimiser is reproducible under a fixed seed, never mixes batch elements, and reports the best sampled mean. Posterior samples drawn by the layer around a solution follow the Gaussian defined by that element's linear system and temperature.",
 ["inputs", "configurations"], "all score vectors, k, temperatures, problems and batch sizes",
 "tests check one or two fixed problems",
 ["theseus/third_party/lml.py", O+"nonlinear/dcem.py", "theseus/theseus_layer.py"],
 [("posterior samples", "theseus/theseus_layer.py: compute_samples"), ("top-k layer", "theseus/third_party/lml.py: LML"), ("sampling optimiser", O+"nonlinear/dcem.py: DCEM")])
prop("P26", "Manifold Gaussians transport mean and precision consistently",
 "Expressing a Gaussian over manifold variables in the tangent space of another point and bringing it back recovers the original mean and precision, for every combination of variable types and batch sizes, and conversions keep precision matrices symmetric. Invalid shapes, dtypes or non-symmetric precisions are rejected.",
 ["inputs"], "all means, reference points, precisions, variable mixes and batch sizes",
 "tests use few seeded examples",
 [O+"manifold_gaussian.py"],
 [("local/retract of Gaussians", O+"manifold_gaussian.py: local_gaussian, retract_gaussian")])
prop("P27", "Problem datasets survive a save and load round trip",
 "Writing a pose-graph or bundle-adjustment problem to its file format and reading it back reproduces the vertices, edges, measurements, weights, cameras, points and observations, including ground truth, for any problem; reading standard 2D and 3D pose-graph files yields exactly the described problem. Splitting a dataset into batches partitions it.",
 ["inputs"], "all generated pose graphs and bundle-adjustment problems, orders of lines and batch sizes",
 "tests do not exercise these readers and writers beyond one synthetic case",
 ["theseus/utils/examples/pose_graph/dataset.py", "theseus/utils/examples/bundle_adjustment/data.py"],
 [("pose graph io", "theseus/utils/examples/pose_graph/dataset.py: read_*_g2o_file, write_3D_g2o, get_batch_dataset"), ("bundle adjustment io", "theseus/utils/examples/bundle_adjustment/data.py: load/save")])
prop("P28", "Scoped settings are always restored",
 "Every scoped switch (group checks, quiet checks, tangent-gradient mode, temporarily disabling or masking variables, internal warning suppression around a solve) takes effect exactly inside its scope and restores the previous state on exit, for any nesting and also when the body raises. Global parameters can be changed and reset without side effects on others.",
 ["histories", "fault_sequences"], "all nestings of scopes and exceptions raised at any point inside them",
 "tests check normal exit without exceptions or nesting",
 [G+"lie_group_check.py", L+"check_contexts.py", "torchlie/torchlie/lie_tensor.py", C+"cost_function.py", "theseus/global_params.py", O+"linear/utils.py"],
 [("check contexts", G+"lie_group_check.py, "+L+"check_contexts.py"), ("tangent mode", G+"lie_group.py / utils.py: lie tangent contexts"), ("masked variables", C+"cost_function.py: masked_variables")])
prop("P29", "Variable data changes are validated and batch masks are respected",
 "Updating a variable either installs exactly the given data (except at masked batch elements, which keep their old values) or raises and leaves it unchanged when shape or dtype is wrong. Retracting all variables moves precisely the unmasked batch elements of precisely the optimisation variables by their own slice of the step.",
 ["inputs", "histories"], "all variable types, masks, data, steps and orderings",
 "tests cover few variable types and masks",
 [C+"variable.py", G+"lie_group.py", G+"manifold.py", C+"objective.py"],
 [("update", C+"variable.py: update"), ("retraction", C+"objective.py: retract_vars_sequence, _retract_base; "+C+"vectorizer.py: _vectorized_retract_optim_vars")])
prop("P30", "Converting precision converts everything and preserves values",
 "Moving a variable, cost function, weight, objective, or layer to another floating dtype converts every tensor it reaches, preserves their values up to rounding, and subsequent evaluation and optimisation work entirely in that dtype with the same results up to rounding.",
 ["configurations", "histories"], "all object kinds, variable mixes and conversion sequences",
 "tests check the dtype attribute for few objects",
 [C+"objective.py", C+"variable.py", C+"theseus_function.py", "theseus/theseus_layer.py"],
 [("to()", C+"objective.py: to; "+C+"theseus_function.py: to; theseus/theseus_layer.py: to")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
