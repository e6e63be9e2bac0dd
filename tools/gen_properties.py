"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("C01", "Flattening parameter trees is an order-preserving bijection",
 "Flattening a parameter tree concatenates its leaves in tree order, each in row-major order, and unflattening a vector of matching length puts every entry back into the same leaf and position, so both round trips are the identity; the column-preserving flattener and the operation that unravels one axis of an array into tree leaves use the same layout on their axis. Wrapping a function (or a factory of functions) with an input and an output transform applies the input transform to exactly the selected positional argument, passes every other positional and keyword argument through unchanged, and applies the output transform to the result; an omitted transform is the identity.",
 ["inputs"], "all trees (any number of leaves, any leaf shapes including scalars and empty leaves), all vectors, all functions, all argument positions",
 "The tests flatten no tree directly; they only reach the flatteners through two or three fixed small networks, where a wrong offset or transposed leaf order cancels between flatten and unflatten.",
 ["laplax/util/flatten.py"],
 [("cumulative leaf offsets", "laplax/util/flatten.py cumsum"), ("flatten / unflatten pair", "laplax/util/flatten.py create_pytree_flattener, create_partial_pytree_flattener"), ("axis unravelling", "laplax/util/flatten.py unravel_array_into_pytree"), ("function wrapping", "laplax/util/flatten.py wrap_function, wrap_factory, flatten_function")])

add("C02", "Dense and diagonal materialisation agree with the linear operator",
 "For a linear operator given only as a matrix-vector product, the dense matrix that the library materialises has entry (i, j) equal to component i of the operator applied to unit vector j, and the materialised diagonal has entry i equal to component i of the operator applied to unit vector i, where for tree-shaped operands components and unit vectors are numbered in flattening order. The result does not depend on the batch size used for the sweep, taking the diagonal of an array operand returns that array's diagonal, and asking for the diagonal or the normalised matrix-vector product of an operator without a layout is rejected with a type error.",
 ["inputs", "configurations"], "all linear operators (symmetric or not), all dimensions, flat and tree-shaped layouts, all batch sizes",
 "The tests use symmetric or diagonal operators at a few sizes, which cannot see a transposition, an off-by-one unit vector at a leaf boundary, or a size-dependent slip.",
 ["laplax/util/mv.py", "laplax/util/tree.py", "laplax/util/flatten.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/utils.py"],
 [("unit vectors in a tree", "laplax/util/tree.py basis_vector_from_index, eye_like, eye_like_with_basis_vector, tree_vec_get"), ("materialisation", "laplax/util/mv.py to_dense, diagonal"), ("curvature materialisation", "laplax/curv/full.py create_full_curvature; laplax/curv/diagonal.py create_diagonal_curvature"), ("operator normalisation", "laplax/curv/utils.py get_matvec")])

add("C03", "Tree arithmetic acts leafwise like vector arithmetic",
 "Addition, subtraction, negation, scaling, square root, mean, variance, standard deviation, zeros, ones and slicing of trees act on every leaf elementwise (or along the requested axis) and keep the tree structure and leaf shapes, so that they commute with flattening; the tree size is the total number of entries. Multiplying a tree that stores a square block matrix (with n non-empty leaves in the operand, leaf i*n+j of the matrix maps operand leaf i to result leaf j, result axes first) by a tree vector gives the matrix-vector product in flattening order, and multiplying leafwise matrices by one vector gives the per-leaf products.",
 ["inputs"], "all trees of arrays (any number of leaves, any shapes), all scalars and vectors",
 "Only add and subtract are tested, on two-vector trees; every other operation is exercised indirectly at best and the block matrix product is not executed at all.",
 ["laplax/util/tree.py"],
 [("leafwise operations", "laplax/util/tree.py add, sub, mul, neg, sqrt, mean, var, std, cov, zeros_like, ones_like, tree_slice, get_size"), ("block products", "laplax/util/tree.py tree_matvec, tree_partialmatvec")])

add("C04", "Streaming over batches equals evaluating on all the data at once",
 "For any non-empty sequence of batches of any sizes, streaming a function over them with the add, sum, concatenation or online-mean reduction returns respectively the sum of the per-batch results, the sum over all rows, the per-batch results concatenated in loader order, and the mean over all rows weighted by batch size (per-batch scalars count as one row), whatever way the data is cut into batches. Every batch is consumed exactly once, in order, after the given transform, with the given positional and keyword arguments; an empty loader raises a value error.",
 ["inputs", "histories"], "all sequences of batches of any length and any, possibly unequal, batch sizes; all functions and transforms; all trees of results",
 "The tests stream one fixed array in equal-sized batches; unequal last batches, one-batch loaders and long sequences, where a mis-carried state shows, are not reached.",
 ["laplax/util/loader.py"],
 [("reductions", "laplax/util/loader.py reduce_sum, reduce_add, reduce_concat, reduce_online_mean"), ("the batch loop", "laplax/util/loader.py process_batches, execute_with_data_loader, wrap_function_with_data_loader")],
 [("carried reduction state", "sum, count or prefix over the batches seen so far", "laplax/util/loader.py process_batches")])

add("C05", "A loader-backed curvature operator behaves like the full-data operator",
 "Applying a loader-backed matrix-vector product reduces, over all batches of the loader, the per-batch product evaluated at the given vector; densifying it or taking its diagonal gives the dense matrix or diagonal of that same reduced operator when the reduction adds up the batches. Wrapping it with (linear) input and output transforms yields a new operator that applies the transforms around the original one, composes under repeated wrapping and with densifying, keeps loader, transform and reduction, and leaves the original operator unchanged.",
 ["inputs", "histories"], "all per-batch linear operators, loaders, reductions, layouts, and sequences of wrappings",
 "The tests densify one operator over one loader with equal batches and never wrap twice, never look at the original after wrapping and never combine wrapping with densifying.",
 ["laplax/util/loader.py", "laplax/util/flatten.py", "laplax/util/mv.py"],
 [("operator object", "laplax/util/loader.py DataLoaderMV"), ("dispatch on the operator type", "laplax/util/loader.py registrations for to_dense, diagonal, wrap_function")])

add("C06", "Loss Hessian products equal the second derivative of the loss",
 "For every prediction, target and vector, the loss-Hessian product selected by name equals the second derivative of that loss with respect to the prediction applied to the vector: twice the vector for the summed squared error, the softmax covariance for cross entropy, the elementwise sigmoid variance for binary cross entropy, and the vector itself for no loss. A callable loss is differentiated twice at the prediction with the target held fixed, and a missing or unknown loss is rejected with a value error.",
 ["inputs"], "all predictions, targets, vectors, output dimensions and smooth callable losses",
 "The tests compare at a handful of small fixed prediction vectors; the identity must hold at every logit vector and for every direction.",
 ["laplax/curv/ggn.py", "laplax/curv/hessian.py"],
 [("closed-form products", "laplax/curv/ggn.py _cross_entropy_hessian_mv, _binary_cross_entropy_hessian_mv, _mse_hessian_mv, create_loss_hessian_mv"), ("generic product", "laplax/curv/hessian.py hvp")])

add("C07", "The GGN product is the scaled sum of J^T H J over the data",
 "For any smooth model, parameters, data and loss, the generalized Gauss-Newton product applied to a parameter-shaped vector equals the scaling factor times the sum over data points of the transposed model Jacobian times the loss Hessian at that point's prediction and target times the Jacobian times the vector (one unbatched evaluation when batching over data is off). The factor is the number of total samples divided by the number of curvature samples, the curvature count defaulting to the number of data points and the total to the curvature count, so the default factor is one; giving both or neither of loss and explicit loss Hessian is rejected with a value error.",
 ["inputs", "configurations"], "all smooth models, parameter trees, data sets, losses, vectors and sample counts",
 "The tests check linear models and two-dimensional test functions at fixed points with one scaling configuration; most defaults and the unbatched mode are not compared against any oracle.",
 ["laplax/curv/ggn.py"],
 [("linearise, multiply, transpose", "laplax/curv/ggn.py create_ggn_mv_without_data"), ("scaling defaults and argument validation", "laplax/curv/ggn.py create_ggn_mv")])

add("C08", "The Hessian product is the scaled second derivative of the summed loss",
 "For any smooth model, parameters, data and loss (summed squared error or a callable scalar loss), the Hessian product applied to a parameter-shaped vector equals the scaling factor times the second derivative, at the given parameters, of the loss of the model predictions on the data, applied to the vector. The factor is the number of total samples divided by the number of curvature samples with the same defaults as for the Gauss-Newton product, and the model is mapped over the data exactly when batching over data is requested.",
 ["inputs", "configurations"], "all smooth models, parameter trees, data, vectors and sample counts",
 "The tests use a linear regression and the Rosenbrock function at four points, where several wrong formulas (for example Gauss-Newton instead of Hessian) agree.",
 ["laplax/curv/hessian.py", "laplax/curv/utils.py"],
 [("Hessian-vector product", "laplax/curv/hessian.py hvp, create_hessian_mv_without_data, create_hessian_mv"), ("loss composition", "laplax/curv/utils.py concatenate_model_and_loss_fn")])

add("C09", "Every curvature structure yields the same posterior precision formula",
 "For each built-in curvature structure (full, diagonal, and both low-rank kinds), the posterior precision represents the matrix (sigma squared times curvature plus prior precision times identity) divided by the loss scaling factor, where sigma squared defaults to one and a low-rank estimate stands for U diag(S) U^T. The curvature estimate passed in is not modified and the represented matrix has the same size as the curvature.",
 ["inputs", "configurations"], "all curvature values and sizes, prior precisions, noise variances and loss scaling factors",
 "Tests always use unit scaling factors and unit noise, where misplaced or missing factors are invisible.",
 ["laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
 [("precision per structure", "laplax/curv/full.py full_curvature_to_precision; laplax/curv/diagonal.py diagonal_curvature_to_precision; laplax/curv/low_rank.py low_rank_curvature_to_precision"), ("dispatch table", "laplax/curv/cov.py CURVATURE_PRECISION_METHODS")])

add("C10", "Posterior scale times its transpose is the inverse of the precision",
 "For every positive-definite posterior precision, full, diagonal or low-rank with orthonormal factors, the matrix of the posterior covariance product is the inverse of the precision, and the matrix S of the posterior scale product satisfies S S^T = covariance. Both products are linear in the vector and derived from the same posterior state.",
 ["inputs"], "all positive-definite precisions of every structure and size, all vectors",
 "Tests compare a few random 2 to 10 dimensional matrices; the factorisation identities must hold for every precision, including rank-deficient and full-rank low-rank terms.",
 ["laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py"],
 [("full: flipped Cholesky and triangular solve", "laplax/curv/full.py full_prec_to_scale"), ("low rank: inverse square root on the spectrum", "laplax/curv/low_rank.py low_rank_prec_to_posterior_state, low_rank_square, create_low_rank_mv"), ("diagonal", "laplax/curv/diagonal.py diagonal_prec_to_posterior_state")])

add("C11", "Posterior construction ties curvature, precision, state and layout together",
 "The posterior obtained for a curvature type from an operator or an existing estimate uses that type's own estimate, precision, state, scale and covariance functions in sequence, with the given prior arguments and loss scaling; a full estimate is the dense matrix of the operator, a diagonal estimate its diagonal, and each low-rank type its own low-rank routine with all options forwarded (the LOBPCG routine hands the flattened operator, column by column, and a random start block of the requested rank to the eigensolver, with a smaller rank only where the solver's limit of less than a fifth of the dimension demands it). With a tree layout the covariance and scale products map trees to trees of the same structure and equal the flat products under flattening; with an integer or no layout they act on flat vectors.",
 ["inputs", "configurations"], "all curvature types including registered ones, operators, layouts, prior arguments, scaling factors and vectors",
 "Tests run one small network per type and compare shapes or single values; swapped table entries for types that coincide on that network are not visible.",
 ["laplax/curv/cov.py", "laplax/curv/full.py", "laplax/curv/diagonal.py", "laplax/curv/low_rank.py", "laplax/curv/lobpcg.py"],
 [("dispatch tables", "laplax/curv/cov.py CURVATURE_METHODS and companions"), ("LOBPCG routine", "laplax/curv/lobpcg.py lobpcg_lowrank"), ("posterior assembly", "laplax/curv/cov.py estimate_curvature, set_posterior_fn, create_posterior_fn")])

add("C12", "Lanczos builds an orthonormal basis and compresses the operator onto it",
 "In exact arithmetic, for every symmetric operator and non-zero start vector, the Lanczos iteration with re-orthogonalisation produces vectors that are orthonormal as long as no breakdown occurs, coefficients satisfying the three-term recurrence, and after a breakdown only zero vectors and coefficients. The resulting low-rank terms represent exactly the operator compressed onto the span of the generated vectors, so that when the iteration exhausts the Krylov space they reproduce the operator on it.",
 ["inputs", "histories"], "all symmetric operators, start vectors, numbers of iterations, including more iterations than the Krylov dimension",
 "Tests run well-conditioned random matrices at full rank; early breakdown (rank above the Krylov dimension) and the per-step invariants are never checked.",
 ["laplax/curv/lanczos.py"],
 [("iteration step and re-orthogonalisation", "laplax/curv/lanczos.py lanczos_iterations"), ("tridiagonal matrix and Ritz vectors", "laplax/curv/lanczos.py construct_tridiagonal, compute_eigendecomposition, lanczos_lowrank")],
 [("V, alpha, beta", "basis vectors and recurrence coefficients so far", "laplax/curv/lanczos.py lanczos_iterations")])

add("C13", "Low-rank routines leave the global precision setting as they found it",
 "Whatever the calculation, operator and return precisions requested, and whether the low-rank curvature routine returns or raises at any point (including an exception from the user's operator or an invalid argument), the global double-precision switch afterwards has the value it had before the call. On return the low-rank terms have the requested return precision, or the precision matching the original setting if none was requested.",
 ["inputs", "fault_sequences", "configurations"], "all initial settings, requested precisions, and points at which the operator or a library call raises",
 "No test makes an operator fail or inspects the global setting after a call.",
 ["laplax/curv/lanczos.py", "laplax/curv/lobpcg.py"],
 [("save and restore of the switch", "laplax/curv/lanczos.py lanczos_lowrank; laplax/curv/lobpcg.py lobpcg_lowrank")],
 [("jax_enable_x64", "process-wide precision switch", "jax.config")])

add("C14", "Marginal log-likelihood equals the Laplace evidence for every structure",
 "The joint log-likelihood is the scaled negative loss of the model on the data plus the Gaussian log-prior of all parameters, and the marginal log-likelihood is that value plus half the number of parameters times log(2 pi) minus half the log-determinant of the posterior precision matrix. The log-determinant is that of the matrix the precision represents for full, diagonal and (with orthonormal factors) low-rank structures, so equal precisions in different structures give equal evidence.",
 ["inputs", "configurations"], "all precisions, prior precisions, parameter trees, models, losses and data",
 "No test evaluates the marginal likelihood against an independent determinant.",
 ["laplax/eval/likelihood.py"],
 [("joint log-likelihood", "laplax/eval/likelihood.py joint_log_likelihood"), ("log-determinants", "laplax/eval/likelihood.py full_, diagonal_, low_rank_marginal_log_likelihood"), ("dispatch", "laplax/eval/likelihood.py marginal_log_likelihood")])

add("C15", "Grid search returns a minimiser over the grid prefix it evaluates",
 "Grid search evaluates the objective once per grid value in grid order and returns a value whose result is the smallest among all values evaluated (the first such value), treating not-a-number results and value errors from the objective as infinitely bad. It stops early only after the requested number of consecutive increases or after the requested maximum number of evaluations, and otherwise evaluates the entire grid; the prior-precision optimiser searches the logarithmic grid with the requested bounds and size.",
 ["inputs", "histories"], "all grids, objective result sequences (including nan, infinity and errors), patience and iteration limits",
 "The single test runs one convex objective on one grid without limits.",
 ["laplax/eval/calibrate.py"],
 [("search loop", "laplax/eval/calibrate.py grid_search"), ("grid construction", "laplax/eval/calibrate.py optimize_prior_prec")],
 [("results, increasing count, previous result", "results so far and number of consecutive increases", "laplax/eval/calibrate.py grid_search")])

add("C16", "Weight samples are mean plus scale times independent standard normals",
 "Sample i of the weights is the mean parameters plus the posterior scale product applied to a standard normal draw with one independent random key per sample and per leaf, with the structure and shapes of the mean. The samples depend only on the key and index, are the same whether precomputed or generated on demand and for any batch size, and for linearised predictions are centred at zero instead of the mean.",
 ["inputs", "configurations"], "all keys, mean trees, scale operators, sample counts, indices, precompute settings",
 "Tests compare sample statistics loosely at fixed seeds; key reuse across leaves or samples and index slips keep the marginal statistics intact.",
 ["laplax/eval/pushforward.py", "laplax/util/tree.py", "laplax/util/ops.py"],
 [("normal draws in a tree", "laplax/util/tree.py randn_like, normal_like"), ("sample table", "laplax/eval/pushforward.py set_get_weight_sample, get_dist_state; laplax/util/ops.py precompute_list")])

add("C17", "Nonlinear predictive statistics are the ensemble's sample statistics",
 "The nonlinear pushforward evaluates the model once per weight sample at the given input and reports the ensemble mean, the unbiased ensemble covariance of the flattened outputs, the ensemble variance (the diagonal of the covariance when that was reported before it, otherwise the population variance) in output shape, the standard deviation as the square root of that variance, and the first requested samples. Statistics are consistent with each other, and the Monte-Carlo class probabilities are the mean over samples of the softmax of each sample.",
 ["inputs", "configurations"], "all models, inputs, sample counts, weight samples, output shapes and statistic orders",
 "Tests check shapes and approximate values for one-dimensional regression outputs, where axis confusions between samples and outputs are invisible.",
 ["laplax/eval/pushforward.py"],
 [("ensemble", "laplax/eval/pushforward.py nonlin_setup"), ("statistics", "laplax/eval/pushforward.py nonlin_pred_mean, nonlin_pred_cov, nonlin_pred_var, nonlin_pred_std, nonlin_samples, nonlin_mc_pred_act")])

add("C18", "Linearised predictive covariance is J Sigma J^T, with consistent marginals",
 "For any smooth model and posterior, the linearised pushforward reports the model output at the mean parameters as mean, the model Jacobian at the mean parameters times the posterior covariance times the transposed Jacobian as output covariance, its diagonal in output shape as variance whether or not the covariance was computed first, and the square root of the variance as standard deviation. Each sample is the mean prediction plus the Jacobian applied to a zero-mean weight sample, and the posterior kernel between two inputs is the first input's Jacobian times the covariance times the second input's transposed Jacobian.",
 ["inputs", "configurations"], "all smooth models, posteriors, inputs, output dimensions and orders in which statistics are requested",
 "Tests use a scalar-output network and compare variance only; cross-covariances, kernels between different inputs and orderings are not tested.",
 ["laplax/eval/pushforward.py"],
 [("Jacobian products", "laplax/eval/pushforward.py get_dist_state, set_output_mv, lin_setup"), ("statistics", "laplax/eval/pushforward.py lin_pred_mean, lin_pred_cov, lin_pred_var, lin_pred_std, lin_samples"), ("kernel", "laplax/eval/pushforward.py set_posterior_gp_kernel")])

add("C19", "Analytic classification predictives follow their formulas",
 "For every logit mean and variance (or covariance), the mean-field-0 predictive is the softmax of the mean divided by sqrt(1 + pi/8 variance); mean-field-1 and mean-field-2 have class k equal to one over the sum over classes j of exp((mean_j - mean_k) / sqrt(1 + pi/8 s_jk)) with s_jk the sum of the two variances, respectively the variance of the logit difference including covariance; and the Laplace bridge is the normalised Dirichlet with parameters (1 - 2/C + exp(mean) sum exp(-mean) / C^2) / variance, after the optional variance correction. All reduce to the softmax of the mean at zero variance for the mean-field family, and the requested predictive is computed from the pushforward's own mean and variance or covariance.",
 ["inputs", "configurations"], "all class counts, means, variances, covariances and correction settings",
 "The predictives have no direct tests; pipelines use scalar regression outputs.",
 ["laplax/eval/predictives.py", "laplax/eval/pushforward.py"],
 [("predictives", "laplax/eval/predictives.py laplace_bridge, mean_field_0_predictive, mean_field_1_predictive, mean_field_2_predictive"), ("selection", "laplax/eval/pushforward.py special_pred_act, lin_special_pred_act, lin_mc_pred_act")])

add("C20", "Evaluation pipelines compute every metric on every point and touch nothing else",
 "Evaluating predictions or metrics on a data set gives, at position n, the prediction function or metric functions applied to the n-th input together with its target, independent of batch size; on a generator it gives the same per batch, in order, with each metric's per-batch results handed to the reduction. Pipeline steps run in the given order on the shared results and auxiliary entries, each metric receives exactly the mapped entries (results before auxiliary), entry transfer copies the named entries, missing names and mismatched counts are rejected with a value error, and neither the caller's metric list nor its dictionaries of metrics nor the library's default metrics change.",
 ["inputs", "histories", "configurations"], "all prediction functions, metrics, mappings, data sets, generators, and sequences of evaluation calls",
 "Tests call each evaluation once; repeated calls with a shared metric list, name clashes between results and auxiliary entries and empty inputs are not reached.",
 ["laplax/eval/utils.py"],
 [("dataset and generator evaluation", "laplax/eval/utils.py evaluate_on_dataset, evaluate_metrics_on_dataset, evaluate_metrics_on_generator"), ("pipeline steps", "laplax/eval/utils.py finalize_fns, apply_fns, transfer_entry")],
 [("metric list", "the caller's (or the library default) list of metrics", "laplax/eval/utils.py, laplax/eval/metrics.py")])

add("C21", "Regression metrics equal their closed-form definitions",
 "For all predictions, standard deviations and targets of equal shape, root mean squared error, chi-squared (averaged or summed, and its distance from one), Gaussian negative log-likelihood and Gaussian continuous ranked probability score (summed, or averaged over all entries when scaled) equal their textbook formulas for a normal prediction. The likelihood and ranked-probability scores reject differing shapes with a value error.",
 ["inputs", "configurations"], "all arrays of any size, all positive standard deviations, scaled and unscaled",
 "The metric formulas have no direct tests; pipelines only check that keys exist.",
 ["laplax/eval/metrics.py"],
 [("metrics", "laplax/eval/metrics.py estimate_rmse, chi_squared, chi_squared_zero, nll_gaussian, crps_gaussian")])

add("C22", "Classification metrics and calibration errors equal their definitions",
 "Correctness and top-k accuracy count arg-max (top-k) matches with index or one-hot targets, in percent of the batch for accuracy; cross entropy is minus the sum of p log q with 0 log 0 = 0. Binning assigns each confidence to its one equal-width bin (the last one including 1), bin proportions, mean confidences and mean correctness are those of the points in each bin and zero for empty bins, and the expected and maximum calibration errors are the proportion-weighted sum and the maximum over bins of the absolute difference between mean correctness and mean confidence.",
 ["inputs", "configurations"], "all predictions, targets, confidences in [0, 1], class counts, k and bin counts",
 "There are no direct tests for classification metrics; bin edges and empty bins are never exercised.",
 ["laplax/eval/metrics.py"],
 [("metrics", "laplax/eval/metrics.py correctness, accuracy, cross_entropy"), ("binning and calibration errors", "laplax/eval/metrics.py calculate_bin_metrics, calibration_error, expected_calibration_error, maximum_calibration_error")])

add("C23", "Registering a curvature method adds exactly one complete entry per table",
 "After registering a curvature name, each of the six method tables maps that name to the given function, or to the default's function where none was given, and every other entry of every table is unchanged, for any sequence of registrations including re-registration and defaults that were registered earlier. A registration that lacks functions without a default, or names an unknown default for a needed function, raises and leaves all tables exactly as they were; registering a calibration method likewise adds exactly that one entry.",
 ["inputs", "histories"], "all names, subsets of given functions, defaults, prior table contents and registration sequences",
 "Tests register three names once; failing registrations are only checked for the exception, not for what they leave behind.",
 ["laplax/register.py", "laplax/curv/cov.py", "laplax/eval/likelihood.py"],
 [("registration", "laplax/register.py register_curvature_method, register_calibration_method")],
 [("method tables", "the six curvature tables and the calibration table", "laplax/curv/cov.py, laplax/eval/likelihood.py, laplax/api.py")])

add("C24", "The high-level API gives the same answer for batch, mapping and loader data",
 "The high-level curvature operator on a tuple batch, a mapping batch or a loader of such batches applies the given factor to the Gauss-Newton product and, for a loader, sums it over every batch exactly once; malformed batches are rejected with a value error. Laplace fitting returns the posterior function and curvature estimate of that operator for the requested curvature type with the sample-count scaling total over curvature samples, calibration hands the selected objective, grid and method on unchanged and returns its result, evaluation returns the selected metrics on every batch of the data for the selected pushforward, and enumerated options are accepted as members or case-insensitive names and otherwise rejected with a value error.",
 ["inputs", "configurations", "histories"], "all data forms, sequences of batches, curvature types, objectives, methods, metrics and option spellings",
 "The high-level module is not imported by any test.",
 ["laplax/api.py", "laplax/eval/utils.py"],
 [("operator construction", "laplax/api.py GGN, _maybe_wrap_loader_or_batch, _validate_and_get_transform"), ("orchestration", "laplax/api.py laplace, calibration, evaluation, _setup_pushforward, _build_calibration_objective, _resolve_metrics, _convert_to_enum")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
