#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
B = "src/mud/base.py"; F = "src/mud/funs.py"; U = "src/mud/util.py"; N = "src/mud/norm.py"
PL = "src/mud/plot.py"; PP = "src/mud/preprocessing.py"; EX = "src/mud/examples/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=observe, hook_needed=None)))

p("P01", "Updated density, MUD point and E(r) follow the data-consistent formula",
  "For every set of parameter samples, predicted data, sample weights and initial, predicted and observed distributions (given or default), the updated density of each sample is its initial density times its weight times the ratio of its observed to its predicted density, the MUD point is a sample that maximises it, and the expected ratio is the weighted average of that ratio. By default the initial is uniform over the domain (the domain fitted to the samples when none is given), the observed is standard normal in every output, and the predicted is a Gaussian kernel density estimate of the weighted predicted data at the requested bandwidth. Densities of several parameters or outputs are products of the per-coordinate densities.",
  ["inputs"], "All numbers of samples (1-D or 2-D arrays, lists), parameters, outputs, weights, domains, distributions (frozen, unfrozen with arguments, joint) and bandwidths.",
  "The tests look at the rounded MUD point of one identity problem in one dimension; they reach neither several outputs and parameters, nor non-uniform weights, nor the values of the density itself.",
  [B], [("DensityProblem.fit", B+":fit"), ("set_initial/set_predicted/set_observed", B), ("mud_point, expected_ratio", B)],
  ["mud_point()", "estimate()", "expected_ratio()", "updated density and ratio per sample"])
p("P02", "Density and Bayesian estimates are never stale",
  "After any sequence of setting weights, initial/prior, predicted, observed or likelihood distributions, fitting, estimating, querying and plotting, the estimate, expected ratio and plotted updated or posterior curves are those of a freshly built problem given only the settings in force at that moment. Setting the weights or the initial distribution discards the predicted distribution in force, so that it is estimated again; asking for a result, or a setting that is refused, never changes the settings in force.",
  ["histories"], "All operation sequences on one density or Bayesian problem, including repeated and interleaved changes after a result was already computed.",
  "Every test sets each distribution once and reads the result once; a stale cache needs a change after a result.",
  [B], [("cache reset in set_*", B), ("lazy fit in mud_point, expected_ratio, plots", B), ("BayesProblem.set_prior/set_likelihood/fit", B)],
  ["estimate(), expected_ratio(), map_point() after every step", "plotted curves"])
p("P03", "Sample weights act as repeated, removed and combined samples",
  "Stacked weight vectors act as their element-wise product, equal or absent weights change nothing, and scaling all weights by a positive constant (including the normalising option, which divides by the Euclidean norm) changes neither the estimate, the expected ratio nor the predicted density. Giving a sample weight zero is the same as removing it, for a given predicted distribution an integer weight gives the same expected ratio as listing the sample that often, and permuting the samples with their weights permutes the results. A weight vector whose length is not the number of samples is rejected, also when passed while setting the predicted distribution.",
  ["inputs"], "All weight vectors and stacks of weights (constructor, setter, or along with the predicted distribution) over all sample sets.",
  "The tests use all-equal weights and one biased vector in one dimension, and compare a single rounded point.",
  [B], [("set_weights", B), ("weighted kernel density estimate", B+":set_predicted"), ("weights in fit and expected_ratio", B)],
  ["estimate()", "expected_ratio()", "updated density"])
p("P04", "Bayesian posterior and MAP point",
  "For every sample set, data and likelihood, the posterior at each sample is proportional to its prior density times the product over all data of its likelihood, and the MAP point is a sample that maximises it; the prior defaults to uniform over the domain. Working with log-likelihoods gives the same MAP point and the same posterior, also where the plain product would underflow, and where it underflows everywhere the plain form refuses with an error instead of returning a point, as both forms do when no sample is admissible.",
  ["inputs"], "All sample sets, priors, data vectors of any length, likelihood scales, log or plain.",
  "The tests check one rounded MAP value in one dimension with a fixed prior.",
  [B, F], [("BayesProblem.set_likelihood/set_prior/fit/map_point", B)],
  ["map_point()", "estimate()"])
p("P05", "Linear MUD point is data-consistent and closest to the initial mean",
  "For every affine map of full row rank, observed value, initial mean and positive definite initial covariance, the MUD point maps exactly to the observed value and, among all points that do, is the closest to the initial mean in the norm of the inverse initial covariance; for a map of any rank it equals the pseudo-inverse form of the update. For maps of full row rank every route to it (solving for it alone, along with all other solutions, from the updated covariance, or through the functional entry points) returns the same point; it does not depend on the data covariance or on the scale of the initial covariance, and restricting the number of outputs is solving the problem of the first rows.",
  ["inputs"], "All dimensions (tall, square, wide), offsets, observed values, means, covariances, regularisation weights, output subsets and array layouts.",
  "Tests cover a few fixed 2-to-1 problems and seeded random maps compared between two of the routes only.",
  [B, F], [("LinearGaussianProblem.solve", B), ("mud_sol, mud_sol_with_cov", F)],
  ["solve(method=mud|mud_alt|all)", "mud_sol", "mud_sol_with_cov"])
p("P06", "Linear MAP and least-squares points are optimal, with the right covariance",
  "For every linear Gaussian problem the MAP point minimises data misfit plus regularisation (the initial covariance scaled by the regularisation weight), the posterior covariance is the inverse of the sum of the precision of the data pulled back through the map and the initial precision, and the least-squares point is the least-norm minimiser of the data misfit. All routes to them (alone, all at once, or the functional entry points, with or without covariance) agree.",
  ["inputs"], "All dimensions, offsets, observed values, means, covariances, regularisation weights, output subsets.",
  "Tests compare MAP with MUD on a few fixed problems; no test checks optimality, offsets or correlated covariances.",
  [B, F], [("LinearGaussianProblem.solve", B), ("map_sol, map_sol_with_cov", F)],
  ["solve(method=map|ls|all)", "map_sol", "map_sol_with_cov"])
p("P07", "Updated covariance pushes forward to the observed covariance",
  "For every map of full row rank, initial covariance and data covariance, the updated covariance is symmetric positive semi-definite, its push-forward through the map is the data covariance, and it leaves the initial covariance unchanged in the directions the data do not inform. It equals the inverse of the sum of the initial precision and the pulled-back difference of data and predicted precision, both implementations agree for maps of any rank, and missing covariances count as identities.",
  ["inputs"], "All dimensions and ranks, initial and data covariances (given, or defaulted).",
  "Tests evaluate identity-like maps only.",
  [B, F], [("updated_cov", F), ("LinearGaussianProblem.updated_cov", B)],
  ["updated_cov", "LinearGaussianProblem.updated_cov", "up_cov, mud_sol_with_cov"])
p("P08", "Functionals equal their definitions and are minimised by the solutions",
  "Each term that can be evaluated at a set of points (data mismatch, regularisation, data-consistent term, modified regularisation, Bayesian and data-consistent functional, all together) equals its definition as a squared inverse-covariance norm, one value per point, for any number of outputs, offset, observed value and regularisation weight. The MAP point minimises the Bayesian functional and the MUD point minimises the data-consistent one. The stand-alone norm functions agree with the same definitions, with scalar covariances meaning multiples of the identity.",
  ["inputs"], "All problems, evaluation points and terms.",
  "Tests call the norm functions on one identity-like setting and never evaluate the problem's functionals.",
  [B, N], [("compute_functionals", B), ("inner_product, norm_input, norm_data, norm_predicted, full_functional", N)],
  ["compute_functionals(X, terms)", "norm module functions"])
p("P09", "The weighted mean error map is the same in every form",
  "For all predictions, data and noise levels, the weighted mean error of a sample is the sum of its residuals, each divided by its noise level, over the square root of the number of data, with the data's own standard deviation used when none is given and a length mismatch rejected. The linear and multi-output forms return a map and offset that evaluate to exactly that value at every parameter, whether the rows are listed or one row stands for repeated measurements, for scalar or per-measurement noise, and the linear problem built from them has exactly these rows. The linear forms reject zero noise, per-measurement noise for repeated rows, mismatching sizes, and lists for different numbers of outputs.",
  ["inputs"], "All operators, data containers (lists, rows, columns), noise levels (scalar, list, array), numbers of measurements and outputs.",
  "Tests use constant noise-free data where residuals vanish, which no scaling or sign error changes.",
  [F, U, B], [("wme", F), ("transform_linear_map, transform_linear_setup", U), ("LinearWMEProblem", B)],
  ["wme", "transform_linear_map", "transform_linear_setup", "LinearWMEProblem.A/b/solve"])
p("P10", "Iterating over rows is successive projection, with a faithful history",
  "For every linear problem, row order (subsets and repetitions included) and number of epochs, each step of the iterative solver solves the problem of that single row starting from the point of the step before with the fixed initial covariance, so that right after a step its row's data are matched exactly and the distance to any exact solution (in the norm of the inverse initial covariance) never grows. The recorded chains link up without a gap across epochs and repeated calls, the result is the last point, solving twice is the same as solving once with the summed epochs, and the errors reported are the distances of the recorded points to the reference passed in that call. The functional forms produce the same points.",
  ["inputs", "histories"], "All maps, offsets, data, covariances, row orders, numbers of epochs and sequences of solve and error calls.",
  "Tests run one seeded rotation-map sequence and look at the shape of the result.",
  [B, F], [("IterativeLinearProblem.solve/get_errors", B), ("performEpoch, iterate, iter_lin_solve", F)],
  ["solution_chains", "get_errors", "iter_lin_solve", "performEpoch", "iterate"])
p("P11", "Spatio-temporal containers load faithfully and reject inconsistent data",
  "Whatever fields are loaded (from a dictionary or a pickled file, under their own or mapped names, or given as values), every field reads back what was supplied, flattened as one row per sample over (sensor, time) with missing sensors, times or domain inferred; fields that are absent stay unset. Data of another size than sensors by times, domains assigned to a container that do not match or contain its parameters, parameters of another dimension than the domain, reference parameters of another dimension or outside it, measurements or reference values of another size and unknown distributions are rejected with an error that leaves the container as it was, and validation fails exactly when a required field is missing.",
  ["inputs", "histories"], "All field subsets, name mappings, data shapes (1-, 2-, 3-D), set orders, and invalid values at any point of a sequence.",
  "Two shipped data sets are loaded by the tests, both consistent and with default names.",
  [B], [("SpatioTemporalProblem.load/validate", B), ("property setters", B)],
  ["attributes after load/assignment", "ValueError/AttributeError"])
p("P12", "Sub-sampling keeps samples, sensors, times and measurements aligned",
  "For every selection of samples, sensors and times (boolean masks, index lists in any order, negative indices, a single number, slices, none), the returned parameters, coordinates, times, data and measurements are exactly the selected ones: each data column and each measurement belongs to the selected sensor and time, sensor-major, and each row to the selected parameter sample. The original problem is left unchanged.",
  ["inputs"], "All numbers of samples, sensors (plain labels or one to three coordinates), times and selections of each.",
  "The examples select either times or sensors, never both, and only look at a final figure or rounded point.",
  [B], [("SpatioTemporalProblem.sample_data", B)],
  ["sample_data", "mud_problem with masks", "get_closest_to_measurements"])
p("P13", "Data-constructed QoI maps are the stated functions of weighted residuals",
  "The density problem built from a spatio-temporal problem has the selected parameters, domain and sample weights, and its outputs are functions of the residuals (measurement minus simulation over the noise level) scaled column-wise by the data weights (one per selected datum, brought to unit norm): for the weighted mean error their sum over the square root of the number of data, and for principal components and singular vectors their projection onto that many leading orthonormal directions of the standardised residuals, in order of decreasing variance, which are also stored for inspection. An unknown method or a weight vector of the wrong length is rejected.",
  ["inputs"], "All problems, methods, component counts, data weights, sample weights and selections.",
  "Tests pin one rounded result on two data sets with the principal-component method only.",
  [B, PP], [("SpatioTemporalProblem.mud_problem", B), ("pca, svd", PP)],
  ["DensityProblem X, y, domain, estimate", "pca / svd attributes"])
p("P14", "Synthetic measurements and closest-sample queries",
  "Adding noise to a signal of any shape adds independent zero-mean normal noise of the requested standard deviation in that shape, reproducibly for a given seed and not touching the signal; synthetic measurements are the reference values plus exactly that noise, in the layout of the data, using the noise level passed or already set and refusing when either is missing. The sample closest to the measurements (on any selection) or to the reference values is one whose Euclidean distance is minimal.",
  ["inputs", "histories"], "All signal shapes, noise levels, seeds, problems, selections and orders of calls.",
  "Tests check one mean of one vector.",
  [U, B], [("add_noise", U), ("measurements_from_reference, get_closest_to_*", B)],
  ["add_noise", "measurements", "get_closest_to_measurements", "get_closest_to_true_vals"])
p("P15", "PCA and SVD preprocessing standardise and decompose exactly",
  "For every two-dimensional data set, the preprocessing standardises each column and then returns an exact decomposition: orthonormal directions with variances in decreasing order that match the eigenvalues of the correlation matrix, scores that are the standardised data projected on them, and singular factors that multiply back to the standardised data. Shifting or positively scaling columns changes nothing, constant columns are harmless, extra options are passed on, the input is not modified and data that are not two-dimensional are rejected.",
  ["inputs"], "All data sets, component counts, column shifts and scales; beyond 500 rows or columns, where scikit-learn itself switches to an approximate solver, with the full solver passed as option.",
  "Doctests decompose the 2-by-2 identity.",
  [PP], [("pca", PP), ("svd", PP)], ["pca", "svd"])
p("P16", "Null spaces and rank decompositions are exact",
  "For every matrix, the null space returned is an orthonormal basis of exactly the directions the matrix maps to (numerically) zero relative to the given tolerance, with dimension the number of columns minus the numerical rank. The rank decomposition lists, for k from 1 to the smaller dimension, the best rank-k approximation, the last being the matrix itself.",
  ["inputs"], "All shapes, ranks, scales, spectra and tolerances.",
  "Tests and doctests use two tiny matrices.",
  [U], [("null_space", U), ("rank_decomposition", U)], ["null_space", "rank_decomposition"])
p("P17", "Domains, meshes and equipment tolerances",
  "A fitted domain contains every sample and exceeds the range of the samples (or the bounds passed in, which stay untouched) on each side by exactly the padding ratio times its length; meshes enumerate every grid point once, from the lower bound with equal spacing, with coordinates, flattened points and per-axis arrays in matching order. The standard deviation derived from an equipment tolerance is the one for which a normal error stays within the tolerance with the stated probability.",
  ["inputs"], "All sample arrays, bounds, padding ratios, mesh sizes, dimensions and windows, tolerances and probabilities.",
  "Doctests use one or two tiny examples each.",
  [U, PL], [("fit_domain, make_2d_unit_mesh, std_from_equipment, set_shape", U), ("build_nd_mesh_grid, make_2d_normal_mesh, make_2d_unit_mesh", PL)],
  ["return values"])
p("P18", "Plotted density curves are the normalised marginals they claim to be",
  "Every curve drawn for a parameter or an output is, on an equally spaced grid over the requested range, the marginal density of that very coordinate of the initial, weighted initial, updated, prior, posterior, observed, predicted, likelihood or pushed-forward distribution, scaled to unit area on the grid where it is documented as a density; curves not asked for are not drawn. Vertical markers stand at the estimate and at the true value of the coordinate shown, and labels name that coordinate.",
  ["inputs"], "All problems with one to three parameters or outputs, coordinates, ranges, resolutions and option combinations.",
  "Tests only look at one-dimensional problems, where no coordinate can be confused with another.",
  [PL, B], [("plot_dist, plot_vert_line", PL), ("DensityProblem/BayesProblem.plot_param_space, plot_obs_space", B)],
  ["line data on the axes"])
p("P19", "Solving, querying and plotting leave the caller's objects unchanged",
  "No constructor, solver, evaluation, sub-sampling, loading, preprocessing or plotting call modifies an array, list, dictionary of options or distribution passed to it, and none of the evaluating calls modifies the problem it is called on beyond caching its result, so that calling it again, in any order with others, gives the same answer. Draws happen on the axes passed in.",
  ["inputs", "histories"], "All public calls with generated arguments, in any order.",
  "Tests pass fresh literals to every call and never look at them afterwards.",
  [B, F, U, N, PL, PP], [("copies on construction", B), ("option dictionaries", B)],
  ["arguments after the call", "second call"])
p("P20", "Functional wrappers equal the problems they wrap",
  "The functional entry points that build a density, Bayesian or data-constructed problem from parameters, outputs and reference data give the same problem as assembling it by hand: noise is added to the first requested number of reference data with the stated standard deviation, weighted mean errors are taken over all data or per given group of indices, sample weights and domain are passed on, and numbers of observations outside one to the number of outputs are rejected. Given the state of the random generator the result is determined.",
  ["inputs"], "All sample sizes, outputs, numbers of observations, splits, noise levels, weights, domains and generator states.",
  "Tests look at rounded estimates of identity problems.",
  [F], [("mud_problem, map_problem, data_prob", F)], ["X, y, estimate of the returned problem"])
p("P21", "Example generators follow the models they document",
  "For all arguments, generated example problems satisfy their stated model: parameters lie in the requested domain, simulated data are the stated polynomial, exponential decay or linear map of them, data sets have the requested sizes and scatter with the requested standard deviation around the model at the true parameter, noise-free data reproduce it exactly, and a seed fixes the result and changes it. The piecewise linear boundary of the Poisson example interpolates its knots, both as drawn and as expression text.",
  ["inputs", "configurations"], "All sizes, domains, powers, noise levels, repetition modes, seeds, knot values.",
  "Tests call generators with default-like arguments and check sizes or rounded estimates.",
  [EX+"simple.py", EX+"exp_decay.py", EX+"linear.py", EX+"fenics.py", EX+"poisson.py"],
  [("polynomial_1D_data, identity_*", EX+"simple.py"), ("exp_decay_1D/2D", EX+"exp_decay.py"), ("random_linear_*, noisy_linear_data, rotation_map", EX+"linear.py"), ("piecewise_eval_from_vector", EX+"fenics.py"), ("spline functions", EX+"poisson.py")],
  ["return values"])
p("P22", "Example runs and CLI are reproducible, honour options and save their figures",
  "Running an example, from Python or from the command line, with a seed twice gives the same results and output; sizes, noise levels, sensor counts, time windows and figure selections passed in are the ones used, and the reported estimates are those of the problem solved by hand on the same data. Exactly the requested figures are written to the requested directory, one file per figure.",
  ["inputs", "configurations"], "All sub-commands and option values in their documented ranges, over generated data sets.",
  "Tests invoke each sub-command once with defaults and compare an exit code or one printed value.",
  [EX+"examples.py", EX+"linear.py", EX+"comparison.py", EX+"poisson.py", EX+"adcirc.py", PL],
  [("click commands", EX+"examples.py"), ("run_* functions", EX), ("save_figure", PL)],
  ["stdout", "exit code", "files written", "returned problems"])
p("P23", "Result tables show exactly the matching rows",
  "The printed result table has one row per result, in order, whose searched column matches the pattern (after the optional transformation), with exactly the requested columns in the requested order and the values of that row.",
  ["inputs"], "All lists of results, field selections, patterns and transformations.",
  "One doctest with two rows.",
  [EX+"examples.py"], [("print_res", EX+"examples.py")], ["returned text"])
p("P24", "Geometric plots draw the points, lines and fields they claim",
  "Contour lines of a two-parameter linear map pass through the reference point (the least-squares solution by default) along directions the row maps to zero, with the requested half-length, subset and labels; solution plots mark the requested solution and join it to the initial mean; functional contours show the requested functional on the mesh. Solution chains, errors, scatter plots of parameters, outputs and sensors and time series draw exactly the selected coordinates, samples and sensors.",
  ["inputs"], "All problems, references, subsets, indices, masks and options.",
  "Tests never look at the geometry drawn.",
  [B, PL], [("plot_sol, plot_contours, plot_fun_contours, plot_chain, plot_chain_error", B), ("plot_params_2d, plot_qoi, sensor_scatter_plot, plot_ts", B), ("plotChain, plot_contours, plot_1D_vecs", PL)],
  ["artists on the axes"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for d in P: fp.write(json.dumps(d) + "\n")
print(len(P))
