#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long strings stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
B, F, U, N, PL, PP = ["src/mud/" + f for f in ("base.py", "funs.py", "util.py", "norm.py", "plot.py", "preprocessing.py")]
EX = "src/mud/examples/"

prop("C01", "Updated density is initial x weight x observed/predicted; MUD is its maximiser",
 "For every set of parameter samples, model outputs (one or several features), initial, observed and predicted densities and sample weights, the updated density at each sample equals the initial density times the sample weight times observed/predicted density (each joint density being the product over parameters or features), and the MUD estimate is a parameter sample at which it is largest. An unset initial is uniform over the domain, an unset observed is standard normal, and an unset predicted is the weighted Gaussian kernel density estimate of the outputs, whose bandwidth rule can be chosen. A sample with zero weight, zero initial density or zero observed density has zero updated density even where the predicted density also vanishes, so it is never the estimate while another sample has positive updated density.",
 ["inputs", "configurations"], "all problems up to the bound: sample counts, 1-3 parameters, 1-3 features, every combination of initial/observed/predicted/weights from the alphabets",
 "The tests only solve the 1-D identity map with equal (or harmless) weights and check the estimate to one decimal; no test looks at several features, per-dimension distributions, a supplied predicted density with several features, or zero densities.",
 [B], [("DensityProblem.fit", B), ("DensityProblem.set_predicted", B), ("DensityProblem.set_initial / set_observed", B), ("DensityProblem.mud_point", B)],
 [("updated density", "value per sample after a fit", B)], ["DensityProblem.mud_point()", "DensityProblem.estimate()", "DensityProblem.expected_ratio()"])

prop("C02", "A density problem never answers from superseded settings",
 "After any sequence of setting weights, initial, observed or predicted density, fitting, asking for the estimate or the expected ratio, and plotting, every answer (estimate, expected ratio, updated density, plotted updated curve) equals that of a new problem built from the same samples and given only the settings now in force. Setting weights or the initial density (explicitly, or by default when first needed) discards a previously set predicted density; asking and plotting change nothing, in particular not the domain.",
 ["histories"], "every operation sequence up to the depth bound over the public operations, with two or three argument values each",
 "Tests run one fixed sequence per problem (configure, estimate, plot once); staleness and drift only show after a particular later reconfiguration.",
 [B, U], [("cache invalidation in the set_ methods", B), ("lazy fit in mud_point / expected_ratio", B), ("plot_param_space / plot_obs_space", B), ("fit_domain", U)],
 [("cached initial/predicted/observed/updated values", "lazily computed densities", B)], ["DensityProblem.estimate()", "DensityProblem.expected_ratio()", "plot_param_space line data"])

prop("C03", "Expected ratio is the weighted mean of observed/predicted",
 "The expected-ratio diagnostic equals the weighted average over the samples of observed density divided by predicted density at the sample's model output, for any weights (including unnormalised, normalised, stacked and zero ones). It does not depend on the scale of the weights or on the initial density, and equals 1 whenever the observed and predicted densities agree at every sample.",
 ["inputs", "configurations"], "all small problems over the alphabets of outputs, observed/predicted pairs and weights",
 "Tests only check that the mean ratio is within 0.2-0.5 of 1 for one map, unweighted.",
 [B], [("DensityProblem.expected_ratio", B), ("DensityProblem.fit", B)], [], ["DensityProblem.expected_ratio()"])

prop("C04", "Sample weights combine, validate and act only through ratios",
 "Stacked weight rows combine to one weight per sample by multiplication, independently of the row order and of whether they are given as lists or arrays; omitted weights are all ones; normalisation divides by the 2-norm; a weight set whose length does not match the sample count is rejected and leaves the problem as it was. Multiplying all weights by a positive constant, or normalising them, changes neither the estimate nor the expected ratio.",
 ["inputs", "configurations"], "all weight vectors over a small value set and all stacks of up to three rows, for each way of supplying weights (constructor, setter, predicted-density call, fit)",
 "Tests use all-ones weights, one biased vector, and check one norm with a one-sided comparison.",
 [B], [("DensityProblem.set_weights", B), ("weights handling in set_predicted", B), ("DensityProblem.__init__", B)], [], ["DensityProblem.estimate()", "DensityProblem.expected_ratio()"])

prop("C05", "Problem inputs are normalised, copied and never modified",
 "Density, Bayesian and linear problems give the same answers whether their arrays are passed as lists, integer or floating arrays, C- or Fortran-ordered, strided or read-only arrays; one-dimensional samples and outputs mean repeated samples of a one-dimensional quantity; a domain whose row count differs from the number of parameters is rejected, and an omitted domain is the bounding box of the samples expanded by the requested padding ratio. No operation of the library modifies an array the caller passed in, and changing such an array afterwards does not change the answers of a density, Bayesian or linear-Gaussian problem.",
 ["inputs", "histories"], "every combination of container, dtype and memory layout for each argument, each with mutation before, between and after calls",
 "Tests always pass freshly made C-contiguous 2-D float arrays and never look at them again.",
 [B, U], [("DensityProblem.__init__", B), ("BayesProblem.__init__", B), ("LinearGaussianProblem.__init__", B), ("set_shape / fit_domain", U)], [], ["estimate()", "solve()", "the caller's arrays"])

prop("C06", "Posterior is prior x likelihood and MAP is its maximiser, in either scale",
 "For every set of samples, outputs, prior and likelihood, the posterior at each sample is proportional to the prior density times the product of the likelihood over all output features, the MAP estimate is a sample at which it is largest, and working with logarithms gives the same estimate. If no prior is set it is uniform over the domain. When the posterior is zero at every sample the problem reports an error instead of returning some sample, in either scale, and otherwise it does not.",
 ["inputs", "configurations"], "all small problems over the alphabets of samples, outputs, priors and likelihoods, linear and log scale",
 "One test solves the identity map in linear scale and rounds to one decimal; the log scale and the instability report are never run.",
 [B, F], [("BayesProblem.set_likelihood / set_prior / fit / map_point", B), ("map_problem", F)], [], ["BayesProblem.map_point()", "BayesProblem.estimate()"])

prop("C07", "A Bayesian problem never answers from superseded settings",
 "After any sequence of setting the prior, setting the likelihood (in linear or log scale), fitting, asking for the estimate and plotting, the estimate and the plotted posterior equal those of a new problem given only the settings now in force. Asking and plotting change nothing.",
 ["histories"], "every operation sequence up to the depth bound",
 "No test reconfigures a Bayesian problem after solving it.",
 [B], [("posterior invalidation in set_prior / set_likelihood", B), ("lazy fit in map_point", B), ("BayesProblem.plot_param_space", B)], [], ["BayesProblem.estimate()", "plot line data"])

prop("C08", "Linear MUD point is the data-consistent update of the initial mean",
 "For every linear map (wide, square, tall, full rank or rank deficient), offset, data, initial mean, positive-definite initial covariance and observational covariance, the MUD solution is mean + C A^T (A C A^T)^+ (y - b - A mean). It therefore reproduces the data exactly whenever the data are attainable, differs from the initial mean only by an element of the range of C A^T, and does not depend on the observational covariance or on the covariance scaling alpha. The functional entry points and the class agree.",
 ["inputs", "configurations"], "all integer problems up to 3 outputs x 3 parameters over small entries (all of a small grid, plus generic and badly scaled representatives)",
 "Tests use one random square full-rank 2x2 map with identity covariance and zero mean.",
 [B, F], [("LinearGaussianProblem.solve", B), ("mud_sol / lin_prob", F)], [], ["LinearGaussianProblem.solve('mud')", "mud_sol"])

prop("C09", "Linear MAP point and posterior covariance are the Gaussian posterior",
 "For every linear map, offset, data, initial mean, positive-definite initial and observational covariances and scaling alpha, the MAP solution and its covariance are the exact Gaussian posterior mean and covariance under initial covariance alpha*C. The functional entry points (with and without covariance, with their weighting argument) agree with the class.",
 ["inputs", "configurations"], "all integer problems up to 3x3 over small entries, with several covariances and alphas",
 "Tests only check that two calls of the same code agree and that MAP error exceeds MUD error.",
 [B, F], [("LinearGaussianProblem.solve", B), ("map_sol / map_sol_with_cov", F)], [], ["LinearGaussianProblem.solve('map')", "map_sol_with_cov"])

prop("C10", "Linear least-squares point is the minimum-norm least-squares solution",
 "For every linear map (any shape and rank), offset and data, the least-squares solution minimises the data misfit |A x + b - y| and has the smallest norm among the minimisers; it does not depend on the initial mean or on any covariance.",
 ["inputs", "configurations"], "all integer problems up to 3x3 over small entries",
 "Only executed by an example whose numbers are not checked.",
 [B], [("LinearGaussianProblem.solve", B)], [], ["LinearGaussianProblem.solve('ls')"])

prop("C11", "Updated covariance matches the data covariance in observed directions only",
 "For every full-row-rank map, positive-definite initial covariance C and data covariance D, the updated covariance S is C - K (A C A^T - D) K^T with K = C A^T (A C A^T)^-1, so A S A^T = D while S equals C on directions the data do not inform. The class method and the function give the same matrix, the alternative MUD formula through S yields the same point as the direct one, and the entry point returning a covariance returns S; for rank-deficient maps the pseudo-inverse form of the same formula holds.",
 ["inputs", "configurations"], "all integer problems up to 3x3 over small entries with several covariance pairs",
 "Tests use a random square map with identity covariances, where the formula degenerates to (A^T A)^-1.",
 [B, F], [("LinearGaussianProblem.updated_cov", B), ("updated_cov / mud_sol_with_cov", F)], [], ["updated_cov", "mud_sol_with_cov"])

prop("C12", "Reported functionals are the ones the linear solutions minimise",
 "For every linear problem the reported data, regularisation and data-consistent terms are the squared norms of the data misfit A x + b - y, of x - mean, and of A (x - mean), weighted by the inverse data covariance, initial covariance alpha*C and (where it is invertible) predicted covariance A (alpha*C) A^T, at every evaluated point; the Bayesian and data-consistent functionals are their sums and differences and any single term equals the entry of the full result. The MAP point minimises the Bayesian functional, the MUD point the data-consistent one, and the stand-alone norm functions return the same values (with scalar or matrix covariances and default observed mean).",
 ["inputs", "configurations"], "all integer problems up to 2 outputs x 3 parameters over small entries, evaluated on all points of a small lattice",
 "Tests check only positivity of the norms at one random point with one output and zero mean and data.",
 [B, N], [("LinearGaussianProblem.compute_functionals", B), ("full_functional / norm_data / norm_input / norm_predicted / inner_product", N)], [], ["compute_functionals", "norm.full_functional"])

prop("C13", "Linear solves are repeatable, order-independent and truncate consistently",
 "Solving by any method, any number of times, in any order, mixed with covariance, functional and plotting calls, always returns what a new problem returns, and changes nothing but the returned solution; solving by all methods returns the MUD, MAP and least-squares points in that order. Restricting to the first k outputs gives the solution of the problem made of the first k rows of map, offset, data and data covariance. Data whose length differs from the number of outputs are rejected.",
 ["histories", "configurations"], "every operation sequence up to the depth bound on problems of several shapes, and every k",
 "Each test solves a fresh problem once; truncation is only run by an example whose numbers are not checked.",
 [B], [("LinearGaussianProblem.solve", B)], [("stored solutions", "last solution per method", B)], ["LinearGaussianProblem.solve"])

prop("C14", "Linear WME transformation reproduces the weighted mean error functional",
 "For every linear operator (one row for repeated observations, or one row per observation), data and standard deviations (scalar or per observation), the transformed pair (A, b) satisfies A x + b = (1/sqrt(N)) * sum_j (M_j x - d_j) / sigma_j for every x; several quantities of interest are stacked row-wise in order, and the problem class and the utility functions produce the same map. A repeated-observation operator is equivalent to the same row written once per observation. An operator whose number of rows is neither one nor the number of its data, a number of deviations that is neither one nor the number of data, per-observation deviations with a repeated operator, and non-positive deviations are rejected.",
 ["inputs", "configurations"], "all small integer operators, data and deviations, 1-3 quantities of interest, 1-4 observations each, in list/array forms",
 "Doctests cover one all-ones operator with zero residual, for which any scaling error is invisible.",
 [U, B], [("transform_linear_map / transform_linear_setup", U), ("LinearWMEProblem", B)], [], ["transform_linear_map", "transform_linear_setup", "LinearWMEProblem.A/.b"])

prop("C15", "WME functional value for every data layout",
 "For every predictions array (n samples by N observations, or a single sample), data given as a list, a vector, a column or a row, and standard deviation (given, or by default the standard deviation of the data), the weighted mean error of each sample is sum_j (prediction_j - data_j) / (sd*sqrt(N)), one value per sample. A data length different from N is rejected and neither argument is modified.",
 ["inputs"], "all small integer prediction arrays and data, in every layout",
 "The test file itself carries the TODO 'test wme works with data of shape (n_features,1), (1,n_features), and list'.",
 [F], [("wme", F)], [], ["wme"])

prop("C16", "Wrapper problems aggregate exactly the requested observations",
 "Given the drawn noise, the density wrapper builds a problem whose outputs are the weighted mean errors of the first num_obs observations (or, with a split, of each listed group of observations below num_obs, one feature per group in order) against reference plus noise, and the Bayesian wrapper one whose likelihood is normal around reference plus noise with the given deviation for exactly those observations. Observation counts below 1 or above the available number are rejected; samples, domain and weights are passed on unchanged, and the wrapper for prepared data keeps outputs and initial density as given with a standard normal observed density.",
 ["inputs", "configurations"], "every num_obs, every ordered partition into groups, every noise vector of a small set (the noise source is owned by the harness)",
 "No stable test calls the wrappers.",
 [F], [("mud_problem", F), ("map_problem", F), ("data_prob", F)], [], ["mud_problem", "map_problem", "data_prob"])

prop("C17", "Iterative linear solver chains single-row solves and can be resumed",
 "Every step of the iterative solver is the solution of the single-row problem it visits, started from the previous step's point, in the given row order; solving e epochs and then f more equals solving e+f epochs at once, the functional epoch helpers visit the same points, and each visited equation is satisfied exactly after its MUD step. For consistent data the covariance-weighted distance to a solution never increases, and the error history has one entry per step, measured against the reference asked for.",
 ["histories", "inputs"], "all row orders (with repetition) up to the bound, every split of the epochs into solve calls interleaved with error queries, small integer problems",
 "No test constructs the iterative solver.",
 [B, F], [("IterativeLinearProblem.solve / get_errors", B), ("performEpoch / iterate / iter_lin_solve", F)], [("solution chains", "points visited per epoch", B)], ["IterativeLinearProblem.solve", "get_errors", "iterate"])

prop("C18", "Spatio-temporal sub-sampling keeps samples, sensors, times and data aligned",
 "For every selection of samples, sensors and times (index lists with any order and repetition, boolean masks or slices, for any number of sensor coordinates), the returned parameters, times, sensors, simulated data and measurements are exactly the selected ones in the selected order, with simulated data and measurements flattened sensor-major so that entry (sensor, time) of the one corresponds to entry (sensor, time) of the other. Data given as (samples x sensors x times) and the same data given flattened are equivalent, and the stored problem is not changed.",
 ["inputs", "configurations"], "all small shapes and all index/mask selections up to the bound in every dimension, singly and jointly",
 "Tests reach masks only through two example data sets with one time or one sensor, where a transposed layout cannot be seen.",
 [B], [("SpatioTemporalProblem.sample_data", B), ("data setter", B), ("measurements setter", B)], [], ["sample_data", "get_closest_to_measurements"])

prop("C19", "Spatio-temporal setup accepts consistent settings, rejects others, stays intact",
 "In any order of assignments (samples, domain, sensors, times, data, measurements, reference parameter, sampling distribution) and from a mapping or a pickled file, with or without renamed fields or values given directly, an inconsistent assignment (domain with the wrong number of parameters or not covering the samples, samples of the wrong dimension, data not matching sensors x times, reference outside the domain, unknown distribution; each judged against what is already set) raises an error and leaves the problem as it was. A consistent assignment is stored, missing pieces are inferred (domain from sample ranges, a single sensor or time), a renamed field is read from the name given, and validation reports exactly the missing pieces.",
 ["histories", "configurations"], "every sequence of valid and invalid assignments up to the depth bound; every field, renaming and direct value for loading",
 "Tests load two fixed files with one argument pattern and never assign anything inconsistent.",
 [B], [("SpatioTemporalProblem setters", B), ("SpatioTemporalProblem.load", B), ("SpatioTemporalProblem.validate", B)], [("domain, samples, sensors, times, data, measurements", "the configured problem", B)], ["attributes of SpatioTemporalProblem", "validate()", "load()"])

prop("C20", "Data-constructed QoI maps project the scaled residuals of the selected data",
 "For every selection of samples, sensors and times, the density problem built from spatio-temporal data has the selected samples, the problem's domain and the given sample weights, and outputs that are: for the mean-error method the sum of residuals (measured minus simulated over deviation) divided by the square root of the number of selected observations; for the principal-component and singular-value methods the projections of the residuals on the leading components or right singular vectors of the standardised residuals, as many as requested (at most the available number). Data weights multiply the selected residuals observation by observation after normalisation to unit norm and must match the number of selected observations; an unknown method is rejected with an error naming it.",
 ["inputs", "configurations"], "all small data shapes, methods, component counts, masks, data weights and sample weights",
 "Tests reach only the principal-component method through two fixed data sets and compare one printed estimate.",
 [B, PP], [("SpatioTemporalProblem.mud_problem", B), ("pca / svd", PP)], [], ["SpatioTemporalProblem.mud_problem"])

prop("C21", "Synthetic measurements and closest-sample queries are exact",
 "Measurements generated from a reference equal the reference plus deviation times the drawn standard normal values in order, for references of any shape, and the same seed gives the same measurements whatever was drawn before; noise is added to a signal elementwise, keeping its shape. The closest-sample queries return the parameters of a sample whose selected data are nearest in Euclidean norm to the selected measurements or to the noiseless values.",
 ["inputs", "histories"], "all small signals and shapes with the random source owned by the harness, all seeds in a set, all selections",
 "A doctest checks one rounded mean of one seeded draw.",
 [B, U], [("measurements_from_reference", B), ("get_closest_to_measurements / get_closest_to_true_vals", B), ("add_noise", U)], [], ["measurements_from_reference", "add_noise", "get_closest_to_measurements", "get_closest_to_true_vals"])

prop("C22", "Null space is an orthonormal basis of the kernel",
 "For every matrix (any shape and rank, including zero, badly scaled and complex ones) the returned columns are orthonormal, are mapped to zero by the matrix up to rounding, and number exactly the columns minus the rank, where singular values below the relative tolerance (the given one, or by default machine precision times the larger dimension) count as zero.",
 ["inputs"], "all integer matrices up to the size bound over small entries, scaled copies, and tolerance values",
 "Doctests check a 2x2 example and one random full-rank matrix.",
 [U], [("null_space", U)], [], ["null_space"])

prop("C23", "Rank decomposition yields the best rank-k approximations",
 "For every matrix, the k-th entry of the rank decomposition is the truncated singular value expansion with the k leading singular triples: it has rank min(k, rank), its distance to the matrix is the root of the sum of squares of the remaining singular values, and the last entry is the matrix itself; there are as many entries as the smaller dimension.",
 ["inputs"], "all integer matrices up to the size bound over small entries, plus generic ones",
 "No test looks at the result.",
 [U], [("rank_decomposition", U)], [], ["rank_decomposition"])

prop("C24", "Domain, mesh and tolerance utilities are exact",
 "The fitted domain of any samples is per column the minimum and maximum moved outward by the padding ratio times their difference (bounds given directly are padded the same way and left unmodified), and always contains the samples. The mesh builders list every grid point of the stated ranges exactly once, with the first coordinate varying as the grids returned with it say, and the equipment deviation is the one for which a centred normal falls within the tolerance with the stated probability.",
 ["inputs"], "all small sample arrays, bounds, padding ratios, mesh sizes and windows; a grid of tolerances and probabilities",
 "Doctests check one integer example each; the tolerance test only checks an inequality.",
 [U, PL], [("fit_domain", U), ("make_2d_unit_mesh", U), ("std_from_equipment", U), ("build_nd_mesh_grid / make_2d_normal_mesh", PL)], [], ["fit_domain", "make_2d_unit_mesh", "std_from_equipment", "build_nd_mesh_grid"])

prop("C25", "Principal components and singular vectors are those of the standardised data",
 "For every two-dimensional data array, the singular value result reconstructs the standardised data (zero mean, unit variance per column, constant columns zero) exactly, and the principal component result has orthonormal component rows, ordered by explained variance, with transformed data equal to the standardised data projected on them. Data that are not two-dimensional are rejected, options are passed through, and the data are not modified.",
 ["inputs"], "all integer arrays up to the size bound over small entries including constant columns, all component counts",
 "Doctests check the 2x2 identity.",
 [PP], [("pca", PP), ("svd", PP)], [], ["pca", "svd"])

prop("C26", "Plotted densities are the marginals of the asked-for coordinate",
 "For every number of parameters or outputs up to three and every index, the plotted initial, updated, weighted-initial, prior, posterior, predicted, observed and likelihood curves are the marginals of the corresponding joint density along that coordinate over the plotted range (normalised where a distribution plot is asked for), the estimate and the true value are drawn at their value of that coordinate, curves suppressed by passing nothing are not drawn, and a plot onto a given axes adds to that axes only. Two-dimensional parameter plots show the two requested parameters coloured by the requested output.",
 ["inputs", "configurations"], "all indices, dimensions and curve selections over small problems with densities that differ per coordinate",
 "Tests plot only one-dimensional problems, where no coordinate can be confused with another.",
 [PL, B], [("plot_dist / build_nd_mesh_grid", PL), ("DensityProblem.plot_param_space / plot_obs_space / plot_params_2d", B), ("BayesProblem.plot_param_space / plot_obs_space", B)], [], ["line and scatter data of the axes"])

prop("C27", "Seeded example runs are reproducible whatever ran before",
 "Running any example command or example function with a given seed produces the same printed output and the same numerical results every time, no matter which other commands ran before in the same process and with which seeds; different seeds give different draws. The seed given is the seed used.",
 ["histories", "configurations"], "every sequence of example runs up to the depth bound, each compared with the run in the initial state",
 "Each test runs one command once in whatever state the process is in.",
 [EX + "examples.py", EX + "poisson.py", EX + "linear.py", EX + "adcirc.py"], [("examples group seeding", EX + "examples.py"), ("run_2d_poisson_sol / run_2d_poisson_trials", EX + "poisson.py"), ("rotation_map / random_linear_problem", EX + "linear.py")], [], ["CLI stdout", "returned problems and arrays"])

prop("C28", "Every example option takes effect and every requested figure is written",
 "For every combination of the command options, the values given on the command line (noise level, numbers of samples and data, power, time windows, component counts, figure selection, save path, problem file) are the ones the example is solved with; the printed table has one row per requested case, sorted where stated, whose estimate and expected ratio are those of that case; and the figures selected, and only those, are written under distinct names to the save path.",
 ["configurations"], "every option varied over several values, and pairs of them, on the bundled data sets",
 "Tests run each command with its defaults and check the exit code or one fixed line.",
 [EX + "examples.py", EX + "poisson.py", EX + "adcirc.py", EX + "comparison.py", EX + "linear.py"], [("command functions", EX + "examples.py"), ("load_poisson_prob", EX + "poisson.py"), ("load_adcirc_prob / adcirc_time_window", EX + "adcirc.py"), ("run_comparison_example", EX + "comparison.py")], [], ["CLI stdout", "files written", "arguments reaching the solvers"])

prop("C29", "Example data generators follow their stated forward models",
 "Every example generator returns data consistent with its stated model for the drawn samples and noise: polynomial data are the stated power of samples from the stated initial distribution (uniform over the domain unless one is given) with observations of the stated mean and deviation; exponential-decay problems hold the decay values of their samples at their times, the true values of the true parameter and the stated deviation; rotation maps, random linear problems, noisy linear data and random WME problems satisfy their defining linear relations with one operator, data vector and deviation per quantity of interest.",
 ["inputs", "configurations"], "all small parameter combinations with the random source owned by the harness",
 "Tests only use the generators as fixtures and round the estimate to one decimal.",
 [EX + "simple.py", EX + "exp_decay.py", EX + "linear.py"], [("polynomial_1D_data / identity_1D_*", EX + "simple.py"), ("exp_decay_1D / exp_decay_2D", EX + "exp_decay.py"), ("rotation_map / noisy_linear_data / random_linear_wme_problem / random_linear_problem", EX + "linear.py")], [], ["returned arrays and problems"])

prop("C30", "Poisson data generation stores what the solver returned and can be loaded back",
 "For every number of samples and sensors, parameter box and sensor box, the generated data set holds for each parameter sample the solver's value at each sensor, the reference solution at the sensors and on the mesh, and the boxes used; samples and sensors lie in their boxes and depend only on the seed; and the file written at the reported path loads back into a problem with the same samples, data, sensors, domain and true values. The boundary expression evaluates to the piecewise-linear interpolant of its knots.",
 ["inputs", "configurations"], "all small sample/sensor counts, boxes and seeds with the finite-element solver replaced by an enumerated stand-in; expressions for all small knot vectors on a grid",
 "The finite-element package is absent, so the test stops at the 'Unable to run fenics' message.",
 [EX + "fenics.py", EX + "examples.py", B], [("run_fenics / piecewise_eval_from_vector", EX + "fenics.py"), ("poisson_generate", EX + "examples.py"), ("SpatioTemporalProblem.load", B)], [], ["returned dictionary", "pickled file", "CLI stdout"])

prop("C31", "Result tables list exactly the matching rows and requested fields",
 "For every list of result records, field selection, search column, pattern and transformation, the printed table has the requested fields as columns in order and one row, in input order, for each record whose (transformed) search column matches the pattern, or for every record when no search column is given; records are not modified by printing.",
 ["inputs"], "all record lists up to the bound over a small value set, all field orders, patterns and filter functions",
 "A doctest prints two records and filters one.",
 [EX + "examples.py"], [("print_res", EX + "examples.py")], [], ["print_res"])

prop("C32", "Linear convergence studies report the errors of the problems they name",
 "For every size, seed and number of data, the high-dimensional study reports for each k and alpha the relative errors of the MUD, MAP and least-squares points of the problem restricted to the first k outputs and of the rank-k problem; the covariance study returns the problem built from the largest data count with the stated deviation and plots, per count, the singular values of that count's updated covariance. The contour example solves the problem made of the given settings over the stated defaults.",
 ["inputs", "configurations"], "all small input/output dimensions, seeds, data-count lists and overridden settings",
 "Tests run the commands with defaults and check the exit code only.",
 [EX + "linear.py", U, B], [("run_high_dim_linear", EX + "linear.py"), ("run_wme_covariance", EX + "linear.py"), ("run_contours", EX + "linear.py"), ("rank_decomposition", U)], [], ["returned error arrays, problems and axes"])

prop("C33", "Plots of linear and space-time problems show what they name",
 "For every two-parameter linear problem the plotted solution is the requested one (with a line from the initial mean where stated), each contour line is a level line of a selected row passing through the reference point (the least-squares point if none is given), functional contours show the requested term, and chain plots pass through the visited points. Time-series and sensor plots show exactly the selected sensors, samples, times and values, vector plots each vector against its index, and a saved figure is the current one at the stated path. A plot onto given axes draws on no other axes, and options passed in are not modified.",
 ["inputs", "configurations"], "all small two-parameter maps, row subsets, references and options; all small space-time shapes and selections",
 "No test looks at what these plots draw; most are only executed by example commands or not at all.",
 [B, PL], [("LinearGaussianProblem.plot_sol / plot_contours / plot_fun_contours", B), ("IterativeLinearProblem.plot_chain", B), ("SpatioTemporalProblem.plot_ts / sensor_scatter_plot / sensor_contour_plot", B), ("plotChain / plot_contours / plot_1D_vecs / plot_vert_line / save_figure", PL)],
 [], ["line, scatter and contour data of the axes", "files written"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        fp.write(json.dumps(p) + "\n")
print(len(P), "properties")
