"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
COV = 'robuststats/estimation/covariance.py'
BASE = 'robuststats/estimation/base.py'
STR = 'robuststats/estimation/structured.py'
PROB = 'robuststats/models/probability.py'
MAP = 'robuststats/models/mappings.py'
MAN = 'robuststats/models/manifolds.py'
COST = 'robuststats/models/cost.py'
LIN = 'robuststats/utils/linalg.py'
GEN = 'robuststats/utils/generation_data.py'
ONL = 'robuststats/online/estimation.py'
CHK = 'robuststats/utils/checking.py'


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


p('C01', 'Converged robust M-estimates solve their defining equation',
  'For every centred real or complex data set on which the estimator exists, and from any positive definite starting point, '
  'the Tyler, Student-t and Huber fixed-point estimators run to convergence return the unique matrix S with '
  'S = (1/N) sum_i u(x_i^H S^-1 x_i) x_i x_i^H for their weight u (Tyler: u(t)=p/t, unique up to scale; Student-t: the maximum-likelihood '
  'weight of the multivariate t law with the given degrees of freedom; Huber: u(t)=min(1, a/t)/b, where a is the q-quantile of t under a '
  'Gaussian law and b makes the estimate consistent for that law). '
  'The functional and the estimator-class form return the same matrix.',
  ['inputs', 'configurations'],
  'Every data set over a small alphabet of observations (N up to 6, p up to 3, real and Gaussian-integer), every shape of a size grid, '
  'every listed starting point, degrees of freedom and q.',
  'The tests fit a few random Gaussian data sets and look at type, shape and symmetry; two of them compare to one decimal. '
  'A wrong weight, constant or conjugate passes them.',
  [COV], [('fixed-point loops', COV), ('Huber weight', COV)],
  ['huber_m_estimator_fixed_point', 'student_t_mle_fixed_point', 'tyler_shape_matrix_fixedpoint', 'complex_* versions', 'covariance_ of the six estimator classes'])

p('C02', 'Iterative estimators stop when they say and report what they did',
  'An iterative covariance estimator performs at least one and at most iter_max iterations, stops at the first iterate whose relative Frobenius change does '
  'not exceed tol, and returns that iterate together with that change and the number of iterations performed (iter_max=0 returns the starting point). '
  'The estimator classes expose the same numbers, exhausting iter_max is logged (by the fixed-point estimators as a warning) and nothing else changes: progress display never alters any result.',
  ['inputs', 'configurations', 'histories'],
  'Every k up to a bound as iter_max, every tol of a ladder placed between consecutive changes of the reference run, verbosity on or off, '
  'default or explicit start, for the six fixed-point estimators and the Kronecker MM algorithm.',
  'Tests never look at the returned error or count (one checks count <= 100) and never vary tol against iter_max.',
  [COV, STR], [('while loops, delta, iteration', COV), ('MM loop', STR)],
  ['(estimate, error, iterations) returned by the fixed-point functions', 'err_ and iteration_', 'log records'])

p('C03', 'Estimates are valid covariance matrices under every normalisation',
  'Every covariance or shape estimator of the package returns a finite, Hermitian (symmetric for real data), positive definite n_features x n_features matrix, '
  'real for real data and complex for complex data. A shape estimator asked for normalisation trace, determinant or element returns a matrix with trace p, '
  'determinant 1 or unit first element respectively, equal to a positive multiple of the unnormalised estimate; any other value leaves the estimate unscaled. '
  'The precision matrix offered is the inverse of the stored covariance whether or not it is stored.',
  ['inputs', 'configurations'],
  'All estimators x algorithms x normalisations x data layouts (C/F order, strided, integer, float32) x shapes of a grid and all small-alphabet data sets.',
  'Tests check one random data set per estimator, normalisation with 7 digits on one size, never precision, layouts or positive definiteness.',
  [COV, BASE, STR], [('get_normalisation_function', COV), ('_set_covariance', BASE)],
  ['covariance_', 'precision_', 'get_precision()', 'function return values'])

p('C04', 'Scatter estimates follow linear changes of the data',
  'Replacing every observation x by Cx for an invertible matrix C turns the converged Tyler, Student-t and Huber estimates S into C S C^H (for Tyler up to scale), '
  'reordering the observations changes nothing, and duplicating the whole data set changes nothing. '
  'Rescaling each observation by its own non-zero (complex) factor leaves the Tyler estimate unchanged up to scale, '
  'and multiplying observations by unit-modulus factors leaves every estimate unchanged.',
  ['inputs', 'programs'],
  'Every sequence up to a depth of generators of the transformation group (shear, scaling, permutation, phase, per-sample rescaling, duplication) '
  'applied to every seed data set, for real and complex data.',
  'No test relates two fits to each other.',
  [COV], [('whitening by the current estimate, outer products', COV)],
  ['covariance_ of the six M-estimator classes'])

p('C05', 'A corrupted observation has bounded influence on a robust estimate',
  'When the magnitude of any admissible minority of observations is multiplied by an arbitrarily large factor, the Tyler estimate does not change (up to scale), '
  'and the Student-t and Huber (q<1) estimates stay bounded and converge to a limit that no longer depends on the factor, '
  'while remaining positive definite. With q tending to 1 the Huber estimate of clean data tends to the sample covariance (which it is for q=1) and with q tending to 0 its shape tends to Tyler\'s.',
  ['inputs', 'fault_sequences'],
  'Every subset of at most m corrupted observations (m below the breakdown bound) and every factor of a ladder up to 1e8, for each seed data set, real and complex.',
  'No test contains an outlier.',
  [COV], [('weights decreasing like 1/t', COV)],
  ['covariance_ of the six M-estimator classes'])

p('C06', 'The two algorithms for Tyler\'s estimator compute the same matrix',
  'For every data set on which Tyler\'s estimator exists, the natural-gradient method and the fixed-point method return the same shape matrix up to optimisation tolerance '
  'for every normalisation that fixes the scale, for real and complex data, whatever positive definite n_features x n_features starting point is given and whatever the random default start. '
  'A fitted estimator can be refitted with either method.',
  ['inputs', 'configurations'],
  'Seed data sets x normalisations x starting points x random-generator states, real and complex.',
  'Tests only compare each algorithm to the generating covariance with one decimal for 30000 samples.',
  [COV], [('pymanopt problem on SPD', COV)],
  ['tyler_shape_matrix_naturalgradient', 'complex_tyler_shape_matrix_naturalgradient', "TylerShapeMatrix(method='natural gradient')", "ComplexTylerShapeMatrix(method='natural gradient')"])

p('C07', 'Student-t fits maximise the likelihood their own score reports',
  'The score of a fitted Student-t estimator is the total log-likelihood of the test data under the centred multivariate t law (real or circular complex, as implemented by the package) '
  'with the fitted covariance and the given degrees of freedom. For a fit run to convergence no other positive definite matrix gives the training data a higher score, and every iteration does not decrease it.',
  ['inputs', 'configurations'],
  'Every seed data set x df x every perturbation S -> S exp(eps H) of a basis of Hermitian directions H, both signs and several eps; every iterate of the run.',
  'score is never called by the tests.',
  [COV, PROB], [('score', COV), ('df scaling in the fixed point', COV)],
  ['CenteredStudentMLE.score', 'ComplexCenteredStudentMLE.score'])

p('C08', 'Gaussian summaries of a fitted covariance are the textbook ones',
  'The (real or complex) empirical covariance estimator returns the sample mean (zero if assumed centred) and the sample covariance (1/N) sum (x-m)(x-m)^H. '
  'For every fitted covariance estimator squared Mahalanobis distances are (x-m)^H S^-1 (x-m), the Gaussian score is the mean Gaussian (circular complex Gaussian) log-density of the test data, '
  'and the error norm against another matrix is the true Frobenius or spectral norm of the difference, zero only for equal matrices, with the squared and scaling options.',
  ['inputs', 'configurations'],
  'All small-alphabet data sets and all Hermitian differences with entries in a small Gaussian-integer alphabet, all option combinations, every estimator class.',
  'One test calls error_norm twice and checks shapes; score and mahalanobis are never called.',
  [BASE, COV], [('ComplexEmpiricalCovariance', BASE), ('score', COV)],
  ['complex_empirical_covariance', 'ComplexEmpiricalCovariance', 'error_norm', 'mahalanobis', 'score', 'location_'])

p('C09', 'A fit depends only on the current parameters and the data',
  'Estimators are scikit-learn compatible: get_params returns what was set, clone and deep copy give independent equivalent estimators, and set_params followed by fit gives exactly what a new estimator '
  'constructed with these parameters gives. The result of fit never depends on earlier fits, failed fits, scores or transforms of the same or another estimator, and a fit that raises leaves the previously fitted results in place.',
  ['histories', 'configurations', 'fault_sequences'],
  'Every sequence up to a depth over fit(d1), fit(d2), failing fit, set_params(each parameter), clone, deepcopy, score/transform, for each estimator class.',
  'Every test fits a new estimator once.',
  [COV, STR, BASE], [('set_method closure', COV), ('attributes set in fit', COV), ('manifold built in __init__', STR)],
  ['get_params', 'set_params', 'clone', 'copy.deepcopy', 'fit', 'fit_transform', 'covariance_'],
  [('_estimation_function', 'closure over the parameters', COV), ('iteration_', 'count of last fit', COV)])

p('C10', 'Batch estimation equals one independent fit per trial, in order',
  'Transforming a stack of trials returns, at each position, exactly what a fresh copy of the wrapped estimator returns for that trial, with nothing lost to the element type of the input, '
  'for any number of workers, any parallel backend, any completion order and any interleaving of the workers, with fit options forwarded. An error in any trial is reported to the caller.',
  ['schedules', 'configurations', 'fault_sequences'],
  'Every interleaving of 2-3 workers at the scheduling points of the wrapped estimator (fit entry/exit, state write, state read), every completion order, every n_jobs in a set, every failing trial position.',
  'Tests run the serial and the process-parallel path once and look at the shape only; thread schedules are never controlled.',
  [BASE], [('deepcopy per task', BASE), ('joblib.Parallel', BASE)],
  ['CovariancesEstimation.transform', 'FeaturesEstimation.transform'],
  [('estimator', 'user-supplied estimator shared by tasks', BASE)])

p('C11', 'Independent computations do not interfere across threads',
  'Running any two of the package\'s computations on separate objects and separate data in two threads gives, for every thread interleaving, exactly the results of running them one after the other.',
  ['schedules'],
  'All schedules with at most 1 (quick) or 2 (thorough) preemptions, preemption possible at every executed source line of the package, for a matrix of operation pairs.',
  'The tests are single-threaded.',
  [COV, BASE, STR, PROB, MAN, LIN], [('no module-level mutable state', 'robuststats/')],
  ['results of estimator fits, densities, manifold operations, feature arrays'])

p('C12', 'A feature array behaves as a typed list of feature tuples',
  'A feature array holds exactly the features appended to it, in order and by value: length, shape, dtype, iteration, integer, slice, list and boolean-mask indexing, export and vectorisation all agree with a plain list of the appended '
  'feature tuples, whatever the sizes of the chunks and however often it had to grow, and later changes to the source arrays do not show. '
  'An append whose type, number of components, element type or feature shape does not match is rejected and changes nothing.',
  ['histories', 'inputs', 'fault_sequences'],
  'Every sequence up to a depth of append(single/chunk/other array/invalid), index, slice, mask, copy, across the growth boundary (1000) and for 1-3 components incl. Hermitian and skew components.',
  'The class has no direct test.',
  [BASE], [('append with preallocation', BASE), ('__getitem__', BASE), ('export', BASE), ('vectorize', BASE)],
  ['len', 'shape', 'dtype', '[]', 'append', 'export', 'vectorize'],
  [('_array/_len', 'preallocated storage and number of valid rows', BASE)])

p('C13', 'Calls leave their arguments and the global random state alone',
  'No function, method or estimator of the package modifies an array, list or estimator passed to it or keeps a live reference that later changes results, '
  'and deterministic computations do not touch the global random state. Calling the same deterministic function again with the same arguments returns the same value.',
  ['inputs', 'configurations'],
  'Every public function and method x argument layouts (C/F order, read-only, strided views).',
  'Tests never re-inspect their inputs.',
  [COV, STR, BASE, PROB, MAN, MAP, LIN, COST], [('out-of-place numpy expressions', 'robuststats/')],
  ['arguments after the call, numpy.random.get_state(), repeated results'])

p('C14', 'Complex-real mappings are faithful and inverse to each other',
  'Mapping complex vectors, data sets and Hermitian matrices to their real equivalents and back returns the original values, both for one and for stacks of matrices, and inputs already of the target kind pass through unchanged. '
  'The real equivalent of a Hermitian positive definite matrix is symmetric positive definite, the mapping is linear, compatible with matrix products and with quadratic forms (the covariance of the mapped vector is the mapped covariance), '
  'and inputs of unsupported dimension, non-square matrices or odd real size are rejected.',
  ['inputs'],
  'All vectors/matrices with entries in a Gaussian-integer alphabet for p up to 2 (3 thorough), all shapes of a grid, all ranks 0-4.',
  'Tests map one random matrix and check shapes.',
  [MAP], [('block matrix with factor 1/2', MAP)],
  ['arraytoreal', 'arraytocomplex', 'covariancetoreal', 'covariancetocomplex', 'covariancestoreal', 'covariancestocomplex', 'iscovariance', 'check_Hermitian', 'check_Symmetric'])

p('C15', 'The complex normal model is the circular complex Gaussian law',
  'With a complex mean or covariance, logpdf, pdf, entropy and cdf of the complex normal model are those of the circular complex Gaussian N(mean, cov), and with real parameters those of the real Gaussian, for every combination of omitted, real or complex mean and covariance; '
  'real data are read as complex with zero imaginary part and complex data under a real model by their real part. Frozen and unfrozen forms agree, and drawn samples have exactly the model\'s mean, covariance and (zero) pseudo-covariance in law and are reproducible from the random state.',
  ['inputs', 'configurations'],
  'All combinations of (mean omitted/real/complex) x (cov omitted/real/complex) x (data real/complex, one or several points) x (frozen or not) x method over grids of points; samplers driven by an exhaustive orthogonal design in place of the random source.',
  'Tests check one log-density and otherwise only shapes; tests of the frozen form fail with the installed scipy.',
  [PROB, MAP], [('_check_parameters_*', PROB), ('covariancetoreal', MAP)],
  ['complex_multivariate_normal and its frozen form: logpdf, pdf, cdf, logcdf, entropy, rvs'])

p('C16', 'The complex Student-t model is a proper circular t law',
  'With a complex location or shape, logpdf and pdf of the complex t model are the density of the multivariate t law with the given degrees of freedom of the stacked real and imaginary parts whose shape is the real equivalent of the complex shape; with real parameters those of the real law; frozen and unfrozen forms agree. '
  'The density integrates to one, and samples follow that law and are reproducible from the random state.',
  ['inputs', 'configurations'],
  'All combinations of (loc omitted/real/complex) x (shape real/complex) x (data real/complex, one or several points) x df x (frozen or not); samplers driven by an exhaustive orthogonal design in place of the random source.',
  'The only comparison with a formula is commented out in the tests; the unfrozen form is never called.',
  [PROB, MAP], [('_check_parameters_*', PROB)],
  ['complex_multivariate_t and its frozen form: logpdf, pdf, rvs'])

p('C17', 'Manifold operations never leave the manifold',
  'Starting from any point of a manifold of the package, every sequence of exponential maps, retractions, projections, logarithms, transports and random draws yields points of the manifold (positive vectors; Hermitian positive definite; '
  'Hermitian positive definite with unit determinant; products of these) and vectors of the tangent space at the stated point (Hermitian; trace-free with respect to the point for unit determinant). '
  'Projection is idempotent and fixes tangent vectors, for one or several matrices at a time, and the reported dimension is that of the tangent space.',
  ['histories', 'inputs'],
  'Every operation sequence up to a depth from seed points, n up to 3, k in {1,2}, six manifolds; steps up to norm 3.',
  'Tests cover one random point of one manifold with k=1 ("TODO: k!=1").',
  [MAN], [('proj, exp, retr, log, transp', MAN)],
  ['StrictlyPositiveVectors', 'HermitianPositiveDefinite', 'SpecialHermitianPositiveDefinite', 'WeightedProduct', 'KroneckerHermitianPositiveElliptical'])

p('C18', 'Metric, exponential, logarithm, distance and transport agree',
  'On every manifold of the package the inner product is symmetric, bilinear and positive definite and norm is its square root; log inverts exp; distance is the norm of the logarithm, symmetric, invariant under the manifold\'s congruence/scaling action and satisfies the triangle inequality; '
  'the retraction agrees with the exponential map to second order; parallel transport preserves inner products and carries the geodesic\'s velocity; random tangent vectors have unit norm. '
  'The metric of the Kronecker elliptical manifold is the Fisher metric of the elliptical law.',
  ['inputs', 'configurations'],
  'All pairs/triples of seed points and basis tangent vectors, n up to 3, k in {1,2}, weights and alpha from a set.',
  'One test compares inner and exp with a formula at one random point.',
  [MAN], [('inner, norm, dist, exp, log, retr, transp', MAN)],
  ['manifold classes'])

p('C19', 'Riemannian gradients and Hessians represent derivatives in the metric',
  'On every manifold of the package, converting a Euclidean gradient yields the tangent vector whose inner product with any tangent vector is the directional derivative of the function, '
  'and converting a Euclidean Hessian (where offered) yields the self-adjoint operator whose quadratic form is the second derivative along geodesics.',
  ['inputs', 'configurations'],
  'All (seed point, test function, basis tangent vector) triples, n up to 3, k in {1,2}, weights and alpha from a set.',
  'egrad2rgrad and ehess2rhess are not tested.',
  [MAN], [('egrad2rgrad, ehess2rhess', MAN)],
  ['manifold classes'])

p('C20', 'The Kronecker MM estimator decreases and solves Tyler\'s structured problem',
  'Each iteration of the Kronecker MM estimator does not increase Tyler\'s cost of A kron B on the data, and at convergence A and B are Hermitian positive definite and satisfy the two stationarity equations of that cost, so that A kron B is the stored covariance and follows Kronecker changes of the data. '
  'Data whose covariance is A kron B with complex factors are estimated by A kron B and not by a conjugated or permuted version.',
  ['inputs', 'configurations', 'histories'],
  'Every iterate up to a bound, for all factor sizes a,b up to 3 and every seed data set (real and complex, incl. exact designs with second moment A kron B), every Kronecker transformation generator.',
  'Tests check only dtype, shape and count.',
  [STR], [('MM updates', STR)],
  ['estimation_cov_kronecker_MM', 'KroneckerEllipticalMM'])

p('C21', 'The Kronecker Student-t estimator descends and solves its likelihood problem',
  'The gradient used for the Kronecker Student-t model is the gradient of its cost in both factors for every location, and the fit returns Hermitian positive definite factors A (unit determinant) and B, with covariance A kron B, at which the likelihood under the fitted location is stationary among Kronecker matrices. '
  'score is the log-likelihood of the given data under the fitted model.',
  ['inputs', 'configurations'],
  'All factor sizes a,b up to 3, df in a set, centred or not, default/explicit start, all basis directions of both factors, every seed data set.',
  'Tests check only dtype and shape.',
  [STR, MAN, PROB], [('cost and gradient generators', STR), ('conjugate gradient on the product manifold', STR)],
  ['KroneckerStudent', 'cost and gradient functions'])

p('C22', 'The Tyler cost is Tyler\'s cost on both backends',
  'The real and complex Tyler costs equal p*sum log(x^H Q^-1 x) + N*log det Q, do not depend on the scale of Q, change by a constant under rescaling of observations, follow congruences of data and matrix, agree between the plain and the automatic-differentiation backend, '
  'have the analytic gradient under automatic differentiation, and are minimal at Tyler\'s estimate. Incompatible sizes are rejected.',
  ['inputs', 'configurations'],
  'All small-alphabet data sets x seed matrices x basis directions x backends.',
  'Tests check scalar type and realness for one random matrix.',
  [COST, LIN], [('invsqrtm whitening', LIN), ('einsum quadratic form', COST)],
  ['Tyler_cost_real', 'Tyler_cost_complex'])

p('C23', 'Matrix functions and vectorisations obey their algebra',
  'For every Hermitian positive definite matrix sqrtm, invsqrtm, logm, expm and powm return the Hermitian matrix function of the same eigenvectors: sqrtm squared is the matrix, invsqrtm is its inverse, expm inverts logm, powers add, functions are unitarily covariant, on both backends. '
  'vec/unvec and vech/unvech are mutually inverse on matrices resp. Hermitian (symmetric) matrices, hermitian parts are Hermitian projections for single and stacked matrices, and Toeplitz matrices are Hermitian with first row/column the powers of rho.',
  ['inputs'],
  'All small-alphabet Hermitian positive definite matrices (p up to 2; 3 thorough), a size grid, real and complex, all powers of a set, both backends.',
  'No test calls these functions directly.',
  [LIN], [('_matrix_operator', LIN), ('vech/unvech', LIN)],
  ['robuststats.utils.linalg'])

p('C24', 'A temporary seed is reproducible and leaves no trace',
  'Code run under a temporary seed draws exactly the numbers that seed gives, and when the block ends, normally, by exception or by early return, at any nesting, the global random stream continues exactly as if the block had not run.',
  ['histories', 'fault_sequences'],
  'Every program up to a size over draw, seeded block (nested, several seeds), raise inside a block, reseed, generator-based suspension.',
  'Not tested.',
  ['robuststats/utils/montecarlo.py'], [('temp_seed', 'robuststats/utils/montecarlo.py')],
  ['temp_seed', 'numpy.random'],
  [('numpy.random global state', 'legacy generator state', 'numpy')])

p('C25', 'Online estimation: a batch fit equals its stream of updates',
  'Fitting an online estimator to a data set from a starting point gives the state obtained by setting that point and feeding the observations one by one, each step being the manifold retraction of the current estimate along the user\'s direction scaled by the current rate, constant or decreasing as rate/1, rate/2, ... '
  'Repeating a fit repeats its result, the exposed covariance always is that of the current estimate, updates without a starting point change nothing and report an error, and the display never alters results.',
  ['histories', 'configurations'],
  'Every sequence up to a depth over set_estimate, update(x) with either rate rule, fit(d), clone-by-construction; array, list and tuple valued estimates.',
  'The only test module of the online part is empty.',
  [ONL], [('update, fit, _current_lr', ONL)],
  ['StochasticGradientCovarianceEstimator: set_estimate, update, fit, estimate_, covariance_'],
  [('_iteration', 'number of updates since fit', ONL)])

p('C26', 'Data generators produce the laws they are named after',
  'Generated covariances are symmetric (Hermitian) positive definite with unit determinant on request, generated frames have orthonormal columns, and textures are positive. '
  'Gaussian, compound-Gaussian and low-rank-plus-identity samplers return p x N arrays whose columns have, in law, zero mean, the requested covariance (scaled by the given textures) and, in the complex case, zero pseudo-covariance.',
  ['inputs', 'configurations'],
  'All sizes of a grid x random-generator states; samplers driven by an exhaustive orthogonal design in place of the random source, for all seed covariances and textures.',
  'The generators are only used as helpers in the tests.',
  [GEN], [('sqrtm(cov) @ standard sample', GEN)],
  ['robuststats.utils.generation_data'])

p('C27', 'Copies and saved objects carry on like the original',
  'A deep copy, a pickled and restored, or a joblib-dumped and loaded copy of any object of the package - estimator (fitted or not), online estimator in mid-stream, batch transformer or '
  'pipeline of them, feature array, manifold, tangent vector, probability law with its own random state - behaves under every further sequence of operations as the original would have, '
  'and neither affects the other. Estimators keep their meaning inside scikit-learn: clone, Pipeline, cross_val_score and GridSearchCV give the numbers of the corresponding plain loops and leave the estimator they are given unfitted and unchanged.',
  ['histories', 'configurations'],
  'Every history of operations before the copy, every kind of copy and every pair of continuations of original and copy up to a depth, copies of copies and objects sent to worker processes included.',
  'No test copies, pickles, clones or cross-validates anything.',
  [COV, BASE, STR, MAN, PROB, ONL], [('state of the objects', 'constructors and fit/append/update/rvs methods'), ('Tyler __getstate__', COV)],
  ['pickle.dumps/loads, copy.deepcopy, joblib.dump/load', 'sklearn.base.clone, cross_val_score, GridSearchCV, Pipeline'])

p('C28', 'A result depends on the numbers given, not on how they are stored',
  'Calling any function, estimator, law or manifold of the package with the same numbers in another element type (integers of any width that holds them, single precision, another byte order; '
  'for all arguments or just one) gives the result of plain double precision, up to the rounding of the given type: nothing is truncated to integers, overflows, loses its imaginary part or is refused. '
  'Estimators read nested lists and tuples as arrays, and scalar parameters (tolerances, degrees of freedom, sizes, rates, weights, names, flags) may be Python or numpy scalars of any kind that holds the sizes computed from them. (Positive vectors and textures: integers of 32 bits or more; the samplers insist on matrices in double precision.)',
  ['inputs', 'configurations'],
  'Every call form of the package x every element type x every choice of the converted argument x sizes; every scalar parameter x every kind of number.',
  'The tests use double precision arrays and Python scalars only.',
  [COV, BASE, STR, MAN, PROB, ONL], [('conversions of data, starts and parameters', 'all public functions and classes')],
  ['returned arrays and fitted attributes'])

p('C29', 'Optimisation on the package\'s manifolds reaches the minimisers',
  'When a pymanopt solver (steepest descent, conjugate gradient with any of its rules, trust regions where Hessians are offered) is run on a manifold of the package - strictly positive vectors, '
  'Hermitian positive definite matrices with or without unit determinant, stacks of these, weighted products, the Kronecker elliptical manifold - to minimise a cost with a single minimiser '
  '(Gaussian likelihoods of a given covariance, centres of mass), then from every start, also one drawn by the manifold, it ends on the manifold, never above the cost of the start, at that minimiser.',
  ['configurations', 'histories'],
  'Every combination of manifold, cost, target, start and solver of the bounded sets: hundreds of steps of retraction, transport and gradient are chained in each, and rounding or metric errors accumulate.',
  'The tests call each manifold operation once at a random point; no test chains them or runs a solver.',
  [MAN], [('gradients, Hessians, retractions, transports, inner products', MAN)],
  ['pymanopt.solvers.SteepestDescent/ConjugateGradient/TrustRegions.solve(Problem(manifold, ...))'])

p('C30', 'Requests without a meaning are refused and leave no trace',
  'Data that is not finite (at any single entry), has the wrong number of dimensions or columns, is empty, or is complex where real is needed, estimators used before they are fitted, unknown method and '
  'error-norm names, degrees of freedom that are not positive, Huber fractions outside (0, 1], starting matrices that are not positive definite or of another size, law parameters that are not positive '
  'definite or do not fit each other, arrays whose shape is not that of the real/complex form asked for, vectors of no matrix size, Kronecker sizes that do not multiply to the dimension, products used with '
  'too few weights, samplers given covariances of another kind, batches without an estimator or of the wrong dimensions, and arguments failing a stated check (positive, type, value) all raise an '
  'exception; the smallest well-formed change of the same request is answered; and an object that refused requests then answers every other request exactly as before.',
  ['inputs', 'configurations', 'histories'],
  'Every kind of malformed request at every place it can stand (entry, argument, size, field), each against a well-formed sibling, and every ordered sequence of refusals up to a depth followed by all answers.',
  'Tests hardly call anything with malformed input, and never look at the object afterwards.',
  [COV, BASE, STR, MAP, PROB, CHK, GEN], [('validation of data', '_validate_data of the empirical covariances'), ('argument checks', CHK), ('shape tests', MAP)],
  ['exceptions of every public function and class', 'answers of the fitted objects afterwards'])

if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
