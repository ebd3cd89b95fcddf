NOTE = ('bounded: %s; arithmetic is exact real arithmetic (float rounding outside the claim); every path within the '
        'bounds is explored and every assertion on it decided by the solver')

P('P01', 'Lagrange-form proximal maps return the exact minimiser',
  'For every penalty given in Lagrange form (l1, sup, l2, positive part and its constrained and max variants) the '
  'proximal map applied to a point returns the unique minimiser of the penalised least-squares problem with the '
  'requested curvature, for every point, every nonnegative penalty level and every positive curvature. '
  'The argument is never modified, a level given in the call overrides the stored one, and the result does not '
  'depend on earlier calls.',
  'all points in R^1..R^3 (R^4 thorough), all penalty levels >= 0, all curvatures > 0',
  'tests compare a few random draws with another solver to loose tolerances; ties, zeros, boundary levels and '
  'exact minimality over all reals are not reachable by sampling',
  [SEM, 'regreg/atoms/projl1_cython.pyx', 'regreg/atoms/piecewise_linear.pyx'],
  [('lagrange_prox of each seminorm', SEM)],
  NOTE % 'dimension 1..3 quick, 1..4 thorough; 12 and 120 with numeric data and one free coordinate', observe=['lagrange_prox'])

P('P02', 'Bound-form proximal maps are exact Euclidean projections',
  'For every norm constraint the projection of a point on the ball of the given radius is feasible and is the closest '
  'feasible point, for every point and every nonnegative radius. The argument is never modified, a radius given in the '
  'call overrides the stored one, and the result does not depend on earlier calls.',
  'all points in R^1..R^3 (R^4 thorough), all radii >= 0',
  'tests project random Gaussian vectors only; ties, boundary points and degenerate radii are measure zero there',
  [SEM, 'regreg/atoms/projl1_cython.pyx', 'regreg/atoms/piecewise_linear.pyx'],
  [('bound_prox of each seminorm', SEM)],
  NOTE % 'dimension 1..3 quick, 1..4 thorough; 12 and 120 with numeric data and one free coordinate', observe=['bound_prox'])

P('P03', 'Proximal step of any atom solves its own quadratic problem',
  'For any combination of offset, attached quadratic and requested quadratic, the proximal step of a penalty, '
  'constraint or linear-composed atom returns the minimiser of the sum of all three parts, and the reported optimal '
  'value equals the objective there. Equivalent specifications of the same problem agree, and the two numbers reported as '
  'an optimality check (residual times solution, and norm of the solution) are those of the plain problem.',
  'all offsets, centres, linear terms, coefficients, levels and points in R^2 (R^3 for selected combinations); every '
  'combination of absent/zero/vector parts',
  'the test matrix samples some combinations with random numbers and compares solvers to 1e-2 style tolerances',
  ['regreg/atoms/__init__.py', SEM, 'regreg/problems/composite.py', 'regreg/identity_quadratic.py'],
  [('atom.proximal, apply_offset, latexify-free parts', 'regreg/atoms/__init__.py'),
   ('composite.proximal_optimum', 'regreg/problems/composite.py'),
   ('identity_quadratic algebra', 'regreg/identity_quadratic.py')],
  NOTE % 'dimension 2 and 3', over=('inputs', 'configurations'), observe=['proximal', 'proximal_optimum'])

P('P04', 'Conjugates satisfy Moreau and biconjugation identities',
  'The conjugate of an atom is its Fenchel conjugate: the value is correct at every point, the two proximal maps add '
  'up to the identity, and taking the conjugate twice gives back an equivalent atom. Smoothing an atom with a '
  'quadratic gives exactly the conjugate of its conjugate plus that quadratic. This holds with any offset, '
  'linear term and constant attached.',
  'all levels, offsets, linear terms, constants and points in R^1..R^2',
  'tests check the decomposition on random draws only for a few atom/offset combinations',
  [SEM, 'regreg/atoms/__init__.py', 'regreg/problems/composite.py'],
  [('get_conjugate and _work_out_conjugate', 'regreg/atoms/__init__.py')],
  NOTE % 'dimension 1..2', over=('inputs', 'configurations'), observe=['conjugate', 'proximal', 'nonsmooth_objective'])

P('P05', 'Atom values and feasibility match their definitions',
  'The value of an atom at a point is exactly the level times the norm of the shifted point plus the attached '
  'quadratic; indicators are zero on the feasible set and infinite clearly outside it. Copies, rebuilt atoms and '
  'atoms with changed level or bound report the value of what they now describe.',
  'all points, offsets, levels and quadratics in R^1..R^2 (R^3 thorough)',
  'tests only use values to compare solvers; they cannot cover boundary points or all sign patterns',
  [SEM, 'regreg/atoms/__init__.py'],
  [('seminorm, constraint, nonsmooth_objective', SEM)],
  NOTE % 'dimension 1..2 quick, 3 thorough, 12 and 120 with one free coordinate; feasibility left free within 1e-3 of the boundary',
  over=('inputs', 'configurations', 'histories'), observe=['nonsmooth_objective', 'seminorm', 'constraint'])

P('P06', 'Cones, epigraphs and linear constraints project exactly',
  'Projection on any supported cone, norm epigraph or linear subspace is feasible, is the closest point, and its '
  'residual lies in the polar set orthogonal to it; membership, conjugate (polar) and offset/quadratic handling agree '
  'with that geometry.',
  'all points of R^2..R^3 (epigraphs: 1-2 coefficients and the height, 3 in thorough)',
  'tests sample Gaussian points, which never lie on faces, edges or the apex of a cone',
  ['regreg/atoms/cones.py', 'regreg/atoms/linear_constraints.py', 'regreg/atoms/projl1_cython.pyx'],
  [('cone_prox of each cone', 'regreg/atoms/cones.py'),
   ('projection, projection_complement', 'regreg/atoms/linear_constraints.py')],
  NOTE % 'dimension 2..3; 13 and 121 with one free coordinate', over=('inputs', 'configurations'), observe=['cone_prox', 'constraint', 'conjugate'])

P('P07', 'Group lasso norm, dual and epigraphs are exact for any grouping',
  'For any assignment of coefficients to labelled groups and any group weights (default, custom, zero) the group '
  'penalty, its dual and their epigraphs report the correct value and their proximal maps return exact minimisers; '
  'changing one weight changes that group only. The screening rule keeps exactly the groups its definition keeps and '
  'the optimality check is quiet at optima and reports clear violations.',
  'all coefficients, levels and weights; label layouts with 1-3 groups, interleaved and unsorted labels',
  'tests use one fixed contiguous grouping with default weights and random data',
  ['regreg/atoms/group_lasso.py'],
  [('group_lasso, group_lasso_dual and epigraph atoms', 'regreg/atoms/group_lasso.py'),
   ('strong_set, check_KKT', 'regreg/atoms/group_lasso.py')],
  NOTE % '2-5 coefficients in 1-3 groups, many groups with one free coordinate; numeric weights for the ball projection with several groups',
  over=('inputs', 'configurations', 'histories'), observe=['lagrange_prox', 'bound_prox', 'cone_prox', 'seminorm'])

P('P08', 'Sparse group lasso penalties and duals are exact minimisers',
  'For the combination of an l1 and a group l2 penalty, on vectors with labelled groups and on matrices with one '
  'group per row, the reported value matches its definition, the penalty proximal map and the projection on the dual '
  'ball are exact, and penalty and dual are conjugate to each other. Zero l1 weights, zero group weights and changed '
  'levels (stored or given in the call) are honoured; the reported dual norm is the gauge of the dual ball.',
  'all coefficients and levels; layouts with 1-3 groups; rows of 2x1..2x2 matrices',
  'tests use one grouping with random data and never check exact minimality, zero weights or the dual norm',
  ['regreg/atoms/sparse_group_lasso.py', 'regreg/atoms/sparse_group_block.py'],
  [('lagrange_prox / bound_prox / seminorm / terms', 'regreg/atoms/sparse_group_lasso.py'),
   ('matrix version', 'regreg/atoms/sparse_group_block.py')],
  NOTE % '3-4 coefficients in 1-3 groups, many groups with one free coordinate; matrices up to 2x2 (3x2 thorough); numeric weights with several groups; the '
  'bisection gauge at most 2 doublings/halvings', over=('inputs', 'configurations'),
  observe=['lagrange_prox', 'bound_prox', 'seminorm', 'terms', 'conjugate'])

P('P09', 'Row-sum and row-max matrix norms decompose exactly',
  'A matrix norm built as the sum or the maximum over rows of a vector norm reports that value, keeps its level or '
  'bound, and its proximal map or projection is the exact minimiser over the whole matrix, with any offset, zero rows '
  'and attached quadratic. Sum and max versions are dual to each other.',
  'all matrices of the stated shapes, all levels, offsets and quadratics',
  'tests use random full matrices (no zero or tied rows) and loose solver comparisons',
  ['regreg/atoms/block_norms.py'], [('block_sum, block_max and named subclasses', 'regreg/atoms/block_norms.py')],
  NOTE % 'matrices 2x1, 2x2, 3x1 (3x2 and 1x3 thorough), many rows with one free entry', over=('inputs', 'configurations'),
  observe=['lagrange_prox', 'bound_prox', 'seminorm', 'conjugate'])

P('P10', 'Mixed penalties treat every coefficient by its own rule',
  'When l1, positive-part, nonnegative, unpenalised and grouped coefficients are mixed in one penalty, its value, '
  'feasibility, proximal map, dual projection, conjugate, screening rule and optimality check agree with applying to '
  'every coefficient or group the rule it was assigned, for any interleaving. Inputs are not modified and results are '
  'not tied to internal buffers.',
  'all coefficients, levels, offsets and quadratics; layouts with 2-6 coefficients of mixed kinds',
  'tests use contiguous layouts with random data; zeros, ties and interleavings are not reached',
  ['regreg/atoms/mixed_lasso.py', 'regreg/atoms/mixed_lasso_cython.pyx'],
  [('mixed_lasso, mixed_lasso_dual', 'regreg/atoms/mixed_lasso.py'),
   ('ball, epigraph and lagrange kernels', 'regreg/atoms/mixed_lasso_cython.pyx')],
  NOTE % '2-6 coefficients, 14-15 with one free coefficient; group weights symbolic for one group, numeric otherwise',
  over=('inputs', 'configurations'), observe=['lagrange_prox', 'proximal', 'constraint', 'conjugate'])

P('P12', 'Special quadratics form a consistent algebra',
  'Adding, collapsing, recentring, slicing, copying or conjugating a quadratic of the form scaled identity plus '
  'linear plus constant preserves the function it represents, for every combination of absent, zero and vector parts. '
  'Operands are never changed.',
  'all coefficients, centres, linear terms and constants in R^2 (R^3 thorough), every presence pattern',
  'tests enumerate a handful of numeric cases',
  ['regreg/identity_quadratic.py'],
  [('identity_quadratic', 'regreg/identity_quadratic.py')],
  NOTE % 'dimension 2 and 3', over=('inputs', 'configurations'), observe=['objective', '__add__', 'recenter', 'conjugate'])

GLM = 'regreg/smooth/glm.py'
SMO = [GLM, 'regreg/smooth/mglm.py', 'regreg/smooth/binary.py', 'regreg/smooth/losses.py', 'regreg/smooth/cox.py',
       'regreg/smooth/cox_utils.pyx', 'regreg/smooth/cox_fns.c']

P('P13', 'Loss values and gradients are exactly those of the stated model',
  'Each built-in loss (Gaussian, Poisson, binomial with logit, probit or complementary log-log link, Huber, Huberized '
  'SVM, multinomial, Cox and stacked losses) reports the weighted negative log-likelihood, up to its fixed constant, '
  'of the data at the linear predictor, and as gradient the exact derivative of that value. This holds for every '
  'predictor, response, offset, scale, case weight and design; a given quadratic and starting point are kept, and '
  'evaluating does not modify any argument.',
  'all predictors/coefficients (bounded where the code switches to an asymptotic form), all responses, weights and '
  'offsets, 2-3 observations, dense and sparse designs',
  'tests check a few random points against finite differences or other implementations to loose tolerances',
  SMO,
  [('smooth_objective of every loss', GLM), ('Cox partial likelihood kernels', 'regreg/smooth/cox_fns.c')],
  NOTE % '2-3 and 12 observations, 2 coefficients; counts/trials/event orderings numeric; exp, log and the normal '
  'distribution function uninterpreted with their derivative and ordering laws',
  over=('inputs', 'configurations'), observe=['smooth_objective'])

P('P14', 'Loss Hessians are exactly the second derivatives',
  'The Hessian a loss reports, on its own or through a design, is the derivative of its gradient (the expected '
  'information where that is what is documented), for every point, offset, scale and case weights and for dense and '
  'sparse designs. Products with the Hessian equal multiplication by it.',
  'all predictors/coefficients, weights, offsets and designs with 2-3 observations and 2 coefficients',
  'tests only check shapes or compare a single random Hessian',
  SMO, [('hessian, hessian_mult', GLM), ('Cox Hessian kernel', 'regreg/smooth/cox_fns.c')],
  NOTE % '2-3 and 12 observations (Cox 8), 2 coefficients; counts/trials/event orderings numeric', over=('inputs', 'configurations'),
  observe=['hessian', 'hessian_mult'])

P('P15', 'Subsampled, copied and re-fed losses describe the right data',
  'Subsampling a loss gives the loss of the kept observations with their weights, in any index form and repeatedly, '
  'and complementary subsamples of independent observations add up to the whole. Copies have the same value and share no state '
  'with the original, giving a loss new data replaces the old data completely, and neither evaluations nor subsamples '
  'change the original.',
  'all predictors, responses and weights for 3 observations; index lists, masks, slices, repeats and empty sets',
  'tests construct a subsample and check that solving does not raise',
  SMO, [('subsample, __copy__, set_data', GLM)],
  NOTE % '3 observations (12 for the losses themselves), 2 coefficients', over=('inputs', 'configurations', 'histories'),
  observe=['subsample', '__copy__', 'data'])

AFF = 'regreg/affine/__init__.py'
P('P16', 'Linear operators, their adjoints and offsets are consistent',
  'Every affine map, however it is built, wrapped, stacked, summed or composed, acts as one fixed matrix plus one fixed '
  'offset: the linear part applies the matrix, the adjoint its transpose, the affine map adds the offset, and shapes '
  'and reported offset agree with them. Normalisation, differencing, multiscale (and its statistic), grid, edge and image operators have the matrix '
  'they document. Arguments are not modified and results already returned do not change.',
  'all arguments and matrix entries (sparse and difference operators: listed entries) up to 3x3 and all nestings of two '
  'constructions',
  'tests check the adjoint of a few operators at random points; nested constructions, offsets and repeated calls are not '
  'covered',
  [AFF, 'regreg/affine/block_maps.py', 'regreg/affine/fused_lasso.py', 'regreg/affine/multiscale.py',
   'regreg/affine/image2d.py', 'regreg/affine/factored_matrix.py', 'regreg/atoms/__init__.py'],
  [('affine_transform and the constructions built on it', AFF), ('composed penalties', 'regreg/atoms/__init__.py')],
  NOTE % 'matrices up to 3x3 and, in part, 12x12, nestings of two constructions; iterative partial SVD not covered',
  over=('inputs', 'configurations', 'histories'), observe=['linear_map', 'affine_map', 'adjoint_map'])

QF = 'regreg/smooth/quadratic.py'
P('P17', 'Quadratic losses, compositions, sums and smooth conjugates are exact',
  'A quadratic loss, a loss composed with an affine map, a weighted sum of losses, and the smooth conjugate of a penalty '
  'with a quadratic term each report exactly the value and gradient of the function they stand for, in every evaluation '
  'mode. Quadratic terms attached to any of them count in the full objective, conjugates satisfy Fenchel equality at '
  'gradients, a factorised matrix is inverted exactly, and negative scales or weights are refused. Evaluating modifies neither arguments nor earlier results.',
  'all points, matrices, offsets, scales, weights and attached quadratics in dimension 2-3',
  'tests evaluate or solve with a few random instances, almost always without attached quadratics',
  [QF, 'regreg/smooth/__init__.py', 'regreg/problems/composite.py'],
  [('quadratic_loss', QF), ('affine_smooth and sum', 'regreg/smooth/__init__.py'),
   ('smooth_conjugate', 'regreg/problems/composite.py')],
  NOTE % 'dimension 2-3; five penalties for the smooth conjugate', over=('inputs', 'configurations'),
  observe=['smooth_objective', 'get_conjugate', 'objective'])

PR = 'regreg/problems/'
P('P18', 'Problem objects pose and combine exactly the stated problem',
  'A problem built from losses, penalties, composed or separable penalties and quadratic terms has, however it is '
  'assembled (single penalty, container, separable, dual, conjugate, or a stage of a smoothing scheme), exactly the stated '
  'objective, gradient and proximal map, and that is what it hands to the iterative solver. The reported solution and '
  'optimal value belong to that problem, a primal solution recovered from a dual one satisfies the optimality conditions, '
  'and solving leaves the problem as it was.',
  'all data, offsets, weights, quadratics, points and solver answers in dimension 1-3 with one to three terms',
  'tests compare final solutions of a few random problems to loose tolerances, almost never with quadratic terms attached',
  [PR + 'simple.py', PR + 'container.py', PR + 'separable.py', PR + 'dual_problem.py', PR + 'conjugate.py', PR + 'composite.py'],
  [('simple_problem, gengrad, nesta, tfocs', PR + 'simple.py'), ('container', PR + 'container.py'),
   ('separable', PR + 'separable.py'), ('dual_problem', PR + 'dual_problem.py')],
  NOTE % 'dimension 1-3; the iterative solver is replaced by an arbitrary answer (its own steps are a separate property)',
  over=('inputs', 'configurations', 'histories'), observe=['objective', 'proximal', 'solve'])

P('P19', 'Iterative solvers take exactly the steps of the stated algorithm',
  'For every objective, the accelerated proximal gradient solver takes its steps at the stated working point with the '
  'stated step size, accepts a step only under its majorisation test, extrapolates, restarts and stops as documented and '
  'as its options say, and records the true objective values; on real problems the objective does not increase and an '
  'optimum is left alone. One round of ADMM minimises the augmented Lagrangian, including any quadratic term and for '
  'transforms of any shape, and updates the multipliers; one quasi-Newton step minimises the stated local model, searches '
  'along it and makes a secant update.',
  'all objective values, gradients and proximal answers along up to three iterations; all data of small quadratic problems',
  'tests compare final solutions to loose tolerances and never use restart, non-accelerated mode, offsets, quadratics or '
  'non-symmetric transforms',
  ['regreg/algorithms.py', PR + 'admm.py', PR + 'newton.py', PR + 'composite.py'],
  [('FISTA.fit, backtrack, update_working_coefs', 'regreg/algorithms.py'), ('admm_problem', PR + 'admm.py'),
   ('quasi_newton', PR + 'newton.py'), ('smooth.solve, smooth.proximal', PR + 'composite.py')],
  NOTE % 'one or two coefficients; up to three iterations with up to two step reductions; convergence to the optimum in '
  'the limit is outside; scipy\'s line search is replaced by an arbitrary step',
  over=('inputs', 'configurations', 'histories'), observe=['fit', 'solve', 'objective_hist', 'coefs'])

W = 'regreg/atoms/'
P('P11', 'Weighted, sorted and simplex penalties are exact',
  'Weighted absolute-value and maximum norms (with zero weights leaving a coordinate free or fixed), the sorted-weight norm '
  'and its dual, the simplex, the maximum function and isotonic regression each compute exactly the value, feasibility, '
  'proximal map, projection, dual and affine composition of the function they stand for (where implemented), at every point and with offsets '
  'and quadratic terms. Piecewise-linear search kernels return the stated root.',
  'all points, levels, Lipschitz constants and offsets in dimension 2-3 with listed weights',
  'tests use random points without ties, zero weights or offsets and compare solvers to loose tolerances',
  [W + 'weighted_atoms.py', W + 'slope.py', W + 'simplex.py', W + '_isotonic_py.py',
   W + 'piecewise_linear.pyx'],
  [('weighted norms', W + 'weighted_atoms.py'), ('slope', W + 'slope.py'), ('simplex, maximum', W + 'simplex.py'),
   ('find_solution_piecewise_linear', W + 'piecewise_linear.pyx')],
  NOTE % 'dimension 2-3, listed weights; isotonic regression of scikit-learn enters by its max-min definition; the bound form '
  'of the sorted-weight norm is documented as unimplemented',
  over=('inputs', 'configurations'), observe=['lagrange_prox', 'bound_prox', 'seminorm', 'constraint'])

P('P20', 'Regularisation paths solve and certify the stated problems',
  'Along a path of penalty levels, each inner problem handed to the solver is the stated elastic-net penalised problem '
  'restricted to the stated coefficients, with unpenalised ones always kept; the screening rule keeps exactly the coefficients '
  'it defines, and a level is accepted only if its solution passes the optimality test on all coefficients. The optimality '
  'test is silent at optima and names violations beyond its tolerance. Level grids, warm starts, subsampling, '
  'cross-validation splits and constructors are as documented and leave their inputs alone.',
  'all gradients, solutions, solver answers and levels of small designs for five kinds of penalty structure',
  'tests run whole paths on random data and compare to loose tolerances, never with unpenalised coefficients violated or '
  'with the checks failing',
  ['regreg/paths/__init__.py', 'regreg/paths/lasso.py', 'regreg/paths/group_lasso.py', 'regreg/paths/sparse_group_lasso.py', 'regreg/paths/sparse_group_block.py',
   'regreg/paths/basil.py', 'regreg/paths/cross_validate.py'],
  [('lasso_path', 'regreg/paths/lasso.py'), ('strong_rules, warm_start', 'regreg/paths/__init__.py'), ('basil', 'regreg/paths/basil.py')],
  NOTE % 'two to four coefficients, two or three observations, up to three levels and three inner solves; the inner solver is '
  'replaced by an arbitrary answer; mixed_lasso_path cannot be run and is outside',
  over=('inputs', 'configurations', 'histories'), observe=['subproblem', 'check_KKT', 'strong_set', 'path'])

P('P21', 'Spectral norms, their epigraphs and factored matrices are exact',
  'The nuclear and operator norms, in plain and factored form, compute the value, proximal map, projection, dual and epigraph '
  'projection determined by the singular values of their argument, for matrices of any orientation and with offsets and '
  'quadratic terms. A factored matrix acts, transposes, copies and multiplies as the matrix and offset it stands for.',
  'all singular values and levels of small matrices with listed singular vectors, all entries of factored operators',
  'tests use square random matrices and compare solvers to loose tolerances',
  [W + 'svd_norms.py', 'regreg/affine/factored_matrix.py'],
  [('nuclear_norm, operator_norm', W + 'svd_norms.py'), ('factored_matrix', 'regreg/affine/factored_matrix.py')],
  NOTE % 'matrices up to 3x2; the singular value decomposition enters by its definition with listed orthonormal bases; the random '
  'iterative decomposition itself is outside',
  over=('inputs', 'configurations'), observe=['lagrange_prox', 'bound_prox', 'seminorm', 'linear_map'])

SK = 'regreg/sklearn/'
P('P22', 'Estimators fit, predict and score the stated model',
  'An estimator solves exactly the stated problem: the named loss of the response, case-weight and offset columns it was told '
  'to expect, scaled as asked, plus the constructed penalty with its elastic-net share, from the given start and options. '
  'Predictions, labels, class probabilities and scores (deviance, mean deviance, R2, accuracy, with sample weights) are those of '
  'the fitted coefficients. Fitting and scoring leave the data alone and a clone behaves as its original.',
  'continuous responses, case and sample weights, offsets, scalings, levels and solutions; eight losses, four kinds of estimator',
  'tests run cross-validation and print the scores without looking at them',
  [SK + f for f in ('base.py', 'gaussian.py', 'huber.py', 'huber_svm.py', 'logistic.py', 'probit.py', 'cloglog.py', 'cox.py', 'multinomial.py')],
  [('base_mixin, lagrange_mixin', SK + 'base.py'), ('sklearn_logistic', SK + 'logistic.py'), ('sklearn_multinomial', SK + 'multinomial.py')],
  NOTE % 'two or three observations with two listed features; the inner solver is replaced by an arbitrary answer; not claimed: '
  'estimators with the unpenalized flag, multinomial offsets, R2 of the smoothed hinge, overflow of probabilities',
  over=('inputs', 'configurations'), observe=['fit', 'predict', 'predict_proba', 'score'])

P('P23', 'Integer typed data and array views mean just their numbers',
  'Values, gradients, Hessians, proximal maps, projections, feasibility tests and linear transforms give, for integer typed points, designs, '
  'responses or weights and for transposed, reversed or strided views, exactly what they give for a fresh array of reals with '
  'the same entries. The data handed over are left unchanged. Nothing is truncated and nothing is refused.',
  'all entries of small vectors and matrices, all levels; every penalty, cone, transform and loss',
  'tests draw contiguous Gaussian arrays only; truncation of integers or a write through a view never shows',
  [SEM, W + 'cones.py', W + 'group_lasso.py', W + 'block_norms.py', W + 'svd_norms.py', W + 'weighted_atoms.py', W + 'simplex.py', W + 'mixed_lasso.py',
   'regreg/affine/__init__.py', 'regreg/smooth/glm.py', 'regreg/smooth/cox.py', 'regreg/smooth/mglm.py'],
  [('proximal maps', SEM), ('cone_prox', W + 'cones.py'), ('smooth_objective', 'regreg/smooth/glm.py')],
  NOTE % 'three to seven entries, one or two of them symbolic at a time (integers in [-4,4] or reals), numeric integer designs with three observations; '
  'integer arrays are modelled by storing the integer part and refusing in-place operations with a real result',
  over=('inputs', 'configurations'), observe=['lagrange_prox', 'bound_prox', 'cone_prox', 'smooth_objective', 'linear_map'])
