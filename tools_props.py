prop('P05', 'Moments, entropy and mode are those of the density',
     'For every continuous distribution the reported mean, variance, skewness, kurtosis, raw moments and entropy equal '
     'the integrals of the density to the working precision (inf or nan where the integral diverges), and the reported '
     'mode is a point of the support at which the density has its maximum.',
     ['inputs', 'configurations'], 'all admissible parameters, all moment orders, all working precisions',
     'Closed forms switch between branches at particular parameters and lose all digits near removable '
     'singularities; a test checks one or two parameter values.',
     [D + '*.py'], [('mean, var, skewness, kurtosis, noncentral_moment, entropy, mode', D + '<name>.py')],
     'parameter lattice and sweeps against a committed 38-digit quadrature table, raw moments up to order 6')
prop('P06', 'Likelihood functions and their derivatives are those of the density',
     'For every sample in the support and every admissible parameter set, the negative log-likelihood is minus the sum '
     'of the log density (or log mass) over the sample with its multiplicities, and the gradient, Hessian and inverse '
     'Hessian are its derivatives, to the working precision.',
     ['inputs', 'configurations'], 'all samples, counts, parameters and precisions',
     'Hand-derived sums are written separately from the density; a wrong term shows only for particular parameters '
     'or sample sizes, and derivatives are rarely tested off the default parameters.',
     [D + '*.py'], [('nll, nll_grad, nll_hess, nll_invhess', D + '<name>.py')],
     'every sample of an alphabet up to length 3 at every parameter of a lattice')
prop('P07', 'Maximum likelihood and moment estimates solve their defining problem',
     'Whenever an estimator returns, for any sample and any subset of parameters held fixed or given an initial value, '
     'the fixed parameters are returned unchanged, the estimate is admissible, and it is a stationary point (or boundary '
     'maximum) of the likelihood that no other admissible parameter on the explored grid improves on.',
     ['inputs', 'configurations'], 'all samples, all subsets of fixed parameters, all initial values and precisions',
     'Estimators have a separate code path per subset of fixed parameters and depend on root finders that converge for '
     'the tested data only; tests cover a few subsets and one sample each.',
     [D + '*.py'], [('mle, mom', D + '<name>.py'), ('isfixed, Initial, _findroot_positive', D + '_common.py')],
     'all subsets of fixed parameters x quantile samples x initial values; gradient and neighbourhood of the reference likelihood')
prop('P08', 'Likelihoods and estimates depend on the sample only as a multiset',
     'Reordering a sample, passing it as another kind of sequence or number, or replacing repeated values by counts '
     'changes neither the likelihood, its derivatives nor any estimate beyond rounding; values with count zero have no '
     'influence.',
     ['inputs', 'histories'], 'all permutations, count vectors and representations of all samples',
     'Order dependence and mishandled counts need a particular arrangement of the data (ties, an extreme value in first '
     'or last place, zero counts); a test uses one arrangement.',
     [D + '*.py', 'mpsci/stats/_basic.py'], [('nll, nll_grad, nll_hess, mle, mom, counts', D + '<name>.py'),
                                            ('unique_counts, mean', 'mpsci/stats/_basic.py')],
     'every permutation of every sample of up to four values, every count vector in {1,2,3}^k')
prop('P09', 'Calls leave no trace: precision context, arguments and later results',
     'Every call, whether it returns, raises or is interrupted at any point, leaves the caller\'s working precision and '
     'arguments as they were; and its result depends only on its arguments and the working precision, never on the calls '
     'made before or on what the caller does with earlier results.',
     ['histories', 'crash_points', 'inputs', 'configurations'],
     'all sequences of calls at all precisions, all exceptions and interruption points, all arguments',
     'Tests run each function once at one precision in a fixed context and look at the value only; a leaked precision, '
     'a stale cache entry or a shared result needs a second call, another precision or an exception at the right line.',
     ['mpsci/**/*.py'], [('extradps/workdps blocks', 'every module'),
                         ('cached support and pmf', D + 'fishers_noncentral_hypergeometric.py')],
     'explicit-state search over the mutable state; ordered pairs of calls at two precisions; an interruption at every source line of every call')
prop('P10', 'Results scale with the precision and depend on argument values only',
     'Every function returns its result to the working precision in force, whatever that precision is, and uses every '
     'argument exactly: Python integers, floats and multi-precision numbers of the same value, positional and keyword '
     'arguments, and omitted and explicitly given defaults all give the same result.',
     ['inputs', 'configurations'], 'all working precisions, all representations of all arguments, all call forms',
     'A literal or an intermediate value in double precision, a constant with too few digits or a parameter mishandled '
     'in one calling convention is invisible at the one precision, with the one type and short binary fractions that a test uses.',
     ['mpsci/**/*.py'], [('mp.mpf conversion and extradps of every function', 'every module')],
     'every public function x a ladder of precisions x every assignment of number types to its arguments x every call form')
prop('P11', 'Inadmissible parameters, probabilities, orders and data are rejected',
     'Every function of a distribution that restricts its parameters refuses, with a ValueError, every inadmissible '
     'parameter combination, every probability outside [0, 1], every negative moment order, every sample outside the '
     'support, every reversed interval, every inadmissible fixed parameter of an estimator and every invalid vector of counts, whatever the other arguments are, instead of returning a number.',
     ['inputs'], 'all inadmissible values of every argument, in combination with all other arguments',
     'Validation is repeated in every function and can be missing in one of them or bypassed by an early return for '
     'particular arguments; tests try a few functions.',
     [D + '*.py'], [('_validate_* helpers', D + '_common.py and ' + D + '<name>.py')],
     'every function x every parameter x inadmissible values next to and far from the boundary x arguments in and out of the support')
prop('P12', 'Descriptive statistics and tests are the exact values of their definitions',
     'Means of every kind and order, variances, correlations with their confidence intervals, analysis of variance and '
     'goodness-of-fit statistics with their p-values equal the exact value of their definition for the given numbers to '
     'the working precision, with and without weights, and impossible inputs are refused.',
     ['inputs', 'configurations'], 'all data sequences, weights, orders, alternatives and precisions',
     'Cancellation, double precision arithmetic on the data, zero and negative weights and limiting orders appear for '
     'particular data only; tests use a handful of benign samples.',
     ['mpsci/stats/*.py'], [('means, variances', 'mpsci/stats/_basic.py'), ('pearsonr', 'mpsci/stats/_pearsonr.py'),
                            ('anova', 'mpsci/stats/_anova.py'), ('chisquare, gtest', 'mpsci/stats/_goftests.py')],
     'every sequence over small alphabets of awkward numbers; rational arithmetic as the oracle')
prop('P13', 'Exact tests, odds ratios and intervals of 2x2 tables are right',
     'For every 2x2 table of counts and every alternative the exact test returns the exact hypergeometric tail '
     'probability, the conditional and the sample odds ratio solve their defining equations, and the confidence interval '
     'at every level has exactly the stated tail probabilities, including tables with empty cells and margins.',
     ['inputs', 'configurations'], 'all tables, alternatives, confidence levels and precisions',
     'Ties of probabilities, empty cells and margins and extreme levels are particular tables; all small tables can be '
     'enumerated, tests pick a few.',
     ['mpsci/stats/_fisher_exact.py', 'mpsci/stats/_odds_ratio.py'],
     [('fisher_exact', 'mpsci/stats/_fisher_exact.py'), ('odds_ratio', 'mpsci/stats/_odds_ratio.py')],
     'every 2x2 table up to a size plus large ones; integer combinatorics as the oracle')
prop('P14', 'Power transformations, inverses, likelihoods and estimates agree',
     'Each power transformation equals its definition to the working precision for every argument and exponent, '
     'continuously through the special exponents, its inverse undoes it, its log-likelihood is that of the transformed '
     'sample and its estimate maximises that likelihood.',
     ['inputs', 'configurations'], 'all arguments, exponents, samples and precisions',
     'The formulas cancel next to the special exponents and arguments and switch branches there; tests try a few values '
     'well inside a branch.',
     ['mpsci/stats/_boxcox.py', 'mpsci/stats/_yeojohnson.py', 'mpsci/stats/_boxcox_mle.py', 'mpsci/stats/_yeojohnson_mle.py',
      'mpsci/fun/_powm1.py', 'mpsci/fun/_xlogy.py'],
     [('boxcox, yeojohnson and inverses', 'mpsci/stats/_boxcox.py, _yeojohnson.py'), ('pow1pm1 and inverses', 'mpsci/fun/_powm1.py')],
     'complete products of arguments and exponents on both sides of every switching point')
prop('P15', 'Special functions equal their definitions over their domains',
     'Every special function equals its mathematical definition to the working precision over its whole domain, real '
     'and complex, with every method and option it offers; inverse functions invert, quadrature rules integrate '
     'polynomials exactly, and arguments outside the domain are refused.',
     ['inputs', 'configurations'], 'all arguments, orders, methods and precisions',
     'Branches, branch cuts, switching points of starting values and limits are particular arguments; tests sample a few.',
     ['mpsci/fun/*.py'], [('each function', 'mpsci/fun/_*.py')],
     'product lattices with both ends, switching points and complex values; independent series and integrals as the oracle')
prop('P16', 'Multivariate distributions give exact densities, moments and supports',
     'Densities, masses, supports, means, covariances and entropies of the multivariate distributions equal their '
     'definitions to the working precision for every dimension, parameter set and point, points outside the support have '
     'probability zero, and inadmissible arguments are refused.',
     ['inputs', 'configurations'], 'all dimensions, parameters, points and precisions',
     'Errors need particular dimensions, empty categories, boundary points or correlated scale matrices; tests use one or two cases each.',
     [D + 'dirichlet.py', D + 'multivariate_hypergeometric.py', D + 'multivariate_t.py'],
     [('pdf, pmf, support, mean, cov, entropy', D + '<name>.py')],
     'every small urn and every point of its box; product lattices; rational arithmetic as the oracle')
