"""Writes properties.jsonl and MANIFEST.json from one table (run by hand, not by checks)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
D = 'mpsci/distributions/'
PY = '/opt/venv/bin/python'
P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note, observe=None):
    P.append(dict(
        p=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
               why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                            **({'observe_at': observe} if observe else {}))),
        note=level_note))


TECH = ('bounded exhaustive exploration of the real code (explicit-state model checking): every state of a finite '
        'lattice is visited by calling the implementation and compared with an independent reference model')

prop('P01', 'Continuous densities are exact at the working precision',
     'For every continuous distribution, every admissible parameter set and every real x, the density and the log '
     'density agree with the mathematical definition to the working precision, are zero (log: minus infinity) '
     'outside the support, and the two are each other\'s exponential and logarithm.',
     ['inputs', 'configurations'],
     'all admissible parameters, all real x, all working precisions',
     'The domain is a continuum of shapes, locations, scales, arguments and precisions; the tests fix a handful of '
     'points, mostly at default location and scale, and cannot see a branch that is wrong elsewhere.',
     [D + '*.py'], [('pdf / logpdf of each module', D + '<name>.py')],
     'all points of the parameter lattice and axis sweeps, two precisions, 54 reference densities')
prop('P02', 'Distribution functions, tails and interval probabilities are exact',
     'For every continuous distribution the CDF is the integral of the density, the survival function is its '
     'complement (each accurate in its own tail), log variants are their logarithms, interval probabilities are '
     'differences, all lie in [0, 1], are monotone in x, and are 0 or 1 outside the reported support.',
     ['inputs', 'configurations'], 'all admissible parameters, all real x, all working precisions',
     'Monotonicity, complementarity and tail accuracy are statements about all x and all parameters; a test samples '
     'a few points and rarely the tails, the ends of the support or shifted and scaled versions.',
     [D + '*.py'], [('cdf, sf, logcdf, logsf, interval_prob, support', D + '<name>.py')],
     'lattice and axis sweeps, two precisions; reference CDFs are closed forms or committed quadrature tables')
prop('P03', 'Quantile functions invert the distribution functions',
     'For every probability in [0, 1] the quantile function returns a point of the support at which the CDF (or, for '
     'the complementary quantile, the survival function) takes that probability up to rounding; probabilities 0 and 1 '
     'give the ends of the support, quantiles are monotone and the median is the 1/2-quantile.',
     ['inputs', 'configurations'], 'all admissible parameters, all p in [0, 1], all working precisions',
     'Root finders with hand-picked brackets fail only for particular combinations of shape, scale and p; a test '
     'with a few p values in the bulk does not reach brackets, end points and tails.',
     [D + '*.py', 'mpsci/fun/_inv_reg_inc_beta.py'], [('invcdf, invsf, median', D + '<name>.py'),
                                                      ('bracket search', D + '_common.py:_find_bracket')],
     '27 probabilities including 0 and 1 per parameter point; backward error against the reference CDF')
prop('P04', 'Discrete distributions give exact probabilities, moments and modes',
     'For every discrete distribution and every admissible parameter set, mass, log mass, CDF, survival function, '
     'support, moments, entropy and mode agree with exact combinatorics to the working precision, for every integer '
     'argument inside and outside the support.',
     ['inputs', 'configurations'], 'all admissible integer and real parameters, all integers k, all precisions',
     'Errors hide in degenerate parameters, off-by-one ends of the support and particular relations between '
     'parameters; all small populations can be enumerated, tests pick a few.',
     [D + n + '.py' for n in ('binomial', 'betabinomial', 'hypergeometric', 'fishers_noncentral_hypergeometric',
                              'negative_hypergeometric', 'negative_binomial', 'poisson', 'logseries',
                              'trunc_discrete_exp', 'gauss_kuzmin')],
     [('pmf, logpmf, cdf, sf, support, support_pmf, mean, var, skewness, kurtosis, entropy, mode', D + '<name>.py')],
     'every integer parameter tuple up to a bound, every k; exact rational references')
exec(open(os.path.join(HERE, 'tools_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools_props.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for e in P:
        f.write(json.dumps(e['p']) + '\n')
man = dict(
    version=1,
    setup_cmd=f'{PY} -c "import mpmath, sys; sys.path.insert(0, \'/repo\'); import mpsci"',
    checks=[dict(property=e['p']['id'],
                 quick_cmd=f'{PY} run.py {e["p"]["id"]} --tier quick',
                 thorough_cmd=f'{PY} run.py {e["p"]["id"]} --tier thorough',
                 evidence_file=f'evidence/{e["p"]["id"]}.json',
                 technique=TECH, level='model_checking', level_note=e['note']) for e in P],
    not_applicable=[], notes='No hooks are needed: the checks call the public functions of /repo directly.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
