"""P11  Inadmissible parameters, probabilities, orders and data are rejected."""
from itertools import product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import inventory, dist, fn_of, num
from ..ref import alphabet
from ..ref.cont import DISTS

ID = 'P11'
LEVEL = 'model_checking'
# kind of each parameter: + positive, n nonnegative, r real, c in [0,1], u in (0,1], i nonnegative integer
KIND = {
    'argus': 'n+', 'benini': '+++', 'benktander1': '++', 'benktander2': '+u', 'beta': '++', 'betabinomial': 'i++',
    'betaprime': '+++', 'binomial': 'ic', 'burr12': '+++', 'cauchy': 'r+', 'chi': '+', 'chi2': '+', 'exponweib': '+++', 'f': '++',
    'folded_normal': 'r+', 'gamma': '++', 'gamma_gompertz': '+++', 'genexpon': '+++r+', 'genextreme': 'rr+',
    'genhyperbolic': 'r+rr+', 'geninvgauss': 'r+r+', 'genpareto': 'rr+', 'gompertz': '++', 'gumbel_max': 'r+',
    'gumbel_min': 'r+', 'half_logistic': 'r+', 'hypergeometric': 'iii', 'hypsecant': 'r+', 'invchi2': '+', 'invgamma': '+r+',
    'invgauss': '+r+', 'kumaraswamy': '++', 'laplace': 'r+', 'levy': 'r+', 'loggamma': '++', 'logistic': 'r+',
    'loglogistic': '++', 'lognormal': 'r+', 'logseries': 'c', 'maxwell': 'r+', 'nakagami': '+r+', 'negative_binomial': '+c',
    'negative_hypergeometric': 'iii', 'normal': 'r+', 'pareto': '+r+', 'poisson': '+', 'power_normal': '+r+',
    'rel_breitwigner': '++', 'rice': 'n+', 'studentt': '+', 'trunc_discrete_exp': 'ni', 'truncnorm': 'rr',
    'tukeylambda': 'rr+', 'uniform': 'rr', 'weibull_max': '+r+', 'weibull_min': '+r+'}
# functions whose value does not depend on the parameters need not look at them
CONSTANT = {('kumaraswamy', 'support'), ('logseries', 'support'), ('negative_binomial', 'support'),
            ('trunc_discrete_exp', 'mode'), ('benktander2', 'mode')}
PFREE = {'slash', 'cosine', 'gauss_kuzmin'}
REALN = {'benini', 'exponweib'}        # moments of real order are supported there
# (low, high, strict) support of data that the likelihood functions must enforce
DATA = {
    'benini': (2, None), 'benktander1': (1, None), 'benktander2': (1, None), 'beta': (0, 1), 'betabinomial': (0, 9),
    'betaprime': (0, None), 'binomial': (0, 10), 'burr12': (0, None), 'gamma': (0, None), 'genpareto': (1, None),
    'gompertz': (0, None), 'kumaraswamy': (0, 1), 'lognormal': (0, None), 'logseries': (1, None), 'nakagami': (0, None),
    'negative_binomial': (0, None), 'pareto': (3, None), 'poisson': (0, None), 'weibull_min': (0, None), 'weibull_max': (None, 1)}

ASSUMPTIONS = ['a rejection is a ValueError (for a moment order that is not an integer also a TypeError)',
               'modules that document no restriction (ncf, nct, ncx2, vonmises and the multivariate ones) are not '
               'covered; functions that do not depend on the parameter are exempt (CONSTANT)']


def bounds(tier):
    return ('every distribution that restricts its parameters, every function, every single inadmissible parameter '
            '(4-6 inadmissible values each, including values next to the boundary) combined with 2 values of the other '
            'parameters and, where there is an argument, 5 arguments inside and outside the support; joint constraints; '
            'probabilities, moment orders, data and counts outside their range')


def units(tier):
    return sorted(KIND) + ['p', 'order', 'data', 'counts', 'joint', 'interval', 'fixed', 'integer']


def required_classes(tier):
    return ['parameter', 'probability', 'moment order', 'data', 'counts', 'joint', 'interval', 'fixed parameter', 'integer data'] + ['dist ' + n for n in KIND]


E30 = 2.0**-30
BADV = {'+': [0, -E30, -1, -2.5, -1e6], 'n': [-E30, -1, -2.5, -1e6], 'c': [-E30, -1, 1 + E30, 2.5],
        'u': [0, -E30, -1, 1 + E30, 2.5], 'i': [-1, -3, 2.5, 0.5], 'r': []}


def rejected(v, types=('ValueError',)):
    return isinstance(v, Raised) and v.type in types


def calls(name):
    """(function, leading argument lists, takes parameters)"""
    for fn in inventory()['distributions'][name]:
        if fn in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf', 'pmf', 'logpmf'):
            x = alphabet.xval(name)
            if name in alphabet.MU['dist']:
                yield fn, [(x,), (0,), (-1,), (100,)]
            else:
                yield fn, [(x,), (-1000.5,), (0,), (0.5,), (1000.5,)]
        elif fn in ('invcdf', 'invsf'):
            yield fn, [(0.375,), (0,), (1,)]
        elif fn == 'noncentral_moment':
            yield fn, [(0,), (1,), (2,)]
        elif fn == 'interval_prob':
            yield fn, [(0.25, 0.75)]
        elif fn in ('nll', 'nll_grad', 'nll_hess', 'nll_invhess'):
            yield fn, [(alphabet.data(name),)]
        elif fn in ('mle', 'mom', 'invcdf_k', 'invsf_k', 'circmean', 'circvar'):
            continue
        else:
            yield fn, [()]


def others(name):
    base = alphabet.params(name)
    out = [base]
    if name in alphabet.PAR2:
        out.append(alphabet.PAR2[name])
    return out


def run_unit(unit, tier):
    u = Unit(unit)
    if unit in KIND:
        params(u, unit)
    else:
        {'p': probs, 'order': order, 'data': data, 'counts': counts, 'joint': joint,
         'interval': interval, 'fixed': fixed, 'integer': integer}[unit](u)
    return u


def attempt(u, name, fn, lead, par, what, types=('ValueError',), kw=None):
    mod = dist(name)
    if name == 'pareto' and fn == 'var':
        v = call(fn_of(mod, fn), *lead, par[0], dps=15, loc=par[1], scale=par[2])
    else:
        v = call(fn_of(mod, fn), *lead, *par, dps=15, **(kw or {}))
    u.step()
    u.cover(what)
    if not rejected(v, types):
        u.fail(f'{name}.{fn}{lead + tuple(par)}' + (f' {kw}' if kw else ''), f'inadmissible {what} not rejected', got=v)


def params(u, name):
    kinds = KIND[name]
    u.cover('dist ' + name)
    for fn, leads in calls(name):
        if (name, fn) in CONSTANT:
            continue
        u.trace()
        for par in others(name):
            for i, k in enumerate(kinds):
                for w in BADV[k]:
                    q = par[:i] + (w,) + par[i + 1:]
                    u.state()
                    for lead in leads:
                        attempt(u, name, fn, lead, q, 'parameter')
        u.sample(f'{name}.{fn}: inadmissible parameters')


def probs(u):
    for name, fns in inventory()['distributions'].items():
        if name not in KIND and name not in PFREE:
            continue
        for fn in ('invcdf', 'invsf'):
            if fn in fns:
                u.trace()
                for par in others(name):
                    for p in (-2.0**-60, -E30, -1, 1 + 2.0**-50, 1 + E30, 2, 1e6, -1e6):
                        attempt(u, name, fn, (p,), par, 'probability')
    for fn in ('invcdf_k', 'invsf_k'):
        for p in (-2.0**-60, -1, 1 + 2.0**-50, 2):
            attempt(u, 'chi2', fn, (2.5, p), (), 'probability')


def order(u):
    for name, fns in inventory()['distributions'].items():
        if 'noncentral_moment' in fns and name not in REALN:
            u.trace()
            for par in others(name):
                for n in (-1, -2, -7):
                    attempt(u, name, 'noncentral_moment', (n,), par, 'moment order')
                for n in (0.5, 2.5, -1.5):
                    attempt(u, name, 'noncentral_moment', (n,), par, 'moment order', ('ValueError', 'TypeError'))


def data(u):
    for name, (lo, hi) in DATA.items():
        fns = inventory()['distributions'][name]
        good = alphabet.data(name)
        if name == 'pareto':
            good = [3.5, 4.5, 9, 5]
        if name == 'genpareto':
            good = [2.5, 4, 3.25, 7]
        par = alphabet.params(name)
        bads = []
        disc = name in alphabet.MU['dist']
        step = [1, 5] if disc else [E30, 0.5, 1000]
        if lo is not None:
            bads += [lo - s for s in step]
        if hi is not None:
            bads += [hi + s for s in step]
        for b in bads:
            for pos in (0, len(good)//2, len(good)):
                x = good[:pos] + [b] + good[pos:]
                if 'nll' in fns:
                    u.trace()
                    attempt(u, name, 'nll', (x,), par, 'data')
                if name == 'gamma':
                    attempt(u, name, 'nll_grad', (x,), par, 'data')
                if 'mle' in fns and name not in ('genpareto', 'pareto', 'weibull_min', 'weibull_max', 'nakagami', 'benini'):
                    attempt(u, name, 'mle', (x,), (), 'data', kw=alphabet.MLEKW.get(name, {}))
                if 'mle' in fns and name in ('weibull_min', 'nakagami', 'weibull_max'):
                    attempt(u, name, 'mle', (x,), (), 'data', kw=dict(loc=lo if lo is not None else hi))


    # data beyond the upper end of the support, where it depends on the parameters
    for xi, mu, sigma in ((-0.5, 1, 3), (-2, 0, 1), (-1, -3, 0.25), (-2.0**-20, 0, 1)):
        top = mu - sigma/xi
        for b in (top + abs(top)*E30 + E30, top + 1, 1000*abs(top) + 1000):
            for pos in (0, 1, 2):
                x = [mu + (top - mu)/4, mu + (top - mu)/2]
                x.insert(pos, b)
                u.trace()
                attempt(u, 'genpareto', 'nll', (x,), (xi, mu, sigma), 'data')


def counts(u):
    for name in ('betabinomial', 'binomial', 'logseries', 'negative_binomial', 'poisson'):
        fns = inventory()['distributions'][name]
        good = alphabet.data(name)
        par = alphabet.params(name)
        n = len(good)
        bads = [[1]*(n - 1), [1]*(n + 1), [1]*(n - 1) + [-1], [-1] + [1]*(n - 1), [1]*(n - 1) + [0.5], [1.5]*n, []]
        for c in bads:
            u.trace()
            attempt(u, name, 'nll', (good,), par, 'counts', kw=dict(counts=c))
            if 'mle' in fns:
                attempt(u, name, 'mle', (good,), (), 'counts', kw=dict(counts=c, **alphabet.MLEKW.get(name, {})))


def joint(u):
    for name, pars in {'truncnorm': [(2, 1), (1, 1), (0, -1), (1 + E30, 1)], 'uniform': [(2, 1), (1, 1), (0, -1), (1 + E30, 1)],
                       'genhyperbolic': [(1, 2, 2, 0, 1), (1, 2, -2, 0, 1), (1, 2, 2.5, 0, 1), (1, 2, -3, 0, 1), (1, 0.5, 0.5 + E30, 0, 1)],
                       'benktander1': [(2, 3 + E30), (2, 4), (1, 1.5), (0.5, 0.5)],
                       'hypergeometric': [(10, 11, 3), (10, 3, 11), (0, 1, 0), (5, 6, 6)],
                       'negative_hypergeometric': [(10, 11, 3), (10, 8, 3), (5, 5, 1)]}.items():
        for fn, leads in calls(name):
            u.trace()
            for par in pars:
                u.state()
                for lead in leads:
                    attempt(u, name, fn, lead, par, 'joint')


def interval(u):
    """An interval whose ends are exchanged; inverses with respect to a parameter at a point outside the support."""
    E = mp.mpf(2)**-40
    for name, fns in inventory()['distributions'].items():
        if 'interval_prob' in fns:
            u.trace()
            for par in others(name):
                for a, b in ((0.75, 0.5), (0.5, 0.5 - E), (E, 0), (1, 1 - E), (1000, -1000), (2, 1), (-1, -2), (1e-300, 0)):
                    u.state()
                    attempt(u, name, 'interval_prob', (mp.mpf(a), mp.mpf(b)), par, 'interval')
    for fn in ('invcdf_k', 'invsf_k'):
        for x in (0, -E30, -1, -1e6):
            for p in (0, 0.25, 1):
                u.state()
                attempt(u, 'chi2', fn, (x, p), (), 'interval')


def fixed(u):
    """A parameter fixed in an estimator at an inadmissible value, alone and with every other parameter fixed too."""
    for name, fns in inventory()['distributions'].items():
        if name not in KIND or 'mle' not in fns:
            continue
        names = fns['pdf' if 'pdf' in fns else 'pmf'][1:][:len(KIND[name])]
        base = dict(zip(names, alphabet.params(name)))
        sig = fns['mle'][1:]
        for i, q in enumerate(names):
            if q not in sig:
                continue
            u.trace()
            rest = [r for r in names if r in sig and r != q]
            for w in BADV[KIND[name][i]]:
                for k in range(2**len(rest)):
                    kw = dict(alphabet.MLEKW.get(name, {}))
                    kw.update({r: base[r] for j, r in enumerate(rest) if k >> j & 1})
                    kw[q] = w
                    u.state()
                    attempt(u, name, 'mle', (alphabet.data(name),), (), 'fixed parameter', kw=kw)


def integer(u):
    """Observations of a discrete distribution that are not integers."""
    for name in alphabet.MU['dist']:
        fns = inventory()['distributions'].get(name, {})
        if name not in KIND:
            continue
        good = list(alphabet.data(name))
        for fn in ('nll', 'mle'):
            if fn not in fns:
                continue
            u.trace()
            for pos in range(len(good)):
                for frac in (0.5, 2.0**-30, 1 - 2.0**-30):
                    u.state()
                    x = good[:pos] + [good[pos] + frac] + good[pos + 1:]
                    attempt(u, name, fn, (x,), alphabet.params(name) if fn == 'nll' else (), 'integer data',
                            kw={} if fn == 'nll' else alphabet.MLEKW.get(name, {}))
