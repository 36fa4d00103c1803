"""
The operation alphabet: one or more concrete calls of every public function.
An operation is (label, path, args, kwargs); all numbers are ints and exact
binary floats so that every representation denotes the same value.
"""
import importlib
from ..util import inventory
from .sweep import SPEC

SCALEPARAM = ('scale', 'sigma', 'theta')
MU = {'dist': {
    'binomial': (10, 0.375), 'betabinomial': (9, 1.5, 2), 'poisson': (2.5,), 'logseries': (0.375,),
    'negative_binomial': (3, 0.375), 'hypergeometric': (16, 8, 10), 'negative_hypergeometric': (16, 8, 3),
    'fishers_noncentral_hypergeometric': (2.5, 16, 8, 10), 'trunc_discrete_exp': (0.5, 7), 'gauss_kuzmin': ()}}
PAR2 = {'beta': (0.75, 5), 'gamma': (7.5, 0.125), 'normal': (-3, 0.5), 'binomial': (7, 0.5), 'poisson': (40,),
        'fishers_noncentral_hypergeometric': (0.25, 16, 8, 10), 'weibull_min': (0.75, -2, 3), 'genpareto': (-0.5, 0, 1),
        'genextreme': (-0.5, 0, 1), 'hypergeometric': (12, 3, 10), 'studentt': (7.5,), 'chi2': (9,)}
X = {'pos': 3.5, 'real': 0.5, 'unit': 0.375, 'one': 4.5}
XOF = {'argus': 1.25, 'benini': 4.5, 'benktander1': 2.5, 'benktander2': 2.5, 'cosine': 0.75, 'genpareto': 2.5, 'pareto': 4.5,
       'weibull_max': -1.5, 'truncnorm': 0.375, 'uniform': 0.375, 'rel_breitwigner': 4.5, 'half_logistic': 3.5}
DATA = {'pos': [2.5, 4, 3.25, 7], 'real': [0.5, -1.5, 2, 4.25, 0.75], 'unit': [0.25, 0.5, 0.125, 0.75], 'one': [3.5, 4.5, 9, 2.5]}


class Mat(list):
    """A list of rows to be passed as an mpmath matrix."""


def build(v, conv=lambda t: t):
    """A fresh copy of an argument, with every number converted."""
    if isinstance(v, Mat):
        from mpmath import mp
        return mp.matrix([[conv(t) for t in r] for r in v])
    if isinstance(v, (list, tuple)):
        return type(v)(build(t, conv) for t in v)
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return conv(v)
    return v


def params(name):
    if name in MU['dist']:
        return MU['dist'][name]
    def plain(v):
        return int(v) if v == int(v) else float(v)
    return tuple(plain(v) for v in SPEC[name][1])


def kind(name):
    return 'int' if name in MU['dist'] else SPEC[name][0]


def xval(name):
    return 4 if name in MU['dist'] else XOF.get(name, X[SPEC[name][0]])


def data(name):
    if name in MU['dist']:
        return [1, 2, 4, 2, 7, 1]
    if name == 'weibull_max':
        return [-1.5, -4, 0.5, -0.25]
    if name in ('benktander1', 'benktander2'):
        return [1.5, 2, 4, 1.25, 2.5]
    if name in ('kumaraswamy', 'beta'):
        return DATA['unit']
    return DATA[SPEC[name][0]]


MLEKW = {'nakagami': dict(loc=0.5), 'weibull_min': dict(loc=0.5), 'weibull_max': dict(loc=1), 'betabinomial': dict(n=9),
         'pareto': dict(loc=0.5), 'burr12': dict(scale=2), 'betaprime': dict(scale=2), 'gompertz': dict(scale=2), 'binomial': dict(n=10)}


def dist_ops():
    out = []
    for name, fns in inventory()['distributions'].items():
        if name in ('dirichlet', 'multivariate_hypergeometric', 'multivariate_t'):
            continue
        sets = [params(name)]
        if name in PAR2:
            sets.append(PAR2[name])
        for ip, par in enumerate(sets):
            for fn, sig in fns.items():
                path = ('distributions.' + name, fn)
                lab = f'{name}.{fn}' + ('' if ip == 0 else '#2')
                x = xval(name)
                if ip and name in ('beta', 'weibull_min', 'genpareto', 'genextreme'):
                    x = {'beta': 0.625, 'weibull_min': 1.5, 'genpareto': 0.75, 'genextreme': 0.5}[name]
                if fn in ('pdf', 'logpdf', 'pmf', 'logpmf', 'cdf', 'sf', 'logcdf', 'logsf'):
                    out.append((lab, path, (x,) + par, {}))
                elif fn in ('invcdf', 'invsf'):
                    out.append((lab, path, (0.375,) + par, {}))
                elif fn in ('invcdf_k', 'invsf_k'):
                    out.append((lab, path, (3.5, 0.375), {}))
                elif fn == 'noncentral_moment':
                    out.append((lab, path, (2,) + par, {}))
                elif fn == 'interval_prob':
                    hi = {'beta': 0.75, 'gamma': 4.25}.get(name, 1.25)
                    out.append((lab, path, (x if x < hi else hi/2, hi) + par, {}))
                elif fn in ('nll', 'nll_grad', 'nll_hess', 'nll_invhess'):
                    d = data(name)
                    if ip and name in ('genpareto',):
                        d = [0.25, 0.75, 1.5]
                    if name == 'pareto':
                        d = [3.5, 4.5, 9, 5]
                    out.append((lab, path, (d,) + par, {}))
                elif fn == 'mle':
                    if ip == 0:
                        out.append((lab, path, (data(name),), MLEKW.get(name, {})))
                elif fn == 'mom':
                    if ip == 0:
                        out.append((lab, path, (data(name),), {}))
                else:
                    if name == 'pareto' and fn == 'var':
                        out.append((lab, path, (par[0],), dict(loc=par[1], scale=par[2])))
                    else:
                        out.append((lab, path, par, {}))
    return out


def other_ops():
    D = 'distributions.'
    o = [
        ('dirichlet.pdf', (D + 'dirichlet', 'pdf'), ([0.25, 0.25, 0.5], [1.5, 2, 3]), {}),
        ('dirichlet.logpdf', (D + 'dirichlet', 'logpdf'), ([0.25, 0.25, 0.5], [1.5, 2, 3]), {}),
        ('dirichlet.mean', (D + 'dirichlet', 'mean'), ([1.5, 2, 3],), {}),
        ('dirichlet.cov', (D + 'dirichlet', 'cov'), ([1.5, 2, 3],), {}),
        ('dirichlet.entropy', (D + 'dirichlet', 'entropy'), ([1.5, 2, 3],), {}),
        ('multivariate_t.pdf', (D + 'multivariate_t', 'pdf'), ([0.5, 1.25], 3.5, [0, 1], Mat([[2, 0.5], [0.5, 1]])), {}),
        ('multivariate_t.logpdf', (D + 'multivariate_t', 'logpdf'), ([0.5, 1.25], 3.5, [0, 1], Mat([[2, 0.5], [0.5, 1]])), {}),
        ('multivariate_t.entropy', (D + 'multivariate_t', 'entropy'), (3.5, [0, 1], Mat([[2, 0.5], [0.5, 1]])), {}),
    ]
    for fn in ('pmf', 'logpmf'):
        o.append((f'multivariate_hypergeometric.{fn}', (D + 'multivariate_hypergeometric', fn), ([1, 2, 1], [3, 5, 2], 4), {}))
    for fn in ('mean', 'cov', 'entropy', 'support'):
        o.append((f'multivariate_hypergeometric.{fn}', (D + 'multivariate_hypergeometric', fn), ([3, 5, 2], 4), {}))
    F = lambda fn, *a, **k: o.append((f'fun.{fn}', ('fun', fn), a, k))
    F('betaincinv', 1.5, 2, 0.375)
    F('betaincinv', 1.5, 2, 0.375, complement=True)
    F('marcumq', 1.5, 0.75, 2.25)
    F('cmarcumq', 1.5, 0.75, 2.25)
    F('debye', 1.5, n=2)
    F('debye', 0.125, n=1)
    F('digammainv', 1.25)
    F('digammainv', -3.5)
    F('faddeevaw', 1.25)
    F('hermite_e', 5, 0.75)
    F('pow1pm1', 0.125, 2.5)
    F('inv_pow1pm1', 0.125, 2.5)
    F('inv_powm1', 0.125, 2.5)
    F('logbeta', 1.5, 2.25)
    F('multivariate_logbeta', [1.5, 2.25, 3])
    F('logbinomial', 9, 4)
    F('logbinomial', 9.5, 2.25)
    F('logsumexp', [0.5, 2.25, -1])
    F('logsumexp', [0.5, 2.25, -1], weights=[1, 2, 0.25])
    F('roots_legendre', 5)
    for b in 'ijky':
        F('spherical_bessel' + b, 2, 1.75)
    F('wright_bessel', 0.75, 1.5, 2.25)
    F('xlogy', 1.5, 2.25)
    F('xlog1py', 1.5, 0.25)
    S = lambda fn, *a, **k: o.append((f'stats.{fn}', ('stats', fn), a, k))
    x, y, w = [2.5, 1, 4.25, 3], [1.5, 0.25, 6, 2], [1, 2, 0.5, 1.25]
    for fn in ('mean', 'gmean', 'hmean'):
        S(fn, x)
        S(fn, x, weights=w)
    for p in (2, 0, -1.5):
        S('pmean', x, p=p)
        S('pmean', x, p=p, weights=w)
        S('lehmer_mean', x, p=p)
        S('lehmer_mean', x, p=p, weights=w)
    for fn in ('var', 'std', 'variation'):
        S(fn, x)
        S(fn, x, ddof=1)
    S('unique_counts', [3, 1, 3, 2, 1, 3])
    for fn in ('boxcox', 'boxcox1p', 'inv_boxcox', 'inv_boxcox1p', 'yeojohnson', 'inv_yeojohnson'):
        S(fn, 0.75, 1.5)
        S(fn, 0.75, 0)
    S('yeojohnson', -0.75, 1.5)
    S('boxcox_llf', 0.5, x)
    S('yeojohnson_llf', 0.5, [-1.5, 2, 0.25, 3])
    S('boxcox_mle', x)
    S('yeojohnson_mle', [-1.5, 2, 0.25, 3])
    S('anova_oneway', [2.5, 1, 4.25], [1.5, 0.25, 6, 2], [3, 5])
    S('chisquare', [12, 9, 15, 4], expected=[10, 10, 10, 10])
    S('gtest', [12, 9, 15, 4], expected=[10, 10, 10, 10])
    for alt in ('two-sided', 'less', 'greater'):
        S('fisher_exact', [[8, 2], [1, 5]], alternative=alt)
        S('pearsonr', x, y, alternative=alt)
        S('pearsonr_ci', 0.5, 12, 0.125, alternative=alt)
    S('odds_ratio', [[8, 2], [1, 5]])
    S('odds_ratio', [[8, 2], [1, 5]], kind='sample')
    return o


def ops():
    out, seen = [], {}
    for lab, path, a, k in dist_ops() + other_ops():
        n = seen.get(lab, 0)
        seen[lab] = n + 1
        out.append((lab + (f'/{n}' if n else ''), path, a, k))
    return out


def resolve(path):
    mod = importlib.import_module('mpsci.' + path[0])
    return getattr(mod, path[1])
