"""
Axis sweeps: a second, wide alphabet for the continuous distributions.

For each distribution a base parameter tuple is fixed and each parameter in
turn runs through a long list spanning many orders of magnitude (so that
behaviour that depends on a threshold anywhere in that range is reached),
evaluated at a short list of points; and at the base parameters x itself runs
through a long list.
"""
from mpmath import mp
from .cont import DISTS, INF, NINF

with mp.workprec(53):
    _f = [mp.mpf(v) for v in (1e-3, 0.1, 0.3, 0.75, 1, 1.7, 2, 2.5, 3, 4, 6, 7,
                              10, 13, 20, 25, 50.5, 64, 99, 100, 128, 170, 250,
                              500, 1000)]
    XL = [mp.mpf(v) for v in (4100.5, 65537, 2.0**20 + 1)]
    SHAPE = [mp.mpf(2)**-10] + _f[1:] + XL
    SHAPE_M = [v for v in SHAPE if v < 70000]
    SHAPE_S = [v for v in SHAPE if mp.mpf('0.09') < v <= 25]
    SCALE = [mp.mpf(v) for v in (2.0**-40, 1e-3, 0.1, 0.9, 2, 7.5, 10, 64, 100,
                                 1000, 2.0**20, 1e9)]
    LOC = [mp.mpf(v) for v in (-2.0**20, -1000, -101.5, -50, -10, -1, -0.1, 0.1,
                               1, 2, 7, 10, 50, 101.5, 1000, 2.0**20)]
    REALS = [mp.mpf(v) for v in (-20, -10.5, -5, -3, -2, -1, -0.7, -0.1, 0, 0.1,
                                 0.7, 1, 2, 3, 5, 10.5, 20)]
    DENSE_POS = [mp.mpf(v) for v in (
        1e-12, 1e-6, 1e-3, 0.01, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 0.99,
        1.01, 1.1, 1.2, 1.3, 1.7, 2.2, 2.5, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15,
        16, 18, 20, 21, 25, 30, 31, 32, 33, 36, 38, 50, 51, 64, 65, 99, 100, 101,
        128, 150, 256, 500, 513, 999, 1000, 1001, 1025, 10**4, 10**5, 10**6,
        10**6 + 1, 10**8, 10**10)]
    DENSE_UNIT = [mp.mpf(v) for v in (
        1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.3, 0.33, 0.4, 0.45, 0.49, 0.51,
        0.55, 0.6, 0.66, 0.7, 0.8, 0.85, 0.9, 0.95, 0.99, 0.999, 0.9999, 0.99999)]
    SHORT = {
        'pos': [mp.mpf(v) for v in (2.0**-20, 0.05, 0.5, 1, 1.25, 3, 10, 60)],
        'real': [mp.mpf(v) for v in (-40, -6, -1.5, -0.25, 0, 0.5, 1, 2, 8, 60)],
        'unit': [mp.mpf(v) for v in (2.0**-20, 0.05, 0.3, 0.5, 0.7, 0.95, 1 - 2.0**-20)],
        'one': [mp.mpf(v) for v in (1 + 2.0**-20, 1.05, 1.5, 2, 3, 10, 60)],
    }

# name: (kind of x, base, [list per parameter]); a list of None means no sweep.
S, SM, SS, C, L, R = SHAPE, SHAPE_M, SHAPE_S, SCALE, LOC, REALS
SPEC = {
    'argus': ('unit', (1.5, 2), [[v for v in SS if v <= 20], C]),
    'benini': ('one', (1.5, 2, 2), [SM, SM, C]),
    'benktander1': ('one', (2, 0.75), [[2, 2.5, 4, 7, 20, 64, 128], [v for v in SS if v <= 3]]),
    'benktander2': ('one', (2, 0.5), [SM, [0.01, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 0.99, 1]]),
    'beta': ('unit', (2.5, 3), [S, S]),
    'betaprime': ('pos', (2.5, 3, 2), [SM, SM, C]),
    'burr12': ('pos', (2.5, 3, 2), [SM, SM, C]),
    'cauchy': ('real', (1, 2), [L, C]),
    'chi': ('pos', (3,), [S]),
    'chi2': ('pos', (3,), [S]),
    'cosine': ('real', (), []),
    'exponweib': ('pos', (2.5, 1.5, 2), [SM, SS, C]),
    'f': ('pos', (4, 7), [S, S]),
    'folded_normal': ('pos', (1, 2), [R, C]),
    'gamma': ('pos', (2.5, 2), [S, C]),
    'gamma_gompertz': ('pos', (2, 3, 2), [SM, SM, C]),
    'genexpon': ('pos', (1.5, 2, 0.75, 0, 1), [SM, SM, SM, L, C]),
    'genextreme': ('real', (0.25, 1, 2), [[v for v in R if abs(v) <= 5], L, C]),
    'genhyperbolic': ('real', (1, 2, 0.5, 0, 1), [[-10, -3, -0.5, 0.1, 3, 10], [0.75, 3, 10, 50], [-1.5, 0, 1.5], L, C]),
    'geninvgauss': ('pos', (1, 2, 0, 1), [[-10, -3, -0.5, 0.1, 3, 10], [0.1, 0.75, 3, 10, 50], L, C]),
    'genpareto': ('pos', (0.25, 1, 2), [[v for v in R if abs(v) <= 5], L, C]),
    'gompertz': ('pos', (0.75, 2), [SM, C]),
    'gumbel_max': ('real', (1, 2), [L, C]),
    'gumbel_min': ('real', (1, 2), [L, C]),
    'half_logistic': ('pos', (1, 2), [L, C]),
    'hypsecant': ('real', (1, 2), [L, C]),
    'invchi2': ('pos', (3,), [SM]),
    'invgamma': ('pos', (2.5, 1, 2), [SM, L, C]),
    'invgauss': ('pos', (1.5, 1, 2), [[0.05, 0.1, 0.3, 0.75, 1, 2, 4, 10, 64, 128], L, C]),
    'kumaraswamy': ('unit', (2.5, 3), [SM, SM]),
    'laplace': ('real', (1, 2), [L, C]),
    'levy': ('pos', (1, 2), [L, C]),
    'loggamma': ('real', (2.5, 2), [SM, C]),
    'logistic': ('real', (1, 2), [L, C]),
    'loglogistic': ('pos', (2.5, 2), [SM, C]),
    'lognormal': ('pos', (0.5, 1.5), [R, [0.1, 0.3, 0.75, 1, 2, 4, 10, 30]]),
    'maxwell': ('pos', (1, 2), [L, C]),
    'nakagami': ('pos', (2.5, 1, 2), [SM, L, C]),
    'ncx2': ('pos', (3, 2), [[0.75, 2, 10, 20], [0.1, 7, 20]]),
    'ncf': ('pos', (3, 5, 1.5), [[1, 10, 20], [2, 10, 20], [0.1, 7]]),
    'nct': ('real', (4, 1.5), [[0.5, 3, 20, 50], [-5, -1, 0.1, 2, 8]]),
    'normal': ('real', (1, 2), [L, C]),
    'pareto': ('one', (2.5, 1, 2), [SM, L, C]),
    'power_normal': ('real', (2.5, 1, 2), [SM, L, C]),
    'rel_breitwigner': ('pos', (2.5, 2), [SM, C]),
    'rice': ('pos', (1.5, 1), [[0.1, 0.75, 2, 5, 8], [0.5, 2, 5]]),
    'slash': ('real', (), []),
    'studentt': ('real', (3,), [S]),
    'truncnorm': ('unit', (-1, 2), [[-10, -5, -3, -2, -0.5, 0, 0.5, 1, 1.5], [-0.5, 0, 0.5, 1, 3, 5, 10, 20]]),
    'tukeylambda': ('real', (0.25, 1, 2), [[-3, -0.5, -0.1, 0.1, 0.75, 1.25, 3, 7], [-10, 10], [0.1, 100]]),
    'uniform': ('unit', (-1, 2), [[-2.0**20, -100, -10, 0, 0.5, 1.5], [0, 3, 10, 100, 2.0**20]]),
    'vonmises': ('real', (1.5, 0), [[0.1, 0.75, 3, 5, 10, 20, 64, 100, 250], [-3, -1, 0.5, 2, 3, 10]]),
    'weibull_min': ('pos', (2.5, 1, 2), [SM, L, C]),
    'weibull_max': ('pos', (2.5, 1, 2), [SM, L, C]),
}
_SIGN = {'weibull_max': -1}
_DROPBIG = {'gompertz': 40, 'invgauss': 10**5, 'gamma_gompertz': 10**6, 'ncx2': 130, 'ncf': 1001, 'rice': 40,
            'nct': 1001, 'genhyperbolic': 101, 'geninvgauss': 1001, 'loggamma': 7,
            'gumbel_max': 10**6, 'gumbel_min': 40, 'genextreme': 10**6, 'tukeylambda': 40,
            'power_normal': 40}
_DROPNEG = {'gumbel_max': 40, 'loggamma': 1001, 'genhyperbolic': 101, 'genextreme': 40, 'tukeylambda': 40, 'power_normal': 40}


NOCENTRE = {"genhyperbolic", "geninvgauss", "tukeylambda", "ncf", "uniform"}


def centre(d, par):
    """Points around the maximum of the reference density, at multiples of its width."""
    lo, hi = d.support(par)
    with mp.workdps(40):
        f = lambda t: d.lnf(t, *par)
        c = None
        if not mp.isinf(lo) and not mp.isinf(hi):
            to = lambda t: lo + (hi - lo)/(1 + mp.exp(-t))
        elif not mp.isinf(lo):
            to = lambda t: lo + mp.exp(t)
        elif not mp.isinf(hi):
            to = lambda t: hi - mp.exp(-t)
        else:
            to = lambda t: mp.sinh(t)
        a, b = mp.mpf(-40), mp.mpf(40)
        # the logarithm of the density is unimodal in this coordinate
        for _ in range(90):
            x1, x2 = a + (b - a)/3, b - (b - a)/3
            try:
                y1, y2 = f(to(x1)), f(to(x2))
            except (ValueError, ZeroDivisionError, OverflowError):
                return []
            if y1 < y2:
                a = x1
            else:
                b = x2
        t = (a + b)/2
        if abs(t) > 39:
            return []
        c = to(t)
        h = (abs(c - lo) if not mp.isinf(lo) else abs(c) + 1)*mp.mpf(10)**-9
        if not mp.isinf(hi):
            h = min(h, (hi - c)*mp.mpf(10)**-9)
        k = (f(c + h) - 2*f(c) + f(c - h))/h**2
        if not k < 0:
            return []
        s = 1/mp.sqrt(-k)
        pts = [c + z*s for z in (-6, -2.5, -1, -0.25, 0.5, 1.5, 4, 9)]
    with mp.workprec(53):
        return [+t for t in pts if lo < +t < hi]


# CDF in terms of incomplete gamma / beta functions: shapes up to 1000 (128 where two interact)
CAP = {'beta': 1000, 'chi': 1000, 'chi2': 1000, 'f': 1000, 'gamma': 1000, 'studentt': 1000, 'betaprime': 128,
       'invchi2': 128, 'invgamma': 128, 'nakagami': 128, 'loggamma': 128}


def cases(name, capped=False):
    """List of (par, [x, ...]) of the sweep of one distribution."""
    cap = CAP.get(name) if capped else None
    mp.dps = 15
    kind, base, lists = SPEC[name]
    base = tuple(mp.mpf(v) for v in base)
    d = DISTS[name]
    sgn = _SIGN.get(name, 1)
    out = []
    big, neg = _DROPBIG.get(name, INF), _DROPNEG.get(name, INF)

    def mk(par, zs):
        lo, hi = d.support(par)
        xs = []
        for z in zs:
            if z > big or -z > neg:
                continue
            z = sgn*z
            if d._xmap is not None:
                x = d._xmap(z, *par)
            else:
                x = z
            x = +mp.mpf(x)
            if lo < x < hi:
                xs.append(x)
        return sorted(set(xs))

    for i, lst in enumerate(lists):
        for v in lst:
            par = base[:i] + (mp.mpf(v),) + base[i+1:]
            if cap and (lst is S or lst is SM) and v > cap:
                continue
            if name in ('truncnorm', 'uniform') and not par[0] < par[1]:
                continue
            if name == 'benktander1' and not par[1] <= par[0]*(par[0]+1)/2:
                continue
            if name == 'genhyperbolic' and not abs(par[2]) < par[1]:
                continue
            zs = SHORT[kind]
            xs = mk(par, zs)
            if name not in NOCENTRE:
                xs = sorted(set(xs + centre(d, par)))
            if xs:
                out.append((par, xs))
    dense = (DENSE_UNIT if kind == 'unit' else
             [1 + z for z in DENSE_POS] if kind == 'one' else
             DENSE_POS if kind == 'pos' else
             [-z for z in reversed(DENSE_POS)] + DENSE_POS)
    xs = mk(base, dense)
    if d.slow:
        xs = xs[::2]
    out.append((base, xs))
    return out
