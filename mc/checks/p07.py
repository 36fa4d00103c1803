"""P07  Maximum likelihood and method of moments estimates."""
import json
import os
from itertools import combinations_with_replacement, product
from mpmath import mp
from ..core import Unit, call, bad, isnum
from ..util import dist, has, fn_of, num, eps, realval
from ..ref.cont import DISTS
from ..ref.disc import DISC, tomp

ID = 'P07'
LEVEL = 'model_checking'
M = mp.mpf
POS = [0.25, 1, 1.75, 3, 8]
UNIT = [0.0625, 0.25, 0.5, 0.875]
REAL = [-2, -0.5, 0.75, 1.5, 4]
INTS = [0, 1, 2, 5, 9]
ONE = [1.125, 1.5, 2, 4, 9]

# name: (alphabet, parameter names in the returned order, fixed values, initial guesses, takes keywords, sizes)
SPEC = {
    'benktander1': (ONE, 'a b', None, (2, 1), ()),
    'beta': (UNIT, 'a b', (1.5, 2), (1.25, 1.25), (2, 3, 4)),
    'betaprime': (POS, 'a b scale', (1.5, 2, 0.75), (1.25, 1.5, 1.25), ()),
    'burr12': (POS, 'c d scale', (1.5, 2, 0.75), (1.25, 1.5, 1.25), ()),
    'gamma': (POS, 'k scale', (1.5, 0.75), None, (2, 3, 4)),
    'gompertz': (POS, 'c scale', (1.5, 0.75), (None, 1.5), ()),
    'gumbel_max': (REAL, 'loc scale', (0.5, 1.5), None, (2, 3)),
    'gumbel_min': (REAL, 'loc scale', (0.5, 1.5), None, (2, 3)),
    'hypsecant': (REAL, 'loc scale', (0.5, 1.5), (0.75, 1.25), (2, 3, 4)),
    'kumaraswamy': (UNIT, 'a b', (1.5, 2), (1.25, None), (2, 3, 4)),
    'laplace': (REAL, 'loc scale', (0.5, 1.5), None, (2, 3, 4)),
    'loggamma': (REAL, 'k theta', (1.5, 0.75), (1.25, 1.5), (2, 3)),
    'logistic': (REAL, 'loc scale', None, None, (2, 3)),
    'lognormal': (POS, 'mu sigma', None, None, (2, 3, 4)),
    'nakagami': (POS, 'nu loc scale', (1.5, 0.125, 2), None, (2, 3, 4)),
    'normal': (REAL, 'mu sigma', None, None, (2, 3, 4)),
    'pareto': (POS, 'b loc scale', (1.5, 0.125, 0.0625), (1.25, None, 1.25), (2, 3)),
    'uniform': (REAL, 'a b', None, None, (2, 3)),
    'weibull_min': (POS, 'k loc scale', (1.5, 0.125, 2), None, (2, 3)),
    'weibull_max': ([-8, -3, -1.75, -1, -0.25], 'k loc scale', (1.5, -0.125, 2), None, (2, 3)),
}
MUSTFIX = {'nakagami': {1}, 'weibull_min': {1}, 'weibull_max': {1}, 'betabinomial': {0}}
DSPEC = {
    'betabinomial': ('n a b', (9, 1.5, 2), (None, 1.25, 1.5)),
    'binomial': ('n p', (10, 0.375), (12, 0.25)),
    'negative_binomial': ('r p', (3, 0.375), (1.5, 0.5)),
    'logseries': ('p', None, None),
    'poisson': ('lam', None, None),
}
MOM = [n for n in DISTS if has(n, 'mom')]
_NC = None


def noconv():
    """Cases in which the iteration is known to give up with an exception."""
    global _NC
    if _NC is None:
        p = os.path.join(os.path.dirname(__file__), '..', 'ref', 'noconv.json')
        _NC = set(json.load(open(p))) if os.path.exists(p) else set()
    return _NC


def DPS(tier):
    return (15, 33)


def bounds(tier):
    return (f'{len(SPEC) + len(DSPEC)} estimators; every multiset of 2-3 (2-4) observations from an alphabet of 4-5 '
            'values with at least two distinct ones; every subset of fixed parameters; every subset of initial '
            f'guesses; precisions {DPS(tier)}')


ASSUMPTIONS = ['reference likelihoods of mc/ref', 'optimality is decided by the Newton step and the Hessian of the '
               'reference likelihood at the estimate, and by a multiplicative grid around it',
               'mc/ref/noconv.json lists the explored cases in which the unchanged code raises because its iteration '
               'does not converge or no maximum exists; any of these may raise, none may return a wrong estimate']


def units(tier):
    out = []
    for d in DPS(tier):
        for n in SPEC:
            k = 6 if n in ('betaprime', 'burr12', 'beta') else 2
            out += [[n, d, [i, k]] for i in range(k)]
        for n in DSPEC:
            out += [[n, d, [i, 4]] for i in range(4)]
        out += [[n, d, 'mom'] for n in MOM]
    return out


def cost(u):
    return u[1]*(5 if u[0] in ('betaprime', 'burr12') else 1)


def required_classes(tier):
    return ['long or rescaled sample', 'smooth', 'all fixed', 'integer', 'boundary', 'initial', 'mom'] + ['dist ' + n for n in list(SPEC) + list(DSPEC)]


def datasets(alpha, sizes):
    out = []
    for s in sizes:
        for t in combinations_with_replacement(alpha, s):
            if len(set(t)) > 1:
                out.append(list(t))
    return out


# parameters whose quantiles are data sets ("realistic" samples)
TRUE = {
    'benktander1': [(2, 1), (1.5, 0.5), (3, 2), (1, 0.75)],
    'beta': [(2, 3), (0.5, 0.75), (5, 1.5)],
    'betaprime': [(1.5, 2, 1), (2, 2, 2), (1, 3, 0.5), (3, 1.5, 1)],
    'burr12': [(1.5, 2, 1), (2, 1, 2), (1, 3, 0.5), (3, 0.75, 1)],
    'gamma': [(0.5, 2), (2, 1), (7, 0.25)],
    'gompertz': [(0.5, 1), (0.25, 2), (1, 1.5), (0.125, 0.5)],
    'gumbel_max': [(1, 2), (-3, 0.5)], 'gumbel_min': [(1, 2), (-3, 0.5)],
    'hypsecant': [(1, 2), (-3, 0.5)], 'kumaraswamy': [(2, 3), (0.5, 0.75), (5, 1.5)],
    'laplace': [(1, 2), (-3, 0.5)], 'loggamma': [(0.5, 2), (2, 1), (7, 0.25)],
    'logistic': [(1, 2), (-3, 0.5)], 'lognormal': [(1, 2), (-3, 0.5)],
    'nakagami': [(1, 0.125, 2), (0.75, 0.25, 0.5), (5, 0.25, 1)], 'normal': [(1, 2), (-3, 0.5)],
    'pareto': [(2, 0.25, 1), (1, 0.5, 0.5), (3, 0.125, 2)], 'uniform': [(-1, 2)],
    'weibull_min': [(1, 0.125, 2), (0.75, 0.25, 0.5), (5, 0.25, 1)],
    'weibull_max': [(1, -0.125, 2), (0.75, -0.25, 0.5), (5, -0.25, 1)],
}


def quantile_data(name, sizes=((5, 0), (8, 0), (8, 1), (13, 0))):
    d = DISTS[name]
    mp.dps = 20
    out = []
    for par in TRUE[name]:
        par = tuple(mp.mpf(t) for t in par)
        lo, hi = d.support(par)
        for n, shift in sizes:
            data = []
            for i in range(n):
                p = (i + mp.mpf('0.5'))/n
                if shift:                     # a skewed sample of the same population
                    p = p**2 if i % 2 else mp.sqrt(p)
                f = lambda x: d.cdf(x, *par) - p
                a = lo if not mp.isinf(lo) else -mp.mpf(2)**10
                b = hi if not mp.isinf(hi) else mp.mpf(2)**14
                for _ in range(45):
                    m = (a + b)/2
                    if f(m) > 0:
                        b = m
                    else:
                        a = m
                data.append(float(mp.nint(b*4096)/4096))
            data = sorted(t for t in data if lo < t < hi)
            if name == 'pareto':
                data = data[::-1]
            if len(set(data)) > 2:
                out.append((data, tuple(float(t) for t in par)))
    return out


# scale-like and location parameters (index) of the distributions whose samples are also rescaled
AFFINE = {'gamma': (None, 1), 'gumbel_max': (0, 1), 'gumbel_min': (0, 1), 'hypsecant': (0, 1), 'laplace': (0, 1),
          'logistic': (0, 1), 'normal': (0, 1), 'uniform': (0, 1)}


def wide_data(name):
    """Long samples, and samples far from unit scale: (data, true parameters)."""
    base = quantile_data(name, sizes=((41, 0),))[:1]
    out = list(base)
    short = quantile_data(name, sizes=((9, 0),))[:1]
    if name in AFFINE:
        il, isc = AFFINE[name]
        for data, par in short:
            for f, sh in ((1024.0, 0.0), (2.0**-12, 0.0)) + (((4.0, 1000.0), (4.0, -1000.0)) if il is not None else ()):
                t = list(par)
                if il is not None:
                    t[il] = t[il]*f + sh
                t[isc] *= f
                out.append(([x*f + sh for x in data], tuple(t)))
    return out


def newton(f, th, free, dps, scl):
    """Newton step of f over the free coordinates: (steps, positive definite)."""
    hs = {i: mp.mpf(10)**(-dps - 12)*scl[i] for i in free}

    def at(*mv):
        t = list(th)
        for i, s in mv:
            t[i] = t[i] + s*hs[i]
        return f(t)
    n = len(free)
    f0 = at()
    g = mp.matrix(n, 1)
    H = mp.matrix(n, n)
    for a, i in enumerate(free):
        p, m = at((i, 1)), at((i, -1))
        g[a] = (p - m)/2
        H[a, a] = p - 2*f0 + m
    for a, i in enumerate(free):
        for b, j in enumerate(free):
            if a < b:
                H[a, b] = H[b, a] = (at((i, 1), (j, 1)) - at((i, 1), (j, -1)) - at((i, -1), (j, 1)) + at((i, -1), (j, -1)))/4
    pd = all(mp.det(H[:k, :k]) > 0 for k in range(1, n + 1))
    try:
        s = mp.lu_solve(H, g)
    except ZeroDivisionError:
        return None, False
    return [abs(s[a])*hs[i]/scl[i] for a, i in enumerate(free)], pd


GRID = [mp.mpf(v) for v in (0.25, 0.5, 0.8, 0.95, 1.05, 1.25, 2, 4)]


def run_unit(unit, tier):
    name, dps, st = unit
    if st == 'mom':
        return run_mom(unit)
    if name in DSPEC:
        return run_disc(unit)
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    mle = fn_of(mod, 'mle')
    Initial = __import__('mpsci.distributions', fromlist=['Initial']).Initial
    alpha, names, fixv, initv, sizes = SPEC[name]
    names = names.split()
    k = len(names)
    must = MUSTFIX.get(name, set())
    if fixv is None:
        subsets = [()]
    else:
        subsets = [c for c in product((0, 1), repeat=k) if all(c[i] for i in must)]
        subsets = [tuple(i for i in range(k) if c[i]) for c in subsets]
    initv0 = initv
    allsets = ([(t, None, False) for t in datasets(alpha, sizes)] + [q + (False,) for q in quantile_data(name)]
               + [q + (True,) for q in wide_data(name)])
    for data, true, wide in allsets[st[0]::st[1]]:
        # realistic samples are fitted with initial guesses near the population
        initv = initv0
        if true is not None and initv0 is not None:
            initv = [t if i is not None else None for t, i in zip(true, initv0)]
        u.trace()
        u.cover('dist ' + name)
        if wide:
            u.cover('long or rescaled sample')
        for fx in subsets:
            free = [i for i in range(k) if i not in fx]
            if wide and set(fx) - must:
                continue
            if name == 'pareto' and true is None and 1 in free and 2 in free:
                continue                     # the likelihood of so few points has no maximum
            if initv is None:
                inits = [()]
            else:
                inits = [tuple(free[j] for j in range(len(free)) if c[j]) for c in product((0, 1), repeat=len(free))
                         if all(initv[free[j]] is not None for j in range(len(free)) if c[j])]
                if dps > 15 and len(inits) > 2:
                    inits = [inits[0], inits[-1]]
            for ini in inits:
                kw = {names[i]: fixv[i] for i in fx}
                kw.update({names[i]: Initial(initv[i]) for i in ini})
                u.state()
                if ini:
                    u.cover('initial')
                v = call(mle, data, dps=dps, **kw)
                u.step()
                ktxt = ','.join(f'{names[i]}={fixv[i]}' for i in fx) + (';' + ','.join(f'{names[i]}0={initv[i]}' for i in ini) if ini else '')
                key = f'{name}.mle({data}; {ktxt}) dps={dps}'
                judge(u, name, d, data, names, fx, fixv, v, dps, key)
                if not bad(v):
                    u.cover(f'{name} estimates with {"nothing" if not fx else ",".join(names[i] for i in fx)} fixed')
        u.sample(f'{name}.mle({data}) with {len(subsets)} subsets of fixed parameters at {dps} digits')
    return u


def judge(u, name, d, data, names, fx, fixv, v, dps, key):
    mp.dps = 3*dps + 40
    k = len(names)
    if bad(v):
        if key[:key.rindex(' dps=')] not in noconv():
            u.fail(key, f'no estimate: {v!r}', NC=1)
        return
    try:
        v = tuple(v)
    except TypeError:
        u.fail(key, 'not a tuple', got=v)
        return
    if len(v) != k or not all(realval(t) for t in v):
        u.fail(key, 'malformed estimate', got=v)
        return
    for i in fx:
        if v[i] != fixv[i]:
            u.fail(key, f'fixed parameter {names[i]} changed', got=v)
            return
    th = [mp.mpf(t) for t in v]
    free = [i for i in range(k) if i not in fx]
    if not free:
        u.cover('all fixed')
        return
    x = [mp.mpf(t) for t in data]
    tol = mp.mpf(10)**(-(dps + 1)//2)
    xmin, xmax = min(x), max(x)

    def nll(t):
        s = mp.zero
        for xi in x:
            s -= d.lnf(xi, *t)
        return s

    def close(i, want):
        if abs(th[i] - want) > tol*max(abs(want), abs(xmin), abs(xmax)):
            u.fail(key, f'{names[i]} is not the estimate', got=v, want=want)
            return False
        return True
    if name == 'uniform':
        u.cover('boundary')
        if th != [xmin, xmax]:
            u.fail(key, 'not the range of the data', got=v)
        return
    if name == 'laplace':
        u.cover('boundary')
        s = sorted(x)
        if 0 in free:
            if not s[(len(s) - 1)//2] <= th[0] <= s[len(s)//2]:
                u.fail(key, 'location is not a median', got=v)
                return
        if 1 in free:
            close(1, mp.fsum([abs(t - th[0]) for t in x])/len(x))
        return
    full = lambda t: t
    if name == 'pareto':
        # the likelihood increases with loc+scale up to the smallest observation
        u.cover('boundary')
        if 1 in free or 2 in free:
            if abs(th[1] + th[2] - xmin) > tol*max(xmin, abs(th[1])):
                u.fail(key, 'the support does not start at the smallest observation', got=v)
                return
        if 1 in free and 2 in free:
            full = lambda t: [t[0], xmin - t[2], t[2]]
            free = [i for i in free if i != 1]
        elif 1 in free:
            full = lambda t: [t[0], xmin - t[2], t[2]]
            free = [i for i in free if i != 1]
        elif 2 in free:
            full = lambda t: [t[0], t[1], xmin - t[1]]
            free = [i for i in free if i != 2]
        if not free:
            return
        # evaluate inside the support: shift by nothing, the density at its left end is finite
        f = lambda t: pareto_nll(full(t), x)
    else:
        f = nll
    scl = []
    for i in range(k):
        if names[i] in ('loc', 'mu'):
            s = xmax - xmin
        else:
            s = abs(th[i])
        scl.append(s)
        if names[i] not in ('loc', 'mu') and not th[i] > 0:
            u.fail(key, f'{names[i]} is not positive', got=v)
            return
    try:
        step, pd = newton(f, th, free, dps, scl)
    except Exception as e:
        u.fail(key, f'inadmissible estimate ({type(e).__name__})', got=v)
        return
    u.cover('smooth')
    if step is None or not pd:
        u.fail(key, 'not a minimum of the negative log-likelihood', got=v)
        return
    if any(s > tol for s in step):
        u.fail(key, f'not stationary: relative Newton step {mp.nstr(max(step), 3)}', got=v)
        return
    mp.dps = 30
    f0 = f(th)
    for i in free:
        for g in GRID:
            t = list(th)
            if names[i] in ('loc', 'mu'):
                t[i] = th[i] + (g - 1)*(xmax - xmin)
            else:
                t[i] = th[i]*g
            try:
                fg = f(t)
            except Exception:
                continue
            u.step()
            if isinstance(fg, mp.mpf) and fg < f0 - mp.mpf('1e-12')*max(1, abs(f0)):
                u.fail(key, f'larger likelihood at {names[i]}={mp.nstr(t[i], 8)}', got=v)
                return


def pareto_nll(t, x):
    b, loc, scale = t
    return -mp.fsum([mp.log(b) + b*mp.log(scale) - (b + 1)*mp.log(xi - loc) for xi in x])


def run_mom(unit):
    name, dps, _ = unit
    u = Unit(f'{name}.mom@{dps}')
    d = DISTS[name]
    mod = dist(name)
    alpha, names, *_ = SPEC[name]
    for data in datasets(alpha, (2, 3, 4)):
        u.state()
        u.trace()
        u.cover('mom')
        v = call(fn_of(mod, 'mom'), data, dps=dps)
        u.step()
        mp.dps = dps + 30
        key = f'{name}.mom({data}) dps={dps}'
        if bad(v) or len(v) != 2 or not all(realval(t) for t in v):
            u.fail(key, 'malformed estimate', got=v)
            continue
        p, q = [mp.mpf(t) for t in v]
        x = [mp.mpf(t) for t in data]
        m = mp.fsum(x)/len(x)
        s = mp.fsum([(t - m)**2 for t in x])/len(x)
        if name == 'beta':
            mm, vv = p/(p + q), p*q/(p + q)**2/(p + q + 1)
        elif name == 'gamma':
            mm, vv = p*q, p*q*q
        elif name == 'gumbel_max':
            mm, vv = p + mp.euler*q, (mp.pi*q)**2/6
        elif name == 'gumbel_min':
            mm, vv = p - mp.euler*q, (mp.pi*q)**2/6
        elif name == 'laplace':
            mm, vv = p, 2*q*q
        elif name == 'logistic':
            mm, vv = p, (mp.pi*q)**2/3
        elif name == 'lognormal':
            mm, vv = mp.exp(p + q*q/2), mp.exp(2*p + q*q)*mp.expm1(q*q)
        elif name == 'uniform':
            mm, vv = (p + q)/2, (q - p)**2/12
        else:
            raise KeyError(name)
        u.step(2)
        t = 1000*eps(dps)
        if abs(mm - m) > t*max(abs(m), mp.sqrt(s)) or abs(vv - s) > t*max(s, m*m) or not q > (p if name == 'uniform' else 0):
            u.fail(key, 'the fitted mean and variance are not those of the data', got=v, mean=(mm, m), var=(vv, s))
    u.sample(f'{name}.mom over all small data sets at {dps} digits')
    return u


def run_disc(unit):
    name, dps, st = unit
    u = Unit(f'{name}@{dps}')
    d = DISC[name]
    mod = dist(name)
    mle = fn_of(mod, 'mle')
    Initial = __import__('mpsci.distributions', fromlist=['Initial']).Initial
    names, fixv, initv = DSPEC[name]
    names = names.split()
    k = len(names)
    alpha = INTS if name != 'logseries' else [1, 2, 3, 6, 11]
    must = MUSTFIX.get(name, set())
    if fixv is None:
        subsets = [()]
    else:
        subsets = [c for c in product((0, 1), repeat=k) if all(c[i] for i in must)]
        subsets = [tuple(i for i in range(k) if c[i]) for c in subsets]
    sets = [(t, None) for t in datasets(alpha, (2, 3))]
    sets += [([a, b], [ca, cb]) for a, b in zip(alpha, alpha[1:]) for ca in (1, 3, 10) for cb in (1, 2, 25)]
    sets += [(alpha, [5, 3, 2, 1, 1]), (alpha, [1, 1, 6, 1, 1]), (alpha, [1, 2, 3, 5, 9]), (alpha, None)]
    for data, counts in sets[st[0]::st[1]]:
        u.trace()
        u.cover('dist ' + name)
        for fx in subsets:
            free = [i for i in range(k) if i not in fx]
            inits = [()]
            if initv is not None and free:
                inits.append(tuple(i for i in free if initv[i] is not None))
            for ini in inits:
                for noni in ((True, False) if name == 'negative_binomial' else (True,)):
                    kw = {names[i]: fixv[i] for i in fx}
                    kw.update({names[i]: Initial(initv[i]) for i in ini})
                    if counts is not None:
                        kw['counts'] = counts
                    if not noni:
                        kw['allow_noninteger_r'] = False
                    u.state()
                    if ini:
                        u.cover('initial')
                    v = call(mle, data, dps=dps, **kw)
                    u.step()
                    ktxt = ','.join(f'{names[i]}={fixv[i]}' for i in fx) + (';' + ','.join(f'{names[i]}0={initv[i]}' for i in ini) if ini else '')
                    key = f'{name}.mle({data}; counts={counts}; {ktxt}; int={not noni}) dps={dps}'
                    judge_disc(u, name, data, counts, names, fx, fixv, v, dps, key, noni)
        u.sample(f'{name}.mle({data}, counts={counts}) at {dps} digits')
    return u


def lnpmf(name, x, t):
    if name == 'poisson':
        return x*mp.log(t[0]) - t[0] - mp.loggamma(x + 1)
    if name == 'logseries':
        return x*mp.log(t[0]) - mp.log(x) - mp.log(-mp.log1p(-t[0]))
    if name == 'binomial':
        n, p = t
        a = x*mp.log(p) if x else mp.zero
        b = (n - x)*mp.log1p(-p) if n > x else mp.zero
        return mp.loggamma(n + 1) - mp.loggamma(x + 1) - mp.loggamma(n - x + 1) + a + b
    if name == 'negative_binomial':
        r, p = t
        return mp.loggamma(x + r) - mp.loggamma(r) - mp.loggamma(x + 1) + r*mp.log1p(-p) + (x*mp.log(p) if x else 0)
    if name == 'betabinomial':
        n, a, b = t
        lb = lambda p, q: mp.loggamma(p) + mp.loggamma(q) - mp.loggamma(p + q)
        return mp.log(mp.binomial(n, x)) + lb(x + a, n - x + b) - lb(a, b)


def judge_disc(u, name, data, counts, names, fx, fixv, v, dps, key, noni):
    mp.dps = 3*dps + 40
    k = len(names)
    w = counts or [1]*len(data)
    N = sum(w)
    mean = mp.mpf(sum(a*c for a, c in zip(data, w)))/N
    var = mp.mpf(sum(a*a*c for a, c in zip(data, w)))/N - mean**2
    if bad(v):
        if key[:key.rindex(' dps=')] not in noconv():
            u.fail(key, f'no estimate: {v!r}', NC=1)
        return
    v = (v,) if k == 1 and not isinstance(v, tuple) else tuple(v)
    if len(v) != k or not all(realval(t) for t in v):
        u.fail(key, 'malformed estimate', got=v)
        return
    for i in fx:
        if v[i] != fixv[i]:
            u.fail(key, f'fixed parameter {names[i]} changed', got=v)
            return
    th = [mp.mpf(t) for t in v]
    free = [i for i in range(k) if i not in fx]
    if not free:
        u.cover('all fixed')
        return
    tol = mp.mpf(10)**(-(dps + 1)//2)

    def nll(t):
        return -mp.fsum([c*lnpmf(name, mp.mpf(a), t) for a, c in zip(data, w) if c])
    if name == 'binomial' and 0 in free:
        u.cover('integer')
        n = v[0]
        if n != int(n) or n < max(data):
            u.fail(key, 'n is not an admissible integer', got=v)
            return
        n = int(n)
        prof = lambda m: nll([mp.mpf(m), mean/m if 1 in free else th[1]])
        f0 = prof(n)
        for m in set(range(max(max(data), n - 4, 1), n + 5)) | {2*n + 3, 5*n + 1} | set(range(max(1, max(data)), max(data) + 15)):
            u.step()
            if prof(m) < f0 - mp.mpf(10)**-12:
                u.fail(key, f'larger likelihood at n={m}', got=v)
                return
        if 1 in free and abs(th[1] - mean/n) > tol*mean/n:
            u.fail(key, 'p is not mean/n', got=v)
        return
    if name == 'negative_binomial' and 0 in free and not noni:
        u.cover('integer')
        r = v[0]
        if r != int(r) or r < 1:
            u.fail(key, 'r is not a positive integer', got=v)
            return
        r = int(r)
        prof = lambda m: nll([mp.mpf(m), mean/(m + mean) if 1 in free else th[1]])
        f0 = prof(r)
        for m in set(range(max(1, r - 4), r + 5)) | {2*r + 3, 5*r + 1} | set(range(1, 12)):
            u.step()
            if prof(m) < f0 - mp.mpf(10)**-12:
                u.fail(key, f'larger likelihood at r={m}', got=v)
                return
        if 1 in free and abs(th[1] - mean/(r + mean)) > tol*mean/(r + mean):
            u.fail(key, 'p is not mean/(r+mean)', got=v)
        return
    if name == 'binomial':
        if abs(th[1] - mean/th[0]) > tol*mean/th[0]:
            u.fail(key, 'p is not mean/n', got=v)
        return
    if any(not th[i] > 0 for i in free):
        u.fail(key, 'inadmissible estimate', got=v)
        return
    scl = [abs(t) for t in th]
    try:
        step, pd = newton(nll, th, free, dps, scl)
    except Exception as e:
        u.fail(key, f'inadmissible estimate ({type(e).__name__})', got=v)
        return
    u.cover('smooth')
    if step is None or not pd:
        u.fail(key, 'not a minimum of the negative log-likelihood', got=v)
        return
    if any(s > tol for s in step):
        u.fail(key, f'not stationary: relative Newton step {mp.nstr(max(step), 3)}', got=v)
        return
    mp.dps = 30
    f0 = nll(th)
    for i in free:
        for g in GRID:
            t = list(th)
            t[i] = th[i]*g
            if names[i] == 'p' and t[i] >= 1:
                continue
            u.step()
            if nll(t) < f0 - mp.mpf('1e-12')*max(1, abs(f0)):
                u.fail(key, f'larger likelihood at {names[i]}={mp.nstr(t[i], 8)}', got=v)
                return
