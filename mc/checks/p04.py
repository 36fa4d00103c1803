"""P04  Discrete distributions: exact probabilities, tails, moments and modes."""
from fractions import Fraction as Fr
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import dist, has, fn_of, pkey, num, eps, mismatch, realval
from ..ref.disc import DISC, tomp

ID = 'P04'
LEVEL = 'model_checking'
SPLIT = {'binomial': 4, 'betabinomial': 12, 'hypergeometric': 6, 'fishers_noncentral_hypergeometric': 8,
         'negative_hypergeometric': 4, 'negative_binomial': 3, 'poisson': 2, 'trunc_discrete_exp': 2, 'logseries': 2}


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def bounds(tier):
    return (f'10 discrete distributions; every parameter tuple of the lattice (all integer parameters up to the '
            f'lattice bound, and large ones up to 2**20), every k of the support and beyond both ends (large supports: '
            f'selected k); precisions {DPS(tier)}')


ASSUMPTIONS = ['reference probabilities are exact rationals or sums at dps+40',
               'zero-population and zero-variance cases of moments are outside the domain']


def units(tier):
    return [[n, d, [i, SPLIT[n]]] for n in DISC for d in DPS(tier) for i in range(SPLIT[n])] + \
           [['gauss_kuzmin', d, [0, 1]] for d in DPS(tier)] + \
           [['large:' + n, d, i] for n in LARGE for d in DPS(tier) for i in range(len(LARGE[n]))]


def required_classes(tier):
    return ['dist ' + n for n in DISC] + ['dist gauss_kuzmin', 'inside', 'outside', 'mode', 'mean', 'var', 'skewness',
                                          'kurtosis', 'entropy', 'support', 'support_pmf', 'cdf step'] + \
        ['large ' + n for n in LARGE]


def run_unit(unit, tier):
    name, dps, st = unit
    if name.startswith('large:'):
        return run_large(unit, tier)
    u = Unit(f'{name}@{dps}')
    mod = dist(name)
    if name == 'gauss_kuzmin':
        return gauss_kuzmin(u, mod, dps, tier)
    d = DISC[name]
    full = tier != 'quick'
    tol = 10*eps(dps)
    hi_dps = dps + 40
    mp.dps = 15
    todo = d.params(full)[st[0]::st[1]]
    for par in todo:
        mp.dps = hi_dps
        u.cover('dist ' + name)
        ks = d.ks(par, full)
        lo, hi = d.support(par)
        lo, top, pm, cum = d.tables(par, max(ks))
        pmf = lambda k: pm[k - lo] if lo <= k <= top else 0
        cdf = lambda k: 0 if k < lo else 1 if hi is not None and k >= hi else cum[k - lo]
        exact = all(isinstance(v, (int, Fr)) for v in pm)

        def sf(k):
            if hi is not None and not exact:
                if k < lo:
                    return 1
                return mp.fsum(pm[k + 1 - lo:])
            return 1 - cdf(k)

        def check(fn, got, want, key, rel=True, scale=1):
            mp.dps = hi_dps
            want = tomp(want)
            m = mismatch(got, want, tol_rel=tol*scale if rel else 0, tol_abs=0 if rel else tol*scale*max(1, abs(want)))
            if m:
                u.fail(key, f'{fn}: {m}', got=got, want=want)

        u.trace()
        for k in ks:
            u.state()
            inside = lo <= k and (hi is None or k <= hi)
            u.cover('inside' if inside else 'outside')
            P, C, S = pmf(k), cdf(k), sf(k)
            k0 = f'{name} k={k} {pkey(par)} dps={dps}'
            for fn in ('pmf', 'logpmf', 'cdf', 'sf'):
                if not has(name, fn):
                    continue
                methods = [{}]
                if name == 'binomial' and fn in ('cdf', 'sf') and 0 <= k <= hi and 0 < par[1] < 1 and hi <= 20:
                    methods = [{}, {'method': 'sumpmf'}, {'method': 'incbeta'}]
                for kw in methods:
                    v = call(fn_of(mod, fn), k, *par, dps=dps, **kw)
                    u.step()
                    mp.dps = hi_dps
                    key = f'{fn} {k0}' + (f' {kw["method"]}' if kw else '')
                    if fn == 'pmf':
                        w = tomp(P)
                        check(fn, v, P, key, scale=max(1, (1 - mp.log(w))/100) if w > 0 else 1)
                    elif fn == 'logpmf':
                        check(fn, v, mp.log(tomp(P)) if P > 0 else mp.ninf, key, rel=False)
                    elif fn == 'cdf':
                        if relative(name, fn):
                            check(fn, v, C, key)
                        else:
                            check(fn, v, C, key, rel=False)
                    else:
                        if relative(name, fn) and (hi is not None or tomp(S) > mp.mpf(10)**-25):
                            check(fn, v, S, key)
                        else:
                            check(fn, v, S, key, rel=False)
                    u.cover('cdf step', 1 if fn == 'cdf' else 0)
        # whole-support functions
        u.state()
        k0 = f'{name} {pkey(par)} dps={dps}'
        v = call(fn_of(mod, 'support'), *par, dps=dps)
        u.step()
        u.cover('support')
        try:
            if hi is None:
                it = iter(v)
                okay = [next(it) for _ in range(6)] == list(range(lo, lo + 6))
            else:
                okay = list(v) == list(range(lo, hi + 1))
        except Exception:
            okay = False
        if not okay:
            u.fail('support ' + k0, 'wrong support', got=v, want=(lo, hi))
        if has(name, 'support_pmf'):
            v = call(fn_of(mod, 'support_pmf'), *par, dps=dps)
            u.step()
            u.cover('support_pmf')
            mp.dps = hi_dps
            if bad(v):
                u.fail('support_pmf ' + k0, repr(v))
            elif list(v[0]) != list(range(lo, hi + 1)) or len(v[1]) != hi - lo + 1:
                u.fail('support_pmf ' + k0, 'wrong support', got=v[0], want=(lo, hi))
            else:
                for j, p in zip(v[0], v[1]):
                    check('support_pmf', p, pmf(j), f'support_pmf k={j} {k0}')
        mp.dps = hi_dps
        if has(name, 'mode'):
            v = call(fn_of(mod, 'mode'), *par, dps=dps)
            u.step()
            u.cover('mode')
            mp.dps = hi_dps
            best = tomp(max(pm))
            if bad(v) or not realval(v) or v != int(v) or not lo <= int(v) <= top:
                u.fail('mode ' + k0, 'not a point of the support', got=v)
            elif tomp(pmf(int(v))) < best*(1 - tol):
                u.fail('mode ' + k0, 'pmf is larger elsewhere', got=v, at_mode=tomp(pmf(int(v))), largest=best)
        if hi is not None:
            s = [sum((p*j**i for j, p in zip(range(lo, hi + 1), pm)), Fr(0)) for i in range(5)] if exact else \
                [mp.fsum([p*mp.mpf(j)**i for j, p in zip(range(lo, hi + 1), pm)]) for i in range(5)]
        elif any(has(name, f) for f in ('mean', 'var')):
            s = d.moments(par)
        if s is not None:
            m1 = s[1]
            m2 = s[2] - m1**2
            m3 = s[3] - 3*m1*s[2] + 2*m1**3
            m4 = s[4] - 4*m1*s[3] + 6*m1**2*s[2] - 3*m1**4
            wants = {'mean': m1, 'var': m2}
            if tomp(m2) > 0:
                v2 = tomp(m2)
                wants['skewness'] = tomp(m3)/v2**1.5
                wants['kurtosis'] = tomp(m4)/v2**2 - 3
            for fn, w in wants.items():
                if not has(name, fn):
                    continue
                if name in ('hypergeometric', 'fishers_noncentral_hypergeometric', 'negative_hypergeometric') \
                        and (par[-3] == 0):
                    continue        # empty population
                v = call(fn_of(mod, fn), *par, dps=dps)
                u.step()
                u.cover(fn)
                if name in CANCELS and fn != 'mean':
                    check(fn, v, w, fn + ' ' + k0, rel=False, scale=CANCELS[name])
                else:
                    check(fn, v, w, fn + ' ' + k0, rel=fn in ('mean', 'var'))
        if has(name, 'entropy'):
            v = call(fn_of(mod, 'entropy'), *par, dps=dps)
            u.step()
            u.cover('entropy')
            mp.dps = hi_dps
            check('entropy', v, -mp.fsum([tomp(p)*mp.log(tomp(p)) for p in pm if p > 0]), 'entropy ' + k0, rel=False)
        u.sample(f'{name}{pkey(par)} at {dps} digits, {len(ks)} values of k')
    return u


CANCELS = {'trunc_discrete_exp': 10**6, 'logseries': 10**6}


def relative(name, fn):
    return (name, fn) not in {('betabinomial', 'cdf'), ('hypergeometric', 'cdf'), ('negative_hypergeometric', 'sf'),
                              ('gauss_kuzmin', 'cdf'), ('logseries', 'cdf')}


# large parameters: probabilities by log-gamma at a high precision, tails by
# the ratio recurrence, moments from the factorial moments
def _fl(*a):
    with mp.workprec(53):
        return tuple(v if isinstance(v, int) else mp.mpf(v) for v in a)


LARGE = {
    'binomial': [_fl(1500, 0.3), _fl(100003, 0.3), _fl(2**20, 0.001), _fl(5000, 0.9999), _fl(10**9, 1e-8)],
    'betabinomial': [_fl(1500, 2, 3.5), _fl(3000, 0.25, 500.5), _fl(5000, 1000, 1000.5)],
    'hypergeometric': [(5000, 2000, 300), (10**6, 400, 3000), (3000, 2990, 1500), (2**20, 2**19, 1000)],
    'fishers_noncentral_hypergeometric': [_fl(0.5, 3000, 500, 200), _fl(20, 2000, 150, 1000), _fl(3, 10**5, 300, 2000)],
    'negative_hypergeometric': [(1000, 600, 25), (5000, 4900, 40), (3000, 50, 1000)],
    'poisson': [_fl(1000.5), _fl(2**20), _fl(1e7)],
    'negative_binomial': [_fl(5000, 0.3), _fl(2.5, 0.9999), _fl(10**6, 0.001), _fl(1000.5, 0.95)],
    'logseries': [_fl(0.9999), _fl(1 - 2.0**-20)],
    'trunc_discrete_exp': [_fl(0.001, 5000), _fl(2.0**-20, 2000), _fl(3, 10000)],
}


def lp_of(name):
    lg = mp.loggamma
    lc = lambda n, k: lg(n + 1) - lg(k + 1) - lg(n - k + 1)
    lb = lambda a, b: lg(a) + lg(b) - lg(a + b)

    def negh(k, N, K, r):
        B = N - K
        return lc(K, k) + lc(B, r - 1) - lc(N, k + r - 1) + mp.log(mp.mpf(B - r + 1)/(N - k - r + 1))
    return {
        'binomial': lambda k, n, p: lc(n, k) + k*mp.log(p) + (n - k)*mp.log1p(-p),
        'betabinomial': lambda k, n, a, b: lc(n, k) + lb(k + a, n - k + b) - lb(a, b),
        'hypergeometric': lambda k, N, K, n: lc(K, k) + lc(N - K, n - k) - lc(N, n),
        'fishers_noncentral_hypergeometric': lambda k, w, N, K, n: lc(K, k) + lc(N - K, n - k) + k*mp.log(w),
        'negative_hypergeometric': negh,
        'poisson': lambda k, lam: k*mp.log(lam) - lam - lg(k + 1),
        'negative_binomial': lambda k, r, p: lg(k + r) - lg(r) - lg(k + 1) + r*mp.log1p(-p) + k*mp.log(p),
        'logseries': lambda k, p: k*mp.log(p) - mp.log(k) - mp.log(-mp.log1p(-p)),
        'trunc_discrete_exp': lambda k, lam, n: -lam*k + mp.log(mp.expm1(-lam)/mp.expm1(-lam*n)),
    }[name]


def factorial_moment(name, j, par):
    ff, rf = mp.ff, mp.rf
    if name == 'binomial':
        return ff(par[0], j)*par[1]**j
    if name == 'betabinomial':
        n, a, b = par
        return ff(n, j)*rf(a, j)/rf(a + b, j)
    if name == 'hypergeometric':
        N, K, n = par
        return ff(mp.mpf(n), j)*ff(K, j)/ff(N, j)
    if name == 'negative_hypergeometric':
        N, K, r = par
        return rf(mp.mpf(r), j)*ff(K, j)/rf(N - K + 1, j)
    if name == 'poisson':
        return par[0]**j
    if name == 'negative_binomial':
        r, p = par
        return rf(r, j)*(p/(1 - p))**j
    if name == 'logseries':
        p = par[0]
        return (p/(1 - p))**j*mp.factorial(j - 1)/-mp.log1p(-p) if j else mp.one


def run_large(unit, tier):
    name, dps, i = unit
    name = name[6:]
    par = LARGE[name][i]
    u = Unit(f'{name}@{dps} large')
    u.cover('large ' + name)
    u.cover('dist ' + name)
    mod = dist(name)
    d = DISC[name]
    tol = 10*eps(dps)
    hi = dps + 50
    mp.dps = hi
    lo, top = d.support(par)
    lnp = lp_of(name)
    cl = lambda k: k >= lo and (top is None or k <= top)
    fnch = name == 'fishers_noncentral_hypergeometric'
    # centre and width
    lim = top if top is not None else 10**15
    a, b = lo, lim
    ratio = lambda k: lnp(k + 1, *par) - lnp(k, *par) if cl(k + 1) else -mp.one
    while a < b:
        m = (a + b)//2
        if ratio(m) > 0:
            a = m + 1
        else:
            b = m
    mode = a
    if 0 < ratio(mode - 1) if cl(mode - 1) and mode > lo else False:
        curv = abs(ratio(mode) - ratio(mode - 1))
        sd = int(1/mp.sqrt(curv)) + 1
    else:
        sd = max(1, int(1/max(abs(ratio(mode)), mp.mpf(10)**-6)))
    ks = sorted({k for k in [lo, lo + 1, lo + 7, mode] + [mode + int(z*sd) for z in (-12, -5, -2, -1, -0.4, 0.3, 1, 3, 8, 20)]
                 + ([top - 4, top - 1, top] if top is not None else []) if cl(k)})
    if fnch:
        pr = {k: lnp(k, *par) for k in range(lo, top + 1)}
        mx = max(pr.values())
        tot = mx + mp.log(mp.fsum([mp.exp(v - mx) for v in pr.values()]))
        lnp = lambda k, *_: pr[k] - tot

    def tail(k, step):
        """Sum of pmf from k in direction step until negligible (recurrence on ratios by log-gamma is too slow: use lnp)."""
        s = mp.zero
        t0 = None
        n = 0
        while cl(k):
            t = mp.exp(lnp(k, *par))
            s += t
            if t < s*mp.mpf(10)**(-dps - 18) and (k - mode)*step > 0:
                break
            k += step
            n += 1
            if n > 6000:
                return None
        return s

    for k in ks:
        u.state()
        u.trace()
        mp.dps = hi
        L = lnp(k, *par)
        k0 = f'{name} k={k} {pkey(par)} dps={dps} large'
        big = max([abs(mp.mpf(v)) for v in par] + [k])
        amp = max(1, big*mp.log(big + 2)/10**4)
        for fn in ('pmf', 'logpmf', 'cdf', 'sf'):
            if not has(name, fn):
                continue
            if fn in ('cdf', 'sf') and (name, i) in NOTAIL:
                continue
            mp.dps = dps + 25
            w = None
            if fn in ('cdf', 'sf'):
                if fn == 'cdf':
                    w = tail(k, -1) if k <= mode else None
                    if w is None:
                        w = tail(k + 1, 1)
                        w = None if w is None else 1 - w
                else:
                    w = tail(k + 1, 1) if k >= mode else None
                    if w is None:
                        w = tail(k, -1)
                        w = None if w is None else 1 - w
                if w is None:
                    continue
            v = call(fn_of(mod, fn), k, *par, dps=dps)
            u.step()
            mp.dps = hi
            if fn == 'pmf':
                m = mismatch(v, mp.exp(L), tol_rel=tol*amp*max(1, (1 - L)/100)) if amp*abs(L)*tol < 1e-6 else None
            elif fn == 'logpmf':
                m = mismatch(v, L, tol_abs=tol*amp*max(1, abs(L)))
            else:
                m = mismatch(v, w, tol_abs=tol*amp)
                if not m and w > mp.mpf(10)**-30 and relative(name, fn) and (top is not None or fn == 'cdf'):
                    m = mismatch(v, w, tol_rel=tol*amp*100)
            if m:
                u.fail(f'{fn} {k0}', f'{fn}: {m}', got=v, want=mp.exp(L) if fn == 'pmf' else L if fn == 'logpmf' else w)
    mp.dps = hi + 40
    k0 = f'{name} {pkey(par)} dps={dps} large'
    if has(name, 'mode') and name != 'fishers_noncentral_hypergeometric' or fnch:
        v = call(fn_of(mod, 'mode'), *par, dps=dps) if has(name, 'mode') else mode
        u.state()
        u.step()
        u.cover('mode')
        mp.dps = hi + 40
        if bad(v) or not realval(v) or v != int(v) or not cl(int(v)):
            u.fail('mode ' + k0, 'not a point of the support', got=v)
        elif lnp(int(v), *par) < lnp(mode, *par) - mp.mpf(10)**-dps:
            u.fail('mode ' + k0, 'pmf is larger elsewhere', got=v, want=mode)
    f = [factorial_moment(name, j, [mp.mpf(v) for v in par]) for j in range(5)] if name not in ('trunc_discrete_exp',) and not fnch else None
    if fnch:
        m = [mp.fsum([mp.exp(lnp(k))*mp.mpf(k)**j for k in pr]) for j in range(5)]
    elif f is not None:
        m = [mp.one, f[1], f[2] + f[1], f[3] + 3*f[2] + f[1], f[4] + 6*f[3] + 7*f[2] + f[1]]
    else:
        lam, n = par
        z = mp.exp(-lam)
        tot = mp.fsum([z**k for k in range(n)])
        m = [mp.fsum([z**k*mp.mpf(k)**j for k in range(n)])/tot for j in range(5)]
    m2 = m[2] - m[1]**2
    m3 = m[3] - 3*m[1]*m[2] + 2*m[1]**3
    m4 = m[4] - 4*m[1]*m[3] + 6*m[1]**2*m[2] - 3*m[1]**4
    wants = {'mean': m[1], 'var': m2, 'skewness': m3/m2**1.5, 'kurtosis': m4/m2**2 - 3}
    for fn, w in wants.items():
        if not has(name, fn):
            continue
        v = call(fn_of(mod, fn), *par, dps=dps)
        u.state()
        u.step()
        u.cover(fn)
        mp.dps = hi + 40
        amp = 1
        if fn != 'mean':
            amp = max(1, m[1]**2/m2) if name in CANCELS or fnch else 1
        if fn == 'var':
            mm = mismatch(v, w, tol_rel=tol*amp)
        else:
            mm = mismatch(v, w, tol_abs=tol*max(1, abs(w))*amp)
        if mm:
            u.fail(f'{fn} {k0}', f'{fn}: {mm}', got=v, want=w)
    u.sample(f'{name}{pkey(par)} at {dps} digits, large parameters, {len(ks)} values of k')
    return u


# tails the code needs minutes for, or gives up loudly
NOTAIL = {('binomial', 1), ('binomial', 2), ('binomial', 4), ('poisson', 1), ('poisson', 2), ('negative_binomial', 0)}


def gauss_kuzmin(u, mod, dps, tier):
    tol = 10*eps(dps)
    ks = [-3, -1, 0] + list(range(1, 40)) + [100, 1000, 10**6, 10**9]
    name = 'gauss_kuzmin'
    u.cover('dist ' + name)
    u.trace()
    for k in ks:
        u.state()
        mp.dps = dps + 60
        P = -mp.log(1 - mp.one/(k + 1)**2)/mp.log(2) if k >= 1 else mp.zero
        S = mp.log((k + mp.mpf(2))/(k + 1))/mp.log(2) if k >= 1 else mp.one
        wants = {'pmf': P, 'logpmf': mp.log(P) if P else mp.ninf, 'cdf': 1 - S, 'sf': S}
        for fn, w in wants.items():
            v = call(fn_of(mod, fn), k, dps=dps)
            u.step()
            mp.dps = dps + 60
            rel = fn == 'sf' or fn == 'pmf' and k < 1000
            m = mismatch(v, w, tol_rel=tol if rel else 0, tol_abs=0 if rel else tol*max(1, abs(w)) if w > mp.ninf else 0)
            if m:
                u.fail(f'{name}.{fn}({k}) dps={dps}', m, got=v, want=w)
        if k >= 1 and k <= 1000:
            for fn, inv in (('cdf', 'invcdf'), ('sf', 'invsf')):
                mp.dps = 2*dps + 20
                p = call(fn_of(mod, fn), k)
                v = call(fn_of(mod, inv), p, dps=2*dps + 20)
                u.step(2)
                m = mismatch(v, k, tol_rel=tol)
                if m:
                    u.fail(f'{name}.{inv}({fn}({k})) dps={dps}', m, got=v)
    for fn, w in (('mean', mp.inf), ('var', mp.inf), ('mode', 1), ('median', 2)):
        v = call(fn_of(mod, fn), dps=dps)
        u.step()
        if mismatch(v, mp.mpf(w)):
            u.fail(f'{name}.{fn} dps={dps}', 'wrong value', got=v)
    v = call(fn_of(mod, 'support'), dps=dps)
    u.step()
    if bad(v) or [next(iter(v)) for _ in range(1)] != [1]:
        u.fail(f'{name}.support', 'wrong', got=v)
    return u
