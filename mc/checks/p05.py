"""P05  Moments, entropy and mode of the continuous distributions."""
from mpmath import mp
from ..core import Unit, call, bad, isnum
from ..util import dist, has, fn_of, pkey, num, eps, mismatch, realval
from ..ref.cont import DISTS
from ..ref.moments import allcases, lookup, tail, canon, affine

ID = 'P05'
LEVEL = 'model_checking'
M = mp.mpf
FNS = ('mean', 'var', 'skewness', 'kurtosis', 'entropy', 'noncentral_moment', 'mode', 'circmean', 'circvar')
NAMES = [n for n in DISTS if any(has(n, f) for f in FNS)]
NSPLIT = {'exponweib': 12, 'genhyperbolic': 3, 'geninvgauss': 18, 'rice': 3, 'nct': 2}


def DPS(tier):
    return (15, 33)


def bounds(tier):
    return (f'{len(NAMES)} distributions, the parameter lattice and axis sweeps of P01 (parameters for which the '
            f'reference quadrature reaches 37 digits), raw moments n = 0..6, precisions {DPS(tier)}')


ASSUMPTIONS = ['reference moments: double exponential quadrature of the reference density, normalisation checked '
               'to 1e-37 (mc/ref/tables/moments.json)',
               'a divergent moment may be reported as inf or nan, never as a finite number']


def units(tier):
    out = []
    for n in NAMES:
        k = NSPLIT.get(n, 1)
        for d in DPS(tier):
            out += [[n, d, [i, k]] for i in range(k)]
    return out


def cost(u):
    return NSPLIT.get(u[0], 1)*u[1]


def required_classes(tier):
    return list(FNS) + ['dist ' + n for n in NAMES] + ['divergent', 'mode interior', 'mode at an end']


# documented convention: the mean of these symmetric distributions is reported
# as the centre of symmetry even where the integral diverges
CENTRE = {'slash', 'studentt'}


def binomial(n, k):
    return int(mp.binomial(n, k))


def run_unit(unit, tier):
    name, dps, st = unit
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    tol = 10*eps(dps)
    hi = dps + 40
    todo = allcases(name)[st[0]::st[1]]
    for par in todo:
        if skip(name, par):
            continue
        mp.dps = hi
        u.cover('dist ' + name)
        u.trace()
        cpar, loc, scale = canon(name, par)
        tl = tail(name, par)
        ref = lookup(name, par)
        k0 = f'{pkey(par)} dps={dps}'

        def cmp(fn, v, want, amp=0, extra=''):
            mp.dps = hi
            u.step()
            # amp: magnitude of the terms a textbook formula adds up; the
            # table carries 37 digits and the code five guard digits
            m = mismatch(v, want, tol_rel=tol, tol_abs=amp*(eps(36) + eps(dps + 3)))
            if m:
                u.fail(f'{name}.{fn}{k0}{extra}', f'{fn}: {m}', got=v, want=want)

        def run(fn, *a):
            u.state()
            u.step()
            u.cover(fn)
            if name == 'pareto' and fn == 'var':
                v = call(fn_of(mod, fn), par[0], loc=par[1], scale=par[2], dps=dps)
            else:
                v = call(fn_of(mod, fn), *a, *par, dps=dps)
            mp.dps = hi
            return v

        def divergent(fn, v, extra=''):
            u.cover('divergent')
            if fn == 'mean' and name in CENTRE and not bad(v) and v == 0:
                return
            if bad(v) or not isnum(v) or not (mp.isinf(v) or mp.isnan(v)):
                u.fail(f'{name}.{fn}{k0}{extra}', 'a divergent moment must be inf or nan', got=v)

        if ref is not None:
            m, H, _, _ = ref
            if name == 'vonmises':
                cmp('circvar', run('circvar'), 1 - m[1], amp=1)
                cmp('circmean', run('circmean'), par[1])
                cmp('entropy', run('entropy'), H, amp=max(1, par[0]))
                continue
            nmom = len(m) - 1
            if has(name, 'mean'):
                v = run('mean')
                if 1 < tl:
                    cmp('mean', v, loc + scale*m[1], amp=abs(loc) + 10*scale*(abs(m[1]) + 1e-30))
                else:
                    divergent('mean', v)
            if has(name, 'var'):
                v = run('var')
                if 2 < tl:
                    cmp('var', v, scale**2*(m[2] - m[1]**2), amp=scale**2*((20 if name == 'benini' else 2)*m[2] + (10/par[0]**2 if name == 'argus' and par[0] else 0)))
                else:
                    divergent('var', v)
            if has(name, 'skewness') and (3 >= tl or nmom >= 3):
                v = run('skewness')
                if 3 < tl:
                    s2 = m[2] - m[1]**2
                    c3 = m[3] - 3*m[1]*m[2] + 2*m[1]**3
                    cmp('skewness', v, c3/s2**1.5, amp=mp.mpf(10)**-20 + 10*abs(m[3])/s2**1.5 + 10*abs(c3)/s2**2.5*m[2])
                else:
                    divergent('skewness', v)
            if has(name, 'kurtosis') and (4 >= tl or nmom >= 4):
                v = run('kurtosis')
                if 4 < tl:
                    s2 = m[2] - m[1]**2
                    c4 = m[4] - 4*m[1]*m[3] + 6*m[1]**2*m[2] - 3*m[1]**4
                    cmp('kurtosis', v, c4/s2**2 - 3, amp=20*abs(m[4])/s2**2 + 20*abs(c4)/s2**3*m[2])
                else:
                    divergent('kurtosis', v)
            if has(name, 'entropy') and H is not None:
                v = run('entropy')
                big = max(abs(t) for t in par + (mp.one,))
                cmp('entropy', v, H + mp.log(scale), amp=10*max(1, abs(mp.log(scale)), big*mp.log(big + 2)))
            if has(name, 'noncentral_moment'):
                for n in range(0, 7):
                    if n < tl and n > nmom:
                        continue
                    v = run('noncentral_moment', n)
                    if n < tl:
                        terms = [binomial(n, k)*loc**(n - k)*scale**k*m[k] for k in range(n + 1)]
                        cmp('noncentral_moment', v, mp.fsum(terms), amp=mp.fsum([abs(t) for t in terms]), extra=f' n={n}')
                    else:
                        divergent('noncentral_moment', v, f' n={n}')
        elif name != 'vonmises':
            # no table: divergence is still decided
            if has(name, 'mean') and tl <= 1:
                divergent('mean', run('mean'))
            if has(name, 'var') and tl <= 2:
                divergent('var', run('var'))
        if has(name, 'mode'):
            v = run('mode')
            mp.dps = 3*dps + 30
            check_mode(u, name, d, par, v, tol, k0)
        u.sample(f'{name}{pkey(par)} at {dps} digits: moments, entropy, mode')
    return u


def check_mode(u, name, d, par, v, tol, k0):
    lo, hi = d.support(par)
    key = f'{name}.mode{k0}'
    if not realval(v) or mp.isinf(v):
        u.fail(key, 'no value', got=v)
        return
    v = +mp.mpf(v)
    cpar, loc, scale = canon(name, par)
    size = max([abs(v), abs(loc)] + [abs(e) for e in (lo, hi) if not mp.isinf(e)])
    dx = tol*size if size else tol*scale*mp.mpf(10)**-3
    if v < lo - dx or v > hi + dx:
        u.fail(key, 'outside the support', got=v, support=(lo, hi))
        return
    lnf = lambda x: d.lnf(x, *par)
    # global: nowhere on the lattice is the density larger
    best = None
    with mp.workdps(15):
        pts = d.points(par)
    inner = [x for x in pts]
    at = None
    near_lo, near_hi = v - dx <= lo, v + dx >= hi
    u.cover('mode at an end' if near_lo or near_hi else 'mode interior')
    if near_lo or near_hi:
        # a maximum at an end: the density decreases away from it
        e, sg = (lo, 1) if near_lo else (hi, -1)
        w = scale if mp.isinf(hi - lo) else hi - lo
        seq = [lnf(e + sg*w*mp.mpf(10)**-j) for j in (24, 20, 16, 12)]
        at = lnf(e + sg*w*mp.mpf(10)**-60)
        if any(seq[i + 1] > seq[i] + mp.mpf(10)**-9*max(1, abs(seq[i])) for i in range(3)) and \
                lnf(e + sg*w*mp.mpf(10)**-6) > at + mp.mpf(10)**-4:
            u.fail(key, 'density increases away from the reported mode', got=v)
            return
    else:
        at = lnf(v)
        h = dx/10**6

        def slope(x):
            return (lnf(x + h) - lnf(x - h))/(2*h)
        if v - 2*dx > lo and v + 2*dx < hi:
            s1, s2 = slope(v - dx), slope(v + dx)
            flat = mp.mpf(10)**(-mp.dps//2)/scale
            kink = name == 'laplace'
            if not kink and (s1 < -flat or s2 > flat):
                u.fail(key, 'the density has no maximum at the reported mode', got=v, slope_before=s1, slope_after=s2)
                return
    for x in inner:
        u.step()
        l = lnf(x)
        if l > at + mp.mpf(10)**-8*max(1, abs(l)) and not unbounded(name, par, at):
            u.fail(key, f'the density is larger at x={num(x)}', got=v, at_mode=at, there=l)
            return


def unbounded(name, par, at):
    return at > 40


def skip(name, par):
    """Outside the stated domain (see DESIGN.md)."""
    # the alternating series of exponweib needs about a extra bits and a**2 time
    return name == 'exponweib' and par[0] > 500 or name == 'gompertz' and par[0] > 5000
