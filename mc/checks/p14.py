"""P14  Power transformations, their inverses, likelihoods and estimates."""
from itertools import combinations_with_replacement, permutations, product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import eps, mismatch, realval, num, fn_of
import mpsci.fun as F
import mpsci.stats as S

ID = 'P14'
LEVEL = 'model_checking'
M = mp.mpf
with mp.workprec(53):
    XP = [M('1e-30'), M(1e-9), M(0.001), M(0.3), M(0.9999), M(1) - M(1e-12), M(1), M(1) + M(1e-12), M(1.0001), M(2), M(7.3), M(1000), M(1e9), M('1e40')]
    X1 = [M('-1') + M(1e-12), M(-0.999), M(-0.3), M(-1e-6), M(-1e-18), M('-1e-60'), M(0), M('1e-60'), M(1e-18), M(1e-6), M(0.3), M(1), M(7.3), M(1000), M(1e9)]
    XR = [M(-1e9), M(-1000), M(-7.3), M(-1), M(-0.3), M(-1e-6), M(-1e-18), M('-1e-60')] + X1[6:]
    LAM = [M(-8), M(-2.5), M(-1), M(-0.3), M(-1e-6), M(-1e-18), M('-1e-40'), M(0), M('1e-40'), M(1e-18), M(1e-6), M(0.3), M(1) - M(1e-9), M(1), M(1.7),
           M(2) - M(1e-9), M(2) - M(2)**-48, M(2), M(2) + M(2)**-48, M(2) + M(1e-9), M(2.5), M(5), M(20)]
    # ladders towards the special exponents and arguments
    with mp.workprec(250):
        LADDER = (2, 5, 10, 16, 20, 24, 27, 30, 34, 40, 44, 48, 51, 60, 70, 90, 130, 170)
        LAM += [c + s*M(2)**-j for c in (-1, 0, 1, 2) for s in (-1, 1) for j in LADDER]
        XP += [1 + s*M(2)**-j for s in (-1, 1) for j in (3, 10, 20, 34, 48)]
        X1 += [s*M(2)**-j for s in (-1, 1) for j in (3, 10, 30, 52)] + [-1 + M(2)**-j for j in (3, 20, 48)]
        XR += [s*M(2)**j for s in (-1, 1) for j in (-70, -52, -30, -10, -3, 1, 3, 20, 70)]
    LLF = [M(-3), M(-1), M(-0.3), M(-1e-9), M('-1e-40'), M(0), M('1e-40'), M(1e-9), M(0.3), M(1), M(2) - M(1e-9), M(2), M(2.5), M(4)]
SAMPLE = [0.1, 1.3, 2, 5.7, 30]
SAMPLER = [-4.1, -0.3, 0, 1.3, 7]


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def bounds(tier):
    return (f'complete products of {len(XP)}-{len(XR)} arguments and {len(LAM)} exponents (values next to 0, 1, 2 and -1 included) for every '
            f'transformation and its inverse, every multiset of 2-4 observations of a 5-letter alphabet for the likelihoods, of 3-4 for the '
            f'estimates; precisions {DPS(tier)}')


ASSUMPTIONS = ['mpmath exp, log and power at high precision are correct',
               'an estimate may fail loudly (the documentation says that the solver may not converge)']


def units(tier):
    out = []
    for d in DPS(tier):
        out += [['forward', d, 0], ['inverse', d, 0], ['round', d, 0], ['reject', d, 0]]
        out += [['llf', d, i] for i in range(4)] + [['mle', d, i] for i in range(12)]
    return out


def cost(u):
    return {'mle': 10, 'llf': 4}.get(u[0], 2)*u[1]


def required_classes(tier):
    return ['boxcox', 'boxcox1p', 'yeojohnson', 'pow1pm1', 'inv_boxcox', 'inv_boxcox1p', 'inv_yeojohnson', 'inv_pow1pm1', 'inv_powm1',
            'xlogy', 'xlog1py', 'boxcox_llf', 'yeojohnson_llf', 'boxcox_mle', 'yeojohnson_mle', 'rejected', 'round trip', 'exponent 0']


def run_unit(unit, tier):
    part, dps, i = unit
    u = Unit(f'{part}@{dps}')
    mp.dps = hi(dps)
    globals()['do_' + part](u, dps, i, tier)
    return u


def hi(dps):
    return 4*dps + 200


def fn(name):
    return fn_of(S if hasattr(S, name) else F, name)


def ref_pow1pm1(x, y):
    return mp.expm1(y*mp.log1p(x)) if x > -1 else -mp.one


def ref_boxcox(x, l):
    return mp.log(x) if l == 0 else mp.expm1(l*mp.log(x))/l


def ref_boxcox1p(x, l):
    return mp.log1p(x) if l == 0 else mp.expm1(l*mp.log1p(x))/l


def ref_yj(x, l):
    return ref_boxcox1p(x, l) if x >= 0 else -ref_boxcox1p(-x, 2 - l)


def inv1p(t, l):
    """x with boxcox1p(x, l) = t, and the size of the exponent and of 1/(1 + l t); None outside the range."""
    if l == 0:
        return mp.expm1(t), abs(t), mp.one, mp.exp(t)
    w = 1 + l*t
    if w <= 0:
        return None
    e = mp.log1p(l*t)/l
    return mp.expm1(e), abs(e), max(1, 1/w), mp.exp(e)


def expect(u, key, v, want, tol):
    u.state()
    m = mismatch(v, want, tol_rel=tol)
    if m:
        u.fail(key, m, got=v, want=want)


def go(u, dps, name, *a):
    v = call(fn(name), *a, dps=dps)
    mp.dps = hi(dps)
    u.step()
    u.cover(name)
    return v


def forms(x):
    """the same number as mpf and, where it is one, as Python number"""
    yield x
    f = float(x)
    if mp.mpf(f) == x:
        yield int(f) if f == int(f) and abs(f) < 1e6 else f


def do_forward(u, dps, i, tier):
    tol = 10*eps(dps)
    for l in LAM:
        u.trace()
        if l == 0:
            u.cover('exponent 0')
        for rl in forms(l):
            for x in XP:
                for rx in forms(x):
                    expect(u, f'boxcox({num(x)},{num(l)}) dps={dps}', go(u, dps, 'boxcox', rx, rl), ref_boxcox(x, l), tol)
            if l > 0:
                expect(u, f'boxcox(0,{num(l)}) dps={dps}', go(u, dps, 'boxcox', 0, rl), -1/l, tol)
                expect(u, f'boxcox1p(-1,{num(l)}) dps={dps}', go(u, dps, 'boxcox1p', -1, rl), -1/l, tol)
            for x in X1:
                for rx in forms(x):
                    expect(u, f'boxcox1p({num(x)},{num(l)}) dps={dps}', go(u, dps, 'boxcox1p', rx, rl), ref_boxcox1p(x, l), tol)
                    expect(u, f'pow1pm1({num(x)},{num(l)}) dps={dps}', go(u, dps, 'pow1pm1', rx, rl), ref_pow1pm1(x, l), tol)
            for x in XR:
                for rx in forms(x):
                    expect(u, f'yeojohnson({num(x)},{num(l)}) dps={dps}', go(u, dps, 'yeojohnson', rx, rl), ref_yj(x, l), tol)
    for x in LAM + [mp.inf]:
        for y in XP + [mp.zero, mp.inf]:
            if mp.isinf(x) and (y == 1) or (x == 0 and mp.isinf(y)):
                continue
            w = mp.zero if x == 0 else x*mp.log(y)
            expect(u, f'xlogy({num(x)},{num(y)}) dps={dps}', go(u, dps, 'xlogy', x, y), w, tol)
        for y in X1 + [mp.mpf(-1), mp.inf]:
            if mp.isinf(x) and y == 0 or (x == 0 and mp.isinf(y)):
                continue
            w = mp.zero if x == 0 else x*mp.log1p(y)
            expect(u, f'xlog1py({num(x)},{num(y)}) dps={dps}', go(u, dps, 'xlog1py', x, y), w, tol)
    for f in ('xlogy', 'xlog1py'):
        for a in ((mp.nan, 1), (0, mp.nan), (mp.nan, mp.nan)):
            v = go(u, dps, f, *a)
            u.state()
            if bad(v) or not mp.isnan(v):
                u.fail(f'{f}{a} dps={dps}', 'nan must propagate', got=v)


TS = XR


def do_inverse(u, dps, i, tier):
    tol = 10*eps(dps)
    g = mp.mpf(10)**-4                        # most of the five guard digits
    for l in LAM:
        u.trace()
        for t in TS:
            r = inv1p(t, l)
            if r and r[1] < 10**7 and r[2] < mp.mpf(10)**dps:
                x, e, c, y = r
                for rt in forms(t):
                    k = f'({num(t)},{num(l)}) dps={dps}'
                    tt = tol*max(1, (1 + e)*g, (1 + (abs(1/l) if l else 0))*c*g)
                    expect(u, 'inv_boxcox1p' + k, go(u, dps, 'inv_boxcox1p', rt, l), x, tt)
                    expect(u, 'inv_boxcox' + k, go(u, dps, 'inv_boxcox', rt, l), y, tt)
            if t >= 0:
                r = inv1p(t, l)
            else:
                r = inv1p(-t, 2 - l)
                r = r and (-r[0], r[1], r[2], None)
            if r and r[1] < 10**7 and r[2] < mp.mpf(10)**dps:
                x, e, c, _ = r
                ll = l if t >= 0 else 2 - l
                tt = tol*max(1, (1 + e)*g, (1 + (abs(1/ll) if ll else 0))*c*g)
                for rt in forms(t):
                    expect(u, f'inv_yeojohnson({num(t)},{num(l)}) dps={dps}', go(u, dps, 'inv_yeojohnson', rt, l), x, tt)
            if l != 0 and t > -1:
                e = mp.log1p(t)/l
                if abs(e) < 10**7:
                    tt = tol*max(1, (1 + abs(e))*g)
                    for rt in forms(t):
                        expect(u, f'inv_pow1pm1({num(t)},{num(l)}) dps={dps}', go(u, dps, 'inv_pow1pm1', rt, l), mp.expm1(e), tt)
                        expect(u, f'inv_powm1({num(t)},{num(l)}) dps={dps}', go(u, dps, 'inv_powm1', rt, l), mp.exp(e), tt)


def do_round(u, dps, i, tier):
    """The composition of the real transformation with the real inverse is the identity."""
    for f, inv, xs in (('boxcox', 'inv_boxcox', XP), ('boxcox1p', 'inv_boxcox1p', X1), ('yeojohnson', 'inv_yeojohnson', XR),
                       ('pow1pm1', 'inv_pow1pm1', X1)):
        for x in xs:
            for l in LAM:
                if l == 0 and f == 'pow1pm1':
                    continue
                u.trace()
                y = go(u, dps, f, x, l)
                if bad(y):
                    u.fail(f'{f}({num(x)},{num(l)}) dps={dps}', 'no result', got=y)
                    continue
                # sensitivity of the inverse to one rounding of y
                if f == 'boxcox':
                    lg, ll = mp.log(x), l
                elif f == 'yeojohnson':
                    lg, ll = mp.log1p(abs(x)), l if x >= 0 else 2 - l
                else:
                    lg, ll = mp.log1p(x), l
                t = ref_boxcox1p(mp.expm1(lg), ll)
                cond = abs(t*mp.exp(lg*(1 - ll)))/abs(x) if x else mp.one
                if cond > mp.mpf(10)**(dps - 8) or abs(lg*(1 - ll)) > dps or lg*ll < -2.3*(dps - 1):
                    continue
                mp.dps = dps
                y = +y                               # what the caller sees
                mp.dps = hi(dps)
                b = go(u, dps, inv, y, l)
                u.state()
                u.cover('round trip')
                m = mismatch(b, x, tol_rel=30*eps(dps)*(1 + 10*cond))
                if m:
                    u.fail(f'{inv}({f}({num(x)},{num(l)})) dps={dps}', 'not the identity: ' + m, got=b, want=x)


def ref_llf(kind, lam, x):
    n = len(x)
    T = [ref_boxcox(t, lam) if kind == 'boxcox' else ref_yj(t, lam) for t in x]
    mu = mp.fsum(T)/n
    var = mp.fsum((t - mu)**2 for t in T)/n
    J = mp.fsum(mp.log(t) if kind == 'boxcox' else mp.sign(t)*mp.log1p(abs(t)) for t in x)
    return (lam - 1)*J - mp.mpf(n)/2*mp.log(var), max(map(abs, T))/mp.sqrt(var), abs((lam - 1)*J) + n*abs(mp.log(var))


def do_llf(u, dps, i, tier):
    for kind, alpha in (('boxcox', SAMPLE), ('yeojohnson', SAMPLER)):
        sets = [s for n in (2, 3, 4) for s in combinations_with_replacement(alpha, n) if len(set(s)) > 1]
        for s in sets[i::4]:
            u.trace()
            x = [mp.mpf(t) for t in s]
            for lam in LLF:
                w, cond, size = ref_llf(kind, lam, x)
                key = f'{kind}_llf({num(lam)},{s}) dps={dps}'
                tol = 10*eps(dps)*max(1 + size, len(s)*cond*mp.mpf(10)**-4)
                for arg in (list(s), tuple(x[::-1])):
                    v = go(u, dps, kind + '_llf', lam, arg)
                    u.state()
                    m = mismatch(v, w, tol_abs=tol)
                    if m:
                        u.fail(key, m, got=v, want=w)


def do_mle(u, dps, i, tier):
    ns = (3,) if tier == 'quick' else (3, 4)
    for kind, alpha in (('boxcox', SAMPLE), ('yeojohnson', SAMPLER)):
        sets = [s for n in ns for s in combinations_with_replacement(alpha, n) if len(set(s)) > 2] + [tuple(alpha)]
        for s in sets[i::12]:
            x = [mp.mpf(t) for t in s]
            vals = []
            for lam0 in (None, 0.5, -0.5, 2) if dps == 15 or tier != 'quick' else (None,):
                u.trace()
                kw = {} if lam0 is None else dict(lam0=lam0)
                v = call(fn(kind + '_mle'), list(s), dps=dps, **kw)
                mp.dps = 2*dps + 40
                u.step()
                u.state()
                u.cover(kind + '_mle')
                if isinstance(v, Raised):
                    u.cover('loud failure')
                    continue
                key = f'{kind}_mle({s},{lam0}) dps={dps}'
                if not realval(v):
                    u.fail(key, 'no value', got=v)
                    continue
                v = +v

                def f(t):
                    return ref_llf(kind, t, x)[0]

                h = mp.mpf(10)**(-(dps + 10)//2)
                d1 = (f(v + h) - f(v - h))/(2*h)
                d2 = (f(v + h) - 2*f(v) + f(v - h))/h**2
                if abs(v) > 20:
                    continue                        # flat tail of the likelihood
                if abs(d1) > abs(d2)*mp.mpf(10)**(-dps/mp.mpf(2)):
                    u.fail(key, 'not a stationary point of the likelihood', got=v, step=d1/d2)
                elif d2 > 0:
                    u.fail(key, 'a minimum of the likelihood', got=v)
                else:
                    vals.append(v)
            # order and representation of the sample
            if vals:
                for p in list(permutations(s))[1:6]:
                    v = call(fn(kind + '_mle'), tuple(mp.mpf(t) for t in p), dps=dps)
                    mp.dps = 2*dps + 40
                    u.step()
                    if isinstance(v, Raised):
                        continue
                    if not realval(v) or min(abs(v - t) for t in vals) > (1 + abs(v))*mp.mpf(10)**(-dps/mp.mpf(2)):
                        u.fail(f'{kind}_mle({p}) dps={dps}', 'depends on the order', got=v, want=vals)


def do_reject(u, dps, i, tier):
    for f, a in [('inv_powm1', (0.5, 0)), ('inv_pow1pm1', (0.5, 0)), ('inv_powm1', (-1, 2)), ('inv_pow1pm1', (-1, 2)), ('inv_powm1', (-1.5, 3)),
                 ('inv_pow1pm1', (-7, 0.5)), ('inv_powm1', (-2, 0)), ('yeojohnson_llf', (1, [])), ('inv_boxcox', (3, -1)), ('inv_boxcox1p', (-2, 1)),
                 ('inv_yeojohnson', (2, -1)), ('inv_yeojohnson', (-3, 3))]:
        v = go(u, dps, f, *a)
        u.state()
        u.trace()
        u.cover('rejected')
        if not isinstance(v, Raised) or v.type != 'ValueError':
            u.fail(f'{f}{a} dps={dps}', 'accepted', got=v)
