"""P13  Exact tests, odds ratios and confidence intervals of 2x2 tables."""
import math
from fractions import Fraction as Fr
from itertools import product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import eps, mismatch, realval, fn_of
import mpsci.stats as S

ID = 'P13'
LEVEL = 'model_checking'
ALT = ['two-sided', 'less', 'greater']
LARGE = [(25, 28, 124, 19), (12, 0, 0, 15), (40, 3, 2, 60), (1, 30, 30, 1), (100, 1, 1, 2), (17, 17, 17, 17), (0, 50, 3, 20), (33, 44, 55, 66),
         (7, 60, 9, 1), (2, 90, 2, 1), (150, 149, 151, 150), (1, 1, 1, 200), (60, 1, 200, 9), (5, 0, 40, 12)]
LEVELS = [0, 0.5, 0.9, 0.95, 0.999, 0.999999999, 1]


def N(tier):
    return (7, 5) if tier == 'quick' else (11, 7)


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def bounds(tier):
    return (f'every 2x2 table with entries 0..{N(tier)[0]} and {len(LARGE)} larger ones for the exact test (two-sided: every table with a total up to {TOTAL(tier)}); every table with entries '
            f'0..{N(tier)[1] - 1} and the larger ones for odds ratios; all alternatives; confidence levels {LEVELS}; precisions {DPS(tier)}')


ASSUMPTIONS = ['the normal approximation (sample odds ratio) is undefined for tables with a zero cell but no zero margin']


def units(tier):
    out = [['fisher', 0, [i, 16]] for i in range(16)] + [['total', 5, [i, 16]] for i in range(16)]
    for d in DPS(tier):
        out += [['odds', d, [i, 24]] for i in range(24)] + [['sample', d, [i, 4]] for i in range(4)]
    return out + [['reject', 15, [0, 1]]]


def cost(u):
    return {'odds': 10}.get(u[0], 3)*(u[1] + 1)


def required_classes(tier):
    return ['fisher two-sided', 'fisher less', 'fisher greater', 'conditional', 'interval', 'sample', 'degenerate', 'rejected', 'symmetry', 'near ties']


def weights(a, b, c, d):
    """Number of tables with the same margins for each value of the first cell."""
    r0, r1, c0 = a + b, c + d, a + c
    lo, hi = max(0, c0 - r1), min(r0, c0)
    return {k: math.comb(r0, k)*math.comb(r1, c0 - k) for k in range(lo, hi + 1)}


def pvalue(t, alt):
    w = weights(*t)
    tot = sum(w.values())
    a = t[0]
    if alt == 'less':
        n = sum(v for k, v in w.items() if k <= a)
    elif alt == 'greater':
        n = sum(v for k, v in w.items() if k >= a)
    else:
        n = sum(v for v in w.values() if v <= w[a])
    return Fr(n, tot)


def tab(t):
    return [[t[0], t[1]], [t[2], t[3]]]


def run_unit(unit, tier):
    part, dps, (i, k) = unit
    u = Unit(f'{part}@{dps}')
    globals()['do_' + part](u, dps, i, k, tier)
    return u


def do_fisher(u, dps, i, k, tier):
    mp.dps = 15
    f = fn_of(S, 'fisher_exact')
    for t in (list(product(range(N(tier)[0] + 1), repeat=4)) + LARGE)[i::k]:
        u.trace()
        a, b, c, d = t
        orr = Fr(a*d, b*c) if b*c else math.inf if a*d else math.nan
        for alt in ALT:
            u.state()
            u.cover('fisher ' + alt)
            v = call(f, tab(t), alternative=alt)
            u.step()
            key = f'fisher_exact({t},{alt})'
            if bad(v) or len(v) != 2:
                u.fail(key, 'no result', got=v)
                continue
            o, p = v
            if not (o == orr or (o != o and orr != orr)):
                u.fail(key, 'odds ratio', got=o, want=str(orr))
            if p != pvalue(t, alt) or not isinstance(p, (Fr, int)):
                u.fail(key, 'p-value is not the exact rational', got=str(p), want=str(pvalue(t, alt)))
            if alt == 'two-sided':
                v2 = call(f, tuple(map(tuple, tab(t))))
                u.step()
                if bad(v2) or v2[1] != p:
                    u.fail(key + ' default', 'tuple or default alternative changes the result', got=v2)
        # symmetries of the table
        for s, al in (((a, c, b, d), ALT), ((d, c, b, a), ALT), ((c, d, a, b), ['two-sided', 'greater', 'less'])):
            for x, y in zip(ALT, al):
                v = call(f, tab(s), alternative=y)
                u.step()
                u.cover('symmetry')
                if bad(v) or v[1] != pvalue(t, x):
                    u.fail(f'fisher_exact({s},{y})', 'symmetry of the table', got=v)


def TOTAL(tier):
    return 52 if tier == 'quick' else 80


def do_total(u, dps, i, k, tier):
    """every table with a given total: near ties of probabilities need many cells"""
    f = fn_of(S, 'fisher_exact')
    mp.dps = 15
    for n in range(TOTAL(tier), 0, -1):
        for r in range(n + 1):
            if (n + r) % k != i:
                continue
            for c in range(n + 1):
                u.trace()
                w = weights(max(0, r + c - n), r - max(0, r + c - n), c - max(0, r + c - n), n - r - c + max(0, r + c - n))
                tot = sum(w.values())
                acc, run = {}, 0
                for v in sorted(w.values()):
                    run += v
                    acc[v] = run
                for a in w:
                    v = call(f, [[a, r - a], [c - a, n - r - c + a]])
                    u.step()
                    u.state()
                    u.cover('near ties')
                    if bad(v) or v[1] != Fr(acc[w[a]], tot):
                        u.fail(f'fisher_exact({(a, r - a, c - a, n - r - c + a)})', 'p-value is not the exact rational', got=str(v))


def near(f, v, tol):
    """Does the increasing function f change sign within a relative distance tol of v > 0?"""
    return f(v*(1 - tol)) <= 0 <= f(v*(1 + tol))


def do_odds(u, dps, i, k, tier):
    f = fn_of(S, 'odds_ratio')
    tol = 10*eps(dps)
    for t in (list(product(range(N(tier)[1]), repeat=4)) + LARGE)[i::k]:
        u.trace()
        a, b, c, d = t
        small = max(t) < N(tier)[1]
        w = weights(*t)
        lo, hi = min(w), max(w)
        degenerate = 0 in (a + b, c + d, a + c, b + d)
        for ai, alt in enumerate(ALT):
            u.state()
            u.cover('degenerate' if degenerate else 'conditional')
            r = call(f, tab(t), alternative=alt, dps=dps) if ai else call(f, tab(t), dps=dps)
            u.step()
            mp.dps = 2*dps + 50
            key = f'odds_ratio({t},{alt}) dps={dps}'
            if bad(r):
                u.fail(key, 'no result', got=r)
                continue
            v = r.odds_ratio
            if r.table != tab(t) or r.kind != 'conditional' or r.alternative != alt:
                u.fail(key, 'attributes', got=(r.table, r.kind, r.alternative))
            if r.pvalue != (1 if degenerate else pvalue(t, alt)):
                u.fail(key, 'p-value', got=str(r.pvalue), want=str(pvalue(t, alt)))

            def mean(nc):
                return mp.fsum(n*w[n]*nc**n for n in w) - a*mp.fsum(w[n]*nc**n for n in w)

            if degenerate:
                if not mp.isnan(v):
                    u.fail(key, 'odds ratio of a degenerate table must be nan', got=v)
            elif a == lo:
                if v != 0:
                    u.fail(key, 'odds ratio at the lower end must be 0', got=v)
            elif a == hi:
                if v != mp.inf:
                    u.fail(key, 'odds ratio at the upper end must be inf', got=v)
            elif not realval(v) or v <= 0 or not near(mean, +v, tol):
                u.fail(key, 'the mean at the estimate is not the observed cell', got=v)
            # confidence intervals
            lev = LEVELS if small and (sum(t) + ai) % 3 == 0 or tier != 'quick' else LEVELS[1:-1:2]
            for cl in lev:
                u.state()
                u.cover('interval')
                ci = call(r.odds_ratio_ci, cl, dps=dps)
                u.step()
                mp.dps = 2*dps + 50
                kk = key + f' level={cl}'
                if bad(ci):
                    u.fail(kk, 'no result', got=ci)
                    continue
                l, h = ci.low, ci.high
                if degenerate:
                    if l != 0 or h != mp.inf:
                        u.fail(kk, 'interval of a degenerate table', got=(l, h))
                    continue
                alpha = 1 - mp.mpf(cl)
                if alt == 'two-sided':
                    alpha /= 2

                def upper(nc):      # P(X <= a) = alpha, decreasing in nc
                    return alpha*mp.fsum(w[n]*nc**n for n in w) - mp.fsum(w[n]*nc**n for n in w if n <= a)

                def lower(nc):      # P(X >= a) = alpha, increasing in nc
                    return mp.fsum(w[n]*nc**n for n in w if n >= a) - alpha*mp.fsum(w[n]*nc**n for n in w)

                # the interval ends depend on alpha, which loses digits of the level near 1
                t2 = tol*(2 if alpha > mp.mpf(1)/1000 or alpha == 0 else 1/alpha*mp.mpf(10)**-5 + 2)
                if alt == 'less' or a == lo or alpha == 0:
                    if l != 0:
                        u.fail(kk, 'low end must be 0', got=l)
                elif alpha == 1:
                    if l != mp.inf:
                        u.fail(kk, 'low end must be inf', got=l)
                elif not realval(l) or l <= 0 or not near(lower, +l, t2):
                    u.fail(kk, 'low end does not have the tail probability', got=l)
                if alt == 'greater' or a == hi or alpha == 0:
                    if h != mp.inf:
                        u.fail(kk, 'high end must be inf', got=h)
                elif alpha == 1:
                    if h != 0:
                        u.fail(kk, 'high end must be 0', got=h)
                elif not realval(h) or h <= 0 or not near(upper, +h, t2):
                    u.fail(kk, 'high end does not have the tail probability', got=h)
        u.sample(f'odds_ratio({t}) with intervals at {dps} digits')


def do_sample(u, dps, i, k, tier):
    f = fn_of(S, 'odds_ratio')
    tol = 10*eps(dps)
    for t in (list(product(range(N(tier)[1]), repeat=4)) + LARGE)[i::k]:
        a, b, c, d = t
        degenerate = 0 in (a + b, c + d, a + c, b + d)
        if 0 in t and not degenerate:
            continue
        u.trace()
        for alt in ALT:
            u.state()
            u.cover('sample')
            r = call(f, tab(t), kind='sample', alternative=alt, dps=dps)
            u.step()
            mp.dps = 2*dps + 50
            key = f'odds_ratio({t},sample,{alt}) dps={dps}'
            if bad(r):
                u.fail(key, 'no result', got=r)
                continue
            if r.kind != 'sample' or r.alternative != alt:
                u.fail(key, 'attributes', got=(r.kind, r.alternative))
            if degenerate:
                if not mp.isnan(r.odds_ratio) or r.pvalue != 1:
                    u.fail(key, 'degenerate table', got=(r.odds_ratio, r.pvalue))
            else:
                o = mp.mpf(a*d)/(b*c)
                m = mismatch(r.odds_ratio, o, tol_rel=tol)
                if m:
                    u.fail(key, 'odds ratio ' + m, got=r.odds_ratio, want=o)
                z = mp.log(o)/mp.sqrt(mp.mpf(1)/a + mp.mpf(1)/b + mp.mpf(1)/c + mp.mpf(1)/d)
                p = {'two-sided': mp.erfc(abs(z)/mp.sqrt(2)), 'less': mp.erfc(-z/mp.sqrt(2))/2, 'greater': mp.erfc(z/mp.sqrt(2))/2}[alt]
                m = mismatch(r.pvalue, p, tol_rel=tol*(1 + z*z))
                if m:
                    u.fail(key, 'p-value ' + m, got=r.pvalue, want=p)
            for cl in LEVELS:
                u.state()
                ci = call(r.odds_ratio_ci, cl, dps=dps)
                u.step()
                mp.dps = 2*dps + 50
                kk = key + f' level={cl}'
                if bad(ci):
                    u.fail(kk, 'no result', got=ci)
                    continue
                if degenerate:
                    want = (mp.zero, mp.inf)
                else:
                    se = mp.sqrt(mp.mpf(1)/a + mp.mpf(1)/b + mp.mpf(1)/c + mp.mpf(1)/d)
                    q = mp.mpf(cl) if alt != 'two-sided' else (1 + mp.mpf(cl))/2
                    h = mp.sqrt(2)*mp.erfinv(2*q - 1) if 0 < q < 1 else mp.inf if q else mp.ninf
                    want = (mp.zero if alt == 'less' else mp.exp(mp.log(o) - h*se), mp.inf if alt == 'greater' else mp.exp(mp.log(o) + h*se))
                for side, v, x in (('low', ci.low, want[0]), ('high', ci.high, want[1])):
                    m = mismatch(v, x, tol_rel=tol*(1 + abs(mp.log(x)) if 0 < x < mp.inf else 1))
                    if m:
                        u.fail(f'{kk} {side}', m, got=v, want=x)


def do_reject(u, dps, i, k, tier):
    good = [[1, 2], [3, 4]]
    o = fn_of(S, 'odds_ratio')
    cases = [(o, ([[1, 2], [3, -1]],), {}), (o, ([[-1, 2], [3, 1]],), {}), (o, ([[1, 2]],), {}), (o, ([[1, 2, 3], [4, 5, 6]],), {}),
             (o, (good,), dict(kind='Sample')), (o, (good,), dict(kind='mle')), (o, (good,), dict(alternative='both')),
             (o, (good,), dict(kind='sample', alternative='Less')), (fn_of(S, 'fisher_exact'), (good,), dict(alternative='both')),
             (o, ([[0, -2], [0, 3]],), {}), (o, ([[0, 2], [0, -3]],), dict(kind='sample'))]
    for kind in ('conditional', 'sample'):
        for tb in (good, [[0, 0], [1, 2]]):
            r = call(o, tb, kind=kind, dps=dps)
            cases += [((lambda cl, r=r: r.odds_ratio_ci(cl)), (cl,), {}) for cl in (-0.001, -3, 1.0001, 95)]
    for f, a, kw in cases:
        v = call(f, *a, dps=dps, **kw)
        u.state()
        u.step(2)
        u.cover('rejected')
        if not isinstance(v, Raised) or v.type != 'ValueError':
            u.fail(f'reject {a}{kw}', 'accepted', got=v)
