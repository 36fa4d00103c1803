"""P12  Means, variances and test statistics are the exact values of their definitions."""
from collections import Counter
from fractions import Fraction as Fr
from itertools import product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import eps, mismatch, realval, num, fn_of
import mpsci.stats as S

ID = 'P12'
LEVEL = 'model_checking'
# values: full 53-bit mantissas, tiny, large and negative ones, ties
ANY = [-3, 0.1, 1e-12, 2, 100000000.1]
POS = [0.1, 1e-12, 2, 7, 100000000.1]
WPOS = [0, 1, 0.3, 2]
WANY = [0, 1, 0.3, -0.7, 2]
PM = ['-inf', -3, -1, -0.5, -1e-9, 0, 1e-9, 0.3, 1, 2, 7, 'inf']
PL = ['-inf', -2, 0, 0.25, 0.5, 1, 1.5, 2, 3.3, 'inf']
XY = [0, 1, 2, 5.1]
ALT = ['two-sided', 'less', 'greater']


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def bounds(tier):
    return ('every sequence of up to 4 values of a 5-letter alphabet (up to 3 with weights, every weight vector), every '
            'order p of the list, every pair of 3-4 point sequences for correlations, every table of counts 0..4 of up '
            f'to 4 cells, every 2-3 groups of 2-3 observations; long sequences of 7 to 257 (1025) numbers for every function; Python numbers and multi-precision numbers; precisions {DPS(tier)}')


ASSUMPTIONS = ['weights of the geometric, harmonic, power and Lehmer means are nonnegative',
               'the Lehmer mean of order 1/2 is documented to be the geometric mean',
               'tests are undefined (out of the domain) for zero expected counts, zero within-group variance and n = 2 one-sided']


def units(tier):
    out = []
    for d in DPS(tier):
        for part in ('moments', 'means', 'weights', 'corr', 'ci', 'anova', 'gof', 'misc', 'long'):
            k = {'moments': 3, 'means': 4, 'weights': 5, 'corr': 4, 'anova': 4, 'gof': 4, 'long': 15}.get(part, 1)
            out += [[part, d, [i, k]] for i in range(k)]
    return out


def cost(u):
    return {'weights': 9, 'corr': 8, 'anova': 6, 'means': 5, 'long': 12}.get(u[0], 1)*u[1]


def required_classes(tier):
    return ['mean', 'var', 'std', 'variation', 'gmean', 'hmean', 'pmean', 'lehmer_mean', 'weighted', 'pearsonr', 'pearsonr_ci',
            'anova', 'chisquare', 'gtest', 'unique_counts', 'rejected', 'perfect correlation', 'long sequences']


def fr(v):
    if isinstance(v, mp.mpf):
        m, e = v.man_exp
        return Fr(int(m))*Fr(2)**int(e)
    return Fr(v)


def fm(q):
    return mp.mpf(q.numerator)/q.denominator


def name(seq):
    if len(seq) > 12:
        return f'[{len(seq)}: {num(seq[0])},{num(seq[1])},...]'
    return '[' + ','.join(num(v) for v in seq) + ']'


class Ck:
    def __init__(self, u, dps):
        self.u, self.dps = u, dps
        self.tol = 10*eps(dps)
        self.hi = 2*dps + 60

    def call(self, f, *a, **k):
        v = call(fn_of(S, f), *a, dps=self.dps, **k)
        mp.dps = self.hi
        self.u.step()
        return v

    def eq(self, key, v, want, size=0):
        """Agreement to 10 units of the last digit, relative to want or to the size of the terms."""
        self.u.state()
        m = mismatch(v, want, tol_abs=self.tol*size, tol_rel=self.tol)
        if m:
            self.u.fail(f'{key} dps={self.dps}', m, got=v, want=want)
        return not m


def both(seq):
    yield list(seq)
    with mp.workprec(53):
        m = [mp.mpf(t) for t in seq]
    yield tuple(m)


def run_unit(unit, tier):
    part, dps, (i, k) = unit
    u = Unit(f'{part}@{dps}')
    ck = Ck(u, dps)
    mp.dps = ck.hi
    globals()['do_' + part](u, ck, i, k, tier)
    return u


def moments_of(u, ck, s):
    u.trace()
    q = [fr(t) for t in s]
    n = len(q)
    mu = sum(q)/n
    ss = sum((t - mu)**2 for t in q)
    for rep in both(s):
        u.cover('mean')
        ck.eq(f'mean({name(s)})', ck.call('mean', rep), fm(mu), max(abs(fm(t)) for t in q))
        for dd in (0, 1, 0.5):
            if n - dd <= 0:
                continue
            u.cover('var')
            w = fm(ss)/(n - mp.mpf(dd))
            v1 = ck.call('var', rep, ddof=dd)
            ck.eq(f'var({name(s)},ddof={dd})', v1, w)
            if dd == 0:
                ck.eq(f'var({name(s)})', ck.call('var', rep), w)
                ck.eq(f'std({name(s)})', ck.call('std', rep), mp.sqrt(w))
            u.cover('std')
            ck.eq(f'std({name(s)},ddof={dd})', ck.call('std', rep, ddof=dd), mp.sqrt(w))
            # a mean that cancels has no relative accuracy
            if abs(mu)*10**3 > max(abs(t) for t in q):
                u.cover('variation')
                ck.eq(f'variation({name(s)},ddof={dd})', ck.call('variation', rep, ddof=dd), mp.sqrt(w)/fm(mu))
                if dd == 1:
                    ck.eq(f'variation({name(s)})', ck.call('variation', rep), mp.sqrt(w)/fm(mu))


def do_moments(u, ck, i, k, tier):
    for s in [s for n in (1, 2, 3, 4) for s in product(ANY, repeat=n)][i::k]:
        moments_of(u, ck, s)


def ref_pmean(q, w, p):
    """Power mean of positive rationals with weights, p a number or +-inf."""
    if p == 'inf':
        return fm(max(q))
    if p == '-inf':
        return fm(min(q))
    W = fm(sum(w))
    if p == 0:
        return mp.exp(mp.fsum(fm(b)*mp.log(fm(a)) for a, b in zip(q, w))/W)
    p = mp.mpf(p)
    with mp.extradps(30):
        return mp.power(mp.fsum(fm(b)*mp.power(fm(a), p) for a, b in zip(q, w))/W, 1/p)


def ref_lehmer(q, w, p):
    if p == 'inf':
        return fm(max(q))
    if p == '-inf':
        return fm(min(q))
    if p == 0.5:
        return ref_pmean(q, w, 0)
    p = mp.mpf(p)
    return (mp.fsum(fm(b)*mp.power(fm(a), p) for a, b in zip(q, w))
            / mp.fsum(fm(b)*mp.power(fm(a), p - 1) for a, b in zip(q, w)))


def pnum(p):
    return mp.mpf(p) if isinstance(p, str) else p


def means_of(u, ck, s):
    u.trace()
    q = [fr(t) for t in s]
    one = [Fr(1)]*len(q)
    for rep in both(s):
        u.cover('gmean')
        ck.eq(f'gmean({name(s)})', ck.call('gmean', rep), ref_pmean(q, one, 0))
        u.cover('hmean')
        ck.eq(f'hmean({name(s)})', ck.call('hmean', rep), ref_pmean(q, one, -1))
        for p in PM:
            u.cover('pmean')
            ck.eq(f'pmean({name(s)},p={p})', ck.call('pmean', rep, p=pnum(p)), ref_pmean(q, one, p))
        for p in PL:
            u.cover('lehmer_mean')
            ck.eq(f'lehmer_mean({name(s)},p={p})', ck.call('lehmer_mean', rep, p=pnum(p)), ref_lehmer(q, one, p))


def do_means(u, ck, i, k, tier):
    seqs = [s for n in (1, 2, 3) for s in product(POS, repeat=n)]
    seqs += [(2, 0.1, 7, 2), (7, 7, 7, 7), (0.1, 0.3, 0.2, 1000000.7, 3)]
    for s in seqs[i::k]:
        means_of(u, ck, s)
    if i == 0:
        # zeros and negative values
        for s in product([0, 0.1, 2], repeat=3):
            if 0 in s:
                ck.eq(f'gmean({name(s)})', ck.call('gmean', list(s)), mp.zero)
                ck.eq(f'hmean({name(s)})', ck.call('hmean', list(s)), mp.zero)
        for s in product([-3, 0.1, 2, -0.7], repeat=3):
            q = [fr(t) for t in s]
            h = sum(1/t for t in q)
            ck.eq(f'hmean({name(s)})', ck.call('hmean', list(s)), fm(len(q)/h), abs(fm(len(q)/h))*10)


def do_weights(u, ck, i, k, tier):
    seqs = [s for n in (1, 2, 3) for s in product(ANY if tier != 'quick' else [-3, 0.1, 2], repeat=n)]
    for s in seqs[i::k]:
        u.trace()
        q = [fr(t) for t in s]
        for w in product(WANY, repeat=len(s)):
            wq = [fr(t) for t in w]
            W = sum(wq)
            size = max(abs(fm(a*b)) for a, b in zip(q, wq))
            for rs, rw in zip(both(s), both(w)):
                v = ck.call('mean', rs, weights=rw)
                u.cover('weighted')
                if abs(W) < Fr(1, 10**9):
                    if W == 0 and not bad(v):
                        u.fail(f'mean({name(s)},weights={name(w)})', 'weights with sum zero accepted', got=v)
                    continue
                ck.eq(f'mean({name(s)},weights={name(w)})', v, fm(sum(a*b for a, b in zip(q, wq))/W), size/abs(fm(W)))
    seqs = [s for n in (1, 2, 3) for s in product(POS if tier != 'quick' else [0.1, 2, 7], repeat=n)]
    for s in seqs[i::k]:
        u.trace()
        q = [fr(t) for t in s]
        for w in product(WPOS, repeat=len(s)):
            wq = [fr(t) for t in w]
            if sum(wq) == 0:
                continue
            reps = list(zip(both(s), both(w)))
            for rs, rw in reps:
                t = f'({name(s)},weights={name(w)}'
                ck.eq(f'gmean{t})', ck.call('gmean', rs, weights=rw), ref_pmean(q, wq, 0))
                ck.eq(f'hmean{t})', ck.call('hmean', rs, weights=rw), ref_pmean(q, wq, -1))
            rs, rw = reps[len(s) % 2]
            for p in PM[1:-1]:
                ck.eq(f'pmean{t},p={p})', ck.call('pmean', rs, p=pnum(p), weights=rw), ref_pmean(q, wq, p))
            for p in PL[1:-1]:
                ck.eq(f'lehmer_mean{t},p={p})', ck.call('lehmer_mean', rs, p=pnum(p), weights=rw), ref_lehmer(q, wq, p))


def ref_r(x, y):
    q, t = [fr(a) for a in x], [fr(a) for a in y]
    n = len(q)
    mx, my = sum(q)/n, sum(t)/n
    sxy = sum((a - mx)*(b - my) for a, b in zip(q, t))
    sxx, syy = sum((a - mx)**2 for a in q), sum((b - my)**2 for b in t)
    return sxy, sxx, syy


def ref_p(r, n, alt):
    """p-value of the correlation test: (1 - r)/2 has a symmetric beta distribution."""
    a = mp.mpf(n)/2 - 1

    def cdf(t):
        return mp.betainc(a, a, 0, t, regularized=True) if t > 0 else mp.zero

    if alt == 'two-sided':
        return 2*cdf((1 - abs(r))/2)
    return cdf((1 + (r if alt == 'less' else -r))/2)


def corr_of(u, ck, x, y):
    u.trace()
    n = len(x)
    sxy, sxx, syy = ref_r(x, y)
    for (rx, ry) in zip(both(x), both(y)):
        for alt in ALT:
            u.cover('pearsonr')
            v = ck.call('pearsonr', rx, ry, alternative=alt)
            t = f'pearsonr({name(x)},{name(y)},{alt})'
            if bad(v) or not isinstance(v, tuple) or len(v) != 2:
                u.fail(t + f' dps={ck.dps}', 'no result', got=v)
                continue
            if sxx*syy == 0:
                if not (mp.isnan(v[0]) and mp.isnan(v[1])):
                    u.fail(t + f' dps={ck.dps}', 'constant data must give nan', got=v)
                continue
            r = fm(sxy)/mp.sqrt(fm(sxx*syy))
            # cancellation in the deviations from the mean
            rc = 1 + max(abs(mp.mpf(t)) for t in x)/mp.sqrt(fm(sxx)) + max(abs(mp.mpf(t)) for t in y)/mp.sqrt(fm(syy))
            rc = rc if rc > 20 else mp.mpf(1)
            prec = mp.mpf(ck.dps)*mp.log(10, 2)
            ck.eq(t + ' r', v[0], r, rc)
            if n == 2:
                if alt == 'two-sided':
                    ck.eq(t + ' p', v[1], mp.one)
                continue
            if sxy*sxy == sxx*syy:
                u.cover('perfect correlation')
            # r is computed at the working precision: p must belong to an r within a few roundings
            d = 8*n*mp.mpf(2)**-mp.mpf(prec)*rc
            lo, mid, hi = (ref_p(max(-1, min(1, r + e)), n, alt) for e in (-d, 0, d))
            ck.eq(t + ' p', v[1], mid, 1/ck.tol*(max(lo, mid, hi) - min(lo, mid, hi)) + mid)


def do_corr(u, ck, i, k, tier):
    pairs = [(x, y) for n in (2, 3) for x in product(XY, repeat=n) for y in product(XY, repeat=n)]
    big = [(0.1, 0.2, 0.3, 0.4), (1, 2, 3, 5.1), (1e8 + 0.1, 1e8 + 0.2, 1e8 + 0.3, 1e8 + 0.5), (2, 2, 5.1, 0), (0, 1, 0, 1),
           (1, 2, 3, 3.0001), (-1, -2, -3, -3.0001), (0, 0, 0, 1), (1, 2, 3, 4)]
    pairs += [(x, y) for x in big for y in big] + [(x*3, y + x + y) for x in big for y in big]
    for x, y in pairs[i::k]:
        corr_of(u, ck, x, y)


def do_ci(u, ck, i, k, tier):
    for r in [-1, -0.999, -0.3, 0, 1e-12, 0.5, 0.9999999, 1]:
        for n in [4, 5, 10, 1000]:
            for alpha in [1e-40, 1e-12, 0.001, 0.05, 0.5, 0.95, 1]:
                u.trace()
                for alt in ALT:
                    u.cover('pearsonr_ci')
                    v = ck.call('pearsonr_ci', r, n, alpha, alternative=alt)
                    t = f'pearsonr_ci({r},{n},{alpha},{alt})'
                    if bad(v) or len(v) != 2:
                        u.fail(t + f' dps={ck.dps}', 'no result', got=v)
                        continue
                    z = mp.atanh(mp.mpf(r))
                    s = 1/mp.sqrt(mp.mpf(n) - 3)
                    a = mp.mpf(alpha)/2 if alt == 'two-sided' else mp.mpf(alpha)
                    with mp.extradps(60):
                        h = mp.sqrt(2)*mp.erfinv(1 - 2*a) if a < 1 else mp.ninf
                    lo, hi = mp.tanh(z - h*s), mp.tanh(z + h*s)
                    if abs(r) == 1 and mp.isinf(h):
                        continue
                    if alt == 'less':
                        lo = -mp.one
                    if alt == 'greater':
                        hi = mp.one
                    ck.eq(t + ' low', v[0], lo, 1)
                    ck.eq(t + ' high', v[1], hi, 1)


def anova_of(u, ck, c):
    u.trace()
    q = [[fr(t) for t in g] for g in c]
    n = sum(map(len, q))
    g = len(q)
    grand = sum(sum(x) for x in q)/n
    vb = sum(len(x)*(sum(x)/len(x) - grand)**2 for x in q)
    vw = sum(sum((t - sum(x)/len(x))**2 for t in x) for x in q)
    if vw == 0 or n == g:
        return
    F = fm(vb/(g - 1)/(vw/(n - g)))
    d1, d2 = mp.mpf(g - 1), mp.mpf(n - g)
    p = mp.betainc(d2/2, d1/2, 0, d2/(d2 + d1*F), regularized=True)
    for rep in ([list(x) for x in c], [tuple(mp.mpf(t) for t in x) for x in c]):
        u.cover('anova')
        v = ck.call('anova_oneway', *rep)
        t = 'anova_oneway(' + ','.join(name(x) for x in c) + ')'
        if bad(v):
            u.fail(t + f' dps={ck.dps}', 'no result', got=v)
            continue
        mx = max(abs(t) for x in q for t in x)
        df = fm(mx/vw*(n - g)/(g - 1))*(mp.sqrt(fm(vb)) + fm(mx)*ck.tol)
        ck.eq(t + ' F', v.f, F, df)
        ck.eq(t + ' p', v.p, p, 1 + fm(mx)/mp.sqrt(fm(vw)) if F < 1 else p)


def do_anova(u, ck, i, k, tier):
    vals = [1, 2, 5.1]
    gs = [g for n in (2, 3) for g in product(vals, repeat=n)]
    ex = [(1.0000001, 1.0000002), (5, 5.0000001, 5.0000003), (1e8 + 0.1, 1e8 + 0.2), (3,), (-4.7, 2e-12, 7)]
    combos = [(a, b) for a in gs for b in gs] if tier != 'quick' else [(a, b) for a in gs for b in gs[::2]]
    combos += [(a, b) for a in ex for b in ex + gs[:12]]
    combos += [(a, b, c) for a in ex + gs[:6] for b in ex for c in gs[::4] + ex]
    for c in combos[i::k]:
        anova_of(u, ck, c)


def gof_of(u, ck, o, e):
    n = len(o)
    oq, eq = [fr(t) for t in o], [fr(t) for t in e]
    x2 = fm(sum((a - b)**2/b for a, b in zip(oq, eq)))
    terms = [2*fm(a)*mp.log(fm(a/b)) if a else mp.zero for a, b in zip(oq, eq)]
    g = mp.fsum(terms)
    df = mp.mpf(n - 1)
    for ro, re_ in zip(both(o), both(e)):
        for fn, stat, size in (('chisquare', x2, 0), ('gtest', g, max(map(abs, terms)))):
            u.cover(fn)
            v = ck.call(fn, ro, re_)
            t = f'{fn}({name(o)},{name(e)})'
            if bad(v) or not isinstance(v, tuple):
                u.fail(t + f' dps={ck.dps}', 'no result', got=v)
                continue
            ck.eq(t + ' stat', v[0], stat, size)
            p = mp.gammainc(df/2, stat/2, mp.inf, regularized=True)
            ck.eq(t + ' p', v[1], p, p*(1 + stat) + (size if stat < 1 else p*size))


def do_gof(u, ck, i, k, tier):
    obs = [o for n in (2, 3, 4) for o in product(range(5 if n < 4 else 4), repeat=n) if sum(o) > 0]
    for o in obs[i::k]:
        u.trace()
        n, tot = len(o), sum(o)
        exps = [[tot/n]*n] if tot % n == 0 or n in (2, 4) else []
        exps += [[tot - 0.25*(n - 1)] + [0.25]*(n - 1)]
        exps += [[0.75]*(n - 1) + [tot - 0.75*(n - 1)]] if tot > 0.75*(n - 1) else []
        exps = [e for e in exps if min(e) > 0]
        if min(o) > 0:
            exps.append(list(o))
        for e in exps:
            gof_of(u, ck, o, e)
    if i == 0:
        # sums that differ are rejected, unless the caller tolerates the difference
        for o, e, rt, ok in [([1, 2, 3], [1, 2, 4], None, False), ([1, 2, 3], [1, 2, 4], 0.2, True), ([1, 2], [1.0001, 2], None, False),
                             ([1, 2], [1.0001, 2], 0.001, True), ([10**6, 1], [10**6, 1.5], None, False),
                             ([10**6, 1], [10**6, 1.5], 1e-9, False), ([10**6, 1], [10**6, 1.5], 1e-6, True),
                             ([0.1, 0.2, 0.3], [0.6 - 0.5, 0.2, 0.3], None, False)]:
            if ck.dps != 15 and o == [0.1, 0.2, 0.3]:
                continue
            for fn in ('chisquare', 'gtest'):
                v = ck.call(fn, o, e) if rt is None else ck.call(fn, o, e, sum_rel_tol=rt)
                u.state()
                if o == [0.1, 0.2, 0.3]:
                    ok = True
                if ok == isinstance(v, Raised) or (not ok and v.type != 'ValueError'):
                    u.fail(f'{fn}({name(o)},{name(e)},{rt}) sums dps={ck.dps}', 'sums that differ' if not ok else 'tolerated', got=v)


def longs(tier):
    """deterministic long sequences: big offset and small spread, full mantissas, wide range, ties"""
    out = []
    for n in (7, 12, 20, 33, 50, 65, 101, 130, 257, 513, 1025)[:9 if tier == 'quick' else 11]:
        out.append([10**12 + (j*j % 11) for j in range(n)])
        out.append([1 + ((j*7919) % 1009)/1009 for j in range(n)])
        out.append([2.0**((j*37) % 61 - 30)*1.1 for j in range(n)])
        out.append([(j % 4) + 1 for j in range(n)])
        out.append([1e9 + 0.1*j for j in range(n)])
    return out


def do_long(u, ck, i, k, tier):
    for s in longs(tier)[i::k]:
        u.cover('long sequences')
        moments_of(u, ck, s)
        moments_of(u, ck, [(-1)**j*t for j, t in enumerate(s)])
        means_of(u, ck, s)
        n = len(s)
        q = [fr(t) for t in s]
        for w in ([1 + j % 3 for j in range(n)], [0.1 + (j % 7)/3 for j in range(n)], [int(j % 10 == 0) for j in range(n)]):
            wq = [fr(t) for t in w]
            t = f'(long {n} {num(s[0])},{num(s[1])},weights={num(w[0])},{num(w[1])}'
            for rs, rw in zip(both(s), both(w)):
                ck.eq(f'mean{t})', ck.call('mean', rs, weights=rw), fm(sum(a*b for a, b in zip(q, wq))/sum(wq)))
                ck.eq(f'gmean{t})', ck.call('gmean', rs, weights=rw), ref_pmean(q, wq, 0))
                ck.eq(f'hmean{t})', ck.call('hmean', rs, weights=rw), ref_pmean(q, wq, -1))
            for p in (-3, -0.5, 0.3, 2):
                ck.eq(f'pmean{t},p={p})', ck.call('pmean', list(s), p=p, weights=w), ref_pmean(q, wq, p))
                ck.eq(f'lehmer_mean{t},p={p})', ck.call('lehmer_mean', list(s), p=p, weights=w), ref_lehmer(q, wq, p))
        corr_of(u, ck, s, [((j*j) % 17)/4 for j in range(n)])
        corr_of(u, ck, s, [t*(-2) + (j % 5 == 0) for j, t in enumerate(s)])
        if n >= 12:
            anova_of(u, ck, (s[:n//3], s[n//3:]))
            anova_of(u, ck, tuple(s[j::6] for j in range(6)))
            anova_of(u, ck, tuple(s[j:j + 2] for j in range(0, n - 1, 2)))
        if n <= 130:
            o = [(j*j) % 7 for j in range(n)]
            tot = sum(o)
            e = [tot/2**10]*(n - 1)
            gof_of(u, ck, o, e + [tot - sum(e)])
            gof_of(u, ck, [t + 1 for t in o], [t + 1.25 if j % 2 else t + 0.75 for j, t in enumerate(o)] if n % 2 == 0 else [t + 1 for t in o])
        v = ck.call('unique_counts', list(s))
        c = Counter(s)
        u.state()
        if bad(v) or tuple(map(tuple, v)) != (tuple(sorted(c)), tuple(c[t] for t in sorted(c))):
            u.fail(f'unique_counts(long {n} {num(s[0])})', 'wrong', got=str(v)[:200])


def do_misc(u, ck, i, k, tier):
    for n in (1, 2, 3, 4, 5, 6):
        for s in product([3, 1, 2.5], repeat=n):
            u.trace()
            u.state()
            u.cover('unique_counts')
            for rep in both(s):
                v = ck.call('unique_counts', rep)
                c = Counter(s)
                want = (tuple(sorted(c)), tuple(c[t] for t in sorted(c)))
                if bad(v) or tuple(map(tuple, v)) != want:
                    u.fail(f'unique_counts({name(s)})', 'wrong', got=v, want=want)
    # sequences of different lengths
    for n in (1, 2, 3, 4):
        for m in (1, 2, 3, 4):
            if n == m:
                continue
            x, w = [1.5, 2, 3, 4][:n], [1, 2, 1, 2][:m]
            e = [sum(x)/m]*m
            calls = [('mean', (x,), dict(weights=w)), ('gmean', (x,), dict(weights=w)), ('hmean', (x,), dict(weights=w)),
                     ('pearsonr', (x, w), {}), ('chisquare', (x, e), dict(sum_rel_tol=0.1)), ('gtest', (x, e), dict(sum_rel_tol=0.1))]
            calls += [('pmean', (x,), dict(p=p, weights=w)) for p in (-2, -1, 0, 1, 1.5)]
            calls += [('lehmer_mean', (x,), dict(p=p, weights=w)) for p in (-2, 0, 0.5, 1, 1.5)]
            for fn, a, kw in calls:
                v = ck.call(fn, *a, **kw)
                u.state()
                u.cover('rejected')
                if not isinstance(v, Raised) or v.type != 'ValueError':
                    u.fail(f'{fn} lengths {n},{m} {kw.get("p", "")} dps={ck.dps}', 'different lengths accepted', got=v)
    for fn, a, kw in [('gmean', ([1, -2],), {}), ('gmean', ([1, -1e-9, 0],), dict(weights=[1, 1, 1])), ('lehmer_mean', ([1, 0],), dict(p=2)),
                      ('lehmer_mean', ([1, -2],), dict(p=0.5)), ('pearsonr', ([1, 2, 3], [1, 2, 4], 'Less'), {}),
                      ('pearsonr_ci', (0.5, 10, 0.05, 'both'), {})]:
        v = ck.call(fn, *a, **kw)
        u.state()
        if not isinstance(v, Raised) or v.type != 'ValueError':
            u.fail(f'{fn}{a}{kw} dps={ck.dps}', 'accepted', got=v)
