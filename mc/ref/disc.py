"""
Independent reference models of the discrete distributions: probability mass
functions written down from the definitions and evaluated exactly (integers
and fractions) or at a high working precision; everything else is a sum.
"""
from fractions import Fraction as Fr
from math import comb
from mpmath import mp

with mp.workprec(53):
    F = lambda *a: [mp.mpf(v) for v in a]
    P01 = F(0, 2.0**-20, 1e-9, 0.01, 0.1, 0.25, 1/3, 0.5, 0.7, 0.9, 0.999, 1)
    POPEN = F(2.0**-20, 1e-9, 0.01, 0.1, 0.3, 0.5, 0.75, 0.9, 0.99)


def Q(v):
    """Exact rational value of a lattice number."""
    if isinstance(v, (int, Fr)):
        return Fr(v)
    man, exp = mp.mpf(v).man_exp
    return Fr(int(man))*Fr(2)**int(exp)


def tomp(q):
    if isinstance(q, Fr):
        return mp.mpf(q.numerator)/q.denominator
    return mp.mpf(q)


class Disc:
    kurt_excess = True

    def ks(self, par, full):
        lo, hi = self.support(par)
        if hi is not None and (hi - lo <= 24 or full and hi - lo <= 60):
            return list(range(lo - 2, hi + 4))
        if hi is None:
            c = max(1, int(self.center(par)))
            s = set(range(lo - 2, lo + 14)) | {c//2, c - 1, c, c + 1, 2*c, 3*c, c + 30, c + 100}
            if full:
                s |= set(range(lo, lo + 60))
        else:
            n = hi - lo
            s = {lo - 2, lo - 1, lo, lo + 1, lo + 2, lo + 7, lo + n//10, lo + n//4, lo + n//3, lo + n//2,
                 lo + 3*n//4, hi - 7, hi - 2, hi - 1, hi, hi + 1, hi + 3}
        return sorted(s)

    def center(self, par):
        return 1

    def tables(self, par, kmax):
        """pmf and cumulative sums on lo..kmax."""
        lo, hi = self.support(par)
        top = kmax if hi is None else hi
        pm = [self.pmf(k, *par) for k in range(lo, top + 1)]
        cum, s = [], 0
        for v in pm:
            s = s + v
            cum.append(s)
        return lo, top, pm, cum


class FiniteExact(Disc):
    pass


class Binomial(FiniteExact):
    name = 'binomial'

    def params(self, full):
        ns = list(range(9)) + [12, 20, 33, 50, 100, 300] + ([1000, 60, 17] if full else [])
        return [(n, p) for n in ns for p in P01]

    def support(self, par):
        return 0, par[0]

    def pmf(self, k, n, p):
        if not 0 <= k <= n:
            return Fr(0)
        p = Q(p)
        if n > 60:                      # exact fractions get too large
            q = tomp(p)
            return mp.mpf(comb(n, k))*q**k*(1 - q)**(n - k)
        return comb(n, k)*p**k*(1 - p)**(n - k)


class BetaBinomial(FiniteExact):
    name = 'betabinomial'

    def params(self, full):
        with mp.workprec(53):
            ab = F(0.25, 1, 1.5, 2, 3.5, 10) + ([mp.mpf(50), mp.mpf(0.7)] if full else [])
        ns = list(range(7)) + [10, 20, 50] + ([15, 100] if full else [])
        return [(n, a, b) for n in ns for a in ab for b in ab]

    def support(self, par):
        return 0, par[0]

    def pmf(self, k, n, a, b):
        if not 0 <= k <= n:
            return Fr(0)
        a, b = Q(a), Q(b)

        def rise(x, m):
            r = Fr(1)
            for i in range(m):
                r *= x + i
            return r
        return comb(n, k)*rise(a, k)*rise(b, n - k)/rise(a + b, n)


class Hyper(FiniteExact):
    name = 'hypergeometric'
    BIG = [(20, 7, 12), (20, 18, 3), (30, 10, 10), (50, 5, 10), (50, 45, 40), (64, 32, 32),
           (100, 20, 30), (120, 60, 7), (200, 100, 50), (500, 20, 300)]

    def params(self, full):
        m = 9 if not full else 14
        out = [(N, K, n) for N in range(m + 1) for K in range(N + 1) for n in range(N + 1)]
        return out + self.BIG

    def support(self, par):
        N, K, n = par[-3:]
        return max(0, n - (N - K)), min(n, K)

    def pmf(self, k, N, K, n):
        lo, hi = self.support((N, K, n))
        if not lo <= k <= hi:
            return Fr(0)
        return Fr(comb(K, k)*comb(N - K, n - k), comb(N, n))


class Fnch(Hyper):
    name = 'fishers_noncentral_hypergeometric'

    def params(self, full):
        m = 7 if not full else 10
        base = [(N, K, n) for N in range(m + 1) for K in range(N + 1) for n in range(N + 1)]
        out = [(nc,) + b for nc in F(0.01, 0.5, 1, 2, 7.5) for b in base]
        return out + [(nc,) + b for nc in F(0.25, 1, 3, 40) for b in self.BIG[:8]]

    def pmf(self, k, nc, N, K, n):
        lo, hi = self.support((N, K, n))
        if not lo <= k <= hi:
            return Fr(0)
        w = Q(nc)
        w = w if N <= 30 else tomp(w)
        key = (nc, N, K, n, mp.prec)
        if getattr(self, '_key', None) != key:
            self._key = key
            self._tot = sum((comb(K, j)*comb(N - K, n - j)*w**j for j in range(lo, hi + 1)), Fr(0) if N <= 30 else mp.zero)
        return comb(K, k)*comb(N - K, n - k)*w**k/self._tot


class NegHyper(FiniteExact):
    name = 'negative_hypergeometric'

    def params(self, full):
        m = 9 if not full else 13
        out = [(N, K, r) for N in range(m + 1) for K in range(N + 1) for r in range(N - K + 1)]
        return out + [(20, 7, 12), (20, 7, 3), (20, 18, 1), (30, 10, 10), (50, 5, 10), (64, 32, 32), (100, 20, 30),
                      (100, 60, 25), (120, 60, 7)]

    def support(self, par):
        N, K, r = par
        return 0, (K if r > 0 else 0)

    def pmf(self, k, N, K, r):
        # draw without replacement until r bad ones have been seen; k good
        lo, hi = self.support((N, K, r))
        if not lo <= k <= hi:
            return Fr(0)
        if r == 0:
            return Fr(1)
        B = N - K
        # the (k+r)-th draw is bad, and among the first k+r-1 are k good
        return Fr(comb(K, k)*comb(B, r - 1), comb(N, k + r - 1))*Fr(B - r + 1, N - k - r + 1)


class TruncExp(Disc):
    name = 'trunc_discrete_exp'

    def params(self, full):
        with mp.workprec(53):
            lam = F(0, 2.0**-10, 0.1, 0.5, 1, 2, 5, 20)
        return [(l, n) for l in lam for n in [1, 2, 3, 4, 5, 8, 20, 50] + ([12, 300] if full else [])]

    def support(self, par):
        return 0, par[1] - 1

    def pmf(self, k, lam, n):
        if not 0 <= k < n:
            return mp.zero
        return mp.exp(-lam*k)/mp.fsum([mp.exp(-lam*j) for j in range(n)])


class Infinite(Disc):
    """Unbounded support: moments by direct summation."""

    def moments(self, par):
        mp.dps += 15
        try:
            lo, _ = self.support(par)
            k = lo
            s = [mp.zero]*5
            peak = self.center(par)
            while True:
                t = self.pmf(k, *par)
                for j in range(5):
                    s[j] += t*mp.mpf(k)**j
                if k > 2*peak + 20 and t*mp.mpf(k)**4 <= mp.mpf(10)**(-mp.dps)*s[4]*self.tailfac(par):
                    break
                k += 1
            return s
        finally:
            mp.dps -= 15

    def tailfac(self, par):
        return 1


class Poisson(Infinite):
    name = 'poisson'

    def params(self, full):
        with mp.workprec(53):
            return [(v,) for v in F(2.0**-10, 0.1, 0.5, 1, 1.5, 2, 3, 5, 7.25, 10, 20, 50, 100, 250)
                    + (F(0.9, 4, 33.3, 1000) if full else [])]

    def support(self, par):
        return 0, None

    def center(self, par):
        return par[0]

    def pmf(self, k, lam):
        if k < 0:
            return mp.zero
        return lam**k*mp.exp(-lam)/mp.factorial(k)


class NegBinomial(Infinite):
    name = 'negative_binomial'

    def params(self, full):
        with mp.workprec(53):
            return [(r, p) for r in F(0.3, 1, 1.5, 2, 3, 7, 12.25, 50) + (F(0.9, 5, 20, 200) if full else [])
                    for p in F(0, 2.0**-10, 0.1, 0.3, 0.5, 0.8, 0.95)]

    def support(self, par):
        return 0, None

    def center(self, par):
        r, p = par
        return r*p/(1 - p)

    def tailfac(self, par):
        return 1 - par[1]

    def pmf(self, k, r, p):
        if k < 0:
            return mp.zero
        return mp.rf(r, k)/mp.factorial(k)*(1 - p)**r*p**k


class LogSeries(Infinite):
    name = 'logseries'

    def params(self, full):
        return [(p,) for p in POPEN]

    def support(self, par):
        return 1, None

    def center(self, par):
        return 1/(1 - par[0])

    def tailfac(self, par):
        return 1 - par[0]

    def pmf(self, k, p):
        if k < 1:
            return mp.zero
        return p**k/k/(-mp.log(1 - p))


DISC = {c.name: c() for c in (Binomial, BetaBinomial, Hyper, Fnch, NegHyper, TruncExp, Poisson, NegBinomial,
                              LogSeries)}
