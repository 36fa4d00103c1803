"""P16  Multivariate distributions."""
import math
from fractions import Fraction as Fr
from itertools import permutations, product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import eps, mismatch, fn_of, dist

ID = 'P16'
LEVEL = 'model_checking'
ALPHA = [1e-3, 0.5, 1, 2.3, 30]
NU = [0.5, 1, 2, 3.7, 30, 1e6]
# full-rank matrices as lower triangular factors (exact in binary), scaled by powers of two
LOW = {1: [[[1]], [[0.3]], [[25]]],
       2: [[[1, 0], [0, 1]], [[2, 0], [-1.5, 0.1]], [[0.3, 0], [40, 7]], [[1, 0], [1, 1e-4]]],
       3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0.3, 0, 0], [2, 1, 0], [-1, 4, 0.7]], [[5, 0, 0], [0, 0.1, 0], [0.2, -3, 2]]],
       4: [[[1, 0, 0, 0], [0.5, 2, 0, 0], [0, -1, 0.1, 0], [3, 0, 1, 0.7]]]}
LARGE = [([10, 10, 25, 25, 10], 16), ([100, 3, 50], 40), ([200, 1, 0, 7], 100), ([30, 40], 35), ([17], 5), ([1000, 2000, 3000], 3)]


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def CMAX(tier):
    return {1: 6, 2: 5, 3: 4, 4: 2} if tier == 'quick' else {1: 12, 2: 8, 3: 5, 4: 3}


def bounds(tier):
    return (f'Dirichlet: every vector of 1-4 concentrations from {ALPHA} x every point of a simplex grid with its boundary; multivariate '
            f'hypergeometric: every vector of counts up to {CMAX(tier)} (length: largest count), every sample size, every integer point '
            f'of the surrounding box, and {len(LARGE)} large urns; multivariate t: {sum(map(len, LOW.values()))} scale matrices of '
            f'dimension 1-4 x degrees of freedom {NU} x points; precisions {DPS(tier)}')


ASSUMPTIONS = ['mpmath loggamma, digamma, log and exp at high precision are correct',
               'the Dirichlet density at a boundary point where it is infinite in one and zero in another coordinate is undefined']


def units(tier):
    out = []
    for d in DPS(tier):
        out += [['dir', d, [i, 6]] for i in range(6)]
        out += [['hyp', d, [i, 8]] for i in range(8)]
        out += [['t', d, [i, 4]] for i in range(4)]
        out += [['reject', d, [0, 1]]]
    return out


def cost(u):
    return {'hyp': 5, 'dir': 5}.get(u[0], 1)*u[1]


def required_classes(tier):
    return ['dirichlet.pdf', 'dirichlet.logpdf', 'dirichlet.mean', 'dirichlet.cov', 'dirichlet.entropy', 'multivariate_hypergeometric.pmf',
            'multivariate_hypergeometric.logpmf', 'multivariate_hypergeometric.support', 'multivariate_hypergeometric.mean',
            'multivariate_hypergeometric.cov', 'multivariate_hypergeometric.entropy', 'multivariate_t.pdf', 'multivariate_t.logpdf',
            'multivariate_t.entropy', 'outside the support', 'boundary', 'scale_inv given', 'rejected']


class Ck:
    def __init__(self, u, name, dps):
        self.u, self.dps, self.name, self.m = u, dps, name, dist(name)
        self.tol = 10*eps(dps)

    def call(self, f, *a, **k):
        v = call(fn_of(self.m, f), *a, dps=self.dps, **k)
        mp.dps = 2*self.dps + 40
        self.u.step()
        self.u.cover(f'{self.name}.{f}')
        return v

    def eq(self, key, v, want, abs_=0, rel=1):
        self.u.state()
        m = mismatch(v, want, tol_abs=self.tol*abs_, tol_rel=self.tol*rel)
        if m:
            self.u.fail(f'{self.name}.{key} dps={self.dps}', m, got=v, want=want)

    def density(self, what, key, lnf, *a, **k):
        """both the density and the log density"""
        v = self.call('log' + what, *a, **k)
        self.eq(f'log{what}{key}', v, lnf, abs_=max(1, abs(lnf)) if mp.isfinite(lnf) else 0)
        v = self.call(what, *a, **k)
        self.eq(f'{what}{key}', v, mp.exp(lnf), rel=max(1, abs(lnf)) if mp.isfinite(lnf) else 1)


def q(f):
    return mp.mpf(f.numerator)/f.denominator


def run_unit(unit, tier):
    part, dps, (i, k) = unit
    u = Unit(f'{part}@{dps}')
    mp.dps = 2*dps + 40
    globals()['do_' + part](u, dps, i, k, tier)
    return u


def forms(seq):
    """the same numbers as a list of Python numbers and as a tuple of multi-precision numbers"""
    return [list(seq), tuple(mp.mpf(s) for s in seq)]


def simplex(n, tier):
    m = {1: 1, 2: 16, 3: 8, 4: 4}[n]
    pts = [[Fr(a, m) for a in p] for p in product(range(m + 1), repeat=n) if sum(p) == m]
    if n > 1:
        # next to the boundary (exact in 53 bits)
        t = Fr(1, 2**40)
        for j in range(n):
            for l in range(n):
                if j != l:
                    p = [Fr(0)]*n
                    p[j], p[l] = t, 1 - t
                    if n > 2:
                        o = [x for x in range(n) if x not in (j, l)][0]
                        p[o], p[l] = Fr(1, 4), Fr(3, 4) - t
                    pts.append(p)
    return pts


def do_dir(u, dps, i, k, tier):
    ck = Ck(u, 'dirichlet', dps)
    alphas = [a for n in (1, 2, 3) for a in product(ALPHA, repeat=n)]
    alphas += [a for a in product([0.5, 1, 2.3], repeat=4)] + [[1, 1, 1, 1, 1], [0.2, 3, 50.1, 0.7, 1]]
    for alpha in alphas[i::k]:
        u.trace()
        n = len(alpha)
        A = [mp.mpf(a) for a in alpha]
        a0 = mp.fsum(A)
        lb = mp.fsum(mp.loggamma(a) for a in A) - mp.loggamma(a0)
        pts = simplex(n, tier) if n < 5 else [[Fr(1, 8)]*4 + [Fr(1, 2)], [Fr(1, 4)]*4 + [Fr(0)], [Fr(1, 16), Fr(1, 2), Fr(1, 4), Fr(1, 16), Fr(1, 8)]]
        for p in pts:
            lo = [a for a, x in zip(A, p) if x == 0 and a < 1]
            hi = [a for a, x in zip(A, p) if x == 0 and a > 1]
            if lo and hi:
                continue
            if any(x == 0 for x in p):
                u.cover('boundary')
            if lo:
                lnf = mp.inf
            elif hi:
                lnf = mp.ninf
            else:
                lnf = mp.fsum((a - 1)*mp.log(q(x)) for a, x in zip(A, p) if a != 1) - lb
            x = [float(t) for t in p]
            key = f'({[str(t) for t in p]},{list(alpha)})'
            ck.density('pdf', key, lnf, x, list(alpha))
            if tier != 'quick' or len(set(p)) == n:
                ck.density('pdf', key + ' mpf', lnf, tuple(mp.mpf(t) for t in x), tuple(A))
        for al in forms(alpha):
            v = ck.call('mean', al)
            u.state()
            if bad(v) or len(v) != n:
                u.fail(f'dirichlet.mean({list(alpha)}) dps={dps}', 'not a vector of the right length', got=v)
            else:
                for j in range(n):
                    ck.eq(f'mean({list(alpha)})[{j}]', v[j], A[j]/a0)
            v = ck.call('cov', al)
            u.state()
            if bad(v) or (v.rows, v.cols) != (n, n):
                u.fail(f'dirichlet.cov({list(alpha)}) dps={dps}', 'not a matrix of the right size', got=v)
            else:
                for j, l in product(range(n), repeat=2):
                    w = A[j]*((a0 if j == l else 0) - A[l])/(a0**2*(a0 + 1))
                    # 1 - A/a0 cancels; the guard digits allow for a factor 1e5
                    ck.eq(f'cov({list(alpha)})[{j},{l}]', v[j, l], w, abs_=A[j]/a0/(a0 + 1)*mp.mpf(10)**-4)
            v = ck.call('entropy', al)
            terms = [lb, (a0 - n)*mp.digamma(a0)] + [-(a - 1)*mp.digamma(a) for a in A]
            ck.eq(f'entropy({list(alpha)})', v, mp.fsum(terms), abs_=max(abs(t) for t in terms)*mp.mpf(10)**-3)


def do_hyp(u, dps, i, k, tier):
    ck = Ck(u, 'multivariate_hypergeometric', dps)
    urns = [c for n, m in CMAX(tier).items() for c in product(range(m + 1), repeat=n)]
    cases = [(list(c), s) for c in urns for s in range(sum(c) + 1)]
    cases = cases[i::k] + [LARGE[j] for j in range(len(LARGE)) if j % k == i]
    for c, s in cases:
        u.trace()
        n, N = len(c), sum(c)
        big = N > 24
        key = f'({c},{s})'
        tot = math.comb(N, s)
        ranges = [range(-1, a + 2) for a in c]
        want = {}
        if not big:
            box = product(*ranges)
            for p in product(*[range(a + 1) for a in c]):
                if sum(p) == s:
                    want[p] = Fr(math.prod(math.comb(a, b) for a, b in zip(c, p)), tot)
            if n > 2 or tier == 'quick':
                # complete box for one arrangement of the counts only; otherwise the support and its neighbours
                if c != sorted(c) or n > 3 or (n == 3 and max(c) > 3):
                    box = list(want) + [tuple(p[:j] + (p[j] + d,) + p[j+1:]) for p in list(want)[:2] for j in range(n) for d in (-1, 1)]
        else:
            sup = dist_support(c, s, 3000)
            want = {p: Fr(math.prod(math.comb(a, b) for a, b in zip(c, p)), tot) for p in sup}
            box = list(want)[:40] + list(want)[::37]
        for p in box:
            w = want.get(p, 0)
            if w == 0:
                if all(0 <= b <= a for a, b in zip(c, p)) and sum(p) == s:
                    continue
                u.cover('outside the support')
            lnf = mp.log(q(w)) if w else mp.ninf
            ck.density('pmf', f'({p},{c},{s})', lnf, list(p), c, s)
        if not big or len(want) < 2500:
            v = ck.call('support', c, s)
            v = call(list, v, dps=dps) if not bad(v) else v
            u.state()
            if bad(v) or sorted(map(tuple, v)) != sorted(want):
                u.fail(f'multivariate_hypergeometric.support{key}', 'not the set of all possible draws', got=str(v)[:300])
        for cc in ([c] if big else [c, tuple(c)]):
            v = ck.call('mean', cc, s)
            u.state()
            if bad(v) or len(v) != n:
                u.fail(f'multivariate_hypergeometric.mean{key} dps={dps}', 'not a vector of the right length', got=v)
            else:
                for j in range(n):
                    ck.eq(f'mean{key}[{j}]', v[j], q(Fr(s*c[j], N)) if N else mp.zero)
            v = ck.call('cov', cc, s)
            u.state()
            if bad(v) or len(v) != n or any(len(r) != n for r in v):
                u.fail(f'multivariate_hypergeometric.cov{key} dps={dps}', 'not a matrix of the right size', got=v)
            else:
                for j, l in product(range(n), repeat=2):
                    w = Fr(s*(N - s)*c[j]*((N if j == l else 0) - c[l]), N*N*(N - 1)) if N > 1 else Fr(0)
                    ck.eq(f'cov{key}[{j},{l}]', v[j][l], q(w), abs_=mp.mpf(10)**-4)
        if not big or len(want) < 400:
            v = ck.call('entropy', c, s)
            w = -mp.fsum(q(w)*mp.log(q(w)) for w in want.values())
            ck.eq(f'entropy{key}', v, w, abs_=mp.mpf(10)**-3)


def dist_support(c, s, cap):
    out = []

    def go(j, left, acc):
        if len(out) >= cap:
            return
        if j == len(c) - 1:
            if 0 <= left <= c[j]:
                out.append(tuple(acc + [left]))
            return
        for a in range(max(0, left - sum(c[j+1:])), min(c[j], left) + 1):
            go(j + 1, left - a, acc + [a])
    go(0, s, [])
    return out


def exact(v):
    return Fr(v) if not isinstance(v, mp.mpf) else Fr(int(v.man_exp[0]))*Fr(2)**int(v.man_exp[1])


def inv_det(M):
    n = len(M)
    A = [list(r) + [Fr(int(a == b)) for b in range(n)] for a, r in enumerate(M)]
    det = Fr(1)
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            det = -det
        det *= A[c][c]
        A[c] = [x/A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                A[r] = [x - A[r][c]*y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A], det


def do_t(u, dps, i, k, tier):
    ck = Ck(u, 'multivariate_t', dps)
    cases = []
    for n, Ls in LOW.items():
        for L in Ls:
            F = [[Fr(mp_float(x)) for x in r] for r in L]
            S = [[sum(F[a][c]*F[b][c] for c in range(n)) for b in range(n)] for a in range(n)]
            cases.append((n, S))
    locs = {1: [[0], [2.3]], 2: [[0, 0], [-1, 100.1]], 3: [[0, 0, 0], [0.1, -7, 3]], 4: [[0, 0, 0, 0], [0.1, -7, 3, 2]]}
    offs = {n: [[0]*n, [0.1] + [0]*(n - 1), [1.5]*n, [(-1)**j*(j + 3.3) for j in range(n)], [1e-9]*n, [1e4]*n] for n in locs}
    for n, S in cases[i::k]:
        inv, det = inv_det(S)
        with mp.workdps(4*dps + 80):
            M = mp.matrix(n)
            Mi = mp.matrix(n)
            for a, b in product(range(n), repeat=2):
                M[a, b] = q(S[a][b])
                Mi[a, b] = q(inv[a][b])
        for nu in NU:
            u.trace()
            for loc in locs[n]:
                for off in offs[n]:
                    x = [float(mp_float(a) + mp_float(b)) for a, b in zip(loc, off)]
                    d = [Fr(a) - Fr(mp_float(b)) for a, b in zip(x, loc)]
                    Q = q(sum(d[a]*inv[a][b]*d[b] for a, b in product(range(n), repeat=2)))
                    N, P = mp.mpf(nu), mp.mpf(n)
                    lnf = (mp.loggamma((N + P)/2) - mp.loggamma(N/2) - P/2*mp.log(N*mp.pi) - mp.log(q(det))/2 - (N + P)/2*mp.log1p(Q/N))
                    if N > 1000:
                        size = mp.loggamma(N/2)*mp.mpf(10)**-4
                    else:
                        size = 1
                    key = f'({x},{nu},{loc},{[[str(c) for c in r] for r in S]})'
                    for kind, extra in (('', {}), (' scale_inv', dict(scale_inv=Mi))):
                        if extra:
                            u.cover('scale_inv given')
                        for xx, ll in zip(forms(x), forms(loc)):
                            v = ck.call('logpdf', xx, nu, ll, M, **extra)
                            ck.eq(f'logpdf{key}{kind}', v, lnf, abs_=max(1, abs(lnf), size))
                            if not kind or xx.__class__ is list:
                                v = ck.call('pdf', xx, nu, ll, M, **extra)
                                ck.eq(f'pdf{key}{kind}', v, mp.exp(lnf), rel=max(1, abs(lnf), size))
                            if tier == 'quick' and n > 2:
                                break
                for ll in forms(loc):
                    v = ck.call('entropy', nu, ll, M)
                    N, P = mp.mpf(nu), mp.mpf(n)
                    c = (N + P)/2
                    w = (mp.loggamma(N/2) - mp.loggamma(c) + P/2*mp.log(N*mp.pi) + c*(mp.digamma(c) - mp.digamma(N/2)) + mp.log(q(det))/2)
                    ck.eq(f'entropy({nu},{loc},{[[str(c) for c in r] for r in S]})', v, w,
                          abs_=max(1, mp.loggamma(c)*mp.mpf(10)**-4, c*mp.digamma(c)*mp.mpf(10)**-4))


def mp_float(x):
    return float(x)


def do_reject(u, dps, i, k, tier):
    ck = Ck(u, 'dirichlet', dps)

    def refuse(key, v):
        u.state()
        u.cover('rejected')
        if not (isinstance(v, Raised) and v.type == 'ValueError'):
            u.fail(f'{ck.name}.{key} dps={dps}', 'invalid arguments are accepted', got=v)
    good = [0.5, 1, 2.3]
    for bad_ in (0, -1, -0.5, -1e-30):
        for j in range(3):
            a = good[:j] + [bad_] + good[j+1:]
            u.trace()
            for f in ('pdf', 'logpdf'):
                for x in ([0.25, 0.25, 0.5], [1, 0, 0], [0, 0, 1]):
                    refuse(f'{f}({x},{a})', ck.call(f, x, a))
            for f in ('mean', 'cov', 'entropy'):
                refuse(f'{f}({a})', ck.call(f, a))
    for f in ('pdf', 'logpdf'):
        for x in ([0.25, 0.25, 0.25], [0.5, 0.5, 0.5], [-0.25, 0.75, 0.5], [0.5, 0.5], [0.25, 0.25, 0.25, 0.25], [1.5, -0.5, 0], [1, 1e-9, 0]):
            u.trace()
            refuse(f'{f}({x},{good})', ck.call(f, x, good))
    ck = Ck(u, 'multivariate_hypergeometric', dps)
    for c, s in (([3, -1, 2], 2), ([-1], 0), ([3, 2], 6), ([0, 0], 1), ([3, 2], -1), ([1, 2, 3], 7), ([-2, 5], 3)):
        u.trace()
        for f in ('mean', 'cov', 'entropy', 'support'):
            v = ck.call(f, c, s)
            refuse(f'{f}({c},{s})', v if bad(v) or f != 'support' else call(list, v, dps=dps))
        for f in ('pmf', 'logpmf'):
            for p in ([0]*len(c), [s] + [0]*(len(c) - 1)):
                refuse(f'{f}({p},{c},{s})', ck.call(f, p, c, s))
    for f in ('pmf', 'logpmf'):
        refuse(f'{f} of a point of the wrong length', ck.call(f, [1, 1], [3, 2, 4], 2))
        refuse(f'{f} of a point of the wrong length', ck.call(f, [1, 1, 0, 0], [3, 2, 4], 2))
