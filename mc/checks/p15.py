"""P15  Special functions agree with their definitions."""
from fractions import Fraction as Fr
from itertools import product
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import eps, mismatch, realval, num, fn_of
import mpsci.fun as F

ID = 'P15'
LEVEL = 'model_checking'
M = mp.mpf


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


PARTS = {'digammainv': 1, 'betaincinv': 8, 'debye': 2, 'faddeevaw': 1, 'hermite_e': 1, 'legendre': 4, 'sph': 4, 'wright': 4, 'logs': 2, 'marcumq': 6,
         'reject': 1}


def bounds(tier):
    return ('every public special function at every point of a product lattice: both ends and the interior of the domain, values next to '
            'switching points, negative and complex arguments where defined, Python and multi-precision numbers, all methods and options; '
            f'precisions {DPS(tier)}')


ASSUMPTIONS = ['mpmath elementary functions, gamma, digamma, erfc and the reference series at high precision are correct',
               'root finding may fail loudly with RuntimeError; quadrature based functions are compared where the documented method is applicable']


def units(tier):
    return [[p, d, [i, k]] for d in DPS(tier) for p, k in PARTS.items() for i in range(k)]


def cost(u):
    return {'marcumq': 30, 'betaincinv': 20, 'legendre': 10, 'wright': 10, 'debye': 10}.get(u[0], 2)*u[1]


def required_classes(tier):
    return ['digammainv', 'betaincinv', 'debye', 'faddeevaw', 'hermite_e', 'roots_legendre', 'spherical_besselj', 'spherical_bessely',
            'spherical_besseli', 'spherical_besselk', 'wright_bessel', 'logbeta', 'multivariate_logbeta', 'logbinomial', 'logsumexp', 'marcumq',
            'cmarcumq', 'rejected', 'complex', 'Python numbers']


class Ck:
    def __init__(self, u, dps):
        self.u, self.dps = u, dps
        self.tol = 10*eps(dps)
        self.hi = 2*dps + 60

    def call(self, f, *a, **k):
        v = call(fn_of(F, f), *a, dps=self.dps, **k)
        mp.dps = self.hi
        self.u.step()
        self.u.cover(f)
        return v

    def eq(self, key, v, want, size=0):
        self.u.state()
        if isinstance(want, mp.mpc) or isinstance(v, mp.mpc):
            if bad(v):
                m = repr(v)
            else:
                d = abs(mp.mpc(v) - mp.mpc(want))
                m = None if d <= self.tol*max(abs(want), size) else f'absolute error {mp.nstr(d, 3)}'
        else:
            m = mismatch(v, want, tol_abs=self.tol*size, tol_rel=self.tol)
        if m:
            self.u.fail(f'{key} dps={self.dps}', m, got=v, want=want)

    def forms(self, x):
        """the number as given (53 bits) as mpf and as Python number"""
        yield mp.mpf(x)
        self.u.cover('Python numbers')
        yield x


def run_unit(unit, tier):
    part, dps, (i, k) = unit
    u = Unit(f'{part}@{dps}')
    ck = Ck(u, dps)
    mp.dps = ck.hi
    globals()['do_' + part](u, ck, i, k, tier)
    return u


def do_digammainv(u, ck, i, k, tier):
    ys = [-1e12, -1e4, -50.3, -4, -3.0000001, -3, -2.9999999, -2, -1, -0.5772156649015329, -0.1250001, -0.125, -0.1249999, -0.1, -1e-12, 0, 1e-12, 0.1, 0.5,
          1, 2.3, 5, 7.89, 20, 50.7, 200]
    ys += [-3 + j/8 for j in range(24)] + [j/4 for j in range(40)]
    for y in ys:
        u.trace()
        for ry in ck.forms(y):
            v = ck.call('digammainv', ry)
            key = f'digammainv({y})'
            u.state()
            if not realval(v) or v <= 0:
                u.fail(f'{key} dps={ck.dps}', 'no positive value', got=v)
                continue
            v = +v
            err = (mp.digamma(v) - mp.mpf(y))/mp.psi(1, v)/v
            if abs(err) > ck.tol*max(1, abs(mp.mpf(y))/(v*mp.psi(1, v))*mp.mpf(10)**-4):
                u.fail(f'{key} dps={ck.dps}', f'digamma of the result differs; relative error {mp.nstr(err, 3)}', got=v)


def I(a, b, x):
    if x <= 0:
        return mp.zero
    if x >= 1:
        return mp.one
    if x <= a/(a + b):
        return mp.power(x, a)*mp.power(1 - x, b)/a*mp.hyp2f1(a + b, 1, a + 1, x)/mp.beta(a, b)
    return 1 - mp.power(x, a)*mp.power(1 - x, b)/b*mp.hyp2f1(a + b, 1, b + 1, 1 - x)/mp.beta(a, b)


def do_betaincinv(u, ck, i, k, tier):
    ab = [0.25, 0.5, 1, 2.5, 7, 40]
    ys = [0, 1e-18, 1e-6, 0.05, 0.3, 0.5, 0.7, 0.95, 0.999999, 1]
    methods = ['findroot', 'bisect', ('findroot', 0.3), ('bisect', [0, 1])]
    for a, b in list(product(ab, ab))[i::k]:
        u.trace()
        for y in ys:
            for comp in (False, True):
                for m in methods:
                    if m == 'bisect' and (ck.dps > 15 and tier == 'quick') and y not in (0, 0.3, 1):
                        continue
                    if tier == 'quick' and isinstance(m, tuple) and y not in (0, 0.05, 0.7, 1):
                        continue
                    kw = {}
                    if comp:
                        kw['complement'] = True
                    if m != 'findroot':
                        kw['method'] = m
                    v = ck.call('betaincinv', a, b, y, **kw)
                    key = f'betaincinv({a},{b},{y},{m},{comp}) dps={ck.dps}'
                    u.state()
                    if isinstance(v, Raised) and v.type == 'RuntimeError' and y not in (0, 1):
                        u.cover('loud failure')
                        continue
                    if y in (0, 1):
                        w = 1 - y if comp else y
                        if not realval(v) or v != w:
                            u.fail(key, 'wrong end', got=v, want=w)
                        continue
                    if not realval(v) or not 0 <= v <= 1:
                        u.fail(key, 'no value in [0, 1]', got=v)
                        continue
                    v = +v
                    A, B, Y = mp.mpf(a), mp.mpf(b), mp.mpf(y)

                    def G(x):
                        return 1 - I(A, B, x) if comp else I(A, B, x)

                    g = G(v)
                    t = ck.tol
                    if abs(g - Y) <= t:
                        continue
                    lo, hi = sorted((G(v*(1 - t)), G(v*(1 + t))))
                    if not lo - t <= Y <= hi + t:
                        if m[0] == 'findroot' or m == 'findroot':
                            # mpmath.findroot only promises |f|^2 < eps
                            if abs(g - Y)**2 <= t:
                                u.cover('findroot residual')
                                continue
                        u.fail(key, f'does not invert: off by {mp.nstr(g - Y, 3)}', got=v)


def ref_debye(n, x):
    if x == 0:
        return mp.one
    if x < 0:
        # t^n/(e^t - 1) at -t is (-1)^(n+1)... (t^n/(e^t - 1) + t^n)
        return ref_debye(n, -x) - mp.mpf(n)*x/(n + 1)
    if x < 1:
        s, j = 1 - mp.mpf(n)*x/(2*(n + 1)), 1
        while True:
            t = mp.bernoulli(2*j)*x**(2*j)/((2*j + n)*mp.factorial(2*j))*n
            s += t
            if abs(t) < mp.eps:
                return s
            j += 1
    # n/x^n (n! zeta(n+1) - sum_k e^{-kx} sum_j x^{n-j} n!/(n-j)!/k^{j+1})
    s, j = mp.zero, 1
    while True:
        t = mp.exp(-j*x)*mp.fsum(mp.ff(n, q)*x**(n - q)/mp.mpf(j)**(q + 1) for q in range(n + 1))
        s += t
        if t < mp.eps*mp.mpf(10)**-20:
            break
        j += 1
    return mp.mpf(n)/x**n*(mp.factorial(n)*mp.zeta(n + 1) - s)


def do_debye(u, ck, i, k, tier):
    xs = [-3, -0.5, 0, 1e-12, 0.001, 0.1, 0.5, 1, 2.3, 5, 6.2, 10, 40]
    for n in range(1, 7):
        for x in xs[i::k]:
            u.trace()
            with mp.extradps(40):
                w = ref_debye(n, mp.mpf(x))
            for m in ('quad', 'nsum'):
                if m == 'nsum' and abs(x) > 2.5:
                    continue
                for rx in ck.forms(x):
                    v = ck.call('debye', rx, n=n, method=m) if m != 'quad' or n % 2 else ck.call('debye', rx, n=n)
                    ck.eq(f'debye({x},n={n},{m})', v, w, 1 if m == 'nsum' else 0)


def do_faddeevaw(u, ck, i, k, tier):
    parts = [-6.5, -2, -0.3, -1e-9, 0, 1e-9, 0.3, 1, 2.7, 6.5, 15]
    for a, b in product(parts, parts):
        u.trace()
        z = mp.mpc(a, b)
        with mp.extradps(abs(int(2*(a*a + b*b))) + 20):
            w = mp.exp(-z*z)*mp.erfc(mp.mpc(0, -1)*z)
        s = abs(w)*(1 + abs(z)**2)
        u.cover('complex')
        ck.eq(f'faddeevaw({a}+{b}j)', ck.call('faddeevaw', z), w, s)
        ck.eq(f'faddeevaw({a}+{b}j)', ck.call('faddeevaw', complex(a, b)), w, s)
        if b == 0:
            ck.eq(f'faddeevaw({a})', ck.call('faddeevaw', a), w, s)


def do_hermite_e(u, ck, i, k, tier):
    for n in range(0, 16):
        for x in [-30, -3.7, -1, -0.1, -1e-9, 0, 1e-9, 0.1, 0.5, 1, 1.7320508075688772, 2, 5.3, 30]:
            u.trace()
            q = Fr(x)
            p0, p1, s0, s1 = Fr(1), q, Fr(1), abs(q)
            if n == 0:
                p, s = p0, s0
            else:
                for m in range(1, n):
                    p0, p1 = p1, q*p1 - m*p0
                    s0, s1 = s1, abs(q)*s1 + m*s0
                p, s = p1, s1
            for rx in ck.forms(x):
                for rn in (n, mp.mpf(n)):
                    ck.eq(f'hermite_e({n},{x})', ck.call('hermite_e', rn, rx), mp.mpf(p.numerator)/p.denominator, mp.mpf(s.numerator)/s.denominator)


def do_legendre(u, ck, i, k, tier):
    top = 30 if tier == 'quick' else 60
    for n in range(1, top + 1)[i::k]:
        u.trace()
        v = ck.call('roots_legendre', n)
        u.cover('roots_legendre')
        key = f'roots_legendre({n})'
        if bad(v) or len(v) != 2 or len(v[0]) != n or len(v[1]) != n:
            u.fail(f'{key} dps={ck.dps}', 'no list of n roots and weights', got=v)
            continue
        x, w = [+t for t in v[0]], [+t for t in v[1]]
        u.state(2*n)
        if any(b <= a for a, b in zip(x, x[1:])) or x[0] <= -1 or x[-1] >= 1:
            u.fail(f'{key} dps={ck.dps}', 'roots are not increasing in (-1, 1)', got=x)
            continue
        for j in range(n):
            # Newton correction of the exact polynomial, and the weight formula
            p0, p1 = mp.one, x[j]
            for m in range(1, n):
                p0, p1 = p1, ((2*m + 1)*x[j]*p1 - m*p0)/(m + 1)
            p, q = p1, p0                      # P_n, P_{n-1}
            dp = n*(x[j]*p - q)/(x[j]**2 - 1)
            if abs(p/dp) > ck.tol*max(abs(x[j]), mp.mpf(10)**-3):
                u.fail(f'{key}[{j}] dps={ck.dps}', 'not a root', got=x[j])
            ck.eq(f'{key} weight[{j}]', w[j], 2/((1 - x[j]**2)*dp**2))
        for e in range(0, 2*n):
            ck.eq(f'{key} integral of x^{e}', mp.fsum(b*a**e for a, b in zip(x, w)), mp.mpf(2)/(e + 1) if e % 2 == 0 else mp.zero, 2)


def sph_ref(kind, n, z):
    """Closed forms by recurrence from n = 0, 1 (in high precision)."""
    if kind == 'j':
        f0, f1 = mp.sin(z)/z, mp.sin(z)/z**2 - mp.cos(z)/z
    elif kind == 'y':
        f0, f1 = -mp.cos(z)/z, -mp.cos(z)/z**2 - mp.sin(z)/z
    elif kind == 'i':
        f0, f1 = mp.sinh(z)/z, mp.cosh(z)/z - mp.sinh(z)/z**2
    else:
        f0, f1 = mp.pi/2*mp.exp(-z)/z, mp.pi/2*mp.exp(-z)*(1/z + 1/z**2)
    if n == 0:
        return f0
    for m in range(1, n):
        if kind in 'jy':
            f0, f1 = f1, (2*m + 1)/z*f1 - f0
        elif kind == 'i':
            f0, f1 = f1, f0 - (2*m + 1)/z*f1
        else:
            f0, f1 = f1, f0 + (2*m + 1)/z*f1
    return f1


def do_sph(u, ck, i, k, tier):
    kind = 'jyik'[i]
    zs = [1e-12, 0.001, 0.3, 1, 2.7, 10, 55.5, -1e-6, -0.3, -1.7, -12.3, 1 + 1j, -1 + 2j, -1 - 2j, 0.5j, -3.3j, 2.5 - 7j, -8 + 1e-6j]
    for n in range(0, 8):
        for z in zs:
            u.trace()
            zz = mp.mpc(z) if isinstance(z, complex) else mp.mpf(z)
            with mp.extradps(200 + 20*n):
                w = sph_ref(kind, n, +zz)
            if isinstance(z, complex):
                u.cover('complex')
            for rz in (z, zz):
                v = ck.call('spherical_bessel' + kind, n, rz)
                ck.eq(f'spherical_bessel{kind}({n},{z})', v, w, abs(w)*(1 + abs(zz)*mp.mpf(10)**-3))
        if kind in 'ji':
            ck.eq(f'spherical_bessel{kind}({n},0)', ck.call('spherical_bessel' + kind, n, 0), mp.one if n == 0 else mp.zero)


def do_wright(u, ck, i, k, tier):
    zs = [-3, -1, -0.1, 0, 1e-9, 0.5, 1, 4, 1 + 2j, -2 - 0.5j]
    # rho < 0: the documentation warns that the series acceleration may need a much higher precision; only small z are decided there
    rhos = [-0.25, 0, 0.25, 0.5, 1, 1.5, 2, 3]
    betas = [-2, -0.5, 0, 0.5, 1, 1.5, 3, 1 + 1j]
    for r, b in list(product(rhos, betas))[i::k]:
        for z in zs:
            if r < 0 and abs(z) > 1:
                continue
            u.trace()
            zz, bb, rr = mp.mpmathify(z), mp.mpmathify(b), mp.mpf(r)
            with mp.extradps(60):
                s, big, j = mp.zero, mp.zero, 0
                while True:
                    t = mp.power(zz, j)*mp.rgamma(j*rr + bb)/mp.factorial(j) if (zz != 0 or j) else mp.rgamma(bb)
                    if zz == 0 and j:
                        break
                    s += t
                    big = max(big, abs(t))
                    j += 1
                    if j > 30 and abs(mp.power(zz, j)/mp.factorial(j)*mp.gamma(abs(j*rr) + 3 if rr < 0 else 1)) < mp.mpf(10)**(-ck.hi - 20):
                        break
                    if j > 3000:
                        s = None
                        break
            if s is None:
                continue
            v = ck.call('wright_bessel', zz, rr, bb)
            ck.eq(f'wright_bessel({z},{r},{b})', v, s, big)
            v = ck.call('wright_bessel', z, r, b)
            ck.eq(f'wright_bessel({z},{r},{b}) native', v, s, big)


def do_logs(u, ck, i, k, tier):
    g = mp.mpf(10)**-4
    xs = [1e-12, 0.1, 0.5, 1, 2.3, 40, 1000.7, 1e9]
    if i == 0:
        for x, y in product(xs, xs):
            u.trace()
            X, Y = mp.mpf(x), mp.mpf(y)
            w = mp.loggamma(X) + mp.loggamma(Y) - mp.loggamma(X + Y)
            size = (abs(mp.loggamma(X)) + abs(mp.loggamma(Y)) + abs(mp.loggamma(X + Y)))*g
            for rx, ry in zip(ck.forms(x), ck.forms(y)):
                ck.eq(f'logbeta({x},{y})', ck.call('logbeta', rx, ry), w, size)
                for z in (0.1, 2.3):
                    Z = mp.mpf(z)
                    w3 = mp.loggamma(X) + mp.loggamma(Y) + mp.loggamma(Z) - mp.loggamma(X + Y + Z)
                    ck.eq(f'multivariate_logbeta({x},{y},{z})', ck.call('multivariate_logbeta', [rx, ry, z]), w3, size + g)
            ck.eq(f'multivariate_logbeta({x},{y})', ck.call('multivariate_logbeta', (x, y)), w, size)
        ns = [0, 1, 2, 3, 7, 10, 50, 1000, 10**6, 0.1, 0.3, 2.7, 33.3]
        for n in ns:
            for kk in sorted(set([0, 1, 2, 3, 5, n/3, n/2, n - 1, n, 0.1, 0.2])):
                if not 0 <= kk <= n:
                    continue
                u.trace()
                N_, K_ = mp.mpf(n), mp.mpf(kk)
                T = [mp.loggamma(N_ + 1), mp.loggamma(K_ + 1), mp.loggamma(N_ - K_ + 1)]
                for rn, rk in zip(ck.forms(n), ck.forms(kk)):
                    ck.eq(f'logbinomial({n},{kk})', ck.call('logbinomial', rn, rk), T[0] - T[1] - T[2], max(map(abs, T))*g)
        return
    vals = [-1000.3, -1.7, 0, 0.1, 2.5, 700.1]
    ws = [0, 1, 0.3, 2]
    for n in (1, 2, 3):
        for s in product(vals, repeat=n):
            u.trace()
            S = [mp.mpf(t) for t in s]
            w = mp.log(mp.fsum(mp.exp(t) for t in S))
            size = 1 + max(map(abs, S))*g
            for rep in (list(s), tuple(S)):
                ck.eq(f'logsumexp({s})', ck.call('logsumexp', rep), w, size)
            if n < 3 or tier != 'quick':
                for q in product(ws, repeat=n):
                    if sum(q) == 0:
                        continue
                    w = mp.log(mp.fsum(mp.mpf(b)*mp.exp(t) for t, b in zip(S, q)))
                    ck.eq(f'logsumexp({s},{q})', ck.call('logsumexp', list(s), weights=list(q)), w, size)
    inf = mp.inf
    for s, w in [((-inf, -inf), -inf), ((-inf,), -inf), ((-inf, 2), mp.mpf(2)), ((2, -inf, -inf), mp.mpf(2)), ((inf, 1), inf), ((inf, -inf), inf), ((1, inf, inf), inf)]:
        ck.eq(f'logsumexp({s})', ck.call('logsumexp', [t if mp.isinf(t) else t for t in s]), w, 1)


def ref_marcum(m, a, b):
    """(Q, 1 - Q) by the Poisson mixture of incomplete gamma functions."""
    x, y = a*a/2, b*b/2
    q = c = mp.zero
    w = mp.exp(-x)
    j = 0
    while True:
        P = mp.gammainc(m + j, 0, y, regularized=True)
        q += w*mp.gammainc(m + j, y, mp.inf, regularized=True)
        c += w*P
        j += 1
        w = w*x/j
        if j > x and w < mp.mpf(10)**(-mp.dps - 10):
            return q, c


def do_marcumq(u, ck, i, k, tier):
    ms = [0.5, 1, 1.5, 2, 3, 5]
    for m in ms[i::k]:
        for a in [0, 0.1, 0.5, 1, 2.3, 5]:
            for b in [0, 0.1, 0.5, 1.7, 3, 6.3]:
                u.trace()
                mp.dps = ck.dps + 40
                q, c = ref_marcum(mp.mpf(m), mp.mpf(a), mp.mpf(b))
                mp.dps = ck.hi
                for args in ((m, a, b), (mp.mpf(m), mp.mpf(a), mp.mpf(b))):
                    ck.eq(f'marcumq({m},{a},{b})', ck.call('marcumq', *args), q, 10)
                    ck.eq(f'cmarcumq({m},{a},{b})', ck.call('cmarcumq', *args), c, 10)


def do_reject(u, ck, i, k, tier):
    for f, a, kw in [('debye', (1,), dict(n=0)), ('debye', (1,), dict(n=-2)), ('debye', (1,), dict(n=1.5)), ('debye', (1,), dict(n=1, method='sum')),
                     ('debye', (0,), dict(n=0)), ('logbinomial', (-1, 0), {}), ('logbinomial', (3, -1), {}), ('logbinomial', (3, 4), {}),
                     ('logbinomial', (3, 3.001), {}), ('roots_legendre', (0,), {}), ('roots_legendre', (-3,), {}), ('wright_bessel', (1, -1, 1), {}),
                     ('wright_bessel', (1, -1.5, 1), {}), ('wright_bessel', (0, -1, 1), {}), ('betaincinv', (1, 2, 0.5), dict(method='newton'))]:
        v = ck.call(f, *a, **kw)
        u.state()
        u.trace()
        u.cover('rejected')
        if not isinstance(v, Raised) or v.type != 'ValueError':
            u.fail(f'{f}{a}{kw} dps={ck.dps}', 'accepted', got=v)
    for y in (-0.1, 1.1):
        v = ck.call('betaincinv', 1, 2, y)
        u.state()
        if bad(v) or not mp.isnan(v):
            u.fail(f'betaincinv(1,2,{y}) dps={ck.dps}', 'must be nan', got=v)
