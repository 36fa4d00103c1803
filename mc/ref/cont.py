"""
Reference models of the continuous univariate distributions.

Every entry gives, independently of the code in /repo, the support, the log of
the density, the CDF and the SF of one distribution, written from the
documented / textbook definition.  The reference is always evaluated with many
more digits than the implementation (see `core.refdps`), so plain formulas are
enough; tail-safe forms are used where subtraction would cancel catastrophically.

An entry also carries the *alphabet*: the finite parameter lattice and the
lattice of "natural" coordinates from which the evaluation points are built.
All lattice values are dyadic rationals (exact binary floats or mpf), so the
implementation and the reference receive exactly the same numbers.
"""
from itertools import product
from mpmath import mp

INF = mp.inf
NINF = mp.ninf


def M(t):
    return mp.mpf(t)


# ---------------------------------------------------------------- helpers

def ncdf(z):
    return mp.erfc(-z/mp.sqrt(2))/2


def nsf(z):
    return mp.erfc(z/mp.sqrt(2))/2


def lnpdf_norm(z):
    return -z*z/2 - mp.log(2*mp.pi)/2


def gamP(a, x):
    """Regularized lower incomplete gamma, tail safe."""
    if x == 0:
        return mp.zero
    if mp.isinf(x):
        return mp.one
    if x > a + 10*mp.sqrt(a) + 40:
        return 1 - gamQ(a, x)
    # x^a e^-x / Gamma(a+1) * 1F1(1, a+1, x)
    return mp.exp(a*mp.log(x) - x - mp.loggamma(a + 1))*mp.hyp1f1(1, a + 1, x)


def gamQ(a, x):
    """Regularized upper incomplete gamma, tail safe."""
    if x == 0:
        return mp.one
    if mp.isinf(x):
        return mp.zero
    if x < a + 1:
        return 1 - gamP(a, x)
    # Legendre continued fraction evaluated by modified Lentz
    if x > 2*a and x > 30 or x > 500:
        return mp.exp(a*mp.log(x) - x - mp.loggamma(a))*_gcf(a, x)
    return mp.gammainc(a, x, mp.inf, regularized=True)


def _gcf(a, x):
    tiny = mp.mpf(10)**(-4*mp.dps)
    b = x + 1 - a
    c = 1/tiny
    d = 1/b if b != 0 else 1/tiny
    h = d
    i = 0
    while True:
        i += 1
        an = -i*(i - a)
        if an == 0:
            return h
        b += 2
        d = an*d + b
        if d == 0:
            d = tiny
        c = b + an/c
        if c == 0:
            c = tiny
        d = 1/d
        delta = d*c
        h *= delta
        if abs(delta - 1) < mp.eps:
            return h
        if i > 20000:
            raise ArithmeticError('reference continued fraction failed')


def betI(a, b, x):
    """Regularized incomplete beta I_x(a, b)  (x from 0)."""
    if x == 0:
        return mp.zero
    if x == 1:
        return mp.one
    if x <= a/(a + b):
        return _betI_small(a, b, x)
    return 1 - _betI_small(b, a, 1 - x)


def _betI_small(a, b, x):
    # x^a (1-x)^b / (a B(a,b)) * 2F1(a+b, 1; a+1; x)
    lb = mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)
    return mp.exp(a*mp.log(x) + b*mp.log1p(-x) - lb)/a*mp.hyp2f1(a + b, 1, a + 1, x)


def betIc(a, b, x):
    """1 - I_x(a, b)."""
    if x == 0:
        return mp.one
    if x == 1:
        return mp.zero
    if x <= a/(a + b):
        return 1 - _betI_small(a, b, x)
    return _betI_small(b, a, 1 - x)


# betI's second branch loses relative accuracy only when the result is near 1,
# and betIc's first branch only when the result is near 1; neither matters.

# Points close to zero or one carry full 53-bit mantissas, so that 1 - x, x - loc and the
# like are not exact at the working precision and cancellation becomes visible.
T = [M(2)**-100, M(1.1e-9)]                     # tiny
POS = [M(2)**-100, M(1.1e-9), M(0.001), M(1)/8, M(1)/2, M(3)/4, M(1),
       M(5)/4, M(3)/2, M(2), M(3), M(5), M(9), M(17), M(40), M(200)]
POSH = POS + [M(5000), M(2)**20, M(2)**60]      # heavy tails
REAL = sorted([-t for t in [M(1e-18), M(0.0011), M(1)/4, M(1)/2, M(1), M(3)/2,
                            M(2), M(3), M(5), M(9), M(20), M(45)]]
              + [M(0)] + [M(1e-18), M(0.0011), M(1)/4, M(1)/2, M(1), M(3)/2,
                          M(2), M(3), M(5), M(9), M(20), M(45)])
REALH = sorted(REAL + [M(-2)**31, M(2)**30, -M(500), M(500), -M(2)**80, M(2)**81])
UNIT = [M(2)**-100, M(1e-9), M(1e-6), M(1)/64, M(1)/8, M(1)/4, M(3)/8, M(1)/2,
        M(5)/8, M(3)/4, M(7)/8, M(63)/64, M(0.9999989), 1 - M(2)**-45]

LOCSCALE = [(M(0), M(1)), (M(5)/2, M(3)), (M(-3), M(1)/4)]
SCALES = [M(1), M(1)/4, M(3)]

DISTS = {}


class Dist:
    """One continuous distribution: support, lnf, cdf, sf and its alphabet."""
    # evaluation coordinates: 'pos', 'posh', 'real', 'realh', 'unit'
    zs = None
    slow = False          # few lattice points only
    closed_lo = True      # density at a finite endpoint is the one-sided limit
    closed_hi = True
    nocdf = False
    funcs = ()

    def __init__(self, name, params, zs, sup, lnf, cdf=None, sf=None,
                 xmap=None, **kw):
        self.name = name
        self.params = params
        self.zs = zs
        self._sup = sup
        self.lnf = lnf
        self.cdf = cdf
        self.sf = sf
        self._xmap = xmap
        for k, v in kw.items():
            setattr(self, k, v)
        DISTS[name] = self

    def support(self, par):
        return self._sup(*par)

    def inside(self, x, par):
        lo, hi = self.support(par)
        return lo < x < hi

    def points(self, par, zs=None):
        """Evaluation points strictly inside the support, increasing."""
        zs = self.zs if zs is None else zs
        lo, hi = self.support(par)
        if self._xmap is not None:
            xs = [self._xmap(z, *par) for z in zs]
        else:
            xs = list(zs)
        out = sorted(set(x for x in xs if lo < x < hi))
        return out


def locscale(z, *par):
    return par[-2] + par[-1]*z


def scaled(z, *par):
    return par[-1]*z


def sup_pos(*par):
    return (mp.zero, INF)


def sup_real(*par):
    return (NINF, INF)


def sup_loc(*par):
    return (par[-2], INF)


def P(*lists):
    return [tuple(mp.mpf(v) for v in t) for t in product(*lists)]


def PLS(shapes, ls=LOCSCALE):
    """shapes: list of tuples; append loc, scale."""
    return [tuple(M(v) for v in s) + l for s in shapes for l in ls]


def PS(shapes, sc=SCALES):
    return [tuple(M(v) for v in s) + (c,) for s in shapes for c in sc]


Q = M(1)/4
H = M(1)/2
TH = M(3)/2
SH = [Q, H, M(1), TH, M(2), M(5), M(30)]       # generic positive shapes
SHS = [H, M(1), M(2), M(9)/2]
EPS = M(2)**-45                                  # near-special offsets
EPS2 = M(2)**-20

# ---------------------------------------------------------------- argus


def _argus_psi(c):
    # Phi(c) - c phi(c) - 1/2, by its (cancellation free) lower gamma form:
    # = P(3/2, c^2/2)/2
    return gamP(mp.mpf(3)/2, c*c/2)/2


def _argus_lnf(x, chi, s):
    z = x/s
    if chi == 0:
        return mp.log(3*z*mp.sqrt((1-z)*(1+z))/s)
    return (3*mp.log(chi) - mp.log(2*mp.pi)/2 - mp.log(_argus_psi(chi))
            + mp.log(z/s) + mp.log((1-z)*(1+z))/2 - chi**2*(1-z)*(1+z)/2)


def _argus_sf(x, chi, s):
    z = x/s
    if chi == 0:
        return ((1-z)*(1+z))**(mp.mpf(3)/2)
    return _argus_psi(chi*mp.sqrt((1-z)*(1+z)))/_argus_psi(chi)


def _argus_cdf(x, chi, s):
    with mp.extradps(70):
        z = x/s
        return 1 - _argus_sf(x, chi, s)


Dist('argus', PS([(0,), (Q,), (1,), (TH,), (4,), (9,)]), UNIT,
     lambda chi, s: (mp.zero, s), _argus_lnf, _argus_cdf, _argus_sf, scaled)

# ---------------------------------------------------------------- benini


def _benini_ls(x, a, b, s):
    l = mp.log(x/s)
    return -a*l - b*l*l


Dist('benini', PS([(1, 1), (H, Q), (Q, 2), (2, H), (3, 6), (3, M(25)/4), (30, 1)]),
     [1 + z for z in POS] + [M(5000), M(2)**40],
     lambda a, b, s: (s, INF),
     lambda x, a, b, s: _benini_ls(x, a, b, s) + mp.log(a/x + 2*b*mp.log(x/s)/x),
     lambda x, a, b, s: -mp.expm1(_benini_ls(x, a, b, s)),
     lambda x, a, b, s: mp.exp(_benini_ls(x, a, b, s)), scaled)

# ---------------------------------------------------------------- benktander


def _bk1_sf(x, a, b):
    l = mp.log(x)
    return (1 + 2*b/a*l)*mp.exp(-(a + 1 + b*l)*l)


def _bk1_lnf(x, a, b):
    l = mp.log(x)
    return (mp.log((1 + 2*b/a*l)*(1 + a + 2*b*l) - 2*b/a)
            - (2 + a + b*l)*l)


def _hi(f, extra=110):
    def g(*a):
        with mp.extradps(extra):
            return f(*a)
    return g


Dist('benktander1',
     P([1], [Q, H, 1]) + P([2], [Q, 1, M(4)/3 + 0, M(11)/8, 3]) + P([H], [Q, M(3)/8])
     + P([5], [M(1)/32, 15]),
     [1 + z for z in POS] + [M(5000), M(2)**40],
     lambda a, b: (mp.one, INF),
     _bk1_lnf, _hi(lambda x, a, b: 1 - _bk1_sf(x, a, b)), _bk1_sf)


def _bk2_ls(x, a, b):
    return (b - 1)*mp.log(x) + a/b*(1 - x**b)


Dist('benktander2', P([H, 1, 5], [Q, H, 1 - EPS2, 1]) + P([2], [M(3)/4, 1 - EPS]),
     [1 + z for z in POS] + [M(5000), M(2)**40],
     lambda a, b: (mp.one, INF),
     _hi(lambda x, a, b: mp.log(1 + a*x**b - b) + (b-2)*mp.log(x) + a/b*(1 - x**b)),
     _hi(lambda x, a, b: -mp.expm1(_bk2_ls(x, a, b))),
     _hi(lambda x, a, b: mp.exp(_bk2_ls(x, a, b))))

# ---------------------------------------------------------------- beta family


def _lbeta(a, b):
    return mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)


Dist('beta', P([Q, 1, TH, 5, 30], [Q, 1, TH, 5, 30]) + P([2, 200], [H, 3])
     + P([1 + EPS], [2]), UNIT,
     lambda a, b: (mp.zero, mp.one),
     lambda x, a, b: (a-1)*mp.log(x) + (b-1)*mp.log1p(-x) - _lbeta(a, b),
     lambda x, a, b: betI(a, b, x), lambda x, a, b: betIc(a, b, x))

Dist('betaprime', PS([(Q, H), (1, 1), (TH, 3), (5, TH), (1, 5), (30, 5), (5, 30), (2, M(9)/2)]),
     POSH, sup_pos,
     lambda x, a, b, s: (a-1)*mp.log(x/s) - (a+b)*mp.log1p(x/s) - _lbeta(a, b) - mp.log(s),
     _hi(lambda x, a, b, s: betI(a, b, x/(x+s)), 45),
     _hi(lambda x, a, b, s: betI(b, a, s/(x+s)), 45), scaled)

Dist('burr12', PS([(H, H), (1, 1), (2, 3), (M(9)/2, Q), (TH, 8), (1, 4), (12, H)]),
     POSH, sup_pos,
     lambda x, c, d, s: mp.log(c*d/s) + (c-1)*mp.log(x/s) - (d+1)*mp.log1p((x/s)**c),
     lambda x, c, d, s: -mp.expm1(-d*mp.log1p((x/s)**c)),
     lambda x, c, d, s: mp.exp(-d*mp.log1p((x/s)**c)), scaled, closed_lo=False)

Dist('cauchy', PLS([()]), REALH, sup_real,
     lambda x, m, s: -mp.log(mp.pi*s*(1 + ((x-m)/s)**2)),
     _hi(lambda x, m, s: H + mp.atan((x-m)/s)/mp.pi),
     _hi(lambda x, m, s: H - mp.atan((x-m)/s)/mp.pi), locscale)

Dist('chi', P(SH + [M(200)]), POS, sup_pos,
     lambda x, k: (1-k/2)*mp.log(2) + (k-1)*mp.log(x) - x*x/2 - mp.loggamma(k/2),
     lambda x, k: gamP(k/2, x*x/2), lambda x, k: gamQ(k/2, x*x/2))

Dist('chi2', P(SH + [M(200)]), POS, sup_pos,
     lambda x, k: -k/2*mp.log(2) + (k/2-1)*mp.log(x) - x/2 - mp.loggamma(k/2),
     lambda x, k: gamP(k/2, x/2), lambda x, k: gamQ(k/2, x/2))


def _cos_cdf(x):
    with mp.extradps(150):
        t = x + mp.pi
        return (t - mp.sin(t))/(2*mp.pi)


def _cos_sf(x):
    return _cos_cdf(-x)


Dist('cosine', [()], [M(-3217)/1024, M(-25)/8, M(-3), M(-2), M(-1), -Q, -M(2)**-60, M(0), M(2)**-30, Q, H, 1,
                      TH, 2, M(5)/2, 3, M(25)/8, M(3217)/1024 - 0],
     lambda: (-mp.pi, +mp.pi),
     _hi(lambda x: mp.log(2*mp.cos(x/2)**2/(2*mp.pi))), _cos_cdf, _cos_sf)


def _ew_lng(x, a, c, s):
    return mp.log(-mp.expm1(-(x/s)**c))


Dist('exponweib', PS([(1, 1), (H, 2), (2, H), (3, TH), (M(9)/2, 1), (1, 3), (Q, 5)]),
     POS, sup_pos,
     lambda x, a, c, s: (mp.log(a*c/s) + (c-1)*mp.log(x/s) + (a-1)*_ew_lng(x, a, c, s)
                         - (x/s)**c),
     lambda x, a, c, s: mp.exp(a*_ew_lng(x, a, c, s)),
     lambda x, a, c, s: (-mp.expm1(a*mp.log1p(-mp.exp(-(x/s)**c))) if (x/s)**c > 1
                         else -mp.expm1(a*_ew_lng(x, a, c, s))), scaled)

Dist('f', P([1, 2, 3, M(7)/2, 12], [1, 2, TH, 5, 40]), POSH, sup_pos,
     lambda x, m, n: (m/2*mp.log(m/n) + (m/2-1)*mp.log(x) - (m+n)/2*mp.log1p(m*x/n)
                      - _lbeta(m/2, n/2)),
     _hi(lambda x, m, n: betI(m/2, n/2, m*x/(m*x+n)), 45),
     _hi(lambda x, m, n: betI(n/2, m/2, n/(m*x+n)), 45), closed_lo=False)


def _fn_lnf(x, m, s):
    a = mp.exp(lnpdf_norm((x-m)/s)) + mp.exp(lnpdf_norm((x+m)/s))
    return mp.log(a/s)


Dist('folded_normal', P([0, H, 1, M(9)/8, -2, 4], [1, Q, 3]), POS[:-1], sup_pos,
     _fn_lnf,
     _hi(lambda x, m, s: (mp.erf((x-m)/s/mp.sqrt(2)) + mp.erf((x+m)/s/mp.sqrt(2)))/2, 400),
     lambda x, m, s: nsf((x-m)/s) + nsf((x+m)/s))

Dist('gamma', PS([(k,) for k in SH + [M(1) + EPS, M(200)]]), POS, sup_pos,
     lambda x, k, s: (k-1)*mp.log(x/s) - x/s - mp.loggamma(k) - mp.log(s),
     lambda x, k, s: gamP(k, x/s), lambda x, k, s: gamQ(k, x/s), scaled)


def _gg_ls(x, c, b, s):
    # log sf = c*log(b/(b + e^z - 1))
    z = x/s
    return -c*mp.log1p(mp.expm1(z)/b)


Dist('gamma_gompertz', PS([(1, 1), (H, 2), (2, H), (3, 3), (TH, 1 + EPS2), (2, 1 - EPS), (Q, 20), (1, 3)]),
     POS, sup_pos,
     lambda x, c, b, s: mp.log(c/s) + x/s + c*mp.log(b) - (c+1)*mp.log(b + mp.expm1(x/s)),
     lambda x, c, b, s: -mp.expm1(_gg_ls(x, c, b, s)),
     lambda x, c, b, s: mp.exp(_gg_ls(x, c, b, s)), scaled)


def _gexp_ls(x, a, b, c, m, s):
    z = (x-m)/s
    return -(a+b)*z - b/c*mp.expm1(-c*z)


Dist('genexpon', PLS([(1, 1, 1), (H, 2, 3), (2, Q, H), (3, 1, EPS2), (H, H, 12), (Q, 4, 1)]),
     POS, sup_loc,
     _hi(lambda x, a, b, c, m, s: mp.log(a - b*mp.expm1(-c*(x-m)/s)) + _gexp_ls(x, a, b, c, m, s) - mp.log(s)),
     _hi(lambda x, a, b, c, m, s: -mp.expm1(_gexp_ls(x, a, b, c, m, s))),
     _hi(lambda x, a, b, c, m, s: mp.exp(_gexp_ls(x, a, b, c, m, s))), locscale)


def _gev_sup(xi, m, s):
    if xi == 0:
        return (NINF, INF)
    if xi > 0:
        return (m - s/xi, INF)
    return (NINF, m - s/xi)


def _gev_lt(x, xi, m, s):
    z = (x-m)/s
    if xi == 0:
        return -z
    return -mp.log1p(xi*z)/xi


def _gev_lnf(x, xi, m, s):
    lt = _gev_lt(x, xi, m, s)
    return (xi+1)*lt - mp.exp(lt) - mp.log(s)


_GEVZ = [M(-45), M(-9), M(-4), M(-2), -TH, M(-1), -H, -M(2)**-30, M(0), M(2)**-30, H, M(1), TH, M(3), M(6), M(20),
         M(100), M(2)**30]
_XI = [0, Q, H, 1, 2, -Q, -H, -1, -2, EPS, -EPS, EPS2]
Dist('genextreme', PLS([(x,) for x in _XI]), _GEVZ, _gev_sup, _hi(_gev_lnf),
     _hi(lambda x, xi, m, s: mp.exp(-mp.exp(_gev_lt(x, xi, m, s)))),
     _hi(lambda x, xi, m, s: -mp.expm1(-mp.exp(_gev_lt(x, xi, m, s)))), locscale,
     closed_lo=False, closed_hi=False)


def _gh_lnf(x, p, a, b, m, s):
    z = (x-m)/s
    w = 1 + z*z
    return (p/2*mp.log(a*a - b*b) + b*z - mp.log(2*mp.pi)/2 - (p-H)*mp.log(a)
            + (p-H)/2*mp.log(w) + mp.log(mp.besselk(p-H, a*mp.sqrt(w)))
            - mp.log(mp.besselk(p, mp.sqrt(a*a - b*b))) - mp.log(s))


Dist('genhyperbolic', PLS([(1, 1, 0), (H, TH, H), (-2, 2, -1), (0, 1, H), (3, 5, 4), (-H, 1, -Q)]),
     [M(-20), M(-5), M(-2), -1, -Q, M(0), H, 1, TH, 3, 9, 30], sup_real, _hi(_gh_lnf, 20),
     None, None, locscale, slow=True)


def _gig_lnf(x, p, b, m, s):
    z = (x-m)/s
    return (p-1)*mp.log(z) - b*(z + 1/z)/2 - mp.log(2*mp.besselk(p, b)) - mp.log(s)


Dist('geninvgauss', PLS([(1, 1), (H, 2), (-TH, H), (0, 3), (4, Q), (-2, 8)]),
     [M(1)/64, M(1)/8, Q, H, 1, TH, 2, 4, 9, 30], sup_loc, _gig_lnf, None, None, locscale,
     closed_lo=False, slow=True)


def _gp_sup(xi, m, s):
    if xi >= 0:
        return (m, INF)
    return (m, m - s/xi)


def _gp_ls(x, xi, m, s):
    z = (x-m)/s
    if xi == 0:
        return -z
    return -mp.log1p(xi*z)/xi


Dist('genpareto', PLS([(x,) for x in _XI]), POS + [M(2)**30], _gp_sup,
     _hi(lambda x, xi, m, s: (1+xi)*_gp_ls(x, xi, m, s) - mp.log(s)),
     _hi(lambda x, xi, m, s: -mp.expm1(_gp_ls(x, xi, m, s))),
     _hi(lambda x, xi, m, s: mp.exp(_gp_ls(x, xi, m, s))), locscale)

Dist('gompertz', PS([(Q,), (H,), (1,), (2,), (12,), (M(1)/64,)]), POS[:-1], sup_pos,
     lambda x, c, s: mp.log(c/s) + c + x/s - c*mp.exp(x/s),
     lambda x, c, s: -mp.expm1(-c*mp.expm1(x/s)),
     lambda x, c, s: mp.exp(-c*mp.expm1(x/s)), scaled)

Dist('gumbel_max', PLS([()]), REAL, sup_real,
     lambda x, m, s: -(x-m)/s - mp.exp(-(x-m)/s) - mp.log(s),
     lambda x, m, s: mp.exp(-mp.exp(-(x-m)/s)),
     lambda x, m, s: -mp.expm1(-mp.exp(-(x-m)/s)), locscale)
Dist('gumbel_min', PLS([()]), REAL, sup_real,
     lambda x, m, s: (x-m)/s - mp.exp((x-m)/s) - mp.log(s),
     lambda x, m, s: -mp.expm1(-mp.exp((x-m)/s)),
     lambda x, m, s: mp.exp(-mp.exp((x-m)/s)), locscale)

Dist('half_logistic', PLS([()]), POS, sup_loc,
     lambda x, m, s: mp.log(2/s) - (x-m)/s - 2*mp.log1p(mp.exp(-(x-m)/s)),
     lambda x, m, s: mp.tanh((x-m)/s/2),
     lambda x, m, s: 2/(1 + mp.exp((x-m)/s)), locscale)

Dist('hypsecant', PLS([()]), REAL, sup_real,
     lambda x, m, s: -mp.log(mp.pi*mp.cosh((x-m)/s)) - mp.log(s),
     lambda x, m, s: 2/mp.pi*mp.atan(mp.exp((x-m)/s)),
     lambda x, m, s: 2/mp.pi*mp.atan(mp.exp(-(x-m)/s)), locscale)

_IPOS = [M(1)/512, M(1)/64, M(1)/16, M(1)/8, Q, H, M(3)/4, M(1), TH, M(2), M(3), M(9), M(40), M(5000), M(2)**40]
Dist('invchi2', P(SH), _IPOS, sup_pos,
     lambda x, n: -n/2*mp.log(2) - mp.loggamma(n/2) - (n/2+1)*mp.log(x) - 1/(2*x),
     lambda x, n: gamQ(n/2, 1/(2*x)), lambda x, n: gamP(n/2, 1/(2*x)), closed_lo=False)
Dist('invgamma', PLS([(k,) for k in SH]), _IPOS, sup_loc,
     lambda x, a, m, s: -mp.loggamma(a) - mp.log(s) - (a+1)*mp.log((x-m)/s) - s/(x-m),
     lambda x, a, m, s: gamQ(a, s/(x-m)), lambda x, a, m, s: gamP(a, s/(x-m)), locscale,
     closed_lo=False)


def _ig_cdf(x, mu, m, s):
    z = (x-m)/s
    r = mp.sqrt(1/z)
    return ncdf(r*(z/mu-1)) + mp.exp(2/mu)*ncdf(-r*(z/mu+1))


def _ig_sf(x, mu, m, s):
    z = (x-m)/s
    r = mp.sqrt(1/z)
    return nsf(r*(z/mu-1)) - mp.exp(2/mu)*ncdf(-r*(z/mu+1))


Dist('invgauss', PLS([(Q,), (1,), (TH,), (5,), (M(1)/32,)]),
     [M(1)/512, M(1)/64, M(1)/8, Q, H, M(3)/4, M(1), TH, M(2), M(3), M(9), M(40), M(200)], sup_loc,
     lambda x, mu, m, s: (-mp.log(2*mp.pi*((x-m)/s)**3)/2 - mp.log(s)
                          - ((x-m)/s - mu)**2/(2*mu**2*(x-m)/s)),
     _ig_cdf, _hi(_ig_sf), locscale, closed_lo=False)

Dist('kumaraswamy', P([Q, 1, TH, 5], [Q, 1, 2, M(9)/2]) + P([20], [3]), UNIT,
     lambda a, b: (mp.zero, mp.one),
     _hi(lambda x, a, b: mp.log(a*b) + (a-1)*mp.log(x) + (b-1)*mp.log1p(-x**a)),
     _hi(lambda x, a, b: -mp.expm1(b*mp.log1p(-x**a)), 400),
     _hi(lambda x, a, b: (1-x**a)**b))

Dist('laplace', PLS([()]), REAL, sup_real,
     lambda x, m, s: -abs(x-m)/s - mp.log(2*s),
     lambda x, m, s: mp.exp((x-m)/s)/2 if x <= m else 1 - mp.exp(-(x-m)/s)/2,
     lambda x, m, s: mp.exp(-(x-m)/s)/2 if x >= m else 1 - mp.exp((x-m)/s)/2, locscale)

Dist('levy', PLS([()]), _IPOS, sup_loc,
     lambda x, m, s: mp.log(s/(2*mp.pi))/2 - s/(2*(x-m)) - 3*mp.log(x-m)/2,
     lambda x, m, s: mp.erfc(mp.sqrt(s/(2*(x-m)))),
     lambda x, m, s: mp.erf(mp.sqrt(s/(2*(x-m)))), locscale, closed_lo=False)

Dist('loggamma', PS([(k,) for k in SH]), [M(-200)] + [z for z in REAL if z < 5], sup_real,
     lambda x, k, s: k*x/s - mp.exp(x/s) - mp.loggamma(k) - mp.log(s),
     lambda x, k, s: gamP(k, mp.exp(x/s)), lambda x, k, s: gamQ(k, mp.exp(x/s)), scaled)

Dist('logistic', PLS([()]), REAL, sup_real,
     lambda x, m, s: -(x-m)/s - 2*mp.log1p(mp.exp(-(x-m)/s)) - mp.log(s),
     lambda x, m, s: 1/(1 + mp.exp(-(x-m)/s)),
     lambda x, m, s: 1/(1 + mp.exp((x-m)/s)), locscale)

Dist('loglogistic', PS([(Q,), (1,), (TH,), (2,), (M(9)/2,), (12,)]), POSH, sup_pos,
     lambda x, b, s: mp.log(b/s) + (b-1)*mp.log(x/s) - 2*mp.log1p((x/s)**b),
     lambda x, b, s: 1/(1 + (x/s)**(-b)),
     lambda x, b, s: 1/(1 + (x/s)**b), scaled, closed_lo=False)

Dist('lognormal', LOCSCALE + [(M(1), H)], [M(2)**-20] + [z for z in POSH[2:]], sup_pos,
     lambda x, m, s: lnpdf_norm((mp.log(x)-m)/s) - mp.log(x*s),
     lambda x, m, s: ncdf((mp.log(x)-m)/s),
     lambda x, m, s: nsf((mp.log(x)-m)/s), closed_lo=False)

Dist('maxwell', PLS([()]), POS[:-1], sup_loc,
     lambda x, m, s: mp.log(2/mp.pi)/2 + 2*mp.log((x-m)/s) - ((x-m)/s)**2/2 - mp.log(s),
     lambda x, m, s: gamP(TH, ((x-m)/s)**2/2),
     lambda x, m, s: gamQ(TH, ((x-m)/s)**2/2), locscale, closed_lo=False)

Dist('nakagami', PLS([(Q,), (H,), (1,), (TH,), (5,), (30,)]), POS[:-1], sup_loc,
     lambda x, n, m, s: (mp.log(2) + n*mp.log(n) - mp.loggamma(n) + (2*n-1)*mp.log((x-m)/s)
                         - n*((x-m)/s)**2 - mp.log(s)),
     lambda x, n, m, s: gamP(n, n*((x-m)/s)**2),
     lambda x, n, m, s: gamQ(n, n*((x-m)/s)**2), locscale, closed_lo=False)

# -------------------------------------------------------- noncentral families


def _poisson_mix(term, lam):
    """sum_j exp(-lam) lam^j/j! * term(j) for nonnegative bounded term."""
    j = 0
    w = mp.exp(-lam)
    s = mp.zero
    acc = mp.zero
    while True:
        t = w*term(j)
        s += t
        acc += w
        j += 1
        w = w*lam/j
        if j > lam and (w < mp.eps*mp.mpf(10)**-20*abs(s)
                        or (w == 0)) and w < mp.eps*mp.mpf(10)**-20:
            return s


def _ncx2_lnf(x, k, lam):
    # Poisson mixture of chi2 densities
    def term(j):
        n = k/2 + j
        return mp.exp((n-1)*mp.log(x/2) - x/2 - mp.loggamma(n))/2
    return mp.log(_sum_mix(term, lam/2))


def _sum_mix(term, lam):
    j = 0
    lw = -lam
    s = mp.zero
    while True:
        t = mp.exp(lw)*term(j)
        s += t
        j += 1
        lw += mp.log(lam) - mp.log(j)
        if j > 5 and t < mp.eps*s*mp.mpf(10)**-10 and t <= prev:
            return s
        prev = t


Dist('ncx2', P([1, TH, 3, 8], [Q, 1, 4, 12]), [M(1)/1024, Q, 1, TH, 3, 5, 9, 20, 40, 80], sup_pos,
     _ncx2_lnf,
     lambda x, k, lam: _sum_mix(lambda j: gamP(k/2 + j, x/2), lam/2),
     lambda x, k, lam: 1 - _sum_mix(lambda j: gamP(k/2 + j, x/2), lam/2),
     slow=True)


def _ncf_term(x, m, n, j):
    a = m/2 + j
    b = n/2
    return mp.exp(-_lbeta(b, a) + a*mp.log(m/n) + (a+b)*mp.log(n/(n+m*x)) + (a-1)*mp.log(x))


Dist('ncf', P([2, 3, 5], [4, 5, 12], [H, 1, 4]), [M(1)/64, Q, 1, TH, 3, 5, 9, 20, 80], sup_pos,
     lambda x, m, n, nc: mp.log(_sum_mix(lambda j: _ncf_term(x, m, n, j), nc/2)),
     lambda x, m, n, nc: _sum_mix(lambda j: betI(m/2 + j, n/2, m*x/(m*x+n)), nc/2),
     None, slow=True)


def _nct_lnf(x, df, nc):
    # closed form with 1F1 (Johnson & Kotz)
    t = nc*nc*x*x/(2*(x*x + df))
    c = (df/2*mp.log(df) + mp.loggamma(df+1) - nc*nc/2 - df*mp.log(2)
         - df/2*mp.log(df + x*x) - mp.loggamma(df/2))
    with mp.extradps(40):
        a = (mp.sqrt(2)*nc*x*mp.hyp1f1(df/2 + 1, TH, t)
             / ((df + x*x)*mp.gamma((df+1)/2)))
        b = mp.hyp1f1((df+1)/2, H, t)/(mp.sqrt(df + x*x)*mp.gamma(df/2 + 1))
        return c + mp.log(a + b)


Dist('nct', P([1, 2, M(7)/2, 10], [H, 1, -TH, 4]), [M(-9), M(-2), -H, M(0), Q, 1, TH, 3, 9, 40], sup_real,
     _nct_lnf, None, None, slow=True)


def _nrm(x, m, s):
    return (x-m)/s


Dist('normal', LOCSCALE, REAL, sup_real,
     lambda x, m, s: lnpdf_norm((x-m)/s) - mp.log(s),
     lambda x, m, s: ncdf((x-m)/s), lambda x, m, s: nsf((x-m)/s), locscale)

Dist('pareto', PLS([(Q,), (1,), (TH,), (2,), (3,), (30,)]), [1 + z for z in POS] + [M(5000), M(2)**40],
     lambda b, m, s: (m + s, INF),
     lambda x, b, m, s: mp.log(b/s) - (b+1)*mp.log((x-m)/s),
     lambda x, b, m, s: -mp.expm1(-b*mp.log((x-m)/s)),
     lambda x, b, m, s: mp.exp(-b*mp.log((x-m)/s)), locscale)


Dist('power_normal', PLS([(Q,), (1,), (2,), (M(9)/2,), (30,)]), [z for z in REAL if abs(z) < 30], sup_real,
     lambda x, c, m, s: mp.log(c/s) + lnpdf_norm((x-m)/s) + (c-1)*mp.log(nsf((x-m)/s)),
     lambda x, c, m, s: -mp.expm1(c*mp.log1p(-ncdf((x-m)/s))) if x < m else 1 - nsf((x-m)/s)**c,
     lambda x, c, m, s: nsf((x-m)/s)**c if x >= m else mp.exp(c*mp.log1p(-ncdf((x-m)/s))), locscale)


def _rbw_k(rho):
    g = mp.sqrt(rho*rho*(rho*rho + 1))
    return 2*mp.sqrt(2)*rho*g/(mp.pi*mp.sqrt(rho*rho + g))


def _rbw_lnf(x, rho, s):
    z = x/s
    # k is  2 sqrt(2) rho^2 sqrt(1+rho^2)/(pi sqrt(rho^2 + rho sqrt(rho^2+1)))
    k = (2*mp.sqrt(2)*rho**2*mp.sqrt(1 + rho**2)
         / (mp.pi*mp.sqrt(rho**2 + rho*mp.sqrt(rho**2 + 1))))
    return mp.log(k) - mp.log((z*z - rho*rho)**2 + rho*rho) - mp.log(s)


def _rbw_cdf(x, rho, s):
    # partial fractions of 1/((z^2-rho^2)^2 + rho^2) over the two conjugate
    # roots  z^2 = rho^2 +- i rho
    z = x/s
    k = (2*mp.sqrt(2)*rho**2*mp.sqrt(1 + rho**2)
         / (mp.pi*mp.sqrt(rho**2 + rho*mp.sqrt(rho**2 + 1))))
    w = mp.sqrt(mp.mpc(rho*rho, rho))
    # integral of 1/(z^2-w^2) = -atanh(z/w)/w
    I = mp.log((w + z)/(w - z))/(2*w)
    return k*(-I).imag/rho


Dist('rel_breitwigner', PS([(Q,), (1,), (TH,), (6,), (M(40),)]), POSH[:-1], sup_pos, _rbw_lnf,
     _hi(_rbw_cdf, 60),
     _hi(lambda x, rho, s: 1 - _rbw_cdf(x, rho, s), 60), scaled)


def _rice_cdf(x, nu, s):
    return _sum_mix0(lambda j: gamP(mp.mpf(1) + j, (x/s)**2/2), (nu/s)**2/2)


def _sum_mix0(term, lam):
    if lam == 0:
        return term(0)
    return _sum_mix(term, lam)


Dist('rice', P([0, Q, 1, 3], [1, H, 2]), [M(1)/1024, Q, H, 1, TH, 2, 3, 5, 8], sup_pos,
     lambda x, nu, s: (mp.log(x/s**2) - (x*x + nu*nu)/(2*s*s)
                       + mp.log(mp.besseli(0, x*nu/s**2))),
     _rice_cdf, lambda x, nu, s: 1 - _rice_cdf(x, nu, s), slow=True)


def _slash_lnf(x):
    if x == 0:
        return -mp.log(2*mp.sqrt(2*mp.pi))
    return mp.log(-mp.expm1(-x*x/2)/mp.sqrt(2*mp.pi)) - 2*mp.log(abs(x))


def _slash_cdf(x):
    if x == 0:
        return mp.one/2
    d = -mp.expm1(-x*x/2)/mp.sqrt(2*mp.pi)
    return ncdf(x) - d/x


Dist('slash', [()], REALH, sup_real, _slash_lnf, _hi(_slash_cdf), _hi(lambda x: _slash_cdf(-x)))


def _t_sf(x, n):
    if x >= 0:
        return betI(n/2, H, n/(n + x*x))/2
    return 1 - _t_sf(-x, n)


Dist('studentt', P([H, 1, TH, 2, 5, 30, 200]), REAL + [M(-500), M(2)**20], sup_real,
     lambda x, n: (mp.loggamma((n+1)/2) - mp.loggamma(n/2) - mp.log(n*mp.pi)/2
                   - (n+1)/2*mp.log1p(x*x/n)),
     lambda x, n: _t_sf(-x, n), _t_sf)


def _ncd(a, b):
    if a > 0:
        return (mp.erfc(a/mp.sqrt(2)) - mp.erfc(b/mp.sqrt(2)))/2
    return (mp.erfc(-b/mp.sqrt(2)) - mp.erfc(-a/mp.sqrt(2)))/2


def _tn_pts(z, a, b):
    lo = a if not mp.isinf(a) else (b - 12 if not mp.isinf(b) else M(-9))
    hi = b if not mp.isinf(b) else (a + 12 if not mp.isinf(a) else M(9))
    return lo + (hi - lo)*z


Dist('truncnorm', [(M(a), M(b)) for a, b in
                   [(-1, 2), (H, 3), (-4, -Q), (5, 9), (-9, -6), (-2, 2), (0, 1), (NINF, 1), (-1, INF), (NINF, INF),
                    (2, INF), (NINF, -3), (8, INF), (-30, 40), (1, 1 + M(2)**-10)]],
     [M(2)**-45, M(1)/1024, M(1)/16, Q, M(3)/8, H, M(5)/8, M(3)/4, M(15)/16, 1 - M(2)**-20],
     lambda a, b: (a, b),
     lambda x, a, b: lnpdf_norm(x) - mp.log(_ncd(a, b)),
     _hi(lambda x, a, b: _ncd(a, x)/_ncd(a, b)), _hi(lambda x, a, b: _ncd(x, b)/_ncd(a, b)), _tn_pts)


# tukeylambda: defined through its quantile function; solved by bisection at
# reference precision.
def _tl_q(p, q, lam):
    if lam == 0:
        return mp.log(p) - mp.log(q)
    return (mp.expm1(lam*mp.log(p)) - mp.expm1(lam*mp.log(q)))/lam


_tl_cache = {}


def _tl_pq(x, lam, m, s):
    """(p, 1-p) with Q(p) = (x-m)/s.  Newton in logit coordinates."""
    z = (x-m)/s
    key = (z, lam, mp.prec)
    if key in _tl_cache:
        return _tl_cache[key]
    if z > 0:
        p, q = _tl_pq(-z, lam, mp.zero, mp.one)
        return q, p
    # u = log(p), p <= 1/2
    lo = -mp.one
    f = lambda u: _tl_q(mp.exp(u), -mp.expm1(u), lam) - z
    while f(lo) > 0:
        lo *= 2
    hi = -mp.log(2)
    if f(hi) == 0:
        r = (mp.one/2, mp.one/2)
        _tl_cache[key] = r
        return r
    if lo > hi:
        lo, hi = hi, lo
    u = (lo + hi)/2
    for _ in range(4000):
        p = mp.exp(u)
        q = 1 - p
        v = _tl_q(p, q, lam) - z
        if v > 0:
            hi = u
        else:
            lo = u
        d = (mp.power(p, lam) + p*mp.power(q, lam-1))
        un = u - v/d
        if not (lo < un < hi):
            un = (lo + hi)/2
        if abs(un - u) <= abs(u)*mp.eps*8 + mp.eps*mp.mpf(2)**-20:
            u = un
            break
        u = un
    r = (mp.exp(u), -mp.expm1(u))
    _tl_cache[key] = r
    return r


def _tl_sup(lam, m, s):
    if lam > 0:
        return (m - s/lam, m + s/lam)
    return (NINF, INF)


def _tl_lnf(x, lam, m, s):
    p, q = _tl_pq(x, lam, m, s)
    return -mp.log(mp.power(p, lam-1) + mp.power(q, lam-1)) - mp.log(s)


Dist('tukeylambda', PLS([(0,), (Q,), (H,), (1,), (TH,), (2,), (4,), (-Q,), (-1,), (-2,), (M(9)/2,), (EPS2,)],
                        LOCSCALE[:2]),
     [z for z in REAL if abs(z) < 15], _tl_sup, _tl_lnf,
     lambda x, lam, m, s: _tl_pq(x, lam, m, s)[0], lambda x, lam, m, s: _tl_pq(x, lam, m, s)[1], locscale,
     slow=True)

Dist('uniform', P([0, -2], [1, M(5)/2]) + P([3], [M(7)/2, 2**20]), UNIT, lambda a, b: (a, b),
     lambda x, a, b: -mp.log(b-a), lambda x, a, b: (x-a)/(b-a), lambda x, a, b: (b-x)/(b-a),
     lambda z, a, b: a + (b-a)*z)

Dist('vonmises', P([Q, 1, TH, 8, 50], [0, 1, -2]), [M(-3), M(-2), -1, -Q, M(0), Q, H, 1, TH, 2, 3],
     lambda k, m: (m - mp.pi, m + mp.pi),
     lambda x, k, m: k*mp.cos(x-m) - mp.log(2*mp.pi*mp.besseli(0, k)), None, None,
     lambda z, k, m: m + z)

Dist('weibull_min', PLS([(Q,), (H,), (1,), (TH,), (2,), (5,), (12,), (1 + EPS,)]), POS, sup_loc,
     lambda x, k, m, s: mp.log(k/s) + (k-1)*mp.log((x-m)/s) - ((x-m)/s)**k,
     lambda x, k, m, s: -mp.expm1(-((x-m)/s)**k),
     lambda x, k, m, s: mp.exp(-((x-m)/s)**k), locscale)
Dist('weibull_max', PLS([(Q,), (H,), (1,), (TH,), (2,), (5,), (12,), (1 + EPS,)]), [-z for z in reversed(POS)],
     lambda k, m, s: (NINF, m),
     lambda x, k, m, s: mp.log(k/s) + (k-1)*mp.log((m-x)/s) - ((m-x)/s)**k,
     lambda x, k, m, s: mp.exp(-((m-x)/s)**k),
     lambda x, k, m, s: -mp.expm1(-((m-x)/s)**k), locscale)
