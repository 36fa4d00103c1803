"""Regenerates mc/ref/tables/moments.json by double exponential quadrature (run by hand)."""
import sys, os, json, time, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
from mpmath import mp
from multiprocessing import Pool
from mc.ref.cont import DISTS
from mc.ref.moments import allcases, canon, tail, tkey
from mc.util import inventory

NM = 6
WANT = {'mean', 'var', 'skewness', 'kurtosis', 'noncentral_moment', 'entropy', 'circvar'}


def integrals(name, par):
    d = DISTS[name]
    mp.dps = 60
    fns = inventory()['distributions'][name]
    nm = NM if 'noncentral_moment' in fns else 4 if 'kurtosis' in fns else 3 if 'skewness' in fns else 2
    if d.slow or name in ('nct', 'ncf', 'ncx2', 'rice', 'genhyperbolic', 'geninvgauss'):
        mp.dps = 45
        if name == 'nct':
            nm = 4
        if name == 'rice':
            nm = 5
    t = tail(name, par)
    ns = [n for n in range(0, nm + 1) if n < t]
    if name == 'tukeylambda':
        lam = par[0]
        out = []
        for n in ns:
            s = mp.zero
            if lam == 0:
                mp.dps = 60
                s = mp.quad(lambda z: z**n/(mp.exp(z/2) + mp.exp(-z/2))**2, [-300, -100, -30, -10, 0, 10, 30, 100, 300]) if n else mp.one
            else:
                mp.dps = 250
                for k in range(n + 1):
                    s += mp.binomial(n, k)*(-1)**k*mp.beta(lam*(n-k) + 1, lam*k + 1)
                s /= lam**n
            out.append(s)
        return out, None
    if name == 'vonmises':
        kap = par[0]
        N = 400
        while True:
            f = [mp.exp(d.lnf(2*mp.pi*j/N - mp.pi, kap, mp.zero)) for j in range(N)]
            h = 2*mp.pi/N
            s0 = h*mp.fsum(f)
            c = h*mp.fsum([v*mp.cos(2*mp.pi*j/N - mp.pi) for j, v in enumerate(f)])
            H = -h*mp.fsum([v*mp.log(v) for v in f])
            if abs(s0 - 1) < mp.mpf(10)**-48:
                return [s0, c], H
            N *= 2
    lo, hi = d.support(par)
    base = mp.dps
    if name in ('beta', 'kumaraswamy') and par[1] < 1 or name in ('genextreme', 'genpareto') and par[0] < -1:
        mp.dps = 60 + 260
    half = mp.pi/2
    if not mp.isinf(lo) and not mp.isinf(hi):
        w = hi - lo

        def node(s):
            e = mp.exp(-2*half*mp.sinh(s))
            g = 1/(1 + e)
            return lo + w*g, w*g*g*e*2*half*mp.cosh(s)
    elif not mp.isinf(lo):
        def node(s):
            e = mp.exp(half*mp.sinh(s))
            return lo + e, e*half*mp.cosh(s)
    elif not mp.isinf(hi):
        def node(s):
            e = mp.exp(half*mp.sinh(s))
            return hi - e, e*half*mp.cosh(s)
    else:
        def node(s):
            y = half*mp.sinh(s)
            return mp.sinh(y), mp.cosh(y)*half*mp.cosh(s)

    def terms(s):
        x, w = node(s)
        if not lo < x < hi:
            return None
        l = d.lnf(x, *par)
        f = mp.exp(l)*w
        if f == 0:
            return None
        r = [f*x**n for n in ns]
        r.append(-f*l)
        return r

    if max([abs(v) for v in par if not mp.isinf(v)] + [0]) > 1001:
        return peaked(d, par, ns, lo, hi)
    smax = 11
    # locate the region that matters
    lim = mp.mpf(10)**(-base - 8)
    with mp.workdps(30 if mp.dps < 100 else mp.dps):
        pts = [mp.mpf(i)/8 for i in range(-8*smax, 8*smax + 1)]
        vals = []
        for s in pts:
            try:
                t_ = terms(s)
            except (OverflowError, MemoryError):
                t_ = None
            vals.append(max((abs(v) for v in t_), default=mp.zero) if t_ else mp.zero)
        mx = max(vals)
        ok = [i for i, v in enumerate(vals) if v > lim*mx]
        a, b = pts[max(0, ok[0] - 2)], pts[min(len(pts) - 1, ok[-1] + 2)]
    h = mp.mpf(1)/8
    tot = None
    prev = None
    k0, k1 = int(mp.floor(a/h)), int(mp.ceil(b/h))
    for level in range(9):
        if tot is None:
            idx = range(k0, k1 + 1)
        else:
            h /= 2
            k0, k1 = 2*k0, 2*k1
            idx = range(k0 + 1, k1, 2)
        acc = [mp.zero]*(len(ns) + 1)
        for k in idx:
            t_ = terms(k*h)
            if t_:
                for j, v in enumerate(t_):
                    acc[j] += v
        tot = acc if tot is None else [p + q for p, q in zip(tot, acc)]
        cur = [v*h for v in tot]
        if prev is not None:
            err = max(abs(c - p)/(abs(c) + mp.mpf(10)**-8) for c, p in zip(cur, prev))
            if err < mp.mpf(10)**-38 or (err < mp.mpf(10)**-21 and level > 2 and abs(cur[0] - 1) < mp.mpf(10)**-40):
                return cur[:-1], cur[-1]
        prev = cur
    raise ArithmeticError(f'no convergence {name} {par} err={mp.nstr(err, 3)} m0={mp.nstr(cur[0], 20)}')


def peaked(d, par, ns, lo, hi):
    """Trapezoidal rule in the natural coordinate (log, logit) for a sharply peaked density."""
    mp.dps = 60
    if d.name in ('gumbel_max', 'gumbel_min', 'loggamma', 'genhyperbolic'):
        node = lambda t: (t, mp.one)
    elif not mp.isinf(lo) and not mp.isinf(hi):
        def node(t):
            g = 1/(1 + mp.exp(-t))
            return lo + (hi - lo)*g, (hi - lo)*g*(1 - g)
    elif not mp.isinf(lo):
        node = lambda t: (lo + mp.exp(t), mp.exp(t))
    elif not mp.isinf(hi):
        node = lambda t: (hi - mp.exp(t), mp.exp(t))
    else:
        node = lambda t: (mp.sinh(t), mp.cosh(t))

    def g(t):
        x, w = node(t)
        if not lo < x < hi or (d.name == 'gompertz' and x > 300) or w == 0:
            return -mp.mpf(10)**9*(1 + abs(t))
        return d.lnf(x, *par) + mp.log(w)
    a, b = mp.mpf(-60), mp.mpf(60)
    if d.name in ('gumbel_max', 'gumbel_min', 'loggamma'):
        a, b = mp.mpf(-20), mp.mpf(20)
    for _ in range(200):
        x1, x2 = a + (b - a)/3, b - (b - a)/3
        if g(x1) < g(x2):
            a = x1
        else:
            b = x2
    c = (a + b)/2
    e = mp.mpf(10)**-15
    s = 1/mp.sqrt(-(g(c + e) - 2*g(c) + g(c - e))/e**2)
    top = g(c)

    def terms(t):
        x, w = node(t)
        if g(t) < top - 400:
            return [mp.zero]*(len(ns) + 1), 0
        l = d.lnf(x, *par)
        f = mp.exp(l)*w
        return [f*x**n for n in ns] + [-f*l], l + mp.log(w) - top

    ends = []
    for sg in (1, -1):
        k = 8
        while g(c + sg*k*s) - top > -160:
            k *= 1.25
            if k > 2000:
                raise ArithmeticError('not peaked')
        ends.append(mp.mpf(k)*s)
    prev = None
    h = s/2
    for _ in range(5):
        acc = [mp.zero]*(len(ns) + 1)
        for k in range(-int(ends[1]/h), int(ends[0]/h) + 1):
            r, _l = terms(c + k*h)
            for j, v in enumerate(r):
                acc[j] += v
        cur = [v*h for v in acc]
        if prev is not None:
            err = max(abs(p - q)/(abs(p) + mp.mpf(10)**-8) for p, q in zip(cur, prev))
            if err < mp.mpf(10)**-42:
                return cur[:-1], cur[-1]
        prev = cur
        h /= 2
    raise ArithmeticError(f'peaked: no convergence {mp.nstr(err, 3)}')


def closed(name, par, ns):
    """Textbook raw moments (and entropy) where quadrature is hard; None if not covered."""
    G, lg, psi, B = mp.gamma, mp.loggamma, mp.psi, mp.beta
    p = par
    H = None
    if name == 'gamma':
        m = [mp.rf(p[0], n) for n in ns]
        H = p[0] + lg(p[0]) + (1 - p[0])*psi(0, p[0])
    elif name == 'chi2':
        k = p[0]/2
        m = [2**n*mp.rf(k, n) for n in ns]
        H = k + lg(k) + (1 - k)*psi(0, k) + mp.log(2)
    elif name == 'chi':
        k = p[0]
        m = [mp.mpf(2)**(mp.mpf(n)/2)*mp.exp(lg((k + n)/2) - lg(k/2)) for n in ns]
        H = lg(k/2) + (k - mp.log(2) - (k - 1)*psi(0, k/2))/2
    elif name == 'invgamma':
        a = p[0]
        m = [mp.exp(lg(a - n) - lg(a)) for n in ns]
        H = a + lg(a) - (1 + a)*psi(0, a)
    elif name in ('weibull_min', 'weibull_max'):
        k = p[0]
        sg = 1 if name == 'weibull_min' else -1
        m = [sg**n*G(1 + n/k) for n in ns]
        H = mp.euler*(1 - 1/k) - mp.log(k) + 1
    elif name == 'beta':
        a, b = p
        m = [mp.rf(a, n)/mp.rf(a + b, n) for n in ns]
        lb = lg(a) + lg(b) - lg(a + b)
        H = lb - (a - 1)*psi(0, a) - (b - 1)*psi(0, b) + (a + b - 2)*psi(0, a + b)
    elif name == 'kumaraswamy':
        a, b = p
        m = [b*B(1 + n/a, b) for n in ns]
        H = 1 - 1/b + (1 - 1/a)*(psi(0, b + 1) + mp.euler) - mp.log(a*b)
    elif name == 'betaprime':
        a, b = p[:2]
        m = [mp.exp(lg(a + n) + lg(b - n) - lg(a) - lg(b)) for n in ns]
    elif name == 'f':
        a, b = p[0]/2, p[1]/2
        m = [(b/a)**n*mp.exp(lg(a + n) + lg(b - n) - lg(a) - lg(b)) for n in ns]
        lb = lg(a) + lg(b) - lg(a + b)
        H = lb + (1 - a)*psi(0, a) - (1 + b)*psi(0, b) + (a + b)*psi(0, a + b) + mp.log(b/a)
    elif name == 'studentt':
        v = p[0]
        m = [mp.zero if n % 2 else v**(n//2)*mp.exp(lg(mp.mpf(n + 1)/2) + lg((v - n)/2) - lg(mp.mpf(1)/2) - lg(v/2)) for n in ns]
        H = (v + 1)/2*(psi(0, (v + 1)/2) - psi(0, v/2)) + mp.log(v)/2 + lg(v/2) + lg(mp.mpf(1)/2) - lg((v + 1)/2)
    elif name == 'burr12':
        c, k = p[:2]
        m = [k*B(k - n/c, 1 + n/c) for n in ns]
        H = None
    elif name == 'loglogistic':
        b = p[0]
        m = [n/b*mp.pi/mp.sin(n*mp.pi/b) if n else mp.one for n in ns]
    elif name == 'pareto':
        b = p[0]
        m = [b/(b - n) for n in ns]
        H = 1 + 1/b - mp.log(b)
    elif name == 'lognormal':
        mu, s = p
        m = [mp.exp(n*mu + n*n*s*s/2) for n in ns]
        H = mu + mp.mpf(1)/2 + mp.log(s*mp.sqrt(2*mp.pi))
    elif name == 'genpareto' and p[0] != 0:
        xi = p[0]
        u = [1/(1 - k*xi) if 1 - k*xi > 0 else None for k in range(7)]
        m = [mp.fsum([mp.binomial(n, k)*(-1)**(n - k)*u[k] for k in range(n + 1)])/xi**n for n in ns]
        H = 1 + xi
    elif name == 'genextreme':
        xi = p[0]
        H = mp.euler*xi + mp.euler + 1
        if xi == 0:
            k1, k2, k3, k4 = mp.euler, mp.pi**2/6, 2*mp.zeta(3), 6*mp.zeta(4)
            k5, k6 = 24*mp.zeta(5), 120*mp.zeta(6)
            m = [mp.one]
            ks = [None, k1, k2, k3, k4, k5, k6]
            for n in range(1, 7):
                m.append(mp.fsum([mp.binomial(n - 1, k - 1)*ks[k]*m[n - k] for k in range(1, n + 1)]))
            m = [m[n] for n in ns]
        else:
            m = [mp.fsum([mp.binomial(n, k)*(-1)**(n - k)*G(1 - k*xi) for k in range(n + 1)])/xi**n for n in ns]
    elif name == 'loggamma':
        k = p[0]
        kap = [None] + [psi(j, k) for j in range(6)]
        m = [mp.one]
        for n in range(1, 7):
            m.append(mp.fsum([mp.binomial(n - 1, j - 1)*kap[j]*m[n - j] for j in range(1, n + 1)]))
        m = [m[n] for n in ns]
    elif name == 'gompertz':
        c = p[0]
        m = [mp.quad(lambda e: mp.log1p(e/c)**n*mp.exp(-e), [0, 1, 10, 50, 200]) for n in ns]
        H = 1 - mp.log(c) - m[1]
    elif name == 'genhyperbolic':
        la, a, b = p[:3]
        g = mp.sqrt(a*a - b*b)
        K = mp.besselk
        w1, w2 = K(la + 1, g)/K(la, g)/g, K(la + 2, g)/K(la, g)/g**2
        m = [mp.one, b*w1, w1 + b*b*w2][:len(ns)]
    elif name == 'rel_breitwigner':
        r = p[0]
        g = mp.sqrt(r*r*(r*r + 1))
        k = 2*mp.sqrt(2)*r*g/mp.pi/mp.sqrt(r*r + g)
        f = lambda x: k/((x*x - r*r)**2 + r*r)
        mp.dps = 80
        I0 = lambda s: mp.quad(lambda x: f(x)*x**s, [0, max(r - 8, r/2), r - min(1, r/4), r, r + 1, r + 8, 2*r + 8, 20*r + 40, mp.inf], maxdegree=12)
        m = [I0(n) for n in ns]
    else:
        return None
    return m, H


def _al(*a):
    raise TimeoutError()


signal.signal(signal.SIGALRM, _al)


def job(a):
    name, par = a
    t0 = time.time()
    import signal
    signal.alarm(200)
    try:
        nm = NM if 'noncentral_moment' in (fns := inventory()['distributions'][name]) else 4 if 'kurtosis' in fns else 3 if 'skewness' in fns else 2
        if name == 'laplace':
            mp.dps = 45
            m, h = [mp.factorial(n) if n % 2 == 0 else mp.zero for n in range(nm + 1)], 1 + mp.log(2)
        elif '--closed' in sys.argv:
            mp.dps = 130
            t = tail(name, par)
            r = closed(name, par, [n for n in range(nm + 1) if n < t])
            if r is None:
                return tkey(name, par), None, 'no closed form', 0
            m, h = r
        elif '--peaked' in sys.argv:
            mp.dps = 60
            lo, hi = DISTS[name].support(par)
            t = tail(name, par)
            m, h = peaked(DISTS[name], par, [n for n in range(nm + 1) if n < t], lo, hi)
        else:
            m, h = integrals(name, par)
        mp.dps = 45
        e = abs(m[0] - 1)
        if not e < mp.mpf(10)**-37:
            return tkey(name, par), None, f'm0-1 = {mp.nstr(e, 3)}', time.time() - t0
        return tkey(name, par), dict(m=[mp.nstr(+v, 42) for v in m[1:]], h=None if h is None else mp.nstr(+h, 42)), None, time.time() - t0
    except Exception as ex:
        return tkey(name, par), None, repr(ex)[:200], time.time() - t0


if __name__ == '__main__':
    path = os.path.join(HERE, 'mc/ref/tables/moments.json')
    old = json.load(open(path)) if os.path.exists(path) else {}
    only = [a for a in sys.argv[1:] if a not in ('--large', '--peaked', '--closed', '--verify')]
    jobs = {}
    for n in DISTS:
        if only and n not in only:
            continue
        if not WANT & set(inventory()['distributions'][n]):
            continue
        for par in allcases(n):
            mp.dps = 15
            c, _, _ = canon(n, par)
            k = tkey(n, c)
            if '--large' in sys.argv and max([abs(v) for v in c if mp.isfinite(v)] + [0]) <= 128:
                continue
            if (k in old) == ('--verify' in sys.argv):
                jobs[k] = (n, c)
    print(len(jobs), 'jobs', flush=True)
    with Pool(8, maxtasksperchild=20) as p:
        for k, r, err, dt in p.imap_unordered(job, list(jobs.values()), chunksize=1):
            if err:
                print('FAIL', k, err, '%.1f' % dt, flush=True)
            elif '--verify' in sys.argv:
                ok = old[k]
                mp.dps = 40
                e = [abs(mp.mpf(a)/mp.mpf(b) - 1) if abs(mp.mpf(b)) > mp.mpf('1e-30') else abs(mp.mpf(a)) for a, b in zip(r['m'] + [r['h'] or 0], ok['m'] + [ok['h'] if r['h'] else 0])]
                if len(r['m']) > len(ok['m']) or max(e) > mp.mpf(10)**-34:
                    print('DIFF', k, [mp.nstr(v, 3) for v in e], len(r['m']), len(ok['m']))
            else:
                old[k] = r
                if dt > 60:
                    print('slow', k, '%.1f' % dt, flush=True)
                if len(old) % 50 == 0:
                    json.dump(dict(sorted(old.items())), open(path, 'w'), indent=0)
    if '--verify' not in sys.argv:
        json.dump(dict(sorted(old.items())), open(path, 'w'), indent=0)
    print('done', len(old))
