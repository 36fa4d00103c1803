"""P01  Densities of the continuous distributions."""
from mpmath import mp
from ..core import Unit, call, bad
from ..util import dist, has, fn_of, pkey, num, eps, mismatch, realval, paramp
from ..ref.cont import DISTS
from ..ref.sweep import cases

ID = 'P01'
LEVEL = 'model_checking'
NO_OUTSIDE = {'genexpon'}        # raises ValueError below loc, by contract
# tukeylambda and cosine: the endpoints are irrational or only numerically known
NO_ENDPOINT = {'cosine', 'vonmises'}
ABS_PDF = {'benktander1'}        # the density may vanish at the end of the support by cancellation


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 80)


def bounds(tier):
    return (f'{len(DISTS)} distributions, parameter lattice and axis sweeps of '
            f'mc/ref/cont.py and mc/ref/sweep.py, working precisions {DPS(tier)} digits')


ASSUMPTIONS = ['mpmath elementary functions, gamma, erf, bessel at dps+40 digits are correct',
               'lattice points are exact binary numbers; infinite x is not in the domain']


def units(tier):
    out = []
    for n in DISTS:
        for d in DPS(tier):
            if DISTS[n].slow and d > 15 and tier == 'quick':
                out.append([n, d, 'lat', 3])
            else:
                out.append([n, d, 'lat', 1])
                out.append([n, d, 'sweep', 1])
    return out


def cost(u):
    n = u[0]
    return (10 if DISTS[n].slow else 1)*u[1]


def required_classes(tier):
    return ['interior', 'outside', 'endpoint', 'sweep'] + ['dist ' + n for n in DISTS]


def endpoint_limits(d, par, e, other, side):
    """Acceptable values of the density at a finite endpoint e of the support."""
    w = other - e if not mp.isinf(other) else mp.one
    w = abs(w)
    vals = []
    for k in (400, 800):
        t = e + side*w*mp.mpf(2)**-k
        vals.append(d.lnf(t, *par))
    return vals


def run_unit(unit, tier):
    name, dps, part, stride = unit
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    mp.dps = 15
    if part == 'lat':
        todo = [(par, d.points(par)) for par in d.params][::stride]
    else:
        todo = cases(name)
    fns = [f for f in ('pdf', 'logpdf') if has(name, f)]
    tol = 10*eps(dps)
    for par, xs in todo:
        u.trace()
        tol = 10*eps(dps)*paramp(par)
        for x in xs:
            u.state()
            u.cover('interior' if part == 'lat' else 'sweep')
            u.cover('dist ' + name)
            mp.dps = dps + 40
            lnf = d.lnf(x, *par)
            f = mp.exp(lnf)
            for fn in fns:
                v = call(fn_of(mod, fn), x, *par, dps=dps)
                u.step()
                mp.dps = dps + 40
                if fn == 'pdf':
                    cond = max(1, (1 + abs(lnf))/100)
                    if cond*tol > mp.mpf('1e-4'):
                        # density far below any representable scale: only its
                        # sign and finiteness are decided (logpdf decides the rest)
                        if not (realval(v) and 0 <= v < mp.mpf('1e-1000')):
                            u.fail(f'{name}.pdf{pkey(par)} x={num(x)} dps={dps}',
                                   'density is not tiny', got=v, want=f)
                        continue
                    m = mismatch(v, f, tol_abs=tol if name in ABS_PDF else 0,
                                 tol_rel=tol*cond)
                    if m is None and v < 0:
                        m = 'negative density'
                else:
                    m = mismatch(v, lnf, tol_abs=tol*max(1, abs(lnf)))
                if m:
                    u.fail(f'{name}.{fn}{pkey(par)} x={num(x)} dps={dps}', m,
                           got=v, want=f if fn == 'pdf' else lnf)
            u.sample(f'{name}.pdf({num(x)}, {pkey(par)}) at {dps} digits')
        if part != 'lat':
            continue
        # outside the support, and at its finite ends
        mp.dps = dps + 40
        lo, hi = d.support(par)
        outs = []
        if not mp.isinf(lo) and name not in NO_OUTSIDE:
            s = max(1, abs(lo))
            outs += [lo - s*mp.mpf(2)**-30, lo - s, lo - 1000*s - 1]
        if not mp.isinf(hi):
            s = max(1, abs(hi))
            outs += [hi + s*mp.mpf(2)**-30, hi + s, hi + 1000*s + 1]
        if name == 'vonmises':
            outs = []
        for x in outs:
            with mp.workdps(15):
                x = +x
            u.state()
            u.cover('outside')
            for fn in fns:
                v = call(fn_of(mod, fn), x, *par, dps=dps)
                u.step()
                want = mp.zero if fn == 'pdf' else mp.ninf
                m = mismatch(v, want)
                if m:
                    u.fail(f'{name}.{fn}{pkey(par)} x={num(x)} outside dps={dps}',
                           f'not {want} outside the support: {m}', got=v)
        if name in NO_ENDPOINT:
            continue
        for e, other, side in ((lo, hi, 1), (hi, lo, -1)):
            if mp.isinf(e):
                continue
            with mp.workdps(15):
                e15 = +e
            if e15 != e:
                continue
            u.state()
            u.cover('endpoint')
            got = {}
            for fn in fns:
                got[fn] = call(fn_of(mod, fn), e, *par, dps=dps)
                u.step()
            mp.dps = dps + 40
            grow = l1000 = mp.ninf
            if any(realval(v) and not (v == 0 if fn == 'pdf' else v == mp.ninf)
                   for fn, v in got.items()):
                with mp.workdps(320):
                    l500, l1000 = endpoint_limits(d, par, e, other, side)
                grow = l1000 - l500
            for fn, v in got.items():
                key = f'{name}.{fn}{pkey(par)} x={num(e)} endpoint dps={dps}'
                if not realval(v):
                    u.fail(key, 'no value at the end of the support', got=v)
                    continue
                if fn == 'pdf':
                    ok = (v == 0 or (v == mp.inf and grow > 0)
                          or (mp.isfinite(v) and abs(v - mp.exp(l1000)) <= mp.mpf('1e-9')*mp.exp(l1000)))
                else:
                    ok = (v == mp.ninf or (v == mp.inf and grow > 0)
                          or (mp.isfinite(v) and abs(v - l1000) <= mp.mpf('1e-9')*max(1, abs(l1000))))
                if not ok:
                    u.fail(key, 'not the limit of the density', got=v, limit=mp.exp(l1000))
            if len(got) == 2 and all(realval(v) for v in got.values()):
                a, b = got['pdf'], got['logpdf']
                same = (a == 0 and b == mp.ninf) or (a == b == mp.inf) or (
                    a > 0 and mp.isfinite(a) and mp.isfinite(b)
                    and abs(mp.log(a) - b) <= tol*max(1, abs(b)))
                if not same:
                    u.fail(f'{name}{pkey(par)} x={num(e)} endpoint pdf/logpdf dps={dps}',
                           'pdf and logpdf disagree at the end of the support', pdf=a, logpdf=b)
    return u
