"""P06  Negative log-likelihoods and their derivatives."""
from mpmath import mp
from ..core import Unit, call, bad
from ..util import dist, has, fn_of, pkey, num, eps, mismatch
from ..ref.cont import DISTS
from ..ref.disc import DISC, tomp
from ..ref.sweep import cases

ID = 'P06'
LEVEL = 'model_checking'
M = mp.mpf
CONT = [n for n in DISTS if has(n, 'nll')]
DISCR = [n for n in DISC if has(n, 'nll')]


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 80)


def bounds(tier):
    return (f'{len(CONT) + len(DISCR)} distributions with a likelihood; parameter lattice and sweeps of P01/P04; data '
            'sets: every single lattice point, every pair of neighbours in both orders, the whole list, the list with '
            'repeats, given as multi-precision numbers and as Python floats/ints; all count vectors in {0,1,2,3}^3 '
            f'for the discrete ones; precisions {DPS(tier)}')


ASSUMPTIONS = ['reference densities of mc/ref (see P01, P04)',
               'data inside the open support; observations of zero density are out of the domain']


def units(tier):
    out = []
    for d in DPS(tier):
        for n in CONT:
            out += [[n, d, 'lat'], [n, d, 'sweep']]
        for n in DISCR:
            out += [[n, d, i] for i in range(4)]
    return out


def cost(u):
    return u[1]


def required_classes(tier):
    return ['single', 'pair', 'list', 'repeats', 'floats', 'counts', 'gradient'] + ['dist ' + n for n in CONT + DISCR]


def plain(v):
    """The same number as an ordinary Python number, or None."""
    v = mp.mpf(v)
    if v == int(v) and abs(v) < 2**53:
        return int(v)
    f = float(v)
    return f if mp.mpf(f) == v else None


def run_unit(unit, tier):
    if unit[0] in DISC:
        return run_disc(unit, tier)
    name, dps, part = unit
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    mp.dps = 15
    if part == 'lat':
        todo = [(par, d.points(par)) for par in d.params]
    else:
        todo = cases(name)
    tol = 10*eps(dps)
    nll = fn_of(mod, 'nll')
    for par, xs in todo:
        mp.dps = dps + 40
        u.trace()
        u.cover('dist ' + name)
        lo, hi = d.support(par)
        sel, ls = [], []
        for x in xs:
            if not lo < x < hi:
                continue
            l = d.lnf(x, *par)
            if not mp.isfinite(l) or abs(l) > mp.mpf('1e30'):
                continue
            sel.append(x)
            ls.append(l)
        if not sel:
            continue
        n = len(sel)
        idx = [('single', [i]) for i in range(n)]
        idx += [('pair', [i, i + 1]) for i in range(n - 1)] + [('pair', [i + 1, i]) for i in range(0, n - 1, 2)]
        full = list(range(n))
        idx += [('list', full), ('list', full[::-1]), ('repeats', full[::2] + full[1::2] + full[:2]*2)]
        idx += [('floats', full), ('floats', [n//2])]
        big = max([1] + [abs(mp.log(abs(v))) for v in par if v] + [abs(v)*(1 + abs(mp.log(abs(v)))) for v in par if v and abs(v) < 2000])
        for cls, ix in idx:
            u.state()
            u.cover(cls)
            data = [sel[i] for i in ix]
            p = par
            if cls == 'floats':
                p = [plain(v) for v in par]
                data = [plain(v) for v in data]
                if None in p or None in data:
                    continue
            want = -mp.fsum([ls[i] for i in ix])
            mag = mp.fsum([max(1, abs(ls[i])) for i in ix])
            v = call(nll, data, *p, dps=dps)
            u.step(len(ix))
            mp.dps = dps + 40
            # mag: size of the summands; big*len: size of the textbook terms, seen through the guard digits
            m = mismatch(v, want, tol_abs=tol*mag + eps(dps + 3)*10*big*len(ix))
            if m:
                u.fail(f'{name}.nll{pkey(par)} {cls} data={[num(t) for t in data][:4]}... n={len(ix)} dps={dps}'
                       if len(ix) > 4 else f'{name}.nll{pkey(par)} {cls} data={[num(t) for t in data]} dps={dps}',
                       f'nll: {m}', got=v, want=want)
        u.sample(f'{name}.nll{pkey(par)} over {len(idx)} data sets at {dps} digits')
        for g in ('nll_grad', 'nll_hess', 'nll_invhess'):
            if has(name, g) or hasattr(mod, g):
                derivs(u, name, mod, d, g, par, sel, full, dps)
        # observations outside the support are refused or infinitely unlikely
        for e, s in ((lo, -1), (hi, 1)):
            if mp.isinf(e) or part != 'lat':
                continue
            with mp.workdps(15):
                x = +(e + s*max(1, abs(e)))
            v = call(nll, [sel[0], x], *par, dps=dps)
            u.state()
            u.step()
            mp.dps = dps + 40
            if bad(v):
                ok = v.type == 'ValueError' if hasattr(v, 'type') else False
            else:
                ok = v == mp.inf
            if not ok:
                u.fail(f'{name}.nll{pkey(par)} outside x={num(x)} dps={dps}',
                       'an observation outside the support has a finite likelihood', got=v)
    return u


def derivs(u, name, mod, d, g, par, sel, full, dps):
    for ix in ([full[0]], full, full[::2]):
        data = [sel[i] for i in ix]
        mp.dps = 3*dps + 60
        if any(abs(d.lnf(x, *par)) > mp.mpf('1e15') for x in data):
            continue
        u.state()
        u.cover('gradient')
        v = call(getattr(mod, g), data, *par, dps=dps)
        u.step()
        mp.dps = 3*dps + 60
        k = len(par)
        f = lambda *t: -mp.fsum([d.lnf(x, *t) for x in data])
        hs = [mp.mpf(10)**(-dps - 15)*(abs(p) if p else 1) for p in par]

        if name == 'nakagami':
            hs[1] = mp.mpf(10)**(-dps - 15)*min(x - par[1] for x in data)

        def sh(*moves):
            q = list(par)
            for i, s in moves:
                q[i] = q[i] + s*hs[i]
            return f(*q)
        mag = mp.fsum([max(1, abs(d.lnf(x, *par))) for x in data])
        if g == 'nll_grad':
            want = [(sh((i, 1)) - sh((i, -1)))/(2*hs[i]) for i in range(k)]
            got = list(v) if not bad(v) else v
            scl = [mag/abs(p) if p else mag for p in par]
            if name == 'nakagami':
                scl[1] = mp.fsum([2*par[0]/(x - par[1]) + 2*par[0]*(x - par[1])/par[2]**2 for x in data])
        else:
            H = mp.matrix(k, k)
            for i in range(k):
                for j in range(k):
                    if i == j:
                        H[i, i] = (sh((i, 1)) - 2*sh() + sh((i, -1)))/hs[i]**2
                    else:
                        H[i, j] = (sh((i, 1), (j, 1)) - sh((i, 1), (j, -1)) - sh((i, -1), (j, 1)) + sh((i, -1), (j, -1)))/(4*hs[i]*hs[j])
            scl = [mag/abs(par[i]*par[j]) for i in range(k) for j in range(k)]
            if g == 'nll_invhess':
                det = H[0, 0]*H[1, 1] - H[0, 1]*H[1, 0]
                cond = abs(H[0, 0]*H[1, 1])/abs(det)
                if cond > 1e4:
                    continue
                H = H**-1
                scl = [abs(H[i, j])*cond*100 for i in range(k) for j in range(k)]
            want = [H[i, j] for i in range(k) for j in range(k)]
            got = v if bad(v) else [v[i, j] for i in range(k) for j in range(k)]
        if bad(got) or len(got) != len(want):
            u.fail(f'{name}.{g}{pkey(par)} n={len(ix)} dps={dps}', 'no value', got=v)
            continue
        for i, (a, b) in enumerate(zip(got, want)):
            m = mismatch(a, b, tol_rel=10*eps(dps), tol_abs=10*eps(dps)*scl[i])
            if m:
                u.fail(f'{name}.{g}{pkey(par)} [{i}] x0={num(data[0])} n={len(ix)} dps={dps}', f'{g}: {m}', got=a, want=b)


def run_disc(unit, tier):
    name, dps, part = unit
    u = Unit(f'{name}@{dps}')
    d = DISC[name]
    mod = dist(name)
    nll = fn_of(mod, 'nll')
    tol = 10*eps(dps)
    mp.dps = 15
    pars = list(d.params(False))[part::4]
    from itertools import product
    for par in pars:
        mp.dps = dps + 40
        u.trace()
        u.cover('dist ' + name)
        lo, hi = d.support(par)
        ks = [k for k in d.ks(par, False) if k >= lo and (hi is None or k <= hi)]
        ls = {}
        for k in ks:
            q = tomp(d.pmf(k, *par))
            if q > 0:
                ls[k] = mp.log(q)
        ks = [k for k in ks if k in ls]
        if not ks:
            continue
        mid = ks[len(ks)//2]
        three = sorted({ks[0], mid, ks[-1]})
        sets = [('single', [k], None) for k in ks]
        sets += [('pair', [a, b], None) for a, b in zip(ks, ks[1:])]
        sets += [('list', ks, None), ('list', ks[::-1], None), ('repeats', ks[:3] + ks + ks[-1:], None)]
        for c in product(range(4), repeat=len(three)):
            if any(c):
                sets.append(('counts', three, list(c)))
        for cls, data, c in sets:
            u.state()
            u.cover(cls)
            w = c or [1]*len(data)
            want = -mp.fsum([wi*ls[k] for k, wi in zip(data, w)])
            mag = mp.fsum([wi*max(1, abs(ls[k])) for k, wi in zip(data, w)])
            kw = {} if c is None else dict(counts=c)
            v = call(nll, data, *par, dps=dps, **kw)
            u.step(len(data))
            mp.dps = dps + 40
            m = mismatch(v, want, tol_abs=tol*mag)
            if m:
                u.fail(f'{name}.nll{pkey(par)} data={data[:5]} n={len(data)} counts={c} dps={dps}', f'nll: {m}', got=v, want=want)
        u.sample(f'{name}.nll{pkey(par)}: {len(sets)} data sets at {dps} digits')
        outs = [lo - 1] + ([hi + 1] if hi is not None else [])
        for k in outs:
            v = call(nll, [mid, k], *par, dps=dps)
            u.state()
            u.step()
            ok = getattr(v, 'type', None) == 'ValueError' if bad(v) else v == mp.inf
            if not ok:
                u.fail(f'{name}.nll{pkey(par)} outside {k} dps={dps}', 'an impossible observation has a finite likelihood', got=v)
    return u
