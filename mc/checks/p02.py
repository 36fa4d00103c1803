"""P02  Distribution and survival functions of the continuous distributions."""
import json
import os
from mpmath import mp
from ..core import Unit, call, bad
from ..util import dist, has, fn_of, pkey, num, eps, mismatch, realval, paramp
from ..ref.cont import DISTS
from ..ref.sweep import cases

ID = 'P02'
LEVEL = 'model_checking'
NO_OUTSIDE = {'genexpon'}
PERIODIC = {'vonmises'}
QUAD = {'geninvgauss', 'genhyperbolic'}   # no closed form: reference table by quadrature

with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'absonly.json')) as _f:
    ABSONLY = set(json.load(_f))


def quad_table():
    with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'tables', 'quad_cdf.json')) as f:
        return json.load(f)


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 80)


def bounds(tier):
    return (f'{len(DISTS)} distributions, parameter lattice and axis sweeps of '
            f'mc/ref/cont.py and mc/ref/sweep.py, working precisions {DPS(tier)} digits')


ASSUMPTIONS = ['mpmath elementary functions, gamma, erf, hyp at dps+40 digits are correct',
               'lattice points are exact binary numbers']


def units(tier):
    out = []
    for n in DISTS:
        if DISTS[n].cdf is None:         # support, and everything outside it
            out += [[n, d, 'ends', [0, 1]] for d in DPS(tier)]
        if n in QUAD:
            out += [[n, 15, 'quad', i] for m, i, _ in quad_table() if m == n]
            continue
        if DISTS[n].cdf is None:
            continue
        for d in DPS(tier):
            if DISTS[n].slow:
                if d > 15 and tier == 'quick':
                    out.append([n, d, 'lat', [0, 12]])
                else:
                    out += [[n, d, 'lat', [i, 4]] for i in range(4)]
                    out.append([n, d, 'sweep', [0, 1]])
            else:
                out.append([n, d, 'lat', [0, 1]])
                out.append([n, d, 'sweep', [0, 1]])
    return out


def cost(u):
    return (10 if DISTS[u[0]].slow else 1)*u[1]


def required_classes(tier):
    return ['interior', 'outside', 'sweep', 'monotone step', 'interval', 'complement',
            'endpoint', 'infinite'] + ['dist ' + n for n in DISTS if DISTS[n].cdf or n in QUAD]


def refquad(d, par, xs):
    """CDF of every point of xs by high precision quadrature of the reference density."""
    with mp.workdps(35):
        lo, hi = d.support(par)
        f = lambda t: mp.exp(d.lnf(t, *par))
        xs = sorted(xs)
        cuts = [lo] + list(xs) + [hi]
        pieces = []
        for a, b in zip(cuts, cuts[1:]):
            nodes = [a, b]
            if mp.isinf(a):
                nodes = [a, b - 40, b - 8, b - 2, b]
            if mp.isinf(b):
                nodes = [a, a + 2, a + 8, a + 40, b]
            if not mp.isinf(a) and not mp.isinf(b) and d.name == 'geninvgauss' and a == lo:
                nodes = [a] + [a + (b - a)*mp.mpf(2)**-k for k in (6, 4, 2, 1)] + [b]
            pieces.append(mp.quad(f, nodes))
        tot = mp.fsum(pieces)
        assert abs(tot - 1) < mp.mpf('1e-22'), (d.name, par, tot)
        return {x: (mp.fsum(pieces[:i+1]), mp.fsum(pieces[i+1:])) for i, x in enumerate(xs)}


def run_unit(unit, tier):
    name, dps, part, st = unit
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    mp.dps = 15
    if part == 'lat':
        todo = [(par, d.points(par)) for par in d.params][st[0]::st[1]]
    elif part == 'ends':
        todo = [(par, []) for par in d.params]
    elif part == 'quad':
        par = d.params[st]
        with mp.workdps(35):
            refq = {mp.mpf(x): (mp.mpf(F), mp.mpf(S))
                    for m, i, rows in quad_table() if m == name and i == st
                    for x, F, S in rows}
        todo = [(par, sorted(refq))]
    else:
        todo = cases(name, capped=True)
    fns = [f for f in ('cdf', 'sf', 'logcdf', 'logsf') if has(name, f)]
    tol = 10*eps(dps)
    hi_dps = dps + 40
    for par, xs in todo:
        u.trace()
        tol = 10*eps(dps)*paramp(par)
        if part == 'quad':
            tol = mp.mpf('1e-13')
        prev = {}
        for x in xs:
            u.state()
            u.cover('interior' if part != 'sweep' else 'sweep')
            u.cover('dist ' + name)
            mp.dps = hi_dps
            if part == 'quad':
                F, S = refq[x]
            else:
                F = d.cdf(x, *par)
                S = d.sf(x, *par) if d.sf is not None else 1 - F
            got = {}
            for fn in fns:
                v = got[fn] = call(fn_of(mod, fn), x, *par, dps=dps)
                u.step()
                mp.dps = hi_dps
                key = f'{name}.{fn}{pkey(par)} x={num(x)} dps={dps}'
                if fn in ('cdf', 'sf'):
                    r = F if fn == 'cdf' else S
                    rel = (f'{name}.{fn}' not in ABSONLY) and part != 'quad'
                    cond = max(1, abs(mp.log(r))/100) if r > 0 else 1
                    if rel and cond*tol < mp.mpf('1e-4') and r > 0:
                        m = mismatch(v, r, tol_rel=tol*cond)
                    else:
                        m = mismatch(v, r, tol_abs=tol/10**3 if part != 'quad' and cond*tol < mp.mpf('1e-4') else tol,
                                     tol_rel=tol)
                    if m is None and not (-tol <= v <= 1 + tol):
                        m = 'probability outside [0, 1]'
                    if m:
                        u.fail(key, m, got=v, want=r)
                else:
                    p, q = (F, S) if fn == 'logcdf' else (S, F)
                    r = mp.log(p) if p < 0.5 else mp.log1p(-q)
                    # close to 0 the logarithm is the complementary probability
                    small = f'{name}.{fn}' not in ABSONLY and part != 'quad'
                    m = mismatch(v, r, tol_abs=0 if small else tol, tol_rel=tol*max(1, abs(mp.log(abs(r)))/100) if small and r else tol)
                    if m:
                        u.fail(key, m, got=v, want=r)
            # transitions between neighbouring lattice points: monotone
            for fn in ('cdf', 'sf'):
                if fn in got and realval(got[fn]):
                    if fn in prev:
                        u.cover('monotone step')
                        dlt = got[fn] - prev[fn]
                        if (dlt if fn == 'cdf' else -dlt) < -tol:
                            u.fail(f'{name}.{fn}{pkey(par)} x={num(x)} monotone dps={dps}',
                                   'not monotone', before=prev[fn], after=got[fn])
                    prev[fn] = got[fn]
            if 'cdf' in got and 'sf' in got and realval(got['cdf']) and realval(got['sf']):
                u.cover('complement')
                if abs(got['cdf'] + got['sf'] - 1) > tol:
                    u.fail(f'{name}{pkey(par)} x={num(x)} complement dps={dps}',
                           'cdf + sf != 1', cdf=got['cdf'], sf=got['sf'])
            u.sample(f'{name}.cdf({num(x)}, {pkey(par)}) at {dps} digits')
        # interval probabilities: all ordered pairs of a subset of the lattice
        if has(name, 'interval_prob') and part == 'lat':
            sub = xs[::3] if dps == 15 else xs[1::5]
            lo, hi = d.support(par)
            mp.dps = hi_dps
            FS = [(t, d.cdf(t, *par), d.sf(t, *par)) for t in sub]
            if not mp.isinf(lo):
                FS = [(lo - 1, mp.zero, mp.one), (lo, mp.zero, mp.one)] + FS
            if not mp.isinf(hi):
                FS = FS + [(hi, mp.one, mp.zero), (hi + 1, mp.one, mp.zero)]
            for i in range(len(FS)):
                for j in range(i, len(FS)):
                    u.state()
                    u.cover('interval')
                    v = call(fn_of(mod, 'interval_prob'), FS[i][0], FS[j][0], *par, dps=dps)
                    u.step()
                    mp.dps = hi_dps
                    r = (FS[i][2] - FS[j][2] if FS[i][1] > 0.5 else FS[j][1] - FS[i][1])
                    # no more is lost than by the subtraction in the smaller tail
                    small = min(FS[j][1], FS[i][2])
                    cond = max(1, abs(mp.log(small))/100) if small > 0 else 1
                    relok = cond*tol < mp.mpf('1e-4') and f'{name}.interval_prob' not in ABSONLY
                    m = mismatch(v, r, tol_abs=tol*cond*small if relok else tol)
                    if m:
                        u.fail(f'{name}.interval_prob{pkey(par)} {num(FS[i][0])}..{num(FS[j][0])} dps={dps}',
                               m, got=v, want=r)
        if part not in ('lat', 'ends'):
            continue
        mp.dps = hi_dps
        lo, hi = d.support(par)
        sup = call(fn_of(mod, 'support'), *par, dps=dps) if has(name, 'support') else None
        if sup is not None:
            u.step()
            mp.dps = hi_dps
            ok = isinstance(sup, tuple) and len(sup) == 2
            if ok:
                for g, w in zip(sup, (lo, hi)):
                    g = +g if not bad(g) and realval(g) else g
                    if mismatch(g, w, tol_abs=tol*max(1, abs(w)) if not mp.isinf(w) else 0):
                        ok = False
            if not ok:
                u.fail(f'{name}.support{pkey(par)} dps={dps}', 'wrong support',
                       got=sup, want=(lo, hi))
        outs = []
        if not mp.isinf(lo) and name not in NO_OUTSIDE:
            s = max(1, abs(lo))
            outs += [(t, mp.zero) for t in (lo - s*mp.mpf(2)**-30, lo - s, lo - 1000*s - 1)]
        if not mp.isinf(lo):
            outs.append((lo, mp.zero))
        if not mp.isinf(hi):
            s = max(1, abs(hi))
            outs += [(t, mp.one) for t in (hi, hi + s*mp.mpf(2)**-30, hi + s, hi + 1000*s + 1)]
        if name not in PERIODIC and not (name == 'geninvgauss' and dps > 15):   # long quadrature
            outs += [(mp.inf, mp.one)]
            if name not in NO_OUTSIDE:
                outs += [(mp.ninf, mp.zero)]
        for x, r in outs:
            if name in ('vonmises', 'cosine', 'tukeylambda') and x in (lo, hi):
                continue
            if mp.isinf(x):
                u.cover('infinite')
            with mp.workdps(15):
                xx = +x
            if xx != x and not mp.isinf(x):
                if x in (lo, hi):
                    continue
                x = xx
            u.state()
            u.cover('outside' if x != lo and x != hi or mp.isinf(x) else 'endpoint')
            for fn in fns:
                v = call(fn_of(mod, fn), x, *par, dps=dps)
                u.step()
                want = {'cdf': r, 'sf': 1 - r, 'logcdf': mp.log(r), 'logsf': mp.log(1 - r)}[fn]
                mp.dps = hi_dps
                m = mismatch(v, want, tol_abs=tol if fn in ('cdf', 'sf') and x in (lo, hi) else 0)
                if m:
                    u.fail(f'{name}.{fn}{pkey(par)} x={num(x)} outside dps={dps}',
                           f'not {want} at or beyond the end of the support: {m}', got=v)
    return u
