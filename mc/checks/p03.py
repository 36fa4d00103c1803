"""P03  Quantile functions invert the distribution functions."""
import json
import os
from mpmath import mp
from ..core import Unit, call, bad, Raised
from ..util import dist, has, fn_of, pkey, num, eps, mismatch, realval
from ..ref.cont import DISTS
from ..ref.sweep import SPEC, SHAPE, SHAPE_M, SHAPE_S, SCALE, LOC, cases

ID = 'P03'
LEVEL = 'model_checking'
M = mp.mpf
with mp.workprec(53):
    # full mantissas: 1 - p must not be exact at the working precision
    PS = [M(0), M(1e-18), M(1e-9), M(1e-6), M(0.001), M(1)/64, M(0.05), M(0.1), M(0.2), M(1)/4,
          M(0.3), M(3)/8, M(0.45), M(1)/2, M(0.55), M(0.6), M(0.7), M(3)/4, M(0.85), M(0.9),
          M(15)/16, M(0.99), M(0.999), M(0.99994), M(0.9999989), M(0.9999999991), M(1)]
    PS_SHORT = [M(0), M(1e-12), M(1e-6), M(0.001), M(0.05), M(0.3), M(1)/2, M(0.7), M(0.95), M(0.999),
                M(0.9999989), M(1)]
    # below the resolution of 1 - p: not for the root finders of absquantile.json
    TINY = [M(1e-300), M(1e-35)]
EXTREME = M(2)**-19
# quantile functions that are documented to search for a root and to fail
# loudly when the root finder does not converge
SOLVERS = {'gamma', 'chi2', 'betaprime', 'nakagami', 'benktander1', 'studentt', 'slash', 'maxwell',
           'rel_breitwigner', 'argus', 'loggamma', 'beta', 'f', 'invgamma', 'cosine'}
HEAVY = {'beta', 'argus', 'studentt', 'f', 'betaprime', 'gamma', 'nakagami', 'chi2', 'tukeylambda',
         'rel_breitwigner', 'loggamma', 'truncnorm'}
NAMES = [n for n in DISTS if has(n, 'invcdf') or has(n, 'invsf')]
# quantile functions (by root finding) that only promise a small absolute residual in the tail
with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'absquantile.json')) as _f:
    _a = json.load(_f)
_ALL = {f'{n}.{f}' for n in NAMES for f in ('invcdf', 'invsf')}
RELATIVE = _ALL - set(_a['not_relative'])
RELTINY = _ALL - set(_a['not_tiny'])


def DPS(tier):
    return (15, 50) if tier == 'quick' else (15, 33, 50, 60)


def bounds(tier):
    return (f'{len(NAMES)} distributions with a quantile function, parameter lattice and axis sweeps, '
            f'{len(PS)} probabilities including 0 and 1, precisions {DPS(tier)}')


ASSUMPTIONS = ['reference CDFs as in P02',
               'root-finding quantile functions may raise for p < 2^-19 or p > 1 - 2^-19 or shape < 1']


def units(tier):
    out = []
    for n in NAMES:
        for d in DPS(tier):
            if n in HEAVY:
                k = 8
                if d == 15 or tier != 'quick':
                    out += [[n, d, 'lat', [i, k]] for i in range(k)]
                    out += [[n, d, 'sweep', [i, 4]] for i in range(4)]
                else:
                    out.append([n, d, 'lat', [1, k]])
            else:
                out.append([n, d, 'lat', [0, 1]])
                out.append([n, d, 'sweep', [0, 1]])
    return out


def cost(u):
    return (5 if u[0] in HEAVY else 1)*u[1]


def required_classes(tier):
    return ['p=0', 'p=1', 'interior', 'median', 'round trip'] + ['dist ' + n for n in NAMES]


def excused(name, par, p, v):
    """A loud convergence failure of a documented root finder, in its hard region."""
    if name not in SOLVERS or not isinstance(v, Raised):
        return False
    if v.type not in ('ValueError', 'RuntimeError', 'ZeroDivisionError'):
        return False
    if v.type == 'ValueError' and 'find root' not in v.msg:
        return False
    if p < EXTREME or p > 1 - EXTREME:
        return True
    return name in ('gamma', 'chi2', 'betaprime', 'nakagami') and par[0] <= M('0.6')


def backward(d, par, p, v, lower, lo, hi, tol, locs, relative):
    """Is v a p-quantile, up to the rounding of v to the working precision?"""
    size = max([abs(v)] + [abs(e) for e in (lo, hi) if not mp.isinf(e)] + [abs(par[i]) for i in locs])
    dx = tol*size
    if v < lo - dx or v > hi + dx:
        return 'quantile outside the support'

    def G(x):
        if x <= lo:
            return mp.zero if lower else mp.one
        if x >= hi:
            return mp.one if lower else mp.zero
        return d.cdf(x, *par) if lower else d.sf(x, *par)

    allow = 10*tol*p if relative else tol
    g = G(v)
    if abs(g - p) <= allow:
        return None
    a, b = G(v - dx), G(v + dx)
    if not lower:
        a, b = b, a
    if a - allow <= p <= b + allow:
        return None
    return f'F(Q(p)) differs from p by {mp.nstr(abs(g - p), 3)}'


def tame(name, par):
    """The region of the sweep in which the root finders are expected to work."""
    kind, base, lists = SPEC[name]
    small = M('0.3') if name in SOLVERS else M('0.05')
    for v, l in zip(par, lists):
        if (l is SHAPE or l is SHAPE_M or l is SHAPE_S) and v < small:
            return False
        if name in SOLVERS and (l is SHAPE or l is SHAPE_M) and v > 1001:
            return False
        if l is SCALE and name in SOLVERS and not M('0.05') < v < 10**4:
            return False
    return True


def run_unit(unit, tier):
    name, dps, part, st = unit
    u = Unit(f'{name}@{dps}')
    d = DISTS[name]
    mod = dist(name)
    mp.dps = 15
    if part == 'lat':
        full = PS[:1] + TINY + PS[1:] if not {f'{name}.invcdf', f'{name}.invsf'}.isdisjoint(RELTINY) else PS
        todo = [(p, PS_SHORT if name in HEAVY and i % 3 and tier == 'quick' else full)
                for i, p in enumerate(d.params)][st[0]::st[1]]
    else:
        todo = [(p, PS_SHORT[1:-1:2] if name in HEAVY and tier == 'quick' else PS_SHORT)
                for p, _ in cases(name, capped=True) if tame(name, p)][st[0]::st[1]]
    locs = [i for i, l in enumerate(SPEC[name][2]) if l is LOC]
    tol = 10*eps(dps)
    hi_dps = 2*dps + 50
    for par, ps in todo:
        u.trace()
        mp.dps = hi_dps
        lo, hi = d.support(par)
        for fn in ('invcdf', 'invsf'):
            if not has(name, fn):
                continue
            prev = None
            for p in ps:
                if 0 < p < M('1e-20') and f'{name}.{fn}' not in RELTINY:
                    continue
                u.state()
                u.cover('dist ' + name)
                v = call(fn_of(mod, fn), p, *par, dps=dps)
                u.step()
                mp.dps = hi_dps
                key = f'{name}.{fn}{pkey(par)} p={num(p)} dps={dps}'
                if not realval(v):
                    if excused(name, par, p, v):
                        u.cover('loud convergence failure')
                        prev = None
                        continue
                    u.fail(key, 'no value', got=v)
                    prev = None
                    continue
                v = +v
                if p == 0 or p == 1:
                    u.cover('p=0' if p == 0 else 'p=1')
                    w = lo if (p == 0) == (fn == 'invcdf') else hi
                    m = mismatch(v, w, tol_abs=0 if mp.isinf(w) else tol*max(1, abs(w)))
                    if m:
                        u.fail(key, f'not the end of the support: {m}', got=v, want=w)
                else:
                    u.cover('interior')
                    m = backward(d, par, p, v, fn == 'invcdf', lo, hi, tol, locs,
                                 f'{name}.{fn}' in RELATIVE)
                    if m:
                        u.fail(key, m, got=v)
                        continue
                    u.cover('round trip')
                if prev is not None:
                    u.step()
                    dl = v - prev if fn == 'invcdf' else prev - v
                    if dl < -tol*max(1, abs(v) if not mp.isinf(v) else 1):
                        u.fail(key + ' monotone', 'quantile function is not monotone', before=prev, after=v)
                prev = v
        if has(name, 'median'):
            v = call(fn_of(mod, 'median'), *par, dps=dps)
            u.state()
            u.step()
            u.cover('median')
            mp.dps = hi_dps
            key = f'{name}.median{pkey(par)} dps={dps}'
            if not realval(v) or not lo < v < hi:
                u.fail(key, 'no value inside the support', got=v)
            else:
                m = backward(d, par, M(1)/2, +v, True, lo, hi, tol, locs, False)
                if m:
                    u.fail(key, 'cdf(median) != 1/2: ' + m, got=v)
        u.sample(f'{name}.invcdf/invsf{pkey(par)} at {dps} digits, {len(ps)} probabilities')
    # chi2: inverses with respect to the degrees of freedom
    if name == 'chi2' and part == 'lat':
        for k in [M(1)/2, M(1), M(3), M(10), M(30)][st[0] % 5:][:1]:
            for x in [M(1)/4, M(1), M(5), M(20)]:
                mp.dps = hi_dps
                for fn, inv in (('cdf', 'invcdf_k'), ('sf', 'invsf_k')):
                    p = d.cdf(x, k) if fn == 'cdf' else d.sf(x, k)
                    with mp.workprec(53):
                        p = +p
                    if not M(2)**-20 < p < 1 - M(2)**-20:
                        continue
                    v = call(fn_of(mod, inv), x, p, dps=dps)
                    u.state()
                    u.step()
                    mp.dps = hi_dps
                    key = f'chi2.{inv} x={num(x)} p={num(p)} dps={dps}'
                    if not realval(v) or not v > 0:
                        u.fail(key, 'no value', got=v)
                        continue
                    back = d.cdf(x, v) if fn == 'cdf' else d.sf(x, v)
                    if abs(back - p) > tol*(1 + abs(v)):
                        u.fail(key, 'does not invert', got=v, F=back)
    return u
