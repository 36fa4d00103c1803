"""
Reference moments.  `canon` maps a parameter tuple to a standard one (location
0, scale 1) plus the affine map; the table mc/ref/tables/moments.json holds the
raw moments and the entropy of the standard member, obtained by quadrature of
the reference density (tools_moments.py), to about 38 digits.
"""
import json
import os
from mpmath import mp
from ..util import num
from .cont import DISTS
from .sweep import SPEC, LOC, SCALE, cases

LS = {'tukeylambda': ([1], [2])}
NOCANON = {'folded_normal', 'truncnorm', 'uniform', 'rice', 'lognormal', 'vonmises'}
_T = None


def affine(name):
    """Indices of the location and of the scale parameter (or None)."""
    if name in NOCANON:
        return None, None
    if name in LS:
        return LS[name][0][0], LS[name][1][0]
    loc = [i for i, l in enumerate(SPEC[name][2]) if l is LOC]
    sc = [i for i, l in enumerate(SPEC[name][2]) if l is SCALE]
    return (loc[0] if loc else None), (sc[0] if sc else None)


def canon(name, par):
    il, isc = affine(name)
    par = list(par)
    loc = scale = None
    if il is not None:
        loc = par[il]
        par[il] = mp.mpf(0)
    if isc is not None:
        scale = par[isc]
        par[isc] = mp.mpf(1)
    return tuple(par), (loc or mp.mpf(0)), (scale or mp.mpf(1))


def tail(name, par):
    """E|X|^n is finite iff n < tail."""
    p = par
    return {
        'betaprime': lambda: p[1], 'burr12': lambda: p[0]*p[1], 'cauchy': lambda: 1, 'f': lambda: p[1]/2,
        'genextreme': lambda: 1/p[0] if p[0] > 0 else mp.inf, 'genpareto': lambda: 1/p[0] if p[0] > 0 else mp.inf,
        'invchi2': lambda: p[0]/2, 'invgamma': lambda: p[0], 'levy': lambda: mp.mpf(1)/2, 'loglogistic': lambda: p[0],
        'nct': lambda: p[0], 'ncf': lambda: p[1]/2, 'pareto': lambda: p[0], 'rel_breitwigner': lambda: 3,
        'slash': lambda: 1, 'studentt': lambda: p[0],
        'tukeylambda': lambda: -1/p[0] if p[0] < 0 else mp.inf}.get(name, lambda: mp.inf)()


def allcases(name):
    """Parameter lattice and sweep of one distribution, without duplicates."""
    mp.dps = 15
    out, seen = [], set()
    for par in list(DISTS[name].params) + [p for p, _ in cases(name)]:
        k = tuple(num(v) for v in par)
        if k not in seen:
            seen.add(k)
            out.append(par)
    return out


def tkey(name, cpar):
    return name + ':' + ','.join(num(v) for v in cpar)


def table():
    global _T
    if _T is None:
        with open(os.path.join(os.path.dirname(__file__), 'tables', 'moments.json')) as f:
            _T = json.load(f)
    return _T


def lookup(name, par):
    """(raw standard moments [1, m1, ...], entropy or None, loc, scale) or None."""
    cpar, loc, scale = canon(name, par)
    r = table().get(tkey(name, cpar))
    if r is None:
        return None
    # the quadrature returns a vanishing moment as rounding noise
    m = [mp.mpf(1)] + [mp.mpf(v) if abs(mp.mpf(v)) > mp.mpf('1e-50') else mp.mpf(0) for v in r['m']]
    return m, (mp.mpf(r['h']) if r['h'] is not None else None), loc, scale
