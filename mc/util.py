"""Comparison rules and small helpers shared by the checks."""
import json
import os
import importlib
from mpmath import mp
from .core import bad, isnum

_INV = None


def inventory():
    global _INV
    if _INV is None:
        with open(os.path.join(os.path.dirname(__file__), 'ref', 'inventory.json')) as f:
            _INV = json.load(f)
    return _INV


def dist(name):
    return importlib.import_module('mpsci.distributions.' + name)


def has(name, fn):
    return fn in inventory()['distributions'][name]


class Missing:
    """Stands for a public function that no longer exists."""

    def __init__(self, what):
        self.what = what

    def __call__(self, *a, **k):
        raise AttributeError(f'{self.what} does not exist')


def fn_of(mod, fn):
    return getattr(mod, fn, None) or Missing(f'{mod.__name__}.{fn}')


def pkey(par):
    return '(' + ','.join(num(v) for v in par) + ')'


def num(v):
    """Exact, stable text of a lattice number."""
    if isinstance(v, mp.mpf):
        if mp.isinf(v) or mp.isnan(v):
            return str(v)
        if v == int(v) and abs(v) < 2**40:
            return str(int(v))
        man, exp = v.man_exp
        f = float(v)
        if mp.mpf(f) == v:
            return repr(f)
        return f'{int(man)}*2^{int(exp)}'
    return repr(v)


def eps(dps):
    return mp.mpf(10)**(-dps)


def realval(v):
    """v is a real non-nan number."""
    return (not bad(v)) and isnum(v) and not mp.isnan(v)


def mismatch(v, ref, tol_abs=0, tol_rel=0):
    """None if v agrees with the reference, else a short description.

    Must be called under the (high) reference precision.
    """
    if bad(v):
        return repr(v)
    if not isnum(v):
        if isinstance(v, mp.mpc):
            return 'complex result'
        return f'result of type {type(v).__name__}'
    if isinstance(ref, (int, float)):
        ref = mp.mpf(ref)
    if mp.isnan(v):
        return None if mp.isnan(ref) else 'nan'
    if mp.isnan(ref):
        return 'expected nan'
    if mp.isinf(ref) or mp.isinf(v):
        return None if v == ref else 'infinite/finite mismatch'
    if v == ref:
        return None
    err = abs(v - ref)
    if err <= tol_abs + tol_rel*abs(ref):
        return None
    if tol_rel:
        rel = err/abs(ref) if ref else mp.inf
        return f'relative error {mp.nstr(rel, 3)} absolute {mp.nstr(err, 3)}'
    return f'absolute error {mp.nstr(err, 3)}'


def paramp(par):
    """Tolerance factor for large parameters: terms of size v*log(v) cancel in the textbook formulas."""
    b = max([abs(v) for v in par if mp.isfinite(v)] + [1])
    return max(1, b*mp.log(b)/10**4) if b > 1000 else 1
