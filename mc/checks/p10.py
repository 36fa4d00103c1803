"""P10  Results scale with the precision and depend on the value of an argument only."""
import json
import os
from functools import lru_cache
from itertools import islice, product
from mpmath import mp
from ..core import Unit, call, bad, Raised, Hang
from ..util import inventory
from ..ref import alphabet
from ..ref.alphabet import build, resolve, Mat
from ..ref.cont import DISTS
from . import p09

ID = 'P10'
LEVEL = 'model_checking'
REF = 90
with open(os.path.join(os.path.dirname(__file__), '..', 'ref', 'defaults.json')) as _f:
    DEFAULTS = json.load(_f)
# calls that take long at high precision
SLOW = p09.SLOW | {'burr12.mle'}      # (its likelihood is unbounded for the sample)
LIGHT = {'genhyperbolic', 'geninvgauss', 'exponweib', 'ncf', 'nct', 'ncx2', 'benktander1', 'argus'}
EST = ('mle', 'mom', 'boxcox_mle', 'yeojohnson_mle')
MISS = object()


def LADDER(tier):
    return (12, 15, 20, 50) if tier == 'quick' else (12, 15, 16, 20, 25, 34, 50, 70)


def bounds(tier):
    return ('at least one call of every public function (up to three argument sets for distributions) with full-mantissa arguments: '
            f'every precision of the ladder {LADDER(tier)} against {REF} digits; every assignment of Python number or multi-precision number to '
            'the arguments (elements of sequences: all of one kind and alternating); every split into positional and keyword arguments; '
            'every way of omitting location and scale arguments that are at their defaults')


ASSUMPTIONS = ['the argument sets are well conditioned: at most three digits of the result may be lost (estimates: half of the digits)',
               'the result at the highest precision is the reference; its correctness is decided by the other properties']


def ops(tier):
    out = []
    for lab, path, a, k in p09.all_ops():
        if lab in SLOW:
            continue
        out.append((lab, path, a, k))
    # further parameter sets of the lattice
    mp.dps = 15
    for name, d in DISTS.items():
        pars = [p for p in d.params if all(mp.isfinite(v) and (v == 0 or mp.mpf('1e-3') <= abs(v) <= 200) for v in p)]
        step = max(1, len(pars)//NPAR(tier))
        for t, par in enumerate(pars[::step][:NPAR(tier)]):
            fp = tuple(int(v) if v == int(v) else float(v) for v in par)
            xs = [float(x) for x in d.points(par)]
            xs = xs[len(xs)//4::max(1, len(xs)//4)][:3]
            for fn in inventory()['distributions'][name]:
                path = ('distributions.' + name, fn)
                if f'{name}.{fn}' in SLOW or (name, fn) in (('truncnorm', 'skewness'), ('truncnorm', 'kurtosis'), ('truncnorm', 'var')):
                    continue
                lab = f'{name}.{fn}#L{t}'
                if fn in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf'):
                    out += [(f'{lab}.{i}', path, (x,) + fp, {}) for i, x in enumerate(xs)]
                elif fn in ('invcdf', 'invsf'):
                    out += [(f'{lab}.{i}', path, (q,) + fp, {}) for i, q in enumerate((0.0625, 0.8125))]
                elif fn == 'noncentral_moment':
                    out += [(f'{lab}.{i}', path, (i,) + fp, {}) for i in (1, 3)]
                elif fn in ('mean', 'var', 'skewness', 'kurtosis', 'entropy', 'mode', 'median', 'support') and name != 'pareto':
                    out.append((lab, path, fp, {}))
    return out


def NPAR(tier):
    return 5 if tier == 'quick' else 25


def groups(tier='quick'):
    g = {}
    for op in ops(tier):
        g.setdefault(p09.group_of(op[1]), []).append(op)
    return g


@lru_cache(None)
def _groups(tier):
    return groups(tier)


def units(tier):
    out = []
    for n, o in groups(tier).items():
        k = max(1, (len(o) + 23)//24)
        for part in ('scale', 'form'):
            out += [[part, n, [i, k]] for i in range(k)]
    return out


def cost(u):
    return (10 if u[1] in p09.HEAVY else 1)*(3 if u[0] == 'scale' else 2)


def required_classes(tier):
    return ['precision ladder', 'mixed representations', 'keyword arguments', 'defaults omitted', 'estimates'] + sorted(groups(tier))


def noisy(op):
    """The same call with full-mantissa non-integer arguments."""
    lab, path, a, k = op
    if path[1] in ('chisquare', 'gtest') or path[0].endswith(('dirichlet', 'multivariate_hypergeometric')):
        if not (path[0].endswith('dirichlet') and path[1] in ('mean', 'cov', 'entropy')):
            return op
    n = [0]

    def f(v):
        if isinstance(v, float) and not v.is_integer() and abs(v) < 1e300:
            n[0] += 1
            return v*(1 + 1.1e-7*n[0])
        return v

    def g(v):
        if isinstance(v, Mat):
            return v
        if isinstance(v, (list, tuple)):
            return type(v)(g(t) for t in v)
        return f(v) if isinstance(v, float) else v
    return lab, path, tuple(g(t) for t in a), {n_: g(v) for n_, v in k.items()}


def flat(v):
    """All numbers of a result, in order; None if there is no result."""
    if isinstance(v, (Raised, Hang)):
        return None
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return []
    if isinstance(v, (int, float, mp.mpf, mp.mpc)) or isinstance(v, type(mp.pi)):
        return [v]
    if isinstance(v, mp.matrix):
        return [x for t in v for x in flat(t)]
    if isinstance(v, dict):
        return [x for t in v.values() for x in flat(t)]
    if isinstance(v, (list, tuple)):
        return [x for t in v for x in flat(t)]
    if hasattr(v, '__dict__'):
        return [x for _, t in sorted(vars(v).items()) for x in flat(t)]
    if isinstance(v, range):
        return [v.start, v.stop, v.step]
    if hasattr(v, '__next__'):
        return [x for t in islice(v, 40) for x in flat(t)]
    if hasattr(v, '__iter__'):
        return [x for t in islice(iter(v), 40) for x in flat(t)]
    return []


def differ(got, want, tol, floor=0):
    if got is None or want is None:
        return None if got is want else 'one call fails, the other does not'
    if len(got) != len(want):
        return 'results of different shape'
    for g, w in zip(got, want):
        g, w = mp.mpmathify(g), mp.mpmathify(w)
        if mp.isnan(w) or mp.isnan(g):
            if mp.isnan(w) and mp.isnan(g):
                continue
            return 'nan'
        if mp.isinf(w) or mp.isinf(g):
            if g != w:
                return 'infinite'
            continue
        if abs(g - w) > tol*max(abs(w), floor):
            # entries of one vector are compared with its largest entry only when they vanish
            return f'relative difference {mp.nstr(abs(g - w)/abs(w), 3) if w else mp.nstr(abs(g), 3) + " of zero"}'
    return None


def do(u, op, dps, conv=lambda t: t, args=MISS, kw=MISS):
    lab, path, a, k = op
    mp.dps = REF + 20
    a = build(a, conv) if args is MISS else args
    k = {n: build(v, conv) for n, v in k.items()} if kw is MISS else kw

    def f():
        return flat(resolve(path)(*a, **k))
    v = call(f, dps=dps)
    u.step()
    mp.dps = REF + 20
    return None if isinstance(v, (Raised, Hang)) else v


def tolerance(op, dps):
    if op[1][1] in EST:
        return mp.mpf(10)**(-dps//2 + 1)
    if op[1][1] in ('var', 'skewness', 'kurtosis', 'entropy', 'std', 'variation', 'nll_hess', 'nll_invhess', 'cov'):
        return mp.mpf(10)**(4 - dps)   # differences of moments
    return mp.mpf(10)**(2 - dps)


def floor(op):
    # a logarithm of a probability or a sum of logarithms has an absolute error
    if '#L' in op[0] and op[1][1] in ('cdf', 'sf', 'skewness'):
        return 1
    return 1 if op[1][1].startswith('log') or op[1][1] in ('nll', 'entropy', 'boxcox_llf', 'yeojohnson_llf') else 0


def run_unit(unit, tier):
    part, name, (i, k) = unit
    u = Unit(f'{part} {name} {i}')
    u.cover(name)
    for op in _groups(tier)[name][i::k]:
        globals()['do_' + part](u, noisy(op), tier)
    return u


def do_scale(u, op, tier):
    lab = op[0]
    u.trace()
    ladder = LADDER(tier)
    ref = REF
    if op[1][1] in EST:
        u.cover('estimates')
        ladder = [d for d in ladder if 10 <= d <= 34]
    if op[1][0].split('.')[-1] in LIGHT:
        ladder = [d for d in ladder if d <= 34]
        ref = 60
    want = do(u, op, ref, mp.mpf)
    if want is None:
        want = do(u, op, ref)
    if want is None and op[1][1] in EST:
        return                         # solvers may fail loudly
    for d in ladder:
        got = do(u, op, d, mp.mpf)
        if got is None:
            got = do(u, op, d)
        u.state()
        u.cover('precision ladder')
        m = differ(got, want, tolerance(op, d), floor(op))
        if m:
            u.fail(f'{lab} at {d} digits', f'not accurate to the working precision: {m}', got=str(got)[:200], want=str(want)[:200])


def do_form(u, op, tier):
    lab, path, a, k = op
    u.trace()
    dps = 30
    base = do(u, op, dps)
    if base is None:
        return
    tol = tolerance(op, dps)
    # representations: every subset of the arguments
    slots = [('a', j) for j in range(len(a))] + [('k', n) for n in k]
    num = [s for s in slots if isnumarg((a if s[0] == 'a' else k)[s[1]])]
    choice = product(*[reps((a if s[0] == 'a' else k)[s[1]]) for s in num])
    seen = 0
    for c in choice:
        if path[0].split('.')[-1] in LIGHT and len(set(i for i, _ in c)) > 1 and tier == 'quick':
            continue
        aa, kk = list(build(a)), {n: build(v) for n, v in k.items()}
        mp.dps = REF
        for (w, j), (idx, conv) in zip(num, c):
            (aa if w == 'a' else kk)[j] = conv((a if w == 'a' else k)[j])
        got = do(u, op, dps, args=tuple(aa), kw=kk)
        u.state()
        u.cover('mixed representations')
        if got is None and any(idx >= 10 for idx, _ in c):
            continue                   # an integer argument may have to be an integer
        m = differ(got, base, tol, floor(op))
        if m:
            u.fail(f'{lab} representation {[i for i, _ in c]}', f'the result depends on the type of the arguments: {m}', got=str(got)[:200], want=str(base)[:200])
    # call forms
    names = sig(path)
    if names and not any(n in k for n in names[:len(a)]) and path[1] not in ('anova_oneway',):
        for j in range(len(a)):
            kk = {n: build(v) for n, v in k.items()}
            kk.update({names[t]: build(a[t]) for t in range(j, len(a))})
            got = do(u, op, dps, args=build(tuple(a[:j])), kw=kk)
            u.state()
            u.cover('keyword arguments')
            m = differ(got, base, tol, floor(op))
            if m:
                u.fail(f'{lab} with {len(a) - j} keyword arguments', f'the result depends on the form of the call: {m}', got=str(got)[:200], want=str(base)[:200])
    # defaults
    dd = DEFAULTS.get('.'.join([path[0].split('.')[-1], path[1]]), {})
    if names and dd and path[0].startswith('distributions.'):
        full = dict(zip(names, a))
        full.update(k)
        have = [n for n in dd if n in full]
        for values in product((0, 1), repeat=len(have)):
            # arguments with values[i] = 1 are set to their default
            at = [n for n, v in zip(have, values) if v]
            if not at:
                continue
            ex = {n: (dd[n] if n in at else v) for n, v in full.items()}
            base2 = do(u, op, dps, args=(), kw=build_kw(ex))
            if base2 is None:
                continue
            for om in product((0, 1), repeat=len(at)):
                out = [n for n, v in zip(at, om) if v]
                if not out:
                    continue
                got = do(u, op, dps, args=(), kw=build_kw({n: v for n, v in ex.items() if n not in out}))
                u.state()
                u.cover('defaults omitted')
                m = differ(got, base2, tol, floor(op))
                if m:
                    u.fail(f'{lab} without {out}', f'an omitted argument is not its default: {m}', got=str(got)[:200], want=str(base2)[:200])


def build_kw(d):
    return {n: build(v) for n, v in d.items()}


def sig(path):
    inv = inventory()
    if path[0].startswith('distributions.'):
        return inv['distributions'][path[0].split('.')[-1]].get(path[1])
    return inv[path[0]].get(path[1])


def isnumarg(v):
    if isinstance(v, Mat) or isinstance(v, (bool, str)):
        return False
    if isinstance(v, (list, tuple)):
        return bool(v) and all(isinstance(t, (int, float)) for t in v)
    return isinstance(v, (int, float))


def reps(v):
    """(code, conversion); codes from 10 on change an integer into another type"""
    if isinstance(v, (list, tuple)):
        c = 10 if any(isinstance(t, int) for t in v) else 1
        return [(0, lambda t: t), (c, lambda t: [mp.mpf(x) for x in t]),
                (c + 1, lambda t: tuple(mp.mpf(x) if i % 2 else x for i, x in enumerate(t)))]
    if isinstance(v, int):
        return [(0, lambda t: t), (10, mp.mpf), (11, float)]
    return [(0, lambda t: t), (1, mp.mpf)]
