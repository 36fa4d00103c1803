"""P08  Likelihoods and estimates depend on the sample only as a multiset."""
from fractions import Fraction
from itertools import permutations, product
from mpmath import mp
from ..core import Unit, call, bad, isnum
from ..util import dist, has, fn_of, num, eps, realval
from ..ref.disc import DISC
from . import p07

ID = 'P08'
LEVEL = 'model_checking'
NAMES = list(p07.SPEC)
# a point of the parameter space at which the likelihood is evaluated
AT = {'benini': (1.5, 2, 0.5), 'benktander1': (2, 0.75), 'benktander2': (2, 0.5), 'beta': (1.5, 2), 'betaprime': (1.5, 2, 0.75),
      'burr12': (1.5, 2, 0.75), 'gamma': (1.5, 0.75), 'genpareto': (0.25, 0.125, 2), 'gompertz': (0.5, 1.5), 'gumbel_max': (0.5, 1.5),
      'gumbel_min': (0.5, 1.5), 'hypsecant': (0.5, 1.5), 'kumaraswamy': (1.5, 2), 'loggamma': (1.5, 0.75),
      'logistic': (0.5, 1.5), 'lognormal': (0.5, 1.5), 'nakagami': (1.5, 0.125, 2), 'normal': (0.5, 1.5),
      'pareto': (1.5, 0.125, 0.0625), 'weibull_min': (1.5, 0.125, 2), 'weibull_max': (1.5, -0.125, 2)}
DATA = {'benini': p07.POS[1:], 'benktander1': p07.ONE, 'benktander2': p07.ONE, 'genpareto': p07.POS}
DAT = {'binomial': (10, 0.375), 'betabinomial': (9, 1.5, 2), 'poisson': (2.5,), 'logseries': (0.375,),
       'negative_binomial': (3, 0.375)}


def DPS(tier):
    return (15, 33)


def bounds(tier):
    return ('every sample of 2-4 distinct alphabet values and its every permutation, given as list, tuple, Python '
            'numbers, multi-precision numbers and fractions; every count vector in {1,2,3}^k against the expanded sample '
            'and against zero-count padding; ' f'{len(AT) + len(DAT)} distributions, precisions {DPS(tier)}')


ASSUMPTIONS = ['two evaluations of the same multiset may differ by rounding only']


def units(tier):
    out = []
    for d in DPS(tier):
        out += [[n, d] for n in sorted(set(NAMES) | set(AT))] + [[n, d] for n in DAT]
    return out


def cost(u):
    return u[1]*(9 if u[0] in ('betaprime', 'burr12') else 1)


def required_classes(tier):
    return ['long sample', 'permutation', 'representation', 'counts', 'zero counts'] + ['dist ' + u for u in sorted(set(NAMES) | set(AT) | set(DAT))]


def same(a, b, tol):
    if bad(a) or bad(b):
        return bad(a) and bad(b) and getattr(a, 'type', 0) == getattr(b, 'type', 1)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if not (isnum(a) and isnum(b)):
        return False
    if a == b:
        return True
    return abs(a - b) <= tol*max(abs(a), abs(b), mp.mpf(1)/8)


def forms(data):
    yield 'tuple', tuple(data)
    yield 'mpf', [mp.mpf(t) for t in data]
    yield 'float', [float(t) for t in data]
    yield 'Fraction', [Fraction(t) for t in data]


def run_unit(unit, tier):
    name, dps = unit
    u = Unit(f'{name}@{dps}')
    mod = dist(name)
    u.cover('dist ' + name)
    if name in DAT:
        return run_counts(u, name, mod, dps)
    alpha = DATA.get(name) or p07.SPEC[name][0]
    samples = [alpha[:2], alpha[1:4], alpha[:4], alpha[::-2] + [alpha[0]], alpha[-4:]]
    if name in p07.TRUE:
        q = p07.quantile_data(name)
        samples += [q[1][0][::2], q[0][0]][:1 if len(q) < 2 else 2]
    # long samples: 41 quantiles of a member of the family, in a scrambled base order
    if name in p07.TRUE:
        q = p07.quantile_data(name, sizes=((41, 0),))[:1]
        samples += [[d[(i*12) % len(d)] for i in range(len(d))] if len(d) % 2 and len(d) % 3 else d for d, _ in q]
    ops = []
    if has(name, 'nll'):
        par = AT[name]
        ops.append(('nll', lambda x: fn_of(mod, 'nll')(x, *par), 10*eps(dps)))
    if has(name, 'mom'):
        ops.append(('mom', lambda x: fn_of(mod, 'mom')(x), 100*eps(dps)))
    if has(name, 'mle'):
        _, names, fixv, _, _ = p07.SPEC[name]
        names = names.split()
        kw = {}
        for i in p07.MUSTFIX.get(name, ()):
            kw[names[i]] = fixv[i]
        loose = mp.mpf(10)**(-(dps + 1)//2)
        ops.append(('mle', lambda x: fn_of(mod, 'mle')(x, **kw), loose))
        if fixv is not None:
            last = len(names) - 1
            for j in range(len(names)):
                k2 = dict(kw)
                k2.update({names[i]: fixv[i] for i in range(len(names)) if i != j})
                if j not in p07.MUSTFIX.get(name, ()):
                    ops.append((f'mle[{names[j]} free]', lambda x, k2=k2: fn_of(mod, 'mle')(x, **k2), loose))
    for data in samples:
        u.trace()
        for op, f, tol in ops:
            key = f'{name}.{op} dps={dps}'
            base = call(f, list(data), dps=dps)
            u.step()
            if bad(base) and op.startswith('mle'):
                continue                      # whether an estimate exists is decided by P07
            if len(data) > 20:
                u.cover('long sample')
                srt = sorted(data)
                perms = [tuple(data), tuple(srt), tuple(srt[::-1]), tuple(data[::-1]), tuple(srt[1:] + srt[:1]),
                         tuple(srt[::2] + srt[1::2])]
            else:
                perms = list(permutations(data)) if len(data) <= 4 else [tuple(data[i:]) + tuple(data[:i]) for i in range(len(data))] + [tuple(data[::-1])]
            for p in perms[1:]:
                v = call(f, list(p), dps=dps)
                u.state()
                u.step()
                u.cover('permutation')
                if bad(v) and op == 'mle':
                    continue
                if not same(v, base, tol):
                    u.fail(f'{key} {list(p)}', f'depends on the order of the sample ({list(data)})', got=v, want=base)
                    break
            for form, p in forms(data):
                if form == 'Fraction' and op != 'nll':
                    continue
                if form == 'Fraction' and bad(call(f, p, dps=dps)):
                    continue
                v = call(f, p, dps=dps)
                u.state()
                u.step()
                u.cover('representation')
                if not same(v, base, tol):
                    u.fail(f'{key} {list(data)} as {form}', 'depends on the representation of the sample', got=v, want=base)
            if op == 'nll':
                # additivity: the likelihood of a union is the sum
                v2 = call(f, list(data) + list(data[:1]), dps=dps)
                v1 = call(f, list(data[:1]), dps=dps)
                u.state()
                u.step(2)
                mp.dps = dps + 20
                if bad(v1) or bad(v2) or abs(v2 - v1 - base) > tol*(abs(v1) + abs(base) + 1)*3:
                    u.fail(f'{key} {list(data)} repeated', 'the likelihood is not additive', got=v2, want=base)
        u.sample(f'{name}: all orders and representations of {list(data)} at {dps} digits')
    return u


def run_counts(u, name, mod, dps):
    par = DAT[name]
    vals = [[0, 1, 4], [1, 2, 3], [2, 5, 9], [1, 7], [3, 8]]
    if name == 'logseries':
        vals = [[1, 2, 5], [2, 3, 4], [1, 6], [3, 9]]
    loose = mp.mpf(10)**(-(dps + 1)//2)
    ops = [('nll', lambda x, c: fn_of(mod, 'nll')(x, *par, counts=c), 10*eps(dps)),
           ('mle', lambda x, c: fn_of(mod, 'mle')(x, counts=c, **({'n': 9} if name == 'betabinomial' else {})), loose)]
    if name == 'binomial':
        ops.append(('mle[n=10]', lambda x, c: mod.mle(x, counts=c, n=10), loose))
        ops.append(('mle[p=0.125]', lambda x, c: mod.mle(x, counts=c, p=0.125), loose))
        ops.append(('mle[p=0.75]', lambda x, c: mod.mle(x, counts=c, p=0.75), loose))
    if name == 'negative_binomial':
        ops.append(('mle[r=3]', lambda x, c: mod.mle(x, counts=c, r=3), loose))
        ops.append(('mle[p=0.375]', lambda x, c: mod.mle(x, counts=c, p=0.375), loose))
    if name == 'betabinomial':
        ops.append(('mle[b=2]', lambda x, c: mod.mle(x, counts=c, n=9, b=2), loose))
        ops.append(('mle[a=2]', lambda x, c: mod.mle(x, counts=c, n=9, a=2), loose))
    for xs in vals:
        for c in product((1, 2, 3) if dps < 20 else (1, 3), repeat=len(xs)):
            u.trace()
            exp = [x for x, k in zip(xs, c) for _ in range(k)]
            pad = 4 if 4 not in xs else 6
            for op, f, tol in ops:
                base = call(f, exp, None, dps=dps)
                v = call(f, list(xs), list(c), dps=dps)
                r = call(f, list(xs)[::-1], list(c)[::-1], dps=dps)
                u.state(3)
                u.step(4)
                u.cover('counts')
                u.cover('permutation')
                u.cover('representation')
                key = f'{name}.{op} x={xs} counts={list(c)} dps={dps}'
                if bad(base) or bad(v) or bad(r):
                    if op == 'nll':
                        u.fail(key, 'no value', base=base, counts=v)
                    continue
                if not same(v, base, tol):
                    u.fail(key, 'counts differ from the expanded sample', got=v, want=base)
                if not same(r, base, tol):
                    u.fail(key, 'counts depend on the order', got=r, want=base)
                if max(xs) > pad:
                    z = call(f, list(xs) + [pad], list(c) + [0], dps=dps)
                    u.step()
                    u.cover('zero counts')
                    if bad(z) and op != 'nll':
                        continue
                    if not same(z, base, tol):
                        u.fail(key + ' zero', 'a value with count 0 changes the result', got=z, want=base)
        u.sample(f'{name}: counts against repetition for {xs} at {dps} digits')
    return u
