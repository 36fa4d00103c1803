"""P09  Calls are pure: the precision context, the arguments and later results are untouched."""
import gc
import hashlib
import importlib
import os
import pickle
import pkgutil
import sys
import types
from mpmath import mp
import mpsci
from ..core import Unit, call, bad, Raised, Hang
from ..util import inventory, dist, has
from ..ref import alphabet
from ..ref.cont import DISTS
from ..ref.alphabet import build, resolve

ID = 'P09'
LEVEL = 'model_checking'
FRESH = True                       # every unit starts from a pristine process
PRECS = (55, 101)                  # bits; neither is the image of a digit count
ROOT = os.path.dirname(os.path.abspath(mpsci.__file__))
SLOW = {'genhyperbolic.cdf', 'genhyperbolic.sf', 'geninvgauss.cdf', 'geninvgauss.sf', 'genhyperbolic.cdf#3',
        'genhyperbolic.sf#3', 'geninvgauss.cdf#3', 'geninvgauss.sf#3', 'exponweib.var', 'exponweib.var#3',
        'benktander1.mle'}
HEAVY = {'genhyperbolic', 'geninvgauss', 'ncx2', 'exponweib', 'rice', 'argus', 'chi2', 'ncf', 'nct', 'stats', 'fun'}
SLOWMOD = {'genhyperbolic', 'geninvgauss'}

ASSUMPTIONS = ['mpmath restores its own context and its internal caches are transparent',
               'mutable state of the library is reachable from its modules, functions, closures or caches; the '
               'pairwise walks do not rely on this']


def bounds(tier):
    return ('alphabet: at least one concrete call of every public function (two argument sets for the distributions); '
            'ordered pairs of calls of the same module at two precisions (quick: within blocks of at least all calls of one function; thorough: all); every call interrupted at its every '
            'distinct source line; lattice and invalid arguments; every history of up to '
            f'{2 if tier == 'quick' else 3} state-changing calls followed by every call of the module')


# ----------------------------------------------------------------- alphabet
def all_ops():
    ops = alphabet.ops()
    mp.dps = 15
    extra = []
    for name in DISTS:
        d = DISTS[name]
        base = alphabet.params(name)
        cand = [p for p in d.params if len(p) == len(base)
                and all(mp.mpf(a) != mp.mpf(b) for a, b in zip(p, base))]
        if not cand:
            cand = [p for p in d.params if tuple(map(mp.mpf, base)) != p]
        if not cand:
            continue
        par = tuple(float(v) for v in cand[len(cand)//2])
        xs = [float(x) for x in d.points(cand[len(cand)//2])]
        x = xs[len(xs)//2]
        for fn, sig in inventory()['distributions'][name].items():
            path = ('distributions.' + name, fn)
            lab = f'{name}.{fn}#3'
            if fn in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf'):
                extra.append((lab, path, (x,) + par, {}))
            elif fn in ('invcdf', 'invsf'):
                extra.append((lab, path, (0.625,) + par, {}))
            elif fn == 'noncentral_moment':
                extra.append((lab, path, (1,) + par, {}))
            elif fn in ('mean', 'var', 'skewness', 'kurtosis', 'entropy', 'mode', 'median', 'support') \
                    and name != 'pareto':
                extra.append((lab, path, par, {}))
            elif fn == 'interval_prob' and len(xs) > 1:
                extra.append((lab, path, (xs[0], x) + par, {}))
    return ops + extra


def group_of(path):
    return path[0].split('.')[-1]


def groups():
    g = {}
    for op in all_ops():
        g.setdefault(group_of(op[1]), []).append(op)
    return g


# ------------------------------------------------------- state fingerprinting
def modules():
    out = []
    for m in pkgutil.walk_packages(mpsci.__path__, 'mpsci.'):
        if '.tests' in m.name:
            continue
        try:
            out.append(importlib.import_module(m.name))
        except Exception:
            continue
    return [mpsci] + out


MODS = modules()


def _feed(h, o, seen, depth=0):
    """Feed the mutable content reachable from o into the hash h."""
    if o is None or isinstance(o, (bool, int, float, str, bytes, type(Ellipsis))):
        h.update(repr(o).encode())
        return
    if isinstance(o, (mp.mpf, mp.mpc)):
        h.update(repr(getattr(o, '_mpf_', None) or getattr(o, '_mpc_', None)).encode())
        return
    if id(o) in seen or depth > 12:
        return
    seen.add(id(o))
    if isinstance(o, types.ModuleType):
        return
    if hasattr(o, 'cache_info') and callable(o):
        h.update(repr(o.cache_info()[1:]).encode() if False else repr(o.cache_info().currsize).encode())
        w = getattr(o, '__wrapped__', None)
        if w is not None:
            _feed(h, w, seen, depth + 1)
        return
    if isinstance(o, types.FunctionType):
        for part in (o.__defaults__, o.__kwdefaults__, o.__dict__):
            if part:
                _feed(h, part, seen, depth + 1)
        for c in o.__closure__ or ():
            try:
                _feed(h, c.cell_contents, seen, depth + 1)
            except ValueError:
                pass
        return
    if isinstance(o, (types.MethodType,)):
        _feed(h, o.__func__, seen, depth + 1)
        return
    if isinstance(o, type):
        if o.__module__.startswith('mpsci'):
            for k in sorted(o.__dict__):
                if not k.startswith('__'):
                    h.update(k.encode())
                    _feed(h, o.__dict__[k], seen, depth + 1)
        return
    if isinstance(o, dict):
        h.update(b'{%d' % len(o))
        for k, v in o.items():
            _feed(h, k, seen, depth + 1)
            _feed(h, v, seen, depth + 1)
        return
    if isinstance(o, (list, tuple)):
        h.update(b'[%d' % len(o))
        for v in o:
            _feed(h, v, seen, depth + 1)
        return
    if isinstance(o, (set, frozenset)):
        h.update(repr(sorted(map(repr, o))).encode())
        return
    if type(o).__module__.startswith('mpsci'):
        _feed(h, getattr(o, '__dict__', None), seen, depth + 1)
        for s in getattr(type(o), '__slots__', ()):
            _feed(h, getattr(o, s, None), seen, depth + 1)


def fingerprint():
    """Per-module digest of the mutable state owned by the library."""
    out = {}
    for m in MODS:
        h = hashlib.md5()
        for k, v in m.__dict__.items():
            if k.startswith('__') and k != '__all__':
                continue
            if callable(v) and getattr(v, '__module__', m.__name__) != m.__name__ and not hasattr(v, 'cache_info'):
                continue
            h.update(k.encode())
            _feed(h, v, set())
        out[m.__name__] = h.hexdigest()
    return out


def context():
    return (mp.prec, mp.pretty, getattr(mp, 'trap_complex', None), mp._prec_rounding[1])


# -------------------------------------------------------------- running calls
def plain(v):
    """A comparable, picklable image of a result."""
    if isinstance(v, Raised):
        return ('raised', v.type)
    if isinstance(v, Hang):
        return ('hang',)
    if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
        return v
    if isinstance(v, float):
        return ('float', v.hex() if v == v else 'nan')
    if isinstance(v, mp.mpf):
        s, m, e, b = v._mpf_
        return ('mpf', int(s), int(m), int(e), int(b) if not int(m) else 0)
    if isinstance(v, mp.mpc):
        return ('mpc', plain(v.real), plain(v.imag))
    if isinstance(v, type(mp.pi)):
        return plain(+v)
    if isinstance(v, mp.matrix):
        return ('matrix', v.rows, v.cols, tuple(plain(t) for t in v))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(plain(t) for t in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((plain(k), plain(t)) for k, t in v.items())
    if hasattr(v, '__dict__'):
        return (type(v).__name__,) + tuple((k, plain(t)) for k, t in sorted(vars(v).items()))
    if hasattr(v, '__iter__'):
        return (type(v).__name__, 'iterable')
    return (type(v).__name__,)


def run(op, prec, u=None, tag=''):
    """One transition: returns the image of the result; checks context and arguments."""
    lab, path, a, k = op
    mp.prec = prec
    args, kw = build(a), {n: build(v) for n, v in k.items()}
    before = plain([args, kw])
    ctx = context()
    leak = []

    def fn(*a_, **k_):
        try:
            return resolve(path)(*a_, **k_)
        finally:
            leak.append(context())
    v = call(fn, *args, **kw)
    if u is not None:
        u.step()
        if leak and leak[0] != ctx:
            u.fail(f'{lab}@{prec}{tag} context', 'the call changed the precision context', before=repr(ctx),
                   after=repr(leak[0]), result=v)
        if plain([args, kw]) != before:
            u.fail(f'{lab}@{prec}{tag} arguments', 'the call modified its arguments', before=repr(before)[:150],
                   after=repr(plain([args, kw]))[:150])
    mp.prec = prec
    return plain(v), v


def fresh(items):
    """Images of the results of calls, each computed in its own pristine child process."""
    out = []
    for it in items:
        out.append(in_child(lambda: [run(op, prec)[0] for op, prec in it]))
    return out


def in_child(fn):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def close(a, b, prec):
    """Equal images, or numbers that differ by rounding only."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] == 'mpf':
            if (not a[2] and a[3]) or (not b[2] and b[3]):
                return False                     # inf or nan
            x = mp.mpf(0) if not a[2] else mp.ldexp(mp.mpf(a[2]), a[3])*(-1 if a[1] else 1)
            y = mp.mpf(0) if not b[2] else mp.ldexp(mp.mpf(b[2]), b[3])*(-1 if b[1] else 1)
            return abs(x - y) <= mp.ldexp(max(abs(x), abs(y)), 8 - prec)
        return len(a) == len(b) and all(close(p, q, prec) for p, q in zip(a[1:], b[1:]))
    return False


# --------------------------------------------------------------- exploration
def units(tier):
    g = groups()
    out = []
    for n in g:
        out.append(['walk', n])
        out.append(['history', n])
        out.append(['fault', n])
    for n in DISTS:
        out.append(['sweep', n])
    out.append(['sweep', 'others'])
    return out


def cost(u):
    return {'fault': 2, 'walk': 3, 'history': 1, 'sweep': 1}[u[0]]*(20 if u[1] in SLOWMOD | {'stats'} else 2 if u[1] in ('burr12', 'exponweib', 'betaprime') else 1)


def required_classes(tier):
    return ['context restored', 'context restored after interruption', 'pair', 'self loop', 'state-changing call',
            'result mutated', 'argument mutated in place', 'invalid arguments', 'lattice arguments']


def run_unit(unit, tier):
    kind, name = unit
    u = Unit(f'{kind} {name}')
    {'walk': walk, 'history': history, 'fault': fault, 'sweep': sweep}[kind](u, name, tier)
    return u


def tour(n):
    """A closed walk over n nodes that uses every ordered pair (including loops) once."""
    adj = {i: list(range(n)) for i in range(n)}
    st, out = [0], []
    while st:
        v = st[-1]
        if adj[v]:
            st.append(adj[v].pop())
        else:
            out.append(st.pop())
    return out[::-1]


def walk(u, name, tier):
    ops = groups()[name]
    fast = [o for o in ops if o[0] not in SLOW and not o[0].endswith('.mle')]
    slow = [o for o in ops if o not in fast]
    fast.sort(key=lambda o: o[1])
    nodes = [(o, p) for o in fast for p in PRECS]
    ref = fresh([[nd] for nd in nodes])
    # Ordered pairs: the complete tour over the module in the thorough tier; in the
    # quick tier the complete tour over each block of calls (at least all calls of
    # one function), and one walk forwards and backwards over the whole module.
    blocks, cur = [], []
    for i, nd in enumerate(nodes):
        new = i and nodes[i - 1][0][1] != nd[0][1]
        if new and (len(cur) >= 16 or name in HEAVY) and tier == 'quick':
            blocks.append(cur)
            cur = []
        cur.append(i)
    blocks.append(cur)
    seqs = [[b[j] for j in tour(len(b))] for b in blocks if b]
    seqs.append(list(range(len(nodes))) + list(reversed(range(len(nodes)))))
    for seq in seqs:
        u.trace()
        prev = None
        for i in seq:
            op, prec = nodes[i]
            u.state()
            u.cover('pair')
            u.cover('context restored')
            img, v = run(op, prec, u)
            if not close(img, ref[i][0], prec):
                u.fail(f'{op[0]}@{prec} after {prev}', 'the result depends on an earlier call',
                       got=repr(img)[:120], fresh=repr(ref[i][0])[:120])
            prev = f'{op[0]}@{prec}'
    for op in slow:
        hist = [(op, p) for p in PRECS[:1] if op[0] in SLOW] or [(op, PRECS[0]), (op, PRECS[1]), (op, PRECS[0])]
        if op[0] in SLOW and tier != 'quick':
            hist = [(op, PRECS[0]), (op, PRECS[1]), (op, PRECS[0])]
        refs = {p: fresh([[(op, p)]])[0][0] for p in {p for _, p in hist}} if len(hist) > 1 else {}
        for o, p in hist:
            u.state()
            img, v = run(o, p, u)
            if p in refs and not close(img, refs[p], p):
                u.fail(f'{op[0]}@{p} repeated', 'the result depends on an earlier call',
                       got=repr(img)[:120], fresh=repr(refs[p])[:120])
    # results and arguments are not shared with the caller
    for op in fast:
        prec = PRECS[0]
        img, v = run(op, prec, u)
        if spoil(v):
            u.cover('result mutated')
            u.state()
            img2, _ = run(op, prec, u)
            if img2 != img:
                u.fail(f'{op[0]} result shared', 'changing a returned container changes the next result',
                       first=repr(img)[:120], second=repr(img2)[:120])
        lists = [i for i, t in enumerate(op[2]) if isinstance(t, list) and t and not isinstance(t[0], list)
                 and not isinstance(t, alphabet.Mat)]
        if lists and name not in ('multivariate_hypergeometric',):
            i = lists[0]
            args = build(op[2])
            mp.prec = prec
            f = resolve(op[1])
            call(f, *args, **build_kw(op[3]))
            args[i].reverse()
            args[i][0] = args[i][0] + args[i][-1] if len(args[i]) > 1 else args[i][0]
            got = plain(call(f, *args, **build_kw(op[3])))
            new = list(args[i])
            fresh_args = build(op[2])
            fresh_args = fresh_args[:i] + (new,) + fresh_args[i + 1:]
            want = in_child(lambda: plain(call(f, *fresh_args, **build_kw(op[3]))))
            u.state()
            u.step(2)
            u.cover('argument mutated in place')
            if not close(got, want, prec):
                u.fail(f'{op[0]} argument identity', 'the result depends on the previous content of an argument',
                       got=repr(got)[:120], fresh=repr(want)[:120])


def build_kw(k):
    return {n: build(v) for n, v in k.items()}


def spoil(v):
    """Overwrite a returned container; True if there was something to overwrite."""
    if isinstance(v, list):
        for t in v:
            spoil(t)
        v[:] = [-77]*(len(v) + 1)
        return True
    if isinstance(v, mp.matrix):
        for i in range(v.rows):
            for j in range(v.cols):
                v[i, j] = -77
        return True
    if isinstance(v, dict):
        for t in v.values():
            spoil(t)
        v.clear()
        return True
    if isinstance(v, tuple):
        return any([spoil(t) for t in v])
    if hasattr(v, '__dict__') and type(v).__module__.startswith('mpsci'):
        return any([spoil(t) for t in vars(v).values()])
    return False


def history(u, name, tier):
    """Explicit-state search over the library's mutable state."""
    ops = [o for o in groups()[name] if o[0] not in SLOW]
    base = fingerprint()
    nodes = [(o, p) for o in ops for p in PRECS]
    dirty = []
    ref = {}

    def probe(nd):
        img = run(*nd)[0]
        fp = fingerprint()
        return img, [m for m in fp if fp[m] != base[m]]
    for i, nd in enumerate(nodes):
        if nd[0][0].endswith('.mle') and nd[1] != PRECS[0] and tier == 'quick':
            continue
        r = in_child(lambda: probe(nd))
        if r is None:
            u.fail(f'{nd[0][0]}@{nd[1]} died', 'the call ended the process')
            continue
        ref[i] = r[0]
        u.state()
        u.step()
        if r[1]:
            dirty.append(i)
            u.cover('state-changing call')
        else:
            u.cover('self loop')
    if not dirty:
        return
    u.sample(f'{name}: {len(dirty)} state-changing calls, histories of length <= '
             f'{2 if tier == 'quick' else 3}')
    # Every history of state-changing calls up to the bound, then every call.
    final = [i for i in ref if not nodes[i][0][0].endswith('.mle')]

    def explore(hist):
        out = []
        n = 0
        for j in hist:
            img = run(*nodes[j])[0]
            n += 1
            if not close(img, ref[j], nodes[j][1]):
                out.append((j, repr(img)[:100]))
        for i in final:
            img = run(*nodes[i])[0]
            n += 1
            if not close(img, ref[i], nodes[i][1]):
                out.append((i, repr(img)[:100]))
        return out, n
    hists = [[i] for i in dirty]
    pick = dirty if tier != 'quick' else [i for i in dirty if i % 4 in (0, 1)]
    hists += [[i, j] for i in dirty for j in pick if i != j]
    if tier != 'quick':
        hists += [[i, j, k] for i in dirty[:12] for j in dirty[:12] for k in dirty[:12] if len({i, j, k}) == 3]
    for h in hists:
        r = in_child(lambda: explore(h))
        u.state()
        u.trace()
        txt = ', '.join(f'{nodes[j][0][0]}@{nodes[j][1]}' for j in h)
        if r is None:
            u.fail(f'history [{txt}] died', 'the calls ended the process')
            continue
        u.step(r[1])
        for i, got in r[0]:
            u.fail(f'{nodes[i][0][0]}@{nodes[i][1]} after [{txt}]', 'the result depends on earlier calls',
                   got=got, fresh=repr(ref[i])[:100])


class Interrupt(BaseException):
    pass


def fault(u, name, tier):
    """Interrupt every call at each of its distinct source lines."""
    ops = [o for o in groups()[name] if o[0] not in SLOW]
    if tier == 'quick':
        ops = [o for o in ops if not o[0].endswith('#3')]
    prec = PRECS[1]
    for op in ops:
        lab, path, a, k = op
        f = resolve(path)
        lines = []
        seen = set()
        target = [None]
        budget = [0]

        def local(frame, event, arg):
            if event == 'line':
                key = (frame.f_code.co_filename, frame.f_lineno)
                if key not in seen:
                    seen.add(key)
                    lines.append(key)
                    if key == target[0]:
                        raise Interrupt()
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                return local(frame, event, arg) if event == 'line' else local
            return None

        def attempt():
            mp.prec = prec
            ctx = context()
            args, kw = build(a), build_kw(k)
            before = plain([args, kw])
            sys.settrace(tracer)
            try:
                f(*args, **kw)
                how = 'returned'
            except Interrupt:
                how = 'interrupted'
            except Exception as e:
                how = f'raised {type(e).__name__}'
            finally:
                sys.settrace(None)
            after = context()
            mp.prec = prec
            return how, ctx, after, before, plain([args, kw])
        attempt()
        todo = list(lines)
        if lab.endswith('.mle') and tier == 'quick':
            todo = todo[::3]
        for key in todo:
            lines.clear()
            seen.clear()
            target[0] = key
            how, ctx, after, before, now = attempt()
            u.state()
            u.step()
            u.cover('context restored after interruption')
            where = f'{os.path.relpath(key[0], ROOT)}:{key[1]}'
            if after != ctx:
                u.fail(f'{lab} interrupted at {where}', 'the precision is not restored when the call is interrupted',
                       how=how, before=repr(ctx), after=repr(after))
            elif before != now:
                u.fail(f'{lab} interrupted at {where} arguments', 'arguments modified by an interrupted call')
        u.trace()
        u.sample(f'{lab}: interrupted at {len(todo)} lines')


def sweep(u, name, tier):
    """Lattice, edge and invalid arguments: the context survives every branch."""
    prec = PRECS[0]
    mp.dps = 15
    if name == 'others':
        ops = [o for g, os_ in groups().items() if g not in DISTS for o in os_]
        n = 0
        for lab, path, a, k in ops:
            for i, v in enumerate(a):
                for w in subst(v):
                    run((lab, path, a[:i] + (w,) + a[i + 1:], k), prec, u, f' arg{i}={w!r}'[:60])
                    u.state()
                    u.cover('invalid arguments')
            for kn, v in k.items():
                for w in subst(v):
                    run((lab, path, a, {**k, kn: w}), prec, u, f' {kn}={w!r}'[:60])
                    u.state()
                    u.cover('invalid arguments')
        return
    d = DISTS[name]
    fns = inventory()['distributions'][name]
    base = alphabet.params(name)
    full = tier != 'quick'
    params = d.params if full else d.params[::max(1, len(d.params)//12)]
    for par in params:
        mp.dps = 15
        xs = d.points(par)
        lo, hi = d.support(par)
        xs = xs[::max(1, len(xs)//(12 if full else 4))]
        for e, s in ((lo, -1), (hi, 1)):
            if not mp.isinf(e):
                xs += [e, e + s]
        for fn in fns:
            path = ('distributions.' + name, fn)
            if name in SLOWMOD and fn in ('cdf', 'sf'):
                continue
            if fn in ('pdf', 'logpdf', 'cdf', 'sf', 'logcdf', 'logsf'):
                todo = [(x,) + par for x in xs]
                if d.slow and fn != 'pdf' and not full:
                    todo = todo[-3:]
            elif fn in ('invcdf', 'invsf'):
                todo = [(p,) + par for p in (0, 1, 0.125, -0.5, 1.5)]
                if d.slow and not full:
                    todo = [t for t in todo if t[0] != 0.125]
            elif fn == 'noncentral_moment':
                todo = [(n,) + par for n in (0, 1, 3)]
            elif fn in ('mean', 'var', 'skewness', 'kurtosis', 'entropy', 'mode', 'median', 'support'):
                todo = [par]
                if d.slow or name == 'pareto' or name == 'exponweib':
                    todo = []
            else:
                continue
            for a in todo:
                u.state()
                u.cover('lattice arguments')
                run((f'{name}.{fn}', path, a, {}), prec, u, f' {a!r}')
    for fn in fns:
        op = [o for o in alphabet.ops() if o[0] == f'{name}.{fn}' and o[0] not in SLOW]
        for lab, path, a, k in op:
            for i, v in enumerate(a):
                for w in subst(v):
                    if fn in ('mle', 'mom') and isinstance(w, list) and not full and len(w) > 1:
                        continue
                    if name in SLOWMOD and fn in ('cdf', 'sf'):
                        continue
                    u.state()
                    u.cover('invalid arguments')
                    run((lab, path, a[:i] + (w,) + a[i + 1:], k), prec, u, f' arg{i}={w!r}'[:60])


def subst(v):
    """Edge and invalid values for one argument."""
    if isinstance(v, alphabet.Mat):
        return [alphabet.Mat([[1, 0], [0, 0]])]
    if isinstance(v, list):
        if v and isinstance(v[0], list):
            return [[[0, 2], [1, 5]], [[8, -2], [1, 5]], [[0, 0], [0, 0]], [[1, 2, 3]]]
        out = [[], v[:1], [v[0], v[0]]]
        if len(v) > 1:
            out += [[-t for t in v], [0]*len(v)]
        return out
    if isinstance(v, bool):
        return []
    if isinstance(v, (int, float)):
        return [0, -1, 1, -2.5]
    return []
