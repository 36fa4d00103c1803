"""
Exploration engine shared by all checks.

A check is a module in mc.checks with
    ID          property id
    LEVEL       verification level
    units(tier)     -> list of picklable unit descriptions (partition of the
                       bounded state space; the union is explored exhaustively)
    run_unit(unit, tier) -> Unit  (an accumulator, see below)
The engine distributes the units over processes, merges the counters, matches
violations with the committed list of known findings, writes the evidence file
and decides the exit code.
"""
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from multiprocessing import get_context
from mpmath import mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')

CALL_TIMEOUT = float(os.environ.get('MC_CALL_TIMEOUT', '90'))   # seconds for one call of the library
DEADLINE = 820.0             # seconds for a whole quick check


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Raised:
    """The outcome of a call that raised."""

    def __init__(self, exc):
        self.type = type(exc).__name__
        self.exc = exc
        self.msg = str(exc)[:200]

    def __repr__(self):
        return f'raised {self.type}: {self.msg}'


class Hang:
    def __repr__(self):
        return f'no answer within {CALL_TIMEOUT:g} s'


def call(fn, *args, dps=None, **kwargs):
    """Call the implementation under a given precision; never raises."""
    if dps is not None:
        mp.dps = dps
    prec = mp.prec
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CALL_TIMEOUT)
    try:
        return fn(*args, **kwargs)
    except CallTimeout:
        return Hang()
    except (Exception, RecursionError, MemoryError) as e:
        return Raised(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        mp.prec = prec


def bad(v):
    return isinstance(v, (Raised, Hang))


def isnum(v):
    """A real number (mpf, int, mp constant ...), not complex."""
    if isinstance(v, (bool, str)) or v is None:
        return False
    if isinstance(v, (int, float, mp.mpf)):
        return True
    return isinstance(v, type(mp.pi))


def show(v, n=20):
    if isinstance(v, (mp.mpf, mp.mpc)):
        return mp.nstr(v, n)
    if isinstance(v, (tuple, list)):
        return '[' + ', '.join(show(t, n) for t in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k}: {show(t, n)}' for k, t in v.items()) + '}'
    return str(v) if isinstance(v, str) else repr(v)


class Unit:
    """Accumulator of one explored part of the state space."""

    def __init__(self, name=''):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.classes = {}
        self.samples = []
        self.violations = []
        self.only = None            # replay filter

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def cover(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text)

    def fail(self, key, what, **detail):
        if len(self.violations) < int(os.environ.get("MC_MAXV","200")):
            self.violations.append(dict(
                key=key, what=what,
                detail={k: show(v) for k, v in detail.items()}))

    def export(self):
        return dict(name=self.name, states=self.states,
                    transitions=self.transitions, traces=self.traces,
                    classes=self.classes, samples=self.samples,
                    violations=self.violations)


def _worker(a):
    modname, unit, tier = a
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except Exception:
        pass
    try:
        import importlib
        mod = importlib.import_module(modname)
        mp.dps = 15
        u = mod.run_unit(unit, tier)
        r = u.export()
        r['unit'] = unit
        r['wall'] = time.time() - t0
        return r
    except BaseException:
        return dict(unit=unit, internal=traceback.format_exc())


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'known': [], 'fixed': []}


def run_check(modname, tier, replay=None):
    import importlib
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.ID
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    deadline = DEADLINE if tier == 'quick' else 6*3600

    units = list(mod.units(tier))
    if replay is not None:
        with open(replay) as f:
            rec = json.load(f)
        units = [u for u in units if json.loads(json.dumps(u)) == rec['unit']]
    order = list(range(len(units)))
    cost = getattr(mod, 'cost', None)
    # The order of exploration is the only thing the seed decides.
    random.Random(seed).shuffle(order)
    if cost:
        order.sort(key=lambda i: -cost(units[i]))

    tot = dict(states=0, transitions=0, traces=0)
    classes, samples, viols, internal, slow = {}, [], [], [], []
    ctx = get_context('fork')
    nproc = int(os.environ.get('MC_PROCS', '8'))
    pool = ctx.Pool(min(nproc, max(1, len(units))), maxtasksperchild=1 if getattr(mod, 'FRESH', False) else None)
    it = pool.imap_unordered(_worker, [(modname, units[i], tier) for i in order],
                             chunksize=1)
    done = 0
    hung = False
    while done < len(units):
        try:
            r = it.next(timeout=max(1.0, deadline - (time.time() - t0)))
        except StopIteration:
            break
        except Exception as e:                       # TimeoutError
            hung = True
            viols.append(dict(unit=None, key='hang',
                              what=f'exploration did not finish within '
                                   f'{deadline:g} s ({type(e).__name__}): a '
                                   'call of the library does not return',
                              detail={}))
            break
        done += 1
        if 'internal' in r:
            internal.append((r['unit'], r['internal']))
            continue
        for k in tot:
            tot[k] += r[k]
        for k, n in r['classes'].items():
            classes[k] = classes.get(k, 0) + n
        if len(samples) < 12:
            samples.extend(r['samples'][:1])
        slow.append((r['wall'], str(r['unit'])[:80]))
        for v in r['violations']:
            viols.append(dict(unit=r['unit'], **v))
    if hung:
        pool.terminate()
    else:
        pool.close()
        pool.join()

    if internal:
        for u, tb in internal[:3]:
            print('INTERNAL ERROR in unit', u, file=sys.stderr)
            print(tb, file=sys.stderr)
        if not viols:
            return 2

    known = {k['key']: k for k in load_known()['known'] if k['property'] == pid}
    new, seen_known = [], {}
    for v in viols:
        if v['key'] in known:
            seen_known[v['key']] = known[v['key']]
        else:
            new.append(v)
    for k, e in sorted(seen_known.items()):
        print(f'KNOWN-FINDING: property={pid} {e["what"]}')

    # Non-vacuity: every class the check promises to reach was reached.
    missing = []
    if replay is None and not hung:
        missing = [c for c in getattr(mod, 'required_classes', lambda t: [])(tier)
                   if classes.get(c, 0) == 0]
    slow.sort(reverse=True)
    cov = dict(states=tot['states'], transitions=tot['transitions'],
               traces_validated_against_impl=tot['traces'],
               samples=samples[:12], exhaustive=not hung,
               bounds=mod.bounds(tier) if hasattr(mod, 'bounds') else '',
               units=len(units), classes=classes,
               known_findings_seen=sorted(seen_known))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              violations=len(new), wall_s=round(time.time() - t0, 2))
    if replay is None:
        with open(os.path.join(EVID, f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    if os.environ.get('MC_VERBOSE'):
        for w, u in slow[:8]:
            print('  slow unit %6.1f s  %s' % (w, u))
    print(f'{pid} {tier}: states={tot["states"]} transitions='
          f'{tot["transitions"]} traces={tot["traces"]} units={len(units)} '
          f'wall={ev["wall_s"]}s violations={len(new)} known={len(seen_known)}')
    if new:
        new.sort(key=lambda v: (len(v['key']), v['key']))
        for i, v in enumerate(new[:10]):
            path = os.path.join(EVID, f'replay_{pid}_{i}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, unit=v['unit'],
                               key=v['key'], what=v['what'],
                               detail=v['detail']), f, indent=1, default=str)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'    {v["key"]}: {v["what"]} '
                  + ' '.join(f'{k}={x}' for k, x in v['detail'].items())[:600])
        if len(new) > 10:
            print(f'    ... and {len(new) - 10} more')
        if os.environ.get('MC_DUMP'):
            with open(os.environ['MC_DUMP'], 'w') as f:
                for v in new:
                    f.write(json.dumps(v, default=str) + '\n')
        return 1
    if missing:
        print(f'INTERNAL ERROR: classes never reached: {missing}', file=sys.stderr)
        return 2
    return 0
