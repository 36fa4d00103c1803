"""Regenerates mc/ref/inventory.json (public functions and their parameters)."""
import sys, os, json, inspect, importlib, pkgutil
sys.path[:0] = ['/repo']
import mpsci.distributions as D, mpsci.stats as S, mpsci.fun as F
out = {'distributions': {}, 'stats': {}, 'fun': {}}
for m in pkgutil.iter_modules(D.__path__):
    if m.name.startswith('_') or m.name == 'tests':
        continue
    mod = importlib.import_module('mpsci.distributions.' + m.name)
    fns = {}
    for n, f in sorted(vars(mod).items()):
        if callable(f) and not n.startswith('_') and n in getattr(mod, '__all__', [n]) and inspect.isfunction(f):
            fns[n] = list(inspect.signature(f).parameters)
    out['distributions'][m.name] = fns
for key, mod in (('stats', S), ('fun', F)):
    for n, f in sorted(vars(mod).items()):
        if callable(f) and not n.startswith('_') and not inspect.isclass(f) and not inspect.ismodule(f):
            out[key][n] = list(inspect.signature(f).parameters)
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mc/ref/inventory.json')
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
# defaults of the pristine tree: {path: {parameter: default}} for numeric defaults
dflt = {}
for name, fns in out['distributions'].items():
    mod = importlib.import_module('mpsci.distributions.' + name)
    for n in fns:
        d = {p.name: p.default for p in inspect.signature(getattr(mod, n)).parameters.values()
             if isinstance(p.default, (int, float)) and not isinstance(p.default, bool)}
        if d:
            dflt[f'{name}.{n}'] = d
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mc/ref/defaults.json')
json.dump(dflt, open(p, 'w'), indent=0, sort_keys=True)
