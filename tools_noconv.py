"""Regenerates mc/ref/noconv.json (run by hand): the explored estimation problems in which the iteration of the
unchanged code gives up at some neighbouring precision."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ['/repo', HERE]
from multiprocessing import Pool
from mc import core
from mc.checks import p07

p07._NC = set()


def job(u):
    out = []

    def fail(self, key, what, **d):
        if 'NC' in d:
            out.append(key[:key.rindex(' dps=')])
    core.Unit.fail = fail
    p07.run_unit(u, 'quick')
    return out


if __name__ == '__main__':
    units = []
    for base in p07.units('quick'):
        if base[2] != 'mom':
            for k in (-1, 0, 1, 2, 4):
                units.append([base[0], base[1] + k, base[2]])
    with Pool(8) as p:
        res = set()
        for r in p.imap_unordered(job, units, chunksize=1):
            res |= set(r)
    json.dump(sorted(res), open(os.path.join(HERE, 'mc/ref/noconv.json'), 'w'), indent=0)
    print(len(res))
