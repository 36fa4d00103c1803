"""
Regenerates mc/ref/tables/quad_cdf.json: CDF/SF of the two distributions without
a closed form, by high precision quadrature of the reference density.
"""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
from mpmath import mp
from multiprocessing import Pool
from mc.ref.cont import DISTS
from mc.checks.p02 import refquad
from mc.util import num


def job(a):
    name, i = a
    mp.dps = 15
    d = DISTS[name]
    par = d.params[i]
    pts = d.points(par)
    n = len(pts)
    xs = [pts[n//4 + (i % 2)], pts[n//2], pts[3*n//4]]
    if name == 'genhyperbolic':
        xs = xs[1:] if i % 2 else xs[:2]
    r = refquad(d, par, xs)
    mp.dps = 35
    return [name, i, [[num(x), mp.nstr(r[x][0], 30), mp.nstr(r[x][1], 30)] for x in xs]]


if __name__ == '__main__':
    jobs = [('geninvgauss', i) for i in range(18) if i % 3 != (i//3) % 3]
    jobs += [('genhyperbolic', i) for i in range(18) if i % 3 == (i//3) % 3]
    with Pool(8) as p:
        out = p.map(job, jobs, chunksize=1)
    os.makedirs(os.path.join(HERE, 'mc/ref/tables'), exist_ok=True)
    with open(os.path.join(HERE, 'mc/ref/tables/quad_cdf.json'), 'w') as f:
        json.dump(out, f, indent=0)
