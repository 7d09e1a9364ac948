"""C27: duplicate boreholes."""
import itertools

import numpy as np

from vp import gen

RULE = ('Random fields of 1..60 boreholes (list or Borefield) with planted exact and near duplicates, chains, '
        'clusters, radii of different sizes, shuffled order; distances just below and just above the limit. Distinct '
        'by (kind, number, number of duplicate pairs).')
ORACLES = ['pairs', 'pairs.order', 'removed.no-duplicates', 'removed.kept-unchanged', 'removed.each-covered', 'untouched',
           'first-kept']
ASSUMPTIONS = ['a distance within 1e-9 relative of the limit is not generated']


def cases(r, tier):
    n = 120 if tier == 'quick' else 3000
    return [dict(kind=k, i=i) for k in ('none', 'exact', 'near', 'chain', 'radii', 'single', 'large', 'clusters') for i in range(n if k not in ('single', 'large') else n // 4)]


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    kind = case['kind']
    n = 1 if kind == 'single' else int(r.integers(2, 16)) if kind != 'large' else int(r.integers(30, 90))
    rb = float(r.uniform(0.04, 0.2))
    xy = gen._scatter(r, n, 6.)
    f = [[float(r.uniform(50, 150)), 2., rb, x, y, 0., 0.] for x, y in xy]
    if r.random() < 0.3:
        for b in f:
            b[5], b[6] = 0.2, float(r.uniform(-3, 3))
    rmax = rb
    if kind == 'radii':
        for b in f:
            b[2] = float(r.uniform(0.03, 0.3))
        rmax = max(b[2] for b in f)
    extra = []
    if kind in ('exact', 'near', 'chain', 'radii', 'large'):
        for _ in range(int(r.integers(1, max(2, n // 2) + 1))):
            b = list(f[int(r.integers(n))])
            a = float(r.uniform(0, 2 * np.pi))
            d = {'exact': 0., 'large': 0.5 * rmax}.get(kind)
            if d is None:
                d = rmax * float(gen.pick(r, [0.3, 0.999, 1 - 1e-6, 1 + 1e-6, 1.001, 1.5]))
            b[3] += d * np.cos(a)
            b[4] += d * np.sin(a)
            b[0] = float(r.uniform(50, 150))
            extra.append(b)
            if kind == 'chain':
                for k in range(int(r.integers(1, 4))):
                    b = list(b)
                    b[3] += 0.8 * rmax * np.cos(a)
                    b[4] += 0.8 * rmax * np.sin(a)
                    extra.append(b)
    if kind == 'clusters':      # many boreholes on few spots
        for c in range(int(r.integers(1, 4))):
            b = f[int(r.integers(n))]
            for _ in range(int(r.integers(2, 9))):
                a, d = float(r.uniform(0, 2 * np.pi)), float(r.uniform(0., 0.49 * rmax))
                extra.append([float(r.uniform(50, 150))] + b[1:3] + [b[3] + d * np.cos(a), b[4] + d * np.sin(a)] + b[5:])
    f = f + extra
    f = [f[int(i)] for i in r.permutation(len(f))]
    n = len(f)
    d = np.array([[np.hypot(a[3] - b[3], a[4] - b[4]) for b in f] for a in f])
    rmax = max(b[2] for b in f)
    if np.any((np.abs(d - rmax) < 1e-9 * (rmax + 10.)) & ~np.eye(n, dtype=bool)):
        return
    want = [(i, j) for i, j in itertools.combinations(range(n), 2) if d[i, j] < rmax]
    bs = gen.boreholes(f)
    fld = bs if r.random() < 0.6 else gt.borefield.Borefield.from_boreholes(bs)
    got = gt.boreholes.find_duplicates(fld)
    info = dict(n=n, rmax=rmax)
    mon.check('pairs', sorted(tuple(sorted(p)) for p in got) == want, got=got[:20], want=want[:20], **info)
    mon.check('pairs.order', all(p[0] < p[1] for p in got) and len(set(got)) == len(got), got=got[:20])
    mon.state(kind, n, len(want))
    new = list(gt.boreholes.remove_duplicates(fld))

    def key(b):
        return (b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation)
    ko, kn = [key(b) for b in bs], [key(b) for b in new]
    it = iter(range(n))
    idx = []
    for k in kn:            # order-preserving subset
        for i in it:
            if ko[i] == k:
                idx.append(i)
                break
    mon.check('removed.kept-unchanged', len(idx) == len(kn), **info)
    mon.check('removed.no-duplicates', not any(d[i, j] < rmax for i, j in itertools.combinations(idx, 2)), idx=idx, **info)
    mon.check('removed.each-covered', all(i in idx or any(d[i, j] < rmax for j in range(n) if j != i) for i in range(n)), idx=idx, **info)
    if not want:
        mon.check('untouched', kn == ko, **info)
    if n > 1:
        mon.check('first-kept', 0 in idx, idx=idx, **info)
    if new:
        mon.check('removed.no-duplicates', len(new) < 2 or gt.boreholes.find_duplicates(new) == [], **info)
