"""C05: segments partition their borehole."""
import numpy as np

from vp import gen

RULE = ('Random boreholes (vertical, nearly vertical, inclined), 1..40 segments, default/uniform/random/one-sided '
        'ratios given as array or list, single boreholes and groups represented together. Distinct by (tilt class, '
        'number of segments, ratio kind).')
ORACLES = ['lengths', 'start', 'end', 'radius', 'direction', 'edges', 'midpoints', 'count', 'group.members', 'group.geometry',
           'default-uniform', 'distance', 'unique-distance']
ASSUMPTIONS = []


def cases(r, tier):
    n = 150 if tier == 'quick' else 4000
    return [dict(kind=k, i=i) for k in ('vertical', 'inclined', 'almost_vertical', 'group') for i in range(n)]


def dirv(tilt, o):
    return np.array([np.sin(tilt) * np.cos(o), np.sin(tilt) * np.sin(o), np.cos(tilt)])


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    kind = case['kind']
    tilt, o = 0., float(r.uniform(-7, 7))
    if kind in ('inclined', 'group') and (kind == 'inclined' or r.random() < 0.6):
        tilt = float(r.uniform(-1.5, 1.5))
    elif kind == 'almost_vertical':
        tilt = float(gen.pick(r, [1e-7, -5e-7, 9e-7, 2e-6, -1e-5]))
    H, D, rb = float(10**r.uniform(0., 2.6)), float(r.uniform(0., 20.)), float(r.uniform(0.03, 0.2))
    n = int(gen.pick(r, [1, 2, 3, 4, 5, 8, 12, 27, 40]))
    rk = gen.pick(r, ['default', 'uniform', 'sym', 'random', 'onesided'])
    ratios = None if rk == 'default' else np.array(gen.ratios(r, n, rk))
    want = np.full(n, 1. / n) if ratios is None else ratios
    z = np.concatenate(([0.], np.cumsum(want))) * H
    mon.state(kind, n, rk, tilt == 0.)
    tol = dict(rtol=0., atol=1e-9 * (H + 200.))
    if kind != 'group':
        b = gt.boreholes.Borehole(H, D, rb, float(r.uniform(-80, 80)), float(r.uniform(-80, 80)), tilt=tilt, orientation=o)
        e = dirv(b.tilt, b.orientation)
        if abs(tilt) > 1e-6:
            mon.close('direction', dirv(b.tilt, b.orientation), dirv(tilt, o), **tol)
            mon.check('direction', b.is_tilted() and not b.is_vertical())
        else:
            mon.check('direction', b.is_vertical() and not b.is_tilted() and abs(b.tilt) <= 1e-6)
        given = ratios if ratios is None or r.random() < 0.7 else list(ratios)
        segs = b.segments(n, segment_ratios=given) if rk != 'default' else b.segments(n)
        mon.check('count', len(segs) == n, got=len(segs), n=n)
        p0 = np.array([b.x, b.y, b.D])
        mon.close('lengths', [s.H for s in segs], want * H, rtol=1e-12)
        mon.close('lengths', sum(s.H for s in segs), H, rtol=1e-12)
        for k, s in enumerate(segs):
            p = np.array([s.x, s.y, s.D])
            mon.close('start', p, p0 + z[k] * e, **tol, k=k, tilt=tilt, o=o)
            mon.close('end', p + s.H * dirv(s.tilt, s.orientation), p0 + z[k + 1] * e, **tol, k=k, tilt=tilt, o=o)
            mon.check('radius', s.r_b == b.r_b and isinstance(s, gt.boreholes.Borehole))
            mon.close('direction', dirv(s.tilt, s.orientation), e, **tol)
            mon.check('direction', s.is_tilted() == b.is_tilted())
        mon.close('edges', b._segment_edges(n, segment_ratios=ratios), z, **tol)
        mon.close('midpoints', b._segment_midpoints(n, segment_ratios=ratios), 0.5 * (z[1:] + z[:-1]), **tol)
        if rk == 'default':
            mon.close('default-uniform', [s.H for s in segs], np.full(n, H / n), rtol=1e-12)
        c = gt.boreholes.Borehole(H, D, rb, b.x + float(gen.pick(r, [0., 0.5 * rb, 3., -20.])), b.y + float(gen.pick(r, [0., 1e-3, 7.])))
        mon.close('distance', b.distance(c), max(rb, np.hypot(b.x - c.x, b.y - c.y)), rtol=1e-12)
        mon.check('distance', tuple(b.position()) == (b.x, b.y))
    else:
        m = int(r.integers(1, 8))
        xs, ys = r.uniform(-50, 50, m), r.uniform(-50, 50, m)
        os_ = r.uniform(-3, 3, m) if tilt else np.zeros(m)
        bs = [gt.boreholes.Borehole(H, D, rb, float(x), float(y), tilt=tilt, orientation=float(q)) for x, y, q in zip(xs, ys, os_)]
        E = gt.boreholes._EquivalentBorehole(bs)
        how = gen.pick(r, ['list', 'nested', 'tuple'])
        if how == 'nested' and m > 1:
            k = int(r.integers(1, m))
            E = gt.boreholes._EquivalentBorehole([gt.boreholes._EquivalentBorehole(bs[:k]), gt.boreholes._EquivalentBorehole(bs[k:])])
        elif how == 'tuple':
            E = gt.boreholes._EquivalentBorehole((H, D, rb, xs, ys, bs[0].tilt, np.array([b.orientation for b in bs])))
        mon.check('group.members', E.nBoreholes == m and np.array_equal(E.x, [b.x for b in bs]) and np.array_equal(E.y, [b.y for b in bs]))
        mon.check('group.members', E.H == H and E.D == D and E.r_b == rb and E.tilt == bs[0].tilt and E.is_vertical() == bs[0].is_vertical())
        segs = E.segments(n, segment_ratios=ratios)
        mon.check('count', len(segs) == n)
        mon.close('lengths', [s.H for s in segs], want * H, rtol=1e-12)
        each = [b.segments(n, segment_ratios=ratios) for b in bs]
        for k, s in enumerate(segs):
            for j in range(m):
                q = each[j][k]
                mon.close('group.geometry', [s.H, s.D, s.r_b, s.x[j], s.y[j]], [q.H, q.D, q.r_b, q.x, q.y], **tol, k=k, j=j)
                mon.close('group.geometry', dirv(s.tilt, np.atleast_1d(s.orientation)[j]), dirv(q.tilt, q.orientation), **tol)
        mon.close('edges', E._segment_edges(n, segment_ratios=ratios), z, **tol)
        mon.close('midpoints', E._segment_midpoints(n, segment_ratios=ratios), 0.5 * (z[1:] + z[:-1]), **tol)
        # distances between the members of two groups
        m2 = int(r.integers(1, 6))
        step = float(r.uniform(2, 8))
        grid = [(step * i, step * j) for i in range(3) for j in range(3)]
        pick2 = [grid[int(i)] for i in r.permutation(9)[:m2]]
        E2 = gt.boreholes._EquivalentBorehole([gt.boreholes.Borehole(H, D, rb, x, y) for x, y in pick2])
        dd = np.array([[max(rb, np.hypot(x1 - x2, y1 - y2)) for x1, y1 in zip(xs, ys)] for x2, y2 in pick2])
        mon.close('distance', E.distance(E2), dd, rtol=1e-12)
        for T, D_ in ((E2, dd), (E2, None)):
            S = E if D_ is not None else E2
            full = D_ if D_ is not None else np.array([[max(rb, np.hypot(a[0] - c[0], a[1] - c[1])) for a in pick2] for c in pick2])
            tolr = float(gen.pick(r, [0.01, 1e-6, 0.05]))
            u, w = S.unique_distance(T, disTol=tolr)
            mon.check('unique-distance', int(np.sum(w)) == full.size and np.all(np.diff(u) > 0), w=w, u=u)
            mon.close('unique-distance', np.sum(u * w), np.sum(full), rtol=1e-10)
            srt = np.sort(full.ravel())
            rep = np.repeat(u, w.astype(int))
            mon.check('unique-distance', np.all(np.abs(rep - srt) <= (tolr + 1e-12) * srt), got=rep, want=srt, tol=tolr)
