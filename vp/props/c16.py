"""C16: time grids, aggregation cells and segment ratios."""
import warnings

import numpy as np

from vp import gen

RULE = ('Random requests to every time grid generator and to segment_ratios (1..120 segments, end length ratios '
        'from 1e-4 to 0.49 including near-uniform ones), load aggregation cell times. Distinct by (generator, size '
        'class).')
ORACLES = ['increasing', 'first', 'last', 'pattern', 'cells', 'ratios.sum', 'ratios.positive', 'ratios.symmetric',
           'ratios.end', 'ratios.monotone', 'ratios.uniform', 'ratios.refused', 'ratios.count', 'cardinal']
ASSUMPTIONS = []


def cases(r, tier):
    n = 120 if tier == 'quick' else 3000
    out = [dict(kind=k, i=i) for k in ('claesson', 'marcotte', 'geometric', 'cells') for i in range(n)]
    out += [dict(kind='ratios', i=i) for i in range(3 * n)]
    out += [dict(kind='near_uniform', i=i) for i in range(n)]
    out += [dict(kind='geometric_near', i=i) for i in range(n)]
    return out


def base(mon, t, dt_, tmax_, cover=True, **info):
    t = np.asarray(t)
    mon.check('increasing', t.ndim == 1 and len(t) > 0 and np.all(np.isfinite(t)) and t[0] > 0 and np.all(np.diff(t) > 0), t=t, **info)
    if cover:
        mon.check('last', t[-1] >= tmax_ * (1 - 1e-12), t=t[-3:], **info)
        if len(t) > 1:
            mon.check('last', t[-2] < tmax_ * (1 + 1e-12), t=t[-3:], **info)


def geometric(dt, tmax, Nt):
    """sum_k dt r^k = tmax solved by bisection on log(r)."""
    k = np.arange(Nt)
    lo, hi = 0., np.log(max(2., tmax / dt))
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        with np.errstate(over='ignore'):
            big = np.sum(np.exp(mid * k)) * dt > tmax
        lo, hi = (lo, mid) if big else (mid, hi)
    return dt * np.cumsum(np.exp(0.5 * (lo + hi) * k))


def run(case, mon):
    import pygfunction as gt
    u = gt.utilities
    r = gen.rng(case)
    kind = case['kind']
    dt = float(gen.pick(r, [3600., 900., float(10**r.uniform(0, 6)), 1.]))
    if kind == 'claesson':
        cpl = int(gen.pick(r, [1, 2, 3, 5, 7, 12]))
        tmax = dt * float(gen.pick(r, [0.5, 1., 1.5, 5., 24., 8760., 10**r.uniform(0, 7)]))
        t = u.time_ClaessonJaved(dt, tmax, cells_per_level=cpl) if cpl != 5 else u.time_ClaessonJaved(dt, tmax)
        info = dict(dt=dt, tmax=tmax, cpl=cpl)
        base(mon, t, dt, tmax, **info)
        mon.close('first', t[0], dt, rtol=1e-12, **info)
        w = np.diff(np.concatenate(([0.], t))) / dt
        mon.close('pattern', w, 2.**(np.arange(len(t)) // cpl), rtol=1e-7, scale=w[0] if len(w) < 3 else None, **info)
        mon.state(kind, cpl, len(t) // 10)
    elif kind == 'marcotte':
        ne = int(gen.pick(r, [1, 2, 12, 48, 100]))
        tmax = dt * float(gen.pick(r, [0.5, 1., 3., 47., 48., 49., 8760., 10**r.uniform(0, 6)]))
        t = u.time_MarcottePasquier(dt, tmax, non_expanding_cells=ne) if ne != 48 else u.time_MarcottePasquier(dt, tmax)
        info = dict(dt=dt, tmax=tmax, ne=ne)
        base(mon, t, dt, tmax, **info)
        mon.close('first', t[0], dt, rtol=1e-12, **info)
        w = np.diff(np.concatenate(([0.], t))) / dt
        k = np.arange(len(t))
        mon.close('pattern', w / np.where(k < ne, 1., 2.**(k - ne + 1.)), np.ones(len(t)), rtol=1e-6, **info)
        mon.state(kind, ne, len(t) // 10)
    elif kind in ('geometric', 'geometric_near'):
        Nt = int(gen.pick(r, [1, 2, 5, 10, 25, 52, 100, 200, 1000]))
        f = float(gen.pick(r, [0.5, 1., 1.2, 2., 10., 10**r.uniform(0, 6)]))
        if kind == 'geometric_near':
            f = 1. + float(10**r.uniform(-9, -0.5))
        if Nt == 1:
            f = min(f, 1.)
        tmax = f * Nt * dt
        t = u.time_geometric(dt, tmax, Nt)
        info = dict(dt=dt, tmax=tmax, Nt=Nt, f=f)
        mon.check('increasing', len(t) == Nt and np.all(np.isfinite(t)) and t[0] > 0 and np.all(np.diff(t) > 0), t=t[-4:], n=len(t), **info)
        mon.check('last', t[-1] >= tmax * (1 - 1e-9), t=t[-1], **info)
        if f >= 1.:
            mon.close('last', t[-1], tmax, rtol=1e-9, **info)
        if Nt > 1:
            mon.close('first', t[0], dt, rtol=1e-8, **info)
        w = np.diff(np.concatenate(([0.], t)))
        if f <= 1.:
            mon.close('pattern', w, np.full(Nt, dt), rtol=1e-7, **info)
        elif Nt > 1:                # documented geometric expansion, up to the convergence of the code's iteration
            mon.close('pattern', t, geometric(dt, tmax, Nt), rtol=1e-3, **info)
            if f > 1.05:
                q = w[1:] / w[:-1]
                mon.close('pattern', q[:-1], np.full(Nt - 2, np.median(q)), rtol=1e-6, **info)
        mon.state(kind, Nt, int(np.log10(f) * 2))
    elif kind == 'cells':
        from pygfunction import load_aggregation as la
        tmax = dt * float(gen.pick(r, [1., 2.5, 10., 48., 200., 1000., 5000.]))
        cpl = int(gen.pick(r, [2, 5, 10]))
        a = la.ClaessonJaved(dt, tmax, cells_per_level=cpl)
        t = np.asarray(a.get_times_for_simulation())
        base(mon, t, dt, tmax, dt=dt, tmax=tmax)
        w = np.diff(np.concatenate(([0.], t))) / dt
        mon.close('cells', w, 2.**(np.arange(len(t)) // cpl), rtol=1e-9, cpl=cpl)
        for cls in (la.MLAA, la.Liu):
            t = np.asarray(cls(dt, tmax).get_times_for_simulation())
            base(mon, t, dt, tmax, dt=dt, tmax=tmax, cls=cls.__name__)
            mon.close('cells', t, dt * np.arange(1, len(t) + 1), rtol=1e-12)
        mon.state(kind, cpl, len(t))
        dirs = ['E', 'ENE', 'NE', 'NNE', 'N', 'NNW', 'NW', 'WNW', 'W', 'WSW', 'SW', 'SSW', 'S', 'SSE', 'SE', 'ESE']
        k = int(r.integers(16))
        d = dirs[k] if r.random() < 0.5 else dirs[k].lower()
        mon.close('cardinal', u.cardinal_point(d), k * np.pi / 8, rtol=1e-12, atol=1e-12)
        mon.raises('cardinal', lambda: u.cardinal_point(gen.pick(r, ['X', '', 'NNN', 'EE'])))
    else:
        n = int(gen.pick(r, [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 21, 24, 33, 48, 60, 64, 100, 101]))
        e = float(gen.pick(r, [0.02, 0.01, 0.05, 10**r.uniform(-4, np.log10(0.49)), 0.9 / n if n > 2 else 0.02, 1.3 / n if n > 2 else 0.02]))
        if kind == 'near_uniform':
            n = int(gen.pick(r, [4, 5, 6, 7, 8, 9, 12, 13, 20, 31, 50]))
            e = (1. + float(gen.pick(r, [-1, 1])) * float(10**r.uniform(-9, -2))) / n
        e = min(e, 0.49)
        if n % 2 == 0 and n > 2 and e * 2 >= 0.999:
            e = 0.45
        info = dict(n=n, e=e)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            v = mon.accepts('ratios.count', lambda: np.asarray(u.segment_ratios(n, e) if e != 0.02 else u.segment_ratios(n)), **info)
        if v is None:
            return
        mon.check('ratios.count', v.shape == (n,), shape=v.shape, **info)
        mon.check('ratios.positive', np.all(v > 0), v=v, **info)
        mon.close('ratios.sum', np.sum(v), 1., rtol=2e-6, **info)
        mon.close('ratios.symmetric', v, v[::-1], rtol=1e-9, **info)
        if n > 2:
            mon.close('ratios.end', [v[0], v[-1]], [e, e], rtol=2e-6, **info)
            h = v[:(n + 1) // 2]
            inc, dec = np.all(np.diff(h) >= -1e-9), np.all(np.diff(h) <= 1e-9)
            if e * n < 1. - 1e-5:
                mon.check('ratios.monotone', inc, v=v, **info)
            elif e * n > 1. + 1e-5:
                mon.check('ratios.monotone', dec, v=v, **info)
            if len(h) > 2:          # constant expansion ratio
                q = h[1:] / h[:-1]
                mon.close('ratios.monotone', q, np.full(len(q), q[0]), rtol=1e-5, note='constant ratio', **info)
        if abs(e * n - 1) < 1e-7:
            mon.close('ratios.uniform', v, np.full(n, 1. / n), rtol=1e-5, **info)
        w = u.segment_ratios(8, 0.125)
        mon.close('ratios.uniform', w, np.full(8, 0.125), rtol=1e-12)
        bad = gen.pick(r, [(0, 0.02), (-3, 0.02), (5, 0.), (5, 0.5), (5, -0.1), (5, 0.7), (4, 1.), (6, 0.51)])
        mon.raises('ratios.refused', lambda: u.segment_ratios(*bad), bad=bad)
        mon.state(kind, n, int(np.log10(e) * 3), e * n < 1)
