"""C01: line source response == direct double integration of point sources."""
import math

import numpy as np

from vp import gen, ref

RULE = ('Random and adversarial pairs of vertical boreholes (own wall, near, far, overlapping, disjoint in depth, '
        'very short/long) and times from minutes to infinity; each is evaluated in every call form. A case is '
        'non-trivial/distinct by (geometry class, time class, call form, parts selected).')
ORACLES = ['value.scalar', 'value.list', 'value.array', 'value.steady', 'value.vectorized', 'value.equivalent',
           'value.real', 'value.image', 'value.none', 'form.borefield', 'form.unsorted', 'form.inf', 'form.ratios']
ASSUMPTIONS = ['erfc(r/sqrt(4 alpha t))/(4 pi k r) is the temperature of a continuous point source; '
               'quadrature accuracy of the reference is ~1e-12']


def cases(r, tier):
    n = 500 if tier == 'quick' else 6000
    out = [dict(kind='pair', i=i) for i in range(n)]
    out += [dict(kind='dense', i=i) for i in range(n // 5)]
    out += [dict(kind='matrix', i=i) for i in range(n // 5)]
    out += [dict(kind='ratios', i=i) for i in range(n // 10)]
    out += [dict(kind='vectorized', i=i) for i in range(n // 5)]
    out += [dict(kind='equivalent', i=i) for i in range(n // 5)]
    return out


def geometry(r):
    cls = gen.pick(r, ['equal', 'equal', 'mixed', 'mixed', 'stacked', 'short_long', 'surface'])
    H1, H2 = (float(v) for v in np.round(10**r.uniform(0.7, 2.5, 2), 3))
    D1, D2 = (float(v) for v in np.round(r.uniform(0., 10., 2), 3))
    if cls == 'equal':
        H2, D2 = H1, D1
    elif cls == 'stacked':          # segments of one borehole: touching or apart
        D2 = D1 + H1 + gen.pick(r, [0., 0., float(r.uniform(0, 30.))])
        if r.random() < 0.5:
            H1, D1, H2, D2 = H2, D2, H1, D1
    elif cls == 'short_long':
        H1, H2 = gen.pick(r, [(2., 300.), (300., 2.)])
    elif cls == 'surface':
        D1, D2 = gen.pick(r, [(0., 0.), (0., D2), (D1, 0.)])
    rb = float(np.round(r.uniform(0.03, 0.15), 4))
    d = gen.pick(r, [rb, float(10**r.uniform(-0.3, 0.8)), float(10**r.uniform(0.5, 2.)), rb * 1.2])
    return cls, H1, D1, H2, D2, rb, d


def tval(r):
    cls = gen.pick(r, ['hour', 'day', 'year', 'long'])
    lo, hi = dict(hour=(2.5, 4.5), day=(4.5, 6.5), year=(6.5, 8.5), long=(8.5, 11.))[cls]
    return cls, float(10**r.uniform(lo, hi))


TOL = dict(rtol=2e-6, atol=1e-8)
# The vectorized quadrature controls a purely relative error: on integrals that
# are zero to rounding it subdivides for minutes, so those are asked of the
# scalar form only.
BIG = 1e-5


def run(case, mon):
    import pygfunction as gt
    ht = gt.heat_transfer
    B = gt.boreholes.Borehole
    r = gen.rng(case)
    alpha = float(10**r.uniform(-6.5, -5.6))
    if case['kind'] == 'pair':
        cls, H1, D1, H2, D2, rb, d = geometry(r)
        tc, t = tval(r)
        ang = r.uniform(0, 2 * np.pi)
        own = d <= rb
        x0, y0 = r.uniform(-50, 50, 2)
        b1 = B(H1, D1, rb, x0, y0)
        b2 = B(H2, D2, rb, x0 + (0. if own else d * np.cos(ang)), y0 + (0. if own else d * np.sin(ang)))
        # the closed form at steady state rounds in q + sqrt(q**2 + d**2) where q is negative
        Q = max(0., D1 + H1 - D2, D1 - D2)
        ss = dict(rtol=2e-6, atol=2e-7 + 5e-16 * Q**3 / (d**2 * H2))
        info = dict(geom=[H1, D1, H2, D2, rb, d], t=t, alpha=alpha)
        parts = [(True, True), (True, False), (False, True), (False, False)]
        for k, (re, im) in enumerate(parts):
            want = ref.fls(t, alpha, d, H1, D1, H2, D2, re, im) if (re or im) else 0.
            name = ['value.scalar', 'value.real', 'value.image', 'value.none'][k]
            h = ht.finite_line_source(t, alpha, b1, b2, reaSource=re, imgSource=im)
            mon.close(name, h, want, **TOL, **info)
            hs = ht.finite_line_source(np.inf, alpha, b1, b2, reaSource=re, imgSource=im)
            wi = ref.fls(np.inf, alpha, d, H1, D1, H2, D2, re, im) if (re or im) else 0.
            mon.close('value.steady', hs, wi, **ss, part=[re, im], **info)
            if abs(want) > BIG or k == 3:
                hl = ht.finite_line_source(t, alpha, [b1], [b2], reaSource=re, imgSource=im)
                mon.close('value.list', hl, [[want]], **TOL, part=[re, im], **info)
            hl = ht.finite_line_source(np.inf, alpha, [b1], [b2], reaSource=re, imgSource=im)
            mon.close('value.list', hl, [[wi]], **ss, part=[re, im], steady=True, **info)
            mon.state(cls, tc, 'own' if own else 'near' if d < 3 else 'far', re, im)
        tt = np.sort(np.array([t, t * 1.7, t * 9., t * 0.4, t * 60.]))
        want = [ref.fls(v, alpha, d, H1, D1, H2, D2) for v in tt]
        mon.close('value.array', ht.finite_line_source(tt, alpha, b1, b2), want, **TOL, **info)
        if want[0] > BIG and min(np.diff(want)) > BIG:
            mon.close('value.array', ht.finite_line_source(tt, alpha, [b1], b2)[0, 0], want, form='list', **TOL, **info)
        p = r.permutation(len(tt))
        mon.close('form.unsorted', ht.finite_line_source(tt[p], alpha, b1, b2), np.array(want)[p], **TOL, **info)
        mon.close('form.inf', ht.finite_line_source(float('inf'), alpha, b1, b2),
                  ref.fls(np.inf, alpha, d, H1, D1, H2, D2), rtol=1e-5, atol=1e-7, **info)
        for v in (float('inf'), np.float64('inf'), math.inf * 1.):
            for ap in (False, True):
                x = ht.finite_line_source(v, alpha, b1, b2, approximation=ap)
                mon.close('form.inf', x, ref.fls(np.inf, alpha, d, H1, D1, H2, D2), rtol=1e-5, atol=ss['atol'], approximation=ap, **info)
                x = ht.finite_line_source(v, alpha, [b1], [b2], approximation=ap)[0, 0]
                mon.close('form.inf', x, ref.fls(np.inf, alpha, d, H1, D1, H2, D2), rtol=1e-5, atol=ss['atol'], form='list', approximation=ap, **info)
        mon.close('value.scalar', ht.finite_line_source(np.float64(t), alpha, b1, b2), ref.fls(t, alpha, d, H1, D1, H2, D2), **TOL, **info)
    elif case['kind'] == 'dense':
        # many times, each by itself: isolated failures of a quadrature
        cls, H1, D1, H2, D2, rb, d = geometry(r)
        if r.random() < 0.3:
            d = float(10**r.uniform(0.5, 3.))
        re, im = gen.pick(r, [(True, True), (True, False)])
        b1, b2 = B(H1, D1, rb, 0., 0.), B(H2, D2, rb, 0. if d <= rb else d, 0.)
        tt = 10**r.uniform(3., 11., 60)
        h = [ht.finite_line_source(float(v), alpha, b1, b2, reaSource=re, imgSource=im) for v in tt]
        want = [ref.fls(v, alpha, d, H1, D1, H2, D2, re, im) for v in tt]
        mon.close('value.scalar', h, want, **TOL, geom=[H1, D1, H2, D2, rb, d], tt=tt, alpha=alpha, parts=[re, im])
        mon.state('dense', cls, int(np.log10(d)), re, im)
    elif case['kind'] == 'ratios':
        # times many orders of magnitude apart, boreholes up to kilometers away
        cls, H1, D1, H2, D2, rb, d = geometry(r)
        if r.random() < 0.6:
            d = float(10**r.uniform(0.5, 3.5))
        n = int(r.integers(2, 6))
        tt = 10**r.uniform(gen.pick(r, [1., 4., 7.]), 12., n)
        if r.random() < 0.7:
            tt = np.sort(tt)
        if d < 100. and r.random() < 0.2:
            tt[int(r.integers(n))] = np.inf
        re, im = gen.pick(r, [(True, True), (True, True), (True, False), (False, True)])
        k = dict(reaSource=re, imgSource=im)
        want = np.array([ref.fls(v, alpha, d, H1, D1, H2, D2, re, im) for v in tt])
        b1, b2 = B(H1, D1, rb, 0., 0.), B(H2, D2, rb, 0. if d <= rb else d, 0.)
        info = dict(geom=[H1, D1, H2, D2, rb, d], tt=tt, alpha=alpha, parts=[re, im])
        mon.close('form.ratios', ht.finite_line_source(tt, alpha, b1, b2, **k), want, form='pair', **TOL, **info)
        mon.close('form.ratios', ht.finite_line_source(tt, alpha, [b1], [b2], **k)[0, 0], want, form='list', **TOL, **info)
        d3 = np.array([d, 5. * d, 0.7 * d + 0.1])
        w3 = np.array([[ref.fls(v, alpha, q, H1, D1, H2, D2, re, im) for v in tt] for q in d3])
        h = ht.finite_line_source_vectorized(tt, alpha, d3, *[np.full(3, v) for v in (H1, D1, H2, D2)], **k)
        mon.close('form.ratios', h, w3, form='vectorized', **TOL, **info)
        w = np.array([[1], [3], [2]], dtype=np.uint)
        o = np.argsort(d3)
        h = ht.finite_line_source_equivalent_boreholes_vectorized(
            tt, alpha, d3[o].reshape(1, -1), w, *[np.array([[v]]) for v in (H1, D1, H2, D2)], np.array([[2]]), **k)
        mon.close('form.ratios', h[0, 0], w[:, 0].astype(float) @ w3[o] / 2., form='equivalent', **TOL, **info)
        mon.state('ratios', cls, n, int(np.log10(d)), int(np.log10(max(tt[np.isfinite(tt)]) / min(tt))) if np.isfinite(tt).any() else -1, re, im)
    elif case['kind'] == 'matrix':
        f1 = gen.field(r, gen.pick(r, ['mixed_all', 'rect', 'interleaved', 'pair']), 4)
        f2 = gen.pick(r, [f1, gen.field(r, 'mixed_all', 3)])
        tc, t = tval(r)
        t = max(t, 1e5)
        tt = np.array([t, 3. * t, 20. * t])
        bs1, bs2 = gen.boreholes(f1), gen.boreholes(f2)
        want = np.empty((len(f2), len(f1), 3))
        wss = np.empty((len(f2), len(f1)))
        for j, q in enumerate(f2):
            for i, p in enumerate(f1):
                d = max(float(np.hypot(p[3] - q[3], p[4] - q[4])), p[2])
                want[j, i] = [ref.fls(v, alpha, d, p[0], p[1], q[0], q[1]) for v in tt]
                wss[j, i] = ref.fls(np.inf, alpha, d, p[0], p[1], q[0], q[1])
        h = ht.finite_line_source(tt, alpha, bs1, bs2)
        mon.close('value.list', h, want, **TOL, shape=[len(f2), len(f1), 3], f1=f1, f2=f2)
        h1 = ht.finite_line_source(t, alpha, bs1, bs2)
        mon.close('value.list', h1, want[:, :, 0], **TOL, f1=f1, f2=f2)
        mon.close('value.steady', ht.finite_line_source(np.inf, alpha, bs1, bs2), wss, rtol=2e-6, atol=2e-7, f1=f1, f2=f2)
        F1, F2 = (gt.borefield.Borefield.from_boreholes(b) for b in (bs1, bs2))
        mon.close('form.borefield', ht.finite_line_source(tt, alpha, F1, F2), want, **TOL, f1=f1, f2=f2)
        mon.close('form.borefield', ht.finite_line_source(t, alpha, F1, bs2[0])[0], want[0, :, 0], **TOL, f1=f1, f2=f2)
        mon.state('matrix', len(f1), len(f2), tc)
    elif case['kind'] == 'vectorized':
        n = int(r.integers(1, 5))
        g = [geometry(r) for _ in range(n)]
        tc, t = tval(r)
        dis = np.array([v[6] for v in g])
        H1, D1, H2, D2 = (np.array([v[k] for v in g]) for k in (1, 2, 3, 4))
        re, im = gen.pick(r, [(True, True), (True, False), (False, True)])
        while max(abs(ref.fls(t, alpha, dis[k], H1[k], D1[k], H2[k], D2[k], re, im)) for k in range(n)) < BIG:
            t *= 4.
        tt = np.array([t, 2. * t, 30. * t])
        want = np.array([[ref.fls(v, alpha, dis[k], H1[k], D1[k], H2[k], D2[k], re, im) for v in tt] for k in range(n)])
        h = ht.finite_line_source_vectorized(tt, alpha, dis, H1, D1, H2, D2, reaSource=re, imgSource=im)
        # arrays of pairs in one integral: error control is on the whole vector
        mon.close('value.vectorized', h, want, rtol=2e-6, atol=1e-6, dis=dis, H1=H1, D1=D1, H2=H2, D2=D2, t=t, parts=[re, im])
        o = r.permutation(np.arange(4) % 3)
        h = ht.finite_line_source_vectorized(tt[o], alpha, dis, H1, D1, H2, D2, reaSource=re, imgSource=im)
        mon.close('form.unsorted', h, want[:, o], rtol=2e-6, atol=1e-6, dis=dis, H1=H1, D1=D1, H2=H2, D2=D2, t=tt[o], parts=[re, im])
        h = ht.finite_line_source_vectorized(t, alpha, dis, H1, D1, H2, D2, reaSource=re, imgSource=im)
        mon.close('value.vectorized', h, want[:, 0], rtol=2e-6, atol=1e-6, dis=dis, H1=H1, D1=D1, H2=H2, D2=D2, t=t, parts=[re, im])
        # outer product form used by the solvers
        dcol = dis.reshape(-1, 1)
        rows = [a.reshape(1, -1) for a in (H1, D1, H2, D2)]
        h = ht.finite_line_source_vectorized(tt, alpha, dcol, *rows, reaSource=re, imgSource=im)
        w = np.array([[[ref.fls(v, alpha, dk, H1[k], D1[k], H2[k], D2[k], re, im) for v in tt] for k in range(n)] for dk in dis])
        mon.close('value.vectorized', h, w, rtol=2e-6, atol=1e-6, form='outer')
        mon.state('vec', n, tc, re, im)
    else:                               # groups of boreholes with weighted distances
        nd, npair, ns = (int(r.integers(1, 4)) for _ in range(3))
        dis = np.sort(10**r.uniform(-0.5, 1.5, nd)).reshape(1, -1)
        w = r.integers(0, 5, (nd, npair)).astype(np.uint)
        w[0] += 1
        H1, H2 = (np.round(r.uniform(5, 150, (1, ns)), 2) for _ in range(2))
        D1, D2 = (np.round(r.uniform(0, 60, (1, ns)), 2) for _ in range(2))
        N2 = r.integers(1, 6, (npair, 1))
        tc, t = tval(r)
        t = max(t, 3e6)
        tt = np.array([t, 2.5 * t, 40 * t])
        re, im = gen.pick(r, [(True, True), (True, True), (True, False), (False, True)])
        while max(abs(ref.fls(t, alpha, dis[0, 0], H1[0, s], D1[0, s], H2[0, s], D2[0, s], re, im)) for s in range(ns)) < BIG:
            t *= 4.
        tt = np.array([t, 2.5 * t, 40 * t])
        want = np.zeros((npair, ns, 3))
        for p in range(npair):
            for s in range(ns):
                for k, v in enumerate(tt):
                    want[p, s, k] = sum(int(w[m, p]) * ref.fls(v, alpha, dis[0, m], H1[0, s], D1[0, s], H2[0, s], D2[0, s], re, im)
                                        for m in range(nd)) / N2[p, 0]
        h = ht.finite_line_source_equivalent_boreholes_vectorized(
            tt, alpha, dis, w, H1, D1, H2, D2, N2, reaSource=re, imgSource=im)
        mon.close('value.equivalent', h, want, rtol=2e-6, atol=1e-6, parts=[re, im], t=t)
        o = r.permutation(np.arange(4) % 3)     # any order, one of the times repeated
        h = ht.finite_line_source_equivalent_boreholes_vectorized(
            tt[o], alpha, dis, w, H1, D1, H2, D2, N2, reaSource=re, imgSource=im)
        mon.close('form.unsorted', h, want[..., o], rtol=2e-6, atol=1e-6, parts=[re, im], t=tt[o])
        h = ht.finite_line_source_equivalent_boreholes_vectorized(
            t, alpha, dis, w, H1, D1, H2, D2, N2, reaSource=re, imgSource=im)
        mon.close('value.equivalent', h, want[:, :, 0], rtol=2e-6, atol=1e-6, parts=[re, im], t=t)
        mon.state('equiv', nd, npair, ns, tc, re, im)
