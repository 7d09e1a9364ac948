"""C02: structural laws of the line source responses."""
import numpy as np

from vp import gen, ref

RULE = ('Random pairs of vertical and inclined boreholes, random splits of source and/or receiver, increasing time '
        'sequences over 8 decades; laws are checked between the calls themselves. Distinct by (kind, geometry '
        'class, law).')
ORACLES = ['reciprocity', 'real+image', 'additive.receiver', 'additive.source', 'positive', 'monotone.time',
           'limit.steady', 'monotone.distance', 'own-wall-largest', 'image.negative', 'array=scalar']
ASSUMPTIONS = ['inclined responses are evaluated with M=121 quadrature points so that quadrature error is below tolerance']


def cases(r, tier):
    n = 160 if tier == 'quick' else 2500
    return ([dict(kind='vertical', i=i) for i in range(2 * n)] + [dict(kind='inclined', i=i) for i in range(n)]
            + [dict(kind='inclined_own', i=i) for i in range(n // 4)])


def split(r, b):
    """Cut [H, D, rb, x, y, tilt, o] into consecutive parts along its axis."""
    k = int(r.integers(2, 5))
    f = np.array(gen.ratios(r, k, 'random'))
    parts, s = [], 0.
    H, D, rb, x, y, t, o = b
    for q in f:
        parts.append([H * q, D + s * np.cos(t), rb, x + s * np.sin(t) * np.cos(o), y + s * np.sin(t) * np.sin(o), t, o])
        s += H * q
    return parts


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    kind = case['kind']
    FLS = gt.heat_transfer.finite_line_source
    alpha = float(10**r.uniform(-6.4, -5.7))
    H1, H2 = (float(v) for v in np.round(r.uniform(10., 200., 2), 2))
    D1, D2 = (float(v) for v in np.round(r.uniform(0.2, 10., 2), 2))
    rb = float(np.round(r.uniform(0.04, 0.12), 4))
    if r.random() < 0.4:
        H2, D2 = H1, D1
    kw = {}
    own = False
    if kind == 'vertical':
        if r.random() < 0.2:
            D1 = 0.
        own = r.random() < 0.3
        a = r.uniform(0, 2 * np.pi)
        d = 0. if own else float(10**r.uniform(-0.3, 1.8))
        p1 = [H1, D1, rb, 0., 0., 0., 0.]
        p2 = [H2, D2, rb, d * np.cos(a), d * np.sin(a), 0., 0.]
        if own:
            p2 = list(p1)
            H2, D2 = H1, D1
        tol = dict(rtol=3e-6, atol=3e-8)
    else:
        kw = dict(M=121)
        for _ in range(200):
            t1, t2 = (float(v) for v in r.uniform(0., 0.6, 2))
            o1, o2 = (float(v) for v in r.uniform(-np.pi, np.pi, 2))
            d = float(r.uniform(3., 30.))
            a = r.uniform(0, 2 * np.pi)
            if r.random() < 0.2:
                t1 = 0.
            if r.random() < 0.2:
                t2, o2 = t1, o1
            p1 = [H1, D1, rb, 0., 0., t1, o1]
            p2 = [H2, D2, rb, d * np.cos(a), d * np.sin(a), t2, o2]
            if gen.min_gap([p1, p2]) > 1.5 and (t1 > 0.01 or t2 > 0.01):
                break
        own = kind == 'inclined_own'
        if own:
            p1 = [H1, D1, rb, 0., 0., max(t1, 0.05), o1]
            p2 = list(p1)
            H2, D2 = H1, D1
        tol = dict(rtol=2e-5, atol=2e-7)
    b1, b2 = gen.boreholes([p1])[0], gen.boreholes([p2])[0]
    info = dict(p1=p1, p2=p2, alpha=alpha)
    # the closed form at steady state rounds in q + sqrt(q**2 + d**2) where q is negative
    wr = 5e-16 * max(D1 + H1 - D2, D2 + H2 - D1)**3 / (max(d, rb)**2 * min(H1, H2)) if kind == 'vertical' else 0.
    scale_d = max(d, 1.)
    tt = np.sort(np.unique(np.concatenate([10**r.uniform(4, 10.5, 5), [scale_d**2 / alpha * 0.2]])))
    h = FLS(tt, alpha, b1, b2, **kw)
    hs = FLS(np.inf, alpha, b1, b2, **kw)
    own_t = 'own' if own else 'pair'
    mon.state(kind, own_t, 'eq' if H1 == H2 and D1 == D2 else 'ne', round(float(tt[0]), -5) < 1e6)
    # reciprocity
    hr = FLS(tt, alpha, b2, b1, **kw)
    mon.close('reciprocity', hr * H1, h * H2, rtol=tol['rtol'], atol=tol['atol'] * 200, **info)
    mon.close('reciprocity', FLS(np.inf, alpha, b2, b1, **kw) * H1, hs * H2, rtol=tol['rtol'], atol=tol['atol'] * 200 + wr * H2, **info)
    # parts
    re = FLS(tt, alpha, b1, b2, imgSource=False, **kw)
    im = FLS(tt, alpha, b1, b2, reaSource=False, **kw)
    if kind == 'inclined_own' and not np.allclose(re + im, h, rtol=tol['rtol'], atol=tol['atol']):
        # recorded deviation: the image part alone leaves out the radius (C04 in known_findings.txt)
        a1 = (p1[2], p1[3], p1[4], p1[0], p1[1], p1[5], p1[6]) + (p1[3], p1[4], p1[0], p1[1], p1[5], p1[6])
        im = im + [ref.fls_inclined(float(v), alpha, *a1, real=False)
                   - ref.fls_inclined(float(v), alpha, *a1, real=False, own_image=False) for v in tt]
    mon.close('real+image', re + im, h, **tol, **info)
    mon.close('real+image', FLS(np.inf, alpha, b1, b2, imgSource=False, **kw) + FLS(np.inf, alpha, b1, b2, reaSource=False, **kw),
              hs, rtol=tol['rtol'], atol=tol['atol'] + 2. * wr, **info)
    mon.check('image.negative', np.all(im <= 1e-9), im=im, **info)
    # growth
    eps = 1e-7 + 1e-6 * np.max(np.abs(h))
    mon.check('positive', np.all(h >= -eps), h=h, **info)
    mon.check('monotone.time', np.all(np.diff(h) >= -eps), h=h, t=tt, **info)
    mon.check('monotone.time', np.all(h <= hs + 10 * eps), h=h, hs=hs, **info)
    L = 2 * (H1 + H2 + D1 + D2 + d)
    tl = 1e5 * L**2 / alpha
    mon.close('limit.steady', FLS(float(tl), alpha, b1, b2, **kw), hs, rtol=1e-4, atol=1e-5, **info)
    # array form equals scalar evaluations
    k = int(r.integers(len(tt)))
    mon.close('array=scalar', h[k], FLS(float(tt[k]), alpha, b1, b2, **kw), **tol, **info)
    # additivity
    if not (own and kind != 'vertical'):
        tk = np.array([tt[-3], tt[-1]])
        hk = np.array([h[-3], h[-1]])
        ps = split(r, p2)
        got = sum(q[0] * FLS(tk, alpha, b1, gen.boreholes([q])[0], **kw) for q in ps) / H2
        mon.close('additive.receiver', got, hk, **tol, cut=[q[0] for q in ps], **info)
        ps = split(r, p1)
        got = sum(FLS(tk, alpha, gen.boreholes([q])[0], b2, **kw) for q in ps)
        mon.close('additive.source', got, hk, rtol=tol['rtol'], atol=5 * tol['atol'], cut=[q[0] for q in ps], **info)
        got = sum(q[0] * FLS(np.inf, alpha, b1, gen.boreholes([q])[0], **kw) for q in split(r, p2)) / H2
        mon.close('additive.receiver', got, hs, rtol=tol['rtol'], atol=2e-7 + 3. * wr, steady=True, **info)
    if kind == 'vertical':
        # distance
        ds = np.sort(10**r.uniform(-0.5, 2, 4))
        bb = [gt.boreholes.Borehole(H2, D2, rb, float(v), 0.) for v in ds]
        b0 = gt.boreholes.Borehole(H1, D1, rb, 0., 0.)
        t = float(tt[int(r.integers(2, len(tt)))])
        hd = np.array([FLS(t, alpha, b0, q) for q in bb])
        mon.check('monotone.distance', np.all(np.diff(hd) <= 1e-7), h=hd, d=ds, t=t, **info)
        twin = gt.boreholes.Borehole(H1, D1, rb, float(ds[0]), 0.)
        mon.check('own-wall-largest', FLS(t, alpha, b0, twin) <= FLS(t, alpha, b0, b0) + 1e-7, t=t, d=ds[0], **info)
