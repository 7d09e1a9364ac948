"""C04: inclined line sources."""
import numpy as np

from vp import gen, ref

RULE = ('Pairs of inclined boreholes whose axes stay apart (parallel, diverging, converging, crossing in plan, one '
        'vertical, own wall), random times; value against direct integration, plus rigid motions and small-tilt '
        'limits. Distinct by (pair class, time class, form).')
ORACLES = ['value', 'value.default-M', 'value.real', 'value.image', 'value.steady', 'value.vectorized', 'value.list',
           'invariant.translation', 'invariant.rotation', 'invariant.mirror', 'limit.vertical', 'orientation.irrelevant',
           'orientation.periodic', 'own-image.radius', 'pieces']
ASSUMPTIONS = ['own-wall response of a tilted borehole: receiver offset by the radius in quadrature (documented model)']
KINDS = ['parallel', 'diverging', 'converging', 'crossing', 'one_vertical', 'own', 'random', 'segments']


def cases(r, tier):
    n = 30 if tier == 'quick' else 500
    return [dict(kind=k, i=i) for k in KINDS for i in range(n)] + [dict(kind='fixed_own_image')] + [dict(kind='pieces', i=i) for i in range(n)]


def pair(r, kind):
    H1, H2 = (float(v) for v in np.round(r.uniform(20., 180., 2), 2))
    D1, D2 = (float(v) for v in np.round(r.uniform(0.3, 10., 2), 2))
    rb = float(np.round(r.uniform(0.04, 0.12), 4))
    if r.random() < 0.4:
        H2, D2 = H1, D1
    for _ in range(500):
        t1, t2 = (float(v) for v in r.uniform(0.03, 0.7, 2))
        o1, o2 = (float(v) for v in r.uniform(-np.pi, np.pi, 2))
        d = float(r.uniform(2., 40.))
        a = float(r.uniform(0, 2 * np.pi))
        if kind == 'parallel':
            t2, o2 = t1, o1
        elif kind == 'diverging':
            o1, o2 = a + np.pi, a
        elif kind == 'converging':
            o1, o2 = a + r.uniform(-.4, .4), a + np.pi
        elif kind == 'crossing':
            o1, o2 = a + 0.6, a + np.pi - 0.6
        elif kind == 'one_vertical':
            t2 = 0.
            if r.random() < 0.5:
                t1, t2 = t2, t1
        p1 = [H1, D1, rb, 0., 0., t1, o1]
        p2 = [H2, D2, rb, d * np.cos(a), d * np.sin(a), t2, o2]
        if kind == 'own':
            p2 = list(p1)
            break
        if kind == 'segments':      # two separated pieces of one axis
            s = H1 + float(r.uniform(0.5, 60.))
            p2 = [H2, D1 + s * np.cos(t1), rb, s * np.sin(t1) * np.cos(o1), s * np.sin(t1) * np.sin(o1), t1, o1]
            if r.random() < 0.5:
                p1, p2 = p2, p1
            break
        if gen.min_gap([p1, p2]) > max(1., 0.03 * max(H1, H2)):
            break
    else:
        return None
    off = r.uniform(-30, 30, 2)
    for p in (p1, p2):
        p[3] += float(off[0])
        p[4] += float(off[1])
    return p1, p2


def args(p1, p2):
    return (p1[2], p1[3], p1[4], p1[0], p1[1], p1[5], p1[6], p2[3], p2[4], p2[0], p2[1], p2[5], p2[6])


def pieces(case, mon, r):
    """Touching segments of one tilted borehole, at any order of the quadrature."""
    import pygfunction as gt
    b = gt.boreholes.Borehole(float(r.uniform(20., 200.)), float(gen.pick(r, [1., 3., 5., r.uniform(0.2, 8.)])),
                              float(r.uniform(0.04, 0.12)), *r.uniform(-20., 20., 2), float(r.uniform(0.02, 0.7)),
                              float(gen.pick(r, [0., np.pi / 2, r.uniform(-4., 4.)])))
    n = int(r.integers(2, 4))
    ratios = np.array(gen.ratios(r, n))
    alpha = float(10**r.uniform(-6.3, -5.8))
    tt = np.sort(10**r.uniform(2.5, 9., 3))
    M = int(gen.pick(r, [21, 121, 301, 481, 801]))
    if case['i'] == 0:          # rounding used to overflow here
        b = gt.boreholes.Borehole(179.4, 5., 0.102, 0., 0., 0.361, np.pi / 2)
        n, M, alpha = 3, 481, 8.657878518923627e-07
        ratios = gt.utilities.segment_ratios(3)
        tt = np.array([4.81152697e+02, 4.80672025e+05])
    sg = b.segments(n, segment_ratios=ratios)
    p = [[x.H, x.D, x.r_b, x.x, x.y, x.tilt, x.orientation] for x in sg]
    h = gt.heat_transfer.finite_line_source(tt, alpha, sg, sg, M=M)
    want = np.array([[[ref.fls_inclined(t, alpha, *args(a, c)) for t in tt] for a in p] for c in p])
    off = ~np.eye(n, dtype=bool)
    mon.close('pieces', h[off], want[off], rtol=2e-2 if M < 100 else 1e-2, atol=2e-2 if M < 100 else 2e-3, p=p, t=tt, M=M, alpha=alpha)
    mon.close('pieces', h[~off], want[~off], rtol=1e-2, atol=5e-2 if M < 100 else 5e-3, p=p, t=tt, M=M, alpha=alpha)
    mon.state('pieces', n, M)


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    FLS = gt.heat_transfer.finite_line_source
    kind = case['kind']
    if kind == 'fixed_own_image':
        b = gt.boreholes.Borehole(20., 0., 0.1, 0., 0., 0.3, -1.6)
        x = (0.1, 0., 0., 20., 0., 0.3, -1.6)
        h = FLS(1e9, 1e-6, b, b, reaSource=False, M=121)
        mon.close('own-image.radius', h, ref.fls_inclined(1e9, 1e-6, *x, *x[1:], real=False), rtol=1e-4, atol=1e-5)
        return
    if kind == 'pieces':
        pieces(case, mon, r)
        return
    pp = pair(r, kind)
    if pp is None:
        mon.event('skipped')
        return
    p1, p2 = pp
    alpha = float(10**r.uniform(-6.3, -5.8))
    t = float(10**r.uniform(6., 10.))
    M = 201
    b1, b2 = gen.boreholes([p1, p2])
    info = dict(p1=p1, p2=p2, alpha=alpha, t=t)
    mon.state(kind, int(np.log10(t)), p1[0] == p2[0])
    own = kind == 'own'
    big = dict(rtol=1e-6, atol=1e-7)
    for (re, im), name in (((True, True), 'value'), ((True, False), 'value.real'), ((False, True), 'value.image')):
        want = ref.fls_inclined(t, alpha, *args(p1, p2), real=re, img=im)
        tol = dict(big)
        h = FLS(t, alpha, b1, b2, reaSource=re, imgSource=im, M=M)
        if own and name == 'value.image' and not np.isclose(h, want, **big):
            # recorded deviation: the image part alone leaves out the radius (see known_findings.txt)
            want = ref.fls_inclined(t, alpha, *args(p1, p2), real=False, own_image=False)
        mon.close(name, h, want, **tol, **info)
        if re and im:
            if kind == 'own' or gen.min_gap([p1, p2]) > 0.12 * max(p1[0], p2[0]):
                mon.close('value.default-M', FLS(t, alpha, b1, b2), want, rtol=0., atol=2e-2, **info)
            if abs(want) > 1e-4:
                v = gt.heat_transfer.finite_line_source_inclined_vectorized(
                    t, alpha, *[np.array([x]) for x in args(p1, p2)], M=M)
                mon.close('value.vectorized', v, [want], rtol=1e-6, atol=1e-7, **info)
                # two pairs and several times in one call
                tt = np.array([t, 2. * t, 11. * t])
                A = [np.array([x, y]) for x, y in zip(args(p1, p2), args(p2, p1))]
                v = gt.heat_transfer.finite_line_source_inclined_vectorized(tt, alpha, *A, M=M)
                w = [[ref.fls_inclined(x, alpha, *args(p1, p2)) for x in tt], [ref.fls_inclined(x, alpha, *args(p2, p1)) for x in tt]]
                mon.close('value.vectorized', v, w, rtol=1e-6, atol=1e-7, **info)
                v = FLS(tt, alpha, [b1, b2], [b2], M=M)
                w = [[w[0], [ref.fls_inclined(x, alpha, *args(p2, p2)) for x in tt]]]
                mon.close('value.list', v, w, rtol=1e-6, atol=1e-7, **info)
        want = ref.fls_inclined(np.inf, alpha, *args(p1, p2), real=re, img=im)
        h = FLS(np.inf, alpha, b1, b2, reaSource=re, imgSource=im, M=M)
        mon.close('value.steady', h, want, **tol, parts=[re, im], **info)
        v = FLS(np.inf, alpha, [b1, b2], [b2, b1], reaSource=re, imgSource=im, M=M)
        mon.close('value.steady', v[0, 0], want, **tol, parts=[re, im], form='list', **info)
        ap = bool(r.random() < 0.5)
        v = FLS(float('inf'), alpha, b1, b2, reaSource=re, imgSource=im, M=M, approximation=ap)
        mon.close('value.steady', v, want, **tol, parts=[re, im], form='float', approximation=ap, **info)
        v = FLS(np.float64('inf'), alpha, [b1, b2], [b2, b1], reaSource=re, imgSource=im, M=M, approximation=ap)
        mon.close('value.steady', v[0, 0], want, **tol, parts=[re, im], form='float-list', approximation=ap, **info)
    if own:
        # own wall: real part independent of tilt and orientation
        q = list(p1)
        q[5], q[6] = 0.9 * p1[5], p1[6] + 1.
        bq = gen.boreholes([q])[0]
        mon.close('orientation.irrelevant', FLS(t, alpha, bq, bq, imgSource=False, M=M), FLS(t, alpha, b1, b1, imgSource=False, M=M), **big, **info)
    # rigid motions
    tt = np.array([t, 13. * t])
    h0 = FLS(tt, alpha, b1, b2, M=61)
    inv = dict(rtol=1e-7, atol=1e-9)
    s = r.uniform(-100, 100, 2)
    ps = [[p[0], p[1], p[2], p[3] + s[0], p[4] + s[1], p[5], p[6]] for p in (p1, p2)]
    c1, c2 = gen.boreholes(ps)
    mon.close('invariant.translation', FLS(tt, alpha, c1, c2, M=61), h0, rtol=1e-6, atol=1e-8, shift=s, **info)
    th = float(r.uniform(-4, 4))
    R = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
    ps = [[p[0], p[1], p[2], *(R @ np.array([p[3], p[4]])), p[5], p[6] + th] for p in (p1, p2)]
    c1, c2 = gen.boreholes(ps)
    mon.close('invariant.rotation', FLS(tt, alpha, c1, c2, M=61), h0, rtol=1e-6, atol=1e-8, angle=th, **info)
    ps = [[p[0], p[1], p[2], p[3], -p[4], p[5], -p[6]] for p in (p1, p2)]
    c1, c2 = gen.boreholes(ps)
    mon.close('invariant.mirror', FLS(tt, alpha, c1, c2, M=61), h0, **inv, **info)
    ps = [[p[0], p[1], p[2], p[3], p[4], p[5], p[6] + 2 * np.pi] for p in (p1, p2)]
    c1, c2 = gen.boreholes(ps)
    mon.close('orientation.periodic', FLS(tt, alpha, c1, c2, M=61), h0, **inv, **info)
    ps = [[p[0], p[1], p[2], p[3], p[4], -p[5], p[6] + np.pi] for p in (p1, p2)]
    c1, c2 = gen.boreholes(ps)
    mon.close('orientation.periodic', FLS(tt, alpha, c1, c2, M=61), h0, **inv, note='negative tilt = opposite orientation', **info)
    # small tilt: the tilted formulas with a tilt just above the vertical threshold
    d = max(float(np.hypot(p1[3] - p2[3], p1[4] - p2[4])), p1[2])
    if kind not in ('own', 'segments'):
        tiny = 2e-6
        q1, q2 = list(p1), list(p2)
        q1[5], q2[5] = tiny, tiny
        c1, c2 = gen.boreholes([q1, q2])
        hv = np.array([ref.fls(x, alpha, d, p1[0], p1[1], p2[0], p2[1]) for x in tt])
        mon.close('limit.vertical', FLS(tt, alpha, c1, c2, M=M), hv, rtol=5e-4, atol=5e-5, **info)
        # a vertical borehole has no orientation
        q1[5], q2[5] = 0., p2[5] or 0.2
        if gen.min_gap([q1, q2]) > 1.:
            c1, c2 = gen.boreholes([q1, q2])
            g1 = FLS(tt, alpha, c1, c2, M=61)
            q1[6] = float(r.uniform(-3, 3))
            c1, c2 = gen.boreholes([q1, q2])
            mon.close('orientation.irrelevant', FLS(tt, alpha, c1, c2, M=61), g1, rtol=1e-7, atol=1e-9, **info)
