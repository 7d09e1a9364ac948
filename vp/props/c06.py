"""C06: uniform heat extraction and uniform wall temperature g-functions."""
import numpy as np

from vp import gen, ground

RULE = ('Random fields (regular, random, mixed dimensions, inclined), segment counts and length ratios, time grids '
        '(late, uniform, geometric, random, straddling the linearization threshold) solved by the library with its '
        'stored histories; the histories are substituted in an independently integrated ground model. Distinct by '
        '(field kind, boundary condition, method, time grid, segmentation class).')
ORACLES = ['UHTR.value', 'UHTR.segments', 'UBWT.energy', 'UBWT.uniform', 'UBWT.superposition', 'UBWT.linearized',
           'inclined.UBWT.superposition', 'inclined.UHTR.value', 'UBWT.exact-uniform-grid', 'shape']
ASSUMPTIONS = ['on uneven time grids the reference uses the documented mirrored-grid reconstruction of the load '
               'history; on even grids this is the exact superposition, which is also checked directly',
               'inclined line sources solved with mQuad=121 in the library',
               'the similarities method is run with distance tolerance 1e-6 so that it must match tightly']
CASE_LIMIT = 400


def cases(r, tier):
    n = 12 if tier == 'quick' else 150
    out = []
    for k in gen.FIELD_KINDS:
        for bc in ('UHTR', 'UBWT'):
            for i in range(n if bc == 'UBWT' else max(1, n // 2)):
                out.append(dict(kind='vertical', field=k, bc=bc, i=i))
    for k in gen.INCLINED_KINDS:
        for bc in ('UHTR', 'UBWT'):
            for i in range(max(1, n // 3)):
                out.append(dict(kind='inclined', field=k, bc=bc, i=i))
    return out


def cost(c):
    return 10 * (c['kind'] == 'inclined') + (c['field'] in ('rect', 'random', 'inc_box'))


def segmentation(r, nb, nmax_seg, equal=False):
    mode = gen.pick(r, ['same', 'same', 'ratios', 'per_borehole']) if not equal else gen.pick(r, ['same', 'ratios'])
    if mode == 'same':
        n = int(r.integers(1, nmax_seg + 1))
        return mode, n, None, [n] * nb, [[1. / n] * n] * nb
    if mode == 'ratios':
        n = int(r.integers(2, nmax_seg + 1))
        q = gen.ratios(r, n)
        return mode, n, np.array(q), [n] * nb, [q] * nb
    ns = [int(v) for v in r.integers(1, nmax_seg + 1, nb)]
    qs = [gen.ratios(r, n) for n in ns]
    return mode, ns, [np.array(q) for q in qs], ns, qs


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    inclined = case['kind'] == 'inclined'
    f = gen.field(r, case['field'], nmax=4 if inclined else 7)
    if inclined:
        for _ in range(50):
            if len(f) == 1 or gen.min_gap(f) > 1.5:
                break
            f = gen.field(r, case['field'], nmax=4)
        else:
            mon.event('skipped')
            return
        f = f[:4]
    if r.random() < 0.2:
        f = gen.spread(r, f)
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    Hm = float(np.mean([b[0] for b in f]))
    ts = Hm**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    tk = gen.pick(r, ['late', 'uniform', 'geometric', 'random', 'threshold', 'sparse', 'sparse'])
    time = np.array(gen.times(r, tk, ts, rb, alpha))
    if inclined and tk != 'sparse':
        time = time[::2]
    mode, nseg, ratio_arg, nsegs, qs = segmentation(r, nb, 2 if inclined else (6 if nb < 4 else 3))
    method = gen.pick(r, ['detailed', 'similarities'])
    if nb == 1 and inclined and method == 'similarities':
        method = gen.pick(r, ['detailed', 'similarities'])
    opts = dict(nSegments=nseg, segment_ratios=ratio_arg, profiles=True)
    if inclined:
        opts['mQuad'] = 121
    if method == 'similarities':
        opts['disTol'] = 1e-6
    if r.random() < 0.2:
        opts['linear_threshold'] = float(rb**2 / (25 * alpha) * r.uniform(0.5, 5.))
    bc = case['bc']
    g = gt.gfunction.gFunction(gen.boreholes(f), alpha, time=time, boundary_condition=bc, method=method, options=opts)
    info = dict(field=f, nseg=nsegs, time=time, method=method, alpha=alpha, mode=mode)
    mon.state(case['field'], bc, method, tk, mode)
    segs, owner = ground.segment_field(f, nsegs, qs)
    L = np.array([s[0] for s in segs])
    th, n0, tl = ground.split_times(time, rb, alpha, opts.get('linear_threshold'))
    mon.check('shape', np.shape(g.gFunc) == time.shape, shape=np.shape(g.gFunc))
    h = ground.response_matrix(segs, owner, tl, alpha)
    tol = dict(rtol=1e-3, atol=1e-3) if inclined else dict(rtol=2e-6, atol=2e-6)
    pre = 'inclined.' if inclined else ''
    s = g.solver
    k0 = max(0, n0 - 1)
    if bc == 'UHTR':
        T = np.sum(h, axis=1)
        v = L @ T / L.sum()
        want = np.concatenate([v[0] * time[:n0] / th, v[1:]]) if n0 else v
        mon.close(pre + 'UHTR.value', g.gFunc, want, **tol, **info)
        if not inclined:
            mon.close('UHTR.segments', np.asarray(s.T_b)[:, n0:], T[:, 1:] if n0 else T, **tol, **info)
        return
    Q, T = np.asarray(s.Q_b), np.asarray(s.T_b)
    mon.close('UBWT.energy', L @ Q / L.sum(), np.ones(len(time)), rtol=1e-9, **info)
    mon.close('UBWT.uniform', T, g.gFunc, rtol=1e-12, **info)
    # the state computed at the threshold, recovered from the linear part
    if n0:
        lam = th / time[n0 - 1]
        Qt = np.concatenate([(1. + (Q[:, n0 - 1] - 1.) * lam)[:, None], Q[:, n0:]], axis=1)
        gt_ = np.concatenate([[g.gFunc[n0 - 1] * lam], g.gFunc[n0:]])
        mon.close('UBWT.linearized', g.gFunc[:n0], gt_[0] * time[:n0] / th, rtol=1e-9, **info)
        mon.close('UBWT.linearized', Q[:, :n0], 1. + np.outer(Qt[:, 0] - 1., time[:n0] / th), rtol=1e-9, **info)
    else:
        Qt, gt_ = Q, np.asarray(g.gFunc)
        mon.event('UBWT.linearized')
    Tw = ground.wall_temperature(h, tl, Qt)
    cond = np.max(np.abs(Qt))
    for p in range(len(tl)):
        mon.close(pre + 'UBWT.superposition', Tw[:, p], np.full(len(segs), gt_[p]), rtol=tol['rtol'] * max(1., cond),
                  atol=tol['atol'] * cond, p=p, Q=Qt[:, p], **info)
    if tk == 'uniform' and not n0 and not inclined:
        # even grid: plain convolution
        T2 = np.zeros_like(Tw)
        for p in range(len(tl)):
            for k in range(p + 1):
                dq = Qt[:, k] - (Qt[:, k - 1] if k else 0.)
                T2[:, p] += h[:, :, p - k] @ dq
        mon.close('UBWT.exact-uniform-grid', T2, np.tile(gt_, (len(segs), 1)), rtol=4e-6 * cond, **info)
