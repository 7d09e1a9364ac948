"""C09: invariance of g-functions under re-listing, rigid motions and scaling."""
import numpy as np

from vp import gen

RULE = ('Vertical and inclined fields of all layouts and mixtures of dimensions, per-borehole segmentation, three '
        'methods, three boundary conditions, networks with per-circuit flows; each solved as listed and after '
        're-listing, rigid motion, mirroring, scaling and trading diffusivity against time. Distinct by (field kind, '
        'boundary condition, method, transformation).')
ORACLES = ['relist.g', 'relist.Q_b', 'relist.T_b', 'move.g', 'mirror.g', 'scale.g', 'diffusivity.g',
           'inclined.relist.g', 'inclined.move.g', 'inclined.mirror.g', 'inclined.scale.g', 'inclined.diffusivity.g',
           'MIFT.relist.g']
ASSUMPTIONS = ['similarities and equivalent methods are run with disTol=1e-6, so that tolerance classes do not depend on '
               'the listing; inclined fields are re-listed within the asymmetry of the quadrature (mQuad=121)',
               'for the equivalent method a re-listing may break ties of the clustering differently: 0.2 %']
CASE_LIMIT = 300


def cases(r, tier):
    n = 2 if tier == 'quick' else 40
    out = []
    for k in gen.FIELD_KINDS:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for m in ('similarities', 'detailed', 'equivalent'):
                for i in range(n):
                    out.append(dict(kind='vertical', field=k, bc=bc, method=m, i=i))
    for k in gen.INCLINED_KINDS:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for m in ('similarities', 'detailed'):
                for i in range(max(1, n // 4)):
                    out.append(dict(kind='inclined', field=k, bc=bc, method=m, i=i))
    return out


def cost(c):
    return 10 * (c['kind'] == 'inclined')


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    inc = case['kind'] == 'inclined'
    bc, method = case['bc'], case['method']
    for _ in range(60):
        f = gen.field(r, case['field'], 4 if inc else 8)[:4 if inc else 8]
        if not inc or len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    time = np.array(gen.times(r, gen.pick(r, ['late', 'random', 'threshold', 'sparse']), ts, rb, alpha))[1::2]
    thr = None if r.random() < 0.8 else float(rb**2 / (25 * alpha) * r.uniform(0.6, 40.))
    smax = 3 if inc else 6
    if method == 'equivalent' or r.random() < 0.4:
        n = int(r.integers(1, smax + 1))
        nsegs = [n] * nb
        ras = [np.array(gen.ratios(r, n))] * nb
    else:
        nsegs = [int(v) for v in r.integers(1, smax + 1, nb)]
        ras = [np.array(gen.ratios(r, k)) for k in nsegs]
    approx = bool(r.random() < 0.2)
    net = None
    if bc == 'MIFT':
        net = gen.network(r, f, conn='parallel' if method == 'equivalent' else None)
        pipes = [net['pipe']] * nb
        if method != 'equivalent' and r.random() < 0.4:
            other = gen.pipe(r, gen.pick(r, ['single_asym', 'double_series', 'coax_inner']), min(b[2] for b in f))
            other['k_s'] = net['pipe']['k_s']       # one ground
            pipes = [other if r.random() < 0.5 else net['pipe'] for _ in range(nb)]
        c = list(net['c'])
        ins = [k for k in range(nb) if c[k] == -1]
        flow = {k: float(net['m'] / len(ins) * (1. if method == 'equivalent' else r.uniform(0.3, 1.7))) for k in ins}
        sign = -1. if r.random() < 0.25 else 1.
        form = gen.pick(r, ['network', 'borehole'])
        if form == 'network':
            flow = {k: net['m'] / len(ins) for k in ins}

    def solve(f2, perm=None, s=1., time2=None, alpha2=None, thr2=None):
        perm = list(range(nb)) if perm is None else perm
        t2 = time if time2 is None else time2
        a2 = alpha if alpha2 is None else alpha2
        o = dict(nSegments=[nsegs[p] for p in perm], segment_ratios=[ras[p] for p in perm], profiles=True,
                 approximate_FLS=approx, mQuad=121)
        if method != 'detailed':
            o['disTol'] = 1e-6
        if thr is not None:
            o['linear_threshold'] = thr if thr2 is None else thr2
        bhs = gen.boreholes(f2)
        kw = {}
        if bc == 'MIFT':
            inv = {p: k for k, p in enumerate(perm)}
            c2 = [inv[c[p]] if c[p] >= 0 else -1 for p in perm]
            pp = []
            for p, b in zip(perm, bhs):
                d = dict(pipes[p])
                d['pos'] = [[x * s, y * s] for x, y in d['pos']]
                for key in ('r_in', 'r_out'):
                    d[key] = (np.array(d[key]) * s).tolist()
                pp.append(gen.build_pipe(d, b))
            arg = gt.networks.Network(bhs, pp, bore_connectivity=c2)
            kw['cp_f'] = net['cp']
            if form == 'network':
                kw['m_flow_network'] = float(sign * net['m'] * s)
            else:
                kw['m_flow_borehole'] = np.array([sign * flow[p] * s for p in perm if c[p] == -1])
        else:
            arg = bhs
        return gt.gfunction.gFunction(arg, a2, time=t2, method=method, boundary_condition=bc, options=o, **kw)

    pre = 'inclined.' if inc else ''
    pre2 = pre + ('MIFT.' if bc == 'MIFT' and not inc else '')
    info = dict(field=f, nseg=nsegs, ratios=ras, alpha=alpha, time=time, thr=thr, approx=approx, bc=bc, method=method,
                net=net)
    g0 = solve(f)
    ref = g0.gFunc
    relist = dict(rtol=2e-6) if not inc else dict(rtol=1e-3)
    if method == 'equivalent' and bc != 'UHTR':
        relist = dict(rtol=2e-3)
    tight = dict(rtol=2e-6 if method != 'equivalent' or bc == 'UHTR' else 2e-3)
    # re-listing
    perm = [int(v) for v in r.permutation(nb)]
    if r.random() < 0.3:
        perm = list(range(nb))[::-1]
    mon.state(case['field'], bc, method, 'relist')
    g = solve([f[p] for p in perm], perm)
    mon.close(pre2 + 'relist.g', g.gFunc, ref, **relist, perm=perm, **info)
    if method != 'equivalent' and not inc:
        off = np.concatenate([[0], np.cumsum(nsegs)])
        idx = np.concatenate([np.arange(off[p], off[p + 1]) for p in perm])
        for a in ('Q_b', 'T_b'):
            v, w = getattr(g.solver, a), getattr(g0.solver, a)
            if a == 'Q_b' and np.ndim(v) == 0:
                continue
            # heat extraction rates amplify the rounding of the responses at nearly coincident boreholes
            w = np.asarray(w)
            if w.ndim < 2:
                continue
            mon.close('relist.' + a, v, w[..., idx, :], rtol=2e-5, perm=perm, **info)
    # rigid motion
    th, dx, dy = r.uniform(-np.pi, np.pi), r.uniform(-40, 40), r.uniform(-40, 40)
    if r.random() < 0.3:
        th = gen.pick(r, [np.pi / 2, np.pi, 0., -np.pi / 2])
    f2 = [[b[0], b[1], b[2], b[3] * np.cos(th) - b[4] * np.sin(th) + dx, b[3] * np.sin(th) + b[4] * np.cos(th) + dy,
           b[5], b[6] + th] for b in f]
    mon.close(pre + 'move.g', solve(f2).gFunc, ref, **tight, move=[th, dx, dy], **info)
    mon.state(case['field'], bc, method, 'move')
    f2 = [[b[0], b[1], b[2], -b[3] + dx, b[4], b[5], np.pi - b[6]] for b in f]
    mon.close(pre + 'mirror.g', solve(f2).gFunc, ref, **tight, **info)
    # scaling
    s = float(10**r.uniform(-0.6, 0.6))
    f2 = [[b[0] * s, b[1] * s, b[2] * s, b[3] * s, b[4] * s, b[5], b[6]] for b in f]
    mon.close(pre + 'scale.g', solve(f2, s=s, time2=time * s**2, thr2=None if thr is None else thr * s**2).gFunc, ref,
              **tight, scale_factor=s, **info)
    mon.state(case['field'], bc, method, 'scale')
    a2 = alpha * s
    mon.close(pre + 'diffusivity.g', solve(f, time2=time / s, alpha2=a2, thr2=None if thr is None else thr / s).gFunc,
              ref, **tight, **info)
