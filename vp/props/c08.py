"""C08: equivalent borehole method."""
import numpy as np

from vp import gen

RULE = ('Vertical fields with sorted, interleaved and random mixtures of dimensions, listed in random orders, cluster '
        'increments 0..many, three boundary conditions; the groups reported by the solver are checked as a partition '
        'and the g-function against the detailed method. Distinct by (field kind, boundary condition, increment '
        'class, number of groups).')
ORACLES = ['groups.partition', 'groups.equal-dimensions', 'groups.length', 'UHTR.exact', 'close', 'exact.one-per-group',
           'order', 'converges', 'MIFT.close', 'MIFT.m_flow_borehole', 'within-tolerance', 'not-grouped']
ASSUMPTIONS = ['closeness for grouped boreholes: 1 % of the detailed value (published deviations are below 1 %)',
               'distances are grouped with disTol=1e-6 where exactness is expected']
CASE_LIMIT = 300
KINDS = ('single', 'pair', 'line', 'rect', 'L', 'U', 'box', 'circle', 'random', 'mixed_H', 'mixed_D', 'mixed_r',
         'mixed_all', 'interleaved', 'equidistant', 'sorted', 'interleaved3', 'depths')


def cases(r, tier):
    n = 4 if tier == 'quick' else 60
    return ([dict(kind=k, bc=bc, i=i) for k in KINDS for bc in ('UHTR', 'UBWT', 'MIFT') for i in range(n)]
            + [dict(kind='many', bc='UHTR', i=i) for i in range(2 * n)]
            + [dict(kind='configurations', bc='MIFT', i=i) for i in range(2 * n)])


def make_field(r, kind, nmax=9):
    if kind == 'sorted':
        f = gen.field(r, 'mixed_all', nmax)
        return sorted(f)
    if kind == 'interleaved3':
        f = gen.field(r, 'rect', nmax)
        H = f[0][0]
        for k, b in enumerate(f):
            b[0] = [H, round(1.3 * H, 1), round(0.8 * H, 1)][k % 3]
        return f
    if kind == 'depths':
        f = gen.field(r, 'rect', nmax)
        for k, b in enumerate(f):
            b[1] = [1., 4., 1., 7.][k % 4]
        return f
    return gen.field(r, kind, nmax)


def many(case, mon, r):
    """Large and irregular fields: merged distances stay within the tolerance asked for."""
    from pygfunction.gfunction import gFunction
    n = int(r.integers(30, 110))
    shape = gen.pick(r, ['scatter', 'stretched', 'spiral'])
    B = float(r.uniform(5., 9.))
    w = int(r.integers(2, 13))
    e = float(10**r.uniform(-4., -2.2))
    if shape == 'scatter':
        xy = gen._scatter(r, n, B)
    elif shape == 'stretched':
        xy = [(B * (i % w) * (1 + e * i), B * (i // w) * (1 + 0.7 * e * i)) for i in range(n)]
    else:
        a = np.sqrt(np.arange(n) + 0.3) * 3.6
        xy = [(B * a_i / 4 * np.cos(a_i), B * a_i / 4 * np.sin(a_i)) for a_i in a]
    H = float(r.uniform(60., 250.))
    f = [[H, 3., 0.075, x, y, 0., 0.] for x, y in xy]
    if r.random() < 0.4:
        for i, b in enumerate(f):
            b[0] = H * (1. if i % 3 else 1.2)
    alpha = 1e-6
    time = np.sort(10**r.uniform(7.5, 11., 3))
    tol = float(gen.pick(r, [0.01, 0.01, 0.05, 0.002]))

    def g(scale, method, **o):
        ff = [b[:3] + [b[3] * scale, b[4] * scale] + b[5:] for b in f]
        return gFunction(gen.boreholes(ff), alpha, time=time, method=method, boundary_condition='UHTR',
                         options=dict(nSegments=1, segment_ratios=None, **o)).gFunc
    hi = g(1. - 1.05 * tol, 'detailed')
    lo = g(1. + 1.05 * tol, 'detailed')
    ge = g(1., 'equivalent', disTol=tol)
    mon.state('many', shape, tol, n // 20)
    mon.check('within-tolerance', np.all((ge <= hi * (1 + 1e-6)) & (ge >= lo * (1 - 1e-6))), got=ge, lo=lo, hi=hi, tol=tol, n=n, shape=shape)


def configurations(case, mon, r):
    """Boreholes of equal dimensions and resistances whose pipes are not used alike."""
    import pygfunction as gt
    f = gen.boreholes(gen.field(r, gen.pick(r, ['rect', 'L', 'line', 'circle', 'pair', 'box']), 9))
    rb = f[0].r_b
    d = rb * float(r.uniform(0.4, 0.6))
    pos = [(-d, 0.), (0., -d), (d, 0.), (0., d)]
    what = gen.pick(r, ['config', 'reversible', 'both', 'same'])
    Rfp = float(r.uniform(0.03, 0.15))
    c0, r0 = gen.pick(r, ['series', 'parallel']), bool(r.random() < 0.5)
    sg = -1. if what in ('reversible', 'both') else gen.pick(r, [1., 1., -1.])
    odd = [bool(v) for v in r.random(len(f)) < 0.5]
    if len(f) > 1:
        odd[int(r.integers(len(f)))] ^= len(set(odd)) == 1
    other = {'series': 'parallel', 'parallel': 'series'}[c0]

    def net():
        pipes = [gt.pipes.MultipleUTube(pos, 0.15 * rb, 0.18 * rb, b, 2., 1.2, Rfp, nPipes=2,
                                        config=other if o and what in ('config', 'both') else c0,
                                        reversible_flow=(not r0) if o and what in ('reversible', 'both') else r0)
                 for b, o in zip(f, odd)]
        return gt.networks.Network(f, pipes)
    time = np.sort(10**r.uniform(6.5, 10., 3))
    m = sg * float(r.uniform(0.1, 0.4)) * len(f)

    def g(method, **o):
        return gt.gfunction.gFunction(net(), 1e-6, time=time, method=method, boundary_condition='MIFT', m_flow_network=m, cp_f=4000.,
                                      options=dict(nSegments=4, segment_ratios=None, **o)).gFunc
    gd, ge = g('detailed'), g('equivalent', kClusters=200, disTol=1e-6)
    mon.state('configurations', what, len(set(odd)), len(f))
    same = what == 'same' or len(set(odd)) == 1
    mon.close('MIFT.close' if same else 'not-grouped', ge, gd, rtol=0.01 if same else 2e-5, atol=1e-7,
              what=what, odd=odd, m=m, n=len(f), time=time)


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    if case['kind'] == 'many':
        return many(case, mon, r)
    if case['kind'] == 'configurations':
        return configurations(case, mon, r)
    f = make_field(r, case['kind'], gen.pick(r, [9, 9, 9, 9, 20]))
    if r.random() < 0.15:
        f = gen.spread(r, f)
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    time = np.array(gen.times(r, gen.pick(r, ['late', 'random', 'threshold', 'sparse']), ts, rb, alpha))[1::2]
    nseg = int(r.integers(1, 6))
    ra = None if r.random() < 0.4 else np.array(gen.ratios(r, nseg))
    if r.random() < 0.3 and nseg > 2:
        ra = gt.utilities.segment_ratios
    k = int(gen.pick(r, [0, 1, 1, 2, 3, 50]))
    bc = case['bc']
    opts = dict(nSegments=nseg, segment_ratios=ra, profiles=True)
    kw, net = {}, None
    if bc == 'MIFT':
        net = gen.network(r, f, conn='parallel')
        kw = dict(cp_f=net['cp'])
        sg = -1. if r.random() < 0.2 else 1.
    form = gen.pick(r, ['network', 'network', 'borehole']) if bc == 'MIFT' else None

    def solve(field, method, flow='network', **o):
        arg = gen.boreholes(field)
        k2 = dict(kw)
        if net is not None:
            nn = dict(net, c=[-1] * len(field))
            arg = gen.build_network(nn, arg)
            if flow == 'network':
                k2['m_flow_network'] = sg * net['m']
            else:
                k2['m_flow_borehole'] = np.full(len(field), sg * net['m'] / len(field))
        return gt.gfunction.gFunction(arg, alpha, time=time, method=method, boundary_condition=bc,
                                      options={**opts, **o}, **k2)

    gd = solve(f, 'detailed')
    info = dict(field=f, nseg=nseg, ratios=ra if not callable(ra) else 'default', alpha=alpha, time=time, kClusters=k, bc=bc)
    ge = solve(f, 'equivalent', kClusters=k, disTol=1e-6)
    s = ge.solver
    groups = s.boreholes
    if not all(hasattr(g, 'nBoreholes') for g in groups):
        # piping that differs between boreholes: solved without grouping
        mon.state(case['kind'], bc, 'not grouped')
        mon.close('not-grouped', ge.gFunc, gd.gFunc, rtol=2e-5, atol=1e-7, **info)
        return
    mon.state(case['kind'], bc, min(k, 4), len(groups))
    # the groups
    members = sorted((float(g.H), float(g.D), float(g.r_b), float(x), float(y))
                     for g in groups for x, y in zip(np.atleast_1d(g.x), np.atleast_1d(g.y)))
    want = sorted((b[0], b[1], b[2], b[3], b[4]) for b in f)
    mon.check('groups.partition', len(members) == len(want) and np.allclose(members, want, rtol=1e-5, atol=1e-9),
              members=members, field_sorted=want, **info)
    for g in groups:
        dims = [b[:3] for b in f if any(abs(b[3] - x) < 1e-9 and abs(b[4] - y) < 1e-9
                                        for x, y in zip(np.atleast_1d(g.x), np.atleast_1d(g.y)))]
        mon.check('groups.equal-dimensions', dims and np.allclose(dims, dims[0], rtol=1e-5), dims=dims, **info)
    mon.close('groups.length', sum(g.H * g.nBoreholes for g in groups), sum(b[0] for b in f), rtol=1e-9, **info)
    mon.close('groups.length', np.sum(s.segment_lengths()), sum(b[0] for b in f), rtol=1e-9, **info)
    own = len(groups) == nb
    tight = dict(rtol=2e-5, atol=1e-7)
    if bc == 'UHTR':
        mon.close('UHTR.exact', ge.gFunc, gd.gFunc, **tight, **info)
        geo = solve(f, 'equivalent', kClusters=k)
        mon.close('close', geo.gFunc, gd.gFunc, rtol=0., atol=0.006 * nb, **info)
    else:
        p = 'MIFT.close' if bc == 'MIFT' else 'close'
        if own:
            mon.close('exact.one-per-group', ge.gFunc, gd.gFunc, **tight, **info)
        mon.close(p, ge.gFunc, gd.gFunc, rtol=0.01, **info)
        geo = solve(f, 'equivalent', kClusters=k)
        mon.close(p, geo.gFunc, gd.gFunc, rtol=0.01, atol=0.006 * nb, **info)
        # more groups never worse (beyond what rounding and cancelling errors allow)
        gm = solve(f, 'equivalent', kClusters=200, disTol=1e-6)
        e0 = np.max(np.abs(ge.gFunc - gd.gFunc))
        e1 = np.max(np.abs(gm.gFunc - gd.gFunc))
        mon.check('converges', e1 <= e0 + 2e-3 * np.max(gd.gFunc), e0=e0, e1=e1, **info)
        if len(gm.solver.boreholes) == nb:
            mon.close('exact.one-per-group', gm.gFunc, gd.gFunc, **tight, **info)
        if bc == 'MIFT' and form == 'borehole':
            gb = mon.accepts('MIFT.m_flow_borehole', lambda: solve(f, 'equivalent', flow='borehole', kClusters=k, disTol=1e-6), **info)
            if gb is not None:
                mon.close('MIFT.m_flow_borehole', gb.gFunc, ge.gFunc, rtol=1e-9, **info)
    # listing order
    perm = [int(v) for v in r.permutation(nb)]
    gp = solve([f[i] for i in perm], 'equivalent', kClusters=k, disTol=1e-6)
    mon.close('order', gp.gFunc, ge.gFunc, rtol=1e-3 if bc != 'UHTR' else 2e-5, perm=perm, **info)
