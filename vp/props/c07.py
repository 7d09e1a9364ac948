"""C07: similarities against detailed."""
import numpy as np

from vp import gen

RULE = ('Vertical, mixed-dimension, near-equal and inclined fields (including pairs that only look alike), equal and '
        'per-borehole segmentation with asymmetric ratios, three boundary conditions, exact and approximate line '
        'sources; both methods solved on the same input and all stored segment histories compared. Distinct by '
        '(field kind, boundary condition, segmentation class, line source variant).')
ORACLES = ['g', 'Q_b', 'T_b', 'inclined.g', 'inclined.Q_b', 'inclined.T_b', 'default-tolerance.g',
           'within-tolerance']
ASSUMPTIONS = ['tight comparison uses disTol=1e-7 (similar pairs closer than that); the default 1 % tolerance is '
               'compared within the temperature change a 1 % error of distance can cause',
               'inclined fields are compared at mQuad=121 with a tolerance for the quadrature asymmetry']
CASE_LIMIT = 400
EXTRA = ('depths3', 'reverse_depth', 'same_pairs', 'asym_ratio')
INC_EXTRA = ('lookalike', 'lookalike_swapped', 'inc_depths', 'inc_horizontal')


def cases(r, tier):
    n = 5 if tier == 'quick' else 60
    out = []
    for k in gen.FIELD_KINDS + EXTRA:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for i in range(n):
                out.append(dict(kind='vertical', field=k, bc=bc, i=i))
    for k in gen.INCLINED_KINDS + INC_EXTRA:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for i in range(max(1, n // 3)):
                out.append(dict(kind='inclined', field=k, bc=bc, i=i))
    for k in ('rect', 'random', 'almost', 'circle', 'mixed_H', 'almost'):
        for i in range(n):
            out.append(dict(kind='default', field=k, bc=gen.pick(r, ['UHTR', 'UBWT']), i=i))
    for i in range(12 if tier == 'quick' else 200):
        out.append(dict(kind='tolerance', i=i))
    return out


def tolerance(case, mon, r):
    """Pairs are identified within the distance tolerance: with uniform extraction every borehole lies between the
    temperatures of the field spread out and drawn together by that tolerance."""
    import pygfunction as gt
    tol = gen.pick(r, [0.003, 0.01, 0.01, 0.03, 0.1, 0.3])
    how = gen.pick(r, ['jitter', 'random', 'spiral'])
    n = int(r.integers(2, 6))
    s = float(r.uniform(4., 8.))
    if how == 'jitter':
        xy = [(s * i + v[0], s * j + v[1]) for i in range(n) for j in range(n) for v in [r.uniform(-.35, .35, 2) * s]]
    elif how == 'random':
        xy = list(r.uniform(0., s * n, (n * n, 2)))
    else:       # distances to the first borehole growing in steps just below the tolerance
        q = (1. + tol)**(np.arange(n * n) * float(gen.pick(r, [0.45, 0.8, 0.95])))
        a = np.arange(n * n) * 2.4
        xy = [(0., 0.)] + list(zip(s * q * np.cos(a), s * q * np.sin(a)))
    keep = []
    for v in xy:
        if all(np.hypot(v[0] - w[0], v[1] - w[1]) > 1. for w in keep):
            keep.append(v)
    H = float(r.uniform(60., 200.))
    hole = [H, float(r.uniform(1., 5.)), 0.075]
    alpha = 1e-6
    ts = H**2 / (9 * alpha)
    time = ts * np.exp(np.array([-4., -1., 3.]))
    ns = int(gen.pick(r, [1, 1, 2]))
    ratios = None if ns == 1 or r.random() < 0.5 else np.array([0.3, 0.7])

    def T(method, k=1., **o):
        b = [gt.boreholes.Borehole(*hole, k * x, k * y) for x, y in keep]
        return gt.gfunction.gFunction(b, alpha, time=time, method=method, boundary_condition='UHTR',
                                      options=dict(nSegments=ns, segment_ratios=ratios, profiles=True, **o)).solver.T_b
    t = T('similarities', disTol=tol)
    hi, lo = T('detailed', 1. / (1. + tol)), T('detailed', 1. + tol)
    mon.state('tolerance', how, tol, n, ns)
    mon.check('within-tolerance', np.all(t <= hi * (1 + 1e-6)) and np.all(t >= lo * (1 - 1e-6)), xy=keep, hole=hole,
              tol=tol, nseg=ns, over=float(np.max(t / hi)), under=float(np.min(t / lo)))


def cost(c):
    return 10 * (c['kind'] == 'inclined')


def make_field(r, kind, nmax):
    if kind in gen.FIELD_KINDS or kind in gen.INCLINED_KINDS:
        return gen.field(r, kind, nmax)
    if kind == 'depths3':           # pairs with opposite depth differences
        f = gen.field(r, 'line', 5)
        D = f[0][1]
        for k, b in enumerate(f):
            b[1] = D + 3. * (k % 2)
        return f
    if kind == 'reverse_depth':     # same length, depth differences of either sign at equal distances
        f = gen.field(r, 'rect', 6)
        for b in f:
            b[1] = float(gen.pick(r, [1., 4., 7.]))
        return f
    if kind == 'same_pairs':        # two distant copies of an unequal pair, one swapped
        f = gen.field(r, 'pair', 2)
        B = f[1][3]
        f[1][0] = round(f[0][0] * 1.3, 1)
        f[1][1] = f[0][1] + 2.
        g = [list(f[1]), list(f[0])]
        g[0][3], g[1][3] = 60., 60. + B
        return f + g
    if kind == 'asym_ratio':
        return gen.field(r, 'line', 4)
    if kind in ('lookalike', 'lookalike_swapped'):
        f = gen.lookalike(r)
        return f if kind == 'lookalike' else [f[0], f[1], f[3], f[2]]
    if kind == 'inc_horizontal':
        f = gen.field(r, 'inc_parallel', 3)
        for k, b in enumerate(f):
            b[1], b[5] = float(gen.pick(r, [2., 2., 3.])), np.pi / 2
        return f
    if kind == 'inc_depths':
        f = gen.field(r, 'inc_parallel', 4)
        for b in f:
            b[1] = float(gen.pick(r, [1., 3., 5.]))
        return f
    raise ValueError(kind)


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    if case['kind'] == 'tolerance':
        tolerance(case, mon, r)
        return
    inc = case['kind'] == 'inclined'
    nmax = 4 if inc else 8
    for _ in range(60):
        f = make_field(r, case['field'], nmax)
        if not inc:
            break
        f = f[:4]
        if len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    time = np.array(gen.times(r, gen.pick(r, ['late', 'random', 'threshold', 'sparse']), ts, rb, alpha))[1::2]
    mode = gen.pick(r, ['same', 'onesided', 'random', 'per_borehole', 'few_kinds', 'default'])
    if case['field'] == 'asym_ratio':
        mode = 'onesided'
    nmax_seg = 3 if inc else 6
    n = int(r.integers(1, nmax_seg + 1))
    if mode == 'same':
        nseg, ra = n, None
    elif mode == 'default':
        nseg, ra = max(n, 2), gt.utilities.segment_ratios
    elif mode in ('onesided', 'random'):
        nseg = max(n, 2)
        ra = np.array(gen.ratios(r, nseg, mode))
    elif mode == 'per_borehole':
        nseg = [int(v) for v in r.integers(1, nmax_seg + 1, nb)]
        ra = [np.array(gen.ratios(r, k)) for k in nseg]
    else:
        a, b = np.array(gen.ratios(r, max(n, 2), 'onesided')), np.array(gen.ratios(r, max(n, 2), 'onesided'))[::-1].copy()
        sel = r.integers(0, 2, nb)
        nseg = [max(n, 2)] * nb
        ra = [b if s else a for s in sel]
    approx = bool(r.random() < 0.25)
    opts = dict(nSegments=nseg, segment_ratios=ra, profiles=True, approximate_FLS=approx, mQuad=121)
    if approx:
        opts['nFLS'] = int(r.integers(4, 20))
    bc = case['bc']
    kw = {}
    if bc == 'MIFT':
        net = gen.network(r, f)
        kw = dict(m_flow_network=net['m'], cp_f=net['cp'])
        if r.random() < 0.2:
            kw['m_flow_network'] = -net['m']
        def arg():
            return gen.build_network(net, gen.boreholes(f))
    else:
        def arg():
            return gen.boreholes(f)
    tight = case['kind'] != 'default'
    g0 = gt.gfunction.gFunction(arg(), alpha, time=time, method='detailed', boundary_condition=bc, options=dict(opts), **kw)
    o1 = dict(opts)
    if tight:
        o1['disTol'] = 1e-7
    g1 = gt.gfunction.gFunction(arg(), alpha, time=time, method='similarities', boundary_condition=bc, options=o1, **kw)
    info = dict(field=f, nseg=nseg, ratios=ra if not callable(ra) else 'default', alpha=alpha, time=time, approx=approx, bc=bc)
    mon.state(case['field'], bc, mode, approx)
    if not tight:
        mon.close('default-tolerance.g', g1.gFunc, g0.gFunc, rtol=0., atol=0.006 * (nb - 1) + 1e-6, **info)
        return
    tol = dict(rtol=3e-4, atol=3e-4) if inc else dict(rtol=2e-6, atol=1e-7)
    p = 'inclined.' if inc else ''
    mon.close(p + 'g', g1.gFunc, g0.gFunc, **tol, **info)
    if bc != 'UHTR':
        mon.close(p + 'Q_b', g1.solver.Q_b, g0.solver.Q_b, rtol=20 * tol['rtol'], atol=20 * tol['atol'], **info)
    mon.close(p + 'T_b', g1.solver.T_b, g0.solver.T_b, **(dict(tol) if bc != 'MIFT' else dict(rtol=20 * tol['rtol'])), **info)
