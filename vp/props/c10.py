"""C10: shape of g-functions."""
import numpy as np

from vp import gen, ground

RULE = ('All field layouts, methods and boundary conditions; time grids from all below the linearization threshold to '
        'steady state, including time zero and the threshold itself, explicit thresholds; far-apart copies against one '
        'borehole; the same object re-evaluated on other grids. Distinct by (field kind, boundary condition, method, '
        'time grid, oracle group).')
ORACLES = ['zero', 'linear', 'monotone', 'UBWT<=UHTR', 'isolated', 'causal', 'UHTR.any-times', 're-evaluated', 'finite',
           'positive']
ASSUMPTIONS = ['monotone up to 1e-5 of the largest value; UBWT may exceed UHTR by the 0.5 % its time grid costs (uneven '
               'load history) on coarse grids only: compared on geometric grids with 1e-3',
               'isolated boreholes: 4000 m apart at times when the undisturbed distance is larger']
CASE_LIMIT = 300


def cases(r, tier):
    n = 3 if tier == 'quick' else 40
    out = []
    for k in gen.FIELD_KINDS:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for i in range(n):
                out.append(dict(kind='vertical', field=k, bc=bc, i=i))
    for k in gen.INCLINED_KINDS:
        for bc in ('UHTR', 'UBWT', 'MIFT'):
            for i in range(max(1, n // 3)):
                out.append(dict(kind='inclined', field=k, bc=bc, i=i))
    return out


def cost(c):
    return 10 * (c['kind'] == 'inclined')


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    inc = case['kind'] == 'inclined'
    bc = case['bc']
    for _ in range(60):
        f = gen.field(r, case['field'], 4 if inc else 8)[:4 if inc else 8]
        if not inc or len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    thr = None if r.random() < 0.5 else float(rb**2 / (25 * alpha) * 10**r.uniform(-0.2, 2.5))
    th = rb**2 / (25. * alpha) if thr is None else thr
    grid = gen.pick(r, ['late', 'random', 'mixed', 'below', 'geometric', 'zero'])
    if grid in ('late', 'random', 'geometric'):
        time = np.array(gen.times(r, grid, ts, rb, alpha))
        time = time[time > th] if np.any(time > th) else time
    elif grid == 'below':
        time = np.array([0.05, 0.2, 0.7, 1.]) * th
    elif grid == 'mixed':
        time = np.array([0.1, 0.5, 1., 1.5, 10., 300., 1e5, 1e7]) * th
    else:
        time = np.array([0., 0.3, 3., 100., 3e4]) * th
    method = gen.pick(r, ['similarities', 'detailed'] + ([] if inc else ['equivalent']))
    smax = 3 if inc else 6
    n = int(r.integers(1, smax + 1))
    opts = dict(nSegments=n, segment_ratios=np.array(gen.ratios(r, n)), mQuad=121 if inc else 31)
    if thr is not None:
        opts['linear_threshold'] = thr
    if r.random() < 0.2:
        opts['approximate_FLS'] = True
    net = kw = None

    def make(field=f, b=bc, t=time, meth=method, extra={}):
        args = gen.boreholes(field)
        k = {}
        if b == 'MIFT':
            nn = net if len(field) == nb else dict(net, c=[-1] * len(field))
            args = gen.build_network(nn, args)
            k = dict(m_flow_network=float(net['m'] if len(field) == nb else net['m'] / c_net * len(field)), cp_f=net['cp'])
        return gt.gfunction.gFunction(args, alpha, time=t, method=meth, boundary_condition=b, options={**opts, **extra}, **k)

    if bc == 'MIFT':
        net = gen.network(r, f, conn='parallel' if method == 'equivalent' else None)
        c_net = net['c'].count(-1)
    info = dict(field=f, opts=opts, alpha=alpha, time=time, th=th, bc=bc, method=method, net=net, grid=grid)
    obj = make()
    g = np.array(obj.gFunc)
    mon.state(case['field'], bc, method, grid)
    mon.check('finite', np.all(np.isfinite(g)) and g.shape == time.shape, g=g, **info)
    regular = True
    if bc == 'MIFT':
        # no reversal of heat flows by thermal short-circuiting
        q = make(extra=dict(profiles=True)).solver
        a_b = q.network.coefficients_network_heat_extraction_rate(
            float(q.m_flow[0]), net['cp'], q.nBoreSegments, segment_ratios=q.segment_ratios)[1].ravel()
        regular = bool(np.all(q.Q_b > 0.) and np.all(a_b / np.sum(a_b) > 0.))
        mon.event('MIFT regular' if regular else 'MIFT short-circuited')
    if inc:         # the quadrature of the inclined solution is not adaptive: narrow kernels of early times excluded
        regular = regular and time[0] > 25. * rb**2 / (25. * alpha)
    if regular:
        mon.check('positive', np.all(g[time > 0.] > 0.), g=g, **info)
        d = np.diff(g)
        mon.check('monotone', np.all(d >= -1e-5 * np.max(np.abs(g))), g=g, **info)
    if time[0] == 0.:
        mon.check('zero', g[0] == 0., g=g, **info)
    # proportional to time below the threshold
    low = time <= th
    if np.any(low):
        gth = make(t=np.array([th])).gFunc[0]
        mon.close('linear', g[low], gth * time[low] / th, rtol=1e-9, **info)
    # causality
    if len(time) > 2:
        k = int(r.integers(1, len(time)))
        mon.close('causal', make(t=time[:k]).gFunc, g[:k], rtol=1e-9, cut=k, **info)
    if bc == 'UHTR':
        pick = np.sort(r.choice(len(time), int(r.integers(1, len(time) + 1)), replace=False))
        mon.close('UHTR.any-times', make(t=time[pick]).gFunc, g[pick], rtol=1e-6, cut=pick, **info)
        other = np.sort(np.concatenate([time, np.exp(r.uniform(np.log(th), np.log(ts * 5), 3))]))
        g2 = make(t=other).gFunc
        mon.close('UHTR.any-times', g2[np.searchsorted(other, time)], g, rtol=1e-6, other=other, **info)
    # one object, several evaluations
    other = np.array(gen.times(r, gen.pick(r, ['late', 'threshold', 'random', 'sparse']), ts, rb, alpha))
    want = make(t=other).gFunc
    mon.close('re-evaluated', obj.evaluate_g_function(other.copy()), want, rtol=1e-9, atol=1e-12, other=other, **info)
    mon.close('re-evaluated', obj.evaluate_g_function(time.copy()), g, rtol=1e-9, atol=1e-12, other=other, **info)
    twice = np.sort(np.append(time, r.choice(time, int(r.integers(1, 3)))))         # repeated times
    mon.close('re-evaluated', obj.evaluate_g_function(twice.copy()), g[np.searchsorted(time, twice)], rtol=1e-9, atol=1e-12, other=twice, **info)
    if len(time) > 2:                   # as many times with the same ends; the same times but one; fewer times
        same = time.copy()
        k = int(r.integers(1, len(time) - 1))
        same[k] = float(r.uniform(time[k - 1], time[k + 1]))
        mon.close('re-evaluated', obj.evaluate_g_function(same.copy()), make(t=same).gFunc, rtol=1e-9, atol=1e-12, other=same, **info)
        mon.close('re-evaluated', obj.evaluate_g_function(time[:k + 1].copy()), g[:k + 1], rtol=1e-9, atol=1e-12, other=k, **info)
        mon.close('re-evaluated', obj.evaluate_g_function(time.copy()), g, rtol=1e-9, atol=1e-12, other=same, **info)
    t1 = float(other[int(r.integers(len(other)))])
    mon.close('re-evaluated', obj.evaluate_g_function(t1), make(t=t1).gFunc, rtol=1e-9, atol=1e-12, other=t1, **info)
    # ordering of the boundary conditions
    if bc == 'UBWT' and method != 'equivalent':
        t = np.array(gen.times(r, 'geometric', ts, rb, alpha))
        t = np.concatenate([t, t[-1] * 2.**np.arange(1, 22)])[:24]
        if inc:
            t = t[t > rb**2 / alpha]
        gu, gh = make(t=t).gFunc, make(b='UHTR', t=t).gFunc
        mon.check('UBWT<=UHTR', np.all(gu <= gh * (1 + 1e-3) + (1e-4 if inc else 1e-6)), gu=gu, gh=gh, times=t, **info)
        mon.check('monotone', np.all(np.diff(gu) >= -1e-5 * gu[-1]) and np.all(np.diff(gh) >= -1e-5 * gh[-1]),
                  gu=gu, gh=gh, times=t, **info)
    # isolated boreholes
    if case['i'] % 3 == 0:
        b = f[0]
        m = int(r.integers(2, 4))
        L = 4000.
        far = [[b[0], b[1], b[2], k * L, (k % 2) * 500., b[5], b[6]] for k in range(m)]
        t = np.array([v for v in gen.times(r, 'late', ts, rb, alpha) if v > th and np.sqrt(4 * alpha * v) < L / 12])
        if len(t):
            net0 = net
            if net is not None:
                net = dict(net, c=[-1] * nb, m=net['m'] / c_net * nb)
            g1 = make([b], t=t).gFunc if nb > 1 else None
            gm = make(far, t=t).gFunc if len(far) != nb else None
            if g1 is not None and gm is not None:
                mon.close('isolated', gm, g1, rtol=2e-4, far=far, times=t, **info)
            net = net0
