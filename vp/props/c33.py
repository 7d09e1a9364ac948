"""C33: from loads to fluid temperatures: the calculations chained together are the coupled simulation."""
import numpy as np

from vp import gen, ground, netwalk

RULE = ('Random fields, boundary conditions, solvers, segmentations, networks, aggregation schemes and load histories (heating, '
        'cooling, idle, alternating) are simulated as documented: g-function at the times of the scheme, aggregation of the '
        'loads, wall temperature, fluid temperatures from the network. The same field is simulated apart, segment by segment '
        'and step by step, with the whole load history. Distinct by (field kind, condition, method, scheme, connections, loads).')
ORACLES = ['wall.UHTR', 'wall.UBWT', 'fluid.MIFT', 'each.wall', 'each.mean', 'fluid.balance', 'fluid.boreholes', 'fluid.mean', 'direction',
           'idle', 'aggregated', 'driven']
ASSUMPTIONS = ['cells of the aggregation scheme are chosen so that no loads are merged over the simulated steps, except for the '
               'oracle "aggregated", which allows 5 % of the largest temperature change',
               'vertical boreholes; flow rates are constant during a simulation']
CASE_LIMIT = 300
BCS = ['UHTR', 'UBWT', 'MIFT']
LAYOUTS = ['single', 'pair', 'line', 'rect', 'L', 'random', 'mixed_H', 'mixed_D', 'mixed_all', 'almost']


def cases(r, tier):
    n = 8 if tier == 'quick' else 150
    return ([dict(kind='chain', bc=b, scheme=s, i=i) for b in BCS for s in ('cj', 'mlaa', 'liu') for i in range(n)]
            + [dict(kind='each', i=i) for i in range(n)] + [dict(kind='driven', bc=BCS[i % 3], i=i) for i in range(n)])


def scheme(gt, r, name, dt, nt, n=1, merge=False):
    la = gt.load_aggregation
    tmax = nt * dt
    if name == 'cj':
        return la.ClaessonJaved(dt, tmax, nSources=n, **(dict(cells_per_level=int(r.integers(4, 7))) if merge else
                                                         dict(cells_per_level=nt + int(r.integers(0, 3)))))
    if name == 'mlaa':
        return la.MLAA(dt, tmax, nSources=n, **(dict(N0=3, N1=4, N2=8, N3=16) if merge else dict(N0=nt + int(r.integers(0, 3)))))
    return la.Liu(dt, tmax, nSources=n, **(dict(N1=3, N2=3, N3=4, W1=3, W2=2, W3=2) if merge else
                                           dict(N1=nt + int(r.integers(1, 3)), N2=3, N3=4, W1=2, W2=1, W3=1)))


def history(r, kind, nt):
    q = r.uniform(5., 40., nt)
    if kind == 'cooling':
        q = -q
    elif kind == 'alternating':
        q = q * np.where(np.sin(np.arange(nt) * r.uniform(0.5, 2.)) > 0, 1., -1.)
    elif kind == 'idle':
        q[r.random(nt) < 0.4] = 0.
    elif kind == 'pulse':
        q[1:] = 0.
    elif kind == 'constant':
        q[:] = q[0]
    return q


def field(case, r, bc):
    lay = str(gen.pick(r, LAYOUTS))
    f = gen.field(r, lay, 5)[:5]
    if r.random() < 0.15:
        f = gen.spread(r, f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    k_s = float(r.uniform(1., 4.))
    rb = max(b[2] for b in f)
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    # from hours to decades
    dt = max(1.2 * rb**2 / (25. * alpha), float(10**r.uniform(3.5, np.log10(ts * 0.5))))
    return lay, f, alpha, k_s, dt


def coupled(f, nseg, ratios, alpha, k_s, dt, Q, bc, net, m, cp, T_g, drive=None):
    """Own simulation with the whole history.

    Q [W] per step (or the inlet temperatures if drive) -> wall temperature per step (uniform temperature, or mean), inlet
    temperature, total heat extraction.
    """
    nb, nt = len(f), len(Q)
    segs, owner = ground.segment_field(f, [nseg] * nb, [ratios] * nb)
    h = ground.response_matrix(segs, owner, dt * np.arange(1, nt + 1), alpha) / (2 * np.pi * k_s)
    L = np.array([s[0] for s in segs])
    n = len(segs)
    dq = np.zeros((n, nt))                      # increments of the heat extraction rates per unit length
    out_T, out_in, out_q = [], [], []
    if bc == 'MIFT':
        a_in, a_b = net.coefficients_borehole_heat_extraction_rate(m, cp, nseg, segment_ratios=ratios)
        a_in, a_b = np.asarray(a_in)[:, 0] / L, np.asarray(a_b) / L[:, None]
    q = np.zeros(n)
    for p in range(nt):
        # drop of wall temperature without any new increment
        past = sum((h[:, :, p - k] @ dq[:, k] for k in range(p)), np.zeros(n))
        h1 = h[:, :, 0]
        if bc == 'UHTR':
            new = np.full(n, Q[p] / L.sum())
        elif bc == 'UBWT':
            # unknown: rates and the common temperature drop
            A = np.block([[h1, -np.ones((n, 1))], [L[None, :], np.zeros((1, 1))]])
            new = np.linalg.solve(A, np.concatenate([h1 @ q - past, [Q[p]]]))[:n]
        else:
            # q = a_in T_in + a_b (T_g - past - h1 (q - q_before))
            M = np.eye(n) + a_b @ h1
            c0 = np.linalg.solve(M, a_b @ (T_g - past + h1 @ q))
            c1 = np.linalg.solve(M, a_in)
            T_in = Q[p] if drive else (Q[p] - L @ c0) / (L @ c1)
            new = c0 + c1 * T_in
            out_in.append(T_in)
        dq[:, p] = new - q
        q = new
        out_T.append(T_g - past - h1 @ dq[:, p])
        out_q.append(float(L @ q))
    return np.array(out_T), np.array(out_in), np.array(out_q), L


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    {'chain': chain, 'each': each, 'driven': driven}[case['kind']](case, mon, r, gt)


def setup(case, mon, r, gt, bc, name, nt):
    lay, f, alpha, k_s, dt = field(case, r, bc)
    method = str(gen.pick(r, ['detailed', 'similarities', 'equivalent']))
    ns = int(r.integers(1, 5))
    ratios = np.array(gen.ratios(r, ns)) if ns > 1 and r.random() < 0.6 else None
    nd = gen.network(r, f, pipe_kind=str(gen.pick(r, ['single', 'double_parallel', 'double_series', 'coax_annular', 'triple_parallel'])))
    m, cp = nd['m'] * (-1. if r.random() < 0.25 else 1.), nd['cp']
    k_s = nd['pipe']['k_s']
    net = gen.build_network(nd, gen.boreholes(f))
    if method == 'equivalent':
        # boreholes of a group stand for one another: exact for one borehole only
        f = f[:1]
        nd['c'] = [-1]
        net = gen.build_network(nd, gen.boreholes(f))
    L = float(sum(b[0] for b in f))
    lk = str(gen.pick(r, ['heating', 'cooling', 'alternating', 'idle', 'pulse', 'constant']))
    info = dict(field=f, net=nd, m=m, alpha=alpha, k_s=k_s, dt=dt, nseg=ns, ratios=ratios, method=method, scheme=name, loads=lk, bc=bc)
    mon.state(case['kind'], lay, bc, method, name, tuple(nd['c']) if len(f) < 4 else 'many', lk)
    LA = scheme(gt, r, name, dt, nt)
    # the cells may reach further than the simulation: the steps are evenly spaced
    want = np.asarray(LA.get_times_for_simulation(), dtype=float)
    tt = dt * np.arange(1, int(round(want[-1] / dt)) + 1)
    opts = dict(nSegments=ns, segment_ratios=ratios)
    if method != 'detailed':
        opts['disTol'] = 1e-7
    kw = dict(m_flow_network=float(m), cp_f=cp) if bc == 'MIFT' else {}
    src = net if bc == 'MIFT' else gen.boreholes(f)
    # evaluated at every step so that the stored histories are exact; the scheme takes its own times
    g = gt.gfunction.gFunction(src, alpha, time=tt, boundary_condition=bc, method=method, options=opts, **kw)
    gv = np.asarray(g.gFunc)[np.searchsorted(tt, want * (1. - 1e-9))]
    return f, nd, net, m, cp, L, alpha, k_s, dt, ns, ratios, lk, LA, gv, info


def chain(case, mon, r, gt):
    bc, name = case['bc'], case['scheme']
    nt = int(r.integers(3, 13))
    f, nd, net, m, cp, L, alpha, k_s, dt, ns, ratios, lk, LA, gv, info = setup(case, mon, r, gt, bc, name, nt)
    T_g = float(r.uniform(5., 20.))
    q = history(r, lk, nt)
    LA.initialize(gv / (2 * np.pi * k_s))
    T_b, T_in, T_out = [], [], []
    for p in range(nt):
        LA.next_time_step((p + 1) * dt)
        LA.set_current_load(q[p])
        dT = LA.temporal_superposition()
        T_b.append(T_g - float(np.ravel(dT)[0]))
        Q = q[p] * L
        ti = float(net.get_network_inlet_temperature(Q, T_b[-1], m, cp, nSegments=1))
        to = float(net.get_network_outlet_temperature(ti, T_b[-1], m, cp, nSegments=1))
        T_in.append(ti)
        T_out.append(to)
        if p == 0:
            # each borehole
            own = [gen.build_pipe(nd['pipe'], b) for b in gen.boreholes(f)]
            Ti, To, mix = netwalk.walk(nd['c'], m, ti, lambda i, t, mi: float(np.ravel(own[i].get_outlet_temperature(t, T_b[-1], mi, cp))[0]))
            mon.close('fluid.boreholes', np.ravel(net.get_outlet_temperature(ti, T_b[-1], m, cp, nSegments=1)), To, rtol=0., atol=1e-9 * (1. + abs(ti - T_b[-1])), **info)
            mon.close('fluid.boreholes', to, mix, rtol=0., atol=1e-9 * (1. + abs(ti - T_b[-1])), **info)
    T_b, T_in, T_out = np.array(T_b), np.array(T_in), np.array(T_out)
    S = float(np.max(np.abs(T_b - T_g))) + 1e-3
    mon.close('fluid.balance', abs(m) * cp * (T_out - T_in), q * L, rtol=1e-9, atol=1e-9 * np.max(np.abs(q)) * L + 1e-11 * abs(m) * cp, **info)
    R = float(gt.networks.network_thermal_resistance(net, m, cp))
    mon.close('fluid.mean', 0.5 * (T_in + T_out), T_b - q * R, rtol=0., atol=1e-8 * (S + np.max(np.abs(q)) * R), **info)
    mon.check('direction', all((v > 0) == (o > i) for v, i, o in zip(q, T_in, T_out) if v != 0.), T_in=T_in, T_out=T_out, q=q, **info)
    mon.check('direction', bool((q[0] > 0) == (T_b[0] < T_g)) and np.all(np.isfinite(T_b)), T_b=T_b, q=q, **info)
    mon.check('idle', all(abs(i - b) < 1e-7 * (1. + S) and abs(o - b) < 1e-7 * (1. + S) for v, i, o, b in zip(q, T_in, T_out, T_b) if v == 0.),
              T_in=T_in, T_out=T_out, T_b=T_b, q=q, **info)
    W, W_in, _, Ls = coupled(f, ns, ratios, alpha, k_s, dt, q * L, bc, net, m, cp, T_g)
    if bc == 'MIFT':
        tol = 1e-7 * (S + np.max(np.abs(q)) * R)
        mon.close('fluid.MIFT', T_in, W_in, rtol=0., atol=tol, **info)
    else:
        mon.close('wall.' + bc, T_b, W @ Ls / Ls.sum(), rtol=0., atol=1e-7 * S, **info)
    # merged loads
    nt2 = int(r.integers(25, 60))
    LB = scheme(gt, r, name, dt, nt2, merge=True)
    tb = np.asarray(LB.get_times_for_simulation(), dtype=float)
    opts = dict(nSegments=1)
    g2 = gt.gfunction.gFunction(gen.boreholes(f), alpha, time=tb, boundary_condition='UHTR', options=opts)
    LB.initialize(np.asarray(g2.gFunc) / (2 * np.pi * k_s))
    every = dt * np.arange(1, nt2 + 1)
    x = np.concatenate([[0.], every])
    full = np.asarray(gt.gfunction.gFunction(gen.boreholes(f), alpha, time=every, boundary_condition='UHTR', options=opts).gFunc) / (2 * np.pi * k_s)
    q2 = 20. + 15. * np.sin(2 * np.pi * np.arange(nt2) / nt2)
    inc = np.diff(np.concatenate([[0.], q2]))
    exact = np.array([sum(inc[k] * full[p - k] for k in range(p + 1)) for p in range(nt2)])
    got = []
    for p in range(nt2):
        LB.next_time_step(every[p])
        LB.set_current_load(q2[p])
        got.append(float(np.ravel(LB.temporal_superposition())[0]))
    mon.close('aggregated', got, exact, rtol=0., atol=0.05 * float(np.max(np.abs(exact))), x=x[-1], **info)


def each(case, mon, r, gt):
    """Boreholes loaded one by one (several sources), and the mean of equal loads."""
    lay, f, alpha, k_s, dt = field(case, r, 'UHTR')
    nb = len(f)
    nt = int(r.integers(2, 10))
    name = str(gen.pick(r, ['cj', 'mlaa', 'liu']))
    LA = scheme(gt, r, name, dt, nt, n=nb)
    want = np.asarray(LA.get_times_for_simulation(), dtype=float)
    info = dict(field=f, alpha=alpha, k_s=k_s, dt=dt, scheme=name, nt=nt)
    mon.state('each', lay, nb, name)
    bs = gen.boreholes(f)
    h = np.asarray(gt.heat_transfer.finite_line_source(want, alpha, bs, bs))
    LA.initialize(h / (2 * np.pi * k_s))
    q = np.array([history(r, str(gen.pick(r, ['heating', 'alternating', 'idle'])), nt) for _ in f])
    segs, owner = ground.segment_field(f, [1] * nb, [None] * nb)
    H = ground.response_matrix(segs, owner, dt * np.arange(1, nt + 1), alpha) / (2 * np.pi * k_s)
    inc = np.diff(np.concatenate([np.zeros((nb, 1)), q], axis=1), axis=1)
    T = []
    for p in range(nt):
        LA.next_time_step((p + 1) * dt)
        LA.set_current_load(q[:, p])
        T.append(np.ravel(LA.temporal_superposition()).copy())
    W = [sum((H[:, :, p - k] @ inc[:, k] for k in range(p + 1)), np.zeros(nb)) for p in range(nt)]
    S = float(np.max(np.abs(W))) + 1e-4
    mon.close('each.wall', T, W, rtol=0., atol=1e-8 * S, **info)
    # equal loads: their mean is what the uniform-rate g-function predicts
    LA.initialize(h / (2 * np.pi * k_s))
    L1 = scheme(gt, gen.rng(case), name, dt, nt)
    w1 = np.asarray(L1.get_times_for_simulation(), dtype=float)
    g = gt.gfunction.gFunction(gen.boreholes(f), alpha, time=w1, boundary_condition='UHTR', method='detailed',
                              options=dict(nSegments=int(r.integers(1, 4))))
    L1.initialize(np.asarray(g.gFunc) / (2 * np.pi * k_s))
    LB = scheme(gt, r, name, dt, nt, n=nb)
    LB.initialize(np.asarray(gt.heat_transfer.finite_line_source(np.asarray(LB.get_times_for_simulation()), alpha, bs, bs)) / (2 * np.pi * k_s))
    Lb = np.array([b[0] for b in f])
    a, b = [], []
    for p in range(nt):
        for x in (L1, LB):
            x.next_time_step((p + 1) * dt)
        L1.set_current_load(q[0, p])
        LB.set_current_load(np.full(nb, q[0, p]))
        a.append(float(np.ravel(L1.temporal_superposition())[0]))
        b.append(float(Lb @ np.ravel(LB.temporal_superposition()) / Lb.sum()))
    mon.close('each.mean', a, b, rtol=0., atol=1e-7 * (np.max(np.abs(b)) + 1e-6), **info)


def driven(case, mon, r, gt):
    """The inlet fluid temperature is given: the load of each step is solved for by setting it again until it fits."""
    bc = 'MIFT'
    nt = int(r.integers(2, 9))
    name = str(gen.pick(r, ['cj', 'mlaa', 'liu']))
    f, nd, net, m, cp, L, alpha, k_s, dt, ns, ratios, lk, LA, gv, info = setup(case, mon, r, gt, bc, name, nt)
    T_g = float(r.uniform(5., 20.))
    T_in = T_g + r.uniform(-10., 10., nt)
    LA.initialize(gv / (2 * np.pi * k_s))
    Qs = []
    for p in range(nt):
        LA.next_time_step((p + 1) * dt)
        # two loads give the straight line of the residual, its root is the load; checked by setting it
        res = []
        for q in (0., 10.):
            LA.set_current_load(q)
            Tb = T_g - float(np.ravel(LA.temporal_superposition())[0])
            res.append(float(np.ravel(net.get_network_heat_extraction_rate(T_in[p], Tb, m, cp, nSegments=1))[0]) / L - q)
        q = -res[0] * 10. / (res[1] - res[0])
        LA.set_current_load(q)
        Tb = T_g - float(np.ravel(LA.temporal_superposition())[0])
        Q = float(np.ravel(net.get_network_heat_extraction_rate(T_in[p], Tb, m, cp, nSegments=1))[0])
        Qs.append(Q)
        mon.close('driven', Q / L, q, rtol=1e-9, atol=1e-8, what='residual', **info)
    _, _, W, _ = coupled(f, ns, ratios, alpha, k_s, dt, T_in, bc, net, m, cp, T_g, drive=True)
    mon.close('driven', np.array(Qs) / L, W / L, rtol=0., atol=1e-6 * (1e-3 + np.max(np.abs(W)) / L), what='rates', **info)
