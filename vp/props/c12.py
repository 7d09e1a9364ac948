"""C12: variable mass flow rate g-functions."""
import numpy as np

from vp import gen, ground, netwalk
from vp.props.c06 import segmentation

RULE = ('Fields with random connections, 1 to 4 flow rates (total or per circuit, either sign), all pipe types, three '
        'solution methods and time grids on both sides of the linearization threshold; each entry of the matrix is '
        'compared with a single-flow run or with the network walked borehole by borehole. Distinct by (field, '
        'connections, pipe type, method, time grid, form and number of flows).')
ORACLES = ['shape', 'diagonal', 'diagonal.histories', 'off-diagonal', 'below-threshold', 'zero', 'permutation',
           'equivalent.off-diagonal', 'subset']
ASSUMPTIONS = ['each borehole alone is queried through its pipe object (checked by C17/C18)',
               'sign convention of the solver: temperatures below the undisturbed ground']
CASE_LIMIT = 300
PIPES = gen.PIPE_KINDS[:6] + gen.PIPE_KINDS[7:]


def cases(r, tier):
    n = 5 if tier == 'quick' else 40
    out = []
    for k in gen.FIELD_KINDS:
        for method in ('detailed', 'similarities', 'equivalent'):
            for i in range(n):
                out.append(dict(kind='vertical', field=k, method=method, pipe=gen.pick(r, PIPES), i=i))
    for k in gen.INCLINED_KINDS:
        for i in range(n):
            out.append(dict(kind='inclined', field=k, method=gen.pick(r, ['detailed', 'similarities']),
                            pipe=gen.pick(r, PIPES), i=i))
    return out


def cost(c):
    return 10 * (c['kind'] == 'inclined') + 2 * (c['method'] == 'equivalent')


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    inc = case['kind'] == 'inclined'
    method = case['method']
    nmax = 3 if inc else 5
    for _ in range(60):
        f = gen.field(r, case['field'], nmax)[:nmax]
        if not inc or len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    if r.random() < 0.15:
        f = gen.spread(r, f)
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    tk = gen.pick(r, ['late', 'uniform', 'random', 'threshold', 'threshold', 'below', 'with_zero', 'sparse'])
    th0 = rb**2 / (25 * alpha)
    if tk == 'below':
        time = th0 * np.sort(r.uniform(0.01, 1., int(r.integers(1, 5))))
    elif tk == 'with_zero':
        time = np.concatenate([[0.], th0 * np.array([0.4, 30., 3e3])])
    else:
        time = np.array(gen.times(r, tk, ts, rb, alpha))
        if len(time) > 5:
            time = time[::2] if tk != 'threshold' else time[[0, 1, 2, 4, 6]]
    conn = 'parallel' if method == 'equivalent' else None
    net = gen.network(r, f, conn=conn, pipe_kind=case['pipe'])
    c, cp = net['c'], net['cp']
    ins, _ = netwalk.circuit_of(c)
    form = gen.pick(r, ['network', 'borehole'])
    nm = int(r.integers(1, 5))
    fac = np.sort(r.uniform(1., 3., nm)) * np.where(r.random(nm) < 0.3, -1., 1.)
    fac = r.permutation(fac)
    if r.random() < 0.2 and nm > 1:
        fac[1] = fac[0]         # the same flow rate twice
    if form == 'network':
        m = net['m'] * fac
    else:
        split = r.uniform(0.6, 1.5, (nm, len(ins))) if method != 'equivalent' else np.ones((nm, len(ins)))
        m = net['m'] / len(ins) * fac[:, None] * split
    mode, nseg, ratio_arg, nsegs, qs = segmentation(r, nb, 2 if inc else (4 if nb < 4 else 3),
                                                    equal=method == 'equivalent')
    opts = dict(nSegments=nseg, segment_ratios=ratio_arg, profiles=True)
    if inc:
        opts['mQuad'] = 61
    if method == 'similarities':
        opts['disTol'] = 1e-6

    def make():
        bhs = gen.boreholes(f)
        pipes = [gen.build_pipe(net['pipe'], b) for b in bhs]
        return bhs, pipes, gt.networks.Network(bhs, pipes, bore_connectivity=list(c))

    def solve(mm):
        _, _, nw = make()
        kw = {'m_flow_network' if form == 'network' else 'm_flow_borehole': mm}
        return gt.gfunction.gFunction(nw, alpha, time=time, method=method, boundary_condition='MIFT', cp_f=cp,
                                      options=dict(opts), **kw)

    g = solve(np.array(m))
    G = np.asarray(g.gFunc)
    info = dict(field=f, net=net, m=m, nsegs=nsegs, ratios=qs, alpha=alpha, time=time, method=method, form=form)
    mon.state(case['field'], tuple(c) if nb < 4 else len(ins), case['pipe'], method, tk, form, nm)
    if not mon.check('shape', G.shape == (nm, nm, len(time)), shape=G.shape, **info):
        return
    Q, T = np.asarray(g.solver.Q_b), np.asarray(g.solver.T_b)
    scale = max(1e-12, float(np.max(np.abs(G))))
    for i in range(nm):
        one = solve(float(m[i]) if form == 'network' else np.array(m[i]))
        mon.close('diagonal', G[i, i], one.gFunc, rtol=1e-9, scale=scale, i=i, **info)
        mon.close('diagonal.histories', Q[i], one.solver.Q_b, rtol=1e-9, scale=max(1., np.max(np.abs(Q))), i=i, **info)
        mon.close('diagonal.histories', T[i], one.solver.T_b, rtol=1e-9, scale=max(1e-9, np.max(np.abs(T))), i=i, **info)
    th, n0, tl = ground.split_times(time, rb, alpha)
    if n0:
        ref = max(range(n0), key=lambda k: time[k])
        if time[ref] > 0:
            mon.close('below-threshold', G[:, :, :n0], G[:, :, ref:ref + 1] * time[:n0] / time[ref], rtol=1e-9,
                      scale=max(np.max(np.abs(G[:, :, ref])), 1e-12), **info)
        if np.any(time == 0.):
            mon.close('zero', G[:, :, time == 0.], 0., atol=1e-14, **info)
            mon.close('zero', T[:, :, time == 0.], 0., atol=1e-14, **info)
            mon.close('zero', Q[:, :, time == 0.], 1., atol=1e-12, **info)
    if nm > 1:
        p = r.permutation(nm)
        Gp = np.asarray(solve(np.array(m)[p]).gFunc)
        mon.close('permutation', Gp, G[np.ix_(p, p)], rtol=1e-9, scale=scale, p=p, **info)
        k = int(r.integers(1, nm))
        sub = [int(v) for v in np.sort(r.permutation(nm)[:k])]
        Gs = np.asarray(solve(np.array(m)[sub]).gFunc)
        mon.close('subset', Gs, G[np.ix_(sub, sub)], rtol=1e-9, scale=scale, sub=sub, **info)
    if nm == 1:
        return
    if method == 'equivalent':      # boreholes have the wall temperatures of their group
        groups = g.solver.boreholes
        n = nsegs[0]
        where = [min((abs(x - b[3]) + abs(y - b[4]), k) for k, gr in enumerate(groups)
                     for x, y in zip(np.atleast_1d(gr.x), np.atleast_1d(gr.y))) for b in f]
        if any(d > 1e-6 for d, _ in where):
            mon.event('groups-not-identified')
            return
        T = np.concatenate([T[:, k * n:(k + 1) * n, :] for _, k in where], axis=1)
    # off-diagonal entries: flow i with the wall temperatures left by flow j
    k_s = net['pipe']['k_s']
    H = sum(b[0] for b in f)
    off = np.concatenate([[0], np.cumsum(nsegs)])
    bh2, fresh, _ = make()
    ra = [np.array(q) for q in qs]
    unit = 2 * np.pi * k_s
    if n0:
        ref = n0 - 1
        if time[ref] == 0.:
            Tt, Gt, tl = T[:, :, n0:], G[:, :, n0:], tl[1:]
        else:
            lam = th / time[ref]
            Tt = np.concatenate([T[:, :, ref:ref + 1] * lam, T[:, :, n0:]], axis=2)
            Gt = np.concatenate([G[:, :, ref:ref + 1] * lam, G[:, :, n0:]], axis=2)
    else:
        Tt, Gt = T, G
    for i in range(nm):
        mi = float(m[i]) if form == 'network' else np.array(m[i])
        per, _ = netwalk.flows(c, mi)
        mt = float(np.sum(np.abs(per)))
        R = netwalk.resistance(c, mi, cp, H, lambda k, T_in, mk: fresh[k].get_outlet_temperature(
            float(T_in), 0., float(mk), cp))
        for j in range(nm):
            for p in sorted({0, len(tl) // 2, len(tl) - 1}):
                def outlet(k, T_in, mk):
                    return fresh[k].get_outlet_temperature(float(T_in), -Tt[j, off[k]:off[k + 1], p], float(mk), cp,
                                                           segment_ratios=ra[k])
                e0 = mt * cp * (netwalk.walk(c, mi, 0., outlet)[2] - 0.)
                e1 = mt * cp * (netwalk.walk(c, mi, 1., outlet)[2] - 1.)
                T_in = (unit * H - e0) / (e1 - e0)
                mix = T_in + unit * H / (mt * cp)
                Teff = 0.5 * (T_in + mix) + unit * R
                mon.close('equivalent.off-diagonal' if method == 'equivalent' else 'off-diagonal', Gt[i, j, p], -Teff, rtol=1e-8, scale=max(abs(T_in), unit * abs(R), 1e-3),
                          i=i, j=j, p=p, **info)
