"""C11: mixed inlet temperature g-functions."""
import numpy as np

from vp import gen, ground, netwalk, pipe_ref
from vp.props.c06 import segmentation

RULE = ('Fields with random connections (parallel, series, chains, reversed listing), equal and per-circuit flows of '
        'either sign, all pipe types, several segmentations and time grids; the stored histories are substituted in '
        'the boreholes followed one by one and in an independently integrated ground model. Distinct by (field kind, '
        'connections, pipe type, method, time grid, flow form and direction).')
ORACLES = ['energy', 'network.Q_b', 'common-inlet', 'network.total', 'ground', 'effective-temperature', 'linearized',
           'inclined.ground', 'reversed.flow']
ASSUMPTIONS = ['each borehole alone is queried through its pipe object (checked against the differential equations by '
               'C17/C18); connections, flows, mixing and field resistance are recomputed here',
               'sign convention of the solver: temperatures below the undisturbed ground']
CASE_LIMIT = 300
REV = 1e-6
PIPES = gen.PIPE_KINDS[:6] + gen.PIPE_KINDS[7:]


def cases(r, tier):
    n = 3 if tier == 'quick' else 20
    out = []
    for k in gen.FIELD_KINDS:
        for p in PIPES:
            for i in range(n):
                out.append(dict(kind='vertical', field=k, pipe=p, i=i))
    for k in gen.INCLINED_KINDS:
        for i in range(2 * n):
            out.append(dict(kind='inclined', field=k, pipe=gen.pick(r, PIPES), i=i))
    return out


def cost(c):
    return 10 * (c['kind'] == 'inclined')


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    inc = case['kind'] == 'inclined'
    for _ in range(60):
        f = gen.field(r, case['field'], 3 if inc else 6)[:3 if inc else 6]
        if not inc or len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    if r.random() < 0.15:
        f = gen.spread(r, f)
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    tk = gen.pick(r, ['late', 'uniform', 'geometric', 'random', 'threshold', 'sparse'])
    time = np.array(gen.times(r, tk, ts, rb, alpha))
    if inc or len(time) > 7:
        time = time[::2]
    method = gen.pick(r, ['detailed', 'similarities'])
    net = gen.network(r, f, pipe_kind=case['pipe'])
    c = net['c']
    ins, _ = netwalk.circuit_of(c)
    sgn = -1. if r.random() < 0.3 else 1.
    form = gen.pick(r, ['network', 'borehole', 'object', 'object_borehole'])
    m = sgn * net['m']
    if 'borehole' in form:
        m = m / len(ins) * r.uniform(0.4, 1.6, len(ins))
    mode, nseg, ratio_arg, nsegs, qs = segmentation(r, nb, 2 if inc else (5 if nb < 4 else 3))
    opts = dict(nSegments=nseg, segment_ratios=ratio_arg, profiles=True)
    if inc:
        opts['mQuad'] = 121
    if method == 'similarities':
        opts['disTol'] = 1e-6
    bhs = gen.boreholes(f)
    dd = [net['pipe']] * nb
    if r.random() < 0.3:        # unequal piping
        d2 = gen.pipe(r, gen.pick(r, PIPES), min(b[2] for b in f))
        d2['k_s'] = net['pipe']['k_s']
        # unequal piping: stay within the range where the closed forms are accurate
        x = max(pipe_ref.stiffness(d2, b[0], b[2], mi, net['cp']) for b, mi in zip(f, netwalk.flows(c, m)[1]))
        if x > 6.:
            d2 = net['pipe']
        dd = [d2 if r.random() < 0.5 else net['pipe'] for _ in range(nb)]
    pipes = [gen.build_pipe(d, b) for d, b in zip(dd, bhs)]
    kw = {}
    okw = {}
    if form == 'network':
        kw = dict(m_flow_network=float(m), cp_f=net['cp'])
    elif form == 'borehole':
        kw = dict(m_flow_borehole=np.array(m), cp_f=net['cp'])
    else:
        okw = dict(m_flow_network=float(m) if form == 'object' else np.array(m), cp_f=net['cp'])
    arg = gt.networks.Network(bhs, pipes, bore_connectivity=list(c), **okw)
    g = gt.gfunction.gFunction(arg, alpha, time=time, method=method,
                               boundary_condition=None if r.random() < 0.3 else 'MIFT', options=opts, **kw)
    info = dict(field=f, net=net, m=m, nsegs=nsegs, ratios=qs, alpha=alpha, time=time, method=method, form=form)
    mon.state(case['field'], tuple(c) if nb < 4 else len(ins), case['pipe'], method, tk, form, sgn)
    # reciprocity: sending the fluid the other way around moves heat between boreholes but keeps the g-function
    gr = gt.gfunction.gFunction(
        gt.networks.Network(gen.boreholes(f), [gen.build_pipe(d, b) for d, b in zip(dd, gen.boreholes(f))], bore_connectivity=list(c)),
        alpha, time=time, method=method, boundary_condition='MIFT', options=opts,
        **({'m_flow_network' if np.ndim(m) == 0 else 'm_flow_borehole': -m if np.ndim(m) else -float(m)}), cp_f=net['cp'])
    k0 = max(0, int(np.searchsorted(time, ground.split_times(time, rb, alpha)[0], side='right')) - 1) + 1
    if not inc:         # exact at the first time step (the histories of later steps do not commute)
        mon.close('reversed.flow', gr.gFunc[:k0], g.gFunc[:k0], rtol=REV, atol=REV, **info)
    s = g.solver
    Q, T = np.asarray(s.Q_b), np.asarray(s.T_b)
    segs, owner = ground.segment_field(f, nsegs, qs)
    L = np.array([x[0] for x in segs])
    H = L.sum()
    k_s = net['pipe']['k_s']
    cp = net['cp']
    # fresh boreholes
    bh2 = gen.boreholes(f)
    fresh = [gen.build_pipe(d, b) for d, b in zip(dd, bh2)]
    ra = [np.array(q) for q in qs]
    off = np.concatenate([[0], np.cumsum(nsegs)])
    cond = max(1., float(np.max(np.abs(Q))))
    mon.close('energy', L @ Q / H, np.ones(len(time)), rtol=1e-8 * cond, **info)
    th, n0, tl = ground.split_times(time, rb, alpha)
    if n0:
        lam = th / time[n0 - 1]
        Qt = np.concatenate([(1. + (Q[:, n0 - 1] - 1.) * lam)[:, None], Q[:, n0:]], axis=1)
        Tt = np.concatenate([T[:, n0 - 1:n0] * lam, T[:, n0:]], axis=1)
        gt_ = np.concatenate([[g.gFunc[n0 - 1] * lam], g.gFunc[n0:]])
        mon.close('linearized', g.gFunc[:n0], gt_[0] * time[:n0] / th, rtol=1e-9, **info)
        mon.close('linearized', T[:, :n0], np.outer(Tt[:, 0], time[:n0] / th), rtol=1e-9, **info)
        mon.close('linearized', Q[:, :n0], 1. + np.outer(Qt[:, 0] - 1., time[:n0] / th), rtol=1e-9, **info)
    else:
        Qt, Tt, gt_ = Q, T, np.asarray(g.gFunc)
    R = netwalk.resistance(c, m, cp, H, lambda i, T_in, mi: fresh[i].get_outlet_temperature(
        float(T_in), 0., float(mi), cp))
    per, mb = netwalk.flows(c, m)
    mt = float(np.sum(np.abs(per)))
    unit = 2 * np.pi * k_s

    def outlet(p):
        def fn(i, T_in, mi):
            return fresh[i].get_outlet_temperature(float(T_in), -Tt[off[i]:off[i + 1], p], float(mi), cp,
                                                   segment_ratios=ra[i])
        return fn

    for p in range(len(tl)):
        # inlet temperature that gives the total heat extraction rate
        e0 = mt * cp * (netwalk.walk(c, m, 0., outlet(p))[2] - 0.)
        e1 = mt * cp * (netwalk.walk(c, m, 1., outlet(p))[2] - 1.)
        T_in = (unit * H - e0) / (e1 - e0)
        Ti, To, mix = netwalk.walk(c, m, T_in, outlet(p))
        scale = unit * np.max(np.abs(Qt[:, p])) * max(L)
        amp = np.max(np.abs(Ti)) / max(abs(T_in), 1e-9)
        for i in range(nb):
            q = fresh[i].get_borehole_heat_extraction_rate(float(Ti[i]), -Tt[off[i]:off[i + 1], p], float(mb[i]), cp,
                                                           segment_ratios=ra[i])
            mon.close('network.Q_b', q, unit * (L * Qt[:, p])[off[i]:off[i + 1]], rtol=1e-7, scale=scale * max(amp, 1.),
                      borehole=i, p=p, **info)
        mon.close('common-inlet', mt * cp * (mix - T_in), unit * H, rtol=1e-8, scale=max(unit * H, mt * cp * abs(T_in)), **info)
        Teff = 0.5 * (T_in + mix) + unit * R
        mon.close('effective-temperature', gt_[p], -Teff, rtol=1e-8, scale=max(abs(T_in), unit * abs(R), 1e-3), p=p, **info)
        # the same through the network object (fresh)
        if p == len(tl) - 1:
            net2 = gt.networks.Network(bh2, fresh, bore_connectivity=list(c))
            mm = float(m) if np.ndim(m) == 0 else m
            Tn = net2.get_network_inlet_temperature(unit * H, -Tt[:, p], mm, cp, list(nsegs), segment_ratios=ra)
            mon.close('network.total', Tn, T_in, rtol=1e-8, **info)
            mon.close('network.total', gt.networks.network_thermal_resistance(net2, mm, cp), R, rtol=1e-8, **info)
            mon.close('network.total', net2.get_borehole_heat_extraction_rate(Tn, -Tt[:, p], mm, cp, list(nsegs),
                                                                              segment_ratios=ra),
                      unit * L * Qt[:, p], rtol=1e-7, scale=scale * max(amp, 1.), **info)
    h = ground.response_matrix(segs, owner, tl, alpha)
    Tw = ground.wall_temperature(h, tl, Qt)
    tol = (dict(rtol=2e-3, atol=2e-3 * cond) if inc else dict(rtol=4e-6 * cond, atol=4e-6 * cond))
    mon.close(('inclined.' if inc else '') + 'ground', Tt, Tw, **tol, **info)
