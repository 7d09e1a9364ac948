"""C23: a network is its boreholes connected together."""
import numpy as np

from vp import gen, netwalk, pipe_ref

RULE = ('Fields of 1-8 boreholes of different lengths with chains of random connections, one or several kinds of piping, '
        'total or per-circuit flows of either sign, reversible or not, several segmentations and forms of the wall '
        'temperatures; every query is compared with a walk along the connections in which each borehole is solved alone, '
        'by its own pipe object or by the reference solution. Distinct by (connections, pipes, flow form, direction, '
        'segmentation, wall form).')
ORACLES = ['inlets', 'outlets', 'network-outlet', 'network-inlet', 'borehole-heat', 'fluid-heat', 'network-heat', 'energy',
           'resistance', 'coefficients', 'forms', 'reference.outlets', 'reference.heat', 'uniform', 'superposition']
ASSUMPTIONS = ['one borehole alone is checked by C17/C18; reference.* oracles do not use pygfunction pipes']
CASE_LIMIT = 200
PIPES = gen.PIPE_KINDS[:6] + gen.PIPE_KINDS[7:]


def cases(r, tier):
    n = 30 if tier == 'quick' else 250
    out = []
    for conn in ('parallel', 'series', 'reversed_series', 'two_series', 'tree', 'tree', 'tree'):
        for p in PIPES + ('mixed', 'mixed'):
            for i in range(n):
                out.append(dict(kind='network', conn=conn, pipe=p, i=i))
    return out


def situation(r, conn, pipe):
    nb = int(r.integers(1, 9)) if conn != 'two_series' else int(r.integers(2, 9))
    H0 = float(r.uniform(30., 200.))
    rb = float(np.round(r.uniform(0.05, 0.12), 4))
    f = [[float(np.round(H0 * gen.pick(r, [1., 1., 1.3, 0.6]), 1)), 2., rb, 7. * i, 0., 0., 0.] for i in range(nb)]
    net = gen.network(r, f, conn=conn, pipe_kind=None if pipe == 'mixed' else pipe)
    dd = [net['pipe']] * nb
    if pipe == 'mixed':
        dd = [gen.pipe(r, gen.pick(r, PIPES), rb) for _ in f]
    c = net['c']
    ins, _ = netwalk.circuit_of(c)
    m = net['m']
    if r.random() < 0.5 and len(ins) > 1:
        m = m / len(ins) * r.uniform(0.4, 1.8, len(ins))
    mb = netwalk.flows(c, m)[1]
    x = max(pipe_ref.stiffness(d, b[0], rb, mi, net['cp']) for d, b, mi in zip(dd, f, mb))
    if x > 6.:
        m = m * x / 6.
    sgn = -1. if r.random() < 0.35 else 1.
    return f, dd, c, sgn * m, net['cp']


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    f, dd, c, m, cp = situation(r, case['conn'], case['pipe'])
    nb = len(f)
    ins, circ = netwalk.circuit_of(c)
    rev = [bool(r.random() < 0.75) for _ in range(nb)] if r.random() < 0.5 else [True] * nb
    smode = gen.pick(r, ['int', 'list', 'int_ratios', 'list_ratios'])
    if smode.startswith('int'):
        n = int(r.integers(1, 5))
        nseg, nsegs = n, [n] * nb
        q = gen.ratios(r, n) if smode == 'int_ratios' else [1. / n] * n
        qs = [q] * nb
        ratio_arg = np.array(q) if smode == 'int_ratios' else None
    else:
        nsegs = [int(v) for v in r.integers(1, 5, nb)]
        nseg = list(nsegs)
        qs = [gen.ratios(r, k) if smode == 'list_ratios' else [1. / k] * k for k in nsegs]
        ratio_arg = [np.array(q) for q in qs] if smode == 'list_ratios' else None
    ntot = sum(nsegs)
    wall = gen.pick(r, ['profile', 'profile', 'uniform', 'per_borehole'])
    off = np.concatenate([[0], np.cumsum(nsegs)])
    if wall == 'uniform':
        Tb_arg = float(np.round(r.uniform(-5., 20.), 2))
        Tb = np.full(ntot, Tb_arg)
    else:
        Tb = np.round(r.uniform(-5., 20., ntot), 3)
        if wall == 'per_borehole':
            for i in range(nb):
                Tb[off[i]:off[i + 1]] = Tb[off[i]]
        Tb_arg = Tb.copy()
    T_in = float(np.round(r.uniform(-10., 40.), 2))
    cp_arg = cp if r.random() < 0.7 or len(ins) == 1 else np.full(len(ins), cp)
    marg = m if np.ndim(m) == 0 else np.array(m)
    if np.ndim(m) == 0:
        marg = float(m)
    bhs = gen.boreholes(f)
    pipes = [gen.build_pipe(d, b, reversible=v) for d, b, v in zip(dd, bhs, rev)]
    alone = [gen.build_pipe(d, b, reversible=v) for d, b, v in zip(dd, gen.boreholes(f), rev)]
    nw = gt.networks.Network(bhs, pipes, bore_connectivity=list(c))
    info = dict(field=f, c=c, pipes=dd, m=m, cp=cp, nsegs=nsegs, ratios=qs, T_in=T_in, Tb=Tb, reversible=rev)
    direction = 'backward' if np.all(np.asarray(m) < 0) else 'forward'
    mon.state(tuple(c) if nb < 5 else len(ins), case['pipe'], 'total' if np.ndim(m) == 0 else 'circuits', direction,
              smode, wall, all(rev))
    ra = [np.array(q) for q in qs]
    per, mb = netwalk.flows(c, m)
    mt = float(np.sum(np.abs(per)))

    def outlet(i, Ti, mi):
        return alone[i].get_outlet_temperature(float(Ti), Tb[off[i]:off[i + 1]], float(mi), cp, segment_ratios=ra[i])

    Ti, To, mix = netwalk.walk(c, m, T_in, outlet)
    span = max(np.max(np.abs(Tb)), abs(T_in), 1.)
    a = (marg, cp_arg, nseg)
    kw = dict(segment_ratios=ratio_arg)
    mon.close('inlets', nw.get_inlet_temperature(T_in, Tb_arg, *a, **kw), Ti, rtol=1e-8, scale=span, **info)
    mon.close('outlets', nw.get_outlet_temperature(T_in, Tb_arg, *a, **kw), To, rtol=1e-8, scale=span, **info)
    mon.close('network-outlet', nw.get_network_outlet_temperature(T_in, Tb_arg, *a, **kw), mix, rtol=1e-8, scale=span, **info)
    Q = np.concatenate([np.atleast_1d(alone[i].get_borehole_heat_extraction_rate(
        float(Ti[i]), Tb[off[i]:off[i + 1]], float(mb[i]), cp, segment_ratios=ra[i])) for i in range(nb)])
    qs_ = max(np.max(np.abs(Q)), mt * cp * 1e-3 * span)
    got = nw.get_borehole_heat_extraction_rate(T_in, Tb_arg, *a, **kw)
    mon.close('borehole-heat', got, Q, rtol=1e-7, scale=qs_, **info)
    gf = nw.get_fluid_heat_extraction_rate(T_in, Tb_arg, *a, **kw)
    mon.close('fluid-heat', gf, np.abs(mb) * cp * (To - Ti), rtol=1e-7, scale=mt * cp * span * 0.1, **info)
    mon.close('energy', [np.sum(np.asarray(got)[off[i]:off[i + 1]]) for i in range(nb)], gf, rtol=1e-7,
              scale=mt * cp * span * 0.1, **info)
    Qt = nw.get_network_heat_extraction_rate(T_in, Tb_arg, *a, **kw)
    mon.close('network-heat', Qt, mt * cp * (mix - T_in), rtol=1e-7, scale=mt * cp * span * 0.1, **info)
    mon.close('energy', np.sum(got), Qt, rtol=1e-7, scale=mt * cp * span * 0.1, **info)
    # inlet temperature from the heat extraction rate
    # (amplification: how little the total rate depends on the inlet temperature)
    e0, e1 = (mt * cp * (netwalk.walk(c, m, v, outlet)[2] - v) for v in (0., 1.))
    q_new = float(r.uniform(-1., 1.) * 50. * sum(b[0] for b in f))
    want = (q_new - e0) / (e1 - e0)
    amp = mt * cp / abs(e1 - e0)
    mon.close('network-inlet', nw.get_network_inlet_temperature(q_new, Tb_arg, *a, **kw), want, rtol=1e-8 * max(1., amp),
              scale=max(span, abs(want)), **info)
    mon.close('network-inlet', nw.get_network_inlet_temperature(Qt, Tb_arg, *a, **kw), T_in, rtol=1e-8 * max(1., amp),
              scale=span, **info)
    # field resistance
    R = netwalk.resistance(c, m, cp, sum(b[0] for b in f), lambda i, t, mi: alone[i].get_outlet_temperature(
        float(t), 0., float(mi), cp))
    mon.close('resistance', gt.networks.network_thermal_resistance(nw, marg, cp_arg), R, rtol=1e-8, **info)
    # coefficients
    for coef, val in (('coefficients_inlet_temperature', Ti), ('coefficients_outlet_temperature', To),
                      ('coefficients_network_outlet_temperature', mix),
                      ('coefficients_borehole_heat_extraction_rate', Q),
                      ('coefficients_fluid_heat_extraction_rate', np.abs(mb) * cp * (To - Ti)),
                      ('coefficients_network_heat_extraction_rate', mt * cp * (mix - T_in))):
        A, B = getattr(nw, coef)(*a, **kw)
        v = np.asarray(A) @ np.atleast_1d(T_in) + np.asarray(B) @ Tb
        mon.close('coefficients', np.ravel(v), np.ravel(val), rtol=1e-7, scale=span if 'temp' in coef else mt * cp * span * 0.1,
                  coef=coef, **info)
    A, B = nw.coefficients_network_inlet_temperature(*a, **kw)
    mon.close('coefficients', np.asarray(A) @ np.atleast_1d(q_new) + np.asarray(B) @ Tb, want, rtol=1e-8 * max(1., amp),
              scale=max(span, abs(want)), coef='network_inlet', **info)
    # other ways of stating the same
    nw2 = gt.networks.Network(bhs, [gen.build_pipe(d, b, reversible=v) for d, b, v in zip(dd, bhs, rev)],
                              bore_connectivity=None if all(v == -1 for v in c) else list(c), m_flow_network=marg, cp_f=cp,
                              nSegments=nseg, segment_ratios=ratio_arg)
    v = nw2.get_network_outlet_temperature(np.array([T_in]), Tb, np.array(per), np.full(len(ins), cp), list(nsegs),
                                           segment_ratios=list(ra))
    mon.close('forms', v, mix, rtol=1e-8, scale=span, **info)
    mon.close('forms', nw2.get_network_outlet_temperature(T_in, Tb, *a, **kw), mix, rtol=1e-8, scale=span, **info)
    # equal temperatures: nothing happens
    z = nw.get_borehole_heat_extraction_rate(T_in, T_in, *a, **kw)
    mon.close('uniform', z, np.zeros(ntot), atol=1e-9 * mt * cp * span, **info)
    # linear
    T2 = r.uniform(-3., 3., ntot)
    v = nw.get_network_outlet_temperature(T_in - 4., Tb + T2, *a, **kw)
    w = nw.get_network_outlet_temperature(-4., T2, *a, **kw)
    mon.close('superposition', v, mix + w, rtol=1e-8, scale=span + 4., **info)
    # boreholes solved by the reference
    if nb > 4 and case['i'] % 3:
        return
    refs = [pipe_ref.Reference(dd[i], f[i][0], f[i][2], float(mb[i]), cp, np.concatenate([[0.], np.cumsum(qs[i])]) * f[i][0],
                               reversible=rev[i]) for i in range(nb)]
    sols = {}

    def outlet_ref(i, t, mi):
        s = refs[i].solve(float(t), Tb[off[i]:off[i + 1]])
        s = refs[i] if s is None else s
        sols[i] = np.array(s.Q_b)
        return float(np.ravel(s.T_out)[0])

    Ti2, To2, mix2 = netwalk.walk(c, m, T_in, outlet_ref)
    mon.close('reference.outlets', nw.get_outlet_temperature(T_in, Tb_arg, *a, **kw), To2, rtol=1e-6, scale=span, **info)
    mon.close('reference.outlets', nw.get_network_outlet_temperature(T_in, Tb_arg, *a, **kw), mix2, rtol=1e-6, scale=span, **info)
    Q2 = np.concatenate([np.ravel(sols[i]) for i in range(nb)])
    mon.close('reference.heat', got, Q2, rtol=1e-5, scale=max(np.max(np.abs(Q2)), mt * cp * 1e-3 * span), **info)
