"""C19: flow reversal."""
import numpy as np

from vp import bore, gen, netwalk, pipe_ref

RULE = ('Boreholes of every pipe arrangement queried with negative flow against the same borehole with its legs exchanged '
        '(outer to inner, first to last), symmetric boreholes against themselves, boreholes that are not reversible against '
        'the absolute flow; networks with random chains against the network with chains listed backwards and legs '
        'exchanged. Distinct by (pipe kind, legs, symmetric, number of segments) and (connections, pipe kind, reversible).')
ORACLES = ['legs-exchanged.T', 'legs-exchanged.Q', 'legs-exchanged.out', 'legs-exchanged.in', 'legs-exchanged.R',
           'symmetric', 'blocked.T', 'blocked.Q', 'blocked.out', 'blocked.in', 'blocked.R', 'network.in', 'network.out',
           'network.Q', 'network.R', 'network.blocked', 'g-function']
ASSUMPTIONS = ['thermal resistances are symmetric to the accuracy of the multipole iterations (1e-5): results of the '
               'borehole with its legs exchanged are compared to 2e-5 of the temperature span']
PIPES = gen.PIPE_KINDS


def cases(r, tier):
    n = 30 if tier == 'quick' else 500
    out = [dict(kind='borehole', pipe=k, sub=f, i=i) for k in PIPES for f in ('exchange', 'symmetric', 'blocked')
           for i in range(n)]
    out += [dict(kind='network', pipe=k, field=f, i=i) for k in PIPES if k != 'independent'
            for f in ('line', 'mixed_H', 'single', 'random') for i in range(max(3, n // 6))]
    out += [dict(kind='gfunction', pipe=k, i=i) for k in PIPES if k != 'independent' for i in range(max(2, n // 15))]
    return out


def exchanged(d):
    """The same borehole with its legs exchanged, and the map new leg -> old leg."""
    k = d['kind']
    if k.startswith('coax'):
        return dict(d, r_in=d['r_in'][::-1], r_out=d['r_out'][::-1]), [1, 0]
    N = len(d['pos'])
    n = N // 2
    if k.endswith('series'):
        order = [N - 1 - i for i in range(N)]
    else:
        order = [i + n for i in range(n)] + [i for i in range(n)]
    return dict(d, pos=[d['pos'][o] for o in order]), order


def queries(p, s, m, Q2, z):
    Ti, _, cp, q = bore.args(s)
    Tb = np.array(s['Tb'])
    o = dict(T=p.get_temperature(z, Ti, Tb, m, cp, segment_ratios=q),
             out=np.atleast_1d(p.get_outlet_temperature(Ti, Tb, m, cp, segment_ratios=q)),
             Q=np.concatenate([np.atleast_1d(p.get_borehole_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q)),
                               np.atleast_1d(p.get_fluid_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q)),
                               np.atleast_1d(p.get_total_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q))]))
    o['in'] = np.atleast_1d(p.get_inlet_temperature(Q2, Tb, m, cp, segment_ratios=q))
    if np.size(m) == 1 and p.nInlets == 1:
        o['R'] = p.effective_borehole_thermal_resistance(m, cp)
    return o


def compare(mon, name, a, b, tol, cap, x_in, info, legs=None):
    for k in ('T', 'out', 'Q', 'in', 'R'):
        if k not in a:
            continue
        va, vb = a[k], b[k]
        if k == 'T' and legs is not None:
            va = va[:, legs]        # reversed borehole, in the legs of the exchanged one
        sc = {'T': 60., 'out': 60., 'Q': 60. * cap, 'in': x_in, 'R': max(abs(float(np.max(b.get('R', 0)))), 1e-6)}[k]
        if k == 'R':
            rel = tol * max(1., x_in / 60.)
            mon.close(f'{name}.R', va, vb, rtol=rel, scale=sc, **info)
        else:
            mon.close(f'{name}.{k}', va, vb, rtol=tol * (4 if k == 'Q' else 1), scale=sc, **info)


def run(case, mon):
    r = gen.rng(case)
    if case['kind'] == 'borehole':
        return run_borehole(case, mon, r)
    return run_network(case, mon, r)


def run_borehole(case, mon, r):
    kind, sub = case['pipe'], case['sub']
    s = bore.borehole(r, kind, 'backward' if sub != 'blocked' else 'blocked', stiff=4.)
    if sub == 'symmetric':      # both legs of each circuit at equivalent places
        if kind in ('single_asym', 'coax_annular', 'coax_inner'):
            kind = 'single'
        d = s['pipe']
        s['pipe'] = d = gen.pipe(r, kind, s['rb'])
        if 'n' in d:
            n = d['n']
            a0, ds = np.arctan2(d['pos'][0][1], d['pos'][0][0]), float(np.hypot(*d['pos'][0]))
            # legs of the reversed circuit are the point images of those of the forward circuit
            order = [0] * (2 * n)
            for i in range(n):
                j = (2 * n - 1 - i) if kind.endswith('series') else i + n
                order[i], order[j] = i, i + n       # opposite slots
            d['pos'] = [[float(ds * np.cos(a0 + np.pi * o / n)), float(ds * np.sin(a0 + np.pi * o / n))] for o in order]
        s['cp'] = float(np.atleast_1d(s['cp'])[0])
        s['m'] = [float(v) for v in np.resize(s['m'], d['n'])] if kind == 'independent' else float(np.atleast_1d(s['m'])[0])
        x = pipe_ref.stiffness(d, s['H'], s['rb'], s['m'], s['cp'])
        if x > 4.:
            s['m'] = (np.array(s['m']) * x / 4.).tolist()
        if kind == 'independent':
            k = d['n']
            s['m'] = ([-abs(v) for v in np.resize(s['m'], k)])
            s['Ti'] = [float(v) for v in np.resize(s['Ti'], k)]
        else:
            s['m'] = float(np.atleast_1d(s['m'])[0])
            s['Ti'] = float(np.atleast_1d(s['Ti'])[0])
    Ti, m, cp, q = bore.args(s)
    info = dict(s=s)
    z = np.sort(np.concatenate([[0., s['H']], r.uniform(0., s['H'], 4)]))
    Q2 = r.uniform(-3e3, 3e3) if np.ndim(Ti) == 0 else r.uniform(-3e3, 3e3, np.size(Ti))
    K = pipe_ref.delta_circuit(s['pipe'], s['rb'])
    asym = float(np.max(np.abs(K - K.T)) / np.max(np.abs(K)))
    x = pipe_ref.stiffness(s['pipe'], s['H'], s['rb'], m, cp)
    mcp = np.abs(np.atleast_1d(m) * np.atleast_1d(cp))
    cap = float(np.max(mcp))
    mon.state(case['pipe'], len(K), sub, s['ns'])
    if sub == 'blocked':
        if np.size(m) > 1 and r.random() < 0.5:     # independent circuits, some negative
            m = m * r.choice([-1., 1.], len(m))
            s['m'] = m.tolist()
        a = queries(bore.build(s), s, m, Q2, z)
        for rev in (False, True):
            b = queries(bore.build(dict(s, reversible=rev)), s, np.abs(m), Q2, z)
            x_in = max(float(np.max(np.abs(b['in']))), 60.)
            compare(mon, 'blocked', a, b, 1e-10 + 1e-14 * np.exp(2 * x), cap, x_in, info)
        return
    p = bore.build(s)
    a = queries(p, s, m, Q2, z)
    d2, legs = exchanged(s['pipe'])
    if np.size(m) > 1 and r.random() < 0.5 and sub == 'exchange':
        # only some of the independent circuits flow backward
        sg = r.choice([-1., 1.], len(m))
        m = np.abs(m) * sg
        s['m'] = m.tolist()
        a = queries(p, s, m, Q2, z)
        n = len(m)
        legs = [i + n if sg[i] < 0 else i for i in range(n)] + [i if sg[i] < 0 else i + n for i in range(n)]
        d2 = dict(s['pipe'], pos=[s['pipe']['pos'][o] for o in legs])
    b = queries(bore.build(dict(s, pipe=d2)), s, np.abs(m), Q2, z)
    # the temperature of the inlet for a given rate is sensitive when little of it is exchanged
    x_in = max(float(np.max(np.abs(b['in']))), 60.)
    tol = 1e-9 + 30 * max(asym, 1e-7 * (s['pipe']['J'] > 0)) * max(1., x) + 1e-14 * np.exp(2 * x)
    tol = min(tol, 2e-4)
    amp = x_in / 60.
    compare(mon, 'legs-exchanged', a, b, tol * max(1., amp), cap, x_in, info, legs)
    if sub == 'symmetric':
        c = queries(p, s, np.abs(m), Q2, z)
        mon.close('symmetric', a['out'], c['out'], rtol=tol, scale=60., **info)
        mon.close('symmetric', a['Q'], c['Q'], rtol=tol * 4, scale=60. * cap, **info)
        mon.close('symmetric', a['T'][:, legs], c['T'], rtol=tol, scale=60., **info)
        mon.close('symmetric', a['in'], c['in'], rtol=tol * amp, scale=x_in, **info)


def run_network(case, mon, r):
    import pygfunction as gt
    kind = case.get('field', 'line')
    f = gen.field(r, kind, 6)[:6]
    nb = len(f)
    net = gen.network(r, f, pipe_kind=case['pipe'])
    c = net['c']
    rev = bool(r.random() < 0.7)
    ins, circ = netwalk.circuit_of(c)
    back = [-1] * nb
    for i, v in enumerate(c):
        if v != -1:
            back[v] = i
    ins2, circ2 = netwalk.circuit_of(back)
    m = net['m']
    if r.random() < 0.5:
        m = net['m'] / len(ins) * r.uniform(0.5, 1.6, len(ins))
    m2 = m
    if np.ndim(m):      # flow of each circuit, in the order of the inlets of the mirrored network
        m2 = np.array([m[circ[i]] for i in ins2])
    bhs = gen.boreholes(f)
    dd = [net['pipe']] * nb
    if rev:
        d2 = exchanged(net['pipe'])[0]
    else:
        d2 = net['pipe']
    A = gt.networks.Network(bhs, [gen.build_pipe(d, b, reversible=rev) for d, b in zip(dd, bhs)], bore_connectivity=list(c))
    bh2 = gen.boreholes(f)
    B = gt.networks.Network(bh2, [gen.build_pipe(d2, b) for b in bh2], bore_connectivity=back)
    cp = net['cp']
    H = max(b[0] for b in f)
    _, mb = netwalk.flows(c, m)
    x = max(pipe_ref.stiffness(net['pipe'], b[0], b[2], v, cp) for b, v in zip(f, mb))
    K = pipe_ref.delta_circuit(net['pipe'], f[0][2])
    asym = float(np.max(np.abs(K - K.T)) / np.max(np.abs(K)))
    tol = min(2e-4, 1e-9 + 30 * max(asym, 1e-7 * (net['pipe']['J'] > 0)) * max(1., x) * nb + 1e-14 * np.exp(2 * x)) \
        if rev else 1e-9 + 1e-14 * np.exp(2 * x)
    info = dict(field=f, net=net, m=m, rev=rev)
    if case['kind'] == 'gfunction':
        alpha = 1e-6
        ts = np.mean([b[0] for b in f])**2 / (9 * alpha)
        t = ts * np.array([0.02, 0.3, 3.])
        g = [gt.gfunction.gFunction(o, alpha, time=t, boundary_condition='MIFT', method='similarities',
                                    options=dict(nSegments=3), **k).gFunc
             for o, k in ((A, dict(m_flow_network=-m) if np.ndim(m) == 0 else dict(m_flow_borehole=-np.array(m))),
                          (B, dict(m_flow_network=m) if np.ndim(m) == 0 else dict(m_flow_borehole=np.array(m2))))
             for k in (dict(k, cp_f=cp),)]
        mon.close('g-function', g[0], g[1], rtol=1e-7 + 20 * tol, **info)
        mon.state('g', tuple(c), case['pipe'], rev)
        return
    ns = [int(v) for v in r.integers(1, 4, nb)]
    qs = [np.array(gen.ratios(r, n)) for n in ns]
    Tb = r.uniform(-5., 20., sum(ns))
    Ti = float(r.uniform(-5., 30.))
    cap = float(np.sum(np.abs(netwalk.flows(c, m)[0]))) * cp
    mon.state('net', tuple(c) if nb < 5 else len(ins), case['pipe'], rev)
    kw = dict(segment_ratios=qs)
    Qt = float(r.uniform(-4e3, 4e3))
    for name, fn, sc in (
            ('network.in', lambda n, m: n.get_inlet_temperature(Ti, Tb, m, cp, ns, **kw), 60.),
            ('network.out', lambda n, m: n.get_outlet_temperature(Ti, Tb, m, cp, ns, **kw), 60.),
            ('network.out', lambda n, m: n.get_network_outlet_temperature(Ti, Tb, m, cp, ns, **kw), 60.),
            ('network.Q', lambda n, m: n.get_borehole_heat_extraction_rate(Ti, Tb, m, cp, ns, **kw), 60. * cap),
            ('network.Q', lambda n, m: n.get_fluid_heat_extraction_rate(Ti, Tb, m, cp, ns, **kw), 60. * cap),
            ('network.Q', lambda n, m: n.get_network_heat_extraction_rate(Ti, Tb, m, cp, ns, **kw), 60. * cap)):
        a, b = fn(A, -m), fn(B, m2)
        mon.close(name, a, b, rtol=tol * (4 if 'Q' in name else 1), scale=sc, **info)
        if not rev:
            mon.close('network.blocked', a, b, rtol=tol * (4 if 'Q' in name else 1), scale=sc, **info)
    Ra, Rb = (gt.networks.network_thermal_resistance(A, -m, cp), gt.networks.network_thermal_resistance(B, m2, cp))
    a = A.get_network_inlet_temperature(Qt, Tb, -m, cp, ns, **kw)
    b = B.get_network_inlet_temperature(Qt, Tb, m2, cp, ns, **kw)
    amp = max(1., abs(b) / 60.)
    mon.close('network.in', a, b, rtol=tol * amp, scale=60. * amp, **info)
    k = cap * Rb / sum(b[0] for b in f)
    mon.close('network.R', Ra, Rb, rtol=tol * max(1., k) * 10, **info)
