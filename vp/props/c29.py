"""C29: shortcut and deprecated entry points."""
import os
import tempfile
import warnings

import numpy as np

from vp import gen

RULE = ('Random designs (every pipe type, fluid, concentration, temperature, flow and its sign, connections, scalar, list and '
        'array inputs) through the shortcuts and built step by step; random fields and options through the deprecated '
        'functions, the bore field method and the g-function class. Distinct by (entry point, pipe type or layout, '
        'condition, argument form).')
ORACLES = ['network', 'resistances', 'gfunction', 'borefield', 'deprecated', 'defaults', 'layout', 'file']
ASSUMPTIONS = ['film and wall resistances of the explicit construction use the public correlations with the fluid at the '
               'stated temperature and the flow of each pipe (decided on their own by C21)']
CASE_LIMIT = 200
TYPES = ['SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL', 'DOUBLE_UTUBE_SERIES', 'COAXIAL_ANNULAR_IN', 'COAXIAL_ANNULAR_OUT']
LAYOUTS = ['rectangle', 'staggered', 'dense', 'L', 'U', 'box', 'circle']
OLD = ['uniform_heat_extraction', 'uniform_temperature', 'equal_inlet_temperature', 'mixed_inlet_temperature']
ALPHA = 1e-6


def cases(r, tier):
    q = tier == 'quick'
    out = [dict(kind='network', type=t, i=i) for t in TYPES for i in range(40 if q else 300)]
    out += [dict(kind='gfunction', type=t, i=i) for t in TYPES + [None] for i in range(24 if q else 100)]
    out += [dict(kind='borefield', i=i) for i in range(60 if q else 300)]
    out += [dict(kind='old', fn=f, i=i) for f in OLD for i in range(30 if q else 120)]
    out += [dict(kind='layout', layout=k, i=i) for k in LAYOUTS for i in range(40 if q else 300)]
    out += [dict(kind='file', i=i) for i in range(40 if q else 200)]
    return out


def design(r, kind, n, H):
    """Random plain data of a piping design."""
    rb = 0.075
    import pygfunction as gt
    d = dict(type=kind, rb=rb, k_s=float(r.uniform(1., 3.5)), k_g=float(r.uniform(0.6, 2.5)), J=int(r.integers(0, 4)),
             eps=float(10**r.uniform(-7., -4.)), reversible=bool(r.random() < 0.75))
    name, top = gen.pick(r, [('Water', 0.), ('MPG', 40.), ('MEG', 40.), ('MEA', 30.), ('MMA', 30.)])
    d['fluid'] = str(name) if r.random() < 0.7 else str(name).lower()
    d['percent'] = float(r.uniform(0.3, 1.) * top)
    d['T'] = float(r.uniform(5., 30.))
    if kind.startswith('COAX'):
        ro = rb * r.uniform(0.6, 0.9)
        ri = ro * r.uniform(0.88, 0.95)
        po = ri * r.uniform(0.4, 0.75)
        pi_ = po * r.uniform(0.8, 0.92)
        a, b = ([ri, pi_], [ro, po]) if kind.endswith('_IN') else ([pi_, ri], [po, ro])
        d.update(pos=(0., 0.), r_in=[float(v) for v in a], r_out=[float(v) for v in b],
                 k_p=[float(v) for v in r.uniform(0.2, 1., 2)])
    else:
        N = 2 if kind.startswith('SINGLE') else 4
        ro = float((0.3 if N == 2 else 0.22) * rb * r.uniform(0.6, 1.))
        ds = float(r.uniform(0.4, 0.65) * rb)
        a0 = r.uniform(0., 6.)
        d.update(pos=[(float(ds * np.cos(a0 + 2 * np.pi * k / N)), float(ds * np.sin(a0 + 2 * np.pi * k / N))) for k in range(N)],
                 r_in=ro * float(r.uniform(0.78, 0.9)), r_out=ro, k_p=float(r.uniform(0.2, 1.)))
    d['c'] = gen.connectivity(r, n) if r.random() < 0.6 else None
    ni = n if d['c'] is None else d['c'].count(-1)
    d['m'] = float(ni * 10**r.uniform(-0.8, 0.2))
    d['ni'] = ni
    # enough flow for the closed forms to be resolved (C16)
    fl = gt.media.Fluid(d['fluid'], d['percent'], d['T'])
    b = gt.boreholes.Borehole(H, 2., rb, 0., 0.)
    from vp.pipe_ref import stiffness
    for _ in range(12):
        R_fp, R_ff = by_hand(d, fl)
        p = plain(d, R_fp, R_ff)
        if stiffness(p, H, rb, d['m'] / ni, fl.cp) < 3.:
            break
        d['m'] *= 1.5
    if r.random() < 0.3:
        d['m'] = -d['m']
    return d


def plain(d, R_fp, R_ff):
    """The same design in the form used by the reference model."""
    kind = dict(SINGLE_UTUBE='single', DOUBLE_UTUBE_PARALLEL='double_parallel', DOUBLE_UTUBE_SERIES='double_series',
                COAXIAL_ANNULAR_IN='coax_annular', COAXIAL_ANNULAR_OUT='coax_inner')[d['type']]
    p = dict(kind=kind, k_s=d['k_s'], k_g=d['k_g'], R_fp=R_fp, J=d['J'], r_in=d['r_in'], r_out=d['r_out'],
             reversible=d['reversible'], pos=[list(v) for v in d['pos']] if isinstance(d['pos'], list) else [list(d['pos'])])
    if R_ff is not None:
        p['R_ff'] = R_ff
    else:
        p['n'] = len(d['pos']) // 2
    return p


def by_hand(d, fl):
    """Resistances built from the public correlations."""
    from pygfunction import pipes as P
    m = abs(d['m']) / d['ni']
    a = (fl.mu, fl.rho, fl.k, fl.cp, d['eps'])
    if not d['type'].startswith('COAX'):
        if d['type'] == 'DOUBLE_UTUBE_PARALLEL':
            m = m / 2
        h = P.convective_heat_transfer_coefficient_circular_pipe(m, d['r_in'], *a)
        return 1. / (2 * np.pi * d['r_in'] * h) + np.log(d['r_out'] / d['r_in']) / (2 * np.pi * d['k_p']), None
    o, n = (0, 1) if d['type'].endswith('_IN') else (1, 0)
    ri, ro, kp = d['r_in'], d['r_out'], d['k_p']
    h = P.convective_heat_transfer_coefficient_circular_pipe(m, ri[n], *a)
    h_in, h_out = P.convective_heat_transfer_coefficient_concentric_annulus(m, ro[n], ri[o], *a)
    R_ff = (1. / (2 * np.pi * ri[n] * h) + np.log(ro[n] / ri[n]) / (2 * np.pi * kp[n]) + 1. / (2 * np.pi * ro[n] * h_in))
    R_fp = 1. / (2 * np.pi * ri[o] * h_out) + np.log(ro[o] / ri[o]) / (2 * np.pi * kp[o])
    return R_fp, R_ff


def explicit_network(d, bh):
    import pygfunction as gt
    P = gt.pipes
    fl = gt.media.Fluid(d['fluid'], d['percent'], d['T'])
    R_fp, R_ff = by_hand(d, fl)
    pipes = []
    for b in bh:
        if d['type'] == 'SINGLE_UTUBE':
            p = P.SingleUTube(d['pos'], d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], R_fp, J=d['J'], reversible_flow=d['reversible'])
        elif d['type'].startswith('DOUBLE'):
            p = P.MultipleUTube(d['pos'], d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], R_fp, 2,
                                config=d['type'].split('_')[-1].lower(), J=d['J'], reversible_flow=d['reversible'])
        else:
            p = P.Coaxial(d['pos'], np.array(d['r_in']), np.array(d['r_out']), b, d['k_s'], d['k_g'], R_ff, R_fp, J=d['J'],
                          reversible_flow=d['reversible'])
        pipes.append(p)
    return gt.networks.Network(bh, pipes, bore_connectivity=d['c']), fl, R_fp, R_ff


def some_field(r, nmax=4, tilt=True):
    import pygfunction as gt
    f = gen.field(r, str(gen.pick(r, ['single', 'pair', 'line', 'rect', 'mixed_H', 'random', 'mixed_all'])), nmax)[:nmax]
    f = [[float(b[0]), float(b[1]), 0.075, float(b[3]), float(b[4]),
          float(gen.pick(r, [0., 0.2])) if tilt else 0., float(r.uniform(0., 6.))] for b in f]
    # an untilted borehole has no orientation
    f = [b[:6] + [b[6] if b[5] else 0.] for b in f]
    return f, [gt.boreholes.Borehole(*b) for b in f]


def form(r, v):
    """The same pair as a list, tuple or array."""
    return gen.pick(r, [list, tuple, np.array])(v) if isinstance(v, list) else v


def network_case(case, mon, r):
    import pygfunction as gt
    f, bh = some_field(r)
    d = design(r, case['type'], len(f), max(b[0] for b in f))
    src = bh if r.random() < 0.6 else gt.borefield.Borefield.from_boreholes(bh)
    name = d['type'] if r.random() < 0.7 else d['type'].lower()
    net = gt.networks.Network.from_static_params(
        src, name, d['pos'], form(r, d['r_in']), form(r, d['r_out']), d['k_s'], d['k_g'], form(r, d['k_p']), d['m'], d['eps'],
        d['fluid'], d['percent'], d['T'], reversible_flow=d['reversible'], bore_connectivity=d['c'], J=d['J'])
    want, fl, R_fp, R_ff = explicit_network(d, bh)
    for p in net.p:
        mon.close('resistances', p.R_fp, R_fp, 1e-9, type=case['type'], design=d)
        if R_ff is not None:
            mon.close('resistances', p.R_ff, R_ff, 1e-9, type=case['type'], design=d)
    mon.check('network', list(net.c) == list(want.c), c=d['c'])
    ns = int(r.integers(1, 4))
    Tb = r.uniform(-2., 15., ns * len(f))
    for m in (d['m'], -d['m']):
        a = (12., Tb, m, fl.cp, ns)
        for q in ('get_outlet_temperature', 'get_network_outlet_temperature', 'get_borehole_heat_extraction_rate',
                  'get_network_heat_extraction_rate'):
            mon.close('network', getattr(net, q)(*a), getattr(want, q)(*a), 1e-8,
                      scale=30. if 'temperature' in q else 30. * abs(m) * fl.cp, query=q, design=d)
    mon.close('network', gt.networks.network_thermal_resistance(net, d['m'], fl.cp),
              gt.networks.network_thermal_resistance(want, d['m'], fl.cp), 1e-8, design=d)
    mon.state('network', case['type'], d['fluid'].upper(), d['m'] > 0, d['reversible'], d['c'] is None, d['J'], type(src).__name__)


def options(r, method):
    import pygfunction as gt
    ns = int(r.integers(1, 5))
    o = dict(nSegments=ns, segment_ratios=gen.pick(r, [None, gt.utilities.segment_ratios, np.array(gen.ratios(r, ns))]))
    if ns == 1:
        o['segment_ratios'] = None
    if r.random() < 0.3:
        o['approximate_FLS'] = True
    if r.random() < 0.3:
        o['linear_threshold'] = float(10**r.uniform(4., 6.))
    return o


def some_times(r, n=4):
    return np.sort(10**r.uniform(5., 9.5, n))


def gfunction_case(case, mon, r):
    import pygfunction as gt
    method = str(gen.pick(r, ['similarities', 'detailed', 'equivalent']))
    f, bh = some_field(r, tilt=method != 'equivalent')
    t = some_times(r) if r.random() < 0.8 else None
    o = options(r, method)
    cols = [np.array([b[k] for b in f]) for k in range(7)]
    args = [c if k in (3, 4) or len(set(c)) > 1 or r.random() < 0.5 else float(c[0]) for k, c in enumerate(cols)]
    kw = dict(tilt=args[5], orientation=args[6])
    if r.random() < 0.3:
        args = [list(a) if isinstance(a, np.ndarray) else a for a in args]
    if case['type'] is None:
        bc = str(gen.pick(r, ['UHTR', 'UBWT']))
        g = gt.gfunction.gFunction.from_static_params(*args[:5], ALPHA, time=t, method=method, options=dict(o),
                                                      boundary_condition=bc, **kw)
        w = gt.gfunction.gFunction(bh, ALPHA, time=t, method=method, boundary_condition=bc, options=dict(o))
    else:
        bc = 'MIFT'
        d = design(r, case['type'], len(f), max(b[0] for b in f))
        if method == 'equivalent':
            d['c'], d['m'], d['ni'] = None, d['m'] / d['ni'] * len(f), len(f)
        g = gt.gfunction.gFunction.from_static_params(
            *args[:5], ALPHA, time=t, method=method, m_flow_network=d['m'], options=dict(o), boundary_condition=bc,
            pipe_type_str=d['type'], pos=d['pos'], r_in=form(r, d['r_in']), r_out=form(r, d['r_out']), k_s=d['k_s'], k_g=d['k_g'],
            k_p=form(r, d['k_p']), fluid_str=d['fluid'], fluid_concentration_pct=d['percent'], fluid_temperature=d['T'],
            epsilon=d['eps'], reversible_flow=d['reversible'], bore_connectivity=d['c'], J=d['J'], **kw)
        net, fl, R_fp, R_ff = explicit_network(d, bh)
        w = gt.gfunction.gFunction(net, ALPHA, time=t, method=method, boundary_condition=bc, options=dict(o),
                                   m_flow_network=d['m'], cp_f=fl.cp)
        mon.close('gfunction', g.cp_f, fl.cp, 1e-12)
    if t is None:
        t = some_times(r)
        mon.close('gfunction', g.evaluate_g_function(t), w.evaluate_g_function(t), 1e-7, case=case, method=method, bc=bc)
    else:
        mon.close('gfunction', g.gFunc, w.gFunc, 1e-7, type=case['type'], method=method, bc=bc)
    mon.state('gfunction', case['type'], method, bc, tuple(np.ndim(a) for a in args))


def borefield_case(case, mon, r):
    import pygfunction as gt
    method = str(gen.pick(r, ['similarities', 'detailed', 'equivalent']))
    bc = str(gen.pick(r, ['UHTR', 'UBWT']))
    f, bh = some_field(r, 5, tilt=method != 'equivalent')
    bf = gt.borefield.Borefield.from_boreholes(bh)
    t = some_times(r) if r.random() < 0.8 else float(some_times(r)[0])
    if r.random() < 0.3:
        o = None
    else:
        o = options(r, method)
    got = bf.evaluate_g_function(ALPHA, t, method=method, boundary_condition=bc, options=o)
    want = gt.gfunction.gFunction(bh, ALPHA, time=t, method=method, boundary_condition=bc, options=dict(o or {})).gFunc
    mon.close('borefield', got, want, 1e-9, method=method, bc=bc)
    mon.check('borefield', np.shape(got) == np.shape(want))
    again = gt.gfunction.gFunction(bf, ALPHA, time=t, method=method, boundary_condition=bc, options=dict(o or {})).gFunc
    mon.close('borefield', again, want, 1e-9, method=method, bc=bc)
    if r.random() < 0.3 and method == 'equivalent' and bc == 'UBWT':
        mon.close('defaults', bf.evaluate_g_function(ALPHA, t, options=o), want, 1e-9)
    if r.random() < 0.2 and all(b[5] == 0. for b in f):
        w = gt.gfunction.gFunction(bf, ALPHA, time=t).gFunc
        mon.close('defaults', bf.evaluate_g_function(ALPHA, t), w, 1e-9)
        mon.close('defaults', w, gt.gfunction.gFunction(bh, ALPHA, time=t, method='equivalent',
                                                        boundary_condition='UBWT').gFunc, 1e-9)
    mon.state('borefield', method, bc, len(f), o is None, np.ndim(t))


def old_case(case, mon, r):
    import pygfunction as gt
    G = gt.gfunction
    sim = bool(r.random() < 0.5)
    method = 'similarities' if sim else 'detailed'
    t = some_times(r, int(gen.pick(r, [4, 6]))) if r.random() < 0.8 else float(some_times(r)[0])
    nm = case['fn']
    fn = getattr(G, nm)
    ns = int(r.integers(1, 5))
    kw = dict(nSegments=ns, segment_ratios=gen.pick(r, [None, gt.utilities.segment_ratios, np.array(gen.ratios(r, ns))]))
    if ns == 1:
        kw['segment_ratios'] = None
    extra = {}
    if r.random() < 0.4:
        extra['disTol'] = float(gen.pick(r, [0.2, 1e-4]))
    if r.random() < 0.5:
        extra['tol'] = float(gen.pick(r, [1e-1, 1e-2, 1e-8]))
    if r.random() < 0.5 and nm != 'uniform_heat_extraction':
        kw['kind'] = str(gen.pick(r, ['linear', 'quadratic', 'cubic'] if np.ndim(t) else ['linear']))
    if r.random() < 0.15:
        extra['dtype'] = np.single
    if r.random() < 0.2:
        kw, extra = {}, {}
    # almost equal boreholes at almost equal distances, which the tolerances merge
    near = r.random() < 0.5

    def close_by(f, bh):
        if near:
            for b in bh:
                b.H *= 1. + float(r.uniform(-0.02, 0.02))
                b.x += float(r.uniform(-0.1, 0.1))
        return f, bh
    flow = {}
    if nm in ('uniform_heat_extraction', 'uniform_temperature'):
        f, bh = close_by(*some_field(r, 5))
        bc = 'UHTR' if nm == 'uniform_heat_extraction' else 'UBWT'
        if bc == 'UHTR':
            kw = {}
        got = fn(bh, t, ALPHA, use_similarities=sim, **kw, **extra)
        src = bh
        opts = dict(kw, **extra) if bc == 'UBWT' else dict(extra, nSegments=1)
    else:
        f, bh = close_by(*some_field(r, 4))
        rb = 0.075
        d = gen.pipe(r, str(gen.pick(r, ['single', 'double_parallel', 'double_series', 'coax_annular'])), rb)
        pipes = [gen.build_pipe(d, b) for b in bh]
        from vp.pipe_ref import stiffness
        m = float(10**r.uniform(-0.6, 0.2))
        m *= max(1., stiffness(d, 1.02 * max(b[0] for b in f), rb, m, 4000.) / 2.)
        bc = 'MIFT'
        if nm == 'equal_inlet_temperature':
            src = gt.networks.Network(bh, pipes)
            got = fn(bh, pipes, m, 4000., t, ALPHA, use_similarities=sim, **kw, **extra)
            flow = dict(m_flow_network=m * len(bh), cp_f=4000.)
        else:
            c = gen.connectivity(r, len(bh))
            M = m * len(bh)
            # the flow rate is the given one, whatever the network was built with
            src = gt.networks.Network(bh, pipes, bore_connectivity=c)
            own = [{}, dict(m_flow_network=M, cp_f=4000.), dict(m_flow_network=1.7 * M, cp_f=3500.)][int(r.integers(3))]
            mine = gt.networks.Network(bh, pipes, bore_connectivity=c, **own)
            flow = dict(m_flow_network=M, cp_f=4000.)
            given = M
            if r.random() < 0.3:
                n = mine.nInlets
                given = M / n * (1. + 0.3 * np.arange(n))
                flow = dict(m_flow_borehole=given, cp_f=4000.)
            got = fn(mine, given, gen.pick(r, [4000., np.full(mine.nInlets, 4000.)]), t, ALPHA, use_similarities=sim, **kw, **extra)
            mon.state('flow', len(own), np.size(given), np.ndim(given))
        opts = dict(kw, **extra)
    want = G.gFunction(src, ALPHA, time=t, method=method, boundary_condition=bc, options=opts, **flow).gFunc
    mon.close('deprecated', got, want, 1e-9, fn=nm, method=method)
    mon.check('deprecated', np.shape(got) == np.shape(want), fn=nm)
    mon.state('old', nm, method, len(f), bool(kw), tuple(extra))


def layout_case(case, mon, r):
    import pygfunction as gt
    B, C = gt.boreholes, gt.borefield.Borefield
    k = case['layout']
    n1, n2 = int(r.integers(1, 7)), int(r.integers(1, 7))
    b1, b2 = (float(v) for v in r.uniform(2., 9., 2))
    a = [float(r.uniform(50., 200.)), float(r.uniform(0.5, 5.)), 0.075]
    kw = {}
    if r.random() < 0.5:
        kw['tilt'] = float(r.uniform(0.05, 0.4))
        if r.random() < 0.6:
            kw['origin'] = (float(r.uniform(-3., 20.)), float(r.uniform(-3., 20.)))
    inc = bool(r.integers(2))
    args = dict(rectangle=('rectangle_field', (n1, n2, b1, b2, *a)),
                staggered=('staggered_rectangle_field', (n1, n2, b1, b2, *a, inc)),
                dense=('dense_rectangle_field', (n1, n2, b1, *a, inc)),
                L=('L_shaped_field', (n1, n2, b1, b2, *a)), U=('U_shaped_field', (n1, n2, b1, b2, *a)),
                box=('box_shaped_field', (n1, n2, b1, b2, *a)), circle=('circle_field', (n1 * n2, b1 + b2, *a)))[k]
    old = getattr(B, args[0])(*args[1], **kw)
    new = getattr(C, args[0])(*args[1], **kw)
    x = np.array([[b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation] for b in old])
    y = np.array([[b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation] for b in new.to_boreholes()])
    mon.check('layout', x.shape == y.shape, layout=k, old=len(x), new=len(y), n=(n1, n2), inc=inc)
    if x.shape == y.shape:
        # the same boreholes (the box goes round in another order)
        left = list(range(len(y)))
        for row in x:
            best = min(left, key=lambda j: abs(y[j, 3] - row[3]) + abs(y[j, 4] - row[4]))
            left.remove(best)
            mon.close('layout', y[best, :6], row[:6], 1e-9, atol=1e-8, layout=k, n=(n1, n2), kw=kw, inc=inc)
            if row[5]:
                mon.close('layout', [np.cos(y[best, 6]), np.sin(y[best, 6])], [np.cos(row[6]), np.sin(row[6])], 1e-8,
                          atol=1e-7, layout=k, n=(n1, n2), kw=kw, inc=inc)
    mon.state('layout', k, n1, n2, bool(kw), 'origin' in kw, inc)


def file_case(case, mon, r):
    import pygfunction as gt
    f, bh = some_field(r, 6)
    wide = bool(r.random() < 0.6)
    d = tempfile.mkdtemp(prefix='vp29_')
    path = os.path.join(d, 'field.txt')
    try:
        if wide and r.random() < 0.5:
            gt.borefield.Borefield.from_boreholes(bh).to_file(path)
        else:
            np.savetxt(path, [[b[3], b[4], b[0], b[1], b[2]] + (b[5:] if wide else []) for b in f], fmt='%.17g',
                       header='x y H D r_b')
        old = gt.boreholes.field_from_file(path)
        new = gt.borefield.Borefield.from_file(path)
    finally:
        os.remove(path)
        os.rmdir(d)
    mon.check('file', len(old) == len(new) == len(f), old=len(old), new=len(new))
    for a, b, c in zip(old, new.to_boreholes(), f):
        got = [[o.H, o.D, o.r_b, o.x, o.y, o.tilt, o.orientation] for o in (a, b)]
        mon.close('file', got[0], got[1], 1e-12)
        mon.close('file', got[0], c if wide else c[:5] + [0., 0.], 1e-6, atol=1e-6)
    mon.state('file', len(f), wide)


def run(case, mon):
    r = gen.rng(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dict(network=network_case, gfunction=gfunction_case, borefield=borefield_case, old=old_case, layout=layout_case,
             file=file_case)[case['kind']](case, mon, r)
