"""C28: calculations leave their inputs alone and are repeatable, also in threads."""
import collections
import os
import random
import sys
import tempfile
import threading
import time as clock
import warnings

import numpy as np

from vp import gen

RULE = ('All public calculations (g-functions of every method and condition, line sources, pipes, networks, fluids, load '
        'aggregation, field generators, shortcuts, plots of results) on random inputs: snapshots of every argument before '
        'and after, repetition immediately and after other calculations in random order, and concurrently on separate '
        'objects with a switch interval of 1 microsecond and pauses injected at random lines of the package. Distinct by '
        '(operation, argument layout) and by (pair of functions interleaved).')
ORACLES = ['arguments', 'repeat', 'later', 'threads', 'interleaved']
ASSUMPTIONS = ['attributes of networks and pipes beginning with an underscore, and the formatted copies of the last flow '
               'rates and segments, are working storage and not part of the inputs',
               'interpreter-level thread switches (global interpreter lock) are the source of interleavings']
CASE_LIMIT = 300


# --------------------------------------------------------------------------------------------------------------
# snapshots
# --------------------------------------------------------------------------------------------------------------
WORK = {'Network': {'iInlets', 'iOutlets', 'nSegments'}}


def snap(x, depth=0, seen=None):
    """A value that compares equal when, and only when, the argument was left alone."""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, str, bytes, complex, type)):
        return (type(x).__name__, x)
    if isinstance(x, float):
        return ('float', x.hex())
    if isinstance(x, np.generic):
        return (type(x).__name__, x.tobytes())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('object array', x.shape, tuple(snap(v, depth + 1, seen) for v in x.flat))
        return ('array', x.shape, str(x.dtype), x.tobytes(), bool(x.flags.writeable))
    if id(x) in seen:
        return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, depth + 1, seen) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((k, snap(v, depth + 1, seen)) for k, v in x.items()))
    if type(x).__module__.startswith('pygfunction'):
        name = type(x).__name__
        skip = WORK.get(name, ())
        return (name, id(x), tuple((k, snap(v, depth + 1, seen)) for k, v in sorted(vars(x).items())
                                   if not k.startswith('_') and k not in skip))
    return ('other', id(x))


def difference(a, b, path=''):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (u, v) in enumerate(zip(a, b)):
            d = difference(u, v, f'{path}/{a[0] if k and isinstance(a[0], str) else k}')
            if d:
                return d
    return f'{path}: {str(a)[:80]} -> {str(b)[:80]}'


def flat(x, out=None):
    """All the numbers of a result."""
    out = [] if out is None else out
    if x is None or isinstance(x, str):
        pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            flat(x[k], out)
    elif type(x).__module__.startswith('pygfunction'):
        flat([v for k, v in sorted(vars(x).items()) if not k.startswith('_')
              and isinstance(v, (int, float, np.ndarray, np.generic))], out)
    else:
        try:
            out.append(np.array(x, dtype=float).copy())
        except (TypeError, ValueError):
            pass
    return out


def round_off(u):
    u = np.abs(np.asarray(u, dtype=float))
    u = u[np.isfinite(u)]
    return 1e-13 * float(np.max(u)) if u.size else 0.


def equal(a, b):
    return len(a) == len(b) and all(u.shape == v.shape and np.allclose(u, v, rtol=1e-10, atol=round_off(u), equal_nan=True)
                                    for u, v in zip(a, b))


# --------------------------------------------------------------------------------------------------------------
# operations: each returns (arguments, function of the arguments)
# --------------------------------------------------------------------------------------------------------------
ALPHA = 1e-6


def some_field(r, nmax=5, tilt=False):
    import pygfunction as gt
    f = gen.field(r, str(gen.pick(r, ['pair', 'line', 'rect', 'mixed_H', 'random', 'mixed_all', 'almost'])), nmax)
    f = [list(b[:5]) + [0., 0.] for b in f[:nmax]]
    if tilt:
        for b in f:
            b[5], b[6] = float(gen.pick(r, [0., 0.15, 0.3])), float(r.uniform(0., 6.))
    return f, [gt.boreholes.Borehole(*b) for b in f]


def some_times(r, n=4):
    return np.sort(10**r.uniform(4.5, 9.5, n))


def flow_for(r, d, f, cp):
    from vp.pipe_ref import stiffness
    m = 10**r.uniform(-0.7, 0.2)
    x = stiffness(d, max(b[0] for b in f), f[0][2], m, cp)
    return float(m * max(1., x / 2.))


def some_network(r, nmax=4, parallel=False):
    import pygfunction as gt
    f, b = some_field(r, nmax)
    rb = min(x[2] for x in f)
    d = gen.pipe(r, str(gen.pick(r, ['single', 'double_parallel', 'double_series', 'coax_annular'])), rb)
    d['reversible'] = bool(r.random() < 0.8)
    c = [-1] * len(f) if parallel else gen.connectivity(r, len(f))
    pipes = [gen.build_pipe(d, x) for x in b]
    m = flow_for(r, d, f, 4000.) * len(f)
    return f, b, d, pipes, c, gt.networks.Network(b, pipes, bore_connectivity=c), m


def op_gfunction(r):
    import pygfunction as gt
    bc = str(gen.pick(r, ['UHTR', 'UBWT', 'MIFT', 'MIFT']))
    method = str(gen.pick(r, ['similarities', 'detailed', 'equivalent']))
    par = method == 'equivalent'
    t = some_times(r)
    if r.random() < 0.4:                # times that are held at zero, zero, tiny, equal
        t[0] = float(gen.pick(r, [-3600., 0., 1., t[1]]))
    ns = int(r.integers(1, 5))
    opts = dict(nSegments=ns, segment_ratios=None, profiles=bool(r.random() < 0.5), disp=False)
    u = r.random()
    if u < 0.3:
        opts['segment_ratios'] = np.array(gen.ratios(r, ns))
    elif u < 0.5:
        opts['segment_ratios'] = gt.utilities.segment_ratios
    if r.random() < 0.3:
        opts['linear_threshold'] = float(gen.pick(r, [300., 1e4, 1e6]))
    if r.random() < 0.3:
        opts['approximate_FLS'] = True
    if bc == 'MIFT':
        f, b, d, pipes, c, net, m = some_network(r, parallel=par)
        if not par and r.random() < 0.3:
            opts['nSegments'] = [ns] * len(b)
        u = r.random()
        fl = dict(m_flow_network=m)
        if u < 0.25:
            fl = dict(m_flow_borehole=np.array([[m / len(b)] * net.nInlets] * 2) * np.array([[1.], [1.4]]))
            if not par or True:
                opts.pop('linear_threshold', None)
        elif u < 0.5:
            fl = dict(m_flow_network=m * np.array([1., 1.3]))

        def fn(net, t, opts, fl):
            g = gt.gfunction.gFunction(net, ALPHA, time=t, method=method, boundary_condition=bc, options=opts, cp_f=4000., **fl)
            return [g.gFunc] + ([g.solver.Q_b, g.solver.T_b] if opts['profiles'] else [])
        return [net, t, opts, fl], fn
    f, b = some_field(r, tilt=method != 'equivalent' and r.random() < 0.3)
    src = b if r.random() < 0.6 else gt.borefield.Borefield.from_boreholes(b)

    def fn(b, t, opts):
        g = gt.gfunction.gFunction(b, ALPHA, time=t, method=method, boundary_condition=bc, options=opts)
        return [g.gFunc] + ([g.solver.Q_b, g.solver.T_b] if opts['profiles'] else [])
    return [src, t, opts], fn


def op_fls(r):
    import pygfunction as gt
    f, b = some_field(r, tilt=r.random() < 0.4)
    i, j = (int(v) for v in r.integers(len(b), size=2))
    t = some_times(r) if r.random() < 0.7 else float(some_times(r)[0])
    kw = dict(reaSource=True, imgSource=bool(r.random() < 0.7), approximation=bool(r.random() < 0.4))
    one = [b[i], b[j]] if r.random() < 0.5 else [list(b), list(b)]
    return [t, one], lambda t, one: gt.heat_transfer.finite_line_source(t, ALPHA, one[0], one[1], **kw)


def op_fls_arrays(r):
    import pygfunction as gt
    h = gt.heat_transfer
    n = int(r.integers(2, 5))
    t = some_times(r)
    dis = r.uniform(0.1, 30., (n, n))
    H = r.uniform(20., 200., (n, n))
    D = r.uniform(0., 5., (n, n))
    u = int(r.integers(4))
    if u == 0:
        return [t, dis, H, D], lambda t, dis, H, D: h.finite_line_source_vectorized(t, ALPHA, dis, H, D, H.T.copy(), D.T.copy())
    if u == 1:
        return [t, dis, H, D], lambda t, dis, H, D: h.finite_line_source_approximation(t, ALPHA, dis, H, D, H.T.copy(), D.T.copy())
    if u == 2:
        d = dis[0].reshape(1, -1)
        w = r.integers(1, 4, (n, 2)).astype(np.uint)
        N2 = np.array([[2., 3.]]).T
        return [t, d, w, H[0:1], D[0:1]], lambda t, d, w, H, D: h.finite_line_source_equivalent_boreholes_vectorized(
            t, ALPHA, d, w, H, D, H, D, N2)
    rb, x, y = np.full(n, 0.075), r.uniform(0., 30., n), r.uniform(0., 30., n)
    ti, o = r.uniform(0., 0.3, n), r.uniform(0., 6., n)
    H, D = H[0], D[0]
    ap = bool(r.random() < 0.5)
    return [t, rb, x, y, H, D, ti, o], lambda t, rb, x, y, H, D, ti, o: h.finite_line_source_inclined_vectorized(
        t, ALPHA, rb, x, y, H, D, ti, o, x + 1., y + 7., H, D, ti, o, approximation=ap)


def op_pipe_make(r):
    import pygfunction as gt
    rb = 0.08
    b = gt.boreholes.Borehole(100., 2., rb, 0., 0.)
    k = str(gen.pick(r, ['single', 'single_asym', 'double_parallel', 'double_series', 'triple_parallel', 'independent', 'coax_annular']))
    d = gen.pipe(r, k, rb)
    pos = [tuple(p) for p in d['pos']] if r.random() < 0.5 else np.array(d['pos'])
    P = gt.pipes
    if k.startswith('coax'):
        ri, ro = np.array(d['r_in']), np.array(d['r_out'])
        return [b, ri, ro], lambda b, ri, ro: vars_of(P.Coaxial((0., 0.), ri, ro, b, d['k_s'], d['k_g'], d['R_ff'], d['R_fp'], J=d['J']))
    if k.startswith('single'):
        return [pos, b], lambda pos, b: vars_of(P.SingleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], J=d['J']))
    if k == 'independent':
        return [pos, b], lambda pos, b: vars_of(P.IndependentMultipleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], d['n'], J=d['J']))
    return [pos, b], lambda pos, b: vars_of(P.MultipleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], d['n'],
                                                          config=k.split('_')[1], J=d['J']))


def vars_of(p):
    if p.nInlets > 1:
        return [p.coefficients_outlet_temperature(np.full(p.nInlets, 1.), 4000., 2)]
    return [p.local_borehole_thermal_resistance(), p.coefficients_outlet_temperature(1., 4000., 2)]


def op_pipe_query(r):
    import pygfunction as gt
    from vp.props import c25
    rb = 0.08
    H = 80.
    k = str(gen.pick(r, c25.PIPES))
    d = gen.pipe(r, k, rb)
    d['reversible'] = bool(r.random() < 0.7)
    p = gen.build_pipe(d, gt.boreholes.Borehole(H, 2., rb, 0., 0.))
    n = d.get('n', 1) if k == 'independent' else 1
    m = c25.base_flow(r, d, H, rb, 4000., n) * float(gen.pick(r, [1., -1.]))
    cp = 4000.
    if k == 'independent':
        m = m * np.array([1., 1.3, 0.8])[:n] * gen.pick(r, [1., np.array([1., -1., 1.])[:n]])
        cp = np.full(n, cp)
    ns = int(r.integers(1, 5))
    q = np.array(gen.ratios(r, ns)) if r.random() < 0.6 else None
    Tb = r.uniform(-5., 15., ns)
    z = r.uniform(0., H, 3)
    ops = [o for o in c25.PIPE_OPS if n == 1 or o not in ('effective', 'local')]
    return [p, m, cp, q, Tb, z], lambda p, m, cp, q, Tb, z: [c25.pipe_query(p, o, m, cp, ns, q, 12., Tb, z, k) for o in ops]


def op_network_query(r):
    import pygfunction as gt
    from vp.props import c25
    f, b, d, pipes, c, net, m = some_network(r)
    ni = net.nInlets
    m = m * float(gen.pick(r, [1., -1.]))
    ns = int(r.integers(1, 4))
    if r.random() < 0.4:
        m = m / len(b) * np.array([1., 1.4, 0.9, 1.2])[:ni]
    q = gen.pick(r, [None, np.array(gen.ratios(r, ns)), [np.array(gen.ratios(r, ns)) for _ in b]])
    nl = ns if r.random() < 0.5 else [ns] * len(b)
    Tb = r.uniform(-5., 15., ns * len(b))
    ops = [o for o in c25.NET_OPS if o != 'resistance']
    return [net, m, nl, q, Tb], lambda net, m, nl, q, Tb: [c25.net_query(gt, net, o, m, 4000., nl, q, 12., Tb) for o in ops] + [
        gt.networks.network_thermal_resistance(net, m, 4000.)]


def op_network_make(r):
    import pygfunction as gt
    f, b, d, pipes, c, net, m = some_network(r)
    return [b, pipes, c], lambda b, pipes, c: gt.networks.Network(
        b, pipes, bore_connectivity=c, m_flow_network=m, cp_f=4000., nSegments=2).coefficients_network_heat_extraction_rate(m, 4000., 2)


def op_resistances(r):
    import pygfunction as gt
    rb = 0.08
    d = gen.pipe(r, str(gen.pick(r, ['single', 'double_parallel', 'triple_parallel'])), rb)
    n = len(d['pos'])
    ro = d['r_out'] if r.random() < 0.5 else np.full(n, d['r_out'])
    R = d['R_fp'] if r.random() < 0.5 else np.full(n, d['R_fp'])
    pos = np.array(d['pos']) if r.random() < 0.5 else [tuple(p) for p in d['pos']]
    if r.random() < 0.5:
        return [pos, ro, R], lambda pos, ro, R: gt.pipes.thermal_resistances(pos, ro, rb, d['k_s'], d['k_g'], R, J=d['J'])
    Tb, q = 5., r.uniform(-50., 50., n)
    x, y = r.uniform(0.1, 1., 3), r.uniform(0.1, 1., 3)
    ro, R = np.full(n, d['r_out']), np.full(n, d['R_fp'])
    pos = [tuple(p) for p in d['pos']]
    return [pos, ro, R, q, x, y], lambda pos, ro, R, q, x, y: gt.pipes.multipole(
        pos, ro, rb, d['k_s'], d['k_g'], R, Tb, q, d['J'], x_T=x, y_T=y)


def op_film(r):
    import pygfunction as gt
    P = gt.pipes
    fl = gt.media.Fluid(str(gen.pick(r, ['Water', 'MPG', 'MEA'])), 20., float(r.uniform(5., 30.)))
    m = float(r.uniform(0.05, 1.))
    ri, ro = np.array([0.02, 0.045]), np.array([0.025, 0.05])
    kp = np.array([0.4, 0.5])
    T = P.PipeType

    def fn(fl, ri, ro, kp):
        return [P.fluid_to_pipe_thermal_resistance(T.SINGLE_UTUBE, m, 0.02, 0.025, 0.4, 1e-6, fl),
                P.fluid_to_pipe_thermal_resistance(T.DOUBLE_UTUBE_PARALLEL, m, 0.02, 0.025, 0.4, 1e-6, fl),
                P.fluid_to_pipe_thermal_resistance(T.COAXIAL_ANNULAR_OUT, m, ri, ro, kp, 1e-6, fl),
                P.fluid_to_fluid_thermal_resistance(T.COAXIAL_ANNULAR_OUT, m, ri, ro, kp, 1e-6, fl),
                P.fluid_friction_factor_circular_pipe(m, 0.02, fl.mu, fl.rho, 1e-6),
                P.convective_heat_transfer_coefficient_circular_pipe(m, 0.02, fl.mu, fl.rho, fl.k, fl.cp, 1e-6),
                P.convective_heat_transfer_coefficient_concentric_annulus(m, 0.025, 0.04, fl.mu, fl.rho, fl.k, fl.cp, 1e-6),
                list(fl.to_dict().values()) if hasattr(fl, 'to_dict') else None]
    return [fl, ri, ro, kp], fn


def op_load(r):
    import pygfunction as gt
    cls = gen.pick(r, [gt.load_aggregation.ClaessonJaved, gt.load_aggregation.MLAA, gt.load_aggregation.Liu])
    n = int(r.integers(1, 4))
    steps = int(r.integers(5, 40))
    dt = 3600.
    Q = r.uniform(-50., 50., (steps, n))
    a = cls(dt, steps * dt, nSources=n)
    t = a.get_times_for_simulation()
    g = np.log1p(t / 1e4) * (np.eye(n)[:, :, None] + 0.3)
    if n == 1 and r.random() < 0.5:
        g = g[0, 0]

    def fn(g, Q):
        a = cls(dt, steps * dt, nSources=n)
        a.initialize(g)
        out = []
        for k in range(steps):
            a.next_time_step((k + 1) * dt)
            a.set_current_load(Q[k] if n > 1 else float(Q[k, 0]))
            out.append(np.array(a.temporal_superposition()))
        return out
    return [g, Q], fn


def op_fields(r):
    import pygfunction as gt
    f, b = some_field(r, tilt=True)
    bf = gt.borefield.Borefield.from_boreholes(b)
    B = gt.boreholes
    dup = list(b) + [b[0], gt.boreholes.Borehole(90., 1., 0.075, b[-1].x, b[-1].y)]
    H = np.array([x[0] for x in f])
    xs = np.array([x[3] for x in f])
    rat = np.array(gen.ratios(r, 3))

    def fn(b, bf, dup, H, xs, rat):
        with tempfile.TemporaryDirectory(prefix='vp28_') as path:
            name = os.path.join(path, 'f.txt')
            bf.to_file(name)
            back = gt.borefield.Borefield.from_file(name)
        more = bf + b[0]
        again = [b[0]] + bf
        return [B.find_duplicates(dup), [x.x for x in B.remove_duplicates(dup)], back.H, more.x, again.y,
                gt.borefield.Borefield(H, 2., 0.075, xs, xs * 0.5).H, [x.H for x in bf.to_boreholes()],
                [x.D for x in b[0].segments(3, segment_ratios=rat)], b[0].distance(b[-1]), bf == bf, bf[0].x,
                [x.position() for x in b], b[0]._segment_midpoints(3, segment_ratios=rat) if hasattr(b[0], '_segment_midpoints') else None]
    return [b, bf, dup, H, xs, rat], fn


def op_layouts(r):
    import pygfunction as gt
    C = gt.borefield.Borefield
    n1, n2 = int(r.integers(2, 5)), int(r.integers(2, 5))
    org = (3., 4.)
    lst = [5., 6.]

    def fn(org, lst):
        return [[f.x, f.y, f.tilt, f.orientation] for f in (
            C.rectangle_field(n1, n2, 5., 6., 100., 2., 0.075, tilt=0.1, origin=org),
            C.staggered_rectangle_field(n1, n2, 5., 6., 100., 2., 0.075, True),
            C.dense_rectangle_field(n1, n2, 5., 100., 2., 0.075, False),
            C.L_shaped_field(n1, n2, 5., 6., 100., 2., 0.075), C.U_shaped_field(n1 + 1, n2, 5., 6., 100., 2., 0.075),
            C.box_shaped_field(n1 + 1, n2 + 1, 5., 6., 100., 2., 0.075), C.circle_field(n1 + 2, 10., 100., 2., 0.075))]
    return [org, lst], fn


def op_utilities(r):
    import pygfunction as gt
    U = gt.utilities
    n = int(r.integers(1, 12))
    x = r.uniform(0.01, 5., 6)
    return [x], lambda x: [U.segment_ratios(n), U.time_ClaessonJaved(3600., 1e8), U.time_MarcottePasquier(3600., 1e8),
                           U.time_geometric(3600., 1e9, 20), U.erfint(x), U.exp1(x)]


def op_static(r):
    import pygfunction as gt
    f, b = some_field(r, 4)
    H, D, x, y = (np.array([v[k] for v in f]) for k in (0, 1, 3, 4))
    pos = [(-0.03, 0.), (0.03, 0.)]
    opts = dict(nSegments=2)
    t = some_times(r, 3)
    c = [-1] * len(f) if r.random() < 0.5 else None
    m = 0.6 * len(f)

    def fn(H, D, x, y, pos, opts, t, c, b):
        g = gt.gfunction.gFunction.from_static_params(
            H, D, 0.075, x, y, ALPHA, time=t, method='similarities', m_flow_network=m, options=opts, boundary_condition='MIFT',
            pipe_type_str='SINGLE_UTUBE', pos=pos, r_in=0.013, r_out=0.016, k_s=2., k_g=1., k_p=0.4, fluid_str='MPG',
            fluid_concentration_pct=20., fluid_temperature=10., epsilon=1e-6, bore_connectivity=c)
        h = gt.borefield.Borefield(H, D, 0.075, x, y).evaluate_g_function(ALPHA, t, method='equivalent', boundary_condition='UBWT',
                                                                         options=opts)
        return [g.gFunc, h]
    return [H, D, x, y, pos, opts, t, c, b], fn


def op_plots(r):
    import matplotlib
    matplotlib.use('Agg')
    import pygfunction as gt
    f, b = some_field(r, 3)
    order = [int(v) for v in r.permutation(len(b))[:int(r.integers(1, len(b) + 1))]]
    time = some_times(r, 4)
    if len(b) > 1 and min(v.r_b for v in b) > 0.0465 and r.random() < 0.7:         # several flow rates, drawn in any order
        net = gt.networks.Network(b, [gt.pipes.SingleUTube([(-0.03, 0.), (0.03, 0.)], 0.013, 0.016, v, 2., 1., 0.1) for v in b])
        g = gt.gfunction.gFunction(net, ALPHA, time=time, method='similarities', boundary_condition='MIFT', cp_f=4000.,
                                   m_flow_network=np.array([0.3, 0.6, 0.9]), options=dict(nSegments=3, profiles=True))
        flows = dict(which=gen.pick(r, [[2, 0], [1], [2, 1, 0]]))
    else:
        g = gt.gfunction.gFunction(b, ALPHA, time=time, method='similarities', boundary_condition='UBWT',
                                   options=dict(nSegments=3, profiles=True))
        flows = {}

    def fn(b, gf, time, order, flows):
        import matplotlib.pyplot as plt
        for h in (lambda: g.visualize_g_function(), lambda: g.visualize_heat_extraction_rates(iBoreholes=order, **flows),
                  lambda: g.visualize_temperatures(iBoreholes=order, **flows),
                  lambda: g.visualize_heat_extraction_rate_profiles(iBoreholes=order, **flows),
                  lambda: g.visualize_temperature_profiles(iBoreholes=order, **flows),
                  lambda: gt.boreholes.visualize_field(b), lambda: gt.borefield.Borefield.from_boreholes(b).visualize_field()):
            plt.close(h())
        return [g.gFunc, g.solver.Q_b, g.solver.T_b]
    return [b, g.gFunc, g.time, order, flows], fn


OPS = dict(gfunction=op_gfunction, fls=op_fls, fls_arrays=op_fls_arrays, pipe_make=op_pipe_make, pipe_query=op_pipe_query,
           network_query=op_network_query, network_make=op_network_make, resistances=op_resistances, film=op_film, load=op_load,
           fields=op_fields, layouts=op_layouts, utilities=op_utilities, static=op_static)
CONCURRENT = [k for k in OPS if k != 'plots']


def cases(r, tier):
    q = tier == 'quick'
    out = [dict(kind='pure', op=k, i=i) for k in OPS for i in range((24 if k == 'gfunction' else 16) * (1 if q else 20))]
    out += [dict(kind='pure', op='plots', i=i) for i in range(10 if q else 40)]
    out += [dict(kind='shuffle', i=i) for i in range(12 if q else 150)]
    out += [dict(kind='threads', i=i, same=k) for k in CONCURRENT for i in range(2 if q else 20)]
    out += [dict(kind='threads', i=i, same='resistances') for i in range(100, 104 if q else 140)]
    out += [dict(kind='threads', i=i, same=None) for i in range(10 if q else 120)]
    return out


def cost(c):
    return dict(threads=4., shuffle=2.).get(c['kind'], 1.)


def quiet(fn, args):
    return flat(fn(*args))


def pure(case, mon, r):
    args, fn = (op_plots if case['op'] == 'plots' else OPS[case['op']])(r)
    before = snap(args)
    one = quiet(fn, args)
    after = snap(args)
    mon.check('arguments', before == after, op=case['op'], difference=difference(before, after))
    two = quiet(fn, args)
    mon.check('repeat', equal(one, two), op=case['op'], first=one[:3], second=two[:3])
    mon.check('arguments', snap(args) == before, op=case['op'], difference=difference(before, snap(args)), call=2)
    mon.state(case['op'], tuple(type(a).__name__ for a in args), len(one))


def shuffle(case, mon, r):
    """Each calculation again after the others, in another order."""
    made = []
    for k in r.permutation(list(OPS))[:8]:
        args, fn = OPS[str(k)](r)
        made.append((str(k), args, fn, snap(args)))
    first = [quiet(fn, args) for _, args, fn, _ in made]
    for j in list(r.permutation(len(made))) + list(r.permutation(len(made))):
        k, args, fn, s = made[int(j)]
        mon.check('later', equal(first[int(j)], quiet(fn, args)), op=k)
        mon.check('arguments', snap(args) == s, op=k, difference=difference(s, snap(args)))
    mon.state('shuffle', tuple(k for k, *_ in made))


# --------------------------------------------------------------------------------------------------------------
def make_tracer(seed, p, root, log):
    """Pauses at random lines of the package; the log keeps which thread ran which function when."""
    rnd = random.Random(seed)

    def local(frame, event, arg):
        if event == 'line' and rnd.random() < p:
            log.append((threading.get_ident(), frame.f_code.co_name, frame.f_lineno))
            clock.sleep(0. if rnd.random() < 0.8 else 2e-4)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    return tracer


def threads(case, mon, r):
    import pygfunction
    root = os.path.dirname(os.path.abspath(pygfunction.__file__))
    n = int(r.integers(3, 7))
    jobs = []
    for i in range(n):
        ops = []
        if case['same'] is None:
            for k in r.permutation(CONCURRENT)[:3]:
                ops.append((str(k), int(r.integers(2**31))))
        else:
            reps = dict(resistances=8, pipe_make=5, utilities=4, film=4).get(case['same'], 1)
            ops = [(case['same'], int(r.integers(2**31))) for _ in range(reps)]
        jobs.append(ops)

    def work(ops):
        out = []
        for k, s in ops:
            args, fn = OPS[k](np.random.default_rng(s))     # its own objects
            out.append(quiet(fn, args))
        return out
    expected = [work(ops) for ops in jobs]
    got, errors, log = [None] * n, [], []
    start = threading.Barrier(n)
    light = case['same'] not in ('resistances', 'pipe_make', 'film', 'utilities', 'layouts', 'fields')
    p = 0.01 if light else 0.15

    def body(i):
        try:
            start.wait()
            got[i] = work(jobs[i])
        except BaseException as e:      # noqa: BLE001
            errors.append(repr(e))
    old = sys.getswitchinterval()
    ts = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    threading.settrace(make_tracer(int(r.integers(2**31)), p, root, log))
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        threading.settrace(None)
    mon.check('threads', not errors, errors=errors[:3], jobs=jobs)
    for i in range(n):
        for j, (k, s) in enumerate(jobs[i]):
            if got[i] is not None:
                mon.check('threads', equal(expected[i][j], got[i][j]), op=k, opseed=s, thread=i, jobs=jobs,
                          sequential=expected[i][j][:2], concurrent=got[i][j][:2])
    # what was interleaved with what
    pairs = collections.Counter()
    for a, b in zip(log, log[1:]):
        if a[0] != b[0]:
            pairs[(a[1], b[1])] += 1
    mon.event('interleaved', sum(pairs.values()))
    for a, b in pairs:
        mon.state('switch', a, b)
    mon.event('pauses', len(log))


def run(case, mon):
    r = gen.rng(case)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        dict(pure=pure, shuffle=shuffle, threads=threads)[case['kind']](case, mon, r)
