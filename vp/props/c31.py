"""C31: whole numbers and floating-point numbers of the same value give the same results."""
import numpy as np

from vp import gen

RULE = ('Every public calculation is made twice or more on the same random input, whose whole-numbered dimensions, '
        'positions, times, loads, temperatures, flow rates and conductivities are given as Python or numpy floats and '
        'integers, alone and in arrays, mixed at random. Distinct by (calculation, variant, number types).')
ORACLES = ['line source', 'line source inclined', 'g-function', 'borehole', 'borefield', 'pipe', 'network', 'aggregation',
           'utilities', 'resistance', 'types.seen']
ASSUMPTIONS = ['numbers of segments are Python ints (documented) and single network flow rates of g-functions are floats '
               '(integers are refused with an error)']
KINDS = ['line', 'gfunc', 'borehole', 'borefield', 'pipe', 'network', 'aggregation', 'utilities']
NUM = [int, np.int64, np.int32, np.float64, float]


def cases(r, tier):
    n = 6 if tier == 'quick' else 1000
    return [dict(kind=k, i=i) for k in KINDS for i in range(n * (2 if k in ('pipe', 'aggregation', 'borefield') else 1))]


class Types:
    """Gives each number or array of a calculation in one type: floats (reference), one type, or a mixture."""

    def __init__(self, seed, what):
        self.r, self.what = np.random.default_rng(seed), what

    def _t(self):
        return NUM[int(self.r.integers(len(NUM)))] if self.what == 'mixed' else self.what

    def __call__(self, v):
        return self._t()(v) if float(v).is_integer() else float(v)

    def a(self, v):
        t = self._t() if np.all(np.mod(v, 1) == 0) else float
        return np.array(v, dtype={int: np.int64, float: np.float64}.get(t, t))


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    ht, B = gt.heat_transfer, gt.boreholes.Borehole
    kind = case['kind']
    seed = int(r.integers(1 << 30))

    def same(name, f, **info):
        ref = f(Types(0, float))
        ref = [np.array(v, dtype=float) for v in ref]
        for what in ('mixed', int, NUM[int(r.integers(1, 3))], 'mixed'):
            lab = what if what == 'mixed' else what.__name__
            got = mon.accepts(name, lambda: f(Types(seed, what)), what=lab, **info)
            if got is None:
                continue
            mon.check(name, len(got) == len(ref), what=lab, **info)
            for k, (g, w) in enumerate(zip(got, ref)):
                s = float(np.max(np.abs(w))) if w.size else 0.
                mon.close(name, np.asarray(g, dtype=float), w, rtol=1e-9, atol=1e-11 * s + 1e-13, what=lab, item=k, **info)
            mon.state(kind, info.get('of', ''), lab)
            mon.event('types.seen')

    def whole(lo, hi, n=None):
        """Whole numbers, or some with a fraction (those stay floats)."""
        v = r.integers(lo, hi, n)
        k = r.random()
        return v if k < 0.6 else v + (0.5 if k < 0.75 else r.integers(0, 4, n) / 4)
    n = int(r.integers(2, 5))
    H = whole(15, 200, n) if r.random() < 0.5 else np.full(n, whole(15, 200))
    D = whole(0, 10, n)
    x, y = np.arange(n) * whole(3, 9), whole(-15, 16, n)
    rb = np.full(n, float(r.uniform(0.05, 0.1)))
    tilt, ori = np.full(n, float(r.uniform(0.05, 0.3))), whole(0, 6, n)
    al = float(10**r.uniform(-6.3, -5.8))
    t = np.unique((10**r.uniform(4., 8.9, 4)).astype(np.int64))
    info = dict(H=H, D=D, x=x, y=y, rb=rb[0], t=t, alpha=al, tilt=tilt[0], orientation=ori)

    def bores(T, inc=False):
        k = [dict(tilt=tilt[i], orientation=T(ori[i])) if inc and i else {} for i in range(n)]
        return [B(T(H[i]), T(D[i]), rb[i], T(x[i]), T(y[i]), **k[i]) for i in range(n)]
    if kind == 'line':
        ap, re, im = bool(r.random() < 0.4), True, bool(r.random() < 0.7)
        d = whole(1, 9) + np.arange(3) * 4
        for inc in (False, True):
            def f(T):
                b = bores(T, inc)
                k = dict(reaSource=re, imgSource=im)
                ka = dict(k, approximation=ap)
                v = [ht.finite_line_source(T.a(t), al, b, b, **ka), ht.finite_line_source(T.a(t), al, b[0], b[1], **ka),
                     ht.finite_line_source(float(t[-1]), al, b[0], b[0], **ka), ht.finite_line_source(np.inf, al, b, b, **k),
                     ht.finite_line_source(np.inf, al, b[0], b[1], **k)]
                if inc:
                    q = [np.array([getattr(o, m) for o in b]) for m in ('x', 'y', 'H', 'D', 'tilt', 'orientation')]
                    v.append(ht.finite_line_source_inclined_vectorized(T.a(t), al, rb, *q, *[w[::-1] for w in q], **k))
                else:
                    v.append(ht.finite_line_source_vectorized(T.a(t), al, T.a(d), T.a(np.resize(H, 3)), T.a(np.resize(D, 3)), T.a(np.resize(H[::-1], 3)), T.a(np.resize(D[::-1], 3)), **ka))
                    v.append(ht.finite_line_source_approximation(T.a(t), al, T.a(d), T(H[0]), T(D[0]), T(H[1]), T(D[1])))
                    v.append(ht.finite_line_source_equivalent_boreholes_vectorized(
                        T.a(t), al, T.a(d), T.a([1, 2, 1]), T.a([[H[0]]]), T.a([[D[0]]]), T.a([[H[1]]]), T.a([[D[1]]]), T.a([[n]])))
                return v
            same('line source inclined' if inc else 'line source', f, of=(inc, ap, re, im), **info)
    elif kind == 'gfunc':
        m, bc = str(gen.pick(r, ['detailed', 'similarities', 'equivalent'])), str(gen.pick(r, ['UHTR', 'UBWT', 'MIFT']))
        inc = m != 'equivalent' and r.random() < 0.3
        ns = int(r.integers(1, 5))
        flow, ks, cp, kg = whole(1, 5), whole(1, 4), whole(3500, 4300), whole(1, 3)
        var = bool(r.random() < 0.3) and m != 'equivalent'
        th = int(r.integers(1, 4)) * int(rb[0]**2 / (25 * al)) + 1

        def f(T):
            src = bores(T, inc)
            k = {}
            if bc == 'MIFT':
                src = gt.networks.Network(src, [gt.pipes.SingleUTube([(-0.03, T(0)), (0.03, T(0))], 0.013, 0.016, b, T(ks), T(kg), 0.08) for b in src])
                k = dict(m_flow_network=T.a([flow, flow + 1]) if var else float(flow), cp_f=T(cp))
            g = gt.gfunction.gFunction(src, al, time=T.a(t), method=m, boundary_condition=bc,
                                       options=dict(nSegments=ns, linear_threshold=T(th), profiles=True), **k)
            return [g.gFunc, g.solver.Q_b, g.solver.T_b] if bc != 'UHTR' else [g.gFunc, g.solver.T_b]
        same('g-function', f, of=(m, bc, inc, var), **info)
    elif kind == 'borehole':
        ns = int(r.integers(1, 6))
        q = gen.ratios(r, ns) if ns > 1 else None

        def f(T):
            b = bores(T, True)
            v = []
            for o in b:
                s = o.segments(ns, segment_ratios=None if q is None else np.array(q))
                v.append([[w.H, w.D, w.x, w.y, w.r_b, w.tilt, w.orientation] for w in s])
                v.append(o._segment_midpoints(ns, None if q is None else np.array(q)) if hasattr(o, '_segment_midpoints') else [0.])
            v.append([[o.distance(p) for p in b] for o in b])
            v.append([o.is_tilted() for o in b])
            return v
        same('borehole', f, of=ns, **info)
    elif kind == 'borefield':
        n1, n2, b1, b2 = int(r.integers(1, 5)), int(r.integers(1, 5)), whole(3, 9), whole(3, 9)
        name = str(gen.pick(r, ['rectangle_field', 'staggered_rectangle_field', 'dense_rectangle_field', 'L_shaped_field',
                                'U_shaped_field', 'box_shaped_field', 'circle_field', 'plain']))
        elem = bool(r.random() < 0.5)
        up = [float(r.uniform(0.05, 0.4)), int(r.integers(0, 5))]

        def f(T):
            F = gt.borefield.Borefield
            tail = [T(H[0]), T(D[0]), rb[0]]
            kw = dict(tilt=up[0])
            if name == 'plain':
                F = F(T.a(H), T.a(D), rb, T.a(x), T.a(y), tilt, T.a(ori))
            elif name == 'circle_field':
                F = F.circle_field(n1 + 1, T(b1), *tail, **kw)
            elif name == 'staggered_rectangle_field':
                F = F.staggered_rectangle_field(n1, n2, T(b1), T(b2), *tail, elem, **kw)
            elif name == 'dense_rectangle_field':
                F = F.dense_rectangle_field(n1, n2, T(b1), *tail, elem, **kw)
            else:
                F = getattr(F, name)(n1 + 1, n2 + 1, T(b1), T(b2), *tail, **kw)
            v = [F.H, F.D, F.r_b, F.x, F.y, F.tilt, F.orientation]
            v.append([[o.H, o.D, o.x, o.y] for o in F.to_boreholes()])
            if name == 'plain':
                v.append(F.evaluate_g_function(al, T.a(t), method='similarities', options=dict(nSegments=2)))
            return v
        same('borefield', f, of=(name, elem), **info)
    elif kind in ('pipe', 'network'):
        m, cp, Tf = whole(1, 4), whole(3500, 4300), whole(-5, 30)
        ks, kg = whole(1, 4), whole(1, 3)
        Q = whole(-3000, 3000) or 100
        ns = int(r.integers(1, 4))
        Tb = whole(0, 20, ns)
        ptype = str(gen.pick(r, ['single', 'double_parallel', 'double_series', 'coaxial']))
        R = float(r.uniform(0.02, 0.2))
        z = np.unique(np.append(whole(0, int(H.min()), 4), 0))
        rev = int(gen.pick(r, [1, 1, -1]))
        conn = [i - 1 if r.random() < 0.5 else -1 for i in range(n)] if kind == 'network' else None

        def mk(T, b):
            k = dict(J=1)
            if ptype == 'single':
                return gt.pipes.SingleUTube([(-0.025, T(0)), (0.025, T(0))], 0.013, 0.016, b, T(ks), T(kg), R, **k)
            if ptype == 'coaxial':
                return gt.pipes.Coaxial((T(0), T(0)), np.array([0.013, 0.03]), np.array([0.016, 0.034]), b, T(ks), T(kg), R, R, **k)
            return gt.pipes.MultipleUTube([(-0.025, T(0)), (T(0), -0.025), (0.025, T(0)), (T(0), 0.025)], 0.008, 0.01, b,
                                          T(ks), T(kg), R, 2, config=ptype.split('_')[1], **k)
        if kind == 'pipe':
            def f(T):
                p = mk(T, bores(T)[0])
                tb = T.a(Tb) if ns > 1 or Q > 0 else T(Tb[0])
                mm = T(m * rev) if ptype != 'double_series' or True else T(m)
                return [p.get_temperature(T.a(z), T(Tf), tb, mm, T(cp)), p.get_outlet_temperature(T(Tf), tb, mm, T(cp)),
                        p.get_inlet_temperature(T(Q), tb, mm, T(cp)), p.get_borehole_heat_extraction_rate(T(Tf), tb, mm, T(cp)),
                        p.get_fluid_heat_extraction_rate(T(Tf), tb, mm, T(cp)), p.get_total_heat_extraction_rate(T(Tf), tb, mm, T(cp)),
                        p.effective_borehole_thermal_resistance(mm, T(cp)), p.local_borehole_thermal_resistance(),
                        p.get_temperature(T(z[-1]), T(Tf), tb, mm, T(cp)),
                        *p.coefficients_outlet_temperature(mm, T(cp), ns), *p.coefficients_temperature(T(z[-1]), mm, T(cp), ns)]
            same('pipe', f, of=(ptype, rev), m=m, cp=cp, Tf=Tf, Tb=Tb, ks=ks, kg=kg, Q=Q, R=R, **info)
        else:
            TB = whole(0, 20, n * ns)

            def f(T):
                bs = bores(T)
                net = gt.networks.Network(bs, [mk(T, b) for b in bs], bore_connectivity=conn)
                a = (T.a(TB), T(m), T(cp), ns)
                return [net.get_network_inlet_temperature(T(Q), *a), net.get_network_outlet_temperature(T(Tf), *a),
                        net.get_inlet_temperature(T(Tf), *a), net.get_outlet_temperature(T(Tf), *a),
                        net.get_borehole_heat_extraction_rate(T(Tf), *a), net.get_fluid_heat_extraction_rate(T(Tf), *a),
                        net.get_network_heat_extraction_rate(T(Tf), *a),
                        *net.coefficients_network_heat_extraction_rate(T(m), T(cp), ns),
                        gt.networks.network_thermal_resistance(net, T(m), T(cp))]
            same('network', f, of=ptype, m=m, cp=cp, Tf=Tf, Tb=TB, conn=conn, ks=ks, kg=kg, Q=Q, R=R, **info)
    elif kind == 'aggregation':
        name = str(gen.pick(r, ['ClaessonJaved', 'MLAA', 'Liu']))
        nt, ns, dt = int(r.integers(10, 60)), int(r.integers(1, 4)), int(r.integers(600, 7201))
        q = whole(-50, 50, (nt, ns))

        def f(T):
            a = getattr(gt.load_aggregation, name)(T(dt), T(dt * nt), nSources=ns)
            tr = np.asarray(a.get_times_for_simulation(), dtype=float)
            g = np.array([[np.log1p(tr / 1e4) / (1 + abs(i - j)) for i in range(ns)] for j in range(ns)])
            a.initialize(g if ns > 1 else g[0, 0])
            v = []
            for k in range(nt):
                a.next_time_step(T(dt * (k + 1)))
                a.set_current_load(T.a(q[k]) if ns > 1 else T(q[k, 0]))
                v.append(np.atleast_1d(a.temporal_superposition()).ravel())
            return [tr, v]
        same('aggregation', f, of=name, dt=dt, nt=nt, ns=ns)
    else:
        k, conc = int(r.integers(1, 20)), int(r.integers(0, 40))
        m, mu, kk, rho = int(r.integers(1, 5)), float(10**r.uniform(-3.2, -1.8)), int(r.integers(1, 3)), int(r.integers(900, 1100))
        dt, tmax, cp = int(r.integers(100, 4000)), int(r.integers(10**5, 10**8)), int(r.integers(3500, 4300))
        P = gt.pipes

        def f(T):
            v = [gt.utilities.time_geometric(T(dt), T(tmax), 12), gt.utilities.time_ClaessonJaved(T(dt), T(dt * 500), 5),
                 gt.utilities.time_MarcottePasquier(T(dt), T(dt * 3000), 5), gt.utilities.erfint(T(k)), gt.utilities.exp1(T(k))]
            fl = gt.media.Fluid('MEG', float(conc)) if T.what is float else gt.media.Fluid('MEG', conc)
            v += [P.fluid_friction_factor_circular_pipe(T(m), 0.02, T(rho), mu, 1e-6),
                  P.convective_heat_transfer_coefficient_circular_pipe(T(m), 0.013, mu, T(rho), T(kk), T(cp), 1e-6),
                  P.convective_heat_transfer_coefficient_concentric_annulus(T(m), 0.02, 0.03, mu, T(rho), T(kk), T(cp), 1e-6),
                  P.conduction_thermal_resistance_circular_pipe(0.01, 0.02, T(kk)),
                  [fl.cp, fl.rho, fl.mu, fl.k, fl.nu, fl.Pr]]
            return v
        same('utilities', f, of='', m=m, mu=mu, k=kk, rho=rho, dt=dt, tmax=tmax, cp=cp)
        kg, ks = int(r.integers(1, 4)), int(r.integers(1, 4))

        def f(T):
            return gt.pipes.thermal_resistances([(-0.03, T(0)), (0.03, T(0))], 0.016, 0.075, T(ks), T(kg), 0.1, J=2)
        same('resistance', f, of='', ks=ks, kg=kg)
