"""C18: borehole-level queries describe one linear system."""
import numpy as np

from vp import bore, gen, pipe_ref

RULE = ('Every pipe arrangement, flows in both directions or blocked, 1 to 6 unequal segments: round trips between inlet '
        'temperature and heat extraction rate, superposition, equilibrium, finer walls, coefficient forms, bounds at '
        'all depths, effective against local resistance and against the outlet temperature. Distinct by (pipe kind, '
        'legs, flow, number of segments, sign of resistances).')
ORACLES = ['inverse', 'inverse.fluid', 'linear', 'equilibrium', 'coefficients', 'bounds', 'bounds.depth', 'finer',
           'scalar-wall', 'default-ratios', 'R_eff>=R_local', 'R_eff.outlet', 'R_eff.limit', 'R_local', 'profile-ends']
ASSUMPTIONS = ['bounds and R_eff >= R_local claimed when all delta-circuit resistances are positive',
               'a query for a scalar wall temperature returns what an array of equal values returns']
PIPES = gen.PIPE_KINDS


def cases(r, tier):
    n = 40 if tier == 'quick' else 600
    return [dict(kind=k, flow=f, i=i) for k in PIPES
            for f in bore.FLOWS + (('mixed',) if k == 'independent' else ()) for i in range(n)]


def run(case, mon):
    r = gen.rng(case)
    s = bore.borehole(r, case['kind'], case['flow'], stiff=5.)
    p = bore.build(s)
    Ti, m, cp, q = bore.args(s)
    Tb = np.array(s['Tb'])
    n, H = s['ns'], s['H']
    info = dict(s=s)
    K = pipe_ref.delta_circuit(s['pipe'], s['rb'])
    cir, mix = pipe_ref.circuits(s['pipe'], m, cp, s['reversible'])
    mc = np.array([a * b for a, b, _ in cir])
    if mix is not None:
        mc = np.array([mc.sum()])
        if s['pipe']['kind'].endswith('series'):
            mc = np.array([cir[0][0] * cir[0][1]])
    positive = bool(np.all(K >= 0.))
    mon.state(case['kind'], len(K), case['flow'], n, positive)
    scale = 60.
    tol = 2e-9
    qs = float(np.max(mc)) * scale

    def out(Ti, Tb, **k):
        return np.atleast_1d(p.get_outlet_temperature(Ti, Tb, m, cp, **k))

    R = dict(segment_ratios=q)
    To = out(Ti, Tb, **R)
    Qb = p.get_borehole_heat_extraction_rate(Ti, Tb, m, cp, **R)
    Qf = p.get_fluid_heat_extraction_rate(Ti, Tb, m, cp, **R)
    Qt = p.get_total_heat_extraction_rate(Ti, Tb, m, cp, **R)
    # inverse (as well conditioned as the heat extraction rate depends on the inlet)
    b_in = p.coefficients_fluid_heat_extraction_rate(m, cp, n, **R)[0]
    cond = qs / scale / max(float(np.min(np.abs(np.linalg.eigvals(np.atleast_2d(b_in))))), 1e-300)
    T2 = p.get_inlet_temperature(Qf, Tb, m, cp, **R)
    mon.close('inverse.fluid', T2, Ti, atol=scale * (1e-12 * cond + tol), cond=cond, **info)
    mon.close('inverse', np.atleast_1d(p.get_outlet_temperature(T2, Tb, m, cp, **R)), To,
              atol=scale * (1e-12 * cond + tol), **info)
    mon.check('inverse', np.shape(T2) == np.shape(Ti), got=np.shape(T2), want=np.shape(Ti), **info)
    Q2 = r.uniform(-5e3, 5e3) if np.ndim(Ti) == 0 else r.uniform(-5e3, 5e3, len(Ti))
    T3 = p.get_inlet_temperature(Q2, Tb, m, cp, **R)
    big = max(float(np.max(np.abs(T3))), scale)
    mon.close('inverse', p.get_fluid_heat_extraction_rate(T3, Tb, m, cp, **R), Q2,
              atol=1e-9 * qs / scale * big + 1e-9, **info)
    mon.close('inverse', mc * (out(T3, Tb, **R) - np.atleast_1d(T3)), np.atleast_1d(Q2),
              atol=1e-9 * qs / scale * big + 1e-9, **info)
    # linearity
    a, c = float(r.uniform(-3., 3.)), float(r.uniform(-50., 50.))
    Tb2 = r.uniform(-20., 30., n)
    Ti2 = Ti * 0. + r.uniform(-20., 30.)
    z = r.uniform(0., H, 4)

    def queries(Ti, Tb):
        return [out(Ti, Tb, **R), p.get_temperature(z, Ti, Tb, m, cp, **R)], [
            np.atleast_1d(p.get_borehole_heat_extraction_rate(Ti, Tb, m, cp, **R)),
            np.atleast_1d(p.get_fluid_heat_extraction_rate(Ti, Tb, m, cp, **R)),
            np.atleast_1d(p.get_total_heat_extraction_rate(Ti, Tb, m, cp, **R))]

    A, B = queries(Ti, Tb), queries(Ti2, Tb2)
    C = queries(a * Ti + Ti2 + c, a * Tb + Tb2 + c)
    for x, y, w in zip(A[0], B[0], C[0]):
        mon.close('linear', w, a * x + y + c, rtol=tol, scale=4 * scale, a=a, c=c, **info)
    for x, y, w in zip(A[1], B[1], C[1]):
        mon.close('linear', w, a * x + y, rtol=tol * 4, scale=4 * qs, a=a, c=c, **info)
    # equilibrium
    T0 = float(r.uniform(-10., 40.))
    E = queries(Ti * 0. + T0, np.full(n, T0))
    for x in E[0]:
        mon.close('equilibrium', x, np.full(np.shape(x), T0), rtol=tol, scale=scale, **info)
    for x in E[1]:
        mon.close('equilibrium', x, np.zeros(np.shape(x)), atol=tol * 4 * qs, **info)
    # coefficient forms
    ti, N_in = np.atleast_1d(Ti), np.size(Ti)
    for name, want, total in (('coefficients_outlet_temperature', To, 1.),
                              ('coefficients_borehole_heat_extraction_rate', np.atleast_1d(Qb), 0.),
                              ('coefficients_fluid_heat_extraction_rate', np.atleast_1d(Qf), 0.)):
        x, y = getattr(p, name)(m, cp, n, segment_ratios=q)
        unit = scale if total else qs
        mon.close('coefficients', x @ ti + y @ Tb, want, rtol=tol, scale=unit, name_=name, **info)
        mon.close('coefficients', np.sum(x, axis=-1) + np.sum(y, axis=-1), np.full(len(want), total),
                  atol=4 * tol * unit / scale, name_=name, **info)
    x, y = p.coefficients_inlet_temperature(m, cp, n, segment_ratios=q)
    mon.close('coefficients', x @ np.atleast_1d(Qf) + y @ Tb, ti, atol=scale * (1e-12 * cond + tol), **info)
    zz = np.sort(r.uniform(0., H, 3))
    x, y = p.coefficients_temperature(zz, m, cp, n, segment_ratios=q)
    Tz = p.get_temperature(zz, Ti, Tb, m, cp, **R)
    mon.close('coefficients', x @ ti + y @ Tb, Tz, rtol=tol, scale=scale, **info)
    x0, y0 = p.coefficients_temperature(float(zz[1]), m, cp, n, segment_ratios=q)
    mon.close('coefficients', np.reshape(x0, x[1].shape) @ ti + np.reshape(y0, y[1].shape) @ Tb, Tz[1], rtol=tol,
              scale=scale, scalar_depth=True, **info)
    for k in range(3):
        one = p.get_temperature(float(zz[k]), Ti, Tb, m, cp, **R)
        mon.close('coefficients', np.ravel(one), Tz[k], rtol=tol, scale=scale, z=zz[k], **info)
    # profile ends
    T0H = p.get_temperature(np.array([0., H]), Ti, Tb, m, cp, **R)
    mon.close('profile-ends', [T0H[0][legs[0]] for _, _, legs in (cir if mix is None else cir[:1])], ti, rtol=tol,
              scale=scale, **info)
    ends = np.array([T0H[0][legs[-1]] for _, _, legs in cir])
    mon.close('profile-ends', To, ends if mix is None else [ends @ mix], rtol=tol, scale=scale, **info)
    # bounds
    if positive:
        lo, hi = min(np.min(ti), np.min(Tb)), max(np.max(ti), np.max(Tb))
        zs = np.linspace(0., H, 9)
        for t0, tb in ((Ti, Tb), (Ti2, Tb)):
            lo, hi = min(np.min(t0), np.min(tb)), max(np.max(t0), np.max(tb))
            o = out(t0, tb, **R)
            mon.check('bounds', np.all(o >= lo - tol * scale) and np.all(o <= hi + tol * scale), out=o, lo=lo, hi=hi, **info)
            t = p.get_temperature(zs, t0, tb, m, cp, **R)
            mon.check('bounds.depth', np.all(t >= lo - 4 * tol * scale) and np.all(t <= hi + 4 * tol * scale),
                      lo=lo, hi=hi, t=t, **info)
    # finer wall
    k = r.integers(1, 4, n)
    q3 = np.concatenate([np.array(gen.ratios(r, int(c))) * q[i] for i, c in enumerate(k)])
    Tb3 = np.repeat(Tb, k)
    mon.close('finer', out(Ti, Tb3, segment_ratios=q3), To, rtol=tol, scale=scale, q3=q3, **info)
    Q3 = p.get_borehole_heat_extraction_rate(Ti, Tb3, m, cp, segment_ratios=q3)
    mon.close('finer', np.add.reduceat(Q3, np.concatenate([[0], np.cumsum(k)[:-1]])), Qb, rtol=4 * tol, scale=qs, q3=q3, **info)
    mon.close('finer', p.get_temperature(zz, Ti, Tb3, m, cp, segment_ratios=q3), Tz, rtol=tol, scale=scale, q3=q3, **info)
    mon.close('scalar-wall', out(Ti, 12.5), out(Ti, np.full(n, 12.5), **R), rtol=tol, scale=scale, **info)
    mon.close('scalar-wall', np.sum(p.get_borehole_heat_extraction_rate(Ti, 12.5, m, cp)),
              np.sum(p.get_borehole_heat_extraction_rate(Ti, np.full(n, 12.5), m, cp, **R)), rtol=4 * tol, scale=qs, **info)
    mon.close('default-ratios', out(Ti, Tb), out(Ti, Tb, segment_ratios=np.full(n, 1. / n)), rtol=tol, scale=scale, **info)
    mon.close('default-ratios', p.get_borehole_heat_extraction_rate(Ti, Tb, m, cp), p.get_borehole_heat_extraction_rate(
        Ti, Tb, m, cp, segment_ratios=np.full(n, 1. / n)), rtol=4 * tol, scale=qs, **info)
    # resistances
    loc = p.local_borehole_thermal_resistance()
    mon.close('R_local', loc, 1. / np.trace(K), rtol=1e-9, **info)
    if case['kind'] != 'independent':
        eff = p.effective_borehole_thermal_resistance(m, cp)
        T_out = float(out(1., 0.)[0])
        Q = float(mc[0]) * (T_out - 1.)
        c1 = float(mc[0]) / abs(Q)
        mon.close('R_eff.outlet', eff, -0.5 * (1. + T_out) * H / Q, rtol=1e-9 + 1e-12 * c1, c1=c1, **info)
        if positive:
            mon.check('R_eff>=R_local', eff >= loc * (1 - 2e-5 - 1e-12 * c1), eff=eff, loc=loc, **info)
        # no axial variation left at large flows
        f = max(1., pipe_ref.stiffness(s['pipe'], H, s['rb'], m, cp) / 1e-3)
        big = p.effective_borehole_thermal_resistance(float(m * f), cp)
        mon.close('R_eff.limit', big, loc, rtol=2e-3, f=f, **info)
