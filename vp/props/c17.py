"""C17: fluid heat balance in a borehole."""
import numpy as np

from vp import bore, gen, pipe_ref

RULE = ('Every pipe arrangement (1 to 3 U-tubes in series, parallel or independent, coaxial both ways, symmetric or not, '
        'order 0 to 3), flow in either direction or not reversible, 1 to 6 unequal wall segments, lengths 10 to 300 m; '
        'temperatures observed along depth are inserted in the differential equations and compared with a multiple-'
        'shooting solution. Distinct by (pipe kind, number of legs, flow, number of segments, transfer units decade).')
ORACLES = ['resistances', 'ode', 'inlet', 'bottom', 'continuous', 'overall', 'sum', 'segment', 'reference.T', 'reference.Q',
           'reference.out', 'after-update', 'connections']
ASSUMPTIONS = ['delta-circuit resistances between legs are those of thermal_resistances (judged by C20) for the pipes, '
               'grout and ground the borehole was given, or the given fluid-to-fluid resistance (coaxial)',
               'up to 7 transfer units per eigenmode: beyond, the closed forms lose exp(2 NTU) of precision']


def cases(r, tier):
    n = 50 if tier == 'quick' else 700
    out = []
    for k in gen.PIPE_KINDS:
        fl = bore.FLOWS + (('mixed',) if k == 'independent' else ())
        for f in fl:
            for i in range(n):
                out.append(dict(kind=k, flow=f, i=i))
    return out


def run(case, mon):
    r = gen.rng(case)
    s = bore.borehole(r, case['kind'], case['flow'])
    p = bore.build(s)
    Ti, m, cp, q = bore.args(s)
    Tb = np.array(s['Tb'])
    kw = {}
    if s['ns'] == 1 and r.random() < 0.5:
        q_arg = None
    elif r.random() < 0.25:
        s['q'] = [1. / s['ns']] * s['ns']
        q_arg = None
    else:
        q_arg = q
    q = np.array(s['q'])
    if r.random() < 0.3:        # resistances changed after construction
        R_fp = float(s['pipe']['R_fp'] * r.uniform(0.5, 2.))
        R_ff = float(s['pipe'].get('R_ff', 0.1) * r.uniform(0.6, 2.))
        if r.random() < 0.5:
            p.get_outlet_temperature(Ti, Tb, m, cp, segment_ratios=q_arg)
        gen.update_resistances(p, s['pipe'], R_fp, R_ff)
        s['pipe'] = dict(s['pipe'], R_fp=R_fp)
        if 'R_ff' in s['pipe']:
            s['pipe']['R_ff'] = R_ff
        mon.event('after-update')
    ref = bore.reference(s)
    x = ref.stiff
    # resistances are symmetric up to the documented accuracy of the multipole iterations (1e-5, relative)
    asym = float(np.max(np.abs(ref.K - ref.K.T)) / np.max(np.abs(ref.K)))
    mon.check('resistances', asym < 2e-5, K=ref.K, s=s)
    tol = 1e-9 + 1e-14 * np.exp(2 * x) + 3 * asym * max(1., x)
    e = bore.edges(s)
    mon.state(s['pipe']['kind'], ref.N, case['flow'], s['ns'], int(np.floor(np.log10(max(x, 1e-3)))))
    info = dict(s=s)
    ref.solve(Ti, Tb)
    scale = 60.
    cap = float(np.max(np.abs(ref.C)))
    zs = np.sort(np.concatenate([e, r.uniform(0., s['H'], 8)]))
    T = p.get_temperature(zs, Ti, Tb, m, cp, segment_ratios=q_arg)
    mon.close('reference.T', T, np.array([ref.at(z) for z in zs]), rtol=tol, scale=scale, z=zs, **info)
    To = np.atleast_1d(p.get_outlet_temperature(Ti, Tb, m, cp, segment_ratios=q_arg))
    mon.close('reference.out', To, ref.T_out, rtol=tol, scale=scale, **info)
    Qb = p.get_borehole_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q_arg)
    mon.close('reference.Q', Qb, ref.Q_b, rtol=tol * 4, scale=scale * cap, **info)
    # the same facts, observed on the reported temperatures alone
    T0, TH = T[0], T[-1]
    tin = np.atleast_1d(Ti)
    got_in, want_in, bot = [], [], []
    for ic, (mi, ci, legs) in enumerate(ref.cir):
        got_in.append(T0[legs[0]])
        want_in.append(tin[ic] if len(tin) > 1 else tin[0])
        for a in range(0, len(legs), 2):
            bot.append(TH[legs[a]] - TH[legs[a + 1]])
        for a in range(1, len(legs) - 1, 2):
            mon.close('connections', T0[legs[a]], T0[legs[a + 1]], rtol=tol, scale=scale, **info)
    mon.event('connections')
    mon.close('inlet', got_in, want_in, rtol=tol, scale=scale, **info)
    mon.close('bottom', bot, np.zeros(len(bot)), atol=tol * scale, **info)
    ends = np.array([T0[legs[-1]] for _, _, legs in ref.cir])
    mon.close('connections', To, ends if ref.mix is None else [ends @ ref.mix], rtol=tol, scale=scale, **info)
    # advection equation (second-order differences inside each segment)
    for k in range(s['ns']):
        h = min(1e-3 * s['H'], 0.1 * (e[k + 1] - e[k]))
        z = float(r.uniform(e[k] + 2 * h, e[k + 1] - 2 * h))
        zz = z + h * np.array([-2, -1, 0, 1, 2])
        t = p.get_temperature(zz, Ti, Tb, m, cp, segment_ratios=q_arg)
        d = (t[0] - 8 * t[1] + 8 * t[3] - t[4]) / (12 * h)
        rhs = ref.A @ t[2] + ref.w * Tb[k]
        sc = float(np.max(np.abs(ref.A))) * scale + 1e-12
        mon.close('ode', d, rhs, rtol=1e-7 + 3 * tol / max(h * float(np.max(np.abs(ref.A))), 1e-12), scale=sc, z=z, **info)
        # continuity of temperature across the ends of the segment
        eps = 1e-9 * s['H']
        if k:
            t2 = p.get_temperature(np.array([e[k] - eps, e[k] + eps]), Ti, Tb, m, cp, segment_ratios=q_arg)
            mon.close('continuous', t2[0], t2[1], atol=2.1 * eps * sc + tol * scale, **info)
        # heat given by the wall over that segment: Gauss quadrature of the reported temperatures
        n = 12 if x < 3 else 24
        g, w = np.polynomial.legendre.leggauss(n)
        zq = 0.5 * (e[k + 1] - e[k]) * g + 0.5 * (e[k + 1] + e[k])
        tq = p.get_temperature(zq, Ti, Tb, m, cp, segment_ratios=q_arg)
        Q = 0.5 * (e[k + 1] - e[k]) * np.sum(w[:, None] * (Tb[k] - tq) * np.diag(ref.K))
        mon.close('segment', Qb[k], Q, rtol=1e-8 + 10 * tol, scale=scale * cap, seg=k, **info)
    # overall balance
    Qf = np.atleast_1d(p.get_fluid_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q_arg))
    mc = np.array([mi * ci for mi, ci, _ in ref.cir])
    if ref.mix is not None:
        mc = np.array([np.sum(mc)])
    mon.close('overall', Qf, mc * (To - tin), rtol=1e-12 * 1e3, scale=scale * cap, **info)
    Qt = p.get_total_heat_extraction_rate(Ti, Tb, m, cp, segment_ratios=q_arg)
    mon.close('overall', Qt, np.sum(mc * (To - tin)), rtol=1e-9, scale=scale * cap, **info)
    mon.close('sum', Qt, np.sum(Qb), rtol=tol * 4, scale=scale * cap, **info)
