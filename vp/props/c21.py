"""C21: friction factors, film coefficients and pipe resistances."""
import numpy as np
from scipy.optimize import brentq

from vp import gen

RULE = ('Flow rates spread over all regimes and packed around Re = 2300 and 4000, radii, roughness, fluids, annulus '
        'ratios and pipe types; correlations are re-evaluated here from their documented formulas (Colebrook-White by '
        'root finding) and swept in flow rate for continuity and monotonicity. Distinct by (function, regime, fluid, '
        'pipe type, roughness decade).')
ORACLES = ['friction.laminar', 'friction.colebrook', 'friction.tolerance', 'film.laminar', 'film.turbulent',
           'film.transition', 'film.continuous', 'film.monotonic', 'annulus.laminar', 'annulus.turbulent',
           'annulus.transition', 'annulus.continuous', 'annulus.between-limits', 'sign', 'conduction', 'conduction.additive',
           'fluid-to-pipe', 'fluid-to-fluid', 'repeat', 'transition.linear', 'annulus.friction-reynolds']
ASSUMPTIONS = ['turbulent correlations are used up to Re = 5e6 and 0.5 < Pr < 2000 as documented',
               'friction factor of an annulus and of the transition region: the documented one, or the one recorded in '
               'known_findings.txt (fixed inputs transition.linear and annulus.friction-reynolds report these)']
CASE_LIMIT = 200


def cases(r, tier):
    n = 150 if tier == 'quick' else 6000
    out = [dict(kind=k, i=i) for k in ('friction', 'film', 'annulus', 'sweep', 'sweep_annulus', 'pipe', 'conduction')
           for i in range(n)]
    out += [dict(kind='fixed_transition'), dict(kind='fixed_annulus')]
    return out


def laminar_or_colebrook(Re, E):
    if Re < 2300.:
        return 64. / Re
    g = lambda x: x + 2. * np.log10(E / 3.7 + 2.51 * x / Re)     # x = 1/sqrt(f)
    return brentq(g, 1e-3, 60., xtol=1e-14, rtol=1e-14)**-2


def gnielinski(Re, Pr, f):
    return (f / 8.) * (Re - 1000.) * Pr / (1. + 12.7 * np.sqrt(f / 8.) * (Pr**(2. / 3.) - 1.))


def nusselt(Re, Pr, lam, f_of):
    """Possible values (documented, recorded) of the Nusselt number; f_of: friction factors at a Reynolds number."""
    if Re <= 2300.:
        return [lam]
    if Re >= 4000.:
        return [gnielinski(Re, Pr, f) for f in f_of(Re)]
    w = (Re - 2300.) / 1700.
    return [(1 - w) * lam + w * gnielinski(4000., Pr, f) for f in list(f_of(4000.)) + list(f_of(Re))]


def film(Re, Pr, E):
    return nusselt(Re, Pr, 3.66, lambda x: [laminar_or_colebrook(x, E)])


def annulus(Re, Pr, E, rs, lam):
    # the recorded deviation: Reynolds number of a pipe of the hydraulic radius with the whole flow
    k = (1 + rs) / (1 - rs)
    return nusselt(Re, Pr, lam, lambda x: [laminar_or_colebrook(x, E), laminar_or_colebrook(x * k, E)])


def near(v, wants, rtol=3e-6):
    return bool(np.isfinite(v)) and min(abs(v - w) / abs(w) for w in wants) <= rtol


def situation(r):
    names = [('Water', 0.), ('MPG', 25.), ('MEG', 40.), ('MEA', 15.), ('MMA', 20.)]
    nm, x = gen.pick(r, names)
    if r.random() < 0.4:        # free properties
        mu, rho, k, cp = float(10**r.uniform(-4, -1.8)), float(r.uniform(700, 1200)), float(r.uniform(0.2, 0.8)), float(
            r.uniform(1500., 4500.))
        nm = 'free'
    else:
        from pygfunction.media import Fluid
        f = Fluid(nm, x, float(r.uniform(5., 30.)))
        mu, rho, k, cp = f.mu, f.rho, f.k, f.cp
    eps = float(gen.pick(r, [1e-7, 1.5e-6, 1e-5, 1e-4, 5e-4]))
    return nm, float(mu), float(rho), float(k), float(cp), eps


def reynolds(r, top=6.5):
    u = r.random()
    if u < 0.25:
        return float(2300. * (1 + r.choice([-1, 1]) * 10**r.uniform(-9, -1)))
    if u < 0.5:
        return float(4000. * (1 + r.choice([-1, 1]) * 10**r.uniform(-9, -1)))
    if u < 0.65:
        return float(r.uniform(2300., 4000.))
    if u < 0.8:
        return float(10**r.uniform(-1, 3.3))
    return float(10**r.uniform(3.5, top))


def regime(Re):
    return 'laminar' if Re <= 2300 else 'transition' if Re < 4000 else 'turbulent'


def edge(Re):
    """Rounding in Re may put the flow on either side of a boundary."""
    return abs(Re / 2300. - 1) < 1e-12 or abs(Re / 4000. - 1) < 1e-12


def run(case, mon):
    import pygfunction as gt
    P = gt.pipes
    r = gen.rng(case)
    kind = case['kind']
    if kind == 'fixed_transition':
        mu, rho, cp, k, eps, ri = 0.00203008, 1014.78, 3977., 0.4922, 1.5e-6, 0.01
        Re = 2 * 0.1 / (np.pi * ri * mu)
        w = (Re - 2300.) / 1700.
        Pr = cp * mu / k
        want = (1 - w) * 3.66 + w * gnielinski(4000., Pr, laminar_or_colebrook(4000., eps / (2 * ri)))
        h = P.convective_heat_transfer_coefficient_circular_pipe(0.1, ri, mu, rho, k, cp, eps)
        mon.close('transition.linear', h, want * k / (2 * ri), rtol=1e-5)
        return
    if kind == 'fixed_annulus':
        mu, rho, cp, k, eps, ra, rb = 0.00203008, 1014.78, 3977., 0.4922, 1.5e-6, 0.01, 0.02
        D = 2 * (rb - ra)
        Re = 0.6 * D / (np.pi * (rb**2 - ra**2) * mu)
        want = gnielinski(Re, cp * mu / k, laminar_or_colebrook(Re, eps / D)) * k / D
        h = P.convective_heat_transfer_coefficient_concentric_annulus(0.6, ra, rb, mu, rho, k, cp, eps)
        mon.close('annulus.friction-reynolds', h, [want, want], rtol=1e-5)
        return
    nm, mu, rho, k, cp, eps = situation(r)
    Pr = cp * mu / k
    if kind == 'friction':
        ri = float(10**r.uniform(-3, -1))
        E = eps / (2 * ri)
        if E > 0.1:
            eps, E = 0.05 * 2 * ri, 0.05
        Re = reynolds(r, 8.)
        m = Re * np.pi * ri * mu / 2.
        mon.state('friction', regime(Re), nm, int(np.log10(E)))
        info = dict(Re=Re, ri=ri, mu=mu, rho=rho, eps=eps)
        f = P.fluid_friction_factor_circular_pipe(m, ri, mu, rho, eps)
        mon.close('sign', P.fluid_friction_factor_circular_pipe(-m, ri, mu, rho, eps), f, rtol=1e-14, **info)
        if edge(Re):
            return
        want = laminar_or_colebrook(Re, E)
        if Re < 2300:
            mon.close('friction.laminar', f, want, rtol=1e-12, **info)
        else:
            mon.close('friction.colebrook', f, want, rtol=2e-6, **info)
            f2 = P.fluid_friction_factor_circular_pipe(m, ri, mu, rho, eps, tol=1e-11)
            mon.close('friction.tolerance', f2, want, rtol=1e-9, **info)
        return
    if kind == 'film':
        ri = float(10**r.uniform(-3, -1))
        Re = reynolds(r)
        m = Re * np.pi * ri * mu / 2.
        mon.state('film', regime(Re), nm, int(np.log10(eps)))
        info = dict(Re=Re, ri=ri, mu=mu, rho=rho, k=k, cp=cp, eps=eps)
        fn = P.convective_heat_transfer_coefficient_circular_pipe
        h = fn(m, ri, mu, rho, k, cp, eps)
        mon.close('sign', fn(-m, ri, mu, rho, k, cp, eps), h, rtol=1e-14, **info)
        want = [v * k / (2 * ri) for v in film(Re, Pr, eps / (2 * ri))]
        mon.check('film.' + regime(Re), near(h, want, 3e-6 if Re > 2300. else 1e-9), h=h, want=want, **info)
        return
    if kind == 'annulus':
        ro = float(10**r.uniform(-2.5, -1))
        rs = float(r.uniform(0.05, 0.97))
        ri = rs * ro
        D = 2 * (ro - ri)
        Re = reynolds(r)
        m = Re * np.pi * (ro**2 - ri**2) * mu / D
        mon.state('annulus', regime(Re), nm, int(10 * rs))
        info = dict(Re=Re, ri=ri, ro=ro, mu=mu, rho=rho, k=k, cp=cp, eps=eps)
        fn = P.convective_heat_transfer_coefficient_concentric_annulus
        h = np.asarray(fn(m, ri, ro, mu, rho, k, cp, eps), dtype=float)
        mon.close('sign', fn(-m, ri, ro, mu, rho, k, cp, eps), h, rtol=1e-14, **info)
        lam = (3.66 + 1.2 * rs**-0.8, 3.66 + 1.2 * rs**0.5)
        if not mon.check('annulus.' + regime(Re), h.shape == (2,), **info):
            return
        for j in range(2):
            want = [v * k / D for v in annulus(Re, Pr, eps / D, rs, lam[j])]
            mon.check('annulus.' + regime(Re), near(h[j], want, 3e-6 if Re > 2300. else 1e-9), h=h, want=want, side=j, **info)
        return
    if kind == 'sweep':
        ri = float(10**r.uniform(-3, -1))
        c = gen.pick(r, [2300., 4000., 3000.])
        w = gen.pick(r, [1e-6, 1e-3, 0.4])
        Re = c * (1 + w * np.linspace(-1, 1, 41))
        m = Re * np.pi * ri * mu / 2.
        fn = P.convective_heat_transfer_coefficient_circular_pipe
        order = r.permutation(41)
        h = np.empty(41)
        for i in order:
            h[i] = fn(float(m[i]), ri, mu, rho, k, cp, eps)
        again = np.array([fn(float(v), ri, mu, rho, k, cp, eps) for v in m])
        info = dict(c=c, w=w, ri=ri, mu=mu, rho=rho, k=k, cp=cp, eps=eps)
        mon.state('sweep', c, w, nm)
        mon.check('repeat', np.array_equal(h, again), **info)
        mon.check('film.monotonic', np.all(np.diff(h) >= -3e-6 * h[:-1]), h=h, **info)
        if w < 1e-2:
            # slope of the steepest part bounds the change over the sweep
            lo, up = 3.66, gnielinski(4000., Pr, 0.1)
            mon.check('film.continuous', np.ptp(h) <= (10 * w * (up - lo) * c / 1700. + 3e-5 * up + 10 * w * lo) * k / (2 * ri),
                      ptp=np.ptp(h), **info)
        return
    if kind == 'sweep_annulus':
        ro = float(10**r.uniform(-2.5, -1))
        rs = float(r.uniform(0.05, 0.97))
        ri = rs * ro
        D = 2 * (ro - ri)
        c = gen.pick(r, [2300., 4000., 3000.])
        w = gen.pick(r, [1e-6, 1e-3, 0.4])
        Re = c * (1 + w * np.linspace(-1, 1, 31))
        m = Re * np.pi * (ro**2 - ri**2) * mu / D
        fn = P.convective_heat_transfer_coefficient_concentric_annulus
        h = np.array([fn(float(v), ri, ro, mu, rho, k, cp, eps) for v in m]) * D / k
        lam = (3.66 + 1.2 * rs**-0.8, 3.66 + 1.2 * rs**0.5)
        info = dict(c=c, w=w, ri=ri, ro=ro, mu=mu, rho=rho, k=k, cp=cp, eps=eps)
        mon.state('sweep_annulus', c, w, int(10 * rs))
        for j in range(2):
            if w < 1e-2:
                up = gnielinski(4000., Pr, 0.1)
                mon.check('annulus.continuous', np.ptp(h[:, j]) <= 10 * w * (up + lam[j]) * c / 1700. + 3e-5 * (up + lam[j]),
                          ptp=np.ptp(h[:, j]), side=j, **info)
            t = (Re > 2300) & (Re < 4000)
            for i in np.flatnonzero(t):
                turb = [gnielinski(4000., Pr, v) for v in (laminar_or_colebrook(Re[i], eps / D),
                                                           laminar_or_colebrook(4000., eps / D),
                                                           laminar_or_colebrook(Re[i] * (1 + rs) / (1 - rs), eps / D),
                                                           laminar_or_colebrook(4000. * (1 + rs) / (1 - rs), eps / D))]
                mon.check('annulus.between-limits', min(turb + [lam[j]]) * (1 - 1e-5) <= h[i, j] <= max(turb + [lam[j]]) * (1 + 1e-5),
                          h=h[i, j], lam=lam[j], turb=turb, Re=Re[i], **info)
        mon.check('annulus.between-limits', np.all(h[Re > 4000.00001, 0] == h[Re > 4000.00001, 1]), **info)
        return
    if kind == 'conduction':
        r1, r2, r3 = (float(v) for v in np.cumsum(10**r.uniform(-4, -1, 3)))
        kp = float(10**r.uniform(-1, 2.6))
        fn = P.conduction_thermal_resistance_circular_pipe
        mon.state('conduction', int(np.log10(r1)), int(np.log10(kp)))
        mon.close('conduction', fn(r1, r2, kp), np.log(r2 / r1) / (2 * np.pi * kp), rtol=1e-12, r=[r1, r2], kp=kp)
        mon.close('conduction.additive', fn(r1, r2, kp) + fn(r2, r3, kp), fn(r1, r3, kp), rtol=1e-11, r=[r1, r2, r3], kp=kp)
        return
    # ---- pipes with real fluids --------------------------------------------
    from pygfunction.media import Fluid
    f = Fluid(*gen.pick(r, [('Water', 0.), ('MPG', 25.), ('MEG', 40.), ('MEA', 15.), ('MMA', 20.)]), float(r.uniform(5., 30.)))
    mu, rho, k, cp = float(f.mu), float(f.rho), float(f.k), float(f.cp)
    Pr = cp * mu / k
    T = gt.enums.PipeType if hasattr(gt, 'enums') else P.PipeType
    pt = gen.pick(r, ['SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL', 'DOUBLE_UTUBE_SERIES', 'COAXIAL_ANNULAR_IN',
                      'COAXIAL_ANNULAR_OUT'])
    t = T[pt]
    m = float(10**r.uniform(-2.5, 0.7))
    kp = float(10**r.uniform(-1, 1))
    Rp = lambda a, b, kk: np.log(b / a) / (2 * np.pi * kk)
    sg = float(r.choice([-1., 1.]))
    if not pt.startswith('COAX'):
        ri = float(10**r.uniform(-2.2, -1.5))
        ro = ri * float(r.uniform(1.05, 1.3))
        mp = m / 2 if pt == 'DOUBLE_UTUBE_PARALLEL' else m
        Re = 2 * mp / (np.pi * ri * mu)
        want = [Rp(ri, ro, kp) + 1. / (v * k * np.pi) for v in film(Re, Pr, eps / (2 * ri))]
        got = P.fluid_to_pipe_thermal_resistance(t, sg * m, ri, ro, kp, eps, f)
        mon.state(pt, regime(Re))
        mon.check('fluid-to-pipe', near(got, want), got=got, want=want, pipe=pt, m=m, Re=Re, ri=ri, ro=ro, kp=kp, eps=eps)
        return
    ro_o = float(r.uniform(0.03, 0.1))
    ri_o = ro_o * float(r.uniform(0.85, 0.95))
    ro_i = ri_o * float(r.uniform(0.3, 0.9))
    ri_i = ro_i * float(r.uniform(0.8, 0.95))
    k_in, k_out = kp, float(10**r.uniform(-1, 1))
    ann_first = pt == 'COAXIAL_ANNULAR_IN'
    pair = lambda outer, inner: (outer, inner) if ann_first else (inner, outer)
    form = gen.pick(r, [tuple, list, np.array])
    ri, ro = form(pair(ri_o, ri_i)), form(pair(ro_o, ro_i))
    kk = form(pair(k_out, k_in))
    D = 2 * (ri_o - ro_i)
    rs = ro_i / ri_o
    Re = m * D / (np.pi * (ri_o**2 - ro_i**2) * mu)
    Re_i = 2 * m / (np.pi * ri_i * mu)
    out = [v * k / D for v in annulus(Re, Pr, eps / D, rs, 3.66 + 1.2 * rs**0.5)]
    inn = [v * k / D for v in annulus(Re, Pr, eps / D, rs, 3.66 + 1.2 * rs**-0.8)]
    info = dict(pipe=pt, m=m, Re=Re, Re_i=Re_i, ri=ri, ro=ro, kk=kk, eps=eps)
    mon.state(pt, regime(Re), regime(Re_i), form.__name__)
    got = P.fluid_to_pipe_thermal_resistance(t, sg * m, ri, ro, kk, eps, f)
    mon.check('fluid-to-pipe', near(got, [Rp(ri_o, ro_o, k_out) + 1. / (h * 2 * np.pi * ri_o) for h in out]), got=got, **info)
    got = P.fluid_to_fluid_thermal_resistance(t, sg * m, ri, ro, kk, eps, f)
    want = [1. / (a * k * np.pi) + Rp(ri_i, ro_i, k_in) + 1. / (h * 2 * np.pi * ro_i)
            for h in inn for a in film(Re_i, Pr, eps / (2 * ri_i))]
    mon.check('fluid-to-fluid', near(got, want), got=got, want=want, **info)
