"""C34: finite, bounded results in reasonable time over the whole range of physical inputs."""
import signal

import numpy as np

from vp import gen

RULE = ('Fields, pairs, borehole sections, pipes and flows with dimensions, depths, spacings, diffusivities, conductivities, times and '
        'flow rates drawn over decades (log-uniform), very different within one field; every answer must come within a minute, be finite '
        'and stay within physical bounds. Distinct by (calculation, decade of each input, method).')
ORACLES = ['finishes', 'finite', 'bounds', 'forms', 'positive', 'resistance', 'film', 'increasing']
ASSUMPTIONS = ['r_b 2 to 30 cm, H from 50 r_b to 2000 m, D zero or from 0.1 m to 1000 m, spacing from 4 r_b to 10 km, times from 1e-3 '
               'linearization thresholds to 1000 characteristic times, transfer units of pipes limited as in C17',
               'a minute is allowed where the calculation takes below a second',
               'results do not decrease with time within 1e-4 of the value (coarse, widely spaced time steps)']
CASE_LIMIT = 400
LIMIT = 60
KINDS = ['pair', 'stack', 'gfunc', 'mift', 'section', 'film', 'inclined']


def film(gt, r, mon):
    """ Film coefficients and friction over twelve decades of flow. False once one of them did not finish. """
    mu, rho, k_f, cp = log(r, 2e-4, 5e-2), log(r, 700., 1200.), log(r, 0.1, 0.7), log(r, 2000., 4300.)
    eps = log(r, 1e-9, 1e-4)
    ri = log(r, 0.005, 0.1)
    m = log(r, 1e-6, 100.) * float(r.choice([-1., 1.]))
    ro = ri * float(r.uniform(1.05, 8.))
    if r.random() < 0.4:
        # around the transition between laminar and turbulent flow, of the pipe or of the annulus
        m = float(np.sign(m)) * log(r, 1000., 6000.) * mu * np.pi * float(r.choice([2. * ri, ri + ro])) * 0.5
    info = dict(m=m, r_in=ri, mu=mu, rho=rho, k=k_f, cp=cp, eps=eps)
    mon.state('film', dec(abs(m), ri, mu))
    h = limited(lambda: gt.pipes.convective_heat_transfer_coefficient_circular_pipe(m, ri, mu, rho, k_f, cp, eps))
    mon.check('finishes', h is not None, limit=LIMIT, **info)
    if h is None:
        return False
    # never below laminar flow of uniform temperature (Nu = 3.66)
    mon.check('film', np.isfinite(h) and h * 2. * ri / k_f > 3.6, h=h, **info)
    v = limited(lambda: gt.pipes.convective_heat_transfer_coefficient_concentric_annulus(m, ri, ro, mu, rho, k_f, cp, eps))
    mon.check('finishes', v is not None, limit=LIMIT, r_out=ro, **info)
    if v is None:
        return False
    mon.check('film', bool(np.all(np.isfinite(v))) and bool(np.all(np.asarray(v) > 0.)), h=v, r_out=ro, **info)
    fr = limited(lambda: gt.pipes.fluid_friction_factor_circular_pipe(m, ri, mu, rho, eps))
    mon.check('finishes', fr is not None, limit=LIMIT, **info)
    if fr is None:
        return False
    mon.check('film', bool(np.isfinite(fr) and fr > 0.), f=fr, **info)
    return True


def cases(r, tier):
    n = 12 if tier == 'quick' else 300
    return [dict(kind=k, i=i) for k in KINDS for i in range(n)]


class Slow(Exception):
    pass


def limited(f, s=LIMIT):
    """f(), or None if it does not finish in time."""
    def ring(*a):
        raise Slow
    old = signal.signal(signal.SIGALRM, ring)
    left = signal.alarm(s)
    try:
        return f()
    except Slow:
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, left - s))


def log(r, a, b, n=None):
    return np.exp(r.uniform(np.log(a), np.log(b), n)) if n else float(np.exp(r.uniform(np.log(a), np.log(b))))


def field(r, n, stack=False):
    rb = log(r, 0.02, 0.3)
    same = r.random() < 0.4
    H = [log(r, 50 * rb, 2000.)] * n if same else list(log(r, 50 * rb, 2000., n))
    D = [0. if r.random() < 0.2 else log(r, max(0.1, rb), 1000.) for _ in range(n)]
    if r.random() < 0.4:
        D = [D[0]] * n
    S = log(r, 4 * rb, 1e4)
    a = float(r.uniform(0., 2 * np.pi))
    f = [[float(H[i]), float(D[i]), rb, float(i * S * np.cos(a)), float(i * S * np.sin(a)), 0., 0.] for i in range(n)]
    if stack:
        # one above the other: the second starts below the end of the first
        for i in range(1, n):
            f[i][1] = f[i - 1][1] + f[i - 1][0] * float(r.choice([1., 1.01, 1.5, 4.]))
    alpha = log(r, 1e-8, 1e-4)
    ts = max(b[0] for b in f)**2 / (9. * alpha)
    th = rb**2 / (25. * alpha)
    t = np.sort(log(r, th * 1e-3, ts * 1e3, int(r.integers(1, 5))))
    return f, alpha, t, th


def upper(f):
    """Largest steady-state temperature of any borehole with all at the unit rate (without the surface)."""
    out = 0.
    for b in f:
        s = 0.
        for c in f:
            d = max(float(np.hypot(b[3] - c[3], b[4] - c[4])), b[2])
            s += np.arcsinh(c[0] / (2. * d))
        out = max(out, s)
    return float(out)


def dec(*v):
    return tuple(int(np.floor(np.log10(x))) if x > 0 else None for x in v)


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    kind = case['kind']
    ht = gt.heat_transfer
    if kind in ('pair', 'stack'):
        f, alpha, t, th = field(r, 2, kind == 'stack')
        b = gen.boreholes(f)
        info = dict(field=f, alpha=alpha, time=t)
        mon.state(kind, dec(f[0][0], f[1][0], f[0][2], f[1][3]**2 + f[1][4]**2, alpha))
        U = upper(f)
        own = [np.arcsinh(x[0] / (2. * x[2])) for x in f]
        got = {}
        for name, call in (('scalar', lambda: np.array([[[ht.finite_line_source(float(v), alpha, q, p) for v in t] for q in b] for p in b])),
                           ('array', lambda: np.array([[ht.finite_line_source(t, alpha, q, p) for q in b] for p in b])),
                           ('list', lambda: np.asarray(ht.finite_line_source(t, alpha, b, b))),
                           ('inf', lambda: np.asarray(ht.finite_line_source(np.inf, alpha, b, b)))):
            v = limited(call)
            mon.check('finishes', v is not None, form=name, limit=LIMIT, **info)
            if v is None:
                return
            mon.check('finite', np.all(np.isfinite(v)), form=name, h=v, **info)
            mon.check('bounds', bool(np.all(v >= -1e-7)) and bool(np.all(v <= U * (1. + 1e-7) + 1e-7)), form=name, h=v, upper=U, **info)
            got[name] = v
        for n in ('array', 'list'):
            mon.close('forms', got[n], got['scalar'], rtol=1e-6, atol=1e-7 * max(own), form=n, **info)
            mon.check('increasing', bool(np.all(np.diff(got[n], axis=-1) >= -1e-8 * max(own))), form=n, h=got[n], **info)
        mon.check('bounds', bool(np.all(got['list'] <= got['inf'][..., None] + 1e-6 * max(own))), h=got['list'], steady=got['inf'], **info)
        mon.event('positive')
    elif kind in ('gfunc', 'inclined'):
        n = int(r.integers(1, 5))
        f, alpha, t, th = field(r, n, r.random() < 0.25)
        tilted = kind == 'inclined'
        method = str(gen.pick(r, ['detailed', 'similarities'] if tilted else ['detailed', 'similarities', 'equivalent']))
        bc = str(gen.pick(r, ['UHTR', 'UBWT']))
        ns = int(r.integers(1, 9 if not tilted else 5))
        if tilted:
            # leaning away from each other, and long enough after the start for the fixed quadrature
            for i, x in enumerate(f):
                x[0] = min(x[0], 3000 * x[2])
                x[5], x[6] = float(r.uniform(0.02, 0.6)), float(np.arctan2(x[4], x[3]) + (np.pi if i == 0 else 0.)) if i else 0.
                if i == 0:
                    x[5] = 0.
            t = np.maximum(t, 30. * th)
            t = np.unique(t)
        info = dict(field=f, alpha=alpha, time=t, method=method, bc=bc, n=ns)
        mon.state(kind, dec(f[0][0], f[0][2], alpha), method, bc, n, ns > 1)
        opts = dict(nSegments=ns, segment_ratios=None)
        g = limited(lambda: np.asarray(gt.gfunction.gFunction(gen.boreholes(f), alpha, time=t, method=method, boundary_condition=bc, options=opts).gFunc))
        mon.check('finishes', g is not None, limit=LIMIT, **info)
        if g is None:
            return
        U = upper(f) if not tilted else np.inf
        mon.check('finite', np.all(np.isfinite(g)), g=g, **info)
        mon.check('positive', bool(np.all(g > 0.)), g=g, **info)
        mon.check('bounds', bool(np.all(g <= U * (1. + 1e-6))), g=g, upper=U, **info)
        if bc == 'UHTR':
            mon.check('increasing', bool(np.all(np.diff(g) >= -1e-4 * g[1:])), g=g, **info)
    elif kind == 'mift':
        n = int(r.integers(1, 4))
        f, alpha, t, th = field(r, n)
        for x in f:
            x[0] = min(x[0], 300.)
        net = gen.network(r, f, pipe_kind=str(gen.pick(r, ['single', 'double_parallel', 'coax_annular'])))
        info = dict(field=f, alpha=alpha, time=t, net=net)
        mon.state('mift', dec(f[0][0], f[0][2], alpha), tuple(net['c']))
        g = limited(lambda: np.asarray(gt.gfunction.gFunction(
            gen.build_network(net, gen.boreholes(f)), alpha, time=t, boundary_condition='MIFT', m_flow_network=net['m'], cp_f=net['cp'],
            options=dict(nSegments=int(r.integers(1, 6)), segment_ratios=None)).gFunc))
        mon.check('finishes', g is not None, limit=LIMIT, **info)
        if g is None:
            return
        mon.check('finite', np.all(np.isfinite(g)), g=g, **info)
        # heat extraction rates are uneven: rough bound only
        if n == 1 or net['c'] == [-1] * n:
            mon.check('bounds', bool(np.all(np.abs(g) <= 2. * upper(f) + 1.)), g=g, upper=upper(f), **info)
        mon.event('positive')
    elif kind == 'section':
        rb = log(r, 0.02, 0.5)
        n = int(r.integers(1, 4))
        a = 2 * np.pi * np.arange(2 * n) / (2 * n)
        sp = float(r.uniform(0.4, 0.8)) * rb
        ro = min(rb - sp, sp * np.sin(np.pi / (2 * n))) * float(r.uniform(0.05, 0.97))
        pos = [(float(sp * np.cos(v)), float(sp * np.sin(v))) for v in a]
        k_s, k_g, R_fp, J = log(r, 0.05, 50.), log(r, 0.05, 50.), log(r, 1e-5, 10.), int(r.integers(0, 9))
        info = dict(pos=pos, r_out=ro, r_b=rb, k_s=k_s, k_g=k_g, R_fp=R_fp, J=J)
        mon.state('section', n, J, dec(k_s, k_g, R_fp, ro / rb))
        v = limited(lambda: gt.pipes.thermal_resistances(pos, ro, rb, k_s, k_g, R_fp, J=J))
        mon.check('finishes', v is not None, limit=LIMIT, **info)
        if v is None:
            return
        R, Rd = (np.asarray(x) for x in v)
        mon.check('finite', np.all(np.isfinite(R)) and np.all(np.isfinite(Rd)), R=R, Rd=Rd, **info)
        e = np.linalg.eigvalsh(0.5 * (R + R.T))
        mon.check('resistance', bool(e.min() > 0.) and bool(np.all(np.abs(R - R.T) < 1e-3 * np.max(np.abs(R)))), R=R, eig=e, **info)
        # the sum over all heat flows: conduction from the pipes to the wall, between the best and the worst conductor
        u = np.ones(2 * n)
        mon.check('resistance', 1. / (u @ np.linalg.solve(R, u)) > 0.999 * R_fp / (2 * n), R=R, **info)
    else:
        for _ in range(30):
            if not film(gt, r, mon):
                return
