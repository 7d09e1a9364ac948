"""C20: multipole heat conduction problem."""
import numpy as np

from vp import gen

RULE = ('Cross-sections of 1 to 6 pipes of equal or different sizes and film resistances, at regular or random places '
        '(down to 1 % gaps), grout better or worse than or equal to the ground, order 0 to 5; temperatures sampled in grout, '
        'ground, pipes and on both sides of all interfaces are examined as a solution of the conduction problem. '
        'Distinct by (number of pipes, layout, order, conductivity order, equal pipes).')
ORACLES = ['symmetric', 'positive-definite', 'rotation', 'reflection', 'relabel', 'delta-circuit', 'line-source',
           'multipole=resistances', 'linear', 'harmonic.grout', 'harmonic.ground', 'wall.T', 'wall.flux', 'wall.mean',
           'pipe.flux', 'pipe.condition', 'inside-pipe', 'far-field', 'converges', 'scalar-or-array', 'scaling']
ASSUMPTIONS = ['thermal_resistances iterates to 1e-5 (relative change of multipoles): its matrices are compared to 3e-5; '
               'fields are requested with a tight iteration limit',
               'the pipe condition holds exactly for the Fourier components up to the order of the multipoles']


def cases(r, tier):
    n = 10 if tier == 'quick' else 90
    return [dict(kind=k, J=J, i=i) for k in ('regular', 'random', 'tight', 'single', 'unequal') for J in range(6)
            for i in range(n)]


def layout(r, kind):
    rb = float(10**r.uniform(-1.6, -0.7))
    for _ in range(500):
        if kind == 'single':
            n = 1
            ro = [rb * r.uniform(0.1, 0.9)]
            e = (rb - ro[0]) * r.uniform(0., 0.98)
            a = r.uniform(0, 2 * np.pi)
            return rb, [(float(e * np.cos(a)), float(e * np.sin(a)))], ro
        if kind in ('regular', 'tight'):
            n = int(r.integers(2, 7))
            s = np.sin(np.pi / n)
            mx = rb * s / (1 + s)
            rp = mx * (r.uniform(0.3, 0.95) if kind == 'regular' else 0.99)
            lo, hi = rp / s, rb - rp
            ds = r.uniform(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo))
            a0 = r.uniform(0, 2 * np.pi)
            return rb, [(float(ds * np.cos(a0 + 2 * np.pi * k / n)), float(ds * np.sin(a0 + 2 * np.pi * k / n)))
                        for k in range(n)], [float(rp)] * n
        n = int(r.integers(2, 6))
        ro = [rb * r.uniform(0.08, 0.25)] * n if kind == 'random' else list(rb * r.uniform(0.05, 0.3, n))
        pos, ok = [], True
        for k in range(n):
            for _ in range(100):
                a, e = r.uniform(0, 2 * np.pi), (rb * 0.99 - ro[k]) * np.sqrt(r.uniform())
                p = (float(e * np.cos(a)), float(e * np.sin(a)))
                if all(np.hypot(p[0] - x, p[1] - y) > 1.02 * (ro[k] + q) for (x, y), q in zip(pos, ro)):
                    pos.append(p)
                    break
            else:
                ok = False
                break
        if ok:
            return rb, pos, [float(v) for v in ro]
    raise RuntimeError


def circle(c, rho, n, a0=0.):
    t = a0 + 2 * np.pi * np.arange(n) / n
    return c[0] + rho * np.cos(t), c[1] + rho * np.sin(t)


def run(case, mon):
    from pygfunction import pipes as P
    r = gen.rng(case)
    rb, pos, ro = layout(r, case['kind'])
    n, J = len(pos), case['J']
    k_s = float(10**r.uniform(-0.3, 0.7))
    k_g = float(gen.pick(r, [10**r.uniform(-0.4, 0.5), 10**r.uniform(-0.4, 0.5), k_s]))
    if case['kind'] == 'unequal':
        Rfp = [float(v) for v in 10**r.uniform(-2.5, -0.3, n)]
        ro_arg, R_arg = np.array(ro), np.array(Rfp)
    else:
        Rfp = [float(10**r.uniform(-2.5, -0.3))] * n
        ro_arg, R_arg = ro[0], Rfp[0]
    info = dict(pos=pos, ro=ro, rb=rb, k_s=k_s, k_g=k_g, Rfp=Rfp, J=J)
    mon.state(n, case['kind'], J, np.sign(k_g - k_s))
    sig = (k_g - k_s) / (k_g + k_s)
    z = np.array([complex(*p) for p in pos])
    ra = np.array(ro)
    # ---- resistances ---------------------------------------------------
    tr = P.thermal_resistances
    R, Rd = tr(pos, ro_arg, rb, k_s, k_g, R_arg, J=J)
    top = float(np.max(np.abs(R)))
    mtol = 3e-5 if J else 1e-12
    mon.close('symmetric', R, R.T, atol=mtol * top, **info)
    mon.close('symmetric', 1. / Rd, 1. / Rd.T, atol=30 * mtol * np.max(np.abs(1. / Rd)), **info)
    ev = np.linalg.eigvalsh(0.5 * (R + R.T))
    mon.check('positive-definite', ev[0] > 0., ev=ev, R=R, **info)
    th = float(r.uniform(0, 2 * np.pi))
    zr = z * np.exp(1j * th)
    Rr = tr([(float(v.real), float(v.imag)) for v in zr], ro_arg, rb, k_s, k_g, R_arg, J=J)[0]
    mon.close('rotation', Rr, R, atol=1e-9 * top if not J else mtol * top * 0.1, th=th, **info)
    Rm = tr([(x, -y) for x, y in pos], ro_arg, rb, k_s, k_g, R_arg, J=J)[0]
    mon.close('reflection', Rm, R, atol=1e-9 * top if not J else mtol * top * 0.1, **info)
    pm = [int(v) for v in r.permutation(n)]
    Rp = tr([pos[i] for i in pm], np.array([ro[i] for i in pm]), rb, k_s, k_g, np.array([Rfp[i] for i in pm]), J=J)[0]
    mon.close('relabel', Rp, R[np.ix_(pm, pm)], atol=1e-9 * top if not J else mtol * top * 0.1, pm=pm, **info)
    Ra = tr(pos, np.array(ro), rb, k_s, k_g, np.array(Rfp), J=J)
    mon.close('scalar-or-array', Ra[0], R, rtol=1e-12, **info)
    mon.close('scalar-or-array', Ra[1], Rd, rtol=1e-12, **info)
    # the same section at another scale and with other units of conductivity
    f, c = float(r.uniform(0.5, 2.)), float(r.uniform(0.5, 2.))
    Rs = tr([(f * x, f * y) for x, y in pos], f * np.array(ro), f * rb, c * k_s, c * k_g, np.array(Rfp) / c, J=J)[0]
    mon.close('scaling', Rs * c, R, atol=mtol * top, **info)
    # heat flows of the delta-circuit
    T = r.uniform(-10., 30., n)
    Tb = float(r.uniform(-5., 15.))
    q = np.linalg.solve(R, T - Tb)
    with np.errstate(divide='ignore'):
        G = 1. / Rd
    qd = np.array([G[i, i] * (T[i] - Tb) + sum(G[i, j] * (T[i] - T[j]) for j in range(n) if j != i) for i in range(n)])
    mon.close('delta-circuit', qd, q, rtol=1e-9 * np.linalg.cond(R), **info)
    # line sources and their images
    R0 = tr(pos, ro_arg, rb, k_s, k_g, R_arg, J=0)[0]
    W = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            d = ra[i] if i == j else abs(z[i] - z[j])
            img = abs(rb**2 - z[i] * np.conj(z[j])) / rb
            W[i, j] = (np.log(rb / d) + sig * np.log(rb / img)) / (2 * np.pi * k_g) + (Rfp[i] if i == j else 0.)
    mon.close('line-source', R0, W, rtol=1e-10, **info)
    # ---- temperature field ----------------------------------------------
    qp = r.normal(0., 30., n) if r.random() < 0.7 else np.eye(n)[int(r.integers(n))] * 20.

    def field(x, y, qp=qp, Tb=Tb, J=J):
        return P.multipole(pos, ro_arg, rb, k_s, k_g, R_arg, Tb, np.array(qp), J, x_T=np.ravel(x), y_T=np.ravel(y),
                           eps=1e-13, it_max=400)

    Tf = field([], [])[0]
    unit = float(np.max(np.abs(qp))) * top
    mon.close('multipole=resistances', Tf, Tb + R @ qp, atol=3 * mtol * unit * n, **info)
    # linearity
    a, q2, Tb2 = float(r.uniform(-2, 2)), r.normal(0., 20., n), float(r.uniform(-5, 5))
    px, py = circle((0., 0.), rb * float(r.uniform(0.1, 2.)), 5, 0.3)
    A, B, C = field(px, py), field(px, py, q2, Tb2), field(px, py, a * qp + q2, a * Tb + Tb2)
    for k in (0, 1):
        s_ = np.max(np.abs(A[k])) * (1 + abs(a)) + np.max(np.abs(B[k]))
        out = np.array([all(abs(complex(x, y) - v) > w for v, w in zip(z, ra)) for x, y in zip(px, py)]) if k else slice(None)
        mon.close('linear', np.asarray(C[k])[out], (a * A[k] + B[k])[out], atol=1e-9 * s_, **info)
    # inside pipes: the fluid temperature
    k = int(r.integers(n))
    px, py = circle(pos[k], 0.6 * ra[k], 3)
    mon.close('inside-pipe', field(np.append(px, pos[k][0]), np.append(py, pos[k][1]))[1], np.full(4, Tf[k]), rtol=1e-12,
              **info)

    def gap(p):     # distance to the nearest pipe surface and to the wall
        dp = min(abs(complex(*p) - v) - w for v, w in zip(z, ra))
        return dp, rb - np.hypot(*p)

    # mean value property
    done = 0
    for _ in range(60):
        p = r.uniform(-rb, rb, 2)
        dp, dw = gap(p)
        rho = 0.9 * min(dp, dw)
        if rho > 0.02 * rb:
            px, py = circle(p, rho, 96)
            T_ = field(np.append(px, p[0]), np.append(py, p[1]))[1]
            mon.close('harmonic.grout', np.mean(T_[:-1]), T_[-1], atol=1e-6 * unit, p=p, rho=rho, **info)
            done += 1
            if done == 2:
                break
    for _ in range(2):
        a_, d_ = r.uniform(0, 2 * np.pi), rb * r.uniform(1.2, 6.)
        p = (d_ * np.cos(a_), d_ * np.sin(a_))
        px, py = circle(p, 0.9 * (d_ - rb), 96)
        T_ = field(np.append(px, p[0]), np.append(py, p[1]))[1]
        mon.close('harmonic.ground', np.mean(T_[:-1]), T_[-1], atol=1e-6 * unit, p=p, **info)
    # across the wall
    m = 48
    near = min(rb - np.max(np.abs(z) + ra), 0.5 * rb)
    h = 0.2 * near
    x1, y1 = circle((0, 0), rb * (1 - 1e-12), m, 0.1)
    x2, y2 = circle((0, 0), rb * (1 + 1e-12), m, 0.1)
    Ti, To = field(x1, y1)[1], field(x2, y2)[1]
    mon.close('wall.T', Ti, To, atol=1e-8 * unit, **info)
    big = 256
    xb, yb = circle((0, 0), rb * (1 - 1e-12), big)
    mon.close('wall.mean', np.mean(field(xb, yb)[1]), Tb,
              atol=unit * (1e-8 + 3 * np.max((np.abs(z) + 0. * ra) / rb)**big), **info)
    # one-sided derivatives of 5th order along the normal
    w = np.array([-137 / 60, 5, -5, 10 / 3, -5 / 4, 1 / 5])
    hh = h * 0.05
    gi = np.zeros(m)
    go = np.zeros(m)
    for k in range(6):
        rho = rb * (1 - 1e-13) - k * hh
        gi += w[k] * field(*circle((0, 0), rho, m, 0.1))[1]
        rho = rb * (1 + 1e-13) + k * hh
        go += w[k] * field(*circle((0, 0), rho, m, 0.1))[1]
    gi, go = -gi / hh, go / hh
    fl = max(float(np.max(np.abs(k_g * gi))), float(np.max(np.abs(k_s * go))), float(np.max(np.abs(qp))) / rb)
    mon.close('wall.flux', k_g * gi, k_s * go, atol=1e-4 * fl + 1e-9 * unit / hh * k_s, **info)
    # conditions at the pipes, one Fourier component at a time
    for k in range(n):
        others = [abs(z[k] - z[j]) - ra[j] for j in range(n) if j != k] + [rb - abs(z[k])]
        gp = min(others) / ra[k]          # nearest interface, in radii
        r1, r2 = ra[k] * (1 + 1e-12), ra[k] * (1 + 0.5 * (gp - 1))
        if gp < 1.08:       # too close for the Fourier components to be told apart with few samples
            continue
        M = 96 if gp > 1.3 else 256
        F1 = np.fft.fft(field(*circle(pos[k], r1, M))[1]) / M
        F2 = np.fft.fft(field(*circle(pos[k], r2, M))[1]) / M
        b0 = (F2[0] - F1[0]).real / np.log(r2 / r1)
        ftol = (1e-6 + (r2 / ra[k] / gp)**(M // 2)) / (gp - 1)
        mon.close('pipe.flux', -2 * np.pi * k_g * b0, qp[k], atol=ftol * np.max(np.abs(qp)) * 10, pipe=k, **info)
        beta = 2 * np.pi * k_g * Rfp[k]
        res = [abs(Tf[k] - F1[0].real + beta * b0) * 0.5]
        if J:
            for j in range(1, J + 1):
                M2 = np.array([[1., 1.], [(r2 / r1)**j, (r2 / r1)**-j]])
                A_, B_ = np.linalg.solve(M2, [F1[j], F2[j]])
                res.append(abs(F1[j] - beta * j * (A_ - B_)))
        mon.close('pipe.condition', res, np.zeros(len(res)), atol=20 * ftol * unit * (1 + beta * J), pipe=k, **info)
    # far away: the total heat flow from the axis
    d = 1e4 * rb
    px, py = circle((0, 0), d, 8)
    mon.close('far-field', field(px, py)[1], np.full(8, Tb - np.sum(qp) / (2 * np.pi * k_s) * np.log(d / rb)),
              atol=2e-4 * unit * max(1., k_g / k_s) + 1e-3 * np.max(np.abs(qp)) / k_s, **info)
    # convergence with the order
    if case['i'] % 3 == 0:
        T9 = P.multipole(pos, ro_arg, rb, k_s, k_g, R_arg, Tb, qp, 10, eps=1e-12, it_max=400)[0]
        e = [float(np.max(np.abs(P.multipole(pos, ro_arg, rb, k_s, k_g, R_arg, Tb, qp, j, eps=1e-12, it_max=400)[0] - T9)))
             for j in (0, 2, 5)]
        mon.check('converges', e[2] <= 0.7 * max(e[0], e[1]) + 1e-7 * unit, e=e, **info)
