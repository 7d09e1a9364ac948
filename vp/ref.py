"""Independent reference computations (oracles).

Nothing here uses pygfunction.  The line source oracles integrate the point
source solution directly; they share no formula with the code under test
(which integrates error functions over the inverse-length variable s).
"""
import numpy as np
from scipy.special import erfc

_X20, _W20 = np.polynomial.legendre.leggauss(20)


def panels(edges, hmax):
    """Composite Gauss-Legendre nodes/weights over consecutive edges."""
    xs, ws = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        if not b > a:
            continue
        n = max(1, int(np.ceil((b - a) / hmax)))
        e = np.linspace(a, b, n + 1)
        mid, half = 0.5 * (e[1:] + e[:-1]), 0.5 * (e[1:] - e[:-1])
        xs.append((mid[:, None] + half[:, None] * _X20).ravel())
        ws.append((half[:, None] * _W20).ravel())
    if not xs:
        return np.zeros(0), np.zeros(0)
    return np.concatenate(xs), np.concatenate(ws)


def _overlap(u, u1, u2, u3, u4, top):
    """Trapezoidal length of overlap of the two lines at separation u."""
    return np.clip(np.minimum(u - u1, u4 - u), 0., top)


def fls(t, alpha, d, H1, D1, H2, D2, real=True, img=True):
    """h_{1->2}(t) = 1/(2 H2) int_2 int_1 [erfc(r/sqrt(4at))/r - image]."""
    a = np.sqrt(4. * alpha * t) if np.isfinite(t) else np.inf
    top = min(H1, H2)
    out = 0.
    parts = []
    if real:
        parts.append((+1., D2 - D1 - H1, D2 - D1, D2 + H2 - D1 - H1, D2 + H2 - D1))
    if img:
        parts.append((-1., D1 + D2, D1 + D2 + min(H1, H2), D1 + D2 + max(H1, H2), D1 + D2 + H1 + H2))
    for sgn, u1, ua, ub, u4 in parts:
        u2, u3 = min(ua, ub), max(ua, ub)
        e = sorted({u1, u2, u3, u4} | ({0.} if u1 < 0 < u4 else set()))
        x, w = panels(np.arcsinh(np.array(e) / d), 0.4)
        if x.size == 0:
            continue
        r = d * np.cosh(x)
        k = erfc(r / a) if np.isfinite(a) else np.ones_like(r)
        out += sgn * np.sum(w * k * _overlap(d * np.sinh(x), u1, u2, u3, u4, top))
    return out / (2. * H2)


def axis(x, y, D, tilt, orientation):
    """Head position and unit direction (z positive downwards)."""
    p = np.array([x, y, D], dtype=float)
    e = np.array([np.sin(tilt) * np.cos(orientation), np.sin(tilt) * np.sin(orientation), np.cos(tilt)])
    return p, e


def fls_inclined(t, alpha, rb1, x1, y1, H1, D1, tilt1, o1, x2, y2, H2, D2, tilt2, o2,
                 real=True, img=True, n2=None, own_image=True):
    """Same definition for tilted axes; offset rb1 added in quadrature when the
    two heads coincide horizontally (a borehole acting on its own wall)."""
    a = np.sqrt(4. * alpha * t) if np.isfinite(t) else np.inf
    p1, e1 = axis(x1, y1, D1, tilt1, o1)
    p2, e2 = axis(x2, y2, D2, tilt2, o2)
    dd = (x1 - x2)**2 + (y1 - y2)**2
    off2 = max(rb1**2 - dd, 0.)
    out = 0.
    parts = []
    if real:
        parts.append((+1., p1, e1))
    if img:
        f = np.array([1., 1., -1.])
        parts.append((-1., p1 * f, e1 * f))
    for sgn, p, e in parts:
        # receiver nodes: refine towards both ends and the closest approach
        c = float(np.clip(_closest_on_2(p, e, H1, p2, e2, H2), 0., H2))
        ed = {0., H2}
        for q in (0., H2, c):
            for k in range(12):
                for s in (-1, 1):
                    v = q + s * H2 * 2.**-(k + 1)
                    if 0. < v < H2:
                        ed.add(v)
            ed.add(q)
        ed = sorted(ed)
        s2, w2 = panels(ed, H2 / 6.)
        P = p2[None, :] + s2[:, None] * e2[None, :] - p[None, :]
        s0 = P @ e
        rho = np.sqrt(np.maximum(np.sum(P * P, axis=1) - s0**2, 0.) + (off2 if sgn > 0. or own_image else 0.))
        rho = np.maximum(rho, 1e-9)
        lo, hi = np.arcsinh((0. - s0) / rho), np.arcsinh((H1 - s0) / rho)
        n = int(np.ceil(np.max(hi - lo) / 0.8)) + 1
        acc = np.zeros_like(s2)
        for k in range(n):
            A = lo + (hi - lo) * k / n
            B = lo + (hi - lo) * (k + 1) / n
            x = 0.5 * (A + B)[:, None] + 0.5 * (B - A)[:, None] * _X20[None, :]
            kern = erfc(rho[:, None] * np.cosh(x) / a) if np.isfinite(a) else np.ones_like(x)
            acc += 0.5 * (B - A) * (kern @ _W20)
        out += sgn * np.sum(w2 * acc)
    return out / (2. * H2)


def _closest_on_2(p, e, H1, q, f, H2):
    """Abscissa on axis 2 of its closest approach to segment 1 (sampled)."""
    s2 = np.linspace(0., H2, 201)
    P = q[None, :] + s2[:, None] * f[None, :] - p[None, :]
    s1 = np.clip(P @ e, 0., H1)
    d2 = np.sum((P - s1[:, None] * e[None, :])**2, axis=1)
    return s2[int(np.argmin(d2))]
