"""Reference for the ground side of a g-function: segment response factors by
direct integration and the temporal superposition of a heat extraction history.

Independent of pygfunction: own segmentation, own line sources (vp.ref), own
load history bookkeeping.
"""
import numpy as np

from . import ref


def segment_field(field, nsegs, ratios):
    """[[H, D, rb, x, y, tilt, o], ...] of all segments, and the borehole index of each."""
    segs, owner = [], []
    for k, (b, n, q) in enumerate(zip(field, nsegs, ratios)):
        H, D, rb, x, y, t, o = b
        q = np.full(n, 1. / n) if q is None else np.asarray(q, dtype=float)
        s = 0.
        for f in q:
            a = s * H
            segs.append([H * f, D + a * np.cos(t), rb, x + a * np.sin(t) * np.cos(o), y + a * np.sin(t) * np.sin(o), t, o])
            owner.append(k)
            s += f
    return segs, np.array(owner)


def response_matrix(segs, owner, times, alpha):
    """h[i, j, k]: mean temperature change of wall i for unit extraction along j since time k."""
    n = len(segs)
    h = np.zeros((n, n, len(times)))
    memo = {}
    L = np.array([s[0] for s in segs])
    vertical = np.array([abs(s[5]) < 1e-6 for s in segs])
    for i in range(n):
        for j in range(i, n):
            a, b = segs[i], segs[j]
            if vertical[i] and vertical[j]:
                d = float(np.hypot(a[3] - b[3], a[4] - b[4]))
                if owner[i] == owner[j] or d < a[2]:
                    d = a[2]
                key = tuple(round(v, 9) for v in (d, a[0], a[1], b[0], b[1]))
                if key not in memo:
                    memo[key] = np.array([ref.fls(t, alpha, d, b[0], b[1], a[0], a[1]) for t in times])
                h[i, j] = memo[key]
            else:
                h[i, j] = [ref.fls_inclined(t, alpha, b[2], b[3], b[4], b[0], b[1], b[5], b[6],
                                            a[3], a[4], a[0], a[1], a[5], a[6]) for t in times]
            h[j, i] = h[i, j] * L[i] / L[j]
    return h


def interpolated(h, times, t):
    """Response at t: linear between the evaluated times, from zero at time zero."""
    x = np.concatenate([[0.], times])
    k = int(np.clip(np.searchsorted(x, t, side='left'), 1, len(x) - 1))
    y0 = h[:, :, k - 2] if k >= 2 else np.zeros_like(h[:, :, 0])
    w = (t - x[k - 1]) / (x[k] - x[k - 1])
    return y0 + w * (h[:, :, k - 1] - y0)


def split_times(time, rb_max, alpha, threshold=None):
    """Times below the linearization threshold, and the times at which the solution is computed."""
    th = rb_max**2 / (25. * alpha) if threshold is None else threshold
    time = np.asarray(time, dtype=float)
    n = int(np.sum(time <= th))
    tl = np.concatenate([[th], time[n:]]) if n else time
    return th, n, tl


def wall_temperature(h, times, Q):
    """Wall temperatures [n, nt] for the history Q [n, nt] on an uneven grid.

    The extraction history is read backwards in time on the mirrored grid of
    steps (accumulated heat is conserved), the current load acts over the last
    step with the response interpolated at that step.
    """
    n, nt = Q.shape
    T = np.zeros((n, nt))
    edges = np.concatenate([[0.], times])
    acc = np.concatenate([np.zeros((n, 1)), np.cumsum(Q * np.diff(edges), axis=1)], axis=1)
    for p in range(nt):
        tp = times[p]
        step = tp - (times[p - 1] if p else 0.)
        T[:, p] = interpolated(h, times, step) @ Q[:, p]
        if p == 0:
            continue
        # history before the current step: none of the current load
        a = acc[:, :p + 1].copy()
        a = np.concatenate([a, a[:, -1:]], axis=1)
        x = np.concatenate([edges[:p + 1], [tp]])
        # mirrored grid: same step widths in reverse order
        widths = np.diff(edges[:p + 2])[::-1]
        g = np.concatenate([[0.], np.cumsum(widths)])
        b = np.array([np.interp(g, x, row) for row in a])
        q = np.diff(b, axis=1) / widths
        prev = np.zeros(n)
        for k in range(p + 1):
            # load q[:, k] starts at mirrored time g[k]; elapsed until tp is edges[p+1-k]
            T[:, p] += h[:, :, p - k] @ (q[:, k] - prev)
            prev = q[:, k]
    return T
