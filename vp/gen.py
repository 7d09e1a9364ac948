"""Generators of realistic, hostile and stress inputs.

Everything is described by plain JSON data (so that a case can be replayed)
and turned into pygfunction objects by the build_* functions.
"""
import numpy as np


def rng(case):
    return np.random.default_rng(case['seed'])


def pick(r, seq):
    return seq[int(r.integers(len(seq)))]


# ---------------------------------------------------------------------------
# Fields
# ---------------------------------------------------------------------------
FIELD_KINDS = ('single', 'pair', 'line', 'rect', 'L', 'U', 'box', 'circle', 'random', 'mixed_H', 'mixed_D',
               'mixed_r', 'mixed_all', 'interleaved', 'almost', 'equidistant')
INCLINED_KINDS = ('inc_single', 'inc_pair_same', 'inc_fan', 'inc_random', 'inc_mixed_vertical', 'inc_parallel',
                  'inc_opposed', 'inc_box', 'inc_mixed_dims')


def field(r, kind, nmax=10):
    """List of [H, D, r_b, x, y, tilt, orientation]."""
    H = float(np.round(r.uniform(40., 200.), 1))
    D = float(np.round(pick(r, [0., r.uniform(0.5, 8.), r.uniform(0.5, 8.)]), 2))
    rb = float(np.round(r.uniform(0.04, 0.12), 3))
    B = float(np.round(r.uniform(3., 12.), 2))
    n = int(r.integers(2, nmax + 1))

    def vert(xy, H=H, D=D, rb=rb):
        return [[H, D, rb, float(x), float(y), 0., 0.] for x, y in xy]

    def rect():
        n1 = int(r.integers(1, max(2, int(np.sqrt(nmax)) + 1)))
        n2 = max(1, min(n // n1, nmax // n1))
        if n1 * n2 < 2:
            n2 = 2
        B2 = pick(r, [B, float(np.round(r.uniform(3., 12.), 2))])
        return [(i * B, j * B2) for j in range(n2) for i in range(n1)]

    if kind == 'single':
        return vert([(r.uniform(-5, 5), r.uniform(-5, 5))])
    if kind == 'pair':
        return vert([(0., 0.), (B, 0.)])
    if kind == 'line':
        return vert([(i * B, 0.) for i in range(n)])
    if kind == 'rect':
        return vert(rect())
    if kind == 'L':
        k = max(2, n // 2)
        return vert([(i * B, 0.) for i in range(k)] + [(0., j * B) for j in range(1, max(2, n - k + 1))])
    if kind == 'U':
        k = max(2, n // 3)
        return vert([(i * B, 0.) for i in range(k + 1)] + [(0., j * B) for j in range(1, k)]
                    + [(k * B, j * B) for j in range(1, k)])
    if kind == 'box':
        return vert([(0, 0), (B, 0), (2 * B, 0), (0, B), (2 * B, B), (0, 2 * B), (B, 2 * B), (2 * B, 2 * B)][:max(4, nmax)])
    if kind == 'circle':
        R = B * n / (2 * np.pi) + 1.
        return vert([(R * np.cos(2 * np.pi * k / n), R * np.sin(2 * np.pi * k / n)) for k in range(n)])
    if kind in ('random', 'mixed_H', 'mixed_D', 'mixed_r', 'mixed_all'):
        xy = _scatter(r, n, B)
        f = vert(xy)
        for b in f:
            if kind in ('mixed_H', 'mixed_all'):
                b[0] = pick(r, [H, round(H * 1.5, 1), round(H * 0.7, 1)])
            if kind in ('mixed_D', 'mixed_all'):
                b[1] = pick(r, [D, D + 2., 0.])
            if kind in ('mixed_r', 'mixed_all'):
                b[2] = pick(r, [rb, round(rb * 1.3, 4)])
        return f
    if kind == 'interleaved':           # alternating dimensions on a grid
        f = vert(rect() if n > 3 else [(0, 0), (B, 0), (0, B), (B, B)])
        for k, b in enumerate(f):
            if k % 2:
                b[0] = round(H * 1.4, 1)
        return f
    if kind == 'almost':                # distances equal up to the tolerance and just beyond it
        f = vert([(i * B, 0.) for i in range(min(n, 6))])
        for k, b in enumerate(f):
            b[3] *= 1. + pick(r, [0., 1e-9, 1e-4, 3e-3, 0.02, 0.08])
        return f
    if kind == 'equidistant':           # same distance, different depth/length relations
        f = vert([(0, 0), (B, 0), (0, B), (B, B)])
        f[1][1] += 3.
        f[2][1] += 3.
        f[3][0] = round(H * 1.25, 1)
        return f
    # ---- inclined ----------------------------------------------------------
    tilt = float(np.round(r.uniform(0.05, 0.6), 3))
    o = float(np.round(r.uniform(-np.pi, np.pi), 3))
    D = max(D, 0.5)
    if kind == 'inc_single':
        return [[H, D, rb, 1., -2., tilt, o]]
    if kind == 'inc_pair_same':
        return [[H, D, rb, 0., 0., tilt, o], [H, D, rb, B * np.cos(o + 1.), B * np.sin(o + 1.), tilt, o]]
    if kind == 'inc_fan':
        m = max(3, min(n, 6))
        return [[H, D, rb, 2. * B * np.cos(2 * np.pi * k / m), 2. * B * np.sin(2 * np.pi * k / m), tilt,
                 2 * np.pi * k / m] for k in range(m)]
    if kind == 'inc_parallel':
        return [[H, D, rb, k * B, 0., tilt, np.pi / 2] for k in range(min(n, 5))]
    if kind == 'inc_opposed':           # back to back, outward
        return [[H, D, rb, 0., 0., tilt, np.pi], [H, D, rb, B, 0., tilt, 0.],
                [H, D, rb, 0., B, tilt, np.pi], [H, D, rb, B, B, tilt, 0.]]
    if kind == 'inc_box':
        return [[H, D, rb, i * B, j * B, tilt if (i, j) != (1, 1) else 0.,
                 float(np.arctan2(j - 1, i - 1)) if (i, j) != (1, 1) else 0.] for i in range(3) for j in range(3)][:nmax]
    xy = _scatter(r, min(n, 6), max(B, 6.))
    cx = np.mean([p[0] for p in xy])
    cy = np.mean([p[1] for p in xy])
    f = []
    for k, (x, y) in enumerate(xy):     # leaning outward: axes never cross
        out = float(np.arctan2(y - cy, x - cx))
        t = tilt if kind != 'inc_mixed_dims' else float(pick(r, [tilt, tilt / 2, 0.]))
        if kind == 'inc_mixed_vertical' and k % 2:
            t = 0.
        b = [H, D, rb, float(x), float(y), t, out if t else 0.]
        if kind == 'inc_mixed_dims':
            b[0] = pick(r, [H, round(1.3 * H, 1)])
            b[1] = pick(r, [D, D + 1.5])
        f.append(b)
    return f


def _scatter(r, n, B):
    xy = []
    tries = 0
    while len(xy) < n:
        p = (round(float(r.uniform(-1, 1)) * B * np.sqrt(n), 2), round(float(r.uniform(-1, 1)) * B * np.sqrt(n), 2))
        tries += 1
        if all((p[0] - q[0])**2 + (p[1] - q[1])**2 > (0.5 * B)**2 for q in xy) or tries > 2000:
            xy.append(p)
    return xy


def boreholes(f):
    from pygfunction.boreholes import Borehole
    return [Borehole(*[float(v) for v in b[:5]], tilt=float(b[5]), orientation=float(b[6])) for b in f]


def segment_distance(p1, e1, H1, p2, e2, H2):
    """Exact distance between two straight segments."""
    w = p1 - p2
    b, d, e = float(e1 @ e2), float(e1 @ w), float(e2 @ w)
    best = np.inf
    den = 1. - b * b
    cand = []
    if den > 1e-12:
        s = (b * e - d) / den
        t = (e - b * d) / den
        if 0. <= s <= H1 and 0. <= t <= H2:
            cand.append((s, t))
    for s in (0., H1):
        cand.append((s, float(np.clip(e + s * b, 0., H2))))
    for t in (0., H2):
        cand.append((float(np.clip(t * b - d, 0., H1)), t))
    for s, t in cand:
        best = min(best, float(np.linalg.norm(w + s * e1 - t * e2)))
    return best


def min_gap(f):
    """Smallest distance between the axes of two boreholes of the field."""
    from .ref import axis
    ax = [(*axis(b[3], b[4], b[1], b[5], b[6]), b[0]) for b in f]
    return min([segment_distance(*ax[i], *ax[j]) for i in range(len(f)) for j in range(i)], default=np.inf)


# ---------------------------------------------------------------------------
# Segmentation
# ---------------------------------------------------------------------------
def ratios(r, n, kind=None):
    """Segment length ratios (list summing to 1)."""
    kind = kind or pick(r, ['uniform', 'sym', 'random', 'onesided'])
    if kind == 'uniform' or n == 1:
        v = np.ones(n)
    elif kind == 'sym':
        h = r.uniform(0.3, 2., (n + 1) // 2)
        v = np.concatenate([h, h[::-1][n % 2:]])
    elif kind == 'onesided':
        v = 1.5**np.arange(n)
    else:
        v = r.uniform(0.3, 2., n)
    v = v / v.sum()
    return [float(x) for x in v]


# ---------------------------------------------------------------------------
# Pipes.  A pipe is described by a dict; geometry is always valid.
# ---------------------------------------------------------------------------
PIPE_KINDS = ('single', 'single_asym', 'double_parallel', 'double_series', 'triple_parallel', 'triple_series',
              'independent', 'coax_annular', 'coax_inner')


def pipe(r, kind, rb):
    k_s = float(np.round(r.uniform(0.8, 4.), 2))
    k_g = float(np.round(r.uniform(0.5, 3.), 2))
    R_fp = float(np.round(10**r.uniform(-2., -0.5), 4))
    d = dict(kind=kind, k_s=k_s, k_g=k_g, R_fp=R_fp, J=int(r.integers(0, 4)), reversible=True)
    if kind.startswith('coax'):
        ro = rb * r.uniform(0.55, 0.95)
        ri = ro * r.uniform(0.85, 0.95)
        po = ri * r.uniform(0.4, 0.8)
        pi_ = po * r.uniform(0.8, 0.92)
        if kind == 'coax_annular':      # inlet through the annulus: index 0 is the outer pipe
            d.update(pos=[[0., 0.]], r_in=[ri, pi_], r_out=[ro, po])
        else:
            d.update(pos=[[0., 0.]], r_in=[pi_, ri], r_out=[po, ro])
        d['R_ff'] = float(np.round(10**r.uniform(-2., -0.3), 4))
        d['r_in'] = [float(v) for v in d['r_in']]
        d['r_out'] = [float(v) for v in d['r_out']]
        if r.random() < 0.4:
            e = (rb - ro) * r.uniform(0, 0.9)
            a = r.uniform(0, 2 * np.pi)
            d['pos'] = [[float(e * np.cos(a)), float(e * np.sin(a))]]
        return d
    n = {'single': 1, 'single_asym': 1, 'double_parallel': 2, 'double_series': 2, 'triple_parallel': 3,
         'triple_series': 3, 'independent': int(r.integers(2, 4))}[kind]
    N = 2 * n
    # N equal angular slots; pipes do not touch each other or the wall
    rp_max = {2: 0.35, 4: 0.28, 6: 0.22}[N] * rb
    r_out = float(rp_max * r.uniform(0.5, 0.95))
    r_in = float(r_out * r.uniform(0.75, 0.95))
    if kind == 'single_asym':
        while True:
            p = r.uniform(-rb, rb, (2, 2))
            if (np.hypot(*p[0]) + r_out < 0.97 * rb and np.hypot(*p[1]) + r_out < 0.97 * rb
                    and np.hypot(*(p[0] - p[1])) > 2.1 * r_out and abs(np.hypot(*p[0]) - np.hypot(*p[1])) > 0.1 * rb):
                break
        pos = p
    else:
        ds = float(r.uniform(max(1.1 * r_out / np.sin(np.pi / N), 0.3 * rb), 0.97 * (rb - r_out)))
        a0 = r.uniform(0, 2 * np.pi) if r.random() < 0.5 else 0.
        # inlet legs and outlet legs, adjacent or opposed
        slots = list(range(N))
        if n > 1:
            lay = pick(r, ['opposed', 'adjacent', 'shuffled'])
            if lay == 'adjacent':
                slots = list(range(0, N, 2)) + list(range(1, N, 2))
            elif lay == 'shuffled':
                slots = [int(s) for s in r.permutation(N)]
        pos = [[ds * np.cos(a0 + 2 * np.pi * s / N), ds * np.sin(a0 + 2 * np.pi * s / N)] for s in slots]
    d.update(n=n, pos=[[float(a), float(b)] for a, b in pos], r_in=r_in, r_out=r_out)
    return d


def build_pipe(d, b, reversible=None):
    from pygfunction import pipes as P
    rev = d['reversible'] if reversible is None else reversible
    pos = [tuple(p) for p in d['pos']]
    k = d['kind']
    if k.startswith('single'):
        return P.SingleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], J=d['J'], reversible_flow=rev)
    if k.startswith(('double', 'triple')):
        cfg = 'series' if k.endswith('series') else 'parallel'
        return P.MultipleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], d['n'], config=cfg,
                               J=d['J'], reversible_flow=rev)
    if k == 'independent':
        return P.IndependentMultipleUTube(pos, d['r_in'], d['r_out'], b, d['k_s'], d['k_g'], d['R_fp'], d['n'],
                                          J=d['J'], reversible_flow=rev)
    return P.Coaxial(pos[0], np.array(d['r_in']), np.array(d['r_out']), b, d['k_s'], d['k_g'], d['R_ff'], d['R_fp'],
                     J=d['J'], reversible_flow=rev)


def update_resistances(p, d, R_fp=None, R_ff=None):
    if d['kind'].startswith('coax'):
        p.update_thermal_resistances(R_ff if R_ff is not None else d['R_ff'], R_fp if R_fp is not None else d['R_fp'])
    else:
        p.update_thermal_resistances(R_fp if R_fp is not None else d['R_fp'])


# ---------------------------------------------------------------------------
# Networks
# ---------------------------------------------------------------------------
def connectivity(r, n, kind=None):
    kind = kind or pick(r, ['parallel', 'series', 'two_series', 'tree', 'star', 'reversed_series'])
    if kind == 'parallel' or n == 1:
        return [-1] * n
    if kind == 'series':
        return [-1] + list(range(n - 1))
    if kind == 'reversed_series':
        return list(range(1, n)) + [-1]
    if kind == 'two_series':
        return [-1, -1] + list(range(n - 2))
    # 'tree' and 'star' are not valid (one outlet feeds one borehole only): random chains
    order = [int(v) for v in r.permutation(n)]
    c = [-1] * n
    for a, b in zip(order[:-1], order[1:]):
        if r.random() < 0.55:
            c[b] = a
    return c


def times(r, kind, ts, rb, alpha):
    """Strictly increasing time values."""
    th = rb**2 / (25 * alpha)
    if kind == 'late':
        return [float(v) for v in np.exp(np.linspace(np.log(0.002), np.log(10.), 6)) * ts]
    if kind == 'uniform':
        return [float(v) for v in np.arange(1, 7) * ts * float(r.uniform(0.005, 0.3))]
    if kind == 'geometric':
        return [float(v) for v in th * 2. * np.cumsum(2.**np.arange(12))]
    if kind == 'random':
        return [float(v) for v in np.sort(10**r.uniform(np.log10(th * 1.5), np.log10(5 * ts), 7))]
    if kind == 'threshold':
        return [float(v) for v in np.array([0.01, 0.3, 0.999, 1.001, 7., 1e3, 1e5]) * th]
    if kind == 'sparse':        # few times, decades apart
        return [float(v) for v in np.sort(th * 10**np.append(r.uniform(-0.5, 1.5), r.uniform(3., 9., int(r.integers(1, 4)))))]
    raise ValueError(kind)


def spread(r, f):
    """The same boreholes, up to 300 times farther from each other."""
    k = float(np.round(10**r.uniform(0.3, 2.5), 1))
    return [[*b[:3], k * b[3], k * b[4], *b[5:]] for b in f]


def lookalike(r):
    """Inclined pairs with equal distances and equal angles to the line between
    heads, but different relative orientation (mirrored on one side only)."""
    H = float(np.round(r.uniform(60., 150.), 1))
    D = float(np.round(r.uniform(0.5, 6.), 2))
    rb = float(np.round(r.uniform(0.05, 0.1), 3))
    B = float(np.round(r.uniform(4., 9.), 2))
    tilt = float(np.round(r.uniform(0.15, 0.5), 3))
    th = float(r.uniform(-np.pi, np.pi))
    a = float(r.uniform(0.5, 1.5)) + np.pi / 2      # leaning away from the other head
    b = float(r.uniform(0.2, 1.4))
    off = float(r.uniform(40., 80.))
    f = []
    for k, s in enumerate((1, -1)):
        x0, y0 = k * off, k * off * 0.3
        f.append([H, D, rb, x0, y0, tilt, th + a])
        f.append([H, D, rb, x0 + B * np.cos(th), y0 + B * np.sin(th), tilt, th + s * b])
    return [[float(v) for v in b] for b in f]


def network(r, field, conn=None, pipe_kind=None):
    """Connections, piping, flow and fluid for a field (plain data)."""
    nb = len(field)
    rb = min(b[2] for b in field)
    c = connectivity(r, nb, conn)
    d = pipe(r, pipe_kind or pick(r, ['single', 'single', 'double_parallel', 'double_series', 'coax_annular']), rb)
    m = float(np.round(10**r.uniform(-1., 0.) * max(1, c.count(-1)) * 0.6, 3))
    cp = float(np.round(r.uniform(3500., 4200.), 1))
    # the closed forms lose exp(2 x transfer units) of precision: keep to flows where doubles resolve them
    # (the flow is split between circuits and may be scaled by the caller)
    from .pipe_ref import stiffness
    k = max(b[0] for b in field)
    x = stiffness(d, k, rb, np.full(d.get('n', 1), m / max(1, c.count(-1))) if d['kind'] == 'independent'
                  else m / max(1, c.count(-1)), cp)
    if x > 3.5:
        m = float(np.round(m * x / 3.5, 3))
    return dict(c=c, pipe=d, m=m, cp=cp)


def build_network(net, bhs, pipes=None):
    from pygfunction.networks import Network
    if pipes is None:
        pipes = [build_pipe(net['pipe'], b) for b in bhs]
    return Network(bhs, pipes, bore_connectivity=list(net['c']))
