"""C14: load aggregation against shadow models of the schemes."""
import numpy as np

from vp import gen

RULE = ('Every aggregation method with random cell layouts, 1..3 sources, random response increments and load '
        'histories (constant, random, pulse, periodic, ramps), stepped to the end; the temperature at every step '
        'against a shadow that keeps the whole raw history, and against the exact convolution. Distinct by (method, '
        'sources, cell layout, history kind).')
ORACLES = ['scheme', 'constant-exact', 'recent-exact', 'near-exact', 'increments', 'shape', 'times']
ASSUMPTIONS = ['the shadows follow the published definitions of the three schemes (which cell holds which past loads)',
               'closeness to the exact convolution is judged on smooth responses and smooth loads']
CASE_LIMIT = 300


def cases(r, tier):
    n = 60 if tier == 'quick' else 900
    return [dict(kind=k, i=i) for k in ('cj', 'mlaa', 'liu') for i in range(n)] + \
           [dict(kind='long_' + k, i=i) for k in ('cj', 'mlaa', 'liu') for i in range(4 if tier == 'quick' else 30)]


def response(r, times, n, smooth):
    """Symmetric increasing step responses [n, n, nt]."""
    if smooth:
        base = np.log1p(times / times[0])
        g = np.zeros((n, n, len(times)))
        for i in range(n):
            for j in range(n):
                d = abs(i - j)
                g[i, j] = base / (1. + d) if d == 0 else np.log1p((times / times[0]) / (1. + 30. * d)) * 0.4
        return g
    w = r.uniform(0.1, 1., (n, n, len(times)))
    return np.cumsum(w, axis=-1)


def loads(r, kind, nt, n):
    t = np.arange(nt)
    if kind == 'constant':
        return np.tile(r.uniform(-5, 5, (n, 1)), (1, nt))
    if kind == 'random':
        return r.normal(0, 10, (n, nt))
    if kind == 'pulse':
        q = np.zeros((n, nt))
        q[:, int(r.integers(0, max(1, nt // 3)))] = r.uniform(1, 20, n)
        return q
    if kind == 'ramp':
        return r.uniform(0.1, 1., (n, 1)) * t
    return 5. * np.sin(2 * np.pi * t / nt + r.uniform(0, 6, (n, 1))) + 2.


class ShadowCJ:
    """Cells of doubling width; at each step a fraction 1/width of each cell moves one cell on."""

    def __init__(self, dt, tmax, n, cpl):
        t, w, k = 0., [], 0
        while t < tmax:
            w.append(2.**(k // cpl))
            t += w[-1] * dt
            k += 1
        self.w = np.array(w)
        self.times = np.cumsum(self.w) * dt
        self.q = [[0.] * len(w) for _ in range(n)]

    def step(self):
        for s in range(len(self.q)):
            q = self.q[s]
            new = list(q)
            for i in range(len(q)):
                out = q[i]                               # energy leaving cell i in one time step
                new[i] -= out / self.w[i]
                if i + 1 < len(q):
                    new[i + 1] += out / self.w[i + 1]
            new[0] = 0.
            self.q[s] = new

    def set(self, Q):
        for s in range(len(self.q)):
            self.q[s][0] = Q[s]

    def temp(self, g):
        dg = np.diff(np.concatenate((np.zeros(g.shape[:2] + (1,)), g), axis=-1), axis=-1)
        return np.array([sum(float(np.dot(dg[i, j], self.q[j])) for j in range(g.shape[1])) for i in range(g.shape[0])])


def temp_cells(hist, blocks, g):
    """hist[n, nt] raw loads; blocks: cell lengths from the most recent backwards."""
    nt = hist.shape[1]
    T = np.zeros(g.shape[0])
    end = nt
    past = 0
    for b in blocks:
        b = min(b, end)
        if b <= 0:
            break
        m = hist[:, end - b:end].sum(axis=1) / b
        lo = g[:, :, past - 1] if past > 0 else 0.
        T = T + (g[:, :, past + b - 1] - lo) @ m
        past += b
        end -= b
    return T


def mlaa_blocks(nt, N0, N1, N2, N3):
    b = [1] * min(nt, N0)
    rem = nt - len(b)
    for N in (N1, N2, N3):
        # a cell exists only once it can be filled entirely
        if rem < N:
            break
        b.append(N)
        rem -= N
    if rem > 0:
        b.append(rem)
    return b


class ShadowLiu:
    """Hierarchical cells, as indices of raw time steps."""

    def __init__(self, N1, N2, N3, W1, W2, W3):
        self.p = (N1, N2, N3, W1, W2, W3)
        self.n0 = self.n1 = self.n2 = self.n3 = 0

    def step(self):
        N1, N2, N3, W1, W2, W3 = self.p
        self.n0 += 1
        if self.n0 >= N1 + W1:
            self.n0 -= N1
            self.n1 += 1
            if self.n1 >= N2 + W2:
                self.n1 -= N2
                self.n2 += 1
                if self.n2 >= N3 + W3:
                    self.n2 -= N3
                    self.n3 += 1

    def blocks(self):
        N1, N2, N3 = self.p[:3]
        return [1] * self.n0 + [N1] * self.n1 + [N1 * N2] * self.n2 + [N1 * N2 * N3] * self.n3


def build(r, kind, dt, n, nt):
    from pygfunction import load_aggregation as la
    tmax = nt * dt
    if kind == 'cj':
        cpl = int(gen.pick(r, [1, 2, 3, 5, 8]))
        a = la.ClaessonJaved(dt, tmax, nSources=n, cells_per_level=cpl) if cpl != 5 else la.ClaessonJaved(dt, tmax, nSources=n)
        return a, ShadowCJ(dt, tmax, n, cpl), (cpl,)
    if kind == 'mlaa':
        p = gen.pick(r, [(12, 48, 168, 360), (2, 3, 5, 7), (1, 4, 8, 16), (5, 5, 5, 5), (3, 10, 20, 30)])
        a = la.MLAA(dt, tmax, nSources=n, N0=p[0], N1=p[1], N2=p[2], N3=p[3]) if p[0] != 12 else la.MLAA(dt, tmax, nSources=n)
        return a, p, p
    p = gen.pick(r, [(24, 5, 73, 12, 3, 40), (3, 2, 4, 2, 1, 2), (4, 3, 2, 1, 2, 1), (5, 2, 2, 3, 1, 1), (2, 2, 2, 1, 1, 1)])
    a = la.Liu(dt, tmax, nSources=n, N1=p[0], N2=p[1], N3=p[2], W1=p[3], W2=p[4], W3=p[5]) if p[0] != 24 else la.Liu(dt, tmax, nSources=n)
    return a, ShadowLiu(*p), p


def exact(hist, gfull):
    """Temporal superposition without aggregation; gfull[:,:,k] at (k+1) dt."""
    nt = hist.shape[1]
    T = np.zeros(gfull.shape[0])
    for k in range(nt):
        dg = gfull[:, :, nt - 1 - k] - (gfull[:, :, nt - 2 - k] if nt - 2 - k >= 0 else 0.)
        T = T + dg @ hist[:, k]
    return T


def run(case, mon):
    r = gen.rng(case)
    long = case['kind'].startswith('long_')
    kind = case['kind'].split('_')[-1]
    dt = float(gen.pick(r, [3600., 1., 900., 86400.]))
    n = int(gen.pick(r, [1, 1, 2, 3]))
    nt = int(r.integers(1500, 4000)) if long else int(gen.pick(r, [1, 2, 5, 20, 60, 150, 300]))
    agg, sh, p = build(r, kind, dt, n, nt)
    times = np.asarray(agg.get_times_for_simulation(), dtype=float)
    smooth = bool(r.random() < 0.5)
    hk = gen.pick(r, ['constant', 'random', 'pulse', 'ramp', 'periodic'])
    g = response(r, times, n, smooth)
    if kind == 'cj':
        mon.close('times', times, sh.times, rtol=1e-12)
    else:
        mon.close('times', times, dt * np.arange(1, len(times) + 1), rtol=1e-12)
        mon.check('times', len(times) >= nt)
    arg = g[0, 0].copy() if n == 1 else g.copy()
    if n == 1 and r.random() < 0.3:
        arg = g.copy()
    keep = arg.copy()
    agg.initialize(arg)
    Q = loads(r, hk, nt, n)
    full = None
    if kind == 'cj':
        inc = np.asarray(agg.get_thermal_response_factor_increment(), dtype=float).reshape(n, n, -1)
        mon.close('increments', np.cumsum(inc, axis=-1), g, rtol=1e-9)
    else:
        mon.event('increments')
    if kind == 'cj':
        tfull = dt * np.arange(1, nt + 1)
        full = response(r, tfull, n, True) if smooth else None
    else:
        full = g
    mon.state(kind, n, p, hk, smooth, long)
    info = dict(kind=kind, p=p, n=n, nt=nt, hist=hk)
    gmax = np.sum(np.abs(g[:, :, -1]), axis=1).max()
    every = 1 if not long else 37
    for k in range(nt):
        t = dt * (k + 1)
        agg.next_time_step(t)
        q = Q[:, k]
        agg.set_current_load(float(q[0]) if n == 1 and r.random() < 0.5 else q.copy())
        if kind == 'cj':
            if k:
                sh.step()
            sh.set(q)
        elif kind == 'liu':
            sh.step()
        if k % every and k != nt - 1:
            continue
        T = agg.temporal_superposition()
        mon.check('shape', np.size(T) == n, shape=np.shape(T))
        T = np.asarray(T, dtype=float).ravel()
        hist = Q[:, :k + 1]
        if kind == 'cj':
            want = sh.temp(g)
        elif kind == 'mlaa':
            want = temp_cells(hist, mlaa_blocks(k + 1, *p), g)
        else:
            want = temp_cells(hist, sh.blocks(), g)
        sc = gmax * max(np.max(np.abs(hist)), 1e-9)
        mon.close('scheme', T, want, rtol=1e-10, scale=sc, step=k, **info)
        # constant load: the step response itself, until the oldest load reaches the last cell
        if hk == 'constant' and (kind != 'cj'):
            mon.close('constant-exact', T, g[:, :, k] @ q, rtol=1e-10, scale=sc, step=k, **info)
        elif hk == 'constant' and k < p[0]:
            mon.close('constant-exact', T, g[:, :, k] @ q, rtol=1e-10, scale=sc, step=k, **info)
        recent = {'cj': p[0], 'mlaa': p[0], 'liu': sum(p[0:4:3]) - 1}[kind]
        if k < recent and full is not None:
            ex = exact(hist, full)
            mon.close('recent-exact', T, ex, rtol=1e-9, scale=sc, step=k, **info)
        if smooth and full is not None and hk in ('constant', 'periodic', 'ramp') and k > 3 and p[0] in (5, 12, 24) and nt >= 60 and p != (5, 5, 5, 5) and (k % 7 == 0 or k == nt - 1):
            ex = exact(hist, full)
            mon.close('near-exact', T, ex, rtol=0.15, scale=sc, step=k, **info)
    mon.check('increments', np.array_equal(arg, keep), note='responses given by the caller are not modified')
