"""C15: laws of load aggregation."""
import numpy as np

from vp import gen
from vp.props.c14 import build, response, loads

RULE = ('Every aggregation method, 1..3 sources, random responses and histories stepped in lockstep in several '
        'instances: linear combinations, one source at a time, zero history, altered future, retries and repeated '
        'queries in random order, energy of a pulse. Distinct by (method, sources, layout, law).')
ORACLES = ['linear', 'per-source', 'zero', 'causal', 'retry', 'query-idempotent', 'pulse-energy', 'load-array-free',
           'never-set']
ASSUMPTIONS = ['energy is observed through a response equal to time, which returns the sum of (load x width) over cells']


def cases(r, tier):
    n = 80 if tier == 'quick' else 1500
    return [dict(kind=k, i=i) for k in ('cj', 'mlaa', 'liu') for i in range(n)]


def run(case, mon):
    r = gen.rng(case)
    kind = case['kind']
    dt = float(gen.pick(r, [3600., 1., 86400.]))
    n = int(gen.pick(r, [1, 1, 2, 3]))
    nt = int(gen.pick(r, [1, 3, 10, 40, 120, 260]))
    seed = int(r.integers(2**31))

    def new(nsrc=n):
        return build(np.random.default_rng(seed), kind, dt, nsrc, nt)[0]
    a0 = new()
    times = np.asarray(a0.get_times_for_simulation(), dtype=float)
    g = response(r, times, n, bool(r.random() < 0.5))
    g1 = (lambda x: x[0, 0].copy()) if n == 1 and r.random() < 0.6 else (lambda x: x.copy())

    def start(gg=g, nsrc=n):
        a = new(nsrc)
        a.initialize(g1(gg) if nsrc == n else gg)
        return a

    def val(q):
        return float(q[0]) if len(q) == 1 else np.array(q)

    def sim(Q, a=None, upto=nt):
        a = a or start()
        T = []
        for k in range(upto):
            a.next_time_step(dt * (k + 1))
            a.set_current_load(val(Q[:, k]))
            T.append(np.asarray(a.temporal_superposition(), dtype=float).ravel())
        return np.array(T)
    h1, h2 = gen.pick(r, ['random', 'pulse', 'ramp', 'periodic', 'constant']), gen.pick(r, ['random', 'pulse', 'constant'])
    QA, QB = loads(r, h1, nt, n), loads(r, h2, nt, n)
    ca, cb = (float(v) for v in r.uniform(-3, 3, 2))
    TA, TB = sim(QA), sim(QB)
    sc = np.sum(np.abs(g[:, :, -1]), axis=1).max() * 4. * max(np.abs(QA).max(), np.abs(QB).max(), 1e-6)
    info = dict(kind=kind, n=n, nt=nt, h1=h1, h2=h2)
    mon.state(kind, n, nt, h1, h2)
    mon.close('linear', sim(ca * QA + cb * QB), ca * TA + cb * TB, rtol=1e-10, scale=sc, **info)
    if n > 1:
        S = np.zeros_like(TA)
        for j in range(n):
            Q = np.zeros_like(QA)
            Q[j] = QA[j]
            S += sim(Q)
        mon.close('per-source', S, TA, rtol=1e-10, scale=sc, **info)
        # one source alone through a single-source aggregation
        i, j = int(r.integers(n)), int(r.integers(n))
        Q = np.zeros_like(QA)
        Q[j] = QA[j]
        one = sim(QA[j:j + 1], start(g[i, j], 1))
        mon.close('per-source', sim(Q)[:, i], one[:, 0], rtol=1e-10, scale=sc, note='single', **info)
    else:
        mon.event('per-source')
    mon.close('zero', sim(np.zeros_like(QA)), np.zeros_like(TA), rtol=0., atol=0. + 1e-300, **info)
    # future loads do not alter what was returned before
    k = int(r.integers(0, nt))
    Q = QA.copy()
    Q[:, k:] = QB[:, k:]
    mon.close('causal', sim(Q)[:k], TA[:k], rtol=0., atol=1e-12 * sc, **info)
    # retries, queries and partial queries in any order end in the same result
    a = start()
    T = []
    held = None
    for s in range(nt):
        a.next_time_step(dt * (s + 1))
        for _ in range(int(r.integers(0, 4))):
            if r.random() < 0.5:
                a.set_current_load(val(r.normal(0, 50, n)))
            else:
                a.temporal_superposition()
        q = val(QA[:, s])
        a.set_current_load(q)
        u = np.asarray(a.temporal_superposition(), dtype=float).ravel().copy()
        if r.random() < 0.5:
            w = np.asarray(a.temporal_superposition(), dtype=float).ravel()
            mon.check('query-idempotent', np.array_equal(u, w), u=u, w=w, **info)
        else:
            mon.event('query-idempotent')
        if isinstance(q, np.ndarray):
            q += 1e6            # the caller reuses its array
            held = True
        T.append(u)
    mon.close('retry', np.array(T), TA, rtol=1e-12, scale=sc, **info)
    mon.event('load-array-free', 1)
    # a step whose load is never set carries no load
    if nt > 2:
        a = start()
        k = int(r.integers(0, nt - 1))
        Q = QA.copy()
        Q[:, k] = 0.
        T = []
        for s in range(nt):
            a.next_time_step(dt * (s + 1))
            if s != k:
                a.set_current_load(val(QA[:, s]))
            T.append(np.asarray(a.temporal_superposition(), dtype=float).ravel())
        mon.close('never-set', np.array(T), sim(Q), rtol=1e-12, scale=sc, k=k, **info)
    else:
        mon.event('never-set')
    # energy of one pulse: response equal to time
    a = start(np.ones((n, n, 1)) * np.eye(n)[:, :, None] * (times / dt)[None, None, :])
    E = r.uniform(1, 9, n)
    ncell = len(times)
    T = []
    for s in range(nt):
        a.next_time_step(dt * (s + 1))
        a.set_current_load(val(E if s == 0 else np.zeros(n)))
        T.append(np.asarray(a.temporal_superposition(), dtype=float).ravel())
    T = np.array(T)
    if kind == 'cj':        # energy leaves only through the last cell
        m = min(nt, ncell)
        mon.close('pulse-energy', T[:m], np.tile(E, (m, 1)), rtol=1e-10, **info)
        mon.check('pulse-energy', np.all(T <= E * (1 + 1e-10)) and np.all(np.diff(T, axis=0) <= 1e-10 * E.max()), **info)
        mon.check('pulse-energy', np.all(T[-1] >= 0.05 * E), last=T[-1], E=E, **info)
    else:
        mon.close('pulse-energy', T, np.tile(E, (nt, 1)), rtol=1e-10, **info)
