"""C24: impossible inputs are refused, possible ones are accepted."""
import itertools
import warnings

import numpy as np

from vp import gen

RULE = ('Every pipe type with one quantity moved to either side of its limit (relative distance 1e-9 to 1e-1, also zero, '
        'negative and not-a-number), every connectivity vector with entries from -3 to n for up to four boreholes, and '
        'every option of the network queries and of the g-function with values on both sides of what is allowed. '
        'Distinct by (rule, pipe or method, side, distance class).')
ORACLES = ['pipe-refused', 'pipe-accepted', 'network-refused', 'network-accepted', 'query-refused', 'query-accepted',
           'gfunction-refused', 'gfunction-accepted', 'no-result',
           'warned', 'replaced']
ASSUMPTIONS = ['the options not used by a calculation method are not part of its inputs']
CASE_LIMIT = 120
PIPES = ['single', 'single_asym', 'double_parallel', 'double_series', 'triple_parallel', 'independent', 'coax_annular',
         'coax_inner']
PIPE_RULES = ['k_s', 'k_g', 'R_fp', 'r_in', 'r_out', 'J', 'contained', 'overlap']
QUERY_RULES = ['flow_len', 'flow_sign', 'cp_len', 'cp_differs', 'segments_len', 'ratios_len', 'ratios_type',
               'pipes_len', 'pipes_less', 'c_len']
GF_RULES = ['nSegments_zero', 'nSegments_len', 'nSegments_float', 'ratio_sum', 'ratio_len', 'ratio_zero', 'ratio_list_len',
            'nFLS', 'tol', 'disTol', 'kClusters', 'method', 'bc', 'empty', 'not_borehole', 'duplicate', 'decreasing',
            'mift_nothing', 'mift_both', 'mift_cp', 'mift_no_network', 'mift_len', 'tilted_equivalent',
            'series_equivalent', 'ratios_differ_equivalent', 'pipes_differ_equivalent', 'dtype', 'bool', 'alpha', 'network_size']


def cases(r, tier):
    q = tier == 'quick'
    out = []
    for k in PIPES:
        for rule in PIPE_RULES + (['R_ff', 'coax_order'] if k.startswith('coax') else []):
            out += [dict(kind='pipe', pipe=k, rule=rule, i=i) for i in range(10 if q else 80)]
    out += [dict(kind='connect', n=n, part=p, parts=q_, i=0) for n in (1, 2, 3, 4) for q_ in [1 if n < 4 else 7]
            for p in range(q_)]
    if not q:
        out += [dict(kind='connect', n=5, part=p, parts=60, i=0) for p in range(60)]
    out += [dict(kind='connect_random', i=i) for i in range(20 if q else 400)]
    out += [dict(kind='query', rule=k, i=i) for k in QUERY_RULES for i in range(12 if q else 100)]
    out += [dict(kind='gf', rule=k, i=i) for k in GF_RULES for i in range(10 if q else 100)]
    return out


def cost(c):
    return dict(gf=3., connect=4.).get(c['kind'], 1.)


def margin(r):
    return float(10**r.uniform(-9., -1.))


def hostile(r):
    """Values that are not positive."""
    return gen.pick(r, [0., -1., -1e-12, float('nan'), float('-inf')])


# --------------------------------------------------------------------------------------------------------------
def pipe_case(case, mon, r):
    from pygfunction.boreholes import Borehole
    rb = float(r.uniform(0.05, 0.12))
    b = Borehole(float(r.uniform(50., 200.)), 2., rb, 0., 0.)
    d = gen.pipe(r, case['pipe'], rb)
    rule = case['rule']
    coax = case['pipe'].startswith('coax')
    mon.accepts('pipe-accepted', lambda: gen.build_pipe(d, b), note='before the change')
    eps = margin(r)
    bad, good = dict(d), dict(d)
    if rule in ('k_s', 'k_g', 'R_fp'):
        bad[rule] = hostile(r)
        good[rule] = float(d[rule] * 10**r.uniform(-3., 3.))
        if rule == 'k_g':       # the multipole solution needs comparable conductivities only for convergence
            good[rule] = float(d[rule] * 10**r.uniform(-0.5, 1.))
    elif rule == 'R_ff':
        bad[rule] = gen.pick(r, [-1e-12, -1., float('nan')])
        good[rule] = gen.pick(r, [0., 1e-9, 1e3])
        if good[rule] == 0.:
            good[rule] = 1e-300
    elif rule == 'r_in':
        if coax:
            k = int(r.integers(2))
            v = list(d['r_in'])
            v[k] = gen.pick(r, [0., -1e-6, float('nan')])
            bad['r_in'] = v
        else:
            bad['r_in'] = gen.pick(r, [0., -1e-6, float('nan')])
        if not coax:
            good['r_in'] = d['r_out'] * gen.pick(r, [1e-6, eps])
    elif rule == 'r_out':       # outer radius against inner radius of the same pipe
        k = int(r.integers(2))
        for t, s in ((bad, gen.pick(r, [0., 1.])), (good, -1.)):
            if coax:
                v = list(d['r_in'])
                v[k] = d['r_out'][k] * (1. + s * eps)
                t['r_in'] = v
                if s < 0 and d['r_out'][k] == max(d['r_out']):
                    pass
            else:
                t['r_in'] = d['r_out'] * (1. + s * eps)
        if coax and d['r_out'][k] == max(d['r_out']):
            # the wall of the outer pipe also bounds the annulus: nothing else changes
            pass
    elif rule == 'J':
        bad['J'] = int(gen.pick(r, [-1, -5]))
        good['J'] = 0
    elif rule == 'contained':
        for t, s in ((bad, 1.), (good, -1.)):
            if coax:
                # the outermost pipe, on either the radius or the position
                ro = max(d['r_out'])
                a = r.uniform(0, 2 * np.pi)
                e = rb - ro + s * eps * rb
                t['pos'] = [[float(e * np.cos(a)), float(e * np.sin(a))]]
            else:
                k = int(r.integers(len(d['pos'])))
                a = np.arctan2(d['pos'][k][1], d['pos'][k][0])
                e = rb - d['r_out'] + s * eps * rb
                pos = [list(p) for p in d['pos']]
                pos[k] = [float(e * np.cos(a)), float(e * np.sin(a))]
                t['pos'] = pos
                # moving this pipe to the wall must not make it touch another one
                gap = min(np.hypot(pos[k][0] - p[0], pos[k][1] - p[1]) for j, p in enumerate(pos) if j != k)
                if gap < 2 * d['r_out'] * 1.0001:
                    good = None if s < 0 else good
        good = good if good is not None and 'pos' in good else None
    elif rule == 'overlap':
        if coax:
            # the pipes of a coaxial exchanger overlap when the inner one does not fit in the outer one
            return pipe_case(dict(case, rule='coax_order'), mon, r)
        # shrink the circle of a pair of neighbours until they are 2 r_out apart
        pos = [list(p) for p in d['pos']]
        N = len(pos)
        i, j = sorted(int(v) for v in r.choice(N, 2, replace=False))
        mid = (np.array(pos[i]) + np.array(pos[j])) / 2
        u = (np.array(pos[i]) - np.array(pos[j]))
        u /= np.hypot(*u)
        for t, s in ((bad, -1.), (good, 1.)):
            q = [list(p) for p in pos]
            h = d['r_out'] * (1. + s * eps)
            q[i], q[j] = [[float(v) for v in mid + w * h * u] for w in (1, -1)]
            t['pos'] = q
        # the pair must still be clear of the wall and of the others for the accepted side
        q = np.array(good['pos'])
        D = np.hypot(*(q[:, None] - q[None]).transpose(2, 0, 1)) + np.eye(N)
        D[i, j] = D[j, i] = 1.
        if D.min() < 2.0001 * d['r_out'] or np.max(np.hypot(*q.T)) + d['r_out'] > 0.9999 * rb:
            good = None
    elif rule == 'coax_order':
        o, n = (0, 1) if d['r_out'][0] > d['r_out'][1] else (1, 0)
        for t, s in ((bad, gen.pick(r, [0., 1.])), (good, -1.)):
            v = list(d['r_out'])
            v[n] = d['r_in'][o] * (1. + s * eps)
            t['r_out'] = v
            w = list(d['r_in'])
            w[n] = v[n] * 0.9
            t['r_in'] = w
            if v[n] >= v[o]:    # then the other pipe would become the outer one
                v[o] = v[n] / 0.999999
                w[o] = d['r_in'][o]
                if v[o] > rb:
                    v[o] = rb
    from vp.core import jsonable
    mon.state(case['pipe'], rule, 'refused', int(np.log10(eps)))
    made = []
    mon.raises('pipe-refused', lambda: made.append(gen.build_pipe(bad, b)), ValueError, rule=rule, pipe=jsonable(bad))
    mon.check('no-result', not made, rule=rule)
    if good is not None:
        mon.state(case['pipe'], rule, 'accepted', int(np.log10(eps)))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mon.accepts('pipe-accepted', lambda: gen.build_pipe(good, b), rule=rule, pipe=jsonable(good))


# --------------------------------------------------------------------------------------------------------------
def valid_connection(c, n):
    """One upstream borehole or the inlet (-1) each, no borehole feeding two others, no cycles."""
    if len(c) != n or any(v < -1 or v >= n for v in c):
        return False
    up = [v for v in c if v >= 0]
    if len(set(up)) != len(up):
        return False
    for i in range(n):
        seen = set()
        while i != -1:
            if i in seen:
                return False
            seen.add(i)
            i = c[i]
    return True


def small_network(r, n):
    from pygfunction.boreholes import Borehole
    f = [Borehole(100., 2., 0.075, 6. * i, 0.) for i in range(n)]
    d = gen.pipe(r, gen.pick(r, [p for p in PIPES if p != 'independent']), 0.075)     # one circuit per borehole
    return f, d, [gen.build_pipe(d, b) for b in f]


def connect(mon, f, pipes, c, n):
    from pygfunction.networks import Network
    want = valid_connection(c, n)
    if want:
        net = mon.accepts('network-accepted', lambda: Network(f, pipes, bore_connectivity=list(c)), c=list(c))
        if net is not None:
            mon.check('network-accepted', net.nInlets == net.nOutlets == list(c).count(-1), c=list(c), nInlets=net.nInlets)
    else:
        mon.raises('network-refused', lambda: Network(f, pipes, bore_connectivity=list(c)), Exception, c=list(c))
    mon.state('connect', n, tuple(c) if n < 4 else len(set(c)), want)


def connect_case(case, mon, r):
    n = case['n']
    f, d, pipes = small_network(r, n)
    for k, c in enumerate(itertools.product(range(-3 if n < 5 else -2, n + 1), repeat=n)):
        if k % case['parts'] == case['part']:
            connect(mon, f, pipes, c, n)
    if case['part'] == 0:
        for m in range(0, n + 3):
            if m != n and m > 0:
                connect(mon, f, pipes, [-1] * m, n)


def connect_random(case, mon, r):
    n = int(r.integers(5, 40))
    f, d, pipes = small_network(r, n)
    c = gen.connectivity(r, n)
    connect(mon, f, pipes, c, n)
    for _ in range(6):
        v = list(c)
        for _ in range(int(r.integers(1, 3))):
            v[int(r.integers(n))] = int(r.integers(-2, n + 1))
        connect(mon, f, pipes, v, n)
    # close a long loop: the head of a chain is fed by its own tail
    v = list(range(-1, n - 1))
    v[0] = n - 1
    connect(mon, f, pipes, v, n)
    v[0] = -1
    connect(mon, f, pipes, v, n)


# --------------------------------------------------------------------------------------------------------------
def query_case(case, mon, r):
    from pygfunction.networks import Network
    from pygfunction.boreholes import Borehole
    n = int(r.integers(2, 5))
    f, d, pipes = small_network(r, n)
    c = gen.connectivity(r, n) if r.random() < 0.6 else [-1] * n
    net = Network(f, pipes, bore_connectivity=c)
    ni = net.nInlets
    m, cp, ns = 0.3 * n, 4000., int(r.integers(1, 5))
    rule = case['rule']
    ref, ok = 'query-refused', 'query-accepted'
    Tb = 1.
    queries = [lambda *a, **k: net.get_outlet_temperature(5., Tb, *a, **k),
               lambda *a, **k: net.get_network_outlet_temperature(5., Tb, *a, **k),
               lambda *a, **k: net.get_borehole_heat_extraction_rate(5., Tb, *a, **k),
               lambda *a, **k: net.get_network_heat_extraction_rate(5., Tb, *a, **k),
               lambda *a, **k: net.get_inlet_temperature(5., Tb, *a, **k),
               lambda *a, **k: net.get_fluid_heat_extraction_rate(5., Tb, *a, **k),
               lambda *a, **k: net.coefficients_network_inlet_temperature(*a, **k)]
    iq = int(r.integers(len(queries)))
    q = queries[iq]
    mon.state(rule, iq, n, ni)
    if r.random() < 0.5:        # the object may already hold remembered results
        q(m, cp, ns)
    if rule == 'flow_len':
        for k in range(1, ni + 3):
            a = np.full(k, m / k)
            if k in (1, ni):
                mon.accepts(ok, lambda: q(a, cp, ns), rule=rule, k=k, ni=ni)
            else:
                mon.raises(ref, lambda: q(a, cp, ns), ValueError, rule=rule, k=k, ni=ni)
    elif rule == 'flow_sign':
        if ni > 1:
            a = np.full(ni, m / ni)
            mon.accepts(ok, lambda: q(-a, cp, ns), rule=rule)
            for i in range(ni):
                b = a.copy()
                b[i] *= -1
                mon.raises(ref, lambda: q(b, cp, ns), ValueError, rule=rule, a=b)
        mon.accepts(ok, lambda: q(-m, cp, ns), rule=rule)
    elif rule == 'cp_len':
        for k in range(1, ni + 3):
            a = np.full(k, cp)
            if k in (1, ni):
                mon.accepts(ok, lambda: q(m if k == 1 else np.full(ni, m / ni), a, ns), rule=rule, k=k, ni=ni)
            else:
                mon.raises(ref, lambda: q(m, a, ns), ValueError, rule=rule, k=k, ni=ni)
    elif rule == 'cp_differs':
        if ni > 1:
            for i in range(ni):
                a = np.full(ni, cp)
                a[i] *= 1. + margin(r)
                mon.raises(ref, lambda: q(np.full(ni, m / ni), a, ns), ValueError, rule=rule, a=a)
        mon.accepts(ok, lambda: q(np.full(ni, m / ni), np.full(ni, cp), ns), rule=rule)
    elif rule == 'segments_len':
        for k in range(2, n + 3):
            a = [ns] * k
            if k == n:
                mon.accepts(ok, lambda: q(m, cp, a), rule=rule)
            else:
                mon.raises(ref, lambda: q(m, cp, a), ValueError, rule=rule, k=k, n=n)
    elif rule == 'ratios_len':
        x = np.array(gen.ratios(r, ns))
        for k in r.permutation(np.arange(1, n + 3)):
            a = [x.copy() for _ in range(k)]
            if k == n:
                mon.accepts(ok, lambda: q(m, cp, ns, segment_ratios=a), rule=rule)
            else:
                mon.raises(ref, lambda: q(m, cp, ns, segment_ratios=a), ValueError, rule=rule, k=k, n=n)
    elif rule == 'ratios_type':
        x = np.array(gen.ratios(r, ns))
        mon.accepts(ok, lambda: q(m, cp, ns, segment_ratios=x), rule=rule)
        for bad in ('even', 0.5, {}):
            mon.raises(ref, lambda: q(m, cp, ns, segment_ratios=bad), Exception, rule=rule, bad=repr(bad))
    elif rule in ('pipes_len', 'pipes_less'):
        for k in range(1, n):
            mon.raises('network-refused', lambda: Network(f, pipes[:k], bore_connectivity=c), ValueError, rule=rule, k=k)
        extra = gen.build_pipe(d, Borehole(100., 2., 0.075, 60., 0.))
        mon.raises('network-refused', lambda: Network(f, pipes + [extra], bore_connectivity=c), ValueError, rule=rule)
        mon.accepts('network-accepted', lambda: Network(f, pipes, bore_connectivity=c), rule=rule)
    elif rule == 'c_len':
        for k in range(1, n + 3):
            if k != n:
                mon.raises('network-refused', lambda: Network(f, pipes, bore_connectivity=[-1] * k), ValueError, k=k)
        mon.accepts('network-accepted', lambda: Network(f, pipes, bore_connectivity=None), rule=rule)


# --------------------------------------------------------------------------------------------------------------
def gf_case(case, mon, r):
    from pygfunction.boreholes import Borehole
    from pygfunction.borefield import Borefield
    from pygfunction.gfunction import gFunction
    from pygfunction.networks import Network
    n = int(r.integers(2, 5))
    rb = 0.075
    f = [Borehole(100., 2., rb, 6. * i, 0.) for i in range(n)]
    rule = case['rule']
    method = gen.pick(r, ['detailed', 'similarities', 'equivalent'])
    bc = gen.pick(r, ['UHTR', 'UBWT'])
    alpha = 1e-6
    time = np.array([3600. * 24 * 30, 3600. * 24 * 3650])
    opts = dict(nSegments=2, segment_ratios=None)
    ref, ok = 'gfunction-refused', 'gfunction-accepted'

    def run(f=f, method=method, bc=bc, time=time, alpha=alpha, net=None, flow=None, **o):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g = gFunction(net if net is not None else f, alpha, time=time, method=method, boundary_condition=bc,
                          options=dict(opts, **o), **(flow or {}))
        return g

    def bad(**k):
        made = []
        mon.raises(ref, lambda: made.append(run(**k)), Exception, rule=rule, method=method, bc=bc, change=repr(k)[:200])

    def good(**k):
        g = mon.accepts(ok, lambda: run(**k), rule=rule, method=method, bc=bc, change=repr(k)[:200])
        if g is not None:
            mon.check(ok, bool(np.all(np.isfinite(g.gFunc))) and bool(np.all(np.asarray(g.gFunc) > 0.)), rule=rule,
                      change=repr(k)[:200], gFunc=g.gFunc)

    def fallback(**k):
        # the equivalent borehole method is not valid here: documented replacement, announced by a warning
        want = run(method='similarities', **k).gFunc
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            g = mon.accepts(ok, lambda: gFunction(k['net'], alpha, time=time, method='equivalent', boundary_condition='MIFT',
                                                  options=dict(opts), **k['flow']), rule=rule)
        if g is not None:
            mon.check('warned', any('equivalent' in str(x.message) for x in w), rule=rule)
            mon.close('replaced', g.gFunc, want, 1e-9, rule=rule)

    eps = margin(r)
    mon.state(rule, method, bc, int(np.log10(eps)))
    lst = method != 'equivalent'
    if rule == 'nSegments_zero':
        for v in (0, -1, -3):
            bad(nSegments=v)
        bad(nSegments=[2] * (n - 1) + [0])
        good(nSegments=1)
        good(nSegments=[1] * n)
    elif rule == 'nSegments_len':
        for k in range(1, n + 3):
            (good if k == n else bad)(nSegments=[2] * k)
    elif rule == 'nSegments_float':
        bad(nSegments=2.5)
        bad(nSegments='two')
        good(nSegments=3)
    elif rule == 'ratio_sum':
        ns = int(r.integers(1, 6))
        x = np.array(gen.ratios(r, ns))
        x /= x.sum()
        s = gen.pick(r, [-1., 1.])
        bad(nSegments=ns, segment_ratios=x * (1. + s * max(3e-6, eps)))
        good(nSegments=ns, segment_ratios=x * (1. + s * min(5e-7, eps)))
        y = [x.copy() for _ in range(n)]
        y[int(r.integers(n))] *= 1. + s * max(3e-6, eps)
        bad(nSegments=ns, segment_ratios=y)
        good(nSegments=ns, segment_ratios=[x.copy() for _ in range(n)])
    elif rule == 'ratio_len':
        ns = int(r.integers(2, 6))
        for k in range(1, 8):
            x = np.full(k, 1. / k)
            (good if k == ns else bad)(nSegments=ns, segment_ratios=x)
        y = [np.full(ns, 1. / ns) for _ in range(n)]
        y[int(r.integers(n))] = np.full(ns + 1, 1. / (ns + 1))
        bad(nSegments=ns, segment_ratios=y)
    elif rule == 'ratio_zero':
        v = gen.pick(r, [0., -eps, -0.2])
        bad(nSegments=3, segment_ratios=np.array([0.5, 0.5 - v, v]))
        bad(nSegments=2, segment_ratios=np.array([float('nan'), 0.5]))
        good(nSegments=3, segment_ratios=np.array([0.5, 0.45, 0.05]))
    elif rule == 'ratio_list_len':
        for k in range(1, n + 3):
            y = [np.array([0.5, 0.5])] * k
            (good if k == n else bad)(segment_ratios=y)
    elif rule == 'nFLS':
        for v in (0, -1, 26, 100, 5.5, 'ten'):
            bad(approximate_FLS=True, nFLS=v)
        good(approximate_FLS=True, nFLS=int(r.integers(1, 25)))
    elif rule in ('tol', 'disTol'):
        if lst:
            method2 = 'similarities'
        else:
            method2 = 'equivalent'
        for v in (0., -eps, -1., float('nan'), None, 'x'):
            bad(method=method2, **{rule: v})
        good(method=method2, **{rule: float(10**r.uniform(-8., -2.))})
    elif rule == 'kClusters':
        for v in (-1, -5, 1.5, None):
            bad(method='equivalent', kClusters=v)
        good(method='equivalent', kClusters=int(r.integers(0, 3)))
    elif rule == 'method':
        for v in ('Detailed!', 'similarity', '', 'equivalents', 'finite', 'none'):
            bad(method=v)
        for v in ('similarities', 'detailed', 'equivalent'):
            good(method=v)
    elif rule == 'bc':
        for v in ('UHT', 'UBHWT', '', 'MIFT ', 'uniform', 'BC-I'):
            bad(bc=v)
        for v in ('UHTR', 'UBWT'):
            good(bc=v)
    elif rule == 'empty':
        bad(f=[])
        bad(f=tuple(f))
        good(f=[f[0]])
        good(f=f[0])
        good(f=Borefield.from_boreholes(f))
    elif rule == 'not_borehole':
        j = int(r.integers(n))
        for v in (None, 'b', (100., 2., rb, 0., 0.), 5.):
            x = list(f)
            x[j] = v
            bad(f=x)
        good(f=list(f))
    elif rule == 'duplicate':
        i, j = sorted(int(v) for v in r.choice(n, 2, replace=False))
        a = r.uniform(0, 2 * np.pi)
        # boreholes are the same when they are closer than the largest radius of the field
        for s in (-1., 1.):
            # (the equivalent borehole method merges distances within its tolerance of 1 %)
            e = rb * (1. + s * max(eps, 0.03 if s > 0 and method == 'equivalent' else 1e-7))
            x = list(f)
            x[j] = Borehole(100., 2., rb, f[i].x + e * np.cos(a), f[i].y + e * np.sin(a))
            if s < 0:
                bad(f=x)
            else:
                # boreholes as close as their radius are not clear of each other but are not the same
                mon.accepts(ok, lambda: run(f=x), rule=rule, e=e)
        x = list(f) + [f[i]]
        bad(f=x)
        x = list(f) + [Borehole(150., 4., rb, f[i].x, f[i].y)]
        bad(f=x)
    elif rule == 'decreasing':
        for k in (2, 3, 5):
            t = np.sort(10**r.uniform(6., 9., k))
            good(time=t)
            bad(time=t[::-1].copy())
            for j in range(1, k):
                t2 = t.copy()                       # just below the previous one, still above the earlier ones or not
                t2[j] = t2[j - 1] * (1. - eps)
                bad(time=t2)
                if j < k - 1:
                    t2 = t.copy()
                    t2[j], t2[j + 1] = t[j + 1], t[j]
                    bad(time=t2)
                t2 = t.copy()                       # repeated
                t2[j] = t2[j - 1]
                good(time=t2)
        t3 = t.copy()
        t3[j] = float('nan')
        bad(time=t3)
        good(time=t)
        good(time=float(t[0]))
    elif rule == 'dtype':
        for v in (np.int32, 'double', complex, None):
            bad(dtype=v)
        good(dtype=np.double)
        bad(kind=3)
    elif rule == 'bool':
        for k in ('profiles', 'disp', 'approximate_FLS'):
            for v in (1, None, 'yes'):
                bad(**{k: v})
        good(profiles=True, approximate_FLS=False)
    elif rule == 'alpha':
        for v in (None, '1e-6', [1e-6]):
            bad(alpha=v)
        good(alpha=float(10**r.uniform(-7., -5.)))
        good(alpha=np.float64(1e-6))
    elif rule == 'tilted_equivalent':
        x = list(f)
        j = int(r.integers(n))
        x[j] = Borehole(100., 2., rb, f[j].x, 0., tilt=float(gen.pick(r, [1e-5, 0.1, -0.2])), orientation=1.)
        bad(f=x, method='equivalent')
        mon.accepts(ok, lambda: run(f=x, method='similarities'), rule=rule)
        mon.accepts(ok, lambda: run(f=x, method='detailed'), rule=rule)
        x[j] = Borehole(100., 2., rb, f[j].x, 0., tilt=0., orientation=1.)
        good(f=x, method='equivalent')
    elif rule == 'ratios_differ_equivalent':
        y = [np.array([0.5, 0.5])] * n
        j = int(r.integers(n))
        y[j] = np.array([0.4, 0.6])
        bad(method='equivalent', segment_ratios=y)
        good(method='similarities', segment_ratios=y)
        ns = [2] * n
        ns[j] = 3
        bad(method='equivalent', nSegments=ns, segment_ratios=None)
        good(method='detailed', nSegments=ns, segment_ratios=None)
    else:
        # piping and flow
        d = gen.pipe(r, gen.pick(r, ['single', 'double_parallel', 'double_series', 'coax_annular']), rb)
        d2 = dict(d, k_g=d['k_g'] * 1.5)
        pipes = [gen.build_pipe(d, b) for b in f]
        c = gen.connectivity(r, n) if lst else [-1] * n
        net = Network(f, pipes, bore_connectivity=c)
        ni = net.nInlets
        fl = dict(m_flow_network=0.3 * n, cp_f=4000.)
        kw = dict(bc='MIFT', net=net)
        mon.accepts(ok, lambda: run(flow=fl, **kw), rule=rule)
        if rule == 'mift_nothing':
            bad(flow=dict(cp_f=4000.), **kw)
            good(flow=dict(m_flow_network=0.3 * n, cp_f=4000.), **kw)
        elif rule == 'mift_both':
            bad(flow=dict(fl, m_flow_borehole=0.3), **kw)
            bad(flow=dict(fl, m_flow_borehole=np.full(n, 0.3)), **kw)
        elif rule == 'mift_cp':
            bad(flow=dict(m_flow_network=0.3 * n), **kw)
        elif rule == 'mift_no_network':
            bad(flow=fl, bc='MIFT')
        elif rule == 'mift_len':
            for k in range(1, ni + 3):
                if k != ni:
                    a = np.full((2, k), 0.3)
                    bad(flow=dict(m_flow_borehole=a, cp_f=4000.), **kw)
            good(flow=dict(m_flow_borehole=np.full((1, ni), 0.3), cp_f=4000.), **kw)
        elif rule == 'series_equivalent':
            for c2 in ([-1] + list(range(n - 1)), [-1] * (n - 1) + [0]):
                x = Network(f, pipes, bore_connectivity=c2)
                fallback(flow=fl, bc='MIFT', net=x)
                mon.accepts(ok, lambda: run(flow=fl, bc='MIFT', net=x, method='similarities'), rule=rule)
            good(flow=fl, bc='MIFT', net=Network(f, pipes), method='equivalent')
        elif rule == 'pipes_differ_equivalent':
            q = list(pipes)
            j = int(r.integers(n))
            q[j] = gen.build_pipe(d2, f[j])
            fallback(flow=fl, bc='MIFT', net=Network(f, q))
            mm = np.full((1, n), 0.3)
            mm[0, j] *= 1.3
            fallback(flow=dict(m_flow_borehole=mm, cp_f=4000.), bc='MIFT', net=net if not any(v >= 0 for v in c) else Network(f, pipes))
            mon.accepts(ok, lambda: run(flow=fl, bc='MIFT', net=Network(f, q), method='detailed'), rule=rule)
        elif rule == 'network_size':
            mon.raises(ref, lambda: Network(f[:-1], pipes, bore_connectivity=c[:-1]), ValueError, rule=rule)
            mon.raises(ref, lambda: Network(f, pipes[:-1], bore_connectivity=c), ValueError, rule=rule)


def run(case, mon):
    r = gen.rng(case)
    dict(pipe=pipe_case, connect=connect_case, connect_random=connect_random, query=query_case, gf=gf_case)[case['kind']](case, mon, r)
