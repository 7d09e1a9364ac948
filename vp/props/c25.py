"""C25: results do not depend on what was computed before."""
import importlib
import sys
import warnings

import numpy as np

from vp import gen

RULE = ('Random sequences of queries, updates of thermal resistances and edits of arrays that were passed or returned, on '
        'long-lived boreholes, networks (also two networks sharing pipes), resistance tables and g-functions; after every '
        'operation the answer is compared with that of objects just built from a second, newly imported copy of the '
        'package. Flow rates, heat capacities, segments and ratios come from small pools, so that earlier values come '
        'back, with neighbours 1e-4 apart. Distinct by (object, operation, previous operation, which arguments changed).')
ORACLES = ['pipe', 'network', 'dense', 'dense_network', 'table', 'gfunction', 'type']
ASSUMPTIONS = ['differences of 3e-5 or more (relative) between arguments are distinguished: the remembered coefficients '
               'are documented to be reused for arguments equal within 1e-6, resistances within 1e-5']
CASE_LIMIT = 200
PIPES = ['single', 'single_asym', 'double_parallel', 'double_series', 'triple_parallel', 'triple_series', 'independent',
         'coax_annular', 'coax_inner']


VARY = ['m', 'sign', 'cp', 'ns', 'q', 'R']


def cases(r, tier):
    n = 3 if tier == 'quick' else 30
    out = [dict(kind='pipe', pipe=k, i=i) for k in PIPES for i in range(4 * n)]
    out += [dict(kind='network', pipe=k, i=i) for k in PIPES if k != 'independent' for i in range(4 * n)]
    out += [dict(kind='dense', pipe=k, vary=v, i=i) for k in PIPES for v in VARY for i in range(max(1, n // 3))]
    out += [dict(kind='dense', pipe='independent', vary=v, i=i) for v in ('share', 'share_cp', 'one_sign') for i in range(max(1, n // 3))]
    out += [dict(kind='dense_network', pipe=k, vary=v, i=i) for k in PIPES if k != 'independent' for v in VARY + ['share']
            for i in range(max(1, n // 6))]
    out += [dict(kind='table', i=i) for i in range(6 * n)]
    out += [dict(kind='gfunction', bc=b, i=i) for b in ('UHTR', 'UBWT', 'MIFT') for i in range(4 * n)]
    return out


def fresh_package():
    """A newly imported copy of the package: nothing in it was ever used."""
    old = {k: v for k, v in sys.modules.items() if k == 'pygfunction' or k.startswith('pygfunction.')}
    for k in old:
        del sys.modules[k]
    try:
        new = importlib.import_module('pygfunction')
        for m in ('pipes', 'networks', 'boreholes', 'gfunction'):
            importlib.import_module('pygfunction.' + m)
        mods = {k: v for k, v in sys.modules.items() if k == 'pygfunction' or k.startswith('pygfunction.')}
        return new, mods
    finally:
        for k in [k for k in sys.modules if k == 'pygfunction' or k.startswith('pygfunction.')]:
            del sys.modules[k]
        sys.modules.update(old)


class Using:
    """The names of the package lead to this copy inside the block."""

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items() if k == 'pygfunction' or k.startswith('pygfunction.')}
        for k in self.old:
            del sys.modules[k]
        sys.modules.update(self.mods)

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == 'pygfunction' or k.startswith('pygfunction.')]:
            del sys.modules[k]
        sys.modules.update(self.old)


def build(pkg, mods, d, hole):
    with Using(mods):
        return gen.build_pipe(d, pkg.boreholes.Borehole(*hole))


def with_resistances(d, state):
    d = dict(d)
    d['R_fp'] = state['R_fp']
    if 'R_ff' in state:
        d['R_ff'] = state['R_ff']
    return d


def same(mon, oracle, got, want, **info):
    tup = isinstance(want, tuple)
    mon.check('type', isinstance(got, tuple) == tup, **info)
    for k, (g, w) in enumerate(zip(got if tup else [got], want if tup else [want])):
        if (g is None) or (w is None):
            mon.check(oracle, g is None and w is None, k=k, **info)
            continue
        mon.check('type', np.shape(g) == np.shape(w), k=k, got=np.shape(g), shape=np.shape(w), **info)
        if np.size(w) and np.shape(g) == np.shape(w):
            mon.close(oracle, g, w, 1e-9, atol=1e-10 * float(np.max(np.abs(w))), k=k, **info)


def copies(args):
    return [a.copy() if isinstance(a, np.ndarray) else ([x.copy() if isinstance(x, np.ndarray) else x for x in a]
            if isinstance(a, list) else a) for a in args]


def flow_pool(r, m, nonrev_ok=True):
    """Some flows, their opposites and close neighbours."""
    p = [m, m * 2.5, m * (1. + 1e-4), -m, -m * 2.5]
    return p


def spoil(r, x):
    """The caller edits an array it passed."""
    if isinstance(x, np.ndarray) and x.size:
        x *= r.uniform(0.3, 3., x.shape)
    elif isinstance(x, list):
        for y in x:
            spoil(r, y)


def turn_round(r, q):
    """The caller turns its segment ratios, in place, into others that are as valid."""
    for x in (q if isinstance(q, list) else [q]):
        if isinstance(x, np.ndarray):
            x[:] = x[::-1] if r.random() < 0.5 or len(x) < 2 else np.array(gen.ratios(r, len(x)))


class Walk:
    """Arguments that mostly stay, change one at a time and often come back to where they were."""

    def __init__(self, r, pools, extra):
        self.r, self.pools, self.extra = r, pools, extra
        self.hold = False
        self.home = {k: gen.pick(r, v) for k, v in pools.items()}
        self.home.update({k: gen.pick(r, v) for k, v in extra(self.home).items()})
        self.at = dict(self.home)

    def step(self):
        r, u = self.r, self.r.random()
        if self.hold or u < 0.35:
            pass
        elif u < 0.6:
            self.at = dict(self.home)
        else:
            pools = dict(self.pools, **self.extra(self.at))
            k = gen.pick(r, list(pools) + ['m', 'm'])
            self.at = dict(self.at, **{k: gen.pick(r, pools[k])})
            if k == 'ns':
                self.at.update({k: gen.pick(r, v) for k, v in self.extra(self.at).items()})
        self.hold = False
        return dict(self.at)


# --------------------------------------------------------------------------------------------------------------
PIPE_OPS = ['temperature', 'inlet', 'outlet', 'wall', 'fluid', 'total', 'c_inlet', 'c_outlet', 'c_temperature', 'c_wall',
            'c_fluid', 'effective', 'local']


def pipe_query(p, op, m, cp, ns, q, Ti, Tb, z, kind):
    Tin = Ti if kind != 'independent' else np.array([Ti, Ti + 3., Ti - 2.])[:p.nInlets]
    k = dict(segment_ratios=q)
    if op == 'temperature':
        return p.get_temperature(z, Tin, Tb, m, cp, **k)
    if op == 'inlet':
        return p.get_inlet_temperature(-500. if kind != 'independent' else np.full(p.nInlets, -500.), Tb, m, cp, **k)
    if op == 'outlet':
        return p.get_outlet_temperature(Tin, Tb, m, cp, **k)
    if op == 'wall':
        return p.get_borehole_heat_extraction_rate(Tin, Tb, m, cp, **k)
    if op == 'fluid':
        return p.get_fluid_heat_extraction_rate(Tin, Tb, m, cp, **k)
    if op == 'total':
        return p.get_total_heat_extraction_rate(Tin, Tb, m, cp, **k)
    if op == 'c_inlet':
        return p.coefficients_inlet_temperature(m, cp, ns, **k)
    if op == 'c_outlet':
        return p.coefficients_outlet_temperature(m, cp, ns, **k)
    if op == 'c_temperature':
        return p.coefficients_temperature(z, m, cp, ns, **k)
    if op == 'c_wall':
        return p.coefficients_borehole_heat_extraction_rate(m, cp, ns, **k)
    if op == 'c_fluid':
        return p.coefficients_fluid_heat_extraction_rate(m, cp, ns, **k)
    if op == 'effective':
        return p.effective_borehole_thermal_resistance(m, cp) if kind != 'independent' else None
    return p.local_borehole_thermal_resistance() if kind != 'independent' else None


def base_flow(r, d, H, rb, cp, n, top=2.5):
    from vp.pipe_ref import stiffness
    m = 10**r.uniform(-1., 0.3)
    x = stiffness(d, H, rb, np.full(n, m) if d['kind'] == 'independent' else m, cp)
    return float(m * max(1., x / top))


def ratio_pool(r, n):
    a = np.array(gen.ratios(r, n))
    b = a[::-1].copy()
    c = a * (1. + 2e-4 * (-1.)**np.arange(n)) if n > 1 else a
    return [None, np.full(n, 1. / n), a, b, c / c.sum()]


def new_state(r, d):
    # resistances only grow: larger heat exchange would lose the precision of the closed forms
    s = dict(R_fp=float(d['R_fp'] * gen.pick(r, [1., 1.0003, 2., 10**r.uniform(0., 1.)])))
    if 'R_ff' in d:
        s['R_ff'] = float(d['R_ff'] * gen.pick(r, [1., 1.0003, 2., 10**r.uniform(0., 1.)]))
    return s


def pipe_case(case, mon, r):
    import pygfunction as gt
    H, rb = float(10**r.uniform(1.3, 2.4)), 0.08
    hole = (H, 2., rb, 0., 0.)
    d = gen.pipe(r, case['pipe'], rb)
    d['reversible'] = bool(r.random() < 0.8)
    n = d.get('n', 1) if case['pipe'] == 'independent' else 1
    cp0 = 4000.
    m0 = base_flow(r, d, H, rb, cp0, n)
    flows = flow_pool(r, m0)
    caps = [cp0, cp0 * 1.2, cp0 * (1. + 1e-4)]
    segs = [int(v) for v in r.choice([1, 2, 3, 5, 8], 2, replace=False)]
    pools = {s: ratio_pool(r, s) for s in segs}
    p = gen.build_pipe(d, gt.boreholes.Borehole(*hole))
    state = dict(R_fp=d['R_fp'])
    if 'R_ff' in d:
        state['R_ff'] = d['R_ff']
    pkg, mods = fresh_package()
    prev = None
    last = {}
    noise = gen.pipe(r, gen.pick(r, PIPES), rb)
    ops = [str(o) for o in r.choice([o for o in PIPE_OPS if n == 1 or o not in ('effective', 'local')],
                                    int(gen.pick(r, [1, 2, 4, 11])), replace=False)]
    walk = Walk(r, dict(m=flows, cp=caps, ns=segs), lambda a: dict(q=pools[a['ns']], wide=[False, True]))
    for step in range(36):
        u = r.random()
        if u < 0.12:
            state = new_state(r, d) if r.random() < 0.7 else {k: d[k] for k in state}
            gen.update_resistances(p, d, **state)
            pkg, mods = fresh_package()
            prev = 'update'
            walk.hold = True
            continue
        if u < 0.2:     # other objects are built and used in between
            b2 = gt.boreholes.Borehole(*hole)
            other = gen.build_pipe(gen.pick(r, [d, with_resistances(d, new_state(r, d)), noise]), b2)
            if not noise['kind'] == 'independent' and other.nInlets == 1:
                other.get_outlet_temperature(5., np.zeros(2), 5. * m0, cp0)
            prev = 'other'
            continue
        op = gen.pick(r, ops)
        a = walk.step()
        m, cp, ns, q = a['m'], a['cp'], a['ns'], a['q']
        if case['pipe'] == 'independent':
            m = m * np.array([1., 1.3, 0.8])[:n]
            if a['wide']:
                cp = np.full(n, cp)
        Tb = float(r.uniform(-5., 15.)) if ns == 1 and r.random() < 0.5 else r.uniform(-5., 15., ns)
        Ti = float(r.uniform(-5., 40.))
        z = r.uniform(0., H, 3) if r.random() < 0.6 else float(r.uniform(0., H))
        args = [m, cp, ns, None if q is None else q.copy(), Ti, Tb, z]
        with Using(mods):
            f = gen.build_pipe(with_resistances(d, state), pkg.boreholes.Borehole(*hole))
            want = pipe_query(f, op, *copies(args), case['pipe'])
        mine = copies(args)
        got = pipe_query(p, op, *mine, case['pipe'])
        what = tuple(k for k, v in (('m', np.sum(m)), ('cp', np.sum(cp)), ('ns', ns), ('q', None if q is None else tuple(q)))
                     if last.get(k) != v)
        last = dict(m=np.sum(m), cp=np.sum(cp), ns=ns, q=None if q is None else tuple(q))
        same(mon, 'pipe', got, want, op=op, prev=prev, changed=what, step=step, m=m, cp=cp, ns=ns, q=q)
        mon.state('pipe', case['pipe'], op, prev, what)
        prev = op
        if r.random() < 0.3:
            spoil(r, mine)      # the arrays that were passed are the caller's
            prev = 'spoil ' + op
        elif r.random() < 0.4:
            # the same objects, edited in place, are passed again
            turn_round(r, mine[3])
            if isinstance(mine[0], np.ndarray):
                mine[0] *= 1.3
            with Using(mods):
                f = gen.build_pipe(with_resistances(d, state), pkg.boreholes.Borehole(*hole))
                want = pipe_query(f, op, *copies(mine), case['pipe'])
            same(mon, 'pipe', pipe_query(p, op, *mine, case['pipe']), want, op=op, prev='edited ' + op, step=step, m=m, cp=cp, ns=ns, q=q)
            prev = 'edited ' + op


# --------------------------------------------------------------------------------------------------------------
NET_OPS = ['inlet', 'outlet', 'wall', 'fluid', 'net_inlet', 'net_outlet', 'net_heat', 'c_inlet', 'c_outlet', 'c_net_inlet',
           'c_net_outlet', 'c_wall', 'c_fluid', 'c_net_heat', 'resistance']


def net_query(pkg, net, op, m, cp, ns, q, Ti, Tb):
    a, k = (m, cp, ns), dict(segment_ratios=q)
    return dict(
        inlet=lambda: net.get_inlet_temperature(Ti, Tb, *a, **k),
        outlet=lambda: net.get_outlet_temperature(Ti, Tb, *a, **k),
        wall=lambda: net.get_borehole_heat_extraction_rate(Ti, Tb, *a, **k),
        fluid=lambda: net.get_fluid_heat_extraction_rate(Ti, Tb, *a, **k),
        net_inlet=lambda: net.get_network_inlet_temperature(-3000., Tb, *a, **k),
        net_outlet=lambda: net.get_network_outlet_temperature(Ti, Tb, *a, **k),
        net_heat=lambda: net.get_network_heat_extraction_rate(Ti, Tb, *a, **k),
        c_inlet=lambda: net.coefficients_inlet_temperature(*a, **k),
        c_outlet=lambda: net.coefficients_outlet_temperature(*a, **k),
        c_net_inlet=lambda: net.coefficients_network_inlet_temperature(*a, **k),
        c_net_outlet=lambda: net.coefficients_network_outlet_temperature(*a, **k),
        c_wall=lambda: net.coefficients_borehole_heat_extraction_rate(*a, **k),
        c_fluid=lambda: net.coefficients_fluid_heat_extraction_rate(*a, **k),
        c_net_heat=lambda: net.coefficients_network_heat_extraction_rate(*a, **k),
        resistance=lambda: pkg.networks.network_thermal_resistance(net, m, cp))[op]()


def network_case(case, mon, r):
    import pygfunction as gt
    nb = int(r.integers(1, 5))
    rb = 0.08
    H = float(10**r.uniform(1.3, 2.2))
    holes = [(H * float(gen.pick(r, [1., 1., 0.7])), 2., rb, 6. * i, 0.) for i in range(nb)]
    d = gen.pipe(r, case['pipe'], rb)
    d['reversible'] = bool(r.random() < 0.8)
    m1 = base_flow(r, d, H, rb, 4000., 1, top=1.5)
    conns = [gen.connectivity(r, nb), gen.connectivity(r, nb)]
    caps = [4000., 4800., 4000. * (1. + 1e-4)]
    bh = [gt.boreholes.Borehole(*h) for h in holes]
    pipes = [gen.build_pipe(d, b) for b in bh]
    init = bool(r.random() < 0.3)
    nets = []
    for c in conns:
        kw = dict(m_flow_network=m1 * nb, cp_f=caps[0], nSegments=2) if init else {}
        nets.append(gt.networks.Network(bh, pipes, bore_connectivity=list(c), **kw))
    states = [{k: d[k] for k in ('R_fp', 'R_ff') if k in d} for _ in range(nb)]
    segs = [int(v) for v in r.choice([1, 2, 3, 5], 2, replace=False)]
    mixed = [int(v) for v in r.integers(1, 5, nb)]
    pools = {s: ratio_pool(r, s) for s in segs}
    pkg, mods = fresh_package()
    prev, last = None, {}
    ops = [str(o) for o in r.choice(NET_OPS, int(gen.pick(r, [1, 2, 4, 12])), replace=False)]
    lists = [np.array(gen.ratios(r, v)) for v in mixed]

    def ratio_choices(a):
        if isinstance(a['ns'], list):
            return [None, lists, [x[::-1].copy() for x in lists]]
        p = pools[a['ns']]
        return p + [[p[2 + (i % 2)] for i in range(nb)], [p[2] for i in range(nb)]]
    walk = Walk(r, dict(m=flow_pool(r, m1 * nb), cp=caps, ns=segs + [mixed], net=[0, 1],
                        form=['total', 'circuits', 'turned', 'one', 'wide']), lambda a: dict(q=ratio_choices(a)))
    for step in range(32):
        u = r.random()
        if u < 0.12:
            j = int(r.integers(nb))
            states[j] = new_state(r, d)
            gen.update_resistances(pipes[j], d, **states[j])
            pkg, mods = fresh_package()
            prev = 'update'
            walk.hold = True
            continue
        if u < 0.2:
            j = int(r.integers(nb))     # one of the pipes is used on its own
            pipes[j].get_outlet_temperature(5., np.zeros(segs[0]), m1 * 3., caps[0])
            prev = 'pipe'
            continue
        op = gen.pick(r, ops)
        a = walk.step()
        m, cp, ns, q, k, form = a['m'], a['cp'], a['ns'], a['q'], a['net'], a['form']
        if isinstance(ns, list):
            ns = list(ns)
        net, c = nets[k], conns[k]
        ni = net.nInlets
        if form in ('circuits', 'turned', 'wide'):
            m = m / nb * np.array([1., 1.4, 0.9, 1.2])[:ni]
            if form == 'turned':        # same total, otherwise shared
                m = m[::-1].copy()
            if form == 'wide':
                cp = np.full(ni, cp)
        elif form == 'one' and ni == 1:
            m = np.array([m])
        N = int(np.sum(ns)) if isinstance(ns, list) else ns * nb
        Tb = float(r.uniform(-5., 15.)) if r.random() < 0.3 else r.uniform(-5., 15., N)
        Ti = float(r.uniform(-5., 40.))
        if op == 'resistance':
            ns, q = 1, None
        args = [m, cp, ns, q, Ti, Tb]
        with Using(mods):
            fb = [pkg.boreholes.Borehole(*h) for h in holes]
            fp = [gen.build_pipe(with_resistances(d, s), b) for s, b in zip(states, fb)]
            want = net_query(pkg, pkg.networks.Network(fb, fp, bore_connectivity=list(c)), op, *copies(args))
        mine = copies(args)
        got = net_query(gt, net, op, *mine)
        now = dict(m=str(m), cp=str(cp), ns=str(ns), q=str(q), net=k)
        what = tuple(x for x in now if last.get(x) != now[x])
        last = now
        same(mon, 'network', got, want, op=op, prev=prev, changed=what, step=step, m=m, cp=cp, ns=ns, form=form, q=q, c=c)
        mon.state('network', case['pipe'], op, prev, what)
        prev = op
        if r.random() < 0.3:
            spoil(r, [a for a in mine if not (isinstance(a, list) and a and isinstance(a[0], int))])
            if isinstance(mine[2], list):
                mine[2][:] = [v + 1 for v in mine[2]]
            prev = 'spoil ' + op
        elif r.random() < 0.5:
            turn_round(r, mine[3])
            if isinstance(mine[0], np.ndarray):
                mine[0] *= np.array([1.3, 1.2, 1.4, 1.1])[:len(mine[0])]
            if isinstance(mine[2], list) and mine[3] is None and len(mine[2]) > 1 and not isinstance(mine[5], float):
                mine[2][:] = mine[2][::-1]
            with Using(mods):
                fb = [pkg.boreholes.Borehole(*h) for h in holes]
                fp = [gen.build_pipe(with_resistances(d, s), b) for s, b in zip(states, fb)]
                want = net_query(pkg, pkg.networks.Network(fb, fp, bore_connectivity=list(c)), op, *copies(mine))
            same(mon, 'network', net_query(gt, net, op, *mine), want, op=op, prev='edited ' + op, step=step, m=m, cp=cp, ns=ns, form=form, q=q, c=c)
            prev = 'edited ' + op


# --------------------------------------------------------------------------------------------------------------
def two_arguments(r, vary, m, n):
    """Two sets of arguments that differ in one of them: (m, cp, nSegments, ratios)."""
    ns = int(gen.pick(r, [2, 3, 4]))
    q = gen.pick(r, [None, np.array(gen.ratios(r, ns))])
    a = dict(m=m * gen.pick(r, [1., 1., -1.]), cp=4000., ns=ns, q=q)
    b = dict(a)
    if vary == 'm':
        b['m'] = a['m'] * gen.pick(r, [2.5, 1.0001])
    elif vary == 'sign':
        b['m'] = -a['m']
    elif vary == 'cp':
        b['cp'] = 4000. * gen.pick(r, [1.2, 1.0001])
    elif vary == 'ns':
        a['q'] = None
        b.update(ns=ns + 1, q=None)
    elif vary == 'q':
        b['q'] = gen.pick(r, [None, np.array(gen.ratios(r, ns))]) if q is not None else np.array(gen.ratios(r, ns))
    return [a, b]


def dense_walk(case, mon, r, ops, args, states, answer, query, update):
    """A long random walk over few operations and two sets of arguments on one object.

    Every short sequence of operations and arguments occurs; the answers were obtained before, each from a newly built
    object of a newly imported package.
    """
    want = {(s, o, k): answer(states[s], o, args[k]) for s in range(len(states)) for o in ops for k in range(len(args))}
    letters = [(o, k) for o in ops for k in range(len(args))]
    steps = case.get('steps', 1500)
    at, trace = 0, []
    for step in range(steps):
        if len(states) > 1 and r.random() < 0.2:
            at = int(r.integers(len(states)))
            update(states[at])
            trace.append(('update', at))
        o, k = letters[int(r.integers(len(letters)))]
        n0 = len(mon.violations)
        same(mon, case['kind'], query(o, args[k]), want[at, o, k], op=o, arguments=k, before=trace[-6:], args=args, step=step)
        mon.state(case['kind'], case['pipe'], case['vary'], *trace[-1:], o, k)
        trace = trace[-6:] + [(o, k)]
        if len(mon.violations) > n0:
            return


def dense_case(case, mon, r):
    import pygfunction as gt
    H, rb = float(10**r.uniform(1.5, 2.3)), 0.08
    hole = (H, 2., rb, 0., 0.)
    d = gen.pipe(r, case['pipe'], rb)
    d['reversible'] = bool(r.random() < 0.85)
    n = d.get('n', 1) if case['pipe'] == 'independent' else 1
    args = two_arguments(r, case['vary'], base_flow(r, d, H, rb, 4000., n), 1)
    ops = [o for o in PIPE_OPS if n == 1 or o not in ('effective', 'local')]
    ops = [str(o) for o in r.choice(ops, int(gen.pick(r, [4, 5, 6])), replace=False)]
    if r.random() < 0.6:
        ops = list(dict.fromkeys(ops[:3] + ['temperature', 'outlet', gen.pick(r, ['fluid', 'wall'])]))
    state = {k: d[k] for k in ('R_fp', 'R_ff') if k in d}
    states = [state] if case['vary'] != 'R' else [state, new_state(r, d), {k: v * 1.3 for k, v in state.items()}]
    p = gen.build_pipe(d, gt.boreholes.Borehole(*hole))
    Tb = r.uniform(-5., 15., 8)
    z = r.uniform(0., H, 3) if r.random() < 0.5 else float(r.uniform(0., H))

    share = np.array([1., 1.3, 0.8])[:n]
    if case['vary'] in ('share', 'one_sign'):       # another share of the same total, or one circuit turned round
        args[1] = dict(args[0], share=np.roll(share, 1) if case['vary'] == 'share' else share * np.array([1., -1., 1.])[:n])
    elif case['vary'] == 'share_cp':
        cp = np.array([4000., 3200., 4400.])[:n]
        args = [dict(args[0], cp=cp), dict(args[0], cp=np.roll(cp, 1), share=np.roll(share, 1) if r.random() < 0.3 else share)]

    def ask(p, op, a):
        m = a['m'] if n == 1 and case['pipe'] != 'independent' else a['m'] * a.get('share', share)
        return pipe_query(p, op, m, a['cp'].copy() if isinstance(a['cp'], np.ndarray) else a['cp'], a['ns'], None if a['q'] is None else a['q'].copy(), 3., Tb[:a['ns']].copy(), z, case['pipe'])

    def answer(state, op, a):
        pkg, mods = fresh_package()
        with Using(mods):
            return ask(gen.build_pipe(with_resistances(d, state), pkg.boreholes.Borehole(*hole)), op, a)
    dense_walk(case, mon, r, ops, args, states, answer, lambda op, a: ask(p, op, a),
               lambda s: gen.update_resistances(p, d, **s))


def dense_network_case(case, mon, r):
    import pygfunction as gt
    nb, rb = int(r.integers(2, 4)), 0.08
    H = float(10**r.uniform(1.5, 2.2))
    holes = [(H * float(gen.pick(r, [1., 0.7])), 2., rb, 6. * i, 0.) for i in range(nb)]
    d = gen.pipe(r, case['pipe'], rb)
    d['reversible'] = bool(r.random() < 0.85)
    c = gen.connectivity(r, nb) if case['vary'] != 'share' else [-1] * nb
    ni = c.count(-1)
    args = two_arguments(r, case['vary'], base_flow(r, d, H, rb, 4000., 1, top=1.5) * nb, nb)
    if case['vary'] == 'share' or r.random() < 0.3:
        for a in args:
            a['m'] = a['m'] / nb * np.array([1., 1.4, 0.9])[:ni]
        if case['vary'] == 'share':
            args[1] = dict(args[0], m=args[0]['m'][::-1].copy())
    if case['vary'] == 'ns' and r.random() < 0.5:
        v = [int(x) for x in r.permutation([2, 3, 4])[:nb]]
        args = [dict(args[0], ns=v), dict(args[0], ns=v[::-1])]
    ops = [str(o) for o in r.choice([o for o in NET_OPS if o != 'resistance'], 5, replace=False)]
    if r.random() < 0.6:
        ops = list(dict.fromkeys(ops[:2] + ['inlet', 'outlet', gen.pick(r, ['net_outlet', 'wall', 'fluid', 'net_heat'])]))
    state = {k: d[k] for k in ('R_fp', 'R_ff') if k in d}
    states = [state] if case['vary'] != 'R' else [state, new_state(r, d), {k: v * 1.3 for k, v in state.items()}]
    j = int(r.integers(nb))
    Tb = r.uniform(-5., 15., 16)

    def make(pkg, state):
        b = [pkg.boreholes.Borehole(*h) for h in holes]
        p = [gen.build_pipe(with_resistances(d, state if i == j else states[0]), x) for i, x in enumerate(b)]
        return pkg.networks.Network(b, p, bore_connectivity=list(c)), p

    def ask(pkg, net, op, a):
        N = sum(a['ns']) if isinstance(a['ns'], list) else a['ns'] * nb
        q = a['q']
        m = a['m'].copy() if isinstance(a['m'], np.ndarray) else a['m']
        return net_query(pkg, net, op, m, a['cp'], a['ns'], None if q is None or isinstance(a['ns'], list) else [q.copy() for _ in range(nb)], 3., Tb[:N].copy())

    def answer(state, op, a):
        pkg, mods = fresh_package()
        with Using(mods):
            return ask(pkg, make(pkg, state)[0], op, a)
    net, pipes = make(gt, state)
    dense_walk(dict(case, steps=500), mon, r, ops, args, states, answer, lambda op, a: ask(gt, net, op, a),
               lambda s: gen.update_resistances(pipes[j], d, **s))


# --------------------------------------------------------------------------------------------------------------
def table_query(mon, r, P, args, step, edit, prev, held):
    pkg, _ = fresh_package()
    want = tuple(np.array(x) for x in pkg.pipes.thermal_resistances(*copies(args)))
    mine = copies(args)
    got = P.thermal_resistances(*mine)
    same(mon, 'table', got, want, step=step, edit=edit, prev=prev, args=args)
    held.append((got, tuple(x.copy() for x in got)))
    return mine


def table_case(case, mon, r):
    from pygfunction import pipes as P
    rb = 0.08
    base = []
    for _ in range(3):
        d = gen.pipe(r, gen.pick(r, [p for p in PIPES if not p.startswith('coax')]), rb)
        base.append([np.array(d['pos']), float(d['r_out']), rb, d['k_s'], d['k_g'], d['R_fp'], int(r.integers(0, 4))])
    names = ['pos', 'r_out', 'r_b', 'k_s', 'k_g', 'R_fp', 'J']
    held = []
    prev, args, repeat = None, None, False
    for step in range(40):
        if repeat:
            edit_, repeat = 'same', False
            turn = gen.pick(r, [None, None, 'flip'])
            args = copies(args)
            for i in (1, 5):
                if turn and isinstance(args[i], np.ndarray):    # same values in another order
                    args[i] = args[i][::-1].copy()
            table_query(mon, r, P, args, step, edit_ + str(turn), prev, held)
            prev = 'same'
            repeat = r.random() < 0.5
            if r.random() < 0.4 and held:
                for x in held.pop()[0]:
                    x[...] *= 3.
                prev = 'edited result'
            continue
        b = [np.array(v) if i == 0 else v for i, v in enumerate(gen.pick(r, base[:1] * 4 + base))]
        edit = gen.pick(r, [None, None] + names)
        near = float(gen.pick(r, [1e-4, -1e-4, 0.01]))
        if edit == 'pos':
            j = int(r.integers(len(b[0])))
            b[0][j] = b[0][j] * (1. - abs(near))
        elif edit == 'r_out':
            b[1] *= 1. - abs(near)
        elif edit == 'J':
            b[6] = (b[6] + int(r.integers(1, 4))) % 5
        elif edit:
            i = names.index(edit)
            b[i] = b[i] * (1. + abs(near))
        n = len(b[0])
        # scalars or arrays, lists of tuples or arrays
        if r.random() < 0.4:
            b[1] = np.full(n, b[1])
            if r.random() < 0.5:
                b[1][int(r.integers(n))] *= 0.98
        if r.random() < 0.4:
            b[5] = np.full(n, b[5])
            if r.random() < 0.5:
                b[5][int(r.integers(n))] *= 1.02
        pos = gen.pick(r, [b[0], [tuple(float(x) for x in v) for v in b[0]]])
        args = [pos] + b[1:]
        mine = table_query(mon, r, P, args, step, edit, prev, held)
        mon.state('table', n, edit, prev, isinstance(b[1], float), isinstance(b[5], float), near)
        repeat = r.random() < 0.5
        u = r.random()
        prev = edit
        if u < 0.3:     # a result is edited in place, as a caller may do with its own array
            for x in held.pop(-1 if r.random() < 0.7 else int(r.integers(len(held))))[0]:
                x[...] *= 3.
            prev = 'edited result'
        elif u < 0.5:
            spoil(r, mine)
            prev = 'edited argument'
        elif u < 0.6:
            gen.build_pipe(gen.pipe(r, gen.pick(r, PIPES), rb), __import__('pygfunction').boreholes.Borehole(80., 2., rb, 0., 0.))
            prev = 'pipe built'
    for a, b in held:       # results handed out earlier were not altered by later calls
        for x, y in zip(a, b):
            mon.check('table', np.array_equal(x, y))


# --------------------------------------------------------------------------------------------------------------
def gfunction_case(case, mon, r):
    import pygfunction as gt
    nb = int(r.integers(1, 5))
    rb, alpha = 0.075, 1e-6
    holes = [(float(gen.pick(r, [100., 100., 70.])), 2., rb, 6. * (i % 2) + 0.1 * i, 6. * (i // 2)) for i in range(nb)]
    method = gen.pick(r, ['similarities', 'detailed', 'equivalent'])
    d = gen.pipe(r, gen.pick(r, ['single', 'double_series', 'coax_annular']), rb)
    c = gen.connectivity(r, nb) if method != 'equivalent' else [-1] * nb
    opts = dict(nSegments=int(r.integers(1, 5)))
    m = base_flow(r, d, 100., rb, 4000., 1, top=1.5) * nb
    grids = [np.sort(10**r.uniform(5., 9.5, int(r.integers(2, 9)))) for _ in range(3)]
    grids.append(float(grids[0][-1]))
    grids.append(grids[0] * 1.0001)

    def make(pkg, mods, time=None):
        with Using(mods), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            b = [pkg.boreholes.Borehole(*h) for h in holes]
            kw = {}
            src = b
            if case['bc'] == 'MIFT':
                src = pkg.networks.Network(b, [gen.build_pipe(d, x) for x in b], bore_connectivity=list(c))
                kw = dict(m_flow_network=m, cp_f=4000.)
            return pkg.gfunction.gFunction(src, alpha, time=time, method=method, boundary_condition=case['bc'],
                                           options=dict(opts), **kw), src
    mods0 = {k: v for k, v in sys.modules.items() if k == 'pygfunction' or k.startswith('pygfunction.')}
    g, src = make(gt, mods0, gen.pick(r, grids) if r.random() < 0.5 else None)
    refs = {}
    prev = None
    for step in range(9):
        k = int(r.integers(len(grids)))
        if k not in refs:
            refs[k] = np.array(make(*fresh_package())[0].evaluate_g_function(grids[k]))
        t = grids[k] if np.isscalar(grids[k]) else grids[k].copy()
        u = r.random()
        if u < 0.3 and case['bc'] == 'MIFT':
            src.get_network_heat_extraction_rate(5., 0., 0.7 * m, 4200., 3)
            prev = 'network used'
        elif u < 0.4:
            gt.gfunction.gFunction(src if case['bc'] != 'MIFT' else src.b, 2e-6, time=grids[1], method=method,
                                   boundary_condition='UBWT', options=dict(nSegments=3))
            prev = 'other g-function'
        got = g.evaluate_g_function(t)
        mon.close('gfunction', got, refs[k], 1e-9, k=k, prev=prev, step=step, method=method, bc=case['bc'])
        mon.state('gfunction', case['bc'], method, prev, k)
        prev = k
        if r.random() < 0.3 and isinstance(got, np.ndarray) and got.ndim:
            got *= 2.
            prev = 'edited'


def run(case, mon):
    r = gen.rng(case)
    dict(pipe=pipe_case, network=network_case, table=table_case, gfunction=gfunction_case, dense=dense_case,
         dense_network=dense_network_case)[case['kind']](case, mon, r)
