"""C13: reported curves and profiles."""
import os

import numpy as np

from vp import gen
from vp.props.c06 import segmentation

RULE = ('Every reporting function is called for the three boundary conditions, three solution methods, one or several '
        'mass flow rates, unequal segments, selected boreholes (shuffled), requested times on and between the grid '
        'and after a second evaluation of the same object; the data of the drawn lines are read back, matched to '
        'boreholes by the colour of their marker in plan view, and compared with the solution. Distinct by (boundary '
        'condition, method, field, flows, function, time selection).')
ORACLES = ['average.Q', 'average.T', 'profile.Q', 'profile.T', 'profile.depths', 'energy', 'g-function', 'drawn', 'abscissa',
           'plan', 'temperature-is-g', 'single-time']
ASSUMPTIONS = ['the stored solution itself (profiles option) is checked by C06, C11 and C12',
               'between grid times the reported value is interpolated linearly']
CASE_LIMIT = 300
PIPES = gen.PIPE_KINDS[:6] + gen.PIPE_KINDS[7:]


def cases(r, tier):
    n = 4 if tier == 'quick' else 40
    out = []
    for bc in ('UHTR', 'UBWT', 'MIFT', 'MIFT_n'):
        for method in ('detailed', 'similarities', 'equivalent'):
            for k in ('single', 'rect', 'mixed_all', 'random', 'mixed_H', 'interleaved'):
                for i in range(n):
                    out.append(dict(kind='report', bc=bc, method=method, field=k, i=i))
        for i in range(2 * n):
            out.append(dict(kind='report', bc=bc, method='detailed', field=gen.pick(r, gen.INCLINED_KINDS), i=i))
    out.append(dict(kind='single_time'))
    return out


_PLT = None


def plt():
    global _PLT
    if _PLT is None:
        os.environ['MPLBACKEND'] = 'Agg'
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as p
        p.tight_layout = lambda *a, **k: None       # layout only: expensive and not observed
        _PLT = p
    return _PLT


def drawn(fig, f_xy):
    """{borehole or group index: (x, y) of its curve} of a figure with a plan view (left) and curves (right)."""
    plan, curves = fig.axes[0], fig.axes[1]
    marks = {}
    for ln in plan.lines:
        if ln.get_marker() in ('o',):
            for x, y in zip(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata())):
                marks[(round(float(x), 6), round(float(y), 6))] = ln.get_color()
    by_color = {}
    for ln in curves.lines:
        by_color.setdefault(ln.get_color(), []).append(ln)
    out = {}
    for k, xy in enumerate(f_xy):
        cols = {marks.get((round(x, 6), round(y, 6))) for x, y in xy}
        col = cols.pop() if len(cols) == 1 else None
        out[k] = by_color.get(col, []) if col is not None else None
    return out


def run(case, mon):
    import pygfunction as gt
    P = plt()
    P.close('all')
    try:
        if case['kind'] == 'single_time':
            single_time(gt, mon)
        else:
            report(gt, P, case, mon)
    finally:
        P.close('all')


def single_time(gt, mon):
    b = gt.boreholes.Borehole(100., 2., 0.075, 0., 0.)
    for bc in ('UBWT', 'UHTR'):
        g = gt.gfunction.gFunction([b], 1e-6, time=np.array([1e8]), boundary_condition=bc, method='detailed',
                                   options=dict(profiles=True, nSegments=3))
        fn = g.visualize_temperature_profiles
        y = fn(time=1e8).axes[1].lines[0].get_xdata()
        want = np.asarray(g.solver.T_b)[..., -1]
        mon.close('single-time', y, np.full(len(y), want) if np.ndim(want) == 0 else want, rtol=1e-9, bc=bc)


def report(gt, P, case, mon):
    r = gen.rng(case)
    bc, method = case['bc'], case['method']
    inc = case['field'].startswith('inc')
    nmax = 3 if inc else 6
    for _ in range(60):
        f = gen.field(r, case['field'], nmax)[:nmax]
        if not inc or len(f) == 1 or gen.min_gap(f) > 1.5:
            break
    else:
        mon.event('skipped')
        return
    nb = len(f)
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    time = np.array(gen.times(r, gen.pick(r, ['late', 'threshold', 'random']), ts, rb, alpha))[:: 2 if inc else 1]
    mode, nseg, ratio_arg, nsegs, qs = segmentation(r, nb, 3, equal=method == 'equivalent')
    opts = dict(nSegments=nseg, segment_ratios=ratio_arg, profiles=True)
    if inc:
        opts['mQuad'] = 41
    bhs = gen.boreholes(f)
    kw, nm = {}, 0
    arg = bhs
    if bc.startswith('MIFT'):
        net = gen.network(r, f, conn='parallel' if method == 'equivalent' else None, pipe_kind=gen.pick(r, PIPES))
        arg = gen.build_network(net, bhs)
        m = net['m']
        if bc == 'MIFT_n':
            nm = int(r.integers(1, 4))
            m = m * r.uniform(1., 2.5, nm)
        kw = dict(m_flow_network=m, cp_f=net['cp'])
    g = gt.gfunction.gFunction(arg, alpha, time=time, method=method, boundary_condition=bc[:4], options=opts, **kw)
    if r.random() < 0.3:        # the same object at other times
        time = time * 1.7
        if r.random() < 0.5:
            time = time[1:]
        g.evaluate_g_function(time)
    s = g.solver
    nt = len(time)
    info = dict(field=f, nsegs=nsegs, ratios=qs, alpha=alpha, time=time, method=method, bc=bc)
    Q, T = np.asarray(s.Q_b, dtype=float), np.asarray(s.T_b, dtype=float)
    if method == 'equivalent':
        groups = [[(float(x), float(y)) for x, y in zip(np.atleast_1d(b.x), np.atleast_1d(b.y))] for b in s.boreholes]
        dims = [min(f, key=lambda b: abs(b[3] - gr[0][0]) + abs(b[4] - gr[0][1])) for gr in groups]
    else:
        groups = [[(b[3], b[4])] for b in f]
        dims = f
    ng = len(groups)
    ns = [nsegs[0]] * ng if method == 'equivalent' else nsegs
    rat = [qs[0]] * ng if method == 'equivalent' else qs
    off = np.concatenate([[0], np.cumsum(ns)])
    full = (max(nm, 1), int(off[-1]), nt)
    if bc == 'UHTR':
        Q = np.ones(full)
    elif bc == 'UBWT':
        T = np.broadcast_to(T, full)
    Q, T = np.broadcast_to(Q.reshape((-1,) + Q.shape[-2:]), full), np.broadcast_to(T.reshape((-1,) + T.shape[-2:]), full)
    sel = None
    if ng > 1 and r.random() < 0.6:
        sel = [int(v) for v in r.permutation(ng)[:int(r.integers(1, ng + 1))]]
    which = None
    if nm > 1 and r.random() < 0.5:
        which = [int(v) for v in r.permutation(nm)[:int(r.integers(1, nm + 1))]]
    tsel = gen.pick(r, ['last', 'grid', 'between', 'first'])
    t = {'last': None, 'grid': float(time[nt // 2]), 'first': float(time[0]),
         'between': float(time[0] + (time[-1] - time[0]) * r.random()) if r.random() < 0.5
         else float(0.3 * time[0] + 0.7 * time[1])}[tsel]
    showTilt = bool(r.random() < 0.7)
    mon.state(bc, method, case['field'], nm, tsel, sel is None, mode)
    tilt_kw = dict(iBoreholes=sel, showTilt=showTilt)
    if nm or r.random() < 0.3:
        tilt_kw['which'] = which
    flows = [0] if not nm else (which if which is not None else list(range(nm)))
    if t is None:
        at = lambda X: X[..., -1]
    else:
        k = int(np.clip(np.searchsorted(time, t) - 1, 0, nt - 2))
        w = (t - time[k]) / (time[k + 1] - time[k])
        at = lambda X: X[..., k] * (1 - w) + X[..., k + 1] * w

    def figures(name, **k2):
        P.close('all')
        fig = getattr(g, name)(**tilt_kw, **k2)
        mon.check('drawn', fig is not None and len(fig.axes) == 2, function=name, **info)
        figs = [P.figure(n) for n in P.get_fignums()]
        if not mon.check('drawn', len(figs) == max(1, len(flows)) and figs[-1] is fig, function=name, n=len(figs), **info):
            return []
        return list(zip(flows, figs))

    tss = {float(np.mean([b[0] for b in f]))**2 / (9 * alpha), float(np.mean([d[0] for d in dims]))**2 / (9 * alpha)}

    # averages of boreholes over time
    mean = {}
    for name, X, oracle in (('visualize_heat_extraction_rates', Q, 'average.Q'), ('visualize_temperatures', T, 'average.T')):
        scale = max(1e-9, float(np.max(np.abs(X))))
        for n, fig in figures(name):
            lines = drawn(fig, groups)
            mon.check('drawn', len(fig.axes[1].lines) == len(sel if sel is not None else groups), function=name,
                      lines=len(fig.axes[1].lines), sel=sel, **info)
            for i in range(ng):
                if sel is not None and i not in sel:
                    mon.check('drawn', not lines[i], function=name, borehole=i, sel=sel, **info)
                    continue
                if not mon.check('drawn', lines[i] is not None and len(lines[i]) == 1, function=name, borehole=i, **info):
                    continue
                ln = lines[i][0]
                want = np.array(rat[i]) @ X[n, off[i]:off[i + 1], :]
                mon.close(oracle, ln.get_ydata(), want, rtol=1e-9, scale=scale, borehole=i, flow=n, **info)
                mean[(oracle, n, i)] = np.asarray(ln.get_ydata(), dtype=float)
                x = np.asarray(ln.get_xdata(), dtype=float)
                mon.check('abscissa', x.shape == (nt,) and min(np.max(np.abs(x - np.log(time / v))) for v in tss) < 1e-9,
                          function=name, x=x, **info)
    if sel is None:
        wgt = np.array([d[0] * len(gr) for d, gr in zip(dims, groups)])
        wgt = wgt / wgt.sum()
        for n in flows:
            ys = [mean.get(('average.Q', n, i)) for i in range(ng)]
            if all(v is not None and np.shape(v) == (nt,) for v in ys):
                mon.close('energy', wgt @ np.array(ys), np.ones(nt), rtol=1e-7 * max(1., np.max(np.abs(Q))), **info)
            ys = [mean.get(('average.T', n, i)) for i in range(ng)]
            if bc in ('UHTR', 'UBWT') and all(v is not None and np.shape(v) == (nt,) for v in ys):
                mon.close('temperature-is-g', wgt @ np.array(ys), g.gFunc, rtol=1e-8, **info)
    # profiles
    for name, X, oracle in (('visualize_heat_extraction_rate_profiles', Q, 'profile.Q'),
                            ('visualize_temperature_profiles', T, 'profile.T')):
        scale = max(1e-9, float(np.max(np.abs(X))))
        for n, fig in figures(name, time=t):
            lines = drawn(fig, groups)
            for i in range(ng):
                if sel is not None and i not in sel:
                    mon.check('drawn', not lines[i], function=name, borehole=i, sel=sel, **info)
                    continue
                if not mon.check('drawn', lines[i] is not None and len(lines[i]) == 1, function=name, borehole=i, **info):
                    continue
                ln = lines[i][0]
                x, z = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
                v = at(X[n, off[i]:off[i + 1], :])
                H, D = dims[i][0], dims[i][1]
                e = np.concatenate([[0.], np.cumsum(rat[i])]) * H
                mid = D + 0.5 * (e[:-1] + e[1:])
                flat = np.ptp(v) <= 1e-12 * scale
                ends = flat and np.allclose([z.min(), z.max()], [D, D + H], rtol=1e-9, atol=1e-9)
                if len(x) == len(v) and len(v) > 1 and not ends:      # one point per segment, at its middle
                    mon.close(oracle, x, v, rtol=1e-9, scale=scale, borehole=i, flow=n, t=t, **info)
                    mon.close('profile.depths', z, mid, rtol=1e-9, scale=D + H, borehole=i, **info)
                elif flat:         # uniform: drawn from head to toe
                    mon.close(oracle, x, np.full(len(x), v[0]), rtol=1e-9, scale=scale, borehole=i, flow=n, t=t, **info)
                    mon.close('profile.depths', [z.min(), z.max()], [D, D + H], rtol=1e-9, scale=D + H, borehole=i, **info)
                else:
                    mon.check(oracle, False, x=x, z=z, v=v, borehole=i, flow=n, **info)
    # g-function
    P.close('all')
    G = np.asarray(g.gFunc)
    if nm:
        wh = None
        if r.random() < 0.5:
            wh = [(int(r.integers(nm)), int(r.integers(nm))) for _ in range(2)]
        fig = g.visualize_g_function(which=wh)
        curves = {}
        for ln in fig.axes[0].lines:
            curves.setdefault(ln.get_label(), []).append(ln)
        pairs = wh or [(i, j) for i in range(nm) for j in range(nm)]
        mon.check('drawn', len(fig.axes[0].lines) == len(pairs), function='g', **info)
        for i, j in pairs:
            lab = [v for k, v in curves.items() if k.replace(' ', '').strip('$') in (f'g_{{{i}{j}}}', f'g_{{{i},{j}}}')]
            if mon.check('drawn', len(lab) == 1, function='g', labels=list(curves), **info):
                for ln in lab[0]:
                    mon.close('g-function', ln.get_ydata(), G[i, j], rtol=1e-12, i=i, j=j, **info)
    else:
        fig = g.visualize_g_function()
        ln = fig.axes[0].lines
        if mon.check('drawn', len(ln) == 1, function='g', **info):
            mon.close('g-function', ln[0].get_ydata(), G, rtol=1e-12, **info)
            mon.close('abscissa', ln[0].get_xdata(), np.log(time / ts), rtol=1e-9, **info)
    # plan view of the field
    P.close('all')
    fig = gt.boreholes.visualize_field(bhs, viewTop=True, view3D=bool(r.random() < 0.3), labels=True, showTilt=showTilt)
    pts = sorted({(round(float(x), 9), round(float(y), 9)) for ln in fig.axes[0].lines if ln.get_marker() == 'o'
                  for x, y in zip(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata()))})
    mon.check('plan', pts == sorted({(round(b[3], 9), round(b[4], 9)) for b in f}), pts=pts, **info)
