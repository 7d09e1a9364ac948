"""C32: drawings and printed forms show the geometry of boreholes, bore fields and pipes."""
import re

import numpy as np

from vp import gen

RULE = ('Random boreholes, fields (vertical, inclined, up to 40 boreholes) and pipes of every type (1 to 12 U-tubes) are drawn '
        'with all options and under several styles; circles, points, lines and labels are read back from the figures and '
        'compared with the geometry. Printed forms are read back as numbers. Distinct by (drawing, kind, options, style).')
ORACLES = ['pipes.circles', 'pipes.labels', 'plan.heads', 'plan.axes', 'plan.labels', 'space.heads', 'space.axes', 'views',
           'repr.borehole', 'repr.fluid', 'dict.fluid', 'same.function']
ASSUMPTIONS = ['only the drawn data are compared: colours, fonts and sizes are not specified']
PIPES = ['single', 'single_asym', 'double_parallel', 'double_series', 'triple_parallel', 'triple_series', 'independent',
         'coax_annular', 'coax_pipe', 'many']
FIELDS = ['single', 'pair', 'line', 'rect', 'L', 'U', 'box', 'circle', 'random', 'mixed_all', 'fan', 'inclined', 'inc_random']
STYLES = ['default', 'grayscale', 'ggplot', 'two']


def cases(r, tier):
    n = 2 if tier == 'quick' else 25
    return ([dict(kind='pipes', pipe=p, i=i) for p in PIPES for i in range(n)]
            + [dict(kind='field', n=int(r.integers(2, 12 if i % 2 else 41)), i=i) for i in range(10 * n)]
            + [dict(kind='print', i=i) for i in range(4 * n)])


def numbers(s):
    # numpy may write its numbers as np.float64(...)
    v = {}
    for k, x in re.findall(r'(\w+) ?= ?(?:np\.float64\()?([-+\w.]+)', s):
        try:
            v[k] = float(x)
        except ValueError:
            pass
    return v


def run(case, mon):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as P
    import pygfunction as gt
    r = gen.rng(case)
    style = str(gen.pick(r, STYLES))
    sheet = dict(zip(STYLES, ['default', 'grayscale', 'ggplot', {'axes.prop_cycle': P.cycler(color=['r', 'b'])}]))[style]
    P.close('all')
    with P.style.context(sheet):
        {'pipes': pipes, 'field': field, 'print': printed}[case['kind']](case, mon, r, gt, style)
    P.close('all')


def pipes(case, mon, r, gt, style):
    from matplotlib.patches import Circle, Ellipse
    rb = float(r.uniform(0.05, 0.2))
    b = gt.boreholes.Borehole(float(r.uniform(50, 200)), 2., rb, *(float(v) for v in r.uniform(-9, 9, 2)))
    kind = case['pipe']
    if kind == 'many':
        n = int(r.integers(4, 13))
        a = 2 * np.pi * r.permutation(2 * n) / (2 * n)
        ro = min(0.8 * rb * np.sin(np.pi / (2 * n)) * 0.9, 0.18 * rb)
        d = dict(kind='independent' if r.random() < 0.5 else 'triple_series', n=n, k_s=2., k_g=1., R_fp=0.1, J=0, reversible=True,
                 pos=[[float(0.8 * rb * np.cos(v)), float(0.8 * rb * np.sin(v))] for v in a], r_in=float(ro * 0.9), r_out=float(ro))
    else:
        d = gen.pipe(r, 'coax_annular' if kind == 'coax_annular' else 'coax_pipe' if kind == 'coax_pipe' else kind, rb)
    p = gen.build_pipe(d, b)
    info = dict(pipe=d, r_b=rb, style=style)
    mon.state('pipes', kind, d.get('n', 1), style)
    fig = mon.accepts('pipes.circles', p.visualize_pipes, **info)
    if fig is None:
        return
    coax = d['kind'].startswith('coax')
    got = set()
    for ax in fig.axes:
        for c in ax.get_children():
            if isinstance(c, Circle):
                got.add((*np.round(c.center, 9), round(c.radius, 9)))
            elif isinstance(c, Ellipse):
                got.add((*np.round(c.center, 9), round(0.5 * c.width, 9)))
    want = [(0., 0., rb)]
    for q in d['pos']:
        want += [(*q, x) for x in (list(d['r_in']) + list(d['r_out']) if coax else [d['r_in'], d['r_out']])]
    got = np.array(sorted(got))
    want = np.array(sorted(set(tuple(np.round(w, 9)) for w in want)))
    ok = len(got) > 0 and all(np.min(np.abs(got - w).max(1)) < 1e-8 for w in want) and all(np.min(np.abs(want - g).max(1)) < 1e-8 for g in got)
    mon.check('pipes.circles', ok, got=got, want=want, **info)
    lab = {}
    for t in (t for ax in fig.axes for t in ax.texts):
        if t.get_text().strip().isdigit():
            lab.setdefault(int(t.get_text()), []).append(np.array(t.get_position()))
    n = 2 if coax else len(d['pos'])
    mon.check('pipes.labels', sorted(lab) == list(range(n)) and all(len(v) == 1 for v in lab.values()), labels=lab, **info)
    for k, v in lab.items():
        if k < n:
            dist = float(np.hypot(*(v[0] - np.array(d['pos'][0 if coax else k]))))
            if not coax:
                mon.check('pipes.labels', dist <= d['r_out'], label=k, dist=dist, **info)
            else:
                # in the inner pipe, or between the pipes
                inner = int(np.argmin(d['r_in']))
                mon.check('pipes.labels', (dist < d['r_in'][inner]) == (k == inner) and dist <= max(d['r_out']), label=k, dist=dist, **info)


def _points(ax, three):
    """Marked points and segments of the lines of an axis."""
    pts, segs, dashed = [], [], []
    for ln in ax.lines:
        xy = np.array(ln.get_data_3d() if three else ln.get_data(), dtype=float)
        xy = np.atleast_2d(xy).reshape(3 if three else 2, -1).T
        if ln.get_marker() not in ('None', None, '', ' '):
            pts += [tuple(v) for v in xy]
        if ln.get_linestyle() not in ('None', None, '', ' '):
            segs += [tuple(np.concatenate(v)) for v in zip(xy[:-1], xy[1:]) if not np.any(np.isnan(v))]
    return pts, segs


def _same(mon, name, got, want, **info):
    got, want = np.array(sorted(got)), np.array(want)
    if len(want) == 0 or len(got) == 0:
        mon.check(name, len(got) == len(want), got=got, want=want, **info)
        return
    ok = (all(np.min(np.abs(got - w).max(1)) < 1e-8 for w in want)
          and all(np.min(np.abs(want - g).max(1)) < 1e-8 for g in got))
    mon.check(name, ok, got=got, want=want, **info)


def field(case, mon, r, gt, style):
    kind = str(gen.pick(r, FIELDS))
    f = gen.field(r, kind, case['n'])
    bf = gt.borefield.Borefield.from_boreholes(gen.boreholes(f))
    top, space, labels, tilts = (bool(r.random() < q) for q in (0.75, 0.75, 0.7, 0.6))
    opts = dict(viewTop=top, view3D=space, labels=labels, showTilt=tilts)
    info = dict(field=f, opts=opts, style=style)
    mon.state('field', kind, len(f), top, space, labels, tilts, style)
    heads, toes = [], []
    for H, D, rb, x, y, t, o in f:
        heads.append((x, y, D))
        toes.append((x + H * np.sin(t) * np.cos(o), y + H * np.sin(t) * np.sin(o), D + H * np.cos(t)))
    if r.random() < 0.2:
        # the default is to draw everything
        top = space = labels = tilts = True
        opts = {}
    figs = [('method', lambda: bf.visualize_field(**opts)),
            ('function', lambda: gt.boreholes.visualize_field(gen.boreholes(f) if r.random() < 0.5 else bf, **opts))]
    for name, draw in figs:
        fig = mon.accepts('views', draw, form=name, **info)
        if fig is None:
            continue
        flat = [ax for ax in fig.axes if not hasattr(ax, 'get_zlim')]
        deep = [ax for ax in fig.axes if hasattr(ax, 'get_zlim')]
        mon.check('views', len(flat) == int(top) and len(deep) == int(space), form=name, **info)
        if name == 'function':
            mon.event('same.function')
        if top and flat:
            pts, segs = _points(flat[0], False)
            _same(mon, 'plan.heads', pts, [h[:2] for h in heads], form=name, **info)
            far = [s for s in segs if abs(s[0] - s[2]) + abs(s[1] - s[3]) > 1e-9]
            _same(mon, 'plan.axes', far, [(*h[:2], *t[:2]) for h, t, q in zip(heads, toes, f) if tilts and q[5] > 1e-9], form=name, **info)
            lab = [(int(t.get_text()), np.array(t.get_position())) for t in flat[0].texts if t.get_text().strip().isdigit()]
            mon.check('plan.labels', sorted(k for k, _ in lab) == (list(range(len(f))) if labels else []), labels=lab, form=name, **info)
            for k, q in lab:
                if k < len(f):
                    mon.check('plan.labels', float(np.hypot(*(q - np.array(heads[k][:2])))) < 0.5, label=k, at=q, form=name, **info)
        if space and deep:
            pts, segs = _points(deep[0], True)
            _same(mon, 'space.heads', pts, heads, form=name, **info)
            _same(mon, 'space.axes', segs, [(*h, *t) for h, t in zip(heads, toes)], form=name, **info)
            z = deep[0].get_zlim()
            mon.check('space.axes', z[0] > z[1], zlim=z, what='depth increases downwards', form=name, **info)


def printed(case, mon, r, gt, style):
    for _ in range(20):
        b = gen.field(r, str(gen.pick(r, FIELDS)), 4)[0]
        b = [float(v) * (1. + 1e-7 * r.random() if r.random() < 0.5 else 1.) for v in b]
        o = gt.boreholes.Borehole(b[0], b[1], b[2], b[3], b[4], tilt=b[5], orientation=b[6])
        v = numbers(repr(o))
        mon.state('repr', b[5] > 0)
        mon.check('repr.borehole', list(v.get(k) for k in ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')) ==
                  [o.H, o.D, o.r_b, o.x, o.y, o.tilt, o.orientation], repr=repr(o), borehole=b)
        mon.check('repr.borehole', str(o) == repr(o), repr=repr(o), borehole=b)
    d = {}
    rows = []
    for _ in range(int(r.integers(2, 6))):
        name, pct = str(gen.pick(r, ['Water', 'MPG', 'MEG', 'MEA', 'MMA'])), float(np.round(r.uniform(5., 30.), 1))
        T = float(np.round(r.uniform(5., 35.), 1))
        fl = gt.media.Fluid(name, 0. if name == 'Water' else pct, T=T)
        rows.append(fl)
        v = numbers(repr(fl))
        info = dict(fluid=name, percent=pct, T=T)
        mon.state('fluid', name)
        for key in ('cp', 'k', 'mu', 'nu', 'rho', 'Pr'):
            if hasattr(fl, key):
                mon.check('repr.fluid', v.get(key) == float(getattr(fl, key)), key=key, repr=repr(fl), **info)
        fl.append_to_dict(d)
        for key in ('cp', 'k', 'mu', 'nu', 'rho', 'Pr'):
            if hasattr(fl, key):
                mon.check('dict.fluid', len(d.get(key, [])) == len(rows)
                          and all(abs(float(x) - getattr(q, key)) <= 2e-5 * abs(getattr(q, key)) for x, q in zip(d[key], rows)),
                          key=key, values=d.get(key), **info)
