"""C30: solver options do what they say and nothing else."""
import io
import contextlib

import numpy as np

from vp import gen

RULE = ('Random fields and networks, boundary conditions and methods; one g-function is computed in several ways that '
        'must agree (defaults spelled out, equivalent forms of the discretization and of the field, output options), or '
        'whose difference is known (precision, approximation, quadrature, interpolation, refinement, linearization '
        'threshold). Distinct by (relation, field class, boundary condition, method).')
ORACLES = ['defaults', 'segments.forms', 'ratios.forms', 'field.forms', 'time.forms', 'names', 'output.options',
           'precision', 'approximation', 'quadrature', 'quadrature.default', 'interpolation.even-times', 'refine.never-higher', 'refine.converges',
           'threshold.default', 'threshold.below', 'threshold.above', 'pairs.vertical', 'pairs.inclined', 'pairs.alone', 'tolerance.unused', 'profiles.present']
ASSUMPTIONS = ['single precision is claimed to 1e-4 of the value for moderately conditioned systems (at most 30 segments)',
               'the line source approximation is claimed within 0.1 % with 10 terms',
               'refinement lowers the uniform-temperature g-function at the first time step (Galerkin argument); over '
               'several steps only convergence is claimed']
METHODS = ['detailed', 'similarities', 'equivalent']
BCS = ['UHTR', 'UBWT', 'MIFT']
KINDS = ['forms', 'defaults', 'output', 'precision', 'approximation', 'kind', 'refine', 'threshold', 'quadrature', 'pairs']
LAYOUTS = ['single', 'pair', 'line', 'rect', 'L', 'random', 'mixed_H', 'mixed_D', 'mixed_all', 'almost']


def cases(r, tier):
    n = 1 if tier == 'quick' else 12
    return [dict(kind=k, bc=bc, method=m, i=i) for k in KINDS for bc in BCS for m in METHODS
            for i in range(n * (3 if k in ('forms', 'defaults', 'output') else 2))]


def setup(case, r, nmax=5):
    """Field, source and flow of the case (parallel connections and one pipe for the equivalent method)."""
    bc, method = case['bc'], case['method']
    lay = str(gen.pick(r, LAYOUTS))
    f = gen.field(r, lay, nmax)[:nmax]
    alpha = float(10**r.uniform(-6.3, -5.8))
    ts = float(np.mean([b[0] for b in f]))**2 / (9 * alpha)
    rb = max(b[2] for b in f)
    kw = {}
    net = None
    if bc == 'MIFT':
        net = gen.network(r, f, conn=[-1] * len(f) if method == 'equivalent' else None,
                          pipe_kind=str(gen.pick(r, ['single', 'double_parallel', 'coax_annular'])))
        kw = dict(m_flow_network=net['m'], cp_f=net['cp'])

    def source():
        bs = gen.boreholes(f)
        return bs if net is None else gen.build_network(net, bs)
    return lay, f, alpha, ts, rb, source, kw


def run(case, mon):
    import pygfunction as gt
    r = gen.rng(case)
    bc, method, kind = case['bc'], case['method'], case['kind']
    lay, f, alpha, ts, rb, source, kw = setup(case, r)
    nb = len(f)
    info = dict(field=f, alpha=alpha, bc=bc, method=method)
    time = np.sort(ts * 10**r.uniform(-3., 2., int(r.integers(2, 5))))

    def g(time=time, opts=None, src=None, m=method, b=bc, full=False):
        k = {} if opts is None else dict(options=dict(opts))
        x = gt.gfunction.gFunction(source() if src is None else src, alpha, time=time, method=m, boundary_condition=b, **k, **kw)
        return x if full else np.asarray(x.gFunc)
    same = dict(rtol=1e-9, atol=1e-12)
    ns = int(r.integers(1, 5))
    qs = [float(v) for v in gen.ratios(r, ns)] if ns > 1 else [1.]
    base = dict(nSegments=ns, segment_ratios=None if r.random() < 0.5 or ns == 1 else np.array(qs))
    mon.state(kind, lay, bc, method)
    if kind == 'forms':
        g0 = g(opts=base)
        if method != 'equivalent':
            mon.close('segments.forms', g(opts=dict(base, nSegments=[ns] * nb)), g0, **same, n=ns, **info)
        one = np.full(ns, 1. / ns) if base['segment_ratios'] is None else base['segment_ratios']
        forms = [one.copy(), lambda k: one.copy()]
        if method != 'equivalent':
            forms += [[one.copy() for _ in f]]
        for x in forms:
            mon.close('ratios.forms', g(opts=dict(base, segment_ratios=x)), g0, **same, form=type(x).__name__, **info)
        if bc != 'MIFT':
            mon.close('field.forms', g(opts=base, src=gt.borefield.Borefield.from_boreholes(gen.boreholes(f))), g0, **same, **info)
            if nb == 1:
                mon.close('field.forms', g(opts=base, src=gen.boreholes(f)[0]), g0, **same, **info)
            a = gt.borefield.Borefield.from_boreholes(gen.boreholes(f)).evaluate_g_function(
                alpha, time, method=method, boundary_condition=bc, options=dict(base))
            mon.close('field.forms', a, g0, **same, **info)
        else:
            mon.event('field.forms')
            # the flow rate of the network is used where none is given
            n = source()
            n.m_flow_network, n.cp_f = kw['m_flow_network'], kw['cp_f']
            x = gt.gfunction.gFunction(n, alpha, time=time, method=method, options=dict(base))
            mon.close('field.forms', x.gFunc, g0, **same, **info)
        t = float(time[-1])
        mon.close('time.forms', g(time=t, opts=base).ravel(), g(time=np.array([t]), opts=base).ravel(), **same, **info)
        later = g(time=None, opts=base, full=True) if r.random() < 0.7 else g(time=time[:1] * 3., opts=base, full=True)
        mon.close('time.forms', later.evaluate_g_function(time), g0, **same, **info)
        mon.close('time.forms', later.gFunc, g0, **same, **info)
        if bc != 'UHTR':
            x = gt.gfunction.gFunction(source(), alpha, time=time, method=method, options=dict(base), **kw)
            mon.close('names', x.gFunc, g0, **same, what='boundary condition left out', **info)
    elif kind == 'defaults':
        g0 = g()
        d = dict(nSegments=8, segment_ratios=gt.utilities.segment_ratios, approximate_FLS=False, mQuad=11, nFLS=10,
                 linear_threshold=None, disp=False, profiles=False, kind='linear', dtype=np.double)
        if method != 'detailed':
            d.update(disTol=0.01, tol=1e-6)
        if method == 'equivalent':
            d.update(kClusters=1)
        mon.close('defaults', g(opts=d), g0, **same, **info)
        for k in d:
            if r.random() < 0.35:
                mon.close('defaults', g(opts={k: d[k]}), g0, **same, option=k, **info)
        mon.close('threshold.default', g(opts=dict(linear_threshold=rb**2 / (25. * alpha))), g0, rtol=1e-9, **info)
    elif kind == 'output':
        g0 = g(opts=base, full=True)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            g1 = g(opts=dict(base, disp=True), full=True)
        mon.close('output.options', g1.gFunc, g0.gFunc, **same, **info)
        mon.check('output.options', len(out.getvalue()) > 0, **info)
        g2 = g(opts=dict(base, profiles=True), full=True)
        mon.close('output.options', g2.gFunc, g0.gFunc, **same, **info)
        x = [i for i in range(len(g2.solver.boreholes)) if r.random() < 0.7] or [0]
        try:
            q, w = g2._heat_extraction_rates(x), g2._temperatures(x)
        except AttributeError:      # private helpers are not part of the claim
            q = w = x
        mon.check('profiles.present', len(q) == len(w) == len(x), **info)
        for k, v in dict(nFLS=int(r.integers(1, 26)), mQuad=int(r.integers(3, 40))).items():
            mon.close('tolerance.unused', g(opts=dict(base, **{k: v})), g0.gFunc, **same, option=k, **info)
    elif kind == 'precision':
        g0, g1 = g(opts=base), g(opts=dict(base, dtype=np.single))
        big = max(1., float(np.max(np.abs(g0))))
        mon.close('precision', g1, g0, rtol=5e-5, atol=5e-5 * big, **info)
    elif kind == 'approximation':
        g0, g1 = g(opts=base), g(opts=dict(base, approximate_FLS=True))
        mon.close('approximation', g1, g0, rtol=1e-3, atol=1e-3, **info)
        g2 = g(opts=dict(base, approximate_FLS=True, nFLS=10))
        mon.close('defaults', g2, g1, **same, **info)
    elif kind == 'quadrature':
        # a small tilt brings the inclined solution, whose quadrature has a given order
        if method == 'equivalent' or bc == 'MIFT':
            mon.event('quadrature')
            return
        for b in f:
            b[5], b[6] = 0.05, 0.3
        t = np.sort(ts * 10**r.uniform(-2., 2., 2))
        o = dict(base, nSegments=min(ns, 2), segment_ratios=None)
        g1, g2 = g(time=t, opts=dict(o, mQuad=61)), g(time=t, opts=dict(o, mQuad=121))
        mon.close('quadrature', g1, g2, rtol=2e-4, atol=2e-4, **info)
        mon.close('quadrature.default', g(time=t, opts=o), g2, rtol=1e-2, atol=1e-2, **info)
    elif kind == 'pairs':
        # one segment and uniform heat extraction: the average of the responses of all pairs, asked for one by one
        if bc == 'MIFT':
            mon.event('pairs.vertical')
            return
        inc = method != 'equivalent' and r.random() < 0.6
        M, N, approx = int(r.integers(3, 151) if r.random() < 0.5 else r.integers(3, 41)), int(r.integers(2, 25)), bool(r.random() < 0.5)
        alone = bool(inc and r.random() < 0.5)
        if alone:
            # one borehole: no two sides, so that nothing is left to the error of the quadrature
            f = f[:1]
            nb = 1
            info['field'] = f
        if inc:
            for b in f:
                b[5], b[6] = float(r.uniform(0.05, 0.3)), float(r.uniform(0., 6.))
        t = rb**2 / (25. * alpha) * 10**np.sort(r.uniform(0.01, 6., 3))
        o = dict(nSegments=1, approximate_FLS=approx, mQuad=M, nFLS=N, dtype=np.double)
        if method != 'detailed':
            o.update(disTol=1e-9, tol=1e-9)
        v = g(time=t, b='UHTR', opts=o, src=gen.boreholes(f))
        bs = gen.boreholes(f)
        h = np.array([[gt.heat_transfer.finite_line_source(t, alpha, bj, bi, approximation=approx, M=M, N=N)
                       for bj in bs] for bi in bs])
        L = np.array([b[0] for b in f])
        want = np.einsum('i,ijt->t', L, h) / L.sum()
        if inc:
            # how far the two sides of a pair may differ: the error of the quadrature itself
            h2 = np.einsum('i,ijt->ijt', L, h)
            slack = np.abs(h2 - np.swapaxes(h2, 0, 1)).sum((0, 1)).max() / L.sum()
            mon.close('pairs.alone' if alone else 'pairs.inclined', v, want, rtol=1e-9 if alone else 1e-6, atol=1e-7 + slack if not alone else 1e-12, M=M, N=N, approximation=approx, **info)
        else:
            if method == 'equivalent' and approx:
                # groups of boreholes are always asked for without the approximation: it is left to the own responses
                x = np.array([[gt.heat_transfer.finite_line_source(t, alpha, bj, bi, approximation=i == j, N=N)
                               for j, bj in enumerate(bs)] for i, bi in enumerate(bs)])
                x = np.einsum('i,ijt->t', L, x) / L.sum()
                want = np.where(np.abs(v - x) < np.abs(v - want), x, want)
            mon.close('pairs.vertical', v, want, rtol=1e-9 if approx else 2e-6, atol=1e-12 if approx else 1e-7, M=M, N=N, approximation=approx, **info)
    elif kind == 'kind':
        t = float(time[0]) * np.arange(1., 6.)
        if t[0] <= rb**2 / (25. * alpha) * 1.01:
            t = t * (rb**2 / (25. * alpha) / t[0] * 1.5)
        g0 = g(time=t, opts=base)
        for k in ('quadratic', 'cubic', 'slinear', 'nearest'):
            mon.close('interpolation.even-times', g(time=t, opts=dict(base, kind=k)), g0, rtol=1e-7, atol=1e-9, interpolation=k, **info)
    elif kind == 'refine':
        t = float(ts * 10**r.uniform(-2.5, 2.))
        n0 = int(r.integers(1, 4))
        if bc == 'UBWT':
            v = [g(time=np.array([t]), opts=dict(nSegments=n0 * 2**k, segment_ratios=None)).item() for k in range(3)]
            u = g(time=np.array([t]), b='UHTR', opts=dict(nSegments=n0, segment_ratios=None)).item()
            tol = 1e-7 * (1. + abs(u))
            if method == 'equivalent':
                tol += 1e-3 * abs(u)
            mon.check('refine.never-higher', v[1] <= v[0] + tol and v[2] <= v[1] + tol and v[0] <= u + tol, v=v, uhtr=u, t=t, n=n0, **info)
            mon.check('refine.converges', v[2] > 0.9 * u, v=v, uhtr=u, **info)
        elif bc == 'UHTR':
            v = [g(time=np.array([t]), opts=dict(nSegments=n, segment_ratios=None)).item() for n in (1, n0 + 1, 2 * n0 + 3)]
            mon.close('refine.converges', np.array(v[1:]), np.full(2, v[0]), rtol=1e-5, atol=1e-7, **info)
        else:
            v = [g(time=np.array([t]), opts=dict(nSegments=n, segment_ratios=None)).item() for n in (4, 8, 16)]
            mon.check('refine.converges', abs(v[2] - v[1]) <= abs(v[1] - v[0]) + 1e-3 + 5e-3 * abs(v[2]), v=v, **info)
    elif kind == 'threshold':
        th = float(ts * 10**r.uniform(-2.5, 0.)) if r.random() < 0.5 else float(rb**2 / (25. * alpha) * 10**r.uniform(-0.6, 0.3))
        t = np.sort(np.concatenate([th * r.uniform(0.02, 0.98, 2), th * (1. + 10**r.uniform(-1., 3., 2))]))
        if r.random() < 0.3:
            t = np.sort(np.append(t, th))
        o = dict(base, linear_threshold=th)
        v = g(time=t, opts=o)
        at = g(time=np.sort(np.append(t[t > th], th)), opts=o)[..., :1]
        low = t <= th
        if method == 'equivalent' and bc != 'UHTR':
            tol = dict(rtol=1e-6, atol=1e-9)
        else:
            tol = dict(rtol=1e-9, atol=1e-12)
        mon.close('threshold.below', v[..., low], at * t[low] / th, **tol, t=t, th=th, **info)
        early = t[low][:int(r.integers(1, low.sum() + 1))]          # all of the times are below the threshold
        mon.close('threshold.below', g(time=early, opts=o), at * early / th, **tol, t=early, th=th, only=True, **info)
        ref = g(time=np.sort(np.append(t[~low], th)), opts=dict(base, linear_threshold=float(gen.pick(r, [0., th * 1e-3]))))
        mon.close('threshold.above', v[..., ~low], ref[..., 1:], **tol, t=t, th=th, **info)
