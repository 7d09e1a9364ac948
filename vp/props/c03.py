"""C03: approximate line source solutions."""
import numpy as np
from scipy import special

from vp import gen, ref

RULE = ('Pairs of vertical and inclined boreholes over 8 decades of time, approximate solution (N=3..25 terms) '
        'against direct integration relative to the own-wall response, in every call form; plus batches of pairs on '
        'which the worst error must not grow with N. Distinct by (pair class, time decade, N).')
ORACLES = ['accuracy', 'accuracy.inclined', 'accuracy.N', 'accuracy.max-terms', 'form.list', 'form.vectorized', 'form.times', 'split',
           'no-worse-with-N', 'converges-with-N', 'form.inclined', 'erfint', 'exp1']
# Largest distance to the limit of many terms seen over thousands of pairs, times three or more.
GAP = [0.03, 0.008, 0.004, 0.0015, 6e-4, 3e-4, 1.5e-4, 1e-4, 6e-5, 6e-5, 6e-5, 6e-5, 2e-5]
ASSUMPTIONS = ['accuracy of N terms: bound 0.2% of the own-wall response at N=10 (several times the observed worst)']


def cases(r, tier):
    n = 40 if tier == 'quick' else 800
    return ([dict(kind='vertical', i=i) for i in range(3 * n)] + [dict(kind='inclined', i=i) for i in range(n)]
            + [dict(kind='batch', i=i) for i in range(max(8, n // 5))]
            + [dict(kind='max_terms', i=0)] + [dict(kind='special', i=i) for i in range(n // 2)])


def pair(r):
    H1, H2 = (float(10**v) for v in r.uniform(0.3, 2.4, 2))
    D1, D2 = (float(v) for v in r.uniform(0., 12., 2))
    if r.random() < 0.5:
        H2, D2 = H1, D1
    if r.random() < 0.3:        # touching or stacked segments
        D2 = D1 + H1 + float(gen.pick(r, [0., 0., 3., 50.]))
    rb = float(r.uniform(0.04, 0.15))
    d = float(gen.pick(r, [rb, rb, 10**r.uniform(-0.5, 2.)]))
    return H1, D1, H2, D2, rb, d


def run(case, mon):
    import pygfunction as gt
    ht = gt.heat_transfer
    r = gen.rng(case)
    alpha = float(10**r.uniform(-6.3, -5.8))
    if case['kind'] == 'special':       # integral of the error function, exponential integral
        x = np.sort(10**r.uniform(-12., 3., 40))
        if r.random() < 0.3:
            x = 10**r.uniform(-1.5, 1., 40)
        u = x * np.where(r.random(40) < 0.5, -1., 1.)
        small = np.abs(u) < 1.5
        w = np.abs(u) + special.erfc(np.abs(u)) * -np.abs(u) + np.expm1(-u**2) / np.sqrt(np.pi)
        k = np.arange(60)
        c = (-1.)**k / (special.factorial(k) * (2 * k + 1) * (k + 1)) / np.sqrt(np.pi)
        w[small] = (u[small, None]**(2 * k + 2)) @ c
        mon.close('erfint', gt.utilities.erfint(u) / w, 1., rtol=1e-9, x=u)
        mon.close('erfint', [float(gt.utilities.erfint(float(v))) for v in u[:5]] / w[:5], 1., rtol=1e-9, x=u[:5])
        x = x[x < 600.]
        mon.close('exp1', gt.utilities.exp1(x) / special.exp1(x), 1., rtol=1e-3, x=x)
        mon.close('exp1', float(gt.utilities.exp1(float(x[0]))) / special.exp1(x[0]), 1., rtol=1e-3, x=x[0])
        mon.state('special', int(np.log10(x[0])))
        return
    if case['kind'] == 'max_terms':     # documented: at most 25 terms
        b = gt.boreholes.Borehole(100., 2., 0.07, 0., 0.)
        own = ref.fls(1e8, 1e-6, 0.07, 100., 2., 100., 2.)
        mon.close('accuracy.N', ht.finite_line_source(1e8, 1e-6, b, b, approximation=True, N=24), own, rtol=0.002)
        g = mon.accepts('accuracy.max-terms', lambda: ht.finite_line_source(1e8, 1e-6, b, b, approximation=True, N=25), N=25)
        if g is not None:
            mon.close('accuracy.max-terms.value', g, own, rtol=0.002)
        mon.state('max_terms')
    elif case['kind'] == 'vertical':
        H1, D1, H2, D2, rb, d = pair(r)
        t = float(10**r.uniform(3., 11.))
        info = dict(t=t, alpha=alpha, d=d, H1=H1, D1=D1, H2=H2, D2=D2)
        mon.state('vertical', int(np.log10(t)), d == rb, D2 == D1 + H1)
        b1 = gt.boreholes.Borehole(H1, D1, rb, 0., 0.)
        b2 = gt.boreholes.Borehole(H2, D2, rb, d if d > rb else 0., 0.)
        own = ref.fls(t, alpha, rb, H1, D1, H1, D1, img=False) * max(1., H1 / H2)
        if own < 1e-12:
            own = 1e-12
        want = [ref.fls(t, alpha, d, H1, D1, H2, D2, *p) for p in ((True, True), (True, False), (False, True))]
        base = dict(approximation=True)
        got = ht.finite_line_source(t, alpha, b1, b2, **base)
        mon.close('accuracy', got, want[0], rtol=0., atol=0.002 * own, **info)
        re = ht.finite_line_source(t, alpha, b1, b2, imgSource=False, **base)
        mon.close('accuracy', re, want[1], rtol=0., atol=0.002 * own, part='real', **info)
        im = ht.finite_line_source(t, alpha, b1, b2, reaSource=False, **base)
        # the image part is defined with its sign; the line-source forms of the
        # code return it as seen in the full solution
        mon.close('split', re + im, got, rtol=1e-9, atol=1e-12, scale=max(abs(re), abs(im)), **info)
        mon.close('accuracy', im, want[2], rtol=0., atol=0.002 * own, part='image', **info)
        for N, lim in ((1, 0.1), (3, 0.02), (5, 0.008), (24, 0.002)):
            g = ht.finite_line_source(t, alpha, b1, b2, N=N, **base)
            mon.close('accuracy.N', g, want[0], rtol=0., atol=lim * own, N=N, **info)
        # forms
        for kw, name in ((dict(N=10), 'default'), (dict(N=int(r.integers(1, 25))), 'N')):
            s = ht.finite_line_source(t, alpha, b1, b2, **base, **kw)
            L = ht.finite_line_source(t, alpha, [b1, b2], [b2, b1], **base, **kw)
            mon.close('form.list', L[0, 0], s, rtol=1e-9, atol=1e-11, **info)
            mon.close('form.list', L[1, 1], ht.finite_line_source(t, alpha, b2, b1, **base, **kw), rtol=1e-9, atol=1e-11, **info)
            v = ht.finite_line_source_vectorized(t, alpha, d, H1, D1, H2, D2, approximation=True, **kw)
            mon.close('form.vectorized', v, s, rtol=1e-9, atol=1e-11, **info)
            tt = np.array([t * 0.3, t, 5. * t])
            v = ht.finite_line_source(tt, alpha, b1, b2, **base, **kw)
            w = [ht.finite_line_source(float(x), alpha, b1, b2, **base, **kw) for x in tt]
            mon.close('form.times', v, w, rtol=1e-9, atol=1e-11, **info)
            v = ht.finite_line_source(tt, alpha, [b1, b2], [b2], **base, **kw)
            mon.close('form.times', v[0, 0], w, rtol=1e-9, atol=1e-11, **info)
            v = ht.finite_line_source_vectorized(tt, alpha, d, H1, D1, H2, D2, approximation=True, **kw)
            mon.close('form.times', v, w, rtol=1e-9, atol=1e-11, **info)
        if r.random() < 0.3:        # no sources: no response
            z = ht.finite_line_source(t, alpha, b1, b2, reaSource=False, imgSource=False, **base)
            mon.close('split', np.max(np.abs(z)), 0., rtol=0., atol=1e-300, **info)
    elif case['kind'] == 'inclined':
        from vp.props.c04 import pair as ipair, args
        kind = gen.pick(r, ['parallel', 'diverging', 'one_vertical', 'own', 'random'])
        p1, p2 = ipair(r, kind)
        t = float(10**r.uniform(5.5, 10.5))
        info = dict(p1=p1, p2=p2, alpha=alpha, t=t)
        mon.state('inclined', kind, int(np.log10(t)))
        b1, b2 = gen.boreholes([p1, p2])
        own = ref.fls(t, alpha, p1[2], p1[0], p1[1], p1[0], p1[1], img=False)
        M = 61
        want = ref.fls_inclined(t, alpha, *args(p1, p2))
        A = dict(approximation=True, M=M)
        got = ht.finite_line_source(t, alpha, b1, b2, **A)
        mon.close('accuracy.inclined', got, want, rtol=0., atol=0.002 * own, **info)
        re = ht.finite_line_source(t, alpha, b1, b2, imgSource=False, **A)
        im = ht.finite_line_source(t, alpha, b1, b2, reaSource=False, **A)
        mon.close('split', re + im, got, rtol=1e-9, atol=1e-12, scale=max(abs(re), abs(im)), **info)
        mon.close('accuracy.inclined', re, ref.fls_inclined(t, alpha, *args(p1, p2), img=False), rtol=0., atol=0.002 * own, part='real', **info)
        tt = np.array([t, 6. * t])
        w = [got, ht.finite_line_source(6. * t, alpha, b1, b2, **A)]
        mon.close('form.inclined', ht.finite_line_source(tt, alpha, b1, b2, **A), w, rtol=1e-9, atol=1e-11, **info)
        L = ht.finite_line_source(tt, alpha, [b1, b2], [b1, b2], **A)
        mon.close('form.inclined', L[1, 0], w, rtol=1e-9, atol=1e-11, **info)
        mon.close('form.inclined', L[0, 1], ht.finite_line_source(tt, alpha, b2, b1, **A), rtol=1e-9, atol=1e-11, **info)
        v = ht.finite_line_source_inclined_vectorized(tt, alpha, *args(p1, p2), M=M, approximation=True)
        mon.close('form.inclined', v, w, rtol=1e-9, atol=1e-11, **info)
        mon.close('form.inclined', ht.finite_line_source(t, alpha, [b1], [b2], reaSource=False, **A)[0, 0], im, rtol=1e-9, atol=1e-11, **info)
    else:
        Ns = [1, 2, 3, 4, 6, 8, 10, 13, 16, 20, 24]
        err = np.zeros(len(Ns))
        for k in range(100):
            H1, D1, H2, D2, rb, d = pair(r)
            t = float(10**r.uniform(4., 10.))
            own = max(ref.fls(t, alpha, rb, H1, D1, H1, D1, img=False) * max(1., H1 / H2), 1e-9)
            want = ref.fls(t, alpha, d, H1, D1, H2, D2)
            for j, N in enumerate(Ns):
                g = ht.finite_line_source_vectorized(t, alpha, d, H1, D1, H2, D2, approximation=True, N=N)
                err[j] = max(err[j], abs(float(g) - want) / own)
        mon.state('batch', case['i'])
        for j in range(1, len(Ns)):
            mon.check('no-worse-with-N', err[j] <= 1.5 * err[:j].min() + 1e-3, N=Ns[j], errors=err, Ns=Ns)
        # every number of terms converges to the same function (the error left is that of the exponential integral)
        gap = np.zeros(24)
        for k in range(20):
            H1, D1, H2, D2, rb, d = pair(r)
            dd = np.array([rb, d])
            t = float(10**r.uniform(4., 10.))
            g = [ht.finite_line_source_approximation(t, alpha, dd, H1, D1, H2, D2, N=N) for N in range(1, 25)]
            own = max(ref.fls(t, alpha, rb, H1, D1, H1, D1, img=False) * max(1., H1 / H2), 1e-9)
            gap = np.maximum(gap, np.max(np.abs(np.array(g) - g[-1]), axis=1) / own)
        for N in range(1, 24):
            mon.check('converges-with-N', gap[N - 1] <= GAP[min(N, len(GAP)) - 1], N=N, gap=gap)
