"""One borehole with its piping, wall and flow: generator shared by the borehole-level properties."""
import numpy as np

from . import gen, pipe_ref

FLOWS = ('forward', 'backward', 'blocked')      # blocked: negative flow, not reversible


def borehole(r, kind, flow='forward', stiff=None, nmax=6):
    """Plain data of one borehole-level situation."""
    H = float(np.round(10**r.uniform(1., 2.5), 2))
    rb = float(np.round(r.uniform(0.04, 0.15), 4))
    tilt = float(gen.pick(r, [0., 0., 0.3]))
    d = gen.pipe(r, kind, rb)
    if r.random() < 0.15:       # not symmetric: distinct places for all the legs
        if 'n' in d:
            d['pos'] = [[x * s, y * s] for (x, y), s in zip(d['pos'], r.uniform(0.97, 1.0, len(d['pos'])))]
            ok = all(np.hypot(*p) + d['r_out'] <= rb for p in d['pos']) and all(
                np.hypot(d['pos'][i][0] - d['pos'][j][0], d['pos'][i][1] - d['pos'][j][1]) >= 2 * d['r_out']
                for i in range(len(d['pos'])) for j in range(i))
            if not ok:
                d = gen.pipe(r, kind, rb)
    cp = float(np.round(r.uniform(2500., 4300.), 1))
    n = d['n'] if kind == 'independent' else 1
    m = 10**r.uniform(-1.3, 0.5, n)
    if kind == 'independent' and r.random() < 0.3:
        cp = [float(v) for v in np.round(r.uniform(2500., 4300., n), 1)]
    x = pipe_ref.stiffness(d, H, rb, m, cp)
    top = stiff or 7.
    if x > top:
        m = m * x / top
    if flow == 'mixed':
        sgn = r.choice([-1., 1.], n)
    else:
        sgn = np.full(n, 1. if flow == 'forward' else -1.)
    m = [float(v) for v in sgn * np.round(m, 5)]
    ns = int(r.integers(1, nmax + 1))
    q = gen.ratios(r, ns)
    Tb = [float(v) for v in np.round(r.uniform(-8., 25., ns), 3)]
    Ti = [float(v) for v in np.round(r.uniform(-10., 40., n), 3)]
    return dict(H=H, rb=rb, tilt=tilt, pipe=d, m=m if n > 1 else m[0], cp=cp, ns=ns, q=q, Tb=Tb,
                Ti=Ti if n > 1 else Ti[0], reversible=flow != 'blocked')


def build(s):
    b = gen.boreholes([[s['H'], 2., s['rb'], 0., 0., s['tilt'], 0.]])[0]
    return gen.build_pipe(s['pipe'], b, reversible=s['reversible'])


def args(s):
    """(T_in, m, cp, ratios) as given to the code."""
    m = np.array(s['m']) if isinstance(s['m'], list) else s['m']
    cp = np.array(s['cp']) if isinstance(s['cp'], list) else s['cp']
    Ti = np.array(s['Ti']) if isinstance(s['Ti'], list) else s['Ti']
    return Ti, m, cp, np.array(s['q'])


def edges(s):
    return np.concatenate([[0.], np.cumsum(s['q'])]) * s['H']


def reference(s, e=None, **kw):
    return pipe_ref.Reference(s['pipe'], s['H'], s['rb'], s['m'], s['cp'], edges(s) if e is None else e,
                              reversible=s['reversible'], **kw)
