"""C26: bore field generators, containers and files."""
import os

import numpy as np

from vp import gen

RULE = ('Every generator of Borefield (and its documented layout order) with random counts 1..7, spacings, tilt and '
        'origin against an independent layout; container operations (index, slice, mask, list, concatenation in all '
        'operand orders, comparison, conversion) and file round trips against a plain list model. Distinct by '
        '(generator/operation, counts, tilted, origin).')
ORACLES = ['layout.count', 'layout.position', 'layout.dimensions', 'layout.tilt', 'layout.orientation', 'index', 'slice',
           'concatenate', 'compare', 'convert', 'file', 'file.old-format', 'length', 'iterate', 'broadcast']
ASSUMPTIONS = ['files are written to a scratch directory of the check']
GEN = ['rectangle', 'staggered', 'dense', 'L', 'U', 'box', 'circle']


def cases(r, tier):
    n = 60 if tier == 'quick' else 1500
    return ([dict(kind=k, i=i) for k in GEN for i in range(n)]
            + [dict(kind=k, i=i) for k in ('container', 'file', 'construct') for i in range(2 * n)])


def layout(kind, N1, N2, B1, B2, last):
    """Documented order of positions, by naive enumeration."""
    P = []
    if kind == 'rectangle' or (kind in ('staggered', 'dense') and (N1 == 1 or N2 == 1)):
        return [(i * B1, j * B2) for j in range(N2) for i in range(N1)]
    if kind in ('staggered', 'dense'):
        for j in range(N2):
            odd = j % 2
            for i in range(N1 - (1 if odd and not last else 0)):
                P.append(((i + 0.5 * odd) * B1, j * B2))
        return P
    if kind == 'L':
        return [(i * B1, 0.) for i in range(N1)] + [(0., j * B2) for j in range(1, N2)]
    P = [(i * B1, 0.) for i in range(N1)]
    if kind == 'U':
        for j in range(1, N2):
            P.append((0., j * B2))
            if N1 > 1:
                P.append(((N1 - 1) * B1, j * B2))
        return P
    if kind == 'box':
        for j in range(1, N2 - 1):
            P.append((0., j * B2))
            if N1 > 1:
                P.append(((N1 - 1) * B1, j * B2))
        if N2 > 1:
            P += [(i * B1, (N2 - 1) * B2) for i in range(N1)]
        return P


def same_angle(a, b):
    return abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def key(b):
    return (b.H, b.D, b.r_b, b.x, b.y, b.tilt, b.orientation)


def run(case, mon):
    import pygfunction as gt
    BF, BH = gt.borefield.Borefield, gt.boreholes.Borehole
    r = gen.rng(case)
    kind = case['kind']
    H, D, rb = float(r.uniform(50, 200)), float(r.uniform(0, 5)), float(r.uniform(0.04, 0.12))
    if kind in GEN:
        N1, N2 = int(r.integers(1, 8)), int(r.integers(1, 8))
        B1, B2 = float(r.uniform(2, 10)), float(r.uniform(2, 10))
        tilt = float(gen.pick(r, [0., r.uniform(0.01, 0.7), r.uniform(0.01, 0.7)]))
        last = bool(r.random() < 0.5)
        R = float(r.uniform(3, 40))
        if kind == 'dense':
            B2 = B1 * np.sqrt(3) / 2 if N1 > 1 else B1
        pos = layout(kind, N1, N2, B1, B2, last) if kind != 'circle' else \
            [(R * np.cos(2 * np.pi * k / N1), R * np.sin(2 * np.pi * k / N1)) for k in range(N1)]
        origin = None
        u = r.random()
        if u < 0.3:
            origin = tuple(float(v) for v in r.uniform(-5, 30, 2))
        elif u < 0.55:      # on (or within the radius of) a borehole
            q = pos[int(r.integers(len(pos)))]
            e = float(gen.pick(r, [0., 0.5, 0.99, 1.01])) * rb
            origin = (float(q[0] + e), float(q[1]))
        kw = dict(tilt=tilt, origin=origin)
        if tilt == 0. and r.random() < 0.5:
            kw = {}
            origin = None
        if kind == 'rectangle':
            f = BF.rectangle_field(N1, N2, B1, B2, H, D, rb, **kw)
        elif kind == 'staggered':
            f = BF.staggered_rectangle_field(N1, N2, B1, B2, H, D, rb, last, **kw)
        elif kind == 'dense':
            f = BF.dense_rectangle_field(N1, N2, B1, H, D, rb, last, **kw)
        elif kind == 'circle':
            f = BF.circle_field(N1, R, H, D, rb, **kw)
        else:
            f = dict(L=BF.L_shaped_field, U=BF.U_shaped_field, box=BF.box_shaped_field)[kind](N1, N2, B1, B2, H, D, rb, **kw)
        info = dict(N1=N1, N2=N2, B1=B1, B2=B2, last=last, tilt=tilt, origin=origin)
        mon.state(kind, N1, N2, tilt > 0, origin is None, last)
        mon.check('layout.count', len(f) == len(pos) and f.nBoreholes == len(pos), got=len(f), want=len(pos), **info)
        bs = list(f)
        mon.close('layout.position', np.array([[b.x, b.y] for b in bs]), np.array(pos), rtol=0., atol=1e-9, **info)
        mon.check('layout.dimensions', all(b.H == H and b.D == D and b.r_b == rb for b in bs), **info)
        if origin is None:
            xs, ys = [p[0] for p in pos], [p[1] for p in pos]
            origin = (0., 0.) if kind == 'circle' else ((N1 - 1) / 2 * B1, (N2 - 1) / 2 * B2)
            if kind in ('staggered', 'dense') and N1 > 1 and N2 > 1:
                origin = ((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2)
        for b in bs:
            d = np.hypot(b.x - origin[0], b.y - origin[1])
            if abs(d - rb) < 1e-9:
                continue
            if tilt == 0. or d < rb:
                mon.check('layout.tilt', b.tilt == 0. and b.orientation == 0. and b.is_vertical(), b=repr(b), **info)
            else:
                mon.check('layout.tilt', b.tilt == tilt, b=repr(b), **info)
                mon.check('layout.orientation', same_angle(b.orientation, np.arctan2(b.y - origin[1], b.x - origin[0])) < 1e-9,
                          b=repr(b), **info)
        return
    n = int(r.integers(1, 9))
    fk = gen.pick(r, gen.FIELD_KINDS + gen.INCLINED_KINDS + ('inc_mixed_dims', 'inc_mixed_vertical'))
    f = gen.field(r, fk, max(n, 4))
    bs = gen.boreholes(f)
    keys = [key(b) for b in bs]
    n = len(bs)
    F = BF.from_boreholes(bs)

    def chk(oracle_, field, want, **kw):
        got = [key(b) for b in field]
        mon.check(oracle_, got == want, got=got[:6], want=want[:6], n=(len(got), len(want)), **kw)
    if kind == 'container':
        mon.state(kind, fk, n)
        mon.check('length', len(F) == n)
        chk('iterate', F, keys)
        chk('convert', F.to_boreholes(), keys)
        mon.check('convert', all(isinstance(b, BH) for b in F.to_boreholes()))
        chk('convert', BF.from_boreholes(F.to_boreholes()), keys)
        chk('convert', BF.from_boreholes(F), keys)
        chk('convert', BF.from_boreholes(bs[0]), keys[:1])
        for k in range(-n, n):
            b = F[k]
            mon.check('index', isinstance(b, BH) and key(b) == keys[k], k=k, got=key(b))
            b = F[np.int64(k)]
            mon.check('index', isinstance(b, BH) and key(b) == keys[k], k=k)
        for bad in (n, -n - 1, n + 5):
            mon.raises('index', lambda: F[bad], exc=IndexError, k=bad)
        for _ in range(4):
            a, c, s = int(r.integers(-n, n + 1)), int(r.integers(-n, n + 1)), int(gen.pick(r, [1, 1, 2, -1]))
            want = keys[a:c:s]
            if want:
                chk('slice', F[a:c:s], want, sl=(a, c, s))
                mon.check('slice', isinstance(F[a:c:s], BF))
        idx = [int(v) for v in r.integers(0, n, int(r.integers(1, 6)))]
        chk('slice', F[idx], [keys[i] for i in idx], idx=idx)
        chk('slice', F[np.array(idx)], [keys[i] for i in idx], idx=idx)
        mask = r.random(n) < 0.6
        if mask.any():
            chk('slice', F[mask], [k for k, m in zip(keys, mask) if m])
        g = gen.field(r, gen.pick(r, ['pair', 'inc_single', 'random', 'inc_random']), 4)
        cs = gen.boreholes(g)
        kc = [key(b) for b in cs]
        G = BF.from_boreholes(cs)
        for name, fn, want in (('F+G', lambda: F + G, keys + kc), ('F+list', lambda: F + cs, keys + kc),
                               ('list+F', lambda: cs + F, kc + keys), ('F+b', lambda: F + cs[0], keys + kc[:1]),
                               ('b+F', lambda: cs[0] + F, kc[:1] + keys), ('b+b', lambda: bs[0] + cs[0], keys[:1] + kc[:1]),
                               ('b+list', lambda: bs[0] + cs, keys[:1] + kc), ('list+b', lambda: cs + bs[0], kc + keys[:1]),
                               ('F+G+F', lambda: F + G + F, keys + kc + keys)):
            h = fn()
            mon.check('concatenate', isinstance(h, BF), name=name)
            chk('concatenate', h, want, name=name)
        chk('iterate', F, keys, note='operands unchanged')
        mon.raises('concatenate', lambda: F + 3, exc=TypeError)
        mon.raises('concatenate', lambda: 'a' + F, exc=TypeError)
        mon.raises('concatenate', lambda: bs[0] + 3, exc=TypeError)
        # comparison
        mon.check('compare', F == BF.from_boreholes(gen.boreholes(f)) and not (F != BF.from_boreholes(gen.boreholes(f))))
        mon.check('compare', F == bs and not (F != bs))
        if n == 1:
            mon.check('compare', F == bs[0])
        k, c = int(r.integers(n)), int(r.integers(7))
        f2 = [list(b) for b in f]
        if c == 6 and f2[k][5] == 0.:
            c = 5
        f2[k][c] += 0.05 * (1. + abs(f2[k][c]))
        G2 = BF.from_boreholes(gen.boreholes(f2))
        mon.check('compare', F != G2 and not (F == G2), changed=(k, c))
        mon.check('compare', not (F == F + cs[0]) and F != bs + cs)
        if n > 1 and keys[0][3:5] != keys[-1][3:5]:
            mon.check('compare', F != BF.from_boreholes(bs[::-1]))
    elif kind == 'file':
        path = os.path.join(os.environ['VP_TMP'], f'f{case["seed"]}-{os.getpid()}.txt')
        mon.state(kind, fk, n)
        F.to_file(path)
        chk('file', BF.from_file(path), keys)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            chk('file', gt.boreholes.field_from_file(path), keys)
        a = np.loadtxt(path, ndmin=2)
        mon.close('file', a, [[b.x, b.y, b.H, b.D, b.r_b, b.tilt, b.orientation] for b in bs], rtol=1e-12)
        a5 = [[b.x, b.y, b.H, b.D, b.r_b] for b in bs]
        np.savetxt(path, a5, delimiter='\t', fmt='%.17g')
        want = [(b.H, b.D, b.r_b, b.x, b.y, 0., 0.) for b in bs]
        chk('file.old-format', BF.from_file(path), want)
        os.remove(path)
    else:
        # arrays and scalars in any combination
        mon.state(kind, n)
        vals = [np.array([b[k] for b in f], dtype=float) for k in range(7)]
        args = []
        for k, v in enumerate(vals):
            if k not in (3, 4) and r.random() < 0.4:
                v = np.full(n, v[0])
                vals[k] = v
                v = float(v[0])
            elif r.random() < 0.3:
                v = list(v)
            args.append(v)
        want = []
        for k in range(n):
            t = vals[5][k]
            want.append((vals[0][k], vals[1][k], vals[2][k], vals[3][k], vals[4][k], t, vals[6][k] if abs(t) > 1e-6 else 0.))
        G = BF(args[0], args[1], args[2], args[3], args[4], tilt=args[5], orientation=args[6])
        chk('broadcast', G, want)
        mon.check('length', len(G) == n)
        chk('broadcast', BF(100., 2., 0.1, 0., vals[4]), [(100., 2., .1, 0., y, 0., 0.) for y in vals[4]])
        mon.raises('broadcast', lambda: BF(np.ones(n + 1) * 100., 2., .1, vals[3], vals[4]))
        if n > 2:
            mon.raises('broadcast', lambda: BF(100., 2., .1, vals[3][:-1], vals[4]))
