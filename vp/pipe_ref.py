"""Steady fluid temperatures of one borehole, solved independently of pipes.py.

The legs exchange heat through a delta-circuit of conductances; the advection equations are advanced by matrix
exponentials over short sub-intervals and all the sub-interval ends are solved for at once (multiple shooting: no
eigenvalues, no closed forms, stable for any number of transfer units).
"""
import numpy as np
import scipy.linalg as sl


def delta_circuit(d, rb, R_fp=None, R_ff=None):
    """Conductances between legs (off-diagonal) and from each leg to the wall (diagonal)."""
    from pygfunction.pipes import thermal_resistances
    R_fp = d['R_fp'] if R_fp is None else R_fp
    pos = [tuple(p) for p in d['pos']]
    if d['kind'].startswith('coax'):
        R_ff = d['R_ff'] if R_ff is None else R_ff
        o = int(np.argmax(d['r_out']))
        R = thermal_resistances(pos, float(d['r_out'][o]), rb, d['k_s'], d['k_g'], R_fp, J=d['J'])[0]
        K = np.zeros((2, 2))
        K[o, o] = 1. / R[0, 0]
        K[0, 1] = K[1, 0] = 1. / R_ff
        return K
    R = thermal_resistances(pos, d['r_out'], rb, d['k_s'], d['k_g'], R_fp, J=d['J'])[0]
    Y = np.linalg.inv(R)            # q_i = sum_j Y_ij (T_j - T_b)
    K = -Y
    np.fill_diagonal(K, Y.sum(axis=1))
    return K


def circuits(d, m, cp, reversible=True):
    """[(mass flow per leg, cp, legs in order of flow: (down, up, down, up, ...))], in order of the inlets, and
    mixing weights of the ends (or None when each circuit has its own outlet)."""
    k = d['kind']
    n = 1 if k.startswith(('single', 'coax')) else d['n']
    m = np.atleast_1d(np.asarray(m, dtype=float))
    cp = np.atleast_1d(np.asarray(cp, dtype=float))
    out = []
    if k == 'independent':
        cp = np.full(n, cp[0]) if len(cp) == 1 else cp
        for i in range(n):
            rev = m[i] < 0. and reversible
            out.append((abs(m[i]), cp[i], [i + n, i] if rev else [i, i + n]))
        return out, None
    rev = m[0] < 0. and reversible
    if k.endswith('series'):
        order = [x for i in range(n) for x in (i, i + n)]
        return [(abs(m[0]), cp[0], order[::-1] if rev else order)], None
    for i in range(n):
        out.append((abs(m[0]) / n, cp[0], [i + n, i] if rev else [i, i + n]))
    return out, np.full(n, 1. / n)


class Reference:
    def __init__(self, d, H, rb, m, cp, edges, reversible=True, R_fp=None, R_ff=None, sub=None):
        """edges: ends of the wall segments from the head (0 ... H)."""
        self.d, self.H = d, H
        self.edges = np.asarray(edges, dtype=float)
        self.K = K = delta_circuit(d, rb, R_fp, R_ff)
        self.cir, self.mix = circuits(d, m, cp, reversible)
        N = len(K)
        self.N = N
        C = np.zeros(N)
        down = np.zeros(N, dtype=bool)
        for mi, ci, legs in self.cir:
            for a, leg in enumerate(legs):
                C[leg] = mi * ci * (1. if a % 2 == 0 else -1.)
        self.C = C
        off = K - np.diag(np.diag(K))
        A = off - np.diag(off.sum(axis=1) + np.diag(K))
        self.A = A / C[:, None]
        self.w = np.diag(K) / C
        self.stiff = float(np.max(np.abs(np.linalg.eigvals(self.A).real)) * H)
        # nodes: sub-interval ends, including all segment ends
        npc = sub or max(2, int(np.ceil(self.stiff)))
        nodes = [0.]
        seg = []
        for s in range(len(self.edges) - 1):
            a, b = self.edges[s], self.edges[s + 1]
            k = max(1, int(np.ceil(npc * (b - a) / H)))
            nodes += [float(v) for v in np.linspace(a, b, k + 1)[1:]]
            seg += [s] * k
        self.nodes, self.seg = np.array(nodes), seg

    def _step(self, h):
        """T(z+h) = P T(z) + p Tb ; integral of T over h = S T(z) + s Tb."""
        N = self.N
        M = np.zeros((2 * N + 1, 2 * N + 1))
        M[:N, :N] = self.A
        M[:N, 2 * N] = self.w
        M[N:2 * N, :N] = np.eye(N)
        E = sl.expm(M * h)
        return E[:N, :N], E[:N, 2 * N], E[N:2 * N, :N], E[N:2 * N, 2 * N]

    def solve(self, T_in, Tb):
        """Sets the solution for inlet temperatures T_in (scalar or one per circuit) and wall temperatures Tb."""
        Tb = np.atleast_1d(np.asarray(Tb, dtype=float))
        if len(Tb) == 1:
            Tb = np.full(len(self.edges) - 1, Tb[0])
        N, n = self.N, len(self.nodes)
        T_in = np.atleast_1d(np.asarray(T_in, dtype=float))
        M = np.zeros((n * N, n * N))
        b = np.zeros(n * N)
        row = 0
        self.steps = []
        for k in range(n - 1):
            st = self._step(self.nodes[k + 1] - self.nodes[k])
            self.steps.append(st)
            M[row:row + N, k * N:(k + 1) * N] = st[0]
            M[row:row + N, (k + 1) * N:(k + 2) * N] = -np.eye(N)
            b[row:row + N] = -st[1] * Tb[self.seg[k]]
            row += N
        last = (n - 1) * N
        for ic, (_, _, legs) in enumerate(self.cir):
            M[row, legs[0]] = 1.
            b[row] = T_in[ic] if len(T_in) > 1 else T_in[0]
            row += 1
            for a in range(len(legs) - 1):
                o = last if a % 2 == 0 else 0
                M[row, o + legs[a]] = 1.
                M[row, o + legs[a + 1]] = -1.
                row += 1
        assert row == n * N
        self.T = np.linalg.solve(M, b).reshape(n, N)
        self.Tb = Tb
        ends = np.array([self.T[0, legs[-1]] for _, _, legs in self.cir])
        self.T_out = ends if self.mix is None else np.array([ends @ self.mix])
        Qs = np.zeros(len(self.edges) - 1)
        Kw = np.diag(self.K)
        for k in range(n - 1):
            h = self.nodes[k + 1] - self.nodes[k]
            I = self.steps[k][2] @ self.T[k] + self.steps[k][3] * Tb[self.seg[k]]
            Qs[self.seg[k]] += np.sum(Kw * (Tb[self.seg[k]] * h - I))
        self.Q_b = Qs
        return self

    def at(self, z):
        k = int(np.clip(np.searchsorted(self.nodes, z, side='right') - 1, 0, len(self.nodes) - 2))
        P, p, _, _ = self._step(z - self.nodes[k])
        return P @ self.T[k] + p * self.Tb[self.seg[k]]


def stiffness(d, H, rb, m, cp):
    """Largest number of transfer units of an eigenmode over the borehole."""
    return Reference(d, H, rb, m, cp, [0., H]).stiff
