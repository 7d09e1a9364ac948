"""A network followed borehole by borehole, independently of networks.py."""
import numpy as np


def circuit_of(c):
    """Index of the circuit (rank of its inlet borehole among inlets) of each borehole."""
    ins = [i for i, v in enumerate(c) if v == -1]
    out = []
    for i in range(len(c)):
        k = i
        while c[k] != -1:
            k = c[k]
        out.append(ins.index(k))
    return ins, out


def flows(c, m):
    """Flow rate in each borehole for a total flow rate or flow rates per circuit."""
    ins, circ = circuit_of(c)
    m = np.atleast_1d(np.asarray(m, dtype=float))
    per = np.full(len(ins), m[0] / len(ins)) if len(m) == 1 else m
    return per, np.array([per[k] for k in circ])


def walk(c, m, T_in, outlet):
    """(T_in per borehole, T_out per borehole, mixed T_out).

    outlet(i, T_in, m_i): outlet temperature of borehole i alone.
    """
    n = len(c)
    per, mb = flows(c, m)
    rev = bool(np.all(per <= 0.) and np.any(per < 0.))
    if rev:
        up = [-1] * n
        for i, v in enumerate(c):
            if v != -1:
                up[v] = i
    else:
        up = list(c)
    Ti, To = [None] * n, [None] * n

    def solve(i):
        if To[i] is None:
            stack, k = [], i
            while k != -1 and To[k] is None:
                stack.append(k)
                k = up[k]
            for k in reversed(stack):
                Ti[k] = T_in if up[k] == -1 else To[up[k]]
                To[k] = float(outlet(k, Ti[k], mb[k]))
        return To[i]

    for i in range(n):
        solve(i)
    fed = set(v for v in up if v != -1)
    ends = [i for i in range(n) if i not in fed]
    w = np.array([abs(mb[i]) for i in ends])
    mix = float(np.dot(w, [To[i] for i in ends]) / np.sum(w))
    return np.array(Ti, dtype=float), np.array(To, dtype=float), mix


def resistance(c, m, cp, H_tot, outlet0):
    """Field resistance from the walk with all walls at 0 (outlet0(i, T_in, m_i))."""
    per, _ = flows(c, m)
    _, _, mix = walk(c, m, 1., outlet0)
    Q = np.sum(np.abs(per)) * cp * (mix - 1.)
    return -0.5 * H_tot * (1. + mix) / Q
