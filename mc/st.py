"""shared alphabet for spatio-temporal problems"""
import itertools
import numpy as np
from mc import alpha

def masks(n, lists=2):
    """JSON-able selections of range(n): every index list up to a length, every mask, slices, single and negative indices"""
    out = [None]
    for k in range(1, lists + 1):
        out += [["l", list(t)] for t in itertools.product(range(n), repeat=k)]
    out += [["b", list(t)] for t in itertools.product((0, 1), repeat=n) if any(t)]
    out += [["s", [None, None, -1]], ["s", [0, n, 2]], ["s", [n - 1, n, None]], ["l", [-1]], ["i", n - 1], ["i", 0]]
    out += [["B", [1] * n], ["B", [int(i == n - 1) for i in range(n)]], ["s", [n - 1, None, -2]], ["s", [n, 0, -2]] if n > 1 else ["s", [None, None, -3]]]
    if n > 1:
        out += [["B", [int(i > 0) for i in range(n)]], ["l", [-1, 0]], ["s", [1, None, None]], ["l", list(range(n))[::-1]], ["a", list(range(n)) + [0]]]
    return out

def big(n):
    """a selection of each kind for sizes whose masks cannot all be listed"""
    return [None, ["l", [n - 1]], ["l", [n - 1, 0, n // 2]], ["l", [0, 0, n - 1]], ["b", [int(i % 3 == 1) for i in range(n)]], ["b", [int(i != n // 2) for i in range(n)]],
            ["s", [None, None, -1]], ["s", [1, n - 1, 2]], ["i", n - 1], ["a", list(range(n))[::-1] + [0]], ["l", [-1, -n]],
            ["s", [n - 2, None, -2]], ["s", [n - 1, 1, -3]], ["s", [-2, -n, -2]], ["B", [int(i % 2 == 1) for i in range(n)]]] if n > 2 else masks(n, 1)

def mask(m):
    """(object to pass, index list it stands for)"""
    if m is None:
        return None
    k, v = m
    if k == "l":
        return list(v)
    if k == "a":
        return np.array(v)
    if k == "b":
        return np.array(v, bool)
    if k == "B":
        return [bool(x) for x in v]
    if k == "s":
        return slice(*v)
    return int(v)

def idx(m, n):
    if m is None:
        return list(range(n))
    k, v = m
    if k in "la":
        return [x % n for x in v]
    if k in "bB":
        return [i for i, x in enumerate(v) if x]
    if k == "s":
        return list(range(n))[slice(*v)]
    return [v % n]

def sensors(S, kind):
    if kind == 0:
        return np.arange(S) * 10.0 + 3
    if kind == 1:
        return (np.arange(S) * 10.0 + 3).reshape(-1, 1)
    return np.array([[7.0 * s + c * 0.5 + 1 for c in range(kind)] for s in range(S)])

def times(T):
    return 0.25 + 1.5 * np.arange(T)

def coded(n, S, T):
    """every entry says which sample, sensor and time it is"""
    return np.array([[[100.0 * i + 10 * s + t + 1 for t in range(T)] for s in range(S)] for i in range(n)])

def coded_meas(S, T):
    return np.array([[-(10.0 * s + t + 1) for t in range(T)] for s in range(S)])

def problem(lam, data, S, T, kind=2, meas=None, form=0, sd=None, domain=None, true=None, order="C"):
    """built by attribute assignment (form 0), mapping with 3-D data (1) or mapping with flat data (2)"""
    from mud.base import SpatioTemporalProblem
    flat = data.reshape(len(data), -1)
    if form == 0:
        P = SpatioTemporalProblem()
        if domain is not None:
            P.domain = domain
        P.lam = lam.copy(); P.sensors = sensors(S, kind); P.times = times(T); P.data = data.copy(order=order)
        if meas is not None:
            P.measurements = meas.copy(order=order)
        if sd is not None:
            P.std_dev = sd
        if true is not None:
            P.true_vals = true.copy()
        return P
    d = dict(lam=lam.copy(), sensors=sensors(S, kind), times=times(T), data=data.copy(order=order) if form == 1 else flat.copy(order=order))
    if meas is not None:
        d["measurements"] = meas.copy(order=order) if form == 1 else meas.reshape(-1, 1).copy()
    if sd is not None:
        d["std_dev"] = sd
    if domain is not None:
        d["domain"] = domain
    if true is not None:
        d["true_vals"] = true.ravel().copy()
    return SpatioTemporalProblem(d)
