"""Shared alphabets: deterministic sample arrays, distributions, weights (all JSON-able descriptions)."""
import math
import numpy as np
from mc import ref

_IR = [math.sqrt(2), math.sqrt(3), math.sqrt(5), math.sqrt(7), math.sqrt(11), math.sqrt(13), math.sqrt(17)]

def seq(n, d, s=0):
    """n x d irrational-rotation points in (0,1): generic, no ties, no symmetry"""
    i = np.arange(1, n + 1)[:, None]
    a = np.array([_IR[(j + s) % len(_IR)] + s / 3.0 for j in range(d)])[None, :]
    return (i * a) % 1.0

def gen(n, d, s=0):
    """n x d deterministic points in (0,1) without linear structure"""
    i = np.arange(1, n + 1)[:, None]; j = np.arange(1, d + 1)[None, :]
    return np.abs(np.sin(i * 12.9898 + j * 78.233 + s * 3.7) * 43758.5453) % 1.0

def samples(n, p, k, variant):
    """parameter samples (n,p) and outputs (n,k)"""
    X = seq(n, p, 1); Y = 2.0 * seq(n, k, 3) - 1.0
    if variant == "ties":
        X[n // 2:] = X[: n - n // 2]
        Y[n // 2:, 0] = Y[: n - n // 2, 0]
    elif variant == "scaled":
        X = X * 10.0 ** (4 * np.arange(p) - 3) + 5.0 * np.arange(p)
        Y = Y * 3.0 ** np.arange(k) + 0.25
    elif variant == "neg":
        X = -1.0 - 2.0 * X
        Y = Y - 0.5
    elif variant == "far":
        Y[-1] = 1.0e3
    elif variant == "int":
        X = np.floor(7 * X); Y = np.floor(5 * seq(n, k, 3))
    return X, Y

def mkdist(spec, d=None):
    """spec: ['norm', loc, scale] with scalars or per-dimension lists"""
    kind, loc, scale = spec[0], spec[1], spec[2]
    loc = np.array(loc, float) if isinstance(loc, list) else loc
    scale = np.array(scale, float) if isinstance(scale, list) else scale
    return ref.Dist(kind, loc=loc, scale=scale)

def unit_spec(spec, e):
    """the same density in units 2^e times smaller"""
    if spec is None or spec[0] == "kde":
        return spec
    f = lambda v: [x * 2.0 ** e for x in v] if isinstance(v, list) else v * 2.0 ** e
    return [spec[0], f(spec[1]), f(spec[2])]

def init_alphabet(X, dom):
    p = X.shape[1]
    lo, hi = X.min(0), X.max(0)
    w = hi - lo + 1e-3
    md = np.median(X, axis=0)
    return [None,
            ["norm", (lo + 0.3 * w).tolist(), (w * (0.5 + 0.25 * np.arange(p))).tolist()],
            ["unif", (lo - 0.1 * w).tolist(), (md - lo + 0.1 * w + 1e-9 * w).tolist()],   # zero on the upper half
            ["expon", (lo - 0.01 * w).tolist(), (0.6 * w).tolist()],
            ["tri", (lo - 0.2 * w).tolist(), (1.4 * w).tolist()],
            ["norm", float(md.mean()), float(w.mean())]]

def obs_alphabet(Y):
    k = Y.shape[1]
    return [None,
            ["norm", (0.2 * np.arange(k) - 0.1).tolist(), (0.5 + 0.3 * np.arange(k)).tolist()],
            ["norm", 0.3, 0.7],
            ["unif", (np.sort(Y, axis=0)[0] - 0.05).tolist(), (np.sort(Y, axis=0)[max(1, len(Y) - 2)] - np.sort(Y, axis=0)[0] + 0.06).tolist()]]

def pred_alphabet(Y):
    k = Y.shape[1]
    lo, hi = Y.min(0), Y.max(0)
    return [None, ["kde", "scott"], ["kde", "silverman"], ["kde", 0.5], ["kde", ["call", 0.8]],
            ["norm", (0.1 * np.arange(k)).tolist(), (0.8 + 0.2 * np.arange(k)).tolist()],
            ["unif", (lo - 0.1).tolist(), (hi - lo + 0.2).tolist()],
            ["normkw", 0.1, 0.9]]

def obs_more(Y):
    """further observed densities (or likelihoods): other families, one-sided and peaked ones; any number of samples"""
    k = Y.shape[1]; j = np.arange(k); lo, hi = Y.min(0), Y.max(0)
    return [["laplace", (0.1 * (j % 5)).tolist(), (0.6 + 0.1 * (j % 4)).tolist()],
            ["expon", (lo - 0.2).tolist(), (0.7 + 0.2 * (j % 3)).tolist()],
            ["cauchy", 0.1, 0.8],
            ["tri", (lo - 0.6).tolist(), (hi - lo + 1.5).tolist()],
            ["logis", (0.05 * (j % 7)).tolist(), (0.4 + 0.1 * (j % 3)).tolist()],
            ["unif", (lo - 0.4).tolist(), (hi - lo + 0.7).tolist()],
            ["norm", (0.2 * (j % 6) - 0.1).tolist(), (0.8 + 0.05 * (j % 9)).tolist()]]

def pred_more(Y):
    k = Y.shape[1]; j = np.arange(k); lo, hi = Y.min(0), Y.max(0)
    return [["cauchy", (0.1 * (j % 3)).tolist(), (1.0 + 0.1 * (j % 4)).tolist()],
            ["laplace", 0.2, 1.1],
            ["norm", (0.1 * (j % 4)).tolist(), (1.0 + 0.2 * (j % 3)).tolist()],
            ["logis", (lo + 0.3).tolist(), 0.9],
            ["normkw", 0.1, 0.9],
            ["unif", (lo - 0.3).tolist(), (hi - lo + 0.8).tolist()]]

def domain_form(dom, v):
    """the same ranges: as they are, from high to low (all, or every other), nested lists, tuples"""
    if dom is None:
        return None
    d = dom.copy()
    if v in (1, 4, 5):
        d = d[:, ::-1].copy()
    if v == 2:
        d[::2] = d[::2, ::-1]
    return d.tolist() if v in (3, 5) else tuple(map(tuple, d.tolist())) if v == 4 else d

def weight_alphabet(n):
    one = [1.0] * n
    lin = [float(i + 1) for i in range(n)]
    z = [float(i % 3) for i in range(n)]           # zeros at 0, 3, ...
    zl = lin[:-1] + [0.0]
    alt = [0.5 if i % 2 else 2.0 for i in range(n)]
    return [None, lin, z, zl, [lin, alt], [alt, z, lin], [one], [v * 1e-6 for v in lin], [int(v) for v in lin],
            [1.0 + 0.02 * ((i * i) % 3) for i in range(n)], [2.0 - 1e-3 * (i % 4) for i in range(n)]]

class CallBW:
    def __init__(self, v):
        self.v = v
    def __call__(self, kde):
        return self.v

def set_pred(D, spec, via="set"):
    """apply a predicted-density spec through the public API; returns the reference pred argument"""
    if spec is None:
        if via == "set":
            D.set_predicted()
        return None
    if spec[0] == "kde":
        bw = CallBW(spec[1][1]) if isinstance(spec[1], list) else spec[1]
        if via == "fit":
            D.fit(bw_method=bw)
        else:
            D.set_predicted(bw_method=bw)
        return ("kde", spec[1][1] if isinstance(spec[1], list) else spec[1])
    if spec[0] == "normkw":
        from scipy.stats import distributions as d
        if via == "fit":
            D.fit(distribution=d.norm, loc=spec[1], scale=spec[2])
        else:
            D.set_predicted(d.norm, loc=spec[1], scale=spec[2])
        return mkdist(["norm", spec[1], spec[2]]).joint
    q = mkdist(spec)
    if via == "fit":
        D.fit(distribution=q.scipy())
    else:
        D.set_predicted(q.scipy())
    return q.joint

def ref_pred(spec):
    if spec is None:
        return None
    if spec[0] == "kde":
        return ("kde", spec[1][1] if isinstance(spec[1], list) else spec[1])
    if spec[0] == "normkw":
        return mkdist(["norm", spec[1], spec[2]]).joint
    return mkdist(spec).joint

def is_row(point, X, rows, rtol=1e-12):
    p = np.asarray(point)
    return p.shape == (X.shape[1],) and any(np.allclose(p, X[i], rtol=rtol, atol=0) for i in rows)

def updated_values(D):
    """the updated density per sample, if the implementation exposes it"""
    u = getattr(D, "_up", None)
    return None if u is None else np.asarray(u, float)

class Joint:
    """a normal density of several dependent outputs: scipy object for the code, own formula for the oracle"""
    def __init__(self, k, v, y=None):
        j = np.arange(k)
        self.mean = 0.1 * j - 0.2 * (v % 2)
        B = 0.3 * gen(k, k, v + 5) + np.diag(0.8 + 0.1 * j)
        self.cov = B @ B.T * (1 + v % 3)
    def scipy(self):
        from scipy.stats import multivariate_normal
        return multivariate_normal(self.mean, self.cov)
    def joint(self, y):
        z = np.asarray(y, float) - self.mean
        q = np.sum(z * np.linalg.solve(self.cov, z.T).T, axis=1)
        return np.exp(-0.5 * q) / np.sqrt((2 * np.pi) ** len(self.mean) * np.linalg.det(self.cov))
