"""Independent reference mathematics: exact rational linear algebra, closed-form densities, kernel
density estimates and marginals. Nothing here imports mud or scipy.stats."""
import math
from fractions import Fraction as Fr
import numpy as np

# ---------------------------------------------------------------- exact linear algebra
def fr(M):
    """nested list / array -> list of lists of Fraction (floats are taken exactly)"""
    M = np.asarray(M, dtype=object)
    if M.ndim == 1:
        M = M.reshape(-1, 1)
    return [[Fr(x) if not isinstance(x, (np.generic,)) else Fr(x.item()) for x in row] for row in M]

def mul(A, B):
    m = len(B[0])
    return [[sum((a * B[k][j] for k, a in enumerate(row) if a), Fr(0)) for j in range(m)] for row in A]

def tr(A):
    return [list(r) for r in zip(*A)]

def add(A, B, s=1):
    return [[a + s * b for a, b in zip(x, y)] for x, y in zip(A, B)]

def scale(A, s):
    return [[a * s for a in r] for r in A]

def eye(n):
    return [[Fr(int(i == j)) for j in range(n)] for i in range(n)]

def rref(A):
    A = [list(r) for r in A]
    piv, r = [], 0
    for c in range(len(A[0])):
        p = next((i for i in range(r, len(A)) if A[i][c] != 0), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        d = A[r][c]
        A[r] = [x / d for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c] != 0:
                f = A[i][c]
                A[i] = [x - f * y for x, y in zip(A[i], A[r])]
        piv.append(c); r += 1
        if r == len(A):
            break
    return A, piv

def rank(A):
    return len(rref(A)[1])

def inv(A):
    n = len(A)
    R, piv = rref([list(r) + e for r, e in zip(A, eye(n))])
    if piv[:n] != list(range(n)):
        raise ZeroDivisionError("singular")
    return [r[n:] for r in R[:n]]

def pinv(A):
    """Moore-Penrose inverse by full-rank factorisation A = F G"""
    R, piv = rref(A)
    k = len(piv)
    if k == 0:
        return [[Fr(0)] * len(A) for _ in A[0]]
    F = [[row[c] for c in piv] for row in A]
    G = R[:k]
    Ft, Gt = tr(F), tr(G)
    return mul(mul(Gt, inv(mul(G, Gt))), mul(inv(mul(Ft, F)), Ft))

def fl(A):
    return np.array([[float(x) for x in r] for r in A])

# ---------------------------------------------------------------- densities
def norm_pdf(x, loc=0.0, scale=1.0):
    x = np.asarray(x, float)
    return np.exp(-0.5 * ((x - loc) / scale) ** 2) / (np.asarray(scale) * math.sqrt(2 * math.pi))

def norm_logpdf(x, loc=0.0, scale=1.0):
    x = np.asarray(x, float)
    return -0.5 * ((x - loc) / scale) ** 2 - np.log(scale) - 0.5 * math.log(2 * math.pi)

def unif_pdf(x, loc=0.0, scale=1.0):
    x = np.asarray(x, float)
    loc = np.asarray(loc, float); scale = np.asarray(scale, float)
    return np.where((x >= loc) & (x <= loc + scale), 1.0 / scale, 0.0)

class Dist:
    """plain description of a distribution; .pdf is the reference, .scipy() the object passed to mud"""
    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw
    def pdf(self, x):
        kw = {k: np.asarray(v, float) for k, v in self.kw.items()}
        return {"norm": norm_pdf, "unif": unif_pdf, "expon": expon_pdf, "tri": tri_pdf, "laplace": laplace_pdf,
                "logis": logis_pdf, "cauchy": cauchy_pdf}[self.kind](x, **kw)
    def logpdf(self, x):
        if self.kind == "norm":
            return norm_logpdf(x, **{k: np.asarray(v, float) for k, v in self.kw.items()})
        with np.errstate(divide="ignore"):
            return np.log(self.pdf(x))
    def joint(self, x):
        return self.pdf(np.atleast_2d(x)).prod(axis=1)
    def scipy(self):
        from scipy.stats import distributions as d
        if self.kind == "norm":
            return d.norm(**self.kw)
        if self.kind == "unif":
            return d.uniform(**self.kw)
        if self.kind == "expon":
            return d.expon(**self.kw)
        if self.kind in ("laplace", "logis", "cauchy"):
            return {"laplace": d.laplace, "logis": d.logistic, "cauchy": d.cauchy}[self.kind](**self.kw)
        return d.triang(0.5, **self.kw)

def expon_pdf(x, loc=0.0, scale=1.0):
    x = np.asarray(x, float)
    with np.errstate(over="ignore"):
        return np.where(x >= loc, np.exp(-(x - loc) / scale) / scale, 0.0)

def laplace_pdf(x, loc=0.0, scale=1.0):
    return np.exp(-np.abs(np.asarray(x, float) - loc) / scale) / (2 * scale)

def logis_pdf(x, loc=0.0, scale=1.0):
    e = np.exp(-np.abs(np.asarray(x, float) - loc) / scale)
    return e / (scale * (1 + e) ** 2)

def cauchy_pdf(x, loc=0.0, scale=1.0):
    t = (np.asarray(x, float) - loc) / scale
    return 1.0 / (np.pi * scale * (1 + t * t))

def tri_pdf(x, loc=0.0, scale=1.0):
    t = (np.asarray(x, float) - loc) / scale
    return np.where((t >= 0) & (t <= 1), np.where(t < 0.5, 4 * t, 4 * (1 - t)), 0.0) / scale

def bw_factor(bw, neff, d):
    if bw is None or bw == "scott":
        return neff ** (-1.0 / (d + 4))
    if bw == "silverman":
        return (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))
    return float(bw)

def kde(data, at, weights=None, bw=None):
    """data (n, d), at (m, d) -> (m,) weighted Gaussian kernel density estimate"""
    X = np.asarray(data, float); P = np.asarray(at, float)
    n, d = X.shape
    w = np.ones(n) if weights is None else np.asarray(weights, float)
    w = w / w.sum()
    f = bw_factor(bw, 1.0 / np.sum(w ** 2), d)
    mu = w @ X
    D = X - mu
    cov = (D * w[:, None]).T @ D / (1.0 - np.sum(w ** 2)) * f * f
    ic = np.linalg.inv(cov)
    nrm = 1.0 / math.sqrt((2 * math.pi) ** d * np.linalg.det(cov))
    out = np.zeros(len(P))
    for i in range(n):
        if w[i] != 0:
            e = P - X[i]
            out += w[i] * np.exp(-0.5 * np.einsum("ij,jk,ik->i", e, ic, e))
    return out * nrm

def kde_ok(data, weights=None, tol=1e-6):
    """is the estimate well defined (covariance regular)?"""
    X = np.asarray(data, float)
    w = np.ones(len(X)) if weights is None else np.asarray(weights, float)
    if w.sum() <= 0:
        return False
    w = w / w.sum()
    if 1.0 - np.sum(w ** 2) < 1e-9:
        return False
    D = X - w @ X
    cov = (D * w[:, None]).T @ D / (1.0 - np.sum(w ** 2))
    s = np.linalg.svd(cov, compute_uv=False)
    return bool(s[-1] > tol * max(s[0], 1e-300) and s[-1] > max(1e-200, 1e-24 * np.max(np.abs(X)) ** 2))

# ---------------------------------------------------------------- density problem model
def combine(weights, n):
    if weights is None:
        return np.ones(n)
    w = np.asarray(weights, float)
    return w if w.ndim == 1 else np.prod(w, axis=0)

def domain_of(X, pad):
    lo, hi = X.min(axis=0), X.max(axis=0)
    p = pad * (hi - lo)
    return np.array([lo - p, hi + p]).T

def density(X, y, w, init, obs, pred, domain):
    """reference updated density, ratio; init/obs/pred are pdf callables on (n,k) or None;
    pred may also be ('kde', bw)"""
    n = len(X)
    if init is None:
        lo, hi = np.min(domain, axis=1), np.max(domain, axis=1)
        iv = unif_pdf(X, lo, hi - lo).prod(axis=1)
    else:
        iv = init(X)
    ov = norm_pdf(y).prod(axis=1) if obs is None else obs(y)
    if pred is None or isinstance(pred, tuple):
        pv = kde(y, y, w, None if pred is None else pred[1])
    else:
        pv = pred(y)
    up = np.zeros(n); r = np.full(n, np.nan)
    for i in range(n):
        num = iv[i] * w[i] * ov[i]
        with np.errstate(all="ignore"):
            q = np.float64(ov[i]) / pv[i]
        if np.isfinite(q):
            r[i] = q
            up[i] = iv[i] * w[i] * q
        else:
            up[i] = 0.0 if num == 0 else np.inf
            r[i] = 0.0 if num == 0 else np.inf
    return dict(up=up, r=r, init=iv, obs=ov, pred=pv)

def argmax_set(v, rtol=1e-9):
    v = np.asarray(v, float)
    m = np.max(v)
    if np.isinf(m):
        return [i for i, x in enumerate(v) if x == m]
    return [i for i, x in enumerate(v) if x >= m - rtol * abs(m)]
