"""shared alphabet and exact references for linear-Gaussian problems"""
import itertools
from fractions import Fraction as Fr
import numpy as np
from mc import ref, alpha

def maps(tier):
    """(d, p, entries): every map with entries from a small set, simplest shapes first"""
    small = (-1, 0, 1, 2)
    for d, p in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1)):
        for e in itertools.product(small, repeat=d * p):
            yield d, p, e
    for e in itertools.product(small, repeat=4):
        yield 2, 2, e
    big = (-1, 0, 1) if tier == "thorough" else (0, 1, -1)
    for d, p in ((2, 3), (3, 2)):
        for e in itertools.product(big, repeat=6):
            yield d, p, e
    for e in itertools.product((0, 1) if tier == "quick" else (-1, 0, 1), repeat=9):
        yield 3, 3, e

def big_maps(tier):
    """generic full-rank maps of larger sizes (exact reference is out of reach; double precision normal equations)"""
    for d, p in ((1, 4), (1, 5), (2, 5), (4, 4), (5, 2), (4, 6), (6, 4), (8, 3), (3, 8), (7, 7), (10, 10), (12, 5), (5, 12), (20, 33), (33, 20), (60, 12), (12, 60)):
        for s in range(2 if tier == "quick" else 6):
            yield d, p, s

def spd(kind, n):
    if kind == 0:
        return np.eye(n)
    if kind == 1:
        return np.eye(n) * 1.5 + 0.5 * np.ones((n, n)) + np.diag(np.arange(n) * 0.25)
    if kind == 2:
        return np.diag([2.0 ** (3 * ((i + 1) % 3) - 2) for i in range(n)])
    f = 0.25 if n <= 33 else 4.0 / n        # keeps the large ones well conditioned
    L = np.tril(np.array([[((3 * i + 5 * j) % 7 - 3) * f for j in range(n)] for i in range(n)])) + 1.5 * np.eye(n)
    return L @ L.T

def vec(kind, n):
    if kind == 0:
        return np.zeros((n, 1))
    if kind == 1:
        return np.array([[((2 * i + 1) % 5) * 0.5 - 0.75] for i in range(n)])
    return np.array([[(-1) ** i * (i + 1.0)] for i in range(n)])

# (b, y, mean, C, D, alpha): every setting differs from its default somewhere, alone and together
SET = [(0, 1, 0, 0, 0, 1.0), (1, 2, 1, 1, 1, 1.0), (0, 2, 1, 0, 0, 0.25), (1, 1, 2, 2, 2, 4.0), (2, 1, 1, 3, 3, 1.0), (1, 0, 1, 1, 0, 100.0)]

def settings(i, d, p):
    b, y, m, C, D, a = SET[i]
    return dict(b=vec(b, d), y=vec(y, d) + (0.25 if y else 0), mean=vec(m, p), C=spd(C, p), D=spd(D, d), alpha=a)

def matrix(case):
    if "e" in case:
        A = np.array(case["e"], float).reshape(case["d"], case["p"])
        if "r" in case:
            A = np.ldexp(A, np.add.outer(case["r"], case["k"]))
        return A
    A = 2 * alpha.gen(case["d"], case["p"], case["s"]) - 1
    k = min(A.shape)
    A[:k, :k] += 2.0 * np.eye(k)        # keeps every such map well conditioned
    return A

def scaled(tier, tall=False, cond=2.0 ** 13):
    """badly scaled full-row-rank maps (powers of two, so that the exact reference stays exact): every row and column
    scaling of every map with entries from a small set whose condition number stays below the bound"""
    n = 0
    for d, p, ent in ((1, 1, (-1, 2)), (1, 2, (-1, 1, 2)), (2, 2, (-1, 1, 2)), (2, 3, (1, -1))) + (((2, 1, (-1, 1, 2)), (3, 2, (1, -1))) if tall else ()):
        for e in itertools.product(ent, repeat=d * p):
            E = np.array(e, float).reshape(d, p)
            if np.linalg.matrix_rank(E) < min(d, p):
                continue
            for r in itertools.product((0, -10), repeat=d):
                for k in itertools.product((0, -7, 7), repeat=p):
                    if not any(r) and not any(k) or max(k) == min(k) == 7:
                        continue
                    A = np.ldexp(E, np.add.outer(r, k))
                    if np.linalg.cond(A) > cond:
                        continue
                    n += 1
                    if tier == "quick" and d * p > 3 and n % 3:
                        continue
                    yield dict(d=d, p=p, e=list(e), r=list(r), k=list(k), i=n % 6)

def all_cases(tier, nset=6, tall=False, cond=2.0 ** 13):
    n = 0
    for d, p, e in maps(tier):
        n += 1
        for i in range(nset):
            if tier == "quick" and d * p >= 6 and i != n % nset and i != (n // nset) % nset:
                continue
            yield dict(d=d, p=p, e=list(e), i=i)
    for d, p, s in big_maps(tier):
        for i in range(nset):
            yield dict(d=d, p=p, s=s, i=i)
    yield from scaled(tier, tall, cond)

class Exact:
    """exact solutions (Fractions) of one linear-Gaussian problem"""
    def __init__(self, A, s):
        self.A = ref.fr(A); self.s = s
        f = ref.fr
        self.b, self.y, self.m, self.C, self.D = f(s["b"]), f(s["y"]), f(s["mean"]), f(s["C"]), f(s["D"])
        self.a = Fr(s["alpha"])
        self.At = ref.tr(self.A)
        self.z = ref.add(ref.add(self.y, self.b, -1), ref.mul(self.A, self.m), -1)
        self.rank = ref.rank(self.A) if any(any(r) for r in self.A) else 0
    def pred(self, alpha=True):
        P = ref.mul(ref.mul(self.A, self.C), self.At)
        return ref.scale(P, self.a) if alpha else P
    def mud(self):
        K = ref.mul(ref.mul(self.C, self.At), ref.pinv(self.pred(False)))
        return ref.add(self.m, ref.mul(K, self.z))
    def map(self):
        aC = ref.scale(self.C, self.a)
        Di = ref.inv(self.D)
        AtD = ref.mul(self.At, Di)
        S = ref.inv(ref.add(ref.mul(AtD, self.A), ref.inv(aC)))
        return ref.add(self.m, ref.mul(ref.mul(S, AtD), self.z)), S
    def ls(self):
        return ref.mul(ref.pinv(self.A), ref.add(self.y, self.b, -1))
    def updated(self, alpha=True):
        aC = ref.scale(self.C, self.a) if alpha else self.C
        P = ref.mul(ref.mul(self.A, aC), self.At)
        K = ref.mul(ref.mul(aC, self.At), ref.pinv(P))
        return ref.add(aC, ref.mul(ref.mul(K, ref.add(P, self.D, -1)), ref.tr(K)), -1)

class Approx:
    """double-precision reference for larger full-rank maps: solves, not pseudo-inverses"""
    def __init__(self, A, s):
        self.A, self.s = A, s
        self.C, self.D, self.a = s["C"], s["D"], s["alpha"]
        self.z = s["y"] - s["b"] - A @ s["mean"]
        self.rank = min(A.shape)
        self.L = np.linalg.cholesky(self.C)
    def mud(self):
        return self.s["mean"] + self.L @ np.linalg.lstsq((self.A @ self.L), self._proj(), rcond=None)[0]
    def _proj(self):
        # (A C A^T)^+ : minimum-norm solution of M M^T u = z with M = A L
        M = self.A @ self.L
        if M.shape[0] <= M.shape[1]:
            return self.z
        u, *_ = np.linalg.lstsq(M @ M.T, self.z, rcond=1e-12)
        return M @ (M.T @ u)
    def map(self):
        aC = self.a * self.C
        S = aC - aC @ self.A.T @ np.linalg.solve(self.A @ aC @ self.A.T + self.D, self.A @ aC)
        x = self.s["mean"] + aC @ self.A.T @ np.linalg.solve(self.A @ aC @ self.A.T + self.D, self.z)
        return x, S
    def ls(self):
        return np.linalg.lstsq(self.A, self.s["y"] - self.s["b"], rcond=None)[0]
    def updated(self, alpha=True):
        aC = self.a * self.C if alpha else self.C
        P = self.A @ aC @ self.A.T
        if self.A.shape[0] <= self.A.shape[1]:
            K = np.linalg.solve(P, self.A @ aC).T
        else:
            K = aC @ self.A.T @ np.linalg.pinv(P, rcond=1e-11)
        return aC - K @ (P - self.D) @ K.T

def reference(case, A, s):
    return Exact(A, s) if "e" in case else Approx(A, s)

def F(x):
    return ref.fl(x) if isinstance(x, list) else np.asarray(x)

def scale_of(*arrs):
    return max([1.0] + [float(np.max(np.abs(a))) for a in arrs if np.size(a)])

def layouts(A, s, j):
    """the same problem as a user may write it: columns, flat vectors, lists, integer arrays"""
    col = dict(A=A.copy(), b=s["b"].copy(), y=s["y"].copy(), mean=s["mean"].copy(), C=s["C"].copy(), D=s["D"].copy())
    if j == 1:
        col.update({k: col[k].ravel() for k in ("b", "y", "mean")})
    if j == 2:
        col.update({k: col[k].ravel().tolist() for k in ("b", "y", "mean")}); col["A"] = col["A"].tolist(); col["C"] = col["C"].tolist(); col["D"] = col["D"].tolist()
    if j == 3:
        col["A"] = col["A"].astype(int) if np.all(A == np.floor(A)) else col["A"]
    return col

def build(A, s, j=0, **over):
    from mud.base import LinearGaussianProblem
    a = layouts(A, s, j)
    kw = dict(b=a["b"], y=a["y"], mean_i=a["mean"], cov_i=a["C"], cov_o=a["D"], alpha=s["alpha"])
    kw.update(over)
    return LinearGaussianProblem(a["A"], **kw)

# ---- the same problem in other units (exact powers of two): parameters times 2^u, outputs times 2^v ----
UMAPS = [(1, 1, [2]), (1, 2, [1, 2]), (2, 1, [1, -1]), (2, 2, [1, 2, -1, 1]), (2, 2, [1, 2, 2, 4]), (2, 3, [1, 0, -1, 1, 1, 0]), (3, 2, [1, 0, 0, 1, 1, -1]), (3, 3, [1, 0, 0, 0, 1, 1, 0, 0, 1]), (3, 3, [1, 1, 0, 0, 1, 1, 1, 2, 1]),
         (2, 2, [0, 0, 0, 0])]

def unit_cases(tier):
    e = (-60, -27, 0, 27, 60) if tier == "thorough" else (-45, 0, 45)
    for k, (d, p, m) in enumerate(UMAPS):
        for i in range(6):
            for u in e:
                for v in e:
                    if u or v:
                        yield dict(unit=[u, v], d=d, p=p, e=m, i=i)

def in_units(A, s, u, v):
    ld = np.ldexp
    return ld(A, v - u), dict(b=ld(s["b"], v), y=ld(s["y"], v), mean=ld(s["mean"], u), C=ld(s["C"], 2 * u), D=ld(s["D"], 2 * v), alpha=s["alpha"])

def unit_run(case, c, which):
    """the answers in other units are the answers, in other units"""
    from mud.funs import mud_sol, mud_sol_with_cov, map_sol, map_sol_with_cov, updated_cov
    u, v = case["unit"]
    A = matrix(case); s = settings(case["i"], case["d"], case["p"]); R = Exact(A, s)
    B, t = in_units(A, s, u, v)
    P = build(B, t, case["i"] % 3)
    a = layouts(B, t, 0); col = dict(y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"])
    full = R.rank == case["d"]
    pt = lambda x: np.ldexp(np.asarray(x, float), -u)
    cv = lambda x: np.ldexp(np.asarray(x, float), -2 * u)
    name = f"in units 2^{u}, 2^{v}"
    x, S = (F(w) for w in R.map())
    if which == "mud":
        w = F(R.mud()); kw = dict(rtol=1e-6, atol=1e-7 * scale_of(w, s["y"]))
        c.close(pt(P.solve("mud")), w, f"MUD point {name}", **kw); c.close(pt(P.solve("all")[0]), w, f"MUD point of all {name}", **kw)
        c.close(pt(mud_sol(B, a["b"], **col)), w, f"mud_sol {name}", **kw)
    if which == "map":
        kw = dict(rtol=1e-6, atol=1e-7 * scale_of(x, s["y"])); ks = dict(rtol=1e-6, atol=1e-8 * scale_of(S))
        c.close(pt(P.solve("map")), x, f"MAP point {name}", **kw); c.close(pt(P.solve("all")[1]), x, f"MAP point of all {name}", **kw)
        q, T = map_sol_with_cov(B, a["b"], w=s["alpha"], **col)
        c.close(pt(q), x, f"map_sol_with_cov {name}", **kw); c.close(cv(T), S, f"posterior covariance {name}", **ks)
        c.close(pt(map_sol(B, a["b"], w=s["alpha"], **col)), x, f"map_sol {name}", **kw)
    if which == "ls":
        w = F(R.ls()); kw = dict(rtol=1e-6, atol=1e-7 * scale_of(w, s["y"]))
        c.close(pt(P.solve("ls")), w, f"least-squares point {name}", **kw); c.close(pt(P.solve("all")[2]), w, f"least-squares point of all {name}", **kw)
    if which == "cov":
        w = F(R.updated(False)); wa = F(R.updated(True)); ks = dict(rtol=1e-6, atol=1e-7 * scale_of(w, wa))
        c.close(cv(P.updated_cov()), w, f"updated covariance {name}", **ks)
        c.close(cv(P.updated_cov(init_cov=s["alpha"] * t["C"])), wa, f"updated covariance with an initial covariance {name}", **ks)
        c.close(cv(updated_cov(B, t["C"], t["D"])), w, f"function updated covariance {name}", **ks)
        q, T = mud_sol_with_cov(B, a["b"], **col)
        c.close(cv(T), w, f"covariance of mud_sol_with_cov {name}", **ks)
        if full:
            m = F(R.mud()); kw = dict(rtol=1e-6, atol=1e-6 * scale_of(m, s["y"]))
            c.close(pt(q), m, f"mud_sol_with_cov {name}", **kw); c.close(pt(P.solve("mud_alt")), m, f"alternative MUD formula {name}", **kw)
    if which == "fun":
        n = 4
        X = 4 * alpha.gen(n, case["p"], 2) - 2
        q = lambda Z, M: np.einsum("ij,ij->j", Z, np.linalg.solve(M, Z))
        dev = X.T - s["mean"]; aC = s["alpha"] * s["C"]
        data, reg = q(A @ X.T + s["b"] - s["y"], s["D"]), q(dev, aC)
        Y = np.ldexp(X, u); kw = dict(rtol=1e-6, atol=1e-7 * scale_of(data, reg))
        for k, w in dict(data=data, reg=reg, bayes=data + reg).items():
            c.close(P.compute_functionals(Y, terms=k), w, f"functional {k} {name}", **kw)
        if full:
            dc = q(A @ dev, A @ aC @ A.T)
            for k, w in dict(dc_term=dc, dc=data + reg - dc).items():
                c.close(P.compute_functionals(Y, terms=k), w, f"functional {k} {name}", **dict(kw, atol=1e-6 * scale_of(data, reg, dc)))
    c.outcome(which, u, v)

# ---- rank-deficient maps whose deficiency holds only up to rounding (products of orthonormal factors) ----
def lowrank_cases(tier, alphas=(0,)):
    for d, p, r in ((2, 2, 1), (3, 3, 1), (3, 3, 2), (2, 3, 1), (3, 2, 1), (4, 4, 2), (5, 3, 2), (3, 5, 1), (8, 8, 5), (10, 6, 3), (6, 10, 5), (12, 12, 11), (30, 30, 7)):
        for s in range(6 if tier == "quick" else 24):
            for a in alphas:
                yield dict(low=[d, p, r], s=s, i=s % 6, **(dict(a=a) if a else {}))

def lowrank(case):
    d, p, r = case["low"]; s = case["s"]
    U = np.linalg.qr(2 * alpha.gen(d, d, s) - 1)[0][:, :r]; V = np.linalg.qr(2 * alpha.gen(p, p, s + 7) - 1)[0][:, :r]
    sv = np.linspace(2.0, 1.0, r)
    return (U * sv) @ V.T, U, sv, V

def lowrank_run(case, c, which):
    from mud.funs import mud_sol, updated_cov
    d, p, r = case["low"]
    A, U, sv, V = lowrank(case); st = settings(case["i"], d, p); st["alpha"] *= 2.0 ** case.get("a", 0)
    P = build(A, st, case["s"] % 3)
    C = st["alpha"] * st["C"]; z = st["y"] - st["b"]
    K = C @ V @ np.linalg.solve(V.T @ C @ V, (U / sv).T)             # C A^T (A C A^T)^+
    if which == "mud":
        w = st["mean"] + K @ (z - A @ st["mean"]); kw = dict(rtol=1e-5, atol=1e-5 * scale_of(w, z))
        c.close(P.solve("mud"), w, f"MUD point of a map of rank {r}", **kw)
        if "a" not in case:
            c.close(P.solve("all")[0], w, f"MUD point of all, map of rank {r}", **kw)
        a = layouts(A, st, 0)
        c.close(mud_sol(a["A"], a["b"], y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"]), w, f"mud_sol of a map of rank {r}", **kw)
    if which == "ls":
        w = (V / sv) @ U.T @ z; kw = dict(rtol=1e-6, atol=1e-7 * scale_of(w, z))
        c.close(P.solve("ls"), w, f"least-squares point of a map of rank {r}", **kw); c.close(P.solve("all")[2], w, f"least-squares point of all, map of rank {r}", **kw)
    if which == "cov":
        for Ci, al, got in ((st["C"], 1.0, lambda: P.updated_cov()), (C, 1.0, lambda: P.updated_cov(init_cov=C)), (st["C"], 1.0, lambda: updated_cov(A, st["C"], st["D"]))):
            K = Ci @ V @ np.linalg.solve(V.T @ Ci @ V, (U / sv).T)
            w = Ci - K @ (A @ Ci @ A.T - st["D"]) @ K.T
            c.close(got(), w, f"updated covariance of a map of rank {r}", rtol=1e-5, atol=1e-5 * scale_of(w))

# ---- variances and sensitivities many orders of magnitude apart, arranged so that nothing is lost to rounding:
# maps with orthogonal rows scaled per row (r), or diagonal initial (C) / data (D) covariances ----
STEEP = [(2, 2, [1, 0, 0, 1]), (2, 2, [0, 2, -1, 0]), (2, 2, [1, 1, 1, -1]), (2, 3, [1, 0, 0, 0, 1, 0]), (2, 3, [1, 1, 1, 1, -1, 0]), (3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1]),
         (3, 3, [0, 1, 0, 0, 0, 2, -1, 0, 0]), (2, 4, [1, 1, 1, 1, 1, -1, 1, -1])]

def steep_cases(tier, kinds="rCD", alphas=(0,), far=""):
    sm = (0, -10, -20)
    for d, p, e in STEEP:
        diag = all(sum(1 for v in e[i * p:(i + 1) * p] if v) == 1 for i in range(d))
        for kind in kinds:
            if kind == "C" and not diag:
                continue
            n = p if kind == "C" else d
            for x in itertools.product(sm if kind == "r" else (0, 20, -20), repeat=n):
                if len(set(x)) > 1 and (tier == "thorough" or n < 3 or 0 in x):
                    for near in (0, 1):
                        for a in alphas if kind != "D" else (0,):
                            yield dict(steep=kind, d=d, p=p, e=e, x=list(x), near=near, **(dict(a=a) if a else {}))
            if diag and kind in far:         # everything is exact here, however far apart
                for x in itertools.product((0, 65, -70), repeat=n):
                    if len(set(x)) > 1 and (tier == "thorough" or n < 3 or 0 in x):
                        yield dict(steep=kind, d=d, p=p, e=e, x=list(x), near=0, far=1)

def steep(case):
    d, p, x = case["d"], case["p"], case["x"]
    A = np.array(case["e"], float).reshape(d, p)
    s = dict(b=vec(1, d), y=vec(2, d) + 0.25, mean=vec(1, p), C=np.eye(p), D=np.eye(d), alpha=1.0)
    s["alpha"] = 2.0 ** case.get("a", 0)
    if case["steep"] == "r":
        A = np.ldexp(A, np.array(x)[:, None])
        if case["near"]:         # data in the units of their outputs
            s["y"] = np.ldexp(s["y"], np.array(x)[:, None]); s["b"] = np.ldexp(s["b"], np.array(x)[:, None])
    else:
        s[case["steep"]] = np.diag(np.ldexp(1.0, x))
        if case["near"] and case["steep"] == "C":
            A = 2 * A
    return A, s

def steep_run(case, c, which):
    from mud.funs import mud_sol, mud_sol_with_cov, map_sol, map_sol_with_cov, updated_cov
    A, s = steep(case); R = Exact(A, s); P = build(A, s, case["near"]); kind = case["steep"]
    a = layouts(A, s, 0); col = dict(y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"])
    name = f"with {dict(r='row scales', C='initial variances', D='data variances')[kind]} 2^{case['x']}"
    def cmp(got, w, what, entry=1e-7):
        got = np.asarray(got, float); w = np.asarray(w, float)
        c.close(got, w, f"{what} {name}", rtol=entry, atol=1e-8 * float(np.max(np.abs(w))) if kind == "r" else 1e-9)
    if which == "mud":
        w = F(R.mud())
        cmp(P.solve("mud"), w, "MUD point"); cmp(mud_sol(A, a["b"], **col), w, "mud_sol")
        if "a" not in case:                 # the other solutions need not exist in double precision
            cmp(P.solve("all")[0], w, "MUD point of all")
    if which == "ls":
        w = F(R.ls())
        cmp(P.solve("ls"), w, "least-squares point"); cmp(P.solve("all")[2], w, "least-squares point of all")
    if which == "map":
        x, S = (F(w) for w in R.map())
        at = 0 if "far" in case else (1e-5 if kind == "D" else 1e-9) * scale_of(x)       # the formula adds precisions of very different size
        for got, what in ((P.solve("map"), "MAP point"), (P.solve("all")[1], "MAP point of all"), (map_sol(A, a["b"], **col), "map_sol"), (map_sol_with_cov(A, a["b"], **col)[0], "map_sol_with_cov")):
            c.close(got, x, f"{what} {name}", rtol=1e-6, atol=at)
        c.close(map_sol_with_cov(A, a["b"], **col)[1], S, f"posterior covariance {name}", rtol=1e-6, atol=at * scale_of(S))
    if which == "cov":
        w = F(R.updated(True)); ks = dict(rtol=1e-6, atol=1e-8 * scale_of(w))
        for got in (P.updated_cov(), updated_cov(A, a["C"], a["D"]), mud_sol_with_cov(A, a["b"], **col)[1]):
            c.close(got, w, f"updated covariance {name}", **ks)
        m = F(R.mud()); z = s["y"] - s["b"] - A @ s["mean"]       # these formulas cancel the updated covariance against the data covariance
        km = dict(rtol=1e-6, atol=1e-7 * scale_of(m) + 1e-14 * scale_of(w) * scale_of(A) * scale_of(z) * scale_of(np.linalg.inv(s["D"])))
        c.close(mud_sol_with_cov(A, a["b"], **col)[0], m, f"mud_sol_with_cov {name}", **km); c.close(P.solve("mud_alt"), m, f"alternative MUD formula {name}", **km)
    if which == "fun":
        from mud import norm as N
        X = 4 * alpha.gen(5, case["p"], 2) - 2
        def q(Z, M):
            Z, M = ref.fr(Z), ref.fr(M); Mi = ref.inv(M)
            return np.array([float(sum(Z[i][j] * Mi[i][k] * Z[k][j] for i in range(len(Z)) for k in range(len(Z)))) for j in range(len(Z[0]))])
        dev = X.T - s["mean"]
        data, reg, dc = q(A @ X.T + s["b"] - s["y"], s["D"]), q(dev, s["C"]), q(A @ dev, A @ s["C"] @ A.T)
        for k, w in dict(data=data, reg=reg, bayes=data + reg, dc_term=dc, dc=data + reg - dc).items():
            if "far" in case and (kind == "C" and k in ("dc", "dc_term")):
                continue                    # beyond what a pseudo-inverse of the predicted covariance resolves
            c.close(P.compute_functionals(X, terms=k), w, f"functional {k} {name}", rtol=1e-6, atol=1e-8 * scale_of(data, reg, dc) if k == "dc" else 0 if "far" in case else 1e-9)
        c.close(N.inner_product(dev, s["C"]), reg, f"inner_product {name}", rtol=1e-8)
        c.close(N.norm_data(A, X, s["b"], s["y"], s["D"]), data, f"norm_data {name}", rtol=1e-8)
        if "far" not in case or kind != "C":
            c.close(N.norm_predicted(A, X, s["mean"], s["C"]), dc, f"norm_predicted {name}", rtol=1e-7)
    c.outcome(which, kind, case["d"], case["p"])

# ---- maps U diag(2^-k) V^T with orthonormal factors: sensitivities spread over several orders, of every size ----
def graded_cases(tier):
    for d, p in ((1, 2), (2, 2), (3, 4), (5, 5), (10, 12), (24, 30), (32, 32), (32, 40), (48, 48), (60, 70), (4, 3), (12, 10), (40, 32), (70, 60), (100, 12), (12, 100), (120, 120)):
        for top in (0, 5, 10, 18):
            for i in range(3 if tier == "quick" else 6):
                yield dict(graded=[d, p], top=top, i=i)

def graded_run(case, c, which):
    from mud.funs import mud_sol, mud_sol_with_cov, map_sol, map_sol_with_cov, updated_cov
    d, p = case["graded"]; top = case["top"]; i = case["i"]; r = min(d, p)
    if which in ("mud", "cov", "fun") and (d > p or top > 10):
        return                    # these formulas square the condition number
    U = np.linalg.qr(2 * alpha.gen(d, d, i) - 1)[0][:, :r]; V = np.linalg.qr(2 * alpha.gen(p, p, i + 7) - 1)[0][:, :r]
    sv = 2.0 ** -np.linspace(0, top, r)
    A = (U * sv) @ V.T
    y = A @ (1 + alpha.gen(p, 1, 3)) + (0.5 if d > p else 0.0); b = alpha.gen(d, 1, 4) if i % 2 else np.zeros((d, 1)); y = y + b
    m = alpha.gen(p, 1, 5) if i else np.zeros((p, 1))
    s = dict(b=b, y=y, mean=m, C=np.eye(p), D=np.eye(d), alpha=1.0)
    z = y - b - A @ m; name = f"of a {d}x{p} map of singular values 1 to 2^-{top}"
    P = build(A, s, 0); col = dict(y=y, mean=m, cov=s["C"], data_cov=s["D"])
    K = (V / sv) @ U.T
    if which == "mud":
        w = m + K @ z; kw = dict(rtol=1e-5, atol=1e-13 * 4.0 ** top * d + 1e-9)
        for got in (P.solve("mud"), mud_sol(A, b, **col)):
            c.close(got, w, f"MUD point {name}", **kw)
        c.close(A @ P.solve("mud") + b, y, f"data at the MUD point {name}", rtol=1e-7, atol=1e-9 + 1e-15 * 4.0 ** top * d)
    if which == "ls":
        w = K @ (y - b)
        for got in (P.solve("ls"), P.solve("all")[2]):
            c.close(got, w, f"least-squares point {name}", rtol=1e-6, atol=1e-13 * 2.0 ** top * d + 1e-9)
    if which == "map":
        sc = 2.0 ** (5 if i == 1 else 0)
        g = sv / (sv ** 2 + 1); w = m + (V * g) @ U.T @ z
        for got in (P.solve("map"), map_sol(A, b, **col), map_sol_with_cov(A, b, **col)[0]):
            c.close(got, w, f"MAP point {name}", rtol=1e-7, atol=1e-9)
        c.close(map_sol_with_cov(A, b, **col)[1], np.eye(p) - (V * (sv * g)) @ V.T, f"posterior covariance {name}", rtol=1e-7, atol=1e-9)
        # correlated data errors
        D = 0.25 * np.eye(d) + np.ones((d, d)); Di = 4 * np.eye(d) - 4 * np.ones((d, d)) / (d + 0.25)
        S = np.linalg.inv(A.T @ Di @ A + np.eye(p)); w = m + S @ A.T @ Di @ z
        c.close(build(A, dict(s, D=D), 0).solve("map"), w, f"MAP point with correlated data errors {name}", rtol=1e-6, atol=1e-8)
        c.close(map_sol(A, b, y=y, mean=m, cov=s["C"], data_cov=D), w, f"map_sol with correlated data errors {name}", rtol=1e-6, atol=1e-8)
    if which == "cov":
        w = np.eye(p) - (V * (1 - sv ** -2.0)) @ V.T; kw = dict(rtol=1e-5, atol=1e-6 * scale_of(w))
        for got in (P.updated_cov(), updated_cov(A, s["C"], s["D"]), mud_sol_with_cov(A, b, **col)[1]):
            c.close(got, w, f"updated covariance {name}", **kw)
            v = V[:, -1:]
            c.close((v.T @ got @ v).item(), sv[-1] ** -2.0, f"variance of the least informed direction {name}", rtol=1e-4)
            v = V[:, :1]
            c.close((v.T @ got @ v).item(), 1.0, f"variance of the best informed direction {name}", rtol=1e-3, atol=1e-9 * scale_of(w))
    if which == "fun":
        X = 2 * alpha.gen(5, p, 2) - 1; dev = X.T - m
        data = np.sum((A @ X.T + b - y) ** 2, 0); reg = np.sum(dev ** 2, 0); dc = np.sum((V.T @ dev) ** 2, 0)
        for k, w in dict(data=data, reg=reg, bayes=data + reg, dc_term=dc, dc=data + reg - dc).items():
            c.close(P.compute_functionals(X, terms=k), w, f"functional {k} {name}", rtol=1e-6, atol=1e-7 * scale_of(data, reg))
    c.outcome(which, d, p, top)
