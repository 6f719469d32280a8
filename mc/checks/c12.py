RULE = """Every map with small integer entries of shapes 1x1..3x3 and generic maps up to 20x33, maps with singular values 1 to 2^-10 up to 120x120, row scales and variances 2^-20 to 2^20 apart in one problem, each problem also in parameter and output units of 2^-45 and 2^45, under six settings, evaluated at one, two and
seven points (up to 20000 for some), two problems at every number of points up to 1300 (6000 thorough) and around round numbers up to 131073: all terms and the tuple of compute_functionals, norm_input / norm_data / norm_predicted / full_functional /
inner_product with matrix, scalar and default arguments, and contour maps of the functionals. Oracle: exact rational quadratic forms (terms with the predicted
covariance only where it is invertible). For every coordinate direction and both signs the MAP point beats its
neighbours in the Bayesian functional and the MUD point in the data-consistent one."""
import numpy as np
from fractions import Fraction as Fr
from mc import ref, lin, alpha, plots

def cases(tier):
    yield from lin.all_cases(tier, cond=0)
    yield from lin.unit_cases(tier)
    yield from lin.steep_cases(tier, far="CD")
    yield from lin.graded_cases(tier)
    ns = counts(tier)
    for shape in ((1, 2), (2, 3)):
        for k in range(0, len(ns), 25):
            yield dict(shape=list(shape), n=ns[k:k + 25])
    for d, p, e in ((1, 1, [2]), (1, 2, [1, -1]), (2, 2, [1, 2, -1, 1]), (2, 3, [1, 0, 2, -1, 1, 0]), (3, 3, [1, 1, 0, 0, 1, -1, 2, 0, 1]), (2, 1, [1, 2])):
        for i in range(6):
            for al in (1e-12, 1e-6, 1e-3, 0.03, 7, 40.0, 1e3, 1e6, 1e12):
                yield dict(d=d, p=p, e=e, i=i, al=al)

def counts(tier):
    """numbers of points: all up to a bound, and around powers of two, of ten, and multiples of thousands"""
    top = 1300 if tier == "quick" else 6000
    far = {m + k for m in [2 ** j for j in range(10, 18)] + [1000 * j for j in range(1, 21)] + [10 ** 5] for k in (-1, 0, 1)}
    return sorted(set(range(1, top + 1)) | far)

def many(case, c):
    """every number of points is evaluated point by point alike"""
    from mud import norm as N
    from mud.base import LinearGaussianProblem
    d, p = case["shape"]; A = 2 * alpha.gen(d, p, 3) - 1; C = np.eye(p) * 2 + 0.3; Do = np.eye(d) + 0.25; m = np.full((p, 1), 0.25); b = np.full((d, 1), 0.5); y = np.arange(d).reshape(-1, 1) * 1.0
    top = max(case["n"]); X = 4 * np.modf(np.outer(np.arange(1, top + 1), np.sqrt([2, 3, 5][:p])))[0] - 2
    dv = X.T - m; z = A @ X.T + b - y
    reg = quad(dv, C); dat = quad(z, Do); pre = quad(A @ dv, A @ C @ A.T)
    P = LinearGaussianProblem(A, b, y, m, C, Do)
    for n in case["n"]:
        x = X[:n]; kw = dict(rtol=1e-9, atol=1e-11)
        for got, want, what in ((N.norm_input(x, m, C), reg, "norm_input"), (N.norm_data(A, x, b, y, Do), dat, "norm_data"), (N.norm_predicted(A, x, m, C), pre, "norm_predicted"),
                                (N.full_functional(A, x, b, m, C, y, Do), reg + dat - pre, "full_functional"), (N.inner_product(dv[:, :n], C), reg, "inner_product"),
                                (P.compute_functionals(x, terms="dc"), reg + dat - pre, "data-consistent functional"), (P.compute_functionals(x, terms="data"), dat, "data term"),
                                (P.compute_functionals(x, "reg"), reg, "regularisation term"), (P.compute_functionals(x, "dc_term"), pre, "data-consistent term")):
            c.close(got, want[:n], f"{what} at {n} points", **kw)

def quad(X, M):
    """x^T M^-1 x for every column of X (Fractions or floats)"""
    return np.einsum("ij,ij->j", X, np.linalg.solve(M, X))

def run(case, c):
    if "graded" in case:
        return lin.graded_run(case, c, "fun")
    if "steep" in case:
        return lin.steep_run(case, c, "fun")
    if "shape" in case:
        return many(case, c)
    if "unit" in case:
        return lin.unit_run(case, c, "fun")
    from mud import norm as N
    A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
    d, p = case["d"], case["p"]
    R = lin.reference(case, A, s)
    full = R.rank == d
    if "al" in case:
        s = dict(s, alpha=case["al"])
    aC = s["alpha"] * s["C"]
    P = lin.build(A, s, case["i"] % 2)
    if "al" in case:
        X = 4 * alpha.gen(5, p, 2) - 2
        dev = X.T - s["mean"]
        data = quad(A @ X.T + s["b"] - s["y"], s["D"]); reg = quad(dev, s["C"]) / s["alpha"]
        want = dict(data=data, reg=reg, bayes=data + reg)
        if full:
            dc = quad(A @ dev, A @ s["C"] @ A.T) / s["alpha"]
            want.update(dc_term=dc, reg_m=reg - dc, dc=data + reg - dc)
        for t, v in want.items():
            sc = np.abs(data).max() if t == "data" else np.abs(reg).max() if t in ("reg", "dc_term", "reg_m") else max(np.abs(data).max(), np.abs(reg).max())
            c.close(P.compute_functionals(X, terms=t) / sc, v / sc, f"functional term {t} with the prior covariance weighted by {s['alpha']}", rtol=1e-6, atol=1e-7)
        return
    for n in (1, 2, 7) if "e" in case or case["s"] or d * p > 60 else (1, 2, 7, 130, 1100, 5000, 20000):
        X = 4 * alpha.gen(n, p, 2) - 2
        X[0] = s["mean"].ravel() + 0.5
        dev = X.T - s["mean"]
        data = quad(A @ X.T + s["b"] - s["y"], s["D"])
        reg = quad(dev, aC)
        kw = dict(rtol=1e-6, atol=1e-7)
        c.close(P.compute_functionals(X, terms="data"), data, "data term", **kw)
        c.close(P.compute_functionals(X, terms="reg"), reg, "regularisation term", **kw)
        c.close(P.compute_functionals(X, terms="bayes"), data + reg, "Bayesian functional", rtol=1e-6, atol=1e-6)
        c.close(N.inner_product(dev, aC), reg, "inner_product", **kw)
        c.close(N.norm_input(X, s["mean"], s["C"]), quad(dev, s["C"]), "norm_input", **kw)
        c.close(N.norm_input(X, s["mean"], 2.5), quad(dev, 2.5 * np.eye(p)), "norm_input with scalar covariance", **kw)
        c.close(N.norm_input(X, s["mean"], 2), quad(dev, 2 * np.eye(p)), "norm_input with integer covariance", **kw)
        for sv in (np.float64(2.5), np.int64(2), np.float32(0.5), np.int32(3)):
            v = float(sv)
            c.close(N.norm_input(X, s["mean"], sv), quad(dev, v * np.eye(p)), f"norm_input with {type(sv).__name__} covariance", **kw)
            c.close(N.norm_data(A, X, s["b"], 0, sv), quad(A @ X.T + s["b"], v * np.eye(d)), f"norm_data with {type(sv).__name__} covariance", **kw)
        mo = s["y"]
        c.close(N.norm_data(A, X, s["b"], mo, s["D"]), data, "norm_data", **kw)
        c.close(N.norm_data(A, X, s["b"].ravel(), mo.ravel(), s["D"]), data, "norm_data with flat arguments", **kw)
        c.close(N.norm_data(A, X, s["b"], 0, 0.5), quad(A @ X.T + s["b"], 0.5 * np.eye(d)), "norm_data with scalar arguments", **kw)
        if not full:
            continue
        pc = A @ s["C"] @ A.T
        if np.linalg.cond(pc) > 1e8:
            continue
        dc = quad(A @ dev, A @ aC @ A.T)
        dc1 = quad(A @ dev, pc)
        terms = dict(dc_term=dc, reg_m=reg - dc, bayes=data + reg, dc=data + reg - dc)
        kw = dict(rtol=1e-6, atol=1e-6 * lin.scale_of(reg, dc, data))
        for t, v in terms.items():
            c.close(P.compute_functionals(X, terms=t), v, f"functional term {t}", **kw)
        allt = P.compute_functionals(X)
        c.true(len(allt) == 5, "all terms are five")
        for g, w_, nm in zip(allt, (data, reg, dc, data + reg, data + reg - dc), ("data", "reg", "dc_term", "bayes", "dc")):
            c.close(g, w_, f"entry {nm} of all terms", **kw)
        c.close(N.norm_predicted(A, X, s["mean"], s["C"]), dc1, "norm_predicted", **kw)
        c.close(N.norm_predicted(A, X, s["mean"], 2.0), quad(A @ dev, 2.0 * A @ A.T), "norm_predicted with scalar covariance", **kw)
        for sv in (np.float64(2.5), np.int64(2)):
            c.close(N.norm_predicted(A, X, s["mean"], sv), quad(A @ dev, float(sv) * A @ A.T), f"norm_predicted with {type(sv).__name__} covariance", **kw)
            c.close(N.full_functional(A, X, s["b"], s["mean"], sv, mo, np.float64(0.5)), quad(dev, float(sv) * np.eye(p)) + quad(A @ X.T + s["b"] - mo, 0.5 * np.eye(d))
                    - quad(A @ dev, float(sv) * A @ A.T), f"full_functional with {type(sv).__name__} covariances", **kw)
        c.close(N.full_functional(A, X, s["b"], s["mean"], s["C"], mo, s["D"]), quad(dev, s["C"]) + data - dc1, "full_functional", **kw)
        c.close(N.full_functional(A, X, s["b"], s["mean"], s["C"]), quad(dev, s["C"]) + quad(A @ X.T + s["b"], np.eye(d)) - dc1, "full_functional with defaults", **kw)
        c.close(N.full_functional(A, X, s["b"], s["mean"], 2.0, mo, 0.5), quad(dev, 2.0 * np.eye(p)) + quad(A @ X.T + s["b"] - mo, 0.5 * np.eye(d))
                - quad(A @ dev, 2.0 * A @ A.T), "full_functional with scalar covariances", **kw)
    if p == 2:
        ax = plots.axes(); rec = []
        ax.contour = lambda *a, **k: rec.append(a)
        try:
            for terms in ["data", "reg", "bayes"] + (["dc", "dc_term"] if full and np.linalg.cond(A @ s["C"] @ A.T) < 1e8 else []):
                rec.clear()
                P.plot_fun_contours(terms=terms, ax=ax, N=4, r=2)
                c.true(len(rec) == 1 and len(rec[0]) == 3, "one contour map of the functional")
                x, y, z = (np.asarray(v, float) for v in rec[0])
                pts = np.stack([x.ravel(), y.ravel()], axis=1)
                c.true(sorted(map(tuple, np.round(pts, 9).tolist())) == sorted((round(i * 2 / 3, 9), round(j * 2 / 3, 9)) for i in range(4) for j in range(4)),
                       "contours are over the default mesh")
                dv = pts.T - s["mean"]
                v = dict(data=quad(A @ pts.T + s["b"] - s["y"], s["D"]), reg=quad(dv, aC))
                v["bayes"] = v["data"] + v["reg"]
                if terms in ("dc", "dc_term"):
                    v["dc_term"] = quad(A @ dv, A @ aC @ A.T); v["dc"] = v["bayes"] - v["dc_term"]
                c.close(z.ravel(), v[terms], f"contoured {terms} functional", rtol=1e-6, atol=1e-6 * lin.scale_of(v[terms]))
            if "s" in case:
                rec.clear()
                P.plot_fun_contours(terms="bayes", ax=ax, N=101)
                x, y, z = (np.asarray(v, float) for v in rec[0])
                pts = np.stack([x.ravel(), y.ravel()], axis=1)
                v = quad(A @ pts.T + s["b"] - s["y"], s["D"]) + quad(pts.T - s["mean"], aC)
                c.close(z.ravel(), v, "contoured functional on a fine mesh", rtol=1e-6, atol=1e-6)
        finally:
            del ax.contour
    # minimisers
    steps = np.vstack([h * e for h in (1e-2, -1e-2, 0.5, -0.5) for e in np.vstack([np.eye(p), np.ones((1, p))])])
    def minimal(pt, f, what):
        base = f(pt.T)[0]
        vals = f(pt.T + steps)
        c.true(np.all(vals >= base - 1e-7 * max(1.0, abs(base))), f"{what} does not minimise its functional: {base} vs {vals.min()}")
    minimal(P.solve("map"), lambda X: P.compute_functionals(X, terms="bayes"), "the MAP point")
    if full and np.linalg.cond(A @ s["C"] @ A.T) < 1e8:
        minimal(P.solve("mud"), lambda X: P.compute_functionals(X, terms="dc"), "the MUD point")
