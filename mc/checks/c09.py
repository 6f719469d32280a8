RULE = """Every map with small integer entries of shapes 1x1..3x3 (all ranks) and generic maps up to 20x33, maps with singular values 1 to 2^-18 up to 120x120, badly row- and column-scaled maps (powers of two, condition up to 2^13), row scales and variances 2^-20 to 2^20 apart in one problem, each problem also in parameter and output units of 2^-45 and 2^45, under six settings of offset,
data, initial mean, initial and observational covariance and scaling; columns, flat vectors, lists, integer arrays; class method,
'all', map_sol and map_sol_with_cov with their weight argument. Oracle: exact rational Gaussian posterior mean and covariance;
the gradient of the posterior exponent vanishes there."""
import numpy as np
from mc import ref, lin

def cases(tier):
    yield from lin.all_cases(tier)
    yield from lin.unit_cases(tier)
    yield from lin.steep_cases(tier, far="CD")
    yield from lin.graded_cases(tier)

def run(case, c):
    if "graded" in case:
        return lin.graded_run(case, c, "map")
    if "steep" in case:
        return lin.steep_run(case, c, "map")
    if "unit" in case:
        return lin.unit_run(case, c, "map")
    from mud.funs import map_sol, map_sol_with_cov
    A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
    R = lin.reference(case, A, s)
    x, S = (lin.F(v) for v in R.map())
    sc = lin.scale_of(x, s["y"]); kw = dict(rtol=1e-6, atol=1e-8 * sc)
    if "r" in case:     # badly scaled: the posterior covariance is only as accurate as its condition number allows
        kw["atol"] += 1e-16 * np.linalg.cond(S) * np.max(np.abs(S)) * np.max(np.abs(A.T @ np.linalg.solve(s["D"], s["y"] - s["b"] - A @ s["mean"])))
    ks = dict(rtol=1e-6, atol=1e-9 * lin.scale_of(S))
    j = (case["i"] + case["p"] + int(sum(case.get("e", [0])))) % 4
    P = lin.build(A, s, j)
    c.close(P.solve("map"), x, f"MAP point (layout {j})", **kw)
    if hasattr(P, "cov_p"):
        c.close(P.cov_p, S, "posterior covariance", **ks)
    c.close(lin.build(A, s, 0).solve("all")[1], x, "MAP point of solving all", **kw)
    a = lin.layouts(A, s, 0)
    col = dict(y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"])
    flat = dict(y=a["y"].ravel(), mean=a["mean"].ravel(), cov=a["C"], data_cov=a["D"])
    for kws, shape in ((col, lambda v: v), (flat, np.ravel)):
        c.close(map_sol(A, a["b"], w=s["alpha"], **kws), shape(x), "map_sol", **kw)
        pt, cov = map_sol_with_cov(A, a["b"], w=s["alpha"], **kws)
        c.close(pt, shape(x), "map_sol_with_cov point", **kw)
        c.close(cov, S, "map_sol_with_cov covariance", **ks)
    if s["alpha"] == 1.0:
        c.close(map_sol(A, a["b"], **col), x, "map_sol with default weight", **kw)
    # weight argument = scaling of the initial covariance
    s2 = dict(s, alpha=s["alpha"] * 0.5)
    x2, S2 = (lin.F(v) for v in lin.reference(case, A, s2).map())
    pt, cov = map_sol_with_cov(A, a["b"], w=s2["alpha"], **col)
    c.close(pt, x2, "map_sol_with_cov point at half weight", **kw); c.close(cov, S2, "map_sol_with_cov covariance at half weight", **ks)
    c.close(lin.build(A, s, 0, alpha=s2["alpha"]).solve("map"), x2, "MAP point at half alpha", **kw)
    g = np.linalg.solve(s["alpha"] * s["C"], x - s["mean"]) + A.T @ np.linalg.solve(s["D"], A @ x + s["b"] - s["y"])
    c.true(np.max(np.abs(g)) < 1e-6 * sc * lin.scale_of(1 / s["alpha"] * np.linalg.inv(s["C"])), "reference is not stationary")
    if case["i"] == 0:
        c.close(lin.build(A, s, 0, cov_o=None, cov_i=None, mean_i=None, alpha=None).solve("map"), x, "MAP point with default covariances and mean", **kw)
