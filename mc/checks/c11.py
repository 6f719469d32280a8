RULE = """Every map with small integer entries of shapes 1x1..3x3 (all ranks) and generic maps up to 20x33, maps with singular values 1 to 2^-10 up to 120x120, rank-deficient products of orthonormal factors up to 30x30, row scales and variances 2^-20 to 2^20 apart in one problem, each problem also in parameter and output units of 2^-45 and 2^45, under six settings; updated_cov of the
class (stored and passed arguments), updated_cov of funs (all argument subsets), mud_sol_with_cov and solve('mud_alt'). Oracle: exact
rational C - K (A C A^T - D) K^T with the pseudo-inverse; for full row rank also A S A^T = D and v^T S v unchanged on uninformed
directions, and the alternative formula gives the MUD point."""
import numpy as np
from mc import ref, lin

def cases(tier):
    yield from lin.all_cases(tier, cond=0)
    yield from lin.unit_cases(tier)
    yield from lin.steep_cases(tier)
    yield from lin.graded_cases(tier)
    yield from lin.lowrank_cases(tier)

def run(case, c):
    if "graded" in case:
        return lin.graded_run(case, c, "cov")
    if "steep" in case:
        return lin.steep_run(case, c, "cov")
    if "low" in case:
        return lin.lowrank_run(case, c, "cov")
    if "unit" in case:
        return lin.unit_run(case, c, "cov")
    from mud.funs import updated_cov, mud_sol_with_cov
    A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
    d, p = case["d"], case["p"]
    R = lin.reference(case, A, s)
    S = lin.F(R.updated(False)); Sa = lin.F(R.updated(True))
    kw = dict(rtol=1e-6, atol=1e-8 * lin.scale_of(S, Sa))
    if "e" not in case and d > p:
        kw = dict(rtol=1e-5, atol=1e-7 * lin.scale_of(S, Sa))
    P = lin.build(A, s, 0)
    c.close(P.updated_cov(), S, "class updated covariance", **kw)
    c.close(P.updated_cov(A=A, init_cov=s["alpha"] * s["C"], data_cov=s["D"]), Sa, "class updated covariance with arguments", **kw)
    c.close(P.updated_cov(init_cov=s["alpha"] * s["C"]), Sa, "class updated covariance with an initial covariance", **kw)
    D2 = np.eye(d) * 2.0
    S2 = lin.F(lin.reference(case, A, dict(s, D=D2)).updated(False))
    c.close(P.updated_cov(data_cov=D2), S2, "class updated covariance with a data covariance", **kw)
    c.close(updated_cov(A, s["C"], s["D"]), S, "function updated covariance", **kw)
    c.close(updated_cov(A, init_cov=s["C"], data_cov=D2), S2, "function updated covariance, other data covariance", **kw)
    c.close(updated_cov(A, data_cov=s["D"]), lin.F(lin.reference(case, A, dict(s, C=np.eye(p))).updated(False)), "function updated covariance, default initial", **kw)
    c.close(updated_cov(A, init_cov=s["C"]), lin.F(lin.reference(case, A, dict(s, D=np.eye(d))).updated(False)), "function updated covariance, default data", **kw)
    a = lin.layouts(A, s, 0)
    pt, cov = mud_sol_with_cov(A, a["b"], y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"])
    c.close(cov, S, "covariance of mud_sol_with_cov", **kw)
    pt2, _ = mud_sol_with_cov(A, a["b"], y=a["y"].ravel(), mean=a["mean"], cov=a["C"], data_cov=a["D"])
    c.close(pt2, pt.ravel(), "mud_sol_with_cov with flat data")
    P.solve("mud_alt")
    if hasattr(P, "up_cov"):
        c.close(P.up_cov, Sa, "updated covariance kept by the alternative formula", **kw)
    if R.rank == d:
        m = lin.F(R.mud()); sc = lin.scale_of(m, s["y"])
        c.close(pt, m, "mud_sol_with_cov point", rtol=1e-6, atol=1e-7 * sc)
        c.close(lin.build(A, s, 0).solve("mud_alt"), m, "alternative MUD formula", rtol=1e-6, atol=1e-7 * sc)
        c.close(A @ P.updated_cov() @ A.T, s["D"], "A S A^T equals the data covariance", rtol=1e-6, atol=1e-7)
        # uninformed directions: w with A C w = 0 keep their variance
        U = np.linalg.svd(A @ s["C"])[2][d:].T
        if U.size:
            c.close(U.T @ P.updated_cov() @ U, U.T @ s["C"] @ U, "variance of uninformed directions", rtol=1e-6, atol=1e-8)
    bad = np.eye(p + 1)
    c.raises(lambda: updated_cov(A, init_cov=bad), "initial covariance of the wrong size")
    c.raises(lambda: updated_cov(A, data_cov=np.eye(d + 1)), "data covariance of the wrong size")
