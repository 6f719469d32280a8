RULE = """Every map with entries from {-1,0,1,2} (or {-1,0,1}, {0,1}) of shapes 1x1..3x3 - all ranks, incl. zero rows and zero maps - and
generic full-rank maps up to 20x33, maps with singular values 1 to 2^-10 up to 120x120, badly row- and column-scaled maps (powers of two, condition up to 2^13), rank-deficient products of orthonormal factors up to 30x30, row scales and variances 2^-20 to 2^20 apart in one problem, each problem also in parameter and output units of 2^-45 and 2^45, under six settings of offset, data, initial mean, initial and observational covariance and
scaling; columns, flat vectors, lists and integer arrays; class method, 'all' and mud_sol. Oracle: exact rational arithmetic
(Moore-Penrose inverse by full-rank factorisation). Independence of data covariance and scaling, attainable data
reproduced, and the update lying in the range of C A^T follow from equality and are asserted separately."""
import numpy as np
from mc import ref, lin

def cases(tier):
    yield from lin.all_cases(tier)
    yield from lin.unit_cases(tier)
    yield from lin.steep_cases(tier, alphas=(0, 34, -34))
    yield from lin.graded_cases(tier)
    yield from lin.lowrank_cases(tier, alphas=(0, 34, -34))

def run(case, c):
    if "graded" in case:
        return lin.graded_run(case, c, "mud")
    if "steep" in case:
        return lin.steep_run(case, c, "mud")
    if "low" in case:
        return lin.lowrank_run(case, c, "mud")
    if "unit" in case:
        return lin.unit_run(case, c, "mud")
    from mud.funs import mud_sol
    A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
    R = lin.reference(case, A, s)
    want = lin.F(R.mud())
    sc = lin.scale_of(want, s["y"]); kw = dict(rtol=1e-7, atol=1e-8 * sc)
    j = (case["i"] + case["d"] + int(sum(case.get("e", [0])))) % 4
    P = lin.build(A, s, j)
    got = P.solve("mud")
    c.close(got, want, f"MUD point (layout {j})", **kw)
    c.close(lin.build(A, s, (j + 1) % 4).solve(), want, "default solution method is MUD", **kw)
    c.close(lin.build(A, s, 0).solve("all")[0], want, "MUD point of solving all", **kw)
    # independence of the observational covariance and of alpha
    for over in (dict(cov_o=7.0 * np.eye(case["d"]) + 1.0), dict(alpha=16.0), dict(alpha=0.0625), dict(alpha=None)):
        c.close(lin.build(A, s, 0, **over).solve("mud"), want, f"MUD point under {list(over)}", **kw)
    a = lin.layouts(A, s, 0)
    c.close(mud_sol(A, a["b"], y=a["y"], mean=a["mean"], cov=a["C"], data_cov=a["D"]), want, "mud_sol with column data", **kw)
    c.close(mud_sol(A, a["b"].ravel(), y=a["y"].ravel(), mean=a["mean"].ravel(), cov=a["C"]), want.ravel(), "mud_sol with flat data", **kw)
    # semantics
    if R.rank == case["d"]:
        c.close(A @ got + s["b"], s["y"], "attainable data are reproduced", rtol=1e-6, atol=1e-7 * sc)
    N = np.linalg.svd(A)[2][R.rank:].T if "e" not in case else None
    if "e" in case and R.rank < case["p"]:
        # kernel directions k: k^T C^-1 (x - mean) = 0
        Ci = np.linalg.inv(s["C"])
        full, piv = ref.rref(R.A) if R.rank else ([[0] * case["p"]], [])
        free = [f for f in range(case["p"]) if f not in piv]
        for f in free:
            k = np.zeros((case["p"], 1)); k[f] = 1
            for r, pc in enumerate(piv):
                k[pc] = -float(full[r][f])
            c.true(abs((k.T @ Ci @ (got - s["mean"])).item()) < 1e-7 * sc * 100, "the update leaves the range of C A^T")
    c.state(got)
