RULE = """Every map with small integer entries of shapes 1x1..3x3 (all ranks, incl. zero) and generic maps up to 20x33, maps with singular values 1 to 2^-18 up to 120x120, badly row- and column-scaled maps (powers of two, condition up to 2^13), rank-deficient products of orthonormal factors up to 30x30, row scales and variances 2^-20 to 2^20 apart in one problem, each problem also in parameter and output units of 2^-45 and 2^45, under six settings of
offset, data, means and covariances; class method and 'all', all input layouts. Oracle: exact rational Moore-Penrose solution; the
residual is orthogonal to the range, the solution to the kernel, and it is the same for two other means and covariances."""
import numpy as np
from mc import ref, lin

def cases(tier):
    yield from lin.all_cases(tier, tall=True)
    yield from lin.unit_cases(tier)
    yield from lin.steep_cases(tier)
    yield from lin.graded_cases(tier)
    yield from lin.lowrank_cases(tier)

def run(case, c):
    if "graded" in case:
        return lin.graded_run(case, c, "ls")
    if "steep" in case:
        return lin.steep_run(case, c, "ls")
    if "low" in case:
        return lin.lowrank_run(case, c, "ls")
    if "unit" in case:
        return lin.unit_run(case, c, "ls")
    A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
    want = lin.F(lin.reference(case, A, s).ls())
    sc = lin.scale_of(want, s["y"]); kw = dict(rtol=1e-7, atol=1e-9 * sc)
    j = (case["i"] + case["p"] + int(sum(case.get("e", [0])))) % 4
    x = lin.build(A, s, j).solve("ls")
    c.close(x, want, f"least-squares point (layout {j})", **kw)
    c.close(lin.build(A, s, 0).solve("all")[2], want, "least-squares point of solving all", **kw)
    d, p = case["d"], case["p"]
    for over in (dict(mean_i=np.full((p, 1), 3.0)), dict(cov_i=5 * np.eye(p) + 1), dict(cov_o=3 * np.eye(d) + 2), dict(alpha=0.01),
                 dict(mean_i=np.full((p, 1), -2.0), cov_i=np.diag(np.arange(p) + 0.5), cov_o=np.diag(np.arange(d) + 0.25))):
        c.close(lin.build(A, s, 0, **over).solve("ls"), want, f"least-squares point under {list(over)}", **kw)
    c.true(np.max(np.abs(A.T @ (A @ x + s["b"] - s["y"]))) < 1e-7 * sc * lin.scale_of(A) ** 2, "the misfit is not minimal")
