"""C32 linear convergence studies"""
import itertools
import numpy as np
from mc import ref

RULE = ("Every size up to the bound x seeds through run_high_dim_linear: all error arrays (three prior scales, every k, MUD/MAP/least squares, "
        "both for the first k outputs and for the rank-k operator) and all plotted lines against errors the harness computes by "
        "orthogonal factorisations of the problem of that seed; every input/output size x list of counts x deviation x seed through "
        "run_wme_covariance: plotted lines and markers are the singular values of the updated covariance of each count (reference "
        "by the Cholesky factor of the prior), the returned problem is that of the largest count, and its data are affine in the "
        "deviation; every set of overridden settings of run_contours up to pairs (thorough: all subsets): the returned problem and "
        "its solutions against exact rationals.")
ASSUMPTIONS = ["the problem of a seed is the one random_linear_problem returns for it (its relations are decided by C29)"]
ALPHAS = (1.0, 0.1, 0.001)


def cases(tier):
    hi = 6 if tier == "quick" else 9
    for i in range(1, hi + 1):
        for o in range(1, hi + 1):
            for s in (21, 3) + ((0, 77) if tier == "thorough" else ()):
                yield dict(kind="dim", i=i, o=o, s=s)
    for i, o in ((12, 12), (20, 7), (30, 11)):
        yield dict(kind="dim", i=i, o=o, s=1)
    for i, o, s in ((4, 3, 5), (2, 2, 9)):
        yield dict(kind="dim", i=i, o=o, s=s, save=1)
    yield dict(kind="dimdef")
    for i in (1, 2, 3, 5, 8):
        for o in (1, 2, 3, 5):
            for Ns in ([1], [2, 5], [1, 3, 10], [4, 8, 20, 50, 60], [7, 7]):
                for sg in (0.1, 0.5, 2.0):
                    yield dict(kind="wme", i=i, o=o, Ns=Ns, sg=sg, s=len(Ns) + i)
    yield dict(kind="wmedef")
    opts = list(SETTINGS)
    for k in range(3 if tier == "quick" else len(opts) + 1):
        for t in itertools.combinations(opts, k):
            for v in itertools.product(*[range(len(SETTINGS[x])) for x in t]):
                if k > 3 and sum(v) % 4:
                    continue
                yield dict(kind="cont", names=list(t), vals=list(v))

SETTINGS = {
    "A": [[[2, -1]], [[0.5, 3.0]], [[1, 0]]],
    "b": [[[1]], [[-0.5]], [0.25]],
    "y": [[[2]], [[0]], [3.5]],
    "mean_i": [[[0], [0]], [[-1.0], [0.5]], [0.5, 2.0]],
    "cov_i": [[[1, 0], [0, 1]], [[2.0, 0.5], [0.5, 0.25]], [[0.5, -0.25], [-0.25, 1]]],
    "cov_o": [[[0.5]], [[4]], [[0.0625]]],
    "alpha": [0.5, 4.0, 2],
}

def run(case, c):
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        globals()["run_" + case["kind"]](case, c)
    finally:
        plt.close("all")
    c.outcome(case["kind"])

# ------------------------------------------------------------------------------------------
def points(A, b, y, m, C, alpha):
    """MUD, MAP and least-squares points by orthogonal factorisations; A may be rank deficient with a clear gap"""
    L = np.linalg.cholesky(C)
    z = y - b - A @ m
    B = A @ L
    U, s, Vt = np.linalg.svd(B, full_matrices=False)
    k = s > 1e-9 * s[0]
    mud = m + L @ (Vt[k].T @ ((U[:, k].T @ z) / s[k][:, None]))
    a = np.sqrt(alpha)
    mp = m + a * L @ (Vt.T @ ((a * s / (a * a * s * s + 1))[:, None] * (U.T @ z)))
    U, s, Vt = np.linalg.svd(A, full_matrices=False)
    k = s > 1e-9 * s[0]
    ls = Vt[k].T @ ((U[:, k].T @ (y - b)) / s[k][:, None])
    return mud, mp, ls

def run_dimdef(case, c):
    import inspect
    from mud.examples.linear import run_high_dim_linear
    d = {k: v.default for k, v in inspect.signature(run_high_dim_linear).parameters.items()}
    c.true(d["dim_input"] == 100 and d["dim_output"] == 100 and d["seed"] == 21, f"defaults {d}")
    dim, rank = run_high_dim_linear(dim_input=3, dim_output=2)
    d2, r2 = run_high_dim_linear(3, 2, 21)
    for a in range(3):
        c.close(dim[a], d2[a], "default seed", rtol=0); c.close(rank[a], r2[a], "default seed", rtol=0)

def run_dim(case, c):
    import os, shutil, tempfile
    import matplotlib.pyplot as plt
    from mud.examples.linear import run_high_dim_linear, random_linear_problem
    i, o, s = case["i"], case["o"], case["s"]
    np.random.seed(4)
    lam, P = random_linear_problem(dim_input=i, dim_output=o, seed=s)
    A, b, y, m, C = (np.asarray(v, float) for v in (P.A, P.b, P.y, P.mean_i, P.cov_i))
    np.random.seed(5)
    tmp = tempfile.mkdtemp(prefix="c32_") if case.get("save") else None
    kw = dict(save_path=tmp, dpi=10) if tmp else {}
    try:
        try:
            dim, rank = run_high_dim_linear(dim_input=i, dim_output=o, seed=s, close_fig=False, **kw)
        except IndexError:
            if o > i:
                c.fail("run_high_dim_linear with more outputs than inputs runs past the rank decomposition", key="high-dim-tall")
            raise
        if tmp:
            c.true(sorted(os.listdir(tmp)) == ["lin-dim-cov-convergence.png", "lin-rank-cov-convergence.png"], f"files {sorted(os.listdir(tmp))}")
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    c.true(len(dim) == len(rank) == 3, f"{len(dim)} and {len(rank)} prior scales")
    U, sv, Vt = np.linalg.svd(A, full_matrices=False)
    n = np.linalg.norm(lam)
    want_d = np.zeros((3, o, 3)); want_r = np.zeros((3, o, 3))
    for a, al in enumerate(ALPHAS):
        for k in range(1, o + 1):
            for j, x in enumerate(points(A[:k], b[:k], y[:k], m, C, al)):
                want_d[a, k - 1, j] = np.linalg.norm(x - lam) / n
            kk = min(k, len(sv))
            Ak = (U[:, :kk] * sv[:kk]) @ Vt[:kk]
            for j, x in enumerate(points(Ak, b, Ak @ lam + b, m, C, al)):
                want_r[a, k - 1, j] = np.linalg.norm(x - lam) / n
    names = ("MUD", "MAP", "least squares")
    for a, al in enumerate(ALPHAS):
        for nm, got, want in (("first outputs", dim, want_d), ("rank", rank, want_r)):
            c.true(np.shape(got[a]) == (o, 3), f"{nm}: array of shape {np.shape(got[a])}")
            for j in range(3):
                c.close(np.asarray(got[a])[:, j], want[a, :, j], f"relative error of the {names[j]} point by {nm}, scale {al}", rtol=2e-4, atol=2e-5)
    # the plots show these arrays
    figs = [plt.figure(f).axes[0] for f in plt.get_fignums()][-2:]
    c.true(len(figs) == 2, f"{len(figs)} figures")
    for ax, got, first in ((figs[0], dim, 0), (figs[1], rank, 1)):
        want = [np.asarray(got[a])[:, 1] for a in range(3)] + [np.asarray(got[first])[:, 0], np.asarray(got[first])[:, 2]]
        have = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
        c.true(len(have) == 5, f"{len(have)} lines in the convergence plot")
        for w in want:
            k = [t for t, (x, yv) in enumerate(have) if np.array_equal(x, np.arange(1, o + 1)) and np.allclose(yv, w, rtol=1e-12, atol=0)]
            c.true(bool(k), f"no line shows {w.tolist()}")
            have.pop(k[0])

# ------------------------------------------------------------------------------------------
def updated_sv(A, C):
    """singular values of C - C A^T P^-1 (P - I) P^-1 A C for P = A C A^T, through the Cholesky factor of C"""
    L = np.linalg.cholesky(C)
    U, s, Vt = np.linalg.svd(A @ L, full_matrices=False)
    k = s > 1e-9 * s[0]
    # in the whitened basis: identity with the observed directions replaced by 1/s^2
    V = Vt[k].T
    W = np.eye(len(C)) - V @ V.T + (V / s[k] ** 2) @ V.T
    return np.linalg.svd(L @ W @ L.T, compute_uv=False)

def wme_run(case, **over):
    import matplotlib.pyplot as plt
    from mud.examples.linear import run_wme_covariance
    kw = dict(dim_input=case["i"], dim_output=case["o"], sigma=case["sg"], Ns=list(case["Ns"]), seed=case["s"]); kw.update(over)
    np.random.seed(1)
    out = run_wme_covariance(**kw)
    return out

def run_wme(case, c):
    import matplotlib.pyplot as plt
    i, o, sg, Ns = case["i"], case["o"], case["sg"], case["Ns"]
    P, ax = wme_run(case)
    A, C = np.asarray(P.A, float), np.asarray(P.cov_i, float)
    c.true(A.shape == (o, i) and C.shape == (i, i), f"operator {A.shape}, covariance {C.shape}")
    N = max(Ns)
    lines = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]
    c.true(len(lines) == len(Ns) and len(ax.collections) == len(Ns), f"{len(lines)} lines and {len(ax.collections)} marker sets for {len(Ns)} counts")
    for j, n in enumerate(Ns):
        if o > i:
            # more rows than parameters: the predicted covariance is singular
            want = updated_sv(A * np.sqrt(n / N), C)
        else:
            want = updated_sv(A * np.sqrt(n / N), C)
        c.close(lines[j][0], np.arange(1, i + 1), "index axis")
        c.close(lines[j][1], want, f"singular values for {n} data", rtol=1e-5, atol=1e-8)
        off = np.asarray(ax.collections[j].get_offsets(), float)
        c.close(off, np.stack([np.arange(1, i + 1), lines[j][1]], axis=1), f"markers for {n} data")
    # returned problem: operator sqrt(N)/sigma times the rows, data affine in sigma
    P2, ax2 = wme_run(case, sigma=2 * sg); P3, _ = wme_run(case, sigma=3 * sg)
    c.close(np.asarray(P2.A) * 2, A, "operator scales with the deviation", rtol=1e-9)
    c.close(P2.cov_i, C, "prior does not depend on the deviation", rtol=0)
    d = [np.asarray(p.y, float).reshape(-1, 1) - np.asarray(p.b, float).reshape(-1, 1) for p in (P, P2, P3)]
    s1, s2, s3 = d[0] * sg, d[1] * 2 * sg, d[2] * 3 * sg     # sqrt(N) * (data mean): affine in sigma
    c.close(s3 - s2, s2 - s1, "data are affine in the deviation", rtol=1e-6, atol=1e-7 * max(1.0, float(np.max(np.abs(s1)))))
    noise = (s2 - s1) / sg                                    # sum of N standard normals over sqrt(N)
    c.true(np.all(np.abs(noise) < 6) and np.all(noise != 0), f"noise of the mean {noise.ravel().tolist()} is not that of standard normals")
    M = A * sg / np.sqrt(N)
    clean = (2 * s1 - s2) / np.sqrt(N)
    if o <= i:
        pass
    else:
        # clean data lie in the range of the operator
        r = clean - M @ np.linalg.lstsq(M, clean, rcond=None)[0]
        c.close(r, np.zeros((o, 1)), "noiseless data come from a reference parameter", atol=1e-6 * max(1.0, float(np.max(np.abs(clean)))))
    c.true(np.allclose(np.asarray(P.cov_o), np.eye(o)), "observed covariance of the mean-error map")
    # another seed is another problem; fewer counts of the same seed share operator and prior
    if i * o > 1:
        c.true(not np.allclose(np.asarray(wme_run(case, seed=case["s"] + 1)[0].A), A), "another seed gives the same operator")

def run_wmedef(case, c):
    import inspect
    from mud.examples.linear import run_wme_covariance
    d = {k: v.default for k, v in inspect.signature(run_wme_covariance).parameters.items()}
    c.true(d["dim_input"] == 20 and d["dim_output"] == 5 and d["sigma"] == 0.1 and list(d["Ns"]) == [10, 100, 1000, 10000], f"defaults {d}")

# ------------------------------------------------------------------------------------------
def run_cont(case, c):
    import matplotlib.pyplot as plt
    from fractions import Fraction as Fr
    from mud.examples.linear import run_contours
    val = {n: SETTINGS[n][k] for n, k in zip(case["names"], case["vals"])}
    eff = dict(A=[[1, 1]], b=[[0]], y=[[1]], mean_i=[[0.25], [0.25]], cov_i=[[1, -0.25], [-0.25, 0.5]], cov_o=[[1]], alpha=1.0)
    eff.update(val)
    for form in (0, 1):
        kw = {k: (np.array(v) if form == 0 and k != "alpha" else v) for k, v in val.items()}
        keep = {k: np.array(v) for k, v in kw.items()}
        P = run_contours(["nothing"], **kw)
        c.true(not plt.get_fignums(), "figures although none was requested")
        col = lambda v, n: np.asarray(v, float).reshape(n, 1)
        c.close(np.asarray(P.A, float), eff["A"], "A"); c.close(P.b, col(eff["b"], 1), "b", shape=False); c.close(P.y, col(eff["y"], 1), "y", shape=False)
        c.close(P.mean_i, col(eff["mean_i"], 2), "initial mean", shape=False); c.close(np.asarray(P.cov_o, float), eff["cov_o"], "observed covariance")
        from mc import lin
        s = dict(b=col(eff["b"], 1), y=col(eff["y"], 1), mean=col(eff["mean_i"], 2), C=np.array(eff["cov_i"], float), D=np.array(eff["cov_o"], float), alpha=float(eff["alpha"]))
        E = lin.Exact(np.array(eff["A"], float), s)
        c.close(P.solve("mud"), lin.F(E.mud()), "MUD point", rtol=1e-7); c.close(P.solve("map"), lin.F(E.map()[0]), "MAP point", rtol=1e-7); c.close(P.solve("ls"), lin.F(E.ls()), "least-squares point", rtol=1e-7)
        c.true(all(np.array_equal(np.array(kw[k]), keep[k]) for k in kw), "settings modified")
