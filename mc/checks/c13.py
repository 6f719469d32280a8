RULE = """All operation sequences over two linear problems used alternately: solve by mud / mud_alt / map / ls / all, truncated to 1 or 2 outputs,
updated_cov with and without arguments, functionals, plot_sol, plot_contours, plot_fun_contours, - every sequence to depth 3 (4 thorough) on
five pairs of problems (wide, square, tall, rank deficient, one output) - each result compared with exact rational references, and all
problem data compared after each sequence. Further: every map of the exact family truncated to every k for every method against the
problem made of the first k rows, and every wrong data length."""
CASE_LIMIT = 3600
import itertools
import numpy as np
from mc import ref, lin, alpha, plots

OPS = ["mud", "mud_alt", "map", "ls", "all", "mud:1", "map:1", "ls:1", "all:2", "mud_alt:1", "cov", "cova", "fun", "psol", "pcon", "pfun", "X:mud", "X:all", "X:map:1"]
PAIRS = [([1, 2, 0, -1, 1, 1], 2, 3, 1), ([1, 2, -1, 1], 2, 2, 4), ([1, 0, 1, 1, 2, -1], 3, 2, 3), ([1, 1, 2, 2], 2, 2, 2), ([2, -1], 1, 2, 3)]
_C = {}

def setup(i):
    if i not in _C:
        e, d, p, st = PAIRS[i]
        out = []
        for k in (0, 1):
            A = np.array(e, float).reshape(d, p) + (k * np.arange(d * p).reshape(d, p) if i != 3 else 0)
            s = lin.settings((st + k) % 6, d, p)
            ex = {}
            for od in range(1, d + 1):
                sub = dict(s, b=s["b"][:od], y=s["y"][:od], D=s["D"][:od, :od])
                R = lin.Exact(A[:od], sub)
                m, S = R.map()
                ex[od] = dict(mud=lin.F(R.mud()), map=lin.F(m), ls=lin.F(R.ls()), cov_p=lin.F(S), up=lin.F(R.updated(True)), up0=lin.F(R.updated(False)), rank=R.rank)
                Sa = ex[od]["up"]
                z = sub["y"] - sub["b"] - A[:od] @ s["mean"]
                ex[od]["mud_alt"] = s["mean"] + Sa @ A[:od].T @ np.linalg.solve(sub["D"], z)
            out.append((A, s, ex, d, p))
        _C[i] = out
    return _C[i]

def same(c, P, A, s, what):
    for got, want, n in ((P.A, A, "A"), (P.b, s["b"], "b"), (P.y, s["y"], "y"), (P.mean_i, s["mean"], "mean_i"), (P.cov_i, s["C"], "cov_i"), (P.cov_o, s["D"], "cov_o")):
        c.close(got, want, f"{n} after {what}", rtol=0, atol=0)
    c.true(P.alpha == s["alpha"], f"alpha after {what}")

def apply(op, Ps, data, c):
    which = 1 if op.startswith("X:") else 0
    if which:
        op = op[2:]
    P = Ps[which]; A, s, ex, d, p = data[which]
    sc = lin.scale_of(*[ex[d][k] for k in ("mud", "map", "ls")], s["y"]); kw = dict(rtol=1e-6, atol=1e-7 * sc)
    name, _, od = op.partition(":")
    if name in ("mud", "mud_alt", "map", "ls", "all"):
        k = min(int(od), d) if od else d
        if name == "mud_alt" and ex[k]["rank"] < k:
            return
        got = P.solve(name, output_dim=k) if od else P.solve(name)
        if name == "all":
            c.true(len(got) == 3, "solving all returns three points")
            for g, n in zip(got, ("mud", "map", "ls")):
                c.close(g, ex[k][n], f"{op}: {n}", **kw)
        else:
            c.close(got, ex[k][name], f"{op}", **kw)
        if name in ("map", "all") and hasattr(P, "cov_p"):
            c.close(P.cov_p, ex[k]["cov_p"], f"{op}: covariance", **kw)
        if name == "mud_alt" and hasattr(P, "up_cov"):
            c.close(P.up_cov, ex[k]["up"], f"{op}: updated covariance", rtol=1e-6, atol=1e-6 * lin.scale_of(ex[k]["up"]))
        return
    if name == "cov":
        c.close(P.updated_cov(), ex[d]["up0"], "updated_cov", rtol=1e-6, atol=1e-7)
    elif name == "cova":
        c.close(P.updated_cov(A=A[:1], init_cov=s["alpha"] * s["C"], data_cov=s["D"][:1, :1]), ex[1]["up"], "updated_cov with arguments", rtol=1e-6, atol=1e-6)
    elif name == "fun":
        X = alpha.gen(3, p, 1)
        z = A @ X.T + s["b"] - s["y"]
        c.close(P.compute_functionals(X, terms="data"), np.sum(z * np.linalg.solve(s["D"], z), axis=0), "data term", rtol=1e-6)
    elif p == 2:
        ax = plots.axes()
        if name == "psol":
            for m in ("mud", "map", "ls", "initial"):
                P.plot_sol(m, ax=ax, label="x")
            pts = plots.scatters(ax)
            for g, m in zip(pts, ("mud", "map", "ls")):
                c.close(g.ravel(), ex[d][m].ravel(), f"plotted {m} point", **kw)
            c.close(pts[3].ravel(), s["mean"].ravel(), "plotted initial point")
        elif name == "pcon":
            P.plot_contours(ax=ax)
            c.true(len(ax.lines) == d, "one contour line per output")
            for l, a in zip(ax.lines, A):
                q = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float)
                c.close(a @ q, np.full(2, a @ ex[d]["ls"].ravel()), "contour lines pass through the least-squares point", **kw)
        elif name == "pfun":
            P.plot_fun_contours(ax=ax, terms="bayes", N=3)

def cases(tier):
    depth = 3 if tier == "quick" else 4
    for k in range(depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
            for i in range(len(PAIRS)):
                yield dict(pair=i, pre=list(h), tail=min(k, 2))
    for x in lin.all_cases(tier, 6 if tier == "thorough" else 2, cond=0):
        if x["d"] > 1:
            yield dict(x, trunc=1)
    for d, p in itertools.product(range(1, 5), range(1, 4)):
        for n in range(0, 9):
            if n != d:
                yield dict(bad=n, d=d, p=p)

def run(case, c):
    from mud.base import LinearGaussianProblem
    from mud.funs import mud_sol, map_sol
    if "bad" in case:
        d, p, n = case["d"], case["p"], case["bad"]
        A = alpha.gen(d, p, 1); y = np.arange(n) + 1.0
        for yy in (y, y.reshape(-1, 1), y.tolist()):
            c.raises(lambda: LinearGaussianProblem(A, y=yy), f"{n} data for {d} outputs")
            c.raises(lambda: LinearGaussianProblem(A, b=np.zeros(d), y=yy), f"{n} data for {d} outputs")
            c.raises(lambda: mud_sol(A, np.zeros(d), y=yy), f"mud_sol with {n} data for {d} outputs")
            c.raises(lambda: map_sol(A, np.zeros(d), y=yy), f"map_sol with {n} data for {d} outputs")
        return
    if "trunc" in case:
        A = lin.matrix(case); s = lin.settings(case["i"], case["d"], case["p"])
        P = lin.build(A, s, 0)
        for k in range(1, case["d"] + 1):
            sub = dict(s, b=s["b"][:k], y=s["y"][:k], D=s["D"][:k, :k])
            R = lin.reference(case, A[:k], sub)
            m, S = R.map()
            want = dict(mud=lin.F(R.mud()), map=lin.F(m), ls=lin.F(R.ls()))
            sc = lin.scale_of(*want.values(), s["y"])
            got = dict(zip(("mud", "map", "ls"), P.solve("all", output_dim=k)))
            for n in want:
                c.close(P.solve(n, output_dim=np.int64(k) if k % 2 else np.array([k])[0]), want[n], f"{n} restricted to {k} outputs", rtol=1e-6, atol=1e-7 * sc)
                c.close(got[n], want[n], f"{n} of all, restricted to {k} outputs", rtol=1e-6, atol=1e-7 * sc)
            if R.rank == k:
                c.close(P.solve("mud_alt", output_dim=k), want["mud"], f"mud_alt restricted to {k} outputs", rtol=1e-5, atol=1e-6 * sc)
        same(c, P, A, s, "truncated solves")
        return
    data = setup(case["pair"])
    for t in itertools.product(OPS, repeat=case["tail"]):
        h = [OPS[i] for i in case["pre"]] + list(t)
        Ps = [lin.build(A, s, 0) for A, s, *_ in data]
        try:
            for op in h:
                apply(op, Ps, data, c)
            for P, (A, s, *_) in zip(Ps, data):
                same(c, P, A, s, "the history")
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise type(e)(f"after {h}: {e}")
            raise
        c.bump("sequences")
