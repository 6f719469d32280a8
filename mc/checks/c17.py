RULE = """All row orders (with repetition, up to length 3; omitted, list, tuple, array, range) of every map of shapes 1x1..3x2 with entries from
small sets (zero rows included) and generic maps up to 6x9, three settings of offset, data, mean, covariance and data covariance; and all
10 and 25 epochs in one and several calls; units 2^-45 and 2^45; operation sequences up to depth 4 (5 thorough) over: solve 0-3 epochs by MUD, MAP, least squares, error queries against two references in
three layouts, error and chain plots, on two problems used alternately. Oracle: the chain computed row by row from the one-row formulas; after each
MUD step the visited equation holds; consistent systems never move away in the covariance-weighted norm. The functional helpers
are compared with the same chain for every epoch count and order."""
import itertools
import numpy as np
from mc import alpha, lin, plots

CASE_LIMIT = 3600

def problems():
    out = []
    for d, p, ent in ((1, 1, (-1, 0, 2)), (1, 2, (-1, 0, 2)), (2, 1, (-1, 0, 2)), (2, 2, (0, 1, -1)), (3, 1, (0, 1)), (3, 2, (0, 1)), (2, 3, (0, 1))):
        for e in itertools.product(ent, repeat=d * p):
            out.append((d, p, list(e)))
    return out

def orders(d):
    yield None
    for k in (1, 2, 3):
        yield from (list(o) for o in itertools.product(range(d), repeat=k))

OPS = ["s1", "s2", "s3", "m1", "l1", "a1", "e0", "e1", "e2", "pe", "pc", "X:s1", "X:e0", "X:m2"]

def cases(tier):
    for d, p, e in problems():
        for i in range(3):
            yield dict(d=d, p=p, e=e, i=i)
    for d, p, s in ((3, 4, 0), (4, 4, 1), (6, 9, 2), (5, 2, 3), (8, 3, 4)):
        for i in range(3):
            yield dict(d=d, p=p, s=s, i=i)
    for d, p, s in ((3, 4, 0), (5, 2, 3), (8, 3, 4), (12, 12, 5)):
        for i in range(3):
            for e in (10, 25):
                yield dict(d=d, p=p, s=s, i=i, long=e)
    for d, p, e in ((1, 2, [1, 2]), (2, 2, [1, 2, -1, 1]), (3, 2, [1, 0, 0, 1, 1, -1]), (2, 3, [1, 0, -1, 0, 0, 0])):
        for i in range(3):
            for u in (-45, 0, 45):
                for v in (-45, 0, 45):
                    if u or v:
                        yield dict(d=d, p=p, e=e, i=i, unit=[u, v])
    depth = 4 if tier == "quick" else 5
    for k in range(1, depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
            yield dict(pre=list(h), tail=min(k, 2))

def setting(i, d, p, A):
    """(b, y, mean, C, D) ; i == 2 is a consistent system"""
    b, y, m, C, D, a = lin.SET[(1, 3, 4)[i]]
    s = dict(b=lin.vec(b, d), y=lin.vec(y, d) + 0.25, mean=lin.vec(m, p), C=lin.spd(C, p), D=lin.spd(D, d))
    s["sol"] = None
    if i == 2:
        s["sol"] = lin.vec(2, p) * 0.5 + 0.125
        s["y"] = A @ s["sol"] + s["b"]
    return s

def step(method, a, b, y, x, C, dd):
    a = a.reshape(1, -1)
    q = (a @ C @ a.T).item(); z = y - b - (a @ x).item()
    if method in ("mud", "mud_alt"):
        return x if q == 0 else x + C @ a.T * z / q
    if method == "map":
        return x + C @ a.T * z / (q + dd)
    n = (a @ a.T).item()
    return np.zeros_like(x) if n == 0 else a.T * (y - b) / n

def chain(A, s, order, epochs, method, x):
    out = []
    for _ in range(epochs):
        c = [x]
        for i in order:
            x = step(method, A[i], s["b"][i, 0], s["y"][i, 0], x, s["C"], s["D"][i, i])
            c.append(x)
        out.append(c)
    return out

def run(case, c):
    if "pre" in case:
        return history(case, c)
    if "long" in case:
        return long(case, c)
    if "unit" in case:
        return units(case, c)
    from mud.base import IterativeLinearProblem
    from mud.funs import iter_lin_solve, performEpoch, iterate
    d, p, i = case["d"], case["p"], case["i"]
    A = lin.matrix(case); s = setting(i, d, p, A)
    Ci = np.linalg.inv(s["C"])
    ords = list(orders(d)) if d * p <= 6 else [None, [0], list(range(d))[::-1], [d - 1, 0, 1], [i % d for i in range(2 * d)]]
    for k, o in enumerate(ords):
        oo = list(range(d)) if o is None else o
        form = o if o is None else [o, tuple(o), np.array(o), o][k % 4]
        method = ("mud", "map", "ls")[k % 3] if k % 5 == 4 else "mud"
        args = (A.copy(), s["b"].copy() if k % 2 else s["b"].ravel(), s["y"].copy() if k % 3 else s["y"].ravel())
        kw = dict(mu_i=s["mean"].copy() if k % 2 else s["mean"].ravel(), cov=s["C"].copy(), data_cov=s["D"].copy())
        want = chain(A, s, oo, 3, method, s["mean"])
        sc = lin.scale_of(*[x for ch in want for x in ch], s["y"]); tol = dict(rtol=1e-8, atol=1e-9 * sc)
        P = IterativeLinearProblem(*args, idx_order=form, **kw)
        last = P.solve(2, method=method) if k % 2 else P.solve(num_epochs=2, method=method)
        c.close(last, want[1][-1], f"point after two epochs over {o}", **tol)
        c.close(P.solve(method=method), want[2][-1], f"point after one more epoch over {o}", **tol)
        ch = P.solution_chains
        c.true([len(x) for x in ch] == [len(x) for x in want], f"chain lengths {[len(x) for x in ch]}")
        for got, w in zip([x for q in ch for x in q], [x for q in want for x in q]):
            c.close(got, w, f"visited point of {o}", **tol)
        r = iter_lin_solve(*args, mean=kw["mu_i"], cov=kw["cov"], data_cov=kw["data_cov"], method=method, num_epochs=3, idx_order=form)
        c.close(r, want[2][-1], f"functional entry point, three epochs over {o}", **tol)
        if method == "mud":
            prev = None
            for q in ch:
                for j, x in zip(oo, q[1:]):
                    if (A[j] @ s["C"] @ A[j]).item() > 0:
                        c.close(A[j] @ x + s["b"][j], s["y"][j], "visited equation", rtol=1e-7, atol=1e-7 * sc)
                if s["sol"] is not None:
                    dist = [((x - s["sol"]).T @ Ci @ (x - s["sol"])).item() for x in q]
                    c.true(all(v <= u + 1e-8 * sc * sc for u, v in zip(dist, dist[1:])), f"distance to a solution grows: {dist}")
            for e in (1, 2, 3):
                got = iterate(A.copy(), args[1], args[2], kw["mu_i"], kw["cov"], num_epochs=e, idx=form)
                w = [x for q in want[:e] for x in q]
                c.true(len(got) == len(w), f"{len(got)} points from {e} epochs")
                for g, x in zip(got, w):
                    c.close(np.ravel(g), x.ravel(), f"helper point, {e} epochs over {o}", **tol)
            got = performEpoch(A.copy(), args[1], args[2], kw["mu_i"], kw["cov"], None, form)
            for g, x in zip(got, want[0]):
                c.close(np.ravel(g), x.ravel(), f"epoch helper point over {o}", **tol)
            c.true(len(got) == len(want[0]), "epoch helper length")
    if np.all(A == np.floor(A)):          # an integer map, and integer offsets with fractional means and the other way round
        for AA, bb, mm in ((A.astype(int), s["b"], s["mean"] + 0.375), (A.astype(int), np.floor(s["b"]).astype(int), s["mean"] + 0.375), (A, s["b"], np.round(s["mean"]).astype(int)), (A.astype(int), s["b"], np.round(s["mean"]).astype(int))):
            s2 = dict(s, b=np.asarray(bb, float), mean=np.asarray(mm, float))
            for method in ("mud", "map"):
                want = chain(A, s2, range(d), 2, method, s2["mean"]); pts = [x for q in want for x in q]; t2 = dict(rtol=1e-8, atol=1e-9 * lin.scale_of(*pts, s["y"]))
                P = IterativeLinearProblem(AA.copy(), bb.copy(), s["y"].copy(), mu_i=mm.copy(), cov=s["C"].copy(), data_cov=s["D"].copy())
                P.solve(2, method=method)
                for g, x in zip([x for q in P.solution_chains for x in q], pts):
                    c.close(g, x, f"visited point, map {AA.dtype}, offset {bb.dtype}, mean {mm.dtype}", **t2)
                c.close(iter_lin_solve(AA.copy(), bb.copy(), s["y"].copy(), mean=mm.copy(), cov=s["C"].copy(), data_cov=s["D"].copy(), method=method, num_epochs=2), pts[-1], f"functional entry point, map {AA.dtype}, mean {mm.dtype}", **t2)
    # defaults
    P = IterativeLinearProblem(A.copy(), s["b"].copy())
    s0 = dict(b=s["b"], y=np.zeros((d, 1)), C=np.eye(p), D=np.eye(d))
    c.close(P.solve(), chain(A, s0, range(d), 1, "mud", np.zeros((p, 1)))[-1][-1], "defaults", rtol=1e-8, atol=1e-8)

def long(case, c):
    """many epochs, in one call and in several"""
    from mud.base import IterativeLinearProblem
    from mud.funs import iter_lin_solve
    d, p, i, e = case["d"], case["p"], case["i"], case["long"]
    A = lin.matrix(case); s = setting(i, d, p, A)
    for o in (None, list(range(d))[::-1], [k % d for k in range(3 * d)]):
        for method in ("mud", "map"):
            want = chain(A, s, range(d) if o is None else o, e, method, s["mean"])
            sc = lin.scale_of(*[x for q in want for x in q]); tol = dict(rtol=1e-7, atol=1e-7 * sc)
            kw = dict(mu_i=s["mean"].copy(), cov=s["C"].copy(), data_cov=s["D"].copy())
            P = IterativeLinearProblem(A.copy(), s["b"].copy(), s["y"].copy(), idx_order=o, **kw)
            c.close(P.solve(e, method=method), want[-1][-1], f"point after {e} epochs", **tol)
            Q = IterativeLinearProblem(A.copy(), s["b"].copy(), s["y"].copy(), idx_order=o, **kw)
            Q.solve(e - 3, method=method); Q.solve(1, method=method)
            c.close(Q.solve(2, method=method), want[-1][-1], f"point after {e} epochs in three calls", **tol)
            for X in (P, Q):
                c.true(len(X.solution_chains) == e, f"{len(X.solution_chains)} chains after {e} epochs")
                for got, w in zip(X.solution_chains, want):
                    c.true(len(got) == len(w), "chain length")
                    for g, x in zip(got, w):
                        c.close(g, x, "visited point", **tol)
            r = np.array([[0.25 * (k + 1)] for k in range(p)])
            c.close(P.get_errors(r), [np.linalg.norm(x - r) for q in want for x in q[1:]], "errors", rtol=1e-6, atol=1e-7 * sc)
            c.close(iter_lin_solve(A.copy(), s["b"].copy(), s["y"].copy(), mean=kw["mu_i"], cov=kw["cov"], data_cov=kw["data_cov"], method=method, num_epochs=e, idx_order=o), want[-1][-1], "functional entry point", **tol)

def units(case, c):
    from mud.base import IterativeLinearProblem
    d, p, i = case["d"], case["p"], case["i"]; u, v = case["unit"]
    A = lin.matrix(case); s = setting(i, d, p, A)
    B, t = lin.in_units(A, dict(s, alpha=1.0), u, v)
    from mud.funs import performEpoch, iterate
    for o, e in ((None, 1), (None, 9), ([k % d for k in range(7 * d)], 4), ([d - 1], 18)):
        want = [x for q in chain(A, s, range(d) if o is None else o, e, "mud", s["mean"]) for x in q]
        sc = lin.scale_of(*want)
        outs = [iterate(B, t["b"], t["y"], t["mean"], t["C"], num_epochs=e, idx=o)]
        if e == 1:
            outs.append(performEpoch(B, t["b"], t["y"], t["mean"], t["C"], None, o))
        for got in outs:
            c.true(len(got) == len(want), f"{len(got)} helper points, expected {len(want)}")
            for g, x in zip(got, want):
                c.close(np.ldexp(np.ravel(np.asarray(g, float)), -u), x.ravel(), f"helper point in units 2^{u}, 2^{v}", rtol=1e-7, atol=1e-7 * sc)
    for method in ("mud", "map", "ls"):
        want = chain(A, s, range(d), 3, method, s["mean"])
        sc = lin.scale_of(*[x for q in want for x in q])
        P = IterativeLinearProblem(B, t["b"], t["y"], mu_i=t["mean"], cov=t["C"], data_cov=t["D"])
        P.solve(3, method=method)
        for got, w in zip(P.solution_chains, want):
            for g, x in zip(got, w):
                c.close(np.ldexp(np.asarray(g, float), -u), x, f"visited point in units 2^{u}, 2^{v}", rtol=1e-7, atol=1e-7 * sc)
        r = np.full((p, 1), 0.4)
        c.close(np.ldexp(np.asarray(P.get_errors(np.ldexp(r, u)), float), -u), [np.linalg.norm(x - r) for q in want for x in q[1:]], "errors in other units", rtol=1e-6, atol=1e-7 * sc)

_H = {}

def setup():
    if not _H:
        for k, (d, p) in enumerate(((2, 2), (3, 2))):
            A = np.array([[1.0, 2.0], [-1.0, 1.0], [2.0, 0.5]][:d]) + k
            _H[k] = (A, setting(k, d, p, A), ([0, 1], [2, 0, 1])[k])
    return _H

def history(case, c):
    from mud.base import IterativeLinearProblem
    H = setup()
    refs = [np.array([[0.3], [-0.7]]), np.array([1.5, 0.25]), [0.0, 2.0]]
    for t in itertools.product(OPS, repeat=case["tail"]):
        h = [OPS[i] for i in case["pre"]] + list(t)
        Ps = [IterativeLinearProblem(A.copy(), s["b"].copy(), s["y"].copy(), mu_i=s["mean"].copy(), cov=s["C"].copy(), data_cov=s["D"].copy(), idx_order=list(o)) for A, s, o in (H[0], H[1])]
        model = [[], []]
        last = {}
        try:
            for op in h:
                w = 1 if op.startswith("X:") else 0
                o = op[2:] if w else op
                P = Ps[w]; A, s, order = H[w]
                pts = [x for q in model[w] for x in q[1:]]
                if o[0] in "smla":
                    m = dict(s="mud", m="map", l="ls", a="mud_alt")[o[0]]; n = int(o[1])
                    x0 = model[w][-1][-1] if model[w] else s["mean"]
                    model[w] += chain(A, s, order, n, m, x0)
                    c.close(P.solve(n, method=m), model[w][-1][-1], f"{op}", rtol=1e-8, atol=1e-8)
                elif o[0] == "e":
                    r = refs[int(o[1])]; rr = np.reshape(r, (-1, 1))
                    want = [np.linalg.norm(x - rr) for x in pts]
                    c.close(P.get_errors(r), want, f"errors ({op})", rtol=1e-8, atol=1e-8)
                    c.close(P.errors, want, f"stored errors ({op})", rtol=1e-8, atol=1e-8)
                elif o == "pe":
                    ax = plots.axes(); P.plot_chain_error(refs[1], ax=ax)
                    want = [np.linalg.norm(x - refs[1].reshape(-1, 1)) for x in pts]
                    c.close(plots.lines(ax)[0][1], want, "plotted errors", rtol=1e-8, atol=1e-8)
                    c.true(len(ax.lines) == 1, "one error curve")
                elif o == "pc":
                    ax = plots.axes(); P.plot_chain(refs[1], ax=ax)
                    last["pc"] = 1
                for q, (PP, (A2, s2, _)) in enumerate(zip(Ps, (H[0], H[1]))):
                    c.true(len(PP.solution_chains) == len(model[q]), f"chains of problem {q} after {op}")
            for PP, (A, s, o), mo in zip(Ps, (H[0], H[1]), model):
                for got, want in zip([x for q in PP.solution_chains for x in q], [x for q in mo for x in q]):
                    c.close(got, want, "stored chain", rtol=1e-8, atol=1e-8)
                for got, want, n in ((PP.A, A, "A"), (PP.b, s["b"], "b"), (PP.y, s["y"], "y"), (PP.mu_i, s["mean"], "mean"), (PP.cov, s["C"], "covariance"), (PP.data_cov, s["D"], "data covariance")):
                    c.close(got, want, f"{n} after the history", rtol=0, atol=0)
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise type(e)(f"after {h}: {e}")
            raise
        c.bump("sequences")
