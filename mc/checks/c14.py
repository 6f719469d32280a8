RULE = """Every operator with entries from {-1,0,2} of 1..4 observations by 1..3 parameters (repeated: one row, 1..4 observations) with every
data vector over {-1,0,3} up to three observations (generic ones beyond, up to 130, and in units of 2^-25 and 2^40), deviations as int, float, numpy scalar,
list, tuple and array, data as list, tuple, vector, array or nested-list column and row; stacks of 1..3 (generic: up to 8) quantities of interest mixing both kinds; every
mismatching row count and every position of a non-positive deviation. Oracle: the weighted mean error written out term
by term; class, map and setup functions against it, the repeated against the written-out operator, and the solutions of the class
against independently solved systems."""
import itertools, math
import numpy as np
from mc import alpha, forms

SD = [1.0, 2, 0.5, 1e-3, 250.0]

def cases(tier):
    ent = (-1, 0, 2); dat = (-1, 0, 3)
    for p in (1, 2, 3):
        for N in (1, 2, 3, 4):
            if 3 ** p * 3 ** N <= (800 if tier == "quick" else 1e9):
                for op in itertools.product(ent, repeat=p):
                    yield dict(rep=1, p=p, op=list(op), N=N)
    for N, p in ((1, 1), (1, 2), (1, 3), (2, 1), (3, 1), (4, 1), (2, 2), (2, 3), (3, 2)) + (((4, 2), (3, 3)) if tier == "thorough" else ()):
        for op in itertools.product(ent, repeat=N * p):
            if N * p >= 6 and tier == "quick" and sum(op) % 3:
                continue
            yield dict(rep=0, p=p, op=list(op), N=N)
    for N in (5, 10, 40):
        for p in (1, 2, 5, 10):
            for rep in (0, 1):
                yield dict(rep=rep, p=p, N=N, gen=1)
    for nq in (1, 2, 3):
        for kinds in itertools.product((0, 1), repeat=nq):
            for Ns in itertools.product((1, 2, 3), repeat=nq):
                for p in (1, 2, 3):
                    for f in range(3):
                        yield dict(stack=[list(kinds), list(Ns)], p=p, f=f)
    for nq in (4, 5, 8):
        for k in range(4):
            for p in (1, 3, 6, 8):
                for f in range(3):
                    yield dict(stack=[[(i + k) % 3 == 0 and k > 0 for i in range(nq)], [1 + (5 * i + 3 * k) % 12 for i in range(nq)]], p=p, f=f)
    for N in (1, 2, 5, 130):
        for p in (1, 2, 4):
            for rep in (0, 1):
                for v in (-25, 40):
                    yield dict(rep=rep, p=p, N=N, gen=1, unit=v)
    for N in range(2, 6):
        for rows in range(2, 7):
            if rows != N:
                yield dict(bad="rows", N=N, rows=rows)
        for m in range(0, 7):
            if m != N:
                yield dict(bad="std", N=N, m=m)
        for j in range(N):
            for v in (0.0, -1.0, -1e-3, 1e-16):
                yield dict(bad="pos", N=N, j=j, v=v)
    for N in range(1, 6):
        for k in range(3):
            yield dict(bad="rep", N=N, k=k)

def want(op, d, s):
    """row and offset of (1/sqrt N) sum_j (M_j x - d_j)/s_j, one term at a time"""
    N = len(d)
    s = [s] * N if np.ndim(s) == 0 else list(s)
    A = np.zeros(op.shape[1]); b = 0.0
    for j in range(N):
        A += op[j if op.shape[0] > 1 else 0] / float(s[j]) / math.sqrt(N)
        b -= float(d[j]) / float(s[j]) / math.sqrt(N)
    return A, b

def fns(c, op, d, s, what, A, b, forms_ok=True):
    from mud.util import transform_linear_map, transform_linear_setup
    from mud.base import LinearWMEProblem
    sc = max(1.0, np.abs(A).max(), abs(b)); kw = dict(rtol=1e-12, atol=1e-12 * sc)
    if isinstance(s, np.float32):
        kw = dict(rtol=1e-6, atol=1e-6 * sc)       # computed in the precision of the deviation
    o0 = forms.snapshot([op, d, s])
    a1, b1 = transform_linear_map(op, d, s)
    c.close(np.ravel(a1), A, f"map of {what}", **kw); c.close(np.ravel(b1), [b], f"offset of {what}", **kw)
    for opl, dl, sl in (([op], [d], [s]),) + ((([op], [d], s),) if np.isscalar(s) else ()):
        a2, b2 = transform_linear_setup(opl, dl, sl)
        c.close(a2, A.reshape(1, -1), f"setup map of {what}", **kw); c.close(b2, [[b]], f"setup offset of {what}", **kw)
        P = LinearWMEProblem(opl, dl, sl)
        c.close(P.A, A.reshape(1, -1), f"problem map of {what}", **kw); c.close(P.b, [[b]], f"problem offset of {what}", **kw)
    c.true(forms.same([op, d, s], o0), f"arguments of {what} modified")
    return P

def run(case, c):
    if "bad" in case:
        return bad(case, c)
    if "stack" in case:
        return stack(case, c)
    from mud.util import transform_linear_map
    N, p, rep = case["N"], case["p"], case["rep"]
    if case.get("gen"):
        op = 2 * alpha.gen(1 if rep else N, p, N) - 1
        datas = [2 * alpha.gen(N, 1, k).ravel() - 1 for k in range(3)]
        if "unit" in case:
            op = np.ldexp(op, case["unit"]); datas = [np.ldexp(d, case["unit"]) for d in datas]
    else:
        op = np.array(case["op"], float).reshape(-1, p)
        datas = [np.array(d, float) for d in itertools.product((-1, 0, 3), repeat=N)] if N <= 3 else [2 * alpha.gen(N, 1, k).ravel() - 1 for k in range(2)] + [np.arange(N) + 1.0]
    for k, d in enumerate(datas):
        sds = [SD[k % len(SD)], np.float64(SD[(k + 1) % len(SD)]), [np.int64(2), np.float32(0.5), np.int32(3)][k % 3]]
        if op.shape[0] > 1:
            v = [SD[(k + j) % 3] for j in range(N)]
            sds += [[v, tuple(v), np.array(v), [int(x) + 1 for x in v]][k % 4]]
        if "unit" in case:
            sds = [np.ldexp(np.array(s, float), case["unit"]) for s in sds]
            sds = [float(s) if s.ndim == 0 else s for s in sds]
        for s in sds:
            A, b = want(op, d, s)
            layout = [d, d.reshape(-1, 1), d.reshape(1, -1), d.tolist(), d.astype(int) if np.all(d == np.floor(d)) else d, tuple(d.tolist()), d.reshape(-1, 1).tolist(), d.reshape(1, -1).tolist()][k % 8]
            o = op.astype(int) if k % 4 == 3 and np.all(op == np.floor(op)) else op
            fns(c, o, layout, s, f"operator {case.get('op')} data {d.tolist()[:5]} deviation {s!r}", A, b)
        # a repeated operator says the same as its row written once per observation
        if op.shape[0] == 1 and N > 1 and "unit" not in case:
            a1, b1 = transform_linear_map(np.vstack([op] * N), d, 2.0)
            A, b = want(op, d, 2.0)
            c.close(np.ravel(a1), A, "operator written once per observation", rtol=1e-12, atol=1e-12); c.close(b1, b, "its offset", rtol=1e-12, atol=1e-12)

def stack(case, c):
    from mud.util import transform_linear_setup
    from mud.base import LinearWMEProblem
    kinds, Ns = case["stack"]; p = case["p"]; f = case["f"]; nq = len(Ns)
    ops = [2 * alpha.gen(1 if k else n, p, 5 + i) - 1 for i, (k, n) in enumerate(zip(kinds, Ns))]
    ds = [2 * alpha.gen(n, 1, 9 + i).ravel() for i, n in enumerate(Ns)]
    if f == 0:
        sd = 0.7; each = [0.7] * nq
    elif f == 1:
        sd = each = [0.5 + i for i in range(nq)]
    else:
        sd = each = [np.array([0.5 + 0.25 * j + i for j in range(n)]) if not k and n > 1 else (float, np.float64, np.int64, int)[i % 4](2 + i) for i, (k, n) in enumerate(zip(kinds, Ns))]
    rows, offs = zip(*[want(o, d, s) for o, d, s in zip(ops, ds, each)])
    A, b = np.vstack(rows), np.array(offs).reshape(-1, 1)
    lay = [(d.tolist(), d.reshape(-1, 1), d.reshape(-1, 1).tolist(), d.reshape(1, -1).tolist())[(i + f) % 4] for i, d in enumerate(ds)]
    a2, b2 = transform_linear_setup(ops, lay, sd)
    c.close(a2, A, "stacked map", rtol=1e-12, atol=1e-12); c.close(b2, b, "stacked offset", rtol=1e-12, atol=1e-12)
    # one operator object, and one data object, listed for every quantity of interest
    for op in (2 * alpha.gen(1, p, 3) - 1, 2 * alpha.gen(Ns[0], p, 4) - 1):
        dd = [ds[0]] * nq if f == 1 else [ds[0] * (1 + i) - 0.5 * i for i in range(nq)]
        ss = [1.5] * nq if f == 0 else [0.5 + 1.25 * i for i in range(nq)] if f == 1 or len(op) == 1 else [np.linspace(0.5, 1.0 + i, len(op)) for i in range(nq)]
        w = [want(op, q, v) for q, v in zip(dd, ss)]
        for g, how in ((transform_linear_setup([op] * nq, dd, ss), "function"), ((lambda P: (P.A, P.b))(LinearWMEProblem([op] * nq, dd, ss)), "problem")):
            c.close(g[0], np.vstack([x[0] for x in w]), f"map of one operator listed {nq} times ({how})", rtol=1e-12, atol=1e-12)
            c.close(g[1], np.array([[x[1]] for x in w]), f"offset of one operator listed {nq} times ({how})", rtol=1e-12, atol=1e-12)
    m = np.arange(p).reshape(-1, 1) * 0.5 + 0.25; C = np.eye(p) * 2 + 0.5; Do = np.eye(nq) * 1.5 + 0.25; y = np.arange(nq).reshape(-1, 1) * 0.3
    for kw in (dict(), dict(y=y, mean_i=m, cov_i=C, cov_o=Do, alpha=4.0)):
        P = LinearWMEProblem(ops, lay, sd, **kw)
        c.close(P.A, A, "map of the problem", rtol=1e-12, atol=1e-12); c.close(P.b, b, "offset of the problem", rtol=1e-12, atol=1e-12)
        yy, mm, CC, DD, al = (y, m, C, Do, 4.0) if kw else (np.zeros((nq, 1)), np.zeros((p, 1)), np.eye(p), np.eye(nq), 1.0)
        for got, wnt, n in ((P.y, yy, "data"), (P.mean_i, mm, "initial mean"), (P.cov_i, CC, "initial covariance"), (P.cov_o, DD, "data covariance")):
            c.close(got, wnt, f"{n} of the problem", shape=False)
        if np.linalg.matrix_rank(A) == nq:
            s = np.linalg.svd(A, compute_uv=False)
            if s[-1] > 1e-3 * s[0]:
                z = yy - b - A @ mm
                c.close(P.solve("mud"), mm + CC @ A.T @ np.linalg.solve(A @ CC @ A.T, z), "its MUD point", rtol=1e-6, atol=1e-7)
                aC = al * CC
                c.close(P.solve("map"), mm + aC @ A.T @ np.linalg.solve(A @ aC @ A.T + DD, z), "its MAP point", rtol=1e-6, atol=1e-7)
                c.close(P.solve("ls"), np.linalg.lstsq(A, yy - b, rcond=None)[0], "its least-squares point", rtol=1e-6, atol=1e-7)

def bad(case, c):
    from mud.util import transform_linear_map, transform_linear_setup
    from mud.base import LinearWMEProblem
    N = case["N"]; d = np.arange(N) + 1.0
    def both(op, dd, s, what):
        o = [[op], [dd], [s]]
        c.raises(lambda: transform_linear_map(op, dd, s), f"map: {what}")
        c.raises(lambda: transform_linear_setup(*o), f"setup: {what}")
        c.raises(lambda: LinearWMEProblem(*o), f"problem: {what}")
    if case["bad"] == "rows":
        op = alpha.gen(case["rows"], 2)
        for s in (1.0, [1.0] * N, np.ones(case["rows"])):
            both(op, d, s, f"{case['rows']} rows for {N} observations")
            both(op, d.tolist(), s, f"{case['rows']} rows for {N} observations")
    elif case["bad"] == "std":
        op = alpha.gen(N, 2)
        for s in ([1.0] * case["m"], np.ones(case["m"]), (1.0,) * case["m"]):
            both(op, d, s, f"{case['m']} deviations for {N} observations")
    elif case["bad"] == "pos":
        s = [1.0] * N; s[case["j"]] = case["v"]
        for ss in (s, np.array(s), tuple(s)):
            both(alpha.gen(N, 2), d, ss, f"deviations {s}")
        both(alpha.gen(N, 2), d, case["v"], f"deviation {case['v']}")
        both(alpha.gen(1, 2), d, case["v"], f"deviation {case['v']}, repeated")
    else:
        s = [[1.0] * N, (1.0,) * N, np.ones(N)][case["k"]]
        both(alpha.gen(1, 3), d, s, "per-observation deviations with a repeated operator")
