RULE = """All weightings of a density problem: every vector over {0,1,2,5}^4, every pair of rows over {0,1,2}^3 and every
triple of rows over {0,1}^3 x scalings, given as lists, tuples, nested lists, arrays (int, float, bool), at construction, through
set_weights and through set_predicted(weights=), with and without normalisation, all row orders, and every wrong length.
Oracle: product of rows, 2-norm normalisation, closed-form updated density; refusals must leave the answers as they were."""
import itertools
import numpy as np
from mc import ref, alpha

S = (1e-6, 0.25, 1.0, 37.0, 1e8)

def cases(tier):
    n = 4
    for w in itertools.product((0, 1, 2, 5), repeat=n):
        if sum(x > 0 for x in w) > 1:
            yield dict(kind="vec", w=list(w))
    for a in itertools.product((0, 1, 2), repeat=3):
        for b in itertools.product((0, 1, 2), repeat=3):
            if sum(x * y > 0 for x, y in zip(a, b)) > 1:
                yield dict(kind="rows", w=[list(a), list(b)])
    sets = (0, 1) if tier == "quick" else (0, 1, 2)
    for t in itertools.product(itertools.product(sets, repeat=3), repeat=3):
        pr = [x * y * z for x, y, z in zip(*t)]
        if sum(v > 0 for v in pr) > 1:
            yield dict(kind="rows", w=[[(i + 1) * (2 + j) * v for j, v in enumerate(r)] for i, r in enumerate(t)])
    for n in (33, 129, 600):
        for rows in (1, 2, 3):
            yield dict(kind="big", n=n, rows=rows)
    for n in (4, 5, 10, 33):
        for rows in (4, 5, 10):
            yield dict(kind="big", n=n, rows=rows)
    for n in (2, 3, 5, 8):
        for m in range(0, 3 * n + 1):
            if m != n:
                for how in ("list", "array", "col", "stack"):
                    yield dict(kind="bad", n=n, m=m, how=how)

def problem(n):
    X = alpha.seq(n, 2, 1); y = 2 * alpha.seq(n, 1, 3) - 1
    return X, y

def forms(W):
    W = np.array(W, float)
    out = [("list", W.tolist()), ("array", W), ("f32", W.astype(np.float32)), ("fortran", np.asfortranarray(W))]
    if np.all(W == np.floor(W)):
        out += [("int", W.astype(int)), ("intlist", W.astype(int).tolist())]
        if np.all(W <= 1):
            out.append(("bool", W.astype(bool)))
    out.append(("tuple", tuple(W.tolist() if W.ndim == 1 else map(tuple, W.tolist()))))
    if W.ndim > 1:
        out.append(("tuplearr", tuple(r for r in W)))
    if W.ndim == 1:
        out.append(("row", W.reshape(1, -1)))
    else:
        out.append(("listarr", [r for r in W]))
    return out

def run(case, c):
    from mud.base import DensityProblem
    from scipy.stats import distributions as d
    if case["kind"] == "bad":
        n, m = case["n"], case["m"]
        X, y = problem(n)
        bad = {"list": [1.0 + i for i in range(m)], "array": 1.0 + np.arange(m), "col": None, "stack": [[1.0] * m, [2.0 + i for i in range(m)]]}[case["how"]]
        if case["how"] == "col":
            if m == 0:
                return
            bad = np.ones((n, m)) if m != n else np.ones((m, 1))     # transposed layout
        good = [1.0 + i for i in range(n)]
        c.raises(lambda: DensityProblem(X, y, weights=bad), f"construction with weights of shape {np.shape(bad)} for {n} samples")
        for asked in (False, True):
            D = DensityProblem(X.copy(), y.copy(), weights=good)
            D.set_initial(d.norm(0.3, 0.4)); D.set_observed(d.norm(0.1, 0.6)); D.set_predicted(d.norm(0, 1.3))
            ref_ = ref.density(X, y, np.array(good), lambda x: ref.norm_pdf(x, 0.3, 0.4).prod(1), lambda z: ref.norm_pdf(z, 0.1, 0.6).prod(1),
                               lambda z: ref.norm_pdf(z, 0, 1.3).prod(1), None)
            w = np.array(good)
            if asked:
                D.estimate()
            c.raises(lambda: D.set_weights(bad), f"set_weights with shape {np.shape(bad)} for {n} samples")
            c.raises(lambda: D.set_predicted(weights=bad), f"set_predicted(weights) with shape {np.shape(bad)} for {n} samples")
            c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(ref_["up"])), "estimate changed by refused weights")
            c.close(D.expected_ratio(), np.sum(w * ref_["r"]) / np.sum(w), "expected ratio after refused weights")
        return
    if case["kind"] == "big":
        n = case["n"]
        W = (0.5 + alpha.seq(n, case["rows"], 2).T).tolist() if case["rows"] > 1 else (0.5 + alpha.seq(n, 1, 2)).ravel().tolist()
    else:
        W = case["w"]; n = len(W) if np.ndim(W) == 1 else len(W[0])
    X, y = problem(n)
    w = ref.combine(W, n)
    if not ref.kde_ok(y, w):
        return
    initial, idist = lambda x: ref.norm_pdf(x, 0.3, 0.4).prod(1), d.norm(0.3, 0.4)

    def solved(make, what):
        D = make()
        c.true(alpha.is_row(D.estimate(), X, best), f"estimate with weights given as {what}: {D.estimate()}")
        up = alpha.updated_values(D)
        c.close(D.expected_ratio(), er, f"expected ratio with weights given as {what}", rtol=1e-6)
        return D, up
    m = ref.density(X, y, w, initial, None, None, None)
    best = ref.argmax_set(m["up"]); er = float(np.sum(w * m["r"]) / np.sum(w))

    def mk(wts, via, normalize=False):
        def f():
            D = DensityProblem(X.copy(), y.copy(), weights=wts if via == "init" else None, normalize=normalize if via == "init" else False)
            D.set_initial(idist)
            if via == "set":
                D.set_weights(wts, normalize=normalize) if normalize else D.set_weights(wts)
            elif via == "pred":
                D.set_predicted(weights=wts)
            return D
        return f
    for name, wts in forms(W):
        for via in ("init", "set", "pred"):
            D, up = solved(mk(wts, via), f"{name} via {via}")
            if up is not None:
                c.close(up, m["up"], f"updated density with weights as {name} via {via}", rtol=1e-6 if name != "f32" else 1e-4, atol=1e-10)
    for via in ("init", "set"):
        D, up = solved(mk(W, via, True), f"normalised via {via}")
        if up is not None:
            c.close(up, m["up"] / np.linalg.norm(w), "updated density with normalised weights", rtol=1e-6, atol=1e-12)
    for s in S:
        solved(mk((np.array(W, float) * s).tolist(), "init"), f"scaled by {s}")
    for s in (1e-30, 1e-12, 1e12, 1e30):
        for via in ("init", "set"):
            D, up = solved(mk((np.array(W, float) * s ** (1 / (len(W) if np.ndim(W) == 2 else 1))).tolist(), via, True), f"scaled by {s}, normalised via {via}")
            if up is not None:
                c.close(up, m["up"] / np.linalg.norm(w), f"updated density with normalised weights scaled by {s}", rtol=1e-6, atol=1e-12)
    if np.ndim(W) == 2:
        for perm in (itertools.permutations(range(len(W))) if len(W) <= 4 else [list(range(len(W)))[::-1], list(range(1, len(W))) + [0]]):
            solved(mk([W[i] for i in perm], "set"), f"row order {perm}")
        for s in S:
            W2 = [list(r) for r in W]; W2[-1] = [s * v for v in W2[-1]]
            solved(mk(W2, "init"), f"last row scaled by {s}")
    # resetting to None gives all ones again
    D = mk(W, "init")(); D.estimate(); D.set_weights(None)
    m1 = ref.density(X, y, np.ones(n), initial, None, None, None)
    c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(m1["up"])), "estimate after weights were reset to none")
    c.close(D.expected_ratio(), float(np.mean(m1["r"])), "expected ratio after weights were reset to none", rtol=1e-6)
