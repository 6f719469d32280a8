RULE = """Every num_obs (omitted, 1..5) of every available number 1..5 (and selected ones of 6, 12, 37 and 130), every noise vector over {-1,0,2}^num_obs up to three (two generic ones
beyond) answered by a harness-owned normal source, three deviations, samples and outputs one- and two-dimensional, reference as vector and
list, with and without weights and domain; every sequence of disjoint ordered groups of observations up to five observations (and
with higher indices cut off by num_obs); linear and log likelihood; every count below 1 and above the available number.
Data-constructed wrapper: every field given or left out, all three methods, four initial densities. Oracle: the weighted mean error written out
term by term with the tape's noise, closed-form normal likelihoods, and the reference density model for the resulting estimates."""
import itertools, math
import numpy as np
from mc import ref, alpha, rng, forms

def groups(n, maxlen=3):
    """every sequence of disjoint non-empty ordered groups drawn from range(n)"""
    def rec(left, sofar):
        if sofar:
            yield sofar
        if len(sofar) == maxlen:
            return
        for r in range(1, len(left) + 1):
            for g in itertools.permutations(left, r):
                yield from rec([x for x in left if x not in g], sofar + [list(g)])
    yield from rec(list(range(n)), [])

def cases(tier):
    for N in range(1, 6):
        for no in [None] + list(range(1, N + 1)):
            k = N if no is None else no
            tapes = list(itertools.product((-1.0, 0.0, 2.0), repeat=k)) if k <= 3 else [tuple(0.3 * (-1) ** i * (i + 1) for i in range(k)), (1.0,) + (0.0,) * (k - 1)]
            for t in tapes:
                for f in range(4):
                    yield dict(w="mud", N=N, no=no, t=list(t), f=f)
                    yield dict(w="map", N=N, no=no, t=list(t), f=f)
    for N in range(1, 5 if tier == "quick" else 6):
        for i, g in enumerate(groups(N)):
            for extra in (0, 1):
                if N == 4 and tier == "quick" and (i + extra) % 5:
                    continue
                yield dict(w="split", N=N, g=g, extra=extra, f=i % 4)
    for N, g in ((1, [[0, 0]]), (2, [[0, 0, 1]]), (2, [[1, 0, 1]]), (2, [[0, 1], [1]]), (2, [[0, 1], [0, 1]]), (3, [[2, 2], [0, 1, 0]]), (3, [[0, 1, 2, 2, 2]]), (3, [[0, 1], [1, 2], [2, 0]]), (4, [[3, 0, 3, 1], [2]]),
                 (5, [[0, 1, 2, 3, 4], [4, 4], [1, 3]])):
        for extra in (0, 1):
            for f in range(4):
                yield dict(w="split", N=N, g=g, extra=extra, f=f)
    for N, g in ((1, [[], [0]]), (2, [[], [1, 0]]), (2, [[0, 1], []]), (2, [[0], [], [1]]), (3, [[2, 0], [], [1]]), (4, [[], [], [3, 1]])):
        for f in range(4):
            yield dict(w="split", N=N, g=g, extra=2, f=f)
    for N in (6, 12, 37, 130):
        for no in (None, 1, 2, N // 2, N - 1, N):
            k = N if no is None else no
            for f in range(4):
                for w in ("mud", "map"):
                    yield dict(w=w, N=N, no=no, t=[0.3 * (-1) ** i * (1 + i % 5) for i in range(k)], f=f)
    for N in (9, 24):
        for g in ([list(range(N))], [list(range(0, N, 2)), list(range(1, N, 2))], [list(range(N // 3)), list(range(N // 3, N))], [list(range(i, N, 3)) for i in range(3)], [[i, N - 1 - i] for i in range(4)],
                  [[0], list(range(1, N))]):
            for extra in (0, 1):
                for f in range(4):
                    yield dict(w="split", N=N, g=g, extra=extra, f=f)
    for N in range(1, 6):
        for no in (-2, -1, 0, N + 1, N + 2, 100):
            yield dict(bad=no, N=N)
    for i in range(96):
        yield dict(w="data", i=i)
        for g in (((5, 1, 2, 2), (9, 3, 1, 4)), ((8, 4, 3, 2), (12, 1, 4, 1)), ((30, 5, 3, 3), (10, 2, 6, 1)))[i % 3]:
            yield dict(w="data", i=i, g=list(g))
    for N in (1, 2, 4, 9):
        for p in (1, 2, 3, 5):
            for f in range(4):
                for w in ("mud", "map"):
                    yield dict(w=w, N=N, no=None if p % 2 else N, t=[0.3 * (-1) ** i * (1 + i % 5) for i in range(N)], f=f, p=p)
                if N > 2:
                    yield dict(w="split", N=N, g=[[0, 2], [1]], extra=f % 2, f=f, p=p)

SDS = [0.05, 1.0, 2.0, 0.5]

def inputs(N, f, p=None):
    n = 6 if p is None else 3 + 3 * p
    w0 = [1.0, 2.0, 0.5, 3.0, 1.0, 0.25]
    p = 1 + f % 2 if p is None else p
    X = alpha.seq(n, p, 2); Q = 2 * alpha.gen(n, N, 3 + f) - 1
    true = np.array([0.2 - 0.3 * j for j in range(N)])
    dom = None if f == 2 else np.array([[-0.5, 1.5]] * p)
    w = (w0 * 4)[:n] if f == 3 else None
    lam = X.ravel() if p == 1 and f == 0 else X
    qoi = Q.ravel() if N == 1 and f < 2 else Q
    return X, Q, lam, qoi, (true.tolist() if f == 1 else true), true, dom, w, SDS[f]

def written(Q, d, sd):
    N = len(d)
    return np.array([sum((r[j] - d[j]) / sd for j in range(N)) / math.sqrt(N) for r in Q])

def problem_ok(c, D, X, q, dom, w, what):
    c.close(D.X, X, f"samples of {what}", rtol=0, atol=0)
    c.close(D.y, q, f"outputs of {what}", rtol=1e-11, atol=1e-11)
    dm = ref.domain_of(X, 0.1) if dom is None else dom
    c.close(D.domain, dm, f"domain of {what}", rtol=1e-12, atol=1e-12)
    ww = ref.combine(w, len(X))
    if ref.kde_ok(q, ww):
        R = ref.density(X, q, ww, None, None, None, dm)
        best = ref.argmax_set(R["up"], 1e-6)
        c.true(alpha.is_row(D.estimate(), X, best), f"estimate of {what}")
        c.close(D.expected_ratio(), np.sum(ww * R["r"]) / np.sum(ww), f"expected ratio of {what}", rtol=1e-6)

def run(case, c):
    from mud.funs import mud_problem, map_problem, data_prob
    if "bad" in case:
        N, no = case["N"], case["bad"]
        X, Q, lam, qoi, true, tv, dom, w, sd = inputs(N, 1)
        c.raises(lambda: mud_problem(lam, qoi, true, dom, sd, num_obs=no), f"num_obs {no} of {N}", ValueError)
        c.raises(lambda: map_problem(lam, qoi, true, dom, sd, num_obs=no), f"num_obs {no} of {N}", ValueError)
        c.raises(lambda: mud_problem(lam, qoi, true, dom, sd, num_obs=no, split=[np.array([0])]), f"num_obs {no} of {N}, split", ValueError)
        return
    if case["w"] == "data":
        return data(case["i"], c, *case.get("g", ()))
    N, f = case["N"], case["f"]
    if case["w"] == "split":
        M = N + 2 * min(case["extra"], 1)
        X, Q, lam, qoi, true, tv, dom, w, sd = inputs(M, f, case.get("p"))
        g = [list(x) for x in case["g"]]
        if case["extra"] == 2:
            # groups of which nothing is left
            g = [x if x else [N + 1, N][:1 + i % 2] for i, x in enumerate(g)]
        elif case["extra"]:
            # the same groups with indices at and beyond num_obs mixed in
            g = [[N + 1] + x if i % 2 else x[:1] + [N] + x[1:] for i, x in enumerate(g)]
        tape = [0.5 * (-1) ** i * (i + 1) for i in range(M)]
        snap = forms.snapshot([lam, qoi, true])
        with rng.normals(tape) as T:
            D = mud_problem(lam, qoi, true, dom, sd, num_obs=N if case["extra"] or f % 2 else None, split=[np.array(x) for x in g], weights=w)
        d = tv + sd * np.array(tape)
        if case["extra"] == 2:
            y = np.asarray(D.y, float); k = [i for i, x in enumerate(case["g"]) if x]
            c.true(y.shape == (len(X), len(g)), f"outputs of shape {y.shape} for the groups {g} with {N} observations")
            if T.used:
                c.close(y[:, k], np.array([written(Q[:, case["g"][i]], d[case["g"][i]], sd) for i in k]).T, f"features {k} of the groups {g} with {N} observations", rtol=1e-11, atol=1e-11)
            return
        q = np.array([written(Q[:, x], d[x], sd) for x in case["g"]]).T
        if T.used == 0:
            c.bump("noise_not_owned"); return
        problem_ok(c, D, X, q, dom, w, f"split {g}")
        c.true(forms.same([lam, qoi, true], snap), "arguments modified")
        return
    no = case["no"]; k = N if no is None else no
    X, Q, lam, qoi, true, tv, dom, w, sd = inputs(N, f, case.get("p"))
    tape = case["t"] + [77.0, -55.0, 33.0]
    d = tv[:k] + sd * np.array(case["t"])
    snap = forms.snapshot([lam, qoi, true])
    if case["w"] == "mud":
        with rng.normals(tape) as T:
            kw = dict(weights=w) if w else {}
            D = mud_problem(lam, qoi, true, dom, sd, no, **kw) if no is None or f % 2 else mud_problem(lam, qoi, true, dom, sd=sd, num_obs=no, **kw)
        if T.used == 0 and not np.allclose(D.y.ravel(), written(Q[:, :k], tv[:k], sd)):
            c.bump("noise_not_owned"); return
        problem_ok(c, D, X, written(Q[:, :k], d, sd).reshape(-1, 1), dom, w, f"problem with {k} of {N} observations")
    else:
        log = bool(f % 2)
        with rng.normals(tape) as T:
            B = map_problem(lam, qoi, true, dom, sd, no, log) if f % 2 else map_problem(lam, qoi, true, dom, sd=sd, num_obs=no)
        c.close(B.X, X, "samples", rtol=0, atol=0); c.close(B.y, Q[:, :k], "outputs used", rtol=0, atol=0)
        dm = ref.domain_of(X, 0.1) if dom is None else dom
        c.close(B.domain, dm, "domain", rtol=1e-12, atol=1e-12)
        L = ref.norm_logpdf(Q[:, :k], d, sd).sum(1)
        lik = np.exp(L)
        if not log and lik.max() < 1e-280:
            if lik.max() == 0 and L.max() < -800:
                c.raises(B.estimate, "vanishing posterior", ValueError)
            return
        pt = B.estimate()
        best = [i for i in range(len(X)) if L[i] >= L.max() - 1e-9 * max(1, abs(L.max()))]
        c.true(alpha.is_row(pt, X, best), f"MAP estimate {np.asarray(pt).tolist()} with log likelihoods {L.tolist()}")
        ps = getattr(B, "_ps", None)
        if ps is not None:
            ps = np.asarray(ps, float)
            c.close(np.exp(ps - ps.max()) if log else ps / ps.max(), np.exp(L - L.max()), "posterior", rtol=1e-6, atol=1e-12)
    if T.used == 0 and sd and np.any(case["t"]):
        c.fail("no noise was drawn for the measurements")
    c.true(forms.same([lam, qoi, true], snap), "arguments modified")

def data(i, c, n=7, p=2, S=2, T=3):
    from mud.funs import data_prob
    std = (n, p, S, T) == (7, 2, 2, 3)
    wide = not std and i < 24          # samples outside the unit interval, where the default initial density vanishes
    X = (1.3 if wide else 1.0) * alpha.seq(n, p, 1) - (0.15 if wide else 0.0); Y = 2 * alpha.gen(n, S * T, 4) - 1
    m = np.array([0.1 * j - 0.2 for j in range(S * T)])
    sd = [0.4, 1.5][i % 2]
    method = ["wme", "pca", "svd"][(i // 2) % 3]
    spec = [None, ["unif", -0.2, 1.5], ["norm", 0.4, 0.5], ["expon", -0.1, 0.7]][(i // 6) % 4]
    dom = [None, np.array([[-0.5, 1.5], [-0.25, 1.25], [0.0, 1.0], [-1.0, 1.0], [-0.1, 2.0]][:p])][(i // 24) % 2]
    both = (i // 48) % 2
    kw = dict(measurements=m, std_dev=sd)
    if both:
        kw.update(times=np.arange(T), sensors=np.array([[0.0, 1.0], [2.0, 3.0]]) if std else np.arange(2.0 * S).reshape(S, 2), qoi_true=m * 0.5)
        if dom is not None:
            kw.update(lam_ref=[0.3, 0.4, 0.9, 0.1, 1.5][:p])
        if not std:
            kw.update(sample_dist="n" if i % 2 else "u")
    if dom is not None:
        kw["domain"] = dom
    if method != "wme" or both:
        kw["method"] = method
    if spec is not None:
        kw["init_dist"] = alpha.mkdist(spec).scipy()
    snap = forms.snapshot([X, Y, m])
    D = data_prob(X, Y.reshape(n, S, T) if both else Y, **kw)
    R = (m - Y) / sd
    if method == "wme":
        q = R.sum(1).reshape(-1, 1) / math.sqrt(S * T)
        c.close(D.y, q, "outputs", rtol=1e-10, atol=1e-11)
    else:
        Z = (R - R.mean(0)) / R.std(0)
        V = np.linalg.svd(Z)[2][:2]
        q = R @ V.T
        g = np.asarray(D.y, float)
        c.true(g.shape == q.shape, f"outputs of shape {g.shape}")
        q = q * np.where(np.sum(g * q, axis=0) < 0, -1, 1)
        c.close(g, q, "outputs up to sign", rtol=1e-7, atol=1e-8)
    c.close(D.X, X, "samples")
    dm = np.array([X.min(0), X.max(0)]).T if dom is None else dom
    c.close(D.domain, dm, "domain")
    RR = ref.density(X, q, np.ones(n), alpha.mkdist(spec or ["unif", 0.0, 1.0]).joint, None, None, dm)
    if RR["up"].max() > 0:
        c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(RR["up"], 1e-6)), "estimate")
        up = alpha.updated_values(D)
        if up is not None and up.shape == (n,):
            c.close(up / up.max(), RR["up"] / RR["up"].max(), "updated density relative to its maximum", rtol=1e-6, atol=1e-9)
    c.close(D.expected_ratio(), RR["r"].mean(), "expected ratio", rtol=1e-6)
    c.true(forms.same([X, Y, m], snap), "arguments modified")
