RULE = """All shapes of 3..8 samples x 1..3 sensors x 1..3 times and five up to 150 samples, 6 sensors, 12 times (generic data, and data with a constant observation), all three methods, every
component count, every selection of each dimension alone and a product of selections jointly, nine data weights, four sample weights and six stacks of them,
deviations (2^-30 to 2^30 of the data among them), domains given and inferred, built by assignment, three-dimensional and flat data; every wrong weight size and six unknown methods; all pairs of calls in
sequence on one problem. Oracle: residuals written out, singular value decomposition of the independently standardised residuals
(components compared up to sign), reference density model for the estimate and the expected ratio."""
import itertools, math
import numpy as np
from mc import ref, alpha, st, forms

def cases(tier):
    shapes = [(n, S, T) for n, S, T in itertools.product((3, 5, 8), (1, 2, 3), (1, 2, 3))]
    for n, S, T in shapes:
        for meth in ("wme", "pca", "svd"):
            kmax = min(n - 1, S * T) if meth != "wme" else 1
            for k in ([None] if min(n, S * T) >= 2 or meth == "wme" else []) + list(range(1, kmax + 1)):
                for w in range(9):
                    for v in range(2):
                        yield dict(n=n, S=S, T=T, m=meth, k=k, w=w, v=v, ms=None, mx=None, mt=None)
                one = [("ms", m) for m in st.masks(n, 1)[1:] if len(st.idx(m, n)) > 2] + [("mx", m) for m in st.masks(S, 2)[1:]] + [("mt", m) for m in st.masks(T, 2)[1:]]
                for i, (f, m) in enumerate(one):
                    if tier == "quick" and n == 8 and i % 3:
                        continue
                    yield dict(dict(n=n, S=S, T=T, m=meth, k=k, w=0, v=i % 2, ms=None, mx=None, mt=None), **{f: m})
    for n, S, T in ((5, 2, 3), (5, 3, 2), (6, 3, 3)):
        msl = [["l", [4, 1, 0, 2]], ["s", [None, None, -1]], ["b", [1, 1, 0, 1] + [1] * (n - 4)], ["l", [0, 0, 1, 3, 2]]]
        for ms, mx, mt in itertools.product(msl, st.masks(S, 2), st.masks(T, 2)):
            if mx is None and mt is None:
                continue
            for meth in ("wme", "pca", "svd"):
                yield dict(n=n, S=S, T=T, m=meth, k=1, w=0, v=len(ms[1]) % 2, ms=ms, mx=mx, mt=mt)
                yield dict(n=n, S=S, T=T, m=meth, k=1, w=0, v=1 - len(ms[1]) % 2, ms=ms, mx=mx, mt=mt)
    for n, S, T in ((40, 4, 5), (30, 1, 12), (12, 6, 2), (150, 2, 2), (7, 5, 5)):
        for meth in ("wme", "pca", "svd"):
            for k in (1, 2, 3, 4, 5) if meth != "wme" else (None,):
                if k and k > min(n - 1, S * T):
                    continue
                for w in range(9):
                    yield dict(n=n, S=S, T=T, m=meth, k=k, w=w, v=w % 2, ms=None, mx=None, mt=None)
                for f, m in [("mx", x) for x in st.big(S)] + [("mt", x) for x in st.big(T)] + [("ms", x) for x in st.big(n) if len(st.idx(x, n)) > 5]:
                    yield dict(dict(n=n, S=S, T=T, m=meth, k=k, w=0, v=int(f == "ms"), ms=None, mx=None, mt=None), **{f: m})
    for p in (1, 3, 5):
        for n, S, T in ((7, 2, 3), (12, 1, 2), (9, 3, 1), (40, 4, 5)):
            for meth in ("wme", "pca", "svd"):
                for k in ([None] if S * T > 1 else []) + ([1, 2] if meth != "wme" else []):
                    for w in range(9):
                        yield dict(n=n, S=S, T=T, m=meth, k=k, w=w, v=w % 2, ms=None, mx=None, mt=None, p=p)
                    yield dict(n=n, S=S, T=T, m=meth, k=k, w=0, v=1, ms=["l", [5, 1, 0, 2, 6, 4]], mx=None, mt=None, p=p)
    for n, S, T in ((5, 2, 3), (5, 3, 2), (5, 1, 4)):                  # weights of the selected data
        for i, (mx, mt) in enumerate(itertools.product(st.masks(S, 2), st.masks(T, 2))):
            for meth in ("wme", "pca", "svd"):
                for w in (1 + i % 6,) if tier == "quick" else range(1, 7):
                    yield dict(n=n, S=S, T=T, m=meth, k=1, w=w, v=w % 2, ms=None, mx=mx, mt=mt)
            yield dict(badsel=1, S=S, T=T, mx=mx, mt=mt)
    for n, S, T in ((5, 2, 2), (8, 3, 2), (40, 4, 5), (150, 2, 2)):          # residuals of very many or very few deviations
        for meth in ("wme", "pca", "svd"):
            for k in ([None, 1, 3] if meth != "wme" else [None]):
                for w in (0, 1, 4):
                    for x in (-30, -14, 14, 30):
                        yield dict(n=n, S=S, T=T, m=meth, k=k, w=w, v=w % 2, ms=None, mx=None, mt=None, x=x)
    for n, S, T in ((4, 1, 1), (5, 2, 2), (8, 2, 3), (40, 3, 4)):        # integers
        for meth in ("wme", "pca", "svd"):
            for w in range(9):
                for z in (1, 2, 3):
                    yield dict(n=n, S=S, T=T, m=meth, k=1, w=w, v=0, ms=None, mx=None, mt=None, z=z)
                    yield dict(n=n, S=S, T=T, m=meth, k=1, w=0, v=0, ms=["s", [None, None, -1]], mx=["l", [0]] if w % 2 else None, mt=["l", [T - 1, 0]], z=z)
    for n, S, T in ((4, 1, 1), (5, 2, 2), (8, 2, 3), (40, 3, 4)):        # several rows of sample weights
        for meth in ("wme", "pca", "svd"):
            for sk in range(6):
                for w in (0, 1, 4):
                    yield dict(n=n, S=S, T=T, m=meth, k=1, w=w, v=0, ms=None, mx=None, mt=None, sk=sk)
                yield dict(n=n, S=S, T=T, m=meth, k=1, w=0, v=0, ms=["l", [2, 0, 3, 1]], mx=None, mt=None, sk=sk)
    for meth in ("wme", "pca", "svd"):
        for k in (1, 2, 5) if meth != "wme" else (None,):
            yield dict(n=600, S=4, T=5, m=meth, k=k, w=2 * (k or 1) % 9, v=0, ms=None, mx=None, mt=None)
    for S, T in itertools.product((1, 2, 3), repeat=2):
        for size in range(0, 11):
            if size != S * T:
                yield dict(bad=size, S=S, T=T)
    for name in ("", "PCA", "mean", "wm", "svdd", "data", "svd,", None):
        yield dict(method=name)
    for n in (5, 8):
        for p1, p2 in itertools.product(range(15), repeat=2):
            yield dict(pair=[p1, p2], n=n)

def data_w(i, N):
    b = np.arange(N) + 1.0
    return [None, b, b.tolist(), (b % 2 + 0.5).reshape(-1, 1), np.where(np.arange(N) % 2, -1.0, 2.0), 1e6 * np.ones(N), (b * 0 + 3).astype(int), b * 2.0 ** -9, b[::-1] * 1e-8][i]

def setup(n, S, T, v, p=2):
    lam = alpha.gen(n, p, 1)
    data = (4 * alpha.gen(n, S * T, 2 + v) - 1).reshape(n, S, T)
    if v and S * T > 2:
        data[:, 0, 0] = 1.25
    meas = (2 * alpha.gen(1, S * T, 7) - 0.5).reshape(S, T)
    sd = (0.4, 1.5)[v]
    dom = None if v else np.array([[-0.1, 1.2], [-0.2, 1.1], [-0.3, 1.0], [0.0, 1.4], [-2.0, 1.0]][:p])
    sw = [None, [1.0, 2.0, 0.5] + [1.0] * (n - 3)][v]
    return lam, data, meas, sd, dom, sw

def project(R, meth, k):
    """reference outputs; None when the leading directions are not determined"""
    if meth == "wme":
        return R.sum(1).reshape(-1, 1) / math.sqrt(R.shape[1])
    sdv = R.std(0)
    vary = sdv > 1e-12 * np.abs(R).max(0)
    Z = np.where(vary, (R - R.mean(0)) / np.where(vary, sdv, 1), 0.0)
    u, s, v = np.linalg.svd(Z)
    s = np.concatenate([s, np.zeros(v.shape[0] - len(s))])
    k = min(k, v.shape[0])
    if s[0] < 1e-9 or any(s[i] - (s[i + 1] if i + 1 < len(s) else -1) < 1e-4 * s[0] for i in range(k)):
        return None
    return R @ v[:k].T

def compare(c, D, P, case, lam, data, meas, sd, dom, sw, what):
    n, S, T = data.shape
    im, ix, it = st.idx(case["ms"], n), st.idx(case["mx"], S), st.idx(case["mt"], T)
    Y = np.array([[data[i, s, t] for s in ix for t in it] for i in im]); m = np.array([meas[s, t] for s in ix for t in it])
    R = (m - Y) / sd
    dw = data_w(case["w"], len(m))
    if dw is not None:
        dw = np.ravel(dw).astype(float)
        R = R * (dw / math.sqrt(sum(dw ** 2)))
    k = 2 if case["k"] is None else case["k"]
    q = project(R, case["m"], k)
    X = lam[im]
    c.close(D.X, X, f"samples of {what}", rtol=0, atol=0)
    dm = np.array([[lam[:, j].min(), lam[:, j].max()] for j in range(lam.shape[1])]) if dom is None else dom
    c.close(D.domain, dm, f"domain of {what}", rtol=0, atol=0)
    g = np.asarray(D.y, float)
    if q is None:
        c.bump("degenerate_directions"); return
    if case["m"] != "wme":
        # the sign of a direction is arbitrary
        if g.shape != q.shape:
            c.fail(f"outputs of {what}: shape {g.shape}, expected {q.shape}")
        q = q * np.where(np.sum(g * q, axis=0) < 0, -1, 1)
    sc = max(1.0 if "x" not in case else 0.0, np.abs(R).max())
    c.close(g, q, f"outputs of {what}", rtol=1e-7, atol=1e-8 * sc)
    ww = ref.combine(sw, len(X))
    if ref.kde_ok(q, ww, 1e-4) and len(set(map(tuple, X.tolist()))) == len(X):
        RR = ref.density(X, q, ww, None, None, None, dm)
        if np.all(np.isfinite(RR["r"])):
            c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(RR["up"], 1e-5)), f"estimate of {what}")
            c.close(D.expected_ratio(), np.sum(ww * RR["r"]) / np.sum(ww), f"expected ratio of {what}", rtol=1e-4, atol=1e-7)

def kwargs(case, sw, N):
    kw = {}
    if case["m"] != "pca":
        kw["method"] = case["m"]
    if case["k"] is not None and case["m"] != "wme":
        kw["num_components"] = case["k"]
    for f, n in (("ms", "samples_mask"), ("mx", "sensors_mask"), ("mt", "times_mask")):
        if case[f] is not None:
            kw[n] = st.mask(case[f])
    if case["w"]:
        kw["data_weights"] = data_w(case["w"], len(st.idx(case["mx"], N[0])) * len(st.idx(case["mt"], N[1])))
    if sw is not None:
        kw["sample_weights"] = sw
    return kw

def run(case, c):
    if "bad" in case:
        S, T = case["S"], case["T"]
        lam, data, meas, sd, dom, sw = setup(5, S, T, 0)
        P = st.problem(lam, data, S, T, 2, meas, 0, sd, dom)
        for w in (np.ones(case["bad"]), [1.0] * case["bad"], np.ones((case["bad"], 1))):
            for m in ("wme", "pca", "svd"):
                c.raises(lambda: P.mud_problem(method=m, data_weights=w, num_components=1), f"{case['bad']} data weights for {S * T} observations", ValueError)
        return
    if "badsel" in case:
        S, T = case["S"], case["T"]
        lam, data, meas, sd, dom, sw = setup(5, S, T, 0)
        N = len(st.idx(case["mx"], S)) * len(st.idx(case["mt"], T))
        for size in range(8):
            if size != N:
                for m in ("wme", "svd"):
                    P = st.problem(lam, data, S, T, 2, meas, 0, sd, dom)
                    c.raises(lambda: P.mud_problem(method=m, data_weights=np.ones(size), num_components=1, sensors_mask=st.mask(case["mx"]), times_mask=st.mask(case["mt"])), f"{size} data weights for {N} selected observations", ValueError)
        return
    if "method" in case:
        lam, data, meas, sd, dom, sw = setup(5, 2, 2, 0)
        P = st.problem(lam, data, 2, 2, 2, meas, 0, sd, dom)
        e = c.raises(lambda: P.mud_problem(method=case["method"]), f"method {case['method']!r}", ValueError)
        c.true(str(case["method"]) in str(e), f"error for method {case['method']!r} says {e}")
        return
    if "pair" in case:
        n = case["n"]; S, T = 2, 3
        lam, data, meas, sd, dom, sw = setup(n, S, T, 0)
        P = st.problem(lam, data, S, T, 2, meas, 1, sd, dom)
        Q = [dict(m="wme", k=None, w=0), dict(m="pca", k=1, w=0), dict(m="pca", k=2, w=1), dict(m="svd", k=1, w=4), dict(m="wme", k=None, w=3, sw=1), dict(m="svd", k=2, w=0, ms=["l", [0, 2, 1, 4]]), dict(m="wme", k=None, w=0, mt=["l", [2, 0]]), dict(m="pca", k=1, w=0, mx=["i", 1]),
             dict(m="pca", k=1, w=0, ms=["l", [3, 0, 1, 4]]), dict(m="pca", k=2, w=0, ms=["l", [4, 2, 1]]), dict(m="svd", k=1, w=0, ms=["l", [1, 2, 4]]), dict(m="pca", k=1, w=0, mt=["l", [2, 0]]), dict(m="svd", k=1, w=0, mx=["i", 0]),
             dict(m="pca", k=1, w=4, mt=["l", [1, 2]]), dict(m="wme", k=None, w=1, ms=["l", [2, 4, 0]])]
        Ds = []
        for i in case["pair"]:
            q = dict(dict(ms=None, mx=None, mt=None), **Q[i])
            w = [2.0, 1.0, 0.5] + [1.0] * (n - 3) if q.get("sw") else None
            Ds.append((P.mud_problem(**kwargs(q, w, (S, T))), q, w))
        for D, q, w in Ds:
            compare(c, D, P, q, lam, data, meas, sd, dom, w, f"calls {case['pair']}")
        c.close(P.data, data.reshape(n, -1), "stored data", rtol=0, atol=0); c.close(P.measurements, meas.reshape(-1, 1), "stored measurements", rtol=0, atol=0); c.close(P.lam, lam, "stored samples", rtol=0, atol=0)
        return
    n, S, T = case["n"], case["S"], case["T"]
    lam, data, meas, sd, dom, sw = setup(n, S, T, case["v"], case.get("p", 2))
    if "x" in case:
        sd = sd * 2.0 ** case["x"]
    if "z" in case:
        data = np.round(7 * data).astype((int, np.int8, np.int32)[case["z"] - 1]); sd = (2, 3.0, np.float32(0.5))[case["z"] - 1]
        if case["z"] > 1:
            meas = np.round(5 * meas).astype(int)
    if case["ms"] is not None:
        sw = None if sw is None else [0.5 + 0.75 * (((i + 2) * (i + 2)) % 5) for i in range(len(st.idx(case["ms"], n)))]
    if "sk" in case:
        ni = len(st.idx(case["ms"], n)); a = 0.5 + alpha.gen(ni, 3, 9).T
        sw = [[a[0].tolist(), a[1].tolist()], a.tolist(), a[:2], [a[2]], np.asfortranarray(a), [[1.0] * ni, a[1].tolist()]][case["sk"]]
    k = 2 if case["k"] is None else case["k"]
    if case["m"] != "wme" and k > min(len(st.idx(case["ms"], n)), len(st.idx(case["mx"], S)) * len(st.idx(case["mt"], T))):
        return          # more components than there are is not specified
    P = st.problem(lam, data, S, T, 2, meas, (n + S + T + case["w"]) % 3, sd, dom, order="FC"[(n + case["w"]) % 2])
    kw = kwargs(case, sw, (S, T))
    snap = forms.snapshot(kw)
    D = P.mud_problem(**kw)
    c.true(forms.same(kw, snap), "arguments modified")
    compare(c, D, P, case, lam, data, meas, sd, dom, sw, str({k: v for k, v in case.items() if v is not None}))
    if case["m"] == "pca" and isinstance(P.pca, dict):
        V = np.asarray(P.pca["vecs"])
        c.close(V @ V.T, np.eye(len(V)), "orthonormal components", atol=1e-9)
    c.close(P.data, data.reshape(n, -1), "stored data", rtol=0, atol=0); c.close(P.measurements, meas.reshape(-1, 1), "stored measurements", rtol=0, atol=0)
