RULE = """All density problems over sample/parameter/feature counts, sample layouts, six initial, four observed, eight
predicted densities and eleven weight sets (two of nearly equal weights) each at scales 1, 1e-6, 37 and normalised, asked directly, after an estimate,
after a re-set observed density and asked twice; plus every output vector over {0,1,2}^n with every 0/1/2 weighting;
units 2^-40 and 2^40, up to 2049 samples, seven parameters and six outputs; one sample, up to twenty features,
observed and predicted densities of other families, predicted densities of dependent outputs, ratios up to 1e80; plus predicted = observed for every distribution. Oracle: the weighted average of the closed-form ratios; scale and
initial-density independence compared between runs; 1 exactly when predicted and observed agree."""
import itertools
import numpy as np
from mc import ref, alpha

def cases(tier):
    shapes = [(3, 1, 1), (5, 2, 2)] + ([(4, 2, 1), (6, 3, 2), (9, 2, 3)] if tier == "thorough" else [])
    for (n, p, k) in shapes:
        for v in ["generic", "ties", "far"] + (["scaled", "neg", "int"] if tier == "thorough" else []):
            for o, q, w in itertools.product(range(4), range(8), range(11)):
                yield dict(n=n, p=p, k=k, v=v, o=o, q=q, w=w)
    for n in (33, 129, 600, 1001, 2049):
        for (p, k) in ((1, 1), (2, 2)):
            for (o, q, w) in ((0, 0, 0), (1, 5, 4), (1, 0, 1), (0, 2, 2), (2, 3, 3)):
                yield dict(n=n, p=p, k=k, v="generic", o=o, q=q, w=w)
    for (n, p, k) in ((3, 3, 1), (4, 4, 2), (12, 4, 4), (10, 6, 1), (10, 1, 6), (14, 5, 5), (4, 1, 4), (40, 7, 3)):
        for o, q, w in itertools.product(range(4), range(8), (0, 1, 2, 4, 9)):
            if tier == "thorough" or (o + q + w) % 3 == 0:
                yield dict(n=n, p=p, k=k, v="generic", o=o, q=q, w=w)
    for (n, p, k) in ((1, 1, 1), (1, 2, 3), (2, 1, 1), (5, 2, 2), (11, 2, 12), (4, 1, 20), (25, 3, 15)):
        for o, q, w in itertools.product(range(7), range(6), (0, 1, 4, 9)):
            yield dict(n=n, p=p, k=k, v="generic", o=o, q=q, w=w, more=1)
    for u, e in itertools.product((-40, 0, 40), repeat=2):
        if u or e:
            for o, q, w in itertools.product((1, 2, 3) if e else range(4), range(8), (0, 2, 4)):
                yield dict(n=6, p=2, k=2, v="generic", o=o, q=q, w=w, unit=[u, e])
    for n in (1, 2, 3, 5):
        for k in (1, 2, 3):
            for d in (["norm", 0.0, 1.0], ["norm", 0.4, 2.5], ["unif", -2.0, 4.0], ["norm", [0.1, 0.2, 0.3][:k], [0.5, 1.0, 3.0][:k]]):
                for w in range(11):
                    yield dict(agree=d, n=n, k=k, w=w)
    from mc.checks import c01
    for x in c01.cases("quick"):
        if "joint" in x:
            yield x
    for n in (2, 3, 8):          # ratios of any size
        for k, at, w in itertools.product((1, 2, 3), (5.0, 7.0, 9.0, 13.0, 20.0), range(6)):
            yield dict(joint=0, n=n, p=1, k=k, o=0, w=w, far=at)
    nn = 4 if tier == "quick" else 5
    for y in itertools.product((0, 1, 2), repeat=nn):
        if len(set(y)) > 1:
            for w in itertools.product((0, 1, 2), repeat=nn) if tier == "thorough" else itertools.product((0, 1), repeat=nn):
                if sum(w) > 0:
                    yield dict(y=list(y), w=list(w))

def ask(X, y, W, si, so, sq, how, normalize=False):
    from mud.base import DensityProblem
    D = DensityProblem(X.copy(), y.copy(), weights=W, normalize=normalize)
    D.set_initial() if si is None else D.set_initial(alpha.mkdist(si).scipy())
    if how == "reobs":
        from scipy.stats import distributions as d
        D.set_observed(d.norm(5.0, 3.0)); alpha.set_pred(D, sq, "set"); D.fit()
    D.set_observed() if so is None else D.set_observed(alpha.mkdist(so).scipy())
    if how != "reobs":
        alpha.set_pred(D, sq, "set")
    if how == "est":
        D.estimate()
    if how == "twice":
        D.expected_ratio()
    return D.expected_ratio()

def run(case, c):
    if "joint" in case:
        from mc.checks import c01
        return c01.joint(case, c)
    if "agree" in case:
        X, y = alpha.samples(case["n"], 1, case["k"], "generic")
        W = alpha.weight_alphabet(case["n"])[case["w"]]
        if W is not None and not ref.combine(W, case["n"]).sum() > 0:
            return
        for si in ([None] if case["n"] > 1 else []) + [["norm", 0.5, 0.3]]:
            for how in ("plain", "est"):
                spec = case["agree"]
                c.close(ask(X, y, W, si, spec, spec, how), 1.0, "expected ratio with predicted = observed", rtol=1e-9)
        return
    if "y" in case:
        y = np.array(case["y"], float).reshape(-1, 1); n = len(y)
        X = np.arange(n, dtype=float).reshape(-1, 1) / n
        W = case["w"]; so, sq = None, ["norm", 0.7, 0.8]; v = "y"
    else:
        v = case["v"]
        X, y = alpha.samples(case["n"], case["p"], case["k"], v); n = len(X)
        W = alpha.weight_alphabet(n)[case["w"]]
        so = (alpha.obs_more if "more" in case else alpha.obs_alphabet)(y)[case["o"]]
        sq = (alpha.pred_more if "more" in case else alpha.pred_alphabet)(y)[case["q"]]
        if "unit" in case:
            X, y = np.ldexp(X, case["unit"][0]), np.ldexp(y, case["unit"][1])
            so, sq = alpha.unit_spec(so, case["unit"][1]), alpha.unit_spec(sq, case["unit"][1])
    w = ref.combine(W, n)
    if not w.sum() > 0:
        return
    pr = alpha.ref_pred(sq)
    if (pr is None or isinstance(pr, tuple)) and not ref.kde_ok(y, w):
        c.bump("skipped_degenerate_kde"); return
    m = ref.density(X, y, w, lambda x: np.ones(len(x)), None if so is None else alpha.mkdist(so).joint, pr, None)
    if not np.all(np.isfinite(m["r"])) or np.max(m["r"]) > 1e200:
        c.bump("skipped_infinite_ratio"); return
    want = float(np.sum(w * m["r"]) / np.sum(w))
    small = n > 50
    inits = [None] if small else ([None, alpha.init_alphabet(X, None)[1], alpha.init_alphabet(X, None)[2]] if v != "y" else [None, ["unif", -0.1, 0.5]])
    if n == 1:
        inits = inits[1:]           # the default domain of one sample has no width
    for si in inits:
        c.close(ask(X, y, W, si, so, sq, "plain"), want, f"expected ratio (initial {si})", rtol=1e-6, atol=1e-12)
    for how in ("est", "reobs", "twice"):
        c.close(ask(X, y, W, inits[-1], so, sq, how), want, f"expected ratio ({how})", rtol=1e-6, atol=1e-12)
    if W is not None:
        for s in (1e-6, 37.0):
            W2 = (np.array(W, float) * s).tolist()
            c.close(ask(X, y, W2, inits[0], so, sq, "plain"), want, f"expected ratio with weights times {s}", rtol=1e-6, atol=1e-12)
        c.close(ask(X, y, W, inits[0], so, sq, "est", True), want, "expected ratio with normalised weights", rtol=1e-6, atol=1e-12)
