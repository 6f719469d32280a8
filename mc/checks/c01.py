RULE = """All density problems over: sample/parameter/feature counts, five sample layouts (generic, ties,
badly scaled, negative, one far outlier, integers), six initial, four observed, eight predicted densities
(default and scott/silverman/scalar/callable kernel bandwidths, per-feature normal, uniform, keyword-parametrised)
and nine weight sets incl. zeros and stacks, with omitted, covering and cutting domains, set through set_predicted or through fit; samples and outputs in units 2^-40 and 2^40, up to 2049 samples, seven parameters and six outputs; plus every output vector over
{0,1,2}^n, and every order of four samples whose updated densities differ by 2^-8 to 2^-22 only; and one or two samples, up to twenty
features, ranges from high to low, with seven observed and six predicted densities of other families (Laplace, Cauchy, logistic, one-sided); predicted
densities of dependent outputs. Oracle: own closed-form densities and weighted Gaussian KDE; the estimate must be a sample maximising
in*w*ob/pred, and the updated values must agree where exposed."""
import itertools
import numpy as np
from mc import ref, alpha

def cases(tier):
    shapes = [(3, 1, 1), (4, 2, 1), (5, 1, 2), (6, 3, 2)]
    variants = ["generic", "ties", "far", "int"]
    if tier == "thorough":
        shapes += [(7, 2, 3), (4, 1, 1), (8, 3, 3), (12, 2, 2)]
        variants += ["scaled", "neg"]
    for (n, p, k) in shapes:
        for v in variants:
            for i in range(6):
                for o in range(4):
                    for q in range(8):
                        for w in range(9):
                            if tier == "quick" and (w > 5 and (i + o + q) % 4):
                                continue
                            yield dict(n=n, p=p, k=k, v=v, i=i, o=o, q=q, w=w, via="fit" if (i + o + q + w) % 2 else "set")
    for v in ["scaled", "neg"]:
        for (i, o, q, w) in itertools.product(range(6), range(4), range(8), (0, 1, 3, 4)):
            yield dict(n=5, p=2, k=2, v=v, i=i, o=o, q=q, w=w, via="set" if (i + q) % 2 else "fit")
    for (n, p, k) in ((3, 3, 1), (4, 4, 2), (12, 4, 4), (10, 6, 1), (10, 1, 6), (14, 5, 5), (4, 1, 4), (40, 7, 3)):
        for (i, o, q, w) in itertools.product(range(6), (0, 1, 3), (0, 3, 5, 6), (0, 1, 2, 4)):
            if tier == "thorough" or (i + o + q + w) % 3 == 0:
                yield dict(n=n, p=p, k=k, v="generic", i=i, o=o, q=q, w=w, via="set" if (i + w) % 2 else "fit")
    for u, v in itertools.product((-40, 0, 40), repeat=2):
        if u or v:
            for (i, o, q, w) in itertools.product(range(6), (1, 2, 3) if v else range(4), range(8), (0, 2, 4)):
                if tier == "thorough" or (i + o + q + w) % 3 == 0:
                    yield dict(n=6, p=2, k=2, v="generic", i=i, o=o, q=q, w=w, via="set" if (i + q) % 2 else "fit", unit=[u, v])
    for n in (33, 129, 257, 600, 1001, 1500, 2049):
        for (p, k) in ((1, 1), (2, 2)):
            for (i, o, q, w) in ((0, 0, 0, 0), (1, 1, 5, 4), (0, 1, 0, 1), (3, 0, 2, 2), (2, 3, 0, 0), (0, 0, 0, 5)):
                yield dict(n=n, p=p, k=k, v="generic", i=i, o=o, q=q, w=w, via="set")
    for (n, p, k) in ((1, 1, 1), (1, 2, 1), (1, 1, 3), (2, 1, 1), (2, 2, 2), (5, 1, 1), (6, 2, 3), (9, 1, 9), (11, 2, 12), (4, 1, 20), (25, 3, 15)):
        for (i, o, q, w) in itertools.product(range(6), range(7), range(6), (0, 1, 4, 5)):
            if tier == "thorough" or k == 1 or (i + o + q + w) % 2 == 0:
                yield dict(n=n, p=p, k=k, v="generic", i=i, o=o, q=q, w=w, via="set" if (i + w) % 2 else "fit", more=1)
    for n, p, k in ((2, 1, 2), (3, 1, 2), (3, 2, 3), (5, 2, 5), (7, 1, 3), (40, 2, 2), (3, 3, 3), (6, 1, 6)):          # predicted densities of dependent outputs
        for v, o, w, far in itertools.product(range(6), (0, 1, 2), (0, 1, 2, 4), (0, 9.0)):
            yield dict(joint=v, n=n, p=p, k=k, o=o, w=w, far=far)
    for (n, p, k) in ((5, 1, 1), (6, 2, 2), (9, 3, 1)):          # ranges given from high to low, as nested lists, with integers
        for dr, (o, q, w) in itertools.product(range(1, 6), itertools.product((0, 1), (0, 2, 5), (0, 1, 2))):
            for cut in (0, 1):
                yield dict(n=n, p=p, k=k, v="generic", i=0, o=o, q=q, w=w, via="set" if w % 2 else "fit", dr=dr, cut=cut)
    for e in (4, 8, 11, 14, 18, 22):          # updated densities that agree in their leading digits
        for perm in itertools.permutations(range(4)):
            for by in "yw" if e < 12 else "w":
                yield dict(near=e, perm=list(perm), by=by)
    nn = 4 if tier == "quick" else 5
    for y in itertools.product((0, 1, 2), repeat=nn):
        if len(set(y)) > 1:
            for w in itertools.product((0, 1, 2), repeat=nn) if tier == "thorough" else itertools.product((0, 1), repeat=nn):
                if sum(x > 0 for x in w) > 1:
                    yield dict(y=list(y), w=list(w))

def joint(case, c):
    """a joint predicted density, and ratios of any size; the estimate and the expected ratio"""
    from mud.base import DensityProblem
    n, k = case["n"], case["k"]
    X, y = alpha.samples(n, case["p"], k, "generic")
    y[-1] += case["far"]
    w = ref.combine(alpha.weight_alphabet(n)[case["w"]], n)
    if not w.sum() > 0:
        return
    q = alpha.Joint(k, case["joint"]) if k > 1 else alpha.mkdist(["norm", 0.1, 1.0])
    so = ["norm", case["far"], 1.0] if case["far"] else alpha.obs_alphabet(y)[case["o"]]
    m = ref.density(X, y, w, lambda x: ref.norm_pdf(x, 0.4, 0.5).prod(1), None if so is None else alpha.mkdist(so).joint, q.joint, None)
    if not np.all(np.isfinite(m["r"])) or not np.all(m["pred"] > 1e-250):
        return
    from scipy.stats import distributions as d
    D = DensityProblem(X.copy(), y.copy(), weights=alpha.weight_alphabet(n)[case["w"]])
    D.set_initial(d.norm(0.4, 0.5))
    if so is not None:
        D.set_observed(alpha.mkdist(so).scipy())
    D.fit(distribution=q.scipy()) if case["joint"] % 2 else D.set_predicted(q.scipy())
    best = ref.argmax_set(m["up"], 1e-8)
    c.true(alpha.is_row(D.estimate(), X, best), f"estimate with a joint predicted density is not a maximiser of {m['up'].tolist()[:9]}")
    c.close(D.expected_ratio(), np.sum(w * m["r"]) / np.sum(w), "expected ratio with a joint predicted density", rtol=1e-7)
    c.state(*best)

def run(case, c):
    from mud.base import DensityProblem
    if "joint" in case:
        return joint(case, c)
    if "near" in case:
        n = 4; X = np.arange(n, dtype=float).reshape(-1, 1) / n; pm = np.array(case["perm"], float)
        y = ((pm + 0.5) * 2.0 ** -case["near"] if case["by"] == "y" else np.arange(n) - 1.5).reshape(-1, 1)
        W = (1 + pm * 2.0 ** -case["near"]).tolist() if case["by"] == "w" else None
        si, so, sq, via, dom = None, ["norm", 0.0, 1.0] if case["by"] == "y" else ["unif", -5.0, 10.0], ["unif", -4.0, 9.0], "set", None
    elif "y" in case:
        y = np.array(case["y"], float).reshape(-1, 1); n = len(y)
        X = np.arange(n, dtype=float).reshape(-1, 1) / n
        W = case["w"]; si = so = sq = None; via = "set"; dom = None
    else:
        X, y = alpha.samples(case["n"], case["p"], case["k"], case["v"])
        n = len(X)
        W = alpha.weight_alphabet(n)[case["w"]]
        dom = ref.domain_of(X, 0.25) if case["o"] % 2 else None
        if case["n"] == 1:
            dom = np.array([X.min(0) - 0.2, X.max(0) + 0.5]).T
        if case["i"] == 0 and case["q"] % 3 == 2 and n > 1:       # a domain that cuts the samples: no initial mass outside
            dom = np.array([X.min(0) - 0.1, np.sort(X, axis=0)[n // 2] + 1e-9]).T
        if "dr" in case:
            lo, hi = X.min(0) - 0.1, np.sort(X, axis=0)[n // 2] + 1e-9 if case["cut"] else X.max(0) + 0.3
            dom = np.array([lo, hi]).T
            if case["dr"] == 4:
                dom = np.array([[-1, 2 - case["cut"]]] * case["p"])
        si = alpha.init_alphabet(X, dom)[case["i"]]
        so = (alpha.obs_more if "more" in case else alpha.obs_alphabet)(y)[case["o"]]
        sq = (alpha.pred_more if "more" in case else alpha.pred_alphabet)(y)[case["q"]]
        via = case["via"]
        if "unit" in case:
            u, v = case["unit"]
            X, y, dom = np.ldexp(X, u), np.ldexp(y, v), None if dom is None else np.ldexp(dom, u)
            si, so, sq = alpha.unit_spec(si, u), alpha.unit_spec(so, v), alpha.unit_spec(sq, v)
    w = ref.combine(W, n)
    if not w.sum() > 0:
        return
    pr = alpha.ref_pred(sq)
    if (pr is None or isinstance(pr, tuple)) and not ref.kde_ok(y, w):
        c.bump("skipped_degenerate_kde"); return
    rdom = ref.domain_of(X, 0.1) if dom is None else dom
    m = ref.density(X, y, w, None if si is None else alpha.mkdist(si).joint,
                    None if so is None else alpha.mkdist(so).joint, pr, rdom)
    if np.any(np.isinf(m["up"])):
        c.bump("skipped_infinite_ratio"); return
    D = DensityProblem(X.copy(), y.copy(), alpha.domain_form(dom, case.get("dr", 0)), weights=W)
    if si is not None or (case.get("q", 0) % 2 == 0):
        D.set_initial(None if si is None else alpha.mkdist(si).scipy())
    else:
        D.set_initial()
    if so is not None:
        D.set_observed(alpha.mkdist(so).scipy())
    elif case.get("i", 0) % 2:
        D.set_observed()
    alpha.set_pred(D, sq, via)
    pt = D.estimate() if case.get("w", 0) != 1 else D.mud_point()
    best = ref.argmax_set(m["up"], 1e-8)
    c.true(alpha.is_row(pt, X, best), f"estimate {np.asarray(pt).tolist()} is not a maximiser of the updated density; "
           f"updated={m['up'].tolist()} maximisers={[X[i].tolist() for i in best]}")
    up = alpha.updated_values(D)
    if up is not None and up.shape == (n,):
        c.close(up, m["up"], "updated density", rtol=1e-6, atol=1e-12 * max(1e-300, m["up"].max()))
    c.outcome(tuple(best), np.asarray(pt))
    c.state(np.asarray(pt))
