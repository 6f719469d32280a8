RULE = """All Bayesian problems over sample/parameter/feature counts, sample layouts, six priors plus the unset one with omitted,
covering and cutting domains, seven likelihoods (default-shaped, per-feature, one-sided, bounded, narrow, far, flat), linear and
log scale, asked through map_point and estimate; up to six parameters and 1001 samples, units 2^-40 and 2^40; feature counts up to 1200 where products underflow; one
sample, and likelihoods of other families (Laplace, Cauchy, logistic, triangular); every output vector over
{0,1,2}^n under narrow and bounded likelihoods, and every order of four outputs whose posteriors differ slightly or are tiny. Oracle: closed-form log prior plus summed log likelihood; error exactly when the
posterior vanishes at every sample."""
import itertools, math
import numpy as np
from mc import ref, alpha

def lls(y):
    k = y.shape[1]
    lo, hi = y.min(0), y.max(0)
    return [["norm", 0.0, 1.0],
            ["norm", (0.3 * np.arange(k) - 0.2).tolist(), (0.4 + 0.2 * np.arange(k)).tolist()],
            ["norm", 0.1, 0.05],
            ["expon", (lo - 0.01).tolist(), 0.5],
            ["unif", (lo - 0.01).tolist(), ((hi - lo) * 0.6 + 0.011).tolist()],
            ["norm", 500.0, 1.0],
            ["unif", (hi + 1.0).tolist(), 1.0]]

def cases(tier):
    shapes = [(2, 1, 1), (4, 1, 2), (5, 2, 1), (6, 2, 3)] + ([(7, 3, 2), (9, 1, 4), (12, 2, 2)] if tier == "thorough" else [])
    variants = ["generic", "ties", "far", "int"] + (["neg", "scaled"] if tier == "thorough" else [])
    for (n, p, k) in shapes:
        for v in variants:
            for i in range(6):
                for dom in range(3):
                    for l in range(7):
                        for log in (0, 1):
                            yield dict(n=n, p=p, k=k, v=v, i=i, dom=dom, l=l, log=log)
    for (n, p, k) in ((3, 3, 1), (4, 4, 2), (12, 4, 4), (10, 6, 1), (14, 5, 5), (4, 1, 4)):
        for i in range(6):
            for l in range(7):
                for log in (0, 1):
                    yield dict(n=n, p=p, k=k, v="generic", i=i, dom=(i + l) % 3, l=l, log=log)
    for u, v in itertools.product((-40, 0, 40), repeat=2):
        if u or v:
            for i in range(6):
                for dom in range(3):
                    for l in range(7):
                        for log in (0, 1):
                            yield dict(n=6, p=2, k=2, v="generic", i=i, dom=dom, l=l, log=log, unit=[u, v])
    for n in (33, 129, 601, 1001):
        for k in (1, 3):
            for l in (0, 1, 2, 4, 6):
                for log in (0, 1):
                    yield dict(n=n, p=2, k=k, v="generic", i=l % 6, dom=l % 3, l=l, log=log)
    for (n, p, k) in ((1, 1, 1), (1, 2, 2), (2, 2, 1), (6, 2, 2), (7, 1, 12), (20, 3, 16)):
        for i in range(6):
            for dom in range(2):
                for l in range(7):
                    for log in (0, 1):
                        yield dict(n=n, p=p, k=k, v="generic", i=i, dom=1 if n == 1 else dom, l=l, log=log, more=1)
    for (n, p, k) in ((5, 1, 1), (6, 2, 2), (9, 3, 1)):          # ranges given from high to low, as nested lists
        for dr, dom, l, log in itertools.product(range(1, 6), (1, 2), range(7), (0, 1)):
            yield dict(n=n, p=p, k=k, v="generic", i=0, dom=dom, l=l, log=log, dr=dr)
    for k in (20, 50, 100, 200, 400, 800, 1200):
        for l in (0, 1, 2, 3, 4, 5, 6):
            for i in (0, 1, 2):
                for log in (0, 1):
                    yield dict(n=5, p=1, k=k, v="generic", i=i, dom=0, l=l, log=log)
    for e in (4, 8, 11, 13):          # posteriors that agree in their leading digits
        for perm in itertools.permutations(range(4)):
            for l in range(2):
                for log in (0, 1):
                    yield dict(y=[1 + (j + 0.5) * 2.0 ** -e for j in perm], l=l, log=log, near=e)
    for e in (0, 1, 2):          # posteriors that are tiny everywhere, and not zero
        for perm in itertools.permutations((37.2, 37.3, 37.4, 37.5)):
            for l in range(3):
                for log in (0, 1):
                    yield dict(y=list(perm[:4 - e]), l=l, log=log, tiny=1, near=0)
    nn = 5 if tier == "quick" else 6
    for y in itertools.product((0, 1, 2), repeat=nn):
        for l in range(3):
            for log in (0, 1):
                yield dict(y=list(y), l=l, log=log)

def expected(X, y, sp, sl, dom):
    if sp is None:
        lo, hi = dom.min(1), dom.max(1)
        pv = ref.unif_pdf(X, lo, hi - lo).prod(1)
    else:
        pv = alpha.mkdist(sp).joint(X)
    L = alpha.mkdist(sl)
    with np.errstate(divide="ignore"):
        logs = np.log(pv) + L.logpdf(y).sum(1)
    lin = pv * L.pdf(y).prod(1)
    return logs, lin

def run(case, c):
    from mud.base import BayesProblem
    if "y" in case:
        y = np.array(case["y"], float).reshape(-1, 1); n = len(y)
        X = (np.arange(n, dtype=float) / n).reshape(-1, 1)
        sl = [["norm", 1.0, 0.01], ["unif", 0.5, 1.0], ["unif", 1.5, 1.0]][case["l"]]
        sp, dom, domain = ["norm", 0.5, 0.4], None, None
        if "near" in case and "tiny" not in case:
            sl = [["norm", 1.0, 1.0], ["norm", 3.0, 2.0]][case["l"]]; sp = ["unif", -1.0, 5.0]
        if "tiny" in case:
            sl = [["norm", 0.0, 1.0], ["norm", 80.0, 1.0], ["norm", 0.0, 1.0]][case["l"]]; sp = ["unif", -1.0, [5.0, 5.0, 2.0][case["l"]]]
            y = 80.0 - y if case["l"] == 1 else -y if case["l"] == 2 else y
    else:
        X, y = alpha.samples(case["n"], case["p"], case["k"], case["v"]); n = len(X)
        sl = (alpha.obs_more if "more" in case else lls)(y)[case["l"]]
        sp = alpha.init_alphabet(X, None)[case["i"]]
        domain = [None, ref.domain_of(X, 0.3), np.array([X.min(0) - 0.1, np.sort(X, axis=0)[max(0, n // 2)] + 1e-9]).T][case["dom"]]
        if "unit" in case:
            u, v = case["unit"]
            X, y, domain = np.ldexp(X, u), np.ldexp(y, v), None if domain is None else np.ldexp(domain, u)
            sp, sl = alpha.unit_spec(sp, u), alpha.unit_spec(sl, v)
    dom = ref.domain_of(X, 0.1) if domain is None else domain
    if np.any(dom[:, 0] == dom[:, 1]):
        return
    logs, lin = expected(X, y, sp, sl, dom)
    log = bool(case["log"])
    B = BayesProblem(X.copy(), y.copy(), alpha.domain_form(domain, case.get("dr", 0)))
    if sp is not None:
        B.set_prior(alpha.mkdist(sp).scipy())
    elif case["l"] % 2:
        B.set_prior()
    dist = alpha.mkdist(sl).scipy()
    if log:
        B.set_likelihood(dist, log=True)
    elif case["l"] % 2:
        B.set_likelihood(dist, log=False)
    else:
        B.set_likelihood(dist)
    vanish = not np.any(np.isfinite(logs)) if log else not np.any(lin > 0)
    if not log and 0 < lin.max() < (2e-307 if "tiny" in case else 1e-280):
        c.bump("skipped_denormal"); return
    if not log and lin.max() == 0 and np.max(logs) > -800:
        c.bump("skipped_denormal"); return
    ask = B.map_point if case["l"] % 3 else B.estimate
    if vanish:
        c.raises(ask, "posterior that is zero everywhere", ValueError)
        c.raises(B.estimate, "posterior that is zero everywhere, asked again", ValueError)
        c.raises(B.fit, "posterior that is zero everywhere, fitted", ValueError)
        c.outcome("vanish"); return
    pt = ask()
    best = [i for i in range(n) if logs[i] >= np.max(logs) - 1e-9 * max(1.0, abs(np.max(logs)))]
    c.true(alpha.is_row(pt, X, best), f"MAP estimate {np.asarray(pt).tolist()}; log posterior {logs.tolist()[:12]}")
    ps = getattr(B, "_ps", None)
    if ps is not None:
        ps = np.asarray(ps, float)
        c.true(ps.shape == (n,), f"posterior has shape {ps.shape}")
        rel = np.exp(ps - ps.max()) if log else ps / ps.max()
        c.close(rel, np.exp(logs - logs.max()), "posterior relative to its maximum", rtol=1e-5, atol=1e-10)
    c.state(np.asarray(pt)); c.outcome(tuple(best))
