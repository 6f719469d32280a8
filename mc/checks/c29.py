"""C29 example data generators"""
import itertools, random
import numpy as np
from mc import ref
from mc.rng import normals

RULE = ("Every combination of the generator settings over small alphabets: polynomial powers 0..5 x domains x initial distributions "
        "(default, uniform, normal, beta) x mean and deviation x 1..many observations x seeds; identity density and Bayes problems x "
        "domains, weights, normalisation, analytical or estimated prediction; decay problems x starting values, time windows, "
        "frequencies, domains, true parameters; rotation maps x rows x data vectors x references x tolerances; noisy linear data for "
        "every operator with entries in {-1,0,2} of small shapes x deviations per observation, with the normal source answered from a "
        "tape; random linear (WME) problems x sizes x deviations x repetition. Oracle: the stated model evaluated by the harness on "
        "the returned samples, exact relations between runs of one seed (noise scales with the deviation, data shift with the mean), "
        "and the distribution function of the stated initial distribution.")
ASSUMPTIONS = ["a run of a generator draws from numpy's (or random's) global source, so that one seed gives one draw"]


def seeded(s, f, *a, **k):
    np.random.seed(s); random.seed(s)
    return f(*a, **k)

def cases(tier):
    big = tier == "thorough"
    for dom in ([0.0, 1.0], [-1.0, 1.0], [2.0, 5.0], [-0.5, 0.25]):
        for p in range(6):
            for init in ("default", "uniform", "norm", "beta"):
                for n in (1, 7, 300):
                    for s in (0, 5) + ((11, 12) if big else ()):
                        yield dict(kind="poly", dom=dom, p=p, init=init, n=n, s=s)
    for N in (1, 2, 3, 20, 4000):
        for mu in (0.0, 0.25, -3.0):
            for sg in (0.01, 0.1, 0.5, 2.0):
                for s in range(3 if not big else 8):
                    yield dict(kind="obs", N=N, mu=mu, sg=sg, s=s)
    for dom in ([0.0, 1.0], [-1.0, 2.0]):
        for mu in (0.3, 0.5, 0.9):
            for sg in (0.05, 0.2):
                for init in ("default", "norm", "beta"):
                    for w in (None, "ramp", "half"):
                        for norm in (False, True):
                            for an in (True, False):
                                for n in (40, 200):
                                    yield dict(kind="ident", dom=dom, mu=mu, sg=sg, init=init, w=w, norm=norm, an=an, n=n, N=1)
                yield dict(kind="identN", dom=dom, mu=mu, sg=sg)
    for mu in (0.3, 0.5, 0.8):
        for sg in (0.02, 0.05, 0.3):
            for init in ("default", "norm", "beta"):
                for n in (30, 400):
                    for N in (1, 2, 25):
                        yield dict(kind="bayes", mu=mu, sg=sg, init=init, n=n, N=N)
    for k in range(2):
        yield dict(kind="temporal", k=k)
    for u0 in (0.75, 2.0):
        for tr in ([0, 4.0], [1.0, 3.0], [0, 0.5]):
            for dom in ([0, 1], [0.25, 2.0], [-1.0, 0.5]):
                for n in (1, 2, 25):
                    for lt in (0.5, 0.0, 0.3):
                        if dom[0] <= lt <= dom[1]:
                            for ts in (0.0, 0.25):
                                for fr in (10.0, 4.0):
                                    yield dict(kind="decay1", u0=u0, tr=tr, dom=dom, n=n, lt=lt, ts=ts, fr=fr, sd=0.05 if n > 1 else 0.3)
    yield dict(kind="decay1d")
    for k in range(3):
        yield dict(kind="decay2", k=k)
    for q in (1, 2, 3, 5, 10):
        for b in (None, "one", "ramp"):
            for r in (None, [1.0, -2.0], [0.0, 0.0], [0.25, 3.0]):
                for tol in (0.1, 0.5):
                    for s in (None, 3):
                        yield dict(kind="rot", q=q, b=b, r=r, tol=tol, s=s)
    for m in ("ordered", "shuffle", "batch", "random"):
        yield dict(kind="trials", m=m)
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
        for e in itertools.product((-1, 0, 2), repeat=m * n):
            if m * n > 4 and sum((i + 1) * v for i, v in enumerate(e)) % (5 if not big else 1):
                continue
            yield dict(kind="noisy", m=m, n=n, e=list(e))
    for m, n in ((1, 3), (7, 4), (40, 3)):
        yield dict(kind="noisy", m=m, n=n, e=[((3 * i + 1) % 7) - 3 for i in range(m * n)])
    for i, o in itertools.product((1, 2, 3, 5, 8), repeat=2):
        for s in (None, 0, 7):
            for mean in (0, 1):
                for cov in (0, 1):
                    yield dict(kind="rand", i=i, o=o, s=s, mean=mean, cov=cov)
    for dim in (1, 2, 5):
        for q in (1, 2, 3):
            for n in (1, 2, 3, 6):
                for rep in (False, True):
                    for dist in ("normal", "uniform"):
                        for sd in ("zero", "list", "scalar", "each", "none"):
                            yield dict(kind="wme", dim=dim, q=q, n=n, rep=rep, dist=dist, sd=sd)
    for q in (2, 3):
        for rep in (False, True):
            yield dict(kind="wmelist", q=q, rep=rep)

def frozen(name, dom):
    from scipy.stats import distributions as d
    lo, w = dom[0], dom[1] - dom[0]
    return {"uniform": lambda: d.uniform(loc=lo, scale=w), "norm": lambda: d.norm(loc=lo + 0.4 * w, scale=0.2 * w),
            "beta": lambda: d.beta(2, 3, loc=lo, scale=w)}[name]()

def cdf_ok(u):
    """values of a sample under the distribution function it should follow are uniform (Kolmogorov distance)"""
    u = np.sort(np.ravel(u)); n = len(u)
    if np.any(u < 0) or np.any(u > 1) or n == 0:
        return False
    d = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    return d * np.sqrt(n) < 2.4

def run(case, c):
    globals()["run_" + case["kind"].rstrip("d" if case["kind"] == "decay1d" else "")](case, c)
    c.outcome(case["kind"])

def run_poly(case, c):
    from mud.examples.simple import polynomial_1D_data
    dom, p, n = case["dom"], case["p"], case["n"]
    kw = dict(p=p, num_samples=n, domain=[dom] if case["s"] else dom, mu=0.5, sigma=0.2, N=3)
    if case["init"] != "default":
        kw["init_dist"] = frozen(case["init"], dom)
    lam, q, data = seeded(case["s"], polynomial_1D_data, **kw)
    c.true(lam.shape == (n, 1) and q.shape == (n, 1) and np.shape(data) == (3,), f"shapes {lam.shape} {q.shape} {np.shape(data)}")
    c.close(q, np.array([[np.prod([v] * p)] for v in lam.ravel()]) if p else np.ones((n, 1)), "powers of the samples", rtol=1e-12)
    init = frozen("uniform" if case["init"] == "default" else case["init"], dom)
    u = init.cdf(lam)
    if not cdf_ok(u) and n > 1:
        if case["init"] == "default" and dom != [0.0, 1.0] and np.all((lam >= 0) & (lam <= 1)) and cdf_ok(lam):
            c.fail(f"samples of the default initial distribution are uniform over (0,1), not over the domain {dom}", key="poly-default-init")
        c.fail(f"samples do not follow the initial distribution {case['init']} on {dom}: {lam.ravel()[:6].tolist()}")
    lo, hi = init.support()
    c.true(case["init"] == "default" or np.all((lam >= lo) & (lam <= hi)), "samples outside the initial distribution")
    c.state(lam, data)

def run_obs(case, c):
    from mud.examples.simple import polynomial_1D_data
    N, mu, sg = case["N"], case["mu"], case["sg"]
    get = lambda m, s: np.asarray(seeded(case["s"], polynomial_1D_data, p=2, num_samples=5, mu=m, sigma=s, N=N)[2])
    d = get(mu, sg)
    c.true(d.shape == (N,), f"{d.shape} observations, asked for {N}")
    if N == 1:
        c.close(d, [mu], "single observation")
        return
    z = d - mu
    c.true(np.any(z != 0) and len(set(z.tolist())) == N, "observations repeat")
    c.close(get(mu + 1.5, sg), d + 1.5, "observations move with the mean")
    if N < 1000:
        c.state(d)
        r = get(mu, 2 * sg) - mu
        if np.allclose(r, 4 * z, rtol=1e-6):
            c.fail("doubling the deviation multiplies the noise by four", key="poly-sigma-squared")
        c.close(r, 2 * z, "noise scales with the deviation", rtol=1e-6)
        return
    c.true(abs(np.mean(z)) < 6 * max(np.std(z), 1e-12) / np.sqrt(N), f"mean of {N} observations is {np.mean(d)}, not {mu}")
    if abs(np.std(z) - sg ** 2) < 0.1 * sg ** 2:
        c.fail(f"deviation of the observations is sigma squared: {np.std(z)} for sigma {sg}", key="poly-sigma-squared")
    c.true(abs(np.std(z) - sg) < 0.1 * sg, f"deviation of {N} observations is {np.std(z)}, not {sg}")

def weights_of(case):
    n = case["n"]
    return {None: None, "ramp": 1.0 + np.arange(n) / n, "half": np.array([1.0 if i % 2 else 0.5 for i in range(n)])}[case["w"]]

def run_ident(case, c):
    from mud.examples.simple import identity_1D_density_prob
    dom, mu, sg, n = case["dom"], case["mu"], case["sg"], case["n"]
    init = frozen("uniform" if case["init"] == "default" else case["init"], dom)
    kw = dict(num_samples=n, num_obs=1, mu=mu, sigma=sg, weights=weights_of(case), normalize=case["norm"], domain=dom, analytical_pred=case["an"])
    if case["init"] != "default":
        kw["init_dist"] = init
    D = seeded(4, identity_1D_density_prob, **kw)
    X = np.asarray(D.X); c.true(X.shape == (n, 1), f"samples of shape {X.shape}")
    c.close(D.y, X, "identity map")
    c.close(D.domain, [dom], "domain")
    c.true(cdf_ok(init.cdf(X)), "samples do not follow the initial distribution")
    w = weights_of(case)
    if w is not None and case["norm"]:
        w = w / np.linalg.norm(w)
    x = X.ravel()
    obs = np.exp(-0.5 * ((x - mu) / sg) ** 2) / (sg * np.sqrt(2 * np.pi))
    if case["an"]:
        pred = init.pdf(x)
    else:
        pred = ref.kde(X, X, weights=w).ravel()
    r = obs / pred
    ew = np.ones(n) if w is None else w
    up = init.pdf(x) * r * ew
    D.estimate()
    tol = dict(rtol=1e-5)
    c.close(np.ravel(D.mud_point()), [x[int(np.argmax(up))]], "estimate", rtol=1e-9) if np.sort(up)[-1] - np.sort(up)[-2] > 1e-9 * np.max(up) else None
    c.close(float(D.expected_ratio()), np.average(r, weights=ew), "expected ratio", **tol)

def run_identN(case, c):
    from mud.examples.simple import identity_1D_density_prob
    for N in (2, 20, 100):
        D = seeded(8, identity_1D_density_prob, num_samples=1500, num_obs=N, mu=case["mu"], sigma=case["sg"], domain=case["dom"])
        e = float(np.ravel(D.estimate())[0])
        c.true(abs(e - case["mu"]) < 6 * max(case["sg"], case["sg"] ** 2) / np.sqrt(N) + 0.02, f"estimate {e} for mean {case['mu']}, deviation {case['sg']}, {N} observations")
        c.state(N, e)

def run_bayes(case, c):
    from mud.examples.simple import identity_1D_bayes_prob
    mu, sg, n, N = case["mu"], case["sg"], case["n"], case["N"]
    kw = dict(num_samples=n, num_obs=N, mu=mu, sigma=sg)
    if case["init"] != "default":
        kw["init_dist"] = frozen(case["init"], [0.0, 1.0])
    B = seeded(4, identity_1D_bayes_prob, **kw)
    X = np.asarray(B.X); c.true(X.shape == (n, 1), f"samples of shape {X.shape}")
    init = frozen("uniform" if case["init"] == "default" else case["init"], [0.0, 1.0])
    c.true(cdf_ok(init.cdf(X)), "samples do not follow the initial distribution")
    c.close(B.y, X, "identity map")
    e = float(np.ravel(B.estimate())[0])
    if N == 1:
        # the prior of the problem is uniform over the domain of the samples, so the nearest sample is most probable
        c.close(e, X.ravel()[int(np.argmin(np.abs(X.ravel() - mu)))], "MAP estimate for one observation")
    else:
        gap = np.min(np.abs(X - mu))
        c.true(abs(e - mu) <= 6 * max(sg, sg ** 2) / np.sqrt(N) + gap + 1e-12, f"estimate {e} for mean {mu}, deviation {sg}, {N} observations")
        c.state(e)

def run_temporal(case, c):
    from mud.examples.simple import identity_1D_temporal_prob
    try:
        D = seeded(3, identity_1D_temporal_prob, num_samples=400, num_obs=20, y_true=0.5 if case["k"] == 0 else 0.3, noise=0.05, domain=[[0, 1]])
        e = float(np.ravel(D.estimate())[0])
    except Exception as ex:
        c.fail(f"identity_1D_temporal_prob cannot build its problem: {type(ex).__name__}", key="temporal-broken")
    c.true(abs(e - (0.5 if case["k"] == 0 else 0.3)) < 0.1, f"estimate {e}")

def run_decay1(case, c):
    from mud.examples.exp_decay import exp_decay_1D
    if case["kind"] == "decay1d":
        P = seeded(2, exp_decay_1D)
        u0, tr, dom, n, lt, ts, fr, sd = 0.75, [0, 4.0], [0, 1], 10000, 0.5, 0.0, 100.0, 0.05
    else:
        u0, tr, dom, n, lt, ts, fr, sd = (case[k] for k in ("u0", "tr", "dom", "n", "lt", "ts", "fr", "sd"))
        P = seeded(2, exp_decay_1D, u_0=u0, time_range=tr, domain=list(dom), num_samples=n, lambda_true=lt, t_start=ts, sampling_freq=fr, std_dev=sd)
    t = ts + np.arange(int(np.ceil((tr[1] - ts) * fr - 1e-9))) / fr
    c.close(np.ravel(P.times), t, "times")
    lam = np.asarray(P.lam); c.true(lam.size == n and lam.shape[0] == n, f"samples of shape {lam.shape}")
    c.true(np.all((lam >= dom[0]) & (lam <= dom[1])), "samples outside the domain")
    if n > 1:
        c.true(cdf_ok((lam - dom[0]) / (dom[1] - dom[0])), "samples are not uniform over the domain")
    want = u0 * np.exp(-lam.reshape(n, 1) * t.reshape(1, -1))
    c.close(np.asarray(P.data).reshape(n, -1), want, "decay values")
    c.close(np.ravel(P.true_vals), u0 * np.exp(-lt * t), "true values")
    c.close(P.std_dev, sd, "deviation", shape=False)
    c.close(np.asarray(P.domain).reshape(1, 2), [dom], "domain")

def run_decay2(case, c):
    from mud.examples.exp_decay import exp_decay_2D
    kw = [dict(), dict(num_samples=7, N=5, lambda_true=[0.72, 0.3], std_dev=0.2), dict(domain=np.array([[1.0, 2.0], [0.0, 1.0]]), lambda_true=[1.5, 0.25], time_range=[0, 1.0], sampling_freq=4.0)][case["k"]]
    try:
        P = seeded(2, exp_decay_2D, **kw)
    except TypeError as ex:
        c.fail(f"exp_decay_2D cannot evaluate the true values: {ex}", key="decay-2d")
    lt = kw.get("lambda_true", [0.75, 0.5]); t = np.ravel(P.times)
    lam = np.asarray(P.lam)
    c.close(np.asarray(P.data).reshape(len(lam), -1), lam[:, :1] * np.exp(-lam[:, 1:] * t), "decay values")
    c.close(np.ravel(P.true_vals), lt[0] * np.exp(-lt[1] * t), "true values")

def run_rot(case, c):
    from mud.examples.linear import rotation_map
    q = case["q"]
    b = {None: None, "one": np.ones((q, 1)), "ramp": np.arange(q, dtype=float).reshape(-1, 1) - 1.5}[case["b"]]
    r = None if case["r"] is None else np.array(case["r"]).reshape(-1, 1)
    kb = None if b is None else b.copy(); kr = None if r is None else r.copy()
    A, bb, y, m, C, rp = seeded(1, rotation_map, qnum=q, tol=case["tol"], b=b, ref_param=r, seed=case["s"])
    th = np.array([np.pi * i / (q - 1) if q > 1 else 0.0 for i in range(q)])
    c.close(A, np.stack([np.sin(th), np.cos(th)], axis=1), "rows of the map", atol=1e-12)
    c.close(bb, np.zeros((q, 1)) if kb is None else kb, "data vector")
    c.close(rp, np.full((2, 1), 0.5) if kr is None else kr, "reference")
    c.close(y, np.stack([np.sin(th), np.cos(th)], axis=1) @ np.asarray(rp) + np.asarray(bb), "observed value of the reference", atol=1e-12)
    c.true(np.shape(m) == (2, 1) and np.all(np.isfinite(m)), f"initial mean of shape {np.shape(m)}")
    from mud.util import std_from_equipment
    sd = std_from_equipment(case["tol"])
    c.close(C, [[sd, 0.0], [0.0, sd]], "initial covariance")
    if b is not None:
        c.true(np.array_equal(b, kb), "data vector modified")

def run_trials(case, c):
    from mud.examples.linear import rotation_map_trials
    from mc import plots
    import matplotlib.pyplot as plt
    ax = plots.axes()
    try:
        seeded(1, rotation_map_trials, numQoI=4, method=case["m"], num_trials=3, model_eval_budget=8, ax=ax, seed=2)
    except TypeError as ex:
        c.fail(f"rotation_map_trials passes an unknown argument: {ex}", key="rotation-trials")
    finally:
        plt.close("all")
    c.true(len(ax.lines) >= 4, "one line per trial and their mean")

def run_noisy(case, c):
    from mud.examples.linear import noisy_linear_data
    m, n = case["m"], case["n"]
    M = np.array(case["e"], float).reshape(m, n)
    x = np.array([(-1) ** i * (i + 1) * 0.5 for i in range(n)])
    nds = [None, m] if m > 1 else [None, 1, 2, 5]
    for nd in nds:
        k = m if nd is None else nd
        clean = np.array([sum(M[j if m > 1 else 0, i] * x[i] for i in range(n)) for j in range(k)])
        for sd in (0, 0.0, 0.5, 2, np.arange(k) + 0.25, np.zeros(k)):
            for ref_form in (x.tolist(), x, x.reshape(-1, 1)):
                for tape in ([0.0], [1.0], [-2.0], [0.5 * i - 1.25 for i in range(k)]):
                    with normals(tape) as t:
                        if ref_form is not x and np.ndim(ref_form) == 2:
                            ref_form = ref_form.copy()
                        d = noisy_linear_data(M.copy(), ref_form, sd if not isinstance(sd, np.ndarray) else sd.copy(), num_data=nd)
                    s = np.full(k, float(sd)) if not isinstance(sd, np.ndarray) else sd
                    c.true(t.used == k, f"{t.used} normal draws for {k} observations")
                    if len(tape) == 1:
                        c.close(d, clean + s * tape[0], f"observations for noise {tape[0]}")
                    else:
                        c.true(np.shape(d) == (k,), f"{np.shape(d)} observations, expected {k}")
                        z = np.sort((np.asarray(d) - clean)[s > 0] / s[s > 0])
                        if np.all(s > 0):
                            c.close(z, np.sort(tape), "each observation has its own noise")
                        c.close(np.asarray(d)[s == 0], clean[s == 0], "noiseless observations")
    for bad in (lambda: noisy_linear_data(M, np.ones(n + 1), 0.1), lambda: noisy_linear_data(M, x, np.ones(m + 1), num_data=m)):
        c.raises(bad, "mismatched sizes", AssertionError)
    if m > 1:
        c.raises(lambda: noisy_linear_data(M, x, 0.1, num_data=m + 1), "more data than rows", AssertionError)

def run_rand(case, c):
    from mud.examples.linear import random_linear_problem
    i, o = case["i"], case["o"]
    kw = dict(dim_input=i, dim_output=o, seed=case["s"])
    mean = np.arange(i, dtype=float).reshape(-1, 1) + 0.5; cov = np.eye(i) * 2 + 0.25
    if case["mean"]:
        kw["mean_i"] = mean.copy()
    if case["cov"]:
        kw["cov_i"] = cov.copy()
    np.random.seed(33 + i)
    lam, P = random_linear_problem(**kw)
    c.true(np.shape(lam) == (i, 1) and np.shape(P.A) == (o, i) and np.shape(P.b) == (o, 1), "shapes")
    c.close(P.y, np.asarray(P.A) @ lam + P.b, "data of the reference")
    c.close(P.mean_i, mean if case["mean"] else np.zeros((i, 1)), "initial mean")
    c.close(P.cov_o, np.eye(o), "observed covariance"); c.close(P.alpha, 1.0, "scale of the prior", shape=False)
    C = np.asarray(P.cov_i)
    if case["cov"]:
        c.close(C, cov, "initial covariance")
    else:
        d = np.diag(C)
        c.true(np.array_equal(C, np.diag(d)) and np.all((d >= 0.5) & (d <= 1.5)), f"initial covariance {C.tolist()}")
    e = [np.asarray(P.A), np.asarray(P.b), lam]
    c.true(all(len(set(a.ravel().tolist())) == a.size for a in e), "draws repeat")
    # the MUD point reproduces the data when there are no more outputs than inputs
    if o <= i:
        mud = P.solve("mud")
        c.close(np.asarray(P.A) @ mud + P.b, P.y, "MUD point reproduces the data", rtol=1e-5, atol=1e-5)
    if case["s"] is not None:
        np.random.seed(99)
        lam2, P2 = random_linear_problem(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
        c.close(P2.A, P.A, "same seed, same operator", rtol=0); c.close(lam2, lam, "same seed, same reference", rtol=0); c.close(P2.cov_i, P.cov_i, "same seed, same covariance", rtol=0)
        kw["seed"] = case["s"] + 1
        c.true(not np.array_equal(random_linear_problem(**kw)[1].A, P.A), "another seed gives the same operator")

def wme(case, sd, seed=6, **over):
    from mud.examples.linear import random_linear_wme_problem
    x = np.array([0.5 * (i + 1) * (-1) ** i for i in range(case["dim"])])
    kw = dict(num_qoi=case["q"], num_observations=case["n"], dist=case["dist"], repeated=case["rep"]); kw.update(over)
    return x, seeded(seed, random_linear_wme_problem, x.reshape(-1, 1) if case["dim"] > 1 else x, sd, **kw)

def run_wme(case, c):
    q, n = case["q"], case["n"]
    rows = 1 if case["rep"] or q == 1 else q
    if case["sd"] == "none":
        try:
            x, (ops, data, sds) = wme(case, None)
        except TypeError as ex:
            c.fail("random_linear_wme_problem without deviation raises instead of giving noiseless data", key="wme-no-deviation")
    fits = rows in (1, n)        # otherwise the operator has one row per QoI instead of one per observation
    base = [0] * q
    sd = {"zero": [0.0] * q, "list": [0.25 * (i + 1) for i in range(q)], "scalar": 0.5, "each": [0.25 * (i + 1) * (1 + np.arange(n)) for i in range(q)], "none": [0] * q}[case["sd"]]
    try:
        x, (ops, data, sds) = wme(case, sd)
        x, (ops0, data0, _) = wme(case, base)
    except AssertionError as ex:
        if case["sd"] == "scalar" and q > 1:
            c.fail("random_linear_wme_problem refuses one deviation for several QoI", key="wme-scalar-deviation")
        raise
    except ValueError as ex:
        if not fits and not case["rep"]:
            c.fail(f"random_linear_wme_problem: {q} QoI with {n} observations each cannot be built", key="wme-rows")
        raise
    c.true(len(ops) == len(data) == q and len(sds) == q, f"{len(ops)} operators, {len(data)} data vectors and {len(sds)} deviations for {q} QoI")
    for i in range(q):
        M = np.asarray(ops[i]); d = np.asarray(data[i]).ravel()
        c.true(M.ndim == 2 and M.shape[1] == case["dim"], f"operator {i} of shape {M.shape}")
        if not (d.size == n and M.shape[0] in (1, n)) and n == 1 and not case["rep"] and q > 1 and M.shape[0] == q and d.size == q:
            c.fail(f"random_linear_wme_problem: {d.size} observations instead of {n} per QoI", key="wme-rows")
        c.true(d.size == n and M.shape[0] in (1, n), f"{d.size} observations and {M.shape[0]} rows, expected {n}")
        if case["rep"]:
            c.true(M.shape[0] == 1, "repeated observations share one row")
        c.close(ops0[i], M, "operator does not depend on the deviation", rtol=0)
        clean = np.array([float(M[j if M.shape[0] == n else 0] @ x) for j in range(n)])
        c.close(np.asarray(data0[i]).ravel(), clean, "noiseless data")
        s = np.broadcast_to(np.asarray(sd[i] if not np.isscalar(sd) else sd, float), (n,))
        z = d - clean
        c.true(np.all((z == 0) == (s == 0)) or np.allclose(z[s == 0], 0), "noise where there is none or none where there is")
        if np.any(s):
            _, (_, data1, _) = wme(case, (np.asarray(sd, float) * 3).tolist() if case["sd"] != "each" else [v * 3 for v in sd])
            c.close(np.asarray(data1[i]).ravel() - clean, 3 * z, "noise scales with the deviation", rtol=1e-6)
            if case["sd"] == "each":
                _, (_, data2, _) = wme(case, [0.25 * (k + 1) * np.ones(n) for k in range(q)])
                c.close((np.asarray(data2[i]).ravel() - clean) * (1 + np.arange(n)), z, "deviations belong to their observations", rtol=1e-6)
            c.true(len(set(np.round(z / np.where(s > 0, s, 1), 12).tolist())) == n, "noise repeats")
        if case["dist"] == "uniform":
            c.true(np.all((M >= 0) & (M < 1)), "uniform operator outside [0,1)")
        c.state(i, M, d)
    if q > 1:
        c.true(not np.array_equal(ops[0], ops[1]), "operators of different QoI are the same draw")
    big = dict(case, q=1, n=3, dim=200, rep=False)
    M = np.asarray(wme(big, [0.0])[1][0][0])
    if case["dist"] == "normal":
        c.true(np.min(M) < -0.8 and np.max(M) > 0.8 and abs(np.std(M) - 1) < 0.3, "normal operator is not standard normal")

def run_wmelist(case, c):
    """observation counts of their own per QoI"""
    q = case["q"]
    k = dict(dim=2, q=q, n=0, rep=True, dist="normal")
    ns = [2 + 3 * i for i in range(q)]
    x, (ops, data, sds) = wme(k, [0.0] * q, num_observations=ns)
    for i in range(q):
        c.close(np.asarray(data[i]).ravel(), np.full(ns[i], float((np.asarray(ops[i]) @ x)[0])), f"data of QoI {i}")
    c.raises(lambda: wme(k, [0.0] * (q + 1), num_observations=ns), "wrong number of deviations", AssertionError)
    c.raises(lambda: wme(k, [0.0] * q, num_observations=ns + [1]), "wrong number of counts", AssertionError)
    x, (o1, d1, _) = wme(k, [0.5] * q, num_observations=[400] * q)
    for i in range(q):
        z = (np.asarray(d1[i]).ravel() - float((np.asarray(o1[i]) @ x)[0])) / 0.5
        c.true(abs(np.mean(z)) < 0.3 and abs(np.std(z) - 1) < 0.2, f"noise of QoI {i} is not standard normal: {np.mean(z)}, {np.std(z)}")
