"""C28 example options, tables and figures"""
import itertools, json, os, random
import numpy as np
from mc import alpha, ex, ref
from mc.checks.c20 import project

RULE = ("Every option of every example command over several values and pairs of options, on the bundled data sets and on enumerated "
        "synthetic ones (numbers of samples, sensors, times), driven through the command line with figures kept open: exit status, "
        "printed table (rows, order, estimates, ratios), files written (names, duplicates, selection, pixel size), and everything drawn. "
        "Oracle: residual maps, singular directions and densities computed by the harness for the requested selection, and the drawings "
        "of the library function called with the same settings and seed.")
ASSUMPTIONS = ["the order in which a seeded run draws from the global random sources is that of the example function of the same name"]
WIN = [("2018-01-01T03:10", "2018-01-01T09:50"), ("2018-01-01T10:05", "2018-01-02T02:20"), ("2018-01-02T04:40", "2018-01-02T08:20"), ("2018-01-01T12:10", "2018-01-01T16:20")]
NAMES = {"data_mismatch": "data_mismatch_contour.png", "tikhonov": "tikhonov_contour.png", "consistent": "consistent_contour.png", "map": "classical_solution.png",
         "mud": "consistent_solution.png", "comparison": "map_compare_contour.png"}


def cases(tier):
    big = tier == "thorough"
    for ds in ("poisson", "adcirc"):
        for sd in (0.05, 0.01, 0.5):
            for seed in (21, 4):
                for bundled in (0, 1):
                    yield dict(kind="load", ds=ds, sd=sd, seed=seed, bundled=bundled)
    # poisson
    for s in range(2 if not big else 5):
        for order in ("random", "sorted", "given"):
            for N in ([5], [3, 9], [9, 4, 2], [2, 3, 4, 5, 6, 7, 8, 50]):
                yield dict(kind="ptrials", s=s, order=order, N=N, seed=21 + s)
    for N in ([], [7, 2, 4], [9], [3, 3], [100, 2]):
        for sg in (None, 0.05, 0.3):
            for lim in range(3):
                for seed in (0, 21):
                    if big or (lim + seed + len(N)) % 2 == 0:
                        yield dict(kind="ctrials", N=N, sg=sg, lim=lim, seed=seed)
    yield dict(kind="ctrials", N=[2], sg=None, lim=0, seed=21, bundled=1)
    yield dict(kind="ctrials-p")
    for fig in ("all", "response", "qoi", "densities", "none"):
        for how in ("str", "list", "pair"):
            for order in ("random", "sorted", "given"):
                if order == "random" or how == "list":
                    yield dict(kind="psol", fig=fig, how=how, order=order, seed=3)
    for seed in (1, 21):
        for sg in (None, 0.05, 0.2):
            for fig in (None, "all", "response", "qoi"):
                yield dict(kind="csol", seed=seed, sg=sg, fig=fig)
    # adcirc
    for k in (1, 2):
        for w in ([], [0], [1, 2], [2, 0, 1], [0, 0]):
            for fig in ([], ["all"], ["updated_dist"], ["learned_qoi", "mesh"], ["ts-pca", "full_ts"], ["none"]):
                if not big and len(w) > 1 and fig not in (["none"], ["updated_dist"], ["all"]):
                    continue
                yield dict(kind="cadc", k=k, w=w, fig=fig, seed=5)
    for sg in (0.05, 0.3):
        yield dict(kind="cadc", k=2, w=[1], fig=["none"], seed=9, sg=sg)
    for mv in ("wind_speed_mult_0", "DP", "other", "absent"):
        for zoom in (None, [[-72.5, 0.25], [40.7, 0.2]]):
            yield dict(kind="mesh", mv=mv, zoom=zoom)
    for n in (1, 2, 3):
        yield dict(kind="adcopt", n=n, what="labels")
        yield dict(kind="adcopt", n=n, what="ylims")
    yield dict(kind="adcopt", n=4, what="labels")
    yield dict(kind="adcsame")
    yield dict(kind="adcbundled")
    # comparison
    for p in (1, 2, 5):
        for n in (40, 100):
            for mu, sg in ((0.25, 0.1), (0.5, 0.2), (0.1, 0.05)):
                for N in ([1], [1, 4], [6, 2], [5]):
                    for dom in ([-1, 1], [0, 1], [-2, 3]):
                        if big or (p + n + len(N) + dom[1]) % 3 == 0:
                            yield dict(kind="comp", p=p, n=n, mu=mu, sg=sg, N=N, dom=dom, seed=p)
    for opt in ({}, {"-p": [3]}, {"-n": [60]}, {"-m": [0.5]}, {"-s": [0.3]}, {"-d": [-2, 2]}, {"--n-vals": [3]}, {"--n-vals": [2, 7, 1]},
                {"-p": [2], "-m": [0.6], "-s": [0.05]}, {"-n": [77], "--n-vals": [4], "-d": [0, 1]}):
        for seed in (None, 8):
            yield dict(kind="ccomp", opt=opt, seed=seed)
    yield dict(kind="ccomp-latex")
    # contours
    names = list(NAMES)
    for k in range(0, 7 if big else 3):
        for t in itertools.combinations(names, k):
            yield dict(kind="cont", figs=list(t))
    for t in (["all"], ["all", "mud"], names):
        yield dict(kind="cont", figs=t)
    for i in range(6):
        yield dict(kind="contfile", i=i)
    # linear studies
    for i, o in ((3, 2), (5, 5), (6, 1)):
        for seed in (2, 30):
            yield dict(kind="chd", i=i, o=o, seed=seed)
    for i, o, sg, N in ((4, 2, None, [3, 6]), (6, 3, 0.5, [2]), (3, 3, 2.0, [1, 4, 9, 5, 7]), (8, 2, 0.01, [10, 20])):
        for seed in (2, 30):
            yield dict(kind="cwme", i=i, o=o, sg=sg, N=N, seed=seed)
    for cmd in (["comparison", "-n", "40", "--n-vals", "1"], ["contours", "-p", "mud"], ["wme-covariance", "-i", "3", "-o", "2", "-n", "4"], ["high-dim-linear", "-i", "4", "-o", "2"], ["ptrials"], ["adc"]):
        for dpi in (8, 16, 31):
            for show in (None, True, False):
                for save in ("given", "new", "cwd"):
                    if big or (dpi + bool(show)) % 2 == 0 or save == "given":
                        yield dict(kind="common", cmd=cmd, dpi=dpi, show=show, save=save)
    yield dict(kind="paper")

def run(case, c):
    globals()["run_" + case["kind"].replace("-", "_")](case, c)
    c.outcome(case["kind"])

def png(names):
    return sorted(n if n.endswith(".png") else n + ".png" for n in names)

def files(c, d, want, R=None, skip=()):
    got = sorted(f for f in os.listdir(d) if f.endswith(".png"))
    c.true(got == png(want), f"figures written: {got}, expected {png(want)}")
    if R is not None:
        paths = [p if p.endswith(".png") else p + ".png" for p, _, _ in R.saved]
        c.true(len(set(paths)) == len(paths), f"figures overwrite each other: {sorted(p for p in paths if paths.count(p) > 1)}")

def ok(c, R, what):
    c.true(R.code == 0, f"{what} failed: {R.exc!r} {R.out[-200:]}")

# ---- loading ------------------------------------------------------------------------------------
def run_load(case, c):
    from mud.examples.poisson import load_poisson_prob
    from mud.examples.adcirc import load_adcirc_prob
    f = load_poisson_prob if case["ds"] == "poisson" else load_adcirc_prob
    with ex.Scratch() as d:
        if case["bundled"]:
            src = os.path.join(os.path.dirname(os.path.dirname(os.environ.get("MC_SRC", "/repo/src") + "/")), "tests", "data", case["ds"] + "_data")
            if not os.path.exists(src):
                src = f"/repo/tests/data/{case['ds']}_data"
            import pickle
            p = src; D = pickle.load(open(p, "rb"))
        else:
            p, D = ex.poisson_file(d, m=40) if case["ds"] == "poisson" else ex.adcirc_file(d)
        np.random.seed(1)
        raw, P = f(p, std_dev=case["sd"], seed=case["seed"])
        n = len(D["lam"])
        c.close(np.asarray(P.lam).reshape(n, -1), D["lam"], "samples"); c.close(np.asarray(P.data).reshape(n, -1), D["data"], "data")
        c.close(np.ravel(P.true_vals), np.ravel(D["true_vals"]), "true values"); c.close(P.domain, np.asarray(D["domain"], float), "domain")
        if case["ds"] == "adcirc":
            c.close(np.ravel(P.lam_ref), D["lam_ref"], "reference parameter")
            c.true(np.array_equal(np.asarray(P.times), np.asarray(D["times"])), "times")
        else:
            c.close(P.sensors, D["sensors"], "sensors")
        z = np.ravel(P.measurements) - np.ravel(D["true_vals"])
        c.true(np.all(np.isfinite(z)) and len(set(z.tolist())) == len(z), "noise")
        np.random.seed(2)
        P2 = f(p, std_dev=case["sd"], seed=case["seed"])[1]
        c.close(P2.measurements, P.measurements, "same seed, same measurements", rtol=0)
        P3 = f(p, std_dev=case["sd"], seed=case["seed"] + 1)[1]
        c.true(not np.allclose(P3.measurements, P.measurements), "another seed, same measurements")
        m = len(z)
        def looks(sd):
            return abs(np.std(z) / sd - 1) < max(0.05, 3.5 / np.sqrt(m)) if m > 5 else np.all(np.abs(z) < 5 * sd)
        if case["sd"] != 0.05 and np.isclose(float(np.ravel(P.std_dev)[0]), 0.05) and looks(0.05):
            c.fail(f"the {case['ds']} loader uses the deviation 0.05 instead of the one given", key=f"{case['ds']}-sigma")
        c.close(float(np.ravel(P.std_dev)[0]), case["sd"], "deviation")
        c.true(looks(case["sd"]), f"noise of deviation {np.std(z)} instead of {case['sd']}")

# ---- reference of one mean-error or component problem -------------------------------------------
def check_density(c, D, P, idx, k, what):
    """D is the problem of k principal components of the residuals at columns idx of P"""
    Y = np.asarray(P.data, float).reshape(P.n_samples, -1)[:, idx]; m = np.ravel(np.asarray(P.measurements, float))[idx]
    R = (m - Y) / float(np.ravel(P.std_dev)[0])
    X = np.asarray(P.lam, float).reshape(P.n_samples, -1)
    c.close(D.X, X, f"{what}: samples")
    q = project(R, "pca", k)
    c.true(q is not None, f"{what}: the data set determines its directions")
    g = np.asarray(D.y, float)
    c.true(g.shape == q.shape, f"{what}: outputs of shape {g.shape}, expected {q.shape}")
    q = q * np.where(np.sum(g * q, axis=0) < 0, -1, 1)
    c.close(g, q, f"{what}: outputs", rtol=1e-6, atol=1e-7 * max(1.0, np.abs(R).max()))
    c.close(D.domain, np.asarray(P.domain, float), f"{what}: domain")
    return answer(c, D, X, q, P, what)

def reference(P, idx, k):
    Y = np.asarray(P.data, float).reshape(P.n_samples, -1)[:, idx]; m = np.ravel(np.asarray(P.measurements, float))[idx]
    R = (m - Y) / float(np.ravel(P.std_dev)[0])
    X = np.asarray(P.lam, float).reshape(P.n_samples, -1)
    q = project(R, "pca", k)
    if q is None or not ref.kde_ok(q, np.ones(len(X)), 1e-4):
        return None
    RR = ref.density(X, q, np.ones(len(X)), None, None, None, np.asarray(P.domain, float))
    return X, RR["up"], float(np.mean(RR["r"]))

def answer(c, D, X, q, P, what):
    if not ref.kde_ok(q, np.ones(len(X)), 1e-4):
        return
    RR = ref.density(X, q, np.ones(len(X)), None, None, None, np.asarray(P.domain, float))
    c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(RR["up"], 1e-5)), f"{what}: estimate {np.ravel(D.estimate()).tolist()}")
    c.close(D.expected_ratio(), np.mean(RR["r"]), f"{what}: expected ratio", rtol=1e-5, atol=1e-9)

def check_row(c, row, P, idx, k, what):
    r = reference(P, idx, k)
    if r is None:
        return
    X, up, er = r
    pt = ex.numbers(row[0])
    c.true(len(pt) == X.shape[1] and any(np.allclose(pt, X[i], rtol=1e-6, atol=1e-8) for i in ref.argmax_set(up, 1e-5)), f"{what}: estimate {row[0]}, expected {X[int(np.argmax(up))].tolist()}")
    c.close(float(row[1]), er, f"{what}: expected ratio", rtol=1e-2 if len(row[1]) < 6 else 1e-5, atol=0.0051 if len(row[1]) < 6 else 1e-9)

def order_of(P, order, seed):
    n = P.n_sensors
    if order == "random":
        random.seed(seed)
        return random.sample(range(n), n)
    s = np.asarray(P.sensors)
    return sorted(range(n), key=lambda i: (s[i, 0], s[i, 1])) if order == "sorted" else list(range(n))

# ---- poisson --------------------------------------------------------------------------------------
def run_ptrials(case, c):
    from mud.examples.poisson import run_2d_poisson_trials
    with ex.Scratch() as d:
        p, raw = ex.poisson_file(d, s=case["s"])
        R = ex.observed(lambda: run_2d_poisson_trials(p, N_vals=case["N"], order=case["order"], seed=case["seed"], ylim1=[-0.5, 2.0], ylim2=[0, 7.0], save_path=d, dpi=8))
        P, probs, axes = R.value
        c.true(len(probs) == len(axes) == len(case["N"]), f"{len(probs)} problems for {len(case['N'])} counts")
        idx = order_of(P, case["order"], case["seed"])
        for N, D, a in zip(case["N"], probs, axes):
            check_density(c, D, P, idx[:N], 2, f"{N} sensors in {case['order']} order")
            for j in range(2):
                c.true(any(t == f"$N = {N}$" for t in [x.get_text() for x in a[j].texts]), f"axes of {N} sensors are not labelled with their count")
                r = [x.get_text() for x in a[j].texts if "mathbb" in x.get_text()]
                c.true(len(r) == 1 and abs(ex.numbers(r[0].split("=")[1])[0] - D.expected_ratio()) <= 6e-4 * abs(D.expected_ratio()), f"ratio in the plot: {r}")
                c.close(np.array(a[j].get_ylim()), [[-0.5, 2.0], [0, 7.0]][j], "limits", rtol=1e-9)
        files(c, d, sorted({f"solution_n{N}" for N in case["N"]}))

LIM = [[], ["-y1", "-1", "-y1", "4.5"], ["-y2", "0", "-y2", "3", "-x1", "-5", "-x1", "1", "-x2", "-3.5", "-x2", "0.25"]]

def run_ctrials(case, c):
    from mud.examples.poisson import load_poisson_prob
    with ex.Scratch() as d:
        p = ("/repo/tests/data/poisson_data", None)[0] if case.get("bundled") else ex.poisson_file(d, n=50)[0]
        args = ["poisson-trials", p] + [x for N in case["N"] for x in ("-n", str(N))] + ([] if case["sg"] is None else ["-s", str(case["sg"])]) + LIM[case["lim"]]
        out = os.path.join(d, "figs"); os.mkdir(out)
        np.random.seed(9); random.seed(9)
        R = ex.command(args, out, seed=case["seed"])
        ok(c, R, "poisson-trials")
        T = ex.table(R.out); want = sorted(case["N"]) if case["N"] else [5, 50, 500]
        c.true(T and T[0] == ["N", "mud_pt", "r"], f"header {T[:1]}")
        c.true([r[0] for r in T[1:]] == [str(N) for N in want], f"rows for {[r[0] for r in T[1:]]}, expected {want} in increasing order")
        P = load_poisson_prob(p, std_dev=0.1 if case["sg"] is None else case["sg"], seed=case["seed"])[1]
        idx = order_of(P, "random", case["seed"])
        for N, row in zip(want, T[1:]):
            if P.n_samples > 8:
                check_row(c, row[1:], P, idx[:N], 2, f"{N} sensors")
        files(c, out, sorted({f"solution_n{N}" for N in want}))
        y1, y2 = [[-0.1, 3.5], [-1, 4.5], [-0.1, 3.5]][case["lim"]], [[-0.1, 2.5], [-0.1, 2.5], [0, 3]][case["lim"]]
        for f in R.figs:
            c.true(len(f) == 2, f"{len(f)} axes in a trial figure")
            c.close(np.array(f[0]["ylim"]), y1, "-y1"); c.close(np.array(f[1]["ylim"]), y2, "-y2")
            x1, x2 = [[-4.5, 0.5], [-4.5, 0.5], [-5, 1]][case["lim"]], [[-4.5, 0.5], [-4.5, 0.5], [-3.5, 0.25]][case["lim"]]
            for j, xr in ((0, x1), (1, x2)):
                cur = [l for l in f[j]["lines"] if len(l[0]) > 5]
                c.true(bool(cur) and all(abs(l[0][i] - xr[i]) < 0.03 * (xr[1] - xr[0]) for l in cur for i in (0, -1)), f"-x{j + 1}: curves do not span {xr}")

def run_ctrials_p(case, c):
    with ex.Scratch() as d:
        p, _ = ex.poisson_file(d)
        out = os.path.join(d, "figs"); os.mkdir(out)
        R = ex.command(["poisson-trials", p, "-n", "3", "-p", "none"], out, seed=1)
        ok(c, R, "poisson-trials -p none")
        if os.listdir(out) == ["solution_n3.png"]:
            c.fail("poisson-trials ignores its figure selection", key="poisson-trials-plot-fig")
        files(c, out, [])

def fig_files(which):
    s = set(which)
    return (["response_surface"] if s & {"all", "response"} else []) + (["learned_qoi"] if s & {"all", "qoi"} else []) + (["lam1", "lam2"] if s & {"all", "densities"} else [])

def run_psol(case, c):
    from mud.examples.poisson import run_2d_poisson_sol
    with ex.Scratch() as d:
        p, raw = ex.poisson_file(d)
        sel = {"str": case["fig"], "list": [case["fig"]], "pair": [case["fig"], "qoi"]}[case["how"]]
        which = [sel] if isinstance(sel, str) else sel
        kw = dict(group_idxs=[[0, 2], [2, 5], [5, 9]])
        R = ex.observed(lambda: run_2d_poisson_sol(p, seed=case["seed"], plot_fig=sel, save_path=d, dpi=8, order=case["order"], **kw))
        P, D, axes = R.value
        check_density(c, D, P, list(range(P.n_sensors)), 2, "all sensors")
        want = fig_files(which)
        files(c, d, want, R)
        c.true(len(axes) == len([w for w in want if w != "lam2"]), f"{len(axes)} axes returned for {want}")
        if "response_surface" in want:
            f = [F for pth, _, F in R.saved if "response_surface" in pth][0]
            pts = [x for x in f[0]["points"] if len(x)]
            allp = np.concatenate(pts)
            c.true(len(pts) == 3 and [len(x) for x in pts] == [2, 3, 4], f"sensor groups of {[len(x) for x in pts]}")
            c.close(np.array(sorted(allp.tolist())), np.array(sorted(np.asarray(raw["sensors"]).tolist())), "every sensor shown once")
            if case["order"] != "random":
                c.close(allp, np.asarray(raw["sensors"])[order_of(P, case["order"], 0)], "sensors grouped in their order")

def run_csol(case, c):
    from mud.examples.poisson import load_poisson_prob
    with ex.Scratch() as d:
        p, _ = ex.poisson_file(d, n=70)
        out = os.path.join(d, "figs"); os.mkdir(out)
        R = ex.command(["poisson-solve", p] + ([] if case["sg"] is None else ["-s", str(case["sg"])]) + ([] if case["fig"] is None else ["-p", case["fig"]]), out, seed=case["seed"])
        ok(c, R, "poisson-solve")
        P = load_poisson_prob(p, std_dev=0.1 if case["sg"] is None else case["sg"], seed=case["seed"])[1]
        r = reference(P, list(range(P.n_sensors)), 2)
        c.true(r is not None, "the data set determines its answer")
        X, up, er = r
        pt = ex.numbers(R.out)
        c.true(R.out.count("\n") == 1 and any(np.allclose(pt, X[i], rtol=1e-6, atol=1e-8) for i in ref.argmax_set(up, 1e-5)), f"printed {R.out!r}, expected {X[int(np.argmax(up))].tolist()}")
        if not os.listdir(out):
            c.fail("poisson-solve writes none of the figures selected", key="poisson-solve-no-figures")
        files(c, out, fig_files([case["fig"] or "all"]), R)

# ---- adcirc -----------------------------------------------------------------------------------------
def mask(D, w):
    t = np.asarray(D["times"]); a, b = (np.datetime64(x) for x in w)
    return [i for i in range(len(t)) if a < t[i] < b]

def adc_files(fig, k, n, nw):
    s = set(fig) or {"all"}
    out = (["adcirc_full_ts"] if s & {"all", "full_ts"} else []) + (["si-wind_speed_mult_0"] if s & {"all", "mesh"} else [])
    return out, (["pca_vecs_{}_{}"] if s & {"all", "ts-pca"} else []) + (["updated_dist_{}_{}"] if s & {"all", "updated_dist"} else []) + (["qoi_{}_{}"] if s & {"all", "learned_qoi"} else [])

def run_cadc(case, c):
    from mud.examples.adcirc import load_adcirc_prob
    with ex.Scratch() as d:
        p, raw = ex.adcirc_file(d)
        out = os.path.join(d, "figs"); os.mkdir(out)
        k, w = case["k"], [WIN[i] for i in case["w"]]
        args = ["adcirc-solve", p] + ([] if k == 2 and case["seed"] % 2 == 0 else ["-n", str(k)]) + [x for a, b in w for x in ("-t1", a, "-t2", b)] + [x for f in case["fig"] for x in ("-p", f)] \
            + ([] if case.get("sg") is None else ["-s", str(case["sg"])])
        R = ex.command(args, out, seed=case["seed"])
        ok(c, R, "adcirc-solve")
        P = load_adcirc_prob(p, std_dev=case.get("sg") or 0.1, seed=case["seed"])[1]
        T = ex.table(R.out)
        if not w:
            c.true(not T, f"table without windows: {R.out!r}")
        else:
            c.true(T[0] == ["t_start", "t_end", "mud_pt", "r"] and [tuple(r[:2]) for r in T[1:]] == w, f"rows {[r[:2] for r in T]}, expected {w}")
        for row, win in zip(T[1:], w):
            check_row(c, row[2:], P, mask(raw, win), k, f"window {win} with {k} components")
        once, per = adc_files(case["fig"], k, None, len(w))
        got = sorted(os.listdir(out))
        paths = [os.path.basename(q) for q, _, _ in R.saved]
        names = [n for n in paths]
        wrong = [n for n in names if n.startswith("qoi_{num_components}")]
        if wrong:
            # the rest of the figures first
            rest = sorted(n for n in names if n not in wrong)
            want = sorted(once + [q for q in rest if q.startswith(("pca_vecs_", "updated_dist_"))])
            c.true(rest == want and len(wrong) == len(w), f"figures {names}")
            c.fail("the learned QoI figure of every window is written to the literal name qoi_{num_components}_{ndata}", key="adcirc-qoi-name")
        c.true(len(names) == len(once) + len(per) * len(w), f"{names} written for the selection {case['fig']} and {len(w)} windows")
        c.true(sorted(n for n in names if n in once) == sorted(once), f"{names} written, expected {once} once")
        for q in per:
            stem = q.split("{")[0]
            mine = [n for n in names if n.startswith(stem)]
            c.true(len(mine) == len(w), f"{len(mine)} {stem} figures for {len(w)} windows")
            distinct = len({tuple(mask(raw, x)) for x in w})
            c.true(len(set(mine)) == distinct, f"figures of different windows share a file: {mine}")
            c.true(all(f"_{k}_" in n for n in mine), f"component count missing in {mine}")
        c.true(got == png(set(names)), f"files {got} for the figures {names}")
        # the window figures show the window
        for q, _, F in R.saved:
            if "pca_vecs" in q:
                hit = False
                for win in w:
                    m = mask(raw, win)
                    if len(F) > 1 and all(len(x) == len(m) for x in F[1]["points"] if len(x)) and len([x for x in F[1]["points"] if len(x)]) == k:
                        hit = True
                c.true(hit, "component figure does not show its window")

def run_mesh(case, c):
    with ex.Scratch() as d:
        p, raw = ex.adcirc_file(d)
        out = os.path.join(d, "figs"); os.mkdir(out)
        args = ["adcirc-solve", p, "-p", "mesh", "-mv", case["mv"], "-mc", "-3"] + ([] if case["zoom"] is None else ["-mz", json.dumps(case["zoom"])])
        R = ex.command(args, out, seed=1)
        if case["mv"] == "absent":
            c.true(R.code != 0 and isinstance(R.exc, ValueError) and not os.listdir(out), f"unknown mesh data: exit {R.code}, {R.exc!r}")
            return
        ok(c, R, "adcirc-solve -p mesh")
        files(c, out, [f"si-{case['mv']}"], R)
        f = R.figs[0]
        z = case["zoom"] or [[-72.48, 0.47], [40.70, 0.32]]
        c.close(np.array(f[0]["xlim"]), [z[0][0] - z[0][1], z[0][0] + z[0][1]], "zoom in x"); c.close(np.array(f[0]["ylim"]), [z[1][0] - z[1][1], z[1][0] + z[1][1]], "zoom in y")
        v = np.asarray(raw["grid_data"][case["mv"]], float)
        if case["mv"] == "DP":
            v = np.maximum(-v, -3)
        lv = [x for x in f[0]["levels"]]
        c.true(bool(lv), "nothing contoured")
        zmin, zmax = lv[0][1:]
        w0 = np.asarray(raw["grid_data"]["wind_speed_mult_0"], float)
        if case["mv"] == "other" and np.allclose([zmin, zmax], [w0.min(), w0.max()]):
            c.fail("the mesh figure shows the wind speed multiplier whatever data are asked for", key="adcirc-mesh-value")
        c.close(np.array([zmin, zmax]), [v.min(), v.max()], f"range of {case['mv']} shown", rtol=1e-6)
        c.true(any(np.allclose(x, [[raw["grid_data"]["XEL"][0], raw["grid_data"]["YEL"][0]]]) for x in f[0]["points"] if np.shape(x) == (1, 2)), "recording station")

def run_adcopt(case, c):
    n = case["n"]
    with ex.Scratch() as d:
        p, raw = ex.adcirc_file(d)
        out = os.path.join(d, "figs"); os.mkdir(out)
        w = WIN[:n]
        args = ["adcirc-solve", p] + [x for a, b in w for x in ("-t1", a, "-t2", b)]
        if case["what"] == "labels":
            args += ["-p", "full_ts"] + [x for a, b in w for x in ("-lx", a)] + ["-ly", "1.25"]
            R = ex.command(args, out, seed=1)
            if n == 4 and isinstance(R.exc, IndexError):
                c.fail("the time series figure of more than three windows runs out of line styles", key="adcirc-four-windows")
            ok(c, R, "adcirc-solve with labels")
            files(c, out, ["adcirc_full_ts"], R)
            f = R.figs[0]
            c.true([t for a in f for t in a["texts"]] == [f"$T_{i + 1}$" for i in range(n)], f"labels {[a['texts'] for a in f]}")
            vert = [l for a in f for l in a["lines"] if len(l[0]) == 2 and l[0][0] == l[0][1]]
            c.true(len(vert) == 2 * n, f"{len(vert)} window boundaries")
            import matplotlib.dates as md
            want = sorted(float(np.datetime64(x, "s").astype(float)) for ab in w for x in ab)
            xs = sorted(float(v[0][0]) for v in vert)
            c.close(np.array(xs), want, "window boundaries", rtol=1e-9)
            ws = [l for a in f for l in a["lines"] if len(l[0]) == len(raw["wind_speed"][0])]
            c.true(any(np.allclose(l[1], raw["wind_speed"][1]) for l in ws), "wind speed")
        else:
            args += ["-p", "updated_dist"] + [x for i in range(n) for x in ("-p1", str(30.0 + i), "-p2", str(400.0 + 7 * i))]
            R = ex.command(args, out, seed=1)
            ok(c, R, "adcirc-solve with limits")
            c.true(len(R.figs) == n, f"{len(R.figs)} figures")
            for i, f in enumerate(R.figs):
                for j, h in ((0, 30.0 + i), (1, 400.0 + 7 * i)):
                    vert = [l for l in f[j]["lines"] if len(l[0]) == 2 and l[0][0] == l[0][1]]
                    c.true(len(vert) >= 2 and all(abs(v[1].max() - h) < 1e-9 for v in vert), f"limits of window {i + 1}, parameter {j + 1}: {[v[1].tolist() for v in vert]}, expected {h}")
                    c.true(any(abs(v[0][0] - raw["lam_ref"][j]) < 1e-12 for v in vert), "reference parameter shown")

def run_adcsame(case, c):
    """two windows with the same number of data"""
    with ex.Scratch() as d:
        p, raw = ex.adcirc_file(d)
        out = os.path.join(d, "figs"); os.mkdir(out)
        w = [("2018-01-01T03:10", "2018-01-01T07:10"), ("2018-01-01T13:10", "2018-01-01T17:10")]
        R = ex.command(["adcirc-solve", p, "-p", "updated_dist"] + [x for a, b in w for x in ("-t1", a, "-t2", b)], out, seed=1)
        ok(c, R, "adcirc-solve")
        names = [os.path.basename(q) for q, _, _ in R.saved]
        c.true(len(names) == 2, f"figures {names}")
        if names[0] == names[1]:
            c.fail("figures of windows with equally many data overwrite each other", key="adcirc-window-names")

def run_adcbundled(case, c):
    from mud.examples.adcirc import load_adcirc_prob
    p = "/repo/tests/data/adcirc_data"
    w = [("2018-01-01T10:03:00.000000000", "2018-01-01T12:33:00.000000000"), ("2018-01-01T02:00", "2018-01-01T05:01"), ("2018-01-01T00:01", "2018-01-01T15:05")]
    import pickle
    raw = pickle.load(open(p, "rb"))
    for k in (1, 2):
        for seed in (21, 2):
            with ex.Scratch() as d:
                R = ex.command(["adcirc-solve", p, "-n", str(k), "-p", "none"] + [x for a, b in w for x in ("-t1", a, "-t2", b)], d, seed=seed)
            ok(c, R, "adcirc-solve")
            P = load_adcirc_prob(p, seed=seed)[1]
            T = ex.table(R.out)
            c.true(len(T) == 4, f"{len(T)} rows")
            for row, win in zip(T[1:], w):
                check_row(c, row[2:], P, mask(raw, win), k, f"window {win} of the bundled data, {k} components, seed {seed}")

# ---- comparison -------------------------------------------------------------------------------------
def run_comp(case, c):
    from mud.examples.comparison import run_comparison_example
    from mud.examples.simple import polynomial_1D_data
    p, n, mu, sg, Ns, dom = (case[k] for k in ("p", "n", "mu", "sg", "N", "dom"))
    with ex.Scratch() as d:
        np.random.seed(case["seed"])
        R = ex.observed(lambda: run_comparison_example(p=p, num_samples=n, mu=mu, sigma=sg, domain=dom, N_vals=Ns, save_path=d, dpi=8))
        files(c, d, [f"bip-vs-sip-{N}" for N in Ns] + [f"bip-vs-sip-pf-{N}" for N in Ns], R)
    c.true(len(R.value) == len(Ns), f"{len(R.value)} results for {len(Ns)} counts")
    np.random.seed(case["seed"])
    for N, (D, B, ax) in zip(Ns, R.value):
        lam, q, data = polynomial_1D_data(p=p, N=N, domain=np.array([dom]), mu=mu, sigma=sg, num_samples=n)
        if N == 1:
            data = np.array([mu])
        X = np.asarray(D.X)
        c.true(X.shape == (n, 1), f"{X.shape} samples")
        c.close(D.y, X ** p, f"power {p} of the samples", rtol=1e-9); c.close(B.y, D.y, "both methods use the same outputs", rtol=0)
        c.close(B.X, X, "both methods use the same samples", rtol=0)
        c.close(D.domain, [dom], "domain"); c.close(B.domain, [dom], "domain")
        c.close(X, lam, "samples of the seed", rtol=0)
        # kernel estimates of near-degenerate outputs are compared through the estimate only
        m, y = float(np.mean(data)), np.asarray(D.y)
        RR = ref.density(X, y, np.ones(n), None, lambda v: ref.norm_pdf(v, m, sg).prod(axis=1), None, np.array([dom], float))
        c.true(alpha.is_row(D.estimate(), X, ref.argmax_set(RR["up"], 1e-5)), f"MUD estimate {D.estimate()} for N = {N}")
        c.close(D.expected_ratio(), np.mean(RR["r"]), f"expected ratio for N = {N}", rtol=1e-4)
        ll = -0.5 * np.sum((y - data.reshape(1, -1)) ** 2, axis=1) / sg ** 2
        best = [i for i in range(n) if ll[i] >= np.max(ll) - 1e-7 * max(1.0, abs(np.max(ll)))]
        c.true(alpha.is_row(B.estimate(), X, best), f"MAP estimate {B.estimate()} for N = {N}")

def run_ccomp(case, c):
    from mud.examples.comparison import run_comparison_example
    opt = case["opt"]
    with ex.Scratch() as d, ex.Scratch() as d2:
        args = ["comparison"] + [x for k, v in opt.items() for y in v for x in (k, str(y))] + ([] if "-n" in opt else ["-n", "50"])
        np.random.seed(6)
        R = ex.command(args, d, seed=case["seed"])
        ok(c, R, "comparison")
        Ns = opt.get("--n-vals", [1, 5, 10, 20])
        files(c, d, [f"bip-vs-sip-{N}" for N in Ns] + [f"bip-vs-sip-pf-{N}" for N in Ns], R)
        np.random.seed(6 if case["seed"] is None else case["seed"])
        g = lambda k, v: opt.get(k, [v])[0]
        F = ex.observed(lambda: run_comparison_example(p=g("-p", 5), num_samples=g("-n", 50), mu=g("-m", 0.25), sigma=g("-s", 0.1), domain=list(opt.get("-d", [-1, 1])), N_vals=list(Ns), save_path=d2, dpi=10))
        same_drawings(c, R, F, str(opt))

def same_drawings(c, R, F, what):
    a = [(os.path.basename(p), f) for p, _, f in R.saved]; b = [(os.path.basename(p), f) for p, _, f in F.saved]
    c.true([x for x, _ in a] == [x for x, _ in b], f"{what}: files {[x for x, _ in a]} and {[x for x, _ in b]}")
    for (n, f), (_, g) in zip(a, b):
        c.true(ex.close(f, g, 1e-7), f"{what}: {n} does not show the problem of these options")
        c.state(n, [l[1] for ax in f for l in ax["lines"]][:4])

def run_ccomp_latex(case, c):
    with ex.Scratch() as d:
        out = [ex.command(["comparison", "-n", "40", "--n-vals", "3", f], d, seed=2) for f in ("-l", "-nl")]
        for R in out:
            ok(c, R, "comparison")
        if ex.close(out[0].figs, out[1].figs):
            c.fail("comparison draws the same labels with and without --latex-labels", key="comparison-latex")

# ---- contours ---------------------------------------------------------------------------------------
FILES = [None, dict(A=[[1, 2]]), dict(y=[[2]], b=[[0.5]]), dict(mean_i=[[0.5], [0.25]]), dict(cov_i=[[1, 0], [0, 1]], cov_o=[[0.25]]), dict(A=[[1, 1]], b=[[0]], y=[[1]], mean_i=[[0.25], [0.25]], cov_i=[[1.0, -0.5], [-0.5, 0.5]], cov_o=[[0.5]], alpha=2.0)]

def run_cont(case, c):
    with ex.Scratch() as d:
        R = ex.command(["contours"] + [x for f in case["figs"] for x in ("-p", f)], d)
        ok(c, R, "contours")
        which = case["figs"] or ["all"]
        files(c, d, [f for n, f in NAMES.items() if n in which or "all" in which], R)

def run_contfile(case, c):
    from mud.examples.linear import run_contours
    S = FILES[case["i"]]
    with ex.Scratch() as d, ex.Scratch() as d2:
        args = ["contours"]
        if S is not None:
            p = os.path.join(d2, "prob.json")
            with open(p, "w") as fp:
                json.dump(S, fp)
            args += ["-f", p]
        R = ex.command(args, d)
        ok(c, R, "contours")
        files(c, d, NAMES.values(), R)
        kw = {k: np.array(v) if k != "alpha" else v for k, v in (S or {}).items()}
        F = ex.observed(lambda: run_contours(["all"], save_path=d2, dpi=10, **kw))
        same_drawings(c, R, F, f"problem file {S}")
        if S is not None:
            with ex.Scratch() as d3:
                G = ex.command(["contours"], d3)
                c.true(not ex.close([f for _, _, f in R.saved], [f for _, _, f in G.saved], 1e-6), f"the problem file {S} changes nothing")

# ---- linear studies -----------------------------------------------------------------------------------
def run_chd(case, c):
    from mud.examples.linear import run_high_dim_linear
    with ex.Scratch() as d, ex.Scratch() as d2:
        R = ex.command(["high-dim-linear", "-i", str(case["i"]), "-o", str(case["o"])], d, seed=case["seed"])
        ok(c, R, "high-dim-linear")
        files(c, d, ["lin-dim-cov-convergence", "lin-rank-cov-convergence"], R)
        F = ex.observed(lambda: run_high_dim_linear(dim_input=case["i"], dim_output=case["o"], seed=case["seed"], save_path=d2, dpi=10))
        same_drawings(c, R, F, str(case))
        c.true(all(np.array_equal(l[0], np.arange(1, case["o"] + 1)) for f in R.figs for l in f[0]["lines"]), "lines do not run over the outputs")

def run_cwme(case, c):
    from mud.examples.linear import run_wme_covariance
    sg = 0.1 if case["sg"] is None else case["sg"]
    with ex.Scratch() as d, ex.Scratch() as d2:
        R = ex.command(["wme-covariance", "-i", str(case["i"]), "-o", str(case["o"])] + ([] if case["sg"] is None else ["-s", str(sg)]) + [x for n in case["N"] for x in ("-n", str(n))], d, seed=case["seed"])
        ok(c, R, "wme-covariance")
        files(c, d, ["lin-meas-cov-sd-convergence"], R)
        F = ex.observed(lambda: run_wme_covariance(case["i"], case["o"], sigma=sg, Ns=case["N"], seed=case["seed"], save_path=d2, dpi=10))
        same_drawings(c, R, F, str(case))
        c.true(len(R.figs[0][0]["lines"]) == len(case["N"]), f"{len(R.figs[0][0]['lines'])} lines for {case['N']}")

# ---- options of the group -------------------------------------------------------------------------------
def run_common(case, c):
    with ex.Scratch() as d:
        cmd = case["cmd"]
        if cmd == ["ptrials"]:
            cmd = ["poisson-trials", ex.poisson_file(d)[0], "-n", "4"]
        if cmd == ["adc"]:
            cmd = ["adcirc-solve", ex.adcirc_file(d)[0], "-p", "updated_dist", "-t1", WIN[0][0], "-t2", WIN[0][1]]
        out = os.path.join(d, "figs")
        if case["save"] != "new":
            os.mkdir(out)
        old = os.getcwd()
        try:
            os.chdir(d if case["save"] != "cwd" else out)
            R = ex.command(cmd, None if case["save"] == "cwd" else out, seed=3, dpi=case["dpi"], show=case["show"])
        finally:
            os.chdir(old)
        ok(c, R, f"{cmd[0]}")
        c.true(R.shown == (1 if case["show"] else 0), f"figures shown {R.shown} times with show = {case['show']}")
        names = sorted(os.listdir(out))
        c.true(len(names) == len(R.saved) > 0, f"files {names}")
        c.true({os.path.dirname(os.path.realpath(p)) for p, _, _ in R.saved} == {os.path.realpath(out)}, "figures outside the save path")
        c.true(sorted(x for x in os.listdir(d) if x not in ("figs", "pdata", "adata")) == [], "other files written")
        R2 = ex.command(cmd, out, seed=3, dpi=2 * case["dpi"])
        big = {n: ex.png_size(os.path.join(out, n)) for n in names}
        R3 = ex.command(cmd, out, seed=3, dpi=case["dpi"])
        small = {n: ex.png_size(os.path.join(out, n)) for n in names}
        for n in names:
            c.true(all(abs(b - 2 * s) <= 0.12 * b + 4 for b, s in zip(big[n], small[n])), f"{n}: {small[n]} pixels at {case['dpi']} dpi, {big[n]} at {2 * case['dpi']}")

# ---- the paper --------------------------------------------------------------------------------------------
def run_paper(case, c):
    from mud.examples.poisson import load_poisson_prob
    import mud.examples.linear as L
    with ex.Scratch() as d:
        data = os.path.join(d, "data"); os.mkdir(data)
        p, _ = ex.poisson_file(data, m=60, name="poisson_data.pkl")
        q, raw = ex.adcirc_file(data, T=12 * 48, name="adcirc-si.pkl")
        # the large default studies are run at reduced size
        with ex.defaults(L.run_high_dim_linear, dim_input=6, dim_output=4), ex.defaults(L.run_wme_covariance, dim_input=6, dim_output=3, Ns=[5, 9]):
            R = ex.command(["mud-paper"], d, seed=21)
        ok(c, R, "mud-paper")
        T = ex.table(R.out)
        c.true([r[0] for r in T] == ["N", "5", "50", "500"], f"table {T}")
        P = load_poisson_prob(p, seed=21)[1]
        idx = order_of(P, "random", 21)
        for N, row in zip((5, 50, 500), T[1:]):
            check_row(c, row[1:], P, idx[:N], 2, f"{N} sensors")
        names = [os.path.basename(x) for x, _, _ in R.saved]
        have = {os.path.basename(f)[:-4] for r, _, fs in os.walk(d) for f in fs if f.endswith(".png")}
        want = {"bip-vs-sip-1", "bip-vs-sip-5", "bip-vs-sip-10", "bip-vs-sip-20", "bip-vs-sip-pf-1", "bip-vs-sip-pf-5", "bip-vs-sip-pf-10", "bip-vs-sip-pf-20"} | {f[:-4] for f in NAMES.values()} \
            | {"lin-meas-cov-sd-convergence", "lin-dim-cov-convergence", "lin-rank-cov-convergence", "response_surface", "learned_qoi", "solution_n5", "solution_n50", "solution_n500",
               "si-wind_speed_mult_0", "si-DP", "adcirc_full_ts"}
        upd = {n for n in have if n.startswith("updated_dist_")}
        c.true(have - upd == want, f"figures missing: {sorted(want - have)}, unexpected: {sorted(have - upd - want)}")
        w = [("2018-01-11T01:00", "2018-01-11T07:00"), ("2018-01-04T11:00", "2018-01-04T14:00"), ("2018-01-07T00:00", "2018-01-09T00:00")]
        c.true(len(upd) == 6, f"{sorted(upd)} for three windows and two component counts")
        dup = sorted({n for n in names if names.count(n) > 1})
        if dup == ["map_compare_contour.png"]:
            c.fail("mud-paper overwrites the comparison contours of the default problem with those of the second problem", key="mud-paper-overwrites")
        c.true(not dup, f"figures overwritten: {dup}")
