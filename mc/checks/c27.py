"""C27 seeded example runs are reproducible whatever ran before"""
import contextlib, io, itertools, os, pickle, random, signal, struct, sys, time, traceback
import numpy as np
from mc import ex
from mc.core import Violation

RULE = ("Every ordered history of example runs up to the depth bound - commands and functions, two seeds each, the same example with other "
        "settings, up to 24 seeds of one example up and down, unseeded and failing runs, reseeding and consuming the global random sources, figures left open - executed in a fresh "
        "process (one fork per history prefix); every run is compared with the same run made first in a fresh process: printed output, "
        "returned arrays, and everything drawn in the figures it saves. Different seeds must draw differently.")
WIN = (["-t1", "2018-01-01T03:10", "-t2", "2018-01-01T09:50"], ["-t1", "2018-01-01T10:05", "-t2", "2018-01-01T16:45"])
SEEDS = (0, 5)


class W:
    """one process: scratch directories and synthetic data sets"""
    def __init__(self, d):
        self.d = d; self.n = 0
    def out(self):
        self.n += 1
        p = os.path.join(self.d, f"o{os.getpid()}_{self.n}"); os.mkdir(p)
        return p
    def p(self):
        return os.path.join(self.d, "pdata")
    def a(self):
        return os.path.join(self.d, "adata")

def cli(*args):
    def f(w, seed):
        from click.testing import CliRunner
        from mud.cli import cli as main
        a = [w.p() if x == "P" else w.a() if x == "A" else x for x in args]
        r = CliRunner().invoke(main, ["examples", "--save-path", w.out(), "--dpi", "8"] + ([] if seed is None else ["--seed", str(seed)]) + a)
        return r.exit_code, type(r.exception).__name__, r.stdout
    return f

def density(D):
    return [D.X, D.y, D.domain, np.ravel(D.estimate()), float(D.expected_ratio())]

def spatio(P):
    return [P.lam, P.data, P.measurements, P.true_vals]

def linear(P):
    return [P.A, P.b, P.y, P.mean_i, P.cov_i]

def f_psol(w, seed):
    from mud.examples.poisson import run_2d_poisson_sol
    P, D, ax = run_2d_poisson_sol(w.p(), seed=seed, plot_fig=["qoi", "densities"], save_path=w.out(), dpi=8)
    return spatio(P), density(D)

def f_ptrials(w, seed):
    from mud.examples.poisson import run_2d_poisson_trials
    P, Ds, ax = run_2d_poisson_trials(w.p(), N_vals=[4, 9], seed=seed, save_path=w.out(), dpi=8)
    return spatio(P), [density(D) for D in Ds]

def f_ptrials2(w, seed):
    from mud.examples.poisson import run_2d_poisson_trials
    P, Ds, ax = run_2d_poisson_trials(w.p(), N_vals=[4, 9], order="sorted", sigma=0.2, seed=seed)
    return spatio(P), [density(D) for D in Ds]

def f_loadp(w, seed):
    from mud.examples.poisson import load_poisson_prob
    P = load_poisson_prob(w.p(), seed=seed)[1]
    D = P.mud_problem(method="wme")
    return spatio(P), density(D)

def f_loada(w, seed):
    from mud.examples.adcirc import load_adcirc_prob
    P = load_adcirc_prob(w.a(), seed=seed)[1]
    D = P.mud_problem(method="pca", num_components=1)
    return spatio(P), density(D)

def numbers(o):
    """the numbers of a returned value: arrays, problems, nested sequences; drawings left out"""
    if isinstance(o, (np.ndarray, float, int, np.number)):
        return [np.asarray(o, float)]
    if isinstance(o, (list, tuple)):
        return [x for v in o for x in numbers(v)]
    if hasattr(o, "cov_i") and hasattr(o, "mean_i"):
        return [np.asarray(getattr(o, k), float) for k in ("A", "b", "y", "mean_i", "cov_i", "cov_o") if isinstance(getattr(o, k, None), np.ndarray)]
    if hasattr(o, "expected_ratio"):
        return numbers(density(o))
    return []

def f_rlin(w, seed):
    from mud.examples.linear import random_linear_problem
    return numbers(random_linear_problem(4, 2, seed=seed))

def f_wme(w, seed):
    from mud.examples.linear import run_wme_covariance
    return numbers(run_wme_covariance(4, 2, Ns=[3, 6], seed=seed, save_path=w.out(), dpi=8))

def f_hd(w, seed):
    from mud.examples.linear import run_high_dim_linear
    return numbers(run_high_dim_linear(4, 3, seed=seed, save_path=w.out(), dpi=8))

def f_rot(w, seed):
    from mud.examples.linear import rotation_map
    return [np.asarray(v) for v in rotation_map(qnum=4, seed=seed)]

def f_poly(w, seed):
    from mud.examples.simple import polynomial_1D_data
    np.random.seed(seed)
    return [np.asarray(v) for v in polynomial_1D_data(p=3, N=4, num_samples=30)]

def f_exp(w, seed):
    from mud.examples.exp_decay import exp_decay_1D
    np.random.seed(seed)
    P = exp_decay_1D(num_samples=20, sampling_freq=5.0)
    P.measurements_from_reference()
    return spatio(P)

def f_rwme(w, seed):
    from mud.examples.linear import random_linear_wme_problem
    np.random.seed(seed)
    r = random_linear_wme_problem(np.array([0.3, -0.2, 0.9]), 0.1, num_observations=4)
    return [np.asarray(v, dtype=float) for part in r[:2] for v in part]

def f_noise(w, seed):
    from mud.util import add_noise
    return add_noise(np.linspace(0, 1, 7), 0.3, seed=seed), add_noise(np.zeros(7), 1.0, seed=seed)

def f_noise2(w, seed):
    from mud.util import add_noise
    return add_noise(np.linspace(5, -1, 7), 2.0, seed=seed), add_noise(np.zeros((7, 1)), 0.5, seed=seed), add_noise(np.zeros(3), 1.0, seed=seed)

def f_loadp2(w, seed):
    from mud.examples.poisson import load_poisson_prob
    P = load_poisson_prob(w.p(), std_dev=0.3, seed=seed)[1]
    return spatio(P)

def f_mfr(w, seed):
    from mc import st
    from mud.base import SpatioTemporalProblem
    out = []
    for sd, ref in ((0.5, np.ones(7)), (0.25, np.arange(7.0)), (2.0, np.ones((7, 1)))):
        P = SpatioTemporalProblem(); P.sensors = st.sensors(7, 1); P.times = st.times(1)
        P.measurements_from_reference(ref, sd, seed=seed); out += [P.measurements, P.true_vals]
    return out

def f_fenics(w, seed):
    from mc.checks.c30 import installed
    with installed() as f:
        R, p = f.run_fenics(3, 4, seed=seed)
    return [np.asarray(R[k]) for k in ("lam", "data", "sensors", "true_vals")]

def a_seed(w, seed):
    np.random.seed(99); random.seed(98)

def a_draw(w, seed):
    np.random.rand(7); random.random(); random.random()

def a_fig(w, seed):
    import matplotlib.pyplot as plt
    plt.figure(figsize=(2, 2)); plt.plot([0, 1], [3, 4])

def a_rng(w, seed):
    import mud.base
    np.random.standard_normal(3)        # leaves a cached second gaussian behind
    random.gauss(0, 1)

RUNS = dict(
    comparison=cli("comparison", "-n", "40", "--n-vals", "3"), comparison1=cli("comparison", "-p", "1", "-n", "40", "--n-vals", "3", "-d", "0", "-d", "1"),
    contours=cli("contours", "-p", "mud", "-p", "comparison"), wme=cli("wme-covariance", "-i", "4", "-o", "2", "-n", "3", "-n", "6"),
    highdim=cli("high-dim-linear", "-i", "4", "-o", "2"), trials=cli("poisson-trials", "P", "-n", "3", "-n", "9"), solve=cli("poisson-solve", "P"),
    adc=cli("adcirc-solve", "A", "-p", "none", *WIN[0]), adc1=cli("adcirc-solve", "A", "-n", "1", "-p", "updated_dist", "-p", "ts-pca", *WIN[1]),
    psol=f_psol, ptrials=f_ptrials, ptrials2=f_ptrials2, loadp=f_loadp, loada=f_loada, rlin=f_rlin, fwme=f_wme, fhd=f_hd, rot=f_rot, poly=f_poly,
    exp=f_exp, rwme=f_rwme, noise=f_noise, noise2=f_noise2, loadp2=f_loadp2, mfr=f_mfr, fenics=f_fenics)
AMBIENT = dict(seed=a_seed, draw=a_draw, rng=a_rng, fig=a_fig, badmesh=cli("adcirc-solve", "A", "-p", "mesh", "-mv", "absent"), plain=cli("comparison", "-n", "30", "--n-vals", "2"),
               plaintrials=cli("poisson-trials", "P", "-n", "4"))
NODRAW = {"contours"}
SEEDED = [(n, s) for n in RUNS for s in SEEDS]
DEFAULT = [("loadp", "default"), ("loada", "default"), ("fhd", "default")]
CHEAP = [("wme", 0), ("adc", 5), ("loadp", 0), ("rlin", 5), ("rot", 0), ("poly", 5), ("rwme", 0), ("noise", 0), ("noise", 5), ("noise2", 0), ("loadp2", 0), ("mfr", 5), ("fenics", 0), ("loada", 5), ("exp", 0), ("ptrials2", 5)]

def cases(tier):
    big = tier == "thorough"
    yield dict(kind="seeds")
    for n in ("rlin", "poly", "exp", "rwme", "noise", "noise2", "mfr", "fenics", "loadp", "loadp2"):
        yield dict(kind="wide", name=n)
    yield dict(kind="rotation"); yield dict(kind="response")
    yield dict(kind="paper", hist=[]); yield dict(kind="paper", hist=[["plain", None], ["noise", 0]])
    for n in ("rlin", "rot", "poly", "exp", "rwme", "noise", "noise2", "mfr", "fenics", "loadp", "loadp2", "loada", "fhd", "fwme"):
        slow = n in ("fhd", "fwme", "loada")
        for order in (1, -1):
            yield dict(kind="chain", name=n, seeds=list(range(8 if slow else 24))[::order])
    amb = [(n, None) for n in AMBIENT]
    for a in amb + SEEDED:
        yield dict(kind="tree", hist=[list(a)], nxt="all")
    for a, b in itertools.permutations(amb, 2):
        yield dict(kind="tree", hist=[list(a), list(b)], nxt="cheap" if not big else "all")
    for a, b in itertools.product(CHEAP, repeat=2):
        yield dict(kind="tree", hist=[list(a), list(b)], nxt="cheap")
    if big:
        for a, b in itertools.product([s for s in SEEDED if s[1] == 0] + amb, repeat=2):
            yield dict(kind="tree", hist=[list(a), list(b)], nxt="zero")
        for t in itertools.product([x for x in CHEAP if x[0] in ("noise", "loadp", "rlin", "rwme", "poly")] + amb[:3], repeat=3):
            yield dict(kind="tree", hist=[list(x) for x in t], nxt="cheap")

def perform(w, a):
    n, s = a[0], a[1]
    fn = RUNS.get(n) or AMBIENT[n]
    saved = []
    from matplotlib.figure import Figure
    real = Figure.savefig
    def save(self, fname, *x, **k):
        saved.append((os.path.basename(str(fname)), [{k: v for k, v in ax.items()} for ax in ex.drawing(self)]))
    out = io.StringIO()
    try:
        Figure.savefig = save
        with contextlib.redirect_stdout(out):
            if s == "default":
                r = DEFAULTS[n](w)
            else:
                r = fn(w, s)
    finally:
        Figure.savefig = real
    return dict(value=plain(r), out=out.getvalue(), figs=saved)

def d_loadp(w):
    from mud.examples.poisson import load_poisson_prob
    return spatio(load_poisson_prob(w.p())[1])

def d_loada(w):
    from mud.examples.adcirc import load_adcirc_prob
    return spatio(load_adcirc_prob(w.a())[1])

def d_hd(w):
    from mud.examples.linear import run_high_dim_linear
    run_high_dim_linear(4, 3, save_path=w.out(), dpi=8)

DEFAULTS = dict(loadp=d_loadp, loada=d_loada, fhd=d_hd)

def plain(r):
    if isinstance(r, (list, tuple)):
        return [plain(x) for x in r]
    return np.asarray(r) if isinstance(r, np.ndarray) or np.isscalar(r) and not isinstance(r, str) else r

def child(fn, limit=240):
    """runs fn in a forked copy of this process and returns its value"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0); signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(limit)
            try:
                v = ("ok", fn())
            except BaseException as e:
                v = ("error", f"{type(e).__name__}: {e} " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])))
            b = pickle.dumps(v)
            with os.fdopen(wfd, "wb") as fp:
                fp.write(b)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    try:
        with os.fdopen(r, "rb") as fp:
            b = fp.read()
        os.waitpid(pid, 0); pid = None
    finally:
        if pid is not None:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
    return pickle.loads(b) if b else ("error", "the process of the run died")

BASE = {}

def baseline(w, a):
    a = tuple(a)
    if a not in BASE:
        def f():
            np.random.seed(12345); random.seed(54321)
            return perform(w, a)
        BASE[a] = child(f)
    return BASE[a]

def same(x, y):
    if x[0] != y[0]:
        return f"{short(x)} and {short(y)}"
    if x[0] == "error":
        return None if x[1].split(":")[0] == y[1].split(":")[0] else f"{x[1]} and {y[1]}"
    x, y = x[1], y[1]
    for k, tol in (("value", 1e-9), ("out", 0), ("figs", 1e-7)):
        if not ex.close(x[k], y[k], tol):
            return f"{k}: {short(x[k])} and {short(y[k])}"

def short(x):
    s = repr(x).replace("\n", " ")
    return s if len(s) < 160 else s[:160] + "..."

def label(a):
    return f"{a[0]}" if a[1] is None else f"{a[0]}(seed {a[1]})"

def data(d):
    ex.poisson_file(d, n=70); ex.adcirc_file(d)
    return W(d)

def run(case, c):
    with ex.Scratch() as d:
        globals()["run_" + case["kind"]](case, c, data(d))
    c.outcome(case["kind"])

def run_chain(case, c, w):
    """one example with many seeds in one process"""
    n, seeds = case["name"], case["seeds"]
    base = {sd: baseline(w, (n, sd)) for sd in seeds}
    for sd, b in base.items():
        c.true(b[0] == "ok", f"{n} with seed {sd} alone: {b[1]}")
    def f():
        res = []
        for sd in seeds:
            try:
                g = ("ok", perform(w, (n, sd)))
            except Exception as e:
                g = ("error", f"{type(e).__name__}: {e}")
            res.append(same(base[sd], g))
        return res
    v = child(f, 600)
    c.true(v[0] == "ok", f"seeds {seeds} of {n}: {v[1]}")
    for i, diff in enumerate(v[1]):
        c.op(); c.state(n, seeds[i])
        c.true(diff is None, f"{n}(seed {seeds[i]}) after the seeds {seeds[:i]}: another result than as the first run: {diff}")

WIDE = (0, 5, 1, 255, 256, 261, 32768, 65535, 65536, 65541, 2 ** 24 + 5, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 2 ** 32 - 6, 2 ** 32 - 1)

def run_wide(case, c, w):
    """every seed that the generator accepts draws differently, alike in every process"""
    n = case["name"]
    def f(seeds):
        return lambda: [perform(w, (n, sd)) for sd in seeds]
    a, b = child(f(WIDE), 600), child(f(WIDE[::-1]), 600)
    c.true(a[0] == b[0] == "ok", f"{n}: {a[1]} {b[1]}"[:300])
    a = [("ok", x) for x in a[1]]; b = [("ok", x) for x in b[1][::-1]]
    for i, sd in enumerate(WIDE):
        c.op(2); c.state(n, sd)
        d = same(a[i], b[i])
        c.true(d is None, f"{n}(seed {sd}) depends on the seeds used before: {d}")
        for j in range(i):
            c.true(same(a[i], a[j]) is not None, f"{n}: seeds {WIDE[j]} and {sd} give the same results")

def run_tree(case, c, w):
    hist = case["hist"]
    nxt = {"all": SEEDED + DEFAULT, "cheap": CHEAP, "zero": [s for s in SEEDED if s[1] == 0]}[case["nxt"]]
    for a in nxt:
        b = baseline(w, a)
        c.true(b[0] == "ok", f"{label(a)} alone: {b[1]}")
    for a in hist:
        if a[1] is not None:
            baseline(w, a)
    base = {a: BASE[tuple(a)] for a in nxt}
    def f():
        np.random.seed(7); random.seed(7)
        res = []
        for a in hist:
            try:
                g = ("ok", perform(w, a))
            except Exception as e:
                g = ("error", f"{type(e).__name__}: {e}")
            if a[1] is not None:
                res.append(("in sequence", a, same(BASE[tuple(a)], g)))
        for a in nxt:
            v = child(lambda: perform(w, a))
            res.append(("after", a, same(base[a], v)))
        return res
    v = child(f, 600)
    c.true(v[0] == "ok", f"history {[label(a) for a in hist]}: {v[1]}")
    for how, a, diff in v[1]:
        c.op()
        h = " ".join(label(x) for x in hist)
        c.true(diff is None, f"{label(a)} {how} {h}: another result than as the first run: {diff}")
        c.state(how, list(a)); c.outcome(how, list(a), h)
    c.bump("histories", len(nxt))

def run_seeds(case, c, w):
    for n in RUNS:
        if n in ("rot",):
            continue
        x, y = (baseline(w, (n, s)) for s in SEEDS)
        c.true(x[0] == y[0] == "ok", f"{n}: {x[1] if x[0] != 'ok' else y[1]}")
        for r in (x, y):
            v = r[1]["value"]
            c.true(not (isinstance(v, list) and len(v) == 3 and isinstance(v[1], str)) or int(v[0]) == 0, f"{n}: exit status {v}")
        d = same(x, y)
        if n == "solve" and d is None:      # only a sample is printed, which two seeds may share
            d = next((e for e in (same(x, baseline(w, (n, s))) for s in range(1, 12)) if e), None)
        c.true((d is None) == (n in NODRAW), f"{n}: seeds {SEEDS} give {'the same' if d is None else 'different'} results")
        # the same run twice from the initial state
        BASE.pop((n, SEEDS[0]))
        c.true(same(x, baseline(w, (n, SEEDS[0]))) is None, f"{n}: two runs in fresh processes differ")
        c.state(n, short(x))
    for n in DEFAULTS:
        x = baseline(w, (n, "default"))
        c.true(x[0] == "ok", f"{n}: {x[1]}")
    # unseeded functions draw anew
    for n in ("noise", "rlin", "rot", "fenics"):
        def f():
            np.random.seed(3)
            return [perform(w, (n, None)) for _ in range(2)]
        v = child(f)
        c.true(v[0] == "ok", f"{n} without a seed: {v[1]}")
        c.true(not ex.close(v[1][0]["value"], v[1][1]["value"]), f"{n} without a seed repeats its draws")

def run_rotation(case, c, w):
    """the seed of the rotated maps"""
    r = [baseline(w, ("rot", s)) for s in SEEDS + (24,)]
    for x in r:
        c.true(x[0] == "ok", str(x[1]))
    if same(r[0], r[1]) is None:
        c.true(same(r[0], r[2]) is None, "rotation_map: neither the seed given nor 24")
        c.fail("rotation_map draws the same for every seed", key="rotation-seed")

def run_response(case, c, w):
    """sensor groups of the response figure"""
    from mud.examples.poisson import run_2d_poisson_sol
    def go(pre):
        def f():
            random.seed(pre)
            out = []
            from matplotlib.figure import Figure
            Figure.savefig = lambda self, *a, **k: out.append([sorted(map(tuple, np.asarray(p).tolist())) for p in ex.drawing(self)[0]["points"]])
            run_2d_poisson_sol(w.p(), seed=4, plot_fig=["response"], save_path=w.out(), group_idxs=[[0, 2], [2, 5], [5, 9]])
            return out
        return child(f)
    a, b, a2 = go(1), go(2), go(1)
    c.true(a[0] == b[0] == "ok", f"{a[1]} {b[1]}")
    c.true(ex.close(a[1], a2[1]), "response figure differs between equal runs")
    flat = lambda v: sorted(p for f in v for g in f for p in g)
    c.true(ex.close(flat(a[1]), flat(b[1])), "response figure shows other sensors")
    if not ex.close(a[1], b[1]):
        c.fail("the sensor groups of the response figure depend on what ran before", key="poisson-response-order")

def run_paper(case, c, w):
    import mud.examples.linear as L
    d = w.out(); os.mkdir(os.path.join(d, "data"))
    ex.poisson_file(os.path.join(d, "data"), m=60, name="poisson_data.pkl"); ex.adcirc_file(os.path.join(d, "data"), T=576, name="adcirc-si.pkl")
    def paper(seed, hist):
        def f():
            from click.testing import CliRunner
            from mud.cli import cli as main
            from matplotlib.figure import Figure
            for a in hist:
                perform(w, a)
            figs = []
            Figure.savefig = lambda self, fname, *a, **k: figs.append((os.path.basename(str(fname)), ex.drawing(self)))
            with ex.defaults(L.run_high_dim_linear, dim_input=6, dim_output=4), ex.defaults(L.run_wme_covariance, dim_input=6, dim_output=3, Ns=[5, 9]):
                r = CliRunner().invoke(main, ["examples", "--save-path", d, "--seed", str(seed), "mud-paper"])
            if r.exit_code:
                raise r.exception
            return r.stdout, figs
        return child(f)
    a = paper(3, []); b = paper(4, [])
    c.true(a[0] == b[0] == "ok", f"mud-paper: {a[1]} {b[1]}"[:300])
    x = paper(3, case["hist"])
    c.true(x[0] == "ok", str(x[1])[:300])
    c.true(x[1][0] == a[1][0], "mud-paper prints another table after other runs")
    for (n, f), (m, g) in zip(a[1][1], x[1][1]):
        c.true(n == m, f"figures {n} and {m}")
        if n.startswith("response_surface"):
            continue                        # see the response case
        c.true(ex.close(f, g, 1e-7), f"mud-paper draws {n} differently after other runs")
    fixed = []
    for (n, f), (m, g) in zip(a[1][1], b[1][1]):
        if ex.close(f, g, 1e-7):
            fixed.append(n.replace(".png", ""))
    c.true(a[1][0] != b[1][0], "mud-paper prints the same for different seeds")
    # figures of the default problems and of the mesh have no draws
    nodraw = {"si-wind_speed_mult_0", "si-DP", "data_mismatch_contour", "tikhonov_contour", "consistent_contour", "classical_solution", "consistent_solution", "map_compare_contour"}
    fixed = [n for n in fixed if n not in nodraw]
    adc = [n for n in fixed if n.startswith(("adcirc", "updated_dist"))]; rest = [n for n in fixed if n not in adc and not n.startswith("lin-dim") and not n.startswith("lin-rank")]
    c.true(not rest, f"mud-paper draws the same for different seeds: {rest}")
    c.state("fixed", fixed)
    if adc or len(fixed) > len(adc):
        c.fail(f"mud-paper uses a fixed seed for {fixed}", key="mud-paper-fixed-seed")
