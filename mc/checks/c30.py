"""C30 Poisson data generation"""
import itertools, os, pickle, shutil, tempfile
import numpy as np

RULE = ("The finite-element package is replaced by a stand-in that evaluates the boundary expression handed to it, so the whole of run_fenics, "
        "fenics_poisson_solve and poisson-generate runs: every number of samples and sensors up to the bound x parameter boxes of one "
        "to three knots x sensor boxes x boundary scale x seeds, in memory and through the file and load_poisson_prob; every knot "
        "vector over {-4,-1,0,2} up to length three (thorough four) as boundary expression on a grid of 73 points. Oracle: interpolation "
        "of the knots by the harness, the stand-in's own values, the boxes, and equality of everything loaded back.")
ASSUMPTIONS = ["the finite-element solver is a stand-in: its value at a point is a fixed function of the point and of the boundary expression"]


def cases(tier):
    vals = (-4, -1, 0, 2)
    for n in range(1, 4 if tier == "quick" else 5):
        for u in itertools.product(vals, repeat=n):
            yield dict(kind="expr", u=list(u))
    for u in ([0.1, 0.2, 0.3, 0.4, 0.5], [-2.5, 1e-3, 7.25, -1e-7], [-3.0, -1.0]):
        yield dict(kind="expr", u=u)
    boxes = ([[-4, -4], [0, 0]], [[-1.0], [2.0]], [[0, -3, 1], [1, -2, 1.5]], [[-2.5, 0.5], [-2.0, 4.0]])
    sens = ([[0, 0], [1, 1]], [[0.25, 0.5], [0.5, 0.75]], [[0.0, 0.9], [1.0, 1.0]])
    for ns in (1, 2, 3, 7):
        for nn in (1, 2, 3, 5):
            for bi, b in enumerate(boxes):
                for si, s in enumerate(sens):
                    for seed in (0, 4) if tier == "quick" else (0, 1, 4, 21):
                        yield dict(kind="run", ns=ns, nn=nn, b=b, s=s, gamma=(-3, 2, -1)[(bi + si) % 3], seed=seed)
    for ns, nn in ((2, 2), (3, 1), (1, 3), (5, 4)):
        for b in boxes:
            for s in sens[:2]:
                for gamma in (None, -2, 4):
                    yield dict(kind="cli", ns=ns, nn=nn, b=b, s=s, gamma=gamma, seed=ns + 5)
    for k in range(4):
        yield dict(kind="misc", k=k)

# ---- the stand-in ---------------------------------------------------------------------------
def evaluate(expr, x, d=2):
    e = expr.replace("&&", " and ")
    return float(eval(e, {"x": x, "pow": pow, "exp": np.exp, "__builtins__": {}}))

class Form:
    """a sum of products; only the products that contain a named boundary or domain measure are kept"""
    def __init__(self, terms):
        self.t = terms
    def _lift(self, o):
        return o if isinstance(o, Form) else Form([(1.0, [o])])
    def __mul__(self, o):
        o = self._lift(o)
        return Form([(a * b, x + y) for a, x in self.t for b, y in o.t])
    __rmul__ = __mul__
    def __add__(self, o):
        return Form(self.t + self._lift(o).t)
    __radd__ = __add__
    def __neg__(self):
        return Form([(-a, x) for a, x in self.t])
    def __sub__(self, o):
        return self + (-self._lift(o))
    def __rsub__(self, o):
        return self._lift(o) - self
    def __eq__(self, o):
        return ("equation", self, o)
    __hash__ = None

class Expression(Form):
    def __init__(self, s, degree=None, **k):
        self.s = s
        Form.__init__(self, [(1.0, [("expr", s)])])

def atom(*name):
    return Form([(1.0, [name])])

class Fake:
    DOLFIN_EPS = 3e-16
    log = None
    def __init__(self, n=6):
        self.n = n; self.solved = []
        outer = self
        class Mesh:
            def __init__(s, *a):
                g = np.linspace(0, 1, outer.n + 1)
                s.c = np.array([[x, y] for y in g for x in g])
            def topology(s):
                return s
            def dim(s):
                return 2
            def coordinates(s):
                return s.c
        class MeshFunction:
            def __init__(s, *a):
                pass
            def set_all(s, v):
                pass
        class SubDomain:
            def mark(s, *a):
                pass
        class Space:
            def __init__(s, mesh, *a):
                s.m = mesh
            def mesh(s):
                return s.m
        class Function:
            def __init__(s, V):
                s.V = V; s.g = None
            def function_space(s):
                return s.V
            def __call__(s, *a):
                p = np.ravel(np.array([np.ravel(v) for v in a], float)) if len(a) > 1 else np.ravel(np.asarray(a[0], float))
                return model(p, s.g)
        self.UnitSquareMesh, self.MeshFunction, self.SubDomain, self.FunctionSpace, self.Function = Mesh, MeshFunction, SubDomain, Space, Function
        self.Expression = Expression
    def near(self, a, b):
        return abs(a - b) < 1e-12
    def Constant(self, v):
        return atom("const", float(v))
    def TrialFunction(self, V):
        return atom("trial")
    def TestFunction(self, V):
        return atom("test")
    def DirichletBC(self, *a):
        return ("bc",)
    def Measure(self, name, **k):
        return lambda i: atom("measure", name, i)
    def inner(self, a, b):
        return a * b
    def grad(self, a):
        return a
    def lhs(self, F):
        return F
    def rhs(self, F):
        return F
    def set_log_level(self, n):
        pass
    def solve(self, eq, u, bcs):
        F = eq[1]
        # the boundary expression is the one integrated over the left boundary
        g = [x[1] for a, t in F.t for x in t if x[0] == "expr" and any(y[0] == "measure" and y[1] == "ds" for y in t)]
        assert len(g) == 1, "one boundary expression"
        u.g = g[0]; self.solved.append(g[0])

def model(p, g):
    """the stand-in's solution: depends on both coordinates and on the boundary values at seven heights"""
    b = [evaluate(g, [0.0, t]) for t in (0.05, 0.2, 0.31, 0.45, 0.62, 0.7, 0.9)]
    return float(sum((k + 1) * v * np.cos((k + 1) * p[0] + p[1]) for k, v in enumerate(b)) + p[0] - 2 * p[1])

class installed:
    def __enter__(self):
        import mud.examples.fenics as f
        self.f = f; self.old = {k: getattr(f, k) for k in ("fin_flag",)}
        self.had = hasattr(f, "fin"); self.oldfin = getattr(f, "fin", None)
        f.fin = Fake(); f.fin_flag = True
        return f
    def __exit__(self, *a):
        if self.had:
            self.f.fin = self.oldfin
        else:
            del self.f.fin
        for k, v in self.old.items():
            setattr(self.f, k, v)

# ---- references ------------------------------------------------------------------------------
def interp(u, x, right):
    k = [0.0] + [float(v) for v in u] + [float(right)]
    n = len(k) - 1
    i = min(int(np.floor(x * n + 1e-12)), n - 1)
    t = x * n - i
    return k[i] + (k[i + 1] - k[i]) * t

def run(case, c):
    globals()["run_" + case["kind"]](case, c)
    c.outcome(case["kind"])

def run_expr(case, c):
    from mud.examples.fenics import piecewise_eval_from_vector
    u = case["u"]; n = len(u)
    right1 = []
    for form in (list(u), np.array(u, float), tuple(u)):
        for d in (0, 1):
            s = piecewise_eval_from_vector(form, d) if d == 0 else piecewise_eval_from_vector(form)
            for j in range(72):
                t = j / 72
                x = [0.123, 0.456]; x[d] = t
                got = evaluate(s, x)
                last = t * (n + 1) > n + 1e-9
                want = interp(u, t, 0)
                if last and abs(got - interp(u, t, 1)) < 1e-9:
                    right1.append(t)
                    continue
                c.close(got, want, f"boundary expression of {u} at {t}", atol=1e-9)
            # at the right end the interpolant vanishes like the reference solution
            x = [0.123, 0.456]; x[d] = 1.0
            c.close(evaluate(s, x), 0.0, f"boundary expression of {u} at the right end", atol=1e-9)
    if right1:
        c.fail("the boundary expression runs to 1 instead of 0 at the right end", key="spline-right-end")

def in_box(v, lo, hi):
    return np.all(v >= np.asarray(lo, float)) and np.all(v <= np.asarray(hi, float))

def bad_right(u):
    """what the boundary expression of the current code (right end one) evaluates to"""
    return lambda x: interp(u, x[1], 1) if x[1] < 1 else 0.0

def solve_ref(g, p):
    b = [g([0.0, t]) for t in (0.05, 0.2, 0.31, 0.45, 0.62, 0.7, 0.9)]
    return float(sum((k + 1) * v * np.cos((k + 1) * p[0] + p[1]) for k, v in enumerate(b)) + p[0] - 2 * p[1])

def check_set(c, R, case, gamma, f):
    ns, nn, (lo, hi), (sl, sh) = case["ns"], case["nn"], case["b"], case["s"]
    dim = len(lo)
    lam, data, sens, tv = (np.asarray(R[k], float) for k in ("lam", "data", "sensors", "true_vals"))
    c.true(lam.shape == (ns, dim) and data.shape == (ns, nn) and sens.shape == (nn, 2) and tv.size == nn, f"shapes {lam.shape} {data.shape} {sens.shape} {tv.shape}")
    c.true(in_box(lam, lo, hi), f"samples outside {lo}..{hi}"); c.true(in_box(sens, sl, sh), f"sensors outside {sl}..{sh}")
    c.true(len(set(lam.ravel().tolist())) == lam.size and len(set(sens.ravel().tolist())) == sens.size, "draws repeat")
    for i in range(ns):
        s = f.piecewise_eval_from_vector(lam[i])
        want = [model(sens[j], s) for j in range(nn)]
        c.close(data[i], want, f"data of sample {i}", rtol=1e-9)
    cons = gamma * 823543 / 12500
    g = lambda x: x[1] ** 2 * (1 - x[1]) ** 5 * cons
    c.close(tv.ravel(), [solve_ref(g, sens[j]) for j in range(nn)], f"reference solution for boundary minimum {gamma}", rtol=1e-9)
    # the boundary of the reference attains the minimum gamma at 2/7
    c.close(g([0, 2 / 7]), float(gamma), "boundary minimum", rtol=1e-9)
    c.close(R["domain"], np.stack([np.asarray(lo, float), np.asarray(hi, float)], axis=1), "parameter box")
    cc, v = (np.asarray(x, float) for x in R["u"])
    c.true(cc.ndim == 2 and cc.shape[1] == 2 and len(cc) == len(v), "mesh solution")
    c.close(v, [solve_ref(g, p) for p in cc], "reference solution on the mesh", rtol=1e-9)

def run_run(case, c):
    tmp = tempfile.mkdtemp(prefix="c30_")
    try:
        with installed() as f:
            lo, hi = case["b"]; sl, sh = case["s"]
            kw = dict(mins=lo, maxs=hi, sensor_low=sl, sensor_high=sh, gamma=case["gamma"], seed=case["seed"])
            np.random.seed(17)
            R, p = f.run_fenics(case["ns"], case["nn"], **kw)
            c.true(p is None, "path reported although nothing is saved")
            c.true(not os.listdir(tmp), "file written")
            check_set(c, R, case, case["gamma"], f)
            np.random.seed(18)
            R2, p = f.run_fenics(case["ns"], case["nn"], save_path=tmp, **kw)
            for k in ("lam", "data", "sensors", "true_vals"):
                c.close(R2[k], R[k], f"{k} depend only on the seed", rtol=0)
            c.true(os.path.isfile(p) and os.path.dirname(os.path.abspath(p)) == tmp and len(os.listdir(tmp)) == 1, f"reported path {p}")
            with open(p, "rb") as fp:
                L = pickle.load(fp)
            for k in ("lam", "data", "sensors", "true_vals", "domain"):
                c.close(L[k], R[k], f"{k} in the file", rtol=0)
            c.close(L["u"][1], R["u"][1], "mesh solution in the file", rtol=0)
            R3, _ = f.run_fenics(case["ns"], case["nn"], **dict(kw, seed=case["seed"] + 1))
            c.true(not np.array_equal(R3["lam"], R["lam"]) and not np.array_equal(R3["sensors"], R["sensors"]), "another seed draws the same")
            R4, p4 = f.run_fenics(case["ns"] + 1, case["nn"], save_path=tmp, **kw)
            c.true(p4 != p and len(os.listdir(tmp)) == 2, "data sets of different sizes share a file")
        loaded(c, p, R, case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def loaded(c, p, R, case):
    from mud.examples.poisson import load_poisson_prob
    from pathlib import Path
    for q in (p, Path(p)):
        data, P = load_poisson_prob(q, seed=3)
        ns, nn = case["ns"], case["nn"]
        c.close(np.asarray(P.lam).reshape(ns, -1), np.asarray(R["lam"]), "samples loaded back", rtol=0)
        c.close(np.asarray(P.data).reshape(ns, nn), np.asarray(R["data"]), "data loaded back", rtol=0)
        c.close(np.asarray(P.sensors), np.asarray(R["sensors"]), "sensors loaded back", rtol=0)
        c.close(np.asarray(P.domain), np.asarray(R["domain"], float), "domain loaded back", rtol=0)
        c.close(np.ravel(P.true_vals), np.ravel(R["true_vals"]), "true values loaded back", rtol=0)
        c.true(P.n_samples == ns and P.n_sensors == nn and P.n_ts == 1, "sizes of the loaded problem")
        c.true(np.size(P.measurements) == nn and np.all(np.isfinite(P.measurements)), "measurements of the loaded problem")
        c.close(data["u"][1], R["u"][1], "raw data returned", rtol=0)

def run_cli(case, c):
    from click.testing import CliRunner
    from mud.cli import cli
    tmp = tempfile.mkdtemp(prefix="c30_")
    try:
        with installed() as f:
            args = ["examples", "--save-path", tmp, "--seed", str(case["seed"]), "poisson-generate", str(case["ns"]), str(case["nn"])]
            for o, v in (("--mins", case["b"][0]), ("--maxs", case["b"][1]), ("--sensor_low", case["s"][0]), ("--sensor_high", case["s"][1])):
                for x in v:
                    args += [o, str(x)]
            if case["gamma"] is not None:
                args += ["-g", str(case["gamma"])]
            np.random.seed(3)
            r = CliRunner().invoke(cli, args)
            c.true(r.exit_code == 0, f"poisson-generate failed: {r.output[-200:]} {r.exception!r}")
            p = r.stdout.strip().split("\n")[-1]
            c.true(os.path.isfile(p) and os.listdir(tmp) == [os.path.basename(p)], f"printed path {p!r}, files {os.listdir(tmp)}")
            with open(p, "rb") as fp:
                L = pickle.load(fp)
            check_set(c, L, case, -3 if case["gamma"] is None else case["gamma"], f)
            R, _ = f.run_fenics(case["ns"], case["nn"], mins=case["b"][0], maxs=case["b"][1], sensor_low=case["s"][0], sensor_high=case["s"][1],
                                gamma=-3 if case["gamma"] is None else case["gamma"], seed=case["seed"])
            for k in ("lam", "data", "sensors", "true_vals"):
                c.close(L[k], R[k], f"{k} of the command", rtol=0)
        loaded(c, p, R, case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run_misc(case, c):
    import mud.examples.fenics as f
    if case["k"] == 0:
        old = f.fin_flag
        f.fin_flag = False
        try:
            c.raises(lambda: f.run_fenics(2, 2), "solver absent", ModuleNotFoundError)
        finally:
            f.fin_flag = old
    elif case["k"] == 1:
        with installed() as g:
            c.raises(lambda: g.run_fenics(2, 2, mins=[0, 0], maxs=[1]), "boxes of different lengths", ValueError)
            c.raises(lambda: g.run_fenics(2, 2, mins=[0], maxs=[1, 2], seed=3), "boxes of different lengths", ValueError)
    elif case["k"] == 2:
        with installed() as g:
            np.random.seed(5); R, p = g.run_fenics(3, 2)
            np.random.seed(6); R2, _ = g.run_fenics(3, 2)
            c.true(p is None and not np.array_equal(R["lam"], R2["lam"]), "draws without a seed come from the current state")
            check_set(c, R, dict(ns=3, nn=2, b=[[-4, -4], [0, 0]], s=[[0, 0], [1, 1]]), -3, g)
    else:
        from click.testing import CliRunner
        from mud.cli import cli
        tmp = tempfile.mkdtemp(prefix="c30_"); old = f.fin_flag
        f.fin_flag = False
        try:
            r = CliRunner().invoke(cli, ["examples", "--save-path", tmp, "poisson-generate", "3", "2"])
            c.true(r.exit_code == 0 and "Unable to run fenics" in r.stdout and not os.listdir(tmp), f"{r.stdout!r}")
        finally:
            f.fin_flag = old
            shutil.rmtree(tmp, ignore_errors=True)
