"""Development aid, no part of any check: plants every single-place mutation of the library in scratch trees and lists those
the checks of the touched function do not report.  usage: mutate.py OUT [FILE[:QUALNAME-PREFIX] ...]"""
import ast, copy, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/src"
MAP = [  # (file, qualified-name regex, checks)
    ("base.py", r"DensityProblem\.__init__", "C05 C01 C04"), ("base.py", r"DensityProblem\.set_weights", "C04 C02 C05 C01"),
    ("base.py", r"DensityProblem\.(set_|fit|mud_point|estimate|n_)", "C01 C02 C03 C04 C26"), ("base.py", r"DensityProblem\.expected", "C03 C02 C04"),
    ("base.py", r"DensityProblem\.plot", "C26 C02"),
    ("base.py", r"BayesProblem\.plot", "C26 C07"), ("base.py", r"BayesProblem\.", "C06 C07 C05 C26"),
    ("base.py", r"LinearGaussianProblem\.__init__", "C08 C09 C13 C05 C10 C11 C12"), ("base.py", r"LinearGaussianProblem\.compute", "C12 C13"),
    ("base.py", r"LinearGaussianProblem\.solve", "C08 C09 C10 C11 C13"), ("base.py", r"LinearGaussianProblem\.updated", "C11 C13"),
    ("base.py", r"LinearGaussianProblem\.plot", "C33 C13"), ("base.py", r"LinearGaussianProblem\.n_", "C13"),
    ("base.py", r"LinearWME", "C14"), ("base.py", r"Iterative.*plot", "C33 C17"), ("base.py", r"Iterative", "C17 C05"),
    ("base.py", r"SpatioTemporalProblem\.(sample_data)", "C18 C20 C21"), ("base.py", r"SpatioTemporalProblem\.(get_clos|measurements_from)", "C21"),
    ("base.py", r"SpatioTemporalProblem\.(mud_problem)", "C20"), ("base.py", r"SpatioTemporalProblem\.(sensor|plot)", "C33"),
    ("base.py", r"SpatioTemporalProblem", "C19 C18 C21"),
    ("funs.py", r"wme", "C15 C16"), ("funs.py", r"updated_cov", "C11"), ("funs.py", r"(lin_prob|mud_sol|mud_sol_with)", "C08 C11 C09 C05"),
    ("funs.py", r"map_sol", "C09 C05"), ("funs.py", r"(iter|perf)", "C17"), ("funs.py", r"(data_prob|map_problem|mud_problem)", "C16 C20"),
    ("norm.py", r"", "C12"), ("preprocessing.py", r"", "C25"), ("util.py", r"(transform)", "C14"), ("util.py", r"std_from|make_2d|fit_domain|set_shape", "C24 C05"),
    ("util.py", r"null", "C22"), ("util.py", r"add_noise", "C21"), ("util.py", r"rank", "C23"),
    ("plot.py", r"save_figure|plotChain|plot_contours|plot_1D|plot_vert", "C33 C26"), ("plot.py", r"make_2d|build_nd", "C24"), ("plot.py", r"plot_dist", "C26"),
]
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def mutants(tree):
    """yields (qualname, line, description, apply) ; apply mutates a deep copy located by node index"""
    nodes = list(ast.walk(tree))
    qual = {}
    def mark(n, q):
        for ch in ast.iter_child_nodes(n):
            nq = q + [ch.name] if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else q
            qual[id(ch)] = ".".join(nq)
            mark(ch, nq)
    mark(tree, [])
    infun = set()
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                infun.add(id(m))
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
    for i, n in enumerate(nodes):
        if id(n) not in infun or id(n) in docs:
            continue
        q = qual.get(id(n), ""); ln = getattr(n, "lineno", 0)
        def put(desc, f):
            return (q, ln, desc, i, f)
        if isinstance(n, ast.BinOp) and SWAP.get(type(n.op)):
            yield put(f"{type(n.op).__name__}->{SWAP[type(n.op)].__name__}: {ast.unparse(n)}", lambda m: setattr(m, "op", SWAP[type(m.op)]()))
        if isinstance(n, ast.BinOp):
            yield put(f"keep left of: {ast.unparse(n)}", "left")
            yield put(f"keep right of: {ast.unparse(n)}", "right")
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            for o in CMP[type(n.ops[0])]:
                yield put(f"{type(n.ops[0]).__name__}->{o.__name__}: {ast.unparse(n)}", lambda m, o=o: m.ops.__setitem__(0, o()))
        if isinstance(n, ast.BoolOp):
            yield put(f"and<->or: {ast.unparse(n)}", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            yield put(f"first only of: {ast.unparse(n)}", "values0"); yield put(f"last only of: {ast.unparse(n)}", "values-1")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                yield put(f"{n.value}->{not n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, (int, float)):
                yield put(f"const {n.value}+1", lambda m: setattr(m, "value", m.value + 1))
                if n.value:
                    yield put(f"const {n.value}->0", lambda m: setattr(m, "value", 0))
        if isinstance(n, (ast.If, ast.IfExp)):
            yield put(f"condition true: {ast.unparse(n.test)}", lambda m: setattr(m, "test", ast.Constant(True)))
            yield put(f"condition false: {ast.unparse(n.test)}", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield put(f"delete: {ast.unparse(n)[:120]}", "del")
        if isinstance(n, ast.UnaryOp):
            yield put(f"drop {type(n.op).__name__}: {ast.unparse(n)}", "operand")
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                yield put(f"drop keyword {n.keywords[k].arg}: {ast.unparse(n)[:120]}", lambda m, k=k: m.keywords.pop(k))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "array" and len(n.args) == 1:
                yield put(f"array->asarray: {ast.unparse(n)}", lambda m: setattr(m.func, "attr", "asarray"))
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "plt", "dist", "dists", "pickle", "xr")):
                yield put(f"skip call: {ast.unparse(n)[:120]}", "recv")
            elif len(n.args) >= 1:
                yield put(f"first argument instead of: {ast.unparse(n)[:120]}", "arg0")
        if isinstance(n, ast.Attribute) and n.attr == "T":
            yield put(f"drop .T: {ast.unparse(n)}", "value")
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                yield put(f"drop lower: {ast.unparse(n)}", lambda m: setattr(m, "lower", None))
            if n.upper is not None:
                yield put(f"drop upper: {ast.unparse(n)}", lambda m: setattr(m, "upper", None))


def apply(tree, i, f):
    t = copy.deepcopy(tree)
    nodes = list(ast.walk(t)); n = nodes[i]
    if callable(f):
        f(n)
        return ast.unparse(ast.fix_missing_locations(t))
    new = dict(left=lambda: n.left, right=lambda: n.right, operand=lambda: n.operand, recv=lambda: n.func.value, arg0=lambda: n.args[0], value=lambda: n.value,
               values0=lambda: n.values[0]).get(f, (lambda: n.values[-1]) if f == "values-1" else lambda: ast.Pass())()
    class R(ast.NodeTransformer):
        def visit(self, m):
            if m is n:
                return new
            return self.generic_visit(m)
    return ast.unparse(ast.fix_missing_locations(R().visit(t)))


def main():
    out = sys.argv[1]; want = sys.argv[2:]
    done = {(d["file"], d["fun"], d["line"], d["mutation"]) for d in map(json.loads, open(out)) if d["killed"] or not os.environ.get("AGAIN")} if os.path.exists(out) else set()
    verif = tempfile.mkdtemp(prefix="mutv_", dir="/tmp")
    subprocess.run(["cp", "-a", "/verif/mc", "/verif/check", "/verif/known_findings.txt", verif])
    # the copy visits the cases in a mixed order, so that a short budget still touches every kind
    core = open(f"{verif}/mc/core.py").read()
    open(f"{verif}/mc/core.py", "w").write(core.replace("enumerate(mod.cases(tier))", "sorted(enumerate(mod.cases(tier)), key=lambda x: hashlib.md5(str(x[0]).encode()).digest())"))
    env = dict(os.environ, MC_WORKERS="1", MC_BUDGET=os.environ.get("BUDGET", "40"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
               MPLBACKEND="Agg", MC_CASE_LIMIT="60")
    base = tempfile.mkdtemp(prefix="mutb_", dir="/tmp"); subprocess.run(["cp", "-a", SRC, base])
    def one(job):
        fn, q, ln, desc, text, checks = job
        w = tempfile.mkdtemp(prefix="mutw_", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", f"{base}/src", w])
            open(f"{w}/src/mud/{fn}", "w").write(text)
            res = []
            for c in checks:
                try:
                    p = subprocess.run([f"{verif}/check", c], cwd=verif, env=dict(env, MC_SRC=f"{w}/src"), capture_output=True, text=True, timeout=400)
                    res.append(p.returncode)
                    if p.returncode:
                        break
                except subprocess.TimeoutExpired:
                    res.append(9); break
            r = dict(file=fn, fun=q, line=ln, mutation=desc, killed=bool(res[-1]), by=checks[len(res) - 1] if res[-1] else None, rc=res[-1])
            with open(out, "a") as fp:
                fp.write(json.dumps(r) + "\n")
        except Exception as e:
            print("error", e, flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    jobs = []
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for fn in sorted({m[0] for m in MAP}):
            tree = ast.parse(open(f"{base}/src/mud/{fn}").read()); same = ast.unparse(tree)
            for q, ln, desc, i, f in mutants(tree):
                if want and not any(fn == w.split(":")[0] and q.startswith(w.split(":")[1] if ":" in w else "") for w in want):
                    continue
                checks = next((c for a, r, c in MAP if a == fn and re.match(r, q)), None)
                if checks is None or (fn, q, ln, desc) in done:
                    continue
                try:
                    text = apply(tree, i, f); compile(text, fn, "exec")
                except Exception:
                    continue
                if text != same:
                    jobs.append((fn, q, ln, desc, text, checks.split()))
        jobs.sort(key=lambda j: hashlib.md5(repr(j[:4]).encode()).hexdigest())      # spread over the whole library
        n = len(jobs)
        for j in jobs:
            ex.submit(one, j)
        print(n, "mutants", flush=True)
    shutil.rmtree(verif, ignore_errors=True); shutil.rmtree(base, ignore_errors=True)


main()
