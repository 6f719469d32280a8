RULE = """All input forms (list, tuple, list of arrays, C, Fortran, strided, reversed view, read-only, float32, int,
int32) of every argument of density, Bayesian, linear-Gaussian, iterative and WME problems, alone and (samples x outputs) in all
pairs, on integer-valued and dyadic data of several shapes; one-dimensional forms; every domain row count against every
parameter count; omitted domains for every padding ratio; scrambling everything the caller holds after construction and after
the set_ calls; and 40 further operations (functions, plots, spatio-temporal calls) on which the arrays passed in must
stay bit-identical, with few and with many hundreds of rows. Oracle: answers of the plain floating C-order call, exact bounding boxes, byte snapshots."""
import itertools, os
import numpy as np
from mc import ref, alpha, forms, plots

SH = [(5, 1, 1), (6, 2, 1), (6, 2, 2)]

def cases(tier):
    for kind in ("density", "bayes"):
        for s in SH + ([(7, 3, 2)] if tier == "thorough" else []):
            for ints in (0, 1):
                for a in range(12):
                    for b in range(12):
                        yield dict(kind=kind, s=s, ints=ints, a=a, b=b)
                for arg in ("domain", "weights"):
                    for a in range(12):
                        yield dict(kind=kind, s=s, ints=ints, arg=arg, a=a)
        for n in (3, 5, 8):
            for f in range(8):
                yield dict(kind=kind, one=n, f=f)
        for p in range(1, 5):
            for r in range(1, 7):
                yield dict(kind=kind, rows=r, p=p)
        for n, p in itertools.product((2, 3, 7), (1, 2, 3)):
            for v in ("generic", "scaled", "neg", "int"):
                for pad in (None, 0.0, 0.05, 0.1, 0.5, 1.0, 3.25):
                    yield dict(kind=kind, pad=pad, n=n, p=p, v=v)
    for cls in ("lin", "iter", "wme"):
        for d, p in ((1, 2), (2, 2), (3, 2), (2, 3), (1, 1)):
            for arg in range(6):
                for a in range(12):
                    yield dict(kind=cls, d=d, p=p, arg=arg, a=a)
    for i in range(len(CALLS)):
        for big in (0, 1):
            yield dict(kind="call", i=i, name=CALLS[i][0], big=big)
    for kind in ("density", "bayes"):
        for s in ((300, 1, 1), (700, 2, 1)):
            for ints in (0, 1):
                for a in range(12):
                    yield dict(kind=kind, s=s, ints=ints, a=a, b=(5 * a + ints) % 12)

def data(s, ints):
    n, p, k = s
    if ints:
        X = np.floor(9 * alpha.seq(n, p, 1)) + np.arange(n)[:, None]; y = np.floor(5 * alpha.seq(n, k, 3)) - 2
    else:
        X = np.floor(64 * alpha.seq(n, p, 1)) / 64; y = np.floor(128 * alpha.seq(n, k, 3)) / 64 - 1
    dom = np.array([np.floor(X.min(0)) - 1, np.ceil(X.max(0)) + 1]).T
    w = np.floor(7 * alpha.seq(n, 1, 2)).ravel() + 1
    return X, y, dom, w

def d_answers(D):
    from scipy.stats import distributions as d
    out = [np.array(D.estimate()), D.expected_ratio()]
    up = alpha.updated_values(D)
    out.append(np.zeros(1) if up is None else up.copy())
    return out + [np.array(D.domain)]

def d_make(X, y, dom, w):
    from mud.base import DensityProblem
    from scipy.stats import distributions as d
    D = DensityProblem(X, y, dom, weights=w)
    D.set_observed(d.norm(0.2, 0.8))
    return D

def b_make(X, y, dom, w):
    from mud.base import BayesProblem
    from scipy.stats import distributions as d
    B = BayesProblem(X, y, dom)
    B.set_likelihood(d.norm(0.2, 0.8)); B.set_prior()
    return B

def b_answers(B):
    from scipy.stats import distributions as d
    a = [np.array(B.estimate())]
    ps = getattr(B, "_ps", None)
    a.append(np.zeros(1) if ps is None else np.array(ps))
    B.set_likelihood(d.norm(0.2, 0.8), log=True)
    return a + [np.array(B.estimate()), np.array(B.domain)]

def compare(c, got, want, what, f32=False):
    for i, (g, w) in enumerate(zip(got, want)):
        c.close(g, w, f"{what} (answer {i})", rtol=2e-5 if f32 else 1e-9, atol=1e-6 if f32 else 1e-12)

def run(case, c):
    kind = case["kind"]
    if kind == "call":
        return run_call(case["i"], c, case["big"])
    if kind in ("lin", "iter", "wme"):
        return run_lin(case, c)
    make, answers = (d_make, d_answers) if kind == "density" else (b_make, b_answers)
    from mud.base import DensityProblem, BayesProblem
    if "rows" in case:
        p, r = case["p"], case["rows"]
        X = alpha.seq(6, p, 1); y = alpha.seq(6, 1, 2)
        dom = np.array([[-1.0 - i, 2.0 + i] for i in range(r)])
        if r == p:
            D = make(X, y, dom, None)
            c.close(D.domain, dom, "stored domain")
            for tight in (np.array([[0.4, 0.6]] * r), np.array([[0.5, 3.0]] * r), np.array([[2.0, 3.0]] * r)):      # samples may lie outside
                D = make(X, y, tight, None)
                c.close(D.X, X, "samples outside of the given domain", rtol=0, atol=0); c.close(D.y, y, "outputs", rtol=0, atol=0); c.close(D.domain, tight, "stored domain", rtol=0, atol=0)
        else:
            c.raises(lambda: make(X, y, dom, None), f"domain with {r} rows for {p} parameters")
            c.raises(lambda: make(X, y, dom.tolist(), None), f"domain list with {r} rows for {p} parameters")
            for k in range(1, 6):
                wide = np.arange(r * k).reshape(r, k) % 3 - 1.0
                wide[-1] = 2.0 + np.arange(k)
                c.raises(lambda: make(X, y, wide, None), f"domain of {r} rows and {k} columns for {p} parameters")
                c.raises(lambda: make(X, y, wide.tolist(), None), f"domain list of {r} rows and {k} columns for {p} parameters")
        if p != 1:
            c.raises(lambda: make(X, y, [0.0, 1.0], None), f"one range for {p} parameters")
        return
    if "pad" in case:
        X, y = alpha.samples(case["n"], case["p"], 1, case["v"])
        pad = case["pad"]
        if kind == "bayes":
            if pad is not None:
                return
            P = BayesProblem(X, y); pad = 0.1
        elif pad is None:
            P = DensityProblem(X, y); pad = 0.1
        else:
            P = DensityProblem(X, y, pad_domain=pad)
        c.close(P.domain, ref.domain_of(X, pad), f"omitted domain with padding {pad}", rtol=1e-12, atol=1e-12)
        if case["v"] == "int":
            P = DensityProblem(X.astype(int), y, pad_domain=pad) if kind == "density" else BayesProblem(X.astype(int), y)
            c.close(P.domain, ref.domain_of(X, pad), f"omitted domain of integer samples with padding {pad}", rtol=1e-12, atol=1e-12)
        return
    if "one" in case:
        n = case["one"]
        X, y, dom, w = data((n, 1, 1), 0)
        base = answers(make(X, y, dom, None))
        fx = forms.array_forms(X.ravel()); fy = forms.array_forms(y.ravel())
        fx, fy = fx[case["f"] % len(fx)], fy[(3 * case["f"]) % len(fy)]
        for dm in (dom, dom.ravel(), dom.ravel().tolist(), dom.tolist()):
            P = make(fx[1], fy[1], dm, None)
            c.close(P.X, X, "samples from one-dimensional input"); c.close(P.y, y, "outputs from one-dimensional input")
            compare(c, answers(P), base, f"one-dimensional samples as {fx[0]}, outputs as {fy[0]}")
        P = make(fx[1], fy[1], None, None)
        c.close(P.domain, ref.domain_of(X, 0.1), "domain from one-dimensional samples")
        return
    X, y, dom, w = data(case["s"], case["ints"])
    base = answers(make(X.copy(), y.copy(), dom.copy(), w.copy()))
    args = dict(X=("c", X.copy()), y=("c", y.copy()), domain=("c", dom.copy()), weights=("c", w.copy()))
    if "arg" in case:
        f = forms.array_forms({"domain": dom, "weights": w}[case["arg"]])
        if case["a"] >= len(f):
            return
        args[case["arg"]] = f[case["a"]]
    else:
        fa, fb = forms.array_forms(X), forms.array_forms(y)
        if case["a"] >= len(fa) or case["b"] >= len(fb):
            return
        args["X"], args["y"] = fa[case["a"]], fb[case["b"]]
    names = {k: v[0] for k, v in args.items()}
    f32 = "f32" in names.values()
    snaps = {k: forms.snapshot(v[1]) for k, v in args.items()}
    P = make(*[args[k][1] for k in ("X", "y", "domain", "weights")])
    got = answers(P)
    compare(c, got, base, f"{kind} with {names}", f32)
    for k in args:
        c.true(forms.same(args[k][1], snaps[k]), f"{kind}: the caller's {k} ({names[k]}) was modified")
    # plots must not write either
    if case.get("b", 0) in (0, 4):
        ax = plots.axes()
        P.plot_param_space(0, ax=ax, aff=4); P.plot_obs_space(0, ax=ax, aff=4, **({} if kind == "density" else dict()))
        for k in args:
            c.true(forms.same(args[k][1], snaps[k]), f"{kind}: plotting modified the caller's {k} ({names[k]})")
        P = make(*[args[k][1] for k in ("X", "y", "domain", "weights")])
    else:
        P = make(*[args[k][1] for k in ("X", "y", "domain", "weights")])
    for k in args:
        forms.scramble(args[k][1])
    compare(c, answers(P), base, f"{kind} with {names} after the caller changed its arrays", f32)
    if kind == "density" and case.get("b", 1) in (1, 3) and "a" in case:
        w2 = forms.array_forms(w)[case["a"] % 8][1]
        P = make(X.copy(), y.copy(), dom.copy(), None); P.set_initial(); P.set_weights(w2)
        forms.scramble(w2)
        compare(c, answers(P), base, f"density with weights set as form {case['a'] % 8} and changed afterwards", False)
        w2 = forms.array_forms(w)[case["a"] % 8][1]
        P = make(X.copy(), y.copy(), dom.copy(), None); P.set_initial(); P.set_predicted(weights=w2)
        forms.scramble(w2)
        compare(c, answers(P), base, "density with weights set by set_predicted and changed afterwards", False)

def lin_args(d, p):
    A = np.floor(9 * alpha.seq(d, p, 1)) - 3; A[0, 0] = 2
    b = np.floor(5 * alpha.seq(d, 1, 2)) - 1; y = np.floor(7 * alpha.seq(d, 1, 4)) - 2
    m = np.floor(5 * alpha.seq(p, 1, 5)) - 1
    C = np.eye(p) * 2 + np.ones((p, p)); D = np.eye(d) * 3 + np.ones((d, d)) * 1.0
    return A, b, y, m, C, D

def run_lin(case, c):
    from mud.base import LinearGaussianProblem, IterativeLinearProblem, LinearWMEProblem
    d, p = case["d"], case["p"]
    base_args = list(lin_args(d, p))
    kind, i = case["kind"], case["arg"]
    def answers(P):
        if kind == "iter":
            r = [np.array(P.solve(num_epochs=2))]
            return r + [np.array(s) for ch in P.solution_chains for s in ch]
        out = [np.array(s) for s in P.solve("all")]
        out += [np.array(P.solve(m)) for m in ("mud", "mud_alt", "map", "ls")]
        out += [np.array(P.updated_cov())]
        pts = alpha.seq(4, p, 6)
        out += [np.array(P.compute_functionals(pts, terms=t)) for t in ("data", "reg")]
        return out + [np.array(P.solve("map", output_dim=1))]
    if kind == "wme":
        # three quantities of interest from the d x p map
        ops = [base_args[0], base_args[0][:1], base_args[0] + 1.0]
        dat = [base_args[2].ravel(), np.arange(4.0), base_args[1].ravel()]
        sig = [1.0, 2.0, [1.0 + j for j in range(d)] if d > 1 else 3.0]
        if i >= 5:
            return
        mean, cov = base_args[3], base_args[4]
        base = answers(LinearWMEProblem([o.copy() for o in ops], [v.copy() for v in dat], list(sig), mean_i=mean, cov_i=cov))
        args = [ops, dat, sig, mean, cov]
        if i in (0, 1):
            opts = forms.array_forms(ops[0] if i == 0 else dat[0])
        elif i in (3, 4):
            opts = forms.array_forms(args[i])
        else:
            opts = [("scalar-list", sig), ("tuple", tuple(sig)), ("np", [np.float64(1.0), 2.0, np.array(sig[2]) if d > 1 else 3.0])]
        if case["a"] >= len(opts):
            return
        name, o = opts[case["a"]]
        if i == 0 and not isinstance(o, np.ndarray):
            return        # operators are arrays (they are asked for their shape)
        args = [[x.copy() for x in ops], [x.copy() for x in dat], list(sig), mean.copy(), cov.copy()]
        if i in (0, 1):
            args[i][0] = o
        else:
            args[i] = o
        if i == 1:
            args[1][2] = args[1][2].reshape(-1, 1)
        sn = forms.snapshot(args)
        P = LinearWMEProblem(args[0], args[1], args[2], mean_i=args[3], cov_i=args[4])
        compare(c, answers(P), base, f"WME problem with argument {i} as {name}", name == "f32")
        c.true(forms.same(args, sn), f"WME problem modified its arguments (argument {i} as {name})")
        return
    f = forms.array_forms(base_args[i])
    flat = i in (1, 2, 3)
    if flat:
        f = f + [("flat-" + n, o) for n, o in forms.array_forms(base_args[i].ravel())]
    for name, o in f[case["a"]::12]:
        def build(args):
            A, b, y, m, C, D = args
            if kind == "lin":
                return LinearGaussianProblem(A, b=b, y=y, mean_i=m, cov_i=C, cov_o=D, alpha=0.5)
            return IterativeLinearProblem(A, b=b, y=y, mu_i=m, cov=C, data_cov=D)
        if kind == "iter" and not isinstance(o, np.ndarray):
            continue      # documented for arrays only
        base = answers(build([a.copy() for a in base_args]))
        args = [a.copy() for a in base_args]; args[i] = o
        sn = forms.snapshot(args)
        P = build(args)
        compare(c, answers(P), base, f"{kind} problem with argument {i} as {name}", name.endswith("f32"))
        c.true(forms.same(args, sn), f"{kind} problem modified its arguments (argument {i} as {name})")
        if kind == "lin":
            for a in args:
                forms.scramble(a)
            compare(c, answers(P), base, f"linear problem with argument {i} as {name} after the caller changed its arrays", name.endswith("f32"))

# ---------------------------------------------------------------- operations that may not write to their arguments
BIG = [0]

def many(n):
    """number of samples or points: small, or in the hundreds"""
    return n * 170 if BIG[0] else n

def _sp():
    from mud.base import SpatioTemporalProblem
    lam = alpha.seq(many(7), 2, 1); data = alpha.seq(many(7), 6, 2)
    return lam, data

def st_args():
    lam, data = _sp()
    return dict(lam=lam, data=data.reshape(-1, 3, 2), sensors=alpha.seq(3, 2, 4), times=np.arange(2.0), domain=np.array([[-1.0, 2.0], [-1.0, 3.0]]),
                measurements=alpha.seq(6, 1, 3).ravel(), true_vals=alpha.seq(6, 1, 5).ravel(), lam_ref=np.array([0.3, 0.4]), std_dev=0.1)

def st_call(f):
    def g(a):
        from mud.base import SpatioTemporalProblem
        P = SpatioTemporalProblem(); P.load(a)
        f(P)
    return g

def _calls():
    import mud.base as B, mud.funs as F, mud.util as U, mud.norm as N, mud.plot as L, mud.preprocessing as PP
    X = lambda n=6, p=2: alpha.seq(many(n) if n > 3 else n, p, 1)
    A, b, y, m, C, D = lin_args(2, 3)
    now = lambda: lin_args(24, 30) if BIG[0] else (A, b, y, m, C, D)
    lin = lambda: {k: v.copy() for k, v in zip(("A", "b", "y", "mean", "cov", "data_cov"), now())}
    pts = lambda n: alpha.seq(many(n), 30 if BIG[0] else 3, 1)
    out = []
    add = lambda name, mk, f: out.append((name, mk, f))
    add("wme", lambda: [X(4, 3), np.arange(3.0).reshape(-1, 1)], lambda a: F.wme(a[0], a[1], 0.3))
    add("wme single", lambda: [np.arange(3.0), np.arange(3.0) + 1], lambda a: F.wme(a[0], a[1]))
    for nm in ("mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov", "iter_lin_solve"):
        add(nm, lin, lambda a, nm=nm: getattr(F, nm)(a["A"], a["b"], y=a["y"], mean=a["mean"], cov=a["cov"], data_cov=a["data_cov"]))
    add("updated_cov", lin, lambda a: F.updated_cov(a["A"], a["cov"], a["data_cov"]))
    add("performEpoch", lin, lambda a: F.performEpoch(a["A"], a["b"], a["y"], a["mean"], a["cov"]))
    add("iterate", lin, lambda a: F.iterate(a["A"], a["b"], a["y"], a["mean"], a["cov"], num_epochs=2))
    add("functionals", lin, lambda a: B.LinearGaussianProblem(a["A"], a["b"], a["y"], a["mean"], a["cov"], a["data_cov"], 0.5).compute_functionals(pts(5)))
    add("functionals points", lambda: [pts(5)], lambda a: B.LinearGaussianProblem(*now(), 0.5).compute_functionals(a[0]))
    for nm in ("norm_input", "norm_data", "norm_predicted", "full_functional", "inner_product"):
        def call(a, nm=nm):
            if nm == "norm_input":
                return N.norm_input(a[0], a[1], a[2])
            if nm == "norm_data":
                return N.norm_data(a[3], a[0], a[4], a[5], a[6])
            if nm == "norm_predicted":
                return N.norm_predicted(a[3], a[0], a[1], a[2])
            if nm == "inner_product":
                return N.inner_product(a[0].T, a[2])
            return N.full_functional(a[3], a[0], a[4], a[1], a[2], a[5], a[6])
        add(nm, lambda: [pts(4)] + [v.copy() for v in (lambda A, b, y, m, C, D: (m, C, A, b, y, D))(*now())], call)
    add("transform_linear_map", lambda: [X(3, 2), np.arange(3.0).reshape(-1, 1), np.array([1.0, 2.0, 3.0])], lambda a: U.transform_linear_map(*a))
    add("transform_linear_setup", lambda: [[X(3, 2), X(1, 2)], [np.arange(3.0), np.arange(4.0)], [[1.0, 2.0, 3.0], 2.0]], lambda a: U.transform_linear_setup(*a))
    add("null_space", lambda: [X(2, 4)], lambda a: U.null_space(a[0]))
    add("rank_decomposition", lambda: [X(3, 4)], lambda a: U.rank_decomposition(a[0]))
    add("add_noise", lambda: [X(3, 4)], lambda a: U.add_noise(a[0], 0.1, 3))
    add("fit_domain", lambda: [X(3, 4)], lambda a: U.fit_domain(a[0]))
    add("fit_domain bounds", lambda: [np.array([[0.0, 1.0], [2.0, 5.0]])], lambda a: U.fit_domain(min_max_bounds=a[0], pad_ratio=0.5))
    add("set_shape", lambda: [np.arange(4.0)], lambda a: U.set_shape(a[0], (-1, 1)))
    add("build_nd_mesh_grid", lambda: [np.array([[0.0, 1.0], [2.0, 5.0]])], lambda a: L.build_nd_mesh_grid(a[0], 4))
    add("pca", lambda: [X(6, 3)], lambda a: PP.pca(a[0]))
    add("svd", lambda: [X(6, 3)], lambda a: PP.svd(a[0]))
    add("mud_problem", lambda: [X(5, 2), X(5, 4), np.arange(4.0), np.array([[0.0, 1.0], [0.0, 1.0]]), np.arange(float(many(5))) + 1],
        lambda a: F.mud_problem(a[0], a[1], a[2], a[3], 0.2, 3, weights=a[4]).estimate())
    add("mud_problem split", lambda: [X(5, 2), X(5, 4), np.arange(4.0), np.array([[0.0, 1.0], [0.0, 1.0]]), [np.array([2, 0]), np.array([1, 3])]],
        lambda a: F.mud_problem(a[0], a[1], a[2], a[3], 0.2, 4, split=a[4]).estimate())
    add("map_problem", lambda: [X(5, 2), X(5, 4), 0.1 * np.arange(4.0), np.array([[0.0, 1.0], [0.0, 1.0]])],
        lambda a: F.map_problem(a[0], a[1], a[2], a[3], 0.9, 3).estimate())
    add("mud_problem 1d", lambda: [X(5, 1).ravel(), X(5, 1).ravel(), np.arange(1.0), np.array([[0.0, 1.0]])],
        lambda a: F.mud_problem(a[0], a[1], a[2], a[3], 0.2).estimate())
    add("plot_dist range", lambda: [np.array([[0.0, 1.0], [0.0, 1.0]])],
        lambda a: (lambda D: (D.estimate(), D.plot_param_space(0, ax=plots.axes(), x_range=a[0], aff=4), D.plot_obs_space(0, ax=plots.axes(), y_range=a[0], aff=4)))(d_make(X(6, 2), X(6, 2), None, None)))
    add("density plots", lambda: [X(6, 2), X(6, 2), np.array([[-1.0, 2.0], [-1.0, 2.0]]), np.array([0.2, 0.3])],
        lambda a: (lambda D: (D.estimate(), D.plot_param_space(1, true_val=a[3], ax=plots.axes(), aff=4), D.plot_obs_space(1, ax=plots.axes(), aff=4),
                              D.plot_qoi(ax=plots.axes()), D.plot_params_2d(ax=plots.axes(), colorbar=False)))(d_make(a[0], a[1], a[2], None)))
    add("linear plots", lambda: [np.array([[0.2], [0.3]]), np.array([[2.0, 1.0], [0.0, 1.0]])],
        lambda a: (lambda P: (P.plot_sol(ax=plots.axes()), P.plot_contours(ref=a[0], ax=plots.axes()), P.plot_fun_contours(N=4, ax=plots.axes())))(B.LinearGaussianProblem(a[1], y=y)))
    add("chain", lambda: [np.array([[0.2], [0.3]]), np.array([[2.0, 1.0], [0.0, 1.0]])],
        lambda a: (lambda P: (P.solve(num_epochs=2), P.get_errors(a[0]), P.plot_chain(a[0], ax=plots.axes()), P.plot_chain_error(a[0], ax=plots.axes())))(B.IterativeLinearProblem(a[1], b=None, y=y)))
    add("plot_1D_vecs", lambda: [X(3, 4)], lambda a: L.plot_1D_vecs(a[0], ax=plots.axes()))
    add("st load", st_args, st_call(lambda P: None))
    for meth in ("wme", "pca", "svd"):
        add("st " + meth, st_args, st_call(lambda P, meth=meth: P.mud_problem(method=meth).estimate()))
        add("st weights " + meth, lambda: dict(st=st_args(), dw=np.arange(6.0) + 1, sw=np.arange(float(many(7))) + 1),
            lambda a, meth=meth: st_call(lambda P: P.mud_problem(method=meth, data_weights=a["dw"], sample_weights=a["sw"]).estimate())(a["st"]))
    add("st masks", lambda: dict(st=st_args(), m=np.array([2, 0, 5]), t=np.array([True, False]), s=np.array([1, 2])),
        lambda a: st_call(lambda P: P.sample_data(a["m"], a["t"], a["s"]))(a["st"]))
    add("st closest", st_args, st_call(lambda P: (P.get_closest_to_measurements(), P.get_closest_to_true_vals())))
    add("st measurements", st_args, st_call(lambda P: P.measurements_from_reference(seed=3)))
    add("st reference", lambda: dict(st=st_args(), r=alpha.seq(6, 1, 2).reshape(3, 2)), lambda a: st_call(lambda P: P.measurements_from_reference(a["r"], 0.2, seed=3))(a["st"]))
    add("st plots", st_args, st_call(lambda P: (P.plot_ts(ax=plots.axes()), P.sensor_scatter_plot(ax=plots.axes()), P.sensor_contour_plot(ax=plots.axes(), c_vals=np.arange(3.0), colorbar=False))))
    add("data_prob", lambda: {k: v for k, v in st_args().items()},
        lambda a: F.data_prob(a["lam"], a["data"], qoi_true=a["true_vals"], measurements=a["measurements"], std_dev=0.1, domain=a["domain"], times=a["times"], sensors=a["sensors"]))
    return out

CALLS = None

def _init():
    global CALLS
    if CALLS is None:
        CALLS = _calls()
try:
    _init()
except ImportError:
    CALLS = []

def run_call(i, c, big):
    name, mk, f = CALLS[i]
    BIG[0] = big
    try:
        args = mk()
        sn = forms.snapshot(args)
        f(args)
    finally:
        BIG[0] = 0
    c.true(forms.same(args, sn), f"{name} modified an array the caller passed in")
    c.state(name)
    c.outcome(name)
