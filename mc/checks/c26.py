RULE = """Density and Bayesian problems with 1..3 parameters and 1..3 outputs, 9 samples (some 4, 40, 200; different density in every coordinate), every coordinate, every subset of the curves
switched off or given own options, ranges omitted, given as array and list, several paddings, four sets of weights, predicted density by three bandwidths
and two distributions, the estimate and the true value as list and array, axes given or not; every pair of parameters with every output in the two-dimensional plots; every pair of plots onto two axes in
succession; contour lines of every output; samples stored as integers; own and default options of single curves and of the true value, heights,
paddings and the default number of points. Oracle: the reference joint density summed over the same range (curves compared as normalised shapes at the plotted
abscissae), index arithmetic for points, figure and axes inventories before and after."""
import itertools
import numpy as np
from mc import ref, alpha, plots

AFF = {1: 60, 2: 24, 3: 12}

def cases(tier):
    for p, k in itertools.product((1, 2, 3), repeat=2):
        for idx in range(p):
            for sub in range(16):
                for v in range(3):
                    yield dict(kind="dp", p=p, k=k, idx=idx, sub=sub, v=v)
        for idx in range(k):
            for sub in range(8):
                for v in range(7):
                    yield dict(kind="do", p=p, k=k, idx=idx, sub=sub, v=v)
        for idx in range(p):
            for sub in range(8):
                for v in range(3):
                    for log in (0, 1):
                        yield dict(kind="bp", p=p, k=k, idx=idx, sub=sub, v=v, log=log)
        for idx in range(k):
            for sub in range(4):
                for v in range(3):
                    for log in (0, 1):
                        yield dict(kind="bo", p=p, k=k, idx=idx, sub=sub, v=v, log=log)
        for x1, x2, y in itertools.product(range(p + 1), range(p + 1), range(k + 1)):
            for v in range(3):
                yield dict(kind="2d", p=p, k=k, x=[x1, x2], y=y, v=v)
        for a, b in itertools.product(range(k), repeat=2):
            yield dict(kind="qoi", p=p, k=k, x=[a, b])
    for p, k in ((1, 1), (2, 2)):
        for a, b, c_ in itertools.product(range(6), repeat=3):
            yield dict(kind="two", p=p, k=k, ops=[a, b, c_])
    for p, k in itertools.product((1, 2, 3), repeat=2):
        for rev, v in itertools.product((1, 2), repeat=2):
            for idx in range(p):
                yield dict(kind="dp", p=p, k=k, idx=idx, sub=7, v=v, rev=rev)
                yield dict(kind="bp", p=p, k=k, idx=idx, sub=7, v=v, log=v % 2, rev=rev)
            for idx in range(k):
                yield dict(kind="do", p=p, k=k, idx=idx, sub=7, v=v, rev=rev)
                yield dict(kind="bo", p=p, k=k, idx=idx, sub=3, v=v, log=v % 2, rev=rev)
    for n in (4, 40, 200):
        for p, k in ((1, 1), (1, 2), (2, 1), (2, 3)):
            for v in range(3):
                for sub in (0, 7, 15):
                    yield dict(kind="dp", p=p, k=k, idx=p - 1, sub=sub, v=v, N=n)
                    yield dict(kind="bp", p=p, k=k, idx=p - 1, sub=sub % 8, v=v, log=v % 2, N=n)
                    yield dict(kind="bo", p=p, k=k, idx=k - 1, sub=sub % 4, v=v, log=v % 2, N=n)
                for v2 in (v, v + 4):
                    yield dict(kind="do", p=p, k=k, idx=k - 1, sub=7, v=v2, N=n)
                if p > 1:
                    yield dict(kind="2d", p=p, k=k, x=[1, 0], y=k - 1, v=v, N=n)
                yield dict(kind="qoi", p=p, k=k, x=[k - 1, 0], N=n)
    for p, k in ((1, 1), (1, 2), (2, 1), (2, 3), (3, 2)):
        for v, m in itertools.product(range(3), range(8)):
            for kind in ("odp", "obp"):
                yield dict(kind=kind, p=p, k=k, idx=(v + m) % p, v=v, m=m)
            yield dict(kind="odo", p=p, k=k, idx=(v + m) % k, v=v, m=m)
        if p > 1:
            for a, b in itertools.permutations(range(p), 2):
                for y in range(k):
                    for v in range(4):
                        yield dict(kind="cont", p=p, k=k, x=[a, b], y=y, v=v)
    for p in (1, 2, 3):
        for idx, dt in itertools.product(range(p), ("int64", "int8", "float32")):
            yield dict(kind="ints", p=p, idx=idx, dt=dt)
    if tier == "thorough":
        for p, k in itertools.product((1, 2, 3), repeat=2):
            for idx in range(p):
                for aff in (3, 5, 17, 40):
                    yield dict(kind="dp", p=p, k=k, idx=idx, sub=15, v=0, aff=aff)

N = 9          # samples, unless the case says otherwise

def data(p, k):
    X = alpha.gen(N, p, 1) * (1 + np.arange(p)) + np.arange(p)
    Y = 2 * alpha.gen(N, k, 4) - 1 + 0.5 * np.arange(k)
    return X, Y

def init_spec(p):
    return ["norm", (0.4 + 1.1 * np.arange(p)).tolist(), (0.3 + 0.5 * np.arange(p)).tolist()]

def obs_spec(k):
    return ["norm", (0.2 - 0.3 * np.arange(k)).tolist(), (0.8 + 0.3 * np.arange(k)).tolist()]

def grid(rng, aff):
    axs = [np.linspace(a, b, aff)[:-1] for a, b in rng]
    return axs, np.stack([m.ravel() for m in np.meshgrid(*axs, indexing="ij")], axis=1)

def marginal(f, rng, aff, idx):
    axs, pts = grid(rng, aff)
    v = f(pts).reshape([len(a) for a in axs])
    return axs[idx], v.sum(axis=tuple(i for i in range(len(axs)) if i != idx))

def same_shape(c, line, f, rng, aff, idx, what):
    x, y = line
    wx, wy = marginal(f, rng, aff, idx)
    c.close(x, wx, f"abscissae of the {what} curve", rtol=1e-9, atol=1e-9)
    if wy.max() <= 0:
        return
    c.close(y / np.sum(y), wy / np.sum(wy), f"shape of the {what} curve", rtol=1e-6, atol=1e-9)

def normalised(c, line, what):
    x, y = line
    c.close(np.sum(y) * abs(x[1] - x[0]), 1.0, f"total of the {what} curve", rtol=1e-6)

def opts(on, custom, i):
    if not on:
        return dict(val=None)
    return dict(val=dict(color="k", linestyle=":", label=f"curve{i}")) if custom else None

def ranges(v, rng, rev=0):
    if v == 0:
        return None
    if rev:           # from right to left, in one or all coordinates
        r = [[b + 0.2, a - 0.3] if rev > 1 or j == 0 else [a, b] for j, (a, b) in enumerate(rng)]
        return np.array(r) if v == 1 else r
    r = np.array([[a - 0.3 * (1 + j), b + 0.2 * (1 + j)] for j, (a, b) in enumerate(rng)])
    return r if v == 1 else r.tolist()

class Figures:
    def __init__(self, c, given):
        import matplotlib.pyplot as plt
        self.plt, self.c = plt, c
        plt.close("all")
        self.fig, self.axs = plt.subplots(1, 2)          # the user's own figure, current axes is the second
        plt.sca(self.axs[1])
        self.given = given
        self.ax = plots.axes() if given == 1 else self.axs[0] if given == 2 else None
        if self.given == 2:
            plt.figure()                                  # another figure is current
        self.before = self.inventory()
    def inventory(self):
        cur = self.plt.gcf().number
        out = {n: [(len(a.lines), len(a.collections)) for a in self.plt.figure(n).axes] for n in self.plt.get_fignums()}
        self.plt.figure(cur)                              # looking must not change what is current
        return out
    def check(self, got, what):
        after = self.inventory()
        c = self.c
        if self.given == 0:
            c.true(got not in list(self.axs), f"{what}: drawn onto the user's other axes")
            after = {k: v for k, v in after.items() if k in self.before}
            c.true(after == self.before, f"{what}: other figures changed")
        elif self.given == 1:
            c.true(got is self.ax, f"{what}: returned other axes")
            c.true(after == self.before, f"{what}: other figures changed: {after}, before {self.before}")
        else:
            c.true(got is self.ax, f"{what}: returned other axes")
            one = self.fig.number
            c.true({k: v for k, v in after.items() if k != one} == {k: v for k, v in self.before.items() if k != one} and after[one][1] == self.before[one][1], f"{what}: other axes changed: {after}, before {self.before}")

class Joint:
    """a density object of the user's own: only pdf(), joint values"""
    def __init__(self, k):
        self.d = alpha.mkdist(["norm", (0.3 * np.arange(k)).tolist(), (1.2 - 0.2 * np.arange(k)).tolist()])
    def pdf(self, x):
        return self.d.joint(np.asarray(x))

def weight_sets():
    return ([1.0 + i % 3 for i in range(N)], [0.05 + 0.1 * (i % 3) for i in range(N)], [float(i % 2) * (i + 1) for i in range(N)], [30.0 * (1 + (i * i) % 5) for i in range(N)])

def density(p, k, v, s=0):
    from mud.base import DensityProblem
    X, Y = data(p, k)
    w = weight_sets()[s % 4] if v % 2 else None
    D = DensityProblem(X, Y, weights=w)
    D.set_initial(alpha.mkdist(init_spec(p)).scipy()); D.set_observed(alpha.mkdist(obs_spec(k)).scipy())
    return D, X, Y, ref.combine(w, N)

def bayes(p, k, log):
    from mud.base import BayesProblem
    X, Y = data(p, k)
    B = BayesProblem(X, Y, ref.domain_of(X, 0.2))
    B.set_prior(alpha.mkdist(init_spec(p)).scipy())
    B.set_likelihood(alpha.mkdist(obs_spec(k)).scipy(), log=bool(log))
    return B, X, Y

def run(case, c):
    global N
    N = case.get("N", 9)
    if case["kind"] == "ints":
        return ints(case, c)
    p, k, kind = case["p"], case["k"], case["kind"]
    if kind == "dp":
        return d_params(case, c)
    if kind in ("odp", "obp", "odo"):
        return options(case, c)
    if kind == "cont":
        return contoured(case, c)
    if kind == "do":
        return d_obs(case, c)
    if kind == "bp":
        return b_params(case, c)
    if kind == "bo":
        return b_obs(case, c)
    if kind in ("2d", "qoi"):
        D, X, Y, w = density(p, k, 0)
        given = case.get("v", case["x"][0] % 3)
        F = Figures(c, given)
        a, b = case["x"]
        if kind == "qoi":
            ax = D.plot_qoi(a, b, ax=F.ax, s=7)
            F.check(ax, "outputs plot")
            pts = plots.scatters(ax)
            c.true(len(pts) == 1, "one scatter"); c.close(pts[0], Y[:, [a, b]], "plotted outputs")
            return
        y = case["y"]
        if p < 2:
            c.raises(lambda: D.plot_params_2d(a, b, y, ax=F.ax), "two-dimensional plot of one parameter", AttributeError); return
        if max(a, b) >= p or y >= k:
            c.raises(lambda: D.plot_params_2d(a, b, y, ax=F.ax), f"parameters {a},{b} output {y} of {p},{k}", ValueError); return
        ax = D.plot_params_2d(a, b, y, ax=F.ax, colorbar=given != 1, contours=False, s=31.0)
        F.check(ax, "two-dimensional plot") if given == 1 else None
        sc = [s for s in ax.collections if len(getattr(s, "get_offsets", lambda: [])())]
        c.true(len(sc) == 1, "one scatter")
        c.close(np.asarray(sc[0].get_offsets()), X[:, [a, b]], "plotted parameters")
        c.close(np.asarray(sc[0].get_array()), Y[:, y], "colours")
        c.true(list(sc[0].get_sizes()) == [31.0], "scatter options are passed on")
        c.true(str(a + 1) in ax.get_xlabel() and str(b + 1) in ax.get_ylabel(), "axis labels name the parameters")
        if given == 2:
            after = F.inventory()
            c.true([v for n, v in after.items() if n != F.fig.number] == [v for n, v in F.before.items() if n != F.fig.number] and after[F.fig.number][1] == F.before[F.fig.number][1], f"colour bar went elsewhere: {after}, before {F.before}")
        return
    two(case, c)

def d_params(case, c):
    p, k, idx, v = case["p"], case["k"], case["idx"], case["v"]
    D, X, Y, w = density(p, k, v, case["sub"] // 2 + idx)
    aff = case.get("aff", AFF[p])
    on = [bool(case["sub"] >> i & 1) for i in range(4)]
    names = ["in_opts", "up_opts", "win_opts", "mud_opts"]
    kw = {}
    for i, (nm, o) in enumerate(zip(names, on)):
        if not o:
            if nm != "win_opts" or v:
                kw[nm] = None
        elif nm == "win_opts" or (v + i) % 2:
            kw[nm] = dict(color="k", linestyle=":", label=f"curve{i}")
    rg = ranges(v, D.domain, case.get('rev', 0))
    if rg is not None:
        kw["x_range"] = rg
    pad = 0.05
    if v == 0 and case["sub"] % 2:
        pad = kw["pad_ratio"] = 0.25
    tv = (0.3 + 0.7 * np.arange(p)) * (0.0 if case["sub"] % 6 == 3 else 1.0)
    if case["sub"] % 3 == 0:
        kw["true_val"] = tv if v else tv.tolist()
    F = Figures(c, case["sub"] % 3)
    keep = {n: dict(o) for n, o in kw.items() if isinstance(o, dict)}
    ax = D.plot_param_space(param_idx=idx, ax=F.ax, aff=aff, **kw)
    F.check(ax, "parameter plot")
    c.true(all(kw[n] == o for n, o in keep.items()), "options modified")
    dom = ref.domain_of(X, 0.1)
    if rg is None:
        wd = dom[:, 1] - dom[:, 0]
        dom = np.array([dom[:, 0] - pad * wd, dom[:, 1] + pad * wd]).T
    else:
        dom = np.array(rg)
    D0 = ref.density(X, Y, w, alpha.mkdist(init_spec(p)).joint, alpha.mkdist(obs_spec(k)).joint, None, dom)
    fs = []
    if on[0]:
        fs.append(("initial", alpha.mkdist(init_spec(p)).joint))
    if on[1]:
        fs.append(("updated", lambda g: ref.kde(X, g, D0["r"] * w)))
    if on[2]:
        fs.append(("weighted initial", lambda g: ref.kde(X, g, w)))
    cv = plots.curves(ax)
    c.true(len(cv) == len(fs), f"{len(cv)} curves, expected {[n for n, _ in fs]}")
    for l, (n, f) in zip(cv, fs):
        same_shape(c, l, f, dom, aff, idx, n); normalised(c, l, n)
    wantv = []
    if on[3]:
        wantv.append(X[ref.argmax_set(D0["up"], 1e-9)[0], idx])
    if "true_val" in kw:
        wantv.append(tv[idx])
    c.close(np.array(plots.verticals(ax)), np.array(wantv), "vertical lines", rtol=1e-9)
    c.true(str(idx + 1) in ax.get_xlabel(), "axis label names the parameter")

def d_obs(case, c):
    p, k, idx, v = case["p"], case["k"], case["idx"], case["v"]
    D, X, Y, w = density(p, k, v, case["sub"] // 2 + idx)
    spec = [None, ["kde", "silverman"], ["kde", 0.6], alpha.pred_alphabet(Y)[5], ["normkw", 0.1, 0.9], None, ["kde", ["call", 0.7]]][v]
    if v == 5:
        D.set_predicted(Joint(k))
    elif spec is not None:
        alpha.set_pred(D, spec)
    aff = AFF[k]
    on = [bool(case["sub"] >> i & 1) for i in range(3)]
    kw = {}
    for i, (nm, o) in enumerate(zip(("ob_opts", "pr_opts", "pf_opts"), on)):
        if not o:
            kw[nm] = None
        elif (v + i) % 2:
            kw[nm] = dict(color="k", linestyle=":", label=f"curve{i}")
    base = ref.domain_of(Y, 0.1)
    rg = ranges(v % 3, base, case.get('rev', 0))
    if rg is not None:
        kw["y_range"] = rg
    F = Figures(c, case["sub"] % 3)
    if v % 2:
        D.fit() if v != 5 and spec is None else D.estimate()
    ax = D.plot_obs_space(obs_idx=idx, ax=F.ax, aff=aff, **kw)
    F.check(ax, "output plot")
    dom = base if rg is None else np.array(rg)
    rp = Joint(k).pdf if v == 5 else alpha.ref_pred(spec)
    D0 = ref.density(X, Y, w, alpha.mkdist(init_spec(p)).joint, alpha.mkdist(obs_spec(k)).joint, rp, ref.domain_of(X, 0.1))
    fs = []
    if on[0]:
        fs.append(("observed", alpha.mkdist(obs_spec(k)).joint))
    if on[1]:
        fs.append(("predicted", (lambda g: ref.kde(Y, g, w, None if rp is None else rp[1])) if rp is None or isinstance(rp, tuple) else rp))
    if on[2]:
        fs.append(("push-forward of the updated", lambda g: ref.kde(Y, g, D0["r"] * w)))
    cv = plots.curves(ax)
    c.true(len(cv) == len(fs), f"{len(cv)} curves, expected {[n for n, _ in fs]}")
    for l, (n, f) in zip(cv, fs):
        same_shape(c, l, f, dom, aff, idx, n); normalised(c, l, n)

def post(X, Y, p, k):
    lp = alpha.mkdist(init_spec(p)).joint(X) * alpha.mkdist(obs_spec(k)).joint(Y)
    return lp

def b_params(case, c):
    p, k, idx, v = case["p"], case["k"], case["idx"], case["v"]
    B, X, Y = bayes(p, k, case["log"])
    aff = AFF[p]
    on = [bool(case["sub"] >> i & 1) for i in range(3)]
    kw = {}
    for i, (nm, o) in enumerate(zip(("pr_opts", "ps_opts", "map_opts"), on)):
        if not o:
            kw[nm] = None
        elif (v + i) % 2:
            kw[nm] = dict(color="k", linestyle=":", label=f"curve{i}")
    rg = ranges(v, B.domain, case.get('rev', 0))
    if rg is not None:
        kw["x_range"] = rg
    tv = (0.3 + 0.7 * np.arange(p)) * (0.0 if case["sub"] % 6 == 3 else 1.0)
    if case["sub"] % 3 == 0:
        kw["true_val"] = tv if v else tv.tolist()
    F = Figures(c, (case["sub"] + v) % 3)
    ax = B.plot_param_space(param_idx=idx, ax=F.ax, aff=aff, **kw)
    F.check(ax, "parameter plot")
    dom = ref.domain_of(X, 0.2) if rg is None else np.array(rg)
    ps = post(X, Y, p, k)
    fs = ([("prior", alpha.mkdist(init_spec(p)).joint)] if on[0] else []) + ([("posterior", lambda g: ref.kde(X, g, ps))] if on[1] else [])
    cv = plots.curves(ax)
    c.true(len(cv) == len(fs), f"{len(cv)} curves, expected {[n for n, _ in fs]}")
    for l, (n, f) in zip(cv, fs):
        same_shape(c, l, f, dom, aff, idx, n); normalised(c, l, n)
    wantv = ([X[int(np.argmax(ps)), idx]] if on[2] else []) + ([tv[idx]] if "true_val" in kw else [])
    c.close(np.array(plots.verticals(ax)), np.array(wantv), "vertical lines", rtol=1e-9)

def b_obs(case, c):
    p, k, idx, v = case["p"], case["k"], case["idx"], case["v"]
    B, X, Y = bayes(p, k, case["log"])
    aff = AFF[k]
    on = [bool(case["sub"] >> i & 1) for i in range(2)]
    kw = {}
    for i, (nm, o) in enumerate(zip(("ll_opts", "pf_opts"), on)):
        if not o:
            kw[nm] = None
        elif (v + i) % 2:
            kw[nm] = dict(color="k", linestyle=":", label=f"curve{i}")
    rg = ranges(v, [[-1.0, 1.0]] * k, case.get('rev', 0))
    if rg is not None:
        kw["y_range"] = rg
    F = Figures(c, (case["sub"] + v) % 3)
    ax = B.plot_obs_space(obs_idx=idx, ax=F.ax, aff=aff, **kw)
    F.check(ax, "output plot")
    dom = np.array([[-1.0, 1.0]] * k) if rg is None else np.array(rg)
    ps = post(X, Y, p, k)
    fs = ([("likelihood", alpha.mkdist(obs_spec(k)).joint)] if on[0] else []) + ([("push-forward of the posterior", lambda g: ref.kde(Y, g, ps))] if on[1] else [])
    cv = plots.curves(ax)
    c.true(len(cv) == len(fs), f"{len(cv)} curves, expected {[n for n, _ in fs]}")
    for l, (n, f) in zip(cv, fs):
        same_shape(c, l, f, dom, aff, idx, n)

def styled(c, line, given, what):
    """the options the caller gave are those of the line"""
    from matplotlib.colors import to_rgba
    if "color" in given:
        c.true(to_rgba(line.get_color()) == to_rgba(given["color"]), f"colour of {what} is {line.get_color()}, {given['color']} was asked for")
    if "linestyle" in given:
        c.true(line.get_linestyle() == given["linestyle"], f"style of {what} is {line.get_linestyle()}, {given['linestyle']} was asked for")
    if "label" in given:
        c.true(line.get_label() == given["label"], f"label of {what} is {line.get_label()}, {given['label']} was asked for")
    if "linewidth" in given:
        c.true(line.get_linewidth() == given["linewidth"], f"width of {what}")

CUSTOM = [dict(color="c"), dict(linestyle=":"), dict(label="own label"), dict(color="#123456", linestyle="--", label="all", linewidth=2.5)]

def options(case, c):
    """the number of points left out, a height for the vertical lines, own options for single curves and for the true value"""
    p, k, idx, v, m, kind = case["p"], case["k"], case["idx"], case["v"], case["m"], case["kind"]
    bayes_ = kind == "obp"
    if bayes_:
        O, X, Y = bayes(p, k, v % 2); w = np.ones(N)
    else:
        O, X, Y, w = density(p, k, v, m)
    dim = k if kind == "odo" else p
    default_aff = m % 4 == 0 and dim == 1 or m == 0 and dim == 2 and not bayes_
    kw = {} if default_aff else dict(aff=AFF[dim])
    names = dict(odp=["in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"], obp=["pr_opts", "ps_opts", "map_opts", "true_opts"], odo=["ob_opts", "pr_opts", "pf_opts"])[kind]
    mine = {}
    for i, nm in enumerate(names):
        q = (i + v + m) % 5
        if q < 4:
            mine[nm] = kw[nm] = dict(CUSTOM[q])
        elif i % 2:
            kw[nm] = None
    tv = 0.35 + 0.5 * np.arange(p)
    if kind != "odo":
        kw["true_val"] = tv if v else tv.tolist()
    top = None
    if kind == "odp" and m % 2:
        top = kw["ylim"] = [0.8, 3.0, 25.0][v]
    pad = [None, 0.0, 0.5][v] if kind == "odp" else None
    if pad is not None:
        kw["pad_ratio"] = pad
    if kind == "odo":
        for bad in ([[0.0, 1.0]] * (k + 1), [[0.0, 1.0]] * (k - 1) if k > 1 else np.zeros((2, 2)), np.array([[-1.0, 1.0]] * (k + 3))):
            c.raises(lambda: O.plot_obs_space(0, ax=plots.axes(), y_range=bad, aff=4), f"{len(bad)} ranges for {k} outputs", ValueError)
    ax = plots.axes()
    keep = {n: dict(o) for n, o in mine.items()}
    f = O.plot_obs_space if kind == "odo" else O.plot_param_space
    f(idx, ax=ax, **kw)
    c.true(all(kw[n] == o for n, o in keep.items()), "options modified")
    on = lambda nm: nm in mine or (nm not in kw and nm != "win_opts")
    if kind == "odo":
        dom = ref.domain_of(Y, 0.1)
    else:
        dom = ref.domain_of(X, 0.2 if bayes_ else 0.1)
        if kind == "odp":
            wd = (dom[:, 1] - dom[:, 0]) * (0.05 if pad is None else pad)
            dom = np.array([dom[:, 0] - wd, dom[:, 1] + wd]).T
    pri = alpha.mkdist(init_spec(p)).joint; ob = alpha.mkdist(obs_spec(k)).joint
    if bayes_:
        ps = post(X, Y, p, k); best = X[int(np.argmax(ps)), idx]
        fs = [("pr_opts", pri), ("ps_opts", lambda g: ref.kde(X, g, ps))]
        vs = [("map_opts", best), ("true_opts", tv[idx])]
    else:
        D0 = ref.density(X, Y, w, pri, ob, None, ref.domain_of(X, 0.1)); best = X[ref.argmax_set(D0["up"], 1e-9)[0], idx % p]
        if kind == "odp":
            fs = [("in_opts", pri), ("up_opts", lambda g: ref.kde(X, g, D0["r"] * w)), ("win_opts", lambda g: ref.kde(X, g, w))]
            vs = [("mud_opts", best), ("true_opts", tv[idx])]
        else:
            fs = [("ob_opts", ob), ("pr_opts", lambda g: ref.kde(Y, g, w)), ("pf_opts", lambda g: ref.kde(Y, g, D0["r"] * w))]
            vs = []
    fs = [q for q in fs if on(q[0])]; vs = [q for q in vs if on(q[0])]
    ln = list(ax.lines)
    vert = [l for l in ln if len(l.get_xdata()) == 2]; curv = [l for l in ln if len(l.get_xdata()) != 2]
    c.true(len(curv) == len(fs) and len(vert) == len(vs), f"{len(curv)} curves and {len(vert)} vertical lines, expected {[n for n, _ in fs + vs]}")
    for l, (nm, g) in zip(curv, fs):
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        aff = len(x) + 1
        c.true(aff == AFF[dim] if not default_aff else (aff >= 50 if bayes_ else aff == 100), f"{nm}: {len(x)} points")
        same_shape(c, (x, y), g, dom, aff, idx, nm); normalised(c, (x, y), nm)
        styled(c, l, mine.get(nm, {}), nm)
    for l, (nm, at) in zip(vert, vs):
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        c.close(x, [at, at], f"place of the {nm} line", rtol=1e-9)
        styled(c, l, mine.get(nm, {}), nm)
        c.true(min(y) <= 0.05 * max(y) + 0.1 and max(y) > 0, f"the {nm} line reaches from {min(y)} to {max(y)}")
        if top is not None:
            c.close(max(y), top, f"height of the {nm} line", rtol=1e-12)
    if top is not None and vs:
        c.close(ax.get_ylim()[1], top, "height of the axes", rtol=1e-12)
    labels = [l.get_label() for l in ln]
    c.true(sum(q == "all" or q == "own label" for q in labels) == sum("label" in mine.get(n, {}) for n, _ in fs + vs), f"labels {labels}")

def contoured(case, c):
    """two-dimensional parameter plots with contour lines of the output"""
    from matplotlib.figure import Figure
    from matplotlib.collections import PathCollection
    p, k, (a, b), y, v = case["p"], case["k"], case["x"], case["y"], case["v"]
    D, X, Y, w = density(p, k, v)
    axs = Figure().subplots(1, 2); ax = axs[v % 2]; fig = ax.figure
    rec = []
    for nm in ("tricontour", "tricontourf"):
        def hook(*l, _f=getattr(ax, nm), **o):
            rec.append([np.asarray(q, float) for q in l[:3]])
            return _f(*l, **o)
        setattr(ax, nm, hook)
    kw = dict(contours=True) if v else {}
    got = D.plot_params_2d(a, b, y, ax=ax, colorbar=v > 1, cmap="plasma", **kw)
    c.true(got is ax, "returned other axes")
    sc = [s for s in ax.collections if isinstance(s, PathCollection) and len(s.get_offsets()) == N]
    c.true(len(sc) == 1, f"{len(sc)} scatters")
    c.close(np.asarray(sc[0].get_offsets()), X[:, [a, b]], "plotted parameters")
    c.close(np.asarray(sc[0].get_array()), Y[:, y], "colours")
    c.true(sc[0].get_cmap().name == "plasma", "scatter options are passed on")
    c.true(len(fig.axes) == (3 if v > 1 else 2), f"{len(fig.axes)} axes, colour bar {v > 1}")
    other = axs[1 - v % 2]
    c.true(not other.lines and not other.collections, "drawn onto the other axes")
    c.true((len(ax.collections) > 1) == bool(v), f"{len(ax.collections)} collections, contours {bool(v)}")
    if v and rec:
        for q in rec:
            c.close(np.stack(q[:2], 1), X[:, [a, b]], "contoured parameters"); c.close(q[2], Y[:, y], "contoured output")
    if v:
        c.true(str(y + 1) in ax.get_title(), f"title {ax.get_title()} names the output")
    c.true(str(a + 1) in ax.get_xlabel() and str(b + 1) in ax.get_ylabel(), "axis labels name the parameters")

def ints(case, c):
    """samples stored as integers or in single precision, a true value between them"""
    from mud.base import DensityProblem, BayesProblem
    from scipy.stats import distributions as d
    p, idx = case["p"], case["idx"]
    X = (np.arange(9)[:, None] * (2 * np.arange(p) + 1) % 7).astype(case["dt"]); Y = (np.arange(9.0) / 3).reshape(-1, 1)
    tv = 1.375 + 0.5 * np.arange(p)
    for mk in (DensityProblem, BayesProblem):
        for t in (tv, tv.tolist(), np.array(tv, "float32")):
            P = mk(X.copy(), Y.copy(), domain=[[-1, 8]] * p)
            P.set_observed(d.norm(1, 0.2)) if mk is DensityProblem else P.set_likelihood(d.norm(1, 0.2))
            best = P.estimate()
            ax = plots.axes(); P.plot_param_space(idx, true_val=t, ax=ax, aff=7)
            c.close(np.array(plots.verticals(ax)), [best[idx], tv[idx]], f"vertical lines with {case['dt']} samples", rtol=1e-9)

def two(case, c):
    """plots onto two axes in succession: each axes receives its own plots only"""
    from matplotlib.figure import Figure
    p, k = case["p"], case["k"]
    axs = Figure().subplots(1, 2)
    D, X, Y, w = density(p, k, 0); B, _, _ = bayes(p, k, 0)
    def op(i, ax):
        if i == 0:
            D.plot_param_space(0, ax=ax, aff=8)
        elif i == 1:
            D.plot_param_space(p - 1, ax=ax, aff=8, mud_opts=None, true_val=[0.5] * p)
        elif i == 2:
            D.plot_obs_space(k - 1, ax=ax, aff=8)
        elif i == 3:
            B.plot_param_space(0, ax=ax, aff=8)
        elif i == 4:
            B.plot_obs_space(0, ax=ax, aff=8)
        else:
            D.plot_param_space(0, ax=ax, aff=8, in_opts=None, win_opts={"color": "r"})
    count = [3, 3, 3, 3, 2, 3]
    alone = {}
    for j, i in enumerate(case["ops"]):
        ax = axs[j % 2]
        before = [len(a.lines) for a in axs]
        op(i, ax)
        after = [len(a.lines) for a in axs]
        c.true(after[j % 2] - before[j % 2] == count[i] and after[1 - j % 2] == before[1 - j % 2], f"lines after plots {case['ops'][:j + 1]}: {after}, before {before}")
        fresh = Figure().subplots()
        D2, B2 = D, B
        D, X, Y, w = density(p, k, 0); B, _, _ = bayes(p, k, 0)
        op(i, fresh)
        D, B = D2, B2
        if j < 2:
            for a, b in zip(ax.lines[before[j % 2]:], fresh.lines):
                xa, ya = np.asarray(a.get_xdata(), float), np.asarray(a.get_ydata(), float)
                xb, yb = np.asarray(b.get_xdata(), float), np.asarray(b.get_ydata(), float)
                c.close(xa, xb, f"abscissae after plots {case['ops'][:j + 1]}", rtol=1e-9)
                if len(xa) > 2:
                    c.close(ya, yb, f"ordinates after plots {case['ops'][:j + 1]}", rtol=1e-9)
                c.true(a.get_color() == b.get_color() and a.get_linestyle() == b.get_linestyle(), "line style")
