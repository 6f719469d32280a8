RULE = """Every two-parameter map over {-1,0,1,2} with one and two rows (non-zero rows) and over {0,1} with three, two settings: each solution and the initial mean plotted with
own and default options, with and without connecting line and label; contour lines for every ordered subset of rows, four
references (omitted, list, array, column), two half lengths, annotations; own options of points, lines, labels, chains and error curves, with and without
own axes; functional contours for seven terms on default and own meshes; chains for all row orders. Space-time
problems of all shapes up to 3x3x3, 12x4x10, 130x6x15 and 4x2x120: series for every sensor and selections of samples and times, sensor plots with every subset, own and default
values; plotChain, plot_contours, plot_1D_vecs, plot_vert_line, plot_dist and save_figure with own options and with defaults. Oracle: exact solutions, level equations,
index arithmetic; inventory of every other axes and of the caller's option dictionaries before and after."""
import itertools, os
import numpy as np
from mc import lin, st, plots, alpha, forms, ref

def cases(tier):
    for d, ent in ((1, (-1, 0, 1, 2)), (2, (-1, 0, 1, 2)), (3, (0, 1))):
        for e in itertools.product(ent, repeat=2 * d):
            rows = [e[2 * i:2 * i + 2] for i in range(d)]
            if all(any(r) for r in rows):
                for i in ((0, 1, 3) if tier == "quick" else range(6)):
                    yield dict(d=d, p=2, e=list(e), i=i)
    for d in (2, 3):
        for e in itertools.product((-1, 0, 2), repeat=2 * d):
            if d == 3 and tier == "quick" and sum(v * 3 ** i for i, v in enumerate(e)) % 5:
                continue
            yield dict(zero=list(e), d=d)
    for n, S, T in (*itertools.product((1, 2, 3), repeat=3), (12, 4, 10), (130, 6, 15), (4, 2, 120)):
        for s in range(S):
            yield dict(ts=[n, S, T], s=s)
    for d, e in ((1, [1, 2]), (2, [1, 2, -1, 1]), (2, [0, 1, 2, 0]), (3, [1, 0, 0, 1, 1, 1]), (2, [1, -1, 2, 1])):
        for i in range(4):
            for v in range(6):
                yield dict(opt=d, d=d, p=2, e=e, i=i, v=v)
    for v in range(8):
        for d in (1, 2, 3, 9):
            yield dict(fun=v, d=d)
    for n in (1, 2, 3, 4, 9, 15):
        for k in range(4):
            yield dict(vecs=n, k=k)
    for i in range(12):
        yield dict(save=i)
    for S in (12, 40):
        for m in [q for q in st.big(S) if q is None or q[0] != "i"]:
            yield dict(sens=S, m=m)
    for S in (3, 4, 5):
        for m in [q for q in st.masks(S, 0) if q is not None and q[0] != "i"] + [None, ["l", [2, 0, 1]], ["l", [1, 2, 0]]]:
            yield dict(sens=S, m=m)

def other():
    import matplotlib.pyplot as plt
    plt.close("all")
    fig, ax = plt.subplots()
    return fig, ax

def untouched(c, fa, what):
    import matplotlib.pyplot as plt
    fig, ax = fa
    c.true(plt.get_fignums() == [fig.number] and fig.axes == [ax] and not ax.lines and not ax.collections and not ax.texts, f"{what}: the current figure of the caller was drawn on")

def run(case, c):
    if "fun" in case:
        return functions(case["fun"], case["d"], c)
    if "opt" in case:
        return options(case, c)
    if "ts" in case:
        return series(case, c)
    if "zero" in case:
        return zero(case, c)
    if "vecs" in case:
        return vecs(case, c)
    if "save" in case:
        return save(case, c)
    if "sens" in case:
        return sens(case, c)
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    A = lin.matrix(case); d = case["d"]; s = lin.settings(case["i"], d, 2)
    R = lin.reference(case, A, s)
    want = dict(mud=lin.F(R.mud()), map=lin.F(R.map()[0]), ls=lin.F(R.ls()), initial=s["mean"])
    sc = lin.scale_of(*want.values()); tol = dict(rtol=1e-6, atol=1e-7 * sc)
    P = lin.build(A, s, 0)
    fa = other()
    for j, m in enumerate(("initial", "mud", "map", "ls")):
        for v in range(3):
            ax = plots.axes()
            kw = [dict(), dict(pt_opts={"color": "r", "s": 9, "marker": "x"}, ln_opts=None, label="P"), dict(label="here", note_loc=(0.25, 0.75), ln_opts={"color": "b", "lw": 3}, annotate_opts={"fontsize": 7})][v]
            keep = forms.snapshot(kw)
            P.plot_sol(m, ax=ax, **kw) if v else P.plot_sol(point=m, ax=ax)
            c.true(forms.same(kw, keep), f"plot_sol changed the options given: {kw}")
            pts = plots.scatters(ax)
            c.true(len(pts) == 1, "one point"); c.close(pts[0].ravel(), want[m].ravel(), f"plotted {m} point", **tol)
            c.true(ax.collections[0].get_label() == m, f"the {m} point is labelled {ax.collections[0].get_label()}")
            ln = plots.lines(ax)
            if m == "initial" or v == 1:
                c.true(not ln, "no connecting line")
            else:
                c.true(len(ln) == 1, "one connecting line")
                c.close(np.array(ln[0]), np.hstack([s["mean"], want[m]]), f"line from the initial mean to the {m} point", **tol)
            c.true([t.get_text() for t in ax.texts] == ([kw["label"]] if "label" in kw else []), "label")
            if v == 2:
                c.close(np.array(ax.texts[0].xy, float), [0.25, 0.75], "place of the label")
    if case["i"] % 2 or d > 1:
        for m in ("ls", "mud", "map", "all")[:1 + case["i"]]:
            P.solve(m, output_dim=1)          # solves of other extent before plotting
    # level lines
    for k, sub in enumerate([None] + [list(o) for r in range(1, d + 1) for o in itertools.permutations(range(d), r)] + [[0, 0]]):
        for v, ref in enumerate((None, [0.3, 0.8], np.array([-1.0, 0.5]), np.array([[2.0], [-0.25]]))):
            ax = plots.axes(); w = (1, 0.5)[(k + v) % 2]
            kw = {}
            if w != 1:
                kw["w"] = w
            if v % 2:
                kw.update(plot_opts={"color": "r"}, annotate=True)
            P.plot_contours(ref, sub, ax=ax, **kw) if k % 2 else P.plot_contours(ref=ref, subset=None if sub is None else np.array(sub), ax=ax, **kw)
            rows = list(range(d)) if sub is None else sub
            r = want["ls"].ravel() if ref is None else np.ravel(ref)
            ln = plots.lines(ax)
            c.true(len(ln) == len(rows), f"{len(ln)} lines for rows {rows}")
            for (x, y), i in zip(ln, rows):
                x, y = np.ravel(x), np.ravel(y)
                c.close(A[i] @ np.array([x, y]), np.full(2, A[i] @ r), f"row {i} along its contour line through {r.tolist()}", rtol=1e-6, atol=1e-7 * sc)
                mid = np.array([x.mean(), y.mean()])
                c.close(mid, r, f"middle of the contour line of row {i}", **tol)
                c.close(np.hypot(x[1] - x[0], y[1] - y[0]), 2 * w, "length of the contour line", rtol=1e-6)
            c.true([t.get_text() for t in ax.texts] == ([str(i + 1) for i in rows] if v % 2 else []), "annotations name the rows")
    for how in (lambda a: P.plot_contours(subset=[], ax=a), lambda a: P.plot_contours(ref=[0.5, 0.5], subset=[], ax=a)):
        ax = plots.axes()
        try:
            how(ax)
        except Exception:
            c.bump("empty_subset_refused")
        c.true(not plots.lines(ax), "contour lines drawn although no row was selected")
    untouched(c, fa, "linear plots")
    # functional contours: the field that is drawn
    for j, t in enumerate(("data", "reg", "dc", "bayes", "reg_m", "dc_term", "all")):
        N = 4 + j % 3
        if (t in ("dc", "all", "dc_term", "reg_m")) and (R.rank < d):
            continue
        rec = []
        def Rec():
            """axes that record the field instead of drawing it"""
            a = plots.axes()
            a.contour = a.contourf = lambda X, Y, Z, *l, **k: rec.append((np.array(X), np.array(Y), np.array(Z)))
            return a
        try:
            one = P.compute_functionals(np.zeros((1, 2)), terms=t)
        except Exception:
            continue
        if isinstance(one, tuple):
            continue
        for mesh in (None, alpha.gen(N * N, 2, 3)):
            rec.clear()
            P.plot_fun_contours(mesh=mesh, terms=t, ax=Rec(), N=N, r=2)
            if not rec:
                c.bump("contour_not_observed"); continue
            X, Y, Z = rec[0]
            if mesh is None:
                c.close(np.unique(X), np.linspace(0, 2, N), "mesh", atol=1e-12); c.close(np.unique(Y), np.linspace(0, 2, N), "mesh", atol=1e-12)
                c.true(len(set(map(tuple, np.stack([X.ravel(), Y.ravel()], 1).tolist()))) == N * N, "mesh points")
            else:
                c.close(np.stack([X.ravel(), Y.ravel()], 1), mesh, "own mesh", atol=0)
            zz = P.compute_functionals(np.stack([X.ravel(), Y.ravel()], 1), terms=t)
            c.close(Z.ravel(), np.ravel(zz), f"field of term {t}", rtol=1e-8, atol=1e-9)
            if t == "data":
                z = A @ np.stack([X.ravel(), Y.ravel()]) + s["b"] - s["y"]
                c.close(Z.ravel(), np.sum(z * np.linalg.solve(s["D"], z), axis=0), "data field", rtol=1e-7, atol=1e-8)
    # chains
    from mud.base import IterativeLinearProblem
    from mud.plot import plotChain, plot_contours
    order = [list(range(d)), list(range(d))[::-1], [0] * 2][case["i"] % 3]
    I = IterativeLinearProblem(A, s["b"], s["y"], mu_i=s["mean"], cov=s["C"], data_cov=s["D"], idx_order=order)
    I.solve(2)
    ax = plots.axes()
    refp = np.array([0.25, -0.75])
    fa = other()
    I.plot_chain(refp, ax=ax, color="m")
    untouched(c, fa, "chain plot")
    segs = [(np.ravel(l.get_xdata()).astype(float), np.ravel(l.get_ydata()).astype(float)) for l in ax.lines if l.get_linestyle() == "-"]
    pts = [q for ch in I.solution_chains for q in ch]
    seen = np.array([[x[-1], y[-1]] for x, y in segs])
    c.close(seen, np.hstack(pts).T, "points of the chain", **tol)
    dots = [l for l in ax.lines if l.get_linestyle() == ":"]
    c.true(len(dots) == len(order), f"{len(dots)} contour lines for rows {order}")
    for l, i in zip(dots, order):
        c.close(A[i] @ np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float), np.full(2, A[i] @ refp), f"contour of row {i} through the reference", rtol=1e-6, atol=1e-7 * sc)
    sct = np.vstack(plots.scatters(ax))
    c.true(any(np.allclose(x, refp) for x in sct), "reference is not marked")
    c.true(any(np.allclose(x, pts[0].ravel()) for x in sct) and any(np.allclose(x, pts[-1].ravel()) for x in sct), "start and end are not marked")
    # the functional forms draw on the current axes
    fig, ax2 = other()
    plotChain(I.solution_chains[0], refp, color="c")
    seen = np.array([[np.ravel(l.get_xdata())[-1], np.ravel(l.get_ydata())[-1]] for l in ax2.lines], float)
    c.close(seen, np.hstack(I.solution_chains[0]).T, "points of the chain (function)", **tol)
    fig, ax2 = other()
    plot_contours(A, refp, subset=None if case["i"] == 0 else order, w=0.5)
    rows = list(range(d)) if case["i"] == 0 else order
    c.true(len(ax2.lines) == len(rows), "one line per row (function)")
    for l, i in zip(ax2.lines, rows):
        q = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float)
        c.close(A[i] @ q, np.full(2, A[i] @ refp), f"contour of row {i} (function)", rtol=1e-6, atol=1e-7 * sc)
        c.close(q.mean(axis=1), refp, "middle of the contour (function)", **tol)
    c.true([t.get_text() for t in ax2.texts] == [str(i + 1) for i in rows], "annotations (function)")

def colour(x):
    from matplotlib.colors import to_rgba
    return to_rgba(x)

class Own:
    """a plot on the axes given, or (none given) on a new figure of its own next to the caller's"""
    def __init__(self, c, given, what):
        self.c, self.what, self.fa = c, what, other()
        self.ax = plots.axes() if given else None
    def get(self):
        import matplotlib.pyplot as plt
        fig, ax = self.fa
        if self.ax is not None:
            untouched(self.c, self.fa, self.what); return self.ax
        new = [n for n in plt.get_fignums() if n != fig.number]
        self.c.true(len(new) == 1 and not ax.lines and not ax.collections and not ax.texts, f"{self.what}: no axes given, figures {plt.get_fignums()}")
        return plt.figure(new[0]).axes[0]

def options(case, c):
    """own options, and no axes given"""
    from mud.base import IterativeLinearProblem
    A = lin.matrix(case); d, v = case["d"], case["v"]; s = lin.settings(case["i"], d, 2)
    R = lin.reference(case, A, s)
    P = lin.build(A, s, 0)
    want = dict(mud=lin.F(R.mud()), map=lin.F(R.map()[0]), ls=lin.F(R.ls()), initial=s["mean"])
    sc = lin.scale_of(*want.values()); tol = dict(rtol=1e-6, atol=1e-7 * sc)
    given = v % 2
    for m in ("initial", "mud", "map", "ls"):
        o = Own(c, given, f"plot_sol {m}")
        kw = [{}, dict(pt_opts={"color": "r", "s": 9.0, "marker": "x"}), dict(ln_opts={"color": "g", "lw": 3.0, "ls": "--"}), dict(ln_opts=None, label="Q", annotate_opts={"fontsize": 7, "color": "m"}), dict(label="a", note_loc=(0.5, -2.0)), dict(label="")][v]
        P.plot_sol(m, ax=o.ax, **kw)
        ax = o.get()
        pts = plots.scatters(ax)
        c.true(len(pts) == 1, "one point"); c.close(pts[0].ravel(), want[m].ravel(), f"plotted {m} point", **tol)
        c.true(len(ax.lines) == int(m != "initial" and v != 3), f"{len(ax.lines)} connecting lines")
        if v == 1:
            col = ax.collections[0]
            c.true(col.get_sizes()[0] == 9.0 and (tuple(col.get_edgecolor()[0]) == colour("r") or tuple(col.get_facecolor()[0]) == colour("r")), "point options")
        if v == 2 and ax.lines:
            l = ax.lines[0]
            c.true(colour(l.get_color()) == colour("g") and l.get_linewidth() == 3.0 and l.get_linestyle() == "--", "line options")
        c.true([t.get_text() for t in ax.texts] == ([kw["label"]] if "label" in kw else []), f"labels {[t.get_text() for t in ax.texts]}")
        if v == 3:
            c.true(ax.texts[0].get_fontsize() == 7 and colour(ax.texts[0].get_color()) == colour("m"), "label options")
            c.close(np.ravel(np.array(ax.texts[0].xy, float)), want[m].ravel(), "label next to its point", rtol=0, atol=0.2 + 1e-6 * sc)
        if v == 4:
            c.close(np.array(ax.texts[0].xy, float), [0.5, -2.0], "place of the label")
    o = Own(c, given, "functional contours")
    P.plot_fun_contours(terms="data", ax=o.ax, N=5, levels=4, colors="r")
    c.true(len(o.get().collections) >= 1, "contours are drawn")
    # contour lines
    kw = [dict(), dict(annotate=True), dict(annotate=True, label="row {i}", annotate_opts={"fontsize": 6}), dict(annotate=False, label="row {i}"),
          dict(annotate=True, note_loc=(0.3, 0.4), plot_opts={"color": "y", "ls": "-."}), dict(plot_opts={"color": "b", "lw": 4.0}, w=2.5)][v]
    for sub in (None, list(range(d))[::-1], [d - 1]):
        o = Own(c, given, "contours")
        P.plot_contours([0.4, -0.3], sub, ax=o.ax, **kw)
        ax = o.get(); rows = list(range(d)) if sub is None else sub
        c.true(len(ax.lines) == len(rows), f"{len(ax.lines)} lines for rows {rows}")
        for l, i in zip(ax.lines, rows):
            q = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float)
            c.close(A[i] @ q, np.full(2, A[i] @ np.array([0.4, -0.3])), f"row {i} along its contour line", rtol=1e-8, atol=1e-8)
            c.close(q.mean(1), [0.4, -0.3], f"middle of the contour line of row {i}", rtol=1e-8, atol=1e-9)
            c.close(np.hypot(*(q[:, 1] - q[:, 0])), 2 * kw.get("w", 1), "length of the contour line", rtol=1e-6)
            if "plot_opts" in kw:
                c.true(colour(l.get_color()) == colour(kw["plot_opts"]["color"]), "contour options")
        c.true([t.get_text() for t in ax.texts] == ([kw.get("label", "{i}").format(i=i + 1) for i in rows] if kw.get("annotate") else []), f"annotations {[t.get_text() for t in ax.texts]}")
        for t, l in zip(ax.texts, ax.lines):
            if v == 4:
                c.close(np.array(t.xy, float), [0.3, 0.4], "place of the annotation")
            else:
                e = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float).T; at = np.ravel(np.array(t.xy, float))
                c.true(min(np.abs(e - at).max(1)) < 1e-9, f"annotation at {at.tolist()}, its line ends at {e.tolist()}")
            if v == 2:
                c.true(t.get_fontsize() == 6, "annotation options")
    # chains and their errors
    order = [list(range(d)), list(range(d))[::-1], [d - 1], [0] * 3][case["i"]]
    I = IterativeLinearProblem(A, s["b"], s["y"], mu_i=s["mean"], cov=s["C"], data_cov=s["D"], idx_order=order)
    for ep in (1, 2):
        I.solve(ep)
        refp = np.array([[0.25], [-0.75]]) if v % 3 else np.array([0.25, -0.75])
        o = Own(c, given, "chain")
        kw = [{}, dict(s=17), dict(color="m", annotate=True), dict(annotate=True, label="L{i}"), dict(w=0.25), dict(color="#112233", s=3)][v]
        I.plot_chain(refp, ax=o.ax, **kw); ax = o.get()
        solid = [l for l in ax.lines if l.get_linestyle() == "-"]; dots = [l for l in ax.lines if l.get_linestyle() == ":"]
        chains = I.solution_chains
        pts = [q for ch in chains for q in ch]; steps = [q for ch in chains for q in ch[1:]]
        seen = np.array([[np.ravel(l.get_xdata())[-1], np.ravel(l.get_ydata())[-1]] for l in solid], float)
        c.close(seen, np.hstack(pts).T, "points of the chain", **tol)
        prev = None
        for l, q in zip(solid, pts):
            st_ = np.array([np.ravel(l.get_xdata())[0], np.ravel(l.get_ydata())[0]], float)
            if prev is not None:
                c.true(np.allclose(st_, prev, **tol) or np.allclose(st_, q.ravel(), **tol), "a step does not start at the point before")
            prev = q.ravel()
        want_col = colour(kw.get("color", "k"))
        c.true(all(colour(l.get_color()) == want_col for l in solid + dots), "colour of the chain")
        c.true(len(dots) == len(order), f"{len(dots)} contour lines for rows {order}")
        for l, i in zip(dots, order):
            q = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float)
            c.close(A[i] @ q, np.full(2, A[i] @ refp.ravel()), f"contour of row {i} through the reference", rtol=1e-6, atol=1e-7 * sc)
            c.close(np.hypot(*(q[:, 1] - q[:, 0])), 2 * kw.get("w", 1), "length of the contour line", rtol=1e-6)
        c.true([t.get_text() for t in ax.texts] == ([kw.get("label", "{i}").format(i=i + 1) for i in order] if kw.get("annotate") else []), "annotations of the chain")
        if "s" in kw:
            c.true(all(q.get_sizes()[0] == kw["s"] for q in ax.collections), "size of the points")
        sct = np.vstack(plots.scatters(ax))
        c.true(all(any(np.allclose(x, q, **tol) for x in sct) for q in (refp.ravel(), pts[0].ravel(), pts[-1].ravel())), "start, end and reference are marked")
        o = Own(c, given, "chain error")
        kw = [{}, dict(alpha=0.25), dict(color="m"), dict(label="err"), dict(fontsize=5), dict(color="g", alpha=0.5, label="e", fontsize=20)][v]
        I.plot_chain_error(refp, ax=o.ax, **kw); ax = o.get()
        c.true(len(ax.lines) == 1, "one error curve")
        l = ax.lines[0]
        c.close(np.asarray(l.get_ydata(), float).ravel(), [np.linalg.norm(q.ravel() - refp.ravel()) for q in steps], "plotted errors", rtol=1e-7, atol=1e-8 * sc)
        c.close(np.asarray(l.get_xdata(), float).ravel(), np.arange(len(steps)), "steps of the plotted errors")
        c.true(ax.get_yscale() == "log", "errors are on a logarithmic scale")
        c.true(colour(l.get_color()) == colour(kw.get("color", "k")) and (l.get_alpha() in (None, 1.0) if "alpha" not in kw else l.get_alpha() == kw["alpha"]), "options of the error curve")
        if "label" in kw:
            c.true(l.get_label() == kw["label"], "label of the error curve")
        c.true(bool(ax.get_xlabel()) and bool(ax.get_ylabel()), "the axes of the error curve are named")
        if "fontsize" in kw:
            c.true(ax.xaxis.label.get_fontsize() == kw["fontsize"] and ax.yaxis.label.get_fontsize() == kw["fontsize"], "size of the axis names")

def functions(v, d, c):
    """the plotting functions with own options, on the current axes and with defaults"""
    import matplotlib.pyplot as plt
    from mud import plot as L
    A = 4 * alpha.gen(d, 2, 3 + v) - 2; ref_ = np.array([0.75, -1.5])
    chain = [q.reshape(2, 1) for q in 3 * alpha.gen(d + 1, 2, 5) - 1]
    fig, ax = other()
    kw = [{}, dict(s=7), dict(color="m"), dict(color="#0a141e", s=3), {}, dict(s=250), {}, dict(color="y")][v]
    L.plotChain(chain, ref_ if v % 2 else ref_.reshape(2, 1), **kw)
    c.true(plt.get_fignums() == [fig.number] and fig.axes == [ax], "the chain goes onto the current axes")
    segs = [np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float) for l in ax.lines]
    c.close(np.array([q[:, -1] for q in segs]), np.hstack(chain).T, "points of the chain")
    for a, q in zip(chain, segs[1:]):
        c.close(q[:, 0], a.ravel(), "a step starts at the point before")
    c.true(all(colour(l.get_color()) == colour(kw.get("color", "k")) for l in ax.lines), "colour of the chain")
    sct = np.vstack(plots.scatters(ax))
    c.true(any(np.allclose(x, ref_) for x in sct) and any(np.allclose(x, chain[0].ravel()) for x in sct), "start and reference are marked")
    if "s" in kw:
        c.true(all(q.get_sizes()[0] == kw["s"] for q in ax.collections), "size of the points")
    fig, ax = other()
    kw = [{}, dict(color="g"), dict(ls="--"), dict(lw=5.0), dict(fs=6), dict(alpha=0.25), dict(w=4), dict(subset=[d - 1, 0], color="r", ls="-", lw=2.0, fs=9, w=0.5, label="x")][v]
    L.plot_contours(A, ref_, **kw)
    rows = kw.get("subset", list(range(d)))
    c.true(len(ax.lines) == len(rows) and [t.get_text() for t in ax.texts] == [str(i + 1) for i in rows], f"{len(ax.lines)} contour lines for rows {rows}")
    for l, t, i in zip(ax.lines, ax.texts, rows):
        q = np.array([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())], float)
        c.close(A[i] @ q, np.full(2, A[i] @ ref_), f"row {i} along its contour line", rtol=1e-8, atol=1e-9); c.close(q.mean(1), ref_, "middle", rtol=1e-9, atol=1e-9)
        c.close(np.hypot(*(q[:, 1] - q[:, 0])), 2 * kw.get("w", 1), "length of the contour line", rtol=1e-9)
        c.true(min(np.abs(q.T - np.ravel(np.array(t.xy, float))).max(1)) < 1e-9, "annotation at an end of its line")
        c.true(colour(l.get_color())[:3] == colour(kw.get("color", "k"))[:3] and l.get_linestyle() == kw.get("ls", ":") and l.get_linewidth() == kw.get("lw", 1), "options of the contour lines")
        c.true("fs" not in kw or t.get_fontsize() == kw["fs"], "size of the annotations")
        c.true("alpha" not in kw or l.get_alpha() == 0.25, "further options of the contour lines"); c.true("label" not in kw or l.get_label() == "x", "label of the contour lines")
    # vectors of different lengths, further options
    vs = [2 * alpha.gen(1, 1 + (i * 3 + v) % (d + 3), i + 1).ravel() - 1 for i in range(d)]
    vs = vs if v % 2 else [q.tolist() for q in vs]
    o = Own(c, v % 3 == 0, "vectors")
    kw = [{}, dict(s=4.0), dict(color="c"), dict(label=False), dict(markers=list("ox^sv<>dp")[:d]), dict(alpha=0.5), dict(zorder=7), dict(label=True, color="r")][v]
    got = L.plot_1D_vecs(vs, ax=o.ax, **kw); ax = o.get()
    c.true(got is ax, "axes are returned")
    pts = plots.scatters(ax)
    c.true(len(pts) == d, f"{len(pts)} vectors of {d}")
    for q, x in zip(pts, vs):
        c.close(q, np.stack([np.arange(len(x)), x], 1), "a vector against its index")
    c.true((ax.get_legend() is not None) == kw.get("label", True), "legend"); c.true(bool(ax.get_xlabel()) == kw.get("label", True) and bool(ax.get_ylabel()) == kw.get("label", True), "axis names")
    if kw.get("label", True):
        c.true([t.get_text() for t in ax.get_legend().get_texts()] == [f"$p^{{({i + 1})}}$" for i in range(d)], "legend names the vectors")
    for q in ax.collections:
        c.true(("s" not in kw or q.get_sizes()[0] == 4.0) and ("color" not in kw or tuple(q.get_facecolor()[0]) == colour(kw["color"])) and ("alpha" not in kw or q.get_alpha() == 0.5) and ("zorder" not in kw or q.get_zorder() == 7), "options of the vectors")
    # distributions with everything left out
    p = min(d, 2)
    X = alpha.gen(12, p, 2); w = 1.0 + np.arange(12) % 3
    from scipy.stats import gaussian_kde, distributions as ds
    dom = [[-0.5, 1.5], [-0.25, 1.0]][:p]
    o = Own(c, v % 2, "distribution")
    if v < 4:
        got = L.plot_dist(gaussian_kde(X.T, weights=w), dom if v % 2 else np.array(dom), ax=o.ax); f = lambda g: ref.kde(X, g, w)
    else:
        got = L.plot_dist(ds.norm(loc=[0.2, 0.5][:p], scale=[0.5, 0.25][:p]), dom, ax=o.ax, source="pdf"); f = lambda g: ref.norm_pdf(g, np.array([0.2, 0.5][:p]), np.array([0.5, 0.25][:p])).prod(1)
    ax = o.get(); c.true(got is ax and len(ax.lines) == 1, "one curve on the axes returned")
    x, y = plots.lines(ax)[0]
    c.close(x, np.linspace(*dom[0], 100)[:-1], "abscissae of the default curve")
    axs = [np.linspace(a, b, 100)[:-1] for a, b in dom]
    g = np.stack([m_.ravel() for m_ in np.meshgrid(*axs, indexing="ij")], 1)
    wy = f(g).reshape([99] * p); wy = wy.sum(1) if p == 2 else wy
    c.close(y, wy / (wy.sum() * (x[1] - x[0])), "default curve", rtol=1e-6, atol=1e-9)
    for bad in ("gkde", "", None, "PDF"):
        c.raises(lambda: L.plot_dist(gaussian_kde(X.T), dom, ax=plots.axes(), source=bad), f"source {bad!r}", ValueError)
    # the default folder of figures
    os.makedirs("figures", exist_ok=True)
    plt.close("all"); f1, a1 = plt.subplots(figsize=(1, 1))
    name = f"d{v}.png"
    L.save_figure(name)
    c.true(os.listdir("figures") == [name] and not plt.get_fignums(), f"files {os.listdir('figures')}, figures {plt.get_fignums()}")
    os.remove(os.path.join("figures", name))

def zero(case, c):
    """contour lines of maps some of whose rows may be zero: those of the other rows stay level lines, in their place"""
    from mud.base import LinearGaussianProblem
    from mud.plot import plot_contours
    d = case["d"]; A = np.array(case["zero"], float).reshape(d, 2)
    P = LinearGaussianProblem(A, y=np.ones((d, 1)))
    for sub in [None] + [list(o) for r in range(1, d + 1) for o in itertools.permutations(range(d), r)]:
        rows = list(range(d)) if sub is None else sub
        for r in ([0.25, -0.75], [2.0, 1.0]):
            fa = other(); ax = plots.axes()
            P.plot_contours(r, sub, ax=ax)
            untouched(c, fa, "contours")
            fig, ax2 = other()
            plot_contours(A, np.array(r), subset=sub)
            for ln, how in ((plots.lines(ax), "method"), (plots.lines(ax2), "function")):
                c.true(len(ln) == len(rows), f"{len(ln)} lines for rows {rows} of {A.tolist()} ({how})")
                for (x, y), i in zip(ln, rows):
                    q = np.array([np.ravel(x), np.ravel(y)], float)
                    c.close(A[i] @ q, np.full(2, A[i] @ r), f"row {i} of {A.tolist()} along its contour line ({how}, rows {rows})", rtol=1e-9, atol=1e-9)
                    c.close(q.mean(axis=1), r, f"middle of the contour line of row {i} of {A.tolist()} ({how})", rtol=1e-9, atol=1e-9)


def series(case, c):
    n, S, T = case["ts"]; s = case["s"]
    lam = alpha.gen(n, 2, 1); data, meas = st.coded(n, S, T), st.coded_meas(S, T)
    P = st.problem(lam, data, S, T, 2, meas, s % 3)
    fa = other()
    for ms, mt in itertools.product([None, ["l", [0]], ["l", list(range(n))[::-1]], ["b", [1] * n]], st.masks(T, 2) if T < 4 else st.big(T)):
        for mp in (100, 1, 2):
            if mt is not None and mt[0] == "i":
                continue
            im, it = st.idx(ms, n), st.idx(mt, T)
            ax = plots.axes(); mk = {"s": 5, "color": "b"}; sk = {"color": "g"}
            k0 = forms.snapshot([mk, sk])
            kw = dict(meas_kwargs=mk, samples_kwargs=sk) if mp == 2 else {}
            P.plot_ts(ax=ax, samples=st.mask(ms), times=st.mask(mt), sensor_idx=s, max_plot=mp, **kw)
            c.true(forms.same([mk, sk], k0), "options modified")
            if mp == 2:
                q = ax.collections[0]
                c.true(q.get_sizes()[0] == 5 and tuple(q.get_facecolor()[0]) == colour("b"), "options of the measurements")
                c.true(all(colour(l.get_color())[:3] == colour("g")[:3] for l in ax.lines[:-1]), "options of the series")
            pts = plots.scatters(ax)
            c.true(len(pts) == 1, "one set of measurements")
            c.close(pts[0], np.array([[st.times(T)[t], meas[s, t]] for t in it]), f"measured series of sensor {s}")
            ok = [[data[i, s, t] for t in it] for i in im]
            ln = [(np.ravel(l.get_xdata()).astype(float), np.ravel(l.get_ydata()).astype(float)) for l in ax.lines]
            c.true(len(ln) == min(mp, len(im)), f"{len(ln)} series drawn of {len(im)}, at most {mp}")
            for x, y in ln:
                c.close(x, st.times(T)[it], "times of a series")
                c.true(y.tolist() in ok, f"series {y.tolist()} is none of sensor {s}: {ok}")
            seen = sorted(y.tolist() for _, y in ln)
            for y in seen:
                c.true(seen.count(y) <= ok.count(y), f"series {y} is drawn {seen.count(y)} times, sensor {s} has it {ok.count(y)} times")
    untouched(c, fa, "time series")
    o = Own(c, 0, "time series")
    got = P.plot_ts(sensor_idx=s); ax = o.get()
    c.true(got is ax and len(ax.lines) == min(n, 100), f"{len(ax.lines)} series on the axes returned")
    c.close(plots.scatters(ax)[0], np.array([[st.times(T)[t], meas[s, t]] for t in range(T)]), f"measured series of sensor {s}")
    for l in ax.lines:
        c.true(np.ravel(l.get_ydata()).tolist() in data[:, s, :].tolist(), f"a series is none of sensor {s}")

def sens(case, c):
    S, m = case["sens"], case["m"]
    ix = st.idx(m, S)
    pos = np.array([[0.0, 0.0], [1.0, 0.1], [0.2, 1.3], [1.1, 1.2], [0.6, 2.0]])[:S] if S < 6 else 3 * alpha.gen(S, 2, 7)
    data = st.coded(3, S, 1)
    P = st.problem(alpha.gen(3, 2, 1), data, S, 1, 2, None, 0)
    P.sensors = pos.copy()
    fa = other()
    ax = plots.axes()
    r = P.sensor_scatter_plot(ax=ax, mask=st.mask(m), s=3) if m is not None else P.sensor_scatter_plot(ax=ax, s=3)
    c.true(r is ax, "given axes are returned")
    pts = plots.scatters(ax)
    c.close(pts[0], pos[ix], "plotted sensors")
    untouched(c, fa, "sensor plot")
    for cb in (None, False, True):
        from matplotlib.figure import Figure
        vals = 2.0 + np.arange(len(ix)) ** 2
        for kw in (dict(c=vals, s=11.0, cmap="plasma"), dict(s=11.0, color="r", marker="^")):
            fig = Figure(); a1, a2 = fig.subplots(1, 2)
            r = P.sensor_scatter_plot(ax=a1, mask=st.mask(m), colorbar=cb, **kw)
            c.true(r is a1 and not a2.collections, "sensor plot on other axes")
            q = a1.collections[0]
            c.close(np.asarray(q.get_offsets()), pos[ix], "plotted sensors"); c.true(q.get_sizes()[0] == 11.0, "sizes are passed on")
            if "c" in kw:
                c.close(np.asarray(q.get_array()), vals, "values of the sensors"); c.true(q.get_cmap().name == "plasma", "options are passed on")
            c.true(len(fig.axes) == (3 if cb and "c" in kw else 2), f"{len(fig.axes)} axes, colour bar {cb} {sorted(kw)}")
    untouched(c, fa, "sensor plot")
    if len(set(ix)) == len(ix) and len(ix) >= 3:
        for fill, cb, idx, cv in itertools.product((True, False), (False, True), (0, 2), (None, 1)):
            rec = []
            from matplotlib.figure import Figure
            axr = Figure().subplots()
            name = "tricontourf" if fill else "tricontour"
            orig = getattr(axr, name)
            setattr(axr, name, lambda x, y, z, **k: (rec.append((np.array(x), np.array(y), np.array(z), k)), orig(x, y, z, **k))[1])
            vals = None if cv is None else 5.0 + np.arange(len(ix)) ** 2
            P.sensor_contour_plot(idx=idx, c_vals=vals, ax=axr, mask=st.mask(m), fill=fill, colorbar=cb, **(dict(cmap="plasma", levels=3) if idx else {}))
            if not rec:
                c.bump("contour_not_observed"); continue
            x, y, z, ko = rec[0]
            c.true(not idx or (ko.get("cmap") == "plasma" and ko.get("levels") == 3), f"contour options are passed on: {ko}")
            c.close(np.stack([x, y], 1), pos[ix], "contoured sensors")
            c.close(z, data[idx][ix, 0] if cv is None else vals, "contoured values")
            c.true(len(axr.figure.axes) == (2 if cb else 1), "colour bar")
            untouched(c, fa, "sensor contours")
        for fill in (True, False):
            o = Own(c, 0, "sensor contours")
            got = P.sensor_contour_plot(idx=1, mask=st.mask(m), fill=fill, colorbar=False)
            c.true(got is o.get(), "the axes drawn on are returned")
    o = Own(c, 0, "sensor plot")
    got = P.sensor_scatter_plot(mask=st.mask(m)); ax = o.get()
    c.true(got is ax, "the axes drawn on are returned"); c.close(plots.scatters(ax)[0], pos[ix], "plotted sensors")

def vecs(case, c):
    from mud.plot import plot_1D_vecs, plot_vert_line
    from matplotlib.figure import Figure
    n, k = case["vecs"], case["k"]
    V = alpha.gen(n, 3 + k, 2)
    fa = other()
    ax = plots.axes()
    r = plot_1D_vecs(V, markers=list("ox^s*PvDd<>hH8p")[:n] if k % 2 else None, ax=ax, label=k < 2)
    c.true(r is ax, "axes")
    pts = plots.scatters(ax)
    c.true(len(pts) == n, f"{len(pts)} vectors")
    for i, p in enumerate(pts):
        c.close(p, np.stack([np.arange(3 + k), V[i]], 1), f"vector {i}")
    marks = [tuple(map(tuple, np.round(s.get_paths()[0].vertices, 6).tolist())) for s in ax.collections]
    alone = []
    for i in range(n):
        a2 = Figure().subplots(); a2.scatter([0], [0], **(dict(marker="ox^s*PvDd<>hH8p"[i]) if k % 2 else {}))
        alone.append(tuple(map(tuple, np.round(a2.collections[0].get_paths()[0].vertices, 6).tolist())))
    c.true(marks == alone, "markers of the vectors")
    c.true([s.get_label() for s in ax.collections] == [f"$p^{{({i + 1})}}$" for i in range(n)], "labels")
    untouched(c, fa, "vectors")
    ax = plots.axes(); ax.set_ylim(-1.0, 4.0)
    plot_vert_line(ax, 0.25 * k, ylim=None if n % 2 else 7.5, color="r")
    x, y = plots.lines(ax)[0]
    c.close(x, [0.25 * k] * 2, "place of the vertical line"); c.close(y, [-1.0, 4.0 if n % 2 else 7.5], "extent of the vertical line")
    c.close(ax.get_ylim(), [-1.0, 4.0 if n % 2 else 7.5], "axis limits")

def save(case, c):
    import matplotlib.pyplot as plt
    from mud.plot import save_figure
    i = case["save"]
    os.makedirs("figs/sub", exist_ok=True)
    plt.close("all")
    f1, _ = plt.subplots(figsize=(1, 1)); f2, _ = plt.subplots(figsize=(2, 1))
    path = ["figs", "figs/sub", os.path.abspath("figs")][i % 3]
    name = f"f{i}." + ["png", "svg"][i % 2]
    before = set(os.listdir(path))
    if i % 4 == 3:
        save_figure(name, path, False); left = 2
    elif i % 4 == 2:
        save_figure(name, path, close_fig=False, dpi=50); left = 2
    else:
        save_figure(name, save_path=path); left = 1
    c.true(set(os.listdir(path)) - before == {name}, f"files written: {set(os.listdir(path)) - before}")
    c.true(os.path.getsize(os.path.join(path, name)) > 50, "empty figure")
    c.true(plt.get_fignums() == [f1.number, f2.number][:left], f"open figures {plt.get_fignums()}")
    os.remove(os.path.join(path, name))
    # the name may have a folder of its own
    plt.close("all"); plt.figure(figsize=(1, 1))
    save_figure(f"sub/{name}", "figs")
    c.true(os.listdir("figs/sub") == [name] and os.listdir("figs") == ["sub"], f"files {os.listdir('figs')} and {os.listdir('figs/sub')} for sub/{name}")
    os.remove(os.path.join("figs/sub", name))
    plt.close("all")
