RULE = """All operation sequences over one DensityProblem: set_weights (ones / linear / stacked / with zeros /
normalised / wrong length, which must be refused), set_initial (default / normal / uniform), set_observed (default / normal /
uniform), set_predicted (kernel default / bandwidth 0.5 / given density / with new weights), fit, fit with a
bandwidth, estimate, expected_ratio, plot_param_space, plot_obs_space - every sequence to depth 4 on a 1x1 problem
3 on a 2x2 problem and 2 on a 4x1, a 130-sample and two problems in small and large units without merging, to depth 3 on one where every setting is made with
one and the same object whose parameters or contents have changed, and breadth first with states merged on the complete attribute values of the
object to depth 4 (8 thorough). Settings made before the initial density is set follow the documented precondition. After every sequence the estimate, expected ratio, updated values and plotted updated curve must be
those of a reference and of a new problem given only the settings in force; the domain and samples must be unchanged."""
CASE_LIMIT = 3600
import collections, itertools
import numpy as np
from mc import ref, alpha, plots, core

P = {0: dict(n=5, p=1, k=1, v="generic"), 1: dict(n=7, p=2, k=2, v="generic"), 2: dict(n=4, p=4, k=1, v="generic"), 3: dict(n=130, p=1, k=3, v="generic"),
     4: dict(n=5, p=1, k=1, unit=(40, -35)), 5: dict(n=6, p=2, k=1, unit=(-35, 40)),
     6: dict(n=5, p=1, k=1, shared=True)}
OPS = ["w0", "w1", "w2", "w3", "w4", "wbad", "i0", "i1", "i2", "o0", "o1", "o2", "q0", "q1", "q2", "q3",
       "fit", "fitbw", "est", "er", "plotp", "ploto"]
_C = {}

class Moving:
    """one distribution object whose parameters the caller changes before setting it again"""
    def __init__(self):
        self.d = None
    def now(self, d):
        self.d = d
        return self
    def pdf(self, x, *a, **k):
        return self.d.pdf(x, *a, **k)
    def logpdf(self, x, *a, **k):
        return self.d.logpdf(x, *a, **k)

def given(s, role, what):
    """what the caller passes: a new object, or (shared) the one object of that role with new contents"""
    if "hold" not in s or what is None:
        return what
    h = s["hold"]
    if role == "w":
        a = np.array(what, float)
        h.setdefault(("w", a.ndim), np.zeros(a.shape))[...] = a
        return h["w", a.ndim]
    return h.setdefault(role, Moving()).now(what)

def setup(pi):
    if pi in _C:
        return _C[pi]
    X, y = alpha.samples(P[pi]["n"], P[pi]["p"], P[pi]["k"], "generic")
    n = len(X); u, v = P[pi].get("unit", (0, 0))
    ws = [None, [float(i + 1) for i in range(n)], [[float(i + 1) for i in range(n)], [3.0, 1.0] * (n // 2) + [2.0] * (n % 2)],
          [0.0 if i == 2 else 1.0 + 0.5 * i for i in range(n)]]
    ws.append(None)          # 4: the weights wn, normalised
    wn = np.array([float(2 * n - i) if i % 2 else 1.0 for i in range(n)])
    ws[4] = (wn / np.linalg.norm(wn)).tolist()
    ia = alpha.init_alphabet(X, None); oa = alpha.obs_alphabet(y)
    mk = lambda spec, e: alpha.mkdist(alpha.unit_spec(spec, e))
    ins = [None, mk(ia[1], u), mk(ia[2], u)]
    obs = [None, mk(oa[1], v), mk(oa[3], v)]
    pq = mk(alpha.pred_alphabet(y)[5], v)
    X, y = np.ldexp(X, u), np.ldexp(y, v)
    dom = ref.domain_of(X, 0.3)
    s = dict(X=X, y=y, n=n, dom=dom, ws=ws, wn=wn.tolist(), ins=ins, obs=obs, pq=pq,
             sins=[None if d is None else d.scipy() for d in ins],
             sobs=[None if d is None else d.scipy() for d in obs], spq=pq.scipy(), wq=[1.0 / (i + 1) for i in range(n)],
             cache={}, fresh={})
    if P[pi].get("shared"):
        s["hold"] = {}
    _C[pi] = s
    return s

# settings: (w, i, o, q): w in 0..3 or 'q'; i, o: 0 = default or unset; q: None (default), 'bw', 'dist'
# plus whether initial / observed have ever been set (needed by the plots) and whether predicted is fixed
def start():
    return dict(w=0, i=0, o=0, q=None, iset=False, oset=False, qfix=False)

def enabled(op, m):
    if op == "fitbw":
        return not m["qfix"]
    if op == "plotp":
        return m["iset"]
    if op == "ploto":
        return m["oset"]
    if op in ("q1", "q2", "q3"):
        return m["iset"]        # documented precondition: the initial density is set first
    return True

def model(op, m):
    m = dict(m)
    ask = op in ("fit", "est", "er", "fitbw")
    if op == "fitbw":
        m["q"] = "silverman"
    if op[0] == "w" and op != "wbad":
        m.update(w=int(op[1]), q=None, qfix=False)
    elif op in ("i0", "i1", "i2"):
        m.update(i=int(op[1]), iset=True, q=None, qfix=False)
    elif op in ("o0", "o1", "o2"):
        m.update(o=int(op[1]), oset=True)
    elif op[0] == "q":
        m.update(q={"0": None, "1": 0.5, "2": "dist", "3": 0.7}[op[1]], qfix=True)
        if op == "q3":
            m["w"] = "q"
    elif ask or op in ("plotp", "ploto"):
        m.update(iset=True, oset=True, qfix=True)
    return m

def weights(s, m):
    return s["wq"] if m["w"] == "q" else s["ws"][m["w"]]

def expect(pi, m):
    s = setup(pi)
    key = (m["w"], m["i"], m["o"], m["q"])
    if key not in s["cache"]:
        w = ref.combine(weights(s, m), s["n"])
        pr = s["pq"].joint if m["q"] == "dist" else ("kde", m["q"])
        d = ref.density(s["X"], s["y"], w, None if m["i"] == 0 else s["ins"][m["i"]].joint,
                        None if m["o"] == 0 else s["obs"][m["o"]].joint, pr, s["dom"])
        d["best"] = ref.argmax_set(d["up"], 1e-9)
        d["er"] = float(np.sum(w * d["r"]) / np.sum(w))
        s["cache"][key] = d
    return s["cache"][key]

def build(pi, m):
    from mud.base import DensityProblem
    s = setup(pi)
    D = DensityProblem(s["X"].copy(), s["y"].copy(), s["dom"].copy(), weights=weights(s, m))
    D.set_initial(s["sins"][m["i"]]) if m["i"] else D.set_initial()
    if m["q"] == "dist":
        D.set_predicted(s["spq"])
    else:
        D.set_predicted(bw_method=m["q"])
    D.set_observed(s["sobs"][m["o"]]) if m["o"] else D.set_observed()
    return D

def curve(D, which):
    ax = plots.axes()
    if which in "PO":           # everything drawn: all curves, the estimate, a true value, an own range
        rg = [[float(a) - 1, float(b) + 1] for a, b in (D.domain if which == "P" else ref.domain_of(D.y, 0.1))]
        if which == "P":
            D.plot_param_space(0, ax=ax, aff=6, x_range=np.array(rg), in_opts={"color": "b"}, win_opts={}, up_opts={"label": "it"}, true_val=[1.0] * len(rg))
        else:
            D.plot_obs_space(0, ax=ax, aff=6, y_range=rg, pf_opts={"label": "it"})
        return plots.labelled(ax, "it")[0]
    if which == "p":
        D.plot_param_space(0, ax=ax, aff=6, in_opts=None, mud_opts=None)
        cs = plots.curves(ax)
        return cs[0] if cs else None
    D.plot_obs_space(0, ax=ax, aff=6, ob_opts=None, pr_opts={})
    cs = plots.curves(ax)
    return cs[-1] if cs else None

def fresh_curve(pi, m, which):
    s = setup(pi)
    key = (m["w"], m["i"], m["o"], m["q"], which)
    if key not in s["fresh"]:
        D = build(pi, m); D.estimate()
        s["fresh"][key] = curve(D, which)
    return s["fresh"][key]

def plottable(pi, m):
    e = expect(pi, m); s = setup(pi)
    return ref.kde_ok(s["X"], e["r"] * ref.combine(weights(s, m), s["n"])) and \
        ref.kde_ok(s["y"], e["r"] * ref.combine(weights(s, m), s["n"]))

def apply(D, op, pi, c, m):
    """run one operation; m is the settings before it; answers are compared at once"""
    s = setup(pi)
    if op == "wbad":
        c.raises(lambda: D.set_weights([1.0] * (s["n"] + 1)), "weights of the wrong length")
        for bad in ([2.0], [1.0] * (s["n"] + 1), [[1.0] * (s["n"] - 1)] * 2, []):
            c.raises(lambda: D.set_weights(bad), f"{np.shape(bad)} weights for {s['n']} samples")
            c.raises(lambda: D.set_predicted(weights=bad), f"new predicted density with {np.shape(bad)} weights for {s['n']} samples")
            c.raises(lambda: D.set_predicted(s["spq"], weights=bad), f"given predicted density with {np.shape(bad)} weights for {s['n']} samples")
    elif op == "w4":
        D.set_weights(given(s, "w", s["wn"]), normalize=True)
    elif op[0] == "w":
        D.set_weights(given(s, "w", s["ws"][int(op[1])]))
    elif op in ("i0", "i1", "i2"):
        D.set_initial() if op == "i0" else D.set_initial(given(s, "i", s["sins"][int(op[1])]))
    elif op in ("o0", "o1", "o2"):
        D.set_observed() if op == "o0" else D.set_observed(given(s, "o", s["sobs"][int(op[1])]))
    elif op == "q0":
        D.set_predicted()
    elif op == "q1":
        D.set_predicted(bw_method=0.5)
    elif op == "q2":
        D.set_predicted(given(s, "q", s["spq"]))
    elif op == "q3":
        D.set_predicted(bw_method=0.7, weights=given(s, "w", s["wq"]))
    elif op == "fit":
        D.fit()
    elif op == "fitbw":
        D.fit(bw_method="silverman")
    c.op()
    m2 = model(op, m)
    if op in ("est", "fit", "fitbw"):
        answer(D, pi, m2, c, "est")
    elif op == "er":
        answer(D, pi, m2, c, "er")
    elif op in ("plotp", "ploto") and plottable(pi, m2):
        answer(D, pi, m2, c, op[-1])
    return m2

def answer(D, pi, m, c, what):
    s = setup(pi); e = expect(pi, m)
    if what == "est":
        pt = D.estimate()
        c.true(alpha.is_row(pt, s["X"], e["best"]), f"estimate {np.asarray(pt).tolist()} under {m}: updated density {e['up'].tolist()}")
        up = alpha.updated_values(D)
        if up is not None:
            c.close(up, e["up"], f"updated density under {m}", rtol=1e-6, atol=1e-12)
    elif what == "er":
        c.close(D.expected_ratio(), e["er"], f"expected ratio under {m}", rtol=1e-6)
    else:
        got = curve(D, what); want = fresh_curve(pi, m, what)
        c.true(got is not None and want is not None, "no updated curve drawn")
        c.close(got[0], want[0], f"plot range ({what}) under {m}", rtol=1e-9)
        c.close(got[1], want[1], f"plotted updated curve ({what}) under {m}", rtol=1e-5, atol=1e-8)

def check_all(D, pi, m, c, deep):
    s = setup(pi)
    answer(D, pi, m, c, "er")
    m = model("er", m)
    answer(D, pi, m, c, "est")
    if deep and plottable(pi, m):
        for what in ("P", "p", "O", "o", "P", "est", "er") if len(s["X"][0]) < 4 else ("p", "o", "est", "er"):
            answer(D, pi, m, c, what)
    c.close(D.domain, s["dom"], "domain after the history", rtol=0, atol=0)
    c.close(D.X, s["X"], "samples after the history", rtol=0, atol=0)
    c.close(D.y, s["y"], "outputs after the history", rtol=0, atol=0)

def new(pi):
    from mud.base import DensityProblem
    s = setup(pi)
    return DensityProblem(s["X"].copy(), s["y"].copy(), s["dom"].copy())

def cases(tier):
    yield dict(bfs=0, depth=4 if tier == "quick" else 8)
    yield dict(bfs=1, depth=4 if tier == "quick" else 8)
    d0, d1 = (4, 3) if tier == "quick" else (5, 4)
    for d in range(0, d0 + 1):
        for h in itertools.product(range(len(OPS)), repeat=max(0, d - 2)):
            yield dict(pi=0, pre=list(h), tail=min(d, 2))
            if d <= 3:
                yield dict(pi=6, pre=list(h), tail=min(d, 2))
            if d <= d1:
                yield dict(pi=1, pre=list(h), tail=min(d, 2))
            if d <= d1 - 1:
                yield dict(pi=2, pre=list(h), tail=min(d, 2))
                for pi in (3, 4, 5):
                    yield dict(pi=pi, pre=list(h), tail=min(d, 2))

def fingerprint(D):
    out = []
    for k in sorted(vars(D)):
        v = vars(D)[k]
        if v is None or isinstance(v, (int, float, str, bool, np.ndarray)):
            out.append((k, v))
        elif hasattr(v, "dataset"):
            out.append((k, "kde", np.asarray(v.dataset), np.asarray(v.weights), float(v.factor)))
        elif hasattr(v, "kwds") and hasattr(v, "dist"):
            out.append((k, v.dist.name, [np.asarray(a) for a in v.args], {a: np.asarray(b) for a, b in v.kwds.items()}))
        else:
            out.append((k, repr(v)))
    return core.digest(out)

def replay(pi, hist, c):
    D = new(pi); m = start()
    quiet = core.Ctx()
    for op in hist:
        m = apply(D, op, pi, quiet, m)
    return D, m

def run(case, c):
    if "bfs" in case:
        pi = case["bfs"]
        D = new(pi)
        key = lambda D, m: (fingerprint(D), tuple(sorted((k, str(v)) for k, v in m.items())))
        seen = {key(D, start())}; frontier = collections.deque([()])
        while frontier:
            h = frontier.popleft()
            _, m = replay(pi, h, c)
            for op in OPS:
                if not enabled(op, m):
                    continue
                D, _ = replay(pi, h, c)
                try:
                    m2 = apply(D, op, pi, c, m)
                    k = key(D, m2)
                    if k in seen:
                        continue
                    seen.add(k)
                    check_all(D, pi, m2, c, len(h) < 5)
                except core.Violation as e:
                    raise core.Violation(f"after {list(h) + [op]}: {e}")
                if len(h) + 1 < case["depth"]:
                    frontier.append(h + (op,))
        c.bump("bfs_states", len(seen))
        for k in seen:
            c.shared_state(k)
        return
    pi = case["pi"]
    for t in itertools.product(range(len(OPS)), repeat=case["tail"]):
        h = [OPS[i] for i in case["pre"]] + [OPS[i] for i in t]
        D = new(pi); m = start(); ok = True
        try:
            for op in h:
                if not enabled(op, m):
                    ok = False
                    break
                m = apply(D, op, pi, c, m)
            if not ok:
                c.bump("disabled_sequences"); continue
            check_all(D, pi, m, c, len(h) <= 2 or (len(h) == 3 and h[-1][0] in "wioq"))
        except core.Violation as e:
            raise core.Violation(f"after {h}: {e}")
        c.bump("sequences")
