RULE = """All operation sequences over one BayesProblem: set_prior (default / normal / bounded), set_likelihood of three
distributions (one leaving no posterior mass) each in linear and log scale, fit, estimate, plot_param_space, plot_obs_space - every
sequence to depth 4 (5 thorough) on a 1x1 and a 2x2 problem (depth 3 on a 4x1, a 130-sample two in small and large units, and one set up with the same objects after their parameters changed), and breadth first with states merged on all attribute values to depth 5
(9 thorough). After every sequence the estimate, or the reported error, and the plotted posterior and its push-forward are those of
a closed-form reference and of a new problem given only the settings in force; domain and samples unchanged."""
CASE_LIMIT = 3600
import collections, itertools, math
import numpy as np
from mc import ref, alpha, plots, core
from mc.checks import c02, c06

OPS = ["p0", "p1", "p2", "a", "A", "b", "B", "z", "Z", "fit", "est", "plotp", "ploto"]
_C = {}

def setup(pi):
    if pi not in _C:
        n, p, k = ((5, 1, 1), (7, 2, 2), (4, 4, 1), (130, 1, 3), (5, 1, 1), (6, 2, 1), (5, 1, 1))[pi]
        u, v = {4: (40, -35), 5: (-35, 40)}.get(pi, (0, 0))
        X, y = alpha.samples(n, p, k, "generic")
        ia = alpha.init_alphabet(X, None)
        ps = [None, ia[1], ia[3 if pi == 2 else 2]]
        L = c06.lls(y)
        ls = {a: alpha.unit_spec(b, v) for a, b in dict(a=L[1], b=["norm", -0.4, 0.9], z=L[6]).items()}
        ps = [alpha.unit_spec(a, u) for a in ps]; X, y = np.ldexp(X, u), np.ldexp(y, v)
        _C[pi] = dict(X=X, y=y, n=n, dom=ref.domain_of(X, 0.2), ps=ps, ls=ls,
                      sps=[None if s is None else alpha.mkdist(s).scipy() for s in ps], sls={k_: alpha.mkdist(v).scipy() for k_, v in ls.items()},
                      cache={}, fresh={}, **(dict(hold={}) if pi == 6 else {}))
    return _C[pi]

def start():
    return dict(p=0, pset=False, l=None)

def enabled(op, m):
    if op == "plotp":
        return m["pset"] and m["l"] is not None and m["l"] not in "zZ"
    if op == "ploto":
        return m["l"] is not None and m["l"] not in "zZ"
    return not (op in ("fit", "est") and m["l"] is None)

def model(op, m):
    m = dict(m)
    if op[0] == "p" and len(op) == 2:
        m.update(p=int(op[1]), pset=True)
    elif len(op) == 1:
        m["l"] = op
    else:
        m["pset"] = True
    return m

def expect(pi, m):
    s = setup(pi); k = (m["p"], m["l"].lower())
    if k not in s["cache"]:
        s["cache"][k] = c06.expected(s["X"], s["y"], s["ps"][m["p"]], s["ls"][k[1]], s["dom"])[0]
    return s["cache"][k]

def new(pi):
    from mud.base import BayesProblem
    s = setup(pi)
    return BayesProblem(s["X"].copy(), s["y"].copy(), s["dom"].copy())

def setll(B, s, op):
    if op.isupper():
        B.set_likelihood(c02.given(s, "l", s["sls"][op.lower()]), log=True)
    else:
        B.set_likelihood(c02.given(s, "l", s["sls"][op]))

def curve(B, which):
    ax = plots.axes()
    if which in "PO":           # everything drawn: all curves, the estimate, a true value, an own range
        rg = [[float(a) - 1, float(b) + 1] for a, b in (B.domain if which == "P" else ref.domain_of(B.y, 0.1))]
        if which == "P":
            B.plot_param_space(0, ax=ax, aff=6, x_range=np.array(rg), pr_opts={"color": "b"}, ps_opts={"label": "it"}, true_val=np.ones(len(rg)))
        else:
            B.plot_obs_space(0, ax=ax, aff=6, y_range=rg, pf_opts={"label": "it"})
        return plots.labelled(ax, "it")[0]
    if which == "p":
        B.plot_param_space(0, ax=ax, aff=6, pr_opts=None, map_opts=None)
    else:
        B.plot_obs_space(0, ax=ax, aff=6, ll_opts=None)
    return plots.curves(ax)[0]

def answer(B, pi, m, c, what):
    s = setup(pi); lg = expect(pi, m)
    if not np.any(np.isfinite(lg)):
        c.raises(B.estimate, f"vanishing posterior under {m}", ValueError); return
    if what == "est":
        best = [i for i in range(s["n"]) if lg[i] >= lg.max() - 1e-9 * max(1, abs(lg.max()))]
        pt = B.estimate()
        c.true(alpha.is_row(pt, s["X"], best), f"estimate {np.asarray(pt).tolist()} under {m}: log posterior {lg.tolist()}")
        ps = getattr(B, "_ps", None)
        if ps is not None:
            ps = np.asarray(ps, float)
            c.close(np.exp(ps - ps.max()) if m["l"].isupper() else ps / ps.max(), np.exp(lg - lg.max()), f"posterior under {m}", rtol=1e-5, atol=1e-10)
        return
    w = np.exp(lg - lg.max())
    if not ref.kde_ok(s["X"] if what in "pP" else s["y"], w):
        return
    key = (m["p"], m["l"].lower(), what)
    if key not in s["fresh"]:
        F = new(pi); F.set_prior(s["sps"][m["p"]]) if m["p"] else F.set_prior()
        setll(F, s, m["l"].lower()); F.estimate()
        s["fresh"][key] = curve(F, what)
    got, want = curve(B, what), s["fresh"][key]
    c.close(got[0], want[0], f"plot range ({what}) under {m}", rtol=1e-9)
    c.close(got[1], want[1], f"plotted posterior ({what}) under {m}", rtol=1e-4, atol=1e-7)

def apply(B, op, pi, c, m):
    s = setup(pi); m2 = model(op, m)
    if op[0] == "p" and len(op) == 2:
        B.set_prior() if op == "p0" else B.set_prior(c02.given(s, "p", s["sps"][int(op[1])]))
    elif len(op) == 1:
        setll(B, s, op)
    elif op == "fit":
        if m["l"] in "zZ":
            c.raises(B.fit, f"fit with vanishing posterior under {m}", ValueError)
        else:
            B.fit(); answer(B, pi, m2, c, "est")
    elif op == "est":
        answer(B, pi, m2, c, "est")
    else:
        answer(B, pi, m2, c, op[-1])
    c.op()
    return m2

def check_all(B, pi, m, c, deep):
    s = setup(pi)
    if m["l"] is not None:
        answer(B, pi, m, c, "est"); m = dict(m, pset=True)
        if deep and m["l"] not in "zZ":
            for what in ("P", "p", "O", "o", "P", "est"):
                answer(B, pi, m, c, what)
    for a, b, what in ((B.domain, s["dom"], "domain"), (B.X, s["X"], "samples"), (B.y, s["y"], "outputs")):
        c.close(a, b, what + " after the history", rtol=0, atol=0)

def cases(tier):
    d = 4 if tier == "quick" else 5
    for pi in (0, 1):
        yield dict(bfs=pi, depth=5 if tier == "quick" else 9)
    for k in range(d + 1):
        for h in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
            for pi in (0, 1, 2, 3, 4, 5, 6) if k <= 3 else (0, 1):
                yield dict(pi=pi, pre=list(h), tail=min(k, 2))

def replay(pi, hist):
    B = new(pi); m = start(); q = core.Ctx()
    for op in hist:
        m = apply(B, op, pi, q, m)
    return B, m

def run(case, c):
    if "bfs" in case:
        pi = case["bfs"]
        key = lambda D, m: (c02.fingerprint(D), str(sorted(m.items(), key=str)))
        seen = {key(new(pi), start())}; frontier = collections.deque([()])
        while frontier:
            h = frontier.popleft()
            _, m = replay(pi, h)
            for op in OPS:
                if not enabled(op, m):
                    continue
                B, _ = replay(pi, h)
                try:
                    m2 = apply(B, op, pi, c, m)
                    k = key(B, m2)
                    if k in seen:
                        continue
                    seen.add(k)
                    check_all(B, pi, m2, c, True)
                except core.Violation as e:
                    raise core.Violation(f"after {list(h) + [op]}: {e}")
                if len(h) + 1 < case["depth"]:
                    frontier.append(h + (op,))
        c.bump("bfs_states", len(seen))
        for k in seen:
            c.shared_state(k)
        return
    pi = case["pi"]
    for t in itertools.product(range(len(OPS)), repeat=case["tail"]):
        h = [OPS[i] for i in case["pre"]] + [OPS[i] for i in t]
        B = new(pi); m = start(); ok = True
        try:
            for op in h:
                if not enabled(op, m):
                    ok = False; break
                m = apply(B, op, pi, c, m)
            if ok:
                check_all(B, pi, m, c, len(h) <= 3)
                c.bump("sequences")
        except core.Violation as e:
            raise core.Violation(f"after {h}: {e}")
