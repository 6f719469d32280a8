RULE = """All sequences of up to four (five thorough) assignments from 27 valid and invalid ones (domains: covering, tight, too small above/below, one row, flat list,
odd length; samples: two sets, one-dimensional, three parameters; sensors; times; data flat, three-dimensional, wrong width, one column;
measurements and true values of right and wrong size; references inside, on the edge, outside in either coordinate; known and
unknown distributions), each step compared with a reference model of all attributes, validation with all argument combinations and
the counts at the end; every order of the six fields with 53 samples, 6 sensors, 11 times and each of 13 replacements. Loading: every subset of the fields, every field renamed, given directly, given directly although present or renamed to a missing name, as
mapping, pickled file and constructor argument, against the model."""
import itertools, os, pickle
import numpy as np
CASE_LIMIT = 3600

L = np.array([[0.0, 1.0], [0.5, -0.5], [1.0, 0.25], [0.25, 0.75]])
Lb = np.array([[0.1, 0.0], [0.9, 0.5]])
S2 = np.array([[0.0, 1.0], [2.0, 3.0]]); S3 = np.array([1.0, 2.0, 4.0])
T3 = np.array([0.1, 0.2, 0.4]); T2 = np.array([5.0, 6.0])
D6 = np.arange(24.0).reshape(4, 6)

OPS = [("domain", [[-1.0, 2.0], [-1.0, 2.0]]), ("domain", [[0.0, 1.0], [-0.5, 1.0]]), ("domain", [[0.0, 0.9], [-1.0, 2.0]]), ("domain", [[-1.0, 2.0], [-0.25, 2.0]]),
       ("domain", [[-1.0, 2.0]]), ("domain", [-1.0, 2.0, -3.0, 4.0]), ("domain", [0.0, 1.0, 2.0]),
       ("lam", L), ("lam", Lb), ("lam", [0.0, 0.5, 1.0]), ("lam", np.hstack([L, L[:, :1]])),
       ("sensors", S2), ("sensors", S3), ("times", T3), ("times", T2),
       ("data", D6), ("data", D6.reshape(4, 2, 3)), ("data", D6[:, :5]), ("data", D6[:, 0]),
       ("measurements", np.arange(6.0)), ("measurements", np.arange(6.0).reshape(2, 3)), ("measurements", np.arange(4.0)), ("true_vals", np.arange(6.0) * 2),
       ("lam_ref", [0.5, 0.25]), ("lam_ref", [0.5, 1.5]), ("lam_ref", [-0.5, 0.5]), ("sample_dist", "n")]
TAIL = [("sample_dist", "x"), ("sample_dist", "uniform"), ("sample_dist", "normal"), ("sample_dist", ""), ("sample_dist", "U"), ("sample_dist", "un"), ("sample_dist", "u"), ("true_vals", np.arange(4.0)), ("true_vals", np.arange(6.0).reshape(6, 1)), ("lam_ref", [2.0, 2.0]), ("lam_ref", [1.0, 1.0]), ("lam_ref", [0.5, -0.5 - 1e-9]), ("std_dev", 0.3), ("data", D6.reshape(4, 3, 2)),
        ("data", D6[:, :2]), ("data", D6[:, :3]), ("measurements", np.arange(7.0)), ("lam", np.zeros((3, 1))), ("domain", [[0.0, 1.0], [-0.5, 1.0 - 1e-9]]), ("domain", [[-1, 2], [-1, 2], [-1, 2]])]
ATTRS = ["domain", "lam", "sample_dist", "sensors", "times", "data", "measurements", "true_vals", "lam_ref", "std_dev"]

class Model:
    def __init__(self):
        self.v = dict.fromkeys(ATTRS)
    def set(self, f, x):
        """True when accepted; otherwise nothing changes"""
        v = self.v
        if f == "domain":
            x = np.asarray(x, float)
            if x.size % 2:
                return False
            x = x.reshape(-1, 2)
            if v["lam"] is not None and (len(x) != v["lam"].shape[1] or any(x[j, 0] > v["lam"][:, j].min() or x[j, 1] < v["lam"][:, j].max() for j in range(len(x)))):
                return False
        elif f == "lam":
            x = np.asarray(x, float); x = x.reshape(-1, 1) if x.ndim == 1 else x
            if v["domain"] is not None:
                if x.shape[1] != len(v["domain"]):
                    return False
            else:
                v["domain"] = np.array([[min(x[:, j]), max(x[:, j])] for j in range(x.shape[1])])
            if v["sample_dist"] is None:
                v["sample_dist"] = "u"
        elif f == "data":
            x = np.asarray(x, float)
            x = x.reshape(len(x), -1)
            s, t = v["sensors"], v["times"]
            if s is None and t is None:
                v["sensors"], v["times"] = np.array([0]), np.arange(x.shape[1])
            elif t is None:
                if len(s) != x.shape[1]:
                    return False
                v["times"] = np.array([0])
            elif s is None:
                if len(t) != x.shape[1]:
                    return False
                v["sensors"] = np.array([0])
            elif len(s) * len(t) != x.shape[1]:
                return False
        elif f in ("measurements", "true_vals"):
            if v["sensors"] is None or v["times"] is None:
                return False
            x = np.asarray(x, float)
            if x.size != len(v["sensors"]) * len(v["times"]):
                return False
            x = x.reshape(-1, 1)
        elif f == "lam_ref":
            x = np.asarray(x, float).ravel()
            d = v["domain"]
            if d is None or len(x) > len(d) or any(x[j] < d[j, 0] or x[j] > d[j, 1] for j in range(len(x))):
                return False
        elif f == "sample_dist" and x not in ("u", "n"):
            return False
        v[f] = x
        return True

def same(c, P, m, what):
    for a in ATTRS:
        g, w = getattr(P, a), m.v[a]
        if w is None or g is None or isinstance(w, (str, float)):
            ok = (g is None) == (w is None) and (w is None or g == w)
        else:
            ok = np.shape(g) == np.shape(w) and np.array_equal(np.asarray(g, float), np.asarray(w, float))
        if not ok:
            c.fail(f"{a} is {np.asarray(g).tolist() if g is not None else None} after {what}, expected {np.asarray(w).tolist() if w is not None else None}")
    c.op()

def assign(c, P, m, f, x, what):
    import copy
    ok = m.set(f, x)
    try:
        setattr(P, f, copy.deepcopy(x)); got = True
    except Exception:
        got = False
    if got != ok:
        c.fail(f"{what}: {'accepted' if got else 'rejected'}, expected the opposite")
    c.outcome(f, ok, *[m.v[a] is None for a in ATTRS])
    same(c, P, m, what)

def ending(c, P, m, what):
    for meas, true in itertools.product((True, False), repeat=2):
        need = ["domain", "lam", "data"] + (["measurements"] if meas else []) + (["lam_ref", "true_vals"] if true else [])
        miss = [a for a in need if m.v[a] is None]
        try:
            P.validate(check_meas=meas, check_true=true); err = None
        except ValueError as e:
            err = str(e)
        if (err is not None) != bool(miss):
            c.fail(f"validate({meas}, {true}) after {what}: {err!r}, missing {miss}")
        if miss:
            named = [a for a in ATTRS if f"'{a}'" in err]
            if set(named) != set(miss):
                c.fail(f"validate({meas}, {true}) after {what} names {named}, missing {miss}")
    for a, fld in (("n_samples", "lam"), ("n_sensors", "sensors"), ("n_ts", "times"), ("n_params", "domain")):
        if m.v[fld] is not None:
            c.true(getattr(P, a) == len(m.v[fld]), f"{a} after {what}")
        else:
            c.raises(lambda: getattr(P, a), f"{a} before {fld} is set after {what}")

def cases(tier):
    depth = 4 if tier == "quick" else 5
    for k in range(1, depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=max(0, k - 2)):
            yield dict(pre=list(h), tail=min(k, 2))
    for i in range(len(FIELDS)):
        for how in HOW:
            for via in ("map", "file", "init"):
                if via == "init" and how not in ("plain", "absent"):
                    continue
                yield dict(field=i, how=how, via=via)
    for i in range(0, 720, 6):
        yield dict(large=i)
    for mask in range(2 ** len(FIELDS)):
        yield dict(subset=mask)
    for f, g in itertools.product(range(len(FIELDS)), repeat=2):
        yield dict(swap=[f, g])
    for d in itertools.product((1, 2), (1, 2), (1, 3), (1, 2), (0, 1, 2)):
        yield dict(dims=list(d))
    yield dict(nofile=1)

FIELDS = ["sample_dist", "domain", "sensors", "times", "lam", "data", "lam_ref", "std_dev", "true_vals", "measurements"]
VAL = dict(sample_dist="n", domain=np.array([[-1.0, 2.0], [-2.0, 3.0]]), sensors=S2, times=T3, lam=L, data=D6.reshape(4, 2, 3), lam_ref=np.array([0.5, 1.5]), std_dev=0.3, true_vals=np.arange(6.0), measurements=np.arange(6.0) + 0.5)
ALT = dict(domain=np.array([[-4.0, 2.5], [-2.5, 3.5]]), sensors=S2 + 1, times=T3 + 1, lam=L * 0.5, data=D6.reshape(4, 2, 3) + 1, lam_ref=np.array([0.25, 1.25]), std_dev=0.7, true_vals=np.arange(6.0) + 7, measurements=np.arange(6.0) + 9)
HOW = ["plain", "absent", "renamed", "direct", "direct_over", "renamed_missing", "renamed_over"]

def expected(fields):
    m = Model()
    for f in FIELDS:
        if fields.get(f) is not None:
            if not m.set(f, fields[f]):
                return None
    return m

def load(c, ds, kw, fields, via, what):
    from mud.base import SpatioTemporalProblem
    from mc import forms
    snap = forms.snapshot(ds)
    P = SpatioTemporalProblem()
    m = expected(fields)
    if via == "file":
        name = os.path.join(os.getcwd(), "problem.pkl")
        with open(name, "wb") as fp:
            pickle.dump(ds, fp)
        src = name
    else:
        src = ds
    try:
        if via == "init":
            P = SpatioTemporalProblem(src)
        else:
            P.load(src, **kw)
        ok = True
    except Exception as e:
        ok = False; err = e
    if m is None:
        c.true(not ok, f"{what}: accepted")
        return
    if not ok:
        c.fail(f"{what}: {type(err).__name__}: {err}")
    same(c, P, m, what); ending(c, P, m, what)
    c.true(forms.same(ds, snap), f"{what}: mapping modified")
    c.state(what)

def run(case, c):
    from mud.base import SpatioTemporalProblem
    if "nofile" in case:
        for n in ("nothere.pkl", "nothere.nc", "/nonexistent/x"):
            c.raises(lambda: SpatioTemporalProblem().load(n), f"missing file {n}", FileNotFoundError)
            c.raises(lambda: SpatioTemporalProblem(n), f"missing file {n}", FileNotFoundError)
        return
    if "dims" in case:
        # single samples, parameters, sensors, coordinates and times keep their dimension
        n, S, T, p, k = case["dims"]
        v = dict(domain=np.array([[-1.0, 2.0], [-2.0, 3.0]])[:p], sensors=np.arange(float(S)) if k == 0 else np.arange(float(S * k)).reshape(S, k) + 0.5, times=np.arange(T) * 0.5 + 1, lam=0.25 * np.arange(float(n * p)).reshape(n, p),
                 data=np.arange(float(n * S * T)).reshape(n, S, T) + 1, lam_ref=np.array([0.5, 1.5])[:p], std_dev=0.3, true_vals=np.arange(float(S * T)), measurements=np.arange(float(S * T)) + 0.5)
        for form, via in itertools.product(range(3), ("map", "file", "init")):
            ds = dict(v)
            if form:
                ds["data"] = ds["data"].reshape(n, -1)
            if form == 2:
                ds = {f: x.tolist() if f in ("domain", "lam_ref") else x for f, x in ds.items()}; ds["measurements"] = ds["measurements"].reshape(S, T)
            load(c, ds, {}, dict(v), via, f"{n} samples of {p} parameters, {S} sensors with {k} coordinates, {T} times, form {form} by {via}")
            part = {f: x for f, x in ds.items() if f in ("lam", "data", "measurements")}
            load(c, dict(part, zz=ds["times"]), dict(sensors=v["sensors"], times="zz"), dict(lam=v["lam"], data=v["data"], measurements=v["measurements"], sensors=v["sensors"], times=v["times"]), "file" if via == "init" else via,
                 f"{n} samples of {p} parameters, {S} given sensors with {k} coordinates, {T} renamed times, form {form} by {via}")
        return
    if "large" in case:
        n, S, T = 53, 6, 11
        v = dict(domain=np.array([[-1.0, 2.0]] * 3), lam=np.sin(np.arange(3.0 * n)).reshape(n, 3), sensors=np.arange(12.0).reshape(6, 2), times=np.arange(11.0) * 0.5, data=np.arange(float(n * S * T)).reshape(n, S, T), measurements=np.arange(float(S * T)))
        bad = dict(domain=[None, np.array([[-1.0, 2.0]] * 4), np.array([[-1.0, 2.0]] * 2 + [[-1.0, 0.999]])], lam=[np.ones((n, 4))], sensors=[np.arange(7.0), np.arange(11.0)], times=[np.arange(12.0), np.arange(6.0)],
                   data=[v["data"].reshape(n, -1), v["data"][:, :, 1:], v["data"][:, 1:].reshape(n, -1)], measurements=[np.arange(65.0), np.arange(67.0), np.arange(66.0).reshape(6, 11)])
        for order in list(itertools.permutations(v))[case["large"]:case["large"] + 6]:
            for f0, x0 in [(None, None)] + [(f, x) for f in v for x in bad[f] if x is not None]:
                P, m = SpatioTemporalProblem(), Model()
                for j, f in enumerate(order):
                    x = x0 if f == f0 else v[f]
                    assign(c, P, m, f, x, f"{f} of shape {np.shape(x)} as step {j} of {order}")
                ending(c, P, m, f"{order}")
        return
    if "subset" in case:
        ds = {f: VAL[f] for i, f in enumerate(FIELDS) if case["subset"] >> i & 1}
        for via in ("map", "file", "init"):
            load(c, ds, {}, dict(ds), via, f"loading {list(ds)} by {via}")
        return
    if "swap" in case:
        f, g = (FIELDS[i] for i in case["swap"])
        # two fields renamed at once, through a mapping that also holds them under other names
        ds = dict(VAL); fields = dict(VAL); kw = {}
        for x in dict.fromkeys((f, g)):
            ds["other_" + x] = ALT.get(x, "u"); kw[x] = "other_" + x; fields[x] = ALT.get(x, "u")
        load(c, ds, kw, fields, "map", f"renaming {f} and {g}")
        ds = {k: v for k, v in ds.items() if k not in kw}
        load(c, ds, kw, fields, "file", f"renaming {f} and {g}, old names absent")
        return
    if "field" in case:
        f, how = FIELDS[case["field"]], case["how"]
        if f == "sample_dist" and how.startswith("direct"):
            return
        ds = dict(VAL); fields = dict(VAL); kw = {}
        if how == "absent":
            del ds[f]; del fields[f]
        elif how == "renamed":
            ds["zz"] = ds.pop(f); kw[f] = "zz"
        elif how == "direct":
            kw[f] = ALT[f]; del ds[f]; fields[f] = ALT[f]
        elif how == "direct_over":
            kw[f] = ALT[f]; fields[f] = ALT[f]
        elif how == "renamed_missing":
            kw[f] = "zz"; del fields[f]
        elif how == "renamed_over":
            ds["zz"] = ALT.get(f, "u"); kw[f] = "zz"; fields[f] = ALT.get(f, "u")
        load(c, ds, kw, fields, case["via"], f"{how} {f} by {case['via']}")
        return
    pre = [OPS[i] for i in case["pre"]]
    for t in itertools.product(OPS, repeat=case["tail"]):
        h = pre + list(t)
        P, m = SpatioTemporalProblem(), Model()
        for j, (f, x) in enumerate(h):
            assign(c, P, m, f, x, f"{f} = {np.asarray(x).tolist()}" + f" as step {j} of {[(a, np.shape(b)) for a, b in h]}")
        ending(c, P, m, f"{[(a, np.shape(b)) for a, b in h]}")
        c.shared_state(*[m.v[a] for a in ATTRS])
        if len(h) <= 3:
            for f, x in TAIL:
                assign(c, P, m, f, x, f"{f} = {np.asarray(x).tolist()} after {[(a, np.shape(b)) for a, b in h]}")
        c.bump("sequences")
