"""Exhaustive bounded exploration of the real code: enumeration, sharding, evidence, replay.

A check module (mc/checks/cNN.py) provides
    RULE          one paragraph: alphabet, bound, oracle
    cases(tier)   a deterministic iterator of JSON-able cases, simplest first (the bounded space)
    run(case, c)  executes one case on the real code and compares every step with the oracle
The runner enumerates *every* case (no sampling), sharded over forked workers.
Counting: a trace is one case executed to the end on the implementation; a transition is one
operation of the implementation whose result was compared with the reference; a state is a
distinct canonical (configuration, observed result) pair, counted by digest.
"""
import contextlib, hashlib, io, itertools, json, os, pickle, signal, sys, time, traceback, warnings
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_LIMIT = int(os.environ.get("MC_CASE_LIMIT", "500"))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def _canon(o, h):
    if isinstance(o, np.ndarray):
        h.update(str(o.shape).encode())
        if o.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                a = np.array(o, dtype=complex if o.dtype.kind == "c" else float)
                # six significant digits: the last bits are not part of the state
                h.update(",".join("%.6g" % v if not isinstance(v, complex) else "%.6g%+.6g" % (v.real, v.imag)
                                  for v in a.ravel().tolist()).encode())
        else:
            h.update(repr(o.ravel().tolist()).encode())
    elif isinstance(o, (float, np.floating)):
        h.update(("%.6g" % o).encode())
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for x in o:
            _canon(x, h)
            h.update(b",")
        h.update(b"]")
    elif isinstance(o, dict):
        h.update(b"{")
        for k in o:
            h.update(str(k).encode()); _canon(o[k], h)
        h.update(b"}")
    else:
        h.update(repr(o).encode())


def digest(*o):
    h = hashlib.blake2b(digest_size=8)
    _canon(o, h)
    return h.digest()


class Ctx:
    """Per-worker collector handed to run()."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.extra = {}
        self.case = None
        self.casekey = b""

    def begin(self, case):
        self.case = case
        self.casekey = digest(json.dumps(case, default=str))

    def op(self, n=1):
        self.transitions += n

    def state(self, *key):
        self.states.add(digest(self.casekey, *key))

    def shared_state(self, *key):
        """a state whose identity does not depend on the history that led to it"""
        self.states.add(digest("shared", *key))

    def outcome(self, *key):
        self.outcomes.add(digest(*key))

    def bump(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # ---- comparisons -------------------------------------------------------------------
    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def true(self, cond, msg, key=None):
        self.transitions += 1
        if not cond:
            raise Violation(msg, key)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, shape=True, key=None):
        """implementation result `got` equals the reference `want`"""
        self.transitions += 1
        try:
            g = np.asarray(got)
            if g.dtype.kind not in "fcbiu":
                g = g.astype(float)
        except Exception:
            raise Violation(f"{what}: result is not numeric: {got!r}", key)
        w = np.asarray(want)
        if shape and g.shape != w.shape:
            raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
        if not shape:
            if g.size != w.size:
                raise Violation(f"{what}: {g.size} values, expected {w.size}", key)
            g, w = g.ravel(), w.ravel()
        if g.dtype.kind == "c" or w.dtype.kind == "c":
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        else:
            g = g.astype(float); w = w.astype(float)
            with np.errstate(all="ignore"):
                bad = ~((g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}", key)
        self.states.add(digest(self.casekey, what, g))
        self.outcomes.add(digest(g))

    def raises(self, fn, what, exc=Exception):
        """the call must be rejected with an error"""
        self.transitions += 1
        try:
            fn()
        except exc as e:
            self.states.add(digest(self.casekey, what, type(e).__name__))
            return e
        except Exception as e:
            raise Violation(f"{what}: raised {type(e).__name__} instead of {exc}")
        raise Violation(f"{what}: accepted, expected an error")


def short(o, n=240):
    s = repr(np.asarray(o).tolist()) if isinstance(o, (np.ndarray, list, tuple)) else repr(o)
    return s if len(s) <= n else s[:n] + "..."


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """returns None or (message, key)"""
    ctx.begin(case)
    signal.signal(signal.SIGALRM, _alarm)
    limit = getattr(mod, 'CASE_LIMIT', CASE_LIMIT) if ctx.tier == 'thorough' else CASE_LIMIT
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(case, ctx)
    except Violation as v:
        return (str(v), v.key)
    except CaseTimeout:
        return (f"no result within {limit} s", None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-5:]))
        return (f"unexpected {type(e).__name__}: {e} ({where})", None)
    finally:
        signal.alarm(0)
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None:
            plt.close("all")
    ctx.traces += 1
    return None


def load_known():
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                known[(f["property"], f["key"])] = line.split(None, 3)[3].strip()
    return known


def explore(mod, pid, tier, scratch, deadline):
    """enumerate all cases of the tier, in parallel; returns merged result"""
    known = load_known()
    pipes = []
    for w in range(WORKERS):
        out = os.path.join(scratch, f"w{w}.pkl")
        pid_ = os.fork()
        if pid_ == 0:
            code = 3
            try:
                wd = os.path.join(scratch, f"cwd{w}")
                os.mkdir(wd); os.chdir(wd)
                ctx = Ctx(tier)
                viol, done, total, kf, samples, capped = None, 0, 0, {}, [], False
                devnull = open(os.devnull, "w")
                with contextlib.redirect_stdout(devnull), contextlib.redirect_stderr(devnull):
                    for i, case in enumerate(mod.cases(tier)):
                        total += 1
                        if i % WORKERS != w:
                            continue
                        if time.time() > deadline:
                            capped = True
                            continue
                        if len(samples) < 2 or (i // WORKERS) % 997 == 0 and len(samples) < 5:
                            samples.append([i, case])
                        r = run_case(mod, case, ctx)
                        done += 1
                        if r is not None:
                            if r[1] is not None and (pid, r[1]) in known:
                                kf.setdefault(r[1], [0, case, r[0]])[0] += 1
                                continue
                            viol = (i, case, r[0])
                            break
                pickle.dump(dict(viol=viol, done=done, total=total, kf=kf, samples=samples, capped=capped,
                                 transitions=ctx.transitions, traces=ctx.traces, states=ctx.states,
                                 outcomes=ctx.outcomes, extra=ctx.extra), open(out, "wb"))
                code = 0
            except BaseException:
                with open(out + ".err", "w") as fp:
                    traceback.print_exc(file=fp)
            finally:
                os._exit(code)
        pipes.append((pid_, out))
    res = dict(viol=None, done=0, total=0, kf={}, samples=[], capped=False, transitions=0, traces=0,
               states=set(), outcomes=set(), extra={})
    for pid_, out in pipes:
        _, st = os.waitpid(pid_, 0)
        if st != 0 or not os.path.exists(out):
            err = open(out + ".err").read() if os.path.exists(out + ".err") else f"worker died, status {st}"
            raise RuntimeError(err)
        r = pickle.load(open(out, "rb"))
        if r["viol"] and (res["viol"] is None or r["viol"][0] < res["viol"][0]):
            res["viol"] = r["viol"]
        for k in ("done", "transitions", "traces"):
            res[k] += r[k]
        res["total"] = max(res["total"], r["total"])
        res["capped"] |= r["capped"]
        res["samples"] += r["samples"]
        res["states"] |= r["states"]; res["outcomes"] |= r["outcomes"]
        for k, v in r["kf"].items():
            if k in res["kf"]:
                res["kf"][k][0] += v[0]
            else:
                res["kf"][k] = v
        for k, v in r["extra"].items():
            res["extra"][k] = res["extra"].get(k, 0) + v
    res["samples"] = [c for _, c in sorted(res["samples"], key=lambda t: t[0])][:6]
    return res
