RULE = """add_noise on every signal shape up to three dimensions (scalar, list, tuple, integer, empty) with every tape over {-1,0,2} up to three values answered by
the harness-owned normal source, six deviations, and 12 seeds incl. 0 against every pair of preceding draws; all call sequences up to depth three of
measurements_from_reference with the reference, deviation and seed given or left to what was set before; and every data array over {0,1,3} of up to
three samples and two observations, every measurement over {0,1,2,3}, plus coded and generic problems under all single and joint selections (eleven per dimension for up to 150
samples and 62 observations) for the closest-sample queries, also far from zero and close together. Oracle: term-by-term sums, distances computed from index arithmetic."""
import itertools, math
import numpy as np
from mc import alpha, st, rng, forms

SH = [(), (1,), (2,), (3,), (5,), (1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (2, 1, 2), (2, 3, 2), (30, 7), (1000,), (0,)]
SEEDS = [0, 1, 2, 7, 21, 24, 42, 123, 1000, 2 ** 31 - 1, 2 ** 32 - 1, 12345]

def cases(tier):
    for i in range(len(SH)):
        for s in range(6):
            yield dict(noise=i, s=s)
    for i in range(len(SEEDS)):
        for sh in range(len(SH) - 1):
            yield dict(seed=i, sh=sh)
    for k in (1, 2, 3):
        for h in itertools.product(range(len(MFR)), repeat=k):
            yield dict(mfr=list(h))
    for n, N in ((1, 1), (2, 1), (3, 1), (2, 2)) + (((3, 2), (2, 3)) if tier == "thorough" else ((3, 2),)):
        for d in itertools.product((0, 1, 3), repeat=n * N):
            yield dict(near=list(d), n=n, N=N)
    for n, S, T in ((60, 4, 5), (12, 10, 3), (7, 2, 31), (150, 1, 1)):
        for ms in st.big(n):
            yield dict(n=n, S=S, T=T, ms=ms, big=1)
    for n, S, T in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
        for ms in st.masks(n, 2):
            yield dict(n=n, S=S, T=T, ms=ms)
            if n == 4 or tier == "thorough":
                for e in (-40, 40, -400, 300):
                    yield dict(n=n, S=S, T=T, ms=ms, e=e)
    for n, S, T in ((2, 1, 1), (4, 2, 2), (9, 3, 2), (40, 4, 5)):          # far from zero and close together
        for o in (1e8, -1e8, 1e10):
            for at in range(n):
                if n < 40 or at % 7 == 0:
                    yield dict(off=o, n=n, S=S, T=T, at=at)
    for e in (-40, 40, -300, 300):
        for i in range(len(SH) - 1):
            yield dict(noise=i, s=1, e=e)

REF = np.array([[1.0, 2.0, 3.0], [-1.0, 0.5, 4.0]])
MFR = [("r0", None, None), ("r0", 0.5, None), ("r1", 0.25, None), (None, 0.75, None), (None, None, None), ("r2", 0.0, None), ("r0", 0.5, 0), ("r1", None, 3), (None, None, 3), (None, 2.0, 3), ("bad", 1.0, None)]

def run(case, c):
    from mud.util import add_noise
    from mud.base import SpatioTemporalProblem
    if "noise" in case:
        sh = SH[case["noise"]]; sd = [0.05, 1.0, 2, 0.0, 1e-9, np.float64(3.0)][case["s"]]
        n = int(np.prod(sh)) if sh else 1
        u = 2.0 ** case.get("e", 0); sd = sd * u if u != 1 else sd
        base = (u * (2 * alpha.gen(max(n, 1), 1, 3).ravel()[:n] - 1)).reshape(sh)
        tapes = list(itertools.product((-1.0, 0.0, 2.0), repeat=n)) if n <= 3 else [tuple(0.5 * (-1) ** j * (j + 1) for j in range(n)), tuple(float(j % 2) for j in range(n))]
        if n == 0:
            tapes = [(1.0,)]
        for sig in (base, base.tolist(), np.asfortranarray(base), np.floor(base / u * 5).astype(int), tuple(base.ravel().tolist()) if len(sh) == 1 else base[..., ::-1].copy()[..., ::-1] if sh else float(base)):
            x = np.array(sig, float)
            for t in tapes:
                s0 = forms.snapshot(sig)
                with rng.normals(t) as T:
                    got = add_noise(sig, sd) if sd != 0.05 else add_noise(sig)
                if T.used == 0 and n:
                    c.bump("noise_not_owned"); continue
                c.close(got, x + sd * np.array(t[:n] if n else []).reshape(sh), f"noise on shape {sh}", rtol=1e-12, atol=1e-13 * u)
                c.true(forms.same(sig, s0), "signal modified")
        return
    if "seed" in case:
        seed = SEEDS[case["seed"]]; sh = SH[case["sh"]]
        n = int(np.prod(sh)) if sh else 1
        sig = np.ones(sh) * 2.5
        np.random.seed(99)
        first = np.array(add_noise(sig, 1.0, seed=seed))
        for before in (lambda: None, lambda: np.random.seed(5), lambda: np.random.rand(7), lambda: np.random.randn(3), lambda: add_noise(sig, 1.0, seed=SEEDS[(case["seed"] + 1) % len(SEEDS)])):
            for b2 in (lambda: None, lambda: np.random.randn(1)):
                before(); b2()
                c.close(add_noise(sig, 1.0, seed=seed), first, f"seed {seed} after other draws", rtol=1e-14, atol=0)
        c.close(np.ravel(add_noise(sig.ravel() * 0.0, 3.0, seed)), 3.0 * (first.ravel() - 2.5), f"same draws, other signal and deviation (seed {seed})", rtol=1e-9, atol=1e-12)
        other = np.array(add_noise(sig, 1.0, seed=SEEDS[(case["seed"] + 1) % len(SEEDS)]))
        c.true(not np.allclose(other, first), "another seed gives the same draws")
        add_noise(sig, 1.0, seed=seed)
        a = add_noise(sig, 1.0); b = add_noise(sig, 1.0)
        c.true(not np.allclose(a, b) and not np.allclose(a, first), "unseeded draws repeat")
        # the spatio-temporal problem, same seed
        if n and len(sh) <= 2:
            M = []
            for pre in (0, 3):
                P = SpatioTemporalProblem(); P.sensors = st.sensors(n, 1); P.times = st.times(1)
                np.random.rand(pre)
                P.measurements_from_reference(sig, 0.5, seed=seed); M.append(P.measurements)
                c.close(P.measurements.ravel(), 2.5 + 0.5 * (first.ravel() - 2.5), "seeded measurements", rtol=1e-9, atol=1e-12)
        return
    if "mfr" in case:
        refs = dict(r0=REF, r1=(REF * 2).reshape(-1, 1), r2=(REF - 1).ravel(), bad=np.arange(5.0))
        P = SpatioTemporalProblem(); P.sensors = st.sensors(2, 2); P.times = st.times(3)
        tv = sd = me = None
        tape = [0.5 * (-1) ** j * (j + 1) for j in range(6 * 4)]
        with rng.normals(tape) as T:
            for i in case["mfr"]:
                r, s, seed = MFR[i]
                kw = {}
                if r is not None:
                    kw["ref"] = refs[r].copy()
                if s is not None:
                    kw["std_dev"] = s
                if seed is not None:
                    kw["seed"] = seed
                if r == "bad":
                    c.raises(lambda: P.measurements_from_reference(**kw), "reference of the wrong size", ValueError)
                elif (r is None and tv is None) or (s is None and sd is None):
                    tv = refs[r].ravel() if r is not None else tv
                    sd = s if s is not None else sd
                    c.raises(lambda: P.measurements_from_reference(**kw), "reference or deviation never given", AttributeError)
                else:
                    tv = refs[r].ravel() if r is not None else tv
                    sd = s if s is not None else sd
                    u = T.used
                    P.measurements_from_reference(**kw)
                    if T.used == u and sd:
                        c.bump("noise_not_owned"); return
                    me = tv + sd * np.array(tape[u:u + 6])
                for got, want, nm in ((P.measurements, me, "measurements"), (P.true_vals, tv, "true values")):
                    if want is None:
                        c.true(got is None, f"{nm} after {case['mfr']}")
                    else:
                        c.close(got, want.reshape(-1, 1), f"{nm} after {case['mfr']}", rtol=1e-12, atol=1e-13)
                c.true(P.std_dev == sd, f"deviation after {case['mfr']}")
        return
    if "near" in case:
        n, N = case["n"], case["N"]
        data = np.array(case["near"], float).reshape(n, N)
        lam = np.array([[i + 0.5, 2.0 - i] for i in range(n)])
        for S, T in {(N, 1), (1, N)}:
            for m in itertools.product((0, 1, 2, 3), repeat=N):
                for form in (0, 2):
                    P = st.problem(lam, data.reshape(n, S, T), S, T, 2, np.array(m, float).reshape(S, T), form, true=np.array(m[::-1], float).reshape(S, T))
                    for got, mm, nm in ((P.get_closest_to_measurements(), m, "measurements"), (P.get_closest_to_true_vals(), m[::-1], "true values")):
                        d = [sum((data[i, j] - mm[j]) ** 2 for j in range(N)) for i in range(n)]
                        ok = [i for i in range(n) if d[i] == min(d)]
                        if not alpha.is_row(got, lam, ok):
                            c.fail(f"closest to {nm} {mm} in {data.tolist()}: {np.asarray(got).tolist()}, expected one of {lam[ok].tolist()}")
                        c.op()
        c.state(case["near"])
        P = st.problem(lam, data.reshape(n, 1, N), 1, N, 2, np.zeros((1, N)), 0)
        c.raises(P.get_closest_to_true_vals, "closest to true values that were never set", AttributeError)
        return
    if "off" in case:
        n, S, T, at = case["n"], case["S"], case["T"], case["at"]
        lam = alpha.gen(n, 2, 3); h = np.abs(case["off"]) * 2.0 ** -30
        step = np.floor(8 * alpha.gen(S, T, 2)) + 1
        data = case["off"] + h * np.arange(n)[:, None, None] * step; meas = case["off"] + h * (at + 0.25) * step
        for k, f in ((2, 0), (1, 1), (3, 2)):
            P = st.problem(lam, data, S, T, k, meas, f, true=meas - 0.5 * h * step if at else meas)
            c.true(alpha.is_row(P.get_closest_to_measurements(), lam, [at]), f"closest sample of data close together near {case['off']}")
            c.true(alpha.is_row(P.get_closest_to_true_vals(), lam, [at]), f"closest sample to the true values, data close together near {case['off']}")
        c.state(at); return
    n, S, T = case["n"], case["S"], case["T"]
    lam = alpha.gen(n, 2, 3); data = alpha.gen(n, S * T, 5).reshape(n, S, T); meas = alpha.gen(S * T, 1, 8).reshape(S, T)
    u = 2.0 ** case.get("e", 0); data = data * u; meas = meas * u
    Ps = [st.problem(lam, data, S, T, k, meas, f, true=meas[::-1]) for k, f in ((2, 0), (1, 1), (3, 2))]
    im = st.idx(case["ms"], n)
    for k, (mx, mt) in enumerate(itertools.product(*([st.big(S), st.big(T)] if "big" in case else [st.masks(S, 2), st.masks(T, 2)]))):
        ix, it = st.idx(mx, S), st.idx(mt, T)
        d = [sum((data[i, s, t] - meas[s, t]) ** 2 for s in ix for t in it) for i in im]
        ok = [i for i, v in zip(im, d) if v <= min(d) * (1 + 1e-9)]
        got = Ps[k % 3].get_closest_to_measurements(samples_mask=st.mask(case["ms"]), times_mask=st.mask(mt), sensors_mask=st.mask(mx))
        c.true(alpha.is_row(got, lam, ok), f"closest of samples {case['ms']}, sensors {mx}, times {mt}: {np.asarray(got).tolist()}, expected {lam[ok].tolist()}")
        c.state(k)
    for P in Ps:
        d = [np.sum((data[i] - meas[::-1]) ** 2) for i in range(n)]
        c.true(alpha.is_row(P.get_closest_to_true_vals(), lam, [int(np.argmin(d))]), "closest to the true values")
