RULE = """All shapes of 1..3 samples x 1..3 sensors x 1..3 times (4 thorough; eleven selections of each dimension on six shapes up to 120 samples, 12 sensors, 40 times), all triples of selections (every index list up to length 2 - 3 thorough - with
order and repetition, every boolean mask (arrays and lists), slices incl. negative steps with bounds, single and negative indices), sensors with one flat, one, two
and three coordinates, problems built by assignment, from a mapping with three-dimensional and with flat data, in C and Fortran order, with and without measurements.
Every value carries its sample, sensor and time, so the oracle is index arithmetic; the stored problem is compared afterwards."""
import itertools
import numpy as np
from mc import st

def cases(tier):
    L = 2 if tier == "quick" else 3
    sizes = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for n, S, T in itertools.product(sizes, repeat=3):
        if n * S * T > 36:
            continue
        for i, ms in enumerate(st.masks(n, L if n < 4 else 2)):
            yield dict(n=n, S=S, T=T, ms=ms, i=i, L=L)

    for n, S, T in ((10, 5, 7), (5, 12, 4), (40, 2, 2), (2, 2, 40), (3, 11, 13), (120, 3, 1), (70, 9, 11), (2, 60, 50), (700, 4, 4)):
        for i, ms in enumerate(st.big(n)):
            yield dict(n=n, S=S, T=T, ms=ms, i=i, L=0)

def run(case, c):
    n, S, T = case["n"], case["S"], case["T"]
    lam = np.array([[i + 0.5, -i - 0.25] for i in range(n)])
    data, meas = st.coded(n, S, T) + 2.0 ** -32, st.coded_meas(S, T) - 2.0 ** -32        # no digit may be lost
    probs = []
    for kind in (0, 1, 2, 3):
        for form in (0, 1, 2):
            probs.append((kind, form, st.problem(lam, data, S, T, kind, None if (kind, form) == (2, 0) else meas, form, order="CFA"[(kind + form + case["i"]) % 3])))
    im = st.idx(case["ms"], n)
    L = case["L"]
    sel = st.masks if L else lambda k, l: st.big(k)
    for k, (mt, mx) in enumerate(itertools.product(sel(T, L if T < 4 else 2), sel(S, L if S < 4 else 2))):
        it, ix = st.idx(mt, T), st.idx(mx, S)
        kind, form, P = probs[(k + case["i"]) % len(probs)]
        kw = {}
        if case["ms"] is not None or k % 2:
            kw["samples_mask"] = st.mask(case["ms"])
        if mt is not None or k % 3:
            kw["times_mask"] = st.mask(mt)
        if mx is not None or k % 5:
            kw["sensors_mask"] = st.mask(mx)
        what = f"samples {case['ms']} times {mt} sensors {mx}"
        gl, gt, gx, gd, gm = P.sample_data(**kw)
        c.op(5)
        want = np.array([[data[i, s, t] for s in ix for t in it] for i in im])
        if np.shape(gd) != want.shape or not np.array_equal(gd, want):
            c.fail(f"simulated data of {what}: {np.asarray(gd).tolist()}, expected {want.tolist()}")
        if not np.array_equal(gl, lam[im]):
            c.fail(f"parameters of {what}: {np.asarray(gl).tolist()}")
        if not np.array_equal(np.ravel(gt), st.times(T)[it]):
            c.fail(f"times of {what}: {np.ravel(gt).tolist()}")
        if not np.array_equal(gx, st.sensors(S, kind)[ix]):
            c.fail(f"sensors of {what}: {np.asarray(gx).tolist()}")
        if (kind, form) == (2, 0):
            c.true(gm is None, "measurements that were never set")
        else:
            wm = np.array([meas[s, t] for s in ix for t in it])
            if np.size(gm) != wm.size or not np.array_equal(np.ravel(gm), wm):
                c.fail(f"measurements of {what}: {np.ravel(gm).tolist()}, expected {wm.tolist()}")
        c.state(kind, form, k); c.outcome(want)
    for kind, form, P in probs:
        c.close(P.lam, lam, "stored samples"); c.close(P.data, data.reshape(n, -1), "stored data"); c.close(P.times, st.times(T), "stored times"); c.close(P.sensors, st.sensors(S, kind), "stored sensors")
        if P.measurements is not None:
            c.close(P.measurements, meas.reshape(-1, 1), "stored measurements")
