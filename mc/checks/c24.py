RULE = """fit_domain on every sample array over {-1.5,0,2} of up to 3x2 and 2x3 entries and generic ones up to 300x2 and 4x20 at magnitudes 1e-200..1e30, times seven padding ratios, and on
every list of bounds over the same values (as list, array, integers with integral and fractional padding); the mesh builders for all sizes 1..7, 20, 33, 51 and four windows, one-
to four-dimensional ranges of all sizes 2..6 (10 up to three, 25 up to two dimensions); tolerances times probabilities on a 12 x 14 grid. Oracle: enumerated grid points, exact ranges,
the error function. set_shape on every shape up to three dimensions."""
import itertools, math
import numpy as np
from mc import ref, alpha, forms

PADS = [0.0, 0.05, 0.1, 0.5, 1.0, 2.75, 10]

def cases(tier):
    for n, p in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)) + (((4, 2), (3, 3)) if tier == "thorough" else ()):
        for e in itertools.product((-1.5, 0.0, 2.0), repeat=n * p):
            yield dict(n=n, p=p, e=list(e))
            if n > 1:
                yield dict(n=n, p=p, ints=list(e))
    for n, p in ((5, 1), (50, 5), (7, 3), (300, 2), (4, 20)):
        for m in (1e-200, 1e-30, 1e-14, 1e-11, 1e-8, 1.0, 1e8, 1e30):
            yield dict(n=n, p=p, m=m)
    for N in (*range(1, 8), 20, 33, 51):
        for w in (1, 2, 0.5, 10):
            yield dict(mesh=N, w=w)
    for d in (1, 2, 3, 4):
        for aff in (*range(2, 7), *((10, 25) if d < 3 else (10,) if d < 4 else ())):
            for v in range(3):
                yield dict(nd=d, aff=aff, v=v)
    for i in range(12):
        yield dict(tol=i)
    for sh in itertools.chain([()], itertools.product((1, 2, 3), repeat=1), itertools.product((1, 2, 3), repeat=2), itertools.product((1, 2), repeat=3)):
        yield dict(shape=list(sh))

def run(case, c):
    from mud.util import fit_domain, std_from_equipment, set_shape
    from mud import util, plot
    if "mesh" in case:
        N, w = case["mesh"], case["w"]
        for f, lo in ((util.make_2d_unit_mesh, 0.0), (plot.make_2d_unit_mesh, 0.0), (plot.make_2d_normal_mesh, -float(w))):
            for x, y, XX in (f(N, w), f(N=N, window=w)):
                ax = [lo + (w - lo) * i / (N - 1) if N > 1 else lo for i in range(N)]
                c.true(np.shape(XX) == (N * N, 2) and np.shape(x) == np.shape(y) == (N, N), f"shapes {np.shape(XX)} {np.shape(x)}")
                c.close(XX, np.array([[a, b] for b in ax for a in ax]), f"{f.__name__} points", atol=1e-12)
                c.close(np.stack([np.ravel(x), np.ravel(y)], 1), XX, "grids agree with the point list", atol=1e-12)
            if w == 1:
                c.close(f(N)[2], XX, "window one is the default", atol=0)
        c.true(np.shape(util.make_2d_unit_mesh()[2]) == (2500, 2), "default size")
        return
    if "nd" in case:
        d, aff, v = case["nd"], case["aff"], case["v"]
        dom = [[-1.0 * i, 2.0 + i] for i in range(d)] if v else [[i, i + 1] for i in range(d)]
        ax = [[a + (b - a) * i / (aff - 1) for i in range(aff - 1)] for a, b in dom]
        mesh, pts = plot.build_nd_mesh_grid(np.array(dom, float) if v == 2 else dom, aff=aff)
        c.true(len(mesh) == d and np.shape(pts) == (d, (aff - 1) ** d), f"shapes {len(mesh)} {np.shape(pts)}")
        c.close(np.array(pts).T, np.array(list(itertools.product(*ax))), "grid points", atol=1e-12)
        for j in range(d):
            c.close(np.ravel(mesh[j]), pts[j], f"grid {j}", atol=0)
            c.true(np.shape(mesh[j]) == (aff - 1,) * d, "grid shape")
        return
    if "tol" in case:
        tol = [1e-6, 1e-3, 0.01, 0.05, 0.1, 0.25, 0.5, 1, 2.0, 10, 1e3, 1e6][case["tol"]]
        for p in (0.01, 0.1, 0.25, 0.5, 0.6826894921370859, 0.75, 0.8, 0.9, 0.95, 0.9544997361036416, 0.99, 0.999, 0.9999, 0.999999):
            for s in (std_from_equipment(tol, p), std_from_equipment(tolerance=tol, probability=p)):
                c.close(math.erf(tol / (s * math.sqrt(2))), p, f"probability within {tol} at {p}", rtol=1e-9)
        c.close(math.erf(tol / (std_from_equipment(tol) * math.sqrt(2))), 0.95, "default probability", rtol=1e-9)
        c.close(std_from_equipment(), std_from_equipment(0.1, 0.95), "defaults")
        return
    if "shape" in case:
        sh = tuple(case["shape"])
        a = alpha.gen(max(1, int(np.prod(sh)) if sh else 1), 1, 2).ravel()[: int(np.prod(sh)) if sh else 1].reshape(sh)
        for tgt in ((1, -1), (-1, 1)):
            r = set_shape(a, tgt)
            want = a.reshape(tgt) if a.ndim < 2 else a
            c.close(r, want, f"shape {sh} to {tgt}", atol=0)
        c.close(set_shape(a), a.reshape(1, -1) if a.ndim < 2 else a, "default shape", atol=0)
        return
    if "ints" in case:
        cutoff = None
        I = np.floor(3 * np.array(case["ints"]).reshape(case["n"], case["p"])).astype(int); lo, hi = I.min(0), I.max(0)
        for pad in (0.1, 0.5, 0.25, 1.5):
            want = np.array([lo - pad * (hi - lo), hi + pad * (hi - lo)]).T
            cut = np.trunc(want)
            for got in (fit_domain(I, pad_ratio=pad), fit_domain(min_max_bounds=np.array([lo, hi]).T, pad_ratio=pad)):
                g = np.asarray(got)
                lost = g.dtype.kind == "i" and np.array_equal(g, cut) and not np.array_equal(want, cut)
                c.true(np.all(g[:, 0] <= lo) and np.all(g[:, 1] >= hi), "domain does not contain the integer samples")
                if lost:
                    cutoff = f"integer samples {I.tolist()} padded by {pad}: {g.tolist()}, expected {want.tolist()}"
                else:
                    c.close(got, want, f"integer samples {I.tolist()} padded by {pad}", rtol=1e-12, atol=1e-12)
        if cutoff:
            c.fail(cutoff, key="fit-domain-integers")
        return
    X = np.array(case["e"]).reshape(case["n"], case["p"]) if "e" in case else (2 * alpha.gen(case["n"], case["p"], 1) - 0.7) * case["m"]
    n, p = X.shape
    for pad in PADS:
        want = np.array([[min(X[:, j]) - pad * (max(X[:, j]) - min(X[:, j])), max(X[:, j]) + pad * (max(X[:, j]) - min(X[:, j]))] for j in range(p)])
        tol = dict(rtol=1e-12, atol=1e-13 * np.abs(want).max())
        for A in (X.copy(), np.asfortranarray(X), X[::-1].copy()[::-1]):
            s0 = forms.snapshot(A)
            got = fit_domain(A, pad_ratio=pad)
            c.close(got, want, f"domain of {X.tolist() if n * p < 10 else 'generic samples'} padded by {pad}", **tol)
            c.true(np.all(got[:, 0] <= X.min(0)) and np.all(got[:, 1] >= X.max(0)), "domain does not contain the samples")
            c.true(forms.same(A, s0), "samples modified")
        if pad == 0.1:
            c.close(fit_domain(X), want, "default padding", **tol)
        b = np.array([X.min(0), X.max(0)]).T
        for B in (b.copy(), b.tolist(), np.asfortranarray(b), np.stack([b[:, 1], b[:, 0], b[:, 1]], axis=1)[:, 1:]):
            s0 = forms.snapshot(B)
            c.close(fit_domain(min_max_bounds=B, pad_ratio=pad), want, f"bounds {b.tolist()} padded by {pad}", **tol)
            c.true(forms.same(B, s0), "bounds modified")
            c.close(fit_domain(X * 0 + 50.0, B, pad), want, "bounds take precedence over samples", **tol)
    c.raises(lambda: fit_domain(), "neither samples nor bounds", ValueError)
    if "e" in case:
        I = np.floor(X).astype(int)
        for pad in (0.0, 0, 1, 2):
            w = I.max(0) - I.min(0)
            c.close(fit_domain(I, pad_ratio=pad), np.array([I.min(0) - pad * w, I.max(0) + pad * w]).T, "integer samples with integral padding", shape=True)
