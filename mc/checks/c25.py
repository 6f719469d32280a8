RULE = """Every array over {-1,0,2} of up to six entries and {0,1} up to nine (constant and repeated columns included), as array, list, integer, Fortran and strided array,
generic ones up to 40x12, 600x20 and 20x600 with columns of very different size (2^-45 to 2^45) and offset, every component count, whitening and solver options, reduced and full singular value
decompositions; every other number of dimensions. Oracle: column-wise standardisation written out, eigenvalues of its Gram matrix,
orthonormality, projection and reconstruction identities."""
import itertools, math
import numpy as np
from mc import alpha, forms

def cases(tier):
    for n, m in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (4, 1), (3, 2), (2, 3), (5, 1)):
        for e in itertools.product((-1, 0, 2), repeat=n * m):
            yield dict(n=n, m=m, e=list(e))
    for n, m in ((3, 3), (4, 2), (2, 4)) + (((5, 2), (2, 5), (4, 3)) if tier == "thorough" else ()):
        for e in itertools.product((0, 1), repeat=n * m):
            yield dict(n=n, m=m, e=list(e))
    for n, m in ((5, 3), (12, 4), (3, 7), (40, 12), (12, 40), (200, 3), (3, 120), (600, 20), (20, 600)):
        for g in range(6):
            yield dict(n=n, m=m, g=g)
    for nd in (0, 1, 3, 4):
        yield dict(nd=nd)

def standard(E):
    n, m = E.shape
    Z = np.zeros((n, m))
    for j in range(m):
        mu = math.fsum(E[:, j]) / n; sd = math.sqrt(math.fsum((E[:, j] - mu) ** 2) / n)
        if sd > 1e-12 * abs(mu):
            Z[:, j] = (E[:, j] - mu) / sd
    return Z

def run(case, c):
    from mud.preprocessing import pca, svd
    if "nd" in case:
        a = np.ones((2, 3, 2, 2)[: case["nd"]]) if case["nd"] else np.array(3.0)
        for x in (a, a.tolist()):
            for f in (pca, svd):
                e = c.raises(lambda: f(x), f"{case['nd']}-dimensional data", ValueError)
                c.true(str(case["nd"]) in str(e), f"error says {e}")
        return
    n, m = case["n"], case["m"]
    if "e" in case:
        E = np.array(case["e"], float).reshape(n, m)
    else:
        E = 2 * alpha.gen(n, m, case["g"]) - 1
        if case["g"] % 2:
            E = E * 10.0 ** ((3 * np.arange(m)) % 7 - 3) + 5.0 * np.arange(m)
        if case["g"] >= 4:          # units of 2^-45 and 2^45 next to each other, no offset
            E = np.ldexp(E, (45 * ((np.arange(m) % 3) - 1) * (1 if case["g"] == 4 else -1)))
        if case["g"] == 2:
            E[:, 0] = 4.5
    Z = standard(E)
    ev = np.maximum(np.linalg.eigvalsh(Z @ Z.T if n <= m else Z.T @ Z)[::-1], 0)
    r = min(n, m); s = np.sqrt(ev)[:r]
    sc = max(1.0, s[0]); T = dict(rtol=1e-6, atol=1e-7 * sc)
    fm = [E.copy(), E.tolist(), np.asfortranarray(E), forms.array_forms(E)[3][1]] + ([E.astype(int)] if "e" in case else [])
    h = int(np.sum(np.abs(E))) if "e" in case else case["g"]
    for i, A in enumerate(fm if "g" in case and max(n, m) < 500 or "e" in case and h % 3 == 0 else [fm[h % len(fm)]]):
        s0 = forms.snapshot(A)
        U, S, V = svd(A)
        c.true(np.shape(U) == (n, n) and np.shape(V) == (m, m) and np.shape(S) == (r,), f"shapes {np.shape(U)}, {np.shape(S)}, {np.shape(V)}")
        c.close(S, s, f"singular values of {case.get('e')}", rtol=1e-6, atol=2e-7 * sc)
        c.close((U[:, :r] * S) @ V[:r], Z, f"reconstruction of {case.get('e')}", **T)
        c.close(U.T @ U, np.eye(n), "left vectors", **T); c.close(V @ V.T, np.eye(m), "right vectors", **T)
        U2, S2, V2 = svd(A, full_matrices=False)
        c.true(np.shape(U2) == (n, r) and np.shape(V2) == (r, m), f"options of svd not passed on: {np.shape(U2)}, {np.shape(V2)}")
        c.close((U2 * S2) @ V2, Z, "reduced reconstruction", **T)
        for k in (range(1, r + 1) if max(n, m) < 500 else (1, 2, 3, r)):
            kws = [dict()] + ([dict(svd_solver="full"), dict(whiten=True)] if (h + k) % 3 == 0 or "g" in case else [])
            for kw in kws:
                if n < 2:
                    continue
                if kw.get("whiten") and s[k - 1] < 1e-6:
                    continue
                P, X = pca(A, n_components=k, **kw) if k != 2 or kw else pca(A)
                W = np.asarray(P.components_)
                c.true(W.shape == (k, m) and np.shape(X) == (n, k), f"shapes {W.shape}, {np.shape(X)} for {k} components")
                c.close(W @ W.T, np.eye(k), "orthonormal components", **T)
                c.close(P.explained_variance_, s[:k] ** 2 / (n - 1), f"explained variance of {case.get('e')}", rtol=1e-6, atol=1e-7 * sc * sc)
                proj = Z @ W.T
                if kw.get("whiten"):
                    c.true(P.whiten is True, "options of pca not passed on")
                    proj = proj / np.sqrt(s[:k] ** 2 / (n - 1))
                c.close(X, proj, f"transformed data of {case.get('e')}", **T)
                c.close(np.var(Z @ W.T, axis=0, ddof=1), s[:k] ** 2 / (n - 1), "variance along the components", rtol=1e-6, atol=1e-7 * sc * sc)
        c.true(forms.same(A, s0), "data modified")
