RULE = """Every matrix over {-1,0,2} of shapes 1x1..2x3, 3x2, over {0,1} (thorough {-1,0,1}) 3x3, 2x4, 4x2, 1x5, 5x1, and matrices with prescribed singular values
(distinct, repeated, zero, nine orders of magnitude apart) up to 9x9, 30x30, 200x6, 6x200 and 1x300, as array, list, integers of three widths, single precision and Fortran array, scaled by 1e-9 and 1e9. Oracle:
the distances of best approximation from the eigenvalues of the Gram matrix (prescribed values where given), exact rank, the last entry against the
matrix, entries independent of each other."""
import itertools
import numpy as np
from mc import ref, alpha

def cases(tier):
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
        for e in itertools.product((-1, 0, 2), repeat=m * n):
            yield dict(m=m, n=n, e=list(e))
    for m, n in ((3, 3), (2, 4), (4, 2), (1, 5), (5, 1)):
        for e in itertools.product((0, 1) if tier == "quick" or m * n > 8 and False else (-1, 0, 1), repeat=m * n):
            yield dict(m=m, n=n, e=list(e))
    for m, n in itertools.product((1, 2, 3, 5, 7, 9), repeat=2):
        for t in range(6):
            yield dict(sv=t, m=m, n=n)
    for m, n in ((15, 4), (4, 40), (30, 30), (200, 6), (2, 70), (1, 300), (6, 200), (70, 2)):
        for t in range(6):
            yield dict(sv=t, m=m, n=n)

def cplx(c, E, m, n):
    """a complex matrix: the same statement"""
    from mud.util import rank_decomposition
    A = E + 1j * (E[::-1, ::-1] + 0.5); r = min(m, n)
    G = A @ A.conj().T if m <= n else A.conj().T @ A
    s = np.sqrt(np.maximum(np.linalg.eigvalsh(G), 0))[::-1]; sc = max(s[0], 1e-300)
    for f in (1.0, 1e-9):
        D = rank_decomposition(A * f)
        c.true(len(D) == r, f"{len(D)} entries for a complex {m}x{n} matrix")
        for k, B in enumerate(D, 1):
            B = np.asarray(B)
            dist = np.sqrt(np.sum(np.abs(A * f - B) ** 2)); best = f * np.sqrt(np.sum(s[k:] ** 2))
            c.true(B.shape == (m, n) and abs(dist - best) <= 1e-7 * sc * f, f"entry {k} of {A.tolist()}: distance {dist}, best possible {best}")
            c.true(np.all(np.linalg.svd(B, compute_uv=False)[k:] <= 1e-12 * sc * f * max(m, n)), f"entry {k} of {A.tolist()} has rank above {k}")
        c.true(np.abs(np.asarray(D[-1]) - A * f).max() <= 1e-12 * sc * f, "last entry of a complex matrix")

def run(case, c):
    from mud.util import rank_decomposition
    m, n = case["m"], case["n"]; r = min(m, n)
    if "sv" in case:
        s = np.array([[r - i for i in range(r)], [1.0] * r, [2.0 ** -i for i in range(r)], [10.0 ** (-9 * i / max(1, r - 1)) for i in range(r)],
                      [float(r - i) if i < r // 2 + 1 else 0.0 for i in range(r)], [3.0, 3.0][:r] + [1.0] * (r - 2)][case["sv"]], float)[:r]
        U = np.linalg.qr(2 * alpha.gen(m, m, case["sv"]) - 1)[0]; V = np.linalg.qr(2 * alpha.gen(n, n, 5) - 1)[0]
        S = np.zeros((m, n)); S[range(r), range(r)] = s
        E = U @ S @ V.T
    else:
        E = np.array(case["e"], float).reshape(m, n)
        G = E @ E.T if m <= n else E.T @ E
        s = np.sqrt(np.maximum(np.linalg.eigvalsh(G), 0))[::-1]
    if "e" in case:
        cplx(c, E, m, n)
    sc = max(s[0], 1e-300)
    objs = [(E, 1.0), (E.tolist(), 1.0), (np.asfortranarray(E), 1.0), (E * 1e-9, 1e-9), (E * 1e9, 1e9)] + ([(E.astype(t), 1.0) for t in (int, np.int8, np.int16, np.float32)] if "e" in case else [])
    for A, f in objs:
        tol = 1e-5 if getattr(A, "dtype", None) == np.float32 else 1e-7
        keep = np.array(A)
        D = rank_decomposition(A)
        c.true(len(D) == r, f"{len(D)} entries for {m}x{n}")
        for k, B in enumerate(D, 1):
            B = np.asarray(B)
            c.true(B.shape == (m, n), f"entry {k} has shape {B.shape}")
            dist = np.sqrt(np.sum((E * f - B) ** 2)); best = f * np.sqrt(np.sum(s[k:] ** 2))
            c.true(abs(dist - best) <= tol * sc * f, f"entry {k} of {E.tolist()}: distance {dist}, best possible {best}")
            sv = np.linalg.svd(B, compute_uv=False)
            c.true(np.all(sv[k:] <= (1e-12 if tol < 1e-6 else tol) * sc * f * max(m, n)), f"entry {k} of {E.tolist()} has rank above {k}: {sv.tolist()}")
            c.state(k, f, B)
        c.close(D[-1], E * f, "last entry", atol=(1e-12 if tol < 1e-6 else tol) * sc * f, rtol=0)
        c.true(np.array_equal(np.array(A), keep), "matrix modified")
        if r > 1:
            last = np.array(D[-1]); D[0][...] = 7.0
            c.close(D[-1], last, "entries share memory", rtol=0)
