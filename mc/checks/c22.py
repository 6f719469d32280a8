RULE = """Every matrix over {-1,0,1,2} of shapes 1x1..2x3 and 3x2, over {0,1} (thorough {-1,0,1}) 3x3, 2x4, 4x2, 1x5, 5x1 and 4x3, each also scaled by 1e-270, 1e-150, 1e-9, 1e9,
1e150 and 1e270, with badly scaled rows and columns within the tolerance, as complex combination of two maps, as list, integer, single
precision and Fortran array; matrices with prescribed singular values 1..1e-12 under tolerances 1e-1..1e-15 given and default, on each side of
the threshold, up to 12x12. Oracle: exact rational rank; orthonormality and annihilation of every returned column; the count from the
prescribed singular values."""
import itertools, math
import numpy as np
from mc import ref, alpha

def cases(tier):
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
        ent = (-1, 0, 1, 2) if m * n <= 4 or tier == "thorough" else (-1, 0, 1)
        for e in itertools.product(ent, repeat=m * n):
            yield dict(m=m, n=n, e=list(e))
    for m, n in ((3, 3), (2, 4), (4, 2), (1, 5), (5, 1), (4, 3), (3, 4)):
        for e in itertools.product((0, 1) if tier == "quick" or m * n > 9 else (-1, 0, 1), repeat=m * n):
            yield dict(m=m, n=n, e=list(e))
    for m, n in itertools.product((2, 3, 4, 6, 12), repeat=2):
        for k in range(min(m, n) + 1):
            for t in range(6):
                yield dict(sv=k, m=m, n=n, t=t)

    for m, n in itertools.product((1, 2, 3, 4), repeat=2):
        for v in itertools.product((1.0, 1e-9, 1e-18, 0.0), repeat=min(m, n)):
            yield dict(exact=list(v), m=m, n=n)
    for m, n in itertools.product((1, 2, 3, 5, 8), repeat=2):
        for r in range(min(m, n) + 1):
            for s in range(3):
                yield dict(f32=r, m=m, n=n, s=s)

def rotation(n, s):
    return np.linalg.qr(2 * alpha.gen(n, n, s) - 1)[0]

def good(c, Z, A, n, dim, what, ann, eps=1e-12):
    Z = np.asarray(Z)
    c.true(Z.shape == (n, dim), f"{what}: basis of shape {Z.shape}, expected {(n, dim)}")
    c.close(Z.conj().T @ Z, np.eye(dim), f"orthonormality, {what}", atol=eps * 100, rtol=0)
    if dim:
        c.true(np.max(np.abs(A @ Z)) <= ann, f"{what}: A Z = {np.max(np.abs(A @ Z))}, allowed {ann}")

def single(case, c):
    """single-precision products of r columns and r rows: rank r to the precision of their type"""
    from mud.util import null_space
    m, n, r, s = case["m"], case["n"], case["f32"], case["s"]
    U, V = rotation(m, s)[:, :r], rotation(n, s + 3)[:, :r]
    for scale in (1.0, 1e-6, 1e6):
        for dt, eps in ((np.float32, 1e-6), (np.complex64, 1e-6), (np.float64, 1e-14)):
            A = (((U * np.linspace(2.0, 1.0, r)) @ V.T) * (1 + 2j if dt is np.complex64 else 1) * scale).astype(dt)
            sv = np.linalg.svd(A.astype(np.complex128), compute_uv=False)
            tol = np.finfo(dt).eps * max(m, n) * sv[0]
            if np.any((sv > 0.3 * tol) & (sv < 3 * tol)):
                c.bump("rank_at_tolerance"); continue
            Z = np.asarray(null_space(A))
            good(c, Z, A, n, n - int(np.sum(sv > tol)), f"{m}x{n} matrix of rank {r} in {np.dtype(dt)}", 30 * eps * scale, eps)

def run(case, c):
    from mud.util import null_space
    if "f32" in case:
        return single(case, c)
    m, n = case["m"], case["n"]
    if "exact" in case:
        # one entry per row and column: the singular values are the entries, so tolerances from zero up have a sharp meaning
        v = case["exact"]; top = max(v)
        for sh in (0, 1):
            A = np.zeros((m, n)); r = min(m, n)
            A[[(i + sh) % m for i in range(r)] if m >= n else range(r), [(i + sh) % n for i in range(r)] if n > m else range(r)] = v
            for rc in (0, 0.0, 1e-30, 1e-17, 1e-12, 1e-3, 1.0, None):
                t = np.finfo(float).eps * max(m, n) if rc is None else rc
                k = sum(x > t * top for x in v)
                for Z in ((null_space(A, rc), null_space(A, rcond=rc)) if rc is not None else (null_space(A),)):
                    good(c, Z, A, n, n - k, f"matrix of entries {v} with tolerance {rc}", (t + 1e-15) * top)
        return
    if "sv" in case:
        k, r = case["sv"], min(m, n)
        rc = [None, 1e-1, 1e-3, 1e-6, 1e-10, 1e-14][case["t"]]
        tol = np.finfo(float).eps * max(m, n) if rc is None else rc
        # k values above the threshold, the others below it, close to it when it is given
        up, dn = (2.0, 0.5) if rc is not None and rc > 1e-12 else (1e3, 0.0)
        s = [1.0] * min(1, k) + [min(1.0, tol * up * 1.5 ** i) for i in range(k - 1)] + [tol * dn] * (r - k)
        s = sorted(s, reverse=True)
        if k == 0:
            s = [0.0] * r
        for scale in (1.0, 1e-9, 1e9):
            for a in range(2):
                U, V = (rotation(m, a), rotation(n, a + 3)) if a else (np.eye(m), np.eye(n)[::-1])
                S = np.zeros((m, n)); S[range(r), range(r)] = np.array(s) * scale
                A = U @ S @ V.T
                Z = null_space(A, rc) if rc is not None and case["t"] % 2 else null_space(A, rcond=rc)
                good(c, Z, A, n, n - k, f"singular values {s[:6]} with tolerance {rc}", scale * (tol * 2 + 1e-13))
        return
    E = np.array(case["e"], float).reshape(m, n)
    F = ref.fr(E)
    rk = ref.rank(F)
    forms = [E, E.tolist(), E.astype(int), np.asfortranarray(E), E[::-1].copy()[::-1]]
    for i, A in enumerate(forms):
        good(c, null_space(A), E, n, n - rk, f"{case['e']} (layout {i})", 1e-12)
    for s in (1e-270, 1e-150, 1e-9, 1e9, 1e150, 1e270, -3.0):
        good(c, null_space(E * s), E, n, n - rk, f"{case['e']} scaled by {s}", 1e-11)
    f32 = null_space(E.astype(np.float32))
    good(c, f32, E, n, n - rk, f"{case['e']} in single precision", 1e-5, 1e-6)
    # rows and columns of very different size: still within the default tolerance
    R = np.diag(10.0 ** -(3 * np.arange(m)))
    if m <= 3:
        good(c, null_space(R @ E), R @ E, n, n - rk, f"{case['e']} with badly scaled rows", 1e-12)
    # complex: real and imaginary part, rank by exact elimination of the real embedding
    G = E[::-1, ::-1].copy()
    C = E + 1j * G
    emb = np.block([[E, -G], [G, E]])
    rc = ref.rank(ref.fr(emb)) // 2
    good(c, null_space(C), C, n, n - rc, f"{case['e']} complex", 1e-12)
    if rk:
        # generous and strict tolerances
        sv = np.sqrt(np.abs(np.linalg.eigvalsh(E @ E.T)))
        big = sv.max()
        for t in (0.9, 0.5, 0.1, 1e-5):
            if np.all(np.abs(sv - t * big) > 1e-6 * big):
                k = int(np.sum(sv > t * big))
                Z = np.asarray(null_space(E, rcond=t))
                c.true(Z.shape == (n, n - k), f"{case['e']} with tolerance {t}: {Z.shape}, expected {n - k} columns")
                c.true(Z.size == 0 or np.linalg.norm(E @ Z, 2) <= t * big * (1 + 1e-9) + 1e-12, "columns beyond the tolerance")
