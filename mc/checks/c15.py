RULE = """Every prediction array with entries from {-1,0,2} (float and integer) with up to six entries - 1..3 samples by 1..4 observations - with
every data vector over {-1,0,3} up to three observations, plus generic ones up to 7 x 500 and 2 x 5001 at magnitudes 1e-8 to 1e8, each with the data as
list, tuple, vector, column, row, integer, strided and reversed view and nested list, the predictions as C, Fortran,
strided and reversed view and as a bare single sample, deviations given as int, float and numpy scalar or left out. Every wrong
data length 0..8 against 1..7 observations. Oracle: the sum written out term by term; byte snapshots of the arguments."""
import itertools, math
import numpy as np
from mc import alpha, forms

def cases(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (2, 3), (3, 2), (1, 5)] + ([(2, 4), (4, 2)] if tier == "thorough" else [])
    for n, N in shapes:
        for e in itertools.product((-1, 0, 2), repeat=n * N):
            yield dict(n=n, N=N, e=list(e))
    for n, N in ((7, 1), (1, 7), (3, 10), (7, 100), (5, 500), (3, 1500), (1, 2049), (2, 5001)):
        for k in range(3):
            for m in (1e-8, 1.0, 1e8):
                yield dict(n=n, N=N, g=k, m=m)
    for N in range(1, 8):
        for m in range(9):
            if m != N:
                yield dict(bad=m, N=N)

def written(P, d, sd):
    N = len(d)
    if sd is None:
        mu = sum(d) / N
        sd = math.sqrt(sum((x - mu) ** 2 for x in d) / N)
    if sd == 0:
        return None, 0
    return np.array([sum((row[j] - d[j]) / (sd * math.sqrt(N)) for j in range(N)) for row in P]), sd

def data_forms(d):
    big = np.full(2 * len(d), 99.0); big[::2] = d
    out = [d.copy(), d.reshape(-1, 1).copy(), d.reshape(1, -1).copy(), d.tolist(), tuple(d.tolist()), big[::2], d[::-1].copy()[::-1], d.reshape(-1, 1).tolist()]
    if np.all(d == np.floor(d)):
        out += [d.astype(int), d.astype(int).tolist(), d.astype(np.int8)]
    return out

def run(case, c):
    from mud.funs import wme
    N = case["N"]
    if "bad" in case:
        for n in (1, 3):
            P = alpha.gen(n, N, 1)
            for d in (np.arange(case["bad"]) + 1.0, (np.arange(case["bad"]) + 1.0).reshape(-1, 1), [1.0] * case["bad"]):
                c.raises(lambda: wme(P, d, 1.0), f"{case['bad']} data for {N} observations")
                if case["bad"]:
                    c.raises(lambda: wme(P, d), f"{case['bad']} data for {N} observations")
                if n == 1:
                    c.raises(lambda: wme(P.ravel(), d, 1.0), f"{case['bad']} data for {N} observations of a bare sample")
        return
    n = case["n"]
    if "e" in case:
        P = np.array(case["e"], float).reshape(n, N)
        datas = [np.array(d, float) for d in itertools.product((-1, 0, 3), repeat=N)] if N <= 3 else [np.arange(N) - 1.0, 2 * alpha.gen(N, 1, 2).ravel() - 1, np.full(N, 2.0)]
    else:
        P = (2 * alpha.gen(n, N, case["g"]) - 1) * case["m"]; datas = [case["m"] * (2 * alpha.gen(N, 1, case["g"] + 4).ravel() - 0.5)]
    h = sum(case.get("e", [0])) % 7
    for i, d in enumerate(datas):
        df = data_forms(d)
        pf = [P.copy(), np.asfortranarray(P), forms.array_forms(P)[3][1], forms.array_forms(P)[4][1]] + ([P.astype(int)] if "e" in case else [])
        if n == 1:
            pf.append(P.ravel().copy())
        combos = [(pf[(h + i) % len(pf)], x) for x in df] + [(x, df[(h + i) % len(df)]) for x in pf]
        for j, (pp, dd) in enumerate(combos):
            sd = [None, 1.0, 2, 0.05, np.float64(3.5)][(i + j + h) % 5]
            w, used = written(P.tolist(), d.tolist(), sd)
            if used == 0 or (sd is None and used < 1e-9 * np.abs(d).max()):
                sd = 0.5; w, used = written(P.tolist(), d.tolist(), sd)
            snap = forms.snapshot([pp, dd])
            got = wme(pp, dd, sd) if sd is not None or j % 2 else wme(pp, dd)
            s = max(np.abs(w).max(), N * (np.abs(P).max() + np.abs(d).max()) / used / math.sqrt(N), 1e-300)
            c.close(got, w, f"WME of {P.tolist() if n * N < 9 else 'generic'} and {d.tolist()[:5]} (sd {sd}, layout {j})", rtol=1e-11, atol=1e-12 * s)
            c.true(forms.same([pp, dd], snap), "arguments modified")
