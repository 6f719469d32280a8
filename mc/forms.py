"""every way a caller may hold the same numbers"""
import numpy as np

def array_forms(A, ints=None):
    """[(name, object)] all equal to A"""
    A = np.array(A, float)
    big = np.full(tuple(2 * s for s in A.shape), 777.0)
    big[tuple(slice(None, None, 2) for _ in A.shape)] = A
    strided = big[tuple(slice(None, None, 2) for _ in A.shape)]
    rev = A[::-1].copy()[::-1]
    ro = A.copy(); ro.setflags(write=False)
    out = [("c", A.copy()), ("list", A.tolist()), ("fortran", np.asfortranarray(A.copy())), ("strided", strided), ("reversed", rev),
           ("readonly", ro), ("listofarrays", [r.copy() if isinstance(r, np.ndarray) else float(r) for r in A]), ("tuple", tuple(map(tuple, A.tolist())) if A.ndim == 2 else tuple(A.tolist()))]
    if np.all(A == A.astype(np.float32)):
        out.append(("f32", A.astype(np.float32)))
    if np.all(A == np.floor(A)) and ints is not False:
        out += [("int", A.astype(int)), ("intlist", A.astype(int).tolist()), ("int32", A.astype(np.int32))]
    return out

def snapshot(o):
    if isinstance(o, np.ndarray):
        return ("a", o.copy(), o.shape, o.dtype.str)
    if isinstance(o, (list, tuple)):
        return ("l", [snapshot(x) for x in o])
    if isinstance(o, dict):
        return ("d", {k: snapshot(v) for k, v in o.items()})
    return ("v", o)

def same(o, s):
    if s[0] == "a":
        return isinstance(o, np.ndarray) and o.shape == s[2] and o.dtype.str == s[3] and np.array_equal(o, s[1], equal_nan=o.dtype.kind == "f")
    if s[0] == "l":
        return len(o) == len(s[1]) and all(same(x, y) for x, y in zip(o, s[1]))
    if s[0] == "d":
        return set(o) == set(s[1]) and all(same(o[k], s[1][k]) for k in o)
    return o is s[1] or o == s[1]

def scramble(o):
    """overwrite everything the caller still holds"""
    if isinstance(o, np.ndarray):
        if not o.flags.writeable:
            try:
                o.setflags(write=True)
            except ValueError:
                return
        o[...] = (o == 0) if o.dtype.kind == "b" else 5
    elif isinstance(o, list):
        for i, x in enumerate(o):
            if isinstance(x, (list, np.ndarray)):
                scramble(x)
            else:
                o[i] = 5
    elif isinstance(o, dict):
        for v in o.values():
            scramble(v)
