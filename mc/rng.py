"""the harness owns the noise: numpy's normal and uniform sources answered from an enumerated tape"""
import contextlib
import numpy as np

class Tape:
    def __init__(self, values):
        self.v = list(values); self.used = 0; self.calls = []
    def take(self, size):
        shape = () if size is None else ((int(size),) if np.isscalar(size) else tuple(size))
        k = int(np.prod(shape)) if shape else 1
        out = np.array([self.v[(self.used + i) % len(self.v)] for i in range(k)], float)
        self.used += k; self.calls.append(shape)
        return float(out[0]) if size is None else out.reshape(shape)
    # normal
    def randn(self, *shape):
        return self.take(shape if shape else None)
    def standard_normal(self, size=None, *a, **k):
        return self.take(size)
    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self.take(size)

@contextlib.contextmanager
def normals(values):
    """every numpy normal draw made inside comes from `values`, in order"""
    t = Tape(values)
    saved = {n: getattr(np.random, n) for n in ("randn", "standard_normal", "normal", "default_rng")}
    np.random.randn, np.random.standard_normal, np.random.normal = t.randn, t.standard_normal, t.normal
    np.random.default_rng = lambda *a, **k: t
    try:
        yield t
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
