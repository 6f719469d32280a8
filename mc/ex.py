"""driving the example commands: data sets, a runner that keeps figures open, what was drawn and written"""
import os, pickle, random, re, shutil, struct, tempfile, warnings
import numpy as np
from mc import alpha

class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="mcex_")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def gauss(n, k, s):
    return np.random.RandomState(1000 + s).standard_normal((n, k))

def poisson_file(d, n=14, m=9, s=0, box=((-4, 0), (-4, 0)), name="pdata"):
    """a data set in the stored format: samples in the box, smooth generic responses"""
    box = np.array(box, float)
    lam = box[:, 0] + (box[:, 1] - box[:, 0]) * np.random.RandomState(s).rand(n, len(box))
    sens = np.random.RandomState(50 + s).rand(m, 2)
    f = lambda l: np.array([sum(l[k] * np.sin((k + 1) * 2 * x + 3 * y + k) for k in range(len(l))) * 0.1 + 0.05 * np.prod(l) * x for x, y in sens])
    data = np.array([f(l) for l in lam])
    true = f(box.mean(axis=1) + 0.25).reshape(-1, 1)
    g = np.linspace(0, 1, 5); mesh = np.array([[x, y] for x in g for y in g])
    D = dict(lam=lam, data=data, true_vals=true, domain=[tuple(b) for b in box.tolist()], sensors=sens, u=(mesh, np.cos(mesh[:, 0] + 2 * mesh[:, 1]) - 1))
    p = os.path.join(d, name)
    with open(p, "wb") as fp:
        pickle.dump(D, fp)
    return p, D

def adcirc_file(d, n=16, start="2018-01-01T00:00", step=30, T=96, s=0, name="adata"):
    rs = np.random.RandomState(70 + s)
    dom = np.array([[0.0335, 0.1005], [0.00125, 0.00375]])
    lam = dom[:, 0] + (dom[:, 1] - dom[:, 0]) * rs.rand(n, 2)
    times = np.datetime64(start).astype("datetime64[ns]") + np.arange(1, T + 1) * np.timedelta64(step, "m")
    u = np.arange(T) * 0.37
    def f(l):
        a, b = (l[0] - 0.0335) / 0.067, (l[1] - 0.00125) / 0.0025
        return np.sin(u) * (0.5 + a) + np.cos(0.53 * u) * b + 0.1 * a * b
    data = np.array([f(l) for l in lam])
    ref = np.array([0.06, 0.0025])
    g = np.linspace(0, 1, 4); X = np.array([x for x in g for y in g]) - 72.9; Y = np.array([y for x in g for y in g]) + 40.3
    tri = [[4 * i + j, 4 * i + j + 1, 4 * i + j + 4] for i in range(3) for j in range(3)] + [[4 * i + j + 1, 4 * i + j + 5, 4 * i + j + 4] for i in range(3) for j in range(3)]
    grid = dict(triangles=np.array(tri), X=X, Y=Y, XEL=np.array([-72.4, -72.2]), YEL=np.array([40.7, 40.8]), wind_speed_mult_0=X + 73 + 0.5 * Y - 20,
                other=1000 + 3 * X * Y, DP=5 * np.sin(3 * X) + 2)
    D = dict(lam=lam, data=data, true_vals=f(ref), lam_ref=ref, domain=dom, times=times, grid_data=grid, wind_speed=[times[::8], 5 + np.arange(len(times[::8])) % 7])
    p = os.path.join(d, name)
    with open(p, "wb") as fp:
        pickle.dump(D, fp)
    return p, D

class defaults:
    """other default values for parameters of a function, by name; names it does not have are left out"""
    def __init__(self, fn, **kw):
        import inspect
        self.fn = inspect.unwrap(fn); self.old = self.fn.__defaults__
        names = [p.name for p in inspect.signature(self.fn).parameters.values() if p.default is not p.empty and p.kind is not p.KEYWORD_ONLY]
        self.new = tuple(kw.get(n, v) for n, v in zip(names, self.old or ()))
    def __enter__(self):
        self.fn.__defaults__ = self.new
    def __exit__(self, *a):
        self.fn.__defaults__ = self.old

class Result:
    pass

def observed(fn):
    """runs fn with figures kept open; returns (value, drawings, paths saved, number of show calls, printed)"""
    import contextlib, io
    import matplotlib.pyplot as plt
    plt.close("all")
    from matplotlib.figure import Figure
    real = plt.close, Figure.savefig, plt.show
    R = Result(); R.saved = []; R.shown = 0; R.value = None
    def save(self, fname, *a, **k):
        R.saved.append((os.path.abspath(str(fname)), k.get("dpi"), drawing(self)))
        return real[1](self, fname, *a, **k)
    def show(*a, **k):
        R.shown += 1
    try:
        plt.close, Figure.savefig, plt.show = (lambda *a, **k: None), save, show
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            R.value = fn()
        R.figs = [drawing(plt.figure(k)) for k in plt.get_fignums()]
    finally:
        plt.close, Figure.savefig, plt.show = real
        plt.close("all")
    return R

def drawing(fig):
    out = []
    for ax in fig.axes:
        out.append(dict(xlim=ax.get_xlim(), ylim=ax.get_ylim(), title=ax.get_title(), texts=[t.get_text() for t in ax.texts],
                        lines=[(num(l.get_xdata()), num(l.get_ydata())) for l in ax.lines],
                        points=[np.asarray(s.get_offsets(), float) for s in ax.collections if len(np.shape(s.get_offsets())) == 2 and not hasattr(s, "levels")],
                        levels=[(np.asarray(s.levels, float), float(getattr(s, "zmin", 0) or 0), float(getattr(s, "zmax", 0) or 0)) for s in ax.collections if hasattr(s, "levels")],
                        labels=(ax.get_xlabel(), ax.get_ylabel()), suptitle=fig.get_suptitle() if hasattr(fig, "get_suptitle") else None))
    return out

def num(v):
    v = np.asarray(v)
    if v.dtype.kind == "M":
        return v.astype("datetime64[s]").astype(float)
    try:
        return v.astype(float)
    except Exception:
        import pandas as pd
        return np.asarray(pd.to_datetime(np.ravel(v))).astype("datetime64[s]").astype(float)

def command(args, d, seed=None, dpi=10, show=None, env=None):
    from click.testing import CliRunner
    from mud.cli import cli
    a = ["examples"] + ([] if show is None else ["-s" if show else "-ns"]) + ([] if d is None else ["--save-path", d]) + ([] if dpi is None else ["--dpi", str(dpi)]) \
        + ([] if seed is None else ["--seed", str(seed)]) + list(args)
    R = observed(lambda: CliRunner().invoke(cli, a))
    R.code, R.out, R.exc = R.value.exit_code, R.value.stdout, R.value.exception
    if R.code == 2:
        R.out = R.value.output
    return R

def close(a, b, tol=1e-9):
    """two drawings (or numbers, lists of numbers) equal to a relative tolerance"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in "fiub" or b.dtype.kind not in "fiub":
            return a.tolist() == b.tolist()
        s = max([1e-300] + [float(np.max(np.abs(x[np.isfinite(x)]))) for x in (a, b) if np.isfinite(x).any()])
        return np.array_equal(np.isnan(a), np.isnan(b)) and bool(np.allclose(a, b, rtol=tol, atol=tol * s, equal_nan=True))
    if isinstance(a, (float, np.floating)):
        return a == b or abs(a - b) <= tol * max(abs(a), abs(b), 1e-12) or (a != a and b != b)
    return a == b

def table(txt):
    rows = [ln for ln in txt.splitlines() if ln.startswith("|")]
    return [[x.strip() for x in ln.strip()[1:-1].split("|")] for ln in rows]

def numbers(s):
    return [float(x) for x in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf", s)]

def png_size(p):
    with open(p, "rb") as fp:
        h = fp.read(24)
    return struct.unpack(">II", h[16:24])
