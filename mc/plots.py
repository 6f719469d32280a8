"""reading back what was drawn"""
import numpy as np
from matplotlib.figure import Figure

_ax = None

def axes():
    """a fresh axes outside pyplot's current-figure state (reused per process, cleared)"""
    global _ax
    if _ax is None:
        _ax = Figure(figsize=(3, 2)).add_subplot(1, 1, 1)
    for a in list(_ax.lines) + list(_ax.collections) + list(_ax.texts) + list(_ax.patches):
        a.remove()
    for nm in ("contour", "contourf"):          # recorders of a previous use
        _ax.__dict__.pop(nm, None)
    if _ax.get_legend() is not None:
        _ax.get_legend().remove()
    _ax.set_xlabel(""); _ax.set_ylabel(""); _ax.set_title(""); _ax.set_xscale("linear"); _ax.set_yscale("linear")
    _ax.set_xlim(0, 1); _ax.set_ylim(0, 1)
    return _ax

def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]

def labelled(ax, label):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines if l.get_label() == label]

def curves(ax):
    """lines that are not vertical markers"""
    return [(x, y) for x, y in lines(ax) if not (len(x) == 2 and x[0] == x[1])]

def verticals(ax):
    return [float(x[0]) for x, y in lines(ax) if len(x) == 2 and x[0] == x[1]]

def scatters(ax):
    return [np.asarray(s.get_offsets(), float) for s in ax.collections if hasattr(s, "get_offsets") and len(s.get_offsets())]

def norm_curve(x, y):
    """a curve as a density on its grid (total one), so that only its shape is compared"""
    return np.asarray(y, float) / (np.sum(y) * abs(x[1] - x[0]))
