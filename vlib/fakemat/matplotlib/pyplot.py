"""Figures that record. Saving one pickles the record at the path; what the real library would refuse is refused."""
import pickle

import numpy as np

_current = None
saved = []


def _vals(a):
    return np.array(a.tolist() if isinstance(a, np.ndarray) and a.dtype == object else a, dtype=object if isinstance(a, np.ndarray) and a.dtype == object else None, ndmin=1)


class Box:
    x0 = y0 = .1
    width = height = .8


class Axes:
    def __init__(self):
        self.rec = {"curves": [], "hlines": [], "vlines": [], "legend": False, "ylim": None, "xlim": None, "xlabel": None, "ylabel": None, "title": None, "text": [],
                    "mesh": None, "hist": None}

    def errorbar(self, x, y, yerr=None, xerr=None, label=None, linestyle=None, **k):
        x, y = _vals(x), _vals(y)
        if x.shape != y.shape:
            raise ValueError("x and y must have the same size")
        err = []
        for e in (xerr, yerr):
            if e is not None:
                e = np.array(np.broadcast_to(np.asarray(e, dtype=float), x.shape))
                if np.any(e < 0):
                    raise ValueError("error bars must not be negative")
            err.append(e)
        self.rec["curves"].append({"x": x, "y": y, "xerr": err[0], "yerr": err[1], "label": label, "line": linestyle})

    def plot(self, x, y, *a, **k):
        self.errorbar(x, y, label=k.get("label"), linestyle=k.get("linestyle"))

    scatter = plot

    def hist2d(self, x, y, bins=10, **k):
        self.rec["hist"] = (_vals(x), _vals(y), bins)
        return np.zeros((2, 2)), np.zeros(3), np.zeros(3), None

    def axhline(self, y=0, **k):
        self.rec["hlines"].append(y)

    def axvline(self, x=0, **k):
        self.rec["vlines"].append(x)

    def set_xlabel(self, s, **k):
        self.rec["xlabel"] = s

    def set_ylabel(self, s, **k):
        self.rec["ylabel"] = s

    def set_title(self, s, **k):
        self.rec["title"] = s

    def set_xlim(self, *a, **k):
        self.rec["xlim"] = a

    def set_ylim(self, *a, **k):
        self.rec["ylim"] = a

    def legend(self, *a, **k):
        self.rec["legend"] = True

    def text(self, x, y, s, **k):
        self.rec["text"].append(s)

    def pcolormesh(self, x, y, z, **k):
        self.rec["mesh"] = (np.array(x), np.array(y), np.array(z))

    transAxes = None

    def get_position(self):
        return Box()

    def set_position(self, p):
        pass

    def set_xticks(self, *a, **k):
        pass

    set_xticklabels = set_yticks = set_yticklabels = tick_params = grid = ticklabel_format = margins = minorticks_on = autoscale = set_xticks
    set_facecolor = set_aspect = set_axisbelow = set_xscale = set_yscale = set_xmargin = set_ymargin = set_xticks

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def get_legend_handles_labels(self):
        names = [c["label"] for c in self.rec["curves"] if c["label"] is not None]
        return [None] * len(names), names


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        self.axes[-1].figure = self
        return self.axes[-1]

    add_axes = add_subplot

    def subplots(self, *a, **k):
        return self.add_subplot()

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def clf(self, *a, **k):
        self.axes = []

    clear = clf

    def savefig(self, path, **k):
        with open(path, "wb") as f:
            pickle.dump(self.axes[-1].rec if self.axes else None, f)
        saved.append(str(path))

    def tight_layout(self, *a, **k):
        pass

    colorbar = set_size_inches = subplots_adjust = set_tight_layout = show = tight_layout


def figure(*a, **k):
    global _current
    _current = Figure()
    return _current


def subplots(*a, **k):
    f = figure()
    return f, f.add_subplot(111)


def gcf():
    return _current if _current is not None else figure()


def gca():
    return gcf().gca()


def savefig(path, **k):
    gcf().savefig(path, **k)


def _on_axes(name):
    return lambda *a, **k: getattr(gca(), name)(*a, **k)


subplot = axes = lambda *a, **k: gcf().add_subplot()
errorbar, plot, scatter, hist2d, axhline, axvline, legend, text, grid = [
    _on_axes(n) for n in ("errorbar", "plot", "scatter", "hist2d", "axhline", "axvline", "legend", "text", "grid")]
xlabel, ylabel, title, xlim, ylim, xticks, yticks = [
    _on_axes("set_" + n) for n in ("xlabel", "ylabel", "title", "xlim", "ylim", "xticks", "yticks")]


def clf():
    gcf().clf()


cla = clf


def close(*a):
    pass


def show(*a, **k):
    pass


tight_layout = colorbar = subplots_adjust = ioff = ion = draw = show


def pcolormesh(x, y, z, **k):
    gca().pcolormesh(x, y, z)


def get_cmap(name=None):
    return lambda v: (float(v), 0., 0., 1.)
