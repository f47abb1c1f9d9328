"""Watching matplotlib: what is on the axes when a figure is shown or saved."""
import contextlib

import matplotlib
import matplotlib.collections as mcoll
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np


def nothing(style):
    return style in ("None", "none", " ", "", None)


class Axes:
    """Plain content of one axes."""

    def __init__(self, ax, render=False):
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.title = ax.get_title()
        self.aspect = ax.get_aspect()
        self.axis_on = ax.axison
        self.markers = []        # (x, y, colour)
        self.paths = []          # (array of points, colour, width, style)
        self.marker_sizes = []
        self.others = []
        for line in ax.lines:
            if not line.get_visible():
                continue
            xy = np.column_stack([np.asarray(line.get_xdata(), dtype=float).ravel(),
                                  np.asarray(line.get_ydata(), dtype=float).ravel()])
            if not nothing(line.get_marker()):
                face = line.get_markerfacecolor()
                self.markers += [(x, y, matplotlib.colors.to_rgba(face)) for x, y in xy]
                self.marker_sizes.append(line.get_markersize())
            if not nothing(line.get_linestyle()) and len(xy) > 1:
                self.paths.append((xy, matplotlib.colors.to_rgba(line.get_color()), line.get_linewidth(), line.get_linestyle()))
        for coll in ax.collections:
            if not coll.get_visible():
                continue
            if isinstance(coll, mcoll.PathCollection):
                self.markers += [(x, y, tuple(coll.get_facecolor()[0])) for x, y in np.asarray(coll.get_offsets(), dtype=float)]
            elif isinstance(coll, mcoll.LineCollection):
                for seg in coll.get_segments():
                    self.paths.append((np.asarray(seg, dtype=float), tuple(coll.get_color()[0]), coll.get_linewidth()[0], "-"))
            else:
                self.others.append(type(coll).__name__)
        self.others += [type(p).__name__ for p in ax.patches + ax.images]
        self.texts = [(t.get_text(), t.get_position(), t.get_transform() == ax.transAxes) for t in ax.texts if t.get_visible()]

    @property
    def points(self):
        return np.array([m[:2] for m in self.markers], dtype=float).reshape(-1, 2)

    def segments(self):
        """All straight pieces of all drawn lines."""
        res = []
        for xy, *_ in self.paths:
            res += [(xy[k], xy[k + 1]) for k in range(len(xy) - 1) if np.all(np.isfinite(xy[k:k + 2]))]
        return res


class Watch:
    def __init__(self):
        self.shown = []          # lists of Axes, one per show()
        self.saved = []          # (path, Axes list, keyword arguments)


@contextlib.contextmanager
def watching(render=False):
    """Record every figure shown or saved; nothing stays open afterwards."""
    watch = Watch()
    plt.close("all")

    def contents():
        res = []
        for num in plt.get_fignums():
            fig = plt.figure(num)
            if render:
                fig.canvas.draw()
            res.append([Axes(ax) for ax in fig.axes])
        return res

    def show(*args, **kwargs):
        watch.shown.append(contents())

    def fig_show(self, *args, **kwargs):
        watch.shown.append([[Axes(ax) for ax in self.axes]])

    real_save = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *args, **kwargs):
        watch.saved.append((fname, [Axes(ax) for ax in self.axes], kwargs))
        return real_save(self, fname, *args, **kwargs)
    old = plt.show, matplotlib.figure.Figure.show
    plt.show = show
    matplotlib.figure.Figure.show = fig_show
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield watch
    finally:
        plt.show, matplotlib.figure.Figure.show = old
        matplotlib.figure.Figure.savefig = real_save
        plt.close("all")


def same_set(a, b, tol=1e-8):
    """Mutual inclusion of two sets of points; None or a difference."""
    a = np.asarray(a, dtype=float).reshape(len(a), -1)
    b = np.asarray(b, dtype=float).reshape(len(b), -1)
    if len(a) == 0 or len(b) == 0:
        return None if len(a) == len(b) else "one is empty: {0} and {1}".format(len(a), len(b))
    for x, y, word in ((a, b, "superfluous"), (b, a, "absent")):
        for start in range(0, len(x), 500):
            part = x[start:start + 500]
            d = np.max(np.abs(part[:, None, :] - y[None, :, :]), axis=-1).min(axis=1)
            k = int(np.argmax(d))
            if d[k] > tol:
                return "{0}: {1}".format(word, part[k])
    return None
