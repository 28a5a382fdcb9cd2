"""Observation of drawings: what is on a figure, what is saved, which frames a movie gets."""

from __future__ import annotations
import contextlib
import numpy as np
import matplotlib
from matplotlib import animation, pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, PolyCollection, TriMesh
from matplotlib.figure import Figure


def triangles(fig_or_ax):
    """All drawn temperature meshes: (polygons (T, 3, 2), face values (T,), (vmin, vmax))."""
    axes = fig_or_ax.axes if isinstance(fig_or_ax, Figure) else [fig_or_ax]
    res = []
    for ax in axes:
        for col in ax.collections:
            if not col.get_visible():
                continue
            if isinstance(col, TriMesh):
                tri = col._triangulation
                P = np.column_stack([tri.x, tri.y])
                v = np.asarray(col.get_array(), dtype=float)
                T = tri.get_masked_triangles()
                res.append((P[T], v[T].mean(axis=1), col.get_clim()))
            elif isinstance(col, PolyCollection) and col.get_array() is not None:
                V = np.array([p.vertices[:3] for p in col.get_paths()])
                res.append((V, np.asarray(col.get_array(), dtype=float), col.get_clim()))
    return res


def limits(fig_or_ax):
    ax = fig_or_ax.axes[0] if isinstance(fig_or_ax, Figure) else fig_or_ax
    return ax.get_xlim(), ax.get_ylim()


def points(ax):
    P = [np.asarray(col.get_offsets(), dtype=float) for col in ax.collections
         if isinstance(col, PathCollection) and not isinstance(col, (PolyCollection, LineCollection))]
    for l in ax.lines:
        if l.get_marker() not in (None, "None", "", " "):
            P.append(np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float))
    return np.concatenate(P) if P else np.zeros((0, 2))


def segments(ax):
    S = []
    for l in ax.lines:
        xy = np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float)
        S += [(xy[k], xy[k + 1]) for k in range(len(xy) - 1) if l.get_linestyle() not in ("None", "", " ")]
    for col in ax.collections:
        if isinstance(col, LineCollection):
            for s in col.get_segments():
                S += [(s[k], s[k + 1]) for k in range(len(s) - 1)]
    return [p for p in S if np.all(np.isfinite(np.array(p)))]


def content(fig):
    return {"meshes": triangles(fig), "limits": limits(fig) if fig.axes else None}


def style(fig):
    """Everything else about a figure that settings can influence."""
    res = [tuple(fig.get_size_inches()), fig.get_dpi(), tuple(fig.get_facecolor()), fig.get_constrained_layout(), fig.get_tight_layout()]
    for ax in fig.axes:
        res += [tuple(ax.get_facecolor()), tuple(ax.get_position().bounds), ax.axison, ax.get_aspect(), ax.get_title(), ax.margins()]
        for axis in (ax.xaxis, ax.yaxis):
            res += [axis.get_inverted(), axis.get_scale(), tuple(map(float, axis.get_ticklocs())), [t.get_text() for t in axis.get_ticklabels()]]
            res += [(t.label1.get_size(), t.label1.get_color(), t.gridline.get_visible()) for t in axis.get_major_ticks()[:1]]
        for s in ax.spines.values():
            res += [s.get_visible(), s.get_linewidth(), tuple(s.get_edgecolor())]
        for col in ax.collections:
            res += [type(col).__name__, np.asarray(col.get_linewidths()).tolist(), np.asarray(col.get_edgecolor()).tolist(),
                    getattr(col.get_cmap(), "name", None), type(col.norm).__name__, col.get_alpha(), col.get_zorder()]
    return repr(res)


class Saves:
    """Log of all figures written through savefig, with their contents at that moment."""

    def __init__(self, dpi=None):
        self.log, self.dpi = [], dpi

    @contextlib.contextmanager
    def watching(self):
        original, log, dpi = Figure.savefig, self.log, self.dpi

        def savefig(fig, fname, *a, **k):
            log.append((str(fname), content(fig)))
            if dpi is not None:
                k["dpi"] = dpi
            return original(fig, fname, *a, **k)

        Figure.savefig = savefig
        try:
            yield self
        finally:
            Figure.savefig = original


class Movies:
    """Stand-in for the movie writer (no ffmpeg here): records the frames and writes a placeholder."""

    def __init__(self):
        self.log = []

    @contextlib.contextmanager
    def watching(self):
        movies = self

        class Writer(animation.AbstractMovieWriter):
            def __init__(self, fps=5, codec=None, bitrate=None, extra_args=None, metadata=None, **_k):
                super().__init__(fps=fps, metadata=metadata, codec=codec, bitrate=bitrate)
                self.frames = []

            @classmethod
            def isAvailable(cls):
                return True

            supported_formats = ["rgba"]
            frame_format = "rgba"

            def setup(self, fig, outfile, dpi=None, *a, **k):
                super().setup(fig, outfile, dpi=dpi)

            def grab_frame(self, **_k):
                self.frames.append(content(self.fig))

            def finish(self):
                with open(self.outfile, "w") as f:
                    f.write(f"{len(self.frames)} frames\n")
                movies.log.append((str(self.outfile), self.frames))

        reg = animation.writers._registered
        old = dict(reg)
        for name in ("ffmpeg", "ffmpeg_file", "imagemagick", "imagemagick_file", "pillow", "html"):
            reg[name] = Writer
        direct = {n: getattr(animation, n) for n in ("FFMpegWriter", "FFMpegFileWriter", "PillowWriter")}
        for n in direct:
            setattr(animation, n, Writer)
        rc = matplotlib.rcParams["animation.writer"]
        try:
            yield self
        finally:
            reg.clear()
            reg.update(old)
            for n, w in direct.items():
                setattr(animation, n, w)
            matplotlib.rcParams["animation.writer"] = rc


def close_all():
    plt.close("all")
