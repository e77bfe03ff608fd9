"""Reading figures back: what a matplotlib artist shows, and the oracle of a slice."""

from __future__ import annotations

import warnings

import numpy as np
import matplotlib

from mon.core import Skip

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import QuadMesh  # noqa: E402
from matplotlib.colorbar import Colorbar  # noqa: E402

_add_solids = Colorbar._add_solids


def _add_solids_of_a_constant(self, X, Y, C):
    """matplotlib cannot draw a symlog colour bar of values which only differ by rounding."""
    try:
        return _add_solids(self, X, Y, C)
    except ValueError:
        lo, hi = self.norm.vmin, self.norm.vmax
        if hi - lo <= 1e-12 * max(abs(lo), abs(hi)):
            return None
        raise


Colorbar._add_solids = _add_solids_of_a_constant

MEASURES = ("real", "imag", "abs", "angle")
SCALES = ("linear", "symlog", "squared", "log")


def close_all():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        plt.close("all")


def measured(data, measure):
    data = np.asarray(data)
    if measure == "real":
        return np.real(data)
    if measure == "imag":
        return np.imag(data)
    if measure == "abs":
        return np.abs(data)
    return np.angle(data)


def frame(vectors, axes):
    """Orthonormal frame of the plane of some lattice vectors, in their order."""
    out = []
    for a in axes:
        v = np.array(vectors[a], dtype=float)
        for f in out:
            v = v - f * (f @ v)
        out.append(v / np.linalg.norm(v))
    return np.array(out)


def frequencies(n):
    return np.round(np.fft.fftfreq(n, 1.0 / n)).astype(int)


def take(arr, shape, axes, idx):
    """The elements of a grid at idx, with the given axes left, in the given order.

    arr: (..., *shape)
    """
    lead = arr.ndim - len(shape)
    rest = [a for a in range(len(shape)) if a not in axes]
    out = arr
    for a, v in sorted(zip(rest, idx, strict=True), reverse=True):
        out = np.take(out, v, axis=lead + a)
    order = [sorted(axes).index(a) for a in axes]
    return np.transpose(out, (*range(lead), *(lead + o for o in order)))


def slice_of(space, data, shape, dx, axes, idx):
    """(coordinates, values) of a slice, in increasing order of the index.

    data is given on the fundamental position grid; idx is an index in the space
    (storage order of the transform for momentum).
    """
    shape = tuple(shape)
    dx = np.asarray(dx, dtype=float)
    data = np.asarray(data).reshape(shape)
    if space == "x":
        lat = dx
        grid = [np.arange(n) / n for n in shape]
        values = data
    else:
        lat = 2 * np.pi * np.linalg.inv(dx).T
        grid = [frequencies(n) for n in shape]
        values = np.fft.fftn(data, norm="ortho")
    mesh = np.array(np.meshgrid(*grid, indexing="ij"), dtype=float)
    points = np.tensordot(lat, mesh, axes=(0, 0))
    coords = np.tensordot(frame(lat, axes), points, axes=(1, 0))
    c, v = take(coords, shape, axes, idx), take(values, shape, axes, idx)
    if space == "k":
        ax = tuple(range(v.ndim))
        c = np.fft.fftshift(c, axes=tuple(1 + a for a in ax))
        v = np.fft.fftshift(v, axes=ax)
    return c, v


def largest_index(values, axes):
    """Index of the largest value in the other axes; no answer where it is a tie."""
    mag = np.abs(values)
    at = np.unravel_index(np.argmax(mag), mag.shape)
    out = tuple(int(i) for a, i in enumerate(at) if a not in axes)
    best = np.max(mag, axis=tuple(axes))
    top = np.sort(np.ravel(best))[::-1]
    if top.size > 1 and top[0] - top[1] <= 1e-7 * top[0]:
        raise Skip
    return out


def largest(space, data, shape, axes):
    values = np.asarray(data).reshape(shape)
    if space == "k":
        values = np.fft.fftn(values, norm="ortho")
    return largest_index(values, axes)


# ----------------------------------------------------------------- reading
def line_xy(line):
    return (
        np.asarray(line.get_xdata(orig=True), dtype=float),
        np.asarray(line.get_ydata(orig=True)),
    )


def mesh_values(mesh):
    """Centres (2, n, m) of the cells of a mesh, and the values shown there."""
    corners = np.asarray(mesh.get_coordinates(), dtype=float)
    centres = 0.25 * (
        corners[:-1, :-1] + corners[1:, :-1] + corners[:-1, 1:] + corners[1:, 1:]
    )
    shape = centres.shape[:2]
    return np.moveaxis(centres, -1, 0), np.asarray(mesh.get_array()).reshape(shape)


def meshes(ax):
    return [c for c in ax.collections if isinstance(c, QuadMesh)]


def frames(ani):
    """The artists of every frame of an animation."""
    out = [list(f) for f in ani.new_frame_seq()]
    ani._draw_was_started = True  # no warning that it was never saved
    return out


# ----------------------------------------------------------------- monitors
def compare_values(ctx, name, shown, values, measure, *, tol=1e-8, scale=None):
    shown = np.asarray(shown)
    if measure == "angle":
        want = np.angle(values)
        if not ctx.check(name + "_shape", shown.shape == want.shape, actual=shown.shape,
                         expected=want.shape):
            return
        small = np.abs(values) < 1e-6 * (np.max(np.abs(values)) if scale is None else scale)
        d = np.where(small, 0, np.angle(np.exp(1j * (shown - want))))
        ctx.check(name, np.all(np.abs(d) < 1e-6), "phase differs", actual=shown, expected=want)
        return
    sc = float(np.max(np.abs(values))) if scale is None else scale
    ctx.close(name, shown, measured(values, measure), tol=tol, scale=sc or 1.0)


def compare_line(ctx, name, line, coords, values, measure, *, periodic=True, tol=1e-8,
                 scale=None):
    """The line shows the values at the coordinates (and the closing point)."""
    x, y = line_xy(line)
    if periodic:
        coords = np.append(coords, 2 * coords[-1] - coords[-2])
        values = np.append(values, values[0])
    span = float(np.max(np.abs(coords))) or 1.0
    ctx.close(name + "_coordinates", x, coords, tol=tol, scale=span)
    compare_values(ctx, name + "_values", y, values, measure, tol=tol, scale=scale)


def compare_mesh(ctx, name, mesh, coords, values, measure, *, tol=1e-8, scale=None):
    c, v = mesh_values(mesh)
    span = float(np.max(np.abs(coords))) or 1.0
    ctx.close(name + "_coordinates", c, coords, tol=1e-6, scale=span)
    compare_values(ctx, name + "_values", v, values, measure, tol=tol, scale=scale)


def in_view(ctx, name, ax):
    """Everything drawn as a line lies in the view."""
    lo, hi = sorted(ax.get_ylim())
    left, right = sorted(ax.get_xlim())
    for line in ax.lines:
        x, y = line_xy(line)
        y = np.real(y).astype(float)
        ok = np.isfinite(y)
        if ax.get_yscale() == "squared" or line.get_transform() is not ax.transData:
            continue  # the scale has no place for negative values; not a line of data
        if ax.get_yscale() == "log":
            ok &= y > 0
        if not np.any(ok):
            continue
        eps = 1e-9 * max(abs(lo), abs(hi))
        ctx.check(name + "_y", np.all(y[ok] >= lo - eps) and np.all(y[ok] <= hi + eps),
                  actual=[float(y[ok].min()), float(y[ok].max())], expected=[lo, hi])
        epx = 1e-9 * max(abs(left), abs(right))
        ctx.check(name + "_x", np.all(x >= left - epx) and np.all(x <= right + epx),
                  actual=[float(x.min()), float(x.max())], expected=[left, right])


def colours_span(ctx, mesh):
    """Every shown value has a colour of its own: none is beyond the range of colours."""
    shown = np.asarray(mesh.get_array())
    lo, hi = mesh.get_clim()
    if type(mesh.norm).__name__ == "LogNorm":
        shown = shown[shown > 0]
    if shown.size:
        eps = 1e-9 * float(np.max(np.abs(shown)))
        ctx.check("colours_span", lo - eps <= shown.min() and shown.max() <= hi + eps,
                  actual=[lo, hi], expected=[float(shown.min()), float(shown.max())])


def labelled(ctx, ax, space, axes):
    """The labels name the directions which are shown; two directions have one unit of length.

    The symlog scale of a line of data follows the size of the data.
    """
    text = (ax.get_xlabel(), ax.get_ylabel())
    names = [{f"{space}{a}", f"{space}{a % 3}"} if len(axes) == 1 else {f"{space}{a}"} for a in axes]
    for shown, want in zip(text, names, strict=False):
        ctx.check("axis_label", any(w in shown for w in want), actual=shown, expected=sorted(want))
    if len(axes) == 1 and ax.get_yscale() == "symlog":
        logarithmic_part(ctx, "symlog_axis", ax.yaxis._scale, *ax.get_ylim())
    if len(axes) == 2:
        ctx.check("equal_aspect", ax.get_aspect() in ("equal", 1.0), actual=ax.get_aspect())


def logarithmic_part(ctx, name, scale, lo, hi):
    """A symlog scale is logarithmic over most of what it shows, not a linear one."""
    top = max(abs(lo), abs(hi))
    if top > 0:
        ctx.check(name, 0 < scale.linthresh <= 0.1 * top, actual=scale.linthresh, expected=top)


class Canvas:
    """A figure for the library to draw on, or none; watches which figures change."""

    def __init__(self, ctx, *, given=None):
        close_all()
        self.other_fig, self.other = plt.subplots()  # the current axes: a decoy
        self.ax = None
        if given if given is not None else ctx.flag(0.6):
            self.fig, self.ax = plt.subplots()
            plt.figure(self.other_fig.number)  # the decoy stays the current figure
        self.before = set(plt.get_fignums())

    def check(self, ctx, fig, ax, scale=None, *, limited=True):
        if scale is not None:
            shown = meshes(ax)
            if shown:
                kind = {"log": "LogNorm", "symlog": "SymLogNorm"}.get(scale, "Normalize")
                got = {type(m.norm).__name__ for m in shown}
                ctx.check("colour_scale", got == {kind}, actual=sorted(got), expected=scale)
                for m in shown:
                    if type(m.norm).__name__ == "SymLogNorm":
                        a = np.asarray(m.get_array())
                        logarithmic_part(ctx, "symlog_colours", m.norm, a.min(), a.max())
            else:
                ctx.check("scale", ax.get_yscale() == scale, actual=ax.get_yscale(), expected=scale)
        if limited:
            for mesh in meshes(ax):
                colours_span(ctx, mesh)
            in_view(ctx, "in_view", ax)
        ctx.check("decoy_untouched", not self.other.has_data() and len(self.other_fig.axes) == 1)
        new = set(plt.get_fignums()) - self.before
        if self.ax is not None:
            ctx.check("draws_on_the_given_axes", ax is self.ax and ax.has_data())
            ctx.check("figure_of_the_axes", fig is self.ax.get_figure())
            ctx.check("no_other_figure", not new, actual=sorted(new))
        else:
            ctx.check("one_new_figure", len(new) == 1 and fig is ax.get_figure(),
                      actual=sorted(new))
