"""Drawing the same data again, with another scale and other measures.

Every plotting function which a workload calls is now and then called again, with the same
data and on other axes. What has to hold whatever the function shows:

* the scale which was asked for is the scale of the axis (or of the colours) of every artist,
  and no scale changes the values which are shown;
* the real part, imaginary part, modulus and phase which are shown are those of one complex
  number, point by point;
* the axes which were given are the ones which are drawn on and returned.
"""

from __future__ import annotations

import functools
import inspect
import zlib

import numpy as np

from mon import core
from mon import plots as P

plt = P.plt

FIRST, RATE = 0.8, 0.3
SCALES = ("linear", "symlog", "squared")
# these sort or count the measured values; others average them, or draw at random
REORDERED = {
    "plot_kernel_sparsity",
    "plot_operator_sparsity",
    "plot_eigenvalues",
    "plot_diagonal_noise_operators_eigenvalues",
    "plot_wavepacket_transformed_energy_1d",  # may answer the line of a free particle
}
ONCE = {"plot_wavepacket_localized_effective_mass_against_energy"}  # runs wannier90
RANDOM = {
    "plot_diagonal_noise_operators_single_sample",
    "plot_noise_operators_single_sample_x",
    "plot_noise_kernel_single_sample",
}
_depth = 0


def _flat(x):
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in _flat(y)]
    if hasattr(x, "new_frame_seq"):
        return [a for f in P.frames(x) for a in _flat(f)]
    return [x]


def _artists(out):
    shown = [a for a in _flat(list(out[2:])) if isinstance(a, (P.QuadMesh, plt.Line2D))]
    if not shown:
        ax = out[1]
        shown = [*ax.lines, *P.meshes(ax)]
    return shown


def _values(artist):
    if isinstance(artist, P.QuadMesh):
        return np.asarray(np.ma.getdata(artist.get_array()), dtype=float).ravel()
    with P.warnings.catch_warnings():
        P.warnings.simplefilter("ignore")
        return np.asarray(artist.get_ydata(orig=True)).astype(float).ravel()


def _scale(artist):
    """Name of the scale with which an artist shows its values."""
    if isinstance(artist, P.QuadMesh):
        return {"LogNorm": "log", "SymLogNorm": "symlog"}.get(type(artist.norm).__name__, "linear")
    return artist.axes.get_yscale()


def _again(ctx, fn, name, bound, rng):
    given = dict(bound.arguments)
    known = bound.signature.parameters

    def draw(**change):
        before = set(plt.get_fignums())
        own = change["ax"] = plt.subplots()[1] if rng.random() < 0.5 else None
        try:
            with ctx.running(f"again:{name}"), P.warnings.catch_warnings():
                P.warnings.simplefilter("ignore")
                args = {**given, **change}
                again = bound.signature.bind_partial()
                again.arguments.update({k: args[k] for k in known if k in args})
                out = fn(*again.args, **again.kwargs)
                if own is not None:
                    ctx.check(f"again:{name}:given_axes", out[1] is own and out[0] is own.get_figure())
                shown = _artists(out)
                for a in shown:
                    ctx.check(f"again:{name}:figure", a.axes is None or a.axes.get_figure() is out[0])
                return [(_values(a), _scale(a)) for a in shown]
        finally:
            for n in set(plt.get_fignums()) - before:
                plt.close(n)

    if "scale" in known:
        base = None
        for s in rng.permutation(SCALES)[:2]:
            s = str(s)
            got = draw(scale=s)
            for v, kind in got:
                want = {s, "linear"} if s == "squared" and kind == "linear" else {s}
                ctx.check(f"again:{name}:scale", kind in want, actual=kind, expected=s)
            if base is not None and name not in RANDOM:
                same = len(base) == len(got) and all(
                    a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)
                    for (a, _), (b, _) in zip(base, got, strict=True)
                )
                ctx.check(f"again:{name}:values_of_another_scale", same)
            base = got
    if "measure" in known and name not in REORDERED | RANDOM and not any(w in name for w in ("average", "distribution")):
        re, im, ab, an = (
            [v for v, _ in draw(measure=m, **({"scale": "linear"} if "scale" in known else {}))]
            for m in ("real", "imag", "abs", "angle")
        )
        if not ctx.check(f"again:{name}:artists", len({len(re), len(im), len(ab), len(an)}) == 1):
            return
        for r, i, a, t in zip(re, im, ab, an, strict=True):
            if not ctx.check(f"again:{name}:points", len({x.shape for x in (r, i, a, t)}) == 1):
                return
            top = max(1e-300, float(np.nanmax(np.abs(a), initial=0)))
            ok = np.isfinite(a)
            ctx.check(f"again:{name}:modulus", np.all(np.abs(np.hypot(r, i) - a)[ok] <= 1e-8 * top))
            ctx.check(f"again:{name}:phase", np.all(np.abs(a * np.exp(1j * t) - (r + 1j * i))[ok] <= 1e-8 * top))


def _wrap(fn):
    signature = inspect.signature(fn)

    @functools.wraps(fn)
    def watched(*args, **kw):
        global _depth
        ctx = core.CURRENT
        if _depth or ctx is None or fn.__name__ in ONCE or "ax" not in signature.parameters:
            return fn(*args, **kw)
        _depth += 1
        try:
            out = fn(*args, **kw)
            bound = None
            if not any(hasattr(a, "__next__") for a in (*args, *kw.values())):
                ctx._drawn = getattr(ctx, "_drawn", 0) + 1
                rng = np.random.default_rng(
                    [ctx.seed, zlib.crc32(f"{ctx.workload}/{ctx._drawn}".encode()), ctx.index]
                )
                if rng.random() < (FIRST if ctx._drawn == 1 else RATE):
                    bound = signature.bind(*args, **kw)
            if bound is not None:
                current = plt.gcf().number if plt.get_fignums() else None
                _again(ctx, fn, fn.__name__, bound, rng)
                if current is not None:
                    plt.figure(current)
            return out
        finally:
            _depth -= 1

    watched._watched = True
    return watched


def watch(*modules):
    for m in modules:
        for n, f in list(vars(m).items()):
            if n.startswith(("plot", "animate")) and inspect.isfunction(f) and f.__module__ == m.__name__:
                if not hasattr(f, "_watched"):
                    setattr(m, n, _wrap(f))
