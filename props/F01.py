"""Fourier and spline interpolation."""

import itertools

import numpy as np
import scipy.interpolate

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.util.interpolation import (
    interpolate_points_along_axis_spline,
    interpolate_points_fftn,
    interpolate_points_rfft,
    interpolate_points_rfftn,
    pad_ft_points,
    pad_ft_points_real_axis,
)

R = Registry("F01")
RULE = (
    "Random arrays, axes (any subset, order, sign), input and output lengths (odd, even, 1, up or down); "
    "oracle: explicit sums over the plane waves both grids resolve, and band limited functions with a "
    "known closed form. Non-trivial: at least one compared interpolation."
)


def _real(ctx, *size):
    """Real samples: any magnitude met in SI units, integers, or single precision."""
    kind = ctx.pick(["f8", "f8", "f8", "int", "f4"])
    a = ctx.rng.normal(size=size)
    if kind == "int":
        return ctx.rng.integers(-50, 50, size=size)
    if kind == "f4":
        return a.astype(np.float32).astype(np.float64)
    return a * G.magnitude(ctx.rng)


def _axes(ctx, nd, allow_none=True):
    k = ctx.randint(1, nd)
    if allow_none and ctx.flag(0.3):
        return None, tuple(range(nd - k, nd))
    ax = tuple(int(i) for i in ctx.rng.permutation(nd)[:k])
    if ctx.flag():
        return tuple(a - nd if ctx.flag() else a for a in ax), ax
    return ax, ax


def _pad_ref(a, s, ax):
    out = a
    for n_out, axis in zip(s, ax, strict=True):
        n_in = a.shape[axis]
        new = np.zeros((*out.shape[:axis], n_out, *out.shape[axis + 1:]), dtype=out.dtype)
        common = set(G.freq(n_in).tolist()) & set(G.freq(n_out).tolist())
        for k in common:
            new[(slice(None),) * axis + (k % n_out,)] = out[(slice(None),) * axis + (k % n_in,)]
        out = new
    return out


@R.workload(400, 6000)
def pad(ctx):
    shape = G.random_shape(ctx.rng, hi=9, max_total=250)
    given, ax = _axes(ctx, len(shape), allow_none=False)
    s = tuple(ctx.randint(1, 11) for _ in ax)
    a = ctx.pick([lambda: G.cplx(ctx.rng, *shape), lambda: ctx.rng.normal(size=shape),
                  lambda: ctx.rng.integers(-50, 50, size=shape)])()
    ctx.note(shape=shape, axes=given, s=s, dtype=str(a.dtype))
    keep = a.copy()
    with ctx.running("pad"):
        out = pad_ft_points(a, s, given)
    ctx.close("pad", out, _pad_ref(a, s, ax))
    ctx.check("dtype", out.dtype == a.dtype)
    ctx.equal("input_unchanged", a, keep)


@R.workload(200, 3000)
def pad_real(ctx):
    shape = G.random_shape(ctx.rng, hi=8, max_total=250)
    nd = len(shape)
    axis = ctx.randint(-nd, nd - 1)
    n = ctx.randint(1, 18)
    a = G.cplx(ctx.rng, *shape)
    ctx.note(shape=shape, axis=axis, n=n)
    with ctx.running("pad_real"):
        out = pad_ft_points_real_axis(a, n, axis)
    m = np.moveaxis(a, axis, -1)
    exp = np.zeros((*m.shape[:-1], n // 2 + 1), dtype=complex)
    c = min(m.shape[-1], n // 2 + 1)
    exp[..., :c] = m[..., :c]
    ctx.close("pad_real", np.moveaxis(out, axis, -1), exp)


def _resample(a, n_out, axis):
    """Sum over the plane waves of both grids, evaluated at the new points."""
    n_in = a.shape[axis]
    ks = sorted(set(G.freq(n_in).tolist()) & set(G.freq(n_out).tolist()))
    x_in, x_out = np.arange(n_in) / n_in, np.arange(n_out) / n_out
    M = sum(
        np.outer(np.exp(2j * np.pi * k * x_out), np.exp(-2j * np.pi * k * x_in)) for k in ks
    ) / n_in
    return np.moveaxis(np.tensordot(M, a, axes=(1, axis)), 0, axis)


@R.workload(300, 5000)
def complex_interpolation(ctx):
    shape = G.random_shape(ctx.rng, hi=8, max_total=200)
    given, ax = _axes(ctx, len(shape))
    s = tuple(ctx.randint(1, 11) for _ in ax)
    a = G.cplx(ctx.rng, *shape) if ctx.flag(0.7) else _real(ctx, *shape)
    ctx.note(shape=shape, axes=given, s=s, dtype=str(a.dtype))
    keep = a.copy()
    with ctx.running("fftn"):
        out = interpolate_points_fftn(a, s, axes=given)
    exp = a
    for n, axis in zip(s, ax, strict=True):
        exp = _resample(exp, n, axis)
    ctx.close("fftn", out, exp)
    ctx.equal("input_unchanged", a, keep)


def _band_limited(ctx, shape, ax, s):
    """A real trigonometric polynomial which both grids resolve, as a function."""
    nd = len(shape)
    top = [
        (min(shape[i], s[ax.index(i)]) - 1) // 2 if i in ax else (shape[i] - 1) // 2
        for i in range(nd)
    ]
    modes = [
        (
            tuple(ctx.randint(-t, t) for t in top),
            G.magnitude(ctx.rng) * ctx.rng.normal(),
            ctx.rng.uniform(0, 2 * np.pi),
        )
        for _ in range(ctx.randint(1, 6))
    ]

    def sample(sh):
        xs = np.meshgrid(*(np.arange(n) / n for n in sh), indexing="ij")
        return sum(
            a * np.cos(2 * np.pi * sum(k * x for k, x in zip(m, xs, strict=True)) + p)
            for m, a, p in modes
        )

    return sample


@R.workload(300, 5000)
def real_interpolation(ctx):
    shape = G.random_shape(ctx.rng, hi=9, max_total=250)
    nd = len(shape)
    given, ax = _axes(ctx, nd)
    s = tuple(ctx.randint(1, 12) for _ in ax)
    sample = _band_limited(ctx, shape, ax, s)
    a = sample(shape)
    new = list(shape)
    for n, axis in zip(s, ax, strict=True):
        new[axis] = n
    exp = sample(new)
    ctx.note(shape=shape, axes=given, s=s)
    with ctx.running("rfftn"):
        out = interpolate_points_rfftn(a, s, axes=given)
        out_c = interpolate_points_fftn(a, s, axes=given)
        out_1 = a
        for n, axis in zip(s, ax, strict=True):
            out_1 = interpolate_points_rfft(out_1, n, axis=axis - nd if ctx.flag() else axis)
    scale = np.abs(a).max() + 1e-3 * G.magnitude(ctx.rng)
    ctx.close("rfftn", out, exp, scale=scale)
    ctx.close("fftn", out_c, exp, scale=scale)
    ctx.close("rfft", out_1, exp, scale=scale)
    ctx.check("real", np.isrealobj(out) and np.isrealobj(out_1))


@R.workload(200, 3000)
def keeps_points(ctx):
    """The original samples survive (odd lengths; the same or a multiple)."""
    shape = tuple(2 * i - 1 for i in G.random_shape(ctx.rng, hi=5, max_total=60))
    nd = len(shape)
    f = tuple(ctx.randint(1, 3) for _ in shape)
    s = tuple(a * b for a, b in zip(shape, f, strict=True))
    a = _real(ctx, *shape)
    ctx.note(shape=shape, s=s, dtype=str(a.dtype))
    pick = tuple(slice(None, None, i) for i in f)
    with ctx.running("keep"):
        r = interpolate_points_rfftn(a, s, axes=tuple(range(nd)))
        c = interpolate_points_fftn(a, s, axes=tuple(range(nd)))
        e = a
        for i in range(nd):
            e = interpolate_points_rfft(e, s[i], axis=i)
    for name, v in (("rfftn", r), ("fftn", c), ("rfft", e)):
        ctx.check(f"shape_{name}", v.shape == s)
        ctx.close(name, v[pick], a)
    # the same length is the identity, for odd and even lengths
    sh = G.random_shape(ctx.rng, hi=8, max_total=80)
    b = _real(ctx, *sh)
    with ctx.running("identity"):
        ctx.close("identity_fftn", interpolate_points_fftn(b, sh), b)
        ctx.close("identity_rfftn", interpolate_points_rfftn(b, sh), b)
        ctx.close("identity_rfft", interpolate_points_rfft(b, sh[-1]), b)


@R.workload(150, 2000)
def symmetric(ctx):
    n = ctx.randint(1, ctx.pick([12, 30]))
    lead = ctx.pick([(), (3,)])
    half = _real(ctx, *lead, n // 2 + 1)
    a = np.empty((*lead, n))
    for i in range(n):
        a[..., i] = half[..., min(i, n - i)]
    m = ctx.randint(1, 15)
    ctx.note(n=n, m=m, lead=lead)
    with ctx.running("symmetric"):
        out = interpolate_points_rfft(a, m)
    ctx.close("symmetric", out[..., 1:], out[..., :0:-1], scale=np.abs(a).max())
    ctx.close("mean", out.mean(axis=-1) if m > n else np.zeros(lead), a.mean(axis=-1) if m > n else np.zeros(lead), scale=np.abs(a).max())


@R.workload(200, 3000)
def spline(ctx):
    nd = ctx.randint(1, 3)
    axis = ctx.randint(0, nd - 1)
    m = ctx.randint(4, ctx.pick([10, 10, 25]))
    shape = [ctx.randint(1, 4) for _ in range(nd)]
    shape[axis] = m
    z = np.sort(ctx.rng.uniform(-3, 5, size=m) + 2 * np.arange(m) * ctx.pick([1, 0.3]))
    if np.min(np.diff(z)) < 1e-2:
        z = np.cumsum(ctx.rng.uniform(0.2, 2, size=m))
    n = ctx.randint(2, 30)
    data = _real(ctx, *shape)
    given = axis - nd if ctx.flag() else axis
    ctx.note(shape=shape, axis=given, z=z, n=n)
    keep = data.copy()
    with ctx.running("spline"):
        out = interpolate_points_along_axis_spline(data, z, n, axis=given)
    ctx.equal("input_unchanged", data, keep)
    new_z = z[0] + (z[-1] - z[0]) * np.arange(n) / (n - 1)
    new_z[-1] = z[-1]
    exp = scipy.interpolate.CubicSpline(z, data, axis=axis, bc_type="not-a-knot")(new_z)
    ctx.close("spline", out, exp, tol=1e-6)
    ctx.close("ends", np.take(out, [0, -1], axis=axis), np.take(data, [0, -1], axis=axis), tol=1e-7)
    # cubic polynomials are reproduced
    c = ctx.rng.normal(size=4) * G.magnitude(ctx.rng)
    poly = np.polynomial.polynomial.polyval((z - z[0]) / (z[-1] - z[0]), c)
    with ctx.running("cubic"):
        out = interpolate_points_along_axis_spline(poly, z, n)
    ctx.close("cubic", out, np.polynomial.polynomial.polyval(np.arange(n) / (n - 1), c), tol=1e-6, scale=np.abs(c).max())
