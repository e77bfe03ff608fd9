"""Potentials: conversion, continuation, derivative, interpolation, scaling."""

import numpy as np
import scipy.interpolate

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.potential import potential as pp
from surface_potential_analysis.potential import _comparison_points as cp
from surface_potential_analysis.potential.conversion import (
    convert_potential_to_basis,
    convert_potential_to_position_basis,
    get_continuous_potential,
    get_potential_derivative,
)
from surface_potential_analysis.stacked_basis.potential_basis import select_minimum_potential_3d

R = Registry("V01")
RULE = (
    "Random potentials on random lattices (1-3 dimensions, any storage basis); oracle: explicit plane "
    "wave sums over the reciprocal lattice, closed form of band limited potentials, splines, and the "
    "defining formulas. Non-trivial: at least one compared potential."
)


def _potential(ctx, kinds=G.POS_KINDS, max_total=60, real=None):
    shape = G.random_shape(ctx.rng, max_total=max_total)
    dx = G.lattice(ctx.rng, len(shape))
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=kinds)
    real = ctx.flag() if real is None else real
    data = ctx.rng.normal(size=basis.n) if real else G.cplx(ctx.rng, basis.n)
    ctx.note(shape=shape, basis=G.describe(basis), dx=dx, real=real)
    return {"basis": basis, "data": data}, shape, dx


def _waves(shape, dx):
    """Integer labels and momenta (rows) of the plane waves, C ordered."""
    lab = np.meshgrid(*(G.freq(n) for n in shape), indexing="ij")
    lab = np.array([x.ravel() for x in lab])
    rec = 2 * np.pi * np.linalg.inv(dx).T
    return lab, rec.T @ lab


@R.workload(200, 3000)
def convert(ctx):
    p, shape, dx = _potential(ctx)
    other = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    ctx.note(other=G.describe(other))
    keep = p["data"].copy()
    with ctx.running("convert"):
        out = convert_potential_to_basis(p, other)
        pos = convert_potential_to_position_basis(p)
    ctx.close("convert", out["data"], G.ref_convert(p["data"], p["basis"], other))
    ctx.check("convert_basis", G.same(out["basis"], other))
    ctx.close("position", pos["data"], G.ref_fundamental(p["data"], p["basis"]))
    ctx.check("position_shape", tuple(pos["basis"].shape) == tuple(shape))
    ctx.close("position_lattice", np.array([b.delta_x for b in pos["basis"]]), dx)
    ctx.equal("input_unchanged", p["data"], keep)


@R.workload(200, 3000)
def continuous(ctx):
    p, shape, dx = _potential(ctx)
    lab, k = _waves(shape, dx)
    full = G.ref_fundamental(p["data"], p["basis"])
    coef = np.fft.fftn(full.reshape(shape)).ravel() / full.size
    with ctx.running("build"):
        fn = get_continuous_potential(p)
    extra = ctx.pick([(), (4,), (2, 3)])
    x = ctx.rng.uniform(-2, 2, size=(len(shape), *extra)) * np.abs(dx).max()
    ctx.note(extra=extra)
    with ctx.running("evaluate"):
        out = fn(tuple(x) if ctx.flag() or not extra else x)
    exp = np.tensordot(coef, np.exp(1j * np.tensordot(k, x, axes=(0, 0))), axes=(0, 0))
    ctx.close("continuous", out, exp, floor=np.abs(coef).max())
    grid = np.meshgrid(*(np.arange(n) / n for n in shape), indexing="ij")
    pts = dx.T @ np.array([g.ravel() for g in grid])
    with ctx.running("grid"):
        vals = fn(tuple(pts))
    ctx.close("grid_values", vals, full, floor=1e-6)
    shift = dx.T @ ctx.rng.integers(-2, 3, size=len(shape))
    with ctx.running("periodic"):
        moved = fn(tuple(x + shift.reshape(-1, *([1] * len(extra)))))
    ctx.close("periodic", moved, exp, floor=np.abs(coef).max(), tol=1e-7)


@R.workload(200, 3000)
def derivative(ctx):
    p, shape, dx = _potential(ctx)
    axis = ctx.randint(0, len(shape) - 1)
    ctx.note(axis=axis)
    lab, k = _waves(shape, dx)
    full = G.ref_fundamental(p["data"], p["basis"])
    F = np.fft.fftn(full.reshape(shape)).ravel()
    with ctx.running("derivative"):
        d = get_potential_derivative(p, axis=axis) if axis or ctx.flag() else get_potential_derivative(p)
    exp = np.fft.ifftn((1j * k[axis] * F).reshape(shape)).ravel()
    scale = np.abs(k).max() * np.abs(full).max() + 1e-12
    ctx.close("derivative", G.ref_fundamental(d["data"], d["basis"]), exp, scale=scale)
    ctx.close("derivative_lattice", np.array([b.delta_x for b in d["basis"]]), dx)


@R.workload(200, 3000)
def scaling(ctx):
    shape = G.random_shape(ctx.rng, max_total=60)
    basis = G.tuple_basis(ctx.rng, shape, kinds=("fundamental_x",))
    v = ctx.rng.exponential(size=basis.n) * 10.0 ** ctx.rng.uniform(-2, 0.5)
    cutoff, offset = ctx.rng.uniform(0.5, 3), ctx.rng.uniform(0.3, 1)
    n = ctx.randint(1, 4)
    scale = 10.0 ** ctx.randint(-20, 2)
    if n == 1 and ctx.flag():
        # below the offset, but inside of the domain of the logarithm
        v = v - offset - cutoff * 0.7 * ctx.rng.random()
    p = {"basis": basis, "data": v * scale}
    kw = {"cutoff": cutoff * scale, "n": n, "offset": offset * scale}
    default = ctx.flag(0.2)
    if default:
        p["data"] = v * 1e-18
        kw, cutoff, n, offset, scale = {}, 20.0, 1, 2.0, 1e-18
    ctx.note(shape=shape, n=n, cutoff=cutoff, offset=offset, scale=scale, default=default)
    keep = p["data"].copy()
    with ctx.running("truncate"):
        t = pp.truncate_potential(p, **kw)
        u = pp.undo_truncate_potential(t, **kw)
    exp = cutoff * np.log1p(((v + offset) / cutoff) ** n) ** (1 / n) - offset
    ctx.close("truncate", t["data"] / scale, exp, floor=1.0)
    ctx.close("undo", u["data"] / scale, v, tol=1e-5, floor=1e-1)
    d = ctx.rng.normal() * scale
    with ctx.running("normalize"):
        raised = p["data"] + d
        raised_keep = raised.copy()
        z = pp.normalize_potential({"basis": basis, "data": raised})
    ctx.close("normalize", z["data"] / scale, v - v.min(), scale=10.0)
    ctx.equal("normalize_input_unchanged", raised, raised_keep)
    ctx.equal("input_unchanged", p["data"], keep)
    ctx.check("basis_kept", all(G.same(x["basis"], basis) for x in (t, u, z)))


def _uneven(ctx, n2=None):
    n0, n1 = ctx.randint(1, 6), ctx.randint(1, 6)
    n2 = ctx.randint(4, 9) if n2 is None else n2
    z = np.cumsum(ctx.rng.uniform(0.2, 2, size=n2)) + ctx.rng.normal()
    lat = G.lattice(ctx.rng, 2)
    basis = TupleBasis(
        FundamentalPositionBasis(lat[0], n0),
        FundamentalPositionBasis(lat[1], n1),
        pp.UnevenPotential3dZBasis(z),
    )
    return basis, (n0, n1, n2), z, lat


@R.workload(150, 2500)
def uneven(ctx):
    basis, shape, z, lat = _uneven(ctx)
    s = (ctx.randint(1, 9), ctx.randint(1, 9), ctx.randint(2, 14))
    top = [(min(a, b) - 1) // 2 for a, b in zip(shape[:2], s[:2], strict=True)]
    modes = [
        (ctx.randint(-top[0], top[0]), ctx.randint(-top[1], top[1]), ctx.rng.uniform(0, 6.3), ctx.rng.normal(size=shape[2]))
        for _ in range(ctx.randint(1, 5))
    ]

    def sample(n0, n1, amps):
        x, y = np.arange(n0)[:, None, None] / n0, np.arange(n1)[None, :, None] / n1
        return sum(a * np.cos(2 * np.pi * (k * x + q * y) + ph) for (k, q, ph, _), a in zip(modes, amps, strict=True))

    data = sample(shape[0], shape[1], [m[3] for m in modes])
    new_z = np.linspace(z[0], z[-1], s[2])
    exp = sample(s[0], s[1], [scipy.interpolate.CubicSpline(z, m[3])(new_z) for m in modes])
    dtype = complex if ctx.flag() else float
    ctx.note(shape=shape, s=s, z=z, dtype=str(dtype))
    p = {"basis": basis, "data": data.astype(dtype).reshape(-1)}
    with ctx.running("interpolate"):
        out = pp.interpolate_uneven_potential(p, s)
    ctx.close("interpolate", np.asarray(out["data"]), exp.ravel(), tol=1e-6, floor=1e-3)
    ctx.check("interpolate_shape", tuple(out["basis"].shape) == s)
    got = np.array([b.delta_x for b in out["basis"]])
    exp_dx = np.zeros((3, 3))
    exp_dx[:2, :2] = lat
    exp_dx[2, 2] = z[-1] - z[0]
    ctx.close("interpolate_surface_lattice", got[:2], exp_dx[:2])
    ctx.close("interpolate_height", got[2], exp_dx[2])
    # every value sits at the height it was evaluated at
    heights = got[2, 2] * np.arange(s[2]) / s[2]
    if np.allclose(got[2], exp_dx[2]):
        ctx.tag = "both-ends-included"
    ctx.close("interpolate_spacing", heights, new_z - z[0], floor=1e-9)
    ctx.tag = ""
    with ctx.running("mock"):
        mock = pp.mock_even_potential(p)
    ctx.close("mock_data", mock["data"], p["data"])
    got = np.array([b.delta_x for b in mock["basis"]])
    exp_dx[2] = [0, 0, 1]
    ctx.close("mock_lattice", got, exp_dx)
    ctx.check("mock_shape", tuple(mock["basis"].shape) == shape)


@R.workload(150, 2500)
def minimum(ctx):
    shape = G.random_shape(ctx.rng, 3, max_total=120)
    dx = np.zeros((3, 3))
    dx[:2, :2] = G.lattice(ctx.rng, 2)
    dx[2, 2] = ctx.rng.uniform(0.5, 4) * np.linalg.norm(dx[0])
    basis = TupleBasis(*(FundamentalPositionBasis(d, n) for d, n in zip(dx, shape, strict=True)))
    v = ctx.rng.normal(size=shape)
    ctx.note(shape=shape)
    with ctx.running("select"):
        out = select_minimum_potential_3d({"basis": basis, "data": v.ravel()})
    i, j, _ = np.unravel_index(np.argmin(v), shape)
    ctx.close("column", out["data"], v[i, j])
    ctx.check("column_basis", tuple(out["basis"].shape) == (shape[2],))
    ctx.close("column_length", out["basis"][0].delta_x, dx[2, 2:])


@R.workload(100, 800)
def sites(ctx):
    """High symmetry sites of the (111) and (100) surfaces, on commensurate grids."""
    m0, m1 = ctx.randint(1, 8), ctx.randint(1, 8)
    off = (ctx.randint(-5, 5), ctx.randint(-5, 5))
    ctx.note(m=[m0, m1], off=off)
    shape = (6 * m0, 6 * m1)
    with ctx.running("sites"):
        a = cp.get_111_comparison_points_x2(shape, off)
        b = cp.get_100_comparison_points_x2(shape, off)
        z = cp.get_111_comparison_points_x2(shape)
        y = cp.get_100_comparison_points_x2(shape)
    frac = {"Top Site": (2 / 3, 2 / 3), "Bridge Site": (1 / 6, 1 / 6), "FCC Site": (0, 0), "HCP Site": (1 / 3, 1 / 3)}
    frac100 = {"Hollow Site": (0, 0), "Bridge Site": (0.5, 0), "Top Site": (0.5, 0.5)}
    for name, got, base, ref in (("111", a, z, frac), ("100", b, y, frac100)):
        ctx.check(f"names_{name}", set(got) == set(ref))
        for site, f in ref.items():
            exp = np.array([round(f[0] * shape[0]), round(f[1] * shape[1])])
            ctx.equal(f"site_{name}", np.array(base[site]), exp)
            ctx.equal(f"offset_{name}", np.array(got[site]), (exp + np.array(off)) % np.array(shape))
