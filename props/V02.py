"""Potentials survive being written to and read from disk."""

import json
import os
import tempfile
from pathlib import Path

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.potential import potential as pp
from surface_potential_analysis.potential.conversion import convert_potential_to_position_basis
from surface_potential_analysis.potential.point_potential import load_point_potential_json

R = Registry("V02")
RULE = (
    "Random potentials written by an independent writer (json text / numpy pickles), read with the "
    "library, then used: lattice, values and later processing compared with what was written. "
    "Non-trivial: at least one file read."
)


def _dir():
    return tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH"))


def _lat(ctx, nd):
    lat = G.lattice(ctx.rng, nd)
    if ctx.flag(0.3):
        lat = np.round(lat * 3).astype(int) + 4 * np.eye(nd, dtype=int)
        if abs(np.linalg.det(lat)) < 1:
            lat = np.eye(nd, dtype=int) * 2
    return lat


@R.workload(100, 1500)
def grid_json(ctx):
    shape = G.random_shape(ctx.rng, 3, max_total=90)
    lat = _lat(ctx, 3)
    pts = ctx.rng.normal(size=shape) * 10.0 ** ctx.randint(-20, 3)
    ctx.note(shape=shape, lat=lat)
    with _dir() as d:
        path = Path(d) / "grid.json"
        path.write_text(json.dumps({
            "delta_x0": lat[0].tolist(), "delta_x1": lat[1].tolist(), "delta_x2": lat[2].tolist(),
            "points": pts.tolist()}))
        with ctx.running("load"):
            p = pp.load_potential_grid_json(path)
    ctx.check("shape", tuple(p["basis"].shape) == shape)
    ctx.close("lattice", np.array([b.delta_x for b in p["basis"]]), lat)
    ctx.equal("data", np.asarray(p["data"]), pts.ravel())
    with ctx.running("use"):
        q = convert_potential_to_position_basis(p)
        z = pp.normalize_potential(p)
    ctx.close("use", q["data"], pts.ravel())
    ctx.close("normalized", z["data"], (pts - pts.min()).ravel())


@R.workload(100, 1500)
def uneven_json(ctx):
    shape = (ctx.randint(1, 5), ctx.randint(1, 5), ctx.randint(4, 7))
    lat = _lat(ctx, 2)
    z = np.cumsum(ctx.rng.uniform(0.3, 2, size=shape[2]))
    if ctx.flag(0.3):
        z = z - 3
    order = ctx.pick(("up", "up", "down", "any"))
    if order != "up":  # stored in whichever order: each value stays with its height
        z = z[::-1] if order == "down" else ctx.rng.permutation(z)
    if ctx.flag(0.2):
        z[1] = z[0]
        order = "any"
    pts = ctx.rng.normal(size=shape) * ctx.pick([1, 1e-19])
    ctx.note(shape=shape, lat=lat)
    with _dir() as d:
        path = Path(d) / "uneven.json"
        path.write_text(json.dumps({
            "delta_x0": lat[0].tolist(), "delta_x1": lat[1].tolist(), "z_points": z.tolist(),
            "points": pts.tolist()}))
        with ctx.running("load"):
            p = pp.load_uneven_potential_json(path)
    ctx.check("shape", tuple(b.n for b in p["basis"]) == shape)
    ctx.close("lattice", np.array([b.delta_x for b in p["basis"]][:2] if False else [p["basis"][0].delta_x, p["basis"][1].delta_x]), lat)
    ctx.equal("z_points", np.asarray(p["basis"][2].z_points), z)
    ctx.equal("data", np.asarray(p["data"]), pts.ravel())
    if order != "up":
        return  # a spline needs increasing heights
    with ctx.running("use"):
        out = pp.interpolate_uneven_potential(p, shape)
        mock = pp.mock_even_potential(p)
    # same surface grid: the first and last heights are unchanged
    got = np.asarray(out["data"]).reshape(shape)
    ctx.close("use", got[..., [0, -1]], pts[..., [0, -1]], tol=1e-6)
    ctx.close("mock", mock["data"], pts.ravel())


@R.workload(100, 1500)
def point_json(ctx):
    n = ctx.randint(1, 30)
    cols = {k: ctx.rng.normal(size=n) for k in ("x_points", "y_points", "z_points", "points")}
    ctx.note(n=n)
    with _dir() as d:
        path = Path(d) / "points.json"
        path.write_text(json.dumps({k: v.tolist() for k, v in cols.items()}))
        with ctx.running("load"):
            p = load_point_potential_json(path)
    for k, v in cols.items():
        ctx.equal(k, p[k], v)


@R.workload(60, 800)
def npy(ctx):
    uneven = ctx.flag()
    if uneven:
        lat, z = G.lattice(ctx.rng, 2), np.cumsum(ctx.rng.uniform(0.3, 2, size=5))
        basis = TupleBasis(FundamentalPositionBasis(lat[0], 2), FundamentalPositionBasis(lat[1], 3), pp.UnevenPotential3dZBasis(z))
    else:
        shape = G.random_shape(ctx.rng, max_total=60)
        basis = G.tuple_basis(ctx.rng, shape, kinds=G.POS_KINDS)
        lat = np.array([b.delta_x for b in basis])
    data = G.cplx(ctx.rng, basis.n)
    ctx.note(uneven=uneven, basis=G.describe(basis))
    with _dir() as d:
        path = Path(d) / "p.npy"
        np.save(path, np.asanyarray({"basis": basis, "data": data}), allow_pickle=True)
        with ctx.running("load"):
            p = (pp.load_uneven_potential if uneven else pp.load_potential)(path)
    ctx.equal("data", p["data"], data)
    ctx.check("basis", G.same(p["basis"], basis))
    if not uneven:
        with ctx.running("use"):
            q = convert_potential_to_position_basis(p)
        ctx.close("use", q["data"], G.ref_fundamental(data, basis))
        ctx.close("lattice", np.array([b.delta_x for b in q["basis"]]), lat)
    else:
        ctx.equal("z_points", p["basis"][2].z_points, z)
