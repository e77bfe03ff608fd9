"""Brillouin zones: folding moves points by reciprocal lattice vectors, towards the origin."""

import itertools

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.stacked_basis import brillouin_zone as bz
from surface_potential_analysis.stacked_basis.build import position_basis_from_shape

R = Registry("G03")
RULE = (
    "Random lattices in 1-3 dimensions, points up to several zones out; folded repeatedly; "
    "oracle: congruence modulo the reciprocal cell, |k| monotone, fixed points exactly the "
    "points inside every Bragg plane of the first shell, brute-force nearest image."
)


def _basis(ctx, ndim=None):
    ndim = ctx.randint(1, 3) if ndim is None else ndim
    shape = tuple(ctx.randint(1, 6) for _ in range(ndim))
    if ctx.flag(0.1):
        # finer grids, of one axis or of all of them
        i = ctx.randint(0, ndim - 1)
        shape = tuple(ctx.randint(7, 60) if j == i or ctx.flag(0.3) else n for j, n in enumerate(shape))
    dx = G.lattice(ctx.rng, ndim)
    ctx.note(shape=shape, dx=dx)
    return position_basis_from_shape(shape, dx), shape, dx


def _rec(dx):
    return 2 * np.pi * np.linalg.inv(dx).T


def _shell(shape, dx, m=1):
    rec = _rec(dx)
    g = np.array([c for c in itertools.product(range(-m, m + 1), repeat=len(shape)) if any(c)])
    return (g * np.array(shape)) @ rec, g * np.array(shape)


def _fold(ctx, which, ndim):
    b, shape, dx = _basis(ctx, ndim)
    nd = len(shape)
    extra = ctx.pick([(), (4,), (2, 3)]) if which != "single" else None
    if extra is None:
        idx = tuple(int(ctx.rng.integers(-3 * s, 3 * s + 1)) for s in shape)
        arr = np.array(idx)[:, None]
    else:
        idx = tuple(ctx.rng.integers(-3 * s, 3 * s + 1, size=extra) for s in shape)
        arr = np.array([np.ravel(i) for i in idx])
    ctx.note(idx=idx, form=which)
    before = [np.copy(i) for i in idx]
    fn = bz.decrement_brillouin_zone_3d if (nd == 3 and ctx.flag()) else bz.decrement_brillouin_zone
    rec = _rec(dx)
    planes, _ = _shell(shape, dx)
    tol = 1e-4 * np.min(np.linalg.norm(rec, axis=1))
    cur = idx
    prev = arr
    for _step in range(1000):
        with ctx.running("decrement"):
            cur = fn(b, cur)
        if not ctx.check("arity", len(cur) == nd, actual=len(cur)):
            return
        if extra is not None:
            ctx.check("shape", all(np.shape(c) == extra for c in cur))
            new = np.array([np.ravel(c) for c in cur])
        else:
            new = np.array(cur).reshape(nd, 1)
        ctx.check(
            "lattice_vector", np.all((new - arr) % np.array(shape)[:, None] == 0), actual=new
        )
        k0 = rec.T @ prev
        k1 = rec.T @ new
        outside = (
            (planes / np.linalg.norm(planes, axis=1)[:, None]) @ k0
            - np.linalg.norm(planes, axis=1)[:, None] / 2
        )
        moved = np.any(new != prev, axis=0)
        must = np.any(outside > tol, axis=0)
        may = np.any(outside > -1e-12 * np.abs(k0).max(initial=1), axis=0)
        ctx.check("moves_iff_outside", np.all(~must | moved) and np.all(~moved | may),
                  idx=prev, moved=moved, must=must)
        ctx.check(
            "towards_origin",
            np.all(np.linalg.norm(k1, axis=0)[moved] < np.linalg.norm(k0, axis=0)[moved] + 1e-12),
        )
        prev = new
        if not np.any(moved):
            break
    else:
        ctx.check("terminates", False)
    # every point has reached the first zone: nothing in the first shell is closer
    k = rec.T @ prev
    _, ints = _shell(shape, dx)
    best = np.min(
        [np.linalg.norm(rec.T @ (prev - g[:, None]), axis=0) for g in ints], axis=0
    )
    ctx.check("first_zone", np.all(np.linalg.norm(k, axis=0) <= best + tol))
    for a, c in zip(before, idx, strict=True):
        ctx.equal("input_unchanged", np.asarray(c), a)


@R.workload(150, 2000)
def fold_3d(ctx):
    _fold(ctx, "array", 3)


@R.workload(120, 1500)
def fold_nd(ctx):
    _fold(ctx, "array", ctx.randint(1, 2))


@R.workload(100, 1500)
def fold_single(ctx):
    _fold(ctx, "single", None)


@R.workload(150, 2000)
def bragg_points(ctx):
    b, shape, dx = _basis(ctx)
    m = ctx.randint(1, 2)
    with ctx.running("bragg"):
        pts = bz.get_all_brag_point(b, n_bands=m)
        idx = bz.get_all_brag_point_index(b, n_bands=m)
    pts, idx = np.array(pts), np.array(idx)
    nd = len(shape)
    n = (2 * m + 1) ** nd
    if not ctx.equal("count", [*pts.shape, *idx.shape], [nd, n, nd, n]):
        return
    rec = _rec(dx)
    ctx.close("points_at_index", pts, rec.T @ idx, floor=1e-9)
    exp = {tuple(int(i) for i in c * np.array(shape)) for c in itertools.product(range(-m, m + 1), repeat=nd)}
    ctx.check("all_bragg_points", {tuple(int(i) for i in c) for c in idx.T} == exp)
    ctx.check("origin_first", not np.any(idx[:, 0]))
    g = rec.T @ (np.array(shape) * ctx.rng.integers(1, 3, size=nd))
    p = ctx.rng.normal(size=(nd, 6)) * np.linalg.norm(g)
    with ctx.running("distance"):
        d = bz.get_bragg_plane_distance(g, p)
        folded = bz.fold_point_in_bragg_plane(tuple(idx[:, -1]), tuple(np.arange(3 * nd).reshape(nd, 3)))
    # signed distance to the perpendicular bisector of 0-g
    exp_d = (np.sum(p**2, axis=0) - np.sum((p - g[:, None]) ** 2, axis=0)) / (2 * np.linalg.norm(g))
    ctx.close("plane_distance", d, exp_d, floor=np.linalg.norm(g))
    ctx.equal("fold", np.array(folded), np.arange(3 * nd).reshape(nd, 3) - idx[:, -1:])
