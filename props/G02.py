"""Index arithmetic: flat/stacked indices, wrapping, paths, slices, projections."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.util import BasisUtil, get_twice_average_nx
from surface_potential_analysis.stacked_basis import util as su
from surface_potential_analysis.util import util as uu

R = Registry("G02")
RULE = (
    "Random stacked bases, indices far outside the cell, origins, axis subsets in any order; "
    "oracle: congruence modulo the cell plus minimality, and explicit loops over numpy "
    "arrays. Non-trivial: >=1 comparison."
)


def _pos(ctx, shape=None, ndim=None, max_total=80):
    shape = G.random_shape(ctx.rng, ndim, max_total=max_total) if shape is None else shape
    dx = G.lattice(ctx.rng, len(shape))
    b = TupleBasis(*(FundamentalPositionBasis(d, s) for d, s in zip(dx, shape, strict=True)))
    ctx.note(shape=shape, dx=dx)
    return b, shape, dx


@R.workload(150, 2000)
def flat_stacked(ctx):
    b, shape, _ = _pos(ctx)
    u = BasisUtil(b)
    m = ctx.randint(1, 8)
    flat = ctx.rng.integers(0, u.n, size=m)
    st = np.unravel_index(flat, shape)
    with ctx.running("index"):
        a = u.get_stacked_index(flat)
        c = u.get_flat_index(a)
        one = u.get_stacked_index(int(flat[0]))
        one_flat = u.get_flat_index(one)
    ctx.equal("stacked", np.array(a), np.array(st))
    ctx.equal("flat", c, flat)
    ctx.equal("single", [*one, one_flat], [*(s[0] for s in st), flat[0]])
    far = tuple(s + n * ctx.rng.integers(-3, 4, size=m) for s, n in zip(st, shape, strict=True))
    with ctx.running("wrap_mode"):
        w = u.get_flat_index(far, mode="wrap")
    ctx.equal("wrap_mode", w, flat)
    out = tuple(int(n) for n in shape)
    ctx.raises("out_of_range", ValueError, u.get_flat_index, out)


@R.workload(250, 4000)
def wrap_index(ctx):
    b, shape, _ = _pos(ctx)
    nd = len(shape)
    m = ctx.randint(1, 6)
    idx = tuple(ctx.rng.integers(-4 * s - 3, 4 * s + 4, size=m) for s in shape)
    if ctx.flag(0.3):
        idx = tuple(int(i[0]) for i in idx)
    kind = ctx.pick(["none", "tuple", "flat"])
    if kind == "none":
        origin, o = None, (0,) * nd
    elif kind == "tuple":
        o = tuple(int(ctx.rng.integers(-2 * s, 2 * s + 1)) for s in shape)
        origin = o
    else:
        origin = int(ctx.rng.integers(b.n))
        o = tuple(int(i) for i in np.unravel_index(origin, shape))
    axes = None
    if ctx.flag(0.4):
        axes = tuple(int(i) for i in ctx.rng.permutation(nd)[: ctx.randint(0, nd)])
    ctx.note(idx=idx, origin=origin, axes=axes)
    with ctx.running("wrap_index"):
        out = su.wrap_index_around_origin(b, idx, origin=origin, axes=axes)
    ctx.check("arity", len(out) == nd)
    for ax in range(nd):
        r, i = np.asarray(out[ax]), np.asarray(idx[ax])
        if axes is not None and ax not in axes:
            ctx.equal("untouched_axis", r, i)
            continue
        ctx.check("congruent", np.all((r - i) % shape[ax] == 0), actual=r, idx=i)
        rel = r - o[ax]
        ctx.check(
            "closest", np.all((2 * rel >= -shape[ax]) & (2 * rel < max(shape[ax], 1))),
            actual=rel, n=shape[ax],
        )


@R.workload(200, 3000)
def wrap_point(ctx):
    b, shape, dx = _pos(ctx)
    nd = len(shape)
    extra = ctx.pick([(), (3,), (2, 2)])
    frac = ctx.rng.uniform(-3, 3, size=(nd, *extra))
    pts = np.tensordot(dx, frac, axes=(0, 0))
    of = ctx.rng.uniform(-2, 2, size=nd)
    origin = None if ctx.flag(0.4) else dx.T @ of
    if origin is None:
        of = np.zeros(nd)
    ctx.note(extra=extra, origin=origin)
    with ctx.running("wrap_point"):
        out = su.wrap_x_point_around_origin(b, pts, origin)
    rel = frac - of.reshape(nd, *([1] * len(extra)))
    exp = rel - np.round(rel) + of.reshape(nd, *([1] * len(extra)))
    ctx.close("wrap_point", out, np.tensordot(dx, exp, axes=(0, 0)), scale=3 * np.abs(dx).max())


@R.workload(200, 3000)
def paths(ctx):
    b, shape, dx = _pos(ctx)
    nd = len(shape)
    m = ctx.randint(2, 7)
    path = np.array([ctx.rng.integers(-s, 2 * s, size=m) for s in shape])
    wrap = ctx.flag()
    ctx.note(path=path, wrap=wrap)
    n = np.array(shape)[:, None]
    with ctx.running("path"):
        d = su.calculate_distances_along_path(b, path, wrap_distances=wrap)
        x = su.calculate_cumulative_x_distances_along_path(b, path, wrap_distances=wrap)
        k = su.calculate_cumulative_k_distances_along_path(b, path, wrap_distances=wrap)
    step = path[:, :-1] - path[:, 1:]
    if wrap:
        ctx.check("congruent", np.all((d - step) % n == 0))
        ctx.check("shortest", np.all(2 * np.abs(d) <= n))
        step = d
    else:
        ctx.equal("step", d, step)
    dxs = np.linalg.norm((dx / n).T @ step, axis=0)
    rec = 2 * np.pi * np.linalg.inv(dx).T
    dks = np.linalg.norm(rec.T @ step, axis=0)
    ctx.close("x_distance", x, np.concatenate([[0], np.cumsum(dxs)]), floor=1e-9)
    ctx.close("k_distance", k, np.concatenate([[0], np.cumsum(dks)]), floor=1e-9)
    coords = ctx.rng.normal(size=(2, *shape))
    inside = np.array([ctx.rng.integers(0, s, size=m) for s in shape])
    with ctx.running("path_grid"):
        c = uu.calculate_cumulative_distances_along_path(inside, coords)
    pts = np.array([coords[(slice(None), *p)] for p in inside.T])
    exp = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(pts, axis=0), axis=1))])
    ctx.close("path_grid", c, exp, floor=1e-9)


@R.workload(250, 3000)
def slices(ctx):
    nd = ctx.randint(1, 4)
    shape = tuple(ctx.randint(1, 4) for _ in range(nd))
    data = ctx.rng.normal(size=shape)
    ax = ctx.randint(-nd, nd - 1)
    i = ctx.randint(0, shape[ax] - 1)
    lo, hi = sorted((ctx.randint(0, shape[ax]), ctx.randint(0, shape[ax])))
    m = ctx.randint(0, nd)
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[:m])
    rest = [a for a in range(nd) if a not in axes]
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in rest)
    ctx.note(shape=shape, ax=ax, i=i, axes=axes, idx=idx)
    with ctx.running("slice"):
        a = data[uu.slice_along_axis(i, ax)]
        c = data[uu.slice_along_axis(slice(lo, hi), ax)]
        s = data[uu.slice_ignoring_axes(idx, axes)]
        g = uu.get_data_in_axes(data, axes, idx)
        pos = uu.get_position_in_sorted(axes)
    ctx.equal("index", a, np.take(data, i, axis=ax))
    ctx.equal("range", c, np.take(data, np.arange(lo, hi), axis=ax))
    full = data
    for a_, v in sorted(zip(rest, idx, strict=True), reverse=True):
        full = np.take(full, v, axis=a_)
    ctx.equal("ignoring", s, full)
    order = [sorted(axes).index(a_) for a_ in axes]
    ctx.equal("sorted_position", list(pos), order)
    ctx.equal("data_in_axes", g, np.transpose(full, order))
    z = G.cplx(ctx.rng, *ctx.pick([(7,), (3, 5), (2, 2, 4)]))
    real = ctx.flag(0.3)
    z = np.real(z) if real else z
    with ctx.running("measure"):
        got = [uu.get_measured_data(z, w) for w in ("real", "imag", "abs", "angle")]
    ctx.close("measure", got[:3], [z.real, z.imag, np.abs(z)])
    ctx.close("measure_angle", np.exp(1j * got[3]), z / np.abs(z))
    ctx.check("measure_unwrapped", np.all(np.abs(np.diff(got[3], axis=-1)) <= np.pi + 1e-9))
    ctx.close("measure_start", got[3][..., 0], np.angle(z[..., 0]), scale=np.pi)


@R.workload(200, 2500)
def projections(ctx):
    """Projected coordinates are coordinates in an orthonormal frame of the plane."""
    shape = G.random_shape(ctx.rng, max_total=60)
    nd = len(shape)
    dx = G.lattice(ctx.rng, nd)
    integer = ctx.flag(0.15)
    if integer:
        dx = np.rint(dx / np.abs(dx).max() * 9).astype(int)
        if abs(np.linalg.det(dx)) < 0.5:
            dx = np.diag(np.arange(1, nd + 1))
    b = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    m = ctx.randint(1, nd)
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[:m])
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(nd) if a not in axes)
    given = None if ctx.flag(0.25) else idx
    ctx.note(basis=G.describe(b), axes=axes, idx=given)
    if given is None:
        idx = (0,) * len(idx)
    rec = 2 * np.pi * np.linalg.inv(dx).T
    pts = ctx.rng.normal(size=(nd, 5))
    for name, lat, proj, stacked, grid, gridpts in (
        ("x", dx.astype(float), su.project_x_points_along_axes,
         su.get_fundamental_stacked_x_points_projected_along_axes,
         su.get_x_coordinates_in_axes, "x"),
        ("k", rec, su.project_k_points_along_axes,
         su.get_fundamental_stacked_k_points_projected_along_axes,
         su.get_k_coordinates_in_axes, "k"),
    ):
        frame = []
        for a in axes:
            v = lat[a].copy()
            for f in frame:
                v = v - f * (f @ v)
            frame.append(v / np.linalg.norm(v))
        frame = np.array(frame)
        with ctx.running("project_" + name):
            got = proj(pts, b, axes)
            st = stacked(b, axes)
            co = grid(b, axes, given)
        ctx.close(f"project_{name}", got, frame @ pts, floor=1.0)
        mesh = np.meshgrid(
            *((np.arange(s) / s if gridpts == "x" else G.freq(s)) for s in shape), indexing="ij"
        )
        allp = np.tensordot(lat, np.array(mesh), axes=(0, 0))  # (nd, *shape)
        exp = np.tensordot(frame, allp, axes=(1, 0))
        sc = float(np.abs(lat).max() * max(shape))
        ctx.close(f"points_{name}", st, exp.reshape(m, -1), scale=sc)
        sub = exp
        rest = [a for a in range(nd) if a not in axes]
        for a_, v in sorted(zip(rest, idx, strict=True), reverse=True):
            sub = np.take(sub, v, axis=a_ + 1)
        order = [sorted(axes).index(a_) for a_ in axes]
        ctx.close(
            f"coordinates_{name}", co, np.transpose(sub, (0, *(1 + o for o in order))), scale=sc
        )


@R.workload(100, 1500)
def average_positions(ctx):
    """Twice the periodic midpoint of every pair of grid points."""
    large = (ctx.randint(31, 120),) if ctx.flag(0.1) else None
    b, shape, _ = _pos(ctx, shape=large, max_total=30)
    with ctx.running("twice_average"):
        out = get_twice_average_nx(b)
    grids = np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")
    ctx.check("arity", len(out) == len(shape))
    for g, t, n in zip(grids, out, shape, strict=True):
        i, j = np.meshgrid(g.ravel(), g.ravel(), indexing="ij")
        if not ctx.equal("shape", np.shape(t), i.shape):
            return
        d = (j - i) % n
        d = np.where(2 * d > n, d - n, d)
        anti = 2 * d == n
        exp = (2 * i + d) % (2 * n)
        ok = np.where(anti, (t - i - j) % n == 0, t == exp)
        ctx.check("midpoint", np.all(ok), actual=t, expected=exp)


@R.workload(80, 800)
def extrema(ctx):
    b, shape, dx = _pos(ctx)
    nd = len(shape)
    data = G.cplx(ctx.rng, b.n)
    data = ctx.pick([data, data, data.real])
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[: ctx.randint(0, nd)])
    ctx.note(axes=axes, dtype=str(data.dtype))
    with ctx.running("max_idx"):
        out = su.get_max_idx(b, data, axes)
        single = list(su.get_single_point_basis(b))
    full = np.unravel_index(np.argmax(np.abs(data)), shape)
    ctx.equal("max_idx", list(out), [v for a, v in enumerate(full) if a not in axes])
    ctx.equal("single_point", [s.n for s in single], [1] * nd)
    ctx.close("single_point_cell", [s.delta_x for s in single], dx)
    if nd >= 2:
        idx = tuple(ctx.rng.integers(0, 9, size=(nd, 3)))
        with ctx.running("mirror"):
            mir = su.get_x01_mirrored_index(idx)
        ctx.equal("mirror", np.array(mir), np.array([idx[1], idx[0], *idx[2:]]))
