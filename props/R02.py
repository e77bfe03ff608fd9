"""Animations, paths and scatter plots: every frame and point is the one asked for."""

import numpy as np

from mon.core import Registry, Skip
from mon import gen as G
from mon import plots as P
from mon import replot
from mon import wave as W
from surface_potential_analysis.basis import plot as bp
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.potential import plot as pp
from surface_potential_analysis.potential import plot_point_potential as ppp
from surface_potential_analysis.potential import plot_uneven_potential as pup
from surface_potential_analysis.potential.potential import UnevenPotential3dZBasis
from surface_potential_analysis.stacked_basis import plot as stp
from surface_potential_analysis.state_vector import plot as sp
from surface_potential_analysis.util import plot as up
from surface_potential_analysis.wavepacket import plot as wp

R = Registry("R02")
replot.watch(pp, ppp, pup, sp, up, wp, bp, stp)
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random lists of states, volumes, wavepackets, paths and sets of points on random lattices; every frame "
    "of the animation and every point of the line is read back from the figure. Oracle: explicit "
    "slices, step lengths and projections. Drawn again with other scales and measures. Non-trivial: at least one artist compared."
)


def _size(f):
    return float(np.linalg.norm(f)) or 1.0


def _shape(ctx, m, nd=None, max_total=40):
    while True:
        shape = G.random_shape(ctx.rng, nd, max_total=max_total)
        if len(shape) < m:
            continue
        axes = tuple(int(a) for a in ctx.rng.permutation(len(shape))[:m])
        if all(shape[a] > 1 for a in axes):
            return shape, axes


def _pick_scale(ctx, measure):
    return ctx.pick(("linear", "symlog", "squared", "log") if measure == "abs" else ("linear", "symlog"))


@R.workload(80, 900)
def lists(ctx):
    """One frame per state of the list."""
    space, m = ctx.pick("xk"), ctx.randint(1, 2)
    shape, axes = _shape(ctx, m, max_total=30)
    dx = G.lattice(ctx.rng, len(shape))
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(len(shape)) if a not in axes)
    idx = None if ctx.flag(0.4) else idx
    measure = ctx.pick(P.MEASURES)
    n = ctx.randint(1, 4)
    data = G.cplx(ctx.rng, n, basis.n) * 10.0 ** ctx.rng.uniform(-1, 1, (n, 1))
    f = G.ref_fundamental(data, basis)
    lst = {"basis": TupleBasis(FundamentalBasis(n), basis), "data": data.ravel()}
    raw = ctx.flag(0.3)
    ctx.note(basis=G.describe(basis), axes=axes, idx=idx, measure=measure, n=n, m=m, space=space, raw=raw)
    kw = dict(measure=measure, scale=_pick_scale(ctx, measure))
    if kw["scale"] == "log" and idx is not None:  # a frame of zeros has no logarithmic scale
        small = [np.abs(P.slice_of(space, v, shape, dx, axes, idx)[1]).max() < 1e-9 * _size(v) for v in f]
        kw["scale"] = "linear" if any(small) else "log"
    cv = P.Canvas(ctx)
    with ctx.running(f"list_{m}d_{space}"):
        if raw:
            fn = getattr(up, f"animate_data_through_list_{m}d_{space}")
            fig, ax, ani = fn(basis, data, axes, idx, ax=cv.ax, **kw)
        else:
            fn = getattr(sp, f"animate_state_over_list_{m}d_{space}")
            fig, ax, ani = fn(lst, axes, idx, ax=cv.ax, **kw)
    cv.check(ctx, fig, ax, kw["scale"])
    P.labelled(ctx, ax, space, axes)
    fr = P.frames(ani)
    if not ctx.check("one_frame_each", len(fr) == n and all(len(a) == 1 for a in fr), actual=len(fr)):
        return
    for a, v in zip(fr, f, strict=True):
        at = P.largest(space, v, shape, axes) if idx is None else idx
        c, w = P.slice_of(space, v, shape, dx, axes, at)
        if m == 1:
            P.compare_line(ctx, "frame", a[0], c[0], w, measure, scale=_size(v))
        else:
            P.compare_mesh(ctx, "frame", a[0], c, w, measure, scale=_size(v))
    if m == 1:
        P.in_view(ctx, "view", ax)
        ctx.check("one_colour", len({str(a[0].get_color()) for a in fr}) == 1)


@R.workload(40, 600)
def index_lists(ctx):
    shape, axes = _shape(ctx, 1, max_total=30)
    basis = TupleBasis(*(FundamentalBasis(s) for s in shape))
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(len(shape)) if a not in axes)
    n, measure, periodic = ctx.randint(1, 4), ctx.pick(P.MEASURES), ctx.flag()
    data = G.cplx(ctx.rng, n, basis.n)
    kw = dict(measure=measure, scale=_pick_scale(ctx, measure))
    cv = P.Canvas(ctx)
    with ctx.running("list_1d_n"):
        fig, ax, ani = up.animate_data_through_list_1d_n(
            basis, data, axes, idx, ax=cv.ax, periodic=periodic, **kw
        )
    cv.check(ctx, fig, ax, kw["scale"])
    fr = P.frames(ani)
    if ctx.check("one_frame_each", len(fr) == n):
        for a, v in zip(fr, data, strict=True):
            w = P.take(v.reshape(shape), shape, axes, idx)
            P.compare_line(ctx, "frame", a[0], np.arange(len(w), dtype=float), w, measure,
                           periodic=periodic)


def _volume(ctx, name, shape, axes, dx, idx, f, measure, fig, ax, ani, clim, scale=None, axis="linear"):
    scale = _size(f) if scale is None else scale
    c, v = P.slice_of("x", f, shape, dx, axes, idx)
    fr = P.frames(ani)
    if not ctx.check("one_frame_per_plane", len(fr) == v.shape[2], actual=len(fr), expected=v.shape[2]):
        return
    ranges = set()
    for i, a in enumerate(fr):
        P.compare_mesh(ctx, "frame", a[0], c[:2, :, :, i], v[:, :, i], measure, scale=scale)
        ranges.add(tuple(np.round(np.array(a[0].get_clim()) / scale, 9)))
    ctx.check("one_colour_range", len(ranges) == 1, actual=sorted(ranges))
    if measure == "angle":
        return
    ctx.check("colourbar", len(fig.axes) == 2, actual=len(fig.axes))
    shown = P.measured(v, measure)
    lo, hi = fr[0][0].get_clim()
    if np.ptp(shown) <= 1e-9 * np.max(np.abs(shown)) and clim == (None, None) and measure != "abs":
        # one value only: any range around it
        ctx.check("range", lo <= shown.min() + 1e-9 * scale and hi >= shown.max() - 1e-9 * scale, actual=[lo, hi])
        return
    if clim[0] is not None and clim[0] >= shown.max():
        return  # nothing lies above the given limit
    if clim[0] is not None:
        ctx.close("given_minimum", lo, clim[0], scale=scale)
    elif axis == "log":  # any limit which shows everything
        ctx.check("minimum", 0 < lo <= np.min(shown[shown > 0]) * (1 + 1e-9), actual=lo, expected=np.min(shown))
    elif measure == "abs":
        ctx.close("minimum", lo, 0.0, scale=scale)
    else:
        ctx.close("minimum", lo, float(shown.min()), scale=scale, tol=1e-7)
    want = clim[1] if clim[1] is not None else float(shown.max())
    if axis == "log" and want <= lo * (1 + 1e-9) / 0.9:  # one value only: a range around it
        ctx.check("maximum", hi >= want * (1 - 1e-9), actual=hi, expected=want)
        return
    ctx.close("maximum", hi, want, scale=scale, tol=1e-7)


@R.workload(60, 700)
def volumes(ctx):
    """One frame per plane, with one colour range for all."""
    nd = 3 if ctx.flag(0.6) else 4
    shape, axes = _shape(ctx, 3, nd, max_total=36)
    dx = G.lattice(ctx.rng, nd)
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(nd) if a not in axes)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    measure = ctx.pick(P.MEASURES)
    clim = (None if ctx.flag() else ctx.rng.uniform(-2, 0), None if ctx.flag() else ctx.rng.uniform(1, 2))
    kind = ctx.pick(("state", "potential", "difference", "data"))
    given = None if ctx.flag(0.3) else idx
    idx = tuple(0 for _ in idx) if given is None else idx
    ctx.note(idx=given, basis=G.describe(basis), axes=axes, measure=measure, kind=kind, clim=clim)
    S = G.states(basis)
    data = G.cplx(ctx.rng, basis.n)
    f = data @ S
    scale = None
    kw = dict(scale=_pick_scale(ctx, measure if kind != "difference" else "real"))
    if kw["scale"] == "log" and clim[0] is not None:
        clim = (1e-3, clim[1])
    unit = 1.0 if kind == "difference" else float(np.abs(f).max()) or 1.0
    clim = tuple(None if c is None else c * unit for c in clim)
    kw["clim"] = clim
    ctx.note(scale=kw["scale"])
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        if kind == "state":
            fig, ax, ani = sp.animate_state_3d_x(
                {"basis": basis, "data": data}, axes, given, ax=cv.ax, measure=measure, **kw
            )
        elif kind == "data":
            pos = TupleBasis(*(FundamentalPositionBasis(d, n) for d, n in zip(dx, shape, strict=True)))
            fig, ax, ani = up.animate_data_through_surface_x(
                pos, f.reshape(shape) if ctx.flag() else f, axes, given, ax=cv.ax, measure=measure, **kw
            )
        elif kind == "potential":
            fig, ax, ani = pp.animate_potential_3d_x(
                {"basis": basis, "data": data}, axes, given, ax=cv.ax, measure=measure, **kw
            )
        else:
            basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.FULL_KINDS[1::2])
            other = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.FULL_KINDS[1::2])
            f0, f1 = ctx.rng.uniform(1, 2, size=(2, basis.n))
            f, measure, scale = np.abs((f0 - f1) / f0), "real", 1.0
            p0, p1 = (
                {"basis": b, "data": G.states(b).conj() @ v} for b, v in ((basis, f0), (other, f1))
            )
            fig, ax, ani = pp.animate_potential_difference_3d_x(p0, p1, axes, given, ax=cv.ax, **kw)
    cv.check(ctx, fig, ax, kw["scale"], limited=clim == (None, None))
    P.labelled(ctx, ax, "x", axes[:2])
    _volume(ctx, kind, shape, axes, dx, idx, f, measure, fig, ax, ani, clim, scale, axis=kw["scale"])


def _path_distance(path, shape, lat, wrap):
    n = np.array(shape)[:, None]
    step = np.diff(path, axis=1)
    if wrap:
        step = (step + n // 2) % n - n // 2
    return np.concatenate([[0], np.cumsum(np.linalg.norm(lat.T @ (step / n), axis=0))])


@R.workload(80, 900)
def paths(ctx):
    """Values at the points of a path, against the distance along it."""
    shape = G.random_shape(ctx.rng, max_total=40)
    nd = len(shape)
    dx = G.lattice(ctx.rng, nd)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    m = ctx.randint(1, 6)
    path = np.array([ctx.rng.integers(0, s, size=m) for s in shape])
    if not ctx.flag(0.3):
        path = path.astype(np.int64)
    wrap, measure = ctx.flag(), ctx.pick(P.MEASURES)
    kind = ctx.pick(("state", "potential", "minimum"))
    if kind == "minimum" and nd == 1:
        kind = "potential"
    data = G.cplx(ctx.rng, basis.n)
    S = G.states(basis)
    f = data @ S
    if kind == "minimum":
        # a real potential in a full basis: the minimum is unique
        basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.FULL_KINDS[1::2])
        f = ctx.rng.normal(size=basis.n)
        data = G.states(basis).conj() @ f
    obj = {"basis": basis, "data": data}
    ctx.note(basis=G.describe(basis), path=path, wrap=wrap, measure=measure, kind=kind)
    cv = P.Canvas(ctx)
    if kind == "minimum":
        axis = ctx.randint(-nd, nd - 1)
        part = np.delete(path, axis, axis=0)
        far = part + np.delete(np.array(shape), axis)[:, None] * ctx.rng.integers(-1, 2, size=part.shape)
        with ctx.running("minimum_path"):
            full = pp.get_minimum_path(obj, part, axis)
            full_far = pp.get_minimum_path(obj, far, axis)
        low = np.argmin(f.reshape(shape), axis=axis)[tuple(part)]
        exp = np.insert(part, axis % nd, low, axis=0)
        ctx.equal("minimum_path", full, exp)
        ctx.equal("minimum_path_periodic", full_far, np.insert(far, axis % nd, low, axis=0))
        with ctx.running("minimum_along_path"):
            fig, ax, line = pp.plot_potential_minimum_along_path(obj, part, axis, ax=cv.ax)
        path, wrap, measure = exp, False, "real"
    elif kind == "state":
        with ctx.running("state_along_path"):
            fig, ax, line = sp.plot_state_along_path(obj, path, wrap_distances=wrap, ax=cv.ax, measure=measure)
    else:
        shifted = path + np.array(shape)[:, None] * (ctx.rng.integers(-1, 2, size=path.shape) if ctx.flag() else 0)
        with ctx.running("potential_along_path"):
            fig, ax, line = pp.plot_potential_along_path(obj, shifted, wrap_distances=wrap, ax=cv.ax, measure=measure)
        path = shifted
    cv.check(ctx, fig, ax)
    x, y = P.line_xy(line)
    ties = wrap and np.any(2 * np.abs(np.diff(path, axis=1)) % (2 * np.array(shape)[:, None]) == np.array(shape)[:, None])
    if not ties:
        ctx.close("distance", x, _path_distance(path, shape, dx, wrap), floor=1e-9)
    v = f.reshape(shape)[tuple(path % np.array(shape)[:, None])]
    P.compare_values(ctx, "values", y, v, measure, scale=_size(f))


def _scatter(ctx, name, line, points):
    """As sets: the order in which points are drawn is not visible."""
    x, y = P.line_xy(line)
    got = np.array([x, np.real(y).astype(float)])
    if not ctx.check(name + "_count", got.shape == points.shape, actual=got.shape, expected=points.shape):
        return
    d = np.linalg.norm(got[:, :, None] - points[:, None, :], axis=0)
    sc = 1e-8 * max(float(np.max(np.abs(points))), 1e-12)
    ctx.check(name, np.all(d.min(axis=0) < sc) and np.all(d.min(axis=1) < sc), actual=got, expected=points)
    ctx.check(name + "_markers", line.get_marker() not in ("", "None", None, " "))


@R.workload(140, 1200)
def points(ctx):
    nd = 3 if ctx.flag(0.7) else 2
    shape = G.random_shape(ctx.rng, nd, max_total=40)
    dx = G.lattice(ctx.rng, nd)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[:2])
    low = ctx.flag()  # indices may count from the end
    idx = tuple(ctx.randint(-shape[a] if low else 0, shape[a] - 1) for a in range(nd) if a not in axes)
    rec = 2 * np.pi * np.linalg.inv(dx).T
    mesh = np.array(np.meshgrid(*(np.arange(s) / s for s in shape), indexing="ij"))
    xs = np.tensordot(dx, mesh, axes=(0, 0))
    mesh = np.array(np.meshgrid(*(G.freq(s) for s in shape), indexing="ij"), dtype=float)
    ks = np.tensordot(rec, mesh, axes=(0, 0))
    kind = ctx.pick(("x_points", "k_points", "x_plane", "k_plane", "x_index"))
    ctx.note(basis=G.describe(basis), axes=axes, idx=idx, kind=kind)
    cv = P.Canvas(ctx)
    lat = dx if kind[0] == "x" else rec
    fr = P.frame(lat, axes)
    with ctx.running(kind):
        if kind.endswith("points"):
            pts = ctx.rng.normal(size=(nd, 2, 3))
            fn = stp.plot_x_points_projected_2d if kind[0] == "x" else stp.plot_k_points_projected_2d
            fig, ax, line = fn(basis, axes, pts, ax=cv.ax)
            want = pts.reshape(nd, -1)
        elif kind.endswith("plane"):
            fn = (
                stp.plot_fundamental_x_in_plane_projected_2d
                if kind[0] == "x"
                else stp.plot_fundamental_k_in_plane_projected_2d
            )
            fig, ax, line = fn(basis, axes, idx, ax=cv.ax)
            g = xs if kind[0] == "x" else ks
            want = P.take(g, shape, axes, idx).reshape(nd, -1)
        else:
            m = ctx.randint(1, 4)
            at = tuple(ctx.rng.integers(0, s, size=m) for s in shape)
            flat = np.ravel_multi_index(at, shape)
            full = all(b.n == b.fundamental_n for b in basis)
            fig, ax, line = stp.plot_fundamental_x_at_index_projected_2d(
                basis, flat if full and ctx.flag() else at, axes, ax=cv.ax
            )
            want = xs[(slice(None), *at)]
    cv.check(ctx, fig, ax)
    P.labelled(ctx, ax, kind[0], axes)
    _scatter(ctx, kind, line, fr @ want)


@R.workload(50, 600)
def zones(ctx):
    """Points of the Brillouin zone of the grid, and the Bragg points around it."""
    shape = tuple(ctx.randint(1, 5) for _ in range(3))
    dx = np.eye(3)
    while True:  # a reduced lattice of the folded zone
        dx[:2, :2] = G.lattice(ctx.rng, 2)
        dx[2, 2] = ctx.rng.uniform(0.5, 2) * np.linalg.norm(dx[0])
        big = 2 * np.pi * np.linalg.inv(dx).T * np.array(shape)[:, None]
        gram = big[:2] @ big[:2].T
        if 2.02 * abs(gram[0, 1]) <= min(gram[0, 0], gram[1, 1]):
            break
        shape = tuple(ctx.randint(1, 5) for _ in range(3))
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=("fundamental_x",))
    rec = 2 * np.pi * np.linalg.inv(dx).T
    axes = (0, 1) if ctx.flag() else (1, 0)
    fr = P.frame(rec, axes)
    kind = ctx.pick(("zone", "bragg"))
    ctx.note(shape=shape, dx=dx, axes=axes, kind=kind)
    cv = P.Canvas(ctx)
    big = rec * np.array(shape)[:, None]
    cells = np.array(np.meshgrid(*[np.arange(-4, 5)] * 2, [0], indexing="ij")).reshape(3, -1)
    with ctx.running(kind):
        if kind == "zone":
            fig, ax, line = stp.plot_brillouin_zone_points_projected_2d(basis, axes, ax=cv.ax)
        else:
            fig, ax, line = stp.plot_bragg_points_projected_2d(basis, axes, ax=cv.ax)
    cv.check(ctx, fig, ax)
    x, y = P.line_xy(line)
    got = fr.T @ np.array([x, np.real(y).astype(float)])  # in the plane of b0, b1
    if kind == "bragg":
        c = np.array(np.meshgrid([-1, 0, 1], [-1, 0, 1], [0], indexing="ij")).reshape(3, -1)
        want = {tuple(np.round(v, 6)) for v in (big.T @ c).T / np.abs(big).max() + 0.0}
        have = {tuple(np.round(v, 6)) for v in got.T / np.abs(big).max() + 0.0}
        ctx.check("bragg", want <= have, actual=sorted(have), expected=sorted(want))
        frac = np.linalg.solve(big.T, got)
        ctx.close("lattice_points", frac, np.round(frac), floor=1.0)
        return
    lab = np.linalg.solve(rec.T, got)
    ctx.close("grid_points", lab, np.round(lab), floor=1.0)
    lab = np.round(lab).astype(int)
    have = sorted((int(a), int(b)) for a, b in zip(lab[0] % shape[0], lab[1] % shape[1], strict=True))
    ctx.check("every_point_once", have == sorted((i, j) for i in range(shape[0]) for j in range(shape[1])), actual=have)
    size = np.linalg.norm(got, axis=0)
    best = np.min(np.linalg.norm(got[:, :, None] - (big.T @ cells)[:, None, :], axis=0), axis=1)
    ctx.check("nearest_to_the_origin", np.all(size <= best + 1e-7 * np.abs(big).max()), actual=size, expected=best)


@R.workload(40, 400)
def uneven(ctx):
    """Potentials which are not evenly spaced in z."""
    shape = tuple(ctx.randint(1, 5) for _ in range(3))
    dx = G.lattice(ctx.rng, 2)
    z = np.sort(ctx.rng.normal(size=shape[2]))
    basis = TupleBasis(
        FundamentalPositionBasis(dx[0], shape[0]),
        FundamentalPositionBasis(dx[1], shape[1]),
        UnevenPotential3dZBasis(z),
    )
    data = ctx.rng.normal(size=int(np.prod(shape)))
    g = data.reshape(shape)
    p = {"basis": basis, "data": data}
    offset = (ctx.randint(-4, 6), ctx.randint(-4, 6))
    kind = ctx.pick(("one", "given", "111", "100"))
    ctx.note(shape=shape, kind=kind, offset=offset)
    cv = P.Canvas(ctx)
    n0, n1 = shape[:2]
    o0, o1 = offset
    with ctx.running(kind):
        if kind == "one":
            at = (ctx.randint(0, n0 - 1), ctx.randint(0, n1 - 1))
            fig, ax, line = pup.plot_uneven_potential_z(p, at, ax=cv.ax)
            lines_, want = [line], {line.get_label(): at}
        elif kind == "given":
            want = {f"s{i}": (ctx.randint(0, n0 - 1), ctx.randint(0, n1 - 1)) for i in range(3)}
            fig, ax, lines_ = pup.plot_uneven_potential_z_comparison(p, want, ax=cv.ax)
        elif kind == "111":
            fig, ax, lines_ = pup.plot_uneven_potential_z_comparison_111(p, offset, ax=cv.ax)
            want = {
                "Top Site": ((2 * n0) // 3 + o0, (2 * n1) // 3 + o1),
                "Bridge Site": (n0 // 6 + o0, n1 // 6 + o1),
                "FCC Site": (o0, o1),
                "HCP Site": (n0 // 3 + o0, n1 // 3 + o1),
            }
        else:
            fig, ax, lines_ = pup.plot_uneven_potential_z_comparison_100(p, offset, ax=cv.ax)
            want = {
                "Hollow Site": (o0, o1),
                "Bridge Site": (n0 // 2 + o0, o1),
                "Top Site": (n0 // 2 + o0, n1 // 2 + o1),
            }
    cv.check(ctx, fig, ax)
    shown = {line.get_label(): line for line in lines_}
    if ctx.check("labels", set(shown) == set(want), actual=sorted(shown)):
        for k, at in want.items():
            x, y = P.line_xy(shown[k])
            ctx.close("z", x, z, floor=1e-6)
            ctx.close("energy", y, g[at[0] % n0, at[1] % n1])


@R.workload(30, 300)
def point_potentials(ctx):
    """Potentials given at scattered points."""
    n_xy = ctx.randint(1, 5)
    xy = ctx.rng.integers(-2, 3, size=(2, n_xy)).astype(float)
    xy = np.unique(xy, axis=1)
    rows = []
    for x, y in xy.T:
        for z in np.sort(ctx.rng.normal(size=ctx.randint(1, 4))):
            rows.append((x, y, z, ctx.rng.normal()))
    rows = np.array(rows)[ctx.rng.permutation(len(rows))]
    p = {"x_points": rows[:, 0], "y_points": rows[:, 1], "z_points": rows[:, 2], "points": rows[:, 3]}
    ctx.note(n=len(rows), xy=xy)
    with ctx.running("locations"):
        loc = ppp.get_point_potential_xy_locations(p)
    ctx.check("locations", sorted(map(tuple, loc.T)) == sorted(map(tuple, xy.T)), actual=loc, expected=xy)
    cv = P.Canvas(ctx)
    with ctx.running("location_plot"):
        fig, ax, line = ppp.plot_point_potential_location_xy(p, ax=cv.ax)
    cv.check(ctx, fig, ax)
    _scatter(ctx, "location", line, xy)
    cv = P.Canvas(ctx)
    with ctx.running("all_z"):
        fig, ax = ppp.plot_point_potential_all_z(p, ax=cv.ax)
    cv.check(ctx, fig, ax)
    got = sorted(
        tuple(sorted(zip(np.ravel(li.get_xdata()), np.ravel(li.get_ydata()), strict=True))) for li in ax.lines
    )
    want = sorted(
        tuple(sorted((r[2], r[3]) for r in rows if r[0] == x and r[1] == y)) for x, y in xy.T
    )
    ctx.check("all_z", got == want, actual=str(got)[:300], expected=str(want)[:300])


@R.workload(40, 400)
def basis_states(ctx):
    """The states of a basis against position."""
    n = ctx.randint(2, 8)
    b = G.explicit_1d(ctx.rng, n) if ctx.flag() else G.basis_1d(ctx.rng, n, kinds=G.POS_KINDS)
    S = G.states(b)
    measure = ctx.pick(P.MEASURES)
    ctx.note(basis=G.describe(b), measure=measure)
    dx = float(np.linalg.norm(b.delta_x))
    xs = np.arange(n) * dx / n
    cv = P.Canvas(ctx)
    one = ctx.flag()
    with ctx.running("states"):
        if one:
            i = ctx.randint(0, b.n - 1)
            fig, ax, line = bp.plot_explicit_basis_state_x(b, i, ax=cv.ax, measure=measure)
            lines_, want = [line], S[i : i + 1]
        else:
            fig, ax, lines_ = bp.plot_explicit_basis_states_x(b, ax=cv.ax, measure=measure)
            want = S
    cv.check(ctx, fig, ax)
    if ctx.check("one_line_each", len(lines_) == len(want), actual=len(lines_), expected=len(want)):
        for line, v in zip(lines_, want, strict=True):
            x, y = P.line_xy(line)
            ctx.close("x", x, xs)
            P.compare_values(ctx, "state", y, v, measure, scale=1.0)
