"""Plots of vectors over a lattice: what is shown is the slice that was asked for."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from mon import plots as P
from mon import replot
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import plot as kp
from surface_potential_analysis.operator import plot as op
from surface_potential_analysis.potential import plot as pp
from surface_potential_analysis.potential import _comparison_points as cp
from surface_potential_analysis.probability_vector import plot as prp
from surface_potential_analysis.state_vector import plot as sp
from surface_potential_analysis.state_vector import state_vector_list_plot as slp
from surface_potential_analysis.util import plot as up

R = Registry("R01")
replot.watch(kp, op, pp, prp, sp, slp, up)
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random vectors, states, lists, potentials and diagonal operators on random lattices (1-3 dimensions, any "
    "storage basis), drawn with every measure and scale on a given or a fresh set of axes; the "
    "lines, meshes, limits and colour ranges are read back from the figure. Oracle: explicit "
    "Fourier sums and projections of the slice. Drawn again with other scales and measures. Non-trivial: at least one artist compared."
)


def _setup(ctx, m, *, kinds=G.POS_KINDS, nd=None, max_total=60):
    while True:
        shape = G.random_shape(ctx.rng, nd, max_total=max_total)
        if len(shape) < m:
            continue
        axes = tuple(int(a) for a in ctx.rng.permutation(len(shape))[:m])
        if all(shape[a] > 1 for a in axes):
            break
    dx = G.lattice(ctx.rng, len(shape))
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=kinds)
    idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(len(shape)) if a not in axes)
    idx = None if ctx.flag(0.4) else idx
    measure, scale = ctx.pick(P.MEASURES), ctx.pick(P.SCALES)
    ctx.note(basis=G.describe(basis), axes=axes, idx=idx, measure=measure, scale=scale)
    return shape, dx, basis, axes, idx, measure, scale


def _one_line(ctx, space, f, shape, dx, axes, idx, line, measure):
    at = P.largest(space, f, shape, axes) if idx is None else idx
    c, v = P.slice_of(space, f, shape, dx, axes, at)
    P.compare_line(ctx, "line", line, c[0], v, measure, scale=_size(f))


def _one_mesh(ctx, space, f, shape, dx, axes, idx, mesh, measure):
    at = P.largest(space, f, shape, axes) if idx is None else idx
    c, v = P.slice_of(space, f, shape, dx, axes, at)
    P.compare_mesh(ctx, "mesh", mesh, c, v, measure, scale=_size(f))
    _colours(ctx, mesh)


def _size(f):
    return float(np.linalg.norm(f)) or 1.0


def _colours(ctx, mesh):
    """The colours span what is shown, and every shown value has one."""
    shown = np.asarray(mesh.get_array())
    lo, hi = mesh.get_clim()
    top = float(np.max(shown))
    log = type(mesh.norm).__name__ == "LogNorm"
    part = shown[shown > 0] if log else shown
    if np.ptp(part) <= 1e-9 * np.max(np.abs(part)):
        ctx.check("colour_range", lo <= top <= hi, actual=[lo, hi], expected=top)
        return
    if log:
        want = float(np.min(shown[shown > 0]))
    else:
        want = min(0.0, float(np.min(shown))) if np.min(shown) >= 0 and lo == 0 else float(np.min(shown))
    ctx.close("colour_range", [lo, hi], (want, top), scale=max(abs(want), abs(top)) or 1.0, tol=1e-7)


def _vector(ctx, basis):
    data = G.cplx(ctx.rng, basis.n) * 10.0 ** ctx.randint(-3, 2)
    f = G.ref_fundamental(data, basis)
    return data, f


def _calls_1d(ctx, space):
    def vec(basis, data, **kw):
        fn = up.plot_data_1d_x if space == "x" else up.plot_data_1d_k
        return fn(basis, data, kw.pop("axes"), kw.pop("idx"), **kw)

    def state(basis, data, **kw):
        fn = sp.plot_state_1d_x if space == "x" else sp.plot_state_1d_k
        return fn({"basis": basis, "data": data}, kw.pop("axes"), kw.pop("idx"), **kw)

    def kernel(basis, data, **kw):
        return kp.plot_isotropic_noise_kernel_1d_x(
            {"basis": basis, "data": data}, kw.pop("axes"), kw.pop("idx"), **kw
        )

    def probability(basis, data, **kw):
        fn = prp.plot_probability_1d_x if space == "x" else prp.plot_probability_1d_k
        return fn({"basis": basis, "data": data}, kw.pop("axes"), kw.pop("idx"), **kw)

    out = {"vector": vec, "state": state, "probability": probability}
    if space == "x":
        out["kernel"] = kernel
    return out


@R.workload(160, 1500)
def lines(ctx):
    space = ctx.pick("xk")
    shape, dx, basis, axes, idx, measure, scale = _setup(ctx, 1)
    data, f = _vector(ctx, basis)
    calls = _calls_1d(ctx, space)
    name = ctx.pick(sorted(calls))
    ctx.note(space=space, call=name)
    keep = data.copy()
    cv = P.Canvas(ctx)
    with ctx.running(f"{name}_1d_{space}"):
        fig, ax, line = calls[name](
            basis, data, axes=axes, idx=idx, ax=cv.ax, scale=scale, measure=measure
        )
    cv.check(ctx, fig, ax, scale)
    P.labelled(ctx, ax, space, axes)
    _one_line(ctx, space, f, shape, dx, axes, idx, line, measure)
    ctx.check("on_the_axes", line in ax.lines)
    ctx.equal("input_unchanged", data, keep)
    ctx.check("scale", ax.get_yscale() == scale, actual=ax.get_yscale(), expected=scale)
    if scale in ("linear", "symlog"):
        P.in_view(ctx, "view", ax)


@R.workload(60, 700)
def several_lines(ctx):
    """Many states on the same axes: one line each, all in view."""
    space = ctx.pick("xk")
    shape, dx, basis, axes, idx, measure, _ = _setup(ctx, 1, max_total=30)
    n = ctx.randint(1, 4)
    lst = {
        "basis": TupleBasis(FundamentalBasis(n), basis),
        "data": (G.cplx(ctx.rng, n, basis.n) * 10.0 ** ctx.rng.uniform(-1, 1, (n, 1))).ravel(),
    }
    f = G.ref_fundamental(lst["data"].reshape(n, -1), basis)
    fn = slp.plot_states_1d_x if space == "x" else slp.plot_states_1d_k
    cv = P.Canvas(ctx)
    with ctx.running("states_" + space):
        fig, ax = fn(lst, axes, idx, ax=cv.ax, measure=measure)
    cv.check(ctx, fig, ax)
    if ctx.check("one_line_each", len(ax.lines) == n, actual=len(ax.lines), expected=n):
        for i in range(n):
            _one_line(ctx, space, f[i], shape, dx, axes, idx, ax.lines[i], measure)
    P.in_view(ctx, "view", ax)


@R.workload(90, 1000)
def surfaces(ctx):
    space = ctx.pick("xk")
    shape, dx, basis, axes, idx, measure, scale = _setup(ctx, 2)
    data, f = _vector(ctx, basis)
    obj = {"basis": basis, "data": data}
    calls = {
        "vector": lambda **kw: (up.plot_data_2d_x if space == "x" else up.plot_data_2d_k)(
            basis, data, axes, idx, **kw
        ),
        "state": lambda **kw: (sp.plot_state_2d_x if space == "x" else sp.plot_state_2d_k)(
            obj, axes, idx, **kw
        ),
        "probability": lambda **kw: (
            prp.plot_probability_2d_x if space == "x" else prp.plot_probability_2d_k
        )(obj, axes, idx, **kw),
    }
    if space == "x":
        calls["kernel"] = lambda **kw: kp.plot_isotropic_noise_kernel_2d_x(obj, axes, idx, **kw)
    name = ctx.pick(sorted(calls))
    ctx.note(space=space, call=name)
    if scale == "log":
        measure = "abs"
        at = P.largest(space, f, shape, axes) if idx is None else idx
        v = np.abs(P.slice_of(space, f, shape, dx, axes, at)[1])
        if np.max(v) < 1e-9 * _size(f) or np.ptp(v) < 1e-9 * np.max(v):
            scale = "linear"
    cv = P.Canvas(ctx)
    with ctx.running(f"{name}_2d_{space}"):
        fig, ax, mesh = calls[name](ax=cv.ax, scale=scale, measure=measure)
    cv.check(ctx, fig, ax, scale)
    P.labelled(ctx, ax, space, axes)
    _one_mesh(ctx, space, f, shape, dx, axes, idx, mesh, measure)
    ctx.check("on_the_axes", mesh in ax.collections)
    ctx.check("one_colourbar", len(fig.axes) == 2 and mesh.colorbar is not None,
              actual=len(fig.axes))
    kind = {"linear": "Normalize", "squared": "Normalize", "log": "LogNorm",
            "symlog": "SymLogNorm"}[scale]
    ctx.check("colour_scale", type(mesh.norm).__name__ == kind, actual=type(mesh.norm).__name__)
    if ctx.flag(0.3):
        with ctx.running("again"):
            fig2, ax2, mesh2 = calls[name](ax=ax, scale=scale, measure=measure)
        ctx.check("same_axes", ax2 is ax and mesh2 in ax.collections)
        ctx.check("still_one_colourbar", len(fig2.axes) == 2, actual=len(fig2.axes))


@R.workload(40, 500)
def index_lines(ctx):
    """Against the index of the fundamental grid."""
    shape, dx, basis, axes, idx, measure, _ = _setup(ctx, 1, kinds=G.KINDS)
    data, f = _vector(ctx, basis)
    periodic = ctx.flag()
    cv = P.Canvas(ctx)
    with ctx.running("plot_n"):
        fig, ax, line = up.plot_data_1d_n(
            basis, data, axes, idx, ax=cv.ax, measure=measure, periodic=periodic
        )
    cv.check(ctx, fig, ax)
    from surface_potential_analysis.stacked_basis.conversion import (
        stacked_basis_as_fundamental_basis,
    )

    fb = stacked_basis_as_fundamental_basis(basis)
    g = f @ G.states(fb).conj().T
    at = idx
    if at is None:
        at = P.largest_index(g.reshape(shape), axes)
    v = P.take(g.reshape(shape), shape, axes, at)
    P.compare_line(ctx, "line", line, np.arange(len(v), dtype=float), v, measure,
                   periodic=periodic)


@R.workload(60, 700)
def operators(ctx):
    """The diagonal of an operator in the position basis."""
    two = ctx.flag(0.4)
    shape, dx, basis, axes, idx, measure, _ = _setup(ctx, 2 if two else 1, max_total=24)
    S = G.states(basis)
    keep_diag = ctx.flag()
    if keep_diag and idx is None:  # the diagonal may be constant
        idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(len(shape)) if a not in axes)
    if keep_diag:
        d = G.cplx(ctx.rng, basis.n)
        full = np.diag(d)
        data = d
    else:
        full = G.cplx(ctx.rng, basis.n, basis.n)
        data = full.ravel()
    # <x|O|x>, with |x> in the span of the basis
    f = np.einsum("ix,ij,jx->x", S, full, S.conj())
    o = {"basis": TupleBasis(basis, basis), "data": data}
    fn = {
        (True, True): op.plot_diagonal_operator_along_diagonal_2d_x,
        (True, False): op.plot_diagonal_operator_along_diagonal_1d_x,
        (False, True): op.plot_operator_along_diagonal_2d_x,
        (False, False): op.plot_operator_along_diagonal_1d_x,
    }[(keep_diag, two)]
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(fn=fn.__name__, scale=scale)
    cv = P.Canvas(ctx)
    with ctx.running(fn.__name__):
        fig, ax, art = fn(o, axes, idx, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    (_one_mesh if two else _one_line)(ctx, "x", f, shape, dx, axes, idx, art, measure)


@R.workload(90, 900)
def operator_tables(ctx):
    """Elements of an operator, a kernel or an array, as a table or along its diagonal."""
    n = ctx.randint(2, 7)
    basis = G.basis_1d(ctx.rng, n, kind="fundamental")
    o = {"basis": TupleBasis(basis, basis), "data": G.cplx(ctx.rng, n * n)}
    M = o["data"].reshape(n, n)
    d = {"basis": TupleBasis(basis, basis), "data": G.cplx(ctx.rng, n)}
    measure, scale = ctx.pick(P.MEASURES), ctx.pick(("linear", "symlog", "squared"))
    kind = ctx.pick(("2d", "2d_diagonal", "diagonal", "full_diagonal", "list", "2d_kernel", "2d_diagonal_kernel", "2d_data", "data"))
    ctx.note(n=n, measure=measure, kind=kind)
    pair = TupleBasis(basis, basis)
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        if kind == "2d_kernel":
            n = ctx.randint(2, 3)
            b = G.basis_1d(ctx.rng, n, kind="fundamental")
            want = G.cplx(ctx.rng, n * n, n * n)
            k = {"basis": TupleBasis(TupleBasis(b, b), TupleBasis(b, b)), "data": want.ravel()}
            fig, ax, art = kp.plot_kernel_2d(k, ax=cv.ax, measure=measure, scale=scale)
        elif kind == "2d_diagonal_kernel":
            # from the middle of the axes, as the positions are periodic
            k = {"basis": TupleBasis(pair, pair), "data": o["data"]}
            fig, ax, art = kp.plot_diagonal_kernel_2d(k, ax=cv.ax, measure=measure, scale=scale)
            order = np.roll(np.arange(n), n // 2)
            want = M[np.ix_(order, order)]
        elif kind == "2d_data":
            want = G.cplx(ctx.rng, n, ctx.randint(2, 7))
            coords = None if ctx.flag() else np.array(np.meshgrid(np.arange(want.shape[1]) * 0.5 - 1, np.arange(n) * 1.0))
            fig, ax, art = up.plot_data_2d(want, coords, ax=cv.ax, measure=measure, scale=scale)
            at = P.mesh_values(art)[0]
            ctx.close("coordinates", at, coords if coords is not None else np.array(np.meshgrid(np.arange(want.shape[1]) + 0.5, np.arange(n) + 0.5)), scale=1.0)
        elif kind == "data":
            want = d["data"]
            x = ctx.rng.normal() + np.arange(n) * ctx.rng.uniform(0.1, 3)
            err = None if ctx.flag() else ctx.rng.uniform(0, 1, size=n)
            periodic = err is None and ctx.flag()
            fig, ax, art = up.plot_data_1d(want, x, err, ax=cv.ax, measure=measure, scale=scale, periodic=periodic)
        elif kind == "2d":
            fig, ax, art = op.plot_operator_2d(o, ax=cv.ax, measure=measure, scale=scale)
            want = M
        elif kind == "2d_diagonal":
            fig, ax, art = op.plot_operator_2d_diagonal(d, ax=cv.ax, measure=measure)
            scale = None
            want = np.diag(d["data"])
        elif kind == "diagonal":
            fig, ax, art = op.plot_diagonal_operator_along_diagonal(
                d, ax=cv.ax, measure=measure, scale=scale
            )
            want = d["data"]
        elif kind == "full_diagonal":
            fig, ax, art = op.plot_operator_along_diagonal(
                o, ax=cv.ax, measure=measure, scale=scale
            )
            want = np.diag(M)
        else:
            m = ctx.randint(1, 4)
            lst = {
                "basis": TupleBasis(FundamentalBasis(m), TupleBasis(basis, basis)),
                "data": G.cplx(ctx.rng, m * n),
            }
            periodic = ctx.flag()
            fig, ax, ani = op.animate_diagonal_operator_list_along_diagonal(
                lst, ax=cv.ax, measure=measure, scale=scale, periodic=periodic
            )
    cv.check(ctx, fig, ax, scale)
    if kind.startswith("2d"):
        _, v = P.mesh_values(art)
        P.compare_values(ctx, "table", v, want, measure)
        _colours(ctx, art)
        return
    if kind == "list":
        fr = P.frames(ani)
        if ctx.check("frames", len(fr) == m and all(len(a) == 1 for a in fr)):
            for a, v in zip(fr, lst["data"].reshape(m, n), strict=True):
                P.compare_line(ctx, "frame", a[0], np.arange(n, dtype=float), v, measure,
                               periodic=periodic)
        return
    if kind == "data":
        P.compare_line(ctx, "data", art, x, want, measure, periodic=periodic)
        P.in_view(ctx, "data_view", ax)
        bars = [c for c in ax.collections if hasattr(c, "get_segments")]
        ctx.check("error_bars", len(bars) == (err is not None))
        if err is not None and bars:
            y = P.line_xy(art)[1].astype(float)
            ctx.close("errors", np.array(bars[0].get_segments())[:, :, 1], np.array([y - err, y + err]).T)
        return
    P.compare_line(ctx, "line", art, np.arange(n, dtype=float), want, measure, periodic=False)


def _potential(ctx, m, nd=None, kinds=G.POS_KINDS):
    shape, dx, basis, axes, idx, _, scale = _setup(ctx, m, nd=nd, kinds=kinds)
    S = G.states(basis)
    data = S.conj() @ ctx.rng.normal(size=S.shape[1])
    f = data @ S
    if ctx.flag(0.3) and all(type(b).__name__ == "FundamentalPositionBasis" for b in basis):
        data = np.real(data)
        f = np.real(f)
    return {"basis": basis, "data": data}, f, shape, dx, axes, idx, scale


@R.workload(60, 700)
def potentials(ctx):
    two = ctx.flag()
    p, f, shape, dx, axes, idx, scale = _potential(ctx, 2 if two else 1)
    scale = "linear" if scale == "log" else scale
    cv = P.Canvas(ctx)
    difference = two and ctx.flag()
    with ctx.running("potential"):
        if difference:
            other = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.FULL_KINDS[1::2])
            o2 = ctx.rng.normal(size=other.n)
            q = {"basis": other, "data": o2}
            g = G.ref_fundamental(o2, other)
            g = G.states(p["basis"]).T @ (G.states(p["basis"]).conj() @ g)
            f = f - g
            fig, ax, art = pp.plot_potential_difference_2d_x(p, q, axes, idx, ax=cv.ax, scale=scale)
        elif two:
            fig, ax, art = pp.plot_potential_2d_x(p, axes, idx, ax=cv.ax, scale=scale)
        else:
            fig, ax, art = pp.plot_potential_1d_x(p, axes, idx, ax=cv.ax, scale=scale)
    ctx.note(difference=difference)
    cv.check(ctx, fig, ax, scale)
    P.labelled(ctx, ax, "x", axes)
    (_one_mesh if two else _one_line)(ctx, "x", f, shape, dx, axes, idx, art, "real")


@R.workload(50, 600)
def potential_comparison(ctx):
    """One labelled line for every site that was asked for."""
    which = ctx.pick(("111", "100", "given"))
    shape = tuple(ctx.randint(2, 5) for _ in range(3))
    dx = G.lattice(ctx.rng, 3)
    kinds = ("fundamental_x",) if which != "given" else G.POS_KINDS
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=kinds)
    S = G.states(basis)
    data = S.conj() @ ctx.rng.normal(size=S.shape[1])
    f = data @ S
    p = {"basis": basis, "data": data}
    offset = (ctx.randint(-3, 6), ctx.randint(-3, 6))
    ctx.note(which=which, shape=shape, basis=G.describe(basis), offset=offset)
    cv = P.Canvas(ctx)
    with ctx.running(which):
        if which == "111":
            pts = cp.get_111_comparison_points_x2(shape[:2], offset)
            fig, ax, lines_ = pp.plot_potential_1d_x2_comparison_111(p, offset, ax=cv.ax)
            want = {k: (v, 2) for k, v in pts.items()}
        elif which == "100":
            pts = cp.get_100_comparison_points_x2(shape[:2], offset)
            fig, ax, lines_ = pp.plot_potential_1d_x2_comparison_100(p, offset, ax=cv.ax)
            want = {k: (v, 2) for k, v in pts.items()}
        else:
            want = {}
            for i in range(ctx.randint(1, 4)):
                a = ctx.randint(0, 2)
                want[f"site {i}"] = (
                    tuple(ctx.randint(0, shape[b] - 1) for b in range(3) if b != a), a
                )
            fig, ax, lines_ = pp.plot_potential_1d_comparison(p, want, ax=cv.ax)
    cv.check(ctx, fig, ax)
    if not ctx.check("one_line_each", len(lines_) == len(want) == len(ax.lines)):
        return
    shown = {line.get_label(): line for line in lines_}
    if not ctx.check("labels", set(shown) == set(want), actual=sorted(shown)):
        return
    for label, (at, a) in want.items():
        at = tuple(int(i) for i in at)
        _one_line(ctx, "x", f, shape, dx, (a,), at, shown[label], "real")
    texts = {t.get_text() for t in ax.get_legend().get_texts()}
    ctx.check("legend", texts == set(want), actual=sorted(texts))


@R.workload(60, 700)
def differences(ctx):
    """Relative difference of two states."""
    space = ctx.pick("xk")
    two = ctx.flag()
    shape, dx, basis, axes, idx, measure, _ = _setup(ctx, 2 if two else 1)
    if not two:
        space = "k"
    if idx is None:
        idx = tuple(ctx.randint(0, shape[a] - 1) for a in range(len(shape)) if a not in axes)
    b1 = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    s0, s1 = ({"basis": b, "data": G.cplx(ctx.rng, b.n)} for b in (basis, b1))
    f0, f1 = (G.ref_fundamental(s["data"], s["basis"]) for s in (s0, s1))
    fn = sp.plot_state_difference_1d_k if not two else (
        sp.plot_state_difference_2d_k if space == "k" else sp.plot_state_difference_2d_x
    )
    cv = P.Canvas(ctx)
    with ctx.running(fn.__name__):
        fig, ax, art = fn(s0, s1, axes, idx, ax=cv.ax, measure=measure)
    cv.check(ctx, fig, ax)
    P.labelled(ctx, ax, space, axes)
    c, v0 = P.slice_of(space, f0, shape, dx, axes, idx)
    _, v1 = P.slice_of(space, f1, shape, dx, axes, idx)
    big = np.maximum(np.abs(v0), np.abs(v1))
    ok = big > 1e-7 * max(_size(f0), _size(f1))
    v = (v0 - v1) / np.where(ok, big, 1)
    if two:
        co, y = P.mesh_values(art)
    else:
        x, y = P.line_xy(art)
        c = np.append(c[0], 2 * c[0][-1] - c[0][-2])
        v, ok, co = np.append(v, v[0]), np.append(ok, ok[0]), x
    ctx.close("coordinates", co, c, tol=1e-6)
    ctx.check("finite", np.all(np.isfinite(y)))
    P.compare_values(ctx, "values", y[ok], v[ok], measure, tol=1e-6, scale=1.0)
