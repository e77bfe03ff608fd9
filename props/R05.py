"""Plots of wavepackets, their bands and their effective masses."""

import warnings

import numpy as np
from scipy.constants import Boltzmann, hbar

from mon import gen as G
from mon import plots as P
from mon import replot
from mon import wave as W
from mon.core import Registry, Skip
from props.R02 import _path_distance, _volume
from props.W04 import _Case, _case, _nnkp, _umat
from surface_potential_analysis.basis.basis import (
    FundamentalBasis,
    FundamentalTransformedBasis,
    FundamentalTransformedPositionBasis,
)
from surface_potential_analysis.basis.block_fraction_basis import ExplicitBlockFractionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.wavepacket import plot as wp

R = Registry("R05")
replot.watch(wp)
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random wavepackets (lattices, sample lists, bands, storage bases) and free particles of known mass; lines, meshes "
    "and frames are read back from the figure. Oracle: the state of the supercell written out on its grid, explicit "
    "Fourier sums of the band energies, and the mass of the free particle. Drawn again with other scales and measures. Non-trivial: at least one artist compared."
)


def _axes(ctx, shape, m):
    nd = len(shape)
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[:m])
    if any(shape[a] < 2 for a in axes):
        raise Skip
    return axes


def _idx(ctx, shape, axes):
    return None if ctx.flag(0.4) else tuple(ctx.randint(0, s - 1) for a, s in enumerate(shape) if a not in axes)


def _cell_frame(lst, dx):
    """Lattice vectors of the crystal made of the cells."""
    return dx * np.array(lst.fundamental_shape)[:, None]


@R.workload(80, 900)
def samples(ctx):
    """Sample points of the wavepacket."""
    nd = ctx.randint(2, 3)
    lst, state, dx = W.bases(ctx, nd, list_kinds=W.FULL_LIST_KINDS, max_list=30)
    w = W.packet(ctx, lst, state)
    axes = tuple(int(a) for a in ctx.rng.permutation(nd)[:2])
    N = lst.fundamental_shape
    idx = _idx(ctx, N, axes)
    ctx.note(lst=G.describe(lst), axes=axes, idx=idx)
    cv = P.Canvas(ctx)
    with ctx.running("samples"):
        fig, ax, line = wp.plot_wavepacket_sample_frequencies(w, axes, idx, ax=cv.ax)
    cv.check(ctx, fig, ax)
    dk = 2 * np.pi * np.linalg.inv(_cell_frame(lst, dx)).T
    k = np.tensordot(dk, W.labels(N).astype(float), axes=(0, 0)).reshape(nd, *N)
    at = tuple(0 for _ in range(nd - 2)) if idx is None else idx
    rest = [a for a in range(nd) if a not in axes]
    for a, i in sorted(zip(rest, at, strict=True), reverse=True):
        k = np.take(k, i, axis=1 + a)
    want = k[list(axes)].reshape(2, -1)
    x, y = P.line_xy(line)
    got = np.array([x, np.real(y)])
    order = lambda p: p[:, np.lexsort(np.round(p / np.abs(p).max() * 1e6))] if np.abs(p).max() else p
    if ctx.check("number", got.shape == want.shape, actual=got.shape, expected=want.shape):
        ctx.close("points", order(got), order(want), scale=np.abs(want).max() or 1.0)
    ctx.check("markers", line.get_marker() not in ("", "None", None, " "))


def _energies(ctx, lst, n):
    return ctx.rng.normal(size=(n, lst.n))


@R.workload(100, 1200)
def eigenvalues_2d(ctx):
    """Energies of one band against momentum, or their transform."""
    nd = ctx.randint(2, 3)
    lst, state, dx = W.bases(ctx, nd, list_kinds=W.LIST_KINDS if ctx.flag() else W.FULL_LIST_KINDS, max_list=30)
    N = lst.fundamental_shape
    axes = _axes(ctx, N, 2)
    idx = _idx(ctx, N, axes)
    w = W.packet(ctx, lst, state)
    w["eigenvalue"] = (_energies(ctx, lst, 1)[0] + 1j * ctx.rng.normal(size=lst.n)).astype(complex)
    space, measure = ctx.pick("xk"), ctx.pick(P.MEASURES)
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(lst=G.describe(lst), axes=axes, idx=idx, space=space, measure=measure)
    keep = w["eigenvalue"].copy()
    f = np.fft.ifftn(W.fundamental_list(w["eigenvalue"], lst).reshape(N), norm="ortho")
    cv = P.Canvas(ctx)
    fn = wp.plot_wavepacket_eigenvalues_2d_k if space == "k" else wp.plot_wavepacket_eigenvalues_2d_x
    with ctx.running(fn.__name__):
        fig, ax, mesh = fn(w, axes, idx, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    at = P.largest(space, f, N, axes) if idx is None else idx
    c, v = P.slice_of(space, f, N, _cell_frame(lst, dx), axes, at)
    P.compare_mesh(ctx, "mesh", mesh, c, v, measure, scale=float(np.linalg.norm(f)))
    ctx.equal("unchanged", w["eigenvalue"], keep)


@R.workload(100, 1200)
def eigenvalues_1d(ctx):
    """Energies of every band along an axis, or their transform."""
    lst, state, dx = W.bases(ctx, max_list=24)
    N = lst.fundamental_shape
    axes = _axes(ctx, N, 1)
    n = ctx.randint(1, 4)
    w = W.packets(ctx, n, lst, state)
    bands = None if ctx.flag(0.4) else [int(b) for b in ctx.rng.permutation(n)[: ctx.randint(1, n)]]
    space, measure = ctx.pick("xk"), ctx.pick(P.MEASURES)
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(lst=G.describe(lst), axes=axes, bands=bands, space=space, measure=measure)
    e = w["eigenvalue"].reshape(n, -1)
    fs = [np.fft.ifftn(W.fundamental_list(v, lst).reshape(N), norm="ortho") for v in e]
    cv = P.Canvas(ctx)
    with ctx.running("eigenvalues_1d"):
        if space == "k":
            fig, ax, lines = wp.plot_wavepacket_eigenvalues_1d_k(w, axes, bands, ax=cv.ax, measure=measure, scale=scale)
            ctx.equal("lines_returned", len(lines), len(ax.lines))
        else:
            fig, ax = wp.plot_wavepacket_eigenvalues_1d_x(w, axes, bands, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    bands = list(range(n)) if bands is None else bands
    if not ctx.check("one_line_per_band", len(ax.lines) == len(bands), actual=len(ax.lines)):
        return
    for line, b in zip(ax.lines, bands, strict=True):
        at = P.largest(space, fs[b], N, axes)
        c, v = P.slice_of(space, fs[b], N, _cell_frame(lst, dx), axes, at)
        P.compare_line(ctx, "band", line, c[0], v, measure, scale=float(np.linalg.norm(fs[b])))


@R.workload(60, 700)
def uneven(ctx):
    """Energies at arbitrary Bloch fractions, in order of the projected phase."""
    nd = ctx.randint(1, 3)
    m, n = ctx.randint(1, 7), ctx.randint(1, 4)
    fractions = ctx.rng.uniform(-1, 1, size=(nd, m))
    shape = G.random_shape(ctx.rng, nd, max_total=12)
    dx = G.lattice(ctx.rng, nd)
    state = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.STATE_KINDS)
    lst = ExplicitBlockFractionBasis(fractions)
    w = {
        "basis": TupleBasis(TupleBasis(FundamentalBasis(n), lst), state),
        "data": G.cplx(ctx.rng, n * m * state.n),
        "eigenvalue": ctx.rng.normal(size=n * m) + 0j,
    }
    axis = ctx.randint(0, nd - 1)
    bands = None if ctx.flag(0.4) else [int(b) for b in ctx.rng.permutation(n)[: ctx.randint(1, n)]]
    measure = ctx.pick(P.MEASURES)
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(state=G.describe(state), samples=m, axis=axis, bands=bands, measure=measure)
    cv = P.Canvas(ctx)
    with ctx.running("uneven"):
        fig, ax = wp.plot_uneven_wavepacket_eigenvalues_1d_k(w, (axis,), bands, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    dk = 2 * np.pi * np.linalg.inv(dx).T
    x = (dk.T @ fractions).T @ (dk[axis] / np.linalg.norm(dk[axis]))
    order = np.argsort(x)
    bands = list(range(n)) if bands is None else bands
    if not ctx.check("one_line_per_band", len(ax.lines) == len(bands), actual=len(ax.lines)):
        return
    for line, b in zip(ax.lines, bands, strict=True):
        v = w["eigenvalue"].reshape(n, m)[b][order]
        P.compare_line(ctx, "band", line, x[order], v, measure, periodic=False)


def _component(e, lst, axis):
    """Mean over the samples of the energies times the phase of one cell."""
    lab = W.labels(lst.fundamental_shape)[axis] / lst.fundamental_shape[axis]
    return np.mean(W.fundamental_list(e, lst) * np.exp(2j * np.pi * lab))


def _mass(c, band, a):
    """Mass of the free particle with this component, in this band."""
    return hbar**2 * (2 * band + 1) / (a**2 * np.abs(c))


def _free(ctx, lst, dx, n, m):
    """Bands of a free particle in one dimension."""
    N = lst.fundamental_shape[0]
    g = 2 * np.pi / abs(float(dx[0, 0]))
    q = W.labels(lst.fundamental_shape)[0] / N
    k = g * (q[:, None] + np.arange(-n, n + 1))
    e = np.sort(hbar**2 * k**2 / (2 * m), axis=1)[:, :n]
    S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
    return (S.conj() @ e).T


@R.workload(120, 1500)
def masses(ctx):
    """Effective masses from the energies, transformed or localized."""
    kind = ctx.pick(("transformed", "line", "against_energy", "against_band", "localized", "localized_plot"))
    free = ctx.flag(0.5) and kind != "localized_plot"
    if kind == "localized_plot":
        lst, state, dx, n, w = _case(ctx)
    else:
        kinds = W.FULL_LIST_KINDS if kind == "localized" or free else W.LIST_KINDS
        lst, state, dx = W.bases(ctx, 1 if free else None, list_kinds=kinds, max_list=24, max_total=120)
        if lst.n < np.prod(lst.fundamental_shape):
            raise Skip  # no energy for some of the samples
        n = ctx.randint(1, 3)
        if free:
            N = ctx.randint(6, 20)
            cls = lst[0].__class__
            lst = TupleBasis(cls(N) if cls is FundamentalTransformedBasis else FundamentalTransformedPositionBasis(dx[0] * N, N))
        n = min(n, state.n) if kind in ("localized", "against_energy") else n
        w = W.packets(ctx, n, lst, state, orthonormal=kind in ("localized", "against_energy"))
    mass = float(10.0 ** ctx.rng.uniform(-30, -25))
    N = lst.fundamental_shape
    axis = ctx.randint(0, len(N) - 1)
    if N[axis] < 2:
        raise Skip
    if free:
        e = _free(ctx, lst, dx, n, mass)
    else:
        e = ctx.rng.normal(size=(n, lst.n)) * hbar**2 / mass * 1e20
    w["eigenvalue"] = e.ravel() + 0j
    ctx.note(lst=G.describe(lst), state=G.describe(state), kind=kind, axis=axis, bands=n, free=free)
    keep = w["eigenvalue"].copy()
    a = float(np.linalg.norm(dx[axis]))
    c = np.array([_component(v, lst, axis) for v in e])
    if np.min(np.abs(c)) < 1e-3 * np.max(np.abs(e)):
        raise Skip
    want = _mass(c, np.arange(n), a)
    ax = None
    if kind == "transformed":
        with ctx.running(kind):
            out = wp.get_wavepacket_transformed_energy_effective_mass(w, axis)
        got = np.asarray(out["data"])
        ctx.check("basis", out["basis"].n == n and got.shape == (n,))
    elif kind == "localized":
        U = np.array([G.unitary(ctx.rng, n) for _ in range(lst.n)])
        if free:
            U = np.array([np.diag(np.exp(2j * np.pi * ctx.rng.uniform(size=n))) for _ in range(lst.n)])
        op = {"basis": TupleBasis(lst, TupleBasis(FundamentalBasis(n), w["basis"][0][0])), "data": U.ravel()}
        with ctx.running(kind):
            out = wp.get_wavepacket_localized_effective_mass(w, op, axis)
        got = np.asarray(out["data"])
        ctx.check("basis", out["basis"].n == n and got.shape == (n,))
        mixed = np.einsum("qic,cq->iq", np.abs(U) ** 2, e)
        c = np.array([_component(v, lst, axis) for v in mixed])
        if np.min(np.abs(c)) < 1e-3 * np.max(np.abs(e)):
            raise Skip
        want = _mass(c, np.arange(n), a)
    else:
        cv = P.Canvas(ctx)
        scale = ctx.pick(("linear", "symlog", "squared"))
        average = np.mean(e, axis=1)
        true = None if ctx.flag() else mass
        if kind == "line":
            bands = None if ctx.flag(0.4) else [int(b) for b in ctx.rng.permutation(n)[: ctx.randint(1, n)]]
            with ctx.running(kind):
                fig, ax, line = wp.plot_wavepacket_transformed_energy_1d(
                    w, None if true is None else mass, (axis,), bands, ax=cv.ax, scale=scale
                )
            cv.check(ctx, fig, ax, scale, limited=False)
            bands = list(range(n)) if bands is None else bands
            shown = ax.lines[0]
            x, y = P.line_xy(shown)
            ctx.close("bands", x, np.array(bands, dtype=float))
            ctx.close("components", np.real(y).astype(float), np.abs(c)[bands] * np.sqrt(lst.n), scale=np.abs(c).max() * np.sqrt(lst.n))
            ctx.equal("lines", len(ax.lines), 1 if true is None else 2)
            if true is not None:
                x, y = P.line_xy(ax.lines[1])
                ctx.close("free_bands", x, np.array(bands, dtype=float))
                ref = hbar**2 * (2 * np.array(bands) + 1) / (a**2 * mass) * np.sqrt(lst.n)
                ctx.close("free", np.real(y).astype(float), ref, scale=ref.max())
                if free:
                    y0 = np.real(P.line_xy(ax.lines[0])[1]).astype(float)
                    ctx.check("free_particle", np.all(np.abs(y0 / np.real(y).astype(float) - 1) < 0.2), actual=y0, expected=y)
            return
        if kind == "against_energy":
            with ctx.running(kind):
                fig, ax, line = wp.plot_wavepacket_transformed_energy_effective_mass_against_energy(
                    w, (axis,), true_mass=true, ax=cv.ax, scale=scale
                )
        elif kind == "against_band":
            average, true = np.arange(n, dtype=float), None
            with ctx.running(kind):
                fig, ax, line = wp.plot_wavepacket_transformed_energy_effective_mass_against_band(w, (axis,), ax=cv.ax, scale=scale)
        else:
            phases = np.exp(1j * ctx.rng.uniform(-np.pi, np.pi, size=(n, lst.n)))
            nnkp, _, _ = _nnkp(ctx, lst.n, (2,))
            case = _Case()
            try:
                (case.dir / "spa.nnkp").write_text(nnkp)
                for b in range(n):
                    (case.dir / f"u{b}.mat").write_text(_umat(phases[b][:, None, None]))
                with case, ctx.running(kind):
                    fig, ax, line = wp.plot_wavepacket_localized_effective_mass_against_energy(
                        w, (axis,), true_mass=true, ax=cv.ax, scale=scale
                    )
            finally:
                case.remove()
        cv.check(ctx, fig, ax, scale, limited=False)
        x, y = P.line_xy(line)
        ctx.close("x", x, average, scale=np.abs(average).max() or 1.0)
        got = np.real(y).astype(float)
        if true is not None:
            want = (want - true) / true
            ctx.close("relative_mass", got, want, scale=1 + np.abs(want).max())
            return
    ctx.close("mass", got, want, scale=want.max())
    if free:
        ctx.check("free_particle", np.all(np.abs(got / mass - 1) < 0.2), actual=got, expected=mass)
    ctx.equal("unchanged", w["eigenvalue"], keep)


@R.workload(60, 700)
def eigenvalue_slice(ctx):
    """Stored energies along one axis of the samples."""
    lst, state, dx = W.bases(ctx, max_list=24)
    w = W.packet(ctx, lst, state)
    w["eigenvalue"] = np.real(w["eigenvalue"])
    axis = ctx.randint(0, lst.ndim - 1)
    idx = _idx(ctx, lst.shape, (axis,))
    ctx.note(lst=G.describe(lst), axis=axis, idx=idx)
    scale = ctx.pick(("linear", "symlog", "squared"))
    cv = P.Canvas(ctx)
    with ctx.running("slice"):
        fig, ax, line = wp.plot_eigenvalues_1d_x(w, (axis,), idx, ax=cv.ax, scale=scale)
    cv.check(ctx, fig, ax, scale)
    at = (0,) * (lst.ndim - 1) if idx is None else idx
    x, y = P.line_xy(line)
    v = P.take(w["eigenvalue"].reshape(lst.shape), lst.shape, (axis,), at)
    ctx.close("index", x, np.arange(len(v), dtype=float))
    ctx.close("values", np.real(y).astype(float), v)


@R.workload(150, 1800)
def states(ctx):
    """The state of the supercell made of all samples, or each of them."""
    kind = ctx.pick(("1d_x", "1d_k", "2d_x", "2d_k", "all_x", "all_k", "difference", "3d", "path"))
    m = {"1": 1, "3": 3, "p": 1}.get(kind[0], 2)
    nd = ctx.randint(m, 3)
    lst, state, dx = W.bases(ctx, nd, max_list=8, max_state=8, max_total=40)
    big = W.super_shape(lst, state)
    axes = _axes(ctx, big, m)
    idx = _idx(ctx, big, axes)
    w = W.packet(ctx, lst, state)
    keep = w["data"].copy()
    measure = ctx.pick(P.MEASURES)
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(lst=G.describe(lst), state=G.describe(state), kind=kind, axes=axes, idx=idx, measure=measure)
    each = W.supercell(w["data"], lst, state)
    f = each.sum(axis=0) / np.sqrt(len(each))
    size = float(np.linalg.norm(f)) or 1.0
    lat = _cell_frame(lst, dx)
    if kind[:3] == "all":
        space = kind[-1]
        fn = wp.plot_all_wavepacket_states_2d_x if space == "x" else wp.plot_all_wavepacket_states_2d_k
        P.close_all()
        with ctx.running(kind):
            figs = list(fn(w, axes, idx, measure=measure, scale=scale))
        if not ctx.check("one_figure_each", len(figs) == len(each) and len({id(x[1]) for x in figs}) == len(each)):
            return
        for (_, _, mesh), x in zip(figs, each, strict=True):
            if np.linalg.norm(x) < 1e-6 * np.linalg.norm(each):
                continue  # no such sample in the list
            at = P.largest(space, x, big, axes) if idx is None else idx
            c, v = P.slice_of(space, x, big, lat, axes, at)
            kind = {"symlog": "SymLogNorm"}.get(scale, "Normalize")
            ctx.check("state_scale", type(mesh.norm).__name__ == kind)
            P.compare_mesh(ctx, "state", mesh, c, v, measure, scale=float(np.linalg.norm(x)))
        P.close_all()
        return
    cv = P.Canvas(ctx)
    if kind == "3d":
        with ctx.running(kind):
            fig, ax, ani = wp.animate_wavepacket_3d_x(w, axes, None if ctx.flag() else (), ax=cv.ax, measure=measure, scale=scale)
        cv.check(ctx, fig, ax, scale)
        _volume(ctx, kind, big, axes, lat, (), f, measure, fig, ax, ani, (None, None), size)
        return
    if kind == "path":
        path = np.array([ctx.rng.integers(0, s, size=ctx.randint(1, 1) + 4) for s in big])
        with ctx.running(kind):
            fig, ax, line = wp.plot_wavepacket_along_path(w, path, ax=cv.ax, measure=measure, scale=scale)
        cv.check(ctx, fig, ax, scale)
        x, y = P.line_xy(line)
        ctx.close("distance", x, _path_distance(path, big, lat, False), floor=1e-9)
        P.compare_values(ctx, "values", y, f.reshape(big)[tuple(path)], measure, scale=size)
        return
    if kind == "difference":
        other = W.packet(ctx, lst, state)
        g = W.supercell(other["data"], lst, state).sum(axis=0) / np.sqrt(len(each))
        idx = tuple(ctx.randint(0, s - 1) for a, s in enumerate(big) if a not in axes) if idx is None else idx
        with ctx.running(kind):
            fig, ax, mesh = wp.plot_wavepacket_difference_2d_x(w, other, axes, idx, ax=cv.ax, measure="abs", scale=scale)
        cv.check(ctx, fig, ax, scale)
        c, v0 = P.slice_of("x", f, big, lat, axes, idx)
        _, v1 = P.slice_of("x", g, big, lat, axes, idx)
        top = np.maximum(np.abs(v0), np.abs(v1))
        ok = top > 1e-6 * size
        co, y = P.mesh_values(mesh)
        ctx.close("difference_coordinates", co, c, scale=np.abs(c).max(), tol=1e-6)
        ctx.close("difference", np.where(ok, y, 0), np.where(ok, np.abs(v0 - v1) / np.where(ok, top, 1), 0), scale=1.0)
        return
    space = kind[-1]
    fn = {"1d_x": wp.plot_wavepacket_1d_x, "1d_k": wp.plot_wavepacket_1d_k, "2d_x": wp.plot_wavepacket_2d_x,
          "2d_k": wp.plot_wavepacket_2d_k}[kind]
    with ctx.running(kind):
        fig, ax, art = fn(w, axes, idx, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    at = P.largest(space, f, big, axes) if idx is None else idx
    c, v = P.slice_of(space, f, big, lat, axes, at)
    if m == 1:
        P.compare_line(ctx, "line", art, c[0], v, measure, scale=size)
    else:
        P.compare_mesh(ctx, "mesh", art, c, v, measure, scale=size)
    ctx.equal("unchanged", w["data"], keep)


@R.workload(80, 1000)
def occupation(ctx):
    """Boltzmann weight of every band."""
    kind = ctx.pick(("values", "band", "energy"))
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_list=12, max_total=60)
    n = ctx.randint(1, min(4, state.n))
    w = W.packets(ctx, n, lst, state, orthonormal=True)
    T = 10.0 ** ctx.rng.uniform(0, 3)
    e = ctx.rng.normal(size=(n, lst.n)) * 10.0 ** ctx.rng.uniform(-1, 1)
    # the zero of energy is arbitrary
    e = e + ctx.pick((0.0, 0.0, 50.0, 2000.0, -2000.0))
    w["eigenvalue"] = (e * Boltzmann * T).ravel() + 0j
    ctx.note(lst=G.describe(lst), bands=n, kind=kind, offset=float(e.min()))
    p = np.exp(-(e - e.min()))
    want = p.sum(axis=1) / p.sum()
    scale = ctx.pick(("linear", "symlog", "squared"))
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        if kind == "values":
            out = wp.get_wavepacket_band_occupation(w, T)
        elif kind == "band":
            fig, ax, line = wp.plot_occupation_against_band(w, T, ax=cv.ax, scale=scale)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fig, ax, line = wp.plot_occupation_against_band_average_energy(w, T, ax=cv.ax, scale=scale)
    if kind == "values":
        got = np.asarray(out["data"])
        ctx.check("basis", out["basis"].n == n and got.shape == (n,))
        ctx.close("occupation", got, want + 0j if np.iscomplexobj(got) else want, scale=1.0)
        return
    cv.check(ctx, fig, ax, scale)
    x, y = P.line_xy(line)
    energy = e.mean(axis=1) * Boltzmann * T
    xs = np.arange(n, dtype=float) if kind == "band" else energy
    ctx.close("x", x, xs, scale=np.abs(xs).max() or 1.0)
    ctx.close("occupation", np.real(y).astype(float), want, scale=1.0)
