"""Plots of series: values against time, frequency, momentum and energy; trajectories."""

import warnings

import numpy as np
import scipy.stats
from matplotlib.collections import PolyCollection

from mon.core import Registry, Skip
from mon import gen as G
from mon import plots as P
from mon import replot
from mon import wave as W
from props.S03 import expected_k, expected_phase, grid_index
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import (
    EvenlySpacedTimeBasis,
    ExplicitTimeBasis,
    FundamentalTimeBasis,
)
from surface_potential_analysis.state_vector import plot as sp
from surface_potential_analysis.state_vector import plot_value_list as pv
from surface_potential_analysis.util.squared_scale import SquaredScale
from surface_potential_analysis.wavepacket import get_eigenstate as wg

R = Registry("R03")
replot.watch(sp, pv)
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random values at times (stepped, offset, explicit), momenta and energies, random lists of states evolving over "
    "random times; every line, bar, band and frame is read back from the figure. Oracle: explicit sums over the data. "
    "Drawn again with other scales and measures. Non-trivial: at least one artist compared."
)


def _times(ctx, n, explicit=True):
    dt = 10.0 ** ctx.rng.uniform(-2, 2)
    kind = ctx.pick(("fundamental", "even", "explicit") if explicit else ("fundamental", "even"))
    if kind == "explicit":
        return ExplicitTimeBasis(np.sort(ctx.rng.uniform(0, n * dt, n)))
    if kind == "even":
        return EvenlySpacedTimeBasis(n, ctx.randint(1, 3), ctx.randint(-4, 4), dt * n)
    return FundamentalTimeBasis(n, dt * n)


def at_times(t):
    """The times, from the attributes of the basis."""
    if isinstance(t, ExplicitTimeBasis):
        return np.asarray(t.times)
    return (t.offset + t.step * np.arange(t.n)) * t.delta_t / (t.n * t.step)


def _line(ctx, name, line, x, values, measure, scale=None):
    P.compare_line(ctx, name, line, x, values, measure, periodic=False, scale=scale)


def _spectrum(v, times):
    """(frequency, transform) in increasing order, against the true times."""
    n, dt = len(times), times[1] - times[0]
    f = np.arange(-(n // 2), n - n // 2) / (n * dt)
    return f, np.exp(-2j * np.pi * np.outer(f, times)) @ v


@R.workload(120, 1500)
def series(ctx):
    """One line for one list of values."""
    n = ctx.randint(2, 12)
    kind = ctx.pick(("time", "nx", "frequency", "momentum", "errors"))
    measure = ctx.pick(P.MEASURES)
    scale = ctx.pick(P.SCALES[:3] if measure == "abs" else P.SCALES[:2])  # squares of magnitudes only
    data = G.cplx(ctx.rng, n) * 10.0 ** ctx.rng.uniform(-2, 2)
    keep = data.copy()
    ctx.note(n=n, kind=kind, measure=measure, scale=scale)
    cv = P.Canvas(ctx)
    kw = dict(ax=cv.ax, measure=measure, scale=scale)
    if kind in ("time", "frequency"):
        t = _times(ctx, n, kind == "time")
        ctx.note(t=G.describe(t))
        with ctx.running(kind):
            fn = pv.plot_value_list_against_time if kind == "time" else pv.plot_value_list_against_frequency
            fig, ax, line = fn({"basis": t, "data": data}, **kw)
        x, y = (at_times(t), data) if kind == "time" else _spectrum(data, at_times(t))
    elif kind == "nx":
        b = G.tuple_basis(ctx.rng, (n,)) if ctx.flag() else FundamentalBasis(n)
        data = G.cplx(ctx.rng, b.n)
        keep = data.copy()
        with ctx.running(kind):
            fig, ax, line = pv.plot_value_list_against_nx({"basis": b, "data": data}, **kw)
        x, y = np.arange(b.n, dtype=float), data
    else:
        x = ctx.rng.normal(size=n) * 5
        vals = {"basis": MomentumBasis(x), "data": data}
        if kind == "errors":
            vals["standard_deviation"] = ctx.rng.uniform(0.1, 1, n)
        with ctx.running(kind):
            fig, ax, line = pv.plot_value_list_against_momentum(vals, **kw)
        y = data
        bars = [c for c in ax.collections if len(c.get_paths()) and not isinstance(c, PolyCollection)]
        if kind == "errors":
            if ctx.check("error_bars", len(bars) == 1):
                seg = np.array([s for s in bars[0].get_segments()])
                m = P.measured(data, measure) if measure != "angle" else P.line_xy(line)[1]
                ctx.close("error_low", seg[:, 0, 1], m - vals["standard_deviation"])
                ctx.close("error_high", seg[:, 1, 1], m + vals["standard_deviation"])
                ctx.close("error_at", seg[:, 0, 0], x)
        else:
            ctx.check("no_error_bars", not bars)
    cv.check(ctx, fig, ax)
    _line(ctx, kind, line, x, y, measure, scale=np.abs(y).max())
    ctx.check("one_line", len(ax.lines) == 1)
    ctx.check("scale", ax.get_yscale() == scale, actual=ax.get_yscale())
    P.in_view(ctx, "view", ax)
    ctx.equal("input_unchanged", data, keep)


@R.workload(80, 1000)
def several(ctx):
    """One line for each list of values."""
    m, n = ctx.randint(1, 4), ctx.randint(2, 12)
    kind = ctx.pick(("all", "split", "split_frequency"))
    measure = ctx.pick(P.MEASURES)
    scale = ctx.pick(P.SCALES[:3] if measure == "abs" else P.SCALES[:2])  # squares of magnitudes only
    t = _times(ctx, n, kind != "split_frequency")
    data = G.cplx(ctx.rng, m, n) * 10.0 ** ctx.rng.uniform(-2, 2)
    ctx.note(n=n, m=m, kind=kind, measure=measure, t=G.describe(t))
    first = FundamentalBasis(m)
    values = {"basis": TupleBasis(first, t), "data": data.ravel()}
    keep = values["data"].copy()
    fn = {
        "all": pv.plot_all_value_list_against_time,
        "split": pv.plot_split_value_list_against_time,
        "split_frequency": pv.plot_split_value_list_against_frequency,
    }[kind]
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        fig, ax = fn(values, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    rows, x = data, at_times(t)
    if kind != "all":
        rows = np.array([data[: i + 1].sum(axis=0) for i in range(m)])
    if kind == "split_frequency":
        x = _spectrum(data[0], at_times(t))[0]
        rows = np.array([_spectrum(r, at_times(t))[1] for r in rows])
    if ctx.check("one_line_each", len(ax.lines) == m, actual=len(ax.lines), expected=m):
        for line, r in zip(ax.lines, rows, strict=True):
            _line(ctx, kind, line, x, r, measure, scale=np.abs(rows).max())
    P.in_view(ctx, "view", ax)
    ctx.equal("input_unchanged", values["data"], keep)


def _band(ctx, name, ax, x, low, high):
    fills = [c for c in ax.collections if isinstance(c, PolyCollection)]
    if not ctx.check(name + "_drawn", len(fills) == 1, actual=len(fills)):
        return
    pts = np.concatenate([p.vertices for p in fills[0].get_paths()])
    size = max(np.abs(low).max(), np.abs(high).max()) or 1.0
    for v in (low, high):
        d = np.abs(pts[None, :, 0] - x[:, None]) / (np.abs(x).max() or 1.0) + np.abs(pts[None, :, 1] - v[:, None]) / size
        ctx.check(name, np.all(d.min(axis=1) < 1e-8), actual=pts, expected=np.array([x, v]).T)
    lo = np.array([pts[np.abs(pts[:, 0] - a) <= 1e-9 * np.abs(x).max(), 1].min() for a in x])
    ctx.close(name + "_lowest", lo, low, scale=size)


def _average(ctx, ax, line, x, measured):
    avg = measured.mean(axis=0)
    err = np.sqrt(((measured - avg) ** 2).mean(axis=0) / len(measured))
    sc = np.abs(measured).max()
    ctx.close("average_times", P.line_xy(line)[0], x)
    ctx.close("average", P.line_xy(line)[1], avg, scale=sc)
    _band(ctx, "standard_error", ax, x, avg - err, avg + err)
    ctx.check("same_colour", np.allclose(ax.collections[-1].get_facecolor()[0][:3],
                                         __import__("matplotlib").colors.to_rgb(line.get_color())))


def unwrapped(rows, measure):
    rows = np.asarray(rows)
    return np.unwrap(np.angle(rows), axis=-1) if measure == "angle" else P.measured(rows, measure)


@R.workload(60, 800)
def average(ctx):
    """The average over the lists, and its standard error."""
    m, n = ctx.randint(1, 5), ctx.randint(2, 10)
    measure = ctx.pick(P.MEASURES)
    t = _times(ctx, n)
    data = G.cplx(ctx.rng, m, n) * 10.0 ** ctx.rng.uniform(-2, 2)
    if np.any(np.abs(np.abs(np.diff(np.angle(data), axis=1)) - np.pi) < 1e-6):
        raise Skip
    ctx.note(n=n, m=m, measure=measure, t=G.describe(t))
    cv = P.Canvas(ctx)
    with ctx.running("average"):
        fig, ax, line = pv.plot_average_value_list_against_time(
            {"basis": TupleBasis(FundamentalBasis(m), t), "data": data.ravel()}, ax=cv.ax, measure=measure)
    cv.check(ctx, fig, ax)
    _average(ctx, ax, line, at_times(t), unwrapped(data, measure))
    P.in_view(ctx, "view", ax)


def _histogram(ctx, ax, values, lo, hi):
    bars = sorted(ax.patches, key=lambda p: p.get_x())
    span = hi - lo
    if span <= 1e-9 * max(abs(lo), abs(hi)):
        raise Skip  # one value only: a histogram of any width
    left = np.array([p.get_x() for p in bars])
    right = np.array([p.get_x() + p.get_width() for p in bars])
    if not ctx.check("bars", len(bars) > 1):
        return
    ctx.close("bars_start", left[0], lo, scale=span)
    ctx.close("bars_end", right[-1], hi, scale=span)
    ctx.close("bars_adjacent", left[1:], right[:-1], scale=span)
    inside = values[(values >= lo) & (values <= hi)]
    inner = right[:-1]
    if np.any(np.abs(values[:, None] - inner[None]) < 1e-9 * span):
        raise Skip
    which = np.searchsorted(inner, inside)
    count = np.bincount(which, minlength=len(bars)) / len(inside)
    ctx.close("density", np.array([p.get_height() for p in bars]) * (right - left), count)


def _fit(ctx, ax, values, distribution, lo, hi):
    if distribution is None:
        ctx.check("no_fit", not ax.lines)
        return
    if not ctx.check("one_fit", len(ax.lines) == 1):
        return
    x, y = P.line_xy(ax.lines[0])
    ctx.close("fit_range", [x[0], x[-1]], [lo, hi], scale=hi - lo)
    ctx.check("fit_in_order", np.all(np.diff(x) > 0))
    if distribution == "normal":
        s = values.std()
        want = np.exp(-(((x - values.mean()) / s) ** 2) / 2) / (s * np.sqrt(2 * np.pi))
    else:
        kind = scipy.stats.skewnorm if distribution == "skew normal" else scipy.stats.exponnorm
        want = kind.pdf(x, *kind.fit(values))
    ctx.close("fit", y, want, tol=1e-5)


@R.workload(40, 400)
def distribution(ctx):
    """A normalized histogram and the fit which was asked for."""
    n = ctx.randint(5, 60) if ctx.flag(0.7) else ctx.randint(1200, 1600)
    kind = ctx.pick((None, None, "normal", "normal", "exponential normal", "skew normal"))
    measure = ctx.pick(("real", "imag", "abs"))
    data = (G.cplx(ctx.rng, n) + G.cplx(ctx.rng, 1)) * 10.0 ** ctx.rng.uniform(-1, 1)
    ctx.note(n=n, kind=kind, measure=measure)
    v = P.measured(data, measure)
    lo, hi = (v.min(), v.max()) if kind is None else (v.mean() - 4 * v.std(), v.mean() + 4 * v.std())
    cv = P.Canvas(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.running("distribution"):
            fig, ax = pv.plot_value_list_distribution({"basis": FundamentalBasis(n), "data": data}, ax=cv.ax,
                                                      measure=measure, distribution=kind)
        cv.check(ctx, fig, ax)
        _histogram(ctx, ax, v, lo, hi)
        _fit(ctx, ax, v, kind, lo, hi)


def _states(ctx, lists_n=None):
    """Normalized states at several times."""
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=30, lo=2, hi=6)
    dx = G.lattice(ctx.rng, nd)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    m, n = ctx.randint(1, 3), ctx.randint(3, 8)
    t = _times(ctx, n, False)
    axis = ctx.randint(0, nd - 1)
    data = G.cplx(ctx.rng, m * n, basis.n)
    data /= np.linalg.norm(data, axis=1)[:, None]
    f = data @ G.states(basis)
    ctx.note(basis=G.describe(basis), axis=axis, m=m, n=n, t=G.describe(t))
    states = {"basis": TupleBasis(TupleBasis(FundamentalBasis(m), t), basis), "data": data.ravel()}
    return shape, dx, m, n, t, axis, states, f


def _positions(ctx, f, shape, dx, axis, m, n):
    """(centre in the cell, centre followed over time, average position, momentum, spread)."""
    z = expected_phase(f, shape, tuple(int(a == axis) for a in range(len(shape))))
    if np.any(np.abs(z) < 1e-3) or np.any(np.abs(np.angle(z)) < 1e-6) or np.any(1 - np.abs(z) < 1e-9):
        raise Skip
    length = float(np.linalg.norm(dx[axis]))
    ang = np.angle(z)
    step = np.diff(ang.reshape(m, n), axis=1)
    if np.any(np.abs(np.abs(step) - np.pi) < 1e-6):
        raise Skip
    follow = np.unwrap(ang.reshape(m, n), axis=1) * length / (2 * np.pi)
    inside = (ang % (2 * np.pi)) * length / (2 * np.pi)
    mean = (np.abs(f) ** 2) @ grid_index(shape)[axis] * length / shape[axis]
    spread = np.sqrt(-4 * np.log(np.abs(z))) * length / (2 * np.pi)
    return inside, follow, mean, expected_k(f, shape, dx, axis), spread


@R.workload(120, 1500)
def trajectories(ctx):
    shape, dx, m, n, t, axis, states, f = _states(ctx)
    inside, follow, mean, k, spread = _positions(ctx, f, shape, dx, axis, m, n)
    x = at_times(t)
    length = float(np.linalg.norm(dx[axis]))
    kind = ctx.pick(("periodic", "average_x", "average_k", "spread", "spread_k", "spread_x", "displacement", "isf", "drift"))
    ctx.note(kind=kind)
    raw, keep = states["data"], states["data"].copy()
    cv = P.Canvas(ctx)
    if kind in ("periodic", "average_x", "average_k", "spread"):
        fn, want = {
            "periodic": (sp.plot_periodic_averaged_occupation_1d_x, follow),
            "average_x": (sp.plot_averaged_occupation_1d_x, mean),
            "average_k": (sp.plot_averaged_occupation_1d_k, k),
            "spread": (sp.plot_spread_1d, spread),
        }[kind]
        with ctx.running(kind):
            fig, ax = fn(states, (axis,), ax=cv.ax)
        cv.check(ctx, fig, ax)
        want = np.reshape(want, (m, n))
        if ctx.check("one_line_each", len(ax.lines) == m, actual=len(ax.lines), expected=m):
            for line, w in zip(ax.lines, want, strict=True):
                _line(ctx, kind, line, x, w, "real", scale=np.abs(want).max())
        P.in_view(ctx, "view", ax)
    elif kind in ("spread_k", "spread_x"):
        fn, c = (sp.plot_spread_against_k, k) if kind == "spread_k" else (sp.plot_spread_against_x, inside)
        with ctx.running(kind):
            fig, ax = fn(states, (axis,), ax=cv.ax)
        cv.check(ctx, fig, ax)
        if ctx.check("one_line", len(ax.lines) == 1):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lx, ly = P.line_xy(ax.lines[0])
            ctx.close(kind + "_coordinates", lx, c, scale=np.abs(c).max())
            ctx.close(kind, np.real(ly), spread, scale=length)
    elif kind in ("displacement", "isf"):
        q = ctx.rng.uniform(-3, 3) / length
        measure = "abs" if kind == "displacement" else ctx.pick(("real", "imag", "abs"))
        with ctx.running(kind):
            if kind == "displacement":
                fig, ax, line = sp.plot_average_displacement_1d_x(states, (axis,), ax=cv.ax)
            else:
                fig, ax, line = sp.plot_average_isf_1d_x(states, q, (axis,), ax=cv.ax, measure=measure)
        cv.check(ctx, fig, ax)
        if kind == "displacement":
            rows = np.array([[np.mean((r[j:] - r[: n - j]) ** 2) for j in range(n)] for r in follow])
        else:
            rows = np.array([[np.mean(np.exp(1j * q * (r[j:] - r[: n - j]))) for j in range(n)] for r in follow])
        dt = t.delta_t / n
        rows = P.measured(rows, measure)
        sc = float(np.abs(follow).max()) ** 2 if kind == "displacement" else 1.0
        ctx.close(kind + "_times", P.line_xy(line)[0], dt * np.arange(n))
        ctx.close(kind, P.line_xy(line)[1], rows.mean(axis=0), scale=max(sc, 1e-12))
    else:
        with ctx.running(kind):
            fig, ax, line = sp.plot_average_drift_1d_x(states, (axis,), ax=cv.ax)
            b = states["basis"][0]
            ref = sp.get_normalized_average_drift({"basis": b, "data": follow.ravel()}, {"basis": b, "data": k.astype(complex)})
        cv.check(ctx, fig, ax)
        rows = np.abs(np.asarray(ref["data"]).reshape(m, n))
        least = np.abs(np.cumsum(1 / k.reshape(m, n), axis=1)).min()
        if least == 0 or not np.all(np.isfinite(rows)) or np.abs(1 / k.reshape(m, n)).max() * length > 1e4 or rows.max() > 1e3 * np.median(rows) + 1e-9:
            raise Skip
        ctx.close("drift", P.line_xy(line)[1], rows.mean(axis=0), tol=1e-6, scale=rows.max() + 1e-6 * length / least)
    ctx.equal("input_unchanged", states["data"], keep)
    ctx.check("same_array", states["data"] is raw)


@R.workload(16, 200)
def trajectory_distributions(ctx):
    shape, dx, m, n, t, axis, states, f = _states(ctx)
    inside, _follow, mean, k, spread = _positions(ctx, f, shape, dx, axis, m, n)
    kind = ctx.pick(("spread", "k", "x", "periodic_x"))
    fn, v, dist = {
        "spread": (sp.plot_spread_distribution_1d, spread, "skew normal"),
        "k": (sp.plot_k_distribution_1d, k, "normal"),
        "x": (sp.plot_x_distribution_1d, mean, None),
        "periodic_x": (sp.plot_periodic_x_distribution_1d, inside, None),
    }[kind]
    ctx.note(kind=kind)
    lo, hi = (v.min(), v.max()) if dist is None else (v.mean() - 4 * v.std(), v.mean() + 4 * v.std())
    cv = P.Canvas(ctx)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with ctx.running(kind):
            fig, ax = fn(states, (axis,), ax=cv.ax)
        cv.check(ctx, fig, ax)
        _histogram(ctx, ax, v, lo, hi)
        if dist != "skew normal":
            _fit(ctx, ax, v, dist, lo, hi)


@R.workload(60, 800)
def occupations(ctx):
    """Occupation of the eigenstates, against energy above the ground state."""
    basis = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=10))
    n, m = basis.n, ctx.randint(1, 4)
    H = G.hermitian(ctx.rng, n) * 10.0 ** ctx.rng.uniform(-2, 2)
    e, v = np.linalg.eigh(H)
    if n > 1 and np.min(np.diff(e)) < 1e-4 * np.abs(e).max():
        raise Skip
    data = G.cplx(ctx.rng, m, n)
    p = np.abs(data @ v.conj()) ** 2
    kind = ctx.pick(("all", "animate", "one", "average"))
    ctx.note(basis=G.describe(basis), m=m, kind=kind)
    ham = {"basis": TupleBasis(basis, basis), "data": H.ravel()}
    states = {"basis": TupleBasis(FundamentalBasis(m), basis), "data": data.ravel()}
    keep = ham["data"].copy(), states["data"].copy()
    scale = ctx.pick(("linear", "symlog", "squared"))
    cv = P.Canvas(ctx)
    kw = dict(ax=cv.ax, scale=scale)
    with ctx.running(kind):
        if kind == "all":
            fig, ax = sp.plot_all_eigenstate_occupations(ham, states, **kw)
            lines = list(ax.lines)
        elif kind == "animate":
            fig, ax, ani = sp.animate_all_eigenstate_occupations(ham, states, **kw)
            fr = P.frames(ani)
            lines = [a[0] for a in fr]
            ctx.check("one_artist", all(len(a) == 1 for a in fr))
        elif kind == "one":
            fig, ax = sp.plot_eigenstate_occupation(ham, {"basis": basis, "data": data[0].copy()}, **kw)
            p, lines = p[:1], list(ax.lines)
        else:
            fig, ax, line = sp.plot_average_eigenstate_occupation(ham, states, **kw)
            p, lines = p.mean(axis=0)[None], [line]
    cv.check(ctx, fig, ax, scale)
    if ctx.check("one_line_each", len(lines) == len(p), actual=len(lines), expected=len(p)):
        for line, row in zip(lines, p, strict=True):
            x, y = P.line_xy(line)
            o = np.argsort(x)
            ctx.close("energies", x[o], e - e[0], scale=np.abs(e).max())
            ctx.close("occupations", y[o], row, tol=1e-6, scale=p.max())
    ctx.equal("inputs_unchanged", np.concatenate([ham["data"], states["data"]]), np.concatenate(keep))


@R.workload(30, 400)
def band_occupation(ctx):
    """Total occupation of each band against its average energy."""
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=36)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    w["eigenvalue"] = ctx.rng.uniform(1, 5, w["eigenvalue"].shape) + 0j
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    grid = TupleBasis(*(FundamentalBasis(m) for m in W.super_shape(lst, state)))
    psi = G.cplx(ctx.rng, grid.n)
    occ = np.sum(np.abs(exp.conj() @ psi) ** 2, axis=1)
    en = np.real(w["eigenvalue"].reshape(k, -1)).mean(axis=1)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    cv = P.Canvas(ctx)
    with ctx.running("bands"):
        h = wg.get_full_bloch_hamiltonian(w)
        fig, ax, line = sp.plot_total_band_occupation_against_energy(h, {"basis": grid, "data": psi}, ax=cv.ax)
    cv.check(ctx, fig, ax)
    _line(ctx, "bands", line, en, occ, "real")
    if ctx.check("average_line", len(ax.lines) == 2):
        ctx.close("average_energy", np.unique(P.line_xy(ax.lines[1])[0]), [np.sum(en * occ) / occ.sum()])


@R.workload(40, 400)
def squared_scale(ctx):
    """The squared scale puts y at y^2, with ticks at equal distances."""
    s = SquaredScale(None)
    t = s.get_transform()
    y = np.sort(ctx.rng.uniform(0, 10.0 ** ctx.rng.uniform(-3, 3), ctx.randint(1, 10)))
    with ctx.running("transform"):
        z = t.transform(y)
        back = t.inverted().transform(z)
        again = t.inverted().inverted().transform(y)
    ctx.close("squares", z, y * y)
    ctx.close("inverse", back, y)
    ctx.close("inverse_inverse", again, y * y)
    cv = P.Canvas(ctx, given=True)
    lo, hi = sorted(ctx.rng.uniform(0, 10, 2))
    with ctx.running("ticks"):
        cv.ax.plot([0, 1], [lo, hi])
        cv.ax.set_yscale(s)
        cv.ax.set_ylim(lo, hi)
        ticks = np.asarray(cv.ax.get_yticks())
        px = cv.ax.transData.transform([[0, v] for v in (lo, 0.5 * (lo + hi), hi)])[:, 1]
    ctx.check("ticks_in_view", np.all((ticks >= lo - 1e-9) & (ticks <= hi + 1e-9)) and len(ticks) > 1)
    ctx.close("ticks_equal", np.diff(ticks**2), np.full(len(ticks) - 1, (ticks[-1] ** 2 - ticks[0] ** 2) / (len(ticks) - 1)), scale=hi**2)
    want = ((0.5 * (lo + hi)) ** 2 - lo**2) / (hi**2 - lo**2)
    ctx.close("drawn", (px[1] - px[0]) / (px[2] - px[0]), want, tol=1e-6, scale=1.0)
