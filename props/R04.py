"""Plots of spectra, probabilities, overlaps, scattering functions, noise and sparsity."""

import warnings

import numpy as np
from matplotlib.collections import LineCollection
from scipy.constants import Boltzmann, hbar

from mon.core import Registry, Skip
from mon import gen as G
from mon import plots as P
from mon import replot
from props.N01 import _diag, _full
from props.R03 import at_times, _times
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.dynamics import isf as J
from surface_potential_analysis.dynamics import isf_plot as ip
from surface_potential_analysis.dynamics import plot as dp
from surface_potential_analysis.dynamics.incoherent_propagation import plot as rp
from surface_potential_analysis.dynamics.incoherent_propagation.isf import RateDecomposition
from surface_potential_analysis.kernel import plot as kp
from surface_potential_analysis.operator import plot as op
from surface_potential_analysis.overlap import plot as ovp
from surface_potential_analysis.probability_vector import plot as prp
from surface_potential_analysis.state_vector import eigenvalue_list_plot as ep

R = Registry("R04")
replot.watch(ip, dp, rp, kp, op, ovp, prp, ep)
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random eigenstates, operators, kernels, noise operators, probabilities, overlaps and rates; every line is read "
    "back from the figure. Oracle: explicit sums over the data, eigenvalues known by construction. "
    "Drawn again with other scales and measures. Non-trivial: at least one artist compared."
)


def _xy(line):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x, y = P.line_xy(line)
    return np.real(x), np.real(y).astype(float)


@R.workload(80, 1000)
def eigenvalues(ctx):
    """Boltzmann occupations and sorted eigenvalues."""
    n = ctx.randint(1, 8)
    T = 10.0 ** ctx.rng.uniform(0, 3)
    e = ctx.rng.normal(size=n) * 10.0 ** ctx.rng.uniform(-1, 1) * Boltzmann * T
    source = ctx.pick(("states", "complex", "operator"))
    kind = ctx.pick(("occupation", "eigenvalues"))
    measure = ctx.pick(("abs", "real"))
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(n=n, source=source, kind=kind, measure=measure)
    basis = FundamentalBasis(n)
    hermitian = None
    if source == "operator":
        e = np.abs(e) + 1e-3 * np.max(np.abs(e))
        U = G.unitary(ctx.rng, n)
        V = U.conj().T
        if kind == "eigenvalues" and ctx.flag():  # not normal: eigenvectors which are not orthogonal
            hermitian = False
            U = U @ (np.eye(n) + 0.5 * np.triu(G.cplx(ctx.rng, n, n), 1) / n)
            V = np.linalg.inv(U)
        o = {"basis": TupleBasis(basis, basis), "data": ((U * e) @ V).ravel()}
        inputs = o["data"]
    else:
        v = e.astype(complex) if source == "complex" else e.copy()
        o = {"basis": TupleBasis(basis, basis), "data": np.eye(n, dtype=complex).ravel(), "eigenvalue": v}
        inputs = v
    keep = inputs.copy()
    cv = P.Canvas(ctx)
    with ctx.running(kind), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if kind == "occupation":
            fn = op.plot_eigenstate_occupations if source == "operator" else ep.plot_eigenstate_occupations
            fig, ax, line = fn(o, T, ax=cv.ax, scale=scale)
        elif source == "operator":
            fig, ax, line = op.plot_eigenvalues(o, hermitian=ctx.flag() if hermitian is None else hermitian, ax=cv.ax, scale=scale, measure=measure)
        else:
            fig, ax, line = ep.plot_eigenvalues(o, ax=cv.ax, scale=scale, measure=measure)
    cv.check(ctx, fig, ax)
    x, y = _xy(line)
    if kind == "occupation":
        s = np.sort(e) - e.min()
        w = np.exp(-s / (Boltzmann * T))
        ctx.close("energies", x, s, scale=np.abs(e).max())
        ctx.close("occupations", y, w / w.sum(), scale=1.0)
    else:
        s = e[np.argsort(np.abs(e))]
        ctx.close("index", x, np.arange(n, dtype=float))
        ctx.close("eigenvalues", y, np.abs(s) if measure == "abs" else s, scale=np.abs(e).max())
    ctx.check("scale", ax.get_yscale() == scale)
    ctx.equal("input_unchanged", inputs, keep)


def _diag_op(t, data):
    return {"basis": TupleBasis(t, t), "data": data}


@R.workload(80, 1000)
def isf(ctx):
    """Values (with errors) against time; scattering functions and their fits."""
    n = ctx.randint(2, 9)
    kind = ctx.pick(("eigenvalue", "errors", "isf", "average", "double", "fey4", "112bar", "110"))
    measure = ctx.pick(P.MEASURES)
    t = _times(ctx, n)
    x = at_times(t)
    data = G.cplx(ctx.rng, n)
    ctx.note(n=n, kind=kind, measure=measure, t=G.describe(t))
    cv = P.Canvas(ctx)
    scale = ctx.pick(("linear", "symlog", "squared"))
    kw = dict(ax=cv.ax, measure=measure, scale=scale)
    err = None
    with ctx.running(kind):
        if kind == "eigenvalue":
            fig, ax, line = ep.plot_eigenvalue_against_time(_diag_op(t, data), **kw)
        elif kind == "errors":
            err = ctx.rng.uniform(0.1, 1, n)
            fig, ax, line = ep.plot_eigenvalue_against_time({**_diag_op(t, data), "standard_deviation": err}, **kw)
        elif kind == "isf":
            fig, ax, line = ip.plot_isf_against_time(_diag_op(t, data), **kw)
        elif kind == "average":
            m = ctx.randint(1, 4)
            rows = G.cplx(ctx.rng, m, n)
            data = rows.mean(axis=0)
            b = TupleBasis(FundamentalBasis(m), t)
            fig, ax, line = ip.plot_average_isf_against_time(_diag_op(b, rows.ravel()), **kw)
        else:
            x = np.sort(ctx.rng.uniform(0, 3, n))
            fast, slow = ctx.rng.uniform(1, 2), ctx.rng.uniform(0.1, 0.9)
            a, b, c = ctx.rng.uniform(0, 1, 3)
            if kind == "double":
                fit, get, fn = J.ISF4VariableFit(fast, a, slow, b, c), J.get_isf_from_4_variable_fit, ip.plot_isf_4_variable_fit_against_time
                data = a * np.exp(-fast * x) + b * np.exp(-slow * x) + c
            elif kind == "fey4":
                fit = J.ISFFey4VariableFit(2.0, fast, a, slow, b, c)
                get, fn = J.get_isf_from_fey_4_variable_model_110, ip.plot_isf_fey_4_variable_fit_against_time
                data = np.asarray(get(fit, x)["data"])
            else:
                fit = J.ISFFeyModelFit(fast, slow, 2.0)
                get, fn = {
                    "110": (J.get_isf_from_fey_model_fit_110, ip.plot_isf_fey_model_fit_110_against_time),
                    "112bar": (J.get_isf_from_fey_model_fit_112bar, ip.plot_isf_fey_model_fit_112bar_against_time),
                }[kind]
                data = np.asarray(get(fit, x)["data"])
            fig, ax, line = fn(fit, x, **kw)
    cv.check(ctx, fig, ax, scale, limited=False)
    P.compare_line(ctx, kind, line, x, data, measure, periodic=False, scale=np.abs(data).max())
    ctx.close("whole_time", np.array(ax.get_xlim()), x[[0, -1]], scale=np.abs(x).max())
    if kind not in ("eigenvalue", "errors"):
        ctx.close("range", ax.get_ylim(), (0, 1.01))
    bars = [c for c in ax.collections if isinstance(c, LineCollection)]
    if err is None:
        ctx.check("no_errors", not bars)
    elif ctx.check("errors_drawn", len(bars) == 1):
        seg = np.array(bars[0].get_segments())
        y = P.line_xy(line)[1]
        ctx.close("errors", seg[:, :, 1], np.array([y - err, y + err]).T)
        ctx.close("errors_at", seg[:, 0, 0], x)


@R.workload(80, 1000)
def probabilities(ctx):
    """One line for each state, band or site."""
    n = ctx.randint(1, 6)
    t = _times(ctx, max(n, 2))
    n = t.n
    kind = ctx.pick(("all", "total", "band", "site", "average_band"))
    shape = (ctx.randint(1, 3), ctx.randint(1, 3), ctx.randint(1, 3))
    m = ctx.randint(1, 4)
    inner = TupleBasis(*(FundamentalBasis(s) for s in shape))
    data = ctx.rng.uniform(0, 1, (m, n, *shape))
    ctx.note(n=n, kind=kind, shape=shape, m=m)
    first = TupleBasis(FundamentalBasis(m), t) if kind == "average_band" else t
    data = data if kind == "average_band" else data[0]
    p = {"basis": TupleBasis(first, inner), "data": data.ravel()}
    keep = p["data"].copy()
    fn = {
        "all": prp.plot_probability_against_time, "total": prp.plot_total_probability_against_time,
        "band": dp.plot_probability_per_band, "site": dp.plot_probability_per_site,
        "average_band": dp.plot_average_probability_per_band,
    }[kind]
    scale = ctx.pick(("linear", "symlog", "squared"))
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        fig, ax, lines = fn(p, ax=cv.ax, scale=scale)
    cv.check(ctx, fig, ax)
    want = {
        "all": lambda: data.reshape(n, -1), "total": lambda: data.reshape(n, -1).sum(axis=1)[:, None],
        "band": lambda: data.sum(axis=(1, 2)), "site": lambda: data.sum(axis=3).reshape(n, -1),
        "average_band": lambda: data.mean(axis=0).sum(axis=(1, 2)),
    }[kind]()
    if ctx.check("one_line_each", len(lines) == want.shape[1] == len(ax.lines), actual=len(lines), expected=want.shape[1]):
        for line, w in zip(lines, want.T, strict=True):
            P.compare_line(ctx, kind, line, at_times(t), w, "real", periodic=False)
    if kind in ("band", "site", "average_band"):
        labels = [line.get_label() for line in lines]
        ctx.check("labels", len(set(labels)) == len(labels) and ax.get_legend() is not None)
    if kind == "average_band":
        ctx.check("repeats", f" {m} repeats" in ax.get_title(), actual=ax.get_title())
    ctx.check("scale", ax.get_yscale() == scale)
    ctx.equal("input_unchanged", p["data"], keep)


@R.workload(90, 1000)
def overlaps(ctx):
    """Overlaps in a plane of positions or momenta, and along a path."""
    shape = tuple(ctx.randint(2, 4) for _ in range(3))
    kind = ctx.pick(("x", "k", "path", "path", "diagonal", "k0"))
    if kind == "diagonal":
        shape = (shape[0], shape[0], shape[2])
    dx = G.lattice(ctx.rng, 3)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    data = G.cplx(ctx.rng, basis.n)
    f = G.ref_fundamental(data, basis)
    measure, scale = ctx.pick(P.MEASURES), ctx.pick(("linear", "symlog", "squared"))
    ctx.note(basis=G.describe(basis), kind=kind, measure=measure)
    one = FundamentalBasis(1)
    o = {"basis": TupleBasis(basis, TupleBasis(one, one)), "data": data}
    cv = P.Canvas(ctx)
    kw = dict(ax=cv.ax, measure=measure, scale=scale)
    if kind in ("x", "k"):
        axes = tuple(int(a) for a in ctx.rng.permutation(3)[:2])
        rest = ({0, 1, 2} - set(axes)).pop()
        idx = (ctx.randint(0, shape[rest] - 1),)
        with ctx.running(kind):
            fn = ovp.plot_overlap_2d_x if kind == "x" else ovp.plot_overlap_2d_k
            fig, ax, mesh = fn(o, axes, idx, **kw)
        cv.check(ctx, fig, ax)
        c, w = P.slice_of(kind, f, shape, dx, axes, idx)
        P.compare_mesh(ctx, kind, mesh, c, w, measure, scale=np.abs(f).max() * len(f) ** 0.5)
        return
    F = np.fft.fftn(f.reshape(shape), norm="ortho")
    i1, i2 = ctx.randint(0, shape[1] - 1), ctx.randint(0, shape[2] - 1)
    with ctx.running(kind):
        if kind == "path":
            m = ctx.randint(2, 6)
            wrap = ctx.flag(0.6)
            path = np.array([ctx.rng.integers(0, s, size=m) for s in shape])
            if wrap:  # half way around a cell both directions are as short: shorter steps
                walk = [np.cumsum(ctx.rng.integers(-((s - 1) // 2), (s - 1) // 2 + 1, size=m)) for s in shape]
                path = (path[:, :1] + np.array(walk)) % np.array(shape)[:, None]
            fig, ax, line = ovp.plot_overlap_along_path_k(o, path, wrap_distances=wrap, **kw)
        elif kind == "diagonal":
            path, wrap = np.array([[i, i, i2] for i in range(shape[0])]).T, False
            fig, ax, line = ovp.plot_overlap_along_k_diagonal(o, i2, **kw)
        else:
            path, wrap = np.array([[i, i1, i2] for i in range(shape[0])]).T, False
            fig, ax, line = ovp.plot_overlap_along_k0(o, i1, i2, **kw)
    cv.check(ctx, fig, ax)
    step = np.diff(path, axis=1)
    if wrap:
        s = np.array(shape)[:, None]
        step = (step + s // 2) % s - s // 2
    b = 2 * np.pi * np.linalg.inv(np.asarray(dx)).T
    d = np.append(0, np.cumsum(np.linalg.norm(b.T @ step, axis=0)))
    P.compare_line(ctx, "path", line, d, F[tuple(path)], measure, periodic=False, scale=np.abs(F).max())


def _counts(ctx, line, values):
    """The cumulative number of values, to the resolution of the bins."""
    x, y = _xy(line)
    v = np.sort(values)
    nxt = np.append(x[1:], v[-1] if len(v) else x[-1])
    lo = np.searchsorted(v, x * (1 - 1e-9), "left")
    hi = np.searchsorted(v, nxt * (1 + 1e-9), "right")
    ctx.check("counts", np.all((y >= lo) & (y <= hi)), "wrong number of elements",
              actual=y[(y < lo) | (y > hi)][:5], expected=np.array([lo, hi])[:, (y < lo) | (y > hi)][:, :5])
    ctx.check("increasing", np.all(np.diff(y) >= 0) and np.all(np.diff(x) > 0))
    ctx.check("covers", y[-1] >= np.sum(v < v[-1] * (1 - 1e-9)) and x[-1] >= v[-1] * 0.9, actual=[x[-1], y[-1]])


@R.workload(40, 500)
def sparsity(ctx):
    """Number of elements (diagonals, eigenvalues) below each size."""
    kind = ctx.pick(("operator", "diagonals", "kernel"))
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(kind=kind, scale=scale)
    cv = P.Canvas(ctx)
    if kind == "kernel":
        n = ctx.randint(2, 3)
        e = ctx.rng.uniform(0.1, 10, n * n) * ctx.rng.choice([-1, 1], n * n) * G.magnitude(ctx.rng)
        if ctx.flag(0.3):  # white noise
            e[:] = e[0]
        L = G.unitary(ctx.rng, n * n).reshape(n * n, n, n)
        b = TupleBasis(FundamentalBasis(n), FundamentalBasis(n))
        with ctx.running(kind):
            fig, ax = kp.plot_kernel_sparsity({"basis": TupleBasis(b, b), "data": _full(L, e).ravel()}, ax=cv.ax, scale=scale)
        v = np.abs(e)
    else:
        n = ctx.randint(1, 7)
        M = G.cplx(ctx.rng, n, n) * 10.0 ** ctx.rng.uniform(-6, 2, (n, n))
        b = FundamentalBasis(n)
        o = {"basis": TupleBasis(b, b), "data": M.ravel()}
        with ctx.running(kind):
            if kind == "operator":
                measure = ctx.pick(("abs", "abs", "real"))
                if not np.any(P.measured(M, measure) > 0):
                    raise Skip
                fig, ax = op.plot_operator_sparsity(o, ax=cv.ax, measure=measure, scale=scale)
                v = P.measured(M, measure).ravel()
                v = v[v > 0]
            else:
                fig, ax = op.plot_operator_diagonal_sparsity(o, ax=cv.ax, scale=scale)
                v = np.array([np.sqrt(sum(abs(M[(i - s) % n, i]) ** 2 for i in range(n))) for s in range(n)])
    cv.check(ctx, fig, ax, scale)
    if ctx.check("one_line", len(ax.lines) == 1):
        _counts(ctx, ax.lines[0], v)
    ctx.check("log", ax.get_xscale() == "log")


@R.workload(60, 800)
def truncation(ctx):
    """The error of leaving out the smallest eigenvalues."""
    kind = ctx.pick(("full", "diagonal"))
    n = ctx.randint(1, 3) if kind == "full" else ctx.randint(1, 7)
    b = TupleBasis(FundamentalBasis(n), FundamentalBasis(n))
    m = n * n if kind == "full" else n
    e = ctx.rng.normal(size=m) * 10.0 ** ctx.rng.uniform(-3, 3)
    U = G.unitary(ctx.rng, m)
    k = {"basis": TupleBasis(b, b), "data": (_full(U.reshape(m, n, n), e) if kind == "full" else _diag(U, e)).ravel()}
    which = None
    scale = ctx.pick(("linear", "symlog", "squared"))
    cv = P.Canvas(ctx)
    ctx.note(kind=kind, n=n, scale=scale)
    with ctx.running(kind):
        if kind == "full":
            which = None if ctx.flag() else [int(i) for i in ctx.rng.integers(0, m + 1, ctx.randint(1, 4))]
            fig, ax = kp.plot_kernel_truncation_error(k, truncations=which, ax=cv.ax, scale=scale)
            line = ax.lines[0]
        else:
            fig, ax, line = kp.plot_diagonal_kernel_truncation_error(k, ax=cv.ax, scale=scale)
    cv.check(ctx, fig, ax, scale)
    cum = np.append(0, np.cumsum(np.sort(np.abs(e))))
    which = np.arange(m + 1) if which is None else np.array(which)
    x, y = _xy(line)
    ctx.close("truncations", x, which.astype(float))
    ctx.close("errors", y, cum[which], scale=cum[-1])


@R.workload(60, 800)
def noise_eigenvalues(ctx):
    n_op, n = ctx.randint(1, 8), ctx.randint(1, 4)
    e = ctx.rng.normal(size=n_op)
    keep = e.copy()
    b = FundamentalBasis(n)
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), TupleBasis(b, b)), "data": G.cplx(ctx.rng, n_op * n), "eigenvalue": e}
    measure = ctx.pick(("real", "abs"))
    trunc = None if ctx.flag(0.4) else ctx.randint(1, n_op)
    scale = ctx.pick(("linear", "symlog", "squared"))
    ctx.note(n_op=n_op, trunc=trunc, measure=measure, scale=scale)
    cv = P.Canvas(ctx)
    with ctx.running("eigenvalues"):
        fig, ax, line = kp.plot_diagonal_noise_operators_eigenvalues(ops, trunc, ax=cv.ax, measure=measure, scale=scale)
    cv.check(ctx, fig, ax, scale)
    want = np.sort(P.measured(keep, measure))[::-1][:trunc]
    x, y = _xy(line)
    ctx.close("eigenvalues", y, want)
    ctx.close("index", x, np.arange(len(want), dtype=float))
    ctx.equal("input_unchanged", e, keep)


def _noise(ctx, n, n_op):
    L = G.cplx(ctx.rng, n_op, n)
    e = ctx.rng.uniform(0.5, 2, n_op) * 10.0 ** ctx.rng.uniform(-3, 3)
    return L, e


def _sample_lines(ctx, fn, repeats, ax):
    out = []
    for _ in range(repeats):
        if ax is not None:
            ax.clear()
        fig, a, line = fn(ax)
        out.append(_xy(line)[1][:-1])
    return fig, a, line, np.array(out)


@R.workload(24, 300)
def noise_samples(ctx):
    """A sample is a random combination of the operators which were kept, zero at the first point."""
    n = ctx.randint(8, 12)
    dx = ctx.rng.uniform(1, 4)
    basis = TupleBasis(FundamentalPositionBasis(np.array([dx]), n))
    bb = TupleBasis(basis, basis)
    n_op = ctx.randint(1, 4)
    kind = ctx.pick(("diagonal", "full", "kernel"))
    measure = ctx.pick(("real", "imag"))
    L, e = _noise(ctx, n, n_op)
    if kind == "kernel":
        n_op = n
        L, e = G.unitary(ctx.rng, n), np.sort(ctx.rng.uniform(0.5, 2, n)) * np.arange(1, n + 1)
    keep = None
    if ctx.flag(0.6):
        keep = sorted({int(i) for i in ctx.rng.integers(0, min(n_op, 3), 2)})
    kw = dict(measure=measure, scale=ctx.pick(("linear", "symlog", "squared")))
    ctx.note(n=n, n_op=n_op, kind=kind, keep=keep, **kw)
    order = np.argsort(np.abs(e))[::-1]
    used = order if keep is None else order[keep]
    if kind == "kernel":
        k = {"basis": TupleBasis(bb, bb), "data": _diag(L, e).ravel()}

        def fn(ax):
            return kp.plot_noise_kernel_single_sample(k, keep, ax=ax, **kw)
    elif kind == "full":
        full = np.array([np.diag(r) for r in L])
        S = basis if ctx.flag() else G.tuple_basis(ctx.rng, (n,), delta_x=np.array([[dx]]), kinds=("fundamental_kx",))
        W = G.states(S)
        stored = np.einsum("ix,axy,jy->aij", W.conj(), full, W)
        o = {"basis": TupleBasis(FundamentalBasis(n_op), TupleBasis(S, S)), "data": stored.ravel(), "eigenvalue": e}

        def fn(ax):
            return kp.plot_noise_operators_single_sample_x(o, keep, ax=ax, **kw)
    else:
        o = {"basis": TupleBasis(FundamentalBasis(n_op), bb), "data": L.ravel(), "eigenvalue": e}

        def fn(ax):
            return kp.plot_diagonal_noise_operators_single_sample(o, keep, ax=ax, **kw)

    repeats = 1 if ctx.flag(0.8) else 150
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        fig, ax, line, rows = _sample_lines(ctx, fn, repeats, cv.ax or (P.plt.subplots()[1] if repeats > 1 else None))
    if cv.ax is not None or repeats == 1:
        cv.check(ctx, fig, ax, kw["scale"])
    x, y = P.line_xy(line)
    ctx.close("coordinates", x, np.arange(n + 1) * dx / n)
    ctx.close("closes", y[-1], y[0])
    s = np.sqrt(np.sum(e)) * np.sqrt(hbar)
    ctx.check("zero_at_the_first_point", np.all(np.abs(rows[:, 0]) <= 1e-9 * s), actual=rows[:, 0])
    V = L[used] - L[used][:, :1]  # relative to the first point
    span = np.concatenate([V.real, V.imag])
    q, r, _ = np.linalg.svd(span.T, full_matrices=False)
    q = q[:, r > 1e-9 * r[0]]
    left = rows - (rows @ q) @ q.T
    ctx.check("combination_of_the_operators", np.all(np.linalg.norm(left, axis=1) <= 1e-6 * np.linalg.norm(rows, axis=1)),
              actual=left, expected=0)
    if repeats > 1:
        var = 0.5 * hbar * np.sum(e[used, None] * np.abs(V) ** 2, axis=0)
        got = np.mean(rows**2, axis=0)
        j = int(np.argmax(var))
        # a mean of 150 squares of a normal variable: a standard deviation of 12 %
        ctx.check("variance", 0.4 * var[j] < got[j] < 2.2 * var[j], "size of the noise", actual=got[j], expected=var[j])


@R.workload(40, 500)
def kernel_errors(ctx):
    """Difference of two kernels in percent of the true one."""
    n = ctx.randint(2, 9)
    dx = ctx.rng.uniform(0.5, 4)
    b = TupleBasis(FundamentalPositionBasis(np.array([dx]), n))
    other = G.tuple_basis(ctx.rng, (n,), delta_x=np.array([[dx]]), kinds=("fundamental_x", "fundamental_kx"))
    true = G.cplx(ctx.rng, n)
    fit = G.cplx(ctx.rng, other.n)
    f = G.ref_fundamental(fit, other)
    kind = ctx.pick(("x", "n"))
    ctx.note(n=n, other=G.describe(other), kind=kind)
    fn = kp.plot_isotropic_kernel_error_1d_x if kind == "x" else kp.plot_isotropic_kernel_error_1d
    cv = P.Canvas(ctx)
    with ctx.running(kind):
        fig, ax, line = fn({"basis": b, "data": true}, {"basis": other, "data": fit}, ax=cv.ax)
    cv.check(ctx, fig, ax)
    want = 100 * (f - true) / true
    x = np.arange(n) * dx / n if kind == "x" else np.arange(n, dtype=float)
    P.compare_line(ctx, "error", line, x, want, "real", periodic=kind == "x", scale=np.abs(want).max())


@R.workload(40, 500)
def rates(ctx):
    """Rates against temperature, in order of their contribution."""
    n, m = ctx.randint(1, 8), ctx.randint(1, 5)
    if ctx.flag(0.1):
        n = ctx.randint(48, 60)
    ev = -ctx.rng.uniform(0, 5, (m, n)) + 1j * ctx.rng.normal(size=(m, n))
    c = G.cplx(ctx.rng, m, n)
    T = np.sort(ctx.rng.uniform(50, 300, m))
    ctx.note(n=n, m=m)
    cv = P.Canvas(ctx)
    with ctx.running("rates"):
        fig, ax = rp.plot_rate_decomposition_against_temperature([RateDecomposition(a, b) for a, b in zip(ev, c, strict=True)], T, ax=cv.ax)
    cv.check(ctx, fig, ax)
    want = np.array([-a.real[np.argsort(-np.abs(b))] for a, b in zip(ev, c, strict=True)])
    if not ctx.check("lines", len(ax.lines) == n or 50 <= len(ax.lines) <= n, actual=len(ax.lines), expected=n):
        return
    for i, line in enumerate(ax.lines):
        P.compare_line(ctx, "rate", line, T, want[:, i], "real", periodic=False)
