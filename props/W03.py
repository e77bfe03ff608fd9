"""Localization of wavepackets: gauge and band mixing chosen for each Bloch sample."""

import numpy as np

from mon import gen as G
from mon import wave as W
from mon.core import Registry, Skip
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.state_vector import util as su
from surface_potential_analysis.wavepacket import get_eigenstate as wg
from surface_potential_analysis.wavepacket import localization as loc
from surface_potential_analysis.wavepacket import localization_operator as lo
from surface_potential_analysis.wavepacket.eigenstate_conversion import unfurl_wavepacket
from surface_potential_analysis.wavepacket.localization import _projection as pr
from surface_potential_analysis.wavepacket.localization import _tight_binding as tb

R = Registry("W03")
RULE = (
    "Random wavepackets (lattices, sample lists, bands, state bases) and projections; oracle: every Bloch state and "
    "projection written out on the grid of the supercell, dense overlaps, polar factors and position matrices. "
    "Non-trivial: at least one localized state compared."
)


def _super(w, lst, state, k):
    """(band, fundamental sample, point)."""
    return np.array([W.supercell(x, lst, state) for x in np.asarray(w["data"]).reshape(k, -1)])


def _big_basis(ctx, lst, state, dx, kinds=W.FULL_STATE_KINDS):
    big = W.super_shape(lst, state)
    return G.tuple_basis(ctx.rng, big, delta_x=dx * np.array(lst.fundamental_shape)[:, None], kinds=kinds)


def _phases(ctx, name, out, w, lst, state):
    """Every sample is only multiplied by a phase; returns them."""
    d = np.asarray(out["data"])
    if not ctx.check(f"{name}_flat", d.ndim == 1 and d.size == w["data"].size, f"{d.shape}"):
        return None
    ctx.check(f"{name}_basis", G.same(out["basis"][0], lst) and G.same(out["basis"][1], state))
    a, b = d.reshape(lst.n, -1), w["data"].reshape(lst.n, -1)
    ph = np.einsum("ij,ij->i", b.conj(), a) / np.einsum("ij,ij->i", b.conj(), b)
    ctx.close(f"{name}_modulus", np.abs(ph), np.ones(lst.n))
    ctx.close(f"{name}_gauge", a, b * ph[:, None])
    return ph


def _rows(data, lst, state):
    """State of each stored sample on the supercell."""
    full = W.supercell(data, lst, state)
    S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
    return full[np.argmax(np.abs(S), axis=1)]


@R.workload(100, 1200)
def at_point(ctx):
    lst, state, dx = W.bases(ctx, max_total=80)
    w = W.packet(ctx, lst, state)
    before = w["data"].copy()
    n, big = state.fundamental_shape, W.super_shape(lst, state)
    if ctx.flag():
        i = ctx.randint(0, int(np.prod(n)) - 1)
        at, idx = tuple(int(t) for t in np.unravel_index(i, n)), i
    else:
        at = idx = tuple(ctx.randint(-8, 8) for _ in n)
    angle = float(ctx.rng.uniform(-4, 4)) if ctx.flag(0.7) else None
    ctx.note(lst=G.describe(lst), state=G.describe(state), idx=idx, angle=angle)
    with ctx.running("at_point"):
        out = loc.localize_tightly_bound_wavepacket_idx(w, idx, **({} if angle is None else {"angle": angle}))
    if _phases(ctx, "at_point", out, w, lst, state) is None:
        return
    flat = int(np.ravel_multi_index(at, big, mode="wrap"))
    was = _rows(before, lst, state)[:, flat]
    val = _rows(out["data"], lst, state)[:, flat]
    use = np.abs(was) > 1e-3 * np.abs(was).max() if was.size and np.abs(was).max() > 1e-6 else np.zeros(0, dtype=int)
    ctx.close("phase", val[use] / np.abs(was[use]), np.exp(1j * (angle or 0)) * np.ones(len(val[use])), tol=1e-7)
    ctx.equal("unchanged", w["data"], before)


def _peaks(w, lst, state):
    x = np.abs(W.supercell(w["data"], lst, state)[0])
    if x.max() < 1e-3 * np.abs(w["data"]).max():
        raise Skip
    top = np.flatnonzero(x > x.max() * (1 - 1e-7))
    return top, W.super_shape(lst, state)


@R.workload(80, 1000)
def at_maximum(ctx):
    lst, state, dx = W.bases(ctx, max_total=80)
    w = W.packet(ctx, lst, state)
    if not np.all(lst.n == np.prod(lst.fundamental_shape)):
        # the maximum is that of the first sample, which has to be there
        S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
        if 0 not in np.argmax(np.abs(S), axis=1):
            raise Skip
    angle = float(ctx.rng.uniform(-4, 4)) if ctx.flag(0.7) else None
    ctx.note(lst=G.describe(lst), state=G.describe(state), angle=angle)
    top, big = _peaks(w, lst, state)
    was = _rows(w["data"], lst, state)
    with ctx.running("at_maximum"):
        out = loc.localize_tightly_bound_wavepacket_max_point(w, **({} if angle is None else {"angle": angle}))
    if _phases(ctx, "at_maximum", out, w, lst, state) is None:
        return
    now = _rows(out["data"], lst, state)
    best = np.inf
    for t in top:
        use = np.abs(was[:, t]) > 1e-3 * np.abs(was[:, t]).max()
        best = min(best, np.max(np.abs(now[use, t] / np.abs(was[use, t]) - np.exp(1j * (angle or 0)))))
    ctx.check("phase", best < 1e-7, f"no maximum has this phase, best {best}")


@R.workload(80, 1000)
def two_points(ctx):
    nd = ctx.randint(2, 3)
    lst, state, dx = W.bases(ctx, nd, max_total=80)
    w = W.packet(ctx, lst, state)
    S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
    if 0 not in np.argmax(np.abs(S), axis=1):
        raise Skip
    offset = (ctx.randint(-2, 2), ctx.randint(-2, 2)) if ctx.flag() else None
    angle = float(ctx.rng.uniform(-4, 4)) if ctx.flag(0.7) else None
    ctx.note(lst=G.describe(lst), state=G.describe(state), angle=angle, offset=offset)
    top, big = _peaks(w, lst, state)
    n = np.array(state.fundamental_shape)
    kw = {} if offset is None else {"offset": offset}
    with ctx.running("points"):
        p0, p1 = tb.get_wavepacket_two_points(w, **kw)
    o = np.array([*(n[:2] * np.array(offset or (0, 0))), *([0] * (nd - 2))])
    p0, p1 = np.array(p0), np.array(p1)
    peaks = np.array(np.unravel_index(top, big)).T
    for name, p in (("first", p0), ("second", p1)):
        ctx.check(f"{name}_in_cell", np.all((p - o) * 2 >= -n) and np.all((p - o) * 2 <= n), f"{p} {o} {n}")
    ctx.check("first_maximum", np.any(np.all((peaks - p0) % n == 0, axis=1)), f"{p0}")
    ctx.check(
        "second_mirrored",
        any(np.all((np.array([q[1], q[0], *q[2:]]) - p1) % n == 0) for q in p0 + n * np.array(list(np.ndindex(*([4] * nd))))),
        f"{p0} {p1}",
    )
    was = _rows(w["data"], lst, state)
    with ctx.running("two_points"):
        out = loc.localize_tightly_bound_wavepacket_two_point_max(w, **kw, **({} if angle is None else {"angle": angle}))
    if _phases(ctx, "two_points", out, w, lst, state) is None:
        return
    now = _rows(out["data"], lst, state)
    f0, f1 = (int(np.ravel_multi_index(tuple(int(x) for x in p), big, mode="wrap")) for p in (p0, p1))
    big_enough = np.min(np.abs(was[:, [f0, f1]]), axis=1) > 1e-3 * np.abs(was[:, [f0, f1]]).max()
    t0 = np.angle(now[:, f0]) - (angle or 0)
    t1 = np.angle(now[:, f1]) - (angle or 0)
    # the two phases are opposite up to a sign of the state
    s = np.exp(2j * (t0 + t1))[big_enough]
    ctx.close("opposite", s, np.ones(len(s)) + 0j, tol=1e-7)
    ctx.check("first_close", np.all(np.cos(t0[big_enough]) > np.cos(np.pi / 4) - 1e-7))


# --------------------------------------------------------------- projections
def _polar(A):
    u, s, v = np.linalg.svd(A, full_matrices=False)
    return u @ v, s


def _check_operator(ctx, name, op, X, P, lst, n_bands, bands=None, made=None):
    """op[q, p, l] is the closest isometry to <l|p> at each sample."""
    m = len(P)
    d = np.asarray(op["data"])
    if not ctx.check(f"{name}_flat", d.ndim == 1 and d.size == lst.n * m * n_bands, f"{d.shape}"):
        return None
    ctx.check(
        f"{name}_basis",
        G.same(op["basis"][0], lst) and op["basis"][1][0].n == m and op["basis"][1][1].n == n_bands,
    )
    if bands is not None:
        ctx.check(f"{name}_bands", G.same(op["basis"][1][1], bands))
    if made is not None:
        ctx.check(f"{name}_states", G.same(op["basis"][1][0], made))
    d = d.reshape(lst.n, m, n_bands)
    for q in range(lst.n):
        A = X[:, q].conj() @ P.T
        U, s = _polar(A)
        eye = d[q] @ d[q].conj().T if m <= n_bands else d[q].conj().T @ d[q]
        ctx.close(f"{name}_isometry", eye, np.eye(min(m, n_bands)) + 0j)
        if s.min() > 1e-4 * s.max() and s.max() > 1e-6:
            ctx.close(name, d[q], U.T, tol=1e-8 * s.max() / s.min())
    return d


@R.workload(100, 1200)
def projections(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=60)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    m = k if ctx.flag(0.7) else ctx.randint(1, 3)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k, projections=m)
    big = _big_basis(ctx, lst, state, dx)
    P = G.cplx(ctx.rng, m, big.n)
    proj = {"basis": TupleBasis(W.bands(ctx, m), big), "data": P.ravel()}
    X, Pg = _super(w, lst, state, k), W.on_grid(P, big)
    before = w["data"].copy()
    with ctx.running("operator"):
        op = loc.get_localization_operator_for_projections(w, proj)
    d = _check_operator(ctx, "operator", op, X, Pg, lst, k, w["basis"][0][0], proj["basis"][0])
    if d is None:
        return
    with ctx.running("localize"):
        out = loc.localize_wavepacket_projection(w, proj)
    x = np.asarray(out["data"])
    ctx.check("localize_flat", x.ndim == 1 and out["basis"].n == x.size and G.same(out["basis"][0][0], proj["basis"][0]))
    ctx.check("localize_basis", G.same(out["basis"][0][1], lst) and G.same(out["basis"][1], state))
    ctx.close("localize", x.reshape(m, lst.n, -1), np.einsum("qpl,lqs->pqs", d, before.reshape(k, lst.n, -1)))
    if ctx.flag():
        one = {"basis": TupleBasis(lst, state), "data": before.reshape(k, -1)[0]}
        p1 = {"basis": big, "data": P[0]}
        with ctx.running("single_band"):
            y = loc.localize_single_band_wavepacket_projection(one, p1)
        if _phases(ctx, "single_band", y, one, lst, state) is not None:
            Y = W.supercell(y["data"], lst, state)
            a = Y.conj() @ Pg[0]
            use = np.abs(a) > 1e-6
            ctx.close("single_band_positive", a[use] / np.abs(a[use]), np.ones(use.sum()) + 0j, tol=1e-7)
    ctx.equal("unchanged", w["data"], before)


def _positive(ctx, name, out, w, lst, state, P):
    """Overlaps of the localized Bloch states with the projection are positive."""
    if _phases(ctx, name, out, w, lst, state) is None:
        return
    a = W.supercell(out["data"], lst, state).conj() @ P
    use = np.abs(a) > 1e-5 * max(np.abs(a).max(), 1e-3)
    ctx.close(f"{name}_positive", a[use] / np.abs(a[use]), np.ones(use.sum()) + 0j, tol=1e-6)


def _single(ctx, max_total=60):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=max_total)
    w = W.packet(ctx, lst, state, normal=True)
    ctx.note(lst=G.describe(lst), state=G.describe(state))
    return lst, state, dx, w


def _grid_state(s):
    return W.on_grid(s["data"], s["basis"] if not hasattr(s["basis"][0], "_no") else s["basis"])[0]


@R.workload(80, 1000)
def tight_binding(ctx):
    lst, state, dx, w = _single(ctx)
    with ctx.running("projection"):
        p = wg.get_tight_binding_state(w)
        out = loc.localize_tight_binding_projection(w)
    _positive(ctx, "tight", out, w, lst, state, W.on_grid(p["data"], p["basis"])[0])
    k = ctx.randint(1, min(3, state.n))
    ws = W.packets(ctx, k, lst, state, orthonormal=True)
    with ctx.running("operator"):
        ps = wg.get_tight_binding_states(ws)
        op = loc.get_localization_operator_tight_binding_projections(ws)
    _check_operator(ctx, "tight_operator", op, _super(ws, lst, state, k), W.on_grid(ps["data"], ps["basis"][1]), lst, k, ws["basis"][0][0], ps["basis"][0])


@R.workload(80, 1000)
def single_point(ctx):
    lst, state, dx, w = _single(ctx)
    i = ctx.randint(0, lst.n - 1) if ctx.flag() else None
    kw = {} if i is None else {"idx": i}
    X = W.supercell(w["data"], lst, state)
    x = np.abs(X[i or 0])
    with ctx.running("point"):
        p = pr.get_single_point_state_for_wavepacket(w, **kw)
        out = loc.localize_single_point_projection(w, **kw)
    g = W.on_grid(p["data"], p["basis"])[0]
    on = np.flatnonzero(np.abs(g) > 1e-9)
    ctx.check("point_single", len(on) == 1)
    ctx.check("point_maximum", x[on[0]] > x.max() * (1 - 1e-7))
    # a point which was asked for
    big = W.super_shape(lst, state)
    at = tuple(ctx.randint(-7, 7) for _ in big)
    with ctx.running("point_origin"):
        q = pr.get_single_point_state_for_wavepacket(w, i or 0, at)
    h = W.on_grid(q["data"], q["basis"])[0]
    there = np.zeros(h.size)
    there[np.ravel_multi_index(at, big, mode="wrap")] = 1
    ctx.check("point_given", np.allclose(np.abs(h) > 1e-9, there), f"{at} {np.flatnonzero(np.abs(h) > 1e-9)}")
    _positive(ctx, "point", out, w, lst, state, g)


def _distance(o, n, big):
    pos = np.array(np.unravel_index(np.arange(int(np.prod(big))), big))
    M = np.array(big)[:, None]
    d = (pos - np.array(o)[:, None]) % M
    return np.minimum(d, M - d) / np.array(n)[:, None]


def _envelope(ctx, name, f, o, n, big, *, gaussian):
    """A positive normalised state, largest at o, which falls off with the distance in cells."""
    ctx.close(f"{name}_normalised", np.linalg.norm(f), 1.0)
    if not ctx.check(f"{name}_positive", np.all(np.abs(f.imag) < 1e-12) and np.all(f.real >= -1e-12)):
        return
    f = f.real
    d = _distance(o, n, big)
    ctx.check(f"{name}_peak", f[np.ravel_multi_index(tuple(int(t) for t in o), big, mode="wrap")] >= f.max() * (1 - 1e-9))
    r = np.sum(d**2, axis=0)
    if gaussian:
        # log is proportional to the squared distance
        use = f > 1e-12 * f.max()
        lg = np.log(f[use] / f.max())
        if r[use].max() > 0:
            kappa = -lg[np.argmax(r[use])] / r[use].max()
            ctx.check(f"{name}_falls", kappa > 0)
            ctx.close(f"{name}_gaussian", lg, -kappa * r[use], floor=1e-6, tol=1e-7)
        return
    # no point which is further away, in units of the cell, is larger
    j = ctx.rng.integers(0, f.size, size=(2, 200))
    nearer = r[j[0]] <= r[j[1]] + 1e-12
    ctx.check(f"{name}_falls", np.all(f[j[0]][nearer] >= f[j[1]][nearer] - 1e-9 * f.max()))


@R.workload(100, 1200)
def envelopes(ctx):
    nd = ctx.randint(1, 3) if ctx.flag(0.6) else 3
    lst, state, dx = W.bases(ctx, nd, list_kinds=W.FULL_LIST_KINDS, max_total=60)
    w = W.packet(ctx, lst, state, normal=True)
    ctx.note(lst=G.describe(lst), state=G.describe(state))
    n, big = state.fundamental_shape, W.super_shape(lst, state)
    X = W.supercell(w["data"], lst, state)
    # gaussian around a point of the cell
    origin = tuple(ctx.randint(-n_ // 2 + 1, (n_ - 1) // 2) for n_ in n) if ctx.flag(0.7) else None
    named = origin
    if origin is not None:
        # the same point of another cell, or its flat index in the supercell
        named = tuple(o + n_ * ctx.randint(-2, 2) for o, n_ in zip(origin, n, strict=True)) if ctx.flag(0.3) else origin
        if ctx.flag(0.2):
            named = int(np.ravel_multi_index(named, big, mode="wrap"))
    with ctx.running("gaussian"):
        gs = pr.get_gaussian_states(w, **({} if named is None else {"origin": named}))
        out = loc.localize_wavepacket_gaussian_projection(w)
        g0 = pr.get_gaussian_states(w)
    ctx.check("gaussian_list", gs["basis"][0].n == 1)
    f = W.on_grid(gs["data"], gs["basis"][1])[0]
    _envelope(ctx, "gaussian", f, origin or (0,) * nd, n, big, gaussian=True)
    _positive(ctx, "gaussian", out, w, lst, state, W.on_grid(g0["data"], g0["basis"][1])[0])
    if nd == 3:
        x = np.abs(X[0])
        top = np.array(np.unravel_index(np.flatnonzero(x > x.max() * (1 - 1e-7)), big)).T
        if len({tuple(t % n) for t in top}) > 1:
            return
        with ctx.running("exponential"):
            e = pr.get_exponential_state(w)
            out = loc.localize_exponential_decay_projection(w)
        o = tuple(int((t + m // 2) % m - m // 2) for t, m in zip(top[0], n, strict=True))
        f = W.on_grid(e["data"], e["basis"])[0]
        _envelope(ctx, "exponential", f, o, n, big, gaussian=False)
        _positive(ctx, "exponential", out, w, lst, state, f * X[0])


# ------------------------------------------------------------- position operator
def _x_matrix(lst, state, dx):
    big = W.super_shape(lst, state)
    pos = np.array(np.unravel_index(np.arange(int(np.prod(big))), big))
    return np.einsum("ap,a->p", pos / np.array(state.fundamental_shape)[:, None], dx[:, 0])


@R.workload(60, 800)
def position(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=40)
    w = W.packet(ctx, lst, state, normal=True)
    before = w["data"].copy()
    ctx.note(lst=G.describe(lst), state=G.describe(state))
    X = W.supercell(w["data"], lst, state)
    x = _x_matrix(lst, state, dx)
    M = X.conj() @ (x[:, None] * X.T)
    with ctx.running("position"):
        out = loc.localize_position_operator(w)
    if not ctx.check("number", len(out) == lst.n):
        return
    C = []
    old = before.reshape(lst.n, -1)
    for o in out:
        d = np.asarray(o["data"])
        if not ctx.check("flat", d.ndim == 1 and d.size == before.size, f"{d.shape}"):
            return
        d = d.reshape(lst.n, -1)
        c = np.einsum("ij,ij->i", old.conj(), d)
        ctx.close("gauge", d, old * c[:, None], floor=1e-2)
        C.append(c)
    C = np.array(C)
    ctx.close("orthonormal", C.conj() @ C.T, np.eye(lst.n) + 0j)
    D = C.conj() @ M @ C.T
    ctx.close("diagonal", D, np.diag(np.diag(D)), scale=max(np.abs(x).max(), 1e-300), tol=1e-7)


@R.workload(50, 600)
def position_bands(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=40)
    k = ctx.randint(1, min(3, state.n))
    ws = W.packets(ctx, k, lst, state, orthonormal=True)
    each = [
        {"basis": TupleBasis(lst, state), "data": d.copy(), "eigenvalue": e.copy()}
        for d, e in zip(ws["data"].reshape(k, -1), ws["eigenvalue"].reshape(k, -1), strict=True)
    ]
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    X = _super(ws, lst, state, k)
    x = _x_matrix(lst, state, dx)
    scale = max(np.abs(x).max(), 1e-300)
    rows = X.reshape(k * lst.n, -1)
    with ctx.running("bands"):
        out = loc.localize_position_operator_many_band(each)
    S = np.array([W.on_grid(s["data"], s["basis"])[0] for s in out])
    if ctx.check("bands_number", len(S) == len(rows)):
        C = S @ rows.conj().T
        ctx.close("bands_span", C @ rows, S)
        ctx.close("bands_orthonormal", C.conj() @ C.T, np.eye(len(S)) + 0j)
        D = S.conj() @ (x[:, None] * S.T)
        ctx.close("bands_diagonal", D, np.diag(np.diag(D)), scale=scale, tol=1e-7)
    with ctx.running("individual"):
        out = loc.localize_position_operator_many_band_individual(each)
    S = np.array([W.on_grid(s["data"], s["basis"])[0] for s in out])
    if ctx.check("individual_number", len(S) == k):
        S = S / np.linalg.norm(S[0])
        C = S @ rows.conj().T
        ctx.close("individual_span", C @ rows, S)
        ctx.close("individual_orthonormal", C.conj() @ C.T, np.eye(k) + 0j)
        D = S.conj() @ (x[:, None] * S.T)
        ctx.close("individual_diagonal", D, np.diag(np.diag(D)), scale=scale, tol=1e-7)
        for b in range(k):
            c = C.reshape(k, k, lst.n)[:, b]
            M = X[b].conj() @ (x[:, None] * X[b].T)
            s = np.linalg.svd(c, compute_uv=False)
            ctx.check("individual_one_each", len(s) < 2 or s[1] < 1e-7, f"{s}")
            v = np.linalg.svd(c)[2][0]
            lam = np.real(v.conj() @ M @ v)
            ctx.close("individual_eigenstate", M @ v, lam * v, scale=scale, tol=1e-6)
            ctx.close("individual_place", lam, np.linalg.eigvalsh(M)[lst.n // 4], scale=scale, tol=1e-7)


# ------------------------------------------------------------- operators
@R.workload(80, 1000)
def operators(ctx):
    lst, state, dx = W.bases(ctx, max_total=60)
    k, m = ctx.randint(1, 4), ctx.randint(1, 4)
    w = W.packets(ctx, k, lst, state)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k, localized=m)
    bands = w["basis"][0][0]
    old = w["data"].reshape(k, lst.n, -1).copy()
    A = G.cplx(ctx.rng, lst.n, m, k)
    made = W.bands(ctx, m)
    op = {"basis": TupleBasis(lst, TupleBasis(made, bands)), "data": A.ravel()}
    with ctx.running("apply"):
        out = lo.get_localized_wavepackets(w, op)
    x = np.asarray(out["data"])
    ctx.check("apply_basis", x.ndim == 1 and G.same(out["basis"][0][0], made) and G.same(out["basis"][0][1], lst) and G.same(out["basis"][1], state))
    ctx.close("apply", x.reshape(m, lst.n, -1), np.einsum("qij,jqs->iqs", A, old))
    B = G.cplx(ctx.rng, lst.n, k)
    lb = TupleBasis(lst, bands)
    diag = {"basis": TupleBasis(lb, lb), "data": B.ravel()}
    with ctx.running("apply_diagonal"):
        out = lo.get_diagonal_localized_wavepackets(w, diag)
    ctx.check("apply_diagonal_basis", G.same(out["basis"][0][0], bands) and G.same(out["basis"][0][1], lst) and G.same(out["basis"][1], state))
    ctx.close("apply_diagonal", np.asarray(out["data"]).reshape(k, lst.n, -1), np.einsum("qj,jqs->jqs", B, old))
    with ctx.running("as_full"):
        full = lo.diagonal_localization_operator_as_full(diag)
    d = np.asarray(full["data"])
    ctx.check("as_full_flat", d.ndim == 1 and d.size == full["basis"].n)
    ctx.check("as_full_basis", G.same(full["basis"][0], lst) and all(G.same(b, bands) for b in full["basis"][1]))
    ctx.close("as_full", d.reshape(lst.n, k, k), np.einsum("qj,ij->qij", B, np.eye(k)))
    with ctx.running("full_same"):
        out = lo.get_localized_wavepackets(w, full)
    ctx.close("full_same", np.asarray(out["data"]).reshape(k, lst.n, -1), np.einsum("qj,jqs->jqs", B, old))
    sq = G.cplx(ctx.rng, lst.n, k, k)
    with ctx.running("as_diagonal"):
        back = lo.localization_operator_as_diagonal({"basis": full["basis"], "data": sq.ravel()})
    ctx.check("as_diagonal_basis", all(G.same(b[0], lst) and G.same(b[1], bands) for b in back["basis"]))
    ctx.close("as_diagonal", np.asarray(back["data"]).reshape(lst.n, k), np.einsum("qjj->qj", sq))
    with ctx.running("identity"):
        ident = lo.get_identity_operator(w["basis"][0])
    d = np.asarray(ident["data"])
    if ctx.check("identity_flat", d.ndim == 1 and d.size == ident["basis"].n == lst.n * k * k, f"{d.shape} {ident['basis'].n}"):
        ctx.equal("identity", d.reshape(lst.n, k, k), np.broadcast_to(np.eye(k), (lst.n, k, k)))
        with ctx.running("identity_apply"):
            out = lo.get_localized_wavepackets(w, ident)
        ctx.equal("identity_apply", np.asarray(out["data"]).reshape(old.shape), old)


# ------------------------------------------------------------- guesses
@R.workload(80, 1000)
def guesses(ctx):
    lst, state, dx = W.bases(ctx, max_total=60)
    N, n, big = lst.fundamental_shape, state.fundamental_shape, W.super_shape(lst, state)
    wb = TupleBasis(lst, state)
    nd = len(n)
    shape = tuple(ctx.randint(1, min(3, b)) for b in big)
    ctx.note(lst=G.describe(lst), state=G.describe(state), shape=shape)
    with ctx.running("evenly"):
        e = loc.get_evenly_spaced_points(wb, shape)
    g = W.on_grid(e["data"], e["basis"][1])
    exp = np.zeros((int(np.prod(shape)), int(np.prod(big))))
    for i, ix in enumerate(np.ndindex(*shape)):
        exp[i, np.ravel_multi_index(tuple(b * j // s for b, j, s in zip(big, ix, shape, strict=True)), big)] = 1
    ctx.check("evenly_list", tuple(e["basis"][0].shape) == shape)
    ctx.close("evenly", g, exp + 0j)
    # free states: every plane wave up to a cutoff, in phase at a point of the cell
    bands = tuple(ctx.randint(1, m) for m in n)
    with ctx.running("free"):
        f = su.get_most_localized_free_state_vectors(wb, bands)
    B = int(np.prod(bands))
    ctx.check("free_number", f["basis"][0].n == B and np.asarray(f["data"]).shape == (f["basis"].n,))
    ok = np.allclose(f["basis"][1].delta_x_stacked, dx * np.array(N)[:, None]) and tuple(f["basis"][1].fundamental_shape) == big
    if ctx.check("free_cell", ok):
        K = W.on_grid(f["data"], f["basis"][1]) @ W.planes(big).conj().T
        lab = W.labels(big)
        at = np.array([np.array([G.freq(b)[i] for b, i in zip(bands, ix, strict=True)]) / bands for ix in np.ndindex(*bands)])
        keep = np.abs(K[0]) > 1e-9
        ctx.check("free_cutoff", keep.sum() == np.prod([a * b for a, b in zip(N, bands, strict=True)]))
        for a in range(nd):
            width = N[a] * bands[a]
            ctx.check("free_lowest", set(lab[a, keep]) <= set(range(-(width // 2), width // 2 + 1)))
        ph = np.exp(-2j * np.pi * np.einsum("ba,ak->bk", at, lab[:, keep] / np.array(N)[:, None]))
        ctx.close("free", K[:, keep], ph / np.sqrt(keep.sum()))
    # the same with the average occupation of the bands
    k = ctx.randint(1, 3)
    ws = W.packets(ctx, k + ctx.randint(0, 1), lst, state)
    frac = tuple(ctx.rng.uniform(0, 1, size=k) for _ in range(nd))
    with ctx.running("from_probability"):
        p = su.get_most_localized_state_vectors_from_probability(ws, frac)
    total = ws["basis"][0][0].n
    X = np.array([W.supercell(t, lst, state) for t in ws["data"].reshape(total, -1)])[:k]
    prob = np.mean(np.abs(np.sum(X, axis=1) @ W.planes(big).conj().T) ** 2, axis=0)
    K = W.on_grid(p["data"], p["basis"][1]) @ W.planes(big).conj().T
    ph = np.exp(-2j * np.pi * np.einsum("ab,ak->bk", np.array(frac), W.labels(big) / np.array(N)[:, None]))
    ctx.close("from_probability", K, np.sqrt(prob / prob.sum()) * ph)
