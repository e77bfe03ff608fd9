"""Bloch states of a wavepacket, and bases made of them."""

import numpy as np

from mon import gen as G
from mon import wave as W
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator.conversion import (
    convert_diagonal_operator_to_basis,
)
from surface_potential_analysis.state_vector.conversion import (
    convert_state_vector_to_basis,
)
from surface_potential_analysis.wavepacket import get_eigenstate as wg

R = Registry("W02")
RULE = (
    "Random wavepackets (lattices, sample lists, bands, state bases); oracle: every Bloch state written out on the "
    "grid of the supercell from its plane waves, dense projections onto them, and Hamiltonians as sums of "
    "projectors. Non-trivial: at least one compared state."
)


def _vec(ctx, name, s, exp):
    d = np.asarray(s["data"])
    ctx.check(f"{name}_flat", d.ndim == 1 and d.size == s["basis"].n)
    ctx.close(name, W.on_grid(d, s["basis"])[0], exp, floor=1e-3)


def _cell(ctx, name, b, lst, state, dx):
    ok = np.allclose(b.delta_x_stacked, dx * np.array(lst.fundamental_shape)[:, None], rtol=1e-9)
    return ctx.check(f"{name}_cell", ok and tuple(b.fundamental_shape) == W.super_shape(lst, state), f"{b.fundamental_shape}")


def _decay(ctx, w):
    """Give some of the packets complex values, of states which decay."""
    if ctx.flag(0.3):
        w["eigenvalue"] = w["eigenvalue"] + 1j * ctx.rng.normal(size=w["eigenvalue"].shape)


@R.workload(150, 1800)
def samples(ctx):
    lst, state, dx = W.bases(ctx, max_total=80)
    w = W.packet(ctx, lst, state)
    _decay(ctx, w)
    before = w["data"].copy()
    ctx.note(lst=G.describe(lst), state=G.describe(state))
    exp = W.supercell(w["data"], lst, state)
    N = lst.fundamental_shape
    i = ctx.randint(0, len(exp) - 1)
    ix = i if ctx.flag() else tuple(int(x) for x in np.unravel_index(i, N))
    with ctx.running("one"):
        one = wg.get_wavepacket_state_vector(w, ix)
    if not _cell(ctx, "one", one["basis"], lst, state, dx):
        return
    _vec(ctx, "one", one, exp[i])
    with ctx.running("all"):
        states = list(wg.get_all_wavepacket_states(w))
        eigen = list(wg.get_all_eigenstates(w))
    ctx.check("all_number", len(states) == len(eigen) == len(exp))
    values = W.fundamental_list(w["eigenvalue"], lst)
    for s, e, x, v in zip(states, eigen, exp, values, strict=True):
        _vec(ctx, "all", s, x)
        _vec(ctx, "eigenstate", e, x)
        ctx.close("eigenvalue", e["eigenvalue"], v, floor=1.0)
    j = ctx.randint(0, lst.n - 1)
    jx = j if ctx.flag() else tuple(int(x) for x in np.unravel_index(j, lst.shape))
    with ctx.running("raw"):
        raw = wg.get_bloch_state_vector(w, jx)
    ctx.equal("raw", raw["data"], before.reshape(lst.n, -1)[j])
    ctx.check("raw_basis", G.same(raw["basis"], state))
    ctx.equal("unchanged", w["data"], before)


@R.workload(100, 1200)
def tight_binding(ctx):
    lst, state, dx = W.bases(ctx, max_total=80)
    k = ctx.randint(1, 2)
    w = W.packets(ctx, k, lst, state)
    N, n = np.array(lst.fundamental_shape), np.array(state.fundamental_shape)
    nd = len(n)
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    i = ctx.randint(0, exp.shape[1] - 1)
    origin = tuple(ctx.randint(-3, 8) for _ in range(nd)) if ctx.flag() else None
    ctx.note(lst=G.describe(lst), state=G.describe(state), idx=i, origin=origin)
    with ctx.running("tight"):
        out = wg.get_tight_binding_states(w, i, origin)
    if not _cell(ctx, "tight", out["basis"][1], lst, state, dx):
        return
    got = W.on_grid(out["data"], out["basis"][1])
    ctx.check("tight_number", out["basis"][0].n == k == len(got))
    big = tuple(N * n)
    pos = np.array(np.unravel_index(np.arange(int(np.prod(big))), big))
    for g, x in zip(got, exp[:, i], strict=True):
        scale = np.abs(x).max()
        if scale < 1e-6:
            continue
        on = np.abs(g) > 1e-9 * scale
        ctx.close("tight_state", g[on], x[on], scale=scale)
        # inside of one unit cell around the origin nothing is lost
        o = origin
        if o is None:
            peak = np.abs(x).reshape(big)
            top = np.argwhere(peak > peak.max() * (1 - 1e-9))
            if len({tuple(t % n) for t in top}) > 1:
                continue
            o = tuple((t + m // 2) % m - m // 2 for t, m in zip(top[0], n, strict=True))
            # the peak is in the middle of the cell
            near = np.array([int(a % b) for a, b in zip(o, big, strict=True)])
            ctx.check("tight_peak", on[np.ravel_multi_index(near, big)])
        elif i >= 0:
            o = tuple(o)
        # nearest images of every point of the cell lie within half of a cell of the origin
        d = pos - np.array(o)[:, None]
        d = (d + np.array(big)[:, None] // 2) % np.array(big)[:, None] - np.array(big)[:, None] // 2
        inside = np.all(np.abs(d) * 2 < n[:, None], axis=0)
        outside = np.any(np.abs(d) * 2 > n[:, None], axis=0) & np.all(N > 0)
        ctx.close("tight_inside", g[inside], x[inside], scale=scale)
        ctx.close("tight_outside", g[outside], 0 * x[outside], scale=scale)
        count = np.zeros(tuple(n), dtype=int)
        np.add.at(count, tuple(p % m for p, m in zip(pos[:, on], n, strict=True)), 1)
        ctx.check("tight_one_cell", count.max() <= 1)


@R.workload(100, 1200)
def bloch_index(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=80)
    k = ctx.randint(1, 3)
    w = W.packets(ctx, k, lst, state)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    i = ctx.randint(0, lst.n - 1)
    ix = i if ctx.flag() else tuple(int(x) for x in np.unravel_index(i, lst.shape))
    with ctx.running("at_index"):
        s = wg.get_states_at_bloch_idx(w, ix)
    d = np.asarray(s["data"])
    ctx.check("at_index_flat", d.ndim == 1 and d.size == s["basis"].n and s["basis"][0].n == k)
    if _cell(ctx, "at_index", s["basis"][1], lst, state, dx):
        ctx.close("at_index", W.on_grid(d, s["basis"][1]), exp[:, i])


def _bands(ctx, max_total=40):
    lst, state, dx = W.bases(ctx, max_total=max_total)
    k = ctx.randint(1, min(3, state.n))
    # the library compares its two algorithms with an absolute tolerance
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    return lst, state, dx, k, w, exp


@R.workload(80, 1000)
def bloch_states(ctx):
    lst, state, dx, k, w, exp = _bands(ctx)
    with ctx.running("states"):
        s = wg.get_bloch_states(w) if lst.n == np.prod(lst.fundamental_shape) else None
        f = wg.get_fundamental_wavepacket(w)
    if s is not None:
        d = np.asarray(s["data"])
        ctx.check("states_flat", d.ndim == 1 and d.size == s["basis"].n and s["basis"][0].n == k * lst.n)
        if _cell(ctx, "states", s["basis"][1], lst, state, dx):
            ctx.close("states", W.on_grid(d, s["basis"][1]).reshape(exp.shape), exp)
    ctx.close("fundamental_states", G.states(f["basis"][1]), W.planes(state.fundamental_shape))
    ctx.check("fundamental_list", tuple(f["basis"][0][1].shape) == tuple(lst.fundamental_shape) and f["basis"][0][0].n == k)
    got = np.array([W.supercell(x, f["basis"][0][1], f["basis"][1]) for x in np.asarray(f["data"]).reshape(k, -1)])
    ctx.close("fundamental", got, exp)


@R.workload(80, 1000)
def bloch_basis(ctx):
    lst, state, dx, k, w, exp = _bands(ctx)
    with ctx.running("basis"):
        b = wg.get_bloch_basis(w)
        n = b.n
    rows = exp.reshape(-1, exp.shape[-1])
    ctx.check("basis_size", n == len(rows) and b.fundamental_n == rows.shape[1])
    if not _cell(ctx, "basis", b, lst, state, dx):
        return
    with ctx.running("vectors"):
        v = b.vectors
    ctx.close("vectors", W.on_grid(v["data"], v["basis"][1]), rows)
    big = W.super_shape(lst, state)
    grid = TupleBasis(*(FundamentalBasis(m) for m in big))
    other = G.tuple_basis(ctx.rng, big, delta_x=np.asarray(b.delta_x_stacked), kinds=W.FULL_STATE_KINDS)
    c = G.cplx(ctx.rng, n)
    with ctx.running("into"):
        x = convert_state_vector_to_basis({"basis": b, "data": c}, grid)
        y = convert_state_vector_to_basis({"basis": b, "data": c}, other)
    ctx.close("into", x["data"], c @ rows)
    ctx.close("into_other", W.on_grid(y["data"], other)[0], c @ rows)
    psi = G.cplx(ctx.rng, rows.shape[1])
    with ctx.running("from"):
        z = convert_state_vector_to_basis({"basis": grid, "data": psi}, b)
    ctx.close("from", z["data"], rows.conj() @ psi)
    # along an axis of an array
    m = ctx.randint(1, 3)
    arr = G.cplx(ctx.rng, m, n, 2)
    with ctx.running("axis"):
        a = b.__into_fundamental__(arr, 1)
        back = b.__from_fundamental__(a, 1)
        neg = b.__into_fundamental__(np.moveaxis(arr, 1, -1))
    ctx.close("axis", a, np.einsum("mnp,nx->mxp", arr, rows))
    ctx.close("axis_back", back, np.einsum("mxp,nx->mnp", a, rows.conj()))
    ctx.close("axis_last", neg, np.moveaxis(a, 1, -1))
    # states of one sample, in the unit cell
    i = ctx.randint(0, int(np.prod(lst.fundamental_shape)) - 1)
    ix = i if ctx.flag() else tuple(int(t) for t in np.unravel_index(i, lst.fundamental_shape))
    if ctx.flag(0.3):
        cells = lst.fundamental_shape
        ix = tuple(int(t + m * ctx.randint(-2, 1)) for t, m in zip(np.unravel_index(i, cells), cells, strict=True))
    with ctx.running("at_k"):
        at = b.vectors_at_bloch_k(ix)
        bk = b.basis_at_bloch_k(ix)
    raw = np.array([W.fundamental_list(t, lst) for t in w["data"].reshape(k, lst.n, -1)])[:, i] @ G.states(state)
    ctx.check("at_k_flat", np.asarray(at["data"]).ndim == 1 and at["basis"].n == np.asarray(at["data"]).size)
    ctx.close("at_k", W.on_grid(at["data"], at["basis"][1]), raw, floor=1e-3)
    ctx.close("basis_at_k", G.states(bk), raw, floor=1e-3)


@R.workload(80, 1000)
def hamiltonian(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=40)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    _decay(ctx, w)
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    rows = exp.reshape(-1, exp.shape[-1])
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    with ctx.running("full"):
        h = wg.get_full_bloch_hamiltonian(w)
        grid = TupleBasis(*(FundamentalBasis(m) for m in W.super_shape(lst, state)))
        x = convert_diagonal_operator_to_basis(h, TupleBasis(grid, grid))
    ctx.close("full", np.asarray(x["data"]).reshape(grid.n, -1), np.einsum("a,ai,aj->ij", w["eigenvalue"], rows, rows.conj()))
    with ctx.running("blocks"):
        hb = wg.get_bloch_hamiltonian(w)
    ctx.close("blocks", np.asarray(hb["data"]).reshape(k, lst.n), w["eigenvalue"].reshape(k, lst.n))
    ctx.check("blocks_basis", hb["basis"][0].n == k and all(G.same(t, lst) for t in hb["basis"][1]))


@R.workload(80, 1000)
def wannier(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=36)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    _decay(ctx, w)
    exp = np.array([W.supercell(x, lst, state) for x in w["data"].reshape(k, -1)])
    # as many localized states as bands, or fewer
    m = k if ctx.flag(0.6) else ctx.randint(1, k)
    U = np.array([G.unitary(ctx.rng, k)[:m] for _ in range(lst.n)])
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    op = {"basis": TupleBasis(lst, TupleBasis(FundamentalBasis(m), w["basis"][0][0])), "data": U.ravel()}
    with ctx.running("states"):
        s = wg.get_wannier_states(w, op)
    d = np.asarray(s["data"])
    ctx.check("states_flat", d.ndim == 1 and d.size == s["basis"].n and s["basis"][0].n == m * lst.n)
    ctx.check("states_basis", s["basis"][0][0].n == m and G.same(s["basis"][0][1], lst))
    if not _cell(ctx, "states", s["basis"][1], lst, state, dx):
        return
    big = W.super_shape(lst, state)
    got = W.on_grid(d, s["basis"][1]).reshape(m, lst.n, -1)
    ctx.close("orthonormal", got.reshape(m * lst.n, -1).conj() @ got.reshape(m * lst.n, -1).T, np.eye(m * lst.n) + 0j)
    # the state of the first cell is the sum over the samples
    central = np.einsum("qil,lqx->ix", U, exp) / np.sqrt(lst.n)
    ctx.close("central", got[:, 0], central)
    # the others are its translations by whole cells
    cells = np.array(np.unravel_index(np.arange(lst.n), lst.shape)).T
    for i in range(lst.n):
        shift = tuple(-int(c * t) for c, t in zip(cells[i], state.fundamental_shape, strict=True))
        moved = np.roll(central.reshape(m, *big), shift, axis=tuple(range(1, len(big) + 1)))
        ctx.close("translated", got[:, i], moved.reshape(m, -1))
    rows = exp.reshape(-1, exp.shape[-1])
    H = np.einsum("a,ai,aj->ij", w["eigenvalue"], rows, rows.conj())
    flat = got.reshape(m * lst.n, -1)
    ref = flat.conj() @ H @ flat.T
    with ctx.running("hamiltonian"):
        h = wg.get_full_wannier_hamiltonian(w, op)
    ctx.close("hamiltonian", np.asarray(h["data"]).reshape(m * lst.n, -1), ref)
    ctx.check("hamiltonian_flat", np.asarray(h["data"]).ndim == 1)
    with ctx.running("hamiltonian_basis"):
        b = wg.get_wannier_basis(w, op)
        ctx.close("wannier_basis", G.states(b), flat)
        ctx.close("hamiltonian_basis", G.states(h["basis"][0]), flat)
    with ctx.running("blocks"):
        hb = wg.get_wannier_hamiltonian(w, op)
    x = np.asarray(hb["data"])
    ctx.check("blocks_flat", x.ndim == 1 and x.size == hb["basis"].n)
    # matrix elements between the states at the same sample
    e = w["eigenvalue"].reshape(k, lst.n)
    ctx.close("blocks", x.reshape(lst.n, m, m), np.einsum("qic,cq,qjc->qij", U.conj(), e, U))
