"""Wavepackets: generation, lists of samples, and change of representation."""

import numpy as np

from mon import gen as G
from mon import wave as W
from mon.core import Registry, Skip
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.block_fraction_basis import (
    EvenlySpacedBlockFractionBasis,
    ExplicitBlockFractionBasis,
)
from surface_potential_analysis.basis.evenly_spaced_basis import EvenlySpacedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.wavepacket import conversion as wc
from surface_potential_analysis.wavepacket import eigenstate_conversion as we
from surface_potential_analysis.wavepacket import wavepacket as ww

R = Registry("W01")
RULE = (
    "Random sample lists (all or some of the Bloch vectors), bands, state bases and lattices; generated "
    "wavepackets record every Bloch fraction asked of the Hamiltonian generator and are compared with a direct "
    "diagonalisation; conversions and unfurling are compared with every sample written out as a function on the "
    "supercell. Non-trivial: at least one compared sample."
)


def _flat(ctx, name, w, values=False):
    d = np.asarray(w["data"])
    ctx.check(f"{name}_flat", d.ndim == 1 and d.size == w["basis"].n, f"{d.shape} for {w['basis'].n}")
    if values:
        e = np.asarray(w["eigenvalue"])
        ctx.check(f"{name}_values_flat", e.ndim == 1 and e.size == w["basis"][0].n, f"{e.shape}")


def _generator(ctx, basis, nd):
    """A Hamiltonian which depends on every component of the Bloch fraction."""
    n = basis.n
    parts = [G.hermitian(ctx.rng, n) for _ in range(2 * nd + 1)]
    calls = []

    def matrix(f):
        h = parts[0].copy()
        for i, x in enumerate(np.real(f)):
            h = h + parts[1 + 2 * i] * np.cos(2 * np.pi * x) + parts[2 + 2 * i] * np.sin(2 * np.pi * x)
        return h

    def generator(f):
        f = np.asarray(f)
        calls.append(f.copy())
        return {"basis": TupleBasis(basis, basis), "data": matrix(f).ravel()}

    return generator, matrix, calls


def _eigen(ctx, name, w, matrix, fractions, offset, step, n_bands):
    n = w["basis"][1].n
    data = np.asarray(w["data"]).reshape(n_bands, fractions.shape[1], n)
    vals = np.asarray(w["eigenvalue"]).reshape(n_bands, fractions.shape[1])
    for i in range(fractions.shape[1]):
        h = matrix(fractions[:, i])
        e = np.linalg.eigvalsh(h)
        wanted = e[offset : offset + step * (n_bands - 1) + 1 : step]
        scale = np.abs(e).max() + 1
        ctx.close(f"{name}_energies", vals[:, i], wanted + 0j, scale=scale)
        v = data[:, i]
        ctx.close(f"{name}_states", v @ h.T, vals[:, i, None] * v, scale=scale)
        ctx.close(f"{name}_orthonormal", v.conj() @ v.T, np.eye(n_bands) + 0j)


@R.workload(80, 800)
def generate(ctx):
    lst, state, _ = W.bases(ctx, max_list=6, max_state=8)
    nd = lst.ndim
    n = state.n
    how = ctx.flag()
    if how:
        bands = FundamentalBasis(ctx.randint(1, n))
        offset, step = 0, 1
    else:
        step = ctx.randint(1, 3)
        offset = ctx.randint(0, n - 1)
        count = ctx.randint(1, (n - 1 - offset) // step + 1)
        bands = EvenlySpacedBasis(count, step, offset)
    generator, matrix, calls = _generator(ctx, state, nd)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=G.describe(bands))
    fractions = W.list_labels(lst) / np.array(lst.fundamental_shape)[:, None]
    with ctx.running("fractions"):
        got = ww.get_wavepacket_sample_fractions(lst)
    ctx.close("fractions", got, fractions, scale=1.0)
    with ctx.running("generate"):
        w = ww.generate_wavepacket(generator, lst, bands)
    _flat(ctx, "generate", w, True)
    ctx.check("generate_basis", G.same(w["basis"][0][0], bands) and G.same(w["basis"][0][1], lst) and G.same(w["basis"][1], state))
    _eigen(ctx, "generate", w, matrix, fractions, offset, step, bands.n)
    asked = np.array([np.real(c) for c in calls])
    ctx.check("asked_shape", asked.ndim == 2 and asked.shape[1] == nd)
    near = np.abs(asked[:, None, :] - fractions.T[None]).max(axis=-1) < 1e-9
    ctx.check("every_sample_asked", bool(near.any(axis=0).all()))
    ctx.check("only_samples_asked", bool(near.any(axis=1).all()))
    with ctx.running("average"):
        a = ww.get_average_eigenvalues(w)
    e = np.asarray(w["eigenvalue"]).reshape(bands.n, -1)
    ctx.close("average", a["data"], e.mean(axis=1), scale=np.abs(e).max() + 1)
    ctx.check("average_basis", G.same(a["basis"][0], bands) and G.same(a["basis"][1], bands))


@R.workload(60, 600)
def generate_uneven(ctx):
    nd = ctx.randint(1, 3)
    state = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, nd, max_total=8), kinds=W.STATE_KINDS)
    n = state.n
    if nd == 1 and ctx.flag():
        k, step = ctx.randint(1, 5), ctx.randint(1, 3)
        offset = ctx.randint(0, step - 1)
        lst = EvenlySpacedBlockFractionBasis(k, step, offset)
        fractions = (np.arange(k * step) / (k * step) - 0.5)[None, (offset + step * np.arange(k)) % (k * step)]
    else:
        fractions = ctx.rng.uniform(-1, 1, size=(nd, ctx.randint(1, 6)))
        lst = ExplicitBlockFractionBasis(fractions)
    bands = FundamentalBasis(ctx.randint(1, n))
    generator, matrix, calls = _generator(ctx, state, nd)
    ctx.note(state=G.describe(state), fractions=fractions, bands=bands.n)
    with ctx.running("uneven"):
        w = ww.generate_uneven_wavepacket(generator, lst, bands)
    _flat(ctx, "uneven", w, True)
    ctx.check("uneven_basis", w["basis"][0][0].n == bands.n and np.allclose(w["basis"][0][1].bloch_fractions, fractions) and G.same(w["basis"][1], state))
    _eigen(ctx, "uneven", w, matrix, fractions, 0, 1, bands.n)


@R.workload(120, 1500)
def lists(ctx):
    lst, state, _ = W.bases(ctx)
    k = ctx.randint(1, 5)
    w = W.packets(ctx, k, lst, state)
    d = w["data"].reshape(k, lst.n * state.n).copy()
    e = w["eigenvalue"].reshape(k, lst.n).copy()
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)

    def same(x):
        return G.same(x[0], lst) and G.same(x[1], state)

    with ctx.running("one"):
        i = ctx.randint(-k, k - 1)
        one = ww.get_wavepacket(w, i)
        band = ww.get_wavepacket_at_band(w, i)
        b = ww.get_wavepacket_basis(w["basis"])
    ctx.equal("one", one["data"], d[i])
    ctx.equal("band", band["data"], d[i])
    ctx.equal("band_values", band["eigenvalue"], e[i])
    ctx.check("one_basis", same(one["basis"]) and same(band["basis"]) and same(b))
    sl = slice(ctx.randint(0, k - 1), None, ctx.randint(1, 2))
    with ctx.running("some"):
        some = ww.get_wavepackets(w, sl)
        some_e = ww.get_wavepackets_with_eigenvalues(w, sl)
    ctx.equal("some", some["data"], d[sl].ravel())
    ctx.equal("some_with", some_e["data"], d[sl].ravel())
    ctx.equal("some_values", some_e["eigenvalue"], e[sl].ravel())
    _flat(ctx, "some", some)
    _flat(ctx, "some_with", some_e, True)
    ctx.check("some_basis", some["basis"][0][0].n == len(d[sl]) and same((some["basis"][0][1], some["basis"][1])))
    with ctx.running("iter"):
        it = list(ww.wavepacket_list_into_iter(w))
        back = ww.as_wavepacket_list(it)
        again = ww.as_wavepacket_list(x for x in it)
    ctx.check("iter_number", len(it) == k)
    for j, x in enumerate(it):
        ctx.equal("iter", x["data"], d[j])
        ctx.check("iter_basis", same(x["basis"]))
    ctx.equal("back", back["data"], d.ravel())
    ctx.equal("back_from_iterator", again["data"], d.ravel())
    ctx.check("back_from_iterator_number", again["basis"][0][0].n == k)
    ctx.check("back_basis", back["basis"][0][0].n == k and same((back["basis"][0][1], back["basis"][1])))
    ctx.equal("unchanged", w["data"], d.ravel())


@R.workload(100, 1200)
def sample_bases(ctx):
    lst, state, dx = W.bases(ctx)
    b = TupleBasis(lst, state)
    N, n = lst.fundamental_shape, state.fundamental_shape
    NN = np.array(N)
    ctx.note(lst=G.describe(lst), state=G.describe(state), dx=dx)
    with ctx.running("sample_basis"):
        s = ww.get_fundamental_sample_basis(b)
        u = ww.get_fundamental_unfurled_basis(b)
        offsets = tuple(ctx.randint(-x, x) for x in N)
        m = ww.get_fundamental_unfurled_sample_basis_momentum(b, offsets)
        m0 = ww.get_fundamental_unfurled_sample_basis_momentum(b)
        f = ww.get_wavepacket_fundamental_sample_frequencies(b)
    cell = dx * NN[:, None]
    ctx.close("sample_cell", s.delta_x_stacked, cell)
    ctx.equal("sample_shape", s.shape, N)
    ctx.close("unfurled_cell", u.delta_x_stacked, cell)
    ctx.equal("unfurled_shape", u.shape, tuple(a * c for a, c in zip(N, n, strict=True)))
    ctx.close("unfurled_states", G.states(u), W.planes(u.shape))
    rec = 2 * np.pi * np.linalg.inv(dx).T
    q = W.labels(N) / NN[:, None]
    ctx.close("frequencies", f, rec.T @ q, scale=np.abs(rec).max())
    for x, o in ((m, offsets), (m0, (0,) * len(N))):
        ctx.close("sampled_cell", x.delta_x_stacked, cell)
        ctx.equal("sampled_shape", x.shape, n)
        exp = np.ones((1, 1), dtype=complex)
        for a, c, off in zip(N, n, o, strict=True):
            lab = off + a * np.arange(c)
            exp = np.kron(exp, np.exp(2j * np.pi * np.outer(lab, np.arange(a * c)) / (a * c)) / np.sqrt(a * c))
        ctx.close("sampled_states", G.states(x), exp)


def _target(ctx, b, kinds):
    return TupleBasis(*(G.basis_1d(ctx.rng, x.fundamental_n, kinds=kinds, delta_x=d) for x, d in zip(b, b.delta_x_stacked, strict=True)))


def _list_target(ctx, b, kinds, dx):
    return TupleBasis(*(G.basis_1d(ctx.rng, n, kinds=kinds, delta_x=d * n) for n, d in zip(b.fundamental_shape, dx, strict=True)))


def _project(lst, state):
    """Projection of a table (fundamental sample, plane wave) onto what the bases can hold."""
    S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
    T = G.states(state)
    return S.T @ S.conj(), T.T @ T.conj()


@R.workload(150, 1800)
def convert(ctx):
    full = ctx.flag(0.4)
    lk, sk = (W.FULL_LIST_KINDS, W.FULL_STATE_KINDS) if full else (W.LIST_KINDS, W.STATE_KINDS)
    lst, state, dx = W.bases(ctx, list_kinds=lk, state_kinds=sk, max_total=60)
    l1 = None if ctx.flag(0.3) else _list_target(ctx, lst, lk, dx)
    s1 = None if ctx.flag(0.3) else _target(ctx, state, sk)
    with_e = ctx.flag()
    k = ctx.randint(1, 3)
    w = W.packets(ctx, k, lst, state) if with_e else W.packet(ctx, lst, state)
    if not with_e:
        k = 1
    if with_e and ctx.flag(0.4):
        # decaying states
        w["eigenvalue"] = w["eigenvalue"] + 1j * ctx.rng.normal(size=w["eigenvalue"].shape)
    before = w["data"].copy()
    kw = {**({} if l1 is None else {"list_basis": l1}), **({} if s1 is None else {"basis": s1})}
    fl, fs = lst if l1 is None else l1, state if s1 is None else s1
    ctx.note(lst=G.describe(lst), state=G.describe(state), to_list=G.describe(fl), to_state=G.describe(fs), with_e=with_e)
    with ctx.running("convert"):
        out = (wc.convert_wavepacket_with_eigenvalues_to_basis if with_e else wc.convert_wavepacket_to_basis)(w, **kw)
    _flat(ctx, "convert", out, with_e)
    lb = out["basis"][0][1] if with_e else out["basis"][0]
    ctx.check("convert_basis", G.same(lb, fl) and G.same(out["basis"][1], fs))
    # values on the grid of the cell, per fundamental sample
    def table(data, a, b):
        x = np.asarray(data).reshape(k, a.n, b.n) @ G.states(b)
        return np.array([W.fundamental_list(y, a) for y in x])

    P, Q = _project(fl, fs)
    exp = np.einsum("pq,bqx,xy->bpy", P, table(w["data"], lst, state), Q.T)
    ctx.close("convert", table(out["data"], fl, fs), exp, floor=1e-3)
    if with_e:
        e0 = np.array([W.fundamental_list(x, lst) for x in w["eigenvalue"].reshape(k, -1)])
        e1 = np.array([W.fundamental_list(x, fl) for x in np.asarray(out["eigenvalue"]).reshape(k, -1)])
        ctx.close("convert_values", e1, e0 @ P.T, floor=1e-3)
    ctx.equal("unchanged", w["data"], before)
    if with_e:
        return
    with ctx.running("position"):
        x = wc.convert_wavepacket_to_position_basis(w)
    ctx.close("position", np.asarray(x["data"]).reshape(lst.n, -1), w["data"].reshape(lst.n, -1) @ G.states(state))
    _flat(ctx, "position", x)
    ctx.check("position_basis", G.same(x["basis"][0], lst) and np.allclose(G.states(x["basis"][1]), np.eye(x["basis"][1].n)))
    with ctx.running("momentum"):
        p = wc.convert_wavepacket_to_fundamental_momentum_basis(w, **({} if l1 is None else {"list_basis": l1}))
    _flat(ctx, "momentum", p)
    ctx.close("momentum_states", G.states(p["basis"][1]), W.planes(state.fundamental_shape))
    P, _ = _project(fl, state)
    got = W.fundamental_list(np.asarray(p["data"]).reshape(fl.n, -1), fl) @ W.planes(state.fundamental_shape)
    ctx.close("momentum", got, np.einsum("pq,qx->px", P, table(w["data"], lst, state)[0]), floor=1e-3)


@R.workload(100, 1200)
def shape(ctx):
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_list=24)
    w = W.packet(ctx, lst, state)
    small = tuple(ctx.pick(G.divisors(n)) for n in lst.shape)
    ctx.note(lst=G.describe(lst), small=small)
    with ctx.running("shape"):
        out = wc.convert_wavepacket_to_shape(w, small)
    _flat(ctx, "shape", out)
    ctx.equal("shape_list", out["basis"][0].shape, small)
    # every remaining sample is the state at the same fraction
    f0 = W.labels(lst.shape) / np.array(lst.shape)[:, None]
    f1 = W.list_labels(out["basis"][0]) / np.array(small)[:, None]
    d0, d1 = w["data"].reshape(lst.n, -1), np.asarray(out["data"]).reshape(int(np.prod(small)), -1)
    for i in range(d1.shape[0]):
        diff = f0 - f1[:, i, None]
        j = np.flatnonzero(np.all(np.abs(diff - np.round(diff)) < 1e-9, axis=0))
        ctx.check("shape_sample", len(j) == 1 and np.array_equal(d1[i], d0[j[0]]))
    bad = tuple(n + 1 for n in lst.shape)
    ctx.raises("shape_not_divisible", Exception, wc.convert_wavepacket_to_shape, w, bad)


@R.workload(150, 1800)
def unfurl(ctx):
    lst, state, dx = W.bases(ctx, max_list=8, max_state=12, max_total=80)
    many = ctx.flag(0.4)
    k = ctx.randint(1, 3) if many else 1
    w = W.packets(ctx, k, lst, state) if many else W.packet(ctx, lst, state)
    ctx.note(lst=G.describe(lst), state=G.describe(state), many=many)
    before = w["data"].copy()
    if not many:
        w.pop("eigenvalue")
    with ctx.running("unfurl"):
        out = (we.unfurl_wavepacket_list if many else we.unfurl_wavepacket)(w)
    d = np.asarray(out["data"])
    b = out["basis"][1] if many else out["basis"]
    N = np.array(lst.fundamental_shape)
    ctx.check("unfurl_flat", d.ndim == 1 and d.size == k * b.n)
    ctx.close("unfurl_cell", b.delta_x_stacked, dx * N[:, None])
    if b.fundamental_shape != W.super_shape(lst, state):
        ctx.check("unfurl_shape", False, f"{b.fundamental_shape}")
        raise Skip
    exp = np.array([W.supercell(x, lst, state).sum(axis=0) for x in w["data"].reshape(k, -1)]) / np.sqrt(np.prod(N))
    ctx.close("unfurl", W.on_grid(d, b), exp)
    if many:
        ctx.check("unfurl_list", G.same(out["basis"][0], w["basis"][0][0]))
    ctx.equal("unchanged", w["data"], before)
