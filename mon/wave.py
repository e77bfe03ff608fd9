"""Independent model of Bloch wavepackets: every sample is a state of the supercell."""

import numpy as np

from mon import gen as G
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalTransformedBasis, TruncatedBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis

LIST_KINDS = ("fundamental_k", "fundamental_kx", "transformed", "transformed_x", "evenly_k")
FULL_LIST_KINDS = ("fundamental_k", "fundamental_kx")
STATE_KINDS = ("fundamental_x", "fundamental_kx", "transformed_x", "truncated_x")
FULL_STATE_KINDS = ("fundamental_x", "fundamental_kx")


def plane(n):
    """Rows: plane waves with the labels of G.freq(n)."""
    return np.exp(2j * np.pi * np.outer(G.freq(n), np.arange(n)) / n) / np.sqrt(n)


def planes(shape):
    out = np.ones((1, 1), dtype=complex)
    for n in shape:
        out = np.kron(out, plane(n))
    return out


def labels(shape):
    """Integer labels (axis, flat) in storage order."""
    return np.array([x.ravel() for x in np.meshgrid(*(G.freq(n) for n in shape), indexing="ij")]).reshape(len(shape), -1)


def list_labels(basis):
    """Labels of the samples of a list basis made of plane waves."""
    S = G.states(basis) @ planes(basis.fundamental_shape).conj().T
    which = np.argmax(np.abs(S), axis=1)
    return labels(basis.fundamental_shape)[:, which]


def fundamental_list(data, basis):
    """Samples in the fundamental list: zero where there is no sample."""
    S = G.states(basis) @ planes(basis.fundamental_shape).conj().T
    return np.tensordot(S.T, data, axes=(1, 0))


def supercell(data, list_basis, state_basis):
    """Row q: the state of the fundamental sample q on the grid of the supercell."""
    N, n = list_basis.fundamental_shape, state_basis.fundamental_shape
    F = fundamental_list(np.asarray(data).reshape(list_basis.n, state_basis.n), list_basis)
    K = F @ (G.states(state_basis) @ planes(n).conj().T)
    lq, lk = labels(N), labels(n)
    big = tuple(a * b for a, b in zip(N, n, strict=True))
    M = np.array(big)[:, None]
    pos = np.array([x.ravel() for x in np.meshgrid(*(np.arange(s) for s in big), indexing="ij")]).reshape(len(big), -1)
    # phase of the plane wave with label q + N k at each point
    out = np.zeros((len(F), pos.shape[1]), dtype=complex)
    for i in range(len(F)):
        lab = lq[:, i, None] + np.array(N)[:, None] * lk
        waves = np.exp(2j * np.pi * np.einsum("ak,ax->kx", lab / M, pos)) / np.sqrt(pos.shape[1])
        out[i] = K[i] @ waves
    return out


def super_shape(list_basis, state_basis):
    return tuple(a * b for a, b in zip(list_basis.fundamental_shape, state_basis.fundamental_shape, strict=True))


def bases(ctx, nd=None, *, list_kinds=LIST_KINDS, state_kinds=STATE_KINDS, max_list=8, max_state=12, max_total=None):
    nd = ctx.randint(1, 3) if nd is None else nd
    while True:
        ls = G.random_shape(ctx.rng, nd, max_total=max_list, hi=6)
        ss = G.random_shape(ctx.rng, nd, max_total=max_state, hi=6)
        if max_total is None or np.prod(ls) * np.prod(ss) <= max_total:
            break
    dx = G.lattice(ctx.rng, nd)
    state = G.tuple_basis(ctx.rng, ss, delta_x=dx, kinds=state_kinds)
    # the samples of a lattice of cells
    lst = TupleBasis(*(G.basis_1d(ctx.rng, n, kinds=list_kinds, delta_x=d * n) for n, d in zip(ls, dx, strict=True)))
    return lst, state, dx


def packet(ctx, lst, state, *, normal=False):
    d = G.cplx(ctx.rng, lst.n, state.n)
    if normal:
        d /= np.linalg.norm(d, axis=1)[:, None]
    return {"basis": TupleBasis(lst, state), "data": d.ravel(), "eigenvalue": ctx.rng.normal(size=lst.n) + 0j}


def bands(ctx, n):
    """A basis of n bands or states, which need not be the first of as many."""
    kind = str(ctx.rng.choice(["fundamental", "fundamental", "tuple", "truncated", "transformed"]))
    if kind == "tuple":
        return TupleBasis(FundamentalBasis(n))
    if kind == "truncated":
        return TruncatedBasis(n, n + ctx.randint(1, 3))
    if kind == "transformed":
        return FundamentalTransformedBasis(n)
    return FundamentalBasis(n)


def packets(ctx, n_bands, lst, state, *, orthonormal=False):
    if orthonormal:
        d = np.array([G.unitary(ctx.rng, state.n)[:n_bands] for _ in range(lst.n)]).transpose(1, 0, 2)
    else:
        d = G.cplx(ctx.rng, n_bands, lst.n, state.n)
    e = ctx.rng.normal(size=(n_bands, lst.n)) + 0j
    b = TupleBasis(TupleBasis(bands(ctx, n_bands), lst), state)
    return {"basis": b, "data": np.ascontiguousarray(d).ravel(), "eigenvalue": e.ravel()}


def on_grid(data, basis):
    """States (rows) on the fundamental grid."""
    return np.asarray(data).reshape(-1, basis.n) @ G.states(basis)
