"""Hamiltonians built from a potential and a mass."""

import numpy as np
from scipy.constants import hbar

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.hamiltonian_builder import momentum_basis as hb
from surface_potential_analysis.stacked_basis import potential_basis as pb
from surface_potential_analysis.state_vector.eigenstate_calculation import (
    calculate_eigenvectors_hermitian,
)

R = Registry("H01")
RULE = (
    "Random lattices, potentials, storage bases, masses and Bloch fractions; oracle: dense matrices built from "
    "the plane waves of the reciprocal lattice and the values of the potential on the grid. Non-trivial: at "
    "least one compared matrix."
)


def _setup(ctx, ndim=None, kinds=G.POS_KINDS, max_total=36):
    shape = G.random_shape(ctx.rng, ndim, max_total=max_total, hi=6)
    if ctx.flag(0.02):  # a realistic size
        shape = G.random_shape(ctx.rng, ndim, max_total=260, hi=16, lo=3) if ndim != 1 and ctx.flag() else (ctx.randint(130, 260),)
    scale = 10.0 ** ctx.randint(-10, 0)
    dx = G.lattice(ctx.rng, len(shape)) * scale
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=kinds)
    mass = 10.0 ** ctx.rng.uniform(-28, 0)
    if ctx.flag(0.3):
        q = None
    else:
        q = ctx.rng.normal(size=len(shape))
    ctx.note(basis=G.describe(basis), dx=dx, mass=mass, q=q)
    return basis, shape, dx, mass, q


def _kinetic(shape, dx, mass, q):
    lab = np.meshgrid(*(G.freq(n) for n in shape), indexing="ij")
    lab = np.array([x.ravel() for x in lab])
    rec = 2 * np.pi * np.linalg.inv(dx).T
    k = rec.T @ (lab + (0 if q is None else np.asarray(q)[:, None]))
    return hbar**2 * np.sum(k**2, axis=0) / (2 * mass)


def _waves(shape):
    """Rows: the plane waves on the grid."""
    out = np.ones((1, 1), dtype=complex)
    for n in shape:
        out = np.kron(out, np.exp(2j * np.pi * np.outer(G.freq(n), np.arange(n)) / n) / np.sqrt(n))
    return out


def _in_basis(basis, position_matrix):
    s = G.states(basis)
    return s.conj() @ position_matrix @ s.T


def _same(ctx, name, o, basis):
    ctx.check(name, len(list(o["basis"])) == 2 and all(G.same(b, basis) for b in o["basis"]))
    ctx.check(f"{name}_flat", np.asarray(o["data"]).ndim == 1)


@R.workload(200, 2500)
def kinetic(ctx):
    basis, shape, dx, mass, q = _setup(ctx)
    with ctx.running("diagonal"):
        d = hb.hamiltonian_from_mass(basis, mass, q)
    e = _kinetic(shape, dx, mass, q)
    ctx.close("energies", d["data"], e)
    w = _waves(shape)
    for b in d["basis"]:
        ctx.close("momentum_states", G.states(b), w)
    with ctx.running("in_basis"):
        o = hb.hamiltonian_from_mass_in_basis(basis, mass, q)
    T = w.T @ np.diag(e) @ w.conj()
    ctx.close("matrix", o["data"], _in_basis(basis, T).ravel(), scale=np.abs(e).max())
    _same(ctx, "basis", o, basis)
    # the energy only depends on where the momentum is, not on how it is split
    # into a label and a fraction
    shift = ctx.rng.integers(-1, 2, size=len(shape))
    if q is not None:
        with ctx.running("shifted"):
            s = hb.hamiltonian_from_mass(basis, mass, q + shift)
        ctx.close("shifted", s["data"], _kinetic(shape, dx, mass, q + shift))


@R.workload(200, 2500)
def potential(ctx):
    basis, shape, dx, mass, q = _setup(ctx)
    real = ctx.flag(0.7)
    v = ctx.rng.normal(size=basis.n) if real else G.cplx(ctx.rng, basis.n)
    p = {"basis": basis, "data": v * 1e-20}
    keep = p["data"].copy()
    with ctx.running("potential"):
        o = hb.hamiltonian_from_potential(p)
    V = np.diag(G.ref_fundamental(v, basis)) * 1e-20
    ctx.close("matrix", o["data"], _in_basis(basis, V).ravel(), scale=1e-20)
    _same(ctx, "basis", o, basis)
    ctx.equal("input_unchanged", p["data"], keep)


@R.workload(200, 2500)
def total(ctx):
    basis, shape, dx, mass, q = _setup(ctx)
    e = _kinetic(shape, dx, mass, q)
    scale = np.abs(e).max() or 1.0
    full = ctx.rng.normal(size=int(np.prod(shape)))
    v = full @ G.states(basis).conj().T * scale
    p = {"basis": basis, "data": v}
    with ctx.running("total"):
        o = hb.total_surface_hamiltonian(p, mass, q)
    V = np.diag(G.ref_fundamental(v, basis))
    w = _waves(shape)
    T = w.T @ np.diag(e) @ w.conj()
    exp = _in_basis(basis, T + V)
    ctx.close("matrix", o["data"], exp.ravel(), scale=scale)
    _same(ctx, "basis", o, basis)
    if np.allclose(V.imag, 0, atol=1e-12 * scale):
        m = np.asarray(o["data"]).reshape(basis.n, basis.n)
        ctx.close("hermitian", m, m.conj().T, scale=scale)
        with ctx.running("diagonalise"):
            s = calculate_eigenvectors_hermitian(o)
        ctx.close("spectrum", np.asarray(s["eigenvalue"]), np.linalg.eigvalsh((exp + exp.conj().T) / 2), scale=scale)


@R.workload(100, 1200)
def bloch(ctx):
    """The spectrum does not depend on which cell is used to describe the crystal."""
    nd = ctx.randint(1, 2)
    shape = tuple(ctx.randint(2, 6 if nd == 1 else 4) for _ in range(nd))
    m = tuple(ctx.randint(1, 3 if nd == 1 else 2) for _ in range(nd))
    dx = G.lattice(ctx.rng, nd) * 1e-10
    mass = 1e-27
    ctx.note(shape=shape, m=m, dx=dx)
    cell = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=("fundamental_x",))
    big_shape = tuple(a * b for a, b in zip(shape, m, strict=True))
    big = G.tuple_basis(ctx.rng, big_shape, delta_x=dx * np.array(m)[:, None], kinds=("fundamental_x",))
    v = ctx.rng.normal(size=shape) * hbar**2 / (2 * mass) * 1e20
    V = np.tile(v, m)
    # one sample per point of the Brillouin zone of the small cell: exact when
    # every sampled momentum is one of the momenta of the big grid
    if any(a % 2 == 0 and b > 1 for a, b in zip(shape, m, strict=True)):
        m = (1,) * nd
        big_shape, V = shape, v
        big = G.tuple_basis(ctx.rng, big_shape, delta_x=dx, kinds=("fundamental_x",))
    with ctx.running("big"):
        o = hb.total_surface_hamiltonian({"basis": big, "data": V.ravel()}, mass)
    every = np.linalg.eigvalsh(o["data"].reshape(big.n, big.n))
    got = []
    for j in np.ndindex(*m):
        q = np.array([G.freq(a)[i] / a for a, i in zip(m, j, strict=True)])
        if any(a % 2 == 0 for a in m):
            return
        with ctx.running("small"):
            o = hb.total_surface_hamiltonian({"basis": cell, "data": v.ravel()}, mass, q)
        got.append(np.linalg.eigvalsh(o["data"].reshape(cell.n, cell.n)))
    got = np.sort(np.concatenate(got))
    ctx.close("folded_spectrum", got, every, tol=1e-7, scale=np.abs(every).max())


@R.workload(120, 1500)
def potential_basis(ctx):
    n = ctx.randint(2, 12)
    L = ctx.rng.uniform(0.5, 4) * 1e-10
    kind = ctx.pick(("fundamental_x", "fundamental_kx"))
    basis = TupleBasis(G.basis_1d(ctx.rng, n, kind=kind, delta_x=np.array([L])))
    mass = 1e-27 * ctx.rng.uniform(0.5, 4)
    full = ctx.rng.normal(size=n) * hbar**2 / (2 * mass) * 1e21
    v = full @ G.states(basis).conj().T
    take = ctx.randint(1, n)
    q = None if ctx.flag(0.4) else float(ctx.rng.normal())
    ctx.note(basis=G.describe(basis), n=take, q=q)
    config = {"potential": {"basis": basis, "data": v}, "mass": mass, "n": take}
    with ctx.running("eigenstates"):
        s = pb.get_potential_basis_config_eigenstates(config, bloch_fraction=q)
    w = _waves((n,))
    H = w.T @ np.diag(_kinetic((n,), np.array([[L]]), mass, None if q is None else [q])) @ w.conj() + np.diag(full)
    every = np.linalg.eigvalsh((H + H.conj().T) / 2)
    scale = np.abs(every).max()
    ctx.close("lowest", np.real(s["eigenvalue"]), every[:take], scale=scale)
    rows = np.asarray(s["data"]).reshape(take, -1) @ G.states(s["basis"][1])
    ctx.close("eigen_equation", (H @ rows.T).T, rows * every[:take, None], scale=scale)
    with ctx.running("basis"):
        b = pb.get_potential_basis_config_basis(config)
    ctx.check("size", b.n == take and b.fundamental_n == n)
    H0 = w.T @ np.diag(_kinetic((n,), np.array([[L]]), mass, None)) @ w.conj() + np.diag(full)
    every = np.linalg.eigvalsh((H0 + H0.conj().T) / 2)
    with ctx.running("basis"):
        rows = np.asarray(b.__into_fundamental__(np.eye(take, dtype=complex)))
    ctx.close("basis_orthonormal", rows.conj() @ rows.T, np.eye(take))
    ctx.close("basis_diagonal", rows.conj() @ H0 @ rows.T, np.diag(every[:take]), scale=scale)
