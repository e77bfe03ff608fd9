"""Hamiltonians in a basis which is explicit in z, and the Rust generator behind them."""

import numpy as np
from scipy.constants import hbar

from mon import gen as G
from mon import rust
from mon.core import Registry, Skip
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis

R = Registry("H02")
RULE = (
    "Random 3 dimensional cells, potentials, truncations, Bloch fractions and z bases; oracle: the Hamiltonian as "
    "a dense matrix on the position grid projected onto the states of the returned basis, and the harmonic "
    "oscillator functions from their three term recursion. The Rust extension is compiled with overflow checks "
    "and debug assertions. Non-trivial: at least one compared matrix."
)
ASSUMPTIONS = ["pyo3 and num_complex are replaced by stand-ins with the same semantics"]


def _setup():
    rust.build()
    rust.install()


R.setup = _setup


def _rust():
    if rust.STATE["lib"] is None:
        raise Skip


@R.workload(60, 600)
def hermite(ctx):
    _rust()
    n = ctx.randint(0, 12)
    x = ctx.rng.normal(size=4) * 2
    got = [rust.hermite(v, n) for v in x]
    size = np.sum([abs(c) for c in np.polynomial.hermite.herm2poly([0] * n + [1])] * np.abs(x[:, None]) ** np.arange(n + 1), axis=1)
    ctx.close("hermite", np.array(got) / size, rust.ref_hermite(x, n) / size, scale=1.0)


@R.workload(60, 600)
def oscillator(ctx):
    _rust()
    n, omega, mass = ctx.randint(0, 12), 10 ** ctx.rng.uniform(10, 14), 10 ** ctx.rng.uniform(-28, -25)
    c = np.sqrt(hbar / (mass * omega))
    z = ctx.rng.uniform(-6, 6, size=ctx.randint(1, 12)) * c
    ctx.note(n=n, omega=omega, mass=mass, z=z)
    ctx.close("wavefunction", rust.sho(z, omega, mass, n), rust.ref_sho(z, omega, mass, n), scale=c**-0.5, tol=1e-6)


@R.workload(60, 600)
def generator(ctx):
    _rust()
    res = (ctx.randint(1, 5), ctx.randint(1, 4), ctx.randint(1, 3))
    shape = (ctx.randint(1, 8), ctx.randint(1, 8), ctx.randint(1, 6))
    ft = G.cplx(ctx.rng, *shape)
    ctx.note(resolution=res, shape=shape)
    z = G.cplx(ctx.rng, res[2], shape[2])
    ctx.close("explicit", rust.energies2(ft, z, res), rust.ref_energies2(ft, z, res))
    omega, mass = 1e13, 1e-27
    c = np.sqrt(hbar / (mass * omega))
    dz, off = c * ctx.rng.uniform(0.2, 1), c * ctx.rng.normal()
    ctx.close(
        "oscillator",
        rust.energies(ft, res, dz, mass, omega, off),
        rust.ref_energies(ft, res, dz, mass, omega, off),
        scale=10.0,
    )


@R.workload(60, 600)
def wavefunction(ctx):
    _rust()
    res = (ctx.randint(1, 5), ctx.randint(1, 4), ctx.randint(1, 3))
    omega, mass = 1e13, 1e-27
    c = np.sqrt(hbar / (mass * omega))
    dx = G.lattice(ctx.rng, 2, si=False) * c
    kx, ky = ctx.rng.normal(size=2) / c
    vec = G.cplx(ctx.rng, int(np.prod(res)))
    pts = ctx.rng.uniform(-4, 4, size=(ctx.randint(1, 6), 3)) * c
    ctx.note(resolution=res, dx=dx)
    got = rust.wavefunction(res, dx[0], dx[1], mass, omega, kx, ky, vec, pts)
    rec = 2 * np.pi * np.linalg.inv(dx).T
    exp = np.zeros(len(pts), dtype=complex)
    for v, (i, j, n) in zip(vec, np.ndindex(*res), strict=True):
        k = G.freq(res[0])[i] * rec[0] + G.freq(res[1])[j] * rec[1] + [kx, ky]
        exp += v * np.exp(1j * pts[:, :2] @ k) * rust.ref_sho(pts[:, 2], omega, mass, n)
    ctx.close("superposition", got, exp, scale=c**-0.5 * np.abs(vec).sum())


def _cell(ctx):
    """In plane vectors without z component, third vector along z."""
    while True:
        res = (ctx.randint(1, 4), ctx.randint(1, 4))
        shape = tuple(ctx.randint(max(1, 2 * (r - 1)), 2 * r + 1) for r in res)
        nz = ctx.randint(2, 7)
        if np.prod(shape) * nz <= 150:
            break
    dx = np.zeros((3, 3))
    dx[:2, :2] = G.lattice(ctx.rng, 2, si=False)
    dx[2, 2] = ctx.rng.uniform(0.5, 3)
    dx *= 1e-10
    basis = TupleBasis(*(FundamentalPositionBasis(d, n) for d, n in zip(dx, (*shape, nz), strict=True)))
    return res, (*shape, nz), dx, basis


def _wave(n):
    return np.exp(2j * np.pi * np.outer(G.freq(n), np.arange(n)) / n) / np.sqrt(n)


def _kinetic_energies(labels, dx, mass, q):
    rec = 2 * np.pi * np.linalg.inv(dx).T
    lab = np.array([x.ravel() for x in np.meshgrid(*labels, indexing="ij")])
    k = rec.T @ (lab + np.asarray(q)[:, None])
    return hbar**2 * np.sum(k**2, axis=0) / (2 * mass)


@R.workload(80, 900)
def explicit_z(ctx):
    from surface_potential_analysis.hamiltonian_builder import explicit_z_basis as ez

    res, shape, dx, basis = _cell(ctx)
    mass = 1e-27 * ctx.rng.uniform(0.5, 4)
    e0 = hbar**2 / (2 * mass) * 1e21
    v = ctx.rng.normal(size=shape) * e0
    nz = ctx.randint(1, shape[2])
    vz = v[0, 0] if ctx.flag() else ctx.rng.normal(size=shape[2]) * e0
    q = ctx.rng.normal(size=3) if ctx.flag(0.7) else np.zeros(3)
    ctx.note(resolution=res, shape=shape, dx=dx, n=nz, q=q)
    config = {
        "potential": {"basis": TupleBasis(FundamentalPositionBasis(dx[2][2:], shape[2])), "data": vz.astype(complex)},
        "mass": mass,
        "n": nz,
    }
    p = {"basis": basis, "data": v.ravel().astype(complex)}
    fn = ez.total_surface_hamiltonian
    with ctx.running("hamiltonian"):
        o = fn(p, q, res, config)
    b = o["basis"][0]
    ctx.check("size", b.shape == (*res, nz) and G.same(b, o["basis"][1]))
    H = _projected(ctx, o, b, v, dx, mass, q)
    # the z states are the lowest of the one dimensional hamiltonian
    w = _wave(shape[2])
    kz = 2 * np.pi * (G.freq(shape[2]) + q[2]) / dx[2, 2]
    hz = w.T @ np.diag(hbar**2 * kz**2 / (2 * mass)) @ w.conj() + np.diag(vz)
    every = np.linalg.eigvalsh((hz + hz.conj().T) / 2)[:nz]
    zs = G.states(b[2])
    ctx.close("z_states", zs.conj() @ hz @ zs.T, np.diag(every), scale=np.abs(every).max() + e0)
    with ctx.running("as_fundamental"):
        f = ez.total_surface_hamiltonian_as_fundamental(p, q, res, config)
    ctx.close("as_fundamental", np.linalg.eigvalsh(np.asarray(f["data"]).reshape(b.n, -1)), np.linalg.eigvalsh(H), scale=np.abs(H).max())
    ctx.check("as_fundamental_basis", all(x.n == r and x.fundamental_n == r for x, r in zip(list(f["basis"][0])[:2], res, strict=True)))
    too = (shape[0] // 2 + 2, res[1]) if ctx.flag() else (res[0], shape[1] // 2 + 2)
    ctx.raises("too_small", ez.PotentialSizeError, fn, p, q, too, config)


def _projected(ctx, o, b, v, dx, mass, q):
    shape = v.shape
    e = _kinetic_energies([G.freq(n) for n in shape], dx, mass, q)
    w = np.kron(np.kron(_wave(shape[0]), _wave(shape[1])), _wave(shape[2]))
    H = w.T @ np.diag(e) @ w.conj() + np.diag(v.ravel())
    s = np.kron(
        np.kron(_trunc(shape[0], b.shape[0]), _trunc(shape[1], b.shape[1])), G.states(b[2])
    )
    # the states of the basis itself
    ctx.close("states", G.states(b), s)
    exp = s.conj() @ H @ s.T
    ctx.close("matrix", o["data"], exp.ravel(), scale=np.abs(exp).max())
    return exp


def _trunc(N, n):
    return np.exp(2j * np.pi * np.outer(G.freq(n), np.arange(N)) / N) / np.sqrt(N)


@R.workload(80, 900)
def sho_subtracted(ctx):
    from surface_potential_analysis.hamiltonian_builder import sho_subtracted_basis as ss

    res, shape, dx, basis = _cell(ctx)
    mass, omega = 1e-27 * ctx.rng.uniform(0.5, 4), 1e13 * ctx.rng.uniform(0.3, 3)
    nz = ctx.randint(1, 5)
    origin = np.array([ctx.rng.normal(), ctx.rng.normal(), ctx.rng.normal()]) * 1e-10
    e0 = hbar**2 / (2 * mass) * 1e21
    v = ctx.rng.normal(size=shape) * e0
    q = ctx.rng.normal(size=3) if ctx.flag(0.7) else np.zeros(3)
    q[2] = 0
    ctx.note(resolution=(*res, nz), shape=shape, dx=dx, q=q, origin=origin)
    config = {"mass": mass, "sho_omega": omega, "x_origin": origin}
    p = {"basis": basis, "data": v.ravel().astype(complex)}
    with ctx.running("hamiltonian"):
        o = ss.total_surface_hamiltonian(p, config, q, (*res, nz))
    b = o["basis"][0]
    ctx.check("size", b.shape == (*res, nz) and G.same(b, o["basis"][1]))
    z = dx[2, 2] * np.arange(shape[2]) / shape[2] + origin[2]
    dz = dx[2, 2] / shape[2]
    w = np.array([rust.ref_sho(z, omega, mass, n) for n in range(nz)])
    ctx.close("z_states", G.states(b[2]), w * np.sqrt(dz), scale=np.sqrt(dz) * (mass * omega / hbar) ** 0.25, tol=1e-6)
    sub = v - 0.5 * mass * omega**2 * z**2
    T = _kinetic_energies([G.freq(r) for r in res], dx[:2, :2], mass, q[:2])
    E = np.add.outer(T, hbar * omega * (np.arange(nz) + 0.5)).ravel()
    exp = np.diag(E) + rust.ref_coupled(np.fft.ifft2(sub, axes=(0, 1)), w * np.sqrt(dz), (*res, nz))
    ctx.close("matrix", o["data"], exp.ravel(), scale=np.abs(exp).max(), tol=1e-6)
    m = np.asarray(o["data"]).reshape(b.n, b.n)
    ctx.close("hermitian", m, m.conj().T, scale=np.abs(exp).max())
    too = (shape[0] // 2 + 2, res[1]) if ctx.flag() else (res[0], shape[1] // 2 + 2)
    ctx.raises("too_small", AssertionError, ss.total_surface_hamiltonian, p, config, q, (*too, nz))
