"""Harmonic oscillator bases."""

import numpy as np
from scipy.constants import hbar

from mon import gen as G
from mon import rust
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.stacked_basis import sho_basis as sb

R = Registry("H03")
RULE = (
    "Random masses, frequencies, lattice directions, origins and quantum numbers; oracle: the oscillator functions "
    "from their normalised three term recursion and the dense one dimensional Hamiltonian. Non-trivial: at least "
    "one compared array."
)


@R.workload(150, 1500)
def wavefunction(ctx):
    n = ctx.randint(0, 40)
    omega, mass = 10 ** ctx.rng.uniform(10, 14), 10 ** ctx.rng.uniform(-28, -25)
    c = np.sqrt(hbar / (mass * omega))
    z = ctx.rng.uniform(-10, 10, size=ctx.randint(1, 30)) * c
    keep = z.copy()
    ctx.note(n=n, omega=omega, mass=mass)
    with ctx.running("wavefunction"):
        got = sb.calculate_sho_wavefunction(z, omega, mass, n)
    ctx.close("values", got, rust.ref_sho(z, omega, mass, n), scale=c**-0.5, tol=1e-7)
    ctx.equal("input_unchanged", z, keep)


@R.workload(60, 600)
def orthonormal(ctx):
    omega, mass = 10 ** ctx.rng.uniform(10, 14), 10 ** ctx.rng.uniform(-28, -25)
    c = np.sqrt(hbar / (mass * omega))
    n, m = ctx.randint(0, 20), ctx.randint(0, 20)
    z = np.linspace(-16, 16, 1601)
    a, b = (sb.calculate_sho_wavefunction(z * c, omega, mass, i) * np.sqrt(c) for i in (n, m))
    ctx.note(n=n, m=m)
    ctx.close("orthonormal", np.sum(a * b) * (z[1] - z[0]), float(n == m), scale=1.0)


def _axis(ctx):
    d = ctx.rng.normal(size=3)
    how = ctx.randint(0, 3)
    if how < 3:
        d = np.eye(3)[how]
    d = d / np.linalg.norm(d)
    if ctx.flag(0.2):
        d = -d
    L = ctx.rng.uniform(0.5, 4) * 1e-10
    if ctx.flag(0.1) and how < 3:
        # a lattice vector given as integers
        L = float(ctx.randint(1, 3))
        s = 1 if d.sum() > 0 else -1
        return FundamentalPositionBasis((s * L * np.eye(3)[how]).astype(int), ctx.randint(2, 12)), d, L
    kind = ctx.pick(("fundamental_x", "fundamental_x", "fundamental_kx", "transformed_x", "truncated_x"))
    return G.basis_1d(ctx.rng, ctx.randint(2, 12), kind=kind, delta_x=d * L), d, L


@R.workload(120, 1500)
def distances(ctx):
    b, d, L = _axis(ctx)
    origin = ctx.rng.normal(size=3) * L
    ctx.note(basis=G.describe(b), origin=origin)
    with ctx.running("distances"):
        x = sb.calculate_x_distances(b, origin)
    exp = L * np.arange(b.fundamental_n) / b.fundamental_n + d @ origin
    ctx.close("along_axis", x, exp, scale=L)
    mass, omega, take = 1e-27, 1e13, ctx.randint(1, b.fundamental_n)
    config = {"mass": mass, "sho_omega": omega, "x_origin": origin}
    with ctx.running("config"):
        p = sb.get_sho_potential_basis_config(b, config, take)
    pb = p["potential"]["basis"]
    ctx.close("potential", p["potential"]["data"], 0.5 * mass * omega**2 * exp**2)
    ctx.check("config", p["n"] == take and p["mass"] == mass and pb.shape == (b.fundamental_n,))
    ctx.close("length", np.linalg.norm(pb[0].delta_x), L)
    ctx.close("length_is_positive", np.ravel(pb[0].delta_x), [L])
    ctx.close("states", G.states(pb), np.eye(b.fundamental_n))
    ctx.equal("origin_unchanged", config["x_origin"], origin)


@R.workload(100, 1200)
def exact(ctx):
    """The states found by diagonalisation."""
    b, d, L = _axis(ctx)
    mass, omega, take = 1e-27, 10 ** ctx.rng.uniform(12, 14), ctx.randint(1, b.fundamental_n)
    origin = -d * L * ctx.rng.uniform(0.2, 0.8)
    config = {"mass": mass, "sho_omega": omega, "x_origin": origin}
    ctx.note(basis=G.describe(b), take=take, omega=omega)
    with ctx.running("basis"):
        s = sb.sho_basis_3d_from_config(b, config, take)
    N = b.fundamental_n
    w = np.exp(2j * np.pi * np.outer(G.freq(N), np.arange(N)) / N) / np.sqrt(N)
    e = hbar**2 * (2 * np.pi * G.freq(N) / L) ** 2 / (2 * mass)
    x = L * np.arange(N) / N + d @ origin
    H = w.T @ np.diag(e) @ w.conj() + np.diag(0.5 * mass * omega**2 * x**2)
    every = np.linalg.eigvalsh((H + H.conj().T) / 2)[:take]
    rows = G.states(s)
    ctx.check("size", s.n == take and rows.shape == (take, N))
    ctx.close("orthonormal", rows.conj() @ rows.T, np.eye(take))
    ctx.close("diagonal", rows.conj() @ H @ rows.T, np.diag(every), scale=np.abs(H).max())


@R.workload(100, 1200)
def infinite(ctx):
    b, d, L = _axis(ctx)
    b = FundamentalPositionBasis(d * L, b.n)
    mass, omega, take = 1e-27, 10 ** ctx.rng.uniform(12, 14), ctx.randint(1, 12)
    origin = -d * L * ctx.rng.uniform(0.2, 0.8) + np.cross(d, ctx.rng.normal(size=3)) * L
    config = {"mass": mass, "sho_omega": omega, "x_origin": origin}
    ctx.note(basis=G.describe(b), take=take, omega=omega, origin=origin)
    with ctx.running("basis"):
        s = sb.infinate_sho_basis_3d_from_config(b, config, n=take)
    x = L * np.arange(b.n) / b.n + d @ origin
    exp = [rust.ref_sho(x, omega, mass, n) * np.sqrt(L / b.n) for n in range(take)]
    ctx.check("size", s.n == take)
    ctx.close("vectors", G.states(s), np.array(exp), scale=np.sqrt(L / b.n) * (mass * omega / hbar) ** 0.25, tol=1e-7)
    ctx.check("flat", np.asarray(s.vectors["data"]).ndim == 1)
    # on a grid which is wide and fine enough the states are orthonormal
    fine = FundamentalPositionBasis(d * 24, 240)
    c = hbar  # mass = omega = 1: unit length sqrt(hbar); scale the cell instead
    unit = {"mass": c, "sho_omega": 1.0, "x_origin": -12 * d}
    with ctx.running("fine"):
        f = sb.infinate_sho_basis_3d_from_config(fine, unit, n=take)
    rows = G.states(f)
    ctx.close("orthonormal", rows.conj() @ rows.T, np.eye(take))
    # converting to it and back reproduces a state of the span
    v = G.cplx(ctx.rng, take)
    with ctx.running("convert"):
        x = f.__into_fundamental__(v)
        back = f.__from_fundamental__(x)
    ctx.close("into", x, v @ rows)
    ctx.close("back", back, v)
    t = TupleBasis(f)
    ctx.check("stacked", t.n == take)
