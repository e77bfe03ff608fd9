"""Time evolution of a closed system."""

import numpy as np
import scipy.linalg
from scipy.constants import hbar

from mon import gen as G
from mon import wave as W
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import (
    EvenlySpacedTimeBasis,
    ExplicitTimeBasis,
    FundamentalTimeBasis,
)
from surface_potential_analysis.dynamics.schrodinger import solve as ds

R = Registry("D01")
RULE = (
    "Random Hermitian Hamiltonians, states, bases and times; oracle: the matrix exponential, and arithmetic for the "
    "points in time. Non-trivial: at least one compared state or time."
)


def _times(ctx, *, offset=True, max_t=6.0):
    kind = ctx.pick(["fundamental", "evenly", "explicit"])
    n = ctx.randint(1, 6)
    if kind == "fundamental":
        T = float(ctx.rng.uniform(0.1, max_t))
        return FundamentalTimeBasis(n, T), np.arange(n) * T / n
    if kind == "evenly":
        T, step = float(ctx.rng.uniform(0.1, max_t)), ctx.randint(1, 5)
        off = ctx.randint(0, 2 * step) if offset else 0
        return EvenlySpacedTimeBasis(n, step, off, T), (off + step * np.arange(n)) * T / (n * step)
    t = np.sort(ctx.rng.uniform(0, max_t, size=n))
    if not offset:
        t[0] = 0
    return ExplicitTimeBasis(t.copy()), t


@R.workload(150, 2000)
def times(ctx):
    b, t = _times(ctx)
    ctx.note(kind=type(b).__name__, n=len(t))
    ctx.close("times", b.times, t, floor=1.0)
    ctx.check("size", b.n == len(t))
    if isinstance(b, EvenlySpacedTimeBasis):
        T = b.delta_t
        ctx.close("fundamental_dt", b.fundamental_dt, T / b.fundamental_n)
        ctx.close("dt", b.dt, T / b.n)
        ctx.close("fundamental_times", b.fundamental_times, np.arange(b.fundamental_n) * T / b.fundamental_n, floor=1.0)
        ctx.check("fundamental_size", b.fundamental_n == b.n * b.step)
        # the points in time are points of the fundamental basis, up to repetition of the range
        i = np.rint(b.times / b.fundamental_dt).astype(int)
        ctx.close("on_fundamental", b.times, i * b.fundamental_dt, floor=1.0)
        v = G.cplx(ctx.rng, b.n)
        full = b.__into_fundamental__(v)
        exp = np.zeros(b.fundamental_n, dtype=complex)
        exp[i % b.fundamental_n] = v
        ctx.close("into_fundamental", full, exp)
        ctx.close("from_fundamental", b.__from_fundamental__(full), v)
    else:
        ctx.close("fundamental_times", b.fundamental_times, t, floor=1.0)


def _system(ctx):
    nd = ctx.randint(1, 2)
    shape = G.random_shape(ctx.rng, nd, max_total=8, hi=6)
    dx = G.lattice(ctx.rng, nd)
    full = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.FULL_STATE_KINDS)
    other = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.FULL_STATE_KINDS)
    H = G.hermitian(ctx.rng, full.n)
    if ctx.flag(0.2):
        # degenerate levels
        U = G.unitary(ctx.rng, full.n)
        e = ctx.rng.integers(-1, 2, size=full.n).astype(float)
        H = (U * e) @ U.conj().T
        H = (H + H.conj().T) / 2
    psi = G.cplx(ctx.rng, full.n)
    psi *= ctx.pick([1.0, 1.0, 0.2, 3.0]) / np.linalg.norm(psi)
    if ctx.flag(0.5):
        other = full
    ctx.note(basis=G.describe(full), state=G.describe(other))
    # the state on the grid, and in the basis of the Hamiltonian
    start = G.states(full).conj() @ (psi @ G.states(other))
    return full, other, H, psi, start


def _check_list(ctx, name, out, times, basis, exp, tol=1e-8):
    d = np.asarray(out["data"])
    ctx.check(f"{name}_flat", d.ndim == 1 and d.size == out["basis"].n, f"{d.shape}")
    ctx.check(f"{name}_basis", G.same(out["basis"][1], basis) and out["basis"][0].n == times.n)
    ctx.close(f"{name}_times", out["basis"][0].times, times.times, floor=1.0)
    ctx.close(name, d.reshape(exp.shape), exp, tol=tol)


@R.workload(120, 1500)
def decomposition(ctx):
    full, other, H, psi, start = _system(ctx)
    b, t = _times(ctx)
    exp = np.array([scipy.linalg.expm(-1j * H * x) @ start for x in t])
    h = {"basis": TupleBasis(full, full), "data": (H * hbar).ravel()}
    s = {"basis": other, "data": psi.copy()}
    before = h["data"].copy()
    with ctx.running("decomposition"):
        out = ds.solve_schrodinger_equation_decomposition(s, b, h)
    _check_list(ctx, "decomposition", out, b, full, exp)
    ctx.equal("unchanged", h["data"], before)
    ctx.equal("unchanged_state", s["data"], psi)


@R.workload(120, 1500)
def diagonal(ctx):
    full, other, H, psi, start = _system(ctx)
    b, t = _times(ctx)
    e = ctx.rng.normal(size=full.n)
    exp = np.exp(-1j * e[None] * t[:, None]) * start[None]
    h = {"basis": TupleBasis(full, full), "data": e * hbar + 0j}
    with ctx.running("diagonal"):
        out = ds.solve_schrodinger_equation_diagonal({"basis": other, "data": psi.copy()}, b, h)
    _check_list(ctx, "diagonal", out, b, full, exp)


@R.workload(80, 1000)
def coefficients(ctx):
    full, other, H, psi, start = _system(ctx)
    U = G.unitary(ctx.rng, full.n)
    k = ctx.randint(1, full.n)
    e = {"basis": TupleBasis(FundamentalBasis(k), full), "data": U[:k].ravel(), "eigenvalue": ctx.rng.normal(size=k)}
    with ctx.running("coefficients"):
        c = ds.get_state_vector_decomposition({"basis": full, "data": start.copy()}, e)
    ctx.close("coefficients", c["data"], U[:k].conj() @ start, floor=1e-3)


@R.workload(40, 400)
def qutip(ctx):
    full, other, H, psi, start = _system(ctx)
    H = H / max(1.0, np.abs(np.linalg.eigvalsh(H)).max() / 3)
    b, t = _times(ctx, max_t=3.0)
    if len(t) < 2:
        b = FundamentalTimeBasis(2, 1.5)
        t = b.times
    exp = np.array([scipy.linalg.expm(-1j * H * x) @ start for x in t])
    h = {"basis": TupleBasis(full, full), "data": (H * hbar).ravel()}
    with ctx.running("qutip"):
        out = ds.solve_schrodinger_equation({"basis": other, "data": psi.copy()}, b, h)
    _check_list(ctx, "qutip", out, b, full, exp, tol=1e-3)
