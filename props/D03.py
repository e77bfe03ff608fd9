"""Incoherent hopping between sites."""

import itertools

import numpy as np
import scipy.linalg

from mon import gen as G
from mon import wave as W
from mon.core import Registry, Skip
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.dynamics import isf as disf
from surface_potential_analysis.dynamics.incoherent_propagation import eigenstates as te
from surface_potential_analysis.dynamics.incoherent_propagation import isf as ti
from surface_potential_analysis.dynamics.incoherent_propagation import tunnelling_matrix as tm
from surface_potential_analysis.dynamics.tunnelling_basis import (
    TunnellingSimulationBandsBasis,
    get_basis_from_shape,
)
from surface_potential_analysis.dynamics.util import get_hop_shift
from surface_potential_analysis.wavepacket.localization._tight_binding import get_wavepacket_two_points

R = Registry("D03")
RULE = (
    "Random rates between sites of random supercells, bands, locations and times; oracle: a classical master equation "
    "built with loops over sites and its matrix exponential, and sums over images for the ISF. Non-trivial: at least "
    "one rate, probability or ISF was compared."
)

HOPS = list(itertools.product((-1, 0, 1), repeat=2))


def _bands(ctx, nb):
    cell = G.lattice(ctx.rng, 2)
    loc = ctx.rng.uniform(-0.5, 1, size=(2, nb))
    return TunnellingSimulationBandsBasis(loc, (cell[0], cell[1])), loc, cell


def _rates(ctx, nb):
    """rates[n0, n1, (shift mod 3)]."""
    r = ctx.rng.uniform(0.1, 2, size=(nb, nb, 3, 3))
    if ctx.flag(0.3):
        r *= ctx.rng.uniform(size=r.shape) < 0.8
    return r


def _a(rates, shape, nb):
    """A[i, j]: rate from site i to site j."""
    A = np.zeros((*shape, nb, *shape, nb))
    for x in range(shape[0]):
        for y in range(shape[1]):
            for a, b in HOPS:
                A[x, y, :, (x + a) % shape[0], (y + b) % shape[1], :] += rates[:, :, a, b]
    n = shape[0] * shape[1] * nb
    return A.reshape(n, n)


def _m(A):
    B = A - np.diag(np.diag(A))
    return B.T - np.diag(B.sum(axis=1))


def _jump(rates, nb):
    j = np.zeros((nb, nb, 9), dtype=complex)
    for hop in range(9):
        s = get_hop_shift(hop, 2)
        j[:, :, hop] = rates[:, :, int(s[0]), int(s[1])]
    return j


def _flat(ctx, name, x, n):
    d = np.asarray(x["data"])
    ctx.check(f"{name}_flat", d.ndim == 1 and d.size == n, f"{d.shape} for {n}")


def _check_basis(ctx, name, b, shape, nb, loc, cell):
    ctx.check(f"{name}_shape", b.shape == (*shape, nb), f"{b.shape}")
    ctx.close(f"{name}_locations", b[2].locations, loc[:, :nb], floor=1e-3)
    ctx.close(f"{name}_cell", np.array(b[2].unit_cell), cell, floor=1e-3)


@R.workload(80, 1000)
def matrices(ctx):
    nb = ctx.randint(1, 3)
    bands, loc, cell = _bands(ctx, nb)
    rates = _rates(ctx, nb)
    shape = (ctx.randint(3, 5), ctx.randint(3, 5))
    ctx.note(shape=shape, nb=nb)
    with ctx.running("jump_function"):
        j = tm.get_jump_matrix_from_function(
            bands, lambda a, b, d: rates[a, b, int(get_hop_shift(d, 2)[0]), int(get_hop_shift(d, 2)[1])]
        )
    ctx.close("jump_function", j["data"], _jump(rates, nb).ravel(), floor=1e-3)
    with ctx.running("a_matrix"):
        a = tm.get_a_matrix_from_jump_matrix(j, shape)
    A = _a(rates, shape, nb)
    n = len(A)
    _flat(ctx, "a_matrix", a, n * n)
    _check_basis(ctx, "a_matrix", a["basis"][0], shape, nb, loc, cell)
    _check_basis(ctx, "a_matrix_1", a["basis"][1], shape, nb, loc, cell)
    ctx.close("a_matrix", a["data"].reshape(n, n), A, floor=1e-3)
    with ctx.running("jump_back"):
        back = tm.get_jump_matrix_from_a_matrix(a)
    ctx.close("jump_back", back["data"], _jump(rates, nb).ravel(), floor=1e-3)
    # another supercell, with less bands
    k = ctx.randint(1, nb)
    other = (ctx.randint(1, 5), ctx.randint(1, 5))
    with ctx.running("resample"):
        res = tm.resample_tunnelling_a_matrix(a, other, k)
    exp = _a(rates[:k, :k], other, k)
    _check_basis(ctx, "resample", res["basis"][0], other, k, loc, cell)
    _flat(ctx, "resample", res, exp.size)
    ctx.close("resample", res["data"], exp.ravel(), floor=1e-3)
    with ctx.running("jump_bands"):
        few = tm.get_a_matrix_from_jump_matrix(j, other, n_bands=k)
    ctx.close("jump_bands", few["data"], exp.ravel(), floor=1e-3)
    with ctx.running("reduced"):
        red = tm.get_a_matrix_reduced_bands(a, k)
    exp = _a(rates[:k, :k], shape, k)
    _check_basis(ctx, "reduced", red["basis"][0], shape, k, loc, cell)
    _flat(ctx, "reduced", red, exp.size)
    ctx.close("reduced", red["data"], exp.ravel(), floor=1e-3)


def _generic(ctx, nb=None):
    """A system, with translation symmetry or not."""
    nb = nb or ctx.randint(1, 3)
    bands, loc, cell = _bands(ctx, nb)
    shape = (ctx.randint(1, 4), ctx.randint(1, 4))
    basis = get_basis_from_shape(shape, nb, bands)
    n = basis.n
    if n < 2:
        raise Skip
    A = _a(_rates(ctx, nb) + 0.05, shape, nb) if ctx.flag(0.4) else ctx.rng.uniform(0.02, 1.5, size=(n, n))
    return shape, nb, basis, A, loc, cell


@R.workload(80, 1000)
def m_matrix(ctx):
    shape, nb, basis, A, loc, cell = _generic(ctx)
    n = len(A)
    a = {"basis": TupleBasis(basis, basis), "data": A.ravel() + 0j}
    ctx.note(shape=shape, nb=nb)
    with ctx.running("m_matrix"):
        m = tm.get_tunnelling_m_matrix(a)
    ctx.equal("m_matrix_unchanged", a["data"], A.ravel())
    _flat(ctx, "m_matrix", m, n * n)
    ctx.close("m_matrix", m["data"], _m(A).ravel(), floor=1e-3)
    ctx.check("m_matrix_basis", G.same(m["basis"], a["basis"]))
    ctx.close("m_matrix_conserves", m["data"].reshape(n, n).sum(axis=0), np.zeros(n), floor=1.0)
    k = ctx.randint(1, nb)
    with ctx.running("m_reduced"):
        m = tm.get_tunnelling_m_matrix(a, k)
    ctx.equal("m_reduced_unchanged", a["data"], A.ravel())
    keep = np.arange(n).reshape(-1, nb)[:, :k].ravel()
    exp = _m(A[np.ix_(keep, keep)])
    _flat(ctx, "m_reduced", m, exp.size)
    _check_basis(ctx, "m_reduced", m["basis"][0], shape, k, loc, cell)
    ctx.close("m_reduced", m["data"], exp.ravel(), floor=1e-3)


def _regular(ctx, M):
    """Skip matrices whose eigenvectors are too close to each other."""
    _, v = np.linalg.eig(M)
    if np.linalg.cond(v) > 1e4:
        raise Skip


def _initial(ctx, basis):
    kind = ctx.pick(["flat", "stacked", "mixed"])
    if kind == "mixed":
        p = ctx.rng.uniform(size=basis.n)
        p /= p.sum()
        return {"basis": TupleBasis(basis, basis), "data": p + 0j}, p
    idx = ctx.randint(0, basis.n - 1)
    p = np.zeros(basis.n)
    p[idx] = 1
    arg = idx if kind == "flat" else tuple(int(x) for x in np.unravel_index(idx, basis.shape))
    args = () if idx == 0 and ctx.flag() else (arg,)
    with ctx.running("pure"):
        out = tm.get_initial_pure_density_matrix_for_basis(basis, *args)
    ctx.close("pure", out["data"], p, floor=1e-3)
    ctx.check("pure_basis", G.same(out["basis"][0], basis) and G.same(out["basis"][1], basis))
    return out, p


@R.workload(100, 1200)
def evolution(ctx):
    shape, nb, basis, A, loc, cell = _generic(ctx)
    M = _m(A)
    _regular(ctx, M)
    n = len(M)
    m = {"basis": TupleBasis(basis, basis), "data": M.ravel() + 0j}
    initial, p = _initial(ctx, basis)
    times = np.sort(ctx.rng.uniform(0, 4 / n, size=ctx.randint(1, 5)))
    ctx.note(shape=shape, nb=nb, times=len(times))
    with ctx.running("eigenstates"):
        e = te.calculate_tunnelling_eigenstates(m)
    ctx.equal("eigenstates_unchanged", m["data"], M.ravel())
    _flat(ctx, "eigenstates", e, n * n)
    ctx.check("eigenstates_basis", e["basis"].shape == (n, n) and G.same(e["basis"][1], basis))
    v, lam = e["data"].reshape(n, n), np.asarray(e["eigenvalue"])
    ctx.close("eigenstates", M @ v.T, v.T * lam[None], floor=np.abs(M).max())
    with ctx.running("coefficients"):
        c = te.get_operator_state_vector_decomposition(initial, e)
    ctx.close("coefficients", c @ v, p, tol=1e-7, floor=1.0)
    with ctx.running("equilibrium"):
        eqs = [te.get_equilibrium_state(e), te.calculate_equilibrium_state(m)]
    exp = scipy.linalg.null_space(M, rcond=1e-10)
    if exp.shape[1] == 1:
        exp = exp[:, 0] / exp[:, 0].sum()
        for q in eqs:
            ctx.close("equilibrium", q["data"], exp, tol=1e-7, floor=1e-3)
            ctx.check("equilibrium_basis", G.same(q["basis"][0], basis) and G.same(q["basis"][1], basis))
            with ctx.running("probability"):
                prob = tm.density_matrix_as_probability(q)
            ctx.check("probability_basis", G.same(prob["basis"], basis))
            ctx.check("probability_real", np.isrealobj(prob["data"]))
            ctx.close("probability", prob["data"], exp, tol=1e-7, floor=1e-3)
    exp = np.array([scipy.linalg.expm(M * t) @ p for t in times])
    with ctx.running("simulation"):
        outs = [te.get_tunnelling_simulation_state(e, initial, times.copy()),
                te.calculate_tunnelling_simulation_state(m, initial, times.copy())]
    for o in outs:
        _flat(ctx, "simulation", o, exp.size)
        b = o["basis"]
        ctx.check("simulation_basis", G.same(b[1][0], basis) and G.same(b[1][1], basis))
        ctx.close("simulation_times", b[0].times, times, floor=1e-6)
        ctx.close("simulation", o["data"].reshape(exp.shape), exp, tol=1e-7, floor=1e-2)
        with ctx.running("probabilities"):
            prob = tm.density_matrix_list_as_probabilities(o)
        ctx.check("probabilities_basis", prob["basis"].shape == (len(times), n) and G.same(prob["basis"][1], basis))
        ctx.close("probabilities_times", prob["basis"][0].times, times, floor=1e-6)
        ctx.check("probabilities_real", np.isrealobj(prob["data"]))
        ctx.close("probabilities", np.asarray(prob["data"]).reshape(exp.shape), exp, tol=1e-7, floor=1e-2)
    with ctx.running("rates"):
        d = ti.get_rate_decomposition(m, initial)
    ev, co = np.asarray(d.eigenvalues), np.asarray(d.coefficients)
    ctx.check("rates_shape", ev.shape == (n,) and co.shape == (n,), f"{ev.shape} {co.shape}")
    left = np.linalg.eigvals(M)
    cost = np.abs(ev[:, None] - left[None])
    ctx.check("rates", cost.min(axis=1).max() < 1e-6 * max(1, np.abs(left).max()), lambda: f"{ev} {left}")


# ------------------------------------------------------------------------ ISF
def _positions(shape, nb, loc, cell):
    out = np.zeros((shape[0], shape[1], nb, 2))
    for x in range(shape[0]):
        for y in range(shape[1]):
            for b in range(nb):
                out[x, y, b] = (x + loc[0, b]) * cell[0] + (y + loc[1, b]) * cell[1]
    return out.reshape(-1, 2)


def _dk(ctx, shape, cell):
    """A momentum, which may be one for which the images of a supercell are equivalent."""
    if ctx.flag(0.4):
        rec = 2 * np.pi * np.linalg.inv(cell).T
        k = ctx.rng.integers(-3, 4, size=2)
        return k[0] * rec[0] / shape[0] + k[1] * rec[1] / shape[1], True
    return ctx.rng.normal(size=2) * 2, False


def _isf(dk, periodic, shape, cell, pos, start, prob):
    """Sum over sites of the probability, at the image closest to the start along each vector."""
    frac = (pos - start) @ np.linalg.inv(cell * np.array(shape)[:, None])
    if not periodic and np.any(np.abs(np.abs(frac - np.rint(frac)) - 0.5) < 1e-6):
        raise Skip
    frac = frac - np.rint(frac)
    r = frac @ (cell * np.array(shape)[:, None])
    return prob @ np.exp(1j * (r @ dk))


def _isf_system(ctx):
    shape, nb, basis, A, loc, cell = _generic(ctx)
    if ctx.flag(0.5):
        shape = tuple(ctx.pick([1, 3, 5]) for _ in range(2))
        nb = ctx.randint(2, 3) if shape == (1, 1) else nb
        bands, loc, cell = _bands(ctx, nb)
        basis = get_basis_from_shape(shape, nb, bands)
        A = ctx.rng.uniform(0.02, 1.5, size=(basis.n, basis.n))
    return shape, nb, basis, A, loc, cell


def _check_isf(ctx, name, out, times, exp, tol=1e-7):
    _flat(ctx, name, out, len(times))
    b = out["basis"]
    ctx.check(f"{name}_basis", b.n == len(times) ** 2 and b[0].n == b[1].n == len(times))
    ctx.close(f"{name}_times", b[0].times, times, floor=1e-6)
    ctx.close(name, out["data"], exp, tol=tol, floor=1e-2)


@R.workload(80, 1000)
def isf_locations(ctx):
    shape, nb, basis, _A, loc, cell = _isf_system(ctx)
    n = basis.n
    pos = _positions(shape, nb, loc, cell)
    p = ctx.rng.uniform(size=n)
    if ctx.flag(0.6):
        p[:] = 0
        p[ctx.rng.integers(n)] = 1
    nt = ctx.randint(1, 4)
    times = np.sort(ctx.rng.uniform(size=nt))
    P = ctx.rng.uniform(size=(nt, n))
    P /= P.sum(axis=1)[:, None]
    p /= p.sum()
    dk, periodic = _dk(ctx, shape, cell)
    ctx.note(shape=shape, nb=nb, periodic=periodic, pure=bool(p.max() == 1))
    exp = np.array([_isf(dk, periodic, shape, cell, pos, p @ pos, q) for q in P])
    with ctx.running("locations"):
        out = disf.calculate_isf_approximate_locations(
            {"basis": basis, "data": p.copy()},
            {"basis": TupleBasis(ExplicitTimeBasis(times), basis), "data": P.ravel().copy()},
            dk.copy(),
        )
    _check_isf(ctx, "locations", out, times, exp)


@R.workload(60, 800)
def isf_dynamics(ctx):
    shape, nb, basis, A, loc, cell = _isf_system(ctx)
    M = _m(A)
    _regular(ctx, M)
    n = len(M)
    pos = _positions(shape, nb, loc, cell)
    m = {"basis": TupleBasis(basis, basis), "data": M.ravel() + 0j}
    times = np.sort(ctx.rng.uniform(0, 4 / n, size=ctx.randint(1, 4)))
    dk, periodic = _dk(ctx, shape, cell)
    initial, p = _initial(ctx, basis)
    ctx.note(shape=shape, nb=nb, periodic=periodic)
    U = [scipy.linalg.expm(M * t) for t in times]
    exp = np.array([_isf(dk, periodic, shape, cell, pos, p @ pos, u @ p) for u in U])
    with ctx.running("at_times"):
        out = ti.calculate_isf_at_times(m, initial, times.copy(), dk.copy())
    _check_isf(ctx, "at_times", out, times, exp)
    eq = scipy.linalg.null_space(M, rcond=1e-10)
    if eq.shape[1] != 1:
        return
    eq = (eq[:, 0] / eq[:, 0].sum()).reshape(-1, nb).sum(axis=0)
    exp = np.zeros(len(times), dtype=complex)
    for b in range(nb):
        exp += eq[b] * np.array([_isf(dk, periodic, shape, cell, pos, pos[b], u[:, b]) for u in U])
    with ctx.running("averaged"):
        out = ti.calculate_equilibrium_state_averaged_isf(m, times.copy(), dk.copy())
    _check_isf(ctx, "averaged", out, times, exp)
    start = eq @ pos[:nb]
    exp = np.array([_isf(dk, periodic, shape, cell, pos, start, u[:, :nb] @ eq) for u in U])
    with ctx.running("initial"):
        out = ti.calculate_equilibrium_initial_state_isf(m, times.copy(), dk.copy())
    _check_isf(ctx, "initial", out, times, exp)


@R.workload(40, 400)
def bands_of_packets(ctx):
    lst, state, dx = W.bases(ctx, 3, max_total=80)
    S = G.states(lst) @ W.planes(lst.fundamental_shape).conj().T
    if 0 not in np.argmax(np.abs(S), axis=1):
        raise Skip
    nb = ctx.randint(1, 3)
    w = W.packets(ctx, nb, lst, state)
    ctx.note(lst=G.describe(lst), state=G.describe(state), nb=nb)
    with ctx.running("from_wavepackets"):
        out = TunnellingSimulationBandsBasis.from_wavepackets(w)
    ctx.check("from_wavepackets_size", out.n == nb and np.shape(out.locations) == (2, nb))
    u = BasisUtil(state)
    vec = u.delta_x_stacked
    ctx.close("from_wavepackets_cell", np.array(out.unit_cell), vec[:2, :2], floor=1e-3)
    n = np.array(state.fundamental_shape)
    d = w["data"].reshape(nb, lst.n, state.n)
    for i in range(nb):
        one = {"basis": TupleBasis(lst, state), "data": d[i].ravel(), "eigenvalue": np.zeros(lst.n) + 0j}
        a, b = get_wavepacket_two_points(one)
        mean = (np.array(a) + np.array(b)) / 2 / n
        ctx.close("from_wavepackets_location", out.locations[:, i], mean[:2], floor=1e-3)
