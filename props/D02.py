"""Stochastic evolution of an open system."""

import sys
import types

import numpy as np
import scipy.linalg
from scipy.constants import hbar

from mon import gen as G
from mon import wave as W
from mon.core import Registry, Skip


class _Solver(types.ModuleType):
    """Stand in for the (not installed) rust solver, which records what it was asked to solve."""

    def __init__(self):
        super().__init__("sse_solver_py")
        self.calls = []

    class SimulationConfig:
        def __init__(self, **kwargs):
            self.__dict__.update(kwargs)

    def _out(self, initial, cfg):
        out = np.arange(cfg.n_trajectories * cfg.n * len(initial)) * (1 + 0.5j)
        self.calls[-1]["out"] = out
        return out.tolist()

    def solve_sse(self, initial_state, hamiltonian, operators, config):
        n = len(initial_state)
        self.calls.append({
            "initial": np.array(initial_state),
            "h": np.array(hamiltonian).reshape(n, n),
            "ops": [np.array(o).reshape(n, n) for o in operators],
            "config": config,
            "threshold": 0.0,
        })
        return self._out(initial_state, config)

    def solve_sse_banded(self, initial_state, h_diagonals, h_offsets, op_diagonals, op_offsets, config):
        n = len(initial_state)

        def dense(diagonals, offsets):
            assert len(diagonals) == len(offsets)
            out = np.zeros((n, n), dtype=complex)
            for d, k in zip(diagonals, offsets):
                assert len(d) == n
                for c in range(n):
                    out[(c + k) % n, c] += d[c]
            return out

        assert len(op_diagonals) == len(op_offsets)
        self.calls.append({
            "initial": np.array(initial_state),
            "h": dense(h_diagonals, h_offsets),
            "ops": [dense(d, o) for d, o in zip(op_diagonals, op_offsets)],
            "config": config,
        })
        return self._out(initial_state, config)

    def solve_sse_euler_bra_ket(self, *a):
        raise NotImplementedError


solver = _Solver()
sys.modules["sse_solver_py"] = solver

from surface_potential_analysis.basis.basis import FundamentalBasis  # noqa: E402
from surface_potential_analysis.basis.stacked_basis import TupleBasis  # noqa: E402
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis  # noqa: E402
from surface_potential_analysis.dynamics import util as du  # noqa: E402
from surface_potential_analysis.dynamics.stochastic_schrodinger import solve as ss  # noqa: E402
from surface_potential_analysis.dynamics.tunnelling_basis import (  # noqa: E402
    TunnellingSimulationBandsBasis,
    get_basis_from_shape,
)

R = Registry("D02")
RULE = (
    "Random Hamiltonians, collapse operators, bases and times. The rust solvers are replaced by one which records the "
    "equation it was given, which is compared, free of its scaling, with the equation which was meant; qutip is run "
    "and compared with the exact evolution and, on average, with the master equation. Non-trivial: an equation or a "
    "trajectory was compared."
)


def _times(ctx, min_n=1):
    n, step = ctx.randint(min_n, 5), ctx.randint(1, 6)
    T = float(10 ** ctx.rng.uniform(-2, 1))
    return EvenlySpacedTimeBasis(n, step, 0, T), n, step, T / (n * step)


def _bases(ctx, n_other):
    nd = ctx.randint(1, 2)
    shape = G.random_shape(ctx.rng, nd, max_total=9, hi=6)
    dx = G.lattice(ctx.rng, nd)
    return [G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.FULL_STATE_KINDS) for _ in range(n_other + 1)]


def _sparse(ctx, M):
    kind = ctx.pick(["dense", "banded", "element", "zero", "diagonal"])
    if kind == "zero":
        return M * 0
    if kind == "element":
        i, j = ctx.rng.integers(len(M), size=2)
        out = np.zeros_like(M)
        out[i, j] = M[i, j]
        return out
    if kind == "banded":
        r = (np.arange(len(M))[:, None] - np.arange(len(M))[None]) % len(M)
        return np.where(np.isin(r, ctx.rng.integers(len(M), size=2)), M, 0)
    if kind == "diagonal":
        return np.diag(np.diag(M))
    return M


def _compare(ctx, name, call, *, n, step, fdt, nt, nr, h, ops, initial, threshold=0.0):
    c = call["config"]
    ctx.check(f"{name}_n", (c.n, c.step) == (n, step), f"{c.n, c.step} for {n, step}")
    ctx.check(f"{name}_runs", (c.n_trajectories, c.n_realizations) == (nt, nr))
    ctx.close(f"{name}_initial", call["initial"], initial, floor=1e-3)
    slack = 2 * threshold
    exp = h * fdt / hbar
    got = call["h"] * c.dt
    ctx.check(f"{name}_hamiltonian", np.all(np.abs(got - exp) <= slack + 1e-9 * max(1e-3, np.abs(exp).max())),
              lambda: f"H dt/hbar is {got}, meant {exp}")
    ctx.check(f"{name}_n_operators", len(call["ops"]) == len(ops))
    for o, e in zip(call["ops"], ops, strict=True):
        exp = e * np.sqrt(fdt / hbar)
        got = o * np.sqrt(c.dt)
        ctx.check(f"{name}_operator", np.all(np.abs(got - exp) <= slack / np.sqrt(c.dt) + 1e-9 * max(1e-3, np.abs(exp).max())),
                  lambda: f"L sqrt(dt/hbar) is {got}, meant {exp}")


def _check_list(ctx, name, out, times, basis, nt):
    d = np.asarray(out["data"])
    b = out["basis"]
    ctx.check(f"{name}_flat", d.ndim == 1 and d.size == b.n == nt * times.n * basis.n, f"{d.shape}")
    ctx.check(f"{name}_basis", G.same(b[1], basis) and b[0].shape == (nt, times.n))
    ctx.close(f"{name}_times", b[0][1].times, times.times, floor=1e-6)


def _rescale(ctx, t, fdt, h, ops):
    s = float(10 ** ctx.rng.uniform(-15, -8)) if ctx.flag(0.4) else 1.0
    return (
        EvenlySpacedTimeBasis(t.n, t.step, t.offset, t.delta_t * s),
        fdt * s,
        h / s,
        [o / np.sqrt(s) for o in ops],
    )


@R.workload(120, 1500)
def dense(ctx):
    (basis,) = _bases(ctx, 0)
    t, n, step, fdt = _times(ctx)
    N = basis.n
    h = _sparse(ctx, G.hermitian(ctx.rng, N)) * hbar
    k = ctx.randint(0, 3)
    ops = [_sparse(ctx, G.cplx(ctx.rng, N, N)) * np.sqrt(hbar) for _ in range(k)]
    t, fdt, h, ops = _rescale(ctx, t, fdt, h, ops)
    psi = G.cplx(ctx.rng, N)
    nt, nr = ctx.randint(1, 3), ctx.randint(1, 3)
    ctx.note(basis=G.describe(basis), n=n, step=step, ops=k, nt=nt, nr=nr)
    bb = TupleBasis(basis, basis)
    arg = [{"basis": bb, "data": o.ravel()} for o in ops]
    if not k and ctx.flag():
        arg = None
    solver.calls.clear()
    with ctx.running("dense"):
        out = ss.solve_stochastic_schrodinger_equation_rust(
            {"basis": basis, "data": psi}, t, {"basis": bb, "data": h.ravel()}, arg, n_trajectories=nt, n_realizations=nr
        )
    ctx.check("dense_calls", len(solver.calls) == 1)
    _compare(ctx, "dense", solver.calls[0], n=n, step=step, fdt=fdt, nt=nt, nr=nr, h=h, ops=ops, initial=psi)
    _check_list(ctx, "dense", out, t, basis, nt)
    ctx.close("dense_data", out["data"], solver.calls[0]["out"], floor=1.0)


@R.workload(120, 1500)
def banded(ctx):
    basis, b_psi, b_op = _bases(ctx, 2)
    t, n, step, fdt = _times(ctx)
    N = basis.n
    if ctx.flag(0.5):
        b_psi, b_op = basis, basis
    S = G.states(basis)
    P = S.conj() @ G.states(b_op).T  # from b_op to basis
    h = _sparse(ctx, G.hermitian(ctx.rng, N)) * hbar
    k = ctx.randint(0, 3)
    ops = [_sparse(ctx, G.cplx(ctx.rng, N, N)) * np.sqrt(hbar) * 10 ** ctx.rng.uniform(-1, 1) for _ in range(k)]
    if ctx.flag(0.4):
        # elements of all magnitudes, around the threshold
        h = h * 10 ** ctx.rng.uniform(-9, 0, size=(N, N))
        h = h + h.conj().T
        ops = [o * 10 ** ctx.rng.uniform(-9, 0, size=(N, N)) for o in ops]
    # the same dynamics, at another timescale
    t, fdt, h, ops = _rescale(ctx, t, fdt, h, ops)
    psi = G.cplx(ctx.rng, N)
    nt, nr = ctx.randint(1, 3), ctx.randint(1, 3)
    ctx.note(basis=G.describe(basis), op=G.describe(b_op), psi=G.describe(b_psi), n=n, step=step, ops=k)
    arg = [{"basis": TupleBasis(b_op, b_op), "data": o.ravel()} for o in ops]
    if not k and ctx.flag():
        arg = None
    kw = {}
    if ctx.flag(0.3):
        kw["r_threshold"] = 10 ** ctx.rng.uniform(-12, -3)
    method = ctx.pick([None, "Euler", "Milsten"])
    if method is not None:
        kw["method"] = method
    solver.calls.clear()
    with ctx.running("banded"):
        out = ss.solve_stochastic_schrodinger_equation_rust_banded(
            {"basis": b_psi, "data": psi.copy()}, t, {"basis": TupleBasis(basis, basis), "data": h.ravel()}, arg,
            n_trajectories=nt, n_realizations=nr, **kw,
        )
    ctx.check("banded_calls", len(solver.calls) == 1)
    _compare(ctx, "banded", solver.calls[0], n=n, step=step, fdt=fdt, nt=nt, nr=nr, h=h,
             ops=[P @ o @ P.conj().T for o in ops], initial=S.conj() @ (psi @ G.states(b_psi)),
             threshold=kw.get("r_threshold", 1e-8))
    ctx.check("banded_method", solver.calls[0]["config"].method == (method or "Euler"))
    _check_list(ctx, "banded", out, t, basis, nt)
    ctx.close("banded_data", out["data"], solver.calls[0]["out"], floor=1.0)


def _sse(ctx, basis, psi, t, h, ops, nt):
    bb = TupleBasis(basis, basis)
    return ss.solve_stochastic_schrodinger_equation(
        {"basis": basis, "data": psi.copy()}, t, {"basis": bb, "data": h.ravel() + 0j},
        [{"basis": bb, "data": np.asarray(o, dtype=complex).ravel()} for o in ops] or ctx.pick([None, []]),
        n_trajectories=nt,
    )


@R.workload(25, 250)
def qutip_pure(ctx):
    """Without noise, or with noise which only sees a conserved value, the evolution is that of the Hamiltonian."""
    (basis,) = _bases(ctx, 0)
    N = basis.n
    if N < 2:
        # qutip can not solve for a single state
        raise Skip
    n = ctx.randint(2, 4)
    T = float(ctx.rng.uniform(0.2, 1.0))
    t = EvenlySpacedTimeBasis(n, 400, 0, T)
    e = ctx.rng.uniform(-1, 1, size=N)
    V = G.unitary(ctx.rng, N)
    H = (V * e) @ V.conj().T
    psi = G.cplx(ctx.rng, N)
    psi /= np.linalg.norm(psi)
    ops = []
    if ctx.flag():
        # an eigenstate of the operators
        psi = V[:, ctx.rng.integers(N)].copy()
        ops = [(V * ctx.rng.uniform(-1, 1, size=N)) @ V.conj().T * np.sqrt(hbar) for _ in range(ctx.randint(1, 2))]
    nt = ctx.randint(1, 3)
    ctx.note(basis=G.describe(basis), n=n, ops=len(ops), nt=nt)
    with ctx.running("pure"):
        out = _sse(ctx, basis, psi, t, H * hbar, ops, nt)
    _check_list(ctx, "pure", out, t, basis, nt)
    d = out["data"].reshape(nt, n, N)
    for i, x in enumerate(t.times):
        exp = scipy.linalg.expm(-1j * H * x) @ psi
        ov = np.abs(d[:, i] @ exp.conj())
        ctx.check("pure_norm", np.all(np.abs(np.linalg.norm(d[:, i], axis=1) - 1) < 2e-2), f"{np.linalg.norm(d[:, i], axis=1)}")
        ctx.check("pure_state", np.all(np.abs(ov - 1) < 2e-2), lambda: f"overlaps {ov}")
        if not ops:
            ctx.check("pure_phase", np.all(np.abs(d[:, i] - exp) < 2e-2), lambda: f"{d[:, i]} for {exp}")


@R.workload(3, 20)
def qutip_average(ctx):
    """The average over trajectories obeys the master equation."""
    basis = FundamentalBasis(ctx.randint(2, 3))
    N = basis.n
    n, nt = 4, 64
    t = EvenlySpacedTimeBasis(n, 150, 0, 1.2)
    H = G.hermitian(ctx.rng, N)
    H /= np.linalg.norm(H)
    ops = []
    for _ in range(ctx.randint(1, 2)):
        L = G.cplx(ctx.rng, N, N)
        ops.append(L / np.linalg.norm(L) * 1.3)
    psi = np.zeros(N, dtype=complex)
    psi[0] = 1
    ctx.note(N=N, ops=len(ops))
    with ctx.running("average"):
        d = np.concatenate(
            [_sse(ctx, basis, psi, t, H * hbar, [o * np.sqrt(hbar) for o in ops], nt)["data"].reshape(nt, n, N)
             for _ in range(4)]
        )
    nt = len(d)
    eye = np.eye(N)
    liou = -1j * (np.kron(H, eye) - np.kron(eye, H.T))
    for L in ops:
        LL = L.conj().T @ L
        liou = liou + np.kron(L, L.conj()) - 0.5 * (np.kron(LL, eye) + np.kron(eye, LL.T))
    rho0 = np.outer(psi, psi.conj()).ravel()
    for i, x in enumerate(t.times):
        rho = (scipy.linalg.expm(liou * x) @ rho0).reshape(N, N)
        got = np.einsum("ti,tj->ij", d[:, i], d[:, i].conj()) / nt
        # each element of a state projector is at most one: 6.5 standard deviations, and the time step
        bound = 6.5 / np.sqrt(nt) * 0.5 + 0.03
        ctx.check("average", np.all(np.abs(got - rho) < bound), lambda: f"at {x}: {got}, not {rho}")
    ctx.check("average_norm", np.all(np.abs(np.linalg.norm(d, axis=2) - 1) < 0.1))
    # distinct trajectories
    ctx.check("average_distinct", len(np.unique(np.round(d[:, -1, 0], 8))) > nt // 2)


def _sites(ctx, lo=3):
    shape = (ctx.randint(lo, 4), ctx.randint(lo, 4))
    nb = ctx.randint(1, 3)
    bands = TunnellingSimulationBandsBasis(ctx.rng.uniform(size=(2, nb)), (np.array([2.0, 0]), np.array([0.0, 3])))
    return shape, nb, bands, get_basis_from_shape(shape, nb, bands)


@R.workload(60, 600)
def hops(ctx):
    nd = ctx.randint(1, 2)
    shape = tuple(ctx.randint(3, 5) for _ in range(nd))
    seen = set()
    for hop in range(3**nd):
        s = du.get_hop_shift(hop, nd)
        ctx.check("shift_nearest", len(s) == nd and all(abs(int(x)) <= 1 for x in s), f"{s}")
        ctx.check("shift_index", tuple(int(x) % 3 for x in s) == tuple(np.unravel_index(hop, (3,) * nd)), f"{hop} {s}")
        seen.add(tuple(int(x) for x in s))
        op = np.asarray(du.build_hop_operator(hop, shape)).reshape(int(np.prod(shape)), -1)
        src = ctx.rng.integers(op.shape[1])
        start = np.unravel_index(src, shape)
        end = np.ravel_multi_index(tuple((a + int(b)) % m for a, b, m in zip(start, s, shape)), shape)
        exp = np.zeros(op.shape[0])
        exp[end] = 1
        ctx.close("hop_operator", op[:, src], exp, floor=1.0)
    ctx.check("shift_distinct", len(seen) == 3**nd)
    ctx.note(shape=shape)


@R.workload(60, 600)
def matrix(ctx):
    shape, nb, bands, basis = _sites(ctx, 1)
    N = basis.n
    A = ctx.rng.uniform(size=(N, N)) * (ctx.rng.uniform(size=(N, N)) < 0.3) + 0j
    if ctx.flag():
        A = A * np.exp(1j * ctx.rng.uniform(size=(N, N)))
    ctx.note(shape=shape, nb=nb, terms=int(np.count_nonzero(A)))
    m = {"basis": TupleBasis(basis, basis), "data": A.ravel().copy()}
    with ctx.running("matrix"):
        ops = ss.get_collapse_operators_from_a_matrix(m)
    ctx.equal("matrix_unchanged", m["data"], A.ravel())
    tot = np.zeros((N, N), dtype=complex)
    for o in ops:
        ctx.check("matrix_flat", np.ndim(o["data"]) == 1 and o["data"].size == o["basis"].n == N * N)
        ctx.check("matrix_single", np.count_nonzero(o["data"]) == 1)
        tot += np.asarray(o["data"]).reshape(N, N)
    off = A - np.diag(np.diag(A))
    ctx.close("matrix_sum", tot, off, floor=1.0)
    ctx.check("matrix_number", len(ops) == np.count_nonzero(off))


@R.workload(40, 400)
def simplified(ctx):
    shape, nb, bands, basis = _sites(ctx)
    N = basis.n
    # a translation invariant matrix of hops to neighbouring sites, from i to j
    rates = ctx.rng.uniform(0, 6, size=(nb, nb, 3, 3)) * (ctx.rng.uniform(size=(nb, nb, 3, 3)) < 0.6)
    if ctx.flag(0.3):
        # rates per second, and whole numbers
        rates = rates * 1e9 if ctx.flag() else np.rint(rates)
    A = np.zeros((*shape, nb, *shape, nb), dtype=complex)
    for x in range(shape[0]):
        for y in range(shape[1]):
            for a in (-1, 0, 1):
                for c in (-1, 0, 1):
                    A[x, y, :, (x + a) % shape[0], (y + c) % shape[1], :] += rates[:, :, a, c]
    factor = ctx.pick([None, 0.5, 3.0])
    ctx.note(shape=shape, nb=nb, factor=factor)
    m = {"basis": TupleBasis(basis, basis), "data": A.ravel().copy()}
    with ctx.running("simplified"):
        ops = ss.get_simplified_collapse_operators_from_a_matrix(m, **({} if factor is None else {"factor": factor}))
    ctx.equal("simplified_unchanged", m["data"], A.ravel())
    f = 1.0 if factor is None else factor
    exp = {}
    for n0 in range(nb):
        for n1 in range(nb):
            for a in (-1, 0, 1):
                for c in (-1, 0, 1):
                    r = f * rates[n0, n1, a, c]
                    if n0 != n1 and r >= 1:
                        exp[n0, n1, a, c] = r
    ctx.check("simplified_number", len(ops) == len(exp), f"{len(ops)} for {len(exp)}")
    for o in ops:
        L = np.asarray(o["data"]).reshape(*shape, nb, *shape, nb)
        # where the operator takes a particle at the origin
        col = L[:, :, :, 0, 0, :]
        idx = np.argwhere(np.abs(col) > 0)
        ctx.check("simplified_single", len(idx) == 1)
        x, y, n1, n0 = (int(v) for v in idx[0])
        a, c = (x + 1) % shape[0] - 1, (y + 1) % shape[1] - 1
        ctx.check("simplified_hop", (n0, n1, a, c) in exp, f"{n0, n1, a, c}")
        r = exp.pop((n0, n1, a, c))
        full = np.zeros_like(L)
        for i in range(shape[0]):
            for j in range(shape[1]):
                full[(i + a) % shape[0], (j + c) % shape[1], n1, i, j, n0] = np.sqrt(r)
        ctx.close("simplified_operator", L, full, floor=1.0)
    ctx.check("simplified_all", not exp)


@R.workload(30, 300)
def function(ctx):
    shape, nb, bands, basis = _sites(ctx)
    N = basis.n
    rates = ctx.rng.uniform(0.1, 6, size=(nb, nb, 3, 3))
    ctx.note(shape=shape, nb=nb)
    with ctx.running("function"):
        ops = ss.get_collapse_operators_from_function(
            shape, bands, lambda i, j, o, d: rates[i, j, d[0] - o[0], d[1] - o[1]]
        )
    tot = np.zeros((N, N), dtype=complex)
    for o in ops:
        ctx.check("function_flat", np.ndim(o["data"]) == 1 and o["data"].size == o["basis"].n == N * N)
        ctx.check("function_single", np.count_nonzero(o["data"]) == 1)
        tot += np.asarray(o["data"]).reshape(N, N)
    exp = np.zeros((*shape, nb, *shape, nb), dtype=complex)
    for x in range(shape[0]):
        for y in range(shape[1]):
            for a in (-1, 0, 1):
                for c in (-1, 0, 1):
                    exp[x, y, :, (x + a) % shape[0], (y + c) % shape[1], :] += rates[:, :, a, c]
    ctx.close("function_sum", tot, exp.reshape(N, N), floor=1.0)
