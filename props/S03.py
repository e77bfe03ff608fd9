"""Positions, momenta, spreads and displacements of lists of states."""

import numpy as np

from mon.core import Registry, Skip
from mon import gen as G
from mon import wave as W
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import EvenlySpacedTimeBasis, FundamentalTimeBasis
from surface_potential_analysis.state_vector import plot as sp
from surface_potential_analysis.wavepacket import get_eigenstate as wg

R = Registry("S03")
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Random lattices, storage bases and lists of (unnormalized) states, coherent wavepackets of known centre, momentum "
    "and width, and random trajectories. Oracle: sums over the points of the grid and over pairs of times. "
    "Non-trivial: at least one compared result."
)


def _basis(ctx, max_total=40):
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=max_total)
    dx = G.lattice(ctx.rng, nd)
    return shape, dx, G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)


def grid_index(shape):
    return np.array([x.ravel() for x in np.meshgrid(*(np.arange(n) for n in shape), indexing="ij")])


def expected_phase(f, shape, direction):
    i = grid_index(shape)
    phi = 2 * np.pi * sum(d * j / n for d, j, n in zip(direction, i, shape, strict=True))
    return (np.abs(f) ** 2) @ np.exp(1j * phi)


def expected_k(f, shape, dx, axis):
    F = np.fft.fftn(f.reshape(-1, *shape), axes=tuple(range(1, 1 + len(shape))), norm="ortho")
    lab = W.labels(shape)[axis]
    b = 2 * np.pi * np.linalg.inv(np.asarray(dx)).T
    return (np.abs(F.reshape(len(f), -1)) ** 2) @ lab * np.linalg.norm(b[axis])


@R.workload(80, 1200)
def periodic_operator(ctx):
    """<i| exp(2 pi i n.x) |j> in any basis."""
    shape, dx, basis = _basis(ctx)
    direction = None if ctx.flag(0.3) else tuple(ctx.randint(-3, 3) for _ in shape)
    ctx.note(basis=G.describe(basis), direction=direction)
    with ctx.running("operator"):
        op = sp.get_periodic_x_operator(basis, direction)
    S = G.states(basis)
    d = direction or (1,) * len(shape)
    i = grid_index(shape)
    ph = np.exp(2j * np.pi * sum(a * j / n for a, j, n in zip(d, i, shape, strict=True)))
    ctx.check("bases", all(G.same(b, basis) for b in op["basis"]))
    ctx.check("flat", np.asarray(op["data"]).ndim == 1)
    ctx.close("elements", np.asarray(op["data"]).reshape(basis.n, basis.n), (S.conj() * ph) @ S.T, scale=1.0)


def _circular(ctx, name, got, want, period, tol=1e-7):
    d = (np.asarray(got) - want + period / 2) % period - period / 2
    ctx.check(name, np.all(np.abs(d) <= tol * period), "position differs", actual=got, expected=want)


@R.workload(100, 1500)
def coordinates(ctx):
    """Position, momentum and spread of each state of a list."""
    shape, dx, basis = _basis(ctx)
    axis = ctx.randint(0, len(shape) - 1)
    n = ctx.randint(1, 4)
    data = G.cplx(ctx.rng, n, basis.n) * 10.0 ** ctx.rng.uniform(-1, 1, (n, 1))
    f = data @ G.states(basis)
    f /= np.linalg.norm(f, axis=1)[:, None]
    ctx.note(basis=G.describe(basis), axis=axis, n=n)
    lists = TupleBasis(FundamentalBasis(n), FundamentalBasis(1)) if ctx.flag() else FundamentalBasis(n)
    states = {"basis": TupleBasis(lists, basis), "data": data.ravel()}
    keep = states["data"].copy()
    raw = states["data"]
    z = expected_phase(f, shape, tuple(int(a == axis) for a in range(len(shape))))
    if np.any(np.abs(z) < 1e-3):
        raise Skip
    length = float(np.linalg.norm(dx[axis]))
    spread = np.sqrt(np.maximum(0, -4 * np.log(np.abs(z)))) * length / (2 * np.pi)
    with ctx.running("coordinates"):
        c = sp.get_coherent_coordinates(states, axis)
    got = np.asarray(c["data"]).reshape(3, -1)
    ctx.check("size", c["basis"].n == 3 * n and got.shape == (3, n), actual=np.shape(c["data"]))
    ctx.check("real", np.all(np.abs(np.imag(got)) <= 1e-8 * (1 + np.abs(got))))
    got = np.real(got)
    _circular(ctx, "position", got[0], length * np.angle(z) / (2 * np.pi), length)
    ctx.check("position_in_cell", np.all((got[0] >= 0) & (got[0] <= length * (1 + 1e-12))), actual=got[0])
    k = expected_k(f, shape, dx, axis)
    ctx.close("momentum", got[1], k, floor=1.0 / length)
    exact = np.abs(np.abs(z) - 1) < 1e-12  # the logarithm of a rounding error
    tol = np.where(exact, 1e-5, 1e-7) * length
    ctx.check("spread", np.all(np.abs(got[2] - spread) <= tol), actual=got[2], expected=spread)
    ctx.equal("input_unchanged", raw, keep)
    ctx.check("same_array", states["data"] is raw)


@R.workload(60, 700)
def coherent(ctx):
    """A coherent wavepacket has the centre, momentum and width it was built with."""
    nd = ctx.randint(1, 2)
    axis = ctx.randint(0, nd - 1)
    shape = tuple(ctx.randint(24, 40) if a == axis else ctx.randint(1, 4) for a in range(nd))
    dx = G.lattice(ctx.rng, nd)
    length = float(np.linalg.norm(dx[axis]))
    N = shape[axis]
    x0, s = ctx.rng.uniform(0, 1), ctx.rng.uniform(0.08, 0.11)
    m = ctx.randint(-3, 3)
    u = np.arange(N) / N
    # sum over the periodic images
    psi = sum(np.exp(-((u - x0 + t) ** 2) / (2 * s**2) + 2j * np.pi * m * (u - x0 + t)) for t in range(-3, 4))
    other = [G.cplx(ctx.rng, n) for n in shape]
    other[axis] = psi
    full = other[0]
    for o in other[1:]:
        full = np.kron(full, o)
    # the same state stored in momentum or position
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=("fundamental_x", "fundamental_kx"))
    data = G.ref_convert(full, TupleBasis(*(FundamentalBasis(n) for n in shape)), basis)
    ctx.note(basis=G.describe(basis), axis=axis, x0=x0, s=s, m=m)
    states = {"basis": TupleBasis(FundamentalBasis(1), basis), "data": data * ctx.rng.uniform(0.1, 10)}
    with ctx.running("coordinates"):
        c = np.real(np.asarray(sp.get_coherent_coordinates(states, axis)["data"])).ravel()
    _circular(ctx, "centre", c[0], x0 * length, length)
    b = 2 * np.pi * np.linalg.inv(np.asarray(dx)).T
    kk = float(np.linalg.norm(b[axis]))
    ctx.check("momentum", abs(c[1] - m * kk) <= 1e-6 * kk, actual=c[1], expected=m * kk)
    ctx.check("width", abs(c[2] - s * length) <= 1e-6 * length, actual=c[2], expected=s * length)


def _trajectories(ctx, cols=None):
    m, n = ctx.randint(1, 4), ctx.randint(2, 12) if cols is None else cols
    dt = 10.0 ** ctx.rng.uniform(-2, 2)
    t = FundamentalTimeBasis(n, dt * n) if ctx.flag() else EvenlySpacedTimeBasis(n, ctx.randint(1, 3), ctx.randint(0, 4), dt * n)
    x = np.cumsum(ctx.rng.normal(size=(m, n)), axis=1) * 10.0 ** ctx.rng.uniform(-1, 1)
    first = FundamentalBasis(m) if ctx.flag() else TupleBasis(FundamentalBasis(m), FundamentalBasis(1))
    ctx.note(m=m, n=n, time=G.describe(t))
    return m, n, dt, t, first, x


@R.workload(60, 900)
def displacements(ctx):
    """Averages over all pairs of times with the same difference."""
    m, n, dt, t, first, x = _trajectories(ctx)
    values = {"basis": TupleBasis(first, t), "data": x.ravel()}
    keep = values["data"].copy()
    k = ctx.rng.uniform(-3, 3) / np.abs(x).max()
    with ctx.running("displacement"):
        d = sp.get_average_displacements(values)
    with ctx.running("isf"):
        f = sp.get_average_isf(values, k)
    want = np.array([[np.mean((r[j:] - r[: n - j]) ** 2) for j in range(n)] for r in x])
    isf = np.array([[np.mean(np.exp(1j * k * (r[j:] - r[: n - j]))) for j in range(n)] for r in x])
    for name, got, e, s in (("displacement", d, want, np.max(x**2)), ("isf", f, isf, 1.0)):
        ctx.close(name, np.asarray(got["data"]).reshape(m, n), e, scale=s)
        ctx.check(name + "_flat", np.asarray(got["data"]).shape == (got["basis"].n,))
        ctx.close(name + "_times", got["basis"][1].times, dt * np.arange(n))
        ctx.check(name + "_first", got["basis"][0].n == m)
    # with a momentum which does not change the drift is in proportion to the mean change of position
    q = float(ctx.rng.uniform(0.3, 3) * ctx.pick((1, -1)))
    momenta = {"basis": values["basis"], "data": np.full(x.size, q)}
    with ctx.running("drift"):
        r = sp.get_normalized_average_drift(values, momenta)
    change = np.array([[np.mean(y[j:] - y[: n - j]) for j in range(n)] for y in x])
    got = np.asarray(r["data"]).reshape(m, n)
    top = np.unravel_index(np.argmax(np.abs(change)), change.shape)
    factor = got[top] / change[top]
    ctx.check("drift_factor", np.isfinite(factor) and 1e-3 < abs(factor) < 1e3, f"{factor}")
    ctx.close("drift", got, change * factor, scale=np.abs(x).max() * abs(factor))
    ctx.check("drift_flat", np.asarray(r["data"]).shape == (r["basis"].n,) and r["basis"][0].n == m)
    ctx.close("drift_times", r["basis"][1].times, dt * np.arange(n))
    ctx.equal("input_unchanged", values["data"], keep)


@R.workload(40, 500)
def bands(ctx):
    """Average energy of the samples of each band."""
    lst, state, dx = W.bases(ctx, list_kinds=W.FULL_LIST_KINDS, max_total=40)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    with ctx.running("bands"):
        h = wg.get_full_bloch_hamiltonian(w)
        e = sp.get_average_band_energy(h)
    ctx.check("basis", e["basis"].n == k)
    ctx.close("energy", e["data"], np.real(w["eigenvalue"].reshape(k, -1)).mean(axis=1), floor=1e-3)
