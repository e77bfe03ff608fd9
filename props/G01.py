"""Grids, reciprocal lattices and labels of bases agree with their geometric meaning."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis import conversion as bc
from surface_potential_analysis.basis.basis import (
    FundamentalBasis,
    FundamentalPositionBasis,
    TransformedPositionBasis,
)
from surface_potential_analysis.basis.basis_like import convert_vector
from surface_potential_analysis.basis.block_fraction_basis import (
    EvenlySpacedBlockFractionBasis,
    ExplicitBlockFractionBasis,
    FundamentalBlockFractionBasis,
)
from surface_potential_analysis.basis.momentum_basis_like import MomentumBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import (
    EvenlySpacedTimeBasis,
    ExplicitTimeBasis,
    FundamentalTimeBasis,
)
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.stacked_basis import build as bu
from surface_potential_analysis.stacked_basis import conversion as stc

R = Registry("G01")
RULE = (
    "Random lattices (orthogonal, permuted, hexagonal, skew; 1-4 axes) and grids; the grid "
    "points, k points, volumes and labels are compared with independent formulas and with "
    "plane waves produced by the conversions. Non-trivial: >=1 comparison."
)


def _grid(shape):
    return np.array(
        [i.ravel() for i in np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")]
    )


def _kgrid(shape):
    return np.array(
        [i.ravel() for i in np.meshgrid(*(G.freq(s) for s in shape), indexing="ij")]
    )


@R.workload(250, 4000)
def stacked_geometry(ctx):
    shape = G.random_shape(ctx.rng, ctx.pick([None] * 7 + [4]), max_total=80)
    nd = len(shape)
    dx = G.lattice(ctx.rng, nd)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    ctx.note(basis=G.describe(basis))
    u = BasisUtil(basis)
    own = tuple(b.n for b in basis)
    with ctx.running("basis_util"):
        obs = {
            "shape": u.shape, "fshape": u.fundamental_shape, "ndim": u.ndim, "n": u.n,
            "fn": u.fundamental_n,
            "nx": np.array(u.stacked_nx_points), "nk": np.array(u.stacked_nk_points),
            "fnx": np.array(u.fundamental_stacked_nx_points),
            "fnk": np.array(u.fundamental_stacked_nk_points),
            "x": u.x_points_stacked, "fx": u.fundamental_x_points_stacked,
            "k": u.k_points, "fk": u.fundamental_stacked_k_points,
            "dx": u.dx_stacked, "fdx": u.fundamental_dx_stacked,
            "dk": u.dk_stacked, "fdk": u.fundamental_dk_stacked,
            "Dk": u.delta_k_stacked, "fDk": u.fundamental_delta_k_stacked,
            "Dx": u.delta_x_stacked, "fDx": u.fundamental_delta_x_stacked,
            "vol": u.volume, "rvol": u.reciprocal_volume,
        }
    o = obs
    ctx.equal("shapes", [*o["shape"], *o["fshape"], o["ndim"], o["n"], o["fn"]],
              [*own, *shape, nd, int(np.prod(own)), int(np.prod(shape))])
    ctx.equal("nx", o["nx"], _grid(own))
    ctx.equal("fnx", o["fnx"], _grid(shape))
    ctx.equal("nk", o["nk"], _kgrid(own))
    ctx.equal("fnk", o["fnk"], _kgrid(shape))
    rec = 2 * np.pi * np.linalg.inv(dx).T  # rows b_j with a_i.b_j = 2 pi delta_ij
    ctx.close("lattice", o["Dx"], dx)
    ctx.close("lattice_f", o["fDx"], dx)
    ctx.close("reciprocal", o["dk"] @ dx.T, 2 * np.pi * np.eye(nd))
    ctx.close("reciprocal_f", o["fdk"], rec)
    ctx.close("dx", o["dx"], dx / np.array(own)[:, None])
    ctx.close("fdx", o["fdx"], dx / np.array(shape)[:, None])
    ctx.close("Dk", o["Dk"], rec * np.array(own)[:, None])
    ctx.close("fDk", o["fDk"], rec * np.array(shape)[:, None])
    frac = lambda s: _grid(s) / np.array(s)[:, None]  # noqa: E731
    ctx.close("x", o["x"], dx.T @ frac(own), scale=np.abs(dx).max())
    ctx.close("fx", o["fx"], dx.T @ frac(shape), scale=np.abs(dx).max())
    ctx.close("k", o["k"], rec.T @ _kgrid(own), scale=np.abs(rec).max())
    ctx.close("fk", o["fk"], rec.T @ _kgrid(shape), scale=np.abs(rec).max())
    ctx.close("volume", o["vol"], np.linalg.det(dx))
    ctx.close("volumes", o["vol"] * o["rvol"], (2 * np.pi) ** nd)
    # subset access
    j = ctx.randint(0, u.n - 1)
    st = np.unravel_index(j, own)
    with ctx.running("at_index"):
        xa, xb = u.get_x_points_at_index(j), u.get_x_points_at_index(tuple(st))
        ka = u.get_k_points_at_index(tuple(int(i) for i in o["nk"][:, j]))
        kb = u.get_k_points_at_index(j)
        some = ctx.rng.integers(0, u.n, size=(2, 3))
        kc = u.get_k_points_at_index(some)
        xc = u.get_x_points_at_index(some)
    ctx.close("x_at", xa, o["x"][:, j], scale=np.abs(dx).max())
    ctx.close("k_at_flat", kb, o["k"][:, j], scale=np.abs(rec).max())
    ctx.close("k_at_flat_array", kc, o["k"][:, some], scale=np.abs(rec).max())
    ctx.close("x_at_flat_array", xc, o["x"][:, some], scale=np.abs(dx).max())
    ctx.close("x_at_stacked", xb, o["x"][:, j], scale=np.abs(dx).max())
    ctx.close("k_at", ka, o["k"][:, j], scale=np.abs(rec).max())


@R.workload(150, 2500)
def plane_waves(ctx):
    """A momentum state with label k is exp(i k.x) on the position grid."""
    shape = G.random_shape(ctx.rng, max_total=60)
    dx = G.lattice(ctx.rng, len(shape))
    basis = TupleBasis(
        *(
            TransformedPositionBasis(d, ctx.randint(1, s), s)
            for d, s in zip(dx, shape, strict=True)
        )
    )
    ctx.note(basis=G.describe(basis))
    with ctx.running("plane_waves"):
        pos = stc.stacked_basis_as_fundamental_position_basis(basis)
        k = BasisUtil(basis).k_points
        x = BasisUtil(pos).fundamental_x_points_stacked
        waves = convert_vector(np.eye(basis.n, dtype=complex), basis, pos)
    ctx.close("plane_wave", waves, np.exp(1j * (k.T @ x)) / np.sqrt(pos.n))


@R.workload(150, 2500)
def one_axis(ctx):
    fn = ctx.randint(1, 15)
    nd = ctx.randint(1, 3)
    dx = ctx.rng.normal(size=nd) * 3
    b = G.basis_1d(ctx.rng, fn, kinds=G.POS_KINDS + ("evenly_kx",), delta_x=dx)
    ctx.note(basis=G.describe(b))
    u = BasisUtil(b)
    with ctx.running("axis"):
        obs = [u.nx_points, u.fundamental_nx_points, u.nk_points, u.fundamental_nk_points]
        d = [u.delta_x, u.dx, u.fundamental_dx, u.x_points, u.fundamental_x_points]
        conv = [
            bc.basis_as_fundamental_position_basis(b),
            bc.basis_as_fundamental_momentum_basis(b),
            bc.basis_as_fundamental_transformed_basis(b),
            bc.basis_as_fundamental_basis(b),
            bc.basis_as_single_point_basis(b),
            bc.basis_as_n_point_basis(dx, n=fn + 2),
        ]
    for name, a, e in zip(
        ["nx", "fnx", "nk", "fnk"], obs,
        [np.arange(b.n), np.arange(fn), G.freq(b.n), G.freq(fn)], strict=True,
    ):
        ctx.equal(name, a, e)
    for name, a, e in zip(
        ["delta_x", "dx", "fdx", "x", "fx"], d,
        [dx, dx / b.n, dx / fn, np.outer(dx / b.n, np.arange(b.n)), np.outer(dx / fn, np.arange(fn))],
        strict=True,
    ):
        ctx.close(name, a, e)
    f = np.fft.fft(np.eye(fn), norm="ortho").conj()
    for name, c, states in zip(
        ["position", "momentum", "transformed", "fundamental"], conv,
        [np.eye(fn), f, f, np.eye(fn)], strict=False,
    ):
        with ctx.running(name):
            vec = BasisUtil(c).vectors
        ctx.close(name + "_states", vec, states)
    for c in conv[:2]:
        ctx.close("converted_dx", c.delta_x, dx)
    ctx.equal("sizes", [conv[4].n, conv[4].fundamental_n, conv[5].n], [1, 1, fn + 2])
    ctx.close("sizes_dx", conv[4].delta_x, dx)
    ctx.close("sizes_dx_n", conv[5].delta_x, dx)


@R.workload(150, 2500)
def stacked_conversions(ctx):
    shape = G.random_shape(ctx.rng, max_total=60)
    nd = len(shape)
    dx = G.lattice(ctx.rng, nd)
    b = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS + ("evenly_kx",))
    ctx.note(basis=G.describe(b))
    new = tuple(ctx.randint(1, 5) for _ in shape)
    with ctx.running("conversions"):
        res = {
            "fundamental": (stc.stacked_basis_as_fundamental_basis(b), False, False),
            "transformed": (stc.stacked_basis_as_fundamental_transformed_basis(b), True, False),
            "position": (stc.stacked_basis_as_fundamental_position_basis(b), False, True),
            "momentum": (stc.stacked_basis_as_fundamental_momentum_basis(b), True, True),
            "from_shape": (bu.fundamental_stacked_basis_from_shape(shape), False, False),
            "from_shape_k": (bu.fundamental_transformed_stacked_basis_from_shape(shape), True, False),
            "position_from_shape": (bu.position_basis_from_shape(shape, dx), False, True),
        }
        if nd == 3:
            res["position_3d"] = (bu.position_basis_3d_from_shape(shape, dx), False, True)
            res["momentum_3d"] = (
                bu.momentum_basis_3d_from_resolution(shape, (dx[0], dx[1], dx[2])), True, True,
            )
        resized = stc.stacked_basis_as_fundamental_with_shape(b, new)
        unit = bu.position_basis_from_shape(shape)
    ctx.equal("resized_shape", resized.shape, new)
    ctx.close("resized_cell", resized.delta_x_stacked, dx)
    ctx.close("unit_cell", unit.delta_x_stacked, np.eye(nd))
    if nd == 3:
        with ctx.running("parent"):
            p = bu.position_basis_3d_from_parent(b, new)
        ctx.equal("parent_shape", p.shape, new)
        ctx.close("parent_cell", p.delta_x_stacked, dx)
    for name, (c, is_k, has_x) in res.items():
        ctx.equal(name + "_shape", c.fundamental_shape, shape)
        ctx.equal(name + "_n", c.shape, shape)
        ctx.close(name + "_states", G.states(c), _full_states(shape, is_k))
        if has_x:
            ctx.close(name + "_cell", c.delta_x_stacked, dx)


def _full_states(shape, is_k):
    out = np.ones((1, 1))
    for s in shape:
        m = np.fft.ifft(np.eye(s), norm="ortho") if is_k else np.eye(s)
        out = np.kron(out, m)
    return out


@R.workload(200, 2500)
def labels(ctx):
    """Times, bloch fractions and momenta of the labelled bases select the grid they claim."""
    n, step = ctx.randint(1, 8), ctx.randint(1, 5)
    offset = ctx.randint(0, 2 * n * step)
    dt = float(ctx.rng.uniform(0.1, 10))
    ctx.note(n=n, step=step, offset=offset, dt=dt)
    N = n * step
    with ctx.running("time"):
        t = EvenlySpacedTimeBasis(n, step, offset, dt)
        f = FundamentalTimeBasis(n, dt)
        times = np.sort(ctx.rng.uniform(0, dt, size=n + 1))
        e = ExplicitTimeBasis(times)
        obs = [t.times, t.fundamental_times, t.dt, t.fundamental_dt, t.delta_t, t.nt_points]
        obs_f = [f.times, f.fundamental_times]
        obs_e = [e.times, e.fundamental_times, e.n, e.delta_t]
    ctx.close("times", obs[0], (offset + step * np.arange(n)) * dt / N, floor=1e-9)
    ctx.close("fundamental_times", obs[1], np.arange(N) * dt / N, floor=1e-9)
    ctx.close("spacings", obs[2:5], [dt / n, dt / N, dt])
    ctx.equal("nt", obs[5], offset + step * np.arange(n))
    ctx.close("f_times", obs_f[0], np.arange(n) * dt / n, floor=1e-9)
    ctx.close("f_fundamental_times", obs_f[1], np.arange(n) * dt / n, floor=1e-9)
    ctx.equal("explicit_times", obs_e[0], times)
    ctx.equal("explicit_ftimes", obs_e[1], times)
    ctx.equal("explicit_n", obs_e[2], n + 1)
    if n >= 1:
        ctx.close("explicit_dt", obs_e[3], times[1] - times[0], scale=dt)
    nd = ctx.randint(1, 3)
    fr = ctx.rng.uniform(-0.5, 0.5, size=(nd, n))
    kp = ctx.rng.normal(size=n)
    with ctx.running("fractions"):
        eb = ExplicitBlockFractionBasis(fr)
        ev = EvenlySpacedBlockFractionBasis(n, step, offset)
        fb = FundamentalBlockFractionBasis(n)
        mb = MomentumBasis(kp)
        evf, fbf = ev.bloch_fractions, fb.bloch_fractions
    ctx.equal("explicit_fractions", eb.bloch_fractions, fr)
    ctx.equal("explicit_meta", [eb.n, eb.ndim], [n, nd])
    grid = np.arange(N) / N - 0.5
    ctx.close("even_fractions", evf, grid[None, (offset + step * np.arange(n)) % N], scale=0.5)
    ctx.close("fundamental_fractions", fbf, np.arange(n)[None] / n - 0.5, scale=0.5)
    ctx.check("real_fractions", np.isrealobj(evf) and np.isrealobj(fbf) and ev.ndim == fb.ndim == 1)
    ctx.equal("momentum", mb.k_points, kp)
    ctx.equal("momentum_n", mb.n, n)


@R.workload(60, 400)
def position_axes_independent(ctx):
    """The geometry of a stacked basis does not depend on grid resolution."""
    nd = ctx.randint(1, 3)
    dx = G.lattice(ctx.rng, nd)
    s1, s2 = (G.random_shape(ctx.rng, nd) for _ in range(2))
    ctx.note(dx=dx, s1=s1, s2=s2)
    b = [
        TupleBasis(*(FundamentalPositionBasis(d, s) for d, s in zip(dx, sh, strict=True)))
        for sh in (s1, s2)
    ]
    u = [BasisUtil(i) for i in b]
    with ctx.running("scale"):
        for a in ("dk_stacked", "delta_x_stacked"):
            ctx.close(a, getattr(u[0], a), getattr(u[1], a))
        ctx.close("volume", u[0].volume, u[1].volume)
        ctx.close("reciprocal_volume", u[0].reciprocal_volume, u[1].reciprocal_volume)
    ctx.check("tuple_slice", [x.n for x in b[0][:1]] == [s1[0]] and b[0][0].n == s1[0])
    ctx.check("iter", [x.n for x in b[0]] == list(s1) and isinstance(b[0][0], FundamentalBasis))
