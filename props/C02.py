"""Conversions of states, operators, lists and probabilities are covariant."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.basis_like import convert_matrix
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import conversion as oc
from surface_potential_analysis.probability_vector import conversion as pc
from surface_potential_analysis.state_vector import conversion as sc

R = Registry("C02")
RULE = (
    "Random states, dual states, probability vectors, operators, diagonal operators and "
    "lists of each over random (row, column) bases; oracle: explicit matrices of basis "
    "states. Non-trivial: at least one comparison with the oracle."
)


def _tb(ctx, shape=None, kinds=G.KINDS, delta_x=None):
    shape = G.random_shape(ctx.rng, max_total=24) if shape is None else shape
    return G.tuple_basis(ctx.rng, shape, kinds=kinds, delta_x=delta_x)


def _basis(ctx, fn_shape, kinds=G.KINDS):
    if len(fn_shape) == 1 and ctx.flag():
        if ctx.flag(0.3):
            return G.explicit_1d(ctx.rng, fn_shape[0])
        return G.basis_1d(ctx.rng, fn_shape[0], kinds=kinds)
    return _tb(ctx, fn_shape, kinds)


def ref_op(m, a0, b0, a1, b1):
    """M'_{ij} = <b0_i| sum M_{kl} |a0_k><a1_l| |b1_j>."""
    full = G.states(a0).T @ m @ G.states(a1).conj()
    return G.states(b0).conj() @ full @ G.states(b1).T


def _val(ctx, *shape):
    if ctx.flag(0.25):
        return ctx.rng.normal(size=shape)
    return G.cplx(ctx.rng, *shape)


@R.workload(200, 4000)
def operators(ctx):
    s0 = G.random_shape(ctx.rng, max_total=16)
    s1 = s0 if ctx.flag() else G.random_shape(ctx.rng, max_total=16)
    a0, b0, a1, b1 = (_basis(ctx, s) for s in (s0, s0, s1, s1))
    if s0 == s1 and ctx.flag():
        a1 = a0
        if ctx.flag():
            b1 = b0
    if ctx.flag(0.2):
        b0 = a0
    ctx.note(a=[G.describe(a0), G.describe(a1)], b=[G.describe(b0), G.describe(b1)])
    m = _val(ctx, a0.n, a1.n)
    exp = ref_op(m, a0, b0, a1, b1)
    fl = float(np.abs(m).max())
    with ctx.running("operator"):
        out = oc.convert_operator_to_basis(
            {"basis": TupleBasis(a0, a1), "data": m.ravel()}, TupleBasis(b0, b1)
        )
    ctx.close("operator", out["data"], exp.ravel(), floor=fl)
    ctx.check("operator_basis", G.same(out["basis"][0], b0) and G.same(out["basis"][1], b1))
    with ctx.running("convert_matrix"):
        mat = convert_matrix(m, a0, b0, a1, b1)
        x = _val(ctx, a1.n, 2, a0.n)
        rev = convert_matrix(x, a0, b0, a1, b1, axes=(2, 0))
    ctx.close("convert_matrix", mat, exp, floor=fl)
    exp_rev = np.stack(
        [ref_op(x[:, i, :].T, a0, b0, a1, b1).T for i in range(2)], axis=1
    )
    ctx.close("convert_matrix_axes", rev, exp_rev, floor=1e-2)


@R.workload(150, 3000)
def operator_lists(ctx):
    s0 = G.random_shape(ctx.rng, max_total=12)
    s1 = s0 if ctx.flag() else G.random_shape(ctx.rng, max_total=12)
    a0, b0, a1, b1 = (_basis(ctx, s) for s in (s0, s0, s1, s1))
    n = ctx.randint(1, 4)
    lb = FundamentalBasis(n)
    ctx.note(n=n, a=[G.describe(a0), G.describe(a1)], b=[G.describe(b0), G.describe(b1)])
    m = _val(ctx, n, a0.n, a1.n)
    with ctx.running("operator_list"):
        out = oc.convert_operator_list_to_basis(
            {"basis": TupleBasis(lb, TupleBasis(a0, a1)), "data": m.ravel()},
            TupleBasis(b0, b1),
        )
    exp = np.array([ref_op(x, a0, b0, a1, b1) for x in m])
    ctx.close("operator_list", out["data"], exp.ravel(), floor=0.1)
    ctx.check("list_basis", G.same(out["basis"][0], lb) and out["basis"].shape == (n, b0.n * b1.n))


@R.workload(150, 3000)
def diagonal_operators(ctx):
    s0 = G.random_shape(ctx.rng, max_total=12)
    a, b0, b1 = (_basis(ctx, s0) for _ in range(3))
    n = ctx.randint(1, 3)
    d = _val(ctx, n, a.n)
    ctx.note(n=n, a=G.describe(a), b=[G.describe(b0), G.describe(b1)])
    exp = np.array([ref_op(np.diag(x), a, b0, a, b1) for x in d])
    with ctx.running("diagonal"):
        out = oc.convert_diagonal_operator_to_basis(
            {"basis": TupleBasis(a, a), "data": d[0]}, TupleBasis(b0, b1)
        )
    ctx.close("diagonal", out["data"], exp[0].ravel(), floor=0.1)
    with ctx.running("diagonal_list"):
        out = oc.convert_diagonal_operator_list_to_basis(
            {"basis": TupleBasis(FundamentalBasis(n), TupleBasis(a, a)), "data": d.ravel()},
            TupleBasis(b0, b1),
        )
    ctx.close("diagonal_list", out["data"], exp.ravel(), floor=0.1)


@R.workload(200, 4000)
def states_and_lists(ctx):
    s0 = G.random_shape(ctx.rng, max_total=30)
    a, b = _basis(ctx, s0), _basis(ctx, s0)
    n = ctx.randint(1, 4)
    lb = FundamentalBasis(n)
    v = _val(ctx, n, a.n)
    ctx.note(n=n, a=G.describe(a), b=G.describe(b))
    fl = float(np.abs(v).max())
    exp = G.ref_convert(v, a, b)
    one = {"basis": a, "data": v[0]}
    many = {"basis": TupleBasis(lb, a), "data": v.ravel()}
    with ctx.running("state"):
        s = sc.convert_state_vector_to_basis(one, b)
        d = sc.convert_state_dual_vector_to_basis(one, b)
        sl = sc.convert_state_vector_list_to_basis(many, b)
    ctx.close("state", s["data"], exp[0], floor=fl)
    ctx.check("state_basis", G.same(s["basis"], b) and G.same(d["basis"], b) and G.same(sl["basis"], TupleBasis(lb, b)))
    ctx.close("dual", d["data"], np.conj(G.ref_convert(np.conj(v[0]), a, b)), floor=fl)
    ctx.close("state_list", sl["data"], exp.ravel(), floor=fl)
    with ctx.running("probability"):
        p = pc.convert_probability_vector_to_basis(one, b)
        pl = pc.convert_probability_vector_list_to_basis(many, b)
    ctx.close("probability", p["data"], exp[0], floor=fl)
    ctx.close("probability_list", pl["data"], exp.ravel(), floor=fl)
    # <dual|state> does not depend on the basis they are expressed in
    full = _basis(ctx, s0, kinds=G.FULL_KINDS)
    if full.n == full.fundamental_n:
        w = _val(ctx, a.n)
        with ctx.running("pairing"):
            x = sc.convert_state_dual_vector_to_basis({"basis": a, "data": np.conj(w)}, full)
            y = sc.convert_state_vector_to_basis(one, full)
        ctx.close(
            "pairing", np.dot(x["data"], y["data"]), np.dot(np.conj(w), v[0]),
            scale=1 + np.linalg.norm(w) * np.linalg.norm(v[0]),
        )


@R.workload(120, 2000)
def position_momentum(ctx):
    """The named conversions: to the position / momentum grid of the same cell."""
    shape = G.random_shape(ctx.rng, max_total=40)
    dx = G.lattice(ctx.rng, len(shape))
    a = _tb(ctx, shape, kinds=G.POS_KINDS + ("evenly_kx",), delta_x=dx)
    v = _val(ctx, a.n)
    one = {"basis": a, "data": v}
    ctx.note(a=G.describe(a))
    x = G.ref_fundamental(v, a)
    k = np.fft.fftn(x.reshape(shape), norm="ortho").ravel()
    xd = np.conj(G.ref_fundamental(np.conj(v), a))
    kd = np.conj(np.fft.fftn(np.conj(xd).reshape(shape), norm="ortho").ravel())
    for name, fn, exp in (
        ("position", sc.convert_state_vector_to_position_basis, x),
        ("momentum", sc.convert_state_vector_to_momentum_basis, k),
        ("dual_position", sc.convert_state_dual_vector_to_position_basis, xd),
        ("dual_momentum", sc.convert_state_dual_vector_to_momentum_basis, kd),
        ("prob_position", pc.convert_probability_vector_to_position_basis, x),
        ("prob_momentum", pc.convert_probability_vector_to_momentum_basis, k),
    ):
        with ctx.running(name):
            out = fn(one)
        ctx.close(name, out["data"], exp, floor=float(np.abs(v).max()))
        ctx.check(name + "_shape", tuple(out["basis"].shape) == tuple(shape))
        ctx.close(name + "_cell", out["basis"].delta_x_stacked, dx)


@R.workload(120, 2000)
def momentum_interpolation(ctx):
    """The same wavefunction on a finer grid: values at the old points are kept."""
    shape = G.random_shape(ctx.rng, max_total=24)
    ndim = len(shape)
    dx = G.lattice(ctx.rng, ndim)
    a = _tb(ctx, shape, kinds=G.POS_KINDS, delta_x=dx)
    m = ctx.randint(1, ndim)
    axes = tuple(int(i) for i in ctx.rng.permutation(ndim)[:m])
    factor = [ctx.randint(1, 3) for _ in axes]
    final = tuple(shape[ax] * f for ax, f in zip(axes, factor, strict=True))
    v = _val(ctx, a.n)
    ctx.note(a=G.describe(a), axes=axes, final=final)
    with ctx.running("interpolate"):
        out = sc.interpolate_state_vector_momentum({"basis": a, "data": v}, final, axes)
    fshape = list(shape)
    for ax, n in zip(axes, final, strict=True):
        fshape[ax] = n
    if not ctx.equal("final_shape", out["basis"].fundamental_shape, tuple(fshape)):
        return
    ctx.close("cell", out["basis"].delta_x_stacked, dx)
    fine = G.ref_fundamental(out["data"], out["basis"]).reshape(fshape)
    sl = tuple(slice(None, None, f // s) for f, s in zip(fshape, shape, strict=True))
    coarse = G.ref_fundamental(v, a).reshape(shape)
    ctx.close("same_values", fine[sl], coarse, floor=float(np.abs(v).max()))
