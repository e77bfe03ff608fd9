"""Displacement operators: nearest periodic image in a cell."""

import itertools

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.operator import build as ob

R = Registry("O02")
RULE = (
    "Random cells (orthogonal, permuted, hexagonal or skewed axes), grids, truncations and origins (inside and far outside of the cell); "
    "monitors: every displacement differs from the plain difference by whole periods and is no longer than half "
    "of one. Non-trivial: at least one compared displacement."
)


def _nearest(ctx, name, out, plain, L):
    out = np.asarray(out)
    if not ctx.check(f"{name}_shape", out.shape == plain.shape, f"{out.shape} {plain.shape}"):
        return
    ctx.check(f"{name}_real", bool(np.all(np.imag(out) == 0)))
    out = np.real(out)
    k = (out - plain) / L
    tol = 1e-9 * (1 + np.abs(plain).max() / L)
    ctx.check(f"{name}_periodic", bool(np.all(np.abs(k - np.round(k)) < tol)), actual=out, expected=plain)
    ctx.check(f"{name}_nearest", bool(np.all(np.abs(out) <= L / 2 * (1 + 2 * tol))), actual=out, expected=plain)


@R.workload(200, 2500)
def grid(ctx):
    basis = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=40))
    ctx.note(basis=G.describe(basis))
    shape = basis.fundamental_shape
    with ctx.running("stacked"):
        out = ob.get_displacements_matrix_nx_stacked(basis)
    idx = np.array(np.unravel_index(np.arange(int(np.prod(shape))), shape))
    ctx.check("stacked_axes", len(out) == len(shape))
    for d, i, n in zip(out, idx, shape, strict=True):
        plain = i[:, None] - i[None, :]
        ctx.check("integer", np.asarray(d).dtype.kind == "i")
        _nearest(ctx, "stacked", d, plain, n)
        ctx.check("stacked_antisymmetric", bool(np.all((d + d.T) % n == 0)))
    one = basis[0]
    if ctx.flag(0.1):
        one = G.basis_1d(ctx.rng, ctx.randint(40, 400))
    with ctx.running("single"):
        d = ob.get_displacements_matrix_nx(one)
    i = np.arange(one.fundamental_n)
    _nearest(ctx, "single", d, i[:, None] - i[None, :], one.fundamental_n)


@R.workload(200, 2500)
def line(ctx):
    """One axis, which may point in any direction."""
    nd = ctx.randint(1, 3)
    dx = np.abs(ctx.rng.normal(size=nd)) + 0.1 if nd == 1 else ctx.rng.normal(size=nd)
    dx = dx * 10.0 ** ctx.randint(-10, 1)
    L = np.linalg.norm(dx)
    basis = G.basis_1d(ctx.rng, ctx.randint(1, 9), delta_x=dx, kinds=(*G.POS_KINDS, "evenly_kx"))
    origin = float(ctx.pick([0.0, L / 3, -5 * L, L * ctx.rng.normal()]))
    n = basis.fundamental_n
    ctx.note(basis=G.describe(basis), dx=dx, origin=origin)
    x = L * np.arange(n) / n
    with ctx.running("line"):
        v = ob.get_displacements_x(basis, origin)
        m = ob.get_displacements_matrix_x(basis, origin)
        m0 = ob.get_displacements_matrix_x(basis)
    _nearest(ctx, "points", v["data"], x - origin, L)
    plain = x[:, None] - x[None, :]
    _nearest(ctx, "matrix", m["data"], (plain - origin).ravel(), L)
    _nearest(ctx, "matrix_default", m0["data"], plain.ravel(), L)
    for b in (v["basis"], *m["basis"]):
        ctx.check("basis", b.n == n and np.allclose(b.delta_x, dx) and b.fundamental_n == n)


@R.workload(200, 2500)
def cell(ctx):
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=30, hi=6)
    kind = ctx.pick(["ortho", "ortho", "permuted", "hex", "skew"])
    dx = np.diag(ctx.rng.uniform(0.5, 3, size=nd))
    if kind == "permuted":
        dx = dx[ctx.rng.permutation(nd)] * ctx.pick([1, -1])
    elif kind == "hex":
        dx = G.lattice(ctx.rng, nd, "hex", si=False)
    elif kind == "skew":
        dx = np.eye(nd) * ctx.rng.uniform(1, 2) + ctx.rng.uniform(-0.15, 0.15, size=(nd, nd))
    dx = dx * 10.0 ** ctx.randint(-10, 1)
    L = np.linalg.norm(dx, axis=1)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    origin = tuple(float(x) for x in L * ctx.rng.normal(size=nd) * ctx.pick([0, 0.3, 4]))
    ctx.note(basis=G.describe(basis), origin=origin, kind=kind)
    idx = np.array(np.unravel_index(np.arange(int(np.prod(shape))), shape))
    x = [length * i / n for length, i, n in zip(L, idx, shape, strict=True)]
    with ctx.running("cell"):
        v = ob.get_displacements_x_stacked(basis, origin)
        m = ob.get_displacements_matrix_x_stacked(basis, origin)
        m0 = ob.get_displacements_matrix_x_stacked(basis, None)
        total = ob.get_total_displacements_matrix_x_stacked(basis, origin)
        total0 = ob.get_total_displacements_matrix_x_stacked(basis)
    N = int(np.prod(shape))
    near, near0 = [], []
    for ax in range(nd):
        plain = (x[ax][:, None] - x[ax][None, :]).ravel()
        _nearest(ctx, "points", v[ax]["data"], x[ax] - origin[ax], L[ax])
        _nearest(ctx, "matrix", m["data"].reshape(nd, -1)[ax], plain - origin[ax], L[ax])
        _nearest(ctx, "matrix_default", m0["data"].reshape(nd, -1)[ax], plain, L[ax])
        near.append((plain - origin[ax]) / L[ax])
        near0.append(plain / L[ax])
    for name, t, f in (("total", total, near), ("total_default", total0, near0)):
        f = np.array(f)  # noqa: PLW2901
        f = f - np.round(f)  # noqa: PLW2901
        images = [
            np.linalg.norm(dx.T @ (f + np.array(s)[:, None]), axis=0)
            for s in itertools.product((-2, -1, 0, 1, 2), repeat=nd)
        ]
        ctx.close(name, t["data"], np.min(images, axis=0), scale=L.max())
    ctx.check("basis", all(b.n == N and tuple(b.shape) == shape for b in total["basis"]))
    ctx.check("list_basis", m["basis"].shape == (nd, N * N) and m["data"].shape == (nd * N * N,))
    ctx.close("lattice", np.array([b.delta_x for b in total["basis"][0]]), dx)
