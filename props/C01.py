"""Vector conversion between bases: observed against explicit inner products."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.basis.stacked_basis import TupleBasis

R = Registry("C01")
RULE = (
    "Random pairs of bases (12 kinds, 1-3 axes, odd/even/one-point sizes, arbitrary "
    "lattice, negative and wrapped offsets) and random vectors in arrays of random rank, "
    "axis, dtype and memory order. Non-trivial: at least one oracle comparison ran."
)


def _data(ctx, shape):
    kind = ctx.pick(["complex", "complex", "real", "int", "fortran", "strided"])
    if kind == "real":
        v = ctx.rng.normal(size=shape)
    elif kind == "int":
        v = ctx.rng.integers(-5, 6, size=shape)
    else:
        v = G.cplx(ctx.rng, *shape)
        if kind == "fortran":
            v = np.asfortranarray(v)
        if kind == "strided":
            v = np.repeat(v, 2, axis=-1)[..., ::2]
    ctx.note(dtype=kind)
    return v


def _pair_1d(ctx):
    fn = ctx.randint(1, 12)
    mk = lambda: (  # noqa: E731
        G.explicit_1d(ctx.rng, fn) if ctx.flag(0.15) else G.basis_1d(ctx.rng, fn)
    )
    a, b = mk(), mk()
    if ctx.flag(0.12):
        b = a
    return a, b


def _pair_nd(ctx):
    shape = G.random_shape(ctx.rng)
    mk = lambda: G.tuple_basis(ctx.rng, shape)  # noqa: E731
    a, b = mk(), mk()
    if ctx.flag(0.3):
        # share one or more axis objects, or the whole basis
        keep = [ctx.flag(0.6) for _ in shape]
        b = TupleBasis(*(x if k else y for x, y, k in zip(a, b, keep, strict=True)))
    return a, b


def _expected(v, a, b, axis):
    moved = np.moveaxis(v, axis, -1)
    return np.moveaxis(G.ref_convert(moved, a, b), -1, axis)


def _run(ctx, a, b):
    rank = ctx.randint(0, 2)
    other = [ctx.randint(1, 3) for _ in range(rank)]
    axis = ctx.randint(0, rank)
    shape = list(other)
    shape.insert(axis, a.n)
    v = _data(ctx, tuple(shape))
    given_axis = axis if ctx.flag() else axis - (rank + 1)
    ctx.note(a=G.describe(a), b=G.describe(b), shape=shape, axis=given_axis)
    before = v.copy()
    with ctx.running("convert_vector"):
        out = convert_vector(v, a, b, given_axis)
    sc = max(1e-3, float(np.abs(v).max()))
    ctx.close("convert_vector", out, _expected(v, a, b, axis), floor=sc)
    ctx.equal("input_unchanged", v, before)
    with ctx.running("convert_dual"):
        dual = convert_dual_vector(v, a, b, given_axis)
    ctx.close("convert_dual", dual, np.conj(_expected(np.conj(v), a, b, axis)), floor=sc)
    return v, out


@R.workload(400, 6000)
def one_axis(ctx):
    a, b = _pair_1d(ctx)
    _run(ctx, a, b)


@R.workload(300, 4000)
def stacked(ctx):
    a, b = _pair_nd(ctx)
    _run(ctx, a, b)


@R.workload(150, 2000)
def default_axis_and_flat(ctx):
    """The form used by every state: one flat vector, default axis; chains of bases."""
    shape = G.random_shape(ctx.rng)
    a = G.tuple_basis(ctx.rng, shape, kinds=G.FULL_KINDS)
    v = _data(ctx, (a.n,))
    ctx.note(a=G.describe(a))
    start = G.ref_fundamental(v, a)
    cur_basis, cur = a, v
    path = []
    for _ in range(ctx.randint(1, 4)):
        nxt = G.tuple_basis(ctx.rng, shape, kinds=G.FULL_KINDS)
        path.append(G.describe(nxt))
        with ctx.running("chain"):
            cur = convert_vector(cur, cur_basis, nxt)
        cur_basis = nxt
        ctx.check("complex_out", np.iscomplexobj(cur), f"dtype {cur.dtype}")
        ctx.close("chain", G.ref_fundamental(cur, cur_basis), start)
        ctx.close("norm", np.linalg.norm(cur), np.linalg.norm(v))
    ctx.note(path=path)
    with ctx.running("chain"):
        back = convert_vector(cur, cur_basis, a)
    ctx.close("round_trip", back, v)


@R.workload(150, 2000)
def projection(ctx):
    """Through a smaller basis: idempotent, never longer than the input."""
    shape = G.random_shape(ctx.rng)
    a = G.tuple_basis(ctx.rng, shape, kinds=G.FULL_KINDS)
    b = G.tuple_basis(ctx.rng, shape)
    v = _data(ctx, (a.n,))
    ctx.note(a=G.describe(a), b=G.describe(b))
    with ctx.running("projection"):
        p1 = convert_vector(v, a, b)
        lifted = convert_vector(p1, b, a)
        p2 = convert_vector(lifted, a, b)
    ctx.close("idempotent", p2, p1, scale=max(np.linalg.norm(v), 1e-3))
    ctx.check("contraction", np.linalg.norm(p1) <= np.linalg.norm(v) * (1 + 1e-9))
    ctx.close("lift_isometric", np.linalg.norm(lifted), np.linalg.norm(p1), scale=max(np.linalg.norm(v), 1e-3))
    w = _data(ctx, (a.n,))
    c = complex(*ctx.rng.normal(size=2))
    with ctx.running("projection"):
        lin = convert_vector(v + c * w, a, b)
        q = convert_vector(w, a, b)
    ctx.close("linear", lin, p1 + c * q, scale=1 + np.linalg.norm(v) + np.linalg.norm(w))


@R.workload(150, 1500)
def basis_states(ctx):
    """The states a basis reports are the states it converts with."""
    basis = _pair_nd(ctx)[0] if ctx.flag() else _pair_1d(ctx)[0]
    ctx.note(basis=G.describe(basis))
    with ctx.running("vectors"):
        vecs = BasisUtil(basis).vectors
    ref = G.states(basis)
    ctx.close("vectors", vecs, ref)
    ctx.close("orthonormal", vecs @ vecs.conj().T, np.eye(basis.n))
    fn = basis.fundamental_n
    x = G.cplx(ctx.rng, 2, fn)
    with ctx.running("fundamental"):
        f = basis.__from_fundamental__(x)
        t = basis.__from_transformed__(x)
        c = G.cplx(ctx.rng, 2, basis.n)
        inf = basis.__into_fundamental__(c)
        intr = basis.__into_transformed__(c)
    ctx.close("from_fundamental", f, x @ ref.conj().T)
    ctx.close("into_fundamental", inf, c @ ref)
    # momentum representation: normalised forward transform per stacked axis
    shape = basis.fundamental_shape if isinstance(basis, TupleBasis) else (fn,)
    ft = lambda y: np.fft.fftn(  # noqa: E731
        y.reshape(2, *shape), axes=tuple(range(1, 1 + len(shape))), norm="ortho"
    ).reshape(2, -1)
    ift = lambda y: np.fft.ifftn(  # noqa: E731
        y.reshape(2, *shape), axes=tuple(range(1, 1 + len(shape))), norm="ortho"
    ).reshape(2, -1)
    ctx.close("into_transformed", intr, ft(c @ ref))
    ctx.close("from_transformed", t, ift(x) @ ref.conj().T)
