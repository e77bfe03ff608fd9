"""Explicit bases: the states given are the states of the basis."""

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.basis_like import convert_dual_vector, convert_vector
from surface_potential_analysis.basis.explicit_basis import (
    ExplicitBasis,
    ExplicitBasisWithLength,
    ExplicitStackedBasisWithLength,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.conversion import basis_as_fundamental_basis
from surface_potential_analysis.basis.util import BasisUtil
from surface_potential_analysis.state_vector.state_vector_list import get_basis_states

R = Registry("C03")
RULE = (
    "Explicit bases (orthonormal or not, complex, fewer states than the space) over every kind "
    "of inner basis, alone or inside a stacked basis; oracle: the overlap with the dense vectors. "
    "Non-trivial: at least one compared conversion."
)


def _inner(ctx, stacked):
    if stacked:
        shape = G.random_shape(ctx.rng, max_total=40)
        return G.tuple_basis(ctx.rng, shape, kinds=G.POS_KINDS)
    return G.basis_1d(ctx.rng, ctx.randint(1, 9), kinds=G.POS_KINDS)


def _make(ctx):
    stacked = ctx.flag()
    inner = _inner(ctx, stacked)
    n = ctx.randint(1, inner.n)
    orth = ctx.flag()
    v = G.explicit_vectors(ctx.rng, n, inner, orthonormal=orth)
    cls = ctx.pick([ExplicitBasis, ExplicitStackedBasisWithLength if stacked else ExplicitBasisWithLength])
    ctx.note(inner=G.describe(inner), n=n, orth=orth, cls=cls.__name__)
    with ctx.running("build"):
        b = cls.from_state_vectors(v) if ctx.flag() else cls(v)
    return b, v, inner, n, orth, cls, stacked


@R.workload(300, 5000)
def attributes(ctx):
    b, v, inner, n, _o, cls, stacked = _make(ctx)
    ctx.check("n", b.n == n and b.fundamental_n == inner.fundamental_n, actual=[b.n, b.fundamental_n])
    raw = np.asarray(v["data"]).reshape(n, -1)
    ctx.close("vectors", np.asarray(b.vectors["data"]).reshape(n, -1), raw)
    ctx.check("vectors_basis", G.same(b.vectors["basis"][1], inner) and b.vectors["basis"][0].n == n)
    with ctx.running("fundamental_raw_vectors"):
        f = b.fundamental_raw_vectors
    ctx.close("fundamental_raw_vectors", f, raw @ G.states(inner))
    if cls is ExplicitBasisWithLength:
        ctx.close("delta_x", b.delta_x, inner.delta_x)
    if cls is ExplicitStackedBasisWithLength:
        ctx.close("delta_x_stacked", b.delta_x_stacked, np.array([a.delta_x for a in inner]))
        ctx.check("fundamental_shape", tuple(b.fundamental_shape) == tuple(a.fundamental_n for a in inner))
        with ctx.running("lattice"):
            x = BasisUtil(b).delta_x_stacked
        ctx.close("lattice", x, np.array([a.delta_x for a in inner]))


@R.workload(400, 6000)
def conversion(ctx):
    b, v, inner, n, orth, _cls, stacked = _make(ctx)
    S = np.asarray(v["data"]).reshape(n, -1) @ G.states(inner)
    lead = ctx.pick([(), (2,), (2, 3)])
    axis = ctx.randint(0, len(lead))
    if ctx.flag():
        axis -= len(lead) + 1
    real = ctx.flag(0.25)

    def data(m):
        out = ctx.rng.normal(size=(*lead, m)) if real else G.cplx(ctx.rng, *lead, m)
        return out, np.moveaxis(out, -1, axis)

    ctx.note(lead=lead, axis=axis, real=real)
    flat, arr = data(n)
    keep = arr.copy()
    with ctx.running("into_fundamental"):
        out = b.__into_fundamental__(arr, axis)
    ctx.close("into_fundamental", np.moveaxis(out, axis, -1), flat @ S)
    ctx.equal("input_unchanged", arr, keep)
    N = inner.fundamental_n
    with ctx.running("into_transformed"):
        out = b.__into_transformed__(arr, axis)
    F = G.states(G.tuple_basis(ctx.rng, tuple(a.fundamental_n for a in inner), kinds=("fundamental_k",))) if stacked else G.states(G.basis_1d(ctx.rng, N, kind="fundamental_k"))
    ctx.close("into_transformed", np.moveaxis(out, axis, -1), flat @ S @ F.conj().T)
    flat, arr = data(N)
    with ctx.running("from_fundamental"):
        out = b.__from_fundamental__(arr, axis)
    ctx.close("from_fundamental", np.moveaxis(out, axis, -1), flat @ S.conj().T)
    with ctx.running("from_transformed"):
        out = b.__from_transformed__(arr, axis)
    ctx.close("from_transformed", np.moveaxis(out, axis, -1), flat @ F @ S.conj().T)
    # vectors given in a basis over the same grid
    other = (G.tuple_basis(ctx.rng, tuple(a.fundamental_n for a in inner), kinds=G.POS_KINDS)
             if stacked else G.basis_1d(ctx.rng, N, kinds=G.POS_KINDS))
    flat, arr = data(other.n)
    ctx.note(other=G.describe(other))
    with ctx.running("convert"):
        out = convert_vector(arr, other, b, axis)
    ctx.close("convert", np.moveaxis(out, axis, -1), flat @ G.states(other) @ S.conj().T)
    flat, arr = data(n)
    with ctx.running("convert_back"):
        out = convert_vector(arr, b, other, axis)
    ctx.close("convert_back", np.moveaxis(out, axis, -1), flat @ S @ G.states(other).conj().T)
    if orth:
        # a state in the span is recovered exactly
        with ctx.running("round_trip"):
            full = basis_as_fundamental_basis(inner)
            back = convert_vector(convert_vector(arr, b, full, axis), full, b, axis)
        ctx.close("round_trip", back, arr)


@R.workload(150, 2000)
def nested(ctx):
    """Explicit bases as the axes of a stacked basis, over explicit bases."""
    n = ctx.randint(2, 6)
    a = G.explicit_1d(ctx.rng, n)
    if ctx.flag():
        m = ctx.randint(1, a.n)
        a = ExplicitBasisWithLength(G.explicit_vectors(ctx.rng, m, a))
    c = G.basis_1d(ctx.rng, ctx.randint(1, 4), kinds=G.POS_KINDS)
    axes = [a, c]
    if ctx.flag():
        axes.reverse()
    b = TupleBasis(*axes)
    other = TupleBasis(*(G.basis_1d(ctx.rng, i.fundamental_n, kinds=G.POS_KINDS) for i in axes))
    ctx.note(b=G.describe(b), other=G.describe(other))
    v = G.cplx(ctx.rng, 2, b.n)
    with ctx.running("nested_from"):
        out = convert_vector(v, b, other, -1)
    ctx.close("nested_from", out, G.ref_convert(v, b, other))
    v = G.cplx(ctx.rng, 2, other.n)
    with ctx.running("nested_into"):
        out = convert_vector(v, other, b, -1)
    ctx.close("nested_into", out, G.ref_convert(v, other, b))


@R.workload(200, 3000)
def from_basis(ctx):
    stacked = ctx.flag()
    inner = _inner(ctx, stacked)
    ctx.note(inner=G.describe(inner))
    cls = ctx.pick([ExplicitBasis, ExplicitStackedBasisWithLength if stacked else ExplicitBasisWithLength])
    with ctx.running("from_basis"):
        b = cls.from_basis(inner)
        st = get_basis_states(inner)
    ctx.check("class", isinstance(b, cls))
    ctx.check("n", b.n == inner.n and b.fundamental_n == inner.fundamental_n)
    ctx.close("states", G.states(b), G.states(inner))
    rows = np.asarray(st["data"])
    ctx.check("flat", rows.ndim == 1)
    ctx.close("basis_states", rows.reshape(inner.n, -1) @ G.states(st["basis"][1]), G.states(inner))
    ctx.check("basis_states_n", st["basis"][0].n == inner.n)
    v = G.cplx(ctx.rng, inner.n)
    with ctx.running("same_coefficients"):
        out = convert_vector(v, inner, b, -1)
    ctx.close("same_coefficients", out, v)


@R.workload(100, 1500)
def dual(ctx):
    b, v, inner, n, _o, _c, stacked = _make(ctx)
    S = np.asarray(v["data"]).reshape(n, -1) @ G.states(inner)
    x = G.cplx(ctx.rng, n)
    full = basis_as_fundamental_basis(inner)
    with ctx.running("dual_convert"):
        out = convert_dual_vector(x, b, full, -1)
    ctx.close("dual_convert", out, np.conj(np.conj(x) @ S))
