"""Random inputs and the independent reference model of bases."""

from __future__ import annotations

import numpy as np

from surface_potential_analysis.basis.basis import (
    FundamentalBasis,
    FundamentalPositionBasis,
    FundamentalTransformedBasis,
    FundamentalTransformedPositionBasis,
    TransformedBasis,
    TransformedPositionBasis,
    TruncatedBasis,
    TruncatedPositionBasis,
)
from surface_potential_analysis.basis.evenly_spaced_basis import (
    EvenlySpacedBasis,
    EvenlySpacedTransformedBasis,
    EvenlySpacedTransformedPositionBasis,
)
from surface_potential_analysis.basis.explicit_basis import (
    ExplicitBasis,
    ExplicitBasisWithLength,
    ExplicitStackedBasisWithLength,
)
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import (
    EvenlySpacedTimeBasis,
    ExplicitTimeBasis,
    FundamentalTimeBasis,
)


# ------------------------------------------------------------- random numbers
_case = (None, 1.0)


def magnitude(rng):
    """One, or (for the whole case) a magnitude found in SI units such as joules."""
    global _case  # noqa: PLW0603
    if _case[0] is not rng:
        u = rng.random()
        m = 10.0 ** rng.uniform(-25, -12) if u < 0.15 else 1.0
        _case = (rng, m)
    return _case[1]


def cplx(rng, *shape):
    return magnitude(rng) * (rng.normal(size=shape) + 1j * rng.normal(size=shape))


def hermitian(rng, n):
    a = cplx(rng, n, n)
    return a + a.conj().T


def psd(rng, n, rank=None):
    a = cplx(rng, n, n if rank is None else rank)
    return a @ a.conj().T


def unitary(rng, n):
    q, r = np.linalg.qr(cplx(rng, n, n))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def lattice(rng, ndim, kind=None, *, si=True):
    """Well conditioned lattice vectors, one per row (right or left handed)."""
    kind = kind or ["skew", "ortho", "permuted", "hex"][int(rng.integers(4))]
    scale = 10.0 ** rng.uniform(-1, 1) * (1e-10 if si and rng.random() < 0.4 else 1.0)
    if kind == "ortho":
        out = np.diag(rng.uniform(0.5, 3.0, size=ndim))
    elif kind == "permuted":
        out = np.diag(rng.uniform(0.5, 3.0, size=ndim))[rng.permutation(ndim)]
    elif kind == "hex" and ndim >= 2:
        out = np.eye(ndim) * rng.uniform(0.8, 1.6)
        out[1, :2] = [out[0, 0] * 0.5, out[0, 0] * np.sqrt(3) / 2]
    else:
        out = np.eye(ndim) * rng.uniform(0.8, 2.0)
        out = out + rng.uniform(-0.35, 0.35, size=(ndim, ndim))
    return scale * out


# ------------------------------------------------------------- basis makers
def freq(n):
    """Frequencies of an n point transform, in storage order."""
    return np.round(np.fft.fftfreq(n, 1.0 / n)).astype(int)


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


KINDS = (
    "fundamental",
    "fundamental_x",
    "truncated",
    "truncated_x",
    "transformed",
    "transformed_x",
    "fundamental_k",
    "fundamental_kx",
    "evenly",
    "evenly_k",
    "evenly_kx",
    "time",
)
FULL_KINDS = ("fundamental", "fundamental_x", "fundamental_k", "fundamental_kx")
POS_KINDS = ("fundamental_x", "transformed_x", "fundamental_kx", "truncated_x")


def basis_1d(rng, fn, *, kind=None, n=None, delta_x=None, kinds=KINDS):
    kind = kind or kinds[int(rng.integers(len(kinds)))]
    dx = np.array([rng.uniform(0.5, 4.0)]) if delta_x is None else delta_x
    n = int(rng.integers(1, fn + 1)) if n is None else n
    if kind == "fundamental":
        return FundamentalBasis(fn)
    if kind == "fundamental_x":
        return FundamentalPositionBasis(dx, fn)
    if kind == "truncated":
        return TruncatedBasis(n, fn)
    if kind == "truncated_x":
        return TruncatedPositionBasis(dx, n, fn)
    if kind == "transformed":
        return TransformedBasis(n, fn)
    if kind == "transformed_x":
        return TransformedPositionBasis(dx, n, fn)
    if kind == "fundamental_k":
        return FundamentalTransformedBasis(fn)
    if kind == "fundamental_kx":
        return FundamentalTransformedPositionBasis(dx, fn)
    step = divisors(fn)[int(rng.integers(len(divisors(fn))))]
    offset = int(rng.integers(-fn, 2 * fn))
    if kind == "evenly":
        return EvenlySpacedBasis(fn // step, step, offset)
    if kind == "evenly_k":
        return EvenlySpacedTransformedBasis(fn // step, step, offset)
    if kind == "evenly_kx":
        return EvenlySpacedTransformedPositionBasis(
            dx, n=fn // step, step=step, offset=offset
        )
    if kind == "time":
        return EvenlySpacedTimeBasis(fn // step, step, offset, float(dx[0]))
    raise ValueError(kind)


#: share of the cases with one long axis, and the size from which a workload has them
LONG, LONG_FROM = 0.05, 12


def random_shape(rng, ndim=None, *, max_total=60, lo=1, hi=7):
    ndim = int(rng.integers(1, 4)) if ndim is None else ndim
    top = min(72, 3 * max_total) // lo ** (ndim - 1) if ndim else 0
    if max_total >= LONG_FROM and top > hi + 1 and rng.uniform() < LONG:
        # an axis which is much longer than those of most cases
        shape = [lo] * ndim
        shape[int(rng.integers(ndim))] = int(rng.integers(hi + 1, top + 1))
        return tuple(shape)
    while True:
        shape = tuple(int(i) for i in rng.integers(lo, hi + 1, size=ndim))
        if np.prod(shape) <= max_total:
            return shape


def tuple_basis(rng, shape, *, delta_x=None, kinds=KINDS):
    delta_x = lattice(rng, len(shape)) if delta_x is None else delta_x
    return TupleBasis(
        *(
            basis_1d(rng, s, delta_x=dx, kinds=kinds)
            for s, dx in zip(shape, delta_x, strict=True)
        )
    )


def explicit_vectors(rng, n, inner, *, orthonormal=True):
    m = inner.n
    if orthonormal:
        data = unitary(rng, m)[:n]
    else:
        data = cplx(rng, n, m)
    return {
        "basis": TupleBasis(FundamentalBasis(n), inner),
        "data": np.ascontiguousarray(data).ravel(),
    }


def explicit_1d(rng, fn, *, delta_x=None, kinds=POS_KINDS, n=None):
    inner = basis_1d(rng, fn, kinds=kinds, delta_x=delta_x)
    n = int(rng.integers(1, inner.n + 1)) if n is None else min(n, inner.n)
    return ExplicitBasisWithLength(explicit_vectors(rng, n, inner))


# --------------------------------------------------- the reference: <x|b_j>
def states(basis):
    """Rows: the basis states, in the fundamental (position) basis.

    Derived from the attributes of the basis only, never from its conversions.
    """
    if isinstance(basis, ExplicitBasis):
        inner = basis.vectors["basis"][1]
        raw = np.asarray(basis.vectors["data"]).reshape(basis.vectors["basis"][0].n, -1)
        return raw @ states(inner)
    if isinstance(basis, TupleBasis):
        out = np.ones((1, 1), dtype=complex)
        for b in basis:
            out = np.kron(out, states(b))
        return out
    if isinstance(basis, EvenlySpacedTransformedBasis):
        N = basis.n * basis.step
        k = (basis.offset + basis.step * np.arange(basis.n)) % N
        return np.exp(2j * np.pi * np.outer(k, np.arange(N)) / N) / np.sqrt(N)
    if isinstance(basis, EvenlySpacedBasis):
        N = basis.n * basis.step
        i = (basis.offset + basis.step * np.arange(basis.n)) % N
        return np.eye(N, dtype=complex)[i]
    if isinstance(basis, TransformedBasis):
        N, n = basis.fundamental_n, basis.n
        return np.exp(2j * np.pi * np.outer(freq(n), np.arange(N)) / N) / np.sqrt(N)
    if isinstance(basis, TruncatedBasis):
        N, n = basis.fundamental_n, basis.n
        return np.eye(N, dtype=complex)[freq(n) % N]
    if isinstance(basis, FundamentalBasis):
        return np.eye(basis.n, dtype=complex)
    msg = f"no reference for {type(basis)}"
    raise TypeError(msg)


def ref_convert(vec, initial, final):
    """c_j = <final_j| sum_i v_i |initial_i>> along the last axis."""
    v = np.asarray(vec)
    return (v @ states(initial)) @ states(final).conj().T


def ref_fundamental(vec, basis):
    return np.asarray(vec) @ states(basis)


def describe(basis):
    if isinstance(basis, TupleBasis):
        return [describe(b) for b in basis]
    name = type(basis).__name__
    bits = [name]
    if isinstance(basis, ExplicitBasis):
        return [name, basis.vectors["basis"][0].n, describe(basis.vectors["basis"][1])]
    for a in ("n", "fundamental_n", "step", "offset"):
        if hasattr(basis, a):
            bits.append(f"{a}={getattr(basis, a)}")
    if hasattr(basis, "delta_x"):
        bits.append("dx=" + ",".join(f"{x:.3g}" for x in np.ravel(basis.delta_x)))
    return " ".join(bits)


__all__ = [n for n in dir() if not n.startswith("_")]


def same(a, b):
    """The two bases describe the same states (not necessarily the same object)."""
    return a is b or (a.n == b.n and describe(a) == describe(b))


__all__.append("same")
