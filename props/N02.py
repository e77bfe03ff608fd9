"""Noise operators which reproduce a kernel."""

import math

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.kernel.solve import (
    get_linear_noise_operators_explicit_taylor_expansion as linear_taylor,
)
from surface_potential_analysis.kernel.solve import _fft as kf
from surface_potential_analysis.kernel.solve import _taylor as kt
from surface_potential_analysis.kernel.solve import _util as ku

R = Registry("N02")
RULE = (
    "Random isotropic kernels (complex hermitian, real even, separable, trigonometric polynomials) on one or several "
    "axes, number of retained terms and periodic samples; oracle: the kernel rebuilt from the returned operators and "
    "coefficients by the explicit sum, compared with the requested correlation at every pair of points. Non-trivial: "
    "at least one rebuilt kernel."
)


def _rebuild(ctx, name, o, n):
    L = np.asarray(o["data"])
    e = np.asarray(o["eigenvalue"])
    ctx.check(f"{name}_flat", L.ndim == 1 and e.ndim == 1)
    count = o["basis"][0].n
    ctx.check(f"{name}_count", e.size == count and L.size == count * n, f"{count} operators, {e.size} coefficients, {L.size} values")
    L = L.reshape(-1, n)
    return np.einsum("a,ai,aj->ij", e, L.conj(), L)


def _as_diag(v, shape):
    v = np.asarray(v).reshape(shape)
    idx = [x.ravel() for x in np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")]
    return v[tuple((i[:, None] - i[None, :]) % s for i, s in zip(idx, shape, strict=True))]


def _unit(ctx):
    """Kernels are given in any units: J^2 or meV^2."""
    return 10.0 ** ctx.pick((-42, 0, 0, 20))


def _hermitian(ctx, shape):
    return np.fft.ifftn(ctx.rng.normal(size=shape))


def _even(ctx, n, positive=False):
    f = ctx.rng.normal(size=n)
    if positive:
        f = np.abs(f)
    if ctx.flag(0.4):
        # a smooth kernel: the coefficients fall below rounding
        d = np.minimum(np.arange(n), n - np.arange(n))
        f = np.exp(-d * ctx.rng.uniform(1, 6))
    f = (f + np.roll(f[::-1], 1)) / 2
    return np.fft.ifft(f).real * n + 0j


def _restrict(v, f):
    """The correlation at small displacements, repeated with a shorter period."""
    n = len(v)
    out = np.zeros(f, dtype=complex)
    for i in G.freq(f):
        out[i] = v[i % n]
    return out


def _short(ctx, n):
    f = ctx.pick(G.divisors(n))
    # an even sample has one point whose displacement has no definite sign
    return f if f % 2 or f == n else n


@R.workload(200, 2500)
def fft(ctx):
    n = ctx.randint(1, 24)
    b = G.basis_1d(ctx.rng, n, kinds=G.FULL_KINDS)
    f = None if ctx.flag() else _short(ctx, n)
    v = _hermitian(ctx, (n,)) * 10.0 ** ctx.pick((-20, 0, 20))
    ctx.note(n=n, fundamental_n=f)
    k = {"basis": b, "data": v}
    with ctx.running("fft"):
        o = kf.get_periodic_noise_operators_isotropic_fft(k, fundamental_n=f)
    exp = _restrict(v, f or n)
    i = np.arange(n)
    ctx.close("kernel", _rebuild(ctx, "fft", o, n), exp[(i[:, None] - i[None, :]) % len(exp)], scale=np.abs(v).max())
    ctx.check("basis", all(G.same(x, b) for x in o["basis"][1]))
    bad = n + 1
    ctx.raises("not_periodic", AssertionError, kf.get_periodic_noise_operators_isotropic_fft, k, fundamental_n=bad)


@R.workload(200, 2500)
def real_fft(ctx):
    n = ctx.randint(1, 24)
    b = G.basis_1d(ctx.rng, n, kinds=G.FULL_KINDS)
    v = _even(ctx, n) * 10.0 ** ctx.pick((-20, 0, 20))
    terms = None
    f = ctx.pick(G.divisors(n))
    if ctx.flag() and f % 2:
        terms = f // 2
    ctx.note(n=n, terms=terms)
    k = {"basis": b, "data": v}
    with ctx.running("fft"):
        o = kf.get_periodic_noise_operators_real_isotropic_fft(k, n=terms)
    exp = _restrict(v, n if terms is None else f)
    i = np.arange(n)
    ctx.close("kernel", _rebuild(ctx, "fft", o, n), exp[(i[:, None] - i[None, :]) % len(exp)], scale=np.abs(v).max())
    ctx.close("real_operators", np.imag(o["data"]), np.zeros(len(np.ravel(o["data"]))).reshape(np.shape(o["data"])))
    ctx.check("basis", all(G.same(x, b) for x in o["basis"][1]))


@R.workload(150, 1800)
def stacked_fft(ctx):
    shape = G.random_shape(ctx.rng, max_total=40)
    b = G.tuple_basis(ctx.rng, shape, kinds=G.FULL_KINDS)
    f = None if ctx.flag() else tuple(_short(ctx, s) for s in shape)
    v = _hermitian(ctx, shape) * _unit(ctx)
    ctx.note(shape=shape, fundamental_shape=f)
    k = {"basis": b, "data": v.ravel()}
    with ctx.running("fft"):
        o = kf.get_periodic_noise_operators_isotropic_stacked_fft(k, fundamental_shape=f)
    exp = v
    for a, m in enumerate(f or shape):
        exp = np.take(exp, [i % shape[a] for i in G.freq(m)], axis=a)
    idx = [x.ravel() for x in np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")]
    exp = exp[tuple((i[:, None] - i[None, :]) % m for i, m in zip(idx, f or shape, strict=True))]
    ctx.close("kernel", _rebuild(ctx, "fft", o, b.n), exp, scale=np.abs(v).max())
    ctx.check("shape", o["basis"][0].shape == tuple(f or shape))
    bad = list(f or shape)
    for a in ctx.rng.permutation(len(shape))[: ctx.randint(1, len(shape))]:
        bad[a] = shape[a] + 1
    bad = tuple(bad)
    ctx.raises("not_periodic", AssertionError, kf.get_periodic_noise_operators_isotropic_stacked_fft, k, fundamental_shape=bad)


def _separable(ctx, shape):
    parts = [_even(ctx, s) for s in shape]
    for p in parts:
        p += abs(p[0]) + np.abs(p).max() - p.real.min()
    out = parts[0]
    parts[0] *= _unit(ctx)
    out = parts[0]
    for p in parts[1:]:
        out = np.multiply.outer(out, p)
    return parts, out


@R.workload(150, 1800)
def separable(ctx):
    shape = G.random_shape(ctx.rng, max_total=40)
    b = G.tuple_basis(ctx.rng, shape, kinds=("fundamental_x",))
    parts, v = _separable(ctx, shape)
    ctx.note(shape=shape)
    k = {"basis": b, "data": v.ravel()}
    with ctx.running("axis"):
        ks = ku.get_fundamental_axis_kernels_from_isotropic(k)
    for x, p, y in zip(ks, parts, b, strict=True):
        ctx.close("axis", np.asarray(x["data"]) / x["data"][0], p / p[0])
        ctx.check("axis_basis", G.same(x["basis"], y))
    exp = _as_diag(v, shape)
    how = ctx.randint(0, 1)
    name = ("fft", "taylor")[how]
    fn = (kf.get_periodic_noise_operators_real_isotropic_stacked_fft, kt.get_periodic_noise_operators_real_isotropic_stacked_taylor_expansion)[how]
    with ctx.running(name):
        o = fn(k)
    ctx.close(name, _rebuild(ctx, name, o, b.n), exp, scale=np.abs(v).max(), tol=1e-7)
    ctx.check("basis", all(G.same(x, b) for x in o["basis"][1]))


@R.workload(150, 1800)
def taylor_fit(ctx):
    n = ctx.randint(1, 20)
    b = G.basis_1d(ctx.rng, n, kind="fundamental_x")
    i = np.arange(n)
    terms = None
    if ctx.flag() and n >= 3:
        # a trigonometric polynomial is found exactly from the points around the origin
        terms = ctx.randint(1, min(5, (n - 1) // 2))
        a = ctx.rng.normal(size=terms + 1)
        v = sum(a[m] * np.cos(2 * np.pi * m * i / n) for m in range(terms + 1)) + 0j
    else:
        v = _even(ctx, n)
    v = v * _unit(ctx)
    ctx.note(n=n, terms=terms, data=v)
    with ctx.running("fit"):
        o = kt.get_periodic_noise_operators_real_isotropic_taylor_expansion({"basis": b, "data": v}, n=terms)
    ctx.close("kernel", _rebuild(ctx, "fit", o, n), _as_diag(v, (n,)), scale=np.abs(v).max() or 1.0, tol=1e-6)
    if terms is not None:
        ctx.check("number_of_terms", o["basis"][0].n == 2 * terms + 1)


@R.workload(150, 1800)
def taylor_local(ctx):
    """With fewer terms the kernel is followed around the origin."""
    n = ctx.randint(8, 30)
    b = G.basis_1d(ctx.rng, n, kind="fundamental_x")
    terms = ctx.randint(1, 4)
    d = np.minimum(np.arange(n), n - np.arange(n)) * 2 * np.pi / n
    v = np.exp(-(d**2) / ctx.rng.uniform(4, 20)) + 0j
    v = v * _unit(ctx)
    ctx.note(n=n, terms=terms)
    with ctx.running("fit"):
        o = kt.get_periodic_noise_operators_real_isotropic_taylor_expansion({"basis": b, "data": v}, n=terms)
    got = _rebuild(ctx, "fit", o, n)
    near = np.arange(-terms, terms + 1)
    ctx.close("near_origin", got[near % n, 0], v[near % n], tol=1e-6, scale=np.abs(v).max())
    ctx.check("number_of_terms", o["basis"][0].n == 2 * terms + 1)


def _coefficients(kernel_row, terms):
    """c_k of sum_k c_k cos(k theta)."""
    n = len(kernel_row)
    f = np.fft.fft(kernel_row).real / n
    return np.array([f[0], *(2 * f[k] for k in range(1, terms))])


@R.workload(150, 1800)
def taylor_explicit(ctx):
    terms = ctx.randint(1, 6) if ctx.flag(0.8) else ctx.randint(7, 16)
    n = ctx.randint(max(1, 2 * terms - 1), 2 * terms + 10)
    b = G.basis_1d(ctx.rng, n, kind="fundamental_x")
    how = ctx.randint(0, 2)
    p = ctx.rng.normal(size=terms)
    if how == 1:
        p = 10.0 ** ctx.rng.uniform(-1, 2) * (-1 / ctx.rng.uniform(0.3, 5)) ** np.arange(terms)
    if how == 2 and terms > 1:
        # an even function may well have no term of some order
        p[ctx.randint(0, terms - 2)] = 0
    p *= _unit(ctx)
    ctx.note(n=n, p=p)
    explicit = ctx.flag() or terms != n // 2
    with ctx.running("explicit"):
        o = kt.get_periodic_noise_operators_explicit_taylor_expansion(b, p, **({"n_terms": terms} if explicit else {}))
    got = _rebuild(ctx, "explicit", o, n)
    i = np.arange(n)
    ctx.close("isotropic", got, _as_diag(got[:, 0], (n,)), scale=max(np.abs(got).max(), 1e-300), tol=1e-7)
    c = _coefficients(got[:, 0], terms)
    m = np.arange(terms)[:, None]
    k = np.arange(terms)[None, :].astype(float)
    fact = np.array([math.factorial(2 * int(x)) for x in range(terms)], dtype=float)[:, None]
    back = ((-1.0) ** m * k ** (2 * m) / fact) @ c
    # rounding of c is amplified by the size of the terms
    size = (k ** (2 * m) / fact) @ (np.abs(c) + 1e-8 * np.abs(c).max())
    # negligible terms of the highest orders may be left out
    upto = np.flatnonzero(np.abs(p) > 1e-7 * np.abs(p).max())[-1] + 1
    size = (size + np.abs(p))[:upto]
    ctx.close("expansion", back[:upto] / size, p[:upto] / size, scale=1.0, tol=1e-6)
    ctx.check("number_of_terms", o["basis"][0].n == 2 * terms - 1)
    ctx.check("expansion_basis", all(G.same(x, b) for x in o["basis"][1]) and i.size == n)


@R.workload(100, 1200)
def linear(ctx):
    n = ctx.randint(1, 20)
    terms = ctx.randint(1, 6)
    b = G.basis_1d(ctx.rng, n, kind="fundamental_x")
    p = ctx.rng.normal(size=terms) * _unit(ctx)
    with ctx.running("linear"):
        o = linear_taylor(b, p, n_terms=terms)
    got = _rebuild(ctx, "linear", o, n)
    x = 2 * np.pi * (np.arange(n) - n // 2) / n
    # the displacement from the middle of the cell, by the nearest image
    x = (x + np.pi) % (2 * np.pi) - np.pi
    odd_edge = np.isclose(np.abs(x), np.pi)
    exp = sum(p[m] * np.multiply.outer(x**m, x**m) for m in range(terms))
    got, exp = (a[~odd_edge][:, ~odd_edge] for a in (got, exp))
    ctx.close("kernel", got, exp + 0j, scale=np.abs(p).max() * np.pi ** (2 * terms))
