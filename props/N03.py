"""Gaussian, lorentzian and temperature corrected noise."""

import math

import itertools

import numpy as np
from scipy.constants import Boltzmann, hbar

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import build as kb
from surface_potential_analysis.kernel import gaussian as kg
from surface_potential_analysis.kernel import kernel as kk
from surface_potential_analysis.kernel import lorentzian as kl

R = Registry("N03")
RULE = (
    "Random orthogonal cells, grids, bases, amplitudes, lengths, friction, temperature, hamiltonians and number of "
    "terms; oracle: the correlation evaluated at the minimum image displacement of every pair of points, Taylor "
    "moments of the rebuilt kernel, and L - [H, L] / 4 kT as a matrix. Non-trivial: at least one compared kernel."
)


def _cell(ctx, nd=None, max_total=30, kinds=G.POS_KINDS):
    nd = ctx.randint(1, 3) if nd is None else nd
    shape = G.random_shape(ctx.rng, nd, max_total=max_total, hi=7 if nd > 1 else 14)
    L = ctx.rng.uniform(0.5, 3, size=nd) * 10.0 ** ctx.randint(-10, 1)
    b = G.tuple_basis(ctx.rng, shape, delta_x=np.diag(L), kinds=kinds)
    return b, shape, L


def _delta(shape, L):
    """Minimum image displacement along each axis between every two points."""
    idx = np.array(np.unravel_index(np.arange(int(np.prod(shape))), shape))
    out = []
    for i, n, d in zip(idx, shape, L, strict=True):
        k = i[:, None] - i[None, :]
        k = (k + n / 2) % n - n / 2
        out.append(k * d / n)
    return np.array(out)


def _distance(shape, L):
    return np.sqrt(np.sum(_delta(shape, L) ** 2, axis=0))


def _diag_kernel(o, n):
    L = np.asarray(o["data"]).reshape(-1, n)
    return np.einsum("a,ai,aj->ij", np.asarray(o["eigenvalue"]), L.conj(), L)


def _flat_kernel(ctx, name, k):
    ctx.check(f"{name}_flat", np.asarray(k["data"]).ndim == 1 and np.asarray(k["data"]).size == k["basis"].n)


def _flat_ops(ctx, name, o, n):
    d, e = np.asarray(o["data"]), np.asarray(o["eigenvalue"])
    ctx.check(f"{name}_flat", d.ndim == 1 and e.ndim == 1, f"{d.shape} {e.shape}")
    ctx.check(f"{name}_count", e.size == o["basis"][0].n and d.size == e.size * n, f"{o['basis'][0].n} {e.shape} {d.shape}")


def _grid(ctx, name, b, shape, L):
    """The basis is the position grid of the cell."""
    ok = b.shape == tuple(shape) and np.allclose(b.delta_x_stacked, np.diag(L)) and b.fundamental_shape == tuple(shape)
    ctx.check(f"{name}_grid", ok and np.allclose(G.states(b), np.eye(b.n)), G.describe(b))


@R.workload(150, 2000)
def build_line(ctx):
    n = ctx.randint(1, 12)
    L = 10.0 ** ctx.rng.uniform(-10, 1)
    b = G.basis_1d(ctx.rng, n, delta_x=np.array([L]), kinds=G.POS_KINDS)
    n = b.fundamental_n
    s, q = ctx.rng.uniform(0.2, 3), ctx.rng.normal()

    def fn(x):
        x = np.asarray(x) / L
        return (np.exp(-s * x**2) * (1 + q * x * (np.abs(x) < 0.49))).astype(np.complex128)

    ctx.note(n=n, basis=G.describe(b))
    with ctx.running("line"):
        k = kb.build_isotropic_kernel_from_function(b, fn)
    _flat_kernel(ctx, "line", k)
    d = _delta((n,), (L,))[0]
    ctx.close("line", k["data"], fn(d[:, 0]))
    with ctx.running("line_diagonal"):
        kd = kk.as_diagonal_kernel_from_isotropic(k)
    exp = fn(d)
    ctx.close("line_diagonal", np.asarray(kd["data"]).reshape(n, n), exp)


@R.workload(150, 2000)
def build_cell(ctx):
    b, shape, L = _cell(ctx)
    shape = b.fundamental_shape
    nd = len(shape)
    s = ctx.rng.uniform(0.2, 3) / np.max(L) ** 2

    def fn(x):
        return np.exp(-s * np.asarray(x) ** 2).astype(np.complex128)

    ctx.note(shape=shape, basis=G.describe(b))
    with ctx.running("cell"):
        k = kb.build_isotropic_kernel_from_function_stacked(b, fn)
    _flat_kernel(ctx, "cell", k)
    _grid(ctx, "cell", k["basis"], shape, L)
    ctx.close("cell", k["data"], fn(_distance(shape, L)[:, 0]))
    with ctx.running("cell_diagonal"):
        kd = kk.as_diagonal_kernel_from_isotropic_stacked(k)
    ctx.close("cell_diagonal", kd["data"], fn(_distance(shape, L)).ravel())
    with ctx.running("axis"):
        ks = kb.build_axis_kernel_from_function_stacked(b, fn)
    ctx.check("axis_count", len(ks) == nd)
    for i, ki in enumerate(ks):
        _flat_kernel(ctx, "axis", ki)
        ctx.check("axis_basis", ki["basis"].n == shape[i] and np.allclose(ki["basis"].delta_x, np.diag(L)[i]))
        ctx.close("axis", ki["data"], fn(_delta((shape[i],), (L[i],))[0][:, 0]))


@R.workload(100, 1200)
def oblique(ctx):
    """Any lattice: the distance is that of the closest pair of images."""
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=30, hi=6)
    kind = ctx.pick(["hex", "permuted", "skew"])
    if kind == "skew":
        dx = np.eye(nd) * ctx.rng.uniform(1, 2) + ctx.rng.uniform(-0.15, 0.15, size=(nd, nd))
    else:
        dx = G.lattice(ctx.rng, nd, kind, si=False)
    dx = dx * 10.0 ** ctx.randint(-10, 1)
    b = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=G.POS_KINDS)
    a = 10.0 ** ctx.rng.uniform(-20, 3)
    lam = np.linalg.norm(dx, axis=1).min() * 10.0 ** ctx.rng.uniform(-1, 0.5)
    ctx.note(shape=shape, dx=dx, kind=kind, a=a, lam=lam)
    idx = np.array(np.unravel_index(np.arange(int(np.prod(shape))), shape))
    f = (idx[:, :, None] - idx[:, None, :]) / np.array(shape)[:, None, None]
    f = f - np.round(f)
    d = np.min(
        [
            np.linalg.norm(np.tensordot(dx.T, f + np.array(s)[:, None, None], axes=(1, 0)), axis=0)
            for s in itertools.product((-2, -1, 0, 1, 2), repeat=nd)
        ],
        axis=0,
    )
    exp = a**2 * np.exp(-(d**2) / (2 * lam**2))
    with ctx.running("oblique"):
        k = kb.build_isotropic_kernel_from_function_stacked(
            b, lambda x: a**2 * np.exp(-np.abs(x) ** 2 / (2 * lam**2)) + 0j
        )
        full = kk.as_diagonal_kernel_from_isotropic_stacked(k)
        iso = kg.get_gaussian_isotropic_noise_kernel(b, a, lam)
        diag = kg.get_gaussian_noise_kernel(b, a, lam)
    _flat_kernel(ctx, "oblique", k)
    ctx.close("oblique", k["data"], exp[0] + 0j)
    ctx.close("oblique_full", full["data"], exp.ravel() + 0j)
    ctx.close("oblique_gaussian", iso["data"], exp[0] + 0j)
    ctx.close("oblique_gaussian_full", diag["data"], exp.ravel() + 0j)


@R.workload(150, 2000)
def gaussian(ctx):
    b, shape, L = _cell(ctx)
    shape = b.fundamental_shape
    n = int(np.prod(shape))
    a = 10.0 ** ctx.rng.uniform(-20, 3)
    lam = np.min(L) * 10.0 ** ctx.rng.uniform(-1, 0.5)
    ctx.note(shape=shape, basis=G.describe(b), a=a, lam=lam)
    exp = a**2 * np.exp(-(_distance(shape, L) ** 2) / (2 * lam**2))
    with ctx.running("isotropic"):
        iso = kg.get_gaussian_isotropic_noise_kernel(b, a, lam)
    _flat_kernel(ctx, "isotropic", iso)
    _grid(ctx, "isotropic", iso["basis"], shape, L)
    ctx.close("isotropic", iso["data"], exp[0] + 0j)
    with ctx.running("diagonal"):
        d = kg.get_gaussian_noise_kernel(b, a, lam)
    ctx.check("diagonal_flat", np.asarray(d["data"]).ndim == 1)
    ctx.close("diagonal", d["data"], exp.ravel() + 0j)
    ctx.check("diagonal_basis", all(G.same(x, iso["basis"]) for y in d["basis"] for x in y))
    with ctx.running("axis"):
        ax = kg.get_gaussian_axis_noise_kernel(b, a, lam)
        back = kk.as_isotropic_kernel_from_axis(ax)
    ctx.close("axis_product", back["data"], exp[0] + 0j)
    with ctx.running("periodic"):
        o = kg.get_gaussian_noise_operators_periodic(b, a, lam)
    _flat_ops(ctx, "periodic", o, n)
    ctx.close("periodic", _diag_kernel(o, n), exp, tol=1e-7)
    e = np.abs(o["eigenvalue"])
    ctx.check("periodic_sorted", bool(np.all(np.diff(e) <= 1e-9 * e.max())))
    m = ctx.randint(1, n)
    with ctx.running("truncated"):
        t = kg.get_gaussian_noise_operators_periodic(b, a, lam, truncation=ctx.rng.choice([iter, list, tuple])(range(m)))
    _flat_ops(ctx, "truncated", t, n)
    ctx.check("truncated_number", t["basis"][0].n == m)
    ctx.close("truncated_largest", np.sort(np.abs(t["eigenvalue"])), np.sort(e)[::-1][:m][::-1], scale=e.max())
    # the residual of a truncation is what was left out
    vals = np.sort(np.abs(np.linalg.eigvalsh(exp)))[::-1]
    ctx.close("truncated_error", np.linalg.norm(exp - _diag_kernel(t, n)), np.sqrt(np.sum(vals[m:] ** 2)), scale=vals[0], tol=1e-6)


@R.workload(100, 1500)
def effective(ctx):
    kind = ctx.pick(("cell", "skew"))
    if kind == "cell":
        b, shape, L = _cell(ctx)
        shape = b.fundamental_shape
    else:
        shape = G.random_shape(ctx.rng, max_total=30)
        b = G.tuple_basis(ctx.rng, shape, kinds=G.POS_KINDS)
    lengths = np.linalg.norm(np.asarray(b.delta_x_stacked), axis=1)
    eta, temperature = 10.0 ** ctx.rng.uniform(-14, 1), 10.0 ** ctx.rng.uniform(-1, 3)
    kw = {} if ctx.flag() else {"lambda_factor": float(ctx.rng.uniform(0.5, 10))}
    f = kw.get("lambda_factor", 2 * math.sqrt(2))
    ctx.note(basis=G.describe(b), eta=eta, temperature=temperature, factor=f)
    mu = math.sqrt(2 * eta * Boltzmann * temperature) / hbar
    with ctx.running("gaussian"):
        a, lam = kg.get_effective_gaussian_parameters(b, eta, temperature, **kw)
    ctx.close("gaussian_length", lam, lengths.min() / f)
    ctx.close("gaussian_amplitude", a, mu * lengths.min() / f)
    with ctx.running("lorentzian"):
        al, ll = kl.get_effective_lorentzian_parameter(b, eta, temperature, **kw)
    ctx.close("lorentzian_length", ll, lengths.min() / 2 / f)
    ctx.close("lorentzian_amplitude", al, mu * lengths.min() / 2 / f)
    if kind != "cell":
        return
    d2 = _distance(shape, L) ** 2
    n = len(d2)
    exp = a**2 * np.exp(-d2 / (2 * lam**2)) + 0j
    with ctx.running("effective"):
        k = kg.get_effective_gaussian_noise_kernel(b, eta, temperature, **kw)
        iso = kg.get_effective_gaussian_isotropic_noise_kernel(b, eta, temperature, **kw)
    ctx.close("effective_kernel", k["data"], exp.ravel())
    ctx.close("effective_isotropic", iso["data"], exp[0])
    a0, l0 = mu * lengths.min() / (2 * math.sqrt(2)), lengths.min() / (2 * math.sqrt(2))
    with ctx.running("effective_periodic"):
        o = kg.get_effective_gaussian_noise_operators_periodic(b, eta, temperature)
    ctx.close("effective_periodic", _diag_kernel(o, n), a0**2 * np.exp(-d2 / (2 * l0**2)) + 0j, tol=1e-7)
    with ctx.running("lorentzian_kernel"):
        lk = kl.get_lorentzian_isotropic_noise_kernel(b, al, ll)
    _flat_kernel(ctx, "lorentzian_kernel", lk)
    _grid(ctx, "lorentzian_kernel", lk["basis"], shape, L)
    ctx.close("lorentzian_kernel", lk["data"], (al**2 * ll**2 / (d2[0] + ll**2)) + 0j)


def _moments(ctx, name, row, terms, p):
    """The Taylor series of the kernel around the origin is p."""
    n = len(row)
    f = np.fft.fft(row).real / n
    c = np.array([f[0], *(2 * f[k] for k in range(1, terms))])
    m = np.arange(terms)[:, None]
    k = np.arange(terms)[None, :].astype(float)
    fact = np.array([math.factorial(2 * i) for i in range(terms)], dtype=float)[:, None]
    back = ((-1.0) ** m * k ** (2 * m) / fact) @ c
    size = (k ** (2 * m) / fact) @ (np.abs(c) + 1e-8 * np.abs(c).max())
    upto = np.flatnonzero(np.abs(p) > 1e-7 * np.abs(p).max())[-1] + 1
    size = (size + np.abs(p))[:upto]
    ctx.close(name, back[:upto] / size, p[:upto] / size, scale=1.0, tol=1e-6)


@R.workload(150, 2000)
def taylor(ctx):
    n = ctx.randint(2, 16)
    L = 10.0 ** ctx.rng.uniform(-10, 1)
    lorentz = ctx.flag()
    b = G.basis_1d(ctx.rng, n, delta_x=np.array([L]), kinds=("fundamental_x", "fundamental_kx", "truncated_x", "transformed_x"))
    n = b.fundamental_n
    terms = ctx.randint(1, min(6, max(n // 2, 1)))
    a, lam = 10.0 ** (ctx.rng.uniform(-3, 3) if ctx.flag() else ctx.rng.uniform(-24, 14)), L * 10.0 ** ctx.rng.uniform(-0.7, 0.5)
    ctx.note(n=n, terms=terms, a=a, lam=lam, lorentz=lorentz, basis=G.describe(b))
    default = ctx.flag() and n >= 2 and n // 2 <= 6
    kw = {} if default else {"n_terms": terms}
    terms = n // 2 if default else terms
    # per unit of angle 2 pi x / L
    w = lam * 2 * np.pi / L
    i = np.arange(terms)
    if lorentz:
        p = a**2 * (-1 / w**2) ** i
        with ctx.running("lorentzian"):
            o = kl.get_lorentzian_operators_explicit_taylor(a, lam, TupleBasis(b), **kw)
    else:
        p = a**2 * (-1 / (2 * w**2)) ** i / np.array([math.factorial(x) for x in i])
        with ctx.running("gaussian"):
            o = kg.get_periodic_gaussian_operators_explicit_taylor(b, a, lam, **kw)
    name = "lorentzian" if lorentz else "gaussian"
    _flat_ops(ctx, name, o, n)
    ctx.check(f"{name}_terms", o["basis"][0].n == 2 * terms - 1, f"{o['basis'][0].n} operators of {terms} terms")
    K = _diag_kernel(o, n)
    j = np.arange(n)
    ctx.close(f"{name}_isotropic", K, K[:, 0][(j[:, None] - j[None, :]) % n], tol=1e-7)
    _moments(ctx, f"{name}_expansion", K[:, 0], terms, p)
    if not lorentz:
        with ctx.running("linear"):
            lin = kg.get_linear_gaussian_noise_operators_explicit_taylor(b, a, lam, n_terms=terms)
        _flat_ops(ctx, "linear", lin, n)
        ctx.check("linear_terms", lin["basis"][0].n == terms)
        x = 2 * np.pi * (np.arange(n) - n // 2) / n
        x = (x + np.pi) % (2 * np.pi) - np.pi
        keep = ~np.isclose(np.abs(x), np.pi)
        got = _diag_kernel(lin, n)[keep][:, keep]
        x = x[keep]
        ctx.close("linear", got, sum(p[m] * np.multiply.outer(x**m, x**m) for m in range(terms)) + 0j, scale=np.abs(p * np.pi ** (2 * i)).max())


@R.workload(80, 1000)
def taylor_stacked(ctx):
    nd = ctx.randint(1, 3)
    shape = tuple(ctx.randint(2, 6 if nd < 3 else 4) for _ in range(nd))
    L = ctx.rng.uniform(0.5, 3, size=nd)
    b = G.tuple_basis(ctx.rng, shape, delta_x=np.diag(L), kinds=("fundamental_x", "fundamental_kx", "truncated_x", "transformed_x"))
    shape = b.fundamental_shape
    n = int(np.prod(shape))
    terms = tuple(ctx.randint(1, max(s // 2, 1)) for s in shape)
    default = ctx.flag() and min(shape) >= 2
    kw = {} if default else {"shape": terms}
    terms = tuple(s // 2 for s in shape) if default else terms
    a, lam = 10.0 ** (ctx.rng.uniform(-3, 3) if ctx.flag() else ctx.rng.uniform(-24, 14)), 10.0 ** ctx.rng.uniform(-0.5, 0.5)
    ctx.note(shape=shape, terms=terms, a=a, lam=lam)
    with ctx.running("stacked"):
        o = kg.get_periodic_gaussian_operators_explicit_taylor_stacked(b, a, lam, **kw)
        lin = kg.get_linear_gaussian_operators_explicit_taylor_stacked(b, a, lam, shape=terms)
    _flat_ops(ctx, "stacked", o, n)
    ctx.check("stacked_terms", o["basis"][0].shape == tuple(2 * t - 1 for t in terms))
    K = _diag_kernel(o, n).reshape(*shape, *shape)
    origin = (0,) * nd
    # at no displacement every expansion is exact
    ctx.close("stacked_origin", np.einsum("ii->i", K.reshape(n, n)), np.full(n, a**2) + 0j, tol=1e-7)
    # the correlation along an axis
    for ax in range(nd):
        ix = [0] * nd
        ix[ax] = slice(None)
        row = K[(*ix, *origin)]
        w = lam * 2 * np.pi / L[ax]
        i = np.arange(terms[ax])
        p = a**2 * (-1 / (2 * w**2)) ** i / np.array([math.factorial(x) for x in i])
        _moments(ctx, "stacked_axis", row, terms[ax], p)
    # correlation is the product of those of the axes
    full = np.ones((), dtype=complex)
    for ax in range(nd):
        ix = [0] * nd
        ix[ax] = slice(None)
        full = np.multiply.outer(full, K[(*ix, *origin)] / a**2)
    ctx.close("stacked_product", K[(..., *origin)] / a**2, full, tol=1e-7)
    _flat_ops(ctx, "linear_stacked", lin, n)
    ctx.check("linear_stacked_terms", lin["basis"][0].shape == tuple(terms))
    middle = tuple(s // 2 for s in shape)
    KL = _diag_kernel(lin, n).reshape(*shape, *shape)
    ctx.close("linear_stacked_origin", KL[(*middle, *middle)], a**2 + 0j, tol=1e-7)


def _hamiltonian(ctx, b, T):
    """In units such that the correction is of the size of the operators."""
    return G.hermitian(ctx.rng, b.n) * Boltzmann * T * 10.0 ** ctx.rng.uniform(-1, 1)


@R.workload(120, 1500)
def temperature(ctx):
    kinds = ("fundamental_x", "fundamental_kx", "transformed_x", "truncated_x")
    nd = ctx.randint(1, 2)
    shape = G.random_shape(ctx.rng, nd, max_total=9, hi=9)
    dx = G.lattice(ctx.rng, nd)
    # complete bases of the same space
    complete = ("fundamental_x", "fundamental_kx")
    b0 = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=complete)
    b1 = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=complete)
    n, n_op = b0.n, ctx.randint(1, 4)
    T = 10.0 ** ctx.rng.uniform(-1, 3)
    H = _hamiltonian(ctx, b0, T)
    if ctx.flag(0.25):
        # the correction is linear in any operator (as for an open system)
        H = H + 1j * _hamiltonian(ctx, b0, T)
    ham = {"basis": TupleBasis(b0, b0), "data": H.ravel()}
    ctx.note(h=G.describe(b0), ops=G.describe(b1), n_op=n_op, T=T, kinds=len(kinds))
    S0, S1 = G.states(b0), G.states(b1)
    # the hamiltonian seen in the basis of the operators
    U = S1.conj() @ S0.T
    H1 = U @ H @ U.conj().T
    e = ctx.rng.normal(size=n_op)
    diagonal = ctx.flag()
    if diagonal:
        D = G.cplx(ctx.rng, n_op, n)
        M = np.array([np.diag(d) for d in D])
        ops = {"basis": TupleBasis(FundamentalBasis(n_op), TupleBasis(b1, b1)), "data": D.ravel(), "eigenvalue": e}
        fn = kb.get_temperature_corrected_diagonal_noise_operators
    else:
        M = G.cplx(ctx.rng, n_op, n, n)
        ops = {"basis": TupleBasis(FundamentalBasis(n_op), TupleBasis(b1, b1)), "data": M.ravel(), "eigenvalue": e}
        fn = kb.get_temperature_corrected_noise_operators
    before = (np.array(ops["data"]), np.array(ham["data"]))
    with ctx.running("corrected"):
        out = fn(ham, ops, T)
    _flat_ops(ctx, "corrected", out, n * n)
    exp = np.array([m - (H1 @ m - m @ H1) / (4 * Boltzmann * T) for m in M])
    V0, V1 = G.states(out["basis"][1][0]), G.states(out["basis"][1][1])
    got = np.asarray(out["data"]).reshape(n_op, n, n)
    got = np.array([V0.T @ g @ V1.conj() for g in got])
    exp = np.array([S1.T @ g @ S1.conj() for g in exp])
    ctx.close("corrected", got, exp)
    ctx.equal("corrected_coefficients", out["eigenvalue"], e)
    ctx.equal("input_unchanged", ops["data"], before[0])
    ctx.equal("input_unchanged", ham["data"], before[1])


@R.workload(80, 1000)
def temperature_gaussian(ctx):
    nd = ctx.randint(1, 2)
    shape = G.random_shape(ctx.rng, nd, max_total=9, hi=9)
    L = ctx.rng.uniform(0.5, 3, size=nd) * 10.0 ** ctx.randint(-10, 1)
    b = G.tuple_basis(ctx.rng, shape, delta_x=np.diag(L), kinds=("fundamental_x", "fundamental_kx"))
    n = b.n
    T = 10.0 ** ctx.rng.uniform(-1, 3)
    H = _hamiltonian(ctx, b, T)
    ham = {"basis": TupleBasis(b, b), "data": H.ravel()}
    ctx.note(shape=shape, basis=G.describe(b), T=T)
    if ctx.flag():
        a, lam = 10.0 ** ctx.rng.uniform(-20, 3), L.min() * 10.0 ** ctx.rng.uniform(-1, 0.5)
        with ctx.running("gaussian"):
            out = kg.get_temperature_corrected_gaussian_noise_operators(ham, a, lam, T)
    else:
        eta = 10.0 ** ctx.rng.uniform(-14, 1)
        lam = L.min() / (2 * math.sqrt(2))
        a = lam * math.sqrt(2 * eta * Boltzmann * T) / hbar
        with ctx.running("gaussian"):
            out = kg.get_temperature_corrected_effective_gaussian_noise_operators(ham, eta, T)
    _flat_ops(ctx, "gaussian", out, n * n)
    ctx.check("gaussian_basis", all(G.same(x, b) for x in out["basis"][1]))
    # kernel of the corrected operators: (1 - C) (x) (1 - C) on the gaussian kernel, which does not depend on the choice of operators
    S = G.states(b)
    M = np.asarray(out["data"]).reshape(-1, n, n)
    M = np.array([S.T @ m @ S.conj() for m in M])
    Hx = S.T @ H @ S.conj()
    K = a**2 * np.exp(-(_distance(shape, L) ** 2) / (2 * lam**2))
    vals, vecs = np.linalg.eigh(K)
    ref = np.array([np.diag(v) for v in vecs.T.conj()])
    ref = np.array([m - (Hx @ m - m @ Hx) / (4 * Boltzmann * T) for m in ref])
    got = np.einsum("a,aji,akl->ijkl", np.asarray(out["eigenvalue"]), M.conj(), M)
    exp = np.einsum("a,aji,akl->ijkl", vals, ref.conj(), ref)
    ctx.close("gaussian_kernel", got, exp, tol=1e-7)
    m = ctx.randint(1, n)
    with ctx.running("gaussian_truncated"):
        t = kg.get_temperature_corrected_gaussian_noise_operators(ham, a, lam, T, truncation=ctx.rng.choice([iter, list, tuple])(range(m)))
    ctx.check("gaussian_truncated", t["basis"][0].n == m)
    ctx.close("gaussian_truncated", np.sort(np.abs(t["eigenvalue"])), np.sort(np.abs(vals))[::-1][:m][::-1], scale=np.abs(vals).max(), tol=1e-7)
