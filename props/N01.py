"""Representations of a noise kernel."""

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import build as kb
from surface_potential_analysis.kernel import conversion as kc
from surface_potential_analysis.kernel import kernel as kk
from surface_potential_analysis.kernel.solve import _eigenvalue as ke

R = Registry("N01")
RULE = (
    "Random kernels (full, diagonal, isotropic, per axis; complex hermitian), operator lists with coefficients of "
    "either sign and bases; oracle: explicit sums over the operators and index differences. Non-trivial: at least "
    "one compared kernel."
)


def _wf(ctx, k, name, basis=None):
    ctx.check(f"{name}_flat", np.asarray(k["data"]).ndim == 1)
    if basis is not None:
        ctx.check(f"{name}_basis", G.same(k["basis"], basis))


def _basis(ctx, max_total=8, nd=None):
    shape = G.random_shape(ctx.rng, nd, max_total=max_total, hi=6)
    return G.tuple_basis(ctx.rng, shape, kinds=("fundamental", "fundamental_x", "fundamental_k", "fundamental_kx")), shape


def _ops(ctx, n_op, n, diagonal, scale=1.0):
    L = G.cplx(ctx.rng, n_op, n) if diagonal else G.cplx(ctx.rng, n_op, n, n)
    e = ctx.rng.normal(size=n_op) * scale
    return L, e


def _scale(ctx):
    return 10.0 ** ctx.pick((-30, -8, 0, 0, 0, 6, 20))


def _full(L, e):
    return np.einsum("a,aji,akl->ijkl", e, L.conj(), L)


def _diag(L, e):
    return np.einsum("a,ai,aj->ij", e, L.conj(), L)


@R.workload(200, 2500)
def from_operators(ctx):
    b, _ = _basis(ctx, 6)
    n, n_op, s = b.n, ctx.randint(1, 5), _scale(ctx)
    ctx.note(basis=G.describe(b), n_op=n_op, scale=s)
    L, e = _ops(ctx, n_op, n, False, s)
    bb = TupleBasis(b, b)
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), bb), "data": L.ravel(), "eigenvalue": e}
    exp = _full(L, e)
    with ctx.running("full"):
        k = kk.get_full_kernel_from_operators(ops)
    ctx.close("full", k["data"], exp.ravel())
    _wf(ctx, k, "full", TupleBasis(bb, bb))
    with ctx.running("diagonal_of_full"):
        d = kk.as_diagonal_kernel_from_full(k)
    ctx.close("diagonal_of_full", d["data"], np.einsum("iijj->ij", exp).ravel())
    _wf(ctx, d, "diagonal_of_full", TupleBasis(bb, bb))
    with ctx.running("diagonal"):
        d2 = kk.get_diagonal_kernel_from_operators(ops)
    ctx.close("diagonal", d2["data"], d["data"])
    with ctx.running("operators_as_diagonal"):
        od = kk.as_diagonal_noise_operators_from_full(ops)
    ctx.close("operators_as_diagonal", od["data"], np.einsum("aii->ai", L).ravel())
    ctx.equal("same_eigenvalues", od["eigenvalue"], e)
    with ctx.running("operators_as_full"):
        of = kk.as_noise_operators_from_diagonal(od)
    ctx.close("operators_as_full", of["data"], np.array([np.diag(np.diag(x)) for x in L]).ravel())
    ctx.equal("same_eigenvalues", of["eigenvalue"], e)
    ctx.equal("input_unchanged", ops["data"], L.ravel())


@R.workload(200, 2500)
def diagonal(ctx):
    b, _ = _basis(ctx, 8)
    n, n_op, s = b.n, ctx.randint(1, 5), _scale(ctx)
    ctx.note(basis=G.describe(b), n_op=n_op, scale=s)
    L, e = _ops(ctx, n_op, n, True, s)
    bb = TupleBasis(b, b)
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), bb), "data": L.ravel(), "eigenvalue": e}
    exp = _diag(L, e)
    with ctx.running("diagonal"):
        k = kk.get_diagonal_kernel_from_diagonal_operators(ops)
    ctx.close("diagonal", k["data"], exp.ravel())
    _wf(ctx, k, "diagonal", TupleBasis(bb, bb))
    with ctx.running("as_full"):
        f = kk.as_full_kernel_from_diagonal(k)
    full = np.zeros((n,) * 4, dtype=complex)
    for i in range(n):
        for j in range(n):
            full[i, i, j, j] = exp[i, j]
    ctx.close("as_full", f["data"], full.ravel())
    _wf(ctx, f, "as_full", TupleBasis(bb, bb))
    with ctx.running("back"):
        ctx.close("back", kk.as_diagonal_kernel_from_full(f)["data"], exp.ravel())
    # operators which diagonalise the kernel
    with ctx.running("eigenvalue"):
        o = ke.get_periodic_noise_operators_diagonal_eigenvalue(k)
    _eigen_operators(ctx, o, _diag, exp, n, (n,))
    # the same kernel through the full operators
    with ctx.running("eigenvalue_full"):
        o = ke.get_periodic_noise_operators_eigenvalue(f)
    _eigen_operators(ctx, o, _full, full, n * n, (n, n))


@R.workload(60, 600)
def refused(ctx):
    """No set of operators has a kernel which is not hermitian."""
    b, _ = _basis(ctx, 4)
    n, s = b.n, _scale(ctx)
    diagonal = ctx.flag()
    L, e = _ops(ctx, ctx.randint(1, 4), n, diagonal, s)
    bb = TupleBasis(b, b)
    ctx.note(basis=G.describe(b), scale=s, diagonal=diagonal)
    exp = (_diag if diagonal else _full)(L, e)
    m = exp if diagonal else exp.swapaxes(0, 1).reshape(n * n, n * n)
    m = m.copy()
    i, j = ctx.randint(0, len(m) - 1), ctx.randint(0, len(m) - 1)
    m[i, j] += 1j * np.abs(m).max() * ctx.pick((1e-2, 1.0)) * (1 if i == j else ctx.pick((1, -1j)))
    if not diagonal:
        m = m.reshape(n, n, n, n).swapaxes(0, 1)
    k = {"basis": TupleBasis(bb, bb), "data": m.ravel()}
    fn = ke.get_periodic_noise_operators_diagonal_eigenvalue if diagonal else ke.get_periodic_noise_operators_eigenvalue
    ctx.raises("not_hermitian", AssertionError, fn, k)


def _eigen_operators(ctx, o, fn, exp, count, shape):
    got = np.asarray(o["data"]).reshape(-1, *shape)
    ctx.check("operators_flat", np.asarray(o["data"]).ndim == 1 and len(got) == count)
    ctx.check("real_eigenvalues", np.isrealobj(o["eigenvalue"]) or np.allclose(np.imag(o["eigenvalue"]), 0))
    ctx.close("operators_kernel", fn(got, np.asarray(o["eigenvalue"])), exp)
    rows = got.reshape(count, -1)
    ctx.close("operators_orthonormal", rows.conj() @ rows.T, np.eye(count))


@R.workload(100, 1200)
def full_eigen(ctx):
    b, _ = _basis(ctx, 4)
    n, n_op, s = b.n, ctx.randint(1, 5), _scale(ctx)
    ctx.note(basis=G.describe(b), scale=s)
    L, e = _ops(ctx, n_op, n, False, s)
    bb = TupleBasis(b, b)
    exp = _full(L, e)
    k = {"basis": TupleBasis(bb, bb), "data": exp.ravel()}
    with ctx.running("eigenvalue"):
        o = ke.get_periodic_noise_operators_eigenvalue(k)
    _eigen_operators(ctx, o, _full, exp, n * n, (n, n))
    # truncation to the largest coefficients
    if ctx.flag():
        L, e = _ops(ctx, n_op, n, False, s)
        exp = _full(L, np.abs(e))
        k = {"basis": TupleBasis(bb, bb), "data": exp.ravel()}
        m = ctx.randint(1, n * n)
        with ctx.running("truncate"):
            t = kb.truncate_noise_kernel(k, ctx.rng.choice([iter, list, tuple])(range(m)))
        _best(ctx, exp.swapaxes(0, 1).reshape(n * n, n * n), np.asarray(t["data"]).reshape((n,) * 4).swapaxes(0, 1).reshape(n * n, n * n), m)
        _wf(ctx, t, "truncate", k["basis"])


def _best(ctx, full, got, m):
    """Keeping the m largest eigenvalues is the best approximation of rank m."""
    vals = np.sort(np.abs(np.linalg.eigvalsh(full)))[::-1]
    scale = vals[0] or 1.0
    ctx.check("truncated_rank", np.sum(np.linalg.svd(got, compute_uv=False) > 1e-7 * scale) <= m)
    ctx.close("truncated_error", np.linalg.norm(full - got), np.sqrt(np.sum(vals[m:] ** 2)), scale=scale, tol=1e-6)


@R.workload(120, 1500)
def truncate(ctx):
    b, _ = _basis(ctx, 7)
    n, n_op = b.n, ctx.randint(1, 6)
    bb = TupleBasis(b, b)
    diagonal = ctx.flag()
    L, e = _ops(ctx, n_op, n, diagonal)
    e = np.abs(e)
    if ctx.flag(0.3):
        e = e.astype(complex)
    ctx.note(basis=G.describe(b), eigenvalue=e, diagonal=diagonal)
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), bb), "data": L.ravel(), "eigenvalue": e}
    keep = sorted(set(ctx.rng.integers(0, n_op, size=ctx.randint(1, n_op)).tolist()))
    if ctx.flag():
        keep = range(len(keep))
    elif ctx.flag():
        keep = ctx.rng.permutation(keep).tolist()
    with ctx.running("operators"):
        t = (kb.truncate_diagonal_noise_operator_list if diagonal else kb.truncate_noise_operator_list)(ops, keep)
    order = np.argsort(-np.real(e))[list(keep)]
    ctx.close("eigenvalues", t["eigenvalue"], e[order])
    ctx.close("operators", t["data"], L[order].ravel())
    _wf(ctx, t, "operators", TupleBasis(FundamentalBasis(len(keep)), bb))
    ctx.equal("input_unchanged", ops["data"], L.ravel())
    exp = _diag(*_ops_pos(ctx, n_op, n))
    k = {"basis": TupleBasis(bb, bb), "data": exp.ravel()}
    m = ctx.randint(1, n)
    with ctx.running("diagonal_kernel"):
        d = kb.truncate_diagonal_noise_kernel(k, ctx.rng.choice([iter, list, tuple])(range(m)))
    _best(ctx, exp, np.asarray(d["data"]).reshape(n, n), m)
    _wf(ctx, d, "diagonal_kernel", k["basis"])


def _ops_pos(ctx, n_op, n):
    L, e = _ops(ctx, n_op, n, True)
    return L, np.abs(e)


def _isotropic(ctx, shape, hermitian=True, zero=False):
    v = G.cplx(ctx.rng, *shape)
    if hermitian:
        f = ctx.rng.normal(size=shape)
        v = np.fft.ifftn(f)
        if ctx.flag(0.4):
            v = v.real + 0j
    if ctx.flag(0.3):
        # short ranged: most elements (nearly) vanish
        w = 10 ** ctx.rng.uniform(-1, 3)
        for i, n in enumerate(shape):
            d = np.minimum(np.arange(n), n - np.arange(n))
            v = v * np.exp(-w * d**2).reshape([-1 if j == i else 1 for j in range(len(shape))])
    return v


def _as_diag(v, shape):
    idx = [x.ravel() for x in np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")]
    return v[tuple((i[:, None] - i[None, :]) % s for i, s in zip(idx, shape, strict=True))]


@R.workload(200, 2500)
def isotropic(ctx):
    stacked = ctx.flag()
    b, shape = _basis(ctx, 16)
    large = ctx.flag(0.04)
    if large:
        shape = (ctx.randint(2, 20), ctx.randint(7, 20)) if stacked else (ctx.randint(120, 300),)
        b = G.tuple_basis(ctx.rng, shape, kinds=("fundamental", "fundamental_x", "fundamental_k", "fundamental_kx"))
    if not stacked:
        shape = (b.n,)
        if ctx.flag():
            b = G.basis_1d(ctx.rng, b.n, kinds=G.FULL_KINDS)
    v = _isotropic(ctx, shape, ctx.flag(0.8)) * _scale(ctx)
    ctx.note(basis=G.describe(b), stacked=stacked)
    k = {"basis": b, "data": v.ravel()}
    exp = _as_diag(v, shape)
    to = kk.as_diagonal_kernel_from_isotropic_stacked if stacked else kk.as_diagonal_kernel_from_isotropic
    back = kk.as_isotropic_kernel_from_diagonal_stacked if stacked else kk.as_isotropic_kernel_from_diagonal
    with ctx.running("as_diagonal"):
        d = to(k)
    ctx.close("as_diagonal", d["data"], exp.ravel())
    bb = TupleBasis(b, b)
    _wf(ctx, d, "as_diagonal", TupleBasis(bb, bb))
    with ctx.running("back"):
        i = back(d)
    ctx.close("back", i["data"], v.ravel())
    _wf(ctx, i, "back", b)
    if b.n > 2:
        broken = exp.copy()
        broken[1, 2 % b.n] += np.abs(exp).max()
        bad = {"basis": d["basis"], "data": broken.ravel()}
        ctx.raises("not_isotropic", AssertionError, back, bad)
        with ctx.running("unchecked"):
            ctx.check("unchecked", np.asarray(back(bad, assert_isotropic=False)["data"]).size == b.n)
    # from plane waves, whose kernel is isotropic up to rounding
    e = np.fft.fftn(v).ravel() / b.n
    idx = np.array([x.ravel() for x in np.meshgrid(*(np.arange(s) for s in shape), indexing="ij")])
    L = np.array([np.exp(-2j * np.pi * np.sum(idx * (np.array(q) / np.array(shape))[:, None], axis=0)) for q in np.ndindex(*shape)])
    ops = {"basis": TupleBasis(FundamentalBasis(len(L)), bb), "data": L.ravel(), "eigenvalue": e}
    get = kk.get_isotropic_kernel_from_diagonal_operators_stacked if stacked else kk.get_isotropic_kernel_from_diagonal_operators
    with ctx.running("from_diagonal_operators"):
        i = get(ops)
    ctx.close("from_diagonal_operators", i["data"], v.ravel(), tol=1e-7)
    if not stacked and not large:
        full = {**ops, "data": np.array([np.diag(x) for x in L]).ravel()}
        with ctx.running("from_full_operators"):
            i = kk.get_isotropic_kernel_from_operators(full)
        ctx.close("from_full_operators", i["data"], v.ravel(), tol=1e-7)


@R.workload(150, 1800)
def axis(ctx):
    nd = ctx.randint(1, 3)
    b, shape = _basis(ctx, 40, nd)
    parts = [_isotropic(ctx, (s,)) for s in shape]
    any_phase = ctx.flag(0.3)
    for p in parts:
        p[0] = (abs(p[0]) + 0.1) * (np.exp(1j * ctx.rng.uniform(-3, 3)) if any_phase else 1)
    ctx.note(basis=G.describe(b))
    ks = tuple({"basis": x, "data": p} for x, p in zip(b, parts, strict=True))
    exp = parts[0]
    for p in parts[1:]:
        exp = np.multiply.outer(exp, p)
    with ctx.running("isotropic"):
        i = kk.as_isotropic_kernel_from_axis(ks)
    ctx.close("isotropic", i["data"], exp.ravel())
    _wf(ctx, i, "isotropic", b)
    with ctx.running("axis"):
        back = kk.as_axis_kernel_from_isotropic(i)
    ctx.check("axis_count", len(back) == nd)
    again = np.asarray(back[0]["data"])
    for x in back[1:]:
        again = np.multiply.outer(again, np.asarray(x["data"]))
    ctx.close("product", again, exp)
    for x, p, y in zip(back, parts, b, strict=True):
        ctx.check("axis_basis", G.same(x["basis"], y) and np.asarray(x["data"]).ndim == 1)
        ctx.close("shape_of_axis", x["data"] / x["data"][0], p / p[0])
        # the strength is shared evenly
        ctx.close("strength", np.asarray(x["data"])[0], complex(exp.ravel()[0] ** (1 / nd)))
    # operators of each axis give the product kernel
    n_ops = [ctx.randint(1, 3) for _ in shape]
    made = [_ops(ctx, m, s, True) for m, s in zip(n_ops, shape, strict=True)]
    lists = tuple(
        {"basis": TupleBasis(FundamentalBasis(m), TupleBasis(x, x)), "data": L.ravel(), "eigenvalue": e}
        for m, x, (L, e) in zip(n_ops, b, made, strict=True)
    )
    with ctx.running("operators"):
        o = kk.get_diagonal_noise_operators_from_axis(lists)
    L, e = made[0]
    for L1, e1 in made[1:]:
        L = np.einsum("ai,bj->abij", L, L1).reshape(len(e) * len(e1), -1)
        e = np.multiply.outer(e, e1).ravel()
    ctx.close("axis_operators", o["data"], L.ravel())
    ctx.close("axis_eigenvalues", o["eigenvalue"], e)
    ctx.check("axis_operator_basis", o["basis"].shape == (len(e), b.n**2) and G.same(o["basis"][1][0], b) and G.same(o["basis"][1][1], b))


@R.workload(120, 1500)
def convert(ctx):
    shape = G.random_shape(ctx.rng, max_total=4, hi=4)
    dx = G.lattice(ctx.rng, len(shape))
    b0, b1 = (G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=("fundamental_x", "fundamental_kx", "transformed_x", "truncated_x")) for _ in range(2))
    n, s = b0.n, _scale(ctx)
    ctx.note(b0=G.describe(b0), b1=G.describe(b1))
    T = G.states(b1).conj() @ G.states(b0).T
    n_op = ctx.randint(1, 4)
    bb0, bb1 = TupleBasis(b0, b0), TupleBasis(b1, b1)
    L, e = _ops(ctx, n_op, n, False, s)
    L1 = T @ L @ T.conj().T
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), bb0), "data": L.ravel(), "eigenvalue": e}
    with ctx.running("operators"):
        o = kc.convert_noise_operator_list_to_basis(ops, bb1)
    ctx.close("operators", o["data"], L1.ravel(), scale=np.abs(L).max())
    ctx.equal("eigenvalues", o["eigenvalue"], e)
    with ctx.running("kernel"):
        k = kc.convert_kernel_to_basis({"basis": TupleBasis(bb0, bb0), "data": _full(L, e).ravel()}, bb1)
    ctx.close("kernel", k["data"], _full(L1, e).ravel(), scale=np.abs(_full(L, e)).max())
    _wf(ctx, k, "kernel", TupleBasis(bb1, bb1))
    L, e = _ops(ctx, n_op, n, True, s)
    L1 = T @ np.array([np.diag(x) for x in L]) @ T.conj().T
    ops = {"basis": TupleBasis(FundamentalBasis(n_op), bb0), "data": L.ravel(), "eigenvalue": e}
    with ctx.running("diagonal_operators"):
        o = kc.convert_diagonal_noise_operator_list_to_basis(ops, bb1)
    ctx.close("diagonal_operators", o["data"], L1.ravel(), scale=np.abs(L).max())
    ctx.equal("eigenvalues", o["eigenvalue"], e)
    with ctx.running("diagonal_kernel"):
        k = kc.convert_diagonal_kernel_to_basis({"basis": TupleBasis(bb0, bb0), "data": _diag(L, e).ravel()}, bb1)
    ctx.close("diagonal_kernel", k["data"], _full(L1, e).ravel(), scale=np.abs(_diag(L, e)).max())
    _wf(ctx, k, "diagonal_kernel", TupleBasis(bb1, bb1))
    v = G.cplx(ctx.rng, n)
    with ctx.running("isotropic"):
        i = kc.convert_isotropic_kernel_to_basis({"basis": b0, "data": v}, b1)
    ctx.close("isotropic", i["data"], T @ v, scale=np.abs(v).max())
    _wf(ctx, i, "isotropic", b1)
