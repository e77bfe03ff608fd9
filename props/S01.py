"""State vectors and lists of them: selection, inner products, averages, reference states."""

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.state_vector import eigenstate_list as el
from surface_potential_analysis.state_vector import state_vector as sv
from surface_potential_analysis.state_vector import state_vector_list as sl
from surface_potential_analysis.state_vector import util as su

R = Registry("S01")
RULE = (
    "Random lists of states in random (stacked, truncated, transformed) bases; oracle: explicit loops over "
    "the list and the independent reference <x|b_j> of each basis. Non-trivial: at least one compared result."
)


def _states(ctx, *, list_ndim=None, inner=None, max_list=24):
    shape = G.random_shape(ctx.rng, list_ndim, max_total=max_list, hi=5)
    list_basis = G.tuple_basis(ctx.rng, shape)
    if inner is None:
        ishape = G.random_shape(ctx.rng, max_total=20)
        inner = G.tuple_basis(ctx.rng, ishape)
    real = ctx.flag(0.2)
    n = list_basis.n * inner.n
    data = ctx.rng.normal(size=n) if real else G.cplx(ctx.rng, n)
    data = data * 10.0 ** ctx.randint(-3, 3)
    ctx.note(list=G.describe(list_basis), inner=G.describe(inner), real=real)
    return {"basis": TupleBasis(list_basis, inner), "data": data}


def _rows(s):
    return s["data"].reshape(s["basis"][0].n, s["basis"][1].n)


@R.workload(120, 1500)
def single(ctx):
    inner = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng))
    a = G.cplx(ctx.rng, inner.n) * 10.0 ** ctx.randint(-5, 5)
    b = G.cplx(ctx.rng, inner.n)
    ctx.note(basis=G.describe(inner), a=a)
    A, B = {"basis": inner, "data": a.copy()}, {"basis": inner, "data": b.copy()}
    with ctx.running("single"):
        dual = sv.as_dual_vector(A)
        back = sv.as_vector(dual)
        norm, dual_norm = sv.calculate_normalization(A), sv.calculate_normalization(dual)
        ab = sv.calculate_inner_product(A, sv.as_dual_vector(B))
        ba = sv.calculate_inner_product(B, sv.as_dual_vector(A))
        aa = sv.calculate_inner_product(A, dual)
    ctx.close("dual", dual["data"], [x.conjugate() for x in a])
    ctx.equal("dual_round_trip", back["data"], a)
    ctx.check("basis", G.same(dual["basis"], inner) and G.same(back["basis"], inner))
    exp = sum(x.real**2 + x.imag**2 for x in a)
    ctx.close("norm", norm, exp)
    ctx.close("dual_norm", dual_norm, exp)
    ctx.check("norm_is_real", np.isrealobj(norm))
    ctx.close("inner_self", aa, exp)
    scale = np.linalg.norm(a) * np.linalg.norm(b)
    ctx.close("inner", ab, sum(y.conjugate() * x for x, y in zip(a, b, strict=True)), scale=scale)
    ctx.close("inner_conjugate", ba, np.conj(ab), scale=scale)
    ctx.equal("input_unchanged", A["data"], a)


@R.workload(150, 2000)
def select(ctx):
    s = _states(ctx)
    keep = s["data"].copy()
    rows = _rows(s)
    shape = s["basis"][0].shape
    i = ctx.randint(0, len(rows) - 1)
    stacked = np.unravel_index(i, shape)
    wrapped = tuple(int(x) + ctx.randint(-2, 2) * n for x, n in zip(stacked, shape, strict=True))
    ctx.note(i=i, wrapped=wrapped)
    with ctx.running("get"):
        got = [
            sl.get_state_vector(s, i),
            sl.get_state_vector(s, tuple(int(x) for x in stacked)),
            sl.get_state_vector(s, wrapped),
            sl.get_state_vector(s, np.int64(i)),
            sl.get_state_vector(s, i - len(rows)),
        ]
        dual = sl.get_state_dual_vector(s, i)
        each = list(sl.state_vector_list_into_iter(s))
        again = sl.as_state_vector_list(x for x in each)
        mixed = [{**x, "data": np.real(x["data"]) if ctx.flag() else x["data"]} for x in each]
        joined = sl.as_state_vector_list(mixed)
    ctx.equal("list_of_mixed_types", joined["data"], np.concatenate([x["data"] for x in mixed]))
    for name, g in zip(("flat", "stacked", "wrapped", "np_int", "negative"), got, strict=True):
        ctx.equal(name, g["data"], rows[i])
        ctx.check("basis", G.same(g["basis"], s["basis"][1]))
    ctx.equal("dual", dual["data"], rows[i].conj())
    ctx.check("n_states", len(each) == len(rows))
    for a, b in zip(each, rows, strict=True):
        ctx.equal("iter", a["data"], b)
        ctx.check("iter_basis", G.same(a["basis"], s["basis"][1]))
    ctx.equal("from_iter", again["data"], keep)
    ctx.check("from_iter_basis", tuple(again["basis"].shape) == rows.shape and G.same(again["basis"][1], s["basis"][1]))
    w = G.cplx(ctx.rng, len(rows))
    with ctx.running("weighted"):
        mix = sl.get_weighted_state_vector(s, {"basis": s["basis"][0], "data": w})
    ctx.close("weighted", mix["data"], sum(x * r for x, r in zip(w, rows, strict=True)), scale=np.abs(w).sum() * np.abs(rows).max())
    ctx.check("weighted_basis", G.same(mix["basis"], s["basis"][1]))
    ctx.equal("input_unchanged", s["data"], keep)


@R.workload(150, 2000)
def inner_products(ctx):
    shape = G.random_shape(ctx.rng, max_total=20)
    dx = G.lattice(ctx.rng, len(shape))
    b0, b1 = (G.tuple_basis(ctx.rng, shape, delta_x=dx) for _ in range(2))
    if ctx.flag(0.3):
        b1 = b0
    s, t = _states(ctx, inner=b0, max_list=8), _states(ctx, inner=b1, max_list=8)
    ctx.note(b0=G.describe(b0), b1=G.describe(b1))
    a, b = _rows(s) @ G.states(b0), _rows(t) @ G.states(b1)
    keep = s["data"].copy(), t["data"].copy()
    with ctx.running("inner_products"):
        out = sl.calculate_inner_products(s, t)
    exp = np.array([[np.vdot(x, y) for y in b] for x in a])
    scale = np.abs(_rows(s)).max() * np.abs(_rows(t)).max() * len(b.T)
    ctx.close("inner_products", out["data"], exp.ravel(), scale=scale)
    ctx.check("inner_products_basis", G.same(out["basis"][0], s["basis"][0]) and G.same(out["basis"][1], t["basis"][0]))
    u = {"basis": TupleBasis(s["basis"][0], b1), "data": G.cplx(ctx.rng, s["basis"][0].n * b1.n)}
    c = _rows(u) @ G.states(b1)
    with ctx.running("elementwise"):
        el_ = sl.calculate_inner_products_elementwise(s, u)
    ctx.close("elementwise", el_["data"], np.array([np.vdot(x, y) for x, y in zip(a, c, strict=True)]), scale=np.abs(_rows(s)).max() * np.abs(_rows(u)).max() * len(b.T))
    ctx.check("elementwise_basis", G.same(el_["basis"], s["basis"][0]))
    ctx.equal("input_unchanged", np.concatenate([s["data"], t["data"]]), np.concatenate(keep))
    v = _states(ctx, inner=b0, max_list=8)
    e0, e1 = G.cplx(ctx.rng, s["basis"][0].n), G.cplx(ctx.rng, v["basis"][0].n)
    with ctx.running("eigenvalues"):
        weighted = sl.calculate_inner_products_eigenvalues({**s, "eigenvalue": e0}, {**v, "eigenvalue": e1})
        values = el.get_eigenvalues_list({**s, "eigenvalue": e0})
    exp = np.array(
        [[np.vdot(x, y) * np.conj(p) * q for y, q in zip(_rows(v), e1, strict=True)] for x, p in zip(_rows(s), e0, strict=True)]
    )
    ctx.close("eigenvalue_products", weighted["data"], exp.ravel())
    ctx.equal("eigenvalue_list", values["data"], e0)
    ctx.check("eigenvalue_basis", all(G.same(x, s["basis"][0]) for x in values["basis"]))


@R.workload(200, 2500)
def average(ctx):
    s = _states(ctx)
    shape = s["basis"][0].shape
    nd = len(shape)
    axis = None if ctx.flag(0.25) else tuple(int(x) for x in ctx.rng.permutation(nd)[: ctx.randint(1, nd)])
    axes = tuple(range(nd)) if axis is None else axis
    dims = [shape[x] for x in axes]
    w = ctx.rng.uniform(0.1, 2, size=dims) if ctx.flag() else None
    ctx.note(axis=axis, weighted=w is not None)
    arr = s["data"].reshape(*shape, -1)
    moved = np.moveaxis(arr, axes, range(len(axes)))
    weights = np.ones(dims) if w is None else w
    exp = sum(weights[i] * moved[i] for i in np.ndindex(*dims)) / weights.sum()
    given = None if w is None else (w.ravel() if len(axes) == 1 or ctx.flag() else w)
    with ctx.running("average"):
        out = sl.average_state_vector(s, axis, weights=given)
    ctx.close("average", out["data"], exp.reshape(-1), scale=np.abs(arr).max())
    rest = [b for i, b in enumerate(s["basis"][0]) if i not in axes]
    ctx.check("average_basis", G.describe(out["basis"][0]) == [G.describe(b) for b in rest] and G.same(out["basis"][1], s["basis"][1]))
    ctx.check("average_size", out["data"].shape == (out["basis"].n,))


@R.workload(150, 2000)
def along_axis(ctx):
    s = _states(ctx)
    shape = s["basis"][0].shape
    nd = len(shape)
    axes = tuple(int(x) for x in ctx.rng.permutation(nd)[: ctx.randint(1, nd)])
    rest = [i for i in range(nd) if i not in axes]
    idx = tuple(ctx.randint(0, shape[i] - 1) for i in rest)
    default = ctx.flag(0.3)
    ctx.note(axes=axes, idx=idx, default=default)
    fixed = dict(zip(rest, (0,) * len(rest) if default else idx, strict=True))
    arr = s["data"].reshape(*shape, -1)
    exp = np.empty([shape[a] for a in axes] + [arr.shape[-1]], dtype=arr.dtype)
    for at in np.ndindex(*exp.shape[:-1]):
        where = dict(zip(axes, at, strict=True)) | fixed
        exp[at] = arr[tuple(where[i] for i in range(nd))]
    with ctx.running("along_axis"):
        out = sl.get_state_along_axis(s, axes, None if default else idx)
    ctx.equal("along_axis", out["data"], exp.reshape(-1))
    ctx.check("along_axis_basis", G.describe(out["basis"][0]) == [G.describe(s["basis"][0][a]) for a in axes] and G.same(out["basis"][1], s["basis"][1]))


@R.workload(100, 1200)
def reference_states(ctx):
    basis = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng))
    i = ctx.randint(0, basis.n - 1)
    ctx.note(basis=G.describe(basis), i=i)
    with ctx.running("basis_states"):
        every = sl.get_basis_states(basis)
        one = su.get_single_point_state_vector_excact(basis, i)
    for j in range(basis.n):
        unit = np.zeros(basis.n)
        unit[j] = 1
        ctx.equal("basis_states", every["data"].reshape(basis.n, basis.n)[j], unit)
        if j == i:
            ctx.equal("point_state", one["data"], unit)
    ctx.check("basis", G.same(every["basis"][1], basis) and every["basis"][0].n == basis.n and G.same(one["basis"], basis))

    nd = ctx.randint(1, 3)
    samples = tuple(ctx.randint(1, 4) for _ in range(nd))
    points = tuple(ctx.randint(2, 7 if nd == 1 else 4) for _ in range(nd))
    dx = G.lattice(ctx.rng, nd)
    cell = G.tuple_basis(ctx.rng, points, delta_x=dx, kinds=G.POS_KINDS)
    lists = TupleBasis(*(G.basis_1d(ctx.rng, n, kind=ctx.pick(("fundamental", "fundamental_k"))) for n in samples))
    s = tuple(ctx.randint(1, p) for p in points)
    ctx.note(samples=samples, cell=G.describe(cell), s=s)
    with ctx.running("free"):
        free = su.get_most_localized_free_state_vectors(TupleBasis(lists, cell), s)
    # Each occupies the |k| below the cutoff evenly and is centred on its point of
    # the cell, which is split into s points
    b = free["basis"]
    ctx.check("free_shape", tuple(b[0].shape) == s and tuple(b[1].shape) == tuple(n * x for n, x in zip(samples, s, strict=True)))
    ctx.close("free_lattice", np.array([x.delta_x for x in b[1]]), dx * np.array(samples)[:, None])
    ctx.check("free_points", tuple(b[1].fundamental_shape) == tuple(n * x for n, x in zip(samples, points, strict=True)))
    rows = np.asarray(free["data"]).reshape(b.shape)
    ctx.close("free_orthonormal", rows.conj() @ rows.T, np.eye(len(rows)))
    exp = np.ones((1, 1))
    for n, x in zip(samples, s, strict=True):
        f = G.freq(n * x)
        exp = np.kron(exp, np.exp(-2j * np.pi * np.outer(G.freq(x), f) / (n * x)) / np.sqrt(n * x))
    ctx.close("free", rows, exp)

    n_bands = ctx.randint(1, cell.n)
    ctx.note(n_bands=n_bands)
    with ctx.running("points"):
        pts = su.get_single_point_state_vectors(TupleBasis(lists, cell), n_bands)
    rows = np.asarray(pts["data"]).reshape(pts["basis"].shape)
    ctx.check("points_orthonormal", bool(np.all(rows @ rows.conj().T == np.eye(n_bands))))
    ctx.check("points_shape", tuple(pts["basis"][1].shape) == tuple(n * p for n, p in zip(samples, points, strict=True)))
    ctx.check("points_are_points", bool(np.all(np.sum(rows != 0, axis=1) == 1)))
    ctx.close("points_lattice", np.array([x.delta_x for x in pts["basis"][1]]), dx * np.array(samples)[:, None])
