"""The algebra of operators and lists of operators."""

import numpy as np
import scipy.linalg

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.operator import operations as ops
from surface_potential_analysis.operator import operator as op
from surface_potential_analysis.operator import operator_list as ol

R = Registry("O01")
RULE = (
    "Random operators and lists of operators in random (also different) bases; oracle: explicit matrix "
    "products and sums using the independent reference <x|b_j>. Non-trivial: at least one compared result."
)


def _bases(ctx, n, *, kinds=G.KINDS, max_total=12):
    shape = G.random_shape(ctx.rng, max_total=max_total, hi=5)
    dx = G.lattice(ctx.rng, len(shape))
    out = [G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=kinds) for _ in range(n)]
    ctx.note(bases=[G.describe(b) for b in out])
    return out


def _lists(ctx, max_total=8):
    b = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=max_total, hi=4))
    ctx.note(lists=G.describe(b))
    return b


def _op(ctx, a, b):
    data = ctx.rng.normal(size=a.n * b.n).astype(complex) if ctx.flag(0.2) else G.cplx(ctx.rng, a.n * b.n)
    return {"basis": TupleBasis(a, b), "data": data}


def _mat(o):
    return o["data"].reshape(o["basis"].shape)


def _op_list(ctx, lists, a, b):
    return {"basis": TupleBasis(lists, TupleBasis(a, b)), "data": G.cplx(ctx.rng, lists.n * a.n * b.n)}


def _diag_list(ctx, lists, a, b):
    return {"basis": TupleBasis(lists, TupleBasis(a, b)), "data": G.cplx(ctx.rng, lists.n * a.n)}


def _mats(o):
    b = o["basis"][1]
    return np.asarray(o["data"]).reshape(o["basis"][0].n, b[0].n, b[1].n)


def _p(a, b):
    """<a_i|b_j>."""
    return G.states(a).conj() @ G.states(b).T


def _basis(ctx, name, got, *exp):
    ctx.check(name, len(exp) == len(tuple(got)) and all(G.same(g, e) for g, e in zip(got, exp, strict=True)))


def _well(ctx, *objs):
    for o in objs:
        ctx.check("flat", np.asarray(o["data"]).ndim == 1)


@R.workload(150, 2000)
def algebra(ctx):
    a, b, c = _bases(ctx, 3)
    x, y, z = _op(ctx, a, b), _op(ctx, a, b), _op(ctx, b, c)
    keep = x["data"].copy(), y["data"].copy(), z["data"].copy()
    f = complex(G.cplx(ctx.rng))
    with ctx.running("algebra"):
        add, sub, mul = op.add_operator(x, y), op.subtract_operator(x, y), op.matmul_operator(x, z)
        scaled = ops.scale_operator(f, x)
    ctx.close("add", add["data"], keep[0] + keep[1])
    ctx.close("subtract", sub["data"], keep[0] - keep[1])
    ctx.close("scale", scaled["data"], f * keep[0])
    exp = np.array([[sum(p * q for p, q in zip(r, col, strict=True)) for col in _mat(z).T] for r in _mat(x)])
    ctx.close("matmul", mul["data"], exp.ravel(), floor=1e-2)
    _well(ctx, add, sub, mul, scaled)
    for o in (add, sub, scaled):
        _basis(ctx, "basis", o["basis"], a, b)
    _basis(ctx, "matmul_basis", mul["basis"], a, c)
    s, t = _op(ctx, a, a), _op(ctx, a, a)
    S, T = _mat(s), _mat(t)
    with ctx.running("commutator"):
        com, anti = ops.get_commutator(s, t), ops.get_anti_commutator(s, t)
    scale = np.linalg.norm(S) * np.linalg.norm(T)
    ctx.close("commutator", com["data"], (S @ T - T @ S).ravel(), scale=scale)
    ctx.close("anti_commutator", anti["data"], (S @ T + T @ S).ravel(), scale=scale)
    for o in (com, anti):
        _basis(ctx, "commutator_basis", o["basis"], a, a)
    for now, before in zip((x, y, z), keep, strict=True):
        ctx.equal("input_unchanged", now["data"], before)


@R.workload(120, 1500)
def functions(ctx):
    (a,) = _bases(ctx, 1)
    n = a.n
    v = G.unitary(ctx.rng, n) if ctx.flag() else G.cplx(ctx.rng, n, n) + 2 * n * np.eye(n)
    lam = G.cplx(ctx.rng, n)
    if ctx.flag(0.3):
        lam = np.real(lam).astype(complex)
    if ctx.flag(0.2):
        lam[:] = lam[0]
    m = v @ np.diag(lam) @ np.linalg.inv(v)
    o = {"basis": TupleBasis(a, a), "data": m.ravel()}
    keep = m.copy()
    name = ctx.pick(("exp", "square", "cos", "shift"))
    fn = {"exp": np.exp, "square": lambda x: x**2, "cos": np.cos, "shift": lambda x: x + 2j}[name]
    ctx.note(function=name, eigenvalues=lam)
    with ctx.running("apply_function"):
        out = op.apply_function_to_operator(o, fn)
    ctx.close("apply_function", out["data"], (v @ np.diag(fn(lam)) @ np.linalg.inv(v)).ravel(), tol=1e-6, floor=0.1)
    with ctx.running("exp"):
        e = ops.exp_operator(o)
    ctx.close("exp", e["data"], scipy.linalg.expm(m).ravel(), tol=1e-6)
    _well(ctx, out, e)
    _basis(ctx, "basis", out["basis"], a, a)
    _basis(ctx, "basis", e["basis"], a, a)
    ctx.equal("input_unchanged", o["data"], keep.ravel())


@R.workload(150, 2000)
def on_states(ctx):
    a, b, c = _bases(ctx, 3)
    x = _op(ctx, a, b)
    lists = _lists(ctx)
    s = {"basis": TupleBasis(lists, c), "data": G.cplx(ctx.rng, lists.n * c.n) * 10.0 ** ctx.randint(-3, 3)}
    exp = (_mat(x) @ _p(b, c) @ s["data"].reshape(lists.n, -1).T).T
    norm = np.linalg.norm(exp, axis=1)
    if norm.min() < 1e-6 * np.abs(s["data"]).max():
        return
    with ctx.running("apply"):
        many = ops.apply_operator_to_states(x, s)
        one = op.apply_operator_to_state(x, {"basis": c, "data": s["data"].reshape(lists.n, -1)[0].copy()})
    ctx.close("norms", many["eigenvalue"], norm)
    ctx.close("states", np.asarray(many["data"]).reshape(exp.shape), exp / norm[:, None])
    ctx.close("norm", one["eigenvalue"], norm[0])
    ctx.close("state", one["data"], exp[0] / norm[0])
    _well(ctx, many, one)
    _basis(ctx, "states_basis", many["basis"], lists, a)
    ctx.check("state_basis", G.same(one["basis"], a))


@R.workload(200, 2500)
def lists(ctx):
    a, b, c, d = _bases(ctx, 4, max_total=8)
    m = _lists(ctx)
    lo, o = _op_list(ctx, m, a, b), _op(ctx, c, d)
    keep = lo["data"].copy(), o["data"].copy()
    with ctx.running("list_operator"):
        r = ops.matmul_list_operator(lo, o)
    ctx.close("list_operator", r["data"], (_mats(lo) @ _p(b, c) @ _mat(o)).ravel(), floor=1e-2)
    _basis(ctx, "list_operator_basis", (r["basis"][0], *r["basis"][1]), m, a, d)
    with ctx.running("operator_list"):
        q = ops.matmul_operator_list(o, lo)
    ctx.close("operator_list", q["data"], (_mat(o) @ _p(d, a) @ _mats(lo)).ravel(), floor=1e-2)
    _basis(ctx, "operator_list_basis", (q["basis"][0], *q["basis"][1]), m, c, b)

    # rows and columns of a diagonal operator: the same number of states, not the same states
    b2 = ctx.pick([x for x in (a, b, c, d) if x.n == b.n])
    dl = _diag_list(ctx, m, b, b2)
    full = np.array([np.diag(x) for x in dl["data"].reshape(m.n, -1)])
    with ctx.running("diagonal_list_operator"):
        r = ops.matmul_diagonal_list_operator(dl, o)
    ctx.close("diagonal_list_operator", r["data"], (full @ _p(b2, c) @ _mat(o)).ravel(), floor=1e-2)
    _basis(ctx, "diagonal_list_operator_basis", (r["basis"][0], *r["basis"][1]), m, b, d)
    with ctx.running("operator_diagonal_list"):
        q = ops.matmul_operator_diagonal_list(o, dl)
    ctx.close("operator_diagonal_list", q["data"], (_mat(o) @ _p(d, b) @ full).ravel(), floor=1e-2)
    _basis(ctx, "operator_diagonal_list_basis", (q["basis"][0], *q["basis"][1]), m, c, b2)

    other = _op_list(ctx, m, c, d)
    f = complex(G.cplx(ctx.rng))
    exp = _p(a, c) @ _mats(other) @ _p(d, b)
    with ctx.running("sums"):
        add, sub, scaled = ops.add_list_list(lo, other), ops.subtract_list_list(lo, other), ops.scale_operator_list(f, lo)
    ctx.close("add_list", add["data"], (_mats(lo) + exp).ravel())
    ctx.close("subtract_list", sub["data"], (_mats(lo) - exp).ravel())
    ctx.close("scale_list", scaled["data"], (f * _mats(lo)).ravel())
    for x in (add, sub, scaled):
        _basis(ctx, "sum_basis", (x["basis"][0], *x["basis"][1]), m, a, b)
        _well(ctx, x)
    ctx.equal("input_unchanged", lo["data"], keep[0])
    ctx.equal("input_unchanged", o["data"], keep[1])


@R.workload(150, 2000)
def commutators(ctx):
    """Commutators with a list, also when the two are given in different bases."""
    a, b = _bases(ctx, 2, kinds=G.FULL_KINDS, max_total=8)
    if ctx.flag(0.3):
        (a,) = _bases(ctx, 1, max_total=8)
        b = a
    m = _lists(ctx)
    h = _op(ctx, a, a)
    lo = _op_list(ctx, m, b, b)
    H = _mat(h)
    conv = _p(a, b) @ _mats(lo) @ _p(b, a)
    with ctx.running("commutator_list"):
        r = ops.get_commutator_operator_list(h, lo)
    back = np.array([_p(a, x[0]) @ y @ _p(x[1], a) for x, y in zip([r["basis"][1]] * m.n, _mats(r), strict=True)])
    scale = np.linalg.norm(H) * np.abs(conv).max() * 3
    ctx.close("commutator_list", back, H @ conv - conv @ H, scale=scale)
    dl = _diag_list(ctx, m, b, b)
    conv = _p(a, b) @ np.array([np.diag(x) for x in dl["data"].reshape(m.n, -1)]) @ _p(b, a)
    with ctx.running("commutator_diagonal"):
        r = ops.get_commutator_diagonal_operator_list(h, dl)
    back = np.array([_p(a, r["basis"][1][0]) @ y @ _p(r["basis"][1][1], a) for y in _mats(r)])
    ctx.close("commutator_diagonal", back, H @ conv - conv @ H, scale=scale)
    ctx.check("list_basis", G.same(r["basis"][0], m))


@R.workload(200, 2500)
def representation(ctx):
    """Full, diagonal and flattened forms; selection from lists."""
    a, b = _bases(ctx, 2)
    m = _lists(ctx)
    i = ctx.randint(0, m.n - 1)
    sq = {"basis": TupleBasis(a, a), "data": G.cplx(ctx.rng, a.n)}
    with ctx.running("diagonal"):
        full = op.as_operator(sq)
        back = op.as_diagonal_operator(full)
    ctx.equal("as_operator", full["data"], np.diag(sq["data"]).ravel())
    ctx.equal("as_diagonal", back["data"], sq["data"])
    _well(ctx, full, back)
    for x in (full, back):
        _basis(ctx, "diagonal_basis", x["basis"], a, a)
    j = ctx.randint(0, a.n - 1)
    with ctx.running("eigenvalue"):
        ctx.equal("eigenvalue", op.get_eigenvalue(sq, j), sq["data"][j])

    lo, dl = _op_list(ctx, m, a, b), _diag_list(ctx, m, a, a)
    mats, rows = _mats(lo), dl["data"].reshape(m.n, -1)
    with ctx.running("select"):
        one = ol.select_operator(lo, i)
        diag = ol.select_diagonal_operator(dl, i)
        diag2 = ol.as_diagonal_operator(dl, i)
    ctx.equal("select", one["data"], mats[i].ravel())
    _basis(ctx, "select_basis", one["basis"], a, b)
    for x in (diag, diag2):
        ctx.equal("select_diagonal", x["data"], rows[i])
        _basis(ctx, "select_diagonal_basis", x["basis"], a, a)
    with ctx.running("list_forms"):
        full = ol.diagonal_operator_list_as_full(dl)
        back = ol.operator_list_as_diagonal(full)
        each = list(ol.operator_list_into_iter(lo))
        again = ol.operator_list_from_iter(x for x in each)
        flat = ol.as_flat_operator(dl)
        dtypes = [np.real, np.asarray, lambda x: np.rint(x.real / np.abs(x).max() * 9).astype(int)]
        mixed = [{**x, "data": ctx.pick(dtypes)(x["data"])} for x in each]
        joined = ol.operator_list_from_iter(mixed)
    ctx.equal("as_flat_operator", flat["data"], dl["data"])
    ctx.check("as_flat_operator_basis", [x.n for x in flat["basis"]] == [m.n * a.n] * 2 and G.same(flat["basis"][0][0], m))
    ctx.equal("list_of_mixed_types", joined["data"], np.concatenate([x["data"] for x in mixed]))
    ctx.equal("list_as_full", full["data"], np.array([np.diag(x) for x in rows]).ravel())
    ctx.equal("list_as_diagonal", back["data"], dl["data"])
    square = _op_list(ctx, m, a, a)
    with ctx.running("list_forms"):
        d2 = ol.operator_list_as_diagonal(square)
    ctx.equal("list_diagonal_part", d2["data"], np.array([np.diag(x) for x in _mats(square)]).ravel())
    for x in (full, back, d2):
        _basis(ctx, "list_forms_basis", (x["basis"][0], *x["basis"][1]), m, a, a)
        _well(ctx, x)
    ctx.check("iter_count", len(each) == m.n)
    for x, e in zip(each, mats, strict=True):
        ctx.equal("iter", np.asarray(x["data"]).ravel(), e.ravel())
        _basis(ctx, "iter_basis", x["basis"], a, b)
    ctx.equal("from_iter", again["data"], lo["data"])
    ctx.check("from_iter_basis", again["basis"][0].n == m.n and G.same(again["basis"][1], lo["basis"][1]))
    _well(ctx, again, one, diag)


@R.workload(200, 2500)
def diagonal_reductions(ctx):
    a = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=24, hi=5))
    m = _lists(ctx)
    nd = a.ndim
    axis = None if ctx.flag(0.25) else tuple(int(x) for x in ctx.rng.permutation(nd)[: ctx.randint(1, nd)])
    axes = tuple(range(nd)) if axis is None else axis
    dims = [a.shape[x] for x in axes]
    w = ctx.rng.uniform(0.1, 2, size=dims) if ctx.flag() else None
    ctx.note(basis=G.describe(a), axis=axis, weighted=w is not None)
    d = {"basis": TupleBasis(a, a), "data": G.cplx(ctx.rng, a.n)}
    dl = _diag_list(ctx, m, a, a)
    weights = np.ones(dims) if w is None else w
    given = None if w is None else w.ravel()

    def reduce(arr, weights):
        moved = np.moveaxis(arr, axes, range(len(axes)))
        return sum(weights[i] * moved[i] for i in np.ndindex(*dims))

    arr = d["data"].reshape(a.shape)
    rows = dl["data"].reshape(m.n, *a.shape)
    rest = [G.describe(b) for i, b in enumerate(a) if i not in axes]
    with ctx.running("average"):
        one = op.average_eigenvalues(d, axis, weights=given)
        many = op.average_eigenvalues_list(dl, axis, weights=given)
        total = op.sum_diagonal_operator_over_axes(d, axes)
    W = weights.sum()
    ctx.close("average", one["data"], np.ravel(reduce(arr, weights) / W), scale=np.abs(arr).max())
    ctx.close("average_list", many["data"], np.array([np.ravel(reduce(r, weights) / W) for r in rows]).ravel(), scale=np.abs(rows).max())
    ctx.close("sum", total["data"], np.ravel(reduce(arr, np.ones(dims))), scale=np.abs(arr).sum())
    for x in (one["basis"], many["basis"][1], total["basis"]):
        ctx.check("reduced_basis", all(G.describe(y) == rest for y in x))
    ctx.check("reduced_list", G.same(many["basis"][0], m))
