"""Probability vectors: Born rule, marginals, averages, selection."""

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.probability_vector import probability_vector as pv

R = Registry("S02")
RULE = (
    "Random states and probability lists over random stacked list and state bases; oracle: explicit sums "
    "over indices. Non-trivial: at least one compared result."
)


def _bases(ctx):
    lists = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=24, hi=5))
    inner = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=24, hi=5))
    ctx.note(list=G.describe(lists), inner=G.describe(inner))
    return lists, inner


def _desc(bases):
    return [G.describe(b) for b in bases]


def _axes(ctx, nd, lo=1):
    return tuple(int(x) for x in ctx.rng.permutation(nd)[: ctx.randint(lo, nd)])


@R.workload(150, 2000)
def born(ctx):
    lists, inner = _bases(ctx)
    data = G.cplx(ctx.rng, lists.n * inner.n) * 10.0 ** ctx.randint(-4, 4)
    data = ctx.pick([data, data, data, data.real])
    keep = data.copy()
    states = {"basis": TupleBasis(lists, inner), "data": data}
    i = ctx.randint(0, lists.n - 1)
    one = {"basis": inner, "data": data.reshape(lists.n, -1)[i].copy()}
    with ctx.running("from_states"):
        p, q = pv.from_state_vector_list(states), pv.from_state_vector(one)
    exp = np.array([z.real**2 + z.imag**2 for z in data])
    ctx.close("list", p["data"], exp)
    ctx.close("single", q["data"], exp.reshape(lists.n, -1)[i])
    ctx.check("real_non_negative", bool(np.all(np.real(p["data"]) >= 0)) and bool(np.all(np.imag(p["data"]) == 0)))
    ctx.check("basis", G.same(p["basis"], states["basis"]) and G.same(q["basis"], inner))
    ctx.equal("input_unchanged", data, keep)


@R.workload(150, 2000)
def select(ctx):
    lists, inner = _bases(ctx)
    data = ctx.rng.exponential(size=lists.n * inner.n)
    p = {"basis": TupleBasis(lists, inner), "data": data}
    i = ctx.randint(0, lists.n - 1)
    stacked = tuple(int(x) for x in np.unravel_index(i, lists.shape))
    rows = data.reshape(lists.n, -1)
    with ctx.running("get"):
        got = pv.get_probability(p, i), pv.get_probability(p, stacked), pv.get_probability(p)
    for name, g, e in zip(("flat", "stacked", "default"), got, (rows[i], rows[i], rows[0]), strict=True):
        ctx.equal(name, g["data"], e)
        ctx.check("basis", G.same(g["basis"], inner))
    nd = lists.ndim
    axes = _axes(ctx, nd)
    rest = [x for x in range(nd) if x not in axes]
    idx = tuple(ctx.randint(0, lists.shape[x] - 1) for x in rest)
    default = ctx.flag(0.3)
    ctx.note(axes=axes, idx=idx, default=default)
    fixed = dict(zip(rest, (0,) * len(rest) if default else idx, strict=True))
    arr = data.reshape(*lists.shape, -1)
    exp = np.empty([lists.shape[a] for a in axes] + [inner.n])
    for at in np.ndindex(*exp.shape[:-1]):
        where = dict(zip(axes, at, strict=True)) | fixed
        exp[at] = arr[tuple(where[x] for x in range(nd))]
    with ctx.running("along_axis"):
        out = pv.get_probability_along_axis(p, axes, None if default else idx)
        if axes == (0,) and default:
            out = pv.get_probability_along_axis(p)
    ctx.equal("along_axis", out["data"], exp.reshape(-1))
    ctx.check("along_axis_basis", G.describe(out["basis"][0]) == _desc(lists[a] for a in axes) and G.same(out["basis"][1], inner))


def _sum(arr, axes):
    keep = [i for i in range(arr.ndim) if i not in axes]
    out = np.zeros([arr.shape[i] for i in keep])
    for at in np.ndindex(*arr.shape):
        out[tuple(at[i] for i in keep)] += arr[at]
    return out


@R.workload(150, 2000)
def marginal(ctx):
    lists, inner = _bases(ctx)
    data = ctx.rng.exponential(size=lists.n * inner.n)
    keep = data.copy()
    axis = None if ctx.flag(0.3) else _axes(ctx, inner.ndim)
    axes = tuple(range(inner.ndim)) if axis is None else axis
    ctx.note(axis=axis)
    p = {"basis": TupleBasis(lists, inner), "data": data}
    rows = data.reshape(lists.n, *inner.shape)
    exp = np.array([_sum(r, axes) for r in rows]).reshape(lists.n, -1)
    one = {"basis": inner, "data": rows[-1].reshape(-1).copy()}
    with ctx.running("sum"):
        out = pv.sum_probabilities(p, axis)
        single = pv.sum_probability(one, axis)
    rest = _desc(b for i, b in enumerate(inner) if i not in axes)
    ctx.close("sum_list", out["data"], exp.ravel())
    ctx.close("sum_single", single["data"], exp[-1])
    ctx.check("sum_basis", G.describe(out["basis"][1]) == rest and G.same(out["basis"][0], lists) and G.describe(single["basis"]) == rest)
    ctx.check("sum_size", out["data"].shape == (out["basis"].n,) and single["data"].shape == (single["basis"].n,))
    with ctx.running("total"):
        total = pv.sum_probabilities(p)
    ctx.close("total", total["data"], data.reshape(lists.n, -1).sum(axis=1))
    ctx.equal("input_unchanged", data, keep)


@R.workload(200, 2500)
def average(ctx):
    lists, inner = _bases(ctx)
    data = ctx.rng.exponential(size=lists.n * inner.n)
    axis = _axes(ctx, lists.ndim)
    dims = [lists.shape[x] for x in axis]
    w = ctx.rng.uniform(0.1, 2, size=dims) if ctx.flag() else None
    ctx.note(axis=axis, weighted=w is not None)
    arr = data.reshape(*lists.shape, -1)
    moved = np.moveaxis(arr, axis, range(len(axis)))
    weights = np.ones(dims) if w is None else w
    exp = sum(weights[i] * moved[i] for i in np.ndindex(*dims)) / weights.sum()
    p = {"basis": TupleBasis(lists, inner), "data": data}
    with ctx.running("average"):
        out = pv.average_probabilities(p, axis, weights=None if w is None else w.ravel())
        every = pv.average_probabilities(p)
    ctx.close("average", out["data"], exp.reshape(-1))
    rest = _desc(b for i, b in enumerate(lists) if i not in axis)
    ctx.check("average_basis", G.describe(out["basis"][0]) == rest and G.same(out["basis"][1], inner))
    ctx.check("average_size", out["data"].shape == (out["basis"].n,))
    ctx.close("average_all", every["data"], data.reshape(lists.n, -1).mean(axis=0))
    ctx.check("average_all_basis", G.same(every["basis"], inner))
