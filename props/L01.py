"""Overlaps of states in position, momentum and in between."""

import numpy as np

from mon import gen as G
from mon import wave as W
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis, FundamentalPositionBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.overlap import calculation as lc
from surface_potential_analysis.overlap import conversion as lv
from surface_potential_analysis.overlap import interpolation as li
from surface_potential_analysis.overlap import overlap as lo

R = Registry("L01")
RULE = (
    "Random states, wavepackets and overlaps (lattices, bases, shifts); oracle: products of the states on the grid, "
    "direct Fourier sums at arbitrary momenta and analytic averages over angle. Non-trivial: at least one compared "
    "overlap."
)


@R.workload(100, 1500)
def states(ctx):
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=60, hi=8)
    basis = TupleBasis(*(FundamentalPositionBasis(d, n) for d, n in zip(G.lattice(ctx.rng, nd), shape, strict=True)))
    k = ctx.randint(1, 3)
    d = G.cplx(ctx.rng, k, basis.n)
    before = d.copy()
    how = ctx.pick(["none", "flat", "stacked"])
    s = tuple(ctx.randint(-2, n + 1) for n in shape)
    if how == "flat":
        i = ctx.randint(0, basis.n - 1)
        s, arg = tuple(int(x) for x in np.unravel_index(i, shape)), i
    else:
        arg = s
    if how == "none":
        s = (0,) * nd
    ctx.note(shape=shape, bands=k, shift=s, how=how)
    v = {"basis": TupleBasis(FundamentalBasis(k), basis), "data": d.ravel()}
    with ctx.running("states"):
        o = lc.calculate_state_vector_list_overlap(v, **({} if how == "none" else {"shift": arg}))
    moved = np.roll(before.reshape(k, *shape), s, axis=tuple(range(1, nd + 1))).reshape(k, -1)
    exp = np.einsum("ix,jx->xij", before.conj(), moved)
    data = np.asarray(o["data"])
    ctx.check("states_flat", data.ndim == 1 and data.size == o["basis"].n)
    ctx.check("states_basis", G.same(o["basis"][0], basis) and o["basis"][1].shape == (k, k))
    ctx.close("states", data.reshape(-1, k, k), exp)
    i, j = ctx.randint(0, k - 1), ctx.randint(0, k - 1)
    with ctx.running("single"):
        one = lo.get_single_overlap(o, (i, j) if ctx.flag() else i * k + j)
    ctx.close("single", one["data"], exp[:, i, j])
    ctx.check("single_basis", G.same(one["basis"][0], basis) and one["basis"][1].n == 1)
    ctx.equal("unchanged", v["data"], before.ravel())


@R.workload(80, 1000)
def wavepackets(ctx):
    lst, state, dx = W.bases(ctx, max_total=60)
    k = ctx.randint(1, 3)
    ws = W.packets(ctx, k, lst, state)
    X = np.array([W.supercell(x, lst, state).sum(axis=0) for x in ws["data"].reshape(k, -1)])
    big = W.super_shape(lst, state)
    nd = len(big)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    w = [{"basis": TupleBasis(lst, state), "data": x.copy()} for x in ws["data"].reshape(k, -1)]
    i, j = ctx.randint(0, k - 1), ctx.randint(0, k - 1)
    # the normalisation of the sum over samples is tested with the wavepackets
    N = np.prod(lst.fundamental_shape)
    with ctx.running("pair"):
        o = lc.calculate_wavepacket_overlap(w[i], w[j])
    ctx.check("pair_grid", tuple(o["basis"][0].fundamental_shape) == big and np.asarray(o["data"]).shape == (int(np.prod(big)),))
    ratio = np.vdot(X[i].conj() * X[j], o["data"]) / max(np.vdot(X[i].conj() * X[j], X[i].conj() * X[j]).real, 1e-300)
    if np.abs(X[i].conj() * X[j]).max() > 1e-6:
        ctx.close("pair", o["data"], X[i].conj() * X[j] * ratio, floor=1e-6)
        ctx.close("pair_norm", ratio, 1 / N, tol=1e-7)
    s = tuple(ctx.randint(-2, n) for n in big) if ctx.flag() else None
    with ctx.running("list"):
        o = lc.calculate_wavepacket_list_overlap(ws, **({} if s is None else {"shift": s}))
    moved = np.roll(X.reshape(k, *big), s or (0,) * nd, axis=tuple(range(1, nd + 1))).reshape(k, -1)
    exp = np.einsum("ix,jx->xij", X.conj(), moved) / N
    ctx.close("list", np.asarray(o["data"]).reshape(-1, k, k), exp, floor=1e-3)


@R.workload(80, 1000)
def conversion(ctx):
    nd = ctx.randint(1, 3)
    shape = G.random_shape(ctx.rng, nd, max_total=60, hi=8)
    dx = G.lattice(ctx.rng, nd)
    basis = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.STATE_KINDS)
    other = G.tuple_basis(ctx.rng, shape, delta_x=dx, kinds=W.STATE_KINDS)
    k, l = ctx.randint(1, 3), ctx.randint(1, 3)
    d = G.cplx(ctx.rng, basis.n, k, l)
    ctx.note(basis=G.describe(basis), other=G.describe(other), bands=(k, l))
    o = {"basis": TupleBasis(basis, TupleBasis(FundamentalBasis(k), FundamentalBasis(l))), "data": d.ravel().copy()}
    grid = np.einsum("aij,ax->xij", d, G.states(basis))
    with ctx.running("basis"):
        c = lv.convert_overlap_to_basis(o, other)
    ctx.check("basis_flat", np.asarray(c["data"]).shape == (other.n * k * l,) and G.same(c["basis"][0], other))
    ctx.close("basis", np.asarray(c["data"]).reshape(other.n, k, l), np.einsum("ax,xij->aij", G.states(other).conj(), grid), floor=1e-3)
    with ctx.running("momentum"):
        m = lv.convert_overlap_to_momentum_basis(o)
    ctx.close("momentum", np.asarray(m["data"]).reshape(-1, k, l), np.einsum("ax,xij->aij", W.planes(shape).conj(), grid), floor=1e-3)
    ctx.close("momentum_states", G.states(m["basis"][0]), W.planes(shape))
    with ctx.running("position"):
        p = lv.convert_overlap_to_position_basis(m)
    ctx.close("position", np.asarray(p["data"]).reshape(-1, k, l), grid, floor=1e-3)
    for x in (c, m, p):
        ctx.check("pairs", (x["basis"][1][0].n, x["basis"][1][1].n) == (k, l))
    ctx.equal("unchanged", o["data"], d.ravel())


def _overlap(ctx, nd, *, flat=False):
    shape = G.random_shape(ctx.rng, nd, max_total=80, hi=8)
    dx = G.lattice(ctx.rng, nd)
    if flat:
        dx[:2, 2] = 0
        dx[2, :2] = 0
        if abs(np.linalg.det(dx)) < 1e-3 * np.prod(np.linalg.norm(dx, axis=1)):
            dx = np.diag(np.linalg.norm(dx, axis=1) + 0.1)
    basis = TupleBasis(*(FundamentalPositionBasis(d, n) for d, n in zip(dx, shape, strict=True)))
    d = G.cplx(ctx.rng, basis.n)
    pos = np.array(np.unravel_index(np.arange(basis.n), shape)).astype(float)
    # points half way around have two nearest images
    for a in range(2):
        n = shape[a]
        d[pos[a] * 2 == n] = 0
        pos[a] = np.where(pos[a] * 2 > n, pos[a] - n, pos[a])
    one = TupleBasis(FundamentalBasis(1), FundamentalBasis(1))
    return {"basis": TupleBasis(basis, one), "data": d}, shape, dx, pos, d.copy()


@R.workload(100, 1200)
def interpolation(ctx):
    o, shape, dx, pos, d = _overlap(ctx, 3)
    frac = pos / np.array(shape)[:, None]
    m = ctx.randint(1, 6)
    ctx.note(shape=shape)
    kf = ctx.rng.uniform(-4, 4, size=(3, m)) if ctx.flag() else ctx.rng.integers(-5, 6, size=(3, m)).astype(float)
    exp = np.einsum("x,xm->m", d, np.exp(2j * np.pi * np.einsum("ax,am->xm", frac, kf)))
    with ctx.running("fractions"):
        f = li.get_overlap_momentum_interpolator_k_fractions(o)
        got = f(tuple(kf))
        again = f(tuple(kf))
    ctx.close("fractions", got, exp, floor=1.0)
    ctx.equal("fractions_again", again, got)
    x = np.einsum("ac,ax->cx", dx, frac)
    extra = (2,) if ctx.flag() else ()
    k = np.linalg.solve(dx, kf * 2 * np.pi)[..., None] * np.ones(extra or (1,))
    k = k if extra else k[..., 0]
    exp = np.tensordot(d, np.exp(1j * np.tensordot(x, k, axes=(0, 0))), axes=(0, 0))
    with ctx.running("coordinates"):
        got = li.get_overlap_momentum_interpolator(o)(k)
    ctx.close("coordinates", got, exp, floor=1.0, tol=1e-7)
    ctx.equal("unchanged", o["data"], d)


@R.workload(100, 1200)
def flat(ctx):
    o, shape, dx, pos, d = _overlap(ctx, 3, flat=True)
    frac = pos / np.array(shape)[:, None]
    x = np.einsum("ac,ax->cx", dx, frac)[:2].reshape(2, *shape)[..., 0].reshape(2, -1)
    v = d.reshape(shape).sum(axis=-1).ravel()
    keep = ctx.randint(1, v.size) if ctx.flag() else None
    order = np.argsort(np.abs(v))[::-1]
    if keep is not None and keep < v.size and np.isclose(np.abs(v[order[keep - 1]]), np.abs(v[order[keep]]), rtol=1e-9):
        keep = None
    use = order[:keep]
    m = ctx.randint(1, 6)
    scale = 2 * np.pi / np.linalg.norm(dx[:2], axis=1).max()
    k = ctx.rng.uniform(-4, 4, size=(2, m)) * scale
    ctx.note(shape=shape, keep=keep)
    exp = np.einsum("x,xm->m", v[use], np.exp(1j * np.einsum("cx,cm->xm", x[:, use], k)))
    with ctx.running("flat"):
        f = li.get_overlap_momentum_interpolator_flat(o, **({} if keep is None else {"n_points": keep}))
        got = f(k)
    ctx.close("flat", got, exp, floor=1.0, tol=1e-7)
    if keep is None:
        with ctx.running("flat_full"):
            full = li.get_overlap_momentum_interpolator(o)(np.concatenate([k, np.zeros((1, m))]))
        ctx.close("flat_is_full", got, full, floor=1.0, tol=1e-7)


@R.workload(100, 1200)
def angle(ctx):
    # a sum of harmonics, whose square is averaged exactly by enough samples
    L = ctx.randint(0, 4)
    c = {h: complex(*ctx.rng.normal(size=2)) for h in range(-L, L + 1)}
    p = {h: ctx.randint(0, 2) for h in c}
    samples = ctx.randint(2 * L + 2, 60) if ctx.flag(0.7) else None
    shape = ctx.pick([(1,), (4,), (2, 3), ()])
    q = np.abs(ctx.rng.normal(size=shape)) if shape else np.array(abs(ctx.rng.normal()))
    ctx.note(harmonics=L, samples=samples, q=q)

    def f(k):
        r, t = np.hypot(*k), np.arctan2(k[1], k[0])
        return sum(c[h] * np.exp(1j * h * t) * r ** p[h] for h in c)

    exp = sum(abs(c[h]) ** 2 * q ** (2 * p[h]) for h in c)
    with ctx.running("angle"):
        got = li.get_angle_averaged_diagonal_overlap_function(f, q, **({} if samples is None else {"theta_samples": samples}))
    ctx.close("angle", got, exp + np.zeros(shape))


@R.workload(20, 100)
def files(ctx):
    seen = {}
    for i in range(3):
        for j in range(3):
            for oi in np.ndindex(5, 5):
                for oj in ((ctx.randint(-2, 2), ctx.randint(-2, 2)) for _ in range(3)):
                    a = tuple(int(x) - 2 for x in oi)
                    name = lo.get_overlap_cache_filename(i, j, a, oj)
                    if name is None:
                        continue
                    key = (i, j, a, oj)
                    ctx.check("distinct", seen.setdefault(name, key) == key, f"{name}: {seen[name]} {key}")
