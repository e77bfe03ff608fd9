"""Eigenstates and expectation values."""

import numpy as np

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.state_vector import eigenstate_calculation as ec

R = Registry("E01")
RULE = (
    "Random hermitian, degenerate and general operators in random bases; monitors check the defining equations "
    "(A v = a v, completeness, order) and explicit sums for expectation values. Non-trivial: at least one "
    "compared result."
)


def _basis(ctx, max_total=14):
    b = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=max_total, hi=5))
    ctx.note(basis=G.describe(b))
    return b


def _hermitian(ctx, n):
    kind = ctx.pick(("random", "degenerate", "real", "diagonal"))
    ctx.note(kind=kind)
    if kind == "random":
        m = G.hermitian(ctx.rng, n)
    elif kind == "real":
        m = G.hermitian(ctx.rng, n).real.astype(complex)
    elif kind == "diagonal":
        m = np.diag(ctx.rng.normal(size=n)).astype(complex)
    else:
        u = G.unitary(ctx.rng, n)
        m = u @ np.diag(ctx.rng.integers(-1, 2, size=n).astype(float)) @ u.conj().T
        m = (m + m.conj().T) / 2
    return m * 10.0 ** ctx.randint(-22, 3)


@R.workload(200, 2500)
def hermitian(ctx):
    b = _basis(ctx)
    n = b.n
    m = _hermitian(ctx, n)
    o = {"basis": TupleBasis(b, b), "data": m.ravel().copy()}
    subset = None
    if ctx.flag(0.4):
        lo = ctx.randint(0, n - 1)
        subset = (lo, ctx.randint(lo, n - 1))
    ctx.note(subset=subset)
    with ctx.running("eigh"):
        s = ec.calculate_eigenvectors_hermitian(o, subset)
    every = np.linalg.eigvalsh(m)
    lo, hi = (0, n - 1) if subset is None else subset
    scale = np.abs(every).max() or 1.0
    vals = np.asarray(s["eigenvalue"])
    ctx.close("eigenvalues", vals, every[lo : hi + 1], scale=scale)
    vecs = np.asarray(s["data"]).reshape(-1, n)
    ctx.close("eigen_equation", m @ vecs.T, vecs.T * vals, scale=scale)
    ctx.close("orthonormal", vecs.conj() @ vecs.T, np.eye(len(vecs)))
    ctx.check("basis", G.same(s["basis"][1], b) and s["basis"][0].n == hi - lo + 1)
    ctx.equal("input_unchanged", o["data"], m.ravel())
    if subset is None:
        with ctx.running("rebuild"):
            again = ec.operator_from_eigenstates(s)
        ctx.close("rebuild", again["data"], m.ravel(), scale=scale)
        ctx.check("rebuild_basis", all(G.same(x, b) for x in again["basis"]))
    # the basis of the eigenstates
    with ctx.running("basis"):
        eb = ec.get_eigenstate_basis_from_hamiltonian(o, subset)
    ctx.check("eigenstate_basis_n", eb.n == hi - lo + 1)
    rows = G.states(eb).conj() @ G.states(b).T  # <e_i|b_j>
    inside = rows @ m @ rows.conj().T
    ctx.close("eigenstate_basis_diagonal", inside, np.diag(every[lo : hi + 1]), scale=scale)
    v = G.cplx(ctx.rng, n)
    with ctx.running("convert"):
        c = G.ref_fundamental(v, b)
        got = eb.__from_fundamental__(c)
    ctx.close("eigenstate_basis_convert", got, rows @ v, floor=1e-2)


@R.workload(150, 2000)
def general(ctx):
    b = _basis(ctx)
    n = b.n
    v = G.unitary(ctx.rng, n) if ctx.flag() else G.cplx(ctx.rng, n, n) + 2 * n * np.eye(n)
    lam = G.cplx(ctx.rng, n)
    m = v @ np.diag(lam) @ np.linalg.inv(v)
    o = {"basis": TupleBasis(b, b), "data": m.ravel().copy()}
    with ctx.running("eig"):
        s = ec.calculate_eigenvectors(o)
    vecs, vals = np.asarray(s["data"]).reshape(-1, n), np.asarray(s["eigenvalue"])
    scale = np.abs(lam).max()
    ctx.close("eigen_equation", m @ vecs.T, vecs.T * vals, scale=scale, tol=1e-7)
    ctx.close("eigenvalues", vals.sum(), lam.sum(), scale=scale * n, tol=1e-5)
    for x in lam:
        ctx.check("eigenvalue_found", np.min(np.abs(vals - x)) < 1e-6 * max(scale, 1e-3))
    ctx.close("normalised", np.linalg.norm(vecs, axis=1), np.ones(n))
    ctx.check("basis", G.same(s["basis"][1], b) and s["basis"][0].n == n)
    ctx.equal("input_unchanged", o["data"], m.ravel())
    with ctx.running("rebuild"):
        again = ec.operator_from_eigenstates(s)
    ctx.close("rebuild", again["data"], m.ravel(), tol=1e-6)
    # an operator from any complete set of states
    lists = {"basis": s["basis"], "data": np.ascontiguousarray(v.T).ravel(), "eigenvalue": lam}
    with ctx.running("rebuild"):
        again = ec.operator_from_eigenstates(lists)
    ctx.close("from_states", again["data"], m.ravel(), tol=1e-6)
    ctx.check("flat", np.asarray(again["data"]).ndim == 1)


@R.workload(200, 2500)
def expectation(ctx):
    shape = G.random_shape(ctx.rng, max_total=14, hi=5)
    dx = G.lattice(ctx.rng, len(shape))
    a, c = (G.tuple_basis(ctx.rng, shape, delta_x=dx) for _ in range(2))
    if ctx.flag(0.3):
        c = a
    lists = G.tuple_basis(ctx.rng, G.random_shape(ctx.rng, max_total=8, hi=4))
    ctx.note(a=G.describe(a), c=G.describe(c), lists=G.describe(lists))
    m = G.hermitian(ctx.rng, a.n) if ctx.flag() else G.cplx(ctx.rng, a.n, a.n)
    o = {"basis": TupleBasis(a, a), "data": m.ravel()}
    d = {"basis": TupleBasis(a, a), "data": G.cplx(ctx.rng, a.n)}
    rows = G.cplx(ctx.rng, lists.n, c.n)
    states = {"basis": TupleBasis(lists, c), "data": rows.ravel()}
    one = {"basis": c, "data": rows[0].copy()}
    p = (G.states(a).conj() @ G.states(c).T @ rows.T).T  # components in a
    exp = np.array([np.vdot(x, m @ x) for x in p])
    scale = np.abs(m).max() * np.linalg.norm(rows, axis=1).max() ** 2
    with ctx.running("expectation"):
        many = ec.calculate_expectation_list(o, states)
        single = ec.calculate_expectation(o, one)
        diag = ec.calculate_expectation_diagonal(d, one)
    ctx.close("list", many["data"], exp, scale=scale)
    ctx.check("list_basis", G.same(many["basis"], lists))
    ctx.close("single", single, exp[0], scale=scale)
    ctx.close("diagonal", diag, np.sum(d["data"] * np.abs(p[0]) ** 2), scale=np.abs(d["data"]).max() * np.linalg.norm(rows[0]) ** 2)
    left, right = G.cplx(ctx.rng, a.n), G.cplx(ctx.rng, a.n)
    with ctx.running("inner"):
        val = ec.calculate_operator_inner_product({"basis": a, "data": left}, o, {"basis": a, "data": right})
    ctx.close("inner", val, sum(left[i] * m[i, j] * right[j] for i in range(a.n) for j in range(a.n)), scale=np.abs(m).max() * np.linalg.norm(left) * np.linalg.norm(right))
