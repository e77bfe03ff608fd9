"""Sampled noise has the correlations of the kernel."""

import numpy as np
from scipy.constants import hbar

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.kernel import sample as ks

R = Registry("N04")
RULE = (
    "Random diagonal and full noise operators (coefficients of either sign, degenerate, zero), diagonal kernels, "
    "truncations and many samples drawn by the library's own generator (seeded per case); oracle: the covariance "
    "hbar times the kernel, the pseudo covariance and mean zero, and independence of different samples, all within "
    "nine standard errors of the estimate. Non-trivial: at least one estimated covariance."
)
SIGMA = 9.0


class _Seeded:
    """The generator the library creates is reproducible, but otherwise untouched."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def __enter__(self):
        self.orig = np.random.default_rng
        seed = [self.ctx.seed, self.ctx.index, 77]

        def make(*args, _o=self.orig):
            self.n += 1
            return _o([*seed, self.n]) if not args or args[0] is None else _o(*args)

        np.random.default_rng = make
        return self

    def __exit__(self, *a):
        np.random.default_rng = self.orig


def _stat(ctx, name, samples, cov, pseudo=None):
    """Moments of complex normal samples (rows)."""
    s = np.asarray(samples)
    n = len(s)
    sd = np.sqrt(np.abs(np.diag(cov)).real) + 1e-300
    big = sd.max()
    if big <= 1e-290:
        return
    sd = np.maximum(sd, 1e-12 * big)
    limit = SIGMA / np.sqrt(n)
    mean = np.abs(s.mean(axis=0)) / sd
    ctx.check(f"{name}_mean", bool(np.all(mean <= limit)), f"mean {mean.max():.3g} of a standard deviation, {n} samples", actual=mean)
    got = s.conj().T @ s / n
    err = np.abs(got - cov) / np.outer(sd, sd)
    ctx.check(f"{name}_covariance", bool(np.all(err <= 1.5 * limit)), f"{err.max():.3g} of the variance, {n} samples", actual=got, expected=cov)
    got = s.T @ s / n
    err = np.abs(got - (0 if pseudo is None else pseudo)) / np.outer(sd, sd)
    ctx.check(f"{name}_pseudo", bool(np.all(err <= 1.5 * limit)), f"{err.max():.3g} of the variance", actual=got)
    # neighbouring samples are independent
    m = n // 2 * 2
    got = s[0:m:2].conj().T @ s[1:m:2] / (m / 2)
    err = np.abs(got) / np.outer(sd, sd)
    ctx.check(f"{name}_independent", bool(np.all(err <= 1.5 * limit * np.sqrt(2))), f"{err.max():.3g} of the variance", actual=got)
    # gaussian, fourth moment of the modulus is twice the square of the variance
    four = np.mean(np.abs(s / sd) ** 4, axis=0)
    var = (np.diag(cov).real / sd**2) ** 2
    ctx.check(f"{name}_gaussian", bool(np.all(np.abs(four - 2 * var) <= SIGMA * np.sqrt(20.0 / n) + 1e-9)), f"{np.abs(four - 2 * var).max():.3g}", actual=four)


def _case(ctx, max_total=6):
    shape = G.random_shape(ctx.rng, ctx.randint(1, 2), max_total=max_total, hi=max_total)
    b = G.tuple_basis(ctx.rng, shape, kinds=("fundamental", "fundamental_x", "fundamental_k", "fundamental_kx"))
    n_op = ctx.randint(1, 4) if ctx.flag(0.85) else ctx.randint(30, 90)
    e = np.abs(ctx.rng.normal(size=n_op)) * 10.0 ** ctx.pick((-20, 0, 0, 20))
    if ctx.flag(0.2):
        e[ctx.randint(0, n_op - 1)] = 0
    if ctx.flag(0.2):
        e[:] = e[0]
    return b, n_op, e


def _ops(b, n_op, data, e):
    return {"basis": TupleBasis(FundamentalBasis(n_op), TupleBasis(b, b)), "data": data.ravel(), "eigenvalue": e}


@R.workload(25, 120)
def diagonal(ctx):
    b, n_op, e = _case(ctx)
    n = b.n
    L = G.cplx(ctx.rng, n_op, n)
    ops = _ops(b, n_op, L, e)
    N = 4000 if ctx.tier == "quick" else 20000
    ctx.note(basis=G.describe(b), n_op=n_op, e=e, n_samples=N)
    split_first = ctx.flag()
    with _Seeded(ctx), ctx.running("sample"):
        if split_first:
            split = ks.sample_noise_from_diagonal_operators_split(ops, n_samples=N)
            total = ks.diagonal_operator_list_from_diagonal_split(split)
        else:
            total = ks.sample_noise_from_diagonal_operators(ops, n_samples=N)
    # noise is sum_a f_a sqrt(hbar e_a) L_a with E|f|^2 = 1
    cov = hbar * np.einsum("a,ai,aj->ij", e, L.conj(), L)
    data = np.asarray(total["data"])
    ctx.check("flat", data.ndim == 1 and data.size == N * n and total["basis"][0].n == N)
    ctx.check("basis", all(G.same(x, b) for x in total["basis"][1]))
    data = data.reshape(N, n)
    # the noise is a combination of the operators, whatever was drawn
    Q = np.linalg.pinv(L[e > 0]) @ L[e > 0] if np.any(e > 0) else np.zeros((n, n))
    ctx.close("in_span", data @ Q, data, tol=1e-7)
    _stat(ctx, "diagonal", data, cov)
    if not split_first:
        return
    s = np.asarray(split["data"])
    ctx.check("split_flat", s.ndim == 1 and split["basis"][0].shape == (n_op, N))
    s = s.reshape(n_op, N, n)
    ctx.close("split_sum", s.sum(axis=0), data, floor=1e-300)
    with ctx.running("components"):
        parts = ks.get_diagonal_split_noise_components(split)
    ctx.check("components_number", len(parts) == n_op)
    for a, p in enumerate(parts):
        ctx.equal("component", p["data"], s[a].ravel())
        ctx.check("component_basis", p["basis"][0].n == N and all(G.same(x, b) for x in p["basis"][1]))
        amp = s[a] @ L[a].conj() / np.sum(np.abs(L[a]) ** 2)
        ctx.close("component_operator", s[a], amp[:, None] * L[a][None, :], floor=1e-300)
    amps = np.array([x @ v.conj() / np.sum(np.abs(v) ** 2) for x, v in zip(s, L, strict=True)]).T
    _stat(ctx, "component", amps, np.diag(e * hbar))


@R.workload(15, 80)
def full(ctx):
    b, n_op, e = _case(ctx, 3)
    n = b.n
    L = G.cplx(ctx.rng, n_op, n, n)
    N = 4000 if ctx.tier == "quick" else 20000
    ctx.note(basis=G.describe(b), n_op=n_op, e=e, n_samples=N)
    with _Seeded(ctx), ctx.running("sample"):
        out = ks.sample_noise_from_operators(_ops(b, n_op, L, e), n_samples=N)
    data = np.asarray(out["data"])
    ctx.check("full_flat", data.ndim == 1 and data.size == N * n * n and out["basis"][0].n == N)
    ctx.check("full_basis", all(G.same(x, b) for x in out["basis"][1]))
    v = L.reshape(n_op, -1)
    _stat(ctx, "full", data.reshape(N, -1), hbar * np.einsum("a,ai,aj->ij", e, v.conj(), v))


@R.workload(15, 80)
def kernel(ctx):
    b, n_op, _ = _case(ctx)
    n = b.n
    K = G.psd(ctx.rng, n, min(n, n_op)) * 10.0 ** ctx.pick((-20, 0, 0, 20))
    m = None if ctx.flag() else ctx.randint(1, n)
    N = 4000 if ctx.tier == "quick" else 20000
    ctx.note(basis=G.describe(b), n_samples=N, truncation=m)
    bb = TupleBasis(b, b)
    k = {"basis": TupleBasis(bb, bb), "data": K.ravel()}
    with _Seeded(ctx), ctx.running("sample"):
        out = ks.sample_noise_from_diagonal_kernel(k, n_samples=N, truncation=None if m is None else range(m))
    data = np.asarray(out["data"])
    ctx.check("kernel_flat", data.ndim == 1 and data.size == N * n and out["basis"][0].n == N)
    vals, vecs = np.linalg.eigh(K)
    keep = np.argsort(np.abs(vals))[::-1][: n if m is None else m]
    best = (vecs[:, keep] * vals[keep]) @ vecs[:, keep].conj().T
    # rounding may turn a zero eigenvalue into a small negative one
    _stat(ctx, "kernel", data.reshape(N, n), hbar * best)


@R.workload(20, 200)
def draws(ctx):
    """Two calls do not repeat the same noise."""
    b, n_op, e = _case(ctx)
    L = G.cplx(ctx.rng, n_op, b.n)
    e = e + np.abs(e).max() + 1.0
    k = ctx.randint(1, 5)
    ctx.note(basis=G.describe(b), n_samples=k)
    a, c = (np.asarray(ks.sample_noise_from_diagonal_operators(_ops(b, n_op, L, e), n_samples=k)["data"]) for _ in range(2))
    ctx.check("fresh", not np.any(np.all(np.isclose(a.reshape(k, 1, -1), c.reshape(1, k, -1), rtol=1e-9, atol=0), axis=-1)))
    ctx.check("fresh_size", a.size == k * b.n)
