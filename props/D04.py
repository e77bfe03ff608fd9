"""Models of the intermediate scattering function, and gamma integrals."""

import numpy as np
import scipy.integrate
import scipy.linalg
from scipy.constants import electron_mass, elementary_charge, epsilon_0, hbar

from mon import gen as G
from mon.core import Registry
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.basis.time_basis_like import ExplicitTimeBasis
from surface_potential_analysis.dynamics import hermitian_gamma_integral as hg
from surface_potential_analysis.dynamics import isf as J

R = Registry("D04")
RULE = (
    "Random rates, momenta and times; oracle: the hopping problem between fcc and hcp sites, solved as a 2x2 master "
    "equation in momentum space; curves are fitted to data made with known rates near to the starting guess; gamma "
    "integrals are compared with a sum on a fine mesh of the documented formula. Non-trivial: a curve was compared."
)


def _isf(t, d):
    b = ExplicitTimeBasis(t)
    return {"basis": TupleBasis(b, b), "data": np.asarray(d) + 0j}


def _neighbours(direction):
    """Displacements of the three hops from fcc to hcp along the direction, over a."""
    if direction == "110":
        # one along the perpendicular, two at half a lattice vector either side
        return np.array([0.0, 0.5, -0.5])
    return np.array([1, -0.5, -0.5]) / np.sqrt(3)


def _model(direction, t, fast, slow, a_dk):
    """Hops from fcc with a total rate slow, and from hcp with fast."""
    f = np.exp(1j * a_dk * _neighbours(direction)).mean()
    M = np.array([[-slow, fast * f.conj()], [slow * f, -fast]])
    lam = slow / fast
    c = np.array([1, lam]) / (1 + lam)
    return np.array([(scipy.linalg.expm(M * x) @ c).sum() for x in t])


def _rates(direction, fast, slow, a_dk):
    f = np.exp(1j * a_dk * _neighbours(direction)).mean()
    return np.sort(-np.linalg.eigvals(np.array([[-slow, fast * f.conj()], [slow * f, -fast]])).real)


def _curve(ctx, name, out, t, exp, tol=1e-7):
    d = np.asarray(out["data"])
    ctx.check(f"{name}_flat", d.shape == (len(t),))
    b = out["basis"]
    ctx.check(f"{name}_basis", b[0].n == b[1].n == len(t))
    ctx.close(f"{name}_times", b[0].times, t, floor=1e-30)
    ctx.close(name, d, exp, tol=tol, floor=1e-3)


@R.workload(200, 3000)
def models(ctx):
    direction = ctx.pick(["110", "112bar"])
    scale = 10 ** ctx.rng.uniform(-1, 11)
    fast = scale * ctx.rng.uniform(0.5, 2)
    slow = fast * ctx.rng.uniform(0.02, 0.97)
    a_dk = float(ctx.rng.uniform(0.3, 5))
    t = np.sort(ctx.rng.uniform(0, 4 / slow, size=ctx.randint(1, 6)))
    ctx.note(direction=direction, lam=round(slow / fast, 3), a_dk=round(a_dk, 3))
    exp = _model(direction, t, fast, slow, a_dk)
    fn, get = {
        "110": (J.calculate_isf_fey_model_110, J.get_isf_from_fey_model_fit_110),
        "112bar": (J.calculate_isf_fey_model_112bar, J.get_isf_from_fey_model_fit_112bar),
    }[direction]
    with ctx.running("model"):
        d = fn(t, fast, slow, a_dk=a_dk)
    # the amplitudes of the coherent sum over both sites
    ctx.close("model", d, exp.real, tol=1e-6, floor=1e-2)
    with ctx.running("model_isf"):
        out = get(J.ISFFeyModelFit(fast, slow, a_dk), t)
    _curve(ctx, "model_isf", out, t, d)
    with ctx.running("start"):
        ctx.close("start", fn(np.zeros(1), fast, slow, a_dk=a_dk), np.ones(1), tol=1e-6)
    # free amplitudes, the same two rates
    fa, sa, off = ctx.rng.uniform(0, 1, size=3)
    lo, hi = _rates("110", fast, slow, a_dk)
    exp = fa * np.exp(-hi * t) + sa * np.exp(-lo * t) + off
    with ctx.running("variable"):
        out = J.calculate_isf_fey_4_variable_model_110(t, fast, fa, slow, sa, off, a_dk=a_dk)
    ctx.close("variable", out, exp, tol=1e-6, floor=1e-2)
    with ctx.running("variable_isf"):
        out = J.get_isf_from_fey_4_variable_model_110(J.ISFFey4VariableFit(a_dk, fast, fa, slow, sa, off), t)
    _curve(ctx, "variable_isf", out, t, exp, tol=1e-6)
    with ctx.running("double"):
        out = J.get_isf_from_4_variable_fit(J.ISF4VariableFit(hi, fa, lo, sa, off), t)
    _curve(ctx, "double", out, t, exp, tol=1e-6)


@R.workload(60, 800)
def extract(ctx):
    fast = 10 ** ctx.rng.uniform(8, 11)
    slow = fast * ctx.rng.uniform(0.1, 0.9)
    lo, hi = _rates("112bar", fast, slow, 2.0)
    ctx.note(lam=round(slow / fast, 4))
    with ctx.running("extract"):
        out = J.extract_fey_rate_from_4_variables_fit_112bar(J.ISF4VariableFit(hi, 0.3, lo, 0.4, 0.3))
    ctx.close("extract_fast", out.fast_rate, fast, tol=1e-4)
    ctx.close("extract_slow", out.slow_rate, slow, tol=1e-4)
    ctx.check("extract_dk", out.a_dk == 2)


def _measure(ctx, d):
    """Data whose measure is d."""
    m = ctx.pick([None, "abs", "real", "imag", "angle"])
    if m == "imag":
        return 1j * d + ctx.rng.normal(), m
    if m == "real":
        return d + 1j * ctx.rng.normal(size=len(d)), m
    if m == "angle":
        return np.exp(1j * d), m
    return d * np.exp(1j * ctx.rng.uniform(0, 6, size=len(d))), m


def _near(ctx, x, r=0.25):
    return float(x * ctx.rng.uniform(1 - r, 1 + r))


@R.workload(20, 250)
def fits(ctx):
    kind = ctx.pick(["double", "110", "112bar", "ratio", "variable"])
    ctx.note(kind=kind)
    a_dk = float(ctx.rng.uniform(1.2, 2.6))
    kw = {} if kind == "double" else {"a_dk": a_dk}
    if kind in ("110", "112bar", "ratio", "variable") and ctx.flag(0.2):
        a_dk, kw = 2.0, {}
    if kind == "double":
        t = np.linspace(0, 3e-10, 60)
        a, c = ctx.rng.uniform(0.2, 0.5, size=2)
        b, d = ctx.rng.uniform(1.5, 5) * 1e10, ctx.rng.uniform(0.2, 0.9) * 1e10
        y = a * np.exp(-b * t) + c * np.exp(-d * t) + 1 - a - c
        fit, get, back = J.fit_isf_to_double_exponential, J.get_isf_from_4_variable_fit, None
    elif kind in ("110", "112bar"):
        f, s, T = (1.4e9, 3e8, 4e-9) if kind == "110" else (2e10, 1e10, 4e-10)
        t = np.linspace(0, T, 60)
        y = _model(kind, t, _near(ctx, f), _near(ctx, s), a_dk).real
        fit, get = (
            (J.fit_isf_to_fey_model_110, J.get_isf_from_fey_model_fit_110)
            if kind == "110"
            else (J.fit_isf_to_fey_model_112bar, J.get_isf_from_fey_model_fit_112bar)
        )
    else:
        t = np.linspace(0, 4e-9, 80)
        f = _near(ctx, 1.4e9, 0.15)
        lam = float(ctx.rng.uniform(0.3, 0.6))
        lo, hi = _rates("110", f, lam * f, a_dk)
        fa, sa, off = (_near(ctx, x, 0.15) for x in (lam / (1 + lam), 1 / (1 + lam), 0.05))
        if kind == "variable":
            fa, sa = _near(ctx, 0.2), _near(ctx, 0.8)
        y = fa * np.exp(-hi * t) + sa * np.exp(-lo * t) + off
        get = J.get_isf_from_fey_4_variable_model_110
        if kind == "variable":
            fit = J.fit_isf_to_fey_4_variable_model_110
        else:
            def fit(i, **k):
                return J.fit_isf_to_fey_4_variable_model_110_fixed_ratio(i, lam, **k)
    data, m = _measure(ctx, y)
    if m is not None:
        kw["measure"] = m
    y_in = data.copy()
    if kind in ("ratio", "variable") and ctx.flag(0.4):
        # times which are to be ignored
        data[t <= t[3]] = np.exp(0.3j)
        kw["start_t"] = float(t[3])
        y_in = data.copy()
        if m == "angle":
            kw.pop("start_t")
            data = y_in = np.exp(1j * y)
    if kind == "ratio" and m != "angle" and ctx.flag(0.4):
        e = ctx.randint(60, 78)
        data[t >= t[e]] = np.exp(0.3j)
        kw["end_t"] = float(t[e])
        y_in = data.copy()
    i = _isf(t, data)
    with ctx.running("fit"):
        r = fit(i, **kw)
    ctx.equal("fit_unchanged", i["data"], y_in)
    with ctx.running("get"):
        z = get(r, t)
    ctx.check("fit", np.abs(z["data"] - y).max() < 3e-3, f"{kind}: {np.abs(z['data'] - y).max()} {r}")
    if kind == "ratio":
        ctx.close("fit_ratio", r.slow_rate / r.fast_rate, lam)


@R.workload(30, 250)
def gamma(ctx):
    # a metal; or so few electrons that the potential is at its limit of small q
    size = ctx.pick((10.0, 10.0, float(ctx.rng.uniform(8.5, 10)), float(ctx.rng.uniform(0, 1.8))))
    k_f = float(ctx.rng.uniform(0.5, 2) * 10.0**size)
    e_f = (hbar * k_f) ** 2 / (2 * electron_mass)
    # room temperature is much less than the fermi energy
    kt = float(e_f * 10 ** ctx.rng.uniform(-4, -1.7))
    omega = float(kt * ctx.rng.uniform(-3, 3)) if ctx.flag(0.8) else 0.0
    ctx.note(kt=round(kt / e_f, 5), omega=round(omega / kt, 2))

    def fermi(e):
        return 1 / (1 + np.exp((e - e_f) / kt))

    d_k = 2 * kt * electron_mass / (hbar**2 * k_f)
    k = np.linspace(k_f - 18 * d_k, k_f + 18 * d_k, 20001)
    e = (hbar * k) ** 2 / (2 * electron_mass)
    y = fermi(e) * (1 - fermi(e + omega))
    with ctx.running("integrand"):
        got = hg.get_hermitian_gamma_occupation_integrand(k, omega=omega, k_f=k_f, boltzmann_energy=kt)
    ctx.close("integrand", got, y, tol=1e-6, floor=1e-3)
    occ = scipy.integrate.simpson(y, x=k)
    with ctx.running("occupation"):
        got = hg.calculate_hermitian_gamma_occupation_integral(omega, k_f, kt)
    ctx.close("occupation", got, occ, tol=1e-4)

    w = float(ctx.rng.uniform(0.1, 3) / k_f)
    ph = complex(np.exp(1j * ctx.rng.uniform(0, 6)))

    def overlap(q):
        return np.asarray(ph * np.exp(-((q * w) ** 2)) * (1 + 1j * q * w))

    phi = np.linspace(0, np.pi, 20001)[1:]
    q = k_f * np.sin(phi / 2)
    a0 = 4 * np.pi * epsilon_0 * hbar**2 / (elementary_charge**2 * electron_mass)
    x = (q * a0 / 2) ** 2
    # the transform of the potential of a screened proton, (1 + x)^-2 - 1 = -x (2 + x) / (1 + x)^2
    v = elementary_charge**2 / epsilon_0 * (a0 / 2) ** 2 * (-(2 + x) / (1 + x) ** 2)
    z = np.sin(phi) * v**2 * overlap(q)
    pot = scipy.integrate.simpson(z, x=phi) * 4 * electron_mass * k_f**3 / (hbar**3 * (2 * np.pi) ** 3)
    with ctx.running("potential"):
        got = hg.calculate_hermitian_gamma_potential_integral(k_f, overlap)
    ctx.close("potential", got, pot, tol=1e-6)
    with ctx.running("real"):
        got = hg.calculate_real_gamma_integral(omega=omega, k_f=k_f, boltzmann_energy=kt, overlap=overlap)
    ctx.close("real", got, pot * occ, tol=3e-4)
