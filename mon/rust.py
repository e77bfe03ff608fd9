"""The Rust extension of the repository, compiled from source and called through ctypes.

Only its exported (#[pyfunction]) functions are used; pyo3 and num_complex are
replaced by the small stand-ins in /verif/rust.  Integer overflow checks and debug
assertions are on, and a panic is reported as an error.
"""

from __future__ import annotations

import ctypes
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import types
from pathlib import Path

import numpy as np

from mon.core import REPO, VERIF

SRC = VERIF / "rust"
STATE = {"lib": None, "why": "not built"}


class Panic(Exception):
    """The Rust code panicked."""


def _rustc():
    found = sorted(glob.glob("/root/.rustup/toolchains/*/bin/rustc"), key=lambda p: "nightly" in p)
    return found[0] if found else shutil.which("rustc")


def build():
    """Compile; on any failure the Rust workloads are left out."""
    rustc = _rustc()
    source = REPO / "lib/hamiltonian_generator/src/lib.rs"
    if rustc is None or not source.exists():
        STATE["why"] = "no rustc or no source"
        return None
    out = Path(tempfile.mkdtemp(prefix="rust", dir=os.environ.get("VERIF_SCRATCH") or None))
    env = {**os.environ, "RUSTC_BOOTSTRAP": "1", "TMPDIR": str(out)}
    for f in ("num_complex", "pyo3", "pyo3_macros"):
        shutil.copy(SRC / f"{f}.rs", out / f"{f}.rs")
    # sibling modules, if lib.rs names any
    for f in source.parent.glob("*.rs"):
        if f.name != "lib.rs":
            shutil.copy(f, out / f.name)
    (out / "gen.rs").write_text(source.read_text() + (SRC / "ffi.rs").read_text())
    steps = [
        "--crate-type rlib num_complex.rs -O",
        "--crate-type proc-macro pyo3_macros.rs",
        "--crate-type rlib pyo3.rs --extern pyo3_macros=libpyo3_macros.so",
        "--crate-type cdylib gen.rs --extern pyo3=libpyo3.rlib --extern num_complex=libnum_complex.rlib"
        " -L . -C opt-level=1 -C overflow-checks=on -C debug-assertions=on -A warnings",
    ]
    for s in steps:
        r = subprocess.run(
            [rustc, "--edition", "2021", *s.split()], cwd=out, env=env, capture_output=True, text=True
        )
        if r.returncode:
            STATE["why"] = r.stderr[-800:]
            return None
    STATE["lib"] = ctypes.CDLL(str(out / "libgen.so"))
    STATE["why"] = ""
    for n in ("v_energies", "v_energies2", "v_sho", "v_hermite", "v_wavefunction"):
        getattr(STATE["lib"], n).restype = ctypes.c_int64
    return STATE["lib"]


def _f(a):
    a = np.ascontiguousarray(a)
    if a.dtype.kind == "c":
        a = a.astype(complex).view(float)
    a = np.ascontiguousarray(a, dtype=float)
    return a, a.ctypes.data_as(ctypes.c_void_p)


def _u(a):
    a = np.ascontiguousarray(a, dtype=np.uintp)
    return a, a.ctypes.data_as(ctypes.c_void_p)


def _done(n, expected=None):
    if n < 0:
        raise Panic
    if expected is not None and n != expected:
        msg = f"{n} values, expected {expected}"
        raise Panic(msg)


def energies(ft, resolution, dz, mass, omega, z_offset):
    ft = np.asarray(ft, dtype=complex)
    total = int(np.prod(resolution))
    out = np.zeros(total**2, dtype=complex)
    a, ap = _f(ft)
    s, sp = _u(ft.shape)
    r, rp = _u(resolution)
    p, pp = _f([dz, mass, omega, z_offset])
    _done(STATE["lib"].v_energies(ap, sp, rp, pp, out.ctypes.data_as(ctypes.c_void_p), ctypes.c_size_t(out.size)), out.size)
    return out.reshape(total, total).tolist()


def energies2(ft, z, resolution):
    ft, z = np.asarray(ft, dtype=complex), np.asarray(z, dtype=complex)
    total = int(np.prod(resolution))
    out = np.zeros(total**2, dtype=complex)
    a, ap = _f(ft)
    s, sp = _u(ft.shape)
    v, vp = _f(z)
    r, rp = _u(resolution)
    _done(STATE["lib"].v_energies2(ap, sp, vp, rp, out.ctypes.data_as(ctypes.c_void_p), ctypes.c_size_t(out.size)), out.size)
    return out.reshape(total, total).tolist()


def sho(z, omega, mass, n):
    z, zp = _f(z)
    out = np.zeros(z.size)
    _done(
        STATE["lib"].v_sho(zp, ctypes.c_size_t(z.size), ctypes.c_double(omega), ctypes.c_double(mass), ctypes.c_uint32(n), out.ctypes.data_as(ctypes.c_void_p)),
        z.size,
    )
    return out.tolist()


def hermite(x, n):
    out = np.zeros(1)
    _done(STATE["lib"].v_hermite(ctypes.c_double(x), ctypes.c_uint32(n), out.ctypes.data_as(ctypes.c_void_p)))
    return float(out[0])


def wavefunction(resolution, dx0, dx1, mass, omega, kx, ky, vector, points):
    vector, points = np.asarray(vector, dtype=complex), np.asarray(points, dtype=float)
    out = np.zeros(len(points), dtype=complex)
    r, rp = _u(resolution)
    p, pp = _f([*dx0, *dx1, mass, omega, kx, ky])
    v, vp = _f(vector)
    x, xp = _f(points)
    _done(
        STATE["lib"].v_wavefunction(rp, pp, vp, ctypes.c_size_t(vector.size), xp, ctypes.c_size_t(len(points)), out.ctypes.data_as(ctypes.c_void_p)),
        len(points),
    )
    return out.tolist()


def install():
    """Make ``import hamiltonian_generator`` work (the compiled code, or a stand-in)."""
    mod = types.ModuleType("hamiltonian_generator")
    if STATE["lib"] is not None:
        mod.calculate_off_diagonal_energies = energies
        mod.calculate_off_diagonal_energies2 = energies2
        mod.get_sho_wavefunction = sho
        mod.get_hermite_val = hermite
        mod.get_eigenstate_wavefunction = wavefunction
    else:
        mod.calculate_off_diagonal_energies = ref_energies
        mod.calculate_off_diagonal_energies2 = ref_energies2
    sys.modules["hamiltonian_generator"] = mod


# ------------------------------------------------------------ the definitions
def _freq(n):
    return [i if i < (n + 1) // 2 else i - n for i in range(n)]


def ref_hermite(x, n):
    a, b = np.ones_like(x), 2 * x
    if n == 0:
        return a
    for k in range(1, n):
        a, b = b, 2 * x * b - 2 * k * a
    return b


def ref_sho(z, omega, mass, n):
    """Normalised by the recursion of the normalised functions (no factorials)."""
    from scipy.constants import hbar

    c = np.sqrt(mass * omega / hbar)
    x = np.asarray(z) * c
    a = np.sqrt(c) * np.pi**-0.25 * np.exp(-(x**2) / 2)
    if n == 0:
        return a
    b = np.sqrt(2) * x * a
    for k in range(2, n + 1):
        a, b = b, np.sqrt(2 / k) * x * b - np.sqrt((k - 1) / k) * a
    return b


def ref_coupled(ft, z, resolution):
    """sum_z conj(z_n) V[k' - k] z_m for every pair of states."""
    ft, z = np.asarray(ft), np.asarray(z)
    r0, r1, r2 = resolution
    lab = [(a, b) for a in _freq(r0) for b in _freq(r1)]
    out = np.zeros((len(lab) * r2,) * 2, dtype=complex)
    for i, (a0, a1) in enumerate(lab):
        for j, (b0, b1) in enumerate(lab):
            v = ft[(b0 - a0) % ft.shape[0], (b1 - a1) % ft.shape[1]]
            out[i * r2 : (i + 1) * r2, j * r2 : (j + 1) * r2] = (z.conj() * v) @ z.T
    return out


def ref_energies2(ft, z, resolution):
    return ref_coupled(ft, z, resolution).tolist()


def ref_energies(ft, resolution, dz, mass, omega, z_offset):
    ft = np.asarray(ft)
    z = dz * np.arange(ft.shape[2]) + z_offset
    w = np.array([ref_sho(z, omega, mass, n) for n in range(resolution[2])])
    return (ref_coupled(ft, w, resolution) * dz).tolist()
