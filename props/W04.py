"""Files exchanged with wannier90: what is written, and what is read back.

A stand-in for wannier90.x which records its input and answers with prepared files.
"""

import builtins
import os
import re
import stat
import sys
import tempfile
from pathlib import Path

import numpy as np

from mon import gen as G
from mon import wave as W
from mon.core import Registry
from surface_potential_analysis.basis.basis import FundamentalBasis
from surface_potential_analysis.basis.stacked_basis import TupleBasis
from surface_potential_analysis.wavepacket import localization as loc

R = Registry("W04")
RULE = (
    "Random wavepackets and lists of neighbours; a recorded stand-in for wannier90.x answers with a prepared .nnkp "
    "and unitary matrices. Oracle: file formats of the wannier90 manual, Bloch states and their overlaps written out "
    "on the grid. Non-trivial: at least one file compared."
)
SCALE = {"quick": 3, "thorough": 10}

FAKE = r"""#!/bin/bash
# stand-in for wannier90.x: records the input of every run, answers with the prepared files
run=$(cat "$W90_CASE/count" 2>/dev/null || echo 0)
echo $((run + 1)) > "$W90_CASE/count"
mkdir "$W90_CASE/run$run"
cp -- * "$W90_CASE/run$run/"
echo "$@" > "$W90_CASE/run$run/args"
if grep -q '^ *postproc_setup *= *\.true\.' "$1"; then
  cp "$W90_CASE/spa.nnkp" .
else
  cp "$W90_CASE/u$((run / 2)).mat" spa_u.mat
fi
"""


def _no_input(prompt=""):
    msg = f"asked the user: {prompt}"
    raise RuntimeError(msg)


class _Case:
    def __init__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="w90-", dir=os.environ.get("VERIF_SCRATCH")))
        self.bin = self.dir / "bin"
        self.bin.mkdir()
        exe = self.bin / "wannier90.x"
        exe.write_text(FAKE)
        exe.chmod(exe.stat().st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        self.tmp = self.dir / "tmp"
        self.tmp.mkdir()

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in ("PATH", "W90_CASE")}, tempfile.tempdir, builtins.input
        os.environ["PATH"] = f"{self.bin}:{os.environ['PATH']}"
        os.environ["W90_CASE"] = str(self.dir)
        tempfile.tempdir = str(self.tmp)
        builtins.input = _no_input
        return self

    def __exit__(self, *a):
        env, tempfile.tempdir, builtins.input = self.old
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def remove(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)

    def runs(self):
        n = int((self.dir / "count").read_text()) if (self.dir / "count").exists() else 0
        return [self.dir / f"run{i}" for i in range(n)]


def _nnkp(ctx, nk, fixed_axes):
    """Some neighbours of every sample, in the format of wannier90."""
    nntot = ctx.randint(1, 4)
    lines, entries = [], []
    for k in range(1, nk + 1):
        for _ in range(nntot):
            e = (k, ctx.randint(1, nk), *(ctx.randint(-1, 1) for _ in range(3)))
            entries.append(e)
            lines.append("".join(f"{v:6d}" for v in e[:2]) + "   " + "".join(f"{v:4d}" for v in e[2:]))
    text = (
        "File written on  1Jan2024 at 10:00:00 \n\ncalc_only_A  :  F\n\nbegin real_lattice\n   1.0 0.0 0.0\n"
        "   0.0 1.0 0.0\n   0.0 0.0 1.0\nend real_lattice\n\nbegin kpoints\n"
        f"{nk:6d}\n" + "".join("  0.0 0.0 0.0\n" for _ in range(nk)) + "end kpoints\n\nbegin nnkpts\n"
        f"{nntot:4d}\n" + "\n".join(lines) + "\nend nnkpts\n\nbegin exclude_bands\n   0\nend exclude_bands\n"
    )
    return text, nntot, entries


def _umat(U):
    """U[k, m, n], first index fastest, as written by wannier90."""
    nk, a, b = U.shape
    out = [" written on  1Jan2024 at 10:00:00 ", f"{nk:12d}{b:12d}{a:12d}"]
    for k in range(nk):
        out += ["", "   0.0000000000  +0.0000000000  +0.0000000000"]
        out += [f"{U[k, m, n].real:20.15f}{U[k, m, n].imag:+20.15f}" for n in range(b) for m in range(a)]
    return "\n".join(out) + "\n"


def _numbers(text):
    return [[float(x) for x in line.split()] for line in text.strip().splitlines() if line.strip()]


def _value(win, key):
    m = re.search(rf"^\s*{key}\s*[:=]\s*(.+?)\s*$", win, re.MULTILINE | re.IGNORECASE)
    return None if m is None else m.group(1)


def _block(win, name):
    m = re.search(rf"begin\s+{name}\s*\n(.*?)end\s+{name}", win, re.DOTALL | re.IGNORECASE)
    return None if m is None else m.group(1)


def _check_win(ctx, win, *, setup, lst, dx, k, options, projected):
    nd = lst.ndim
    ctx.check("win_setup", (str(_value(win, "postproc_setup")).lower() == ".true.") == setup)
    ctx.check("win_bands", _value(win, "num_wann") == str(k), f"{_value(win, 'num_wann')}")
    for key, v in options.items():
        got = _value(win, key)
        ctx.check(f"win_{key}", got is not None and float(got) == v, f"{got} != {v}")
    ctx.check("win_u_matrices", str(_value(win, "write_u_matrices")).lower() == ".true.")
    ctx.check(
        "win_start",
        (str(_value(win, "auto_projections")).lower() == ".true.") == projected
        and (str(_value(win, "use_bloch_phases")).lower() == ".true.") == (not projected),
    )
    cell = _block(win, "unit_cell_cart")
    if ctx.check("win_cell_block", cell is not None):
        exp = np.eye(3)
        exp[:nd, :nd] = dx * 1e10
        rows = [r for r in cell.strip().splitlines() if r.strip().lower() not in {"ang", "bohr"}]
        ctx.close("win_cell", np.array(_numbers("\n".join(rows))), exp)
    pts = _block(win, "kpoints")
    if ctx.check("win_kpoints_block", pts is not None):
        lab = W.list_labels(lst) / np.array(lst.fundamental_shape)[:, None]
        exp = np.zeros((lst.n, 3))
        exp[:, :nd] = lab.T
        ctx.close("win_kpoints", np.array(_numbers(pts)).reshape(-1, 3), exp, floor=1e-3)
    grid = str(_value(win, "mp_grid")).split()
    ctx.check("win_grid", [int(g) for g in grid] == [*lst.shape] + [1] * (3 - nd), f"{grid}")


def _cell_states(w, lst, state, k):
    """Periodic part of every state on the points of the cell, with the momenta of the samples in order."""
    return (np.asarray(w["data"]).reshape(k * lst.n, -1) @ G.states(state)).reshape(k, lst.n, -1)


def _check_mmn(ctx, text, nntot, entries, u, lst, state, ignore):
    k, nk = u.shape[:2]
    lines = text.splitlines()
    if not ctx.check("mmn_header", [int(x) for x in lines[1].split()] == [k, nk, nntot], lines[1]):
        return
    n = state.fundamental_shape
    pos = np.array(np.unravel_index(np.arange(int(np.prod(n))), n))
    at = 2
    for e in entries:
        ctx.check("mmn_neighbour", tuple(int(x) for x in lines[at].split()) == e, f"{lines[at]} {e}")
        vals = np.array([[float(x) for x in line.split()] for line in lines[at + 1 : at + 1 + k * k]])
        at += 1 + k * k
        g = np.array([0 if i in ignore else e[2 + i] for i in range(len(n))])
        phase = np.exp(-2j * np.pi * np.einsum("a,ax->x", g / np.array(n), pos))
        M = np.einsum("mx,nx->mn", u[:, e[0] - 1].conj(), u[:, e[1] - 1] * phase)
        # first index fastest
        ctx.close("mmn", vals[:, 0] + 1j * vals[:, 1], M.T.ravel(), floor=1e-2)
    ctx.check("mmn_end", not any(x.strip() for x in lines[at:]))


def _check_amn(ctx, text, X, P):
    k, nk = X.shape[:2]
    m = len(P)
    lines = text.splitlines()
    if not ctx.check("amn_header", [int(x) for x in lines[1].split()] == [k, nk, m], lines[1]):
        return
    got = np.full((k, m, nk), np.nan, dtype=complex)
    rows = _numbers("\n".join(lines[2:]))
    ctx.check("amn_number", len(rows) == k * m * nk)
    for a, b, c, re_, im in rows:
        got[int(a) - 1, int(b) - 1, int(c) - 1] = re_ + 1j * im
    ctx.close("amn", got, np.einsum("lqx,px->lpq", X.conj(), P), floor=1e-3)


def _case(ctx, nd=None):
    lst, state, dx = W.bases(ctx, nd, list_kinds=W.FULL_LIST_KINDS, max_total=40, max_list=6)
    k = ctx.randint(1, min(3, state.n))
    w = W.packets(ctx, k, lst, state, orthonormal=True)
    return lst, state, dx, k, w


@R.workload(60, 500)
def exchange(ctx):
    lst, state, dx, k, w = _case(ctx)
    nd = lst.ndim
    before = w["data"].copy()
    ignore = () if ctx.flag(0.6) else tuple(int(x) for x in ctx.rng.permutation(3)[: ctx.randint(1, 3)])
    projected = ctx.flag()
    options = {"num_iter": ctx.randint(1, 20000), "conv_window": ctx.randint(1, 9), "conv_tol": float(10.0 ** -ctx.randint(5, 20))}
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k, ignore=ignore, projected=projected)
    if projected:
        big = G.tuple_basis(
            ctx.rng, W.super_shape(lst, state), delta_x=dx * np.array(lst.fundamental_shape)[:, None], kinds=W.FULL_STATE_KINDS
        )
        P = G.cplx(ctx.rng, k, big.n)
        proj = {"basis": TupleBasis(FundamentalBasis(k), big), "data": P.ravel()}
    else:
        proj = {"basis": TupleBasis(FundamentalBasis(k))}
    opts = loc.Wannier90Options(
        projection=proj,
        num_iter=options["num_iter"],
        convergence_window=options["conv_window"],
        convergence_tolerance=options["conv_tol"],
        ignore_axes=ignore,
    )
    default = not projected and ctx.flag(0.2)
    U = np.array([G.unitary(ctx.rng, k) for _ in range(lst.n)])
    nnkp, nntot, entries = _nnkp(ctx, lst.n, ignore)
    case = _Case()
    try:
        (case.dir / "spa.nnkp").write_text(nnkp)
        (case.dir / "u0.mat").write_text(_umat(U))
        with case, ctx.running("wannier90"):
            if default:
                op = loc.get_localization_operator_wannier90(w)
            else:
                op = loc.get_localization_operator_wannier90(w, options=opts)
        runs = case.runs()
        if not ctx.check("two_runs", len(runs) == 2, f"{len(runs)} runs"):
            return
        ctx.check("cleaned_up", not list(case.tmp.iterdir()))
        kw = {"lst": lst, "dx": dx, "k": k, "options": {} if default else options, "projected": projected}
        ctx.check("arguments", all((r / "args").read_text().split() == ["spa.win"] for r in runs))
        _check_win(ctx, (runs[0] / "spa.win").read_text(), setup=True, **kw)
        _check_win(ctx, (runs[1] / "spa.win").read_text(), setup=False, **kw)
        used = () if default else ignore
        _check_mmn(ctx, (runs[1] / "spa.mmn").read_text(), nntot, entries, _cell_states(w, lst, state, k), lst, state, used)
        ctx.check("amn_if_projected", (runs[1] / "spa.amn").exists() == projected)
        if projected and (runs[1] / "spa.amn").exists():
            X = np.array([W.supercell(x, lst, state) for x in before.reshape(k, -1)])
            _check_amn(ctx, (runs[1] / "spa.amn").read_text(), X, W.on_grid(P, big))
        d = np.asarray(op["data"])
        ctx.check("operator_basis", G.same(op["basis"][0], lst) and op["basis"][1].shape == (k, k) and d.ndim == 1)
        # the state n is the sum over the bands m of U_mn
        ctx.close("operator", d.reshape(lst.n, k, k), U.transpose(0, 2, 1))
        ctx.equal("unchanged", w["data"], before)
        if ctx.flag(0.3) and nd:
            (case.dir / "count").unlink()
            for r in runs:
                for f in r.iterdir():
                    f.unlink()
                r.rmdir()
            with case, ctx.running("localize"):
                out = loc.localize_wavepacket_wannier90(w, options=opts)
            ctx.close(
                "localize",
                np.asarray(out["data"]).reshape(k, lst.n, -1),
                np.einsum("qmn,mqs->nqs", U, before.reshape(k, lst.n, -1)),
            )
    finally:
        case.remove()


@R.workload(30, 250)
def individual_bands(ctx):
    lst, state, dx, k, w = _case(ctx)
    ctx.note(lst=G.describe(lst), state=G.describe(state), bands=k)
    phases = np.exp(1j * ctx.rng.uniform(-np.pi, np.pi, size=(k, lst.n)))
    nnkp, nntot, entries = _nnkp(ctx, lst.n, (2,))
    case = _Case()
    try:
        (case.dir / "spa.nnkp").write_text(nnkp)
        for b in range(k):
            (case.dir / f"u{b}.mat").write_text(_umat(phases[b][:, None, None]))
        with case, ctx.running("individual"):
            op = loc.get_localization_operator_wannier90_individual_bands(w)
        runs = case.runs()
        if not ctx.check("runs", len(runs) == 2 * k, f"{len(runs)} runs"):
            return
        u = _cell_states(w, lst, state, k)
        for b in range(k):
            _check_mmn(ctx, (runs[2 * b + 1] / "spa.mmn").read_text(), nntot, entries, u[b : b + 1], lst, state, (2,))
        d = np.asarray(op["data"])
        ctx.check("operator_flat", d.ndim == 1 and d.size == op["basis"].n)
        ctx.close("operator", d.reshape(lst.n, k, k), np.einsum("bq,bc->qbc", phases, np.eye(k)))
    finally:
        case.remove()


assert sys.platform != "win32"
