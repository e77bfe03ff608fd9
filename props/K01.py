"""Caches are transparent: every history of calls answers like the model."""

import contextlib
import io
import os
import tempfile
from pathlib import Path

import numpy as np

from mon.core import Registry
from mon import gen as G
from surface_potential_analysis.util.decorators import CachedFunction, cached, npy_cached, timed

R = Registry("K01")
RULE = (
    "Random histories (calls in every mode, several keys, keys without a path, failing and unpicklable "
    "results, fresh wrappers over the same files); a model of the files predicts each result and each "
    "evaluation. Non-trivial: a history with at least one compared call."
)
MODES = ("load_or_call_cached", "load_or_call_uncached", "call_uncached", "call_cached")


class Boom(Exception):
    pass


def _error(ctx):
    """An error type of its own, derived from one of the usual ones."""
    base = ctx.pick([Exception, RuntimeError, ValueError, OSError, KeyError, MemoryError])
    return type("Raised", (Boom, base), {})


def _dir():
    return tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH"))


def _payload(ctx_rng_seed, version, key):
    rng = np.random.default_rng([ctx_rng_seed, version, key])
    basis = G.tuple_basis(rng, G.random_shape(rng, max_total=20), kinds=G.POS_KINDS)
    return {
        "basis": basis,
        "data": G.cplx(rng, basis.n),
        "eigenvalue": rng.normal(size=3),
        "version": version,
        "key": key,
        "nested": {"list": [1, "a", None], "empty": np.zeros((0, 2))},
    }


def _same(a, b):
    return (
        isinstance(a, dict)
        and isinstance(b, dict)
        and set(a) == set(b)
        and a["version"] == b["version"]
        and a["key"] == b["key"]
        and a["data"].dtype == b["data"].dtype
        and np.array_equal(a["data"], b["data"])
        and np.array_equal(a["eigenvalue"], b["eigenvalue"])
        and G.same(a["basis"], b["basis"])
        and a["nested"]["list"] == b["nested"]["list"]
        and a["nested"]["empty"].shape == (0, 2)
    )


@R.workload(120, 2000)
def history(ctx):
    seed = int(ctx.rng.integers(1 << 30))
    calls = []
    behaviour = {"now": "ok"}
    error = _error(ctx)

    def fn(key, *, scale=1):
        """Doc of fn."""
        calls.append((key, scale))
        if behaviour["now"] == "raise":
            raise error("asked to")
        if behaviour["now"] == "empty":
            return {}
        out = _payload(seed, len(calls), key * 10 + scale)
        if behaviour["now"] == "unpicklable":
            out["bad"] = lambda: None
        return out

    with _dir() as d:
        fixed = ctx.flag(0.25)

        suffix = ctx.pick([".pkl", ".npz", ".npy", "", ".tar.gz"])
        folder = {"now": Path(d)}
        (Path(d) / "other").mkdir()

        def path(key, *, scale=1):
            return None if key == 0 else folder["now"] / f"f{key}-{scale}{suffix}"

        where = (Path(d) / f"one{suffix}" if ctx.flag(0.8) else None) if fixed else path
        default = ctx.pick(MODES)

        def make():
            if default == "load_or_call_cached" and ctx.flag():
                return cached(where)(fn)
            if ctx.flag():
                return cached(where, default_call=default)(fn)
            return CachedFunction(fn, where, default_call=default)

        f = make()
        disk = {}
        last = {}
        trace = []
        for _ in range(ctx.randint(3, 14)):
            key, scale = ctx.randint(0, 3), ctx.randint(1, 2)
            mode = ctx.pick([*MODES, "call"])
            if ctx.flag(0.1):
                # the caller may keep the results of another run elsewhere
                folder["now"] = Path(d) / ctx.pick(["", "other"])
            if mode == "call" and not fixed and ctx.flag(0.1):
                f = make()
            behaviour["now"] = ctx.pick(["ok"] * 8 + ["raise", "unpicklable", "empty"])
            p = where if fixed else path(key, scale=scale)
            kw = {"scale": scale} if scale != 1 or ctx.flag() else {}
            act = default if mode == "call" else mode
            n0 = len(calls)
            hit = act.startswith("load") and p is not None and p in disk
            stores = act.endswith("_cached") and "uncached" not in act and p is not None and not hit
            if hit:
                want = ("value", disk[p])
            elif behaviour["now"] == "raise":
                want = ("raise", Boom)
            elif behaviour["now"] == "unpicklable" and stores:
                want = ("raise", Exception)
            else:
                want = ("new", None)
            trace.append([mode, key, scale, behaviour["now"], want[0]])
            target = f if mode == "call" else getattr(f, mode)
            try:
                got = target(key, **kw)
            except Boom:
                got = Boom
            except Exception as e:  # noqa: BLE001
                if want[0] != "raise":
                    ctx.note(trace=trace)
                    ctx.check("no_error", False, f"{type(e).__name__}: {e}")
                    return
                got = Boom
            ctx.check("evaluations", len(calls) - n0 == (0 if hit else 1), trace=trace)
            if len(calls) > n0:
                ctx.check("arguments", calls[-1] == (key, scale), actual=calls[-1])
            if want[0] == "raise":
                ctx.check("raises", got is Boom, trace=trace)
                continue
            if got is Boom:
                ctx.check("no_error", False, "raised", trace=trace)
                continue
            if want[0] == "value":
                exp = disk[p] if disk[p] == {} else _payload(seed, *disk[p])
            elif behaviour["now"] == "empty":
                exp = {}
            else:
                exp = _payload(seed, len(calls), key * 10 + scale)
                if behaviour["now"] == "unpicklable":
                    got = {k: v for k, v in got.items() if k != "bad"}
            ctx.check("result", got == {} if exp == {} else _same(got, exp), trace=trace)
            if stores and want[0] == "new":
                disk[p] = {} if behaviour["now"] == "empty" else (len(calls), key * 10 + scale)
            # whatever the caller does to the result, later answers do not change
            if ctx.flag(0.3) and got != {}:
                got["data"][:] = -1
                got["version"] = "vandalised"
        ctx.note(trace=trace, fixed=fixed, default=default)
        files = {str(x) for x in Path(d).rglob("*") if x.is_file()}
        ctx.check("files", {str(p) for p in disk} == files, actual=sorted(files))
    f2 = cached(None)(fn)
    ctx.check("metadata", f2.__name__ == "fn" and f2.__doc__ == "Doc of fn.")


DTYPES = (float, complex, int, bool, np.float32)


@R.workload(150, 2500)
def npy(ctx):
    calls = []
    pickled = ctx.flag(0.3)
    suffix = ctx.pick([".npy", ".npy", "", ".cache"])
    rng = ctx.rng

    def value(key):
        if pickled:
            return {"data": G.cplx(rng, 4), "key": key}
        shape = ctx.pick([(), (3,), (2, 0), (2, 3, 2)])
        v = (rng.normal(size=shape) * 10) + (1j * rng.normal(size=shape) if ctx.flag() else 0)
        dt = ctx.pick(DTYPES)
        v = np.asarray(np.real(v) if dt is not complex else v).astype(dt)
        return v if ctx.flag(0.8) or v.ndim != 2 else np.asfortranarray(v)

    state = {"fail": False}
    error = _error(ctx)

    def fn(key, k2=0):
        """Doc."""
        calls.append(key)
        if state["fail"]:
            raise error("asked to")
        state["last"] = value(key)
        return state["last"]

    with _dir() as d:
        folder = {"now": Path(d)}
        (Path(d) / "other").mkdir()
        where = ctx.pick([
            lambda key, k2=0: None if key == 0 else folder["now"] / f"x{key}{suffix}",
            Path(d) / f"only{suffix}",
            None,
        ])
        kw = {"load_pickle": True} if pickled or ctx.flag(0.3) else {}
        f = npy_cached(where, **kw)(fn)
        disk = {}
        trace = []
        for _ in range(ctx.randint(2, 8)):
            key = ctx.randint(0, 2)
            if ctx.flag(0.1):
                folder["now"] = Path(d) / ctx.pick(["", "other"])
            p = where(key) if callable(where) else where
            state["fail"] = ctx.flag(0.15)
            n0 = len(calls)
            hit = p is not None and p in disk
            trace.append([key, state["fail"], hit])
            with ctx.running("npy"):
                try:
                    got = f(key) if ctx.flag() else f(key, k2=3)
                except Boom:
                    got = Boom
            ctx.check("evaluations", len(calls) - n0 == (0 if hit else 1), trace=trace)
            if not hit and state["fail"]:
                ctx.check("raises", got is Boom)
                continue
            if got is Boom:
                ctx.check("no_error", False, trace=trace)
                continue
            exp = disk[p] if hit else state["last"]
            if pickled:
                ok = isinstance(got, dict) and got["key"] == exp["key"] and np.array_equal(got["data"], exp["data"])
            else:
                g = np.asarray(got)
                ok = g.dtype == exp.dtype and g.shape == exp.shape and np.array_equal(g, exp)
            ctx.check("result", ok, trace=trace, actual=repr(got)[:200])
            if p is not None and not hit:
                disk[p] = {**exp, "data": exp["data"].copy()} if pickled else exp.copy()
        ctx.note(trace=trace, suffix=suffix, pickled=pickled)
    ctx.check("metadata", f.__name__ == "fn" and f.__doc__ == "Doc.")


@R.workload(60, 600)
def fresh_process(ctx):
    """A later process reads what an earlier one stored."""
    with _dir() as d:
        key = ctx.randint(1, 5)
        seed = int(ctx.rng.integers(1 << 30))
        use_npy = ctx.flag()
        path = Path(d) / ("a.npy" if use_npy else "a.pkl")
        ctx.note(key=key, npy=use_npy)

        def first(k):
            return _payload(seed, 1, k)

        def second(k):
            return _payload(seed, 2, k)

        deco = (lambda: npy_cached(path, load_pickle=True)) if use_npy else (lambda: cached(path))
        pid = os.fork()
        if pid == 0:
            try:
                deco()(first)(key)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with ctx.running("reload"):
            out = deco()(second)(key)
        ctx.check("reload", _same(out, _payload(seed, 1, key)))


@R.workload(60, 600)
def timing(ctx):
    args = [ctx.randint(0, 9) for _ in range(ctx.randint(0, 3))]
    fail = ctx.flag(0.3)
    ctx.note(args=args, fail=fail)
    seen = []

    error = _error(ctx)

    def named_function(*a, **k):
        """Doc."""
        seen.append((a, k))
        if fail:
            raise error(a)
        return (a, k)

    buf = io.StringIO()
    f = timed(named_function)
    with contextlib.redirect_stdout(buf):
        try:
            out = f(*args, kw=1)
        except Boom as e:
            out = e
    ctx.check("once", seen == [(tuple(args), {"kw": 1})])
    ctx.check("result", isinstance(out, Boom) if fail else out == (tuple(args), {"kw": 1}))
    ctx.check("reported", "named_function" in buf.getvalue() and buf.getvalue().count("\n") == 1)
    secs = [float(w) for w in buf.getvalue().split() if w.replace(".", "").replace("e-", "").isdigit()]
    ctx.check("non_negative", len(secs) == 1 and 0 <= secs[0] < 60, actual=buf.getvalue())
    ctx.check("metadata", f.__name__ == "named_function")
