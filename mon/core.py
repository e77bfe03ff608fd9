"""Driver for the runtime monitors: cases, monitors, verdicts, evidence, replay.

A property module (props/<ID>.py) registers *workloads*: functions which draw one
random case from ``ctx.rng``, run the real library on it and feed what was observed
to monitors (``ctx.check`` / ``ctx.close`` ...).  A monitor compares the observation
with an oracle which is computed independently of the library.
"""

from __future__ import annotations

import contextlib
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback
import zlib
from pathlib import Path

import numpy as np

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
PACKAGE = "surface_potential_analysis"
HARD_CAP_S = {"quick": 420.0, "thorough": 780.0}
MAX_VIOLATIONS = 40


class HarnessError(Exception):
    """The harness (not the code under test) is at fault."""


class Skip(Exception):
    """The generated case is out of the domain of the property."""


def _jsonable(x):
    if isinstance(x, np.ndarray):
        if x.size > 64:
            return {"shape": list(x.shape), "head": _jsonable(x.ravel()[:16])}
        return _jsonable(x.tolist())
    if isinstance(x, complex | np.complexfloating):
        return [float(np.real(x)), float(np.imag(x))]
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, list | tuple):
        return [_jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, str | int | float | bool) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    """Context of one case."""

    def __init__(self, prop, workload, index, seed, tier, stats):
        self.prop = prop
        self.workload = workload
        self.index = index
        self.seed = seed
        self.tier = tier
        self.stats = stats
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(f"{prop}/{workload}".encode()), index]
        )
        self.desc = {}
        self.n_eval = 0
        self.violations = []
        self.tag = ""
        self._monitor = "run"

    # -- description of the case
    def note(self, **kw):
        self.desc.update({k: _jsonable(v) for k, v in kw.items()})

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def randint(self, lo, hi):
        """Inclusive."""
        return int(self.rng.integers(lo, hi + 1))

    def flag(self, p=0.5):
        return bool(self.rng.random() < p)

    # -- monitors
    def _count(self, monitor):
        self.n_eval += 1
        key = f"{self.workload}:{monitor}"
        self.stats["monitors"][key] = self.stats["monitors"].get(key, 0) + 1

    def check(self, monitor, ok, message="", **info):
        self._count(monitor)
        if not bool(ok):
            self.fail(monitor, message, **info)
        return bool(ok)

    def fail(self, monitor, message="", **info):
        if callable(message):
            try:
                message = message()
            except Exception as e:  # noqa: BLE001
                message = f"(no message: {e!r})"
        self.violations.append(
            {
                "property": self.prop,
                "workload": self.workload,
                "index": self.index,
                "seed": self.seed,
                "tier": self.tier,
                "monitor": f"{self.workload}:{monitor}",
                "tag": self.tag,
                "message": str(message),
                "case": self.desc,
                "info": {k: _jsonable(v) for k, v in info.items()},
            }
        )

    def close(self, monitor, actual, expected, *, tol=1e-8, scale=None, floor=0.0, message=""):
        """Values agree: |a - e| <= tol * max(|e|, scale)."""
        a = np.asarray(actual)
        e = np.asarray(expected)
        if a.dtype == object or e.dtype == object:
            return self.check(monitor, False, f"{message} object array", actual=actual)
        if a.shape != e.shape:
            return self.check(
                monitor,
                False,
                f"{message} shape {a.shape} != expected {e.shape}",
                actual=a,
                expected=e,
            )
        if a.size == 0:
            return self.check(monitor, True)
        if not np.all(np.isfinite(a)):
            return self.check(
                monitor, False, f"{message} non-finite result", actual=a, expected=e
            )
        ref = max(float(np.max(np.abs(e))), floor) if scale is None else float(scale)
        if scale is None and ref == 0:
            ref = 1.0
        err = float(np.max(np.abs(a - e)))
        return self.check(
            monitor,
            err <= tol * ref,
            f"{message} differs from oracle by {err:.3g} (scale {ref:.3g}, tol {tol})",
            actual=a,
            expected=e,
        )

    def equal(self, monitor, actual, expected, message=""):
        a = np.asarray(actual)
        e = np.asarray(expected)
        ok = a.shape == e.shape and bool(np.all(a == e))
        return self.check(
            monitor, ok, f"{message} not equal", actual=a, expected=e
        )

    def raises(self, monitor, exc, fn, *args, **kw):
        """A documented rejection really happens."""
        try:
            fn(*args, **kw)
        except exc:
            return self.check(monitor, True)
        except Exception as e:  # noqa: BLE001
            return self.check(monitor, False, f"raised {type(e).__name__}: {e}")
        return self.check(monitor, False, "did not raise")

    @contextlib.contextmanager
    def running(self, monitor, tag=""):
        """Name what is being run, so that an exception is attributed to it."""
        old, old_tag = self._monitor, self.tag
        self._monitor, self.tag = monitor, tag or old_tag
        try:
            yield
        except Skip:
            raise
        except Exception as e:
            if not _from_repo(e) or getattr(e, "_mon_seen", False):
                raise
            e._mon_seen = True
            self.check(
                f"{monitor}.raised",
                False,
                f"{type(e).__name__}: {e}",
                traceback=traceback.format_exc().splitlines()[-12:],
            )
            raise
        finally:
            self._monitor, self.tag = old, old_tag


def _from_repo(e):
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(str(REPO)):
            return True
        tb = tb.tb_next
    return False


# ------------------------------------------------------------------ environment
def prepare_environment():
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    np.set_printoptions(legacy=False)
    _poison_uninitialised_memory()
    pkg = importlib.import_module(PACKAGE)
    where = Path(pkg.__file__).resolve()
    if REPO not in where.parents:
        msg = f"library imported from {where}, not {REPO}"
        raise HarnessError(msg)


POISON = {"calls": 0}


def _poison_uninitialised_memory():
    """MSan-like: memory the library asks for uninitialised is filled with NaN."""
    for name in ("empty", "empty_like"):
        orig = getattr(np, name)

        def wrapped(*args, _orig=orig, **kw):
            out = _orig(*args, **kw)
            mod = sys._getframe(1).f_globals.get("__name__", "")
            if mod.startswith(PACKAGE) and isinstance(out, np.ndarray):
                POISON["calls"] += 1
                if out.dtype.kind in "fc":
                    out.fill(np.nan)
                elif out.dtype.kind in "iu":
                    out.fill(np.iinfo(out.dtype).max // 3)
            return out

        setattr(np, name, wrapped)


# ------------------------------------------------------------------ registry
class Workload:
    def __init__(self, name, fn, quick, thorough):
        self.name = name
        self.fn = fn
        self.n = {"quick": quick, "thorough": thorough}


class Registry:
    def __init__(self, prop):
        self.prop = prop
        self.workloads = []
        self.setup = None

    def workload(self, quick, thorough=None, name=None):
        def deco(fn):
            self.workloads.append(
                Workload(name or fn.__name__, fn, quick, thorough or quick * 12)
            )
            return fn

        return deco


def load_property(pid):
    mod = importlib.import_module(f"props.{pid}")
    if not getattr(mod, "_scaled", False):
        mod._scaled = True
        scale = {"quick": 3, "thorough": 10, **getattr(mod, "SCALE", {})}
        for wl in mod.R.workloads:
            wl.n = {t: max(1, int(n * scale[t])) for t, n in wl.n.items()}
    return mod


_NULL = open(os.devnull, "w")  # noqa: SIM115  (the library prints its timings)


class CaseTimeout(Exception):
    """A case ran for so long that a call of the library must be looping."""


#: seconds; a case usually takes milliseconds, the longest a few seconds
CASE_LIMIT_S = 120


def _on_alarm(*_):
    raise CaseTimeout(f"no result after {CASE_LIMIT_S} s")


@contextlib.contextmanager
def _watchdog():
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    before = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, before)


CURRENT = None  # the case which runs


def run_case(mod, wl, index, seed, tier, stats):
    global CURRENT
    CURRENT = ctx = Ctx(mod.R.prop, wl.name, index, seed, tier, stats)
    np.random.seed((seed * 1000003 + index * 7919 + zlib.crc32(wl.name.encode())) % 2**32)
    try:
        with contextlib.redirect_stdout(_NULL), _watchdog():
            wl.fn(ctx)
    except Skip:
        stats["skipped"] = stats.get("skipped", 0) + 1
        return ctx, True
    except Exception as e:  # noqa: BLE001
        if getattr(e, "_mon_seen", False):
            pass
        elif _from_repo(e):
            ctx.check(
                f"{ctx._monitor}.raised",
                False,
                f"{type(e).__name__}: {e}",
                traceback=traceback.format_exc().splitlines()[-14:],
            )
        elif ctx.violations:
            # the case had already been refuted; later harness code could not cope
            pass
        else:
            # The library answered something that the oracle cannot even read
            ctx.check(
                f"{ctx._monitor}.unreadable",
                False,
                f"{type(e).__name__}: {e}",
                traceback=traceback.format_exc().splitlines()[-14:],
            )
            stats["unreadable"] = stats.get("unreadable", 0) + 1
    return ctx, False


class _Reach:
    """Which lines of the library (inside functions) ran while monitors were watching."""

    def __init__(self):
        self.lines = {}

    def start(self):
        m = getattr(sys, "monitoring", None)
        if m is None or m.get_tool(4) is not None:
            return
        m.use_tool_id(4, "verif-reach")

        def line(code, number):
            f = code.co_filename
            i = f.find("/surface_potential_analysis/")
            if i >= 0 and code.co_name != "<module>":
                key = (f[f.rfind("/surface_potential_analysis/") + 28:], code.co_qualname)
                self.lines.setdefault(key, set()).add(number)
            return m.DISABLE

        m.register_callback(4, m.events.LINE, line)
        m.set_events(4, m.events.LINE)

    def stop(self):
        m = getattr(sys, "monitoring", None)
        if m is not None and m.get_tool(4) == "verif-reach":
            m.set_events(4, 0)
            m.free_tool_id(4)
        return {f"{f}::{q}": sorted(v) for (f, q), v in self.lines.items()}


def _run_shard(mod, seed, tier, shard, n_shards, only, t_end):
    reach = _Reach()
    reach.start()
    try:
        out = _run_shard_cases(mod, seed, tier, shard, n_shards, only, t_end)
    finally:
        lines = reach.stop()
    out[0]["reach"] = lines
    return out


def _run_shard_cases(mod, seed, tier, shard, n_shards, only, t_end):
    stats = {"monitors": {}, "skipped": 0, "per_workload": {}}
    violations = []
    signatures = set()
    samples = []
    cases = 0
    capped = False
    known = {}
    findings = [f for f in load_findings() if f["property"] == mod.R.prop]
    todo = [wl for wl in mod.R.workloads if not only or wl.name in only]
    # all workloads advance together, so that a time cap thins every one of them
    order = sorted(
        ((i + 0.5) / wl.n[tier], j, i)
        for j, wl in enumerate(todo)
        for i in range(shard, wl.n[tier], n_shards)
    )
    stats["per_workload"] = {wl.name: 0 for wl in todo}
    for _, j, i in order:
        wl = todo[j]
        if time.time() > t_end:
            capped = True
            break
        ctx, skipped = run_case(mod, wl, i, seed, tier, stats)
        if skipped:
            continue
        stats["per_workload"][wl.name] += 1
        cases += 1
        if ctx.n_eval:
            signatures.add(wl.name + json.dumps(ctx.desc, sort_keys=True, default=str))
        if stats["per_workload"][wl.name] == 1 and len(samples) < 12:
            samples.append(
                {"workload": wl.name, "index": i, "case": ctx.desc,
                 "monitor_evaluations": ctx.n_eval}
            )
        if ctx.violations and all(_known(v, findings) for v in ctx.violations):
            for v in ctx.violations:
                known.setdefault(_known(v, findings)["id"], v)
        elif ctx.violations:
            new = [v for v in ctx.violations if not _known(v, findings)]
            violations.extend(new[:3])
            if len(violations) >= MAX_VIOLATIONS:
                break
    extra = getattr(mod, "shard_stats", None)
    if extra:
        stats["extra"] = extra()
    return stats, [*known.values(), *violations], signatures, samples, cases, capped


def _known(v, findings):
    for f in findings:
        if v["monitor"] == f["monitor"] and v["tag"] == f.get("tag", ""):
            return f
    return None


def _merge(results):
    stats = {"monitors": {}, "skipped": 0, "per_workload": {}, "extra": {}, "reach": {}}
    violations, signatures, samples, cases, capped = [], set(), [], 0, False
    for st, v, sig, sam, c, cap in results:
        for k, n in st["monitors"].items():
            stats["monitors"][k] = stats["monitors"].get(k, 0) + n
        for k, n in st["per_workload"].items():
            stats["per_workload"][k] = stats["per_workload"].get(k, 0) + n
        stats["skipped"] += st.get("skipped", 0)
        for k, n in st.get("reach", {}).items():
            stats["reach"].setdefault(k, set()).update(n)
        for k, n in st.get("extra", {}).items():
            if isinstance(n, int | float):
                stats["extra"][k] = stats["extra"].get(k, 0) + n
            else:
                stats["extra"][k] = n
        violations += v
        signatures |= sig
        samples += sam
        cases += c
        capped = capped or cap
    return stats, violations, signatures, samples[:12], cases, capped


def _summary(reach):
    out = {}
    for k, n in sorted(reach.items()):
        f, q = k.split("::")
        e = out.setdefault(f, {"functions": 0, "lines": 0})
        e["functions"] += "<" not in q.split(".")[-1]
        e["lines"] += len(n)
    return out


def load_findings():
    path = VERIF / "known_findings.json"
    if not path.exists():
        return []
    return json.loads(path.read_text())["findings"]


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--tier")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.time()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prepare_environment()
    pid = args.property
    mod = load_property(pid)

    if args.replay:
        rep = json.loads(Path(args.replay).read_text())
        seed, tier = rep["seed"], rep["tier"]
        stats = {"monitors": {}}
        wl = next(w for w in mod.R.workloads if w.name == rep["workload"])
        ctx, _ = run_case(mod, wl, rep["index"], seed, tier, stats)
        print(json.dumps(ctx.violations, indent=1, default=str))
        return 1 if ctx.violations else 0

    if mod.R.setup:
        mod.R.setup()
    t_end = t0 + HARD_CAP_S[tier]
    jobs = args.jobs or (4 if tier == "quick" else 8)
    if getattr(mod, "SERIAL", False):
        jobs = 1
    if jobs > 1:
        import multiprocessing as mp
        from concurrent.futures import ProcessPoolExecutor

        mpctx = mp.get_context("fork")
        with ProcessPoolExecutor(jobs, mp_context=mpctx) as ex:
            futs = [
                ex.submit(_shard_entry, pid, seed, tier, s, jobs, args.only, t_end)
                for s in range(jobs)
            ]
            results = [f.result() for f in futs]
    else:
        results = [_run_shard(mod, seed, tier, 0, 1, args.only, t_end)]
    stats, violations, signatures, samples, cases, capped = _merge(results)

    findings = [f for f in load_findings() if f["property"] == pid]
    listed, unlisted = {}, []
    for v in violations:
        f = _known(v, findings)
        if f is not None:
            listed.setdefault(f["id"], (f, v))
        else:
            unlisted.append(v)

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(signatures),
            "rule": getattr(mod, "RULE", "")
            or "Random cases per workload; a case counts when at least one monitor "
            "was evaluated on it and its description differs from all others.",
            "samples": samples,
            "monitor_evaluations": sum(stats["monitors"].values()),
            "monitors": stats["monitors"],
            "cases_per_workload": stats["per_workload"],
            "skipped_out_of_domain": stats["skipped"],
            "uninitialised_allocations_poisoned": POISON["calls"] if jobs == 1 else None,
            "stopped_by_time_cap": capped,
            "observed": stats["extra"],
            "library_code_executed": _summary(stats["reach"]),
            "known_findings_seen": sorted(listed),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unlisted),
    }
    if os.environ.get("VERIF_REACH"):
        Path(os.environ["VERIF_REACH"]).write_text(json.dumps({k: sorted(v) for k, v in stats["reach"].items()}))
    ev_dir = VERIF / "evidence"
    ev_dir.mkdir(exist_ok=True)
    if not args.only:
        (ev_dir / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=str))

    for fid, (f, _) in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={pid} {f['what']}")

    if unlisted:
        rep_dir = VERIF / "replays"
        rep_dir.mkdir(exist_ok=True)
        seen = set()
        for v in unlisted:
            if v["monitor"] in seen:
                continue
            seen.add(v["monitor"])
            path = rep_dir / f"{pid}-{v['workload']}-{v['index']}.json"
            path.write_text(json.dumps(v, indent=1, default=str))
            print(f"  {v['monitor']}: {v['message']}  case={json.dumps(v['case'])[:300]}")
            if args.v:
                print("   ", json.dumps(v["info"], default=str)[:1500])
            if len(seen) <= 5:
                print(f"VIOLATION property={pid} replay={path}")
        return 1

    missing = [
        w.name
        for w in mod.R.workloads
        if (not args.only or w.name in args.only)
        and stats["per_workload"].get(w.name, 0) < max(1, w.n[tier] // 10)
    ]
    blind = [
        w.name
        for w in mod.R.workloads
        if (not args.only or w.name in args.only)
        and not any(k.startswith(w.name + ":") for k in stats["monitors"])
    ]
    if getattr(mod, "SHARES", False) and stats["monitors"]:
        blind = []  # a few cases of each workload of others, which may all be skipped
    if missing or blind:
        print(f"INCONCLUSIVE property={pid} starved={missing} blind={blind}")
        return 3
    print(
        f"HELD property={pid} tier={tier} seed={seed} cases={cases} "
        f"distinct={len(signatures)} monitor_evaluations="
        f"{evidence['coverage']['monitor_evaluations']} wall={evidence['wall_s']}s"
    )
    return 0


def _shard_entry(pid, seed, tier, shard, jobs, only, t_end):
    mod = load_property(pid)
    return _run_shard(mod, seed, tier, shard, jobs, only, t_end)
