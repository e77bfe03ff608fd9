"""Caches under crashes, failing writes and concurrent use."""

import os
import pickle
import resource
import signal
import sys
import tempfile
import time
from pathlib import Path

import numpy as np

from mon.core import Registry
from surface_potential_analysis.util.decorators import cached, npy_cached

R = Registry("K02")
SCALE = {"quick": 1, "thorough": 6}
RULE = (
    "Fault enumeration: for every byte offset (small results) or sampled offsets (large ones) the process "
    "writing the cache is killed (SIGXFSZ) or its write fails (EFBIG) there, and it is killed before every "
    "file system operation it performs; then the function is called again, in this and in a new process. "
    "Plus histories of concurrent writers and readers checked against the specification of a register. "
    "Non-trivial: the fault really fired, or at least one read overlapped a write."
)
FAULTS = {"killed": 0, "write_error": 0, "completed": 0, "op_killed": 0, "reads": 0,
          "overlapping_reads": 0, "writes": 0}


def shard_stats():
    return dict(FAULTS)


def _dir():
    return tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH"))


def value(version, size):
    return {"version": version, "data": np.full(size, version, dtype=float), "size": size}


def intact(v, versions, size):
    return (
        isinstance(v, dict) and v.get("version") in versions and v["data"].shape == (size,)
        and bool(np.all(v["data"] == v["version"]))
    )


def _wrap(kind, path, version, size, calls=None):
    def fn():
        if calls is not None:
            calls.append(version)
        return value(version, size)

    if kind == "npy":
        return npy_cached(path, load_pickle=True)(fn)
    return cached(path)(fn)


def _child(action):
    """Run in a forked process; returns the wait status."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 2)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            action()
            code = 0
        except BaseException:  # noqa: BLE001
            code = 7
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


def _fault(ctx, kind, d, prior, mode, at, size):
    """Kill / fail the writer at byte or operation ``at``; returns what happened."""
    path = Path(d) / ("c.npy" if kind == "npy" else "c.pkl")

    def write():
        if mode == "kill":
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        else:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if mode in ("kill", "error"):
            resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
        else:
            count = [0]

            def hook(event, args):
                if event.startswith(("open", "os.", "shutil.", "tempfile.")) and any(
                    isinstance(a, str | bytes) and str(d) in os.fsdecode(a) for a in args
                ):
                    count[0] += 1
                    if count[0] > at:
                        os.kill(os.getpid(), signal.SIGKILL)

            sys.addaudithook(hook)
        f = _wrap(kind, path, 2, size)
        if prior and kind != "npy":
            f.call_cached()
        else:
            f()

    status = _child(write)
    if os.WIFSIGNALED(status):
        FAULTS["op_killed" if mode == "op" else "killed"] += 1
        fired = True
    elif os.WEXITSTATUS(status) == 7:
        FAULTS["write_error"] += 1
        fired = True
    else:
        FAULTS["completed"] += 1
        fired = False
    calls = []
    where = f"{kind} {mode} at={at} prior={prior} size={size}"
    allowed = {1, 2} if prior else {2, 3}
    for attempt in range(2):
        try:
            out = _wrap(kind, path, 3, size, calls)()
        except Exception as e:  # noqa: BLE001
            ctx.check("recovers", False, f"{where}: call {attempt} raised {type(e).__name__}: {e}")
            return fired
        ctx.check("recovers", True)
        ctx.check("value", intact(out, allowed, size), f"{where}: wrong value", actual=repr(out)[:200])
    if not fired and not calls:
        ctx.check("completed_write_is_kept", out["version"] == 2, where)
    # and for a new process
    ok_path = Path(d) / "ok"

    def again():
        out = _wrap(kind, path, 3, size)()
        if intact(out, allowed, size):
            ok_path.touch()

    _child(again)
    ctx.check("new_process", ok_path.exists(), where)
    ctx.check("evaluated_at_most_once", len(calls) <= 1, f"{where}: the result was not kept", actual=calls)
    return fired


@R.workload(48, 96)
def crash(ctx):
    kind = ["pkl", "npy"][ctx.index % 2]
    mode = ["kill", "error", "op"][(ctx.index // 2) % 3]
    prior = kind == "pkl" and ctx.flag()
    size = ctx.pick([0, 1, 7, 40, 3000, 40000])
    blob = len(pickle.dumps(value(2, size), pickle.HIGHEST_PROTOCOL)) + 128
    if mode == "op":
        offsets = range(10)
    elif blob < 600 and ctx.tier == "thorough":
        offsets = range(blob + 1)
    elif blob < 600:
        offsets = sorted({0, 1, blob - 129, *ctx.rng.integers(0, blob, size=12).tolist()})
    else:
        offsets = sorted({0, 1, 4096, 8192, 65536, blob - 129, blob - 300, *ctx.rng.integers(0, blob, size=10).tolist()})
    ctx.note(kind=kind, mode=mode, prior=prior, size=size, offsets=len(list(offsets)), first=list(offsets)[:20])
    fired = 0
    for at in offsets:
        with _dir() as d:
            if prior:
                _wrap(kind, Path(d) / "c.pkl", 1, size)()
            fired += bool(_fault(ctx, kind, d, prior, mode, int(at), size))
    ctx.check("faults_fired", fired > 0 or mode == "error", "no fault fired: the harness is blind")


def _worker(kind, path, log, seed, end, size, wid, writer):
    rng = np.random.default_rng(seed)
    out = []
    v = wid * 10**7
    while time.monotonic() < end:
        v += 1
        write = writer and kind == "pkl" and rng.random() < 0.5
        calls = []
        f = _wrap(kind, path, v, size, calls)
        if rng.random() < 0.3:
            time.sleep(rng.random() * 2e-3)
        t0 = time.monotonic_ns()
        try:
            r = f.call_cached() if write else f()
            good = intact(r, {r["version"]}, size)
            got = r["version"]
        except Exception as e:  # noqa: BLE001
            good, got = False, f"{type(e).__name__}: {e}"
        t1 = time.monotonic_ns()
        out.append((t0, t1, "w" if calls else "r", v if calls else got, good, got))
    Path(log).write_bytes(pickle.dumps(out))


@R.workload(6, 12)
def concurrent(ctx):
    kind = ctx.pick(["pkl", "pkl", "npy"])
    size = ctx.pick([10, 5000, 60000])
    n = ctx.randint(3, 6)
    seconds = 0.4 if ctx.tier == "quick" else 1.0
    ctx.note(kind=kind, size=size, workers=n)
    with _dir() as d:
        path = Path(d) / ("c.npy" if kind == "npy" else "c.pkl")
        end = time.monotonic() + seconds
        pids = []
        for w in range(n):
            pid = os.fork()
            if pid == 0:
                try:
                    _worker(kind, path, f"{d}/log{w}", [ctx.seed, ctx.index, w], end, size, w + 1, w % 2 == 0)
                finally:
                    os._exit(0)
            pids.append(pid)
        for p in pids:
            os.waitpid(p, 0)
        events = []
        for w in range(n):
            p = Path(f"{d}/log{w}")
            if ctx.check("worker_finished", p.exists()):
                events += pickle.loads(p.read_bytes())
    bad = [e for e in events if not e[4]]
    ctx.check("every_call_intact", not bad, f"{len(bad)} of {len(events)} calls", actual=bad[:3])
    writes = {e[3]: e for e in events if e[2] == "w" and e[4]}
    reads = [e for e in events if e[2] == "r" and e[4]]
    FAULTS["writes"] += len(writes)
    FAULTS["reads"] += len(reads)
    stale, unknown = [], []
    ws = sorted(writes.values())
    for r in reads:
        w = writes.get(r[3])
        if w is None or w[0] > r[1]:
            unknown.append(r)
            continue
        if any(o[0] < r[1] and o[1] > r[0] for o in ws):
            FAULTS["overlapping_reads"] += 1
        # another write entirely between the end of w and the start of r?
        if any(o[0] > w[1] and o[1] < r[0] for o in ws):
            stale.append(r)
    ctx.check("reads_known_values", not unknown, actual=unknown[:3])
    ctx.check("no_stale_read", not stale, f"{len(stale)} stale of {len(reads)}", actual=stale[:3])
    ctx.check("progress", len(events) > n)
