"""Replays the workloads of every property under the watch of mon.watch."""

from mon import watch

watch.install()

import importlib  # noqa: E402

from mon.core import Ctx, Registry, Skip  # noqa: E402

SOURCES = (
    "C01", "C02", "C03", "G01", "G02", "G03", "F01", "V01", "V02", "S01", "S02", "S03",
    "O01", "O02", "E01", "H01", "H03", "N01", "N02", "N03", "N04", "W01", "W02", "W03",
    "W04", "L01", "D01", "D02", "D03", "D04", "R01", "R02", "R03", "R04", "R05",
)
#: what a case of these costs, relative to the others
WEIGHT = {"R01": 0.3, "R02": 0.25, "R03": 0.25, "R04": 0.25, "R05": 0.25, "W03": 0.5, "W04": 0.5, "D02": 0.4, "D04": 0.4, "N04": 0.3}


#: workloads which hold no call of the package's functions: they look at objects only
UNWATCHED = {"G01.position_axes_independent", "R03.trajectories"}


def registry(prop, kind, monitor, share):
    R = Registry(prop)
    for source in SOURCES:
        mod = importlib.import_module(f"props.{source}")
        for wl in mod.R.workloads:
            if f"{source}.{wl.name}" in UNWATCHED:
                continue
            raw = wl.raw if hasattr(wl, "raw") else dict(wl.n)
            w = share * WEIGHT.get(source, 1)
            R.workload(
                max(3, round(raw["quick"] * w)),
                max(30, round(raw["thorough"] * w)),
                name=f"{source}.{wl.name}",
            )(_replayed(source, mod, wl, kind, monitor))
    return R


def _replayed(source, mod, wl, kind, monitor):
    def run(ctx):
        inner = Ctx(source, wl.name, ctx.index, ctx.seed, ctx.tier, {"monitors": {}})
        watch.reset()
        watch.S.repeat = kind == "differs"
        try:
            wl.fn(inner)
        except Skip:
            pass
        except Exception:  # noqa: BLE001, S110  (other checks decide what the results are)
            pass
        finally:
            ctx.note(**{**inner.desc, "workload_of": source})
        found = list(dict.fromkeys(getattr(watch.S, kind)))
        for _ in range(watch.S.compared if kind == "differs" else watch.S.calls):
            ctx._count(monitor)  # noqa: SLF001
        for message in found[:3]:
            ctx.fail(monitor, message)

    return run


def shard_stats():
    return {
        **{f"repeated ({k})": v for k, v in sorted(watch.S.kinds.items())},
        **{f"calls of {k}": v for k, v in sorted(watch.S.seen.items())},
    }
