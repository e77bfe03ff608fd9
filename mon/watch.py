"""Wraps the public functions of the library, to observe each outermost call.

Installed before the workloads import the library. For each call made by a workload
(not for calls the library makes to itself) the arguments are recorded before, and
compared after, and the result is inspected.
"""

from __future__ import annotations

import copy
import functools
import importlib
import inspect
import pkgutil
import types

import numpy as np

from mon.core import CaseTimeout

PACKAGE = "surface_potential_analysis"


class _State:
    depth = 0
    on = False
    calls = 0
    seen: dict = {}
    changed: list = []
    malformed: list = []
    differs: list = []
    compared = 0
    #: repeat each call with equal arguments
    repeat = False
    kinds: dict = {}


S = _State


def reset():
    S.depth = 0
    S.calls = 0
    S.changed = []
    S.malformed = []
    S.differs = []
    S.compared = 0


# ---------------------------------------------------------------- arguments
def _record(obj, name, out, memo, level=0):
    if level > 7 or id(obj) in memo:
        return
    if isinstance(obj, np.ndarray):
        memo.add(id(obj))
        if obj.dtype == object:
            for i, x in enumerate(obj.ravel()[:50]):
                _record(x, f"{name}[{i}]", out, memo, level + 1)
        else:
            out.append(("array", obj, name, obj.copy(), obj.shape))
    elif isinstance(obj, dict):
        memo.add(id(obj))
        out.append(("dict", obj, name, dict(obj), None))
        for k, v in obj.items():
            _record(v, f"{name}[{k!r}]", out, memo, level + 1)
    elif isinstance(obj, list):
        memo.add(id(obj))
        out.append(("list", obj, name, list(obj), None))
        for i, v in enumerate(obj):
            _record(v, f"{name}[{i}]", out, memo, level + 1)
    elif isinstance(obj, tuple):
        for i, v in enumerate(obj):
            _record(v, f"{name}[{i}]", out, memo, level + 1)
    elif type(obj).__module__.startswith(PACKAGE) and hasattr(obj, "__dict__"):
        memo.add(id(obj))
        for k, v in list(vars(obj).items()):
            _record(v, f"{name}.{k}", out, memo, level + 1)


def _compare(records):
    for kind, obj, name, before, shape in records:
        if kind == "array":
            if obj.shape != shape:
                yield f"{name} was reshaped from {shape} to {obj.shape}"
            elif obj.dtype != before.dtype or obj.tobytes() != before.tobytes():
                yield f"the data of {name} was changed"
        elif kind == "dict":
            if list(obj) != list(before) or any(obj[k] is not before[k] for k in before):
                yield f"the entries of {name} were changed"
        elif len(obj) != len(before) or any(a is not b for a, b in zip(obj, before, strict=True)):
            yield f"the items of {name} were changed"


# ---------------------------------------------------------------- results
def _parts(basis):
    try:
        return tuple(basis) if basis.ndim else ()
    except Exception:  # noqa: BLE001
        return ()


def sizes(basis):
    """Sizes which data in this basis may have: all elements, or the diagonal ones."""
    out = {int(basis.n)}
    p = _parts(basis)
    if len(p) == 2:
        if p[0].n == p[1].n:
            out.add(int(p[0].n))
        q = _parts(p[1])
        if len(q) == 2 and q[0].n == q[1].n:
            out.add(int(p[0].n * q[0].n))
    return out


#: the nine hops of a tunnelling matrix are kept in the data only, by convention of the type
HOPS = 9


def _inspect(obj, name, level=0, hops=False):
    if level > 4:
        return
    if isinstance(obj, dict):
        basis, data = obj.get("basis"), obj.get("data")
        if basis is not None and data is not None and hasattr(basis, "n"):
            if not isinstance(data, np.ndarray) or data.dtype.kind not in "fciub":
                yield f"the data of {name} is not a numeric array"
            elif data.ndim != 1:
                yield f"the data of {name} is not flat: its shape is {data.shape}"
            elif data.size not in sizes(basis) and not (hops and data.size == HOPS * basis.n):
                yield f"the data of {name} has size {data.size}, its basis {basis.n}"
            e = obj.get("eigenvalue")
            p = _parts(basis)
            if e is not None and np.ndim(e) and len(p) == 2:
                if np.ndim(e) != 1:
                    yield f"the eigenvalues of {name} are not flat: {np.shape(e)}"
                elif np.size(e) != p[0].n:
                    yield f"{name} has {np.size(e)} eigenvalues for {p[0].n} states"
        else:
            for k, v in obj.items():
                yield from _inspect(v, f"{name}[{k!r}]", level + 1)
    elif isinstance(obj, list | tuple) and len(obj) < 200:
        for i, v in enumerate(obj):
            yield from _inspect(v, f"{name}[{i}]", level + 1)


# ---------------------------------------------------------------- repetition
#: calls which draw random numbers or figures, or exchange files
FREE = ("plot", "animate", "sample", "random", "stochastic", "wannier90", "figure", "timed", "cached")
VARIANTS = ("again", "strided", "reversed", "fresh", "spoiled", "numbers")


def _free(label):
    name = label.rpartition(".")[2]
    return any(x in name for x in FREE) or "decorators" in label or "util.plot" in label


def _layout(a, kind):
    if kind == "strided":
        buf = np.full((*a.shape[:-1], 2 * a.shape[-1] + 1), a.flat[0] if a.size else 0, dtype=a.dtype)
        out = buf[..., 1::2]
        out[...] = a
    else:
        out = np.array(a[::-1], order="F")[::-1]
    out.flags.writeable = False
    return out


def _variant(obj, kind, memo, level=0):
    """An equal argument: other arrays in other places of the memory, read only.

    Bases are compared by identity, so those which are shared stay shared.
    """
    if level > 6:
        return obj
    if isinstance(obj, np.ndarray):
        if kind == "fresh":
            out = obj.copy()
            out.flags.writeable = False
            return out
        if kind in ("numbers", "values"):
            return obj
        return obj if obj.dtype == object or obj.ndim == 0 else _layout(obj, kind)
    if kind in ("numbers", "values"):
        if type(obj) is int:
            return np.int64(obj)
        if type(obj) is float:
            return np.float64(obj)
        if kind == "numbers" and type(obj) is dict and isinstance(obj.get("data"), np.ndarray) and obj["data"].dtype == np.float64:
            return {**obj, "data": obj["data"].astype(complex)}
    if isinstance(obj, dict) and type(obj) is dict:
        return {k: _variant(v, kind, memo, level + 1) for k, v in obj.items()}
    if type(obj) in (list, tuple):
        return type(obj)(_variant(v, kind, memo, level + 1) for v in obj)
    if kind == "fresh" and type(obj).__module__.startswith(PACKAGE) and hasattr(obj, "__dict__"):
        return copy.deepcopy(obj, memo)
    return obj


def _repeatable(obj, level=0):
    if level > 4:
        return True
    if isinstance(obj, dict):
        return all(_repeatable(v, level + 1) for v in obj.values())
    if isinstance(obj, list | tuple):
        return all(_repeatable(v, level + 1) for v in obj)
    return not hasattr(obj, "__next__") and not type(obj).__module__.startswith("matplotlib")


def _numbers(x):
    return isinstance(x, int | float | complex | np.number | np.ndarray) and np.asarray(x).dtype.kind in "fciub"


def _unlike(a, b, name, level=0):
    """Describes the first difference of two results."""
    if level > 6:
        return None
    if _numbers(a) and _numbers(b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{name} has shape {b.shape}, not {a.shape}"
        ok = np.isfinite(a)
        if not np.array_equal(ok, np.isfinite(b)):
            return f"{name} is not finite elsewhere"
        size = np.max(np.abs(a[ok]), initial=0)
        err = np.max(np.abs(a[ok] * 1.0 - b[ok] * 1.0), initial=0)
        return f"{name} differs by {err:.3g} (largest value {size:.3g})" if err > TOLERANCE * size else None
    if type(a) is not type(b):
        return f"{name} is a {type(b).__name__}, not a {type(a).__name__}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{name} has other entries"
        items = [(a[k], b[k], f"{name}[{k!r}]") for k in a]
    elif isinstance(a, list | tuple):
        if len(a) != len(b):
            return f"{name} has length {len(b)}, not {len(a)}"
        items = [(x, y, f"{name}[{i}]") for i, (x, y) in enumerate(zip(a, b, strict=True))]
    elif isinstance(a, str | bytes | bool | type(None)):
        return None if a == b else f"{name} is {b!r}, not {a!r}"
    elif type(a).__module__.startswith(PACKAGE) and hasattr(a, "__dict__"):
        items = [(v, vars(b).get(k), f"{name}.{k}") for k, v in vars(a).items()]
    else:
        return None
    for x, y, n in items:
        if (m := _unlike(x, y, n, level + 1)) is not None:
            return m
    return None


#: relative to the largest value of an array: the order of a sum depends on the layout
TOLERANCE = 1e-7


def _arrays(obj, deep, level=0):
    if level > 7:
        return
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for x in obj.ravel()[:50]:
                yield from _arrays(x, deep, level + 1)
        else:
            yield obj
    elif isinstance(obj, dict):
        for v in obj.values():
            yield from _arrays(v, deep, level + 1)
    elif isinstance(obj, list | tuple):
        for v in obj:
            yield from _arrays(v, deep, level + 1)
    elif deep and type(obj).__module__.startswith(PACKAGE) and hasattr(obj, "__dict__"):
        for v in vars(obj).values():
            yield from _arrays(v, deep, level + 1)


def _spoil(result, args):
    """The caller may do what he likes with the arrays of a result, if they are not his own."""
    own = list(_arrays(args, deep=True))
    for a in _arrays(result, deep=False):
        if a.flags.writeable and not any(np.may_share_memory(a, b) for b in own):
            a[...] = 1 if a.dtype.kind == "b" else 7


def _again(fn, label, args, kw, out, state):
    if _free(label) or not _repeatable([args, kw, out]):
        return
    kind = VARIANTS[(S.calls + S.compared) % len(VARIANTS)]
    if kind == "spoiled":
        if label.count(".") > 1 and label.split(".")[-2][:1].isupper():
            kind = "again"  # methods may hand out what the object holds
        else:
            out = copy.deepcopy(out)
    if kind in ("strided", "reversed", "fresh", "numbers"):
        memo = {}
        if kind == "numbers" and ("probability" in label or label.startswith("dynamics")):
            kind = "values"  # probabilities are real
        args, kw = _variant(args, kind, memo), _variant(kw, kind, memo)
    keep = np.random.get_state()
    np.random.set_state(state)
    S.depth = 1
    try:
        if kind == "spoiled":
            _spoil(fn(*args, **kw), [args, kw])
        other = fn(*args, **kw)
    except CaseTimeout:
        raise
    except Exception as e:  # noqa: BLE001
        S.differs.append(f"{label}: raised {type(e).__name__} when called with equal arguments ({kind}): {e}")
    else:
        S.compared += 1
        S.kinds[kind] = S.kinds.get(kind, 0) + 1
        m = _unlike(out, other, "the result")
        if m is not None:
            S.differs.append(f"{label}: for equal arguments ({kind}) {m}")
    finally:
        S.depth = 0
        np.random.set_state(keep)


# ---------------------------------------------------------------- wrapping
def _wrap(fn, label):
    @functools.wraps(fn)
    def watched(*args, **kw):
        if S.depth or not S.on:
            return fn(*args, **kw)
        records = []
        memo = set()
        for i, a in enumerate(args):
            _record(a, f"argument {i}", records, memo)
        for k, v in kw.items():
            _record(v, f"argument {k}", records, memo)
        state = np.random.get_state() if S.repeat else None
        S.depth = 1
        S.calls += 1
        S.seen[label] = S.seen.get(label, 0) + 1
        try:
            out = fn(*args, **kw)
        finally:
            S.depth = 0
            S.changed.extend(f"{label}: {m}" for m in _compare(records))
        S.malformed.extend(f"{label}: {m}" for m in _inspect(out, "the result", hops="jump_matrix" in label))
        if S.repeat:
            _again(fn, label, args, kw, out, state)
        return out

    watched.__verif_watched__ = True
    return watched


def install():
    """Wrap every public function, and method, of the modules that can be imported."""
    if S.on:
        return
    S.on = True
    package = importlib.import_module(PACKAGE)
    modules = []
    for info in pkgutil.walk_packages(package.__path__, PACKAGE + "."):
        try:
            modules.append(importlib.import_module(info.name))
        except Exception:  # noqa: BLE001, S112  (needs an extension which is not installed)
            continue
    wrapped = {}
    classes = set()
    for m in modules:
        for name, obj in list(vars(m).items()):
            if isinstance(obj, types.FunctionType) and obj.__module__.startswith(PACKAGE):
                if obj.__name__.startswith("_") or hasattr(obj, "__verif_watched__"):
                    continue
                if inspect.isgeneratorfunction(obj):
                    continue
                if id(obj) not in wrapped:
                    label = f"{obj.__module__[len(PACKAGE) + 1:]}.{obj.__name__}"
                    wrapped[id(obj)] = (obj, _wrap(obj, label))
                setattr(m, name, wrapped[id(obj)][1])
            elif isinstance(obj, type) and obj.__module__.startswith(PACKAGE):
                classes.add(obj)
    for c in classes:
        for name, obj in list(vars(c).items()):
            own = name in (
                "__from_fundamental__", "__into_fundamental__",
                "__from_transformed__", "__into_transformed__", "__convert_vector_into__",
            )
            if (name.startswith("_") and not own) or not isinstance(obj, types.FunctionType):
                continue
            label = f"{c.__module__[len(PACKAGE) + 1:]}.{c.__qualname__}.{name}"
            setattr(c, name, _wrap(obj, label))
