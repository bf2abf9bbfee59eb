"""Generic observation of the public settings of an object."""
import enum
import functools

import numpy as np

from hermespy.core import Signal
from hermespy.core.factory import Serializable

# attributes that identify a random stream or the surroundings of an object, not its settings
IGNORED = {
    "seed", "random_mother", "is_random_root", "_rng", "attached", "scenario", "campaign", "T", "base", "data", "flags",
    "strides", "real", "imag", "flat", "ctypes", "itemset", "mode_", "title", "visualization", "sample_hooks", "registered_dimensions",
    "deserialization_process", "mT", "operators", "linked_frames",
}


def public_properties(cls):
    out = {}
    for c in reversed(cls.__mro__):
        if c is object or c.__module__.split(".")[0] != "hermespy":
            continue
        for k, v in vars(c).items():
            if isinstance(v, property) and not k.startswith("_"):
                out[k] = v
    return [k for k in sorted(out) if k not in IGNORED]


def observe(x, depth=4, path=()):
    """Nested, comparable representation of the public state of an object."""
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, enum.Enum):
        return ("enum", type(x).__name__, x.name)
    if isinstance(x, Signal):
        d = np.array(x.to_dense().view(np.ndarray))
        return ("signal", d, complex(x.sampling_rate), complex(x.carrier_frequency), complex(x.noise_power), complex(x.delay))
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    if isinstance(x, np.ndarray) and x.dtype != object:
        base = ("array", np.array(x.view(np.ndarray)))
        return base
    if isinstance(x, (list, tuple)) and not hasattr(x, "_fields"):
        if len(x) > 0 and all(isinstance(v, (int, float, complex, np.number)) and not isinstance(v, bool) for v in x):
            return ("array", np.array(x))
        return ["seq"] + [observe(v, depth, path) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((observe(v, depth, path) for v in x), key=repr)
    if isinstance(x, dict):
        return ["map"] + [(str(k), observe(v, depth, path)) for k, v in sorted(x.items(), key=lambda i: str(i[0]))]
    mod = type(x).__module__.split(".")[0]
    if mod == "sparse":
        return observe(np.asarray(x.todense()), depth, path)
    if mod != "hermespy":
        return ("opaque", type(x).__name__)
    if any(x is p for p in path):
        return ("cycle", len(path) - next(i for i, p in enumerate(path) if p is x))
    if depth <= 0:
        return ("type", type(x).__name__)
    out = {"__type__": type(x).__name__}
    for k in public_properties(type(x)):
        try:
            v = getattr(x, k)
        except Exception as e:  # a property unavailable in the current state
            out[k] = ("raises", type(e).__name__)
            continue
        if callable(v) and not isinstance(v, Serializable):
            continue
        out[k] = observe(v, depth - 1, path + (x,))
    for k, v in getattr(x, "__dict__", {}).items():
        if not k.startswith("_") and k not in out and k not in IGNORED and not callable(v) and not isinstance(getattr(type(x), k, None), functools.cached_property):
            out[k] = observe(v, depth - 1, path + (x,))
    if isinstance(x, (list, tuple)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, np.ndarray)):
        try:
            out["__items__"] = [observe(v, depth - 1, path + (x,)) for v in x]
        except Exception as e:
            out["__items__"] = ("raises", type(e).__name__)
    return out


def difference(a, b, where="", tol=1e-9):
    """First difference between two observations, or None."""
    if type(a) is not type(b):
        return "%s: %s != %s" % (where, short(a), short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: only on one side" % (where, k)
            d = difference(a[k], b[k], where + "." + k, tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %s != %s" % (where, short(a), short(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = difference(u, v, "%s[%d]" % (where, i), tol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return "%s: shape %s != %s" % (where, a.shape, b.shape)
        if a.dtype.kind in "biufc" and b.dtype.kind in "biufc":
            return None if np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) else "%s: %s != %s" % (where, short(a), short(b))
        return None if np.array_equal(a, b) else "%s: %s != %s" % (where, short(a), short(b))
    if isinstance(a, complex):
        same = a == b or abs(a - b) <= tol * max(1.0, abs(a)) or (np.isnan(a) and np.isnan(b))
        return None if same else "%s: %s != %s" % (where, a, b)
    return None if a == b else "%s: %s != %s" % (where, short(a), short(b))


def short(x):
    return repr(x)[:160]
