"""Deep value snapshots of arbitrary objects (arrays, generators, components), for before/after comparisons."""
import numpy as np


def snap(o, depth=0, seen=None):
    seen = seen or ()
    if id(o) in seen or depth > 8:
        return "..."
    if o is None or isinstance(o, (bool, int, float, str, complex, np.generic)):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), o.shape, o.tobytes() if o.dtype != object else repr(o))
    seen = seen + (id(o),)
    if isinstance(o, np.random.Generator):
        return ("rng", repr(o.bit_generator.state))
    if isinstance(o, dict):
        return ("dict",) + tuple((str(k), snap(v, depth + 1, seen)) for k, v in sorted(o.items(), key=lambda kv: str(kv[0])))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(v, depth + 1, seen) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted(repr(v) for v in o))
    if hasattr(o, "__dict__"):
        return (type(o).__name__, snap(vars(o), depth + 1, seen))
    return (type(o).__name__, repr(o) if type(o).__repr__ is not object.__repr__ else "")


def public(o, depth=0, seen=()):
    """Snapshot of the public configuration only (attributes and properties without leading underscore)."""
    if id(o) in seen or depth > 6:
        return "..."
    if o is None or isinstance(o, (bool, int, float, str, np.generic, np.ndarray, np.random.Generator)):
        return snap(o)
    seen = seen + (id(o),)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(public(v, depth + 1, seen) for v in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((str(k), public(v, depth + 1, seen)) for k, v in sorted(o.items(), key=lambda kv: str(kv[0])))
    out = []
    for n in sorted(dir(o)):
        if n.startswith("_"):
            continue
        try:
            v = getattr(o, n)
        except Exception as e:  # noqa
            out.append((n, type(e).__name__))
            continue
        if callable(v) and not hasattr(v, "sample_parameter"):
            continue
        out.append((n, public(v, depth + 1, seen)))
    return (type(o).__name__,) + tuple(out)


def scramble(o, rng, depth=0, seen=None):
    """Change everything reachable from `o` (arrays and lists in place, numeric attributes of components)."""
    seen = set() if seen is None else seen
    if o is None or id(o) in seen or depth > 6:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype.kind in "fiu":
            o[...] = o + (rng.uniform(1, 2, o.shape) if o.dtype.kind == "f" else 3)
        return
    if isinstance(o, np.random.Generator):
        o.random(int(rng.integers(1, 50)))
        return
    if isinstance(o, (bool, int, float, str, np.generic)):
        return
    if isinstance(o, dict):
        for v in o.values():
            scramble(v, rng, depth + 1, seen)
        return
    if isinstance(o, (list, tuple)):
        for v in o:
            scramble(v, rng, depth + 1, seen)
        if isinstance(o, list) and o:
            o.clear()
        return
    if hasattr(o, "__dict__"):
        for k, v in list(vars(o).items()):
            if isinstance(v, float) and v != 0:
                vars(o)[k] = v * 1.7
            elif isinstance(v, dict) and k == "_":
                continue
            else:
                scramble(v, rng, depth + 1, seen)


def reseed(o, seed, depth=0, seen=None):
    """Give every generator reachable from `o` a state that is a function of `seed` (replayable runs, no verdict depends on it)."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 8:
        return
    seen.add(id(o))
    if isinstance(o, np.random.Generator):
        kind = type(o.bit_generator)
        o.bit_generator.state = kind([seed, len(seen)]).state
    elif isinstance(o, dict):
        for v in o.values():
            reseed(v, seed, depth + 1, seen)
    elif isinstance(o, (list, tuple)):
        for v in o:
            reseed(v, seed, depth + 1, seen)
    elif hasattr(o, "__dict__") and not isinstance(o, type):
        reseed(vars(o), seed, depth + 1, seen)
