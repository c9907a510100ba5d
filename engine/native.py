"""Native execution of contracts: runs the real code and the executable specification side by side.

Used (a) to replay a counterexample of the engine against the real code, (b) to search for a failing
input when an obligation is not discharged, and (c) as a cross-check of the engine on every run.
"""
from __future__ import annotations

import datetime as dt
import enum
import importlib
import random
import time

from .gen import Pool
from .lang import Rejected
from .ty import Other


FIELDS = {}


def known_fields(v):
    """The documented fields of an SDK object (auxiliary private attributes are not part of its value)."""
    c = type(v)
    if c not in FIELDS:
        from .ty import TYPES
        fs = None
        for t in TYPES.values():
            for a in t.resolve().alts:
                if a.cls is c and a.fields is not None:
                    fs = sorted(a.fields)
        FIELDS[c] = fs
    return FIELDS[c] if FIELDS[c] is not None else sorted(v.__dict__)


def freeze(v, memo=None):
    """Immutable deep image of a value (identity-free), used to compare and to detect mutation."""
    if v is None or isinstance(v, (bool, int, str, bytes)) and type(v) in (bool, int, str, bytes):
        return (type(v).__name__, v)
    if type(v) is float:
        return ("float", repr(v))
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__, v.name)
    if type(v) is dt.datetime:
        return ("datetime", v.isoformat(), str(v.tzinfo))
    if type(v) is dt.date:
        return ("date", v.isoformat())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("set", frozenset(freeze(x) for x in v))
    if isinstance(v, dict):
        return ("dict", frozenset((freeze(k), freeze(x)) for k, x in v.items()))
    if type(v) is Other:
        return ("Other",)
    if isinstance(v, type):
        return ("class", v.__module__, v.__qualname__)
    d = getattr(v, "__dict__", None)
    if d is not None:
        return ("obj", type(v).__name__) + tuple(sorted((k, freeze(getattr(v, k, None))) for k in known_fields(v)))
    return ("repr", repr(v))


def to_src(v):
    """Python expression that rebuilds the value (evaluated in a namespace with mk, dt, Other)."""
    if isinstance(v, enum.Enum):
        return "cls(%r,%r)[%r]" % (type(v).__module__, type(v).__qualname__, v.name)
    if v is None or type(v) in (bool, int, str, bytes):
        return repr(v)
    if type(v) is float:
        return "float(%r)" % repr(v)
    if type(v) is dt.datetime or type(v) is dt.date:
        return repr(v).replace("datetime.", "dt.")
    if type(v) is list:
        return "[" + ", ".join(map(to_src, v)) + "]"
    if type(v) is tuple:
        return "(" + "".join(to_src(x) + "," for x in v) + ")"
    if type(v) is set:
        return "set([" + ", ".join(sorted(map(to_src, v))) + "])"
    if type(v) is dict:
        return "{" + ", ".join(to_src(k) + ": " + to_src(x) for k, x in v.items()) + "}"
    if type(v) is Other:
        return "Other()"
    c = type(v)
    return "mk(cls(%r,%r)%s)" % (c.__module__, c.__qualname__,
                                 "".join(", %s=%s" % (k, to_src(x)) for k, x in v.__dict__.items()))


def namespace():
    from .lang import mk

    def cls(m, q):
        o = importlib.import_module(m)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    return {"mk": mk, "dt": dt, "Other": Other, "cls": cls, "float": float, "set": set}


def outcome(f, args, deep=False):
    try:
        return ("ok", f(*args.values()))
    except RecursionError as e:
        if deep:
            raise
        return ("raise", e)
    except Exception as e:  # noqa: BLE001
        return ("raise", e)


def sdk_error(cls):
    return any(c.__module__.split(".")[0] == "snuba_sdk" for c in cls.__mro__[:-2])


def agree(driver, got, want):
    """None if the outcomes agree, else a description."""
    if want[0] == "raise":
        w = type(want[1])
        if got[0] != "raise":
            return "spec rejects (%s), code returned %.300r" % (w.__name__, show(got[1]))
        g = type(got[1])
        if driver.exc == "any" or (driver.exc == "loose" and w is Rejected):
            return None
        if w is Rejected or driver.exc == "sdk":
            return None if sdk_error(g) else "code raised undocumented %s: %s" % (g.__name__, got[1])
        if issubclass(g, w):
            return None
        return "spec rejects with %s, code raised %s: %s" % (w.__name__, g.__name__, got[1])
    if got[0] == "raise":
        return "spec accepts, code raised %s: %.200s" % (type(got[1]).__name__, safe_str(got[1]))
    if freeze(got[1]) != freeze(want[1]):
        return "code returned %.600r, spec says %.600r" % (show(got[1]), show(want[1]))
    return None


def safe_str(e):
    try:
        return str(e)
    except Exception:
        return "?"


def show(v):
    try:
        return v if isinstance(v, str) else to_src(v)
    except Exception:
        return "<unprintable>"


LAST = [None]


class SpecError(Exception):
    pass


def check_one(driver, args, twice=True):
    """Run one input. None = agrees; str = how it disagrees."""
    before = freeze(args)
    want = outcome(driver.spec, args, deep=True)
    LAST[0] = want[0]
    if want[0] == "raise":
        w = type(want[1])
        if not (w is Rejected or sdk_error(w) or driver.exc == "value" and w is ValueError or driver.exc == "any" and w in (
                ValueError, TypeError, IndexError, KeyError, AttributeError)):
            raise SpecError("specification of %s failed: %r on %s" % (driver, want[1], to_src(args)))
    if freeze(args) != before:
        raise SpecError("specification of %s modifies its input" % driver)
    if driver.consumes:
        import copy
        return agree(driver, outcome(driver.code, copy.deepcopy(args)), want)
    got = outcome(driver.code, args)
    bad = agree(driver, got, want)
    if bad:
        return bad
    if freeze(args) != before:
        return "the call modified its arguments"
    if twice:
        again = outcome(driver.code, args)
        bad = agree(driver, again, want)
        if bad:
            return "on the second call: " + bad
        if freeze(args) != before:
            return "the call modified its arguments"
    return None


def satisfies(driver, args):
    if driver.requires is None:
        return True
    try:
        return bool(driver.requires(*args.values()))
    except Exception:
        return False


def draw_args(driver, pool):
    pool.loose = pool.rng.choice([0.0, 0.0, 0.03, 0.1, 0.28])
    pool.again, pool.same = pool.rng.choice([0.05, 0.12, 0.12, 0.4, 0.8]), pool.rng.choice([0.1, 0.25, 0.25, 0.5])
    args = {n: pool.draw(t) for n, t in driver.inputs.items()}
    if driver.prepare is not None:
        args = driver.prepare(args, pool)
    return args


def search(drivers, seconds, seed, harvest=None, max_runs=None):
    """Random differential search over several drivers in one process (call histories mix).
    Returns (failure or None, runs, spec_ok, spec_reject)."""
    rng = random.Random(seed)
    end = time.time() + seconds
    from contracts.valid import valid_args
    runs = acc = 0
    k = 0
    pool = Pool(rng, harvest)
    while time.time() < end and (max_runs is None or runs < max_runs):
        if k % 7 == 0:
            pool = Pool(rng, harvest, maxdepth=rng.choice([2, 3, 3, 4, 5]))
        d = drivers[k % len(drivers)]
        k += 1
        try:
            args = draw_args(d, pool)
        except RecursionError:
            continue
        if not satisfies(d, args):
            continue
        if not valid_args(d, args):
            continue
        runs += 1
        try:
            bad = check_one(d, args)
        except RecursionError:
            continue
        if not bad and LAST[0] == "ok":
            acc += 1
        if bad:
            args, bad = shrink(d, args, bad)
            return (d, args, bad), runs, acc
    return None, runs, acc


def shrink(driver, args, bad, budget=400):
    """Greedy reduction of a failing input (keeps types: only drops list elements / optional parts)."""
    import copy
    tries = [0]

    def fails(a):
        tries[0] += 1
        if tries[0] > budget or not satisfies(driver, a):
            return None
        try:
            return check_one(driver, a)
        except Exception:
            return None

    def variants(v):
        if isinstance(v, (list, tuple)) and len(v) > 0:
            for i in range(len(v)):
                yield v[:i] + v[i + 1:]
            for i in range(len(v)):
                for x in variants(v[i]):
                    yield v[:i] + type(v)([x]) + v[i + 1:]
        elif isinstance(v, str) and len(v) > 1:
            yield v[: len(v) // 2]
            yield v[len(v) // 2:]
            yield v[:-1]
            yield v[1:]
        elif isinstance(v, dict) and len(v) > 0:
            for k in list(v):
                yield {a: b for a, b in v.items() if a != k}
            for k in list(v):
                for x in variants(v[k]):
                    yield {**v, k: x}
        elif hasattr(v, "__dict__") and not isinstance(v, (type, enum.Enum)):
            for f, x in v.__dict__.items():
                if x is not None and f in ("alias", "entity", "initializers", "parameters", "sample", "data_model", "groupby",
                                           "array_join", "where", "having", "orderby", "limitby", "limit", "offset",
                                           "granularity", "totals", "filters", "aggregate_params"):
                    c = object.__new__(type(v))
                    c.__dict__.update(v.__dict__)
                    c.__dict__[f] = None
                    yield c
                for y in variants(x):
                    c = object.__new__(type(v))
                    c.__dict__.update(v.__dict__)
                    c.__dict__[f] = y
                    yield c

    # representation invariants must survive the reduction
    from contracts.valid import valid_args
    progress = True
    while progress and tries[0] < budget:
        progress = False
        for n in list(args):
            for x in variants(args[n]):
                a = dict(args)
                a[n] = x
                if not valid_args(driver, a):
                    tries[0] += 1
                    if tries[0] > budget:
                        break
                    continue
                b = fails(a)
                if b:
                    args, bad, progress = a, b, True
                    break
            if progress:
                break
    return args, bad
