"""Small helpers of the evaluator."""
from __future__ import annotations

import datetime as dt
import enum
import re
import types
import typing

import z3

from .sym import And, Sym, Unsupported
from .ty import Other
from .vals import Map, Minus, One, Ref, TokSeg, same

IDENTITY = (bool, type(None), enum.Enum, type)


def seg_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, One):
        return g_same(a.g, b.g) and same(a.v, b.v)
    if isinstance(a, Map):
        return (g_same(a.g, b.g) and a.src.eq(b.src) and a.e.eq(b.e) and len(a.segs) == len(b.segs)
                and all(seg_same(x, y) for x, y in zip(a.segs, b.segs)))
    if isinstance(a, Minus):
        return g_same(a.g, b.g) and a.v is b.v
    return isinstance(a, TokSeg) and a.tok is b.tok and g_same(a.g, b.g)


def g_same(a, b):
    if a is b:
        return True
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)


def guard_seg(s, g):
    if g is True:
        return s
    if isinstance(s, One):
        return One(And(s.g, g), s.v)
    if isinstance(s, Map):
        return Map(And(s.g, g), s.src, s.e, s.segs, s.unord)
    if isinstance(s, Minus):
        return Minus(And(s.g, g), s.v)
    t = TokSeg(s.tok)
    t.g = And(s.g, g)
    return t


def dkey(k):
    if isinstance(k, (str, int, float, bytes, bool, type(None), enum.Enum, type)):
        return (type(k), k)
    if isinstance(k, Sym):
        return ("t", k.term)
    if isinstance(k, Ref):
        return ("ref", k.a)
    if isinstance(k, tuple):
        return ("tup",) + tuple(map(dkey, k))
    raise Unsupported("dictionary key %r" % (k,))


def flat_classes(c):
    if isinstance(c, tuple):
        out = []
        for x in c:
            out += flat_classes(x)
        return tuple(out)
    if isinstance(c, types.UnionType):
        return flat_classes(tuple(c.__args__))
    if isinstance(c, type):
        return (c,)
    o = typing.get_origin(c)
    if o is typing.Union:
        return flat_classes(typing.get_args(c))
    if isinstance(o, type):
        return (o,)
    if c is None:
        return (type(None),)
    raise Unsupported("isinstance of %r" % (c,))


def truth_kind(c):
    if c is type(None):
        return "none"
    if c is bool:
        return "bool"
    if c is int:
        return "int"
    if c is float:
        return "float"
    if c in (str, bytes, list, tuple, set, dict, frozenset):
        return "ne"
    if c is Other:
        return "other"
    if c in (dt.date, dt.datetime) or issubclass(c, enum.Enum):
        return "true"
    for k in c.__mro__:
        if "__bool__" in k.__dict__ or "__len__" in k.__dict__:
            raise Unsupported("truth of %s" % c.__name__)
    return "true"


def concrete(v):
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(concrete(x) for x in v)
    if isinstance(v, dict):
        return all(concrete(x) for x in v.values())
    return v is None or isinstance(v, (str, int, float, bytes, bool, enum.Enum, type, types.FunctionType, dt.date,
                                       dt.timedelta, re.Pattern))


NUM = (int, float, bool, complex)


def unrelated(a, b):
    """Values of these two classes are never equal."""
    if a is b or a is Other or b is Other:
        return False
    if a in NUM and b in NUM:
        return False
    if issubclass(a, b) or issubclass(b, a):
        return False
    if {a, b} == {dt.date, dt.datetime}:
        return True
    if a in (set, frozenset) and b in (set, frozenset):
        return False
    return True


def eq_kind(c, d):
    if unrelated(c, d):
        return None
    if c is d and (c in (str, type(None)) or issubclass(c, enum.Enum)):
        return "ident"
    if c in (int, bool) and d in (int, bool):
        return "int"
    if c in NUM and d in NUM:
        return "num"
    if {c, d} == {dt.date, dt.datetime}:
        return None
    return "eq"


def num_cat(c):
    if c in (int, bool):
        return "int"
    if c is float:
        return "float"
    if c in (str, bytes):
        return c.__name__
    if c in (dt.datetime, dt.date, dt.timedelta):
        return c.__name__
    if c in (list, tuple):
        return "seq"
    if c in (set, frozenset):
        return "set"
    if c is dict:
        return "dict"
    return "none"


def num_lit(v):
    """0 and 0.0 compare alike: numeric constants are compared as floats."""
    if isinstance(v, int) and not isinstance(v, bool) and float(v) == v:
        return float(v)
    return v


def generated(f):
    """A method generated by dataclasses."""
    return isinstance(f, types.FunctionType) and (
        f.__code__.co_filename == "<string>" or getattr(f, "__qualname__", "").startswith("__create_fn__"))
