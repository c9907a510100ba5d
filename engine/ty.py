"""Type descriptions of contract inputs.

One description serves both users of a contract: the deductive engine (which
turns it into assumptions on a symbolic input) and the concrete search (which
draws values of it).  A type is a finite union of alternatives; each alternative
fixes the exact run-time class of the value.
"""
from __future__ import annotations

import datetime as _dt
from enum import Enum


class Other:
    """Stands for every class the SDK knows nothing about."""

    def __repr__(self):
        return "Other()"


class Alt:
    __slots__ = ("cls", "elem", "key", "val", "fields", "minlen", "maxlen", "consts",
                 "regex", "hint", "nonempty", "lo", "hi", "items", "name", "inv", "fix", "facts", "keys")

    def __init__(self, cls, **kw):
        self.cls = cls
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        return "Alt(%s%s)" % (self.cls.__name__, "" if not self.name else ":" + self.name)


class Ty:
    def __init__(self, alts, name=None):
        self.alts = tuple(alts)
        self.name = name

    def __or__(self, other):
        return Ty(self.alts + other.resolve().alts) if not isinstance(other, Lazy) and not isinstance(self, Lazy) \
            else LazyUnion([self, other])

    def resolve(self):
        return self

    def __repr__(self):
        return self.name or "|".join(map(repr, self.alts))


class Lazy(Ty):
    def __init__(self, name):
        self.name = name

    def resolve(self):
        return TYPES[self.name].resolve()

    @property
    def alts(self):
        return self.resolve().alts

    def __or__(self, other):
        return LazyUnion([self, other])


class LazyUnion(Lazy):
    def __init__(self, parts):
        self.parts = parts
        self.name = "|".join(str(p) for p in parts)
        self._r = None

    def resolve(self):
        if self._r is None:
            alts = []
            for p in self.parts:
                alts += list(p.resolve().alts)
            self._r = Ty(alts, self.name)
        return self._r


TYPES: dict[str, Ty] = {}


def ref(name):
    return Lazy(name)


def union(*ts):
    return LazyUnion(list(ts))


def opt(t):
    return LazyUnion([NONE, t])


NONE = Ty([Alt(type(None))], "None")
BOOL = Ty([Alt(bool)], "bool")
INT = Ty([Alt(int)], "int")
FLOAT = Ty([Alt(float)], "float")
BYTES = Ty([Alt(bytes)], "bytes")
DATE = Ty([Alt(_dt.date)], "date")
DATETIME = Ty([Alt(_dt.datetime)], "datetime")
STR = Ty([Alt(str)], "str")
OTHER = Ty([Alt(Other)], "other")


def strt(regex=None, hint=None, nonempty=False, consts=None):
    return Ty([Alt(str, regex=regex, hint=hint, nonempty=nonempty, consts=consts)], "str")


def intt(lo=None, hi=None):
    return Ty([Alt(int, lo=lo, hi=hi)], "int")


def floatt(lo=None):
    return Ty([Alt(float, lo=lo)], "float")


def enumt(cls, members=None):
    return Ty([Alt(cls, consts=tuple(members) if members else None)], cls.__name__)


def listof(t, minlen=0, maxlen=None, facts=None):
    return Ty([Alt(list, elem=t, minlen=minlen, maxlen=maxlen, facts=facts)], "list[%s]" % t)


def tupleof(t, minlen=0, maxlen=None):
    return Ty([Alt(tuple, elem=t, minlen=minlen, maxlen=maxlen)], "tuple[%s]" % t)


def seqof(t, minlen=0, maxlen=None, facts=None):
    """facts: names of opaque predicates that hold of every value of the type (each proved by a lemma driver)."""
    return Ty([Alt(list, elem=t, minlen=minlen, maxlen=maxlen, facts=facts),
               Alt(tuple, elem=t, minlen=minlen, maxlen=maxlen, facts=facts)], "seq[%s]" % t)


def fixed_tuple(*ts):
    return Ty([Alt(tuple, items=tuple(ts))], "tuple%s" % (ts,))


def fixed_list(*ts):
    return Ty([Alt(list, items=tuple(ts))], "list%s" % (ts,))


def setof(t):
    return Ty([Alt(set, elem=t, minlen=0)], "set[%s]" % t)


def dictof(k, v, minlen=0):
    return Ty([Alt(dict, key=k, val=v, minlen=minlen)], "dict")


def obj(cls_, alt_name=None, inv=None, fix=None, **fields):
    return Ty([Alt(cls_, fields=fields, name=alt_name or cls_.__name__, inv=inv, fix=fix)],
              alt_name or cls_.__name__)


class Near(Lazy):
    """Any Python value at all; generation favours values of (or near) the given type."""

    def __init__(self, t):
        self.target = t
        self.name = "near(%s)" % t
        self._r = None

    def resolve(self):
        if self._r is None:
            seen, alts = set(), []
            for a in list(self.target.resolve().alts) + list(TYPES["Any"].resolve().alts):
                if id(a) not in seen:
                    seen.add(id(a))
                    alts.append(a)
            self._r = Ty(alts, self.name)
        return self._r


class Lean(Lazy):
    """Values of a general type; generation favours those of the target (a part of it)."""

    def __init__(self, target, general):
        self.target, self.general = target, general
        self.name = "lean(%s)" % general

    def resolve(self):
        return self.general.resolve()


def lean(target, general):
    return Lean(target, general)


def near(t):
    return Near(t)


def const(*vals):
    """One of the given concrete (interned / comparable) values."""
    by = {}
    for v in vals:
        by.setdefault(type(v), []).append(v)
    return Ty([Alt(c, consts=tuple(vs)) for c, vs in by.items()], "const%r" % (vals,))
