"""Vocabulary available to specification code.

Everything here has a native meaning (used when a specification is executed by
CPython in the search / replay) and a symbolic meaning (given by the engine).
"""
from __future__ import annotations

import dataclasses
import datetime as dt
import re


def mk(cls, **fields):
    """An object of exactly this class with exactly these fields, made without running any of its code."""
    v = object.__new__(cls)
    for k, x in fields.items():
        v.__dict__[k] = x
    return v


def updated(obj, **fields):
    """A copy of obj differing only in the named fields."""
    v = object.__new__(type(obj))
    v.__dict__.update(obj.__dict__)
    v.__dict__.update(fields)
    return v


def charmap(text, table):
    """Replace every character by its image in table (itself if absent)."""
    return "".join(table.get(c, c) for c in text)


def fullmatch(pattern, text):
    return re.fullmatch(pattern, text) is not None


def naive_utc(v):
    """The same instant as a naive UTC datetime."""
    if v.tzinfo is None:
        return v
    return v.replace(tzinfo=None) - v.utcoffset()


def union_of(sets):
    out = set()
    for s in sets:
        out |= s
    return out


def reachable(root, children):
    """All nodes reachable from root (itself included) through children, in no particular order."""
    out, todo = [], [root]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(children(x))
    return out


CLOSURES = []
# methods of library objects: (class, name) -> f(engine, object, args), returning the result
FOREIGN = {}


def foreign(cls, name):
    def deco(f):
        FOREIGN[(cls, name)] = f
        return f

    return deco


def children_of(node):
    """Declare a children function for reachable(); node is the type of the nodes."""

    def deco(f):
        CLOSURES.append((f, node))
        return f

    return deco


class Rejected(Exception):
    """Raised by a specification: the code must raise a documented SDK error (any)."""


class AnyError(Rejected):
    """What a callee raises whose contract does not say which error it is."""


OPAQUE = {}


def opaque(sort, structural=False):
    """Mark a recursive specification function: inside proofs its applications stay uninterpreted
    unless the engine unfolds them; sort is the kind of its result ('str', 'bool', 'set', 'val').
    A structural one is unfolded by the engine whenever its first argument was built by the code under proof."""

    def deco(f):
        OPAQUE[f] = sort
        f.__opaque__ = sort
        f.__structural__ = structural
        return f

    return deco


class Contract:
    def __init__(self, func, spec, prop, note="", receiver=None, when=None, types=None):
        self.types = types
        self.func, self.spec, self.prop, self.note = func, spec, prop, note
        self.receiver, self.when = receiver, when


CONTRACTS: list[Contract] = []


def contract(func, receiver=None, prop=None, note="", when=None, types=None):
    """Attach specification function to a real function ('module:Qual.name'): at every call site the
    engine uses the specification instead of the body (the body is checked by a driver)."""

    def deco(spec):
        CONTRACTS.append(Contract(func, spec, prop, note, receiver, when, types))
        return spec

    return deco


class Driver:
    """One verification unit: for all inputs of the given types (satisfying requires), code and spec have
    the same outcome, and the inputs are left unchanged."""

    def __init__(self, prop, name, code, spec, inputs, requires=None, exc="class", under=None, prepare=None,
                 bounded=False, weight=1.0, split=None, unfold=None, invs=None, lemma=False, openeq=False,
                 consumes=(), returns=None):
        self.prop, self.name, self.code, self.spec = prop, name, code, spec
        self.inputs, self.requires, self.exc = inputs, requires, exc
        self.under = under or []
        self.prepare = prepare
        self.bounded = bounded
        self.weight = weight
        self.split = split
        self.consumes = tuple(consumes)     # inputs the code owns: it may modify (the lists of) them
        self.returns = returns              # type of the result that callers may rely on
        self.openeq = openeq      # == and hash() of the inputs themselves are taken apart
        self.unfold, self.invs, self.lemma = tuple(unfold or ()), tuple(invs or ()), lemma

    def __repr__(self):
        return f"{self.prop}/{self.name}"


DRIVERS: list[Driver] = []


def driver(prop, name, inputs, code=None, spec=None, **kw):
    d = Driver(prop, name, code, spec, inputs, **kw)
    DRIVERS.append(d)
    return d
