"""Attributes, subscripts, operators, calls and built-in functions."""
from __future__ import annotations

import ast
import builtins
import contextlib
import copy
import dataclasses
import datetime as dt
import enum
import functools
import itertools
import json
import re
import types
import typing

import z3

from . import lang, regex, source
from .evalx import B, Eval, Segs, nb
from .interp import CtxV, Frame
from .lang import AnyError, FOREIGN, Rejected
from .sym import (And, BVAL, CLS, DROP, FTRUE, GETV, IDX, IVAL, Iff, Implies, Ite, LEN, MEM, NE, Not, Or, Sym,
                  Unsupported, V)
from .ty import STR, BOOL, INT, Other
from .util import *  # noqa: F401,F403
from .vals import *  # noqa: F401,F403
from .vals import POISON

CM_CODE = contextlib.contextmanager(lambda: None).__code__
STRT = STR


class Engine(Eval):
    # ------------------------------------------------------------------ attributes
    def getattr(self, v, name, default=None, has_default=False):
        if isinstance(v, U):
            return self.split(v, lambda x: self.getattr(x, name, default, has_default))
        if isinstance(v, (Poison, Tok)):
            raise Unsupported("attribute of an untracked value")
        if isinstance(v, Sym):
            return self.attr_sym(v, name, default, has_default)
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HInst):
                if name in h.fields:
                    x = h.fields[name]
                    if isinstance(x, Poison) or (isinstance(x, U) and any(isinstance(y, Poison) for _, y in x.alts)):
                        raise Unsupported("attribute %s may be unset" % name)
                    return x
                return self.class_attr(h.cls, name, v, default, has_default)
            return self.method_of(self.cls_of(v), name, v, default, has_default)
        if isinstance(v, TypeOf):
            if name == "__name__":
                return self.sym_op("clsname", [v.s], str)
            if isinstance(v.s, Sym):
                def per(c):
                    return self.getattr(c, name, default, has_default)
                return self.by_class(v.s, lambda c: c, per)
            return self.getattr(self.cls_of(v.s), name, default, has_default)
        if isinstance(v, SuperV):
            return self.super_attr(v, name)
        if isinstance(v, type):
            if name == "__name__":
                return v.__name__
            try:
                a = static(v, name)
            except AttributeError:
                if hasattr(v, name):
                    x = getattr(v, name)
                    return x
                if has_default:
                    return default
                self.throw(AttributeError)
            if isinstance(a, classmethod):
                return Bound(a.__func__, v)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, enum.property):
                return getattr(v, name)
            if issubclass(v, enum.Enum) and name in v.__members__:
                return v.__members__[name]
            return a
        if isinstance(v, (Clo, Bound)):
            if name == "__name__":
                return getattr(v, "info", None).name if isinstance(v, Clo) else v.f.__name__
            raise Unsupported("attribute %s of a function" % name)
        if isinstance(v, ExcV):
            return POISON
        if isinstance(v, (CtxV, MatchV, GenV)):
            if isinstance(v, MatchV):
                return Bound(Method(re.Match, name), v)
            raise Unsupported("attribute of %r" % v)
        if is_str(v) or is_bool(v) or is_int(v) or isinstance(v, (float, bytes, tuple, SeqV, type(None))):
            if isinstance(v, tuple) and hasattr(type(v), "_fields") and name in type(v)._fields:
                return getattr(v, name)
            return self.method_of(self.cls_of(v), name, v, default, has_default)
        # a real Python object (module, module-level instance, regular expression, enum member, ...)
        if isinstance(v, types.ModuleType):
            if not hasattr(v, name):
                if has_default:
                    return default
                self.throw(AttributeError)
            return getattr(v, name)
        if isinstance(v, enum.Enum) and name in ("value", "name", "_value_", "_name_"):
            return getattr(v, name)
        if isinstance(v, (list, dict, set, frozenset, re.Pattern, dt.date, dt.timedelta)):
            return self.method_of(type(v), name, v, default, has_default)
        if type(v).__module__.startswith("engine"):
            raise Unsupported("attribute %s of %s" % (name, type(v).__name__))
        d = getattr(v, "__dict__", {})
        if not isinstance(v, types.FunctionType) and name in d:
            return d[name]
        if isinstance(v, dataclasses.Field) or isinstance(v, types.FunctionType):
            return getattr(v, name)
        return self.class_attr(type(v), name, v, default, has_default)

    def method_of(self, cls, name, v, default=None, has_default=False):
        if not hasattr(cls, name):
            if has_default:
                return default
            self.throw(AttributeError)
        if name == "__class__":
            return cls
        return Bound(Method(cls, name), v)

    def class_attr(self, cls, name, v, default=None, has_default=False):
        if name == "__class__":
            return cls
        if name == "__dict__":
            raise Unsupported("__dict__")
        try:
            a = static(cls, name)
        except AttributeError:
            ga = getattr(cls, "__getattr__", None)
            if ga is not None:
                return self.call(Bound(ga, v), [name], {})
            if has_default:
                return default
            self.throw(AttributeError)
        if isinstance(a, property):
            return self.call(Bound(a.fget, v), [], {})
        if isinstance(a, functools.cached_property):
            return self.call(Bound(a.func, v), [], {})
        if isinstance(a, classmethod):
            return Bound(a.__func__, cls)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, types.FunctionType):
            return Bound(a, v)
        if isinstance(a, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return Bound(Method(cls, name), v)
        if isinstance(a, (types.MemberDescriptorType, types.GetSetDescriptorType)) and not (
                a.__objclass__.__module__ or "").startswith(("snuba_sdk", "contracts")):
            if a.__objclass__ in (dt.timedelta, dt.date, dt.datetime) and name != "tzinfo":
                return self.sym_op("attr_" + name, [v], int)
            raise Unsupported("attribute %s.%s" % (cls.__name__, name))
        if isinstance(a, types.MemberDescriptorType):
            if has_default:
                return default
            self.throw(AttributeError)
        if isinstance(a, enum.property):
            return self.w.sym(self.w.field(self.reify(v), name))
        return a

    def super_attr(self, v, name):
        obj = v.obj
        cls = self.get(obj).cls if isinstance(obj, Ref) else obj.classes()[0] if isinstance(obj, Sym) else type(obj)
        mro = cls.__mro__
        for c in mro[mro.index(v.cls) + 1:]:
            if name in c.__dict__:
                a = c.__dict__[name]
                if isinstance(a, types.FunctionType):
                    return Bound(a, obj)
                if isinstance(a, property):
                    return self.call(Bound(a.fget, obj), [], {})
                if isinstance(a, classmethod):
                    return Bound(a.__func__, cls)
                if isinstance(a, staticmethod):
                    return a.__func__
                return Bound(Method(c, name), obj)
        self.throw(AttributeError)

    def attr_sym(self, v, name, default, has_default):
        w = self.w

        def key(c):
            if any(a.cls is c and a.fields is not None and name in a.fields for _, a in v.alts):
                return ("field", None)
            if issubclass(c, enum.Enum) and name in ("value", "name"):
                return ("enum", None)
            if name == "__class__":
                return ("class", None)
            if c is dt.datetime and name == "tzinfo":
                return ("tz", None)
            if c in (int, float, str, bytes, list, tuple, set, frozenset, dict, bool, type(None), dt.date, dt.datetime):
                if hasattr(c, name):
                    return ("static", c) if isinstance(static(c, name), types.GetSetDescriptorType) else ("builtin", c)
                return ("none", None)
            if c is Other:
                return ("none", None)
            for k in c.__mro__:
                if name in k.__dict__:
                    return ("static", k)
            return ("none", None)

        groups = {}
        for c in v.classes():
            kk = key(c)
            groups.setdefault(kk, []).append(c)

        def per(k):
            if k[0] == "field":
                return w.fieldsym(v, name)[1]
            if k[0] == "enum":
                t = w.field(v.term, name)
                s = w.sym(t)
                for c in groups[k]:
                    w.enum_members(c)
                    w.declare(s, CLS(v.term) == w.cid(c), STR)
                return s
            if k[0] == "class":
                return TypeOf(v)
            if k[0] == "tz":
                return w.sym(w.field(v.term, "tzinfo"), TZ)
            if k[0] == "builtin":
                return Bound(Method(k[1], name), v)
            if k[0] == "none":
                if has_default:
                    return default
                self.throw(AttributeError)
            cs = groups[k]
            return self.class_attr_sym(cs, k[1], name, v)

        if not groups:
            raise Unsupported("attribute %s of a value of unknown class" % name)
        if len(groups) == 1:
            return per(next(iter(groups)))
        return self.fork([(self.class_guard(v, cs), k) for k, cs in groups.items()], per)

    def class_attr_sym(self, cs, owner, name, v):
        a = owner.__dict__[name]
        if isinstance(a, classmethod):
            if len(cs) == 1:
                return Bound(a.__func__, cs[0])
            raise Unsupported("class method of a symbolic object")
        return self.class_attr(owner, name, v)

    def setattr(self, o, name, v):
        if isinstance(o, U):
            self.split(o, lambda x: self.setattr(x, name, v))
            return
        if isinstance(o, Ref) and isinstance(self.get(o), HInst):
            h = self.get(o)
            f = h.cls.__setattr__
            if f is not object.__setattr__:
                if generated(f) or getattr(h.cls, "__dataclass_params__", None) and h.cls.__dataclass_params__.frozen:
                    self.throw(dataclasses.FrozenInstanceError)
                self.call(Bound(f, o), [name, v], {})
                return
            self.raw_set(o, name, v)
            return
        if isinstance(o, Sym) and o.alts and all(
                isinstance(c, type) and getattr(c, "__dataclass_params__", None) is not None
                and c.__dataclass_params__.frozen and generated(c.__setattr__) for c in o.classes()):
            self.throw(dataclasses.FrozenInstanceError)
        self.write(o, "attribute " + name)

    def raw_set(self, o, name, v):
        if isinstance(o, Ref) and isinstance(self.get(o), HInst):
            h = self.get(o)
            self.put(o, HInst(h.cls, {**h.fields, name: v}))
            return
        if isinstance(o, Sym) and all(name in (a.fields or ()) for _, a in o.alts):
            from .equal import Equal
            q = Equal(self, None)
            try:
                if q.possible(lambda: q.eq(self.w.fieldsym(o, name)[1], v, self.pc)):
                    return          # the field already has this value
            except Unsupported:
                pass
        self.write(o, "attribute " + name)

    def write(self, o, what):
        """A write to something that existed before the call: a frame violation."""
        if isinstance(o, Ref):
            raise Unsupported("%s of an object of the call" % what)
        self.frame_writes.append(("%s of %s at %s" % (what, o, self.where), self.pc))
        raise Dead

    # ------------------------------------------------------------------ sequences
    def ordered(self, v):
        """The elements of v for a consumer that may see their order: those of a set come in one of two opposite
        orders (which one is unknown), equal ones only once."""
        segs = self.segs_of(v)
        if len(segs) < 2 or not (isinstance(v, (set, frozenset)) or isinstance(v, Ref) and isinstance(self.get(v), HSet)):
            return segs
        if all(isinstance(s, One) and isinstance(s.v, type) for s in segs):
            return segs
        out = []
        for s in segs:
            if isinstance(s, One):
                twins = [And(t.g, self.eq(t.v, s.v)) for t in out if isinstance(t, One)]
                g = Not(Or(*twins))
                if g is False:
                    continue
                s = guard_seg(s, g)
            out.append(s)
        if len(out) < 2:
            return out
        b = self.w.fresh("order", z3.BoolSort())
        return [guard_seg(s, b) for s in out] + [guard_seg(s, Not(b)) for s in reversed(out)]

    def segs_of(self, v):
        if isinstance(v, U):
            out = []
            r = self.fork(v.alts, lambda x: Segs(self.segs_of(x)))
            if isinstance(r, U):
                for g, s in r.alts:
                    out += [guard_seg(x, g) for x in s.segs]
                return out
            return list(r.segs)
        if isinstance(v, (tuple, list)):
            return [One(True, x) for x in v]
        if isinstance(v, (set, frozenset)):
            return [One(True, x) for x in sorted(v, key=repr)]
        if isinstance(v, (dict, types.MappingProxyType)):
            return [One(True, x) for x in v]
        if isinstance(v, str):
            return [One(True, x) for x in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [One(True, x) for x in v]
        if isinstance(v, range):
            return [One(True, x) for x in v]
        if isinstance(v, SeqV):
            return list(v.segs)
        if isinstance(v, GenV):
            return list(self.force(v).segs)
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HList):
                return list(h.segs)
            if isinstance(h, HSet):
                return [Map(s.g, s.src, s.e, s.segs, True) if isinstance(s, Map) else s for s in h.segs]
            if isinstance(h, HDict):
                return self.dict_view(h, "keys")
            f = getattr(h.cls, "__iter__", None)
            if f is not None:
                return self.segs_of(self.call(Bound(f, v), [], {}))
            self.throw(TypeError)
        if isinstance(v, RangeLen):
            return self.range_segs(v)
        if isinstance(v, Enumer):
            return self.enum_segs(v)
        if isinstance(v, Sym):
            return self.sym_segs(v)
        if isinstance(v, SStr):
            t = self.reify(v)
            s = self.w.sym(t, STR)
            return self.sym_segs(s)
        if isinstance(v, (Poison, Tok)):
            raise Unsupported("iteration over an untracked value")
        if isinstance(v, (int, float, bool, type(None), enum.Enum)) or z3.is_expr(v):
            self.throw(TypeError)
        raise Unsupported("iteration over %r" % (v,))

    ITER = (list, tuple, set, frozenset, dict, str, bytes)

    def owned(self, v):
        """The value as the code's own: its lists may be modified."""
        if not isinstance(v, Sym) or list not in v.classes():
            return v
        out = []
        for c in v.classes():
            if c is not list:
                out.append((self.class_guard(v, [c]), v))
        for g, a in v.alts:
            if a.cls is not list:
                continue
            if a.items is not None:
                segs = [One(True, self.owned(self.item_sym(v, i))) for i in range(len(a.items))]
            else:
                segs = [self.elem_map(v, v.term)]
            out.append((self.w.guard(v, g, a), self.alloc(HList(segs))))
        out = [(g, x) for g, x in out if self.feasible(g)]
        return out[0][1] if len(out) == 1 else U(out)

    def sym_segs(self, v):
        w = self.w
        its = [c for c in v.classes() if c not in self.ITER and isinstance(c.__dict__.get("__iter__"), types.FunctionType)]
        if its and len(its) == len(v.classes()) == 1:
            return self.segs_of(self.call(Bound(its[0].__iter__, v), [], {}))
        bad = [c for c in v.classes() if c not in self.ITER]
        for c in bad:
            if c is Other:
                continue
            if hasattr(c, "__iter__") and not issubclass(c, enum.Enum):
                raise Unsupported("iteration over %s" % c.__name__)
        if bad:
            self.raise_if(self.class_guard(v, bad), TypeError)
        items = [a.items for _, a in v.alts if a.cls in self.ITER and a.items is not None]
        if items and all(a.items is not None for _, a in v.alts if a.cls in self.ITER):
            if len({len(i) for i in items}) == 1:
                return [One(True, self.item_sym(v, i)) for i in range(len(items[0]))]
        if not any(c in self.ITER for c in v.classes()):
            raise Dead
        if items:
            fixed = [(self.w.guard(v, g, a), a.items) for g, a in v.alts if a.cls in self.ITER and a.items is not None]
            rest = [self.w.guard(v, g, a) for g, a in v.alts if a.cls in self.ITER and a.items is None]
            fixed = [(g, it) for g, it in fixed if self.feasible(g)]
            rest = [g for g in rest if self.feasible(g)]
            out = []
            for i in range(max([len(it) for _, it in fixed], default=0)):
                out.append(One(Or(*[g for g, it in fixed if len(it) > i]), self.item_sym(v, i)))
            if rest:
                m = self.elem_map(v, v.term)
                out.append(m if not fixed else Map(Or(*rest), m.src, m.e, m.segs, m.unord))
            return out
        return [self.elem_map(v, v.term)]

    def item_sym(self, v, i):
        t = IDX(v.term, i)
        s = self.w.sym(t)
        for g, a in v.alts:
            if a.items is not None and i < len(a.items):
                self.w.declare(s, self.w.guard(v, g, a), a.items[i])
        return s

    def elem_map(self, v, src):
        w = self.w
        e = w.elemvar(src)
        w.source(src)
        if not src.eq(v.term) and ("sub", src) not in w.seen_src:
            w.seen_src.add(("sub", src))
            x = w.bound("d")
            w.axiom(z3.ForAll([x], z3.Implies(MEM(src, x), MEM(v.term, x)), patterns=[MEM(src, x)]))
        w.open(e, MEM(src, e))
        s = w.sym(e)
        for g, ty in w.elem_types(v):
            if not isinstance(ty, tuple):
                w.declare(s, g, ty)
        w.close()
        return Map(True, src, e, [One(True, s)], any(a.cls in (set, frozenset) for _, a in v.alts))

    def elem_at(self, v, t, cond=True):
        """Symbol for an element t of symbolic collection v."""
        s = self.w.sym(t)
        for g, ty in self.w.elem_types(v):
            if isinstance(ty, tuple):
                continue
            self.w.declare(s, And(g, cond), ty)
        return s

    def single_map(self, v):
        """The only segment of a collection that is a plain image of one source, or None."""
        segs = self.segs_of(v)
        if len(segs) == 1 and isinstance(segs[0], Map) and len(segs[0].segs) == 1 and isinstance(
                segs[0].segs[0], One) and segs[0].segs[0].g is True and segs[0].g is True:
            return segs[0]
        return None

    def range_segs(self, v):
        m = self.single_map(v.seq)
        if m is None:
            raise Unsupported("positions of a composed sequence")
        if v.start == 0:
            src = m.src
        elif v.start == 1:
            src = DROP(m.src)
            m = self.drop_map(m)
        else:
            raise Unsupported("range from %r" % (v.start,))
        ix = Index(m.src, m.e, v.start)
        ix.val = m.segs[0].v
        ix.base = v.seq
        return [Map(True, m.src, m.e, [One(True, ix)])]

    def drop_map(self, m):
        """The image of the sequence without its first element."""
        w = self.w
        src = DROP(m.src)
        if ("drop", src) not in w.seen_src:
            w.seen_src.add(("drop", src))
            x = w.bound("d")
            w.axiom(z3.ForAll([x], z3.Implies(MEM(src, x), MEM(m.src, x)), patterns=[MEM(src, x)]))
            y = w.bound("d")
            w.axiom(z3.ForAll([y], z3.Implies(MEM(m.src, y), z3.Or(MEM(src, y), y == IDX(m.src, 0))),
                              patterns=[MEM(m.src, y)]))
            w.axiom(z3.And(NE(src) == (LEN(m.src) > 1), z3.Implies(NE(m.src), LEN(src) == LEN(m.src) - 1)))
        w.source(src)
        return Map(m.g, src, m.e, m.segs, m.unord)

    def derived_map(self, m, name, exact):
        """The image of another sequence of elements of the source: all of them in some order, or some of them."""
        w = self.w
        src = w.uf(name, V, V)(m.src)
        if ("derived", src) not in w.seen_src:
            w.seen_src.add(("derived", src))
            x = w.bound("d")
            w.axiom(z3.ForAll([x], z3.Implies(MEM(src, x), MEM(m.src, x)), patterns=[MEM(src, x)]))
            if exact:
                y = w.bound("d")
                w.axiom(z3.ForAll([y], z3.Implies(MEM(m.src, y), MEM(src, y)), patterns=[MEM(m.src, y)]))
                w.axiom(z3.And(NE(src) == NE(m.src), LEN(src) == LEN(m.src)))
        w.source(src)
        return Map(m.g, src, m.e, m.segs, m.unord)

    def reversed_segs(self, segs):
        out = []
        for s in reversed(list(segs)):
            if isinstance(s, Map):
                m = self.derived_map(s, "reversed", True)
                s = Map(m.g, m.src, m.e, self.reversed_segs(m.segs), m.unord)
            elif not isinstance(s, One):
                raise Unsupported("reversed")
            out.append(s)
        return out

    def slice_segs(self, segs, lo, hi):
        if lo in (None, 0) and hi is None:
            return segs
        if all(isinstance(s, One) and s.g is True for s in segs):
            return segs[lo:hi]
        if lo == 1 and hi is None:
            return self.drop_segs(segs)
        m = segs[0] if len(segs) == 1 and isinstance(segs[0], Map) else None
        if m is None or len(m.segs) != 1 or not isinstance(m.segs[0], One) or m.segs[0].g is not True or not all(
                x is None or type(x) is int for x in (lo, hi)):
            raise Unsupported("slice")
        d = self.derived_map(m, "slice_%s_%s" % (lo, hi), False)
        n, l = LEN(m.src), LEN(d.src)
        pos = lambda x, dflt: dflt if x is None else z3.If(n < x, n, x) if x >= 0 else z3.If(n + x > 0, n + x, 0)  # noqa
        a, b = pos(lo, 0), pos(hi, n)
        self.w.axiom(And(n >= 0, NE(m.src) == (n > 0), l == z3.If(b - a > 0, b - a, 0), NE(d.src) == (l > 0)))
        return [d]

    def drop_segs(self, segs):
        if len(segs) == 1 and isinstance(segs[0], Map) and len(segs[0].segs) == 1:
            return [self.drop_map(segs[0])]
        if segs and isinstance(segs[0], One) and segs[0].g is True:
            return segs[1:]
        raise Unsupported("tail of a composed sequence")

    def enum_segs(self, v):
        segs = self.ordered(v.seq)
        if all(isinstance(s, One) and s.g is True for s in segs):
            return [One(True, (v.start + i, s.v)) for i, s in enumerate(segs)]
        m = self.single_map(v.seq)
        if m is None or v.start != 0:
            raise Unsupported("enumerate over a composed sequence")
        ix = Index(m.src, m.e, 0)
        ix.val = m.segs[0].v
        ix.base = v.seq
        return [Map(True, m.src, m.e, [One(True, (ix, m.segs[0].v))])]

    def length(self, v):
        if isinstance(v, U):
            return self.split(v, self.length)
        if isinstance(v, (tuple, list, dict, set, frozenset, str, bytes)):
            return len(v)
        if isinstance(v, Sym):
            bad = [c for c in v.classes() if c not in self.ITER]
            if bad:
                self.raise_if(self.class_guard(v, bad), TypeError)
            self.w.axiom(And(LEN(v.term) >= 0, Iff(NE(v.term), LEN(v.term) > 0)))
            return LenV(v, LEN(v.term))
        if isinstance(v, SStr):
            return LenV(v, LEN(self.reify(v)))
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, (HList,)):
                if any(isinstance(s, TokSeg) for s in h.segs):
                    return self.w.fresh("unknown_len", z3.IntSort())
                return LenV(v, self.count(h.segs)) if not all(
                    isinstance(s, One) and s.g is True for s in h.segs) else len(h.segs)
            if isinstance(h, HSet):
                return self.set_len(v, h)
            if isinstance(h, HDict):
                if not h.segs and h.base is None:
                    if all(g is True for g, _, _ in h.entries):
                        return len(h.entries)
                    return LenV(v, sum_([Ite(g, z3.IntVal(1), z3.IntVal(0)) for g, _, _ in h.entries]))
                n = self.w.fresh("dlen", z3.IntSort())
                self.w.axiom(And(n >= 0, Iff(n > 0, self.truth(v))))
                return LenV(v, n)
            f = getattr(h.cls, "__len__", None)
            if f is not None:
                return self.call(Bound(f, v), [], {})
        if isinstance(v, SeqV) and v.kind == "tuple":
            return LenV(v, self.count(v.segs))
        if isinstance(v, (int, float, bool, type(None), enum.Enum)) or z3.is_expr(v):
            self.throw(TypeError)
        raise Unsupported("len of %r" % (v,))

    def set_len(self, v, h):
        if not h.segs:
            return 0
        if len(h.segs) == 1 and isinstance(h.segs[0], One):
            g = h.segs[0].g
            return 1 if g is True else LenV(v, z3.If(g, z3.IntVal(1), z3.IntVal(0)))
        if all(isinstance(s, One) for s in h.segs) and all(concrete(s.v) for s in h.segs):
            by = {}
            for s in h.segs:
                by.setdefault(dkey(s.v), []).append(s.g)
            gs = [Or(*x) for x in by.values()]
            if all(g is True for g in gs):
                return len(gs)
            return LenV(v, sum_([z3.IntVal(1) if g is True else z3.If(g, z3.IntVal(1), z3.IntVal(0)) for g in gs]))
        n = self.w.fresh("setlen", z3.IntSort())
        self.w.axiom(And(n >= 0, Iff(n > 0, self.truth(v))))
        # the same set as an earlier one: the same size
        if self.w.scopes:
            self.many(h.segs, n)
        else:
            for rec in self.setlens:
                if self.agrees(self.alloc(HSet(rec[0])), v):
                    self.w.axiom(Implies(And(*self.pc), n == rec[1]))
                    rec[2] = True
                    return LenV(v, n)
            self.setlens.append([h.segs, n, False])
        return LenV(v, n)

    def many(self, segs, n):
        """More than one element: two unequal members."""
        self.w.axiom(Iff(n > 1, self.any_seg(segs, lambda a: self.any_seg(segs, lambda b: Not(self.eq(a, b))))))

    def finish_sets(self):
        for rec in self.setlens:
            if not rec[2]:
                rec[2] = True
                self.many(rec[0], rec[1])

    def count(self, segs):
        out = []
        for s in segs:
            if isinstance(s, One):
                out.append(z3.IntVal(1) if s.g is True else z3.If(s.g, z3.IntVal(1), z3.IntVal(0)))
            elif isinstance(s, Map):
                if len(s.segs) == 1 and isinstance(s.segs[0], One) and s.segs[0].g is True and not s.unord:
                    self.w.axiom(And(LEN(s.src) >= 0, Iff(NE(s.src), LEN(s.src) > 0)))
                    n = LEN(s.src)
                else:
                    n = self.w.fresh("count", z3.IntSort())
                    self.w.axiom(And(n >= 0, Iff(n > 0, self.segs_nonempty([Map(True, s.src, s.e, s.segs)]))))
                out.append(n if s.g is True else z3.If(s.g, n, z3.IntVal(0)))
            else:
                raise Unsupported("length of a loop-carried sequence")
        return sum_(out)

    def getitem(self, v, k):
        if isinstance(v, U):
            return self.split(v, lambda x: self.getitem(x, k))
        if isinstance(k, U) and not isinstance(v, (dict,)):
            return self.split(k, lambda x: self.getitem(v, x))
        if isinstance(k, Index):
            return self.index_item(v, k)
        if isinstance(v, (tuple, list, str)) and isinstance(k, int):
            if not -len(v) <= k < len(v):
                self.throw(IndexError)
            return v[k]
        if isinstance(v, types.MappingProxyType):
            v = dict(v)
        if isinstance(v, dict):
            if concrete(k):
                if k in v:
                    return v[k]
                self.throw(KeyError)
            return self.table_get(list(v.items()), k)
        if isinstance(v, type) or isinstance(v, typing._SpecialForm) or hasattr(v, "__origin__"):
            if isinstance(v, type) and issubclass(v, enum.Enum):
                ms = [(n, m) for n, m in v.__members__.items()]
                return self.table_get(ms, k)
            return v
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HList):
                return self.list_item(v, list(h.segs), k)
            if isinstance(h, HDict):
                return self.dict_item(v, h, k)
            f = getattr(h.cls, "__getitem__", None)
            if f is not None:
                return self.call(Bound(f, v), [k], {})
        if isinstance(v, SeqV):
            return self.list_item(v, list(v.segs), k)
        if isinstance(v, Sym):
            def per(kind):
                if kind == "seq":
                    if not is_int(k):
                        if isinstance(k, Sym):
                            raise Unsupported("symbolic index")
                        self.throw(TypeError)
                    if not isinstance(k, int):
                        raise Unsupported("symbolic index")
                    items = [a.items for _, a in v.alts if a.items is not None]
                    self.raise_if(LEN(v.term) <= k if k >= 0 else LEN(v.term) < -k, IndexError)
                    t = IDX(v.term, k)
                    if items:
                        return self.item_sym(v, k if k >= 0 else len(items[0]) + k)
                    self.w.source(v.term)
                    g = self.class_guard(v, [c for c in v.classes() if c in (list, tuple)])
                    self.w.axiom(Implies(And(g, LEN(v.term) > k if k >= 0 else LEN(v.term) >= -k), MEM(v.term, t)))
                    return self.elem_at(v, t)
                if kind == "dict":
                    return self.symdict_item(v, k)
                if kind == "str":
                    if not isinstance(k, int) or not all(c is str for c in v.classes() if c in (str, bytes)):
                        raise Unsupported("character of a string")
                    self.raise_if(LEN(v.term) <= k if k >= 0 else LEN(v.term) < -k, IndexError)
                    return self.sym_op("char_%d" % k, [v], str)
                self.throw(TypeError)
            return self.by_class(v, lambda c: "seq" if c in (list, tuple) else "dict" if c is dict else "str" if c in (
                str, bytes) else "bad", per)
        if isinstance(v, (type(None), bool, int, float, enum.Enum)) or z3.is_expr(v):
            self.throw(TypeError)
        if isinstance(v, MatchV):
            raise Unsupported("match group")
        raise Unsupported("subscript of %r" % (v,))

    def index_item(self, v, k):
        m = self.single_map(v)
        if m is not None and m.e.eq(k.e) and (m.src.eq(k.src) or DROP(m.src).eq(k.src)):
            return m.segs[0].v
        if m is not None and (m.src.eq(k.src) or DROP(m.src).eq(k.src)):
            return self.subst(m.segs[0].v, [(m.e, k.e)])
        raise Unsupported("index into another sequence")

    def list_item(self, v, segs, k):
        if not isinstance(k, int) or isinstance(k, bool):
            raise Unsupported("symbolic index")
        if k >= 0:
            pre = segs[:k + 1]
            if len(pre) == k + 1 and all(isinstance(s, One) and s.g is True for s in pre):
                return pre[k].v
        else:
            post = segs[k:]
            if len(post) == -k and all(isinstance(s, One) and s.g is True for s in post):
                return post[0].v
        if all(isinstance(s, One) and s.g is True for s in segs):
            self.throw(IndexError)
        if k == 0 and len(segs) == 1 and isinstance(segs[0], Map) and len(segs[0].segs) == 1 and isinstance(
                segs[0].segs[0], One) and segs[0].segs[0].g is True:
            m = segs[0]
            self.w.source(m.src)
            self.raise_if(Not(And(m.g, NE(m.src))), IndexError)
            return self.subst(m.segs[0].v, [(m.e, IDX(m.src, 0))])
        if all(isinstance(s, One) for s in segs) and k in (0, -1):
            order = segs if k == 0 else segs[::-1]
            none = And(*[Not(s.g) for s in order])
            self.raise_if(none, IndexError)
            alts, seen = [], []
            for s in order:
                alts.append((And(s.g, *[Not(x) for x in seen]), s.v))
                seen.append(s.g)
            return merge(alts)
        raise Unsupported("index into a composed list")

    def table_get(self, items, k, default=None, has_default=False):
        alts, none = [], []
        for kk, x in items:
            c = self.eq(k, kk)
            if c is False:
                continue
            alts.append((And(c, *none), x))
            none.append(Not(c))
        miss = And(*none)
        if has_default:
            if miss is not False:
                alts.append((miss, default))
        else:
            self.raise_if(miss, KeyError)
        if not alts:
            raise Dead
        alts = [(g, x) for g, x in alts if g is not False and self.feasible(g)]
        return merge(alts)

    def dict_item(self, v, h, k, default=None, has_default=False):
        if len(h.segs) == 1 and isinstance(h.segs[0], TokSeg) and isinstance(h.segs[0].tok, LookTok) and not h.entries:
            tok = h.segs[0].tok
            tok.keys.append(k)
            if has_default:
                return merge([(tok.present, tok.value), (Not(tok.present), default)])
            self.raise_if(Not(tok.present), KeyError)
            return tok.value
        if not h.segs and h.base is None:
            for g, kk, x in h.entries:
                if same(kk, k) and g is True:
                    return x
            alts, none = [], []
            for g, kk, x in h.entries:
                c = And(g, self.eq(k, kk))
                if c is False:
                    continue
                alts.append((And(c, *none), x))
                none.append(Not(c))
            miss = And(*none)
            if has_default:
                if miss is not False:
                    alts.append((miss, default))
            else:
                self.raise_if(miss, KeyError)
            alts = [(g, x) for g, x in alts if g is not False and self.feasible(g)]
            if not alts:
                raise Dead
            return merge(alts)
        if not h.entries and h.segs and h.base is None:
            # lookup in a dict built from pairs: some pair with an equal key provides the value
            has = self.any_seg(h.segs, lambda kv: self.eq(k, kv[0]))
            if has_default:
                return self.fork([(has, True), (Not(has), False)],
                                 lambda t: self.pair_value(h.segs, k, has) if t else default)
            self.raise_if(Not(has), KeyError)
            return self.pair_value(h.segs, k, has)
        if h.base is not None and not h.segs:
            hit = Or(*[And(g, self.eq(k, kk)) for g, kk, _ in h.entries])
            return self.fork([(hit, 1), (Not(hit), 0)], lambda t: self.dict_item(
                v, HDict(h.entries), k) if t else self.symdict_item(h.base, k, default, has_default))
        raise Unsupported("lookup in a composed dict")

    def pair_value(self, segs, k, has):
        """Value of an (unspecified) pair whose key equals k; has: there is one."""
        alts = []
        for s in segs:
            alts += self.pair_alts(s, k, True, [])
        # which pair is unknown: some choice among the possible ones (Skolem functions of the elements in scope)
        out, none = [], []
        for i, (c, x) in enumerate(alts):
            ch = And(*none) if i == len(alts) - 1 else And(self.w.fresh("choice", z3.BoolSort()), *none)
            out.append((ch, x))
            self.w.axiom(Implies(And(has, ch), c))
            none.append(Not(ch))
        return merge(out)

    def pair_alts(self, s, k, g, subst):
        if isinstance(s, One):
            key, x = s.v
            if subst:
                key, x = self.subst(key, subst), self.subst(x, subst)
                g2 = self.subst_f(s.g, subst)
            else:
                g2 = s.g
            return [(And(g, g2, self.eq(k, key)), x)]
        if isinstance(s, Map):
            m = self.rescope(s)
            self.w.source(m.src)
            f = self.w.fresh("pick", V)
            sub = subst + [(m.e, f)]
            src = z3.substitute(m.src, *subst) if subst else m.src
            mg = self.subst_f(m.g, subst) if subst else m.g
            out = []
            for x in m.segs:
                out += self.pair_alts(x, k, And(g, mg, MEM(src, f)), sub)
            return out
        raise Unsupported("lookup in a loop-carried dict")

    def symdict_item(self, v, k, default=None, has_default=False):
        t = self.reify(k)
        has = MEM(v.term, t)
        x = self.w.sym(GETV(v.term, t))
        for g, a in v.alts:
            if a.cls is dict and a.keys is not None:
                if not isinstance(k, str):
                    raise Unsupported("computed key of a record")
                self.w.declare(x, And(self.w.guard(v, g, a), has), a.keys.get(k, a.val))
            elif a.cls is dict and a.val is not None:
                self.w.declare(x, And(self.w.guard(v, g, a), has), a.val)
        if has_default:
            return self.fork([(has, 1), (Not(has), 0)], lambda t: x if t else default)
        self.raise_if(Not(has), KeyError)
        return x

    def dict_view(self, h, kind):
        def pick(k, x):
            return k if kind == "keys" else x if kind == "values" else (k, x)
        out = [One(g, pick(k, x)) for g, k, x in h.entries]
        if h.segs and all(isinstance(s, One) for s in h.segs):
            # the pairs in the order of insertion: a repeated key keeps its place and gets the later value
            segs = [One(g, (k, x)) for g, k, x in h.entries] + list(h.segs)
            out = []
            for i, s in enumerate(segs):
                k, x = s.v
                first = And(s.g, *[Not(And(t.g, self.eq(t.v[0], k))) for t in segs[:i]])
                for t in segs[i + 1:]:
                    g = And(t.g, self.eq(t.v[0], k))
                    x = merge([(g, t.v[1]), (Not(g), x)])
                if first is not False:
                    out.append(One(first, pick(k, x)))
        elif h.segs:
            if h.entries or len(h.segs) != 1:
                raise Unsupported("view of a composed dict")
            (s,) = h.segs
            if not isinstance(s, Map):
                raise Unsupported("view of a loop-carried dict")
            if len(s.segs) != 1 or not isinstance(s.segs[0], One):
                raise Unsupported("view of a composed dict")
            k, x = s.segs[0].v
            plain = isinstance(k, Sym) and k.term.eq(s.e)
            if not plain and kind != "keys":
                raise Unsupported("view of a dict whose keys may repeat")
            out = [Map(s.g, s.src, s.e, [One(s.segs[0].g, pick(k, x))], s.unord or not (plain and s.src in self.w.distinct))]
        if h.base is not None:
            if h.entries:
                raise Unsupported("view of a modified dict copy")
            out += self.symdict_view(h.base, kind)
        return out

    def symdict_view(self, v, kind):
        if kind != "keys" and any(a.keys is not None for _, a in v.alts):
            raise Unsupported("values of a record")
        m = self.elem_map(v, v.term)
        w = self.w
        w.open(m.e, MEM(m.src, m.e))
        x = w.sym(GETV(v.term, m.e))
        for g, a in v.alts:
            if a.cls is dict and a.val is not None:
                w.declare(x, w.guard(v, g, a), a.val)
        w.close()
        k = m.segs[0].v
        if v.classes() == [dict]:
            w.distinct.add(m.src)
        return [Map(True, m.src, m.e, [One(True, k if kind == "keys" else x if kind == "values" else (k, x))])]

    def setitem(self, o, k, v):
        if isinstance(o, U):
            self.split(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(o, Ref) and isinstance(self.get(o), HDict):
            h = self.get(o)
            if isinstance(k, U):
                if all(concrete(x) for _, x in k.alts):
                    self.fork(k.alts, lambda x: self.setitem(o, x, v))
                    return
            if concrete(k):
                if any(not concrete(kk) for _, kk, _ in h.entries) or h.segs:
                    if any(isinstance(s, TokSeg) for s in h.segs) or h.segs:
                        self.put(o, HDict(h.entries, h.segs + (One(True, (k, v)),), h.base))
                        return
                ents = list(h.entries)
                for i, (g, kk, x) in enumerate(ents):
                    if dkey(kk) == dkey(k):
                        ents[i] = (True, kk, v)
                        break
                else:
                    ents.append((True, k, v))
                self.put(o, HDict(ents, h.segs, h.base))
                return
            if h.base is not None:
                raise Unsupported("symbolic key into a dict copy")
            segs = [One(g, (kk, x)) for g, kk, x in h.entries] + list(h.segs)
            self.put(o, HDict([], segs + [One(True, (k, v))], None))
            return
        if isinstance(o, Ref) and isinstance(self.get(o), HList) and isinstance(k, int):
            h = self.get(o)
            if all(isinstance(s, One) and s.g is True for s in h.segs) and -len(h.segs) <= k < len(h.segs):
                segs = list(h.segs)
                segs[k] = One(True, v)
                self.put(o, HList(segs))
                return
            raise Unsupported("assignment into a composed list")
        if isinstance(o, Ref) and isinstance(self.get(o), HList):
            raise Unsupported("assignment at a symbolic position")
        if isinstance(o, Ref) and isinstance(self.get(o), HSet):
            self.throw(TypeError)
        if isinstance(o, Ref) and isinstance(self.get(o), HInst):
            f = getattr(self.get(o).cls, "__setitem__", None)
            if f is not None:
                self.call(Bound(f, o), [k, v], {})
                return
        self.write(o, "item")

    def delitem(self, o, k):
        if isinstance(o, Ref) and isinstance(self.get(o), HDict) and concrete(k):
            h = self.get(o)
            if not h.segs and h.base is None:
                hit = Or(*[g for g, kk, _ in h.entries if dkey(kk) == dkey(k)])
                self.raise_if(Not(hit), KeyError)
                h = self.get(o)
                self.put(o, HDict([e for e in h.entries if dkey(e[1]) != dkey(k)]))
                return
        if isinstance(o, Ref):
            raise Unsupported("del item")
        self.write(o, "item")

    def dict_update(self, d, other):
        if isinstance(other, U):
            self.split(other, lambda x: self.dict_update(d, x))
            return
        if isinstance(other, dict):
            for k, x in other.items():
                self.setitem(d, k, x)
            return
        if isinstance(other, Ref) and isinstance(self.get(other), HDict):
            h = self.get(other)
            if h.segs or h.base is not None:
                cur = self.get(d)
                if not cur.entries and not cur.segs and cur.base is None:
                    self.put(d, HDict(h.entries, h.segs, h.base))
                    return
                raise Unsupported("update with a composed dict")
            for g, k, x in h.entries:
                if g is True:
                    self.setitem(d, k, x)
                else:
                    self.fork([(g, 1), (Not(g), 0)], lambda t: self.setitem(d, k, x) if t else None)
            return
        if isinstance(other, Sym):
            cur = self.get(d)
            bad = [c for c in other.classes() if c is not dict]
            if bad:
                self.raise_if(self.class_guard(other, bad), TypeError)
            if not cur.entries and not cur.segs and cur.base is None:
                self.put(d, HDict([], [], other))
                return
        raise Unsupported("dict update")

    def slice(self, v, lo, hi, st):
        if isinstance(v, U):
            return self.split(v, lambda x: self.slice(x, lo, hi, st))
        if st is not None:
            if isinstance(v, (tuple, list, str)):
                return v[slice(lo, hi, st)]
            if (lo, hi, st) != (None, None, -1):
                raise Unsupported("slice with a step")
        if isinstance(v, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return v[lo:hi]
        if isinstance(v, list):
            return self.alloc(HList([One(True, x) for x in v[lo:hi]]))
        if isinstance(v, (SStr,)) or (isinstance(v, Sym) and all(c is str for c in v.classes())):
            return self.str_slice(v, lo, hi, st)
        if isinstance(v, Sym) and v.classes() not in ([list], [tuple]):
            return self.by_class(v, lambda c: c, lambda c: self.slice_sym(v, c, st, lo, hi))
        if isinstance(v, Ref) and isinstance(self.get(v), HList) or isinstance(v, (SeqV, Sym)):
            segs = self.segs_of(v)
            mk = (lambda s: SeqV("tuple", s)) if isinstance(v, SeqV) else (lambda s: self.alloc(HList(s)))
            if isinstance(v, Sym):
                if v.classes() == [tuple]:
                    mk = lambda s: SeqV("tuple", s)
            return mk(self.reversed_segs(segs) if st == -1 else self.slice_segs(segs, lo, hi))
        raise Unsupported("slice")

    def str_slice(self, v, lo, hi, st):
        """v[lo:hi] of a text; up to / after the position of a separator it is a piece of the split."""
        if all(x is None or isinstance(x, int) and not isinstance(x, bool) for x in (lo, hi)):
            if lo == 0:
                lo = None
            return v if (lo, hi, st) == (None, None, None) else self.sym_op("slice_%s_%s_%s" % (lo, hi, st), [v], str)
        if st is not None:
            raise Unsupported("slice with a step")
        t = self.reify(v)

        def at(x, shift):
            """The separator at whose position (+ its length, if shift) x lies."""
            if not z3.is_expr(x) or not z3.is_int(x):
                return None
            for i in [x] + list(x.children()):
                n = i.decl().name() if z3.is_app(i) else ""
                if n.startswith("opi_") and i.arg(0).eq(t):
                    known, sep = self.w.const_of(i.arg(1))
                    if known and isinstance(sep, str) and sep and self.valid(self.w.contains(sep, t)):
                        d = z3.simplify(x - i)
                        if z3.is_int_value(d) and d.as_long() == (len(sep) if shift else 0):
                            return self.str_method("rsplit" if n[4] == "r" else "split", v, [sep, 1], {})
            return None
        if lo is None or isinstance(lo, int) and lo == 0:
            sp = at(hi, False)
            if sp is not None:
                return self.w.sym(IDX(sp.term, 0), STR)
        elif hi is None or isinstance(hi, int) and hi < 0:
            sp = at(lo, True)
            if sp is not None:
                r = self.w.sym(IDX(sp.term, 1), STR)
                return r if hi is None else self.str_slice(r, None, hi, None)
        ends = []
        for x in (lo, hi):
            if x is not None and not isinstance(x, int) and not isinstance(x, LenV) and not (z3.is_expr(x) and z3.is_int(x)):
                raise Unsupported("slice")
            ends.append(z3.IntVal(0) if x is None else self.to_int(x) if not isinstance(x, int) else z3.IntVal(x))
        f = self.w.uf("slice" + "".join("n" if x is None else "i" for x in (lo, hi)), V, z3.IntSort(), z3.IntSort(), V)
        return self.typed(f(t, *ends), str)

    def slice_sym(self, v, c, st, lo, hi):
        if c is str:
            return self.str_slice(v, lo, hi, st)
        if c not in (list, tuple):
            if hasattr(c, "__getitem__"):
                raise Unsupported("slice of a %s" % c.__name__)
            self.throw(TypeError)
        segs = self.segs_of(v)
        segs = self.reversed_segs(segs) if st == -1 else self.slice_segs(segs, lo, hi)
        return SeqV("tuple", segs) if c is tuple else self.alloc(HList(segs))

    # ------------------------------------------------------------------ operators
    def kind(self, v):
        """Coarse class of a value for operators; symbolic values are forked first."""
        if isinstance(v, Sym):
            raise Unsupported("kind of symbol")
        c = self.cls_of(v)
        return c

    def by_kind(self, v, fn):
        """Call fn(v) once per operator-relevant class of v (forking on a symbolic v)."""
        if isinstance(v, U):
            return self.split(v, lambda x: self.by_kind(x, fn))
        if isinstance(v, Sym) and len({op_kind(c) for c in v.classes()}) > 1:
            return self.by_class(v, op_kind, lambda k: fn(v, k))
        if isinstance(v, Sym):
            return fn(v, op_kind(v.classes()[0]) if v.classes() else "obj")
        if isinstance(v, Index):
            raise Unsupported("arithmetic on positions")
        return fn(v, op_kind(self.cls_of(v)))

    def all_heap(self, v, kind):
        if isinstance(v, U):
            return all(self.all_heap(x, kind) for _, x in v.alts)
        return isinstance(v, Ref) and isinstance(self.get(v), kind)

    def guarded_segs(self, v):
        if isinstance(v, U):
            return [guard_seg(s, g) for g, x in v.alts for s in self.guarded_segs(x)]
        return self.segs_of(v)

    def binop(self, op, a, b):
        if op == "Add" and self.all_heap(a, HList) and self.all_heap(b, HList):
            return self.alloc(HList(self.guarded_segs(a) + self.guarded_segs(b)))
        if op == "BitOr" and self.all_heap(a, HSet) and self.all_heap(b, HSet):
            return self.alloc(HSet(self.guarded_segs(a) + self.guarded_segs(b)))
        return self.by_kind(a, lambda x, k: self.by_kind(b, lambda y, l: self.binop2(op, x, k, y, l)))

    def binop2(self, op, a, k, b, l):
        if concrete(a) and concrete(b) and not isinstance(a, (list, dict, set, type)) and not isinstance(
                b, (list, dict, set, type)):
            try:
                import operator as o
                f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Mod": o.mod, "Div": o.truediv, "FloorDiv": o.floordiv,
                     "BitOr": o.or_, "BitAnd": o.and_, "Pow": o.pow}[op]
                return f(a, b)
            except TypeError:
                self.throw(TypeError)
            except ZeroDivisionError:
                self.throw(ZeroDivisionError)
        if isinstance(a, type) and op == "BitOr":
            return a | b
        if op == "Add":
            if k == "str" and l == "str":
                return sstr(list(parts_of(self.tostr(a))) + list(parts_of(self.tostr(b))))
            if k == "list" and l == "list":
                return self.alloc(HList(self.segs_of(a) + self.segs_of(b)))
            if k == "tuple" and l == "tuple":
                if isinstance(a, tuple) and isinstance(b, tuple):
                    return a + b
                return SeqV("tuple", self.segs_of(a) + self.segs_of(b))
        if op == "Mod" and k == "str":
            return self.percent(a, b)
        if k == "set" and l == "set" and op in ("BitOr", "Sub", "BitAnd"):
            return self.set_op(op, a, b)
        if k == "dict" and l == "dict" and op == "BitOr":
            d = self.alloc(HDict([]))
            self.dict_update(d, a)
            self.dict_update(d, b)
            return d
        if k == "int" and l == "int":
            x, y = self.to_int(a), self.to_int(b)
            if op == "Add":
                return x + y
            if op == "Sub":
                return x - y
            if op == "Mult":
                return x * y
            if op in ("Mod", "FloorDiv") and isinstance(y, int) and y > 0:
                x = z3.IntVal(x) if isinstance(x, int) else x
                return x % y if op == "Mod" else x / y
            if op in ("BitOr", "BitAnd", "BitXor"):
                if all(is_bool(v) or isinstance(v, Sym) and v.classes() == [bool] for v in (a, b)):
                    p, q = self.truth(a), self.truth(b)
                    return Or(p, q) if op == "BitOr" else And(p, q) if op == "BitAnd" else Not(Iff(p, q))
                raise Unsupported("bitwise operation")
            if op != "Div":
                raise Unsupported("integer arithmetic")
        if k in ("int", "float") and l in ("int", "float"):
            if op in ("Mod", "Div", "FloorDiv"):
                z = self.eq(b, 0)
                self.raise_if(z, ZeroDivisionError)
            return self.sym_op("num_" + op, [num_lit(a), num_lit(b)], float)
        if k in ("datetime", "timedelta") or l in ("datetime", "timedelta"):
            return self.date_op(op, a, k, b, l)
        if k == "str" and l == "int" and op == "Mult" or k in ("list", "tuple") and l == "int":
            raise Unsupported("repetition")
        for x, kk in ((a, k),):
            if kk == "obj":
                m = {"Add": "__add__", "Sub": "__sub__", "BitOr": "__or__", "Mult": "__mul__", "Div": "__truediv__"}.get(op)
                if m and isinstance(x, Ref) and hasattr(self.get(x).cls, m):
                    return self.call(self.getattr(x, m), [b], {})
        if any(isinstance(v, (SeqV, GenV, Enumer, RangeLen)) for v in (a, b)):
            raise Unsupported("operator on a view")
        m = {"Add": "add", "Sub": "sub", "Mult": "mul", "Mod": "mod", "Div": "truediv", "FloorDiv": "floordiv", "Pow": "pow",
             "BitOr": "or", "BitAnd": "and", "BitXor": "xor"}.get(op, op.lower())
        for x, f in ((a, "__%s__"), (b, "__r%s__")):
            cs = x.classes() if isinstance(x, Sym) else [self.cls_of(x)]
            for c in cs:
                if hasattr(c, f % m) and not (op_kind(c) in ("list", "tuple", "str", "bytes") and m == "add") and not (
                        op_kind(c) in ("int", "float", "set", "dict")):
                    raise Unsupported("operator %s of %s" % (op, c.__name__))
        if {k, l} in ({"set"}, {"dict"}, {"bytes"}) or op == "Mult" and "int" in (k, l) and {k, l} & {"str", "bytes", "list", "tuple"}:
            raise Unsupported("operator %s of %s and %s" % (op, k, l))
        self.throw(TypeError)

    def date_op(self, op, a, k, b, l):
        w = self.w
        if op == "Sub" and k == "datetime" and l == "timedelta":
            ta, tb = self.reify(a), self.reify(b)
            off = w.uf("utcoffset", V, V)
            naive = w.uf("strip_tz", V, V)
            if tb.decl().name() == "utcoffset":
                base = tb.arg(0)
                if base.eq(ta):
                    # the aware datetime shifted by its own offset; stripping the zone gives naive UTC
                    return self.typed(w.uf("shifted_utc", V, V)(ta), dt.datetime)
                if ta.decl().name() == "strip_tz" and ta.arg(0).eq(base):
                    return self.typed(w.uf("naive_utc", V, V)(base), dt.datetime)
        return self.typed(self.w.uf("dt_%s" % op, V, V, V)(self.reify(a), self.reify(b)),
                          dt.timedelta if (k == "datetime" and l == "datetime") else dt.datetime)

    def typed(self, term, cls):
        from .ty import Alt, Ty
        t = TYPED.get(cls)
        if t is None:
            t = TYPED[cls] = Ty([Alt(cls)], cls.__name__)
        return self.w.sym(term, t)

    def sym_op(self, name, args, cls=None):
        """Uninterpreted (deterministic) operation on values."""
        ts = [self.reify(a) for a in args]
        t = self.w.uf("op_" + name, *([V] * (len(ts) + 1)))(*ts)
        if cls is str:
            self.w.sym(t, STR)
            return SStr((("at", t),))
        if cls is bool:
            return self.w.uf("opb_" + name, *([V] * len(ts) + [z3.BoolSort()]))(*ts)
        if cls is not None:
            return self.typed(t, cls)
        return self.w.sym(t)

    def percent(self, a, b):
        if not isinstance(a, str):
            return self.decided(a, lambda x: self.percent(x, b), "computed % format")
        args = list(b) if isinstance(b, tuple) else [b]
        parts, i = [], 0
        for piece in re.split(r"(%[a-z%])", a):
            if piece == "%%":
                parts.append(("lit", "%"))
            elif re.fullmatch(r"%[a-z]", piece):
                if i >= len(args):
                    self.throw(TypeError)
                s = self.tostr(args[i]) if piece == "%s" else self.repr_(args[i]) if piece == "%r" else self.format(
                    args[i], piece[1])
                if isinstance(s, Poison):
                    return s
                parts += list(parts_of(s))
                i += 1
            elif "%" in piece:
                raise Unsupported("format %r" % piece)
            else:
                parts.append(("lit", piece))
        if i != len(args):
            self.throw(TypeError)
        return sstr(parts)

    def setlike(self, v):
        if isinstance(v, (set, frozenset)):
            return True
        if isinstance(v, Ref):
            return isinstance(self.get(v), HSet)
        return isinstance(v, Sym) and bool(v.classes()) and all(c in (set, frozenset) for c in v.classes())

    def set_op(self, op, a, b):
        if op == "BitOr":
            return self.alloc(HSet(self.segs_of(a) + self.segs_of(b)))
        keep = (lambda x: self.contains(x, b)) if op == "BitAnd" else (lambda x: Not(self.contains(x, b)))
        segs = self.iter_segs(self.segs_of(a), lambda x: [One(keep(x), x)])
        return self.alloc(HSet(segs))

    def set_compare(self, op, a, b):
        sub = lambda x, y: Not(self.any_seg(self.segs_of(x), lambda e: Not(self.contains(e, y))))
        if isinstance(op, ast.LtE):
            return sub(a, b)
        if isinstance(op, ast.GtE):
            return sub(b, a)
        if isinstance(op, ast.Lt):
            return And(sub(a, b), Not(sub(b, a)))
        return And(sub(b, a), Not(sub(a, b)))

    def inplace(self, op, a, b):
        if isinstance(a, U):
            return self.split(a, lambda x: self.inplace(op, x, b))
        if isinstance(a, Ref):
            h = self.get(a)
            if isinstance(h, HList) and op == "Add":
                self.put(a, HList(h.segs + tuple(self.segs_of(b))))
                return a
            if isinstance(h, HSet) and op == "BitOr":
                if not self.setlike(b):
                    return self.by_kind(b, lambda y, l: self.inplace_set(a, y) if l == "set" else self.throw(TypeError))
                self.put(a, HSet(h.segs + tuple(self.segs_of(b))))
                return a
            if isinstance(h, HSet) and op in ("Sub", "BitAnd"):
                n = self.set_op(op, a, b)
                self.put(a, self.get(n))
                return a
            if isinstance(h, HDict) and op == "BitOr":
                self.dict_update(a, b)
                return a
        if isinstance(a, Sym):
            def per(k):
                if (k == "list" and op == "Add") or (k == "set") or (k == "dict" and op == "BitOr"):
                    self.write(a, "in-place update")
                return self.binop(op, a, b)
            return self.by_class(a, op_kind, per)
        if isinstance(a, (list, set, dict)):
            self.write(a, "in-place update of a module-level object")
        return self.binop(op, a, b)

    def inplace_set(self, a, b):
        h = self.get(a)
        self.put(a, HSet(h.segs + tuple(self.segs_of(b))))
        return a

    # ------------------------------------------------------------------ text
    def tostr(self, v):
        """str(v)"""
        if isinstance(v, U):
            r = [(g, self.tostr_in(g, x)) for g, x in v.alts]
            return merge(r)
        if is_str(v):
            return v
        if isinstance(v, bool):
            return str(v)
        if isinstance(v, (int, float, type(None))):
            return str(v)
        if isinstance(v, Poison):
            return v
        if z3.is_expr(v) and z3.is_bool(v):
            return str_ite(v, "True", "False")
        if is_int(v):
            return self.tostr(self.typed(self.reify(self.to_int(v)), int))
        if isinstance(v, Sym):
            def per(k):
                t = v.term
                if k == "str":
                    return SStr((("at", t),))
                if k == "none":
                    return "None"
                if k == "bool":
                    return str_ite(BVAL(t), "True", "False")
                if k[0] == "meth":
                    return self.call(Bound(k[1], v), [], {})
                s = self.w.uf("str_of", V, V)(t)
                self.w.sym(s, STR)
                if k == "num":
                    self.w.axiom(NE(s))
                return SStr((("at", s),))
            return self.by_class(v, str_kind, per)
        if isinstance(v, enum.Enum):
            return str(v)
        if isinstance(v, Ref) and isinstance(self.get(v), HInst):
            f = getattr(self.get(v).cls, "__str__", None)
            if isinstance(f, types.FunctionType) and not generated(f):
                return self.call(Bound(f, v), [], {})
        if isinstance(v, ExcV):
            return POISON
        if isinstance(v, type):
            return str(v)
        return self.sym_op("str_of", [v], str)

    def tostr_in(self, g, x):
        if isinstance(x, Sym) and len(set(map(str_kind, x.classes()))) > 1:
            pc = self.pc
            self.pc = self.extend(pc, g)
            try:
                return self.tostr(x)
            finally:
                self.pc = pc
        return self.tostr(x)

    def repr_(self, v):
        if isinstance(v, (str, int, float, bool, type(None))):
            return repr(v)
        return self.sym_op("repr", [v], str)

    def decided(self, text, f, what):
        """f(text) for a text that is one of finitely many constants."""
        if isinstance(text, str):
            return f(text)
        if isinstance(text, U):
            return self.split(text, lambda x: self.decided(x, f, what))
        if isinstance(text, SStr):
            for i, p in enumerate(text.parts):
                if p[0] == "if":
                    return self.fork([(p[1], True), (Not(p[1]), False)], lambda t, p=p, i=i: self.decided(
                        sstr(text.parts[:i] + (p[2] if t else p[3]) + text.parts[i + 1:]), f, what))
        raise Unsupported(what)

    def format(self, v, spec):
        if not isinstance(spec, str):
            return self.decided(spec, lambda x: self.format(v, x), "computed format specification")
        if spec == "":
            return self.tostr(v)

        def per(x, k):
            if isinstance(x, (int, float, str)) and not isinstance(x, enum.Enum):
                try:
                    return format(x, spec)
                except (ValueError, TypeError) as e:
                    self.throw(type(e))
            if k == "int" and spec == "d":
                if isinstance(x, Sym) and bool in x.classes():
                    if x.classes() != [bool]:
                        return self.by_class(x, lambda c: c, lambda c: self.tostr(x) if c is int else self.sym_op(
                            "fmt_d", [x], str))
                    return str_ite(BVAL(x.term), "1", "0")
                if is_bool(x):
                    return str_ite(x, "1", "0")
                return self.tostr(x)
            if k in ("int", "float"):
                return self.sym_op("fmt_" + spec, [x], str)
            if k == "str":
                raise Unsupported("formatted string")
            cs = x.classes() if isinstance(x, Sym) else [self.cls_of(x)]
            if any(issubclass(c, (dt.date, dt.timedelta, dt.time, enum.Enum)) or "__format__" in c.__dict__ for c in cs):
                raise Unsupported("formatted %s" % cs[0].__name__)
            self.throw(TypeError)
        return self.by_kind(v, per)

    def need_str(self, v):
        """v where a str is required (join)."""
        if isinstance(v, U):
            return self.split(v, self.need_str)
        if is_str(v):
            return v
        if isinstance(v, Sym):
            bad = [c for c in v.classes() if c is not str]
            if bad:
                self.raise_if(self.class_guard(v, bad), TypeError)
            return SStr((("at", v.term),))
        if isinstance(v, (Poison, Tok)):
            raise Unsupported("untracked text")
        if type(v).__module__.startswith("engine") and not isinstance(v, Ref):
            raise Unsupported("join of %s" % type(v).__name__)
        self.throw(TypeError)

    def join(self, sep, it):
        sep = self.need_str(sep)
        segs = self.iterate(it, lambda v: [One(True, self.need_str(v))])
        return self.join_segs(parts_of(sep), segs)

    def join_segs(self, sep, segs):
        if all(isinstance(s, One) and s.g is True for s in segs):
            parts = []
            for i, s in enumerate(segs):
                if i:
                    parts += list(sep)
                parts += list(parts_of(s.v))
            return sstr(parts)
        return SStr((("join", tuple(sep), tuple(segs)),))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, fr=None):
        if isinstance(f, U):
            return self.split(f, lambda x: self.call(x, args, kw, fr))
        if isinstance(f, Bound):
            if isinstance(f.f, Method):
                return self.call_method(f.f, f.self, args, kw)
            if isinstance(f.f, types.FunctionType):
                return self.call_func(f.f, [f.self] + list(args), kw, fr)
            return self.call(f.f, [f.self] + list(args), kw, fr)
        if isinstance(f, Clo):
            return self.call_clo(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw, fr)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kw}, fr)
        if isinstance(f, Partial):
            return self.call(f.f, f.args + list(args), {**f.kw, **kw}, fr)
        h = BUILTINS.get(f) if hashable(f) else None
        if h is not None:
            if any(isinstance(x, MaybeArg) for x in kw.values()):
                raise Unsupported("conditional argument of a built-in function")
            if f not in LAZY:
                n0 = self.nraises
                args = [self.force(a) for a in args]
                if self.nraises != n0 and f in (any, all, next, enumerate):
                    raise Unsupported("an iterator that may fail is not used up")
            return h(self, args, kw)
        if isinstance(f, types.FunctionType):
            return self.call_func(f, args, kw, fr)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ExcV(f)
            return self.instantiate(f, args, kw)
        if isinstance(f, TypeOf):
            if isinstance(f.s, Sym):
                return self.by_class(f.s, lambda c: c, lambda c: self.call(c, args, kw, fr))
            return self.call(self.cls_of(f.s), args, kw, fr)
        if isinstance(f, types.ClassMethodDescriptorType):
            g = getattr(f.__objclass__, f.__name__)
            if g in BUILTINS:
                return BUILTINS[g](self, [self.force(a) for a in args], kw)
            raise Unsupported("class method %s.%s" % (f.__objclass__.__name__, f.__name__))
        if isinstance(f, types.MethodDescriptorType):
            return self.call_method(Method(f.__objclass__, f.__name__), args[0], args[1:], kw)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(f.__self__, (dict, list, set, str, re.Pattern)):
            return self.call_method(Method(type(f.__self__), f.__name__), f.__self__, args, kw)
        if isinstance(f, types.WrapperDescriptorType) and f.__name__ == "__setattr__":
            self.raw_set(args[0], args[1], args[2])
            return None
        if isinstance(f, types.WrapperDescriptorType) and f.__name__ == "__init__":
            return None
        if isinstance(f, Method):
            return self.call_method(f, args[0], args[1:], kw)
        if isinstance(f, (Poison, Tok, Sym)):
            raise Unsupported("call of %r" % (f,))
        raise Unsupported("call of %r" % (f,))

    def bind_args(self, a, defaults, kwdefaults, args, kw, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if any(isinstance(x, Starred) for x in args):
            raise Unsupported("call with a starred sequence of unknown length")
        extra = args[len(pos):]
        for n, v in zip(pos, args):
            env[n] = v
        if extra:
            if a.vararg is None:
                self.throw(TypeError)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(extra)
        kwextra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    if isinstance(v, MaybeArg):
                        self.raise_if(v.g, TypeError)
                        continue
                    self.throw(TypeError)
                env[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            elif isinstance(v, MaybeArg):
                self.raise_if(v.g, TypeError)
            else:
                self.throw(TypeError)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(HDict([(v.g, k, v.v) if isinstance(v, MaybeArg) else (True, k, v)
                                                 for k, v in kwextra.items()]))
        d = list(defaults)
        for n, v in list(zip(pos[len(pos) - len(d):], d)) + list(kwdefaults.items()):
            if n not in env:
                env[n] = v
            elif isinstance(env[n], MaybeArg):
                env[n] = merge([(env[n].g, env[n].v), (Not(env[n].g), v)])
        for n, v in list(env.items()):
            if isinstance(v, MaybeArg):
                self.raise_if(Not(v.g), TypeError)
                env[n] = v.v
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                self.throw(TypeError)
        return env

    def call_clo(self, c, args, kw):
        env = self.bind_args(c.node.args, c.defaults, c.kwdefaults, args, kw, c.info.name)
        if c.node in self.stack:
            raise Unsupported("recursive local function %s" % c.info.name)
        fr = Frame(c.info, None, c.fr.cls, c.fr.obj)
        return self.run(c.info, env, c.env, fr, c.node)

    def run(self, info, env, parent, fr, key):
        if info.is_gen:
            return self.lazy(lambda: self.segs_of(self.run_now(info, env, parent, fr, key)))
        return self.run_now(info, env, parent, fr, key)

    def run_now(self, info, env, parent, fr, key):
        base_pc = self.pc
        fr.env = self.alloc(HEnv(env, parent)).a
        n0 = self.nraises
        self.stack.append(key)
        prev = self.where
        if len(self.stack) > 60:
            raise Unsupported("call depth")
        try:
            if isinstance(info.node, ast.Lambda):
                return self.ev(info.node.body, fr)
            if info.is_gen:
                fr.yields = self.alloc(HList([]))
            try:
                self.block(info.node.body, fr)
                fr.rets.append((self.heap, self.pc, None))
            except Dead:
                pass
            if info.is_gen:
                rets = [(h, p, SeqV("gen", h[fr.yields.a].segs)) for h, p, _ in fr.rets]
                if len(rets) > 1:
                    self.merge_states([(h, p, None) for h, p, _ in rets], base_pc, self.nraises == n0)
                    return SeqV("gen", self.get(fr.yields).segs)
                return self.merge_states(rets, base_pc, self.nraises == n0)
            return self.merge_states(fr.rets, base_pc, self.nraises == n0)
        finally:
            self.stack.pop()
            self.where = prev

    def run_generator(self, f, args, kw, hook):
        info = source.info(f)
        self.inlined.add(f)
        env = self.bind_args(info.node.args, info.defaults, info.kwdefaults, args, kw, info.name)
        fr = Frame(info, None)
        fr.hook = hook
        fr.env = self.alloc(HEnv(env, None)).a
        base_pc = self.pc
        self.stack.append(f)
        try:
            try:
                self.block(info.node.body, fr)
                fr.rets.append((self.heap, self.pc, None))
            except Dead:
                pass
            self.merge_states(fr.rets, base_pc)
        finally:
            self.stack.pop()

    def call_func(self, f, args, kw, fr=None):
        if f.__code__ is CM_CODE and hasattr(f, "__wrapped__"):
            return CtxV(f.__wrapped__, args, kw)
        h = BUILTINS.get(f)
        if h is not None:
            return h(self, [self.force(a) for a in args], kw)
        if hasattr(f, "__opaque__"):
            args = [self.force(a) for a in args]
            if not (f in self.unfold and not any(k is f or isinstance(k, tuple) and k[1] is f for k in self.stack)):
                if not (f.__structural__ and args and isinstance(args[0], (Ref, SeqV, tuple))
                        and self.stack.count(f) < 3):
                    return self.opaque(f, args, kw)
        c = self.contract_for(f, args, kw)
        if c is not None:
            return self.apply_contract(c, f, [self.force(a) for a in args], {k: self.force(a) for k, a in kw.items()})
        if self.stack.count(f) >= 3:
            raise Unsupported("recursive call of %s without a contract" % f.__qualname__)
        if hasattr(f, "__wrapped__") and generated_wrapper(f):
            raise Unsupported("decorated function %s" % f.__qualname__)
        if not in_scope(f):
            raise Unsupported("call of library function %s.%s" % (f.__module__, f.__qualname__))
        info = source.info(f)
        env = self.bind_args(info.node.args, info.defaults, info.kwdefaults, args, kw, info.name)
        cls = info.free.get("__class__")
        first = info.node.args.args[0].arg if info.node.args.args else None
        nf = Frame(info, None, cls, env.get(first) if first else None)
        self.inlined.add(f)
        return self.run(info, env, None, nf, f)

    # ------------------------------------------------------------------ contracts
    def contract_for(self, f, args, kw):
        cs = self.contracts.get(f)
        if not cs:
            return None
        if f not in self.stack and (self.opened(f) or len(self.stack) <= self.top_depth):
            return None
        for c in cs:
            if c.rcls is not None:
                if not args:
                    continue
                r = self.isinst(args[0], (c.rcls,))
                if r is False:
                    continue
                if r is not True and not self.valid(r):
                    continue
            if c.types and not self.args_conform(f, c, args, kw):
                continue
            if c.when is not None:
                s = self.snapshot()
                try:
                    t = self.truth(self.call_spec(c.when, args[:1], {}))
                except Dead:
                    t = False
                self.restore(s)
                if t is not True and not self.valid(t):
                    continue
            return c
        return None

    def snapshot(self):
        return (dict(self.heap), self.pc, len(self.handlers[-1]), self.nraises)

    def restore(self, s):
        self.heap, self.pc = s[0], s[1]
        del self.handlers[-1][s[2]:]
        self.nraises = s[3]

    def call_spec(self, f, args, kw):
        info = source.info(f)
        env = self.bind_args(info.node.args, info.defaults, info.kwdefaults, args, kw, info.name)
        return self.run(info, env, None, Frame(info, None), ("spec", f, len(self.stack)))

    def apply_contract(self, c, f, args, kw):
        self.used_contracts.add((c.prop, c.name))
        u, self.unfold = self.unfold, ()
        hs = self.handlers[-1]
        n = len(hs)
        try:
            # bind by the real signature (defaults included), then pass positionally
            info = source.info(f)
            env = self.bind_args(info.node.args, info.defaults, info.kwdefaults, args, kw, info.name)
            names = [a.arg for a in info.node.args.posonlyargs + info.node.args.args + info.node.args.kwonlyargs]
            return self.call_spec(c.spec, [env[k] for k in names], {})
        finally:
            self.unfold = u
            for i in range(n, len(hs)):
                hs[i] = (hs[i][0], hs[i][1], self.callee_error(c, hs[i][2]))

    def callee_error(self, c, exc):
        """The error of a contract, as far as the contract determines it: its class may be a subclass of the stated one."""
        cls = exc.cls
        if c.exc == "any" or c.exc == "loose" and cls is Rejected:
            cls = AnyError
        elif c.exc == "sdk":
            cls = Rejected
        e = ExcV(cls)
        e.where, e.inexact = getattr(exc, "where", self.where), True
        return e

    def opaque(self, f, args, kw):
        w = self.w
        if kw:
            info = source.info(f)
            env = self.bind_args(info.node.args, info.defaults, info.kwdefaults, args, kw, info.name)
            args = [env[a.arg] for a in info.node.args.args]
        ts = [self.reify(a) for a in args]
        sort = f.__opaque__
        name = "spec_" + f.__name__
        if sort == "bool":
            return w.uf(name, *([V] * len(ts) + [z3.BoolSort()]))(*ts)
        t = w.uf(name, *([V] * (len(ts) + 1)))(*ts)
        ty = getattr(f, "__ty__", None)
        if sort == "str":
            w.sym(t, ty or STR)
            return SStr((("at", t),))
        if ty is None:
            raise Unsupported("opaque function %s has no result type" % f.__name__)
        s = w.sym(t, ty)
        if sort == "set":
            return self.alloc(HSet([self.elem_map(s, t)]))
        return s

    def args_conform(self, f, c, args, kw):
        info = source.info(f)
        names = [a.arg for a in info.node.args.args]
        vals = dict(zip(names, args))
        vals.update(kw)
        for n, ty in c.types.items():
            if n in vals and not self.conforms(vals[n], ty):
                return False
        return True

    def conforms_if(self, g, v, ty):
        if g is False or not self.feasible(g):
            return True
        save = self.pc
        if g is not True:
            self.pc = save + (g,)
        try:
            return self.conforms(v, ty)
        finally:
            self.pc = save

    def conforms(self, v, ty):
        """The value is provably of the contract type."""
        from contracts.valid import conforms
        alts = self.w.alts_of(ty)
        if concrete(v):
            return conforms(v, ty)
        if isinstance(v, U):
            return all(self.conforms_if(g, x, ty) for g, x in v.alts)
        if isinstance(v, Sym):
            for g, a in v.alts:
                into = [b for b in alts if alt_sub(a, b, self.w, set())]
                if into:
                    # what holds of every value of that type holds of this one
                    for f in getattr(into[0], "facts", None) or ():
                        if f not in (getattr(a, "facts", None) or ()):
                            self.w.axiom(Implies(self.w.guard(v, g, a), self.w.uf("spec_" + f, V, z3.BoolSort())(v.term)))
                    continue
                if self.feasible(self.w.guard(v, g, a)):
                    return False
            return bool(v.alts)
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, HInst):
                for b in alts:
                    if b.cls is h.cls and b.fields is not None and set(b.fields) <= set(h.fields) and all(
                            self.conforms(h.fields[k], t) for k, t in b.fields.items()):
                        return True
                return False
            if isinstance(h, (HList, HSet)):
                c = self.cls_of(v)
                for b in alts:
                    if b.cls is c and b.elem is not None and not b.maxlen and b.items is None:
                        if self.segs_conform(h.segs, b.elem) and (
                                not b.minlen or self.valid(self.to_int(self.length(v)) >= b.minlen)):
                            return True
                return False
            return False
        if isinstance(v, SeqV):
            return any(b.cls is tuple and b.elem is not None and not b.minlen and not b.maxlen
                       and self.segs_conform(v.segs, b.elem) for b in alts)
        if isinstance(v, SStr) and len(v.parts) == 1 and v.parts[0][0] == "if":
            _, c, x, y = v.parts[0]
            return all(self.conforms_if(g, sstr(p), ty) for g, p in ((c, x), (Not(c), y)))
        if isinstance(v, SStr):
            return any(b.cls is str and not b.regex and not b.nonempty and b.consts is None for b in alts)
        if is_bool(v):
            return any(b.cls is bool and b.consts is None for b in alts)
        if is_int(v):
            i = self.to_int(v)
            return any(b.cls is int and b.consts is None and self.valid(And(
                True if b.lo is None else i >= b.lo, True if b.hi is None else i <= b.hi)) for b in alts)
        if isinstance(v, tuple):
            return any(b.cls is tuple and b.elem is not None and len(v) >= (b.minlen or 0)
                       and (b.maxlen is None or len(v) <= b.maxlen)
                       and all(self.conforms(x, b.elem) for x in v) for b in alts)
        return False

    def segs_conform(self, segs, ty):
        for s in segs:
            if isinstance(s, One):
                if not self.conforms(s.v, ty):
                    return False
            elif isinstance(s, Map):
                self.w.open(s.e, MEM(s.src, s.e))
                pc = self.pc
                self.pc = pc + (MEM(s.src, s.e),)
                try:
                    if not self.segs_conform(s.segs, ty):
                        return False
                finally:
                    self.pc = pc
                    self.w.close()
            else:
                return False
        return True

    # ------------------------------------------------------------------ objects
    def instantiate(self, cls, args, kw):
        if issubclass(cls, enum.Enum):
            v = args[0]
            if isinstance(v, cls):
                return v
            if concrete(v):
                try:
                    return cls(v)
                except ValueError:
                    self.throw(ValueError)
            items = [(m.value, m) for m in cls]
            alts, none = [], []
            for k, m in items:
                c = self.eq(v, k)
                if c is False:
                    continue
                alts.append((And(c, *none), m))
                none.append(Not(c))
            if isinstance(v, Sym) and cls in v.classes():
                alts.append((And(self.isinst(v, cls), *none), v))
                none.append(Not(self.isinst(v, cls)))
            self.raise_if(And(*none), ValueError)
            alts = [(g, x) for g, x in alts if self.feasible(g)]
            return merge(alts)
        if cls in FACTORIES:
            return FACTORIES[cls](self, args, kw)
        if cls.__module__.split(".")[0] not in ("snuba_sdk", "contracts"):
            raise Unsupported("instantiation of %s" % cls)
        if getattr(cls, "__abstractmethods__", None):
            self.throw(TypeError)
        if cls.__new__ is not object.__new__ and cls.__new__ is not typing.Generic.__new__:
            raise Unsupported("class with __new__: %s" % cls.__name__)
        o = self.alloc(HInst(cls, {}))
        init = cls.__init__
        if generated(init):
            self.dataclass_init(o, cls, args, kw)
        elif isinstance(init, types.FunctionType):
            self.call_func(init, [o] + list(args), kw)
        elif args or kw:
            self.throw(TypeError)
        return o

    def dataclass_init(self, o, cls, args, kw):
        fs = [f for f in dataclasses.fields(cls)]
        pos = [f for f in fs if f.init and not f.kw_only]
        vals = {}
        if len(args) > len(pos):
            self.throw(TypeError)
        for f, v in zip(pos, args):
            vals[f.name] = v
        names = {f.name for f in fs if f.init}
        for k, v in kw.items():
            if k not in names or k in vals:
                if isinstance(v, MaybeArg):
                    self.raise_if(v.g, TypeError)
                    continue
                self.throw(TypeError)
            vals[k] = v
        for f in fs:
            given = vals.get(f.name)
            if isinstance(given, MaybeArg):
                if f.default is not dataclasses.MISSING:
                    vals[f.name] = merge([(given.g, given.v), (Not(given.g), f.default)])
                elif f.default_factory is not dataclasses.MISSING:
                    raise Unsupported("conditional argument with a default factory")
                else:
                    self.raise_if(Not(given.g), TypeError)
                    vals[f.name] = given.v
            if f.name in vals:
                continue
            if f.default is not dataclasses.MISSING:
                if f.init or True:
                    vals[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                vals[f.name] = self.call(f.default_factory, [], {})
            elif f.init:
                self.throw(TypeError)
        self.put(o, HInst(cls, {f.name: vals[f.name] for f in fs if f.name in vals}))
        if hasattr(cls, "__post_init__"):
            self.call(self.getattr(o, "__post_init__"), [], {})

    def fields_of(self, v):
        """(class, {field: value}) of a dataclass instance."""
        if isinstance(v, Ref):
            h = self.get(v)
            return h.cls, dict(h.fields)
        if isinstance(v, Sym):
            raise Unsupported("fields of a symbol")
        return type(v), dict(v.__dict__)

    def replace(self, v, kw):
        if isinstance(v, U):
            return self.split(v, lambda x: self.replace(x, kw))
        if isinstance(v, Sym):
            def per(c):
                if not dataclasses.is_dataclass(c):
                    self.throw(TypeError)
                fs = {f.name: self.w.fieldsym(v, f.name)[1] for f in dataclasses.fields(c)}
                return self.replace_as(c, fs, kw)
            return self.by_class(v, lambda c: c, per)
        c, fs = self.fields_of(v)
        return self.replace_as(c, fs, kw)

    def replace_as(self, c, fs, kw):
        new = {}
        for f in dataclasses.fields(c):
            if not f.init:
                if f.name in kw:
                    self.throw(ValueError)
                continue
            new[f.name] = kw[f.name] if f.name in kw else fs[f.name]
        for k in kw:
            if k not in new:
                self.throw(TypeError)
        return self.instantiate(c, [], new)

    # ------------------------------------------------------------------ methods of built-in types
    def call_method(self, m, v, args, kw):
        args = [self.force(a) for a in args]
        if isinstance(v, U):
            return self.split(v, lambda x: self.call_method(m, x, args, kw))
        cls, name = m.cls, m.name
        if name == "__setattr__":
            self.raw_set(v, args[0], args[1])
            return None
        if name == "__init__":
            return None
        if name == "__eq__":
            return self.eq(v, args[0])
        if name == "__str__":
            return self.tostr(v)
        if name == "__hash__":
            raise Unsupported("hash")
        if name == "__contains__":
            return self.contains(args[0], v)
        if name == "__getitem__":
            return self.getitem(v, args[0])
        if cls is str:
            return self.str_method(name, v, args, kw)
        if cls is bytes:
            if name == "decode" and not args and not kw:
                if isinstance(v, bytes):
                    try:
                        return v.decode()
                    except UnicodeDecodeError:
                        self.throw(UnicodeDecodeError)
                t = self.reify(v)
                self.raise_if(Not(self.w.uf("utf8", V, z3.BoolSort())(t)), UnicodeDecodeError)
                return self.sym_op("decode", [v], str)
            raise Unsupported("bytes." + name)
        if cls is list:
            return self.list_method(name, v, args, kw)
        if cls in (set, frozenset):
            return self.set_method(name, v, args, kw)
        if cls in (dict, types.MappingProxyType):
            return self.dict_method(name, v, args, kw)
        if cls in (dt.datetime, dt.date):
            return self.date_method(cls, name, v, args, kw)
        if cls is re.Pattern:
            return self.regex_method(name, v, args)
        if cls is tuple and name in ("index", "count"):
            raise Unsupported("tuple." + name)
        if cls is float and name == "is_integer":
            return self.sym_op("is_integer", [v], bool)
        if cls is re.Match:
            raise Unsupported("match object")
        if (cls, name) in FOREIGN:
            return FOREIGN[(cls, name)](self, v, args)
        raise Unsupported("method %s.%s" % (cls.__name__, name))

    def str_method(self, name, v, args, kw):
        if name == "join":
            return self.join(v, args[0])
        if isinstance(v, str) and all(isinstance(a, (str, int, tuple, type(None))) and concrete(a) for a in args) and not kw:
            r = getattr(v, name)(*args)
            if isinstance(r, list):
                return self.alloc(HList([One(True, x) for x in r]))
            return r
        if name == "format":
            if isinstance(v, str):
                return self.str_format(v, args, kw)
            return self.decided(v, lambda x: self.str_format(x, args, kw), "str.format")
        if name == "replace":
            a, b = args[0], args[1]
            if isinstance(a, (U, SStr)) or isinstance(b, (U, SStr)):
                return self.replace_split(v, a, b)
            if isinstance(a, str) and len(a) == 1 and isinstance(b, str) and len(args) == 2:
                return sstr(self.charmap_parts(parts_of(self.need_str(v)), {a: b}))
            return self.sym_op("str_replace", [v] + args, str)
        if name == "translate":
            tab = args[0]
            if isinstance(tab, dict):
                t = {chr(k) if isinstance(k, int) else k: "" if x is None else chr(x) if isinstance(x, int) else x
                     for k, x in tab.items()}
                return sstr(self.charmap_parts(parts_of(self.need_str(v)), t))
        if name in ("startswith", "endswith"):
            x = args[0]
            if isinstance(x, tuple):
                return Or(*[self.str_method(name, v, [y], kw) for y in x])
            if isinstance(v, SStr) and isinstance(x, str):
                p = v.parts[0] if name == "startswith" else v.parts[-1]
                if p[0] == "lit" and len(p[1]) >= len(x):
                    return getattr(p[1], name)(x)
            if isinstance(x, str):
                return self.prefix_pred(name, self.reify(v), x)
            return self.sym_op(name, [v, x], bool)
        if name in ("isdigit", "isalpha", "isalnum", "isidentifier", "islower", "isupper", "isspace", "isnumeric"):
            return self.sym_op(name, [v], bool)
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "removeprefix",
                    "removesuffix", "zfill", "casefold"):
            return self.sym_op(name, [v] + list(args), str)
        if name in ("split", "rsplit") and args and isinstance(args[0], str):
            sep = args[0]
            mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if not isinstance(mx, int):
                raise Unsupported("split")
            t = self.reify(v)
            has = self.w.contains(sep, t)
            r = self.w.uf("op_%s_%d" % (name, mx), V, V, V)(t, self.w.lit(sep))
            s = self.w.sym(r, SPLIT)
            self.w.axiom(And(LEN(r) >= 1, Iff(LEN(r) == 1, Not(has)), Implies(Not(has), IDX(r, 0) == t)))
            if mx == 1:
                self.w.axiom(LEN(r) <= 2)
            return s
        if name in ("partition", "rpartition") and isinstance(args[0], str):
            sep = args[0]
            t = self.reify(v)
            has = self.w.contains(sep, t)
            sp = self.str_method("split" if name == "partition" else "rsplit", v, [sep, 1], {})
            a, b = self.w.sym(IDX(sp.term, 0), STR), self.w.sym(IDX(sp.term, 1), STR, has)
            tv = SStr((("at", t),))
            av, bv = SStr((("at", a.term),)), SStr((("at", b.term),))
            if has is not True and self.valid(has):
                has = True
            if name == "partition":
                return (str_ite(has, av, tv), str_ite(has, sep, ""), str_ite(has, bv, ""))
            return (str_ite(has, av, ""), str_ite(has, sep, ""), str_ite(has, bv, tv))
        if name in ("find", "index", "rfind", "rindex"):
            t = self.reify(v)
            i = self.w.uf("opi_" + name, V, V, z3.IntSort())(t, self.reify(args[0]))
            if isinstance(args[0], str):
                has = self.w.contains(args[0], t)
                if name in ("index", "rindex"):
                    self.raise_if(Not(has), ValueError)
                self.w.axiom(And(i >= -1, Iff(i == -1, Not(has))))
            return i
        if name == "encode":
            return self.typed(self.w.uf("op_encode", V, V)(self.reify(v)), bytes)
        if name in ("ljust", "rjust", "center", "count"):
            raise Unsupported("str." + name)
        raise Unsupported("str." + name)

    def prefix_pred(self, name, t, x):
        w = self.w
        w.prefixes = getattr(w, "prefixes", {})
        key = (name, x)
        if key not in w.prefixes:
            f = z3.Function("%s_%d" % (name, len(w.prefixes)), V, z3.BoolSort())
            w.prefixes[key] = f
            for s, u in w.strlits:
                w.solver.add(f(u) == getattr(s, name)(x))
        return w.prefixes[key](t)

    def replace_split(self, v, a, b):
        """replace() with conditional arguments: decide the condition first."""
        for x in (a, b):
            if isinstance(x, U):
                return self.split(x, lambda y: self.str_method("replace", v, [y if x is a else a, y if x is b else b], {}))
            if isinstance(x, SStr):
                for i, p in enumerate(x.parts):
                    if p[0] == "if":
                        def alt(t, p=p, i=i, x=x):
                            y = sstr(x.parts[:i] + (p[2] if t else p[3]) + x.parts[i + 1:])
                            return self.str_method("replace", v, [y if x is a else a, y if x is b else b], {})
                        return self.fork([(p[1], True), (Not(p[1]), False)], alt)
        return self.sym_op("str_replace", [v, a, b], str)

    def charmap_parts(self, parts, table):
        out = []
        for p in parts:
            if p[0] == "lit":
                out.append(("lit", "".join(table.get(c, c) for c in p[1])))
            elif p[0] == "at":
                known, c = self.w.const_of(p[1])
                if known:
                    out.append(("lit", "".join(table.get(x, x) for x in c)))
                else:
                    out.append(("map", norm_table(table), p[1]))
            elif p[0] == "map":
                old = dict(p[1])
                new = {k: "".join(table.get(c, c) for c in x) for k, x in old.items()}
                for k, x in table.items():
                    if k not in old:
                        new[k] = x
                out.append(("map", norm_table(new), p[2]))
            elif p[0] == "if":
                out.append(("if", p[1], tuple(self.charmap_parts(p[2], table)), tuple(self.charmap_parts(p[3], table))))
            else:
                raise Unsupported("replace in a joined string")
        return out

    def str_format(self, v, args, kw):
        import string
        parts, i = [], 0
        for lit, field, spec, conv in string.Formatter().parse(v):
            parts.append(("lit", lit))
            if field is None:
                continue
            if field == "":
                x = args[i]
                i += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                raise Unsupported("format field")
            s = self.tostr(x) if not spec else self.format(x, spec)
            if isinstance(s, Poison):
                return s
            parts += list(parts_of(s))
        return sstr(parts)

    def list_method(self, name, v, args, kw):
        if not (isinstance(v, Ref) and isinstance(self.get(v), HList)):
            if name in ("copy",):
                return self.alloc(HList(self.segs_of(v)))
            if name in ("append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"):
                self.write(v, "list." + name)
            if name == "index" and isinstance(v, list) and concrete(args[0]):
                return v.index(args[0])
            raise Unsupported("list." + name)
        h = self.get(v)
        if name == "append":
            self.put(v, HList(h.segs + (One(True, args[0]),)))
            return None
        if name == "extend":
            s = self.ordered(args[0])
            self.put(v, HList(self.get(v).segs + tuple(s)))
            return None
        if name == "insert" and args[0] == 0:
            self.put(v, HList((One(True, args[1]),) + h.segs))
            return None
        if name == "copy":
            return self.alloc(HList(h.segs))
        if name == "clear":
            self.put(v, HList([]))
            return None
        if name == "reverse":
            self.put(v, HList(self.reversed_segs(h.segs)))
            return None
        if name == "pop":
            i = args[0] if args else -1
            if i == -1 and h.segs and isinstance(h.segs[-1], One) and h.segs[-1].g is True:
                self.put(v, HList(h.segs[:-1]))
                return h.segs[-1].v
            if i == 0 and h.segs and isinstance(h.segs[0], One) and h.segs[0].g is True:
                self.put(v, HList(h.segs[1:]))
                return h.segs[0].v
            if i in (0, -1):
                x = self.getitem(v, i)
                self.put(v, HList(self.slice_segs(list(h.segs), 1, None) if i == 0 else self.slice_segs(list(h.segs), 0, -1)))
                return x
        raise Unsupported("list." + name)

    def set_method(self, name, v, args, kw):
        mut = ("add", "update", "remove", "discard", "pop", "clear")
        if name in mut and not (isinstance(v, Ref) and isinstance(self.get(v), HSet)):
            self.write(v, "set." + name)
        if name == "union":
            segs = list(self.segs_of(v))
            for a in args:
                segs += self.flat_union(a.v) if isinstance(a, Starred) else self.segs_of(a)
            return self.alloc(HSet(segs))
        if name == "add":
            h = self.get(v)
            self.put(v, HSet(h.segs + (One(True, args[0]),)))
            return None
        if name == "update":
            for a in args:
                s = self.flat_union(a.v) if isinstance(a, Starred) else self.segs_of(a)
                self.put(v, HSet(self.get(v).segs + tuple(s)))
            return None
        if name == "copy":
            return self.alloc(HSet(self.segs_of(v)))
        if name in ("remove", "discard"):
            return self.set_remove(name, v, args[0])
        if name == "issubset":
            b = args[0]
            return Not(self.any_seg(self.segs_of(v), lambda e: Not(self.contains(e, b))))
        if name == "issuperset":
            return Not(self.any_seg(self.segs_of(args[0]), lambda e: Not(self.contains(e, v))))
        if name in ("intersection", "difference"):
            return self.set_op("BitAnd" if name == "intersection" else "Sub", v, args[0])
        if name == "isdisjoint":
            return Not(self.any_seg(self.segs_of(v), lambda e: self.contains(e, args[0])))
        if name == "clear":
            self.put(v, HSet([]))
            return None
        raise Unsupported("set." + name)

    def set_remove(self, name, v, x):
        h = self.get(v)
        if name == "remove":
            self.raise_if(Not(self.contains(x, v)), KeyError)
        if self.own_position(x, self.get(v)):
            self.put(v, HSet(self.get(v).segs + (Minus(True, x),)))
            return None
        segs = self.iter_segs(list(self.get(v).segs), lambda y: [One(Not(self.eq(x, y)), y)])
        self.put(v, HSet(segs))
        return None

    def flat_union(self, v):
        """Elements of the sets in a sequence of sets."""
        return self.iterate(v, lambda s: self.segs_of(s))

    def dict_method(self, name, v, args, kw):
        if isinstance(v, types.MappingProxyType):
            v = dict(v)
        if name == "get":
            d = args[1] if len(args) > 1 else None
            if isinstance(v, dict):
                if concrete(args[0]):
                    return v.get(args[0], d)
                return self.table_get(list(v.items()), args[0], d, True)
            if isinstance(v, Ref):
                return self.dict_item(v, self.get(v), args[0], d, True)
            if isinstance(v, Sym):
                return self.symdict_item(v, args[0], d, True)
        if name in ("items", "keys", "values"):
            if isinstance(v, dict):
                return tuple(getattr(v, name)())
            if isinstance(v, Ref):
                return SeqV("view", self.dict_view(self.get(v), name))
            if isinstance(v, Sym):
                return SeqV("view", self.symdict_view(v, name))
        if name == "copy":
            d = self.alloc(HDict([]))
            self.dict_update(d, v)
            return d
        if not (isinstance(v, Ref) and isinstance(self.get(v), HDict)):
            self.write(v, "dict." + name)
        if name == "update":
            for a in args:
                self.dict_update(v, a)
            for k, x in kw.items():
                self.setitem(v, k, x)
            return None
        if name == "setdefault":
            d = args[1] if len(args) > 1 else None
            has = self.contains(args[0], v)

            def per(t):
                if t:
                    return self.getitem(v, args[0])
                self.setitem(v, args[0], d)
                return d
            return self.fork([(has, True), (Not(has), False)], per)
        if name == "pop":
            h = self.get(v)
            k = args[0]
            if concrete(k) and not h.segs and h.base is None:
                x = self.dict_item(v, h, k, args[1] if len(args) > 1 else None, len(args) > 1)
                h = self.get(v)
                self.put(v, HDict([e for e in h.entries if dkey(e[1]) != dkey(k)]))
                return x
        raise Unsupported("dict." + name)

    def date_method(self, cls, name, v, args, kw):
        w = self.w
        t = self.reify(v)
        if name == "isoformat" and not args and not kw:
            s = w.uf("iso_" + cls.__name__, V, V)(t)
            w.sym(s, STR)
            return SStr((("at", s),))
        if name == "utcoffset":
            return w.sym(w.uf("utcoffset", V, V)(t), OFFSET) if not self.tz_known(t) else self.typed(
                w.uf("utcoffset", V, V)(t), dt.timedelta)
        if name == "replace" and set(kw) == {"tzinfo"} and kw["tzinfo"] is None and not args:
            if t.decl().name() == "shifted_utc":
                r = w.uf("naive_utc", V, V)(t.arg(0))
            else:
                r = w.uf("strip_tz", V, V)(t)
                none = w.field(t, "tzinfo") == w.lit(None)
                w.axiom(z3.Implies(none, r == t))
            w.axiom(w.field(r, "tzinfo") == w.lit(None))
            return self.typed(r, dt.datetime)
        if name == "astimezone" and len(args) == 1 and args[0] is dt.timezone.utc:
            r = w.uf("as_utc", V, V)(t)
            return self.typed(r, dt.datetime)
        if name in ("timestamp", "date", "time", "strftime"):
            return self.sym_op("dt_" + name, [v] + list(args), str if name == "strftime" else None)
        raise Unsupported("datetime." + name)

    def tz_known(self, t):
        """The datetime is known to carry a zone whose offset is defined."""
        return False

    def regex_method(self, name, v, args):
        if name not in ("match", "fullmatch", "search") or len(args) != 1:
            raise Unsupported("regex " + name)
        x = args[0]

        def per(x):
            if isinstance(x, (str,)):
                return MatchV(getattr(v, name)(x) is not None)
            if isinstance(x, Sym):
                bad = [c for c in x.classes() if c is not str]
                if bad:
                    self.raise_if(self.class_guard(x, bad), TypeError)
            elif not isinstance(x, SStr):
                self.throw(TypeError)
            rid = regex.lang_id(v, name)
            return MatchV(self.w.matches(rid, self.reify(x)))
        return self.split(x, per)


TYPED = {}


def alt_sub(a, b, w, seen):
    """Every value of alternative a is one of alternative b."""
    if a is b:
        return True
    k = (id(a), id(b))
    if k in seen:
        return True
    if a.cls is not b.cls:
        return False
    seen = seen | {k}

    def ty_sub(t, u):
        if t is None or u is None:
            return t is u
        ua = w.alts_of(u)
        return all(any(alt_sub(x, y, w, seen) for y in ua) for x in w.alts_of(t))

    if b.consts is not None and (a.consts is None or not set(a.consts) <= set(b.consts)):
        return False
    if b.regex is not None and a.regex != b.regex:
        return False
    if b.nonempty and not a.nonempty:
        return False
    if b.lo is not None and (a.lo is None or a.lo < b.lo):
        return False
    if b.hi is not None and (a.hi is None or a.hi > b.hi):
        return False
    if (b.minlen or 0) > (a.minlen or 0):
        return False
    if b.maxlen is not None and (a.maxlen is None or a.maxlen > b.maxlen):
        return False
    if b.items is not None:
        return a.items is not None and len(a.items) == len(b.items) and all(
            ty_sub(x, y) for x, y in zip(a.items, b.items))
    if b.elem is not None and not ty_sub(a.elem, b.elem):
        return False
    if b.val is not None and not (ty_sub(a.key, b.key) and ty_sub(a.val, b.val)):
        return False
    if b.inv is not None and a.inv is not b.inv:
        return False
    if b.fields is not None:
        if a.fields is None:
            return False
        for f, t in b.fields.items():
            if f not in a.fields or not ty_sub(a.fields[f], t):
                return False
    return True


def norm_table(t):
    return tuple(sorted((k, x) for k, x in t.items() if k != x))


def sum_(xs):
    if not xs:
        return z3.IntVal(0)
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def op_kind(c):
    if c in (int, bool):
        return "int"
    if c in (float, str, bytes, list, tuple, set, dict):
        return c.__name__
    if c is frozenset:
        return "set"
    if c in (dt.datetime, dt.timedelta, dt.date):
        return c.__name__
    return "obj"


def str_kind(c):
    if c is str:
        return "str"
    if c is type(None):
        return "none"
    if c is bool:
        return "bool"
    if c in (int, float, dt.date, dt.datetime):
        return "num"
    f = getattr(c, "__str__", None)
    if isinstance(f, types.FunctionType) and not generated(f) and c.__module__.startswith("snuba_sdk"):
        return ("meth", f)
    return "other"


def static(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    raise AttributeError(name)


def hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def in_scope(f):
    m = (f.__module__ or "").split(".")[0]
    return m in ("snuba_sdk", "contracts", "engine") or f.__code__.co_filename == "<driver>" or hasattr(
        f, "__verif_source__")


def generated_wrapper(f):
    return True


from .builtin import BUILTINS, LAZY, Partial, FACTORIES, OFFSET, SPLIT, TZ  # noqa: E402
