"""Meaning of the built-in functions, of the library functions used, and of the specification vocabulary."""
from __future__ import annotations

import builtins
import copy
import dataclasses
import datetime as dt
import enum
import functools
import itertools
import json
import re
import types
import typing

import z3

from . import lang
from . import prelude
from .sym import And, BVAL, CLS, IVAL, Iff, Implies, Ite, LEN, MEM, NE, Not, Or, Sym, Unsupported, V
from .ty import Alt, NONE, STR, Ty, listof, opt
from .util import concrete, flat_classes, guard_seg
from .vals import (Bound, Clo, Dead, Enumer, GenV, HDict, HEnv, HInst, HList, HSet, LenV, Map, Method, One, RangeLen, Ref, SeqV,
                   SStr, Starred, Tok, TokSeg, TypeOf, U, is_bool, is_int, is_str, merge, parts_of, sstr)


class Partial:
    """functools.partial of something that is not a Python callable here (a bound symbolic method)."""

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, list(args), dict(kw)


class TzLike:
    """Any time zone object."""


OFFSET = Ty([Alt(dt.timedelta)], "timedelta")
TZ = opt(Ty([Alt(TzLike)], "tzinfo"))
SPLIT = listof(STR, minlen=1)
BUILTINS = {}
FACTORIES = {}


def builtin(*fs):
    def deco(g):
        for f in fs:
            BUILTINS[f] = g
        return g
    return deco


def nokw(kw):
    if kw:
        raise Unsupported("keyword argument of a built-in function")


@builtin(isinstance)
def b_isinstance(E, args, kw):
    c = args[1]
    if isinstance(c, U):
        return E.split(c, lambda x: b_isinstance(E, [args[0], x], kw))
    if isinstance(c, TypeOf):
        if isinstance(c.s, U):
            return E.split(c.s, lambda x: b_isinstance(E, [args[0], TypeOf(x)], kw))
        if isinstance(c.s, Sym):
            return E.by_class(c.s, lambda k: k, lambda k: E.isinst(args[0], k))
        return E.isinst(args[0], E.cls_of(c.s))
    return E.isinst(args[0], c)


@builtin(issubclass)
def b_issubclass(E, args, kw):
    a, b = args
    if isinstance(a, TypeOf):
        return E.isinst(a.s, b)
    return issubclass(a, flat_classes(b))


@builtin(len)
def b_len(E, args, kw):
    return E.length(args[0])


@builtin(repr)
def b_repr(E, args, kw):
    return E.repr_(args[0])


@builtin(format)
def b_format(E, args, kw):
    return E.format(args[0], args[1]) if len(args) > 1 else E.tostr(args[0])


@builtin(callable)
def b_callable(E, args, kw):
    return isinstance(args[0], (types.FunctionType, type, Clo, Bound))


@builtin(getattr)
def b_getattr(E, args, kw):
    if not isinstance(args[1], str):
        if isinstance(args[1], (U,)):
            return E.split(args[1], lambda n: b_getattr(E, [args[0], n] + args[2:], kw))
        alts = text_values(E, args[1])
        if alts is None:
            raise Unsupported("getattr with a computed name")
        return E.fork(alts, lambda n: b_getattr(E, [args[0], n] + args[2:], kw))
    if len(args) > 2:
        return E.getattr(args[0], args[1], args[2], True)
    return E.getattr(args[0], args[1])


def text_values(E, v):
    """[(guard, text)]: the finitely many texts v can be (None if there are more)."""
    out = [(True, "")]
    for p in parts_of(v) if is_str(v) else [("?",)]:
        if p[0] == "lit":
            here = [(True, p[1])]
        elif p[0] == "at":
            s = E.w.syms.get(p[1])
            if s is None or not s.alts or not all(a.cls is str and a.consts is not None for _, a in s.alts):
                return None
            here = [(s.term == E.w.lit(c), c) for c in dict.fromkeys(c for _, a in s.alts for c in a.consts)]
        else:
            return None
        out = [(And(g, h), x + y) for g, x in out for h, y in here]
        if len(out) > 200:
            return None
    return out


@builtin(hasattr)
def b_hasattr(E, args, kw):
    mark = object()
    s = E.snapshot()

    def one(x):
        if isinstance(x, Sym):
            cs = []
            for c in x.classes():
                has = any(a.cls is c and a.fields and args[1] in a.fields for _, a in x.alts) or hasattr(c, args[1])
                if has:
                    cs.append(c)
            return E.class_guard(x, cs) if cs else False
        if isinstance(x, U):
            return merge([(g, one(y)) for g, y in x.alts])
        return E.getattr(x, args[1], mark, True) is not mark

    r = one(args[0])
    E.restore(s)
    return r


@builtin(setattr)
def b_setattr(E, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported("setattr with a computed name")
    E.setattr(*args)


@builtin(typing.cast)
def b_cast(E, args, kw):
    return args[1]


@builtin(id)
def b_id(E, args, kw):
    raise Unsupported("id")


@builtin(hash)
def b_hash(E, args, kw):
    return E.hash_(args[0])


@builtin(range)
def b_range(E, args, kw):
    args = [a for a in args]
    if all(isinstance(a, int) for a in args):
        return range(*args)
    if len(args) == 1:
        args = [0, args[0]]
    if len(args) == 2 and isinstance(args[0], int) and isinstance(args[1], LenV):
        return RangeLen(args[1].seq, args[0])
    raise Unsupported("range")


@builtin(enumerate)
def b_enumerate(E, args, kw):
    st = args[1] if len(args) > 1 else kw.get("start", 0)
    return Enumer(args[0], st)


@builtin(zip)
def b_zip(E, args, kw):
    return E.lazy(lambda: E.segs_of(zipped(E, [E.force(a) for a in args])))


def zipped(E, args):
    segs = [E.ordered(a) for a in args]
    if all(isinstance(s, One) and s.g is True for ss in segs for s in ss):
        return SeqV("gen", [One(True, tuple(s.v for s in t)) for t in zip(*segs)])
    if len(args) == 2 and any(isinstance(a, range) and a.start == 0 and a.step == 1 for a in args):
        first = isinstance(args[0], range)
        r, x = args if first else args[::-1]
        segs = E.segs_of(Enumer(SeqV("tuple", E.slice_segs(E.ordered(x), None, len(r)))))
        return SeqV("gen", segs if first else E.iter_segs(segs, lambda t: [One(True, (t[1], t[0]))]))
    ms = [E.single_map(a) for a in args]
    if ms and all(m is not None and not m.unord and m.src.eq(ms[0].src) for m in ms):
        ms = [E.rescope(m) for m in ms]
        e = ms[0].e
        vs = [m.segs[0].v if m.e.eq(e) else E.subst_seg(m.segs[0], [(m.e, e)]).v for m in ms]
        return SeqV("gen", [Map(True, ms[0].src, e, [One(True, tuple(vs))])])
    raise Unsupported("zip")


@builtin(map)
def b_map(E, args, kw):
    if len(args) != 2:
        raise Unsupported("map over several sequences")
    return E.lazy(lambda: E.iterate(args[1], lambda x: [One(True, E.call(args[0], [x], {}))]))


@builtin(filter)
def b_filter(E, args, kw):
    def body(x):
        c = E.truth(x) if args[0] is None else E.truth_of(E.call(args[0], [x], {}))
        return [One(c, x)] if c is not False else []
    return E.lazy(lambda: E.iterate(args[1], body))


@builtin(reversed)
def b_reversed(E, args, kw):
    return E.lazy(lambda: E.reversed_segs(E.segs_of(args[0])))


@builtin(sorted)
def b_sorted(E, args, kw):
    v = args[0]
    key, rev = kw.get("key"), kw.get("reverse", False)
    segs = E.segs_of(v)
    if all(isinstance(s, One) and s.g is True and concrete(s.v) for s in segs) and key is None:
        return E.alloc(HList([One(True, x) for x in sorted([s.v for s in segs], reverse=rev)]))
    bad = []

    def strs(x):
        if key is not None:
            x = E.call(key, [x], {})
        t = E.isinst(x, (str,))
        if t is not True and not E.valid(t):
            bad.append(x)
        return []
    E.iter_segs(segs, strs)
    if bad:
        raise Unsupported("sorted")
    # texts are always comparable; the resulting order is not tracked
    if len(segs) == 1 and isinstance(segs[0], Map):
        E.w.n += 1
        return E.alloc(HList([E.derived_map(segs[0], "sorted%d" % E.w.n, True)]))
    return E.alloc(HList([TokSeg(Tok(-1))]))


@builtin(any, all)
def b_any(E, args, kw):
    raise Unsupported("any / all")


def b_any_(E, args, kw):
    return E.any_seg(E.segs_of(args[0]), E.truth)


def b_all_(E, args, kw):
    return Not(E.any_seg(E.segs_of(args[0]), lambda x: Not(E.truth(x))))


BUILTINS[any], BUILTINS[all] = b_any_, b_all_


@builtin(next)
def b_next(E, args, kw):
    segs = E.segs_of(args[0])
    if len(args) > 1:
        alts, none = [], []
        for s in segs:
            if not isinstance(s, One):
                return E.call(prelude.first_or, [SeqV("gen", segs), args[1]], {})
            alts.append((And(s.g, *none), s.v))
            none.append(Not(s.g))
        return merge(alts + [(And(*none), args[1])])
    return E.list_item(args[0], segs, 0)


@builtin(iter)
def b_iter(E, args, kw):
    return args[0] if isinstance(args[0], GenV) else E.lazy(lambda: E.ordered(args[0]))


@builtin(sum)
def b_sum(E, args, kw):
    segs = E.segs_of(args[0])
    acc = args[1] if len(args) > 1 else kw.get("start", 0)
    for s in segs:
        if not isinstance(s, One) or s.g is not True:
            raise Unsupported("sum")
        acc = E.binop("Add", acc, s.v)
    return acc


@builtin(min, max)
def b_minmax(E, args, kw):
    raise Unsupported("min / max")


def extreme(flip):
    def f(E, args, kw):
        if kw:
            raise Unsupported("min / max with a key")
        if len(args) == 1:
            segs = E.segs_of(args[0])
            if not segs or not all(isinstance(s, One) and s.g is True for s in segs):
                raise Unsupported("min / max")
            args = [s.v for s in segs]
        best = args[0]
        for x in args[1:]:
            c = E.less(best, x, True) if flip else E.less(x, best, True)
            best = merge([(c, x), (Not(c), best)])
        return best
    return f


BUILTINS[min], BUILTINS[max] = extreme(False), extreme(True)


@builtin(dict.fromkeys)
def b_fromkeys(E, args, kw):
    return E.call(prelude.fromkeys, [args[0], args[1] if len(args) > 1 else None], {})


@builtin(abs)
def b_abs(E, args, kw):
    v = args[0]
    if isinstance(v, U):
        return E.split(v, lambda x: b_abs(E, [x], {}))
    if isinstance(v, (int, float)):
        return abs(v)
    if z3.is_expr(v) and z3.is_int(v):
        return z3.If(v < 0, -v, v)
    if isinstance(v, Sym):
        def per(k):
            if k == "int":
                n = E.to_int(v)
                return z3.If(n < 0, -n, n)
            if k == "float":
                return E.sym_op("abs", [v], float)
            if k == "bad":
                E.throw(TypeError)
            raise Unsupported("abs")
        return E.by_class(v, lambda c: "int" if c in (int, bool) else "float" if c is float else "bad" if c in (
            str, bytes, list, tuple, dict, set, type(None), dt.datetime, dt.date) else "other", per)
    raise Unsupported("abs")


@builtin(print)
def b_print(E, args, kw):
    raise Unsupported("print")


@builtin(vars)
def b_vars(E, args, kw):
    raise Unsupported("vars")


# ---------------------------------------------------------------------- regular expressions
def rx(name):
    def f(E, args, kw):
        p = args[0]
        flags = args[2] if len(args) > 2 else kw.get("flags", 0)
        if isinstance(p, str):
            p = re.compile(p, flags)
        if not isinstance(p, re.Pattern):
            raise Unsupported("computed regular expression")
        return E.regex_method(name, p, [args[1]])
    return f


BUILTINS[re.match], BUILTINS[re.fullmatch], BUILTINS[re.search] = rx("match"), rx("fullmatch"), rx("search")


@builtin(re.compile)
def b_compile(E, args, kw):
    if all(isinstance(a, (str, int)) for a in args):
        return re.compile(*args)
    raise Unsupported("computed regular expression")


@builtin(re.sub)
def b_sub(E, args, kw):
    if isinstance(args[0], (str, re.Pattern)) and isinstance(args[1], str) and len(args) == 3:
        pat = args[0] if isinstance(args[0], str) else args[0].pattern
        m = re.fullmatch(r"\[([^\]^\\-]+)\]|([^\\.^$*+?{}\[\]|()])|\\(\W)", pat)
        if m and "\\" not in args[1]:
            cs = m.group(1) or m.group(2) or m.group(3)
            return sstr(E.charmap_parts(parts_of(E.need_str(args[2])), {c: args[1] for c in cs}))
    raise Unsupported("re.sub")


# ---------------------------------------------------------------------- dataclasses, json, itertools, copy
@builtin(dataclasses.replace)
def b_replace(E, args, kw):
    return E.replace(args[0], kw)


@builtin(dataclasses.fields)
def b_fields(E, args, kw):
    v = args[0]

    def per(c):
        if not dataclasses.is_dataclass(c):
            E.throw(TypeError)
        return tuple(dataclasses.fields(c))

    if isinstance(v, type):
        return per(v)
    if isinstance(v, Sym):
        return E.by_class(v, lambda c: c, per)
    return E.split(v, lambda x: per(E.cls_of(x)) if not isinstance(x, Sym) else b_fields(E, [x], kw))


SCALARS = (type(None), bool, int, float, str, bytes, dt.date, dt.datetime)


def plain_alts(alts, depth=0):
    """No dataclass object anywhere inside a value of these alternatives."""
    for a in alts:
        if a.cls in SCALARS or issubclass(a.cls, enum.Enum):
            continue
        if a.cls in (list, tuple, set, dict) and depth < 4:
            parts = [p for p in (a.elem, a.key, a.val) if p is not None] + list(a.items or ())
            if parts and all(plain_alts(p.resolve().alts, depth + 1) for p in parts):
                continue
        return False
    return True


def copied_segs(E, segs):
    out = []
    for s in segs:
        if isinstance(s, One):
            out.append(One(s.g, plain_copy(E, s.v)))
        elif isinstance(s, Map) and all(isinstance(x, One) and (isinstance(x.v, Sym) or is_str(x.v) or is_int(x.v))
                                        for x in s.segs):
            out.append(Map(s.g, s.src, s.e, [One(x.g, plain_copy(E, x.v)) for x in s.segs], s.unord))
        else:
            raise Unsupported("deep copy of a composed list")
    return out


def plain_copy(E, v):
    """dataclasses.asdict / copy.deepcopy of a value: the same value (later writes to it are out of reach)."""
    if isinstance(v, U):
        return merge([(g, plain_copy(E, x)) for g, x in v.alts])
    if isinstance(v, Sym):
        bad = [a.cls for g, a in v.alts if not plain_alts([a])]
        if bad and E.feasible(E.class_guard(v, list(dict.fromkeys(bad)))):
            raise Unsupported("deep copy of %s" % bad[0].__name__)
        return v
    if isinstance(v, Ref):
        h = E.get(v)
        if isinstance(h, HDict) and not h.segs and h.base is None:
            return E.alloc(HDict([(g, k, plain_copy(E, x)) for g, k, x in h.entries]))
        if isinstance(h, HList):
            return E.alloc(HList(copied_segs(E, h.segs)))
        if isinstance(h, HInst) and dataclasses.is_dataclass(h.cls):
            return b_asdict(E, [v], {})
        raise Unsupported("deep copy of %s" % type(h).__name__)
    if isinstance(v, tuple):
        return tuple(plain_copy(E, x) for x in v)
    if v is None or is_bool(v) or is_int(v) or is_str(v) or isinstance(v, (float, bytes, enum.Enum)):
        return v
    raise Unsupported("deep copy of %r" % (v,))


@builtin(dataclasses.asdict)
def b_asdict(E, args, kw):
    if kw or len(args) > 1:
        raise Unsupported("asdict with a factory")

    def per(x, c):
        if not dataclasses.is_dataclass(c):
            E.throw(TypeError)
        return E.alloc(HDict([(True, f.name, plain_copy(E, E.getattr(x, f.name))) for f in dataclasses.fields(c)]))

    def one(x):
        if isinstance(x, Sym):
            return E.by_class(x, lambda c: c, lambda c: per(x, c))
        return per(x, E.cls_of(x))

    return E.split(args[0], one)


@builtin(dataclasses.is_dataclass)
def b_is_dataclass(E, args, kw):
    v = args[0]
    if isinstance(v, type):
        return dataclasses.is_dataclass(v)
    if isinstance(v, Sym):
        cs = [c for c in v.classes() if dataclasses.is_dataclass(c)]
        return E.class_guard(v, cs) if cs else False
    if isinstance(v, U):
        return merge([(g, b_is_dataclass(E, [x], kw)) for g, x in v.alts])
    return dataclasses.is_dataclass(E.cls_of(v))


@builtin(itertools.chain)
def b_chain(E, args, kw):
    return E.lazy(lambda: chained(E, args))


def chained(E, args):
    segs = []
    for a in args:
        if isinstance(a, Starred):
            for s in E.iter_segs(E.segs_of(a.v), lambda x: E.segs_of(x)):
                segs.append(s)
        else:
            segs += E.segs_of(a)
    return segs


BUILTINS[itertools.chain.from_iterable] = lambda E, args, kw: b_chain(E, [Starred(args[0])], kw)


@builtin(json.dumps)
def b_dumps(E, args, kw):
    def one(x):
        r = E.sym_op("json_dumps" + ("_" + "_".join("%s_%s" % (k, kw[k]) for k in sorted(kw)) if kw else ""), [x], str)
        if not set(kw) - {"indent", "sort_keys", "separators", "ensure_ascii"}:
            E.jsons[r.parts[0][1]] = (x, {a: E.heap[a] for a in E.reach(x)})
        return r

    return E.split(args[0], one)


class JsonImage:
    """What json.loads(json.dumps(value)) gives: a function of the value."""


@builtin(json.loads)
def b_loads(E, args, kw):
    nokw(kw)

    def one(x):
        if isinstance(x, SStr) and len(x.parts) == 1 and x.parts[0][0] == "if":
            _, c, a, b = x.parts[0]
            return E.fork([(c, a), (Not(c), b)], lambda p: one(sstr(p)))
        t = E.reify(x)
        if t not in E.jsons:
            raise Unsupported("json.loads")
        v, heap = E.jsons[t]
        if any(E.heap.get(a, o) is not o for a, o in heap.items()):
            raise Unsupported("json.loads after a change of the value")
        E.heap = {**heap, **E.heap}
        return E.alloc(HInst(JsonImage, {"value": v}))

    return E.split(args[0], one)


@builtin(copy.copy)
def b_copy(E, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        h = E.get(v)
        if isinstance(h, HInst):
            return E.alloc(HInst(h.cls, dict(h.fields)))
        return E.alloc(h)
    if isinstance(v, Sym) and v.classes() == [dict]:
        return E.alloc(HDict([], (), v))
    if isinstance(v, Sym) and v.classes() == [list]:
        return E.alloc(HList(E.segs_of(v)))
    raise Unsupported("copy")


@builtin(copy.deepcopy)
def b_deepcopy(E, args, kw):
    raise Unsupported("deepcopy")


# ---------------------------------------------------------------------- specification vocabulary
@builtin(lang.mk)
def b_mk(E, args, kw):
    return E.alloc(HInst(args[0], dict(kw)))


@builtin(lang.updated)
def b_updated(E, args, kw):
    v = args[0]

    def one(x):
        if isinstance(x, Ref):
            h = E.get(x)
            return E.alloc(HInst(h.cls, {**h.fields, **kw}))
        if isinstance(x, Sym):
            def per(c):
                fs = {}
                for _, a in x.alts:
                    if a.cls is c and a.fields:
                        for f in a.fields:
                            fs[f] = E.w.fieldsym(x, f)[1]
                if not fs:
                    raise Unsupported("fields of %s unknown" % c.__name__)
                return E.alloc(HInst(c, {**fs, **kw}))
            return E.by_class(x, lambda c: c, per)
        raise Unsupported("updated(%r)" % (x,))

    return E.split(v, one)


@builtin(lang.reachable)
def b_reachable(E, args, kw):
    root, children = args
    f = children.fn if isinstance(children, Clo) and hasattr(children, "fn") else children
    for c, node in lang.CLOSURES:
        if c is f:
            return E.alloc(HList(E.reachable(root, c, node)))
    raise Unsupported("reachable() through an undeclared children function")


@builtin(lang.charmap)
def b_charmap(E, args, kw):
    t = args[1]
    if isinstance(t, Ref) and isinstance(E.get(t), HDict):
        h = E.get(t)
        if not h.segs and h.base is None and all(
                g is True and isinstance(k, str) and isinstance(x, str) for g, k, x in h.entries):
            t = {k: x for _, k, x in h.entries}
    if not isinstance(t, dict):
        raise Unsupported("computed character table")
    v = E.need_str(args[0])
    return sstr(E.charmap_parts(parts_of(v), t))


@builtin(lang.fullmatch)
def b_fullmatch(E, args, kw):
    return E.truth(rx("fullmatch")(E, args, kw))


@builtin(lang.naive_utc)
def b_naive(E, args, kw):
    v = args[0]
    w = E.w
    t = E.reify(v)
    tz = w.sym(w.field(t, "tzinfo"), TZ)
    return E.fork([(tz.term == w.lit(None), 1), (tz.term != w.lit(None), 0)],
                  lambda n: v if n else E.typed(w.uf("naive_utc", V, V)(t), dt.datetime))


@builtin(lang.union_of)
def b_union(E, args, kw):
    return E.alloc(HSet(E.flat_union(args[0])))


# ---------------------------------------------------------------------- classes called as functions
def factory(*cs):
    def deco(g):
        for c in cs:
            FACTORIES[c] = g
            BUILTINS[c] = g
        return g
    return deco


@factory(str)
def f_str(E, args, kw):
    nokw(kw)
    if not args:
        return ""
    if len(args) > 1:
        raise Unsupported("str with an encoding")
    return E.tostr(args[0])


@factory(bool)
def f_bool(E, args, kw):
    return E.truth_of(args[0]) if args else False


@factory(int)
def f_int(E, args, kw):
    v = args[0] if args else 0
    if isinstance(v, U):
        return E.split(v, lambda x: f_int(E, [x] + args[1:], kw))
    if len(args) > 1 or kw:
        raise Unsupported("int with a base")
    if isinstance(v, (str, float, int)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            E.throw(type(e))
    if is_int(v) or is_bool(v):
        return E.to_int(v)
    if isinstance(v, Sym) or isinstance(v, SStr):
        s = v if isinstance(v, Sym) else E.w.sym(E.reify(v), STR)

        def per(k):
            if k == "int":
                return IVAL(s.term)
            if k == "bad":
                E.throw(TypeError)
            if k == "str":
                E.raise_if(Not(E.w.uf("int_text", V, z3.BoolSort())(s.term)), ValueError)
            else:
                E.raise_if(E.w.uf("is_infinite", V, z3.BoolSort())(s.term), OverflowError)
                E.raise_if(E.w.uf("not_a_number", V, z3.BoolSort())(s.term), ValueError)
            return E.w.uf("to_int", V, z3.IntSort())(s.term)
        return E.by_class(s, lambda c: "int" if c in (int, bool) else "str" if c in (str, bytes) else "float"
                          if c is float else "bad", per)
    not_internal(v)
    E.throw(TypeError)


def not_internal(v):
    if type(v).__module__.startswith("engine") and not isinstance(v, Ref):
        raise Unsupported("conversion of %s" % type(v).__name__)


@factory(float)
def f_float(E, args, kw):
    v = args[0]
    if isinstance(v, U):
        return E.split(v, lambda x: f_float(E, [x], kw))
    if isinstance(v, (str, float, int)):
        try:
            return float(v)
        except (ValueError, OverflowError) as e:
            E.throw(type(e))
    if isinstance(v, (Sym, SStr)):
        s = v if isinstance(v, Sym) else E.w.sym(E.reify(v), STR)

        def per(k):
            if k == "bad":
                E.throw(TypeError)
            if k == "str":
                E.raise_if(Not(E.w.uf("float_text", V, z3.BoolSort())(s.term)), ValueError)
            return E.sym_op("to_float", [s], float)
        return E.by_class(s, lambda c: "num" if c in (int, bool, float) else "str" if c in (str, bytes) else "bad", per)
    if is_int(v) or is_bool(v):
        return E.sym_op("to_float", [v], float)
    not_internal(v)
    E.throw(TypeError)


@factory(list)
def f_list(E, args, kw):
    return E.alloc(HList(E.ordered(args[0]) if args else []))


@factory(tuple)
def f_tuple(E, args, kw):
    if not args:
        return ()
    v = args[0]
    if isinstance(v, tuple):
        return v
    if isinstance(v, Sym) and v.classes() == [tuple]:
        return v
    segs = E.ordered(v)
    if all(isinstance(s, One) and s.g is True for s in segs):
        return tuple(s.v for s in segs)
    return SeqV("tuple", segs)


@factory(set, frozenset)
def f_set(E, args, kw):
    return E.alloc(HSet(E.segs_of(args[0]) if args else []))


@factory(dict)
def f_dict(E, args, kw):
    d = E.alloc(HDict([]))
    if args:
        v = args[0]
        if isinstance(v, U):
            return E.split(v, lambda x: f_dict(E, [x], kw))
        if isinstance(v, Sym) and dict in v.classes() and v.classes() != [dict]:
            def copy(is_dict):
                c = E.alloc(HDict([], (), v)) if is_dict else E.dict_of_pairs(E.segs_of(v))
                for k, x in kw.items():
                    E.setitem(c, k, x)
                return c
            return E.by_class(v, lambda c: c is dict, copy)
        if isinstance(v, Sym) and v.classes() == [dict]:
            d = E.alloc(HDict([], (), v))
        elif isinstance(v, (dict,)) or isinstance(v, Ref) and isinstance(E.get(v), HDict):
            E.dict_update(d, v)
        else:
            d = E.dict_of_pairs(E.segs_of(v))
    for k, x in kw.items():
        E.setitem(d, k, x)
    return d


@factory(type)
def f_type(E, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    v = args[0]
    if isinstance(v, Sym) or isinstance(v, U):
        return E.split(v, lambda x: TypeOf(x) if isinstance(x, Sym) else E.cls_of(x))
    return E.cls_of(v)


@factory(object)
def f_object(E, args, kw):
    raise Unsupported("object()")


@factory(super)
def f_super(E, args, kw):
    from .vals import SuperV
    if len(args) == 2:
        return SuperV(args[0], args[1])
    raise Unsupported("super()")


@factory(dt.timedelta)
def f_timedelta(E, args, kw):
    if all(isinstance(a, (int, float)) for a in list(args) + list(kw.values())):
        return dt.timedelta(*args, **kw)
    ts = list(args) + [kw[k] for k in sorted(kw)]
    return E.sym_op("timedelta_%d_%s" % (len(args), "_".join(sorted(kw))), ts, dt.timedelta)


@builtin(functools.reduce)
def b_reduce(E, args, kw):
    f, it = args[0], args[1]
    if len(args) == 2:
        segs = E.segs_of(it)
        if not segs or not isinstance(segs[0], One) or segs[0].g is not True:
            raise Unsupported("reduce without an initial value")
        init, it = segs[0].v, SeqV("tuple", segs[1:])
    else:
        init = args[2]
    env = E.alloc(HEnv({"acc": init})).a

    def body(v):
        acc = E.heap[env].vars["acc"]
        new = E.call(f, [acc, v], {})
        E.heap[env] = HEnv({"acc": new})
        return []

    E.iterate(it, body)
    return E.heap[env].vars["acc"]


@factory(functools.partial)
def f_partial(E, args, kw):
    return functools.partial(*args, **kw) if callable(args[0]) else Partial(args[0], args[1:], kw)


@builtin(dt.datetime.strptime)
def b_strptime(E, args, kw):
    nokw(kw)
    text, style = args
    if not isinstance(style, str):
        raise Unsupported("strptime with a computed format")
    if isinstance(text, str):
        try:
            return dt.datetime.strptime(text, style)
        except ValueError:
            E.throw(ValueError)
    t = E.reify(E.need_str(text))
    ok = E.w.uf("strptime_ok", V, V, z3.BoolSort())(t, E.w.lit(style))
    E.raise_if(Not(ok), ValueError)
    return E.typed(E.w.uf("strptime", V, V, V)(t, E.w.lit(style)), dt.datetime)


def partial_op(E, name, arg, ty, exc):
    """An uninterpreted partial function of one value: raises exc outside its domain."""
    t = E.reify(arg)
    E.raise_if(Not(E.w.uf(name + "_ok", V, z3.BoolSort())(t)), exc)
    return E.w.sym(E.w.uf(name, V, V)(t), ty)


@factory(dt.datetime, dt.date)
def f_datetime(E, args, kw):
    raise Unsupported("construction of a date")


@builtin(set.union)
def b_set_union(E, args, kw):
    if len(args) == 1 and isinstance(args[0], Starred):
        segs = E.segs_of(args[0].v)
        E.raise_if(Not(E.segs_nonempty(segs)), TypeError)
        return E.alloc(HSet(E.flat_union(args[0].v)))
    if any(isinstance(a, Starred) for a in args):
        segs = []
        for a in args:
            segs += E.flat_union(a.v) if isinstance(a, Starred) else E.segs_of(a)
        return E.alloc(HSet(segs))
    return E.call_method(Method(set, "union"), args[0], args[1:], kw)


@builtin(itertools.islice)
def b_islice(E, args, kw):
    lo, hi = (None, args[1]) if len(args) == 2 else (args[1], args[2])
    if len(args) > 3 or not all(x is None or type(x) is int and x >= 0 for x in (lo, hi)):
        raise Unsupported("islice")
    return E.lazy(lambda: E.slice_segs(E.ordered(E.force(args[0])), lo, hi))


# iterators are handed on unstarted by these
LAZY = {zip, map, filter, iter, itertools.chain, itertools.islice, isinstance, type, id, callable, getattr, hasattr, setattr}
