"""Symbolic evaluator of the Python subset used by the SDK and by the specifications.

It executes the statements of the current source files over symbolic inputs.  All paths are followed; states
are merged again where paths meet.  Loops over collections of unknown size are summarised for a generic
element (no unrolling bound); calls of functions under contract are replaced by their contracts.
"""
from __future__ import annotations

import ast
import builtins
import dataclasses
import datetime as dt
import enum
import inspect
import re
import types

import z3

from . import regex
from . import source
from .lang import OPAQUE
from .sym import (And, B, BVAL, CLS, DROP, EQ, FINF, FNAN, FTRUE, FVAL, GETV, IDX, IVAL, Iff, Implies, Ite, LEN, MEM, NE, Not, Or,
                  Sym, float_eq, float_lt, float_parts,
                  Unsupported, V, mentions)
from .ty import Other
from .util import *  # noqa: F401,F403
from .vals import *  # noqa: F401,F403
from .vals import POISON, lit_part

CONSTS = (str, int, float, bool, bytes, type(None), enum.Enum)
PROVE_MS = 20000
FEAS_MS = 400


class Frame:
    def __init__(self, info, env, cls=None, obj=None):
        self.info, self.env, self.cls, self.obj = info, env, cls, obj
        self.rets = []
        self.loops = []
        self.yields = None
        self.hook = None
        self.node = None


class Loop:
    def __init__(self):
        self.breaks, self.conts = [], []


class CtxV:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


def sdk_class(c):
    return (c.__module__ or "").startswith("snuba_sdk") and not issubclass(c, enum.Enum)


class Interp:
    def __init__(self, world, contracts=None):
        self.w = world
        self.heap = {}
        self.pc = ()
        self.handlers = [[]]
        self.addr = 0
        self.nraises = 0
        self.partial = False        # leave out the paths that cannot be followed (only used to find frame violations)
        self.stack = []
        self.contracts = contracts or {}
        self.opened = lambda f: False
        self.unfold = ()
        self.frame_writes = []
        self.exc_stack = []
        self.used_contracts = set()
        self.setlens = []
        self.hashed = []
        self.openeq, self.eqdepth = False, 0
        self.jsons = {}
        self.inlined = set()
        self.where = None
        self.top = None
        self.pre_failures = []
        self.steps = 0
        self.deadline = None
        self.soft = set()
        self.chans = []

    # ------------------------------------------------------------------ states
    def feasible(self, g):
        if g is True:
            return True
        if g is False:
            return False
        for c in self.pc:
            if c.eq(g):
                return True
        n = Not(g)
        for c in self.pc:
            if c.eq(n):
                return False
        return self.w.check(list(self.pc) + [g], FEAS_MS) != z3.unsat

    def valid(self, f, pc=None, ms=None):
        if f is True:
            return True
        pc = self.pc if pc is None else pc
        return self.w.check(list(pc) + [Not(f)], ms or PROVE_MS) == z3.unsat

    def fork(self, alts, fn):
        alts = [(g, p) for g, p in alts if g is not False]
        if not alts:
            raise Dead
        if len(alts) == 1 and alts[0][0] is True:
            return fn(alts[0][1])
        feas = [(g, p) for g, p in alts if self.feasible(g)]
        if not feas:
            raise Dead
        if len(feas) == 1:
            return fn(feas[0][1])
        heap, pc, scopes = self.heap, self.pc, len(self.w.scopes)
        outs = []
        for g, p in feas:
            self.heap, self.pc = dict(heap), pc + (g,)
            try:
                v = fn(p)
            except Dead:
                continue
            except Unsupported as u:
                if not self.partial or "out of time" in str(u):
                    raise
                while len(self.w.scopes) > scopes:
                    self.w.close()
                self.nraises += 1           # this path is left out
                continue
            outs.append((g, self.heap, self.pc, v))
        if not outs:
            raise Dead
        if len(outs) == 1:
            _, self.heap, self.pc, v = outs[0]
            return v
        self.heap = self.merge_heaps([(g, h) for g, h, _, _ in outs])
        if len(outs) == len(feas) and all(len(p) == len(pc) + 1 for _, _, p, _ in outs):
            self.pc = pc
        else:
            self.pc = self.extend(pc, Or(*[And(*p[len(pc):]) for _, _, p, _ in outs]))
        return merge([(g, v) for g, _, _, v in outs])

    def extend(self, pc, c):
        if c is True:
            return pc
        if c is False:
            raise Dead
        return pc + (c,)

    def assume(self, c):
        self.pc = self.extend(self.pc, c)

    def merge_states(self, states, base_pc, total=False):
        """states: (heap, pc, val); the pcs extend base_pc and are mutually exclusive."""
        if not states:
            raise Dead
        if len(states) == 1:
            self.heap, self.pc, v = states[0]
            if total:
                self.pc = base_pc
            return v
        n = len(base_pc)
        gs = [And(*p[n:]) for _, p, _ in states]
        self.heap = self.merge_heaps([(g, h) for g, (h, _, _) in zip(gs, states)])
        self.pc = base_pc if total else self.extend(base_pc, Or(*gs))
        return merge([(g, v) for g, (_, _, v) in zip(gs, states)])

    def merge_heaps(self, hs):
        out = {}
        first = hs[0][1]
        keys = dict.fromkeys(k for _, h in hs for k in h)
        for k in keys:
            objs = [(g, h[k]) for g, h in hs if k in h]
            o = objs[0][1]
            if all(x is o for _, x in objs):
                out[k] = o
            else:
                out[k] = self.merge_obj(objs)
        return out

    def merge_obj(self, objs):
        o = objs[0][1]
        if isinstance(o, (HList, HSet)):
            segs = [list(x.segs) for _, x in objs]
            pre = []
            while all(segs) and all(seg_same(s[0], segs[0][0]) for s in segs):
                pre.append(segs[0][0])
                for s in segs:
                    s.pop(0)
            for (g, _), ss in zip(objs, segs):
                pre += [guard_seg(x, g) for x in ss]
            return type(o)(pre)
        if isinstance(o, HInst):
            fs = {}
            for f in dict.fromkeys(k for _, x in objs for k in x.fields):
                fs[f] = merge([(g, x.fields.get(f, POISON)) for g, x in objs])
            return HInst(o.cls, fs)
        if isinstance(o, HEnv):
            fs = {}
            for f in dict.fromkeys(k for _, x in objs for k in x.vars):
                fs[f] = merge([(g, x.vars.get(f, POISON)) for g, x in objs])
            return HEnv(fs, o.parent)
        if isinstance(o, HDict):
            if any(x.base is not o.base for _, x in objs):
                raise Unsupported("merge of different dict copies")
            es = {}
            for g, x in objs:
                for h, k, v in x.entries:
                    es.setdefault(dkey(k), (k, []))[1].append((And(g, h), v))
            segs = [list(x.segs) for _, x in objs]
            rest = []
            while all(segs) and all(seg_same(s[0], segs[0][0]) for s in segs):
                rest.append(segs[0][0])
                for s in segs:
                    s.pop(0)
            for (g, _), ss in zip(objs, segs):
                rest += [guard_seg(x, g) for x in ss]
            ents = []
            for k, alts in es.values():
                full = len(alts) == len(objs) and all(
                    any(h is True or h is g or (z3.is_expr(h) and z3.is_expr(g) and h.eq(g)) for g, _ in objs)
                    for h, _ in alts)
                ents.append((True if full else Or(*[g for g, _ in alts]), k, merge(alts)))
            return HDict(ents, rest, o.base)
        raise Unsupported("merge of %s" % type(o).__name__)

    def alloc(self, h):
        self.addr += 1
        self.heap[self.addr] = h
        return Ref(self.addr)

    def get(self, r):
        return self.heap[r.a]

    def put(self, r, h):
        self.heap[r.a] = h

    # ------------------------------------------------------------------ exceptions
    def throw(self, exc):
        if isinstance(exc, type):
            exc = ExcV(exc)
        if not hasattr(exc, "where"):
            exc.where = self.where
        self.handlers[-1].append((self.heap, self.pc, exc))
        self.nraises += 1
        raise Dead

    def raise_if(self, cond, cls):
        if cond is False:
            return
        if cond is True:
            self.throw(cls)
        if not self.feasible(cond):
            return
        exc = ExcV(cls)
        exc.where = self.where
        self.handlers[-1].append((dict(self.heap), self.pc + (cond,), exc))
        self.nraises += 1
        n = Not(cond)
        if not self.feasible(n):
            raise Dead
        self.pc = self.pc + (n,)

    # ------------------------------------------------------------------ classes and truth
    def split(self, v, fn):
        if isinstance(v, U):
            return self.fork(v.alts, lambda x: self.split(x, fn))
        return fn(v)

    def cls_of(self, v):
        """Exact class of a value that is not symbolic."""
        if is_bool(v):
            return bool
        if is_int(v):
            return int
        if is_str(v):
            return str
        if isinstance(v, Ref):
            h = self.get(v)
            return {HList: list, HSet: set, HDict: dict}.get(type(h)) or h.cls
        if isinstance(v, SeqV):
            return tuple if v.kind == "tuple" else types.GeneratorType
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, (Clo, Bound)):
            return types.FunctionType
        if isinstance(v, (Poison, Tok)):
            raise Unsupported("use of an untracked value %r" % v)
        if isinstance(v, Index):
            return int
        return type(v)

    def isinst(self, v, classes):
        classes = flat_classes(classes)
        if isinstance(v, U):
            return Or(*[And(g, self.isinst(x, classes)) for g, x in v.alts])
        if isinstance(v, Sym):
            cs = [c for c in v.classes() if issubclass(c, classes) and (c is not Other or object in classes)]
            if len(cs) == len(v.classes()):
                return True
            return Or(*[CLS(v.term) == self.w.cid(c) for c in cs])
        return issubclass(self.cls_of(v), classes)

    def class_guard(self, s, cs):
        if len(cs) == len(s.classes()):
            return True
        return Or(*[CLS(s.term) == self.w.cid(c) for c in cs])

    def by_class(self, s, key, fn):
        """Fork on key(class) for a symbolic value."""
        groups = {}
        for c in s.classes():
            groups.setdefault(key(c), []).append(c)
        if not groups:
            raise Unsupported("value of unknown class: %s" % s.term)
        if len(groups) == 1:
            return fn(next(iter(groups)))
        return self.fork([(self.class_guard(s, cs), k) for k, cs in groups.items()], fn)

    def truth(self, v):
        if is_bool(v):
            return v
        if isinstance(v, U):
            return merge([(g, self.truth(x)) for g, x in v.alts])
        if isinstance(v, LenV):
            return v.term > 0 if z3.is_expr(v.term) else v.term > 0
        if isinstance(v, Index):
            raise Unsupported("truth of a position")
        if is_int(v):
            return v != 0
        if isinstance(v, (str, bytes, float, type(None), enum.Enum, tuple, type, types.FunctionType, re.Pattern)):
            return bool(v)
        if isinstance(v, (list, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, SStr):
            return self.str_nonempty(v.parts)
        if isinstance(v, MatchV):
            return v.c
        if isinstance(v, (Clo, Bound, ExcV, TypeOf)):
            return True
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, (HList, HSet)):
                return self.segs_nonempty(h.segs)
            if isinstance(h, HDict):
                base = NE(h.base.term) if h.base is not None else False
                return Or(*[g for g, _, _ in h.entries], self.segs_nonempty(h.segs), base)
            if hasattr(h.cls, "__bool__") or hasattr(h.cls, "__len__"):
                raise Unsupported("truth of %s" % h.cls.__name__)
            return True
        if isinstance(v, SeqV):
            return True if v.kind == "gen" else self.segs_nonempty(v.segs)
        if isinstance(v, Sym):
            t = v.term
            yes, conds = [], []
            groups = {}
            for c in v.classes():
                groups.setdefault(truth_kind(c), []).append(c)
            for k, cs in groups.items():
                g = self.class_guard(v, cs)
                f = {"none": False, "bool": BVAL(t), "int": IVAL(t) != 0, "float": FTRUE(t), "ne": NE(t),
                     "true": True, "other": self.w.uf("other_truth", V, z3.BoolSort())(t)}[k]
                conds.append(And(g, f))
            return Or(*conds)
        raise Unsupported("truth of %r" % (v,))

    def str_nonempty(self, parts):
        out = []
        for p in parts:
            if p[0] == "lit":
                return True
            if p[0] in ("at",):
                out.append(NE(p[1]))
            elif p[0] == "map":
                out.append(NE(p[2]))
            elif p[0] == "if":
                out.append(Ite(p[1], self.str_nonempty(p[2]), self.str_nonempty(p[3])))
            elif p[0] == "join":
                segs = p[2]
                if p[1] == () or p[1] == "":
                    out.append(self.any_seg(segs, lambda v: self.truth(v)))
                else:
                    out.append(Or(self.any_seg(segs, lambda v: self.truth(v)), self.two_segs(segs)))
            else:
                raise Unsupported("emptiness of string %r" % (p,))
        return Or(*out)

    def two_segs(self, segs):
        """The segments have two elements or more."""
        return self.count(segs) >= 2

    def any_seg(self, segs, fn):
        """Some element of the segments satisfies fn (pure)."""
        out = []
        for s in segs:
            if isinstance(s, One):
                out.append(And(s.g, fn(s.v)))
            elif isinstance(s, Map):
                s = self.rescope(s)
                self.w.open(s.e, MEM(s.src, s.e))
                try:
                    x = self.any_seg(s.segs, fn)
                finally:
                    self.w.close()
                self.w.source(s.src)
                out.append(And(s.g, self.w.exists(s.src, s.e, x)[0]))
            else:
                raise Unsupported("loop-carried sequence")
        return Or(*out)

    def segs_nonempty(self, segs):
        return self.any_seg(segs, lambda v: True)

    def rescope(self, m):
        """A Map whose bound element is not in scope already."""
        if any(s[0].eq(m.e) for s in self.w.scopes):
            e2 = self.w.elemvar(m.src)
            segs = tuple(self.subst_seg(s, [(m.e, e2)]) for s in m.segs)
            return Map(m.g, m.src, e2, segs, m.unord)
        return m

    # ------------------------------------------------------------------ substitution
    def subst_f(self, f, pairs):
        if isinstance(f, bool) or f is None:
            return f
        return z3.substitute(f, *pairs)

    def subst_seg(self, s, pairs):
        if isinstance(s, One):
            return One(self.subst_f(s.g, pairs), self.subst(s.v, pairs))
        if isinstance(s, Map):
            return Map(self.subst_f(s.g, pairs), z3.substitute(s.src, *pairs), s.e,
                       [self.subst_seg(x, pairs) for x in s.segs], s.unord)
        return s

    def subst_part(self, p, pairs):
        if p[0] == "at":
            return ("at", z3.substitute(p[1], *pairs))
        if p[0] == "map":
            return ("map", p[1], z3.substitute(p[2], *pairs))
        if p[0] == "if":
            return ("if", self.subst_f(p[1], pairs), tuple(self.subst_part(x, pairs) for x in p[2]),
                    tuple(self.subst_part(x, pairs) for x in p[3]))
        if p[0] == "join":
            return ("join", tuple(self.subst_part(x, pairs) for x in p[1]),
                    tuple(self.subst_seg(x, pairs) for x in p[2]))
        return p

    def subst(self, v, pairs):
        if z3.is_expr(v):
            return z3.substitute(v, *pairs)
        if isinstance(v, Sym):
            return self.w.subst_sym(v, pairs)
        if isinstance(v, U):
            return U([(self.subst_f(g, pairs), self.subst(x, pairs)) for g, x in v.alts])
        if isinstance(v, SStr):
            return sstr([self.subst_part(p, pairs) for p in v.parts])
        if isinstance(v, tuple):
            return tuple(self.subst(x, pairs) for x in v)
        if isinstance(v, SeqV):
            return SeqV(v.kind, [self.subst_seg(x, pairs) for x in v.segs])
        if isinstance(v, LenV):
            return LenV(self.subst(v.seq, pairs), self.subst(v.term, pairs))
        if isinstance(v, MatchV):
            return MatchV(self.subst_f(v.c, pairs))
        if isinstance(v, Bound):
            return Bound(v.f, self.subst(v.self, pairs))
        if isinstance(v, Ref):
            h = self.get(v)
            n = self.subst_obj(h, pairs)
            return v if n is h else self.alloc(n)
        return v

    def subst_obj(self, h, pairs):
        if isinstance(h, (HList, HSet)):
            segs = [self.subst_seg(s, pairs) for s in h.segs]
            if all(seg_same(a, b) for a, b in zip(segs, h.segs)):
                return h
            return type(h)(segs)
        if isinstance(h, HInst):
            fs = {k: self.subst(x, pairs) for k, x in h.fields.items()}
            if all(same(fs[k], h.fields[k]) for k in fs):
                return h
            return HInst(h.cls, fs)
        if isinstance(h, HDict):
            es = [(self.subst_f(g, pairs), k, self.subst(x, pairs)) for g, k, x in h.entries]
            segs = [self.subst_seg(s, pairs) for s in h.segs]
            base = None if h.base is None else self.subst(h.base, pairs)
            return HDict(es, segs, base)
        return h

    # ------------------------------------------------------------------ terms
    def named(self, t):
        """A name for a conditional term (solver patterns may not contain conditionals)."""
        if not z3.is_app_of(t, z3.Z3_OP_ITE):
            return t
        w = self.w
        es = [s[0] for s in w.scopes if mentions(t, s[0])]
        key = ("ite", t.get_id()) + tuple(e.get_id() for e in es)
        if key not in w.rkeys:
            w.n += 1
            n = w.uf("ite%d" % w.n, *([V] * (len(es) + 1)))(*es) if es else w.fresh("ite", V)
            w.rkeys[key] = (n, t)
            w.axiom(n == t)
        return w.rkeys[key][0]

    def reify(self, v):
        """The logical value of an engine value."""
        w = self.w
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, (bool, int, float, str, bytes, type(None), enum.Enum)):
            return w.lit(v)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return z3.If(v, w.lit(True), w.lit(False))
            if z3.is_int(v):
                t = w.uf("mk_int", z3.IntSort(), V)(v)
                w.axiom(And(IVAL(t) == v, CLS(t) == w.cid(int)))
                return t
            return v
        if isinstance(v, LenV):
            return self.reify(v.term if z3.is_expr(v.term) else v.term)
        if isinstance(v, U):
            ts = [(g, self.reify(x)) for g, x in v.alts]
            r = ts[-1][1]
            for g, t in reversed(ts[:-1]):
                r = z3.If(B(g), t, r)
            return self.named(r)
        if isinstance(v, SStr):
            if len(v.parts) == 1 and v.parts[0][0] == "at":
                return v.parts[0][1]
            if len(v.parts) == 1 and v.parts[0][0] == "if":
                _, c, a, b = v.parts[0]
                return z3.If(B(c), self.reify(sstr(a)), self.reify(sstr(b)))
        if isinstance(v, Ref) and isinstance(self.get(v), HInst):
            h = self.get(v)
            fs = sorted(h.fields)
            ts = [self.reify(h.fields[f]) for f in fs]
            t = w.uf("mk_%s_%s" % (h.cls.__name__, "_".join(fs)), *([V] * (len(ts) + 1)))(*ts) if ts else w.fresh(
                "obj", V)
            w.axiom(CLS(t) == w.cid(h.cls))
            for f, x in zip(fs, ts):
                w.axiom(w.field(t, f) == x)
            return t
        if isinstance(v, (types.FunctionType, type, types.ModuleType, re.Pattern)):
            return w.lit(v)
        if isinstance(v, tuple):
            ts = [self.reify(x) for x in v]
            t = w.uf("mk_tuple%d" % len(ts), *([V] * (len(ts) + 1)))(*ts) if ts else w.uf("mk_tuple0", V)()
            if isinstance(t, z3.FuncDeclRef):
                t = t()
            w.axiom(And(CLS(t) == w.cid(tuple), LEN(t) == len(ts), NE(t) == bool(ts)))
            for i, x in enumerate(ts):
                w.axiom(And(IDX(t, i) == x, MEM(t, x)))
            return t
        if isinstance(v, (MatchV, Poison, Tok, ExcV, GenV)):
            raise Unsupported("reify %r" % (v,))
        key = self.vkey(v)
        k = (key, tuple(s[0].get_id() for s in w.scopes if self.key_mentions(v, s[0])))
        if k in w.rkeys:
            return w.rkeys[k]
        sc = w.scopes
        w.scopes = [s for s in sc if self.key_mentions(v, s[0])]
        try:
            t = w.fresh("val", V)
        finally:
            w.scopes = sc
        w.rkeys[k] = t
        c = self.cls_of(v)
        w.axiom(CLS(t) == w.cid(c))
        if c is str:
            w.axiom(And(NE(t) == B(self.truth(v)), NE(t) == (t != w.lit(""))))
        elif c in (list, tuple, set, dict):
            w.axiom(NE(t) == B(self.truth(v)))
        return t

    def key_mentions(self, v, e):
        found = []

        def f(x):
            if not isinstance(x, bool) and x is not None and mentions(x, e):
                found.append(1)

        self.walk(v, f)
        return bool(found)

    def walk(self, v, f):
        if z3.is_expr(v):
            f(v)
        elif isinstance(v, Sym):
            f(v.term)
        elif isinstance(v, U):
            for g, x in v.alts:
                f(g)
                self.walk(x, f)
        elif isinstance(v, SStr):
            for p in v.parts:
                self.walk_part(p, f)
        elif isinstance(v, tuple):
            for x in v:
                self.walk(x, f)
        elif isinstance(v, SeqV):
            for s in v.segs:
                self.walk_seg(s, f)
        elif isinstance(v, LenV):
            self.walk(v.term, f)
        elif isinstance(v, MatchV):
            f(v.c)
        elif isinstance(v, Bound):
            self.walk(v.self, f)
        elif isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, (HList, HSet)):
                for s in h.segs:
                    self.walk_seg(s, f)
            elif isinstance(h, HInst):
                for x in h.fields.values():
                    self.walk(x, f)
            elif isinstance(h, HDict):
                for g, _, x in h.entries:
                    f(g)
                    self.walk(x, f)
                for s in h.segs:
                    self.walk_seg(s, f)
                if h.base is not None:
                    f(h.base.term)

    def walk_part(self, p, f):
        if p[0] == "at":
            f(p[1])
        elif p[0] == "map":
            f(p[2])
        elif p[0] == "if":
            f(p[1])
            for x in p[2] + p[3]:
                self.walk_part(x, f)
        elif p[0] == "join":
            for x in p[1]:
                self.walk_part(x, f)
            for s in p[2]:
                self.walk_seg(s, f)

    def walk_seg(self, s, f):
        if isinstance(s, One):
            f(s.g)
            self.walk(s.v, f)
        elif isinstance(s, Map):
            f(s.g)
            f(s.src)
            for x in s.segs:
                self.walk_seg(x, f)

    def vkey(self, v):
        def fk(f):
            if isinstance(f, bool):
                return f
            self.w.keepalive.append(f)
            return f.get_id()

        def sk(s):
            if isinstance(s, One):
                return ("1", fk(s.g), self.vkey(s.v))
            if isinstance(s, Map):
                return ("m", fk(s.g), fk(s.src), fk(s.e), tuple(sk(x) for x in s.segs), s.unord)
            raise Unsupported("key of loop-carried sequence")

        def pk(p):
            if p[0] == "at":
                return ("at", fk(p[1]))
            if p[0] == "map":
                return ("map", p[1], fk(p[2]))
            if p[0] == "if":
                return ("if", fk(p[1]), tuple(map(pk, p[2])), tuple(map(pk, p[3])))
            if p[0] == "join":
                return ("join", tuple(map(pk, p[1])), tuple(map(sk, p[2])))
            if p[0] == "lit":
                return p
            raise Unsupported("key of %r" % (p,))

        if z3.is_expr(v):
            return ("t", fk(v))
        if isinstance(v, Sym):
            return ("t", fk(v.term))
        if isinstance(v, U):
            return ("U",) + tuple((fk(g), self.vkey(x)) for g, x in v.alts)
        if isinstance(v, SStr):
            return ("S",) + tuple(map(pk, v.parts))
        if isinstance(v, tuple):
            return ("tup",) + tuple(map(self.vkey, v))
        if isinstance(v, SeqV):
            return ("seq", v.kind) + tuple(map(sk, v.segs))
        if isinstance(v, LenV):
            return self.vkey(v.term)
        if isinstance(v, Ref):
            h = self.get(v)
            if isinstance(h, (HList, HSet)):
                return (type(h).__name__,) + tuple(map(sk, h.segs))
            if isinstance(h, HInst):
                return ("I", h.cls) + tuple((k, self.vkey(x)) for k, x in sorted(h.fields.items()))
            if isinstance(h, HDict):
                return ("D", tuple((fk(g), dkey(k), self.vkey(x)) for g, k, x in h.entries), tuple(map(sk, h.segs)),
                        None if h.base is None else fk(h.base.term))
        if isinstance(v, (str, int, float, bytes, type(None), enum.Enum)):
            return (type(v).__name__, repr(v))
        return ("obj", id(v))

    # ------------------------------------------------------------------ equality and comparison
    def is_(self, a, b):
        if isinstance(a, U):
            return merge([(g, self.is_(x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return merge([(g, self.is_(a, x)) for g, x in b.alts])
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            if isinstance(b, TypeOf):
                return self.same_class(a.s, b.s)
            return self.exact(a.s, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if not isinstance(a, Sym):
                a, b = b, a
            if isinstance(b, Sym):
                if a.term.eq(b.term):
                    return True
                if all(issubclass(c, IDENTITY) for c in a.classes()) or all(
                        issubclass(c, IDENTITY) for c in b.classes()):
                    return a.term == b.term
                raise Unsupported("object identity")
            if b is None or isinstance(b, (bool, enum.Enum)):
                if not any(issubclass(c, type(b)) for c in a.classes()):
                    return False
                return a.term == self.w.lit(b)
            if z3.is_expr(b) and z3.is_bool(b):
                return And(CLS(a.term) == self.w.cid(bool), Iff(BVAL(a.term), b))
            if isinstance(b, (Ref, type, types.FunctionType)):
                return False
            raise Unsupported("identity with %r" % (b,))
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.a == b.a
        if isinstance(a, (Poison, Tok)) or isinstance(b, (Poison, Tok)):
            raise Unsupported("identity of an untracked value")
        if is_bool(a) and is_bool(b):
            return Iff(a, b)
        if isinstance(a, MatchV) and b is None:
            return Not(a.c)
        if isinstance(b, MatchV) and a is None:
            return Not(b.c)
        if isinstance(a, (SStr, SeqV, LenV)) or isinstance(b, (SStr, SeqV, LenV)) or z3.is_expr(a) or z3.is_expr(b):
            if a is None or b is None:
                return False
            if isinstance(a, (bool, enum.Enum)) or isinstance(b, (bool, enum.Enum)):
                return False
            raise Unsupported("identity of strings")
        if a is not b and type(a) is type(b) and isinstance(a, (str, int, float, bytes, tuple)) and not isinstance(
                a, (bool, enum.Enum)):
            raise Unsupported("identity of constants")
        return a is b

    def exact(self, v, cls):
        """type(v) is cls"""
        if isinstance(v, U):
            return Or(*[And(g, self.exact(x, cls)) for g, x in v.alts])
        if not isinstance(cls, type):
            raise Unsupported("type() compared with %r" % (cls,))
        if isinstance(v, Sym):
            return CLS(v.term) == self.w.cid(cls) if cls in v.classes() else False
        return self.cls_of(v) is cls

    def same_class(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym):
            return CLS(a.term) == CLS(b.term)
        if isinstance(a, Sym):
            return self.exact(a, self.cls_of(b))
        if isinstance(b, Sym):
            return self.exact(b, self.cls_of(a))
        return self.cls_of(a) is self.cls_of(b)

    def eq(self, a, b):
        """Python a == b."""
        if isinstance(a, U):
            return merge([(g, self.eq(x, b)) for g, x in a.alts])
        if isinstance(b, U):
            return merge([(g, self.eq(a, x)) for g, x in b.alts])
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        for x in (a, b):
            if isinstance(x, (Poison, Tok)):
                raise Unsupported("comparison with an untracked value")
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq_sym(a, b)
        if is_bool(a) and is_bool(b):
            return Iff(a, b)
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            x, y = self.to_int(a), self.to_int(b)
            return x == y
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a == b.a:
                return True
            return self.eq_heap(a, b)
        ca, cb = self.cls_of(a), self.cls_of(b)
        if isinstance(a, Index) or isinstance(b, Index):
            return self.index_eq(a, b)
        if concrete(a) and concrete(b):
            return a == b
        if isinstance(a, (list, set, dict, frozenset)) or isinstance(b, (list, set, dict, frozenset)):
            a2, b2 = self.lift(a), self.lift(b)
            if isinstance(a2, Ref) and isinstance(b2, Ref):
                return self.eq_heap(a2, b2)
            return False
        if unrelated(ca, cb):
            return False
        if isinstance(a, (SeqV, tuple)) and isinstance(b, (SeqV, tuple)):
            return self.eq_uf(self.reify(a), self.reify(b))
        raise Unsupported("comparison of %s and %s" % (ca.__name__, cb.__name__))

    def index_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Index) and isinstance(y, Index) and x.src.eq(y.src) and x.off == y.off:
                return self.w.uf("same_pos", V, V, V, z3.BoolSort())(x.src, x.e, y.e)
        raise Unsupported("comparison of positions")

    def lift(self, v):
        """Heap image of a real (constant) container."""
        if isinstance(v, list):
            return self.alloc(HList([One(True, x) for x in v]))
        if isinstance(v, (set, frozenset)):
            return self.alloc(HSet([One(True, x) for x in sorted(v, key=repr)]))
        if isinstance(v, dict):
            return self.alloc(HDict([(True, k, x) for k, x in v.items()]))
        return v

    def str_eq(self, a, b):
        pa, pb = parts_of(a), parts_of(b)
        if len(pa) == len(pb) and all(part_same(x, y) for x, y in zip(pa, pb)):
            return True
        for x, y in ((pa, b), (pb, a)):
            if y == "":
                return Not(self.str_nonempty(x))
            if len(x) == 1 and x[0][0] == "if":
                return Ite(x[0][1], self.str_eq(sstr(x[0][2]), y), self.str_eq(sstr(x[0][3]), y))
        return self.reify(a) == self.reify(b)

    def eq_heap(self, a, b):
        x, y = self.get(a), self.get(b)
        if type(x) is not type(y):
            return False
        if isinstance(x, HInst):
            f = getattr(x.cls, "__eq__", None)
            if dataclasses.is_dataclass(x.cls) and generated(f):
                if x.cls is not y.cls:
                    return False
                return And(*[self.eq(x.fields[k.name], y.fields[k.name])
                             for k in dataclasses.fields(x.cls) if k.compare])
            if f is object.__eq__:
                return False
            return self.truth(self.call(Bound(f, a), [b], {}))
        if isinstance(x, HList):
            if all(isinstance(s, One) and s.g is True for s in x.segs + y.segs):
                if len(x.segs) != len(y.segs):
                    return False
                return And(*[self.eq(s.v, t.v) for s, t in zip(x.segs, y.segs)])
        if isinstance(x, (HList, HSet)) and (not x.segs or not y.segs):
            return Not(self.segs_nonempty(x.segs + y.segs))
        return self.eq_uf(self.reify(a), self.reify(b))

    def eq_sym(self, a, b):
        if not isinstance(a, Sym):
            a, b = b, a
        w = self.w
        t = a.term
        if not isinstance(b, Sym):
            if isinstance(b, (str, SStr)) and not isinstance(b, enum.Enum):
                if not any(issubclass(c, str) for c in a.classes()):
                    return False
                return t == self.reify(b)
            if b is None or isinstance(b, enum.Enum):
                return self.is_(a, b)
            if is_bool(b) or is_int(b):
                cs = [c for c in a.classes() if c in (int, bool)]
                out = And(self.class_guard(a, cs), IVAL(t) == self.to_int(b)) if cs else False
                if float in a.classes():
                    out = Or(out, And(CLS(t) == w.cid(float), self.num_eq(t, self.reify(b))))
                return out
            if isinstance(b, float):
                cs = [c for c in a.classes() if c in (int, bool, float)]
                return And(self.class_guard(a, cs), self.num_eq(t, w.lit(b))) if cs else False
            cb = self.cls_of(b)
            cs = [c for c in a.classes() if not unrelated(c, cb)]
            if not cs:
                return False
            if isinstance(b, (tuple, SeqV)) and not b if isinstance(b, tuple) else False:
                return And(self.class_guard(a, [tuple]), Not(NE(t)))
            if isinstance(b, Ref) and isinstance(self.get(b), (HList, HSet, HDict)):
                h = self.get(b)
                if not (h.entries or h.segs or h.base is not None if isinstance(h, HDict) else h.segs):
                    return And(self.class_guard(a, cs), Not(NE(t)))
            if isinstance(b, Ref) and isinstance(self.get(b), HInst):
                h = self.get(b)
                f = getattr(h.cls, "__eq__", None)
                if dataclasses.is_dataclass(h.cls) and generated(f) and all(c is h.cls for c in cs):
                    out = [self.class_guard(a, cs)]
                    for k in dataclasses.fields(h.cls):
                        if k.compare:
                            _, fs = w.fieldsym(a, k.name)
                            out.append(self.eq(fs, h.fields[k.name]))
                    return And(*out)
            if isinstance(b, type):
                return False
            return And(self.class_guard(a, cs), self.eq_uf(t, self.reify(b)))
        u = b.term
        if t.eq(u):
            return True if float not in a.classes() else Or(CLS(t) != w.cid(float), self.num_eq(t, t))
        if self.openeq and not self.eqdepth and len(a.classes()) == 1 and len(b.classes()) == 1:
            c, d = a.classes()[0], b.classes()[0]
            if sdk_class(c) and sdk_class(d):
                self.eqdepth += 1
                try:
                    return self.dispatch_eq(a, b, c, d)
                finally:
                    self.eqdepth -= 1
        if self.openeq and not self.eqdepth and any(sdk_class(c) for c in a.classes() + b.classes()):
            pairs = []
            for c in a.classes():
                for d in b.classes():
                    x, y = self.narrowed(a, c), self.narrowed(b, d)
                    pairs.append((And(CLS(t) == w.cid(c), CLS(u) == w.cid(d)), (x, y, c, d)))
            self.eqdepth += 1
            try:
                return self.truth(self.fork(pairs, lambda p: self.dispatch_eq(*p) if sdk_class(p[2]) or sdk_class(p[3])
                                            else self.eq(p[0], p[1])))
            finally:
                self.eqdepth -= 1
        kinds = {}
        rel = []
        for c in a.classes():
            for d in b.classes():
                k = eq_kind(c, d)
                if k:
                    kinds.setdefault(k, set()).add((c, d))
        out = []
        for k, prs in kinds.items():
            ca = list({c for c, _ in prs})
            cb = list({d for _, d in prs})
            g = And(self.class_guard(a, ca), self.class_guard(b, cb))
            if k == "ident":
                out.append(And(g, t == u))
            elif k == "int":
                out.append(And(g, IVAL(t) == IVAL(u)))
            elif k == "num":
                out.append(And(g, self.num_eq(t, u)))
            else:
                f = self.open_eq(a, b, ca)
                out.append(And(g, Or(*[And(CLS(t) == w.cid(c), CLS(u) == w.cid(d)) for c, d in sorted(
                    prs, key=lambda p: (p[0].__name__, p[1].__name__))]) if len(ca) > 1 or len(cb) > 1 else True,
                    self.eq_uf(t, u) if f is None else f))
        return Or(*out)

    def narrowed(self, v, c):
        s = Sym(v.term)
        s.alts = [(g, x) for g, x in v.alts if x.cls is c]
        return s

    def dispatch_eq(self, a, b, c, d):
        """a == b for objects of the classes c and d, through their __eq__ methods (Python's order of trying them)."""
        first = [(a, b, c, d), (b, a, d, c)]
        if d is not c and issubclass(d, c) and d.__eq__ is not c.__eq__:
            first.reverse()
        for x, y, cx, cy in first:
            f = cx.__eq__
            if f is object.__eq__ or isinstance(f, types.WrapperDescriptorType):
                continue
            if generated(f):
                if cx is not cy:
                    continue
                return And(*[self.eq(self.getattr(x, k.name), self.getattr(y, k.name))
                             for k in dataclasses.fields(cx) if k.compare])
            v = self.call(Bound(f, x), [y], {})
            if v is NotImplemented:
                continue
            if isinstance(v, U) and any(z is NotImplemented for _, z in v.alts):
                raise Unsupported("__eq__ may return NotImplemented")
            return self.truth(v)
        return a.term == b.term

    def hash_(self, v):
        """hash(v): of an SDK object under proof as its class computes it, of anything else an unknown number that
        is the same for equal values (the induction hypothesis for objects inside, a fact of Python for the rest)."""
        if isinstance(v, U):
            return self.split(v, self.hash_)
        if isinstance(v, Sym) and len(v.classes()) == 1 and self.openeq and not self.eqdepth and sdk_class(v.classes()[0]):
            c = v.classes()[0]
            f = c.__hash__
            if f is None:
                self.throw(TypeError)
            self.eqdepth += 1
            try:
                if generated(f):
                    fs = [k for k in dataclasses.fields(c) if (k.compare if k.hash is None else k.hash)]
                    hs = [self.hash_(self.getattr(v, k.name)) for k in fs]
                    hs = [self.to_int(h) for h in hs]
                    return self.w.uf("hash_tuple%d" % len(hs), *([z3.IntSort()] * (len(hs) + 1)))(*hs) if hs else 0
                if f is object.__hash__:
                    return self.w.uf("hash_id", V, z3.IntSort())(v.term)
                return self.call(Bound(f, v), [], {})
            finally:
                self.eqdepth -= 1
        if isinstance(v, tuple):
            self.eqdepth += 1
            try:
                hs = [self.to_int(self.hash_(x)) for x in v]
            finally:
                self.eqdepth -= 1
            return self.w.uf("hash_tuple%d" % len(hs), *([z3.IntSort()] * (len(hs) + 1)))(*hs) if hs else 0
        t = self.reify(v)
        if isinstance(v, Sym):
            bad = [c for c in v.classes() if c.__hash__ is None]
            inner = [c for c in v.classes() if c.__hash__ is not None and (c is tuple or sdk_class(c))]
            g = Or(self.class_guard(v, bad) if bad else False,
                   And(self.class_guard(v, inner), self.w.uf("unhashable", V, z3.BoolSort())(t)) if inner else False)
        elif v is None or is_bool(v) or is_int(v) or is_str(v) or isinstance(v, (float, bytes, enum.Enum)):
            g = False
        elif isinstance(v, Ref) and isinstance(self.get(v), (HList, HSet, HDict)):
            g = True
        else:
            g = self.w.uf("unhashable", V, z3.BoolSort())(t)
        self.raise_if(g, TypeError)
        h = self.w.uf("hash_of", V, z3.IntSort())(t)
        for u, k in self.hashed:
            save, self.openeq = self.openeq, False
            self.w.axiom(Implies(self.eq(v, u), h == k))
            self.openeq = save
        self.hashed.append((v, h))
        return h

    def open_eq(self, a, b, ca):
        """An __eq__ written in the SDK whose body is under verification."""
        if len(ca) != 1 or not issubclass(b.classes()[0], ca[0]) or len(b.classes()) != 1:
            return None
        f = getattr(ca[0], "__eq__", None)
        if isinstance(f, types.FunctionType) and not generated(f) and self.opened(f) and f not in self.stack:
            return self.truth(self.call(Bound(f, a), [b], {}))
        return None

    def num_eq(self, t, u):
        """Equality of two numbers, ints (bools) or floats."""
        return float_eq(self.num_parts(t), self.num_parts(u))

    def num_parts(self, t):
        known, v = self.w.const_of(t)
        if known:
            return float_parts(v)
        f = CLS(t) == self.w.cid(float)
        return And(f, FNAN(t)), z3.If(f, FINF(t), 0), z3.If(f, FVAL(t), z3.ToReal(IVAL(t)))

    def eq_uf(self, t, u):
        w = self.w
        f = EQ(t, u)
        if "eqax" not in w.rkeys:
            w.rkeys["eqax"] = True
            x, y = w.bound("q"), w.bound("q")
            w.solver.add(z3.ForAll([x, y], z3.Implies(x == y, EQ(x, y)), patterns=[EQ(x, y)]))
            w.solver.add(z3.ForAll([x, y], EQ(x, y) == EQ(y, x), patterns=[EQ(x, y)]))
            w.axcount += 2
        return f

    def to_int(self, v):
        if isinstance(v, LenV):
            return v.term
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if z3.is_expr(v) and z3.is_int(v):
            return v
        if is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, Sym):
            return IVAL(v.term)
        raise Unsupported("not an integer: %r" % (v,))

    def cats(self, v):
        """[(guard, category)] for ordering comparisons and arithmetic."""
        if isinstance(v, Sym):
            groups = {}
            for c in v.classes():
                groups.setdefault(num_cat(c), []).append(c)
            return [(self.class_guard(v, cs), k) for k, cs in groups.items()]
        if isinstance(v, Index):
            raise Unsupported("order of positions")
        return [(True, num_cat(self.cls_of(v)))]

    def less(self, a, b, strict):
        """a < b or a <= b, recording TypeErrors."""
        if isinstance(a, U):
            return self.split(a, lambda x: self.less(x, b, strict))
        if isinstance(b, U):
            return self.split(b, lambda x: self.less(a, x, strict))
        out, bad = [], []
        for g, k in self.cats(a):
            for h, l in self.cats(b):
                gh = And(g, h)
                if k == "int" and l == "int":
                    x, y = self.to_int(a), self.to_int(b)
                    out.append(And(gh, (x < y) if strict else (x <= y)))
                elif k in ("int", "float") and l in ("int", "float"):
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                        out.append((a < b) if strict else (a <= b))
                        continue
                    p, q = [float_parts(x if isinstance(x, float) else self.to_int(x) if c == "int" else self.reify(x))
                            for x, c in ((a, k), (b, l))]
                    out.append(And(gh, float_lt(p, q) if strict else Or(float_lt(p, q), float_eq(p, q))))
                elif k == l and k in ("str", "datetime", "date"):
                    if isinstance(a, str) and isinstance(b, str):
                        out.append((a < b) if strict else (a <= b))
                        continue
                    f = self.w.uf(k + "_order", V, z3.RealSort())   # both orders are total: they embed in the reals
                    x, y = self.reify(a), self.reify(b)
                    if k == "str":
                        self.w.axiom(Or(x == y, f(x) != f(y)))
                    out.append(And(gh, (f(x) < f(y)) if strict else (f(x) <= f(y))))
                    if k == "datetime":
                        tz = self.w.uf("fld_tzinfo", V, V)
                        n = self.w.lit(None)
                        bad.append(And(gh, z3.Xor(tz(self.reify(a)) == n, tz(self.reify(b)) == n)))
                elif k in ("seq", "set", "dict") and k == l:
                    if self.feasible(gh):
                        raise Unsupported("ordering of containers")
                else:
                    bad.append(gh)
        self.raise_if(Or(*bad), TypeError)
        return Or(*out)

    def contains(self, x, c):
        """x in c"""
        if isinstance(c, U):
            return self.split(c, lambda y: self.contains(x, y))
        if isinstance(x, U):
            return merge([(g, self.contains(y, c)) for g, y in x.alts])
        if isinstance(c, (tuple, list, set, frozenset)):
            return Or(*[self.eq(x, y) for y in c])
        if isinstance(c, dict):
            return Or(*[self.eq(x, y) for y in c])
        if isinstance(c, type) and issubclass(c, enum.Enum):
            if isinstance(x, Sym):
                return self.isinst(x, (c,))
            return isinstance(x, c)
        if isinstance(c, Ref):
            h = self.get(c)
            if isinstance(h, (HList, HSet)):
                if self.own_position(x, h):
                    return Not(Or(*[s.g for s in h.segs[1:]]))
                return self.any_seg(h.segs, lambda y: self.eq(x, y))
            if isinstance(h, HDict):
                if len(h.segs) == 1 and isinstance(h.segs[0], TokSeg) and isinstance(h.segs[0].tok, LookTok):
                    h.segs[0].tok.keys.append(x)
                    return h.segs[0].tok.present
                out = [And(g, self.eq(x, k)) for g, k, _ in h.entries]
                out.append(self.any_seg(h.segs, lambda kv: self.eq(x, kv[0])))
                if h.base is not None:
                    out.append(self.contains(x, h.base))
                return Or(*out)
            f = getattr(h.cls, "__contains__", None)
            if f is not None:
                return self.truth(self.call(Bound(f, c), [x], {}))
        if isinstance(c, SeqV):
            return self.any_seg(c.segs, lambda y: self.eq(x, y))
        if is_str(c):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, str) and len(c) == 0:
                return self.eq(x, "")
            if isinstance(x, str):
                return self.str_contains(x, parts_of(c))
            if isinstance(c, str) and isinstance(x, Sym):
                return self.w.uf("substr_of", V, V, z3.BoolSort())(x.term, self.w.lit(c))
        if isinstance(c, Sym):
            def per(k):
                if k == "str":
                    if isinstance(x, str):
                        return self.w.contains(x, c.term)
                    return self.w.uf("substr_of", V, V, z3.BoolSort())(self.reify(x), c.term)
                if k == "coll":
                    if isinstance(x, Sym) and all(cl is str for cl in x.classes()) or is_str(x):
                        t = self.reify(x)
                        self.w.source(c.term)
                        return MEM(c.term, t)
                    return self.any_seg(self.segs_of(c), lambda y: self.eq(x, y))
                self.throw(TypeError)
            return self.by_class(c, lambda k: "str" if k is str else "coll" if k in (
                list, tuple, set, dict, frozenset) else "bad", per)
        if isinstance(c, (types.MappingProxyType,)):
            return Or(*[self.eq(x, y) for y in c])
        raise Unsupported("membership in %r" % (c,))

    def own_position(self, x, h):
        """Is x the current position and h a set of positions carried by the loop over that sequence?"""
        return (isinstance(h, HSet) and h.segs and isinstance(h.segs[0], TokSeg) and h.segs[0].g is True
                and isinstance(h.segs[0].tok, IdxTok) and isinstance(x, Index) and x.src.eq(h.segs[0].tok.src)
                and x.e.eq(h.segs[0].tok.e) and x.off == 0 and all(isinstance(s, Minus) for s in h.segs[1:]))

    def str_contains(self, sub, parts):
        if sub == "":
            return True
        out = []
        for p in parts:
            if p[0] == "lit":
                out.append(sub in p[1])
            elif p[0] == "at" and len(parts) == 1:
                out.append(self.w.contains(sub, p[1]))
            elif p[0] == "at" and len(sub) == 1:
                out.append(self.w.contains(sub, p[1]))
            elif p[0] == "if" and len(sub) == 1:
                out.append(Ite(p[1], self.str_contains(sub, p[2]), self.str_contains(sub, p[3])))
            else:
                raise Unsupported("substring of a composed string")
        return Or(*out)
