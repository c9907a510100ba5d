"""Expressions, statements and loops."""
from __future__ import annotations

import ast
import builtins
import enum
import types

import z3

from . import source
from .interp import CtxV, Frame, Interp, Loop
from .sym import And, CLS, IDX, Iff, Implies, Ite, LEN, MEM, NE, Not, Or, Sym, Unsupported, V, mentions
from .util import *  # noqa: F401,F403
from .vals import *  # noqa: F401,F403
from .vals import POISON
from .lang import CLOSURES
from .ty import STR, Ty, listof

CMP = {ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Is, ast.IsNot, ast.In, ast.NotIn}


def first_writes(body):
    """Locals that every run of the body assigns before reading."""
    out, seen = [], set()
    for s in body:
        loads = {t.id for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Load)}
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            seen |= loads
            out += [t.id for t in ts if isinstance(t, ast.Name) and t.id not in seen]
        seen |= loads
    return out


class Eval(Interp):
    # ------------------------------------------------------------------ names
    def lookup(self, name, fr):
        a = fr.env
        while a is not None:
            env = self.heap[a]
            if name in env.vars:
                return env.vars[name]
            a = env.parent
        if name in fr.info.free:
            return self.real(fr.info.free[name])
        if name in fr.info.globals:
            return self.real(fr.info.globals[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name in fr.info.locals:
            self.throw(UnboundLocalError)
        raise Unsupported("unknown name %s" % name)

    def real(self, v):
        return v

    def bind(self, name, v, fr):
        a = fr.env
        if getattr(fr, "comp", False) is False and name not in fr.info.locals:
            # nonlocal / global
            p = self.heap[a].parent
            while p is not None:
                env = self.heap[p]
                if name in env.vars:
                    self.heap[p] = HEnv({**env.vars, name: v}, env.parent)
                    return
                p = env.parent
            if a is not None and name in self.heap[a].vars:
                pass
            else:
                self.frame_writes.append(("global " + name, self.pc))
                raise Dead
        env = self.heap[a]
        self.heap[a] = HEnv({**env.vars, name: v}, env.parent)

    def assign(self, target, v, fr):
        if isinstance(target, ast.Name):
            self.bind(target.id, v, fr)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, fr), self.mangle(target.attr, fr), v)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, fr)
            k = self.ev(target.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(target.elts), target.elts)
            for t, x in zip(target.elts, vals):
                self.assign(t.value if isinstance(t, ast.Starred) else t, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=()):
        if any(isinstance(t, ast.Starred) for t in elts):
            i = next(i for i, t in enumerate(elts) if isinstance(t, ast.Starred))
            segs = self.segs_of(v)
            if i == 0 and n == 1:
                return [self.alloc(HList(segs))]
            if not all(isinstance(s, One) and s.g is True for s in segs):
                if i == n - 1 and len(segs) == 1 and isinstance(segs[0], Map) and n == 2:
                    h = self.getitem(v, 0)
                    return [h, self.alloc(HList(self.drop_segs(segs)))]
                raise Unsupported("starred unpacking")
            vs = [s.v for s in segs]
            tail = n - i - 1
            if len(vs) < n - 1:
                self.throw(ValueError)
            return vs[:i] + [self.alloc(HList([One(True, x) for x in vs[i:len(vs) - tail]]))] + vs[len(vs) - tail:]
        if isinstance(v, tuple):
            if len(v) != n:
                self.throw(ValueError)
            return list(v)
        if isinstance(v, U):
            if all(isinstance(x, tuple) and len(x) == n for _, x in v.alts):
                return [merge([(g, x[i]) for g, x in v.alts]) for i in range(n)]
        segs = self.segs_of(v)
        if all(isinstance(s, One) and s.g is True for s in segs):
            if len(segs) != n:
                self.throw(ValueError)
            return [s.v for s in segs]
        if isinstance(v, Sym):
            ln = self.length(v)
            self.raise_if(self.to_int(ln) != n, ValueError)
            return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, Ref) and isinstance(self.get(v), HList):
            ln = self.length(v)
            self.raise_if(Not(self.eq(ln, n)), ValueError)
            return [self.getitem(v, i) for i in range(n)]
        raise Unsupported("unpacking")

    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.info.cls:
            return "_%s%s" % (fr.info.cls.lstrip("_"), name)
        return name

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        v = self.lookup(n.id, fr)
        return v

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while getattr(f, "comp", False):
            f = f.outer
        self.bind(n.target.id, v, f)
        return v

    def ev_Tuple(self, n, fr):
        segs = self.display(n.elts, fr)
        if all(isinstance(s, One) and s.g is True for s in segs):
            return tuple(s.v for s in segs)
        return SeqV("tuple", segs)

    def display(self, elts, fr):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs += self.ordered(self.ev(e.value, fr))
            else:
                segs.append(One(True, self.ev(e, fr)))
        return segs

    def ev_List(self, n, fr):
        return self.alloc(HList(self.display(n.elts, fr)))

    def ev_Set(self, n, fr):
        return self.alloc(HSet(self.display(n.elts, fr)))

    def ev_Dict(self, n, fr):
        d = self.alloc(HDict([]))
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def ev_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(("lit", v.value))
            else:
                x = self.ev(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if v.conversion == 114:
                    s = self.repr_(x)
                elif isinstance(spec, str) and spec == "":
                    s = self.tostr(x)
                else:
                    s = self.format(x, spec)
                if isinstance(s, Poison):
                    return s
                parts += list(parts_of(s))
        return sstr(parts)

    def ev_FormattedValue(self, n, fr):
        return self.tostr(self.ev(n.value, fr))

    def ev_Lambda(self, n, fr):
        return self.closure(n, fr, "<lambda>")

    def closure(self, n, fr, name):
        i = source.Info(n, fr.info.globals, fr.info.free, fr.info.cls, name, fr.info.path)
        c = Clo(n, fr.env, i)
        a = n.args
        c.defaults = [self.ev(d, fr) for d in a.defaults]
        c.kwdefaults = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        c.fr = fr
        return c

    def ev_IfExp(self, n, fr):
        c = self.cond(n.test, fr)
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, fr)
        if pure(n.body) and pure(n.orelse):
            return merge([(c, self.ev(n.body, fr)), (Not(c), self.ev(n.orelse, fr))])
        return self.fork([(c, n.body), (Not(c), n.orelse)], lambda x: self.ev(x, fr))

    def cond(self, n, fr):
        """Truth value of an expression."""
        if isinstance(n, ast.BoolOp):
            conj = isinstance(n.op, ast.And)

            def go(i):
                c = self.cond(n.values[i], fr)
                if i == len(n.values) - 1:
                    return c
                if isinstance(c, bool):
                    if c is conj:
                        return go(i + 1)
                    return c
                if conj:
                    return self.fork([(c, True), (Not(c), False)], lambda t: go(i + 1) if t else False)
                return self.fork([(c, False), (Not(c), True)], lambda t: go(i + 1) if t else True)

            return go(0)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, fr))
        return self.truth_of(self.ev(n, fr))

    def truth_of(self, v):
        if isinstance(v, Ref) and isinstance(self.get(v), HInst):
            c = self.get(v).cls
            for m in ("__bool__", "__len__"):
                f = getattr(c, m, None)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
        return self.truth(v)

    def ev_BoolOp(self, n, fr):
        conj = isinstance(n.op, ast.And)

        def go(i):
            v = self.ev(n.values[i], fr)
            if i == len(n.values) - 1:
                return v
            c = self.truth_of(v)
            if isinstance(c, bool):
                return go(i + 1) if c is conj else v
            if conj:
                return self.fork([(c, True), (Not(c), False)], lambda t: go(i + 1) if t else self.refine(v, False))
            return self.fork([(c, False), (Not(c), True)], lambda t: go(i + 1) if t else self.refine(v, True))

        return go(0)

    def refine(self, v, t):
        if is_bool(v):
            return t
        return v

    def ev_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            return Not(self.cond(n.operand, fr))
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if is_int(v):
                return -self.to_int(v)
            return self.negated(v)
        raise Unsupported("unary operator")

    def negated(self, v):
        if isinstance(v, U):
            return self.split(v, self.negated)
        if isinstance(v, (int, float)):
            return -v
        if is_int(v):
            return -self.to_int(v)
        if not isinstance(v, Sym):
            raise Unsupported("negation")
        num = [c for c in v.classes() if c in (int, float, bool)]
        self.raise_if(Not(self.class_guard(v, num)) if num else True, TypeError)
        return self.fork([(self.class_guard(v, [c]), c) for c in num],
                         lambda c: self.sym_op("neg", [v], float) if c is float else -self.to_int(v))

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)

        def go(i, left):
            right = self.ev(n.comparators[i], fr)
            c = self.compare(n.ops[i], left, right)
            if i == len(n.ops) - 1:
                return c
            if isinstance(c, bool):
                return go(i + 1, right) if c else False
            return self.fork([(c, True), (Not(c), False)], lambda t: go(i + 1, right) if t else False)

        return go(0, left)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            return r if isinstance(op, ast.Eq) else Not(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else Not(r)
        if self.setlike(a) and self.setlike(b):
            return self.set_compare(op, a, b)
        if isinstance(op, ast.Lt):
            return self.less(a, b, True)
        if isinstance(op, ast.LtE):
            return self.less(a, b, False)
        if isinstance(op, ast.Gt):
            return self.less(b, a, True)
        return self.less(b, a, False)

    def ev_Attribute(self, n, fr):
        v = self.ev(n.value, fr)
        return self.getattr(v, self.mangle(n.attr, fr))

    def ev_Subscript(self, n, fr):
        v = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.ev(n.slice.lower, fr)
            hi = None if n.slice.upper is None else self.ev(n.slice.upper, fr)
            st = None if n.slice.step is None else self.ev(n.slice.step, fr)
            return self.slice(v, lo, hi, st)
        return self.getitem(v, self.ev(n.slice, fr))

    def ev_Starred(self, n, fr):
        return Starred(self.ev(n.value, fr))

    def ev_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = fr.cls
            if cls is None:
                raise Unsupported("super() outside a method")
            return SuperV(cls, fr.obj)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "next") and len(n.args) >= 1 and isinstance(
                n.args[0], ast.GeneratorExp) and self.lookup(n.func.id, fr) is getattr(builtins, n.func.id):
            d = self.ev(n.args[1], fr) if len(n.args) > 1 else None
            return self.quantifier(n.func.id, n.args[0], fr, d, len(n.args) > 1)
        f = self.ev(n.func, fr)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcV(f)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                segs = self.segs_of(v)
                if all(isinstance(s, One) and s.g is True for s in segs):
                    args += [s.v for s in segs]
                else:
                    args.append(Starred(SeqV("tuple", tuple(segs)) if isinstance(v, GenV) else v))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                h = self.get(v) if isinstance(v, Ref) else None
                if isinstance(v, dict):
                    kw.update(v)
                elif isinstance(h, HDict) and not h.segs and h.base is None and all(
                        isinstance(k2, str) for _, k2, _ in h.entries):
                    for g, k2, x in h.entries:
                        old = kw.get(k2)
                        if g is True:
                            kw[k2] = x
                        elif old is None and k2 not in kw:
                            kw[k2] = MaybeArg(g, x)
                        elif isinstance(old, MaybeArg):
                            kw[k2] = MaybeArg(Or(g, old.g), merge([(g, x), (And(old.g, Not(g)), old.v)]))
                        else:
                            kw[k2] = merge([(g, x), (Not(g), old)])
                else:
                    raise Unsupported("** of a symbolic dict")
            else:
                kw[k.arg] = self.ev(k.value, fr)
        prev = self.where
        self.where = (fr.info.path, n.lineno)
        try:
            return self.call(f, args, kw, fr)
        finally:
            self.where = prev

    # ------------------------------------------------------------------ comprehensions
    def comp_frame(self, fr):
        f = Frame(fr.info, self.alloc(HEnv({}, fr.env)).a, fr.cls, fr.obj)
        self.soft.add((f.env, None))
        f.comp = True
        f.outer = fr
        f.rets, f.loops, f.yields, f.hook = fr.rets, fr.loops, fr.yields, fr.hook
        return f

    def comprehend(self, gens, fr, emit, first=None):
        """Segments produced by the generators of a comprehension; emit(frame) gives the inner segments."""
        f = self.comp_frame(fr)

        def go(i):
            if i == len(gens):
                return emit(f)
            g = gens[i]
            it = first if i == 0 and first is not None else self.force(self.ev(g.iter, f if i else fr))
            if i == 0:
                it = self.force(it)

            def body(v):
                self.assign(g.target, v, f)

                def conds(j):
                    if j == len(g.ifs):
                        return go(i + 1)
                    c = self.cond(g.ifs[j], f)
                    if isinstance(c, bool):
                        return conds(j + 1) if c else []
                    return self.fork_segs(c, lambda: conds(j + 1))

                return conds(0)

            return self.iterate(it, body)

        return go(0)

    def fork_segs(self, c, fn):
        """Segments of fn() under condition c."""
        segs = self.fork([(c, True), (Not(c), False)], lambda t: Segs(fn()) if t else Segs([]))
        if isinstance(segs, U):
            out = []
            for g, s in segs.alts:
                out += [guard_seg(x, g) for x in s.segs]
            return out
        return segs.segs

    def ev_ListComp(self, n, fr):
        return self.alloc(HList(self.comprehend(n.generators, fr, lambda f: [One(True, self.ev(n.elt, f))])))

    def ev_SetComp(self, n, fr):
        return self.alloc(HSet(self.comprehend(n.generators, fr, lambda f: [One(True, self.ev(n.elt, f))])))

    def ev_GeneratorExp(self, n, fr):
        first = self.ev(n.generators[0].iter, fr)
        return self.lazy(lambda: self.comprehend(n.generators, fr, lambda f: [One(True, self.ev(n.elt, f))], first))

    def lazy(self, fn):
        return GenV(fn, self.alloc(HList([])))

    def force(self, v):
        """Start (and finish) an iterator; one that may have been started before is not followed."""
        if isinstance(v, U) and any(isinstance(x, GenV) for _, x in v.alts):
            return self.split(v, self.force)
        if not isinstance(v, GenV):
            return v
        if self.get(v.cell).segs:
            raise Unsupported("an iterator is used more than once")
        self.put(v.cell, HList([One(True, 1)]))
        where = self.where
        try:
            return SeqV("gen", v.fn())
        finally:
            self.where = where

    def ev_DictComp(self, n, fr):
        segs = self.comprehend(n.generators, fr,
                               lambda f: [One(True, (self.ev(n.key, f), self.ev(n.value, f)))])
        return self.dict_of_pairs(segs)

    def dict_of_pairs(self, segs):
        d = self.alloc(HDict([]))
        for s in segs:
            if isinstance(s, One):
                k, x = s.v if isinstance(s.v, tuple) else self.unpack(s.v, 2)
                if s.g is True:
                    self.setitem(d, k, x)
                    continue
                if concrete(k):
                    h = self.get(d)
                    old = [e for e in h.entries if dkey(e[1]) == dkey(k)]
                    ents = [e for e in h.entries if dkey(e[1]) != dkey(k)]
                    if old:
                        ents.append((Or(old[0][0], s.g), k, merge([(s.g, x), (Not(s.g), old[0][2])])))
                    else:
                        ents.append((s.g, k, x))
                    self.put(d, HDict(ents, h.segs, h.base))
                    continue
            h = self.get(d)
            self.put(d, HDict(h.entries, h.segs + (s,), h.base))
        return d

    def quantifier(self, kind, n, fr, default=None, has_default=False):
        """any / all / next over a generator expression (evaluated lazily, element by element)."""
        found = []
        f = self.comp_frame(fr)
        base_pc = self.pc

        def emit(f):
            if kind == "next":
                v = self.ev(n.elt, f)
                found.append((self.heap, self.pc, v))
                raise Dead
            c = self.cond(n.elt, f)
            hit = c if kind == "any" else Not(c)
            if hit is False:
                return []
            if hit is True:
                found.append((self.heap, self.pc, None))
                raise Dead
            if self.feasible(hit):
                found.append((dict(self.heap), self.pc + (hit,), None))
                nh = Not(hit)
                if not self.feasible(nh):
                    raise Dead
                self.pc = self.pc + (nh,)
            return []

        n0 = self.nraises
        self.channels().append(found)
        try:
            self.comprehend(n.generators, fr, emit)
            done = [(self.heap, self.pc)]
        except Dead:
            done = []
        finally:
            self.chans.pop()
        hit_v = kind == "any"
        if kind == "next":
            states = list(found)
            if done:
                if not has_default:
                    self.heap, self.pc = done[0]
                    try:
                        self.throw(StopIteration)
                    except Dead:
                        pass
                else:
                    states.append((done[0][0], done[0][1], default))
            return self.merge_states(states, base_pc, self.nraises == n0)
        states = [(h, p, hit_v) for h, p, _ in found] + [(h, p, not hit_v) for h, p in done]
        return self.merge_states(states, base_pc, self.nraises == n0)

    def channels(self):
        if not hasattr(self, "chans"):
            self.chans = []
        return self.chans

    # ------------------------------------------------------------------ iteration
    def iterate(self, it, body, frame=None):
        """Run body on every element; returns the segments emitted by body."""
        if isinstance(it, U):
            segs = []
            r = self.fork(it.alts, lambda x: Segs(self.iterate(x, body, frame)))
            if isinstance(r, U):
                for g, s in r.alts:
                    segs += [guard_seg(x, g) for x in s.segs]
                return segs
            return list(r.segs)
        return self.iter_segs(self.ordered(it), body)

    def iter_segs(self, segs, body):
        out = []
        for s in segs:
            if isinstance(s, One):
                if s.g is True:
                    out += body(s.v)
                else:
                    out += self.fork_segs(s.g, lambda: body(s.v))
            elif isinstance(s, Map):
                if s.g is True:
                    out += self.summary(s, body)
                else:
                    out += self.fork_segs(s.g, lambda: self.summary(s, body))
            else:
                raise Unsupported("iteration over a loop-carried sequence")
        return out

    def summary(self, m, body):
        """Generic iteration: one symbolic element stands for all of them.  Variables the loop carries along that
        are not accumulators of a known kind are given a symbolic value at the start of the generic iteration
        (a fold; see general_fold)."""
        chans = [self.handlers[-1]] + list(self.channels())
        snap = (dict(self.heap), self.pc, [len(c) for c in chans], self.nraises, len(self.w.scopes), len(self.frame_writes))

        def reset():
            self.heap, self.pc = dict(snap[0]), snap[1]
            for c, n in zip(chans, snap[2]):
                del c[n:]
            self.nraises = snap[3]
            while len(self.w.scopes) > snap[4]:
                self.w.close()
            del self.frame_writes[snap[5]:]

        unfit = []
        why = None
        try:
            out = self.summary1(m, body, (), unfit)
            if not unfit:
                return out
        except Unsupported as u:
            why = u
            if not unfit or "out of time" in str(u):
                raise
        first = None if why else (self.heap, self.pc, [list(c[n:]) for c, n in zip(chans, snap[2])], self.nraises, out,
                                  list(self.frame_writes[snap[5]:]))
        reset()
        try:
            return self.summary1(m, body, tuple(unfit), None)
        except Unsupported as u:
            if "out of time" in str(u) or first is None:
                raise
        reset()
        self.heap, self.pc = first[0], first[1]
        for c, extra in zip(chans, first[2]):
            c.extend(extra)
        self.nraises = first[3]
        self.frame_writes.extend(first[5])
        return first[4]

    def summary1(self, m, body, general, unfit):
        w = self.w
        m = self.rescope(m)
        src, e = m.src, m.e
        w.source(src)
        mem = MEM(src, e)
        base_heap, base_pc = self.heap, self.pc
        if not self.feasible(NE(src)):
            return []
        chans = [self.handlers[-1]] + list(self.channels())
        lens = [len(c) for c in chans]

        def run(heap):
            self.heap, self.pc = dict(heap), base_pc + (mem,)
            w.open(e, mem)
            for a in accs.values():
                g = MEM(a.src, a.e)
                self.pc = self.pc + (g,)
                w.open(a.e, g)
            try:
                segs = self.iter_segs(m.segs, body)
                res = (self.heap, self.pc, segs)
            except Dead:
                res = None
            finally:
                for a in accs.values():
                    w.close()
                w.close()
            exits = []
            for i, (c, n) in enumerate(zip(chans, lens)):
                exits += [(i, x) for x in c[n:]]
                del c[n:]
            return res, exits

        accs = {}
        res, exits = run(base_heap)
        locs = self.changed(base_heap, [res[0]] if res else [], exits)
        soft = [l for l in locs if l in self.soft]
        locs = [l for l in locs if l not in self.soft]
        toks = {}
        for _ in range(4):
            if not locs:
                break
            heap = dict(base_heap)
            accs = {l: self.accumulator(base_heap, l) for l in locs if l in general and isinstance(
                self.get_loc(base_heap, l), Sym)}
            toks = {l: accs[l].segs[0].v if l in accs else self.rebound(base_heap, heap, l) if l in general
                    else self.token(base_heap, l, m) for l in locs}
            for l, t in toks.items():
                self.set_loc(heap, l, t)
            if unfit is not None:
                unfit[:] = [l for l in locs if self.foldable(base_heap, l)]
            res, exits = run(heap)
            more = [l for l in self.changed(heap, [res[0]] if res else [], exits) if l not in self.soft]
            if set(more) <= set(locs):
                break
            locs = list(dict.fromkeys(locs + more))
        else:
            raise Unsupported("loop does not stabilise")
        n = len(base_pc) + 1 + len(accs)
        X = Or(*[And(*x[1][n:]) for _, x in exits])
        for a in accs.values():
            if not isinstance(X, bool) and mentions(X, a.e) or any(self.value_mentions(v, a.e) for _, (_, _, v) in exits):
                raise Unsupported("loop exit depends on a carried value")
            if res and any(self.value_mentions(SeqV("tuple", (x,)), a.e) for x in res[2]):
                raise Unsupported("a carried value is emitted")
        for l, t in toks.items():
            if z3.is_expr(t) and not isinstance(X, bool) and mentions(X, t):
                r = self.carried_exit(m, l, t, toks, base_heap, base_pc, res, exits, chans)
                if r is None:
                    raise Unsupported("loop exit depends on an accumulator")
                return r
        if res is None and not exits:
            # body never continues and never exits visibly: the loop runs only if empty
            self.heap, self.pc = base_heap, self.extend(base_pc, Not(NE(src)))
            return []
        b, f = w.exists(src, e, X, m.unord)
        for i, (h, p, v) in exits:
            x = And(*p[n:])
            heap = {a: o for a, o in h.items() if a in base_heap}
            self.heap = h
            if f is not None and not isinstance(x, bool) or self.value_mentions(v, e):
                xf = self.subst_f(x, [(e, f)])
                save = self.heap
                self.heap = dict(h)
                v2 = self.subst(v, [(e, f)]) if not isinstance(v, (type(None), ExcV, bool)) else v
                for a in self.reach(v2):
                    heap[a] = self.heap[a]
                self.heap = save
            else:
                xf, v2 = x, v
                for a in self.reach(v2):
                    heap[a] = h[a]
            pc = base_pc
            for c in (b, xf):
                if c is not True:
                    pc = pc + (c,)
            if f is not None:
                pc = pc + (MEM(src, f),)
            chans[i].append((heap, pc, v2))
        if res is None:
            # every iteration exits
            nb = Not(NE(src))
            self.heap, self.pc = base_heap, base_pc
            if not self.feasible(nb):
                raise Dead
            self.pc = self.extend(base_pc, nb)
            return []
        heap1, pc1, segs = res
        nb = Not(b)
        self.heap, self.pc = dict(base_heap), base_pc
        if nb is not True:
            if not self.feasible(nb):
                raise Dead
            self.pc = base_pc + (nb,)
        for a, o in heap1.items():
            if a not in base_heap:
                self.heap[a] = o
        for l in soft:
            self.set_loc(self.heap, l, Poison("loop variable after the loop"))
        bad = []
        for l in locs:
            if l in accs:
                v = self.general_fold(m, l, accs, base_heap, heap1)
            elif l in general:
                v = self.rebound_fold(m, l, toks[l], base_heap, heap1, accs)
            else:
                v = self.fold(m, l, toks, base_heap, heap1)
                if accs:
                    new = self.get_loc(heap1, l)
                    new = self.alloc_tmp(heap1, new) if isinstance(new, (HList, HSet, HDict)) else new
                    save, self.heap = self.heap, heap1
                    if any(self.value_mentions(new, a.e) for a in accs.values()):
                        raise Unsupported("a carried value is collected")
                    self.heap = save
                if isinstance(v, Poison):
                    bad.append(l)
            self.set_loc(self.heap, l, v)
        if unfit is not None:
            unfit[:] = [l for l in bad if l in unfit]
        if segs:
            return [Map(True, src, e, segs, m.unord)]
        return []

    def foldable(self, base, l):
        v = self.get_loc(base, l)
        if isinstance(v, Sym):
            return not all(c is bool for c in v.classes())
        return (l[1] is not None and isinstance(v, Ref) and isinstance(base.get(v.a), (HList, HSet)))

    def accumulator(self, base, l):
        """The value of a carried variable at the start of some iteration: an arbitrary value of its type."""
        v = self.get_loc(base, l)
        if not isinstance(v, Sym):
            raise Unsupported("carried value")
        ty = listof(Ty([a for g, a in v.alts if self.feasible(self.w.guard(v, g, a))]))
        src = self.w.fresh("accs", V)
        (m,) = self.segs_of(self.w.sym(src, ty))
        return m

    def rebound(self, base, heap, l):
        """x = x + more / x = x | more: the collection x is at the start of some iteration."""
        r = self.get_loc(base, l)
        for a, o in base.items():
            for k, v in (o.vars if isinstance(o, HEnv) else o.fields if isinstance(o, HInst) else {}).items():
                if (a, k) != l and isinstance(v, Ref) and v.a == r.a:
                    raise Unsupported("carried collection is shared")
        self.w.n += 1
        return self.alloc_tmp(heap, type(base[r.a])([TokSeg(Tok(self.w.n))]))

    def rebound_fold(self, m, l, tok, base, after, accs):
        old = base[self.get_loc(base, l).a]
        new = self.get_loc(after, l)
        mark = after[tok.a].segs
        if len(mark) != 1 or not isinstance(mark[0], TokSeg):
            raise Unsupported("carried collection is modified in place")
        rest = []
        for g, x in (new.alts if isinstance(new, U) else [(True, new)]):
            if isinstance(x, Ref) and x.a == tok.a:
                continue
            o = after.get(x.a) if isinstance(x, Ref) else None
            if type(o) is not type(old) or not o.segs or not isinstance(o.segs[0], TokSeg) or (
                    o.segs[0].tok is not mark[0].tok or o.segs[0].g is not True):
                raise Unsupported("carried collection")
            rest += [guard_seg(z, g) for z in o.segs[1:]]
        if any(self.seg_has_tok(z) for z in rest):
            raise Unsupported("carried collection")
        save, self.heap = self.heap, after
        bad = any(self.value_mentions(SeqV("tuple", (z,)), a.e) for z in rest for a in accs.values())
        self.heap = save
        if bad:
            raise Unsupported("a carried value is collected")
        return self.alloc(type(old)(old.segs + ((Map(True, m.src, m.e, rest, m.unord),) if rest else ())))

    def alloc_tmp(self, heap, o):
        save, self.heap = self.heap, heap
        try:
            return self.alloc(o)
        finally:
            self.heap = save

    def general_fold(self, m, l, accs, base, after):
        """x := init; for e in src: x := step(x, e).  The result is a function of init, src and step; two loops over the
        same source with equal initial values and equal steps (for every carried value of the type, which the
        initial value has and every step preserves) have the same result, by induction."""
        from .equal import Equal
        w = self.w
        a = accs[l]
        init, step = self.get_loc(base, l), self.get_loc(after, l)
        if m.unord or len(m.segs) != 1 or not isinstance(m.segs[0], One) or m.segs[0].g is not True:
            raise Unsupported("fold over a derived sequence")
        save, pc = self.heap, self.pc
        self.heap = {**save, **{k: o for k, o in after.items() if k not in save}}
        for k, b in accs.items():
            if k != l and self.value_mentions(step, b.e):
                raise Unsupported("two carried values depend on each other")
        ty = Ty([alt for _, alt in a.segs[0].v.alts])
        w.open(m.e, MEM(m.src, m.e))
        w.open(a.e, MEM(a.src, a.e))
        self.pc = pc + (MEM(m.src, m.e), MEM(a.src, a.e))
        try:
            if not self.conforms(step, ty):
                raise Unsupported("a step of the loop leaves the type of the carried value")
            found = None
            for f in w.folds:
                src, e, acc, st, heap, ini, scopes, res = f
                if not src.eq(m.src) or scopes != [x[0].get_id() for x in w.scopes[:-2]]:
                    continue
                self.heap = {**heap, **self.heap}
                here = self.subst(st, [(acc, a.e)] + ([(e, m.e)] if not e.eq(m.e) else []))
                q = Equal(self, None)
                if q.possible(lambda: (q.eq(ini, init, pc), q.eq(here, step, self.pc))):
                    found = res
                    break
        finally:
            w.close()
            w.close()
            self.pc = pc
            mine, self.heap = self.heap, save
        if found is not None:
            return found
        res = w.sym(w.fresh("fold", V), ty)
        w.axiom(z3.Implies(z3.Not(NE(m.src)), res.term == self.reify(init)))
        w.folds.append((m.src, m.e, a.e, step, dict(mine), init, [x[0].get_id() for x in w.scopes], res))
        return res

    def consistency(self, it, body):
        """Loops that leave when a key was seen before with another value:
            for x in xs: if k(x) in seen and seen[k(x)] != v(x): exit;  seen[k(x)] = v(x)
        exit iff two elements have equal keys and different values (by induction over the iterations: as long as
        the loop goes on, all values stored under one key are equal).  The conditions of the rule are checked on
        one generic iteration."""
        w = self.w
        segs = self.segs_of(it)
        shape = []

        def look(v):
            ok = isinstance(v, tuple) and all(self.isinst(c, (str,)) is True or self.valid(self.isinst(c, (str,)))
                                              for c in v)
            shape.append(len(v) if ok else None)
            return []

        self.iter_segs(segs, look)
        if not shape or None in shape or len(set(shape)) != 1:
            return False
        base_heap, base_pc = self.heap, self.pc
        chans = [self.handlers[-1]] + list(self.channels())
        lens = [len(c) for c in chans]
        xs = [w.fresh("any", V) for _ in range(shape[0])]
        elem = tuple(w.sym(x, STR) for x in xs)

        def run(heap):
            self.heap, self.pc = dict(heap), base_pc
            try:
                body(elem)
                res = (self.heap, self.pc)
            except Dead:
                res = None
            exits = []
            for i, (c, n) in enumerate(zip(chans, lens)):
                exits += [(i, x) for x in c[n:]]
                del c[n:]
            return res, exits

        res, exits = run(base_heap)
        locs = [l for l in self.changed(base_heap, [res[0]] if res else [], exits) if l not in self.soft]
        dicts = [l for l in locs if l[1] is None and isinstance(base_heap[l[0]], HDict)]
        if len(dicts) != 1 or res is None:
            return False
        d = dicts[0]
        if base_heap[d[0]].entries or base_heap[d[0]].segs or base_heap[d[0]].base is not None:
            return False
        w.n += 1
        tok = LookTok(w.n, w.fresh("seen", z3.BoolSort()), w.sym(w.fresh("old", V), STR))
        heap = dict(base_heap)
        heap[d[0]] = HDict([], [TokSeg(tok)], None)
        for l in locs:
            if l is not d:
                if isinstance(base_heap[l[0]], HEnv) and l[1] not in base_heap[l[0]].vars:
                    continue
                self.set_loc(heap, l, Poison("carried"))
        res, exits = run(heap)
        if res is None or len(exits) != 1 or not isinstance(exits[0][1][2], ExcV):
            return False
        more = [l for l in self.changed(heap, [res[0]], exits) if l not in self.soft and l not in locs]
        fresh = [l for l in more if isinstance(heap[l[0]], HEnv) and l[1] not in heap[l[0]].vars]
        more = [l for l in more if l not in fresh]
        locs = locs + fresh         # first assigned inside the loop
        out = res[0][d[0]].segs
        if more or len(out) != 2 or not isinstance(out[0], TokSeg) or out[0].tok is not tok or not isinstance(
                out[1], One):
            return False
        G, (k, v) = out[1].g, out[1].v
        kt, vt = self.reify(k), self.reify(v)
        if not tok.keys or not all(self.reify(x).eq(kt) for x in tok.keys):
            return False
        n = len(base_pc)
        X = And(*exits[0][1][1][n:])
        self.pc = base_pc
        differ = Not(self.eq(tok.value, v))
        if not (self.valid(Not(And(X, Not(tok.present)))) and self.valid(Implies(tok.present, Iff(X, differ)))
                and self.valid(Implies(And(Not(X), Not(tok.present)), G))):
            return False
        self.heap = base_heap

        def clash(x):
            px = list(zip(xs, [self.reify(c) for c in x]))
            kx, vx = w.sym(z3.substitute(kt, *px), STR), w.sym(z3.substitute(vt, *px), STR)

            def with_(y):
                py = list(zip(xs, [self.reify(c) for c in y]))
                ky, vy = w.sym(z3.substitute(kt, *py), STR), w.sym(z3.substitute(vt, *py), STR)
                return And(self.eq(kx, ky), Not(self.eq(vx, vy)))
            return self.any_seg(segs, with_)

        b = self.any_seg(segs, clash)
        i, (h, p, exc) = exits[0]
        if self.feasible(b):
            chans[i].append((dict(base_heap), self.extend(base_pc, b), exc))
        if not self.feasible(Not(b)):
            raise Dead
        self.heap, self.pc = dict(base_heap), self.extend(base_pc, Not(b))
        for l in locs:
            self.set_loc(self.heap, l, HDict([], [TokSeg(Tok(-1))], None) if l is d else Poison("after loop"))
        return True

    def carried_exit(self, m, l, t, toks, base_heap, base_pc, res, exits, chans):
        return None

    def value_mentions(self, v, e):
        if isinstance(v, (type(None), bool, ExcV, str)):
            return False
        try:
            return self.key_mentions(v, e)
        except KeyError:
            return False

    def reach(self, v):
        out, todo = set(), [v]
        seen = set()

        def refs(x):
            if isinstance(x, Ref):
                todo.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    refs(y)
            elif isinstance(x, U):
                for _, y in x.alts:
                    refs(y)
            elif isinstance(x, SeqV):
                for s in x.segs:
                    seg(s)
            elif isinstance(x, Bound):
                refs(x.self)
            elif isinstance(x, SStr):
                for p in x.parts:
                    part(p)

        def part(p):
            if p[0] == "join":
                for s in p[2]:
                    seg(s)
            elif p[0] == "if":
                for q in p[2] + p[3]:
                    part(q)

        def seg(s):
            if isinstance(s, One):
                refs(s.v)
            elif isinstance(s, Map):
                for x in s.segs:
                    seg(x)

        todo = []
        refs(v)
        while todo:
            r = todo.pop()
            if r.a in seen:
                continue
            seen.add(r.a)
            out.add(r.a)
            h = self.heap.get(r.a)
            if isinstance(h, (HList, HSet)):
                for s in h.segs:
                    seg(s)
            elif isinstance(h, HInst):
                for x in h.fields.values():
                    refs(x)
            elif isinstance(h, HDict):
                for _, k, x in h.entries:
                    refs(k)
                    refs(x)
                for s in h.segs:
                    seg(s)
        return out

    def changed(self, base, heaps, exits):
        locs = []
        hs = list(heaps) + [x[0] for _, x in exits]
        for a, o in base.items():
            if (a, None) in self.soft:
                continue
            for h in hs:
                n = h.get(a)
                if n is o or n is None:
                    continue
                if isinstance(o, HEnv):
                    for k in dict.fromkeys(list(o.vars) + list(n.vars)):
                        if k not in o.vars or k not in n.vars or not same(o.vars[k], n.vars[k]):
                            locs.append((a, k))
                elif isinstance(o, HInst):
                    for k in dict.fromkeys(list(o.fields) + list(n.fields)):
                        if k not in o.fields or k not in n.fields or not same(o.fields[k], n.fields[k]):
                            locs.append((a, k))
                else:
                    if isinstance(o, (HList, HSet)) and len(o.segs) == len(n.segs) and all(
                            seg_same(x, y) for x, y in zip(o.segs, n.segs)):
                        continue
                    locs.append((a, None))
        return list(dict.fromkeys(locs))

    def token(self, base, l, m):
        a, k = l
        o = base[a]
        self.w.n += 1
        n = self.w.n
        if isinstance(o, HSet) and self.positions(o, m):
            return HSet([TokSeg(IdxTok(n, m.src, m.e))])
        if isinstance(o, (HList, HSet)):
            return type(o)([TokSeg(Tok(n))])
        if isinstance(o, HDict):
            return HDict([], [TokSeg(Tok(n))], None)
        v = (o.vars if isinstance(o, HEnv) else o.fields).get(k, POISON)
        if is_bool(v):
            return z3.Bool("tok%d" % n)
        if isinstance(v, Sym) and all(c is bool for c in v.classes()):
            return z3.Bool("tok%d" % n)
        if is_int(v):
            return z3.Int("tok%d" % n)
        if is_str(v):
            return SStr((("tok", n),))
        return Tok(n)

    def positions(self, o, m):
        """The set of all positions of the sequence m runs over."""
        if len(o.segs) != 1 or not isinstance(o.segs[0], Map):
            return False
        x = o.segs[0]
        return (x.g is True and x.src.eq(m.src) and len(x.segs) == 1 and isinstance(x.segs[0], One)
                and x.segs[0].g is True and isinstance(x.segs[0].v, Index) and x.segs[0].v.off == 0
                and x.segs[0].v.src.eq(m.src) and x.segs[0].v.e.eq(x.e))

    def set_loc(self, heap, l, v):
        a, k = l
        o = heap[a]
        if k is None:
            heap[a] = v
        elif isinstance(o, HEnv):
            heap[a] = HEnv({**o.vars, k: v}, o.parent)
        else:
            heap[a] = HInst(o.cls, {**o.fields, k: v})

    def get_loc(self, heap, l):
        a, k = l
        o = heap[a]
        if k is None:
            return o
        return (o.vars if isinstance(o, HEnv) else o.fields).get(k, POISON)

    def fold(self, m, l, toks, base, after):
        """Value of a location after all iterations."""
        old, tok, new = self.get_loc(base, l), toks[l], self.get_loc(after, l)
        why = Poison("after loop: %s" % (l[1],))
        if isinstance(old, (HList, HSet)):
            t = tok.segs[0].tok
            if isinstance(t, IdxTok):
                if new.segs[0] is not tok.segs[0] or not all(isinstance(s, Minus) for s in new.segs[1:]):
                    return self.poison_obj(old)
                kept = Not(Or(*[s.g for s in new.segs[1:]]))
                x = old.segs[0]
                ix = Index(m.src, m.e, 0)
                ix.val, ix.base = x.segs[0].v.val, x.segs[0].v.base
                if not m.e.eq(x.e):
                    ix.val = self.subst(ix.val, [(x.e, m.e)])
                return HSet([Map(True, m.src, m.e, [One(kept, ix)])])
            if new.segs and isinstance(new.segs[0], TokSeg) and new.segs[0].tok is t and new.segs[0].g is True:
                rest = new.segs[1:]
                if any(self.seg_has_tok(s) for s in rest):
                    return self.poison_obj(old)
                return type(old)(old.segs + ((Map(True, m.src, m.e, rest, m.unord),) if rest else ()))
            return self.poison_obj(old)
        if isinstance(old, HDict):
            return self.fold_dict(m, old, tok, new)
        if z3.is_expr(tok) and z3.is_bool(tok):
            if not is_bool(new):
                if isinstance(new, Sym):
                    new = self.truth(new)
                else:
                    return why
            new = B(new)
            hi = z3.simplify(z3.substitute(new, (tok, z3.BoolVal(True))))
            lo = z3.simplify(z3.substitute(new, (tok, z3.BoolVal(False))))
            oldb = self.truth(old)
            if z3.is_true(hi):
                lo2 = z3.substitute(new, (tok, z3.BoolVal(False)))
                return Or(oldb, self.w.exists(m.src, m.e, nb(lo2))[0])
            if z3.is_false(lo):
                hi2 = z3.substitute(new, (tok, z3.BoolVal(True)))
                return And(oldb, Not(self.w.exists(m.src, m.e, Not(nb(hi2)))[0]))
            return why
        if z3.is_expr(tok) and z3.is_int(tok):
            if not is_int(new):
                return why
            d = z3.simplify(self.to_int(new) - tok)
            if not mentions(d, tok):
                c = self.w.fresh("sum", z3.IntSort())
                if self.w.check(list(self.pc) + [MEM(m.src, m.e), d < 0], 2000) == z3.unsat:
                    b, _ = self.w.exists(m.src, m.e, z3.simplify(d > 0))
                    self.w.axiom(And(c >= 0, Iff(c > 0, b)))
                if z3.is_int_value(d) and d.as_long() == 1 and not m.unord:
                    self.w.axiom(c == LEN(m.src))
                return self.to_int(old) + c
            return why
        if isinstance(tok, SStr):
            ps = new.parts if isinstance(new, SStr) else ()
            if ps and ps[0] == tok.parts[0] and not any(self.part_has_tok(p) for p in ps[1:]):
                return sstr(list(parts_of(old)) + [("join", (), (Map(True, m.src, m.e, [One(True, sstr(ps[1:]))]),))])
            return why
        # conditional assignment of a value that does not depend on the element
        if isinstance(new, U):
            keep = [(g, x) for g, x in new.alts if x is tok]
            setv = [(g, x) for g, x in new.alts if x is not tok]
            if len(keep) == 1 and setv and not any(self.value_mentions(x, m.e) for _, x in setv):
                if len(setv) == 1:
                    b, _ = self.w.exists(m.src, m.e, setv[0][0])
                    return merge([(b, setv[0][1]), (Not(b), old)])
        elif not isinstance(new, (Tok, Poison)) and not self.value_mentions(new, m.e):
            return merge([(NE(m.src), new), (Not(NE(m.src)), old)])
        return why

    def fold_dict(self, m, old, tok, new):
        t = tok.segs[0].tok
        if not new.entries and new.segs and isinstance(new.segs[0], TokSeg) and new.segs[0].tok is t:
            rest = new.segs[1:]
            if not any(self.seg_has_tok(s) for s in rest):
                return HDict(old.entries, old.segs + (Map(True, m.src, m.e, rest, m.unord),), old.base)
        return HDict([], [TokSeg(Tok(-1))], None)

    def poison_obj(self, o):
        return type(o)([TokSeg(Tok(-1))])

    def seg_has_tok(self, s):
        if isinstance(s, TokSeg):
            return True
        if isinstance(s, One):
            return self.val_has_tok(s.v)
        return any(self.seg_has_tok(x) for x in s.segs)

    def val_has_tok(self, v):
        if isinstance(v, Tok):
            return True
        if isinstance(v, U):
            return any(self.val_has_tok(x) for _, x in v.alts)
        if isinstance(v, tuple):
            return any(self.val_has_tok(x) for x in v)
        if isinstance(v, SStr):
            return any(self.part_has_tok(p) for p in v.parts)
        return False

    def part_has_tok(self, p):
        if p[0] == "tok":
            return True
        if p[0] == "if":
            return any(self.part_has_tok(x) for x in p[2] + p[3])
        if p[0] == "join":
            return any(self.seg_has_tok(s) for s in p[2])
        return False

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.where = (fr.info.path, s.lineno)
        fr.node = s
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("too many steps")
        if self.deadline is not None and self.steps % 64 == 0:
            import time
            if time.time() > self.deadline:
                raise Unsupported("out of time")
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            self.do_yield(s.value, fr)
            return
        if isinstance(s.value, ast.YieldFrom):
            fr.yields += self.segs_of(self.ev(s.value.value, fr))
            return
        self.ev(s.value, fr)

    def do_yield(self, n, fr):
        v = None if n.value is None else self.ev(n.value, fr)
        if fr.hook is not None:
            fr.hook(v)
            return
        y = self.get(fr.yields)
        self.put(fr.yields, HList(y.segs + (One(True, v),)))

    def st_Pass(self, s, fr):
        pass

    def st_Import(self, s, fr):
        raise Unsupported("import statement")

    def st_ImportFrom(self, s, fr):
        import importlib
        mod = importlib.import_module(("." * s.level) + (s.module or ""), fr.info.globals.get("__package__"))
        for a in s.names:
            self.bind((a.asname or a.name), getattr(mod, a.name), fr)

    def st_Global(self, s, fr):
        pass

    st_Nonlocal = st_Global

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.assign(t, self.inplace(op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.mangle(t.attr, fr)
            old = self.getattr(o, nm)
            self.setattr(o, nm, self.inplace(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
                continue
            raise Unsupported("del")

    def st_If(self, s, fr):
        c = self.cond(s.test, fr)
        if isinstance(c, bool):
            return self.block(s.body if c else s.orelse, fr)
        self.fork([(c, s.body), (Not(c), s.orelse)], lambda b: self.block(b, fr))

    def st_Assert(self, s, fr):
        c = self.cond(s.test, fr)
        self.raise_if(Not(c), AssertionError)

    def st_Return(self, s, fr):
        v = None if s.value is None else self.ev(s.value, fr)
        fr.rets.append((self.heap, self.pc, v))
        raise Dead

    def st_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                raise Unsupported("bare raise")
            self.throw(self.exc_stack[-1])
        v = self.ev(s.exc, fr)
        if isinstance(v, type):
            v = ExcV(v)
        if isinstance(v, U) and all(isinstance(x, ExcV) for _, x in v.alts):
            def one(x):
                self.throw(x)
            return self.fork(v.alts, one)
        if not isinstance(v, ExcV):
            raise Unsupported("raise of %r" % (v,))
        e = ExcV(v.cls)
        e.where = (fr.info.path, s.lineno)
        self.throw(e)

    def st_FunctionDef(self, s, fr):
        c = self.closure(s, fr, s.name)
        self.bind(s.name, c, fr)

    def st_Break(self, s, fr):
        fr.loops[-1].breaks.append((self.heap, self.pc, None))
        raise Dead

    def st_Continue(self, s, fr):
        fr.loops[-1].conts.append((self.heap, self.pc, None))
        raise Dead

    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        for t in ast.walk(s.target):
            if isinstance(t, ast.Name):
                self.soft.add((fr.env, t.id))

        def each(v):
            self.assign(s.target, v, fr)
            self.block(s.body, fr)

        self.loop(s, fr, it, each)

    def loop(self, s, fr, it, each):
        n0 = self.nraises
        it = self.force(it)
        if self.nraises != n0:
            raise Unsupported("loop over an iterator that may fail")
        base_pc = self.pc
        brk = []
        n0 = self.nraises
        r0 = len(fr.rets)

        def body(v):
            lp = Loop()
            lp.breaks = brk
            fr.loops.append(lp)
            pc0 = self.pc
            n1, r1, b1 = self.nraises, len(fr.rets), len(brk)
            try:
                each(v)
                states = [(self.heap, self.pc, None)]
            except Dead:
                states = []
            finally:
                fr.loops.pop()
            states += lp.conts
            total = self.nraises == n1 and len(fr.rets) == r1 and len(brk) == b1
            self.merge_states(states, pc0, total)
            return []

        self.channels().append(fr.rets)
        self.chans.append(brk)
        for l in fr.loops:
            self.chans += [l.conts, l.breaks]
        k = 2 + 2 * len(fr.loops)
        try:
            snap = (self.heap, self.pc, [len(c) for c in self.chans], len(self.handlers[-1]), len(self.w.scopes),
                    self.nraises)
            try:
                self.iterate(it, body)
            except Unsupported as u:
                if "loop-carried" not in str(u):
                    raise
                self.heap, self.pc = snap[0], snap[1]
                for c, n in zip(self.chans, snap[2]):
                    del c[n:]
                del self.handlers[-1][snap[3]:]
                while len(self.w.scopes) > snap[4]:
                    self.w.close()
                self.nraises = snap[5]
                if not self.consistency(it, body):
                    raise
            if s.orelse:
                self.block(s.orelse, fr)
            states = [(self.heap, self.pc, None)]
        except Dead:
            states = []
        finally:
            del self.chans[-k:]
        states += brk
        total = self.nraises == n0 and len(fr.rets) == r0 and not any(l.breaks or l.conts for l in fr.loops)
        self.merge_states(states, base_pc, total)

    def st_While(self, s, fr):
        base_pc = self.pc
        brk = []
        for i in range(64):
            if self.worklist(s, fr):
                c = False
                break
            c = self.cond(s.test, fr)
            if c is False:
                break
            if c is not True:
                raise Unsupported("while loop with a symbolic condition")
            lp = Loop()
            lp.breaks = brk
            fr.loops.append(lp)
            pc0 = self.pc
            try:
                self.block(s.body, fr)
                states = [(self.heap, self.pc, None)]
            except Dead:
                states = []
            finally:
                fr.loops.pop()
            states += lp.conts
            try:
                self.merge_states(states, pc0)
            except Dead:
                states = []
                break
        else:
            raise Unsupported("while loop not unrolled")
        states = brk + ([(self.heap, self.pc, None)] if i < 64 and (c is False) else [])
        self.merge_states(states, base_pc)

    def worklist(self, s, fr):
        """A loop that takes a node off a work list, handles it and puts its children on the list handles exactly the
        nodes reachable from those on the list at the start (finite graphs)."""
        names = {t.id for t in ast.walk(s.test) if isinstance(t, ast.Name)}
        refs = []
        for k in sorted(names):
            v = self.heap[fr.env].vars.get(k)
            if isinstance(v, Ref) and isinstance(self.heap.get(v.a), HList):
                refs.append(v)
        if len(refs) != 1 or s.orelse:
            return False
        (ref,) = refs
        whole = self.heap[ref.a]
        if all(isinstance(x, One) and x.g is True for x in whole.segs) or any(isinstance(x, TokSeg) for x in whole.segs):
            return False
        # the test must be: the list is not empty
        for segs, want in (((), False), ((One(True, None),), True)):
            snap = self.snapshot()
            self.put(ref, HList(segs))
            got = self.cond(s.test, fr)
            self.restore(snap)
            if got is not want:
                return False
        why = "no children function declared"
        for children, node in CLOSURES:
            for front in (False, True):
                snap = (self.heap, self.pc, [len(c) for c in self.channels()], len(self.handlers[-1]), len(self.w.scopes),
                        self.nraises, len(fr.rets), len(self.frame_writes))
                try:
                    self.closure_loop(s, fr, ref, whole, children, node, front)
                    return True
                except Unsupported as u:
                    why = why if front else str(u)
                    self.heap, self.pc = snap[0], snap[1]
                    for c, n in zip(self.chans, snap[2]):
                        del c[n:]
                    del self.handlers[-1][snap[3]:]
                    while len(self.w.scopes) > snap[4]:
                        self.w.close()
                    self.nraises = snap[5]
                    del fr.rets[snap[6]:]
                    del self.frame_writes[snap[7]:]
        raise Unsupported("work list: " + why)

    def reachable(self, v, children, node):
        """Segments: the nodes reachable from v (in no particular order)."""
        def one(x):
            t = self.w.uf("reach_" + children.__name__, V, V)(self.reify(x))
            sym = self.w.sym(t, listof(node, minlen=1))
            return [Map(m.g, m.src, m.e, m.segs, True) for m in self.segs_of(sym)]

        if isinstance(v, U):
            return [guard_seg(x, g) for g, y in v.alts for x in one(y)]
        return one(v)

    def closure_loop(self, s, fr, ref, whole, children, node, front):
        def roots(segs):
            out = []
            for x in segs:
                if isinstance(x, One):
                    out += [guard_seg(y, x.g) if x.g is not True else y for y in self.reachable(x.v, children, node)]
                elif isinstance(x, Map):
                    out.append(Map(x.g, x.src, x.e, roots(x.segs), True))
                else:
                    raise Unsupported("work list contents")
            return out

        self.soft.add((ref.a, None))
        mark = TokSeg(Tok(-2))
        # assignments to plain locals in the body are temporaries unless they are read before being written
        for t in first_writes(s.body):
            self.soft.add((fr.env, t))

        def each(x):
            self.put(ref, HList((One(True, x), mark) if front else (mark, One(True, x))))
            lp, pc0 = Loop(), self.pc
            lp.breaks = fr.loops[-1].breaks
            fr.loops.append(lp)
            self.soft.discard((ref.a, None))        # what loops inside the body put on the list counts
            try:
                self.block(s.body, fr)
                states = [(self.heap, self.pc, None)]
            except Dead:
                states = []
            finally:
                fr.loops.pop()
                self.soft.add((ref.a, None))
            self.merge_states(states + lp.conts, pc0)
            h = self.heap[ref.a]
            if not h.segs or h.segs[0] is not mark:
                raise Unsupported("work list not popped")
            pushed = self.alloc(HList(h.segs[1:]))
            want = self.call_spec(children, [x], {})
            if not self.agrees(pushed, want):
                raise Unsupported("work list: what is put on the list is not %s" % children.__name__)
            self.put(ref, whole)

        self.loop(s, fr, SeqV("list", roots(whole.segs)), each)
        self.put(ref, HList(()))

    def agrees(self, a, b):
        from .equal import Equal, Mismatch

        def check(f, pc, what):
            if not self.valid(f, tuple(pc)):
                raise Mismatch(what)
        try:
            Equal(self, check).eq(a, b, self.pc, "")
            return True
        except Mismatch:
            return False

    def st_Try(self, s, fr):
        base_pc = self.pc
        n0, r0 = self.nraises, len(fr.rets)
        fin = bool(s.finalbody)
        outer_rets = fr.rets
        outer_loops = [(l.breaks, l.conts) for l in fr.loops]
        if fin:
            fr.rets = []
            for l in fr.loops:
                l.breaks, l.conts = [], []
            self.handlers.append([])
        self.handlers.append([])
        try:
            try:
                self.block(s.body, fr)
                normal = [(self.heap, self.pc, None)]
            except Dead:
                normal = []
        finally:
            caught = self.handlers.pop()
        states = []
        if normal and s.orelse:
            self.heap, self.pc, _ = normal[0]
            try:
                self.block(s.orelse, fr)
                normal = [(self.heap, self.pc, None)]
            except Dead:
                normal = []
        states += normal
        rest = caught
        handled = False
        for h in s.handlers:
            if h.type is None:
                cs = (BaseException,)
            else:
                self_heap, self_pc = self.heap, self.pc
                if caught:
                    self.heap, self.pc = caught[0][0], caught[0][1]
                cs = flat_classes(self.ev(h.type, fr))
                self.heap, self.pc = self_heap, self_pc
            for x in rest:
                if getattr(x[2], "inexact", False) and not issubclass(x[2].cls, cs) and any(
                        may_be(k, x[2].cls) for k in cs):
                    raise Unsupported("except clause for an error that a callee may raise")
            mine = [x for x in rest if issubclass(x[2].cls, cs)]
            rest = [x for x in rest if not issubclass(x[2].cls, cs)]
            groups = {}
            for x in mine:
                groups.setdefault(x[2].cls, []).append(x)
            for cls, xs in groups.items():
                handled = True
                exc = xs[0][2]
                try:
                    self.merge_states([(a, b, None) for a, b, _ in xs], base_pc)
                    if h.name:
                        self.bind(h.name, exc, fr)
                    self.exc_stack.append(exc)
                    try:
                        self.block(h.body, fr)
                    finally:
                        self.exc_stack.pop()
                    states.append((self.heap, self.pc, None))
                except Dead:
                    pass
        for x in rest:
            self.handlers[-1].append(x)
        if fin:
            escaped = self.handlers.pop()
            rets, fr.rets = fr.rets, outer_rets
            loops = [(l.breaks, l.conts) for l in fr.loops]
            for l, (b, c) in zip(fr.loops, outer_loops):
                l.breaks, l.conts = b, c
            def final(st, dest):
                for x in st:
                    self.heap, self.pc = dict(x[0]), x[1]
                    try:
                        self.block(s.finalbody, fr)
                        dest.append((self.heap, self.pc, x[2]))
                    except Dead:
                        pass
            final(escaped, self.handlers[-1])
            final(rets, fr.rets)
            for l, (b, c) in zip(fr.loops, loops):
                final(b, l.breaks)
                final(c, l.conts)
            self.merge_states(states, base_pc)
            self.block(s.finalbody, fr)
            return
        self.merge_states(states, base_pc)

    def st_With(self, s, fr):
        self.with_items(list(s.items), s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        it = items[0]
        c = self.ev(it.context_expr, fr)
        if not isinstance(c, CtxV):
            raise Unsupported("with statement")
        result = {}

        def hook(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            save, fr.rets = fr.rets, []
            pc0 = self.pc
            try:
                self.with_items(items[1:], body, fr)
                fall = [(self.heap, self.pc, None)]
            except Dead:
                fall = []
            rets, fr.rets = fr.rets, save
            n = len(pc0)
            states = fall + rets
            if not states:
                raise Dead
            gs = [And(*p[n:]) for _, p, _ in states]
            flags = [False] * len(fall) + [True] * len(rets)
            result["flag"] = merge(list(zip(gs, flags)))
            vals = [(g, x[2]) for g, x in zip(gs, states)][len(fall):]
            result["val"] = merge(vals) if vals else None
            self.merge_states(states, pc0)

        self.run_generator(c.f, c.args, c.kw, hook)
        if "flag" not in result:
            raise Unsupported("context manager did not yield")

        def out(r):
            if r:
                fr.rets.append((self.heap, self.pc, result["val"]))
                raise Dead

        self.fork([(result["flag"], True), (Not(result["flag"]), False)], out)


class Segs:
    """Wrapper so that segment lists survive value merging."""

    def __init__(self, segs):
        self.segs = tuple(segs)


def nb(f):
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return f


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def pure(n):
    if isinstance(n, (ast.Constant, ast.Name)):
        return True
    if isinstance(n, ast.JoinedStr):
        return all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and isinstance(
            v.value, ast.Constant)) for v in n.values)
    return False


def may_be(k, cls):
    """An error that a contract names as cls may be a k."""
    from .lang import AnyError, Rejected
    from .native import sdk_error
    if cls is AnyError:
        return True
    if cls is Rejected:
        return any(sdk_error(c) for c in subclasses(k))
    return issubclass(k, cls)


def subclasses(k):
    return {k}.union(*[subclasses(c) for c in k.__subclasses__()])
