"""Equality of outcomes: the value computed by the code against the value its contract prescribes."""
from __future__ import annotations

import dataclasses
import datetime as dt
import enum

import z3

from .sym import And, B, BVAL, CLS, DROP, FTRUE, IDX, IVAL, Iff, Implies, LEN, MEM, NE, Not, Or, Sym, Unsupported, mentions
from .ty import Other
from .util import concrete, dkey, guard_seg
from .vals import *  # noqa: F401,F403


class Mismatch(Exception):
    def __init__(self, what):
        self.what = what


class Equal:
    """Discharges 'code value == contract value' piece by piece; every leaf is a solver obligation."""

    def __init__(self, E, check):
        self.E = E
        self.w = E.w
        self.check = check      # check(formula, pc, what): records an obligation; raises Mismatch if not discharged
        self.depth = 0

    def feas(self, pc, g=True):
        if g is False:
            return False
        save, self.E.pc = self.E.pc, tuple(pc)
        try:
            if g is True:
                return self.w.check(list(pc), 400) != z3.unsat
            return self.E.feasible(g)
        finally:
            self.E.pc = save

    def valid(self, f, pc, ms=3000):
        if f is True:
            return True
        if f is False:
            return not self.feas(pc)
        return self.E.valid(f, tuple(pc), ms)

    def under(self, pc, fn):
        save, self.E.pc = self.E.pc, tuple(pc)
        try:
            return fn()
        finally:
            self.E.pc = save

    def possible(self, fn):
        """Does the comparison succeed?  If so its obligations count as discharged; otherwise nothing is recorded."""
        ck = self.check
        done = []

        def quiet(f, pc, what):
            if not self.valid(f, pc):
                raise Mismatch(what)
            done.append(1)
        quiet.note = lambda n: done.extend([1] * n)
        self.check = quiet
        try:
            fn()
        except Mismatch:
            return False
        finally:
            self.check = ck
        note = getattr(ck, "note", None)
        if note is not None:
            note(len(done))
        return True

    def fail(self, pc, what):
        self.check(False, pc, what)

    def add(self, pc, g):
        return tuple(pc) if g is True else tuple(pc) + (g,)

    # ------------------------------------------------------------------ values
    def eq(self, a, b, pc, what="result"):
        self.depth += 1
        try:
            if self.depth > 60:
                raise Unsupported("comparison depth")
            self.eq1(a, b, pc, what)
        finally:
            self.depth -= 1

    def eq1(self, a, b, pc, what):
        E, w = self.E, self.w
        if a is b or same(a, b) and not isinstance(a, Poison):
            return
        if isinstance(a, U) or isinstance(b, U):
            fa, fb = self.fields_of(a), self.fields_of(b)
            if fa is not None and fb is not None and fa[0] is fb[0] and set(fa[1]) == set(fb[1]):
                # instances of one class on every path: field by field
                for f in fa[1]:
                    self.eq(fa[1][f], fb[1][f], pc, "%s.%s" % (what, f))
                return
            for g, x in (a.alts if isinstance(a, U) else [(True, a)]):
                for h, y in (b.alts if isinstance(b, U) else [(True, b)]):
                    gh = And(g, h)
                    if gh is False or not self.feas(pc, gh):
                        continue
                    self.eq(x, y, self.add(pc, gh), what)
            return
        if isinstance(a, (Poison, Tok)) or isinstance(b, (Poison, Tok)):
            if not self.feas(pc):
                return
            raise Unsupported("result not tracked: %s" % getattr(a if isinstance(a, (Poison, Tok)) else b, "why", ""))
        if is_bool(a) and is_bool(b):
            return self.check(Iff(a, b), pc, what)
        if is_int(a) and is_int(b):
            return self.check(E.to_int(a) == E.to_int(b), pc, what)
        if is_str(a) and is_str(b):
            return self.strings(list(parts_of(a)), list(parts_of(b)), pc, what)
        if isinstance(a, Sym) and isinstance(b, Sym):
            return self.syms(a, b, pc, what)
        if isinstance(a, Sym) or isinstance(b, Sym):
            s, v = (a, b) if isinstance(a, Sym) else (b, a)
            return self.sym_val(s, v, pc, what)
        if isinstance(a, (tuple, SeqV)) and isinstance(b, (tuple, SeqV)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return self.fail(pc, "%s: tuples of different lengths" % what)
                for i, (x, y) in enumerate(zip(a, b)):
                    self.eq(x, y, pc, "%s[%d]" % (what, i))
                return
            return self.segs(self.of(a), self.of(b), pc, what)
        a, b = self.lift(a), self.lift(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.heap(a, b, pc, what)
        if concrete(a) and concrete(b):
            return self.check(type(a) is type(b) and a == b, pc, what)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.check(E.is_(a, b), pc, what)
        ca, cb = E.cls_of(a), E.cls_of(b)
        if ca is not cb:
            return self.fail(pc, "%s: %s instead of %s" % (what, ca.__name__, cb.__name__))
        raise Unsupported("comparison of results %r / %r" % (a, b))

    def fields_of(self, v):
        """(class, fields) when v is an instance of one class on every path."""
        alts = v.alts if isinstance(v, U) else [(True, v)]
        hs = [(g, self.E.get(x)) for g, x in alts if isinstance(x, Ref)]
        if len(hs) != len(alts) or not all(isinstance(h, HInst) for _, h in hs):
            return None
        h0 = hs[0][1]
        if any(h.cls is not h0.cls or set(h.fields) != set(h0.fields) for _, h in hs):
            return None
        known = self.known(h0.cls)
        return h0.cls, {f: merge([(g, h.fields[f]) for g, h in hs]) for f in h0.fields if known is None or f in known}

    def lift(self, v):
        if isinstance(v, (list, set, frozenset, dict)):
            return self.E.lift(v)
        d = getattr(v, "__dict__", None)
        if dataclasses.is_dataclass(type(v)) and d is not None and not isinstance(v, (enum.Enum, type)) and type(
                v).__module__.startswith("snuba_sdk"):
            return self.E.alloc(HInst(type(v), dict(d)))
        return v

    def of(self, v):
        return list(self.E.segs_of(v))

    def syms(self, a, b, pc, what):
        t, u = a.term, b.term
        if self.valid(t == u, pc):
            return self.check(t == u, pc, what)
        w = self.w
        alts = []
        ca, cb = a.classes(), b.classes()
        if all(c in (int, bool, float, str, type(None)) for c in ca + cb) and any(c is int for c in ca + cb):
            f = Or(t == u, And(CLS(t) == w.cid(int), CLS(u) == w.cid(int), IVAL(t) == IVAL(u)))
            return self.check(f, pc, what)
        # compare by class: structural comparison of the fields
        for c in ca:
            g = CLS(t) == w.cid(c)
            if not self.feas(pc, g):
                continue
            p = self.add(pc, g)
            fields = self.field_names(a, c) or self.field_names(b, c)
            if fields and c in cb and not self.valid(t == u, p):
                self.check(CLS(u) == w.cid(c), p, "%s: class" % what)
                for f in fields:
                    self.eq(w.fieldsym(a, f)[1], w.fieldsym(b, f)[1], p, "%s.%s" % (what, f))
            elif c in (list, tuple) and c in cb and not self.valid(t == u, p):
                self.check(CLS(u) == w.cid(c), p, "%s: class" % what)
                self.segs(self.under(p, lambda: self.of(a)), self.under(p, lambda: self.of(b)), p, what)
            elif c is int and int in cb:
                self.check(And(CLS(u) == w.cid(int), IVAL(t) == IVAL(u)), p, what)
            else:
                self.check(t == u, p, what)

    def field_names(self, s, c):
        for _, a in s.alts:
            if a.cls is c and a.fields:
                return sorted(a.fields)
        return None

    def sym_val(self, s, v, pc, what):
        E, w = self.E, self.w
        t = s.term
        if is_bool(v):
            return self.check(And(CLS(t) == w.cid(bool), Iff(BVAL(t), v)), pc, what)
        if is_int(v):
            return self.check(And(CLS(t) == w.cid(int), IVAL(t) == E.to_int(v)), pc, what)
        if is_str(v):
            self.check(CLS(t) == w.cid(str), pc, "%s: text" % what)
            return self.strings([("at", t)], list(parts_of(v)), pc, what)
        if v is None or isinstance(v, (enum.Enum, float, bytes)):
            return self.check(t == w.lit(v), pc, what)
        v = self.lift(v)
        if isinstance(v, Ref):
            h = E.get(v)
            c = E.cls_of(v)
            self.check(CLS(t) == w.cid(c), pc, "%s: class %s" % (what, c.__name__))
            if isinstance(h, HInst):
                for f, x in h.fields.items():
                    fn = self.field_names(s, c)
                    if fn is not None and f not in fn:
                        continue
                    self.eq(w.fieldsym(s, f)[1], x, pc, "%s.%s" % (what, f))
                return
            if isinstance(h, HDict):
                if h.base is not None and not h.entries and not h.segs:
                    return self.check(h.base.term == t, pc, what)
                if not h.entries and not h.segs and h.base is None:
                    return self.check(Not(NE(t)), pc, what)
                if h.base is None and not h.entries and len(h.segs) == 1 and isinstance(h.segs[0], Map):
                    return self.segs(self.under(pc, lambda: E.symdict_view(s, "items")), list(h.segs), pc, what)
                raise Unsupported("comparison of dicts")
            if isinstance(h, HSet):
                return self.sets(self.under(pc, lambda: self.of(s)), list(h.segs), pc, what)
            return self.segs(self.under(pc, lambda: self.of(s)), list(h.segs), pc, what)
        if isinstance(v, (tuple, SeqV)):
            self.check(CLS(t) == w.cid(tuple), pc, "%s: tuple" % what)
            return self.segs(self.under(pc, lambda: self.of(s)), self.of(v), pc, what)
        if isinstance(v, (dt.date, dt.timedelta)):
            return self.check(t == w.lit(v), pc, what)
        raise Unsupported("comparison of a symbol with %r" % (v,))

    # ------------------------------------------------------------------ heap objects
    def heap(self, a, b, pc, what):
        E = self.E
        if a.a == b.a:
            return
        x, y = E.get(a), E.get(b)
        if E.cls_of(a) is not E.cls_of(b):
            return self.fail(pc, "%s: %s instead of %s" % (what, E.cls_of(a).__name__, E.cls_of(b).__name__))
        if isinstance(x, HInst):
            known = self.known(x.cls)
            for f in dict.fromkeys(list(x.fields) + list(y.fields)):
                if known is not None and f not in known:
                    continue
                if f not in x.fields or f not in y.fields:
                    self.fail(pc, "%s: field %s missing" % (what, f))
                    continue
                self.eq(x.fields[f], y.fields[f], pc, "%s.%s" % (what, f))
            return
        if isinstance(x, HList):
            return self.segs(list(x.segs), list(y.segs), pc, what)
        if isinstance(x, HSet):
            return self.sets(list(x.segs), list(y.segs), pc, what)
        if isinstance(x, HDict):
            return self.dicts(x, y, pc, what)
        raise Unsupported("comparison of heap objects")

    def known(self, cls):
        from .ty import TYPES
        fs = None
        for t in TYPES.values():
            for a in t.resolve().alts:
                if a.cls is cls and a.fields is not None:
                    fs = (fs or set()) | set(a.fields)
        return fs

    def dicts(self, x, y, pc, what):
        if (x.base is None) != (y.base is None):
            raise Unsupported("dict copies")
        if x.base is not None:
            self.check(x.base.term == y.base.term, pc, "%s: base" % what)
        if x.segs or y.segs:
            if x.entries or y.entries:
                raise Unsupported("dict with generic and fixed keys")
            return self.segs(list(x.segs), list(y.segs), pc, what)
        ex = {dkey(k): (g, k, v) for g, k, v in x.entries}
        ey = {dkey(k): (g, k, v) for g, k, v in y.entries}
        for k in dict.fromkeys(list(ex) + list(ey)):
            g1, key, v1 = ex.get(k, (False, None, None))
            g2, key2, v2 = ey.get(k, (False, None, None))
            key = key if k in ex else key2
            self.check(Iff(g1, g2), pc, "%s: key %r present" % (what, key))
            g = And(g1, g2)
            if g is not False and self.feas(pc, g):
                self.eq(v1, v2, self.add(pc, g), "%s[%r]" % (what, key))

    # ------------------------------------------------------------------ sequences
    def clean(self, segs, pc):
        """Drop segments that cannot occur; guards known to hold become True."""
        out = []
        for s in segs:
            g = s.g
            if g is not True:
                if not self.feas(pc, g):
                    continue
            if isinstance(s, TokSeg):
                raise Unsupported("sequence not tracked")
            if g is not True:
                if self.valid(g, pc, 400):
                    g = True
            if isinstance(s, Map):
                if not s.segs or not self.feas(pc, And(g, NE(s.src))):
                    continue
                out.append(Map(g, s.src, s.e, s.segs, s.unord))
            else:
                out.append(One(g, s.v))
        return out

    def segs(self, xs, ys, pc, what):
        """Equality of two sequences of segments, in order."""
        if not self.feas(pc):
            return
        xs, ys = self.clean(xs, pc), self.clean(ys, pc)
        i = 0
        while xs and ys:
            x, y = xs[0], ys[0]
            if isinstance(x, Map) and isinstance(y, Map) and bool(x.unord) != bool(y.unord):
                return self.fail(pc, "%s: order of the elements" % what)
            if x.g is True and y.g is True and isinstance(x, One) and isinstance(y, One):
                self.eq(x.v, y.v, pc, "%s[%d]" % (what, i))
                xs, ys = xs[1:], ys[1:]
                i += 1
                continue
            if isinstance(x, Map) and isinstance(y, Map) and x.src.eq(y.src) or isinstance(x, One) and isinstance(y, One):
                if x.g is True and y.g is True or self.valid(Iff(x.g, y.g), pc):
                    p = self.add(pc, x.g)
                    if isinstance(x, Map):
                        if self.possible(lambda: self.maps(x, y, p, what)):
                            xs, ys = xs[1:], ys[1:]
                            continue
                    elif self.possible(lambda: self.eq(x.v, y.v, p, what)):
                        xs, ys = xs[1:], ys[1:]
                        i += 1
                        continue
            # case split on a guard
            g = x.g if x.g is not True else y.g
            if g is not True:
                for c in (g, Not(g)):
                    if self.feas(pc, c):
                        self.segs(xs, ys, self.add(pc, c), what)
                return
            if isinstance(x, Map) and isinstance(y, One):
                xs = self.peel(x, pc) + xs[1:]
                if xs is None:
                    return
                continue
            if isinstance(y, Map) and isinstance(x, One):
                ys = self.peel(y, pc) + ys[1:]
                continue
            if isinstance(x, Map) and isinstance(y, Map):
                r = self.valid(x.src == y.src, pc)
                if r:
                    y = Map(y.g, x.src, y.e, y.segs, y.unord)
                    ys = [y] + ys[1:]
                    if self.possible(lambda: self.maps(x, y, pc, what)):
                        xs, ys = xs[1:], ys[1:]
                        continue
                    return self.maps(x, y, pc, what)
                if x.src.eq(y.src):
                    return self.maps(x, y, pc, what)
                return self.fail(pc, "%s: sequences over different collections" % what)
            return self.fail(pc, "%s: sequences differ" % what)
        for s in xs + ys:
            if isinstance(s, One):
                self.check(Not(s.g), pc, "%s: different number of elements" % what)
            else:
                self.check(Not(self.under(pc, lambda: self.E.segs_nonempty([s]))), pc,
                           "%s: different number of elements" % what)

    def peel(self, m, pc):
        """Map over src = its first element, then the rest (src known to be non-empty)."""
        if not self.valid(NE(m.src), pc):
            raise Unsupported("first element of a possibly empty sequence")
        first = [self.E.subst_seg(s, [(m.e, IDX(m.src, 0))]) for s in m.segs]
        return first + [self.E.drop_map(m)]

    def rename(self, m, e):
        if m.e.eq(e):
            return list(m.segs)
        return [self.E.subst_seg(s, [(m.e, e)]) for s in m.segs]

    def maps(self, x, y, pc, what):
        w = self.w
        x = self.E.rescope(x)
        e = x.e
        w.open(e, MEM(x.src, e))
        try:
            self.segs(list(x.segs), self.rename(y, e), self.add(pc, MEM(x.src, e)), "%s[each]" % what)
        finally:
            w.close()

    def sets(self, xs, ys, pc, what):
        xs, ys = self.clean(xs, pc), self.clean(ys, pc)
        for p, q, side in ((xs, ys, "extra element"), (ys, xs, "missing element")):
            for s in p:
                self.cover(s, q, pc, "%s: %s" % (what, side))

    def cover(self, s, q, pc, what):
        w, E = self.w, self.E
        if isinstance(s, One):
            p = self.add(pc, s.g)
            if not self.feas(p):
                return
            for t in q:
                if isinstance(t, One) and t.g is True and self.possible(lambda: self.eq(s.v, t.v, p, what)):
                    return
            f = self.under(p, lambda: E.any_seg(q, lambda y: E.eq(s.v, y)))
            return self.check(f, p, what)
        s = E.rescope(s)
        for t in q:
            if isinstance(t, Map) and t.src.eq(s.src) and self.possible(
                    lambda: (self.check(Implies(s.g, t.g), pc, what), self.maps(s, t, self.add(pc, s.g), what))):
                return
        w.open(s.e, MEM(s.src, s.e))
        try:
            p = self.add(self.add(pc, s.g), MEM(s.src, s.e))
            for x in s.segs:
                self.cover(x, q, p, what)
        finally:
            w.close()

    # ------------------------------------------------------------------ strings
    def simp(self, parts, pc):
        out = []
        for p in parts:
            if p[0] == "if":
                if not self.feas(pc, p[1]):
                    out += self.simp(p[3], pc)
                elif not self.feas(pc, Not(p[1])):
                    out += self.simp(p[2], pc)
                else:
                    out.append(p)
            elif p[0] == "join":
                segs = self.clean(p[2], pc)
                if all(isinstance(s, One) and s.g is True for s in segs):
                    for i, s in enumerate(segs):
                        if i:
                            out += list(p[1])
                        out += list(parts_of(s.v))
                else:
                    out.append(("join", p[1], tuple(segs)))
            else:
                out.append(p)
        r = sstr(out)
        return list(parts_of(r))

    def strings(self, pa, pb, pc, what):
        if not self.feas(pc):
            return
        pa, pb = self.simp(pa, pc), self.simp(pb, pc)
        n = 0
        while True:
            n += 1
            if n > 500:
                raise Unsupported("string comparison")
            while pa and pb and part_same(pa[-1], pb[-1]):
                pa, pb = pa[:-1], pb[:-1]
            if not pa and not pb:
                self.check(True, pc, what)
                return
            if not pa or not pb:
                rest = pa or pb
                f = self.under(pc, lambda: self.E.str_nonempty(rest))
                return self.check(Not(f), pc, "%s: extra text %s" % (what, show(rest)))
            x, y = pa[0], pb[0]
            if part_same(x, y):
                pa, pb = pa[1:], pb[1:]
                continue
            if x[0] == "lit" and y[0] == "lit":
                k = min(len(x[1]), len(y[1]))
                if x[1][:k] != y[1][:k]:
                    return self.fail(pc, "%s: text %r instead of %r" % (what, x[1][:40], y[1][:40]))
                pa = ([("lit", x[1][k:])] if x[1][k:] else []) + pa[1:]
                pb = ([("lit", y[1][k:])] if y[1][k:] else []) + pb[1:]
                continue
            if x[0] == "if" and y[0] == "if" and self.valid(Iff(x[1], y[1]), pc):
                def branches():
                    self.strings(list(x[2]), list(y[2]), self.add(pc, x[1]), what)
                    self.strings(list(x[3]), list(y[3]), self.add(pc, Not(x[1])), what)
                if self.possible(branches):
                    pa, pb = pa[1:], pb[1:]
                    continue
            if x[0] == "if" or y[0] == "if":
                c = x[1] if x[0] == "if" else y[1]
                for g in (c, Not(c)):
                    if self.feas(pc, g):
                        self.strings(pa, pb, self.add(pc, g), what)
                return
            if x[0] == "at" and y[0] == "at":
                if self.valid(x[1] == y[1], pc):
                    self.check(x[1] == y[1], pc, what)
                    pa, pb = pa[1:], pb[1:]
                    continue
            if x[0] == "map" and y[0] == "map" and x[1] == y[1] and self.valid(x[2] == y[2], pc):
                self.check(x[2] == y[2], pc, what)
                pa, pb = pa[1:], pb[1:]
                continue
            if x[0] == "map" or y[0] == "map":
                x2, y2 = self.unmap(x, pc), self.unmap(y, pc)
                if x2 is not x or y2 is not y:
                    pa, pb = [x2] + pa[1:], [y2] + pb[1:]
                    continue
            if x[0] == "join" and y[0] == "join":
                if self.possible(lambda: self.joins(x, y, pc, what)):
                    pa, pb = pa[1:], pb[1:]
                    continue
            for p in (x, y):
                if p[0] == "join":
                    g = next((s.g for s in p[2] if s.g is not True), None)
                    if g is not None:
                        for c in (g, Not(g)):
                            if self.feas(pc, c):
                                self.strings(pa, pb, self.add(pc, c), what)
                        return
            if x[0] == "join" and y[0] == "join":
                return self.joins(x, y, pc, what)
            # a symbolic text that is a known constant here
            for p, mine in ((x, pa), (y, pb)):
                if p[0] == "at":
                    k = self.known_text(p[1], pc)
                    if k is not None:
                        new = ([("lit", k)] if k else []) + mine[1:]
                        new = list(parts_of(sstr(new)))
                        if mine is pa:
                            pa = new
                        else:
                            pb = new
                        break
            else:
                f = None
                try:
                    f = self.under(pc, lambda: self.E.reify(sstr(pa)) == self.E.reify(sstr(pb)))
                except Unsupported:
                    pass
                if f is not None and self.valid(f, pc):
                    return self.check(f, pc, what)
                # split on emptiness of a symbolic prefix
                return self.fail(pc, "%s: text %s instead of %s" % (what, show(pa), show(pb)))
            continue

    def joins(self, x, y, pc, what):
        if not (len(x[2]) == 0 and len(y[2]) == 0):
            self.strings(list(x[1]), list(y[1]), pc, "%s: separator" % what)
        self.segs(list(x[2]), list(y[2]), pc, what)

    def unmap(self, p, pc):
        if p[0] != "map":
            return p
        if all(self.valid(Not(self.w.contains(c, p[2])), pc) for c, _ in p[1]):
            return ("at", p[2])
        return p

    def known_text(self, t, pc):
        for s, l in self.w.strlits:
            if self.feas(pc, t == l) and self.valid(t == l, pc, 400):
                return s
        return None


def show(parts):
    out = []
    for p in parts[:6]:
        if p[0] == "lit":
            out.append(repr(p[1]))
        elif p[0] == "at":
            out.append(str(p[1]).replace("\n", " ")[:60])
        else:
            out.append("<%s>" % p[0])
    return " ".join(out)
