"""Logical core of the verifier: the sort of Python values, its vocabulary, and typing assumptions.

V is an uninterpreted sort: one element per Python value (identity of strings, None, booleans and enum members
is equality of values; other values are only related through the functions below).
"""
from __future__ import annotations

import datetime as dt
import enum
import fractions
import re

import z3

from . import regex
from .ty import Alt, Lean, Near, Other, TYPES

V = z3.DeclareSort("V")
CLS = z3.Function("cls", V, z3.IntSort())
MEM = z3.Function("mem", V, V, z3.BoolSort())        # element of a sequence / set, key of a dict
NE = z3.Function("nonempty", V, z3.BoolSort())
LEN = z3.Function("len", V, z3.IntSort())
IVAL = z3.Function("ival", V, z3.IntSort())
BVAL = z3.Function("bval", V, z3.BoolSort())
TAG = z3.Function("tag", V, z3.IntSort())             # distinct literals have distinct tags
EQ = z3.Function("pyeq", V, V, z3.BoolSort())         # Python == where it is not identity of values
FNAN = z3.Function("float_nan", V, z3.BoolSort())          # a float: nan, or infinite with a sign, or a real number
FINF = z3.Function("float_inf", V, z3.IntSort())
FVAL = z3.Function("float_value", V, z3.RealSort())


def float_parts(x):
    """(nan, sign of infinity, value) of a float or an int, constant or term."""
    if isinstance(x, float):
        if x != x:
            return True, 0, z3.RealVal(0)
        if x in (float("inf"), float("-inf")):
            return False, (1 if x > 0 else -1), z3.RealVal(0)
        return False, 0, z3.RealVal(str(fractions.Fraction(x)))
    if isinstance(x, int):
        return False, 0, z3.RealVal(int(x))
    if x.sort() == z3.IntSort():
        return False, 0, z3.ToReal(x)
    return FNAN(x), FINF(x), FVAL(x)


def float_lt(p, q):
    return And(Not(p[0]), Not(q[0]), Or(p[1] < q[1], And(p[1] == 0, q[1] == 0, p[2] < q[2])))


def float_eq(p, q):
    return And(Not(p[0]), Not(q[0]), p[1] == q[1], Or(p[1] != 0, p[2] == q[2]))


def FTRUE(t):
    return Or(FNAN(t), FINF(t) != 0, FVAL(t) != 0)


IDX = z3.Function("idx", V, z3.IntSort(), V)
DROP = z3.Function("drop1", V, V)
GETV = z3.Function("dict_get", V, V, V)
IDENT = (str, type(None), bool)


class Unsupported(Exception):
    """The construct is outside the verifier's subset."""


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if not any(x.eq(y) for y in out):
            out.append(x)
    for x in out:
        n = Not(x)
        if any(n.eq(y) for y in out):
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if not any(x.eq(y) for y in out):
            out.append(x)
    for x in out:
        n = Not(x)
        if any(n.eq(y) for y in out):
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if a.eq(b):
        return True
    return a == b


def Ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    A = z3.BoolVal(a) if isinstance(a, bool) else a
    B = z3.BoolVal(b) if isinstance(b, bool) else b
    if z3.is_expr(A) and z3.is_expr(B) and A.eq(B):
        return a
    if z3.is_true(A) and z3.is_false(B):
        return c
    if z3.is_false(A) and z3.is_true(B):
        return Not(c)
    if z3.is_true(A):
        return Or(c, B)
    if z3.is_false(A):
        return And(Not(c), B)
    if z3.is_true(B):
        return Or(Not(c), A)
    if z3.is_false(B):
        return And(c, A)
    return z3.If(c, A, B)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Sym:
    """A symbolic Python value: a term with the alternatives its class may take."""
    __slots__ = ("term", "alts")

    def __init__(self, term):
        self.term = term
        self.alts = []      # (guard, Alt)

    def __repr__(self):
        return "<%s>" % self.term

    def classes(self):
        return list(dict.fromkeys(a.cls for _, a in self.alts))


class World:
    """One verification context: axioms, literals, symbols and the solver."""

    def __init__(self):
        self.solver = z3.SimpleSolver()
        self.solver.set("mbqi", False)
        self.solver.set("auto_config", False)
        self.solver.set("random_seed", 7)
        self.clsid = {}
        self.lits = {}
        self.syms = {}
        self.ufs = {}
        self.declared = set()
        self.scopes = []          # open bound-element scopes: [evar, guard(mem), axioms]
        self.rx = {}
        self.strlits = []
        self.n = 0
        self.queries = 0
        self.solver_time = 0.0
        self.axcount = 0
        self.altpred = {}
        self.memo = {}
        self.keep = []
        self.keepalive = []
        self.subs = {}
        self.elemvars = {}
        self.seen_src = set()
        self.distinct = set()      # sources without repetitions (keys of a dict)
        self.exmemo = {}
        self.folds = []
        self.rkeys = {}
        self.enums = set()

    # ---------------------------------------------------------------- axioms
    def axiom(self, f):
        """A fact valid in every state; inside an open scope it may mention the scope's bound element."""
        if f is True:
            return
        self.axcount += 1
        if self.scopes:
            self.scopes[-1][2].append(B(f))
        g = B(f)
        for ev, guard, _ in reversed(self.scopes):
            g = z3.Implies(B(guard), g)
        self.solver.add(g)

    def open(self, evar, guard):
        self.scopes.append((evar, guard, []))

    def close(self):
        ev, guard, axs = self.scopes.pop()
        keep = [a for a in axs if mentions(a, ev)]
        rest = [a for a in axs if not mentions(a, ev)]
        for a in rest:
            self.axiom(a)
        if keep:
            body = z3.Implies(B(guard), z3.And(*keep) if len(keep) > 1 else keep[0])
            pats = [guard] if z3.is_app_of(guard, z3.Z3_OP_UNINTERPRETED) else [
                g for g in guard.children() if g.decl().name() == "mem"][:1]
            self.axiom(z3.ForAll([ev], body, patterns=pats))

    def fresh(self, name, sort):
        """A fresh symbol; a function of the bound elements in scope."""
        self.n += 1
        vs = [s[0] for s in self.scopes]
        nm = "%s!%d" % (name, self.n)
        if not vs:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([v.sort() for v in vs] + [sort]))(*vs)

    def bound(self, name):
        self.n += 1
        return z3.Const("%s?%d" % (name, self.n), V)

    def uf(self, name, *sorts):
        k = (name,) + tuple(s.name() for s in sorts)
        if k not in self.ufs:
            self.ufs[k] = z3.Function(name, *sorts)
        return self.ufs[k]

    # ---------------------------------------------------------------- solver
    def check(self, conds, timeout):
        import time
        conds = [B(c) for c in conds if c is not True]
        if any(z3.is_false(c) for c in conds):
            return z3.unsat
        key = (timeout > 1000,) + tuple(sorted(c.get_id() for c in conds))
        m = self.memo.get(key)
        if m is not None and (m == z3.unsat or timeout <= 1000):
            return m
        t = time.time()
        self.solver.set("timeout", timeout)
        self.solver.push()
        self.solver.add(*conds)
        r = self.solver.check()
        self.last_model = None
        if r != z3.unsat:
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        self.queries += 1
        self.solver_time += time.time() - t
        self.memo[key] = r
        self.keep.append(conds)
        return r

    # ---------------------------------------------------------------- classes and literals
    def cid(self, cls):
        if cls not in self.clsid:
            self.clsid[cls] = len(self.clsid) + 1
        return self.clsid[cls]

    def lit(self, v):
        """The value of a Python constant."""
        key = (type(v), repr(v) if isinstance(v, float) else v)
        if key in self.lits:
            return self.lits[key]
        t = z3.Const("lit%d_%s" % (len(self.lits), re.sub(r"\W", "_", str(v))[:16]), V)
        self.lits[key] = t
        s = self.solver
        ax = [CLS(t) == self.cid(type(v)), TAG(t) == len(self.lits)]
        if isinstance(v, bool):
            ax += [BVAL(t) == v, IVAL(t) == int(v)]
        elif isinstance(v, int):
            ax.append(IVAL(t) == v)
        elif isinstance(v, float):
            n, i, r = float_parts(v)
            ax += [FNAN(t) == n, FINF(t) == i, FVAL(t) == r]
        elif isinstance(v, (str, bytes)):
            ax += [NE(t) == bool(v), LEN(t) == len(v)]
            if isinstance(v, str):
                self.strlits.append((v, t))
                for rid, f in self.rx.items():
                    ax.append(f(t) == regex.accepts(regex.dfa_of(rid), v))
                for sub, f in self.subs.items():
                    ax.append(f(t) == (sub in v))
        elif isinstance(v, enum.Enum):
            pass
        for a in ax:
            s.add(a)
        if isinstance(v, enum.Enum):
            vf = self.field(t, "value", raw=True)
            s.add(vf == self.lit(v.value))
            s.add(self.field(t, "name", raw=True) == self.lit(v.name))
        return t

    def const_of(self, term):
        """The literal a term syntactically is, if any: (True, value)."""
        for (ty, v), t in self.lits.items():
            if t.eq(term):
                return True, (float(v) if ty is float else v)
        return False, None

    def enum_members(self, cls):
        if cls not in self.enums:
            self.enums.add(cls)
            for m in cls:
                self.lit(m)

    # ---------------------------------------------------------------- vocabulary
    def field(self, term, f, raw=False):
        return self.uf("fld_" + f, V, V)(term)

    def matches(self, rid, term):
        if rid not in self.rx:
            f = z3.Function("rx%d" % rid, V, z3.BoolSort())
            self.rx[rid] = f
            d = regex.dfa_of(rid)
            for v, t in self.strlits:
                self.solver.add(f(t) == regex.accepts(d, v))
        return self.rx[rid](term)

    def contains(self, sub, term):
        if sub not in self.subs:
            f = z3.Function("has_%s" % "_".join("%x" % ord(c) for c in sub), V, z3.BoolSort())
            self.subs[sub] = f
            for v, t in self.strlits:
                self.solver.add(f(t) == (sub in v))
        return self.subs[sub](term)

    # ---------------------------------------------------------------- typed symbols
    def sym(self, term, ty=None, cond=True):
        s = self.syms.get(term)
        if s is None:
            s = self.syms[term] = Sym(term)
        if ty is not None:
            self.declare(s, cond, ty)
        return s

    def alts_of(self, ty):
        if isinstance(ty, Near):
            alts = list(TYPES["Any"].resolve().alts)
            have = {a.cls for a in alts}
            alts += [a for a in self.alts_of(ty.target) if a.cls not in have]
        elif isinstance(ty, Lean):
            alts = self.alts_of(ty.general)
        elif hasattr(ty, "parts"):
            alts = []
            for p in ty.parts:
                alts += self.alts_of(p)
        elif type(ty).__name__ == "Lazy":
            alts = self.alts_of(TYPES[ty.name])
        else:
            alts = list(ty.alts)
        out, seen = [], set()
        for a in alts:
            if id(a) not in seen:
                seen.add(id(a))
                out.append(a)
        # an unconstrained alternative of a class subsumes the others of that class
        return out

    def guard(self, s, g, alt):
        """Formula: s is a value of this alternative."""
        k = self.altpred.get((s.term, id(alt)))
        return And(g, CLS(s.term) == self.cid(alt.cls), True if k is None else k)

    def declare(self, s, cond, ty):
        key = (s.term, id(ty) if not isinstance(ty, str) else ty, cond if cond is True else cond.get_id())
        if key in self.declared:
            return
        self.declared.add(key)
        self.keepalive.append((ty, cond))
        t = s.term
        alts = self.alts_of(ty)
        by = {}
        for a in alts:
            by.setdefault(a.cls, []).append(a)
        self.axiom(Implies(cond, Or(*[CLS(t) == self.cid(c) for c in by])))
        for c, aa in by.items():
            gc = And(cond, CLS(t) == self.cid(c))
            if len(aa) > 1:
                ps = []
                for i, a in enumerate(aa):
                    p = self.uf("alt_%x" % id(a), V, z3.BoolSort())(t)
                    self.altpred[(t, id(a))] = p
                    ps.append(p)
                self.axiom(Implies(gc, Or(*ps)))
            for a in aa:
                if not any(x is a and (g is cond or (g is not True and cond is not True and g.eq(cond)))
                           for g, x in s.alts):
                    s.alts.append((cond, a))
                self.alt_facts(s, self.guard(s, cond, a), a)

    def alt_facts(self, s, g, a):
        t, c = s.term, a.cls
        if c is type(None):
            self.axiom(Implies(g, t == self.lit(None)))
        elif c is bool:
            self.axiom(Implies(g, t == z3.If(BVAL(t), self.lit(True), self.lit(False))))
            self.axiom(Implies(g, IVAL(t) == z3.If(BVAL(t), z3.IntVal(1), z3.IntVal(0))))
            if a.consts is not None:
                self.axiom(Implies(g, Or(*[BVAL(t) == z3.BoolVal(v) for v in a.consts])))
        elif issubclass(c, enum.Enum):
            self.enum_members(c)
            ms = a.consts if a.consts is not None else list(c)
            self.axiom(Implies(g, Or(*[t == self.lit(m) for m in ms])))
        elif a.consts is not None:
            if c is int:
                self.axiom(Implies(g, Or(*[IVAL(t) == v for v in a.consts])))
            else:
                self.axiom(Implies(g, Or(*[t == self.lit(v) for v in a.consts])))
        if c is str:
            self.axiom(Implies(g, NE(t) == (t != self.lit(""))))
            if a.regex is not None:
                self.axiom(Implies(g, self.matches(regex.lang_id(re.compile(a.regex), "fullmatch"), t)))
            if a.nonempty:
                self.axiom(Implies(g, NE(t)))
        if c is int:
            if a.lo is not None:
                self.axiom(Implies(g, IVAL(t) >= a.lo))
            if a.hi is not None:
                self.axiom(Implies(g, IVAL(t) <= a.hi))
        if c is float and a.lo is not None:
            p, q = float_parts(t), float_parts(float(a.lo))
            self.axiom(Implies(g, Not(Or(float_lt(p, q), float_eq(p, q)))))
        if c in (str, bytes, list, tuple, set, dict):
            self.axiom(Implies(g, And(LEN(t) >= 0, (LEN(t) > 0) == NE(t))))
            if a.items is not None:
                self.axiom(Implies(g, LEN(t) == len(a.items)))
            if a.minlen:
                self.axiom(Implies(g, LEN(t) >= a.minlen))
            if a.maxlen is not None:
                self.axiom(Implies(g, LEN(t) <= a.maxlen))
        for f in getattr(a, "facts", None) or ():
            self.axiom(Implies(g, self.uf("spec_" + f, V, z3.BoolSort())(t)))

    def fieldsym(self, s, f):
        """(guard under which s has data field f, symbol of its value)."""
        t = self.field(s.term, f)
        fs = self.sym(t)
        gs = []
        for g, a in list(s.alts):
            if a.fields is not None and f in a.fields:
                ga = self.guard(s, g, a)
                gs.append(ga)
                self.declare(fs, ga, a.fields[f])
        return Or(*gs), fs

    def elem_types(self, s):
        """[(guard, element type)] over the iterable alternatives of s."""
        from .ty import STR, INT
        out = []
        for g, a in s.alts:
            ga = self.guard(s, g, a)
            if a.cls is str:
                out.append((ga, STR))
            elif a.cls is bytes:
                out.append((ga, INT))
            elif a.cls in (list, tuple, set, frozenset) and a.elem is not None:
                out.append((ga, a.elem))
            elif a.cls is dict:
                out.append((ga, a.key))
            elif a.items is not None:
                for it in a.items:
                    pass
                out.append((ga, ("items", a.items)))
        return out


def mentions(e, v):
    seen = set()
    stack = [e]
    vid = v.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == vid:
            return True
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def _elemvar(self, src):
    """The canonical bound element of a source (a second one inside a loop over the same source)."""
    used = {s[0].get_id() for s in self.scopes}
    lst = self.elemvars.setdefault(src, [])
    for e in lst:
        if e.get_id() not in used:
            return e
    e = self.bound("e")
    lst.append(e)
    return e


def _source(self, src):
    """Link emptiness and membership of a source that is iterated over."""
    if src in self.seen_src:
        return
    self.seen_src.add(src)
    e = self.bound("m")
    self.axiom(z3.ForAll([e], z3.Implies(MEM(src, e), NE(src)), patterns=[MEM(src, e)]))
    self.axiom(z3.Implies(NE(src), MEM(src, IDX(src, 0))))


def _exists(self, src, e, X, tag=None):
    """(b, f): b iff some element of src satisfies X; if b, f is one (the first in iteration order; tag tells
    iteration orders apart, so that only loops over the same sequence in the same order share the witness)."""
    if X is False:
        return False, None
    if X is True or not mentions(X, e):
        self.source(src)
        if tag:
            f = self.uf("first_of_set", V, V)(src)
            self.axiom(z3.Implies(NE(src), MEM(src, f)))
            return And(NE(src), X), f
        return And(NE(src), X), IDX(src, 0)
    key = (tag, src.get_id(), e.get_id(), X.get_id(), tuple(s[0].get_id() for s in self.scopes))
    if key in self.exmemo:
        return self.exmemo[key][0]
    b = self.fresh("ex", z3.BoolSort())
    f = self.fresh("wit", V)
    self.axiom(z3.Implies(b, z3.And(MEM(src, f), z3.substitute(X, (e, f)))))
    self.axiom(z3.ForAll([e], z3.Implies(z3.And(MEM(src, e), X), b), patterns=[MEM(src, e)]))
    self.exmemo[key] = ((b, f), X, src)
    return b, f


def _subst_sym(self, s, pairs):
    t = z3.substitute(s.term, *pairs)
    if t.eq(s.term):
        return s
    n = self.syms.get(t)
    if n is None:
        n = self.syms[t] = Sym(t)
    for g, a in list(s.alts):
        g2 = g if g is True else z3.substitute(g, *pairs)
        if (s.term, id(a)) in self.altpred:
            self.altpred[(t, id(a))] = self.uf("alt_%x" % id(a), V, z3.BoolSort())(t)
        if not any(a is b and (g2 is h or (g2 is not True and h is not True and g2.eq(h))) for h, b in n.alts):
            n.alts.append((g2, a))
    return n


World.elemvar, World.source, World.exists, World.subst_sym = _elemvar, _source, _exists, _subst_sym
