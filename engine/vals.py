"""Values of the symbolic evaluator."""
from __future__ import annotations

import enum

import z3

from .sym import And, Ite, Not, Or, Sym, Unsupported


class Dead(Exception):
    """No execution continues from here."""


class Poison:
    """A value the verifier does not track (message texts, leftovers of loops)."""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "<poison %s>" % self.why


POISON = Poison()


class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return "&%d" % self.a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(("ref", self.a))


class Tok:
    """What a location held before the current (generic) iteration of a loop."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "tok%s" % self.n


class LookTok(Tok):
    """A dict accumulated by the loop, before the current iteration: what the iteration looks up in it."""

    def __init__(self, n, present, value):
        self.n, self.present, self.value, self.keys = n, present, value, []


class One:
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return "One(%s,%s)" % (self.g, self.v)


class Map:
    """For every element e of src, in order, the segments segs(e)."""
    __slots__ = ("g", "src", "e", "segs", "unord")

    def __init__(self, g, src, e, segs, unord=False):
        self.g, self.src, self.e, self.segs, self.unord = g, src, e, tuple(segs), unord

    def __repr__(self):
        return "Map(%s,%s in %s: %s)" % (self.g, self.e, self.src, list(self.segs))


class TokSeg:
    __slots__ = ("tok", "g")

    def __init__(self, tok):
        self.tok = tok
        self.g = True

    def __repr__(self):
        return repr(self.tok)


class IdxTok(Tok):
    """A set of positions of the sequence being looped over, at the start of an iteration: the positions of the
    elements before the current one have been removed or not, the others are all there."""

    def __init__(self, n, src, e):
        self.n, self.src, self.e = n, src, e


class Minus:
    """Removal of the current position from such a set."""
    __slots__ = ("g", "v")

    def __init__(self, g, v):
        self.g, self.v = g, v

    def __repr__(self):
        return "Minus(%s,%s)" % (self.g, self.v)


class SeqV:
    """Immutable sequence of unknown length (tuples, dict views, generator results)."""

    def __init__(self, kind, segs):
        self.kind, self.segs = kind, tuple(segs)

    def __repr__(self):
        return "%s%s" % (self.kind, list(self.segs))


class HList:
    def __init__(self, segs):
        self.segs = tuple(segs)


class HSet:
    def __init__(self, segs):
        self.segs = tuple(segs)


class HDict:
    """Entries (guard, key, value) with concrete keys, plus optionally a generic part: segs of (key, value) pairs."""

    def __init__(self, entries, segs=(), base=None):
        self.entries = tuple(entries)
        self.segs = tuple(segs)
        self.base = base      # Sym of a dict this one was copied from


class HInst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class HEnv:
    def __init__(self, vars, parent=None):
        self.vars, self.parent = vars, parent


class SStr:
    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "S%r" % (self.parts,)


class U:
    """One of several values, by mutually exclusive guards."""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "U%s" % (self.alts,)


class Clo:
    def __init__(self, node, env, info):
        self.node, self.env, self.info = node, env, info
        self.defaults = None
        self.kwdefaults = None


class Bound:
    def __init__(self, f, self_):
        self.f, self.self = f, self_


class Method:
    """Method of a builtin type."""

    def __init__(self, cls, name):
        self.cls, self.name = cls, name


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcV:
    def __init__(self, cls):
        self.cls = cls


class MatchV:
    def __init__(self, c):
        self.c = c


class TypeOf:
    def __init__(self, s):
        self.s = s


class Index:
    """Position of element e in the sequence src."""

    def __init__(self, src, e, off=0):
        self.src, self.e, self.off = src, e, off


class RangeLen:
    """range(k, len(seq))"""

    def __init__(self, seq, start):
        self.seq, self.start = seq, start


class LenV:
    """len() of a value, kept so that range(len(x)) can be recognised."""

    def __init__(self, seq, term):
        self.seq, self.term = seq, term


class Enumer:
    def __init__(self, seq, start=0):
        self.seq, self.start = seq, start


class GenV:
    """An iterator not started yet: fn() gives its segments; the heap cell holds something once it has been started."""

    def __init__(self, fn, cell):
        self.fn, self.cell = fn, cell


class Starred:
    def __init__(self, v):
        self.v = v


class MaybeArg:
    """A keyword argument that is passed only under a condition."""

    def __init__(self, g, v):
        self.g, self.v = g, v


def lit_part(s):
    return ("lit", s)


def sstr(parts):
    """Normalise string parts; a constant string becomes a Python str."""
    out = []

    def add(ps):
        for p in ps:
            if p[0] == "if" and (p[1] is True or p[1] is False):
                add(p[2] if p[1] else p[3])
            elif p[0] == "lit":
                if p[1] == "":
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                else:
                    out.append(p)
            else:
                out.append(p)

    add(parts)
    if not out:
        return ""
    if len(out) == 1 and out[0][0] == "lit":
        return out[0][1]
    return SStr(out)


def parts_of(v):
    if isinstance(v, str):
        return (("lit", v),) if v else ()
    if isinstance(v, SStr):
        return v.parts
    raise Unsupported("not a string: %r" % (v,))


def is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, LenV) or (z3.is_expr(v) and z3.is_int(v))


def is_str(v):
    return isinstance(v, (str, SStr)) and not isinstance(v, enum.Enum)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.term.eq(b.term)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.f is b.f and same(a.self, b.self)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, ExcV) and isinstance(b, ExcV):
        return a.cls is b.cls
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    if type(a) is type(b) and isinstance(a, (str, int, float, bytes, bool, type(None), enum.Enum)):
        return a == b and repr(a) == repr(b)
    return False


def merge(alts):
    """Value equal to v_i when guard g_i holds (guards exclusive, jointly exhaustive on the live paths)."""
    alts = [(g, v) for g, v in alts if g is not False]
    if len(alts) == 1:
        return alts[0][1]
    v0 = alts[0][1]
    if all(same(v0, v) for _, v in alts[1:]):
        return v0
    vs = [v for _, v in alts]
    if all(is_bool(v) for v in vs):
        r = vs[-1]
        for g, v in reversed(alts[:-1]):
            r = Ite(g, v, r)
        return r
    if all(is_int(v) for v in vs):
        ts = [v.term if isinstance(v, LenV) else z3.IntVal(v) if isinstance(v, int) else v for v in vs]
        r = ts[-1]
        for (g, _), v in zip(reversed(alts[:-1]), reversed(ts[:-1])):
            r = Ite(g, v, r)
        return r
    if all(is_str(v) for v in vs):
        r = vs[-1]
        for g, v in reversed(alts[:-1]):
            r = str_ite(g, v, r)
        return r
    flat = []
    for g, v in alts:
        if isinstance(v, U):
            for h, w in v.alts:
                gg = And(g, h)
                if gg is not False:
                    flat.append((gg, w))
        else:
            flat.append((g, v))
    out = []
    for g, v in flat:
        for i, (h, w) in enumerate(out):
            if same(v, w):
                out[i] = (Or(h, g), w)
                break
        else:
            out.append((g, v))
    # merge the strings / booleans inside the union
    return out[0][1] if len(out) == 1 else U(out)


def str_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    pa, pb = list(parts_of(a)), list(parts_of(b))
    pre, post = [], []
    while pa and pb and part_same(pa[0], pb[0]):
        pre.append(pa.pop(0))
        pb.pop(0)
    while pa and pb and part_same(pa[-1], pb[-1]):
        post.insert(0, pa.pop())
        pb.pop()
    if not pa and not pb:
        return sstr(pre + post)
    return sstr(pre + [("if", c, tuple(pa), tuple(pb))] + post)


def part_same(p, q):
    if p is q:
        return True
    if p[0] != q[0]:
        return False
    if p[0] == "lit":
        return p[1] == q[1]
    if p[0] == "at":
        return p[1].eq(q[1])
    if p[0] == "map":
        return p[1] == q[1] and p[2].eq(q[2])
    return False
