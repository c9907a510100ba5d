"""Exact language semantics of the `re` patterns used by the code under verification.

A compiled `re` pattern plus a mode (match / fullmatch / search) is turned into a
canonical minimal DFA over a partition of the code-point space.  Two patterns denote
the same predicate on strings iff their canonical DFAs are equal, so the verifier
compares *languages*, not pattern texts; `witness` gives a string telling two apart.

Supported: literals, classes, branches, groups, greedy/lazy repeats, ^ $ \\A \\Z at the
ends.  Anything else (look-around, back-references, flags such as IGNORECASE) raises
Unsupported and the caller falls back to an uninterpreted predicate.
"""
from __future__ import annotations

import re
import sys
from functools import lru_cache
from re import _constants as sc
from re import _parser as sp

MAXCP = 0x10FFFF


class Unsupported(Exception):
    pass


# ---- code-point sets as sorted tuples of (lo, hi) --------------------------------
def norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def complement(iv):
    out, p = [], 0
    for lo, hi in iv:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


@lru_cache(None)
def category(cat):
    pat = {
        sc.CATEGORY_DIGIT: r"\d",
        sc.CATEGORY_NOT_DIGIT: r"\D",
        sc.CATEGORY_SPACE: r"\s",
        sc.CATEGORY_NOT_SPACE: r"\S",
        sc.CATEGORY_WORD: r"\w",
        sc.CATEGORY_NOT_WORD: r"\W",
    }.get(cat)
    if pat is None:
        raise Unsupported(f"category {cat}")
    rx = re.compile(pat)
    iv = []
    for m in re.finditer(pat + "+", "".join(map(chr, range(MAXCP + 1)))):
        iv.append((m.start(), m.end() - 1))
    return norm(iv)


# ---- Thompson NFA -----------------------------------------------------------------
class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.tr = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, iv, b):
        self.tr.setdefault(a, []).append((iv, b))


ALL = ((0, MAXCP),)
NOTNL = norm([(0, 9), (11, MAXCP)])


def build(nfa, toks, a, first=True, last=True):
    """Adds the automaton for the token list from state a; returns the end state."""
    toks = list(toks)
    for idx, (op, av) in enumerate(toks):
        f = first and idx == 0
        l = last and idx == len(toks) - 1
        if op is sc.LITERAL:
            b = nfa.new(); nfa.t(a, ((av, av),), b); a = b
        elif op is sc.NOT_LITERAL:
            b = nfa.new(); nfa.t(a, complement(((av, av),)), b); a = b
        elif op is sc.ANY:
            b = nfa.new(); nfa.t(a, NOTNL, b); a = b
        elif op is sc.IN:
            iv, neg = [], False
            for k, v in av:
                if k is sc.NEGATE:
                    neg = True
                elif k is sc.LITERAL:
                    iv.append((v, v))
                elif k is sc.RANGE:
                    iv.append(tuple(v))
                elif k is sc.CATEGORY:
                    iv.extend(category(v))
                else:
                    raise Unsupported(str(k))
            iv = norm(iv)
            if neg:
                iv = complement(iv)
            b = nfa.new(); nfa.t(a, iv, b); a = b
        elif op is sc.BRANCH:
            end = nfa.new()
            for alt in av[1]:
                s = nfa.new(); nfa.e(a, s)
                nfa.e(build(nfa, alt, s, f, l), end)
            a = end
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            a = build(nfa, av[3], a, f, l)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                a = build(nfa, sub, a, False, False)
            if hi is sc.MAXREPEAT:
                s = nfa.new(); nfa.e(a, s)
                e = build(nfa, sub, s, False, False)
                nfa.e(e, s)
                a = s
            else:
                end = nfa.new(); nfa.e(a, end)
                for _ in range(hi - lo):
                    a = build(nfa, sub, a, False, False); nfa.e(a, end)
                a = end
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if not f:
                    raise Unsupported("^ not at start")
                # handled by the mode: anchors only matter for search
                b = nfa.new(); nfa.e(a, b); a = b
            elif av is sc.AT_END_STRING:
                if not l:
                    raise Unsupported("\\Z not at end")
                b = nfa.new(); nfa.e(a, b); a = b
                nfa.anch.add(("Z", b))
            elif av is sc.AT_END:
                if not l:
                    raise Unsupported("$ not at end")
                b = nfa.new(); nfa.e(a, b); a = b
                nfa.anch.add(("$", b))
            else:
                raise Unsupported(str(av))
        else:
            raise Unsupported(str(op))
    return a


def _ends(toks, side):
    """Does every alternative carry an anchor at this side?  returns None | 'Z' | '$' | '^'."""
    toks = list(toks)
    if not toks:
        return None
    op, av = toks[0] if side == "start" else toks[-1]
    if op is sc.AT:
        if side == "start":
            return "^" if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) else None
        return {sc.AT_END: "$", sc.AT_END_STRING: "Z"}.get(av)
    if op is sc.SUBPATTERN:
        return _ends(av[3], side)
    if op is sc.BRANCH:
        r = {_ends(x, side) for x in av[1]}
        if len(r) == 1:
            return r.pop()
        raise Unsupported("mixed anchors")
    return None


@lru_cache(None)
def lang(pattern: str, flags: int, mode: str):
    """Canonical DFA for `re.compile(pattern, flags).<mode>(s)` being truthy."""
    if flags & ~(re.UNICODE | re.DOTALL | re.ASCII) or flags & (re.DOTALL | re.ASCII):
        raise Unsupported("flags")
    toks = sp.parse(pattern, flags)
    nfa = NFA()
    nfa.anch = set()
    start = nfa.new()
    s0 = nfa.new()
    nfa.e(start, s0)
    begin, end = _ends(toks, "start"), _ends(toks, "end")
    if mode == "search" and begin is None:
        nfa.t(s0, ALL, s0)
    fin = build(nfa, toks, s0)
    acc = nfa.new()
    nfa.e(fin, acc)
    if end == "$" :
        nfa.t(fin, ((10, 10),), acc) if mode != "fullmatch" else None
    elif end is None and mode in ("match", "search"):
        nfa.t(acc, ALL, acc)
    # alphabet partition
    cuts = {0, MAXCP + 1}
    for l in nfa.tr.values():
        for iv, _ in l:
            for lo, hi in iv:
                cuts.add(lo); cuts.add(hi + 1)
    cuts = sorted(cuts)
    atoms = [(cuts[i], cuts[i + 1] - 1) for i in range(len(cuts) - 1)]
    # group atoms by the transitions they enable
    import bisect
    labels = [[] for _ in atoms]
    starts = [a for a, _ in atoms]
    for st, l in nfa.tr.items():
        for k, (iv, _) in enumerate(l):
            for lo, hi in iv:
                i = bisect.bisect_left(starts, lo)
                while i < len(atoms) and atoms[i][1] <= hi:
                    labels[i].append((st, k)); i += 1
    classes = {}
    for i, lab in enumerate(labels):
        classes.setdefault(tuple(sorted(lab)), []).append(atoms[i])
    keys = sorted(classes)
    reps = [set(k) for k in keys]

    def closure(S):
        S = set(S); todo = list(S)
        while todo:
            x = todo.pop()
            for y in nfa.eps.get(x, ()):
                if y not in S:
                    S.add(y); todo.append(y)
        return frozenset(S)

    init = closure([start])
    ids, order, delta = {init: 0}, [init], []
    i = 0
    while i < len(order):
        S = order[i]; row = []
        for r in reps:
            T = set()
            for st in S:
                for k, (_, b) in enumerate(nfa.tr.get(st, ())):
                    if (st, k) in r:
                        T.add(b)
            T = closure(T)
            if T not in ids:
                ids[T] = len(order); order.append(T)
            row.append(ids[T])
        delta.append(row); i += 1
    accept = [acc in S for S in order]
    # minimise (Moore)
    part = [int(a) for a in accept]
    while True:
        sig = {}
        new = []
        for q in range(len(order)):
            s = (part[q],) + tuple(part[d] for d in delta[q])
            new.append(sig.setdefault(s, len(sig)))
        if len(set(new)) == len(set(part)):
            part = new; break
        part = new
    # canonical numbering by BFS, merging alphabet classes with equal behaviour
    nb = len(set(part))
    rep_state = {}
    for q in range(len(order)):
        rep_state.setdefault(part[q], q)
    cols = {}
    for c in range(len(reps)):
        col = tuple(part[delta[rep_state[b]][c]] for b in range(nb)) if nb else ()
        cols.setdefault(col, []).extend(classes[keys[c]])
    colitems = sorted((norm(v), k) for k, v in cols.items())
    num, queue = {part[0]: 0}, [part[0]]
    rows = []
    j = 0
    while j < len(queue):
        b = queue[j]; row = []
        for _, col in colitems:
            t = col[b]
            if t not in num:
                num[t] = len(queue); queue.append(t)
            row.append(num[t])
        rows.append(tuple(row)); j += 1
    accs = tuple(accept[rep_state[b]] for b in queue)
    return (tuple(iv for iv, _ in colitems), tuple(rows), accs)


def accepts(dfa, s: str) -> bool:
    alph, rows, acc = dfa
    q = 0
    for ch in s:
        o = ord(ch)
        for k, iv in enumerate(alph):
            if any(lo <= o <= hi for lo, hi in iv):
                q = rows[q][k]; break
    return acc[q]


def witness(d1, d2):
    """A shortest string on which the two languages differ, or None."""
    def step(d, q, o):
        for k, iv in enumerate(d[0]):
            for lo, hi in iv:
                if lo <= o <= hi:
                    return d[1][q][k]
    pts = set()
    for d in (d1, d2):
        for iv in d[0]:
            for lo, hi in iv:
                pts.add(lo)
    pts = sorted(pts, key=lambda o: (not (32 < o < 127), o))
    seen, todo = {(0, 0): ""}, [(0, 0)]
    while todo:
        nxt = []
        for q in todo:
            if d1[2][q[0]] != d2[2][q[1]]:
                return seen[q]
            for o in pts:
                if 0xD800 <= o <= 0xDFFF:
                    continue
                r = (step(d1, q[0], o), step(d2, q[1], o))
                if r not in seen:
                    seen[r] = seen[q] + chr(o); nxt.append(r)
        todo = nxt
    return None


_ids = {}


def lang_id(pat: "re.Pattern", mode: str) -> int:
    d = lang(pat.pattern, pat.flags, mode)
    return _ids.setdefault(d, len(_ids))


def dfa_of(i: int):
    for d, j in _ids.items():
        if j == i:
            return d


if __name__ == "__main__":
    import random, time
    t = time.time()
    pats = [r"^[a-zA-Z0-9_\.\+\*\/:\-\[\]\(\)\@]*$", r"^[a-zA-Z_](\w|\.|:|\/|@)*(\[([^\[\]]*)\])?$",
            r"""^[a-zA-Z](\w|[().,+'":]| |\[|\]|\-)+$""", "^[a-zA-Z_][a-zA-Z0-9_]*$", r"^[a-zA-Z_]+\Z", r"ab|c", r"a*b?$"]
    rng = random.Random(1)
    for p in pats:
        for mode in ("match", "fullmatch", "search"):
            d = lang(p, re.compile(p).flags, mode)
            for _ in range(3000):
                s = "".join(rng.choice("aZ09_.+*/:-[]()@ \n'\"é`,c b") for _ in range(rng.randrange(6)))
                assert accepts(d, s) == bool(getattr(re.compile(p), mode)(s)), (p, mode, s)
    print("ok", time.time() - t)
    print(repr(witness(lang("^a$", 32, "match"), lang(r"^a\Z", 32, "match"))))
