"""Draws concrete values of contract types (used by the counterexample search)."""
from __future__ import annotations

import datetime as dt
import string

from .ty import Alt, Lazy, LazyUnion, Lean, Near, Other, Ty, TYPES

NASTY = ["", "a", "b", "'", '"', "\\", "\n", "\\n", "\\'", "a\\", "'a", "it's", 'say "x"', "a\nb", "\\\\", "`", "é",
         "日本", "\t", "\r", "\r\n", " ", "x y", "%", "{}", "\x00", "\u2028", "NULL", "tags[a]", "(", ")", ",", "a.b", "0",
         "1", "\x7f", "]", "[", "$", "-", "a'b\"c\\d\ne", "\\\"", "''", "\n\n", "a\n", "\n'", "*", "a*", "ß", "K", "\ufeff", "\ufeffa"]
HINTS = {
    "colname": ["a", "b", "c", "time", "project_id", "timestamp", "tags[a]", "tags[b.c]", "tags[]", "tags", "_x", "a.b",
                "a:b", "a/b@c", "release", "organization_id", "T", "x1", "tags[a b]", "finish_ts", "t.c", "value", "alias_f"],
    "alias": ["f", "alias_f", "a", "b", "x.y", "a+b", "count()", "a[b]", "t@x", "a/b", "c:d", "a-b", "*", "0"],
    "ealias": ["e", "t", "ev", "events", "E", "a", "it's", "x y", "s"],
    "entity": ["events", "transactions", "sessions", "E", "my_entity", "_", "discover", "spans", "outcomes"],
    "funcname": ["count", "countIf", "uniq", "f_", "quantile", "toString", "in", "equals", "sum", "avg", "topK", "arrayJoin",
                 "f(x)", "a b", "quantile(0.5)", "ifNull", "max", "and"],
    "lfunc": ["count", "count()", "uniq", "f(x)", "quantile(a, b)", "ifNull", "toString", "max", "topK"],
    "lcol": ["a", "time", "tags[b]", "release", "project_id", "'quoted'", "''", "", "tags[release]", "a.b", "x'", "'", "tags", "b", "c",
             "timestamp", "2020-01-01T00:00:00"],
    "lvalue": ["a", "2021-01-01T00:00:00", "2021-01-01T00:00:00.123456", "2021-01-01T00:00:00+00:00", "2021-05-01T10:00:00-0200",
               "x+y", "%a%", "", "'q'", "1.0.0", "2021-01-01", "2021-13-01T00:00:00", "2021-01-01T00:00:00+05:30", "+"],
    "ldate": ["2021-01-01T00:00:00", "2021-01-02T00:00:00.5", "2021-01-01T00:00:00+01:00", "2022-06-01T23:59:59", "oops", ""],
    "lalias": ["f", "`f`", "x.y", "alias", "`a", "", "a b"],
    "lorder": ["a", "-a", "--a", "-time", "tags[b]", "-tags[b]", "", "-", "b", "c", "'x'"],
    "lofunc": ["count", "-count", "-uniq", "max", "f", "--max", "count()"],
    "ident": ["x", "y", "_a", "A1", "xs"],
    "formula": ["plus", "minus", "multiply", "divide", "negate", "apdex", "failure_rate", "topK", "f", "Plus", "+", "pow"],
    "metric": ["transaction.duration", "d", "a.b", "spans.duration", ""],
    "mri": ["d:transactions/duration@millisecond", "c:custom/x@none", "d:x/y@z", "e:sessions/error@none"],
    "mname": ["a", "b", "bar", "transaction", "a.b", "tags"],
    "magg": ["sum", "max", "count", "p95", "quantiles"],
    "mtext": ["a", "5", "0.5", "300", "1", '"a"', '"a\\"b\\"c"', '"a b"', '""', "'x'", "`a.b`", "a*", '"a*"', "!", "+", "-", "*", "/",
              "d:transactions/duration@millisecond", "$x", "sum", "AND", " ", "a.b", "x:y", '"\\""', "007", "1.50"],
    "mql": ["sum(a)", "sum(`d:transactions/duration@millisecond`)", "max(d:transactions/duration@millisecond){a:\"b\"} by (c)",
            "sum(a) / sum(b)", "apdex(sum(a), 300)", "quantiles(0.5)(a)", "sum(a){x:[\"1\",\"2\"]}", "((", "", "sum(a){b:c} + 1"],
}
ALPHA = list("abAB01_ '\"\\\n\t.:@/[]()-,*`é$%{}\r\x00日")
INTS = [0, 1, -1, 2, 3, 5, 9, 10, 11, 59, 60, 61, 100, 3599, 3600, 3601, 7200, 9999, 10000, 10001, 86399, 86400, 86401,
        2**31, 2**63, 2**53 + 1, 2**63 + 1, -10, 100000]
FLOATS = [0.0, 1.0, 0.5, 2.5, 1e-9, -1.0, 1e21, 0.1, 100.0, float("inf"), 3.14159265358979, 1e-3, 10.0, 1e-7, -0.0, 0.25]


def leaning(ty):
    while type(ty) is Lazy:
        ty = TYPES[ty.name]
    return isinstance(ty, (Near, Lean))


class Pool:
    """Random source with memory: re-using sub-values makes collisions (equal operands, shared names) frequent."""

    def __init__(self, rng, harvest=None, maxdepth=4):
        self.rng = rng
        self.recent = {}
        self.words, self.nums = [], []
        self.hs = list((harvest or {}).get("str", []))
        self.hi = list((harvest or {}).get("int", []))
        self.hf = list((harvest or {}).get("float", []))
        self.maxdepth = maxdepth
        self.loose = 0.28
        self.again, self.same = 0.12, 0.25  # how often a text / an object of this sample is used again

    def string(self, alt):
        r = self.rng
        if alt.consts:
            return r.choice(alt.consts)
        for _ in range(40):
            s = self._string(alt)
            if alt.nonempty and not s:
                continue
            if alt.regex is not None:
                import re
                if not re.fullmatch(alt.regex, s):
                    continue
            self.words.append((alt.hint, s))
            del self.words[:-8]
            return s
        return r.choice(HINTS.get(alt.hint, ["a"])) or "a"

    def _string(self, alt):
        r = self.rng
        if self.words and r.random() < self.again:
            ws = [w for h, w in self.words if h == alt.hint]
            if ws and (self.loose == 0 or r.random() < 0.7):
                return r.choice(ws)
            if self.loose:
                return r.choice(self.words)[1]
        x = r.random()
        if self.loose == 0 and alt.hint and x > 0.05:
            return r.choice(HINTS[alt.hint][:4])
        if alt.hint and x < 0.02:
            return self.long(r.choice(HINTS[alt.hint]))
        if alt.hint and x < 0.75:
            if alt.hint == "colname" and x < 0.1:
                return r.choice(["tags", "a", "measurements"]) + "[" + self._rand(4) + "]"
            return r.choice(HINTS[alt.hint])
        if self.hs and x < 0.85:
            h = r.choice(self.hs)
            y = r.random()
            if y < 0.5:
                return h
            if y < 0.75:
                return h + r.choice(NASTY)
            return r.choice(NASTY) + h
        if x < 0.93:
            return r.choice(NASTY)
        if x < 0.95:
            return r.choice(NASTY) * r.choice([2, 3, 40, 300])
        if x < 0.96:
            return self.long(r.choice(HINTS.get(alt.hint) or NASTY))
        return self._rand(8)

    def size(self):
        """A length just around one of the numbers in the source, or some usual cap."""
        r = self.rng
        hi = [h for h in self.hi if 3 < h <= 1100]
        if hi and r.random() < 0.6:
            return r.choice(hi) + r.choice([0, 1, 1, 2])
        return r.choice([17, 33, 65, 101, 129, 257])

    def long(self, s):
        """The text, lengthened by repeating one of its characters."""
        if not s:
            return s
        i = self.rng.randrange(len(s))
        return s[:i] + s[i] * max(1, self.size() - len(s) + 1) + s[i + 1:]

    def many(self, ty, n, depth):
        if n <= 17:
            return [self.draw(ty, depth) for _ in range(n)]
        some = [self.draw(ty, max(depth, self.maxdepth - 1)) for _ in range(self.rng.choice([1, 2, 12]))]
        last = [self.draw(ty, max(depth, self.maxdepth - 1)) for _ in range(self.rng.choice([0, 1, 3]))]
        return [self.rng.choice(some) for _ in range(n - len(last))] + last

    def _rand(self, n):
        r = self.rng
        s = ""
        for _ in range(r.randint(0, n)):
            s += r.choice(ALPHA) if r.random() < 0.85 else chr(r.choice([r.randint(0, 127), r.randint(0, 0x2FF),
                                                                          r.randint(0xE000, 0x1F9FF)]))
        return s

    def integer(self, alt):
        r = self.rng
        if alt.consts:
            return r.choice(alt.consts)
        for _ in range(50):
            x = r.random()
            if self.nums and r.random() < 0.1:
                v = int(r.choice(self.nums))
            elif x < 0.6:
                v = r.choice(INTS)
            elif self.hi and x < 0.75:
                v = r.choice(self.hi) + r.choice([0, 0, 1, -1])
            else:
                v = r.randint(-3, 12000)
            if alt.lo is not None and v < alt.lo:
                continue
            if alt.hi is not None and v > alt.hi:
                continue
            self.nums.append(v)
            del self.nums[:-6]
            return v
        return alt.lo if alt.lo is not None else 0

    def float_(self, alt):
        r = self.rng
        for _ in range(50):
            x = r.random()
            if self.nums and r.random() < 0.15:
                v = float(r.choice(self.nums))
            else:
                v = r.choice(FLOATS) if x < 0.7 else (float(r.choice(self.hf)) if self.hf and x < 0.8 else r.uniform(-5, 5))
            if alt.lo is not None and not v > alt.lo:
                continue
            return v
        return 1.0

    def datetime_(self):
        r = self.rng
        us = r.choice([0, 0, 1, 123456, 500000])
        tz = None
        if r.random() < 0.5:
            off = r.choice([0, 60, -60, 330, -300, 720, 1, -840, 345])
            tz = dt.timezone.utc if r.random() < 0.3 else dt.timezone(dt.timedelta(
                minutes=off, seconds=r.choice([0, 0, 0, 0, 1, -37]), microseconds=r.choice([0, 0, 0, 0, 1])))
        return dt.datetime(r.choice([1970, 1999, 2021, 2024, 3000]), r.choice([1, 2, 6, 12]), r.choice([1, 28, 15]),
                           r.choice([0, 23, 12, 1]), r.choice([0, 30, 59]), r.choice([0, 59, 7]), us, tzinfo=tz)

    def length(self, alt, depth):
        r = self.rng
        lo = alt.minlen or 0
        hi = alt.maxlen if alt.maxlen is not None else lo + (3 if depth < 4 else 2)
        n = r.choice([lo, lo, lo + 1, lo + 1, lo + 2, r.randint(lo, max(lo, hi))])
        if alt.maxlen is None and depth < 2 and r.random() < 0.04:
            n = lo + (r.choice([5, 8, 17]) if r.random() < 0.7 else self.size())
        elif alt.maxlen is None and depth == 2 and r.random() < 0.01:
            n = lo + self.size()
        if depth >= self.maxdepth:
            n = lo
        return min(n, hi) if alt.maxlen is not None else n

    def draw(self, ty, depth=0):
        r = self.rng
        while type(ty) is Lazy and isinstance(TYPES[ty.name], (Lazy, Near, Lean)):
            ty = TYPES[ty.name]
        if isinstance(ty, LazyUnion) and any(leaning(p) for p in ty.parts):
            return self.draw(r.choice(ty.parts), depth)
        if isinstance(ty, Near):
            x = r.random()
            if x >= self.loose:
                return self.draw(ty.target, depth)
            return self.draw(TYPES["Any"], depth + 1)
        if isinstance(ty, Lean):
            return self.draw(ty.target if r.random() >= self.loose / 2 else ty.general, depth)
        key = id(ty) if not isinstance(ty, Lazy) else ty.name
        alts = ty.resolve().alts
        if depth >= self.maxdepth:
            leaf = [a for a in alts if a.fields is None and a.elem is None and a.items is None and a.val is None]
            if leaf:
                alts = leaf
            else:
                small = [a for a in alts if a.cls.__name__ in ("Column", "Condition", "Timeseries", "Entity")]
                alts = small or alts
            if depth > self.maxdepth + 6:
                raise RecursionError("generator")
        if len(alts) > 1 and any(a.cls is type(None) for a in alts) and len(alts) <= 4 and r.random() < 0.25:
            alts = [a for a in alts if a.cls is type(None)]
        alt = r.choice(alts)
        rec = self.recent.get(id(alt))
        if rec and r.random() < self.same:
            return r.choice(rec)
        v = self.of_alt(alt, depth)
        if alt.fields is not None:
            rec = self.recent.setdefault(id(alt), [])
            rec.append(v)
            if len(rec) > 6:
                rec.pop(0)
        return v

    def of_alt(self, alt: Alt, depth):
        r = self.rng
        c = alt.cls
        if c is type(None):
            return None
        if c is str:
            return self.string(alt)
        if alt.consts:
            return r.choice(alt.consts)
        if c is bool:
            return r.random() < 0.5
        if c is int:
            return self.integer(alt)
        if c is float:
            return self.float_(alt)
        if c is bytes:
            return (r.choice(["", "", "", "\ufeff"]) + self._string(Alt(str))).encode("utf-8", "replace")
        if c is dt.datetime:
            return self.datetime_()
        if c is dt.date:
            return self.datetime_().date()
        if c is Other:
            return Other()
        if c in (list, tuple):
            if alt.items is not None:
                return c([self.draw(t, depth + 1) for t in alt.items])
            n = self.length(alt, depth)
            return c(self.many(alt.elem, n, depth + 1))
        if c is set:
            out = set()
            for _ in range(self.length(alt, depth)):
                try:
                    out.add(self.draw(alt.elem, depth + 1))
                except TypeError:
                    pass
            return out
        if c is dict:
            return {self.draw(alt.key, depth + 1): self.draw(alt.val, depth + 1) for _ in range(self.length(alt, depth))}
        if hasattr(c, "__members__"):
            return r.choice(list(c))
        v = object.__new__(c)
        for f, t in alt.fields.items():
            v.__dict__[f] = self.draw(t, depth + 1)
        if alt.fix is not None:
            alt.fix(v, r)
        return v
