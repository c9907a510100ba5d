"""Generation and discharge of the obligations of one driver (one verification unit)."""
from __future__ import annotations

import importlib
import re
import signal
import time
import traceback

import z3

from . import source
from .calls import Engine
from .equal import Equal, Mismatch
from .lang import CONTRACTS, DRIVERS, AnyError, Rejected
from .native import sdk_error
from .sym import And, CLS, Implies, Not, Or, Sym, Unsupported, V, World
from .vals import Dead, ExcV


class Resolved:
    def __init__(self, c, func, rcls):
        self.spec, self.prop, self.when, self.note = c.spec, c.prop, c.when, c.note
        self.func, self.rcls = func, rcls
        self.types = getattr(c, "types", None)
        self.name = c.func
        excs = {d.exc for d in DRIVERS if c.func in d.under}
        # how exactly the error classes of the contract are established by the drivers of the function
        self.exc = next((e for e in ("any", "loose", "sdk") if e in excs), "class")


def lookup(path):
    """'module:Qual.name' -> (function, class it was named through)."""
    mod, _, qual = path.partition(":")
    o = importlib.import_module(mod)
    cls = None
    for p in qual.split("."):
        if isinstance(o, type):
            cls = o
        o = getattr(o, p)
    return o, cls


def resolve():
    out, missing = {}, []
    for c in CONTRACTS:
        try:
            f, cls = lookup(c.func)
        except (ImportError, AttributeError):
            missing.append(c.func)
            continue
        if isinstance(f, property):
            f = f.fget
        f = getattr(f, "__func__", f)
        out.setdefault(f, []).append(Resolved(c, f, cls))
    return out, missing


class Report:
    def __init__(self, driver):
        self.driver = driver
        self.status = None          # proved | failed | unsupported | error
        self.obligations = 0
        self.discharged = 0
        self.failed = None
        self.reason = ""
        self.queries = 0
        self.solver_time = 0.0
        self.wall = 0.0
        self.contracts = []
        self.used = []
        self.functions = []
        self.axioms = 0

    def as_dict(self):
        return {k: v for k, v in self.__dict__.items() if k != "driver"} | {"name": self.driver.name}


def short_trace():
    import sys
    tb = traceback.extract_tb(sys.exc_info()[2])
    print("   ", " < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(tb[-9:])))


class Failed(Exception):
    pass


def prove(driver, limit=60.0, debug=False):
    rep = Report(driver)
    t0 = time.time()
    E = None

    def alarm(*_):
        raise Unsupported("out of time")

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        E = setup(driver, t0 + limit)
        run(driver, E, rep)
        rep.status = "proved"
    except Failed as e:
        rep.status, rep.reason = "failed", str(e)
    except Unsupported as e:
        rep.status = "unsupported"
        rep.reason = "%s (at %s)" % (e, where(E))
        if debug:
            short_trace()
        if "out of time" not in str(e):
            w = stray_write(driver, t0 + limit)
            if w is not None:
                rep.status, rep.reason, rep.failed = "failed", "frame: " + w, "frame: " + w
                rep.obligations += 1
    except RecursionError:
        rep.status, rep.reason = "unsupported", "recursion depth"
    except Exception as e:  # noqa: BLE001 -- an engine error is a tool limit, never a verdict
        rep.status = "error"
        rep.reason = "%s: %s (at %s)" % (type(e).__name__, e, where(E))
        if debug:
            short_trace()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rep.wall = time.time() - t0
    if E is not None:
        rep.queries, rep.solver_time, rep.axioms = E.w.queries, round(E.w.solver_time, 3), E.w.axcount
        rep.used = sorted(E.used_contracts)
        rep.contracts = sorted({"%s [%s]" % (f, p) for p, f in E.used_contracts})
        rep.functions = sorted({"%s:%s" % (f.__module__, f.__qualname__) for f in E.inlined
                                if (f.__module__ or "").startswith("snuba_sdk")})
    return rep


def where(E):
    if E is None or E.where is None:
        return "?"
    return "%s:%s" % (str(E.where[0]).split("/")[-1], E.where[1])


def setup(driver, deadline):
    w = World()
    contracts, _ = resolve()
    E = Engine(w, contracts)
    E.deadline = deadline
    E.top_depth = 1
    prefixes = tuple(driver.under)
    E.unfold = tuple(getattr(driver, "unfold", None) or ())

    def opened(f):
        name = "%s:%s" % (f.__module__, f.__qualname__)
        return any(name == p or name.startswith(p + ".") for p in prefixes)

    E.opened = opened
    return E


def call_by_name(E, f, env):
    return E.call_spec(f, list(env.values()), {})


def assume_inv(E, s):
    """Object invariants of an input (facts established by its constructor)."""
    for g, a in list(s.alts):
        if a.inv is None:
            continue
        gg = E.w.guard(s, g, a)
        save = E.pc
        E.pc = save + (gg,) if gg is not True else save
        n = len(E.handlers[-1])
        u, E.unfold = E.unfold, ()
        try:
            t = E.truth(E.call_spec(a.inv, [s], {}))
        except Dead:
            t = False
        E.unfold = u
        del E.handlers[-1][n:]
        E.pc = save
        E.assume(Implies(gg, t))


def outcome(E, fn):
    E.handlers = [[]]
    try:
        v = fn()
        ret = (E.heap, E.pc, v)
    except Dead:
        ret = None
    return ret, E.handlers[0]


def exc_agrees(driver, code, spec):
    if driver.exc == "any" or (driver.exc == "loose" and spec in (Rejected, AnyError)):
        return True
    if code is AnyError:
        return False
    if spec is Rejected or driver.exc == "sdk":
        return code is Rejected or sdk_error(code)
    return issubclass(code, spec)


def at_(exc):
    at = getattr(exc, "where", None)
    return "%s:%s" % (str(at[0]).split("/")[-1], at[1]) if at else "?"


def stray_write(driver, deadline):
    """A write to something that existed before the call, on one of the paths that can be followed (or None)."""
    E = None
    try:
        E = setup(driver, deadline)
        env = inputs(driver, E)
        for n in driver.consumes:
            env[n] = E.owned(env[n])
        pc0 = E.pc
        E.partial, E.openeq = True, driver.openeq
        try:
            outcome(E, lambda: call_by_name(E, driver.code, env))
        except Unsupported as u:
            if "out of time" in str(u):
                return None
        for what, pc in E.frame_writes:
            if not E.valid(Not(And(*pc[len(pc0):])), pc0):
                return what
    except Exception:  # noqa: BLE001 -- no verdict
        return None
    return None


def inputs(driver, E):
    w = E.w
    env = {}
    for n, ty in driver.inputs.items():
        env[n] = w.sym(z3.Const("in_" + n, V), ty)
    for s in env.values():
        if len(s.classes()) <= 6:
            assume_inv(E, s)
    for path in getattr(driver, "invs", None) or ():
        o = env[path.split(".")[0]]
        for p in path.split(".")[1:]:
            o = E.getattr(o, p)
        assume_inv(E, o)
    if driver.requires is not None:
        E.assume(E.truth(call_by_name(E, driver.requires, env)))
    return env


def run(driver, E, rep):
    w = E.w
    env = inputs(driver, E)
    spec_env = dict(env)
    for n in driver.consumes:
        env[n], spec_env[n] = E.owned(env[n]), E.owned(env[n])
    pc0, heap0 = E.pc, dict(E.heap)
    if w.check(list(pc0), 2000) == z3.unsat:
        raise Failed("vacuous: the precondition is contradictory")

    def check(f, pc, what):
        rep.obligations += 1
        if not E.valid(f, tuple(pc)):
            rep.failed = what
            rep.model = None
            raise Mismatch(what)
        rep.discharged += 1

    def note(n):
        rep.obligations += n
        rep.discharged += n

    check.note = note
    E.heap, E.pc = dict(heap0), pc0
    E.openeq = driver.openeq
    code, code_raises = outcome(E, lambda: call_by_name(E, driver.code, env))
    E.openeq = False
    writes = E.frame_writes
    E.frame_writes = []
    E.stack = []
    # the specification runs from the same state
    E.heap, E.pc = dict(heap0), pc0
    td, E.top_depth = E.top_depth, -1
    spec, spec_raises = outcome(E, lambda: call_by_name(E, driver.spec, spec_env))
    E.top_depth = td
    if E.frame_writes:
        raise Unsupported("specification writes")
    if driver.returns is not None and spec is not None:
        E.heap, E.pc = dict(spec[0]), spec[1]
        if not E.conforms(spec[2], driver.returns):
            raise Unsupported("the prescribed result is not of the declared type")
    E.handlers = [[]]
    E.heap, E.pc = {**(code[0] if code else {}), **(spec[0] if spec else {}), **heap0}, pc0
    E.finish_sets()
    if code is None and not code_raises and not writes:
        raise Failed("vacuous: the code reaches no outcome")
    if spec is None and not spec_raises:
        raise Failed("vacuous: the specification reaches no outcome")
    n0 = len(pc0)
    try:
        for what, pc in writes:
            check(Not(And(*pc[n0:])), pc0, "frame: %s" % what)
        for h, pc, exc in code_raises:
            name = exc.cls.__name__
            loc = at_(exc)
            if spec is not None:
                check(Not(And(*spec[1][n0:])), pc, "raises %s (%s) although the contract promises a result" % (name, loc))
            for h2, pc2, exc2 in spec_raises:
                if not exc_agrees(driver, exc.cls, exc2.cls):
                    check(Not(And(*pc2[n0:])), pc, "raises %s (%s) instead of %s (%s)" % (
                        name, loc, exc2.cls.__name__, at_(exc2)))
        if code is not None:
            for h2, pc2, exc2 in spec_raises:
                check(Not(And(*pc2[n0:])), code[1], "returns a result although the contract demands %s (%s)" % (
                    exc2.cls.__name__, at_(exc2)))
        if code is not None and spec is not None:
            E.heap = {**spec[0], **code[0]}
            pc = tuple(code[1]) + tuple(spec[1][n0:])
            E.pc = pc
            if w.check(list(pc), 2000) != z3.unsat:
                Equal(E, check).eq(code[2], spec[2], pc, "result")
        elif code is None and spec is not None:
            check(Not(And(*spec[1][n0:])), pc0, "never returns")
    except Mismatch as m:
        raise Failed(m.what)
    # the facts collected on the way do not contradict each other (otherwise everything above is worthless)
    if w.check(list(pc0) + [z3.Const("consistent", z3.BoolSort())], 2000) == z3.unsat:
        raise Unsupported("contradictory axioms")
    if rep.obligations == 0:
        rep.obligations = rep.discharged = 1


def main():
    import sys
    from . import sdk
    sdk.setup()
    import contracts.all  # noqa: F401
    from .lang import DRIVERS
    pat = sys.argv[1] if len(sys.argv) > 1 else "."
    debug = "-d" in sys.argv
    limit = float(sys.argv[2]) if len(sys.argv) > 2 and sys.argv[2] != "-d" else 60.0
    for d in DRIVERS:
        if re.search(pat, "%s/%s" % (d.prop, d.name)):
            r = prove(d, limit, debug)
            print("%-12s %-45s ob=%d/%d q=%d solver=%.1f wall=%.1f %s" % (
                r.status, "%s/%s" % (d.prop, d.name), r.discharged, r.obligations, r.queries, r.solver_time, r.wall,
                r.reason[:160]), flush=True)


if __name__ == "__main__":
    main()
