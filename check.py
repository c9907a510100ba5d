#!/usr/bin/env python3-vt
"""Decide one property:  check.py <property> [--tier quick|thorough]

1. Deductive part: the engine generates the obligations of the property's contracts from /repo's current source
   and discharges them with z3; the contracts of callees the proofs relied on are discharged too.
2. Cross-check: the same contracts are executed on drawn inputs against the real code (also the search for a
   failing input behind an obligation that was not discharged, and the bounded stand-in for a contract the engine
   cannot handle).
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TIERS = {  # proof limit per contract, cross-check, search behind a failed obligation, stand-in, all proofs (seconds)
    "quick": (120, 6, 90, 75, 420),
    "thorough": (300, 120, 400, 200, 3600),
}
TRUSTED = [
    "the engine (/verif/engine: Python semantics of the constructs used, loop rules, builtins) and z3 4.x",
    "CPython executes the source that the engine parsed; imports and module level code of snuba_sdk are run by CPython",
    "typed inputs: arguments range over the types of /verif/contracts/types.py (documented types and near misses), objects "
    "satisfy the invariant established by their constructors, and object graphs are finite and acyclic",
    "partial correctness: termination of recursion and loops is not proved",
    "integers are mathematical (as in Python); floats, datetimes and text encodings are uninterpreted with the axioms in engine/builtin.py",
    "arguments of exception constructors (messages) are not evaluated",
]
TRUSTED_MORE = {
    "C14": ["parsimonious (the PEG engine): Grammar.parse is a function of grammar and text, raises ParseError or returns a tree "
            "whose nodes have the shapes their rules derive; equal grammars build equal trees"],
}

# Contracts of callees that are part of what a property states: an input that breaks one of them breaks the property.
CONSTITUENT = {
    "C03": ("C01/", "C02/"), "C04": ("C01/", "C02/", "C03/", "C10/"), "C05": ("C02/is_scalar",), "C07": ("C08/",),
    "C11": ("C01/", "C02/", "C03/"), "C12": ("C05/", "C11/", "C13/"), "C14": ("C13/",), "C15": ("C04/", "C07/", "C12/", "C16/"),
    "C17": ("C05/",),
}


def setup():
    from engine import sdk
    sdk.setup()
    import contracts.all  # noqa: F401
    from engine.lang import DRIVERS
    return DRIVERS


def prove_worker(job):
    i, limit, patient = job
    from engine import interp, prove
    from engine.lang import DRIVERS
    import z3
    z3.set_param("memory_max_size", 3500)
    if patient:
        interp.PROVE_MS, interp.FEAS_MS = 60000, 2000
    r = prove.prove(DRIVERS[i], limit)
    d = r.as_dict()
    d["used"] = sorted(getattr(r, "used", []))
    return d


def native_worker(job):
    idx, seconds, seed = job
    from engine import native
    from engine.harvest import harvest
    from engine.lang import DRIVERS
    try:
        fail, runs, ok = native.search([DRIVERS[i] for i in idx], seconds, seed, harvest(), None)
    except native.SpecError as e:
        return ("specerror", str(e))
    if fail is None:
        return ("ok", runs, ok)
    d, args, why = fail
    return ("fail", runs, ok, d.name, native.to_src(args), why)


def discharge(idx, limit, workers, deadline):
    """Prove the contracts idx and, transitively, those of the callees they relied on."""
    from engine import par
    from engine.lang import CONTRACTS, DRIVERS
    done, todo = {}, list(idx)
    provers = {}
    for c in CONTRACTS:
        ds = [i for i, d in enumerate(DRIVERS) if any(c.func == u or c.func.startswith(u + ".") for u in d.under)]
        provers[c.func] = ds or [i for i, d in enumerate(DRIVERS) if d.prop == c.prop]
    while todo:
        at_most = max(5, min(limit, deadline - time.time()))
        res = par.run(prove_worker, [(i, at_most, False) for i in todo], workers, at_most + 20)
        again = [k for k, r in enumerate(res) if not isinstance(r, dict) or r["status"] == "failed"
                 or r["status"] != "proved" and "out of time" in r["reason"]]
        left = deadline - time.time()
        if again and left > 20:  # a solver time-out under load is not a verdict: once more, patiently
            at_most = min(limit * 2, left)
            res2 = par.run(prove_worker, [(todo[k], at_most, True) for k in again], workers, at_most + 20)
            for k, r in zip(again, res2):
                res[k] = r
        nxt = set()
        for i, r in zip(todo, res):
            if not isinstance(r, dict):
                r = dict(status="error", reason="worker: %s" % (r,), obligations=0, discharged=0, solver_time=0.0, queries=0,
                         used=[], functions=[], contracts=[], name=DRIVERS[i].name)
            done[i] = r
            for prop, func in r["used"]:
                nxt.update(provers.get(func, ()))
        todo = sorted(nxt - set(done))
    return done


def search(idx, seconds, seed, workers):
    from engine import par
    res = par.run(native_worker, [(idx, seconds, seed * 1000 + k) for k in range(workers)], workers, seconds + 90,
                  stop=lambda r: r[0] == "fail")
    res = [r for r in res if r is not None]
    return res, sum(r[1] for r in res if r[0] in ("ok", "fail")), sum(r[2] for r in res if r[0] in ("ok", "fail"))


def replay_file(prop, tag, content):
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    path = os.path.join(HERE, "evidence", "replays", "%s-%s.json" % (prop, tag))
    with open(path, "w") as f:
        json.dump(content, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier if a.tier in TIERS else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit, t_cross, t_search, t_bound, t_all = TIERS[tier]
    t0 = time.time()
    drivers = setup()
    own = [i for i, d in enumerate(drivers) if d.prop == prop]
    if not own:
        print("no contracts for", prop)
        return 2
    workers = max(1, min(8, os.cpu_count() or 1))

    done = discharge(own, limit, workers, t0 + t_all)
    t_proof = time.time() - t0
    mine = {i: done[i] for i in own}
    failed = [i for i in own if mine[i]["status"] == "failed"]
    beyond = [i for i in own if mine[i]["status"] in ("unsupported", "error")]
    deps = [i for i in done if i not in mine and done[i]["status"] != "proved"]
    broken = [i for i in deps if done[i]["status"] == "failed"]

    runs = ok = 0
    fails, crashed = [], []

    def look(idx, seconds, salt):
        nonlocal runs, ok
        if tier == "quick":  # the whole check stays below its 900 s
            seconds = max(3, min(seconds, t0 + 740 - time.time()))
        res, n, k = search(idx, seconds, seed + salt, workers)
        runs, ok = runs + n, ok + k
        crashed.extend(r[1] for r in res if r[0] in ("specerror", "crash"))
        fails.extend(r for r in res if r[0] == "fail")

    look(own, t_cross, 0)
    standin = 0
    if not fails and failed:
        look(failed, t_search, 7)
    if not fails and beyond:
        n = runs
        look(beyond, t_bound, 13)
        standin = runs - n
    if not fails and broken:
        look(own, t_bound, 29)
    part = [i for i in deps if ("%s/%s" % (drivers[i].prop, drivers[i].name)).startswith(CONSTITUENT.get(prop, ("-",)))]
    if not fails and part:
        look(part, t_search if any(i in broken for i in part) else t_bound, 41)
    if not fails and crashed:
        print("internal error:", crashed[0])
        return 2

    evidence(prop, tier, seed, t0, t_proof, done, mine, runs, ok, standin, len(fails) or len(failed))
    if fails:
        r = min(fails, key=lambda r: len(r[4]))
        which = [i for i in list(own) + part if drivers[i].name == r[3]][0]
        ob = done[which]
        path = replay_file(prop, "input", {
            "property": prop, "contract_of": drivers[which].prop, "contract": r[3], "input": r[4], "disagreement": r[5],
            "verifier_output": "%s: %s" % (ob["status"], ob["reason"]),
            "replay": "python3-vt replay.py evidence/replays/%s-input.json" % prop})
        print("contract '%s' violated on input %s" % (r[3], r[4][:2000]))
        print("  " + r[5][:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if failed:
        i = failed[0]
        path = replay_file(prop, "obligation", {
            "property": prop, "contract": mine[i]["name"], "obligation": mine[i].get("failed") or mine[i]["reason"],
            "verifier_output": [dict(contract=mine[j]["name"], reason=mine[j]["reason"]) for j in failed],
            "searched_runs": runs})
        for j in failed:
            print("obligation not discharged: %s: %s" % (mine[j]["name"], mine[j]["reason"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    for i in beyond:
        print("bounded stand-in (engine: %s): %s" % (mine[i]["reason"][:120], mine[i]["name"]))
    for i in deps:
        print("note: relied-on contract %s/%s: %s %s" % (drivers[i].prop, drivers[i].name, done[i]["status"], done[i]["reason"][:120]))
    print("%s: %d/%d contracts proved, %d obligations, %d relied-on contracts; %d cross-check runs agree (%.1fs)" % (
        prop, len(own) - len(beyond), len(own), sum(r["discharged"] for r in mine.values()), len(done) - len(own), runs,
        time.time() - t0))
    return 0


def evidence(prop, tier, seed, t0, t_proof, done, mine, runs, ok, standin, violations):
    from engine.lang import CONTRACTS, DRIVERS
    proved = [i for i in mine if mine[i]["status"] == "proved"]
    level = "proof" if proved else "exploration"
    ob = sum(max(1, r["obligations"]) for r in mine.values())
    di = sum(r["discharged"] for r in mine.values())
    funcs = sorted({f for r in mine.values() for f in r["functions"]})
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "python3-vt -m engine.prove '%s/'" % prop,
        "trusted_base": TRUSTED + TRUSTED_MORE.get(prop, []),
        "back_end": "z3 (python binding)",
        "solver_queries": sum(r["queries"] for r in done.values()),
        "solver_time_s": round(sum(r["solver_time"] for r in done.values()), 2),
        "proof_wall_s": round(t_proof, 2),
        "contracts": [{"name": r["name"], "status": r["status"], "obligations": r["obligations"], "discharged": r["discharged"],
                       "reason": r["reason"]} for r in mine.values()],
        "bounded_not_proved": [{"name": r["name"], "why": r["reason"],
                                "bound": "typed random inputs, depth <= 5, %d runs on this run" % standin}
                               for r in mine.values() if r["status"] in ("unsupported", "error")],
        "functions_verified": funcs,
        "callee_contracts_used": sorted({c for r in mine.values() for c in r["contracts"]}),
        "relied_on_contracts": [{"name": "%s/%s" % (DRIVERS[i].prop, r["name"]), "status": r["status"]}
                                for i, r in done.items() if i not in mine],
        "evaluations": runs, "distinct_nontrivial": ok,
        "rule": "cross-check of the contracts on the real code with typed random inputs; non-trivial = the specification accepts the input",
        "samples": [r["name"] for r in mine.values()][:20],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": TRUSTED + TRUSTED_MORE.get(prop, []) + ["contract of a callee assumed at its call sites; discharged in this run unless listed otherwise "
                                    "under relied_on_contracts"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
