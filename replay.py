#!/usr/bin/env python3-vt
"""replay.py <replay file>: run the recorded failing input against the real code and the specification again."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    rec = json.load(open(sys.argv[1]))
    from engine import native, sdk
    sdk.setup()
    import contracts.all  # noqa: F401
    from engine.lang import DRIVERS
    if "input" not in rec:
        print("no concrete input: failed obligation", rec.get("obligation"))
        print(rec.get("verifier_output", ""))
        return 1
    (d,) = [d for d in DRIVERS if d.prop == rec.get("contract_of", rec["property"]) and d.name == rec["contract"]]
    args = eval(rec["input"], native.namespace())  # noqa: S307 - our own file
    bad = native.check_one(d, args)
    print("contract", d.name)
    print("input   ", rec["input"])
    print("agrees" if bad is None else "VIOLATED: " + bad)
    return 0 if bad is None else 1


sys.exit(main())
