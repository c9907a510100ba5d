#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(HERE / "properties.jsonl")]
LEVEL = {
    "C14": ("proof", "every visitor method and the dispatch over the parse tree are discharged by z3 against the reference denotation of each grammar rule, and parse_mql against their composition; the PEG engine (parsimonious) is trusted to build the parse tree of the grammar, and the grammar of the code is compared with the reference grammar rule by rule; cross-checked natively on generated texts"),
}
PROOF = ("proof", "every obligation generated from /repo's current source is discharged by z3, function by function against contracts, for all inputs of the stated types; cross-checked natively on random inputs")
checks = []
for p in props:
    i = p["id"]
    lv, note = LEVEL.get(i, PROOF)
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i,
                   "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "technique": "contract-based deductive verification of the real code (own symbolic VC generator over /repo's AST, z3 back end)",
                   "level": lv, "level_note": note})
(HERE / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, indent=1) + "\n")
