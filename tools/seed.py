#!/usr/bin/env python3
"""Confirms planted bugs and stores them: seed.py spec.py  (spec.py defines BUGS = [dict(id,prop,edits=[(file,old,new)],needs,breaks,demo)])."""
import json, os, runpy, subprocess, sys, tempfile
REPO = "/repo"
BASE = json.load(open("/opt/vp/BASELINE.json"))
OUT = "/verif/seeded"

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def passed(path):
    d = json.load(open(path))
    return set(d["passed"]) if isinstance(d.get("passed"), list) else {k for k, v in d.items() if v == "passed"}

def base():
    b = BASE
    for k in ("passed", "stable", "tests"):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)

def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])["BUGS"]:
        if only and b["id"] not in only:
            continue
        assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip()
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: the property holds on the demonstrated input\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, "snuba_sdk", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = sh("git", "-C", REPO, "diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            build = sh("bash", "/opt/vp/build.sh")
            sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
            lost = base() - passed("/tmp/seed_out.json")
            bad = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        finally:
            sh("git", "-C", REPO, "checkout", "--", ".")
        good = ok.returncode == 0 and bad.returncode != 0 and not lost and build.returncode == 0
        print(b["id"], "OK" if good else "REJECT demo-clean=%d demo-bug=%d lost=%d build=%d" % (ok.returncode, bad.returncode, len(lost), build.returncode))
        if not good:
            print(ok.stderr[-300:], sorted(lost)[:3])
            sh("rm", "-r", d)

main()
