"""Prove the drivers of the seeded bugs' properties on a patched scratch copy: what the engine says about each bug.
mutants.py [ids...]"""
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent.parent
ids = sys.argv[1:] or sorted(p.name for p in (HERE / "seeded").iterdir())
for b in ids:
    meta = json.load(open(HERE / "seeded" / b / "meta.json"))
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        subprocess.run(["git", "-C", tmp + "/repo", "apply", str(HERE / "seeded" / b / "patch.diff")], check=True)
        out = subprocess.run(["python3-vt", "tools/provall.py", "^%s/" % meta["property"], "60"], cwd=HERE, text=True,
                             env={**os.environ, "VERIF_REPO": tmp + "/repo"}, capture_output=True).stdout
        print("== %s %s" % (b, meta["property"]))
        for l in out.splitlines():
            print("   ", l[:200])
    finally:
        shutil.rmtree(tmp)
    sys.stdout.flush()
