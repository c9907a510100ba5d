"""Proves every driver on scratch copies with behaviour-preserving edits applied: what the engine says about each.
neutral.py [names...]   (an edit must come out proved or, at worst, unsupported; never failed)"""
import json, os, pathlib, shutil, subprocess, sys, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from neutral_edits import NEUTRAL

# the properties whose contracts look into a file
LOOK = {"visitors.py": "C01|C02|C03|C04|C08|C11", "query_visitors.py": "C04|C07|C08", "query_validation.py": "C07|C09",
        "conditions.py": "C05|C09|C10|C18", "function.py": "C05|C18", "relationships.py": "C03|C05|C07|C09",
        "query_optimizers/or_optimizer.py": "C04|C10", "formula.py": "C06|C13", "metrics_visitors.py": "C11|C12",
        "timeseries.py": "C06|C13", "request.py": "C15|C16", "query.py": "C04|C06|C07", "column.py": "C03|C05|C07",
        "expressions.py": "C02|C05|C06", "entity.py": "C05", "storage.py": "C05", "metrics_query.py": "C06|C12",
        "mql_visitor.py": "C12", "legacy.py": "C17", "mql/mql.py": "C14", "metrics_query_visitors.py": "C12",
        "delete_query.py": "C16", "orderby.py": "C05|C09|C18", "schema.py": "C05|C09", "aliased_expression.py": "C05"}
HERE = pathlib.Path(__file__).resolve().parent.parent
only = sys.argv[1:]
for name, edits in NEUTRAL:
    if only and name.split()[0] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="neu-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        for f, old, new in edits:
            p = pathlib.Path(tmp, "repo/snuba_sdk", f)
            s = p.read_text()
            assert s.count(old) == 1, (name, f, s.count(old), old)
            p.write_text(s.replace(old, new))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=tmp + "/repo",
                           env={**os.environ, "PYTHONPATH": tmp + "/repo", "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True)
        out = subprocess.run(["python3-vt", "tools/provall.py", "^(%s)/" % "|".join(LOOK[f] for f, _, _ in edits), "90"], cwd=HERE, text=True,
                             env={**os.environ, "VERIF_REPO": tmp + "/repo"}, capture_output=True).stdout
        print("==", name, "" if t.returncode == 0 else "TESTS FAIL " + t.stdout[-300:])
        for l in out.splitlines():
            print("   ", l[:200])
    finally:
        shutil.rmtree(tmp)
    sys.stdout.flush()
