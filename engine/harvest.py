"""Constants occurring in /repo's source, fed to the input generator (never to the prover)."""
import ast
import os

from . import sdk


def harvest():
    out = {"str": set(), "int": set(), "float": set()}
    root = os.path.join(sdk.REPO, "snuba_sdk")
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(
                        n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                    docs.add(id(n.body[0].value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, str) and len(v) <= 40:
                        out["str"].add(v)
                    elif isinstance(v, int):
                        out["int"].add(v)
                    elif isinstance(v, float):
                        out["float"].add(v)
    return {k: sorted(v) for k, v in out.items()}
