"""Puts the code under verification (/repo) and its dependencies on sys.path."""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
VENV = "/opt/venv/lib/python3.12/site-packages"


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV not in sys.path:
        sys.path.append(VENV)
    # never use a stale byte-code file in place of a source file
    if not sys.pycache_prefix:
        sys.pycache_prefix = "/nonexistent-pycache"


def mod(name):
    setup()
    return importlib.import_module(name)
