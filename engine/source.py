"""Mechanical extraction of function bodies from the current source files."""
from __future__ import annotations

import ast
import functools
import inspect
import types

from .sym import Unsupported


@functools.lru_cache(None)
def parsed(path):
    with open(path) as f:
        return ast.parse(f.read())


@functools.lru_cache(None)
def index(path):
    out = {}

    def go(node, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ln = min([d.lineno for d in ch.decorator_list] + [ch.lineno])
                out.setdefault((ch.name, ln), (ch, cls))
                go(ch, cls)
            elif isinstance(ch, ast.ClassDef):
                go(ch, ch.name)
            elif isinstance(ch, ast.Lambda):
                out.setdefault(("<lambda>", ch.lineno), []) if False else None
                out.setdefault("lambdas", []).append((ch, cls))
                go(ch, cls)
            else:
                go(ch, cls)

    go(parsed(path), None)
    return out


class Info:
    def __init__(self, node, globals_, free, cls, name, path, func=None):
        self.node, self.globals, self.free, self.cls, self.name, self.path = node, globals_, free, cls, name, path
        self.func = func
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        self.locals = assigned(node)


def own_nodes(fn):
    """Nodes of a function body, without those of nested functions."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def assigned(fn):
    names = set()
    nonlocal_ = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            nonlocal_.update(n.names)
    return names - nonlocal_


CACHE = {}


def info(func):
    """Info of a Python function object (its AST is re-read from its file)."""
    k = func
    if k in CACHE:
        return CACHE[k]
    code = func.__code__
    src = getattr(func, "__verif_source__", None)
    if src is not None:
        node = ast.parse(src).body[0]
        cls = None
        path = "<driver>"
    else:
        path = code.co_filename
        try:
            idx = index(path)
        except (OSError, SyntaxError) as e:
            raise Unsupported("no source for %s: %s" % (func.__qualname__, e))
        if func.__name__ == "<lambda>":
            pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
            body = [(p[0], p[2], p[1], p[3]) for p in pos]
            cand = []
            for n, cls in idx.get("lambdas", []):
                if n.lineno != code.co_firstlineno:
                    continue
                lo, hi = (n.body.lineno, n.body.col_offset), (n.body.end_lineno, n.body.end_col_offset)
                inside = [b for b in body if (b[0], b[1]) >= lo and (b[2], b[3]) <= hi]
                if len(inside) >= len([b for b in body if b[3] != b[1]]) - 1 and [x.arg for x in n.args.args] == list(
                        code.co_varnames[:code.co_argcount]):
                    cand.append((hi[0] - lo[0], hi[1] - lo[1], n, cls))
            if not cand:
                raise Unsupported("lambda not found at %s:%d" % (path, code.co_firstlineno))
            cand.sort(key=lambda c: (c[0], c[1]))
            node, cls = cand[0][2], cand[0][3]
        else:
            ent = idx.get((func.__name__, code.co_firstlineno))
            if ent is None:
                raise Unsupported("source of %s not found" % func.__qualname__)
            node, cls = ent
    free = {}
    if func.__closure__:
        for n, c in zip(code.co_freevars, func.__closure__):
            try:
                free[n] = c.cell_contents
            except ValueError:
                pass
    i = Info(node, func.__globals__, free, cls, func.__qualname__, path, func)
    i.defaults = func.__defaults__ or ()
    i.kwdefaults = func.__kwdefaults__ or {}
    CACHE[k] = i
    return i


def has_source(func):
    return isinstance(func, types.FunctionType)
