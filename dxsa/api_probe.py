"""Answers questions about installed libraries (never about the analysed package); JSON lines on stdin/stdout.

{"path": "numpy.linspace"} -> {"known": bool, "exists": bool, "kind": "class|call|module|value", "sig": [[name, kind, has_default]...]|null, "ret": n|null}
"""
import ast
import importlib
import inspect
import json
import os
import re
import sys
import textwrap

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
TOP = {}


def top(name):
    if name not in TOP:
        try:
            TOP[name] = importlib.import_module(name)
        except BaseException:
            TOP[name] = None
    return TOP[name]


def doc_sig(o):
    d = inspect.getdoc(o) or ""
    m = re.match(r"(?:[\w.]+\.)?(\w+)\((.*?)\)(?:\s*->.*)?$", d.split("\n")[0].strip())
    if not m or m.group(1) != getattr(o, "__name__", None):
        return None
    try:
        a = ast.parse(f"def f({m.group(2)}): pass").body[0].args
    except SyntaxError:
        return None
    ps = []
    pos = a.posonlyargs + a.args
    for i, x in enumerate(pos):
        ps.append([x.arg, "pos", i >= len(pos) - len(a.defaults)])
    if a.vararg:
        ps.append([a.vararg.arg, "var", True])
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        ps.append([x.arg, "kw", d is not None])
    if a.kwarg:
        ps.append([a.kwarg.arg, "varkw", True])
    return ps


def signature(o):
    try:
        s = inspect.signature(o)
    except (ValueError, TypeError):
        return None if inspect.isclass(o) else doc_sig(o)
    K = {0: "posonly", 1: "pos", 2: "var", 3: "kw", 4: "varkw"}
    return [[p.name, K[p.kind], p.default is not p.empty] for p in s.parameters.values()]


def ret_len(o):
    if not inspect.isfunction(o):
        return None
    try:
        t = ast.parse(textwrap.dedent(inspect.getsource(o)))
    except (OSError, SyntaxError, TypeError):
        return None
    ns = set()
    todo = list(t.body[0].body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return None
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(isinstance(e, ast.Starred) for e in n.value.elts):
                return None
            ns.add(len(n.value.elts))
        todo += list(ast.iter_child_nodes(n))
    return ns.pop() if len(ns) == 1 else None


def answer(path):
    parts = path.split(".")
    o = top(parts[0])
    if o is None:
        return dict(known=False)
    for i, p in enumerate(parts[1:], 1):
        if not hasattr(o, p) and inspect.ismodule(o):
            try:
                importlib.import_module(".".join(parts[: i + 1]))
            except ImportError:
                pass
            except BaseException:
                return dict(known=False)
        try:
            if not hasattr(o, p):
                dyn = (hasattr(type(o), "__getattr__") and not inspect.ismodule(o)) or (inspect.isclass(o) and hasattr(o, "__getattr__"))
                if i < len(parts) - 1 or dyn:
                    return dict(known=not dyn, exists=False, owner=".".join(parts[:i]))
                return dict(known=True, exists=False, owner=".".join(parts[:i]), isclass=inspect.isclass(o))
            o = getattr(o, p)
        except BaseException:
            return dict(known=False)
        if not (inspect.ismodule(o) or inspect.isclass(o) or callable(o)) and i < len(parts) - 1:
            return dict(known=False)
    k = "module" if inspect.ismodule(o) else "class" if inspect.isclass(o) else "call" if callable(o) else "value"
    return dict(known=True, exists=True, kind=k, sig=signature(o) if k in ("class", "call") else None, ret=ret_len(o), method=k == "call" and bound_needed(parts))


def bound_needed(parts):
    """Called through its class with the instance as first argument (not a static method)."""
    if len(parts) < 3:
        return False
    p = eval_parent(parts)
    return inspect.isclass(p) and not isinstance(inspect.getattr_static(p, parts[-1], None), staticmethod)


def eval_parent(parts):
    o = top(parts[0])
    for p in parts[1:-1]:
        o = getattr(o, p)
    return o


import warnings
warnings.simplefilter("ignore")
for line in sys.stdin:
    q = json.loads(line)
    try:
        r = answer(q["path"])
    except BaseException as e:
        r = dict(known=False, error=str(e)[:100])
    out.write(json.dumps(r) + "\n")
    out.flush()
