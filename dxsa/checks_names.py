"""C60: every name, member, import and call arity in the package resolves.

Two rules over the whole package: (1) resolution over the syntax trees (scopes, possibly-bound dataflow, class members, signatures of
package functions and of the installed libraries); (2) the faults the abstract interpretation of the entry points meets on a feasible path.
"""
from __future__ import annotations

import ast
import builtins
import json
import os
import subprocess

from . import term as T
from .checks_lint import Package
from .interp import strval
from .run import package_sources
from .term import ZERO, Unsupported

VENV = "/opt/venv/bin/python"
DUNDER = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__builtins__", "__debug__", "__path__", "__class__", "__annotations__", "__loader__"}
OBJ = set(dir(object)) | {"__dict__", "__class__", "__name__", "__module__", "__qualname__", "__annotations__", "__weakref__"}
UNKNOWN_LIBS = {"dolfinx", "dxh", "pypardiso", "basix"}
PETSC_SELF = {"create", "createAIJ", "createDense", "createPython", "createSeq", "createMPI", "createWithArray", "duplicate", "copy", "createGeneral", "createNest"}
PETSC_RET = {"getPC": "PC", "createVecLeft": "Vec", "createVecRight": "Vec"}


# ------------------------------------------------------------------ library API
class Api:
    def __init__(self):
        self.cache = {}
        self.p = None

    def ask(self, path):
        if path in self.cache:
            return self.cache[path]
        r = dict(known=False)
        if path.split(".")[0] not in UNKNOWN_LIBS:
            try:
                if self.p is None:
                    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
                    self.p = subprocess.Popen([VENV, os.path.join(os.path.dirname(os.path.abspath(__file__)), "api_probe.py")], stdin=subprocess.PIPE,
                                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd="/", env=env)
                self.p.stdin.write(json.dumps(dict(path=path)) + "\n")
                self.p.stdin.flush()
                r = json.loads(self.p.stdout.readline())
            except (OSError, ValueError):
                self.p = None
                r = dict(known=False)
        self.cache[path] = r
        return r

    def close(self):
        if self.p is not None:
            self.p.stdin.close()
            self.p.wait(timeout=60)


# ------------------------------------------------------------------ helpers
def type_checking(m, n):
    """n sits in the body of `if TYPE_CHECKING`."""
    c = n
    while c in m.parent:
        p = m.parent[c]
        if isinstance(p, ast.If) and c in p.body and ast.unparse(p.test).split(".")[-1] == "TYPE_CHECKING":
            return True
        c = p
    return False


def handled(m, n, names):
    """n is in the body of a try whose handlers catch one of names (or everything)."""
    c = n
    while c in m.parent:
        p = m.parent[c]
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                if h.type is None or any(isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x).split(".")[-1] in names | {"Exception", "BaseException"} for x in ast.walk(h.type)):
                    return True
        if isinstance(p, ast.With) and c in p.body and any("suppress" in ast.unparse(i.context_expr) for i in p.items):
            return True
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            break
        c = p
    return False


def lazy_annotations(m):
    return any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)


def annotation_nodes(m):
    out = set()
    for n in ast.walk(m.tree):
        anns = []
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            anns = [x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x is not None and x.annotation] + ([n.returns] if n.returns else [])
        elif isinstance(n, ast.AnnAssign):
            anns = [n.annotation]
        for x in anns:
            for y in ast.walk(x):
                out.add(y)
    return out


class Names:
    def __init__(self, rep):
        self.rep = rep
        self.pkg = Package()
        self.api = Api()
        self.n = dict(names=0, imports=0, members=0, calls=0, attrs=0)
        self.stored = set()
        self.attr_types = {}
        self.ann = {}
        for m in self.pkg.mods.values():
            self.ann[m.name] = annotation_nodes(m)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "hasattr", "getattr") and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.stored.add(n.args[1].value)

    # -------------------------------------------------------------- runtime bindings
    def live(self, m, b):
        return not isinstance(b, ast.Global) and not type_checking(m, b)

    def names(self):
        for m in self.pkg.mods.values():
            if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree)):
                continue
            lazy = lazy_annotations(m)
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)):
                    continue
                isann = n in self.ann[m.name]
                if isann and lazy:
                    continue
                self.n["names"] += 1
                sc, bs = m.scope(n).lookup(n.id)
                if sc is not None and not any(self.live(m, b) for b in bs):
                    sc = None if not isann or not lazy else sc
                if sc is None and not hasattr(builtins, n.id) and n.id not in DUNDER and not handled(m, n, {"NameError"}):
                    q = m.scope(n).qual()
                    why = "imported for type checking only" if bs else "never bound"
                    self.rep.bad(f"{m.name}:{q}:name:{n.id}", f"name {n.id} is {why} where it is used", m.where(n))
            Flow(self, m).run()

    # -------------------------------------------------------------- imports
    def imports(self):
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for al in n.names:
                        self.n["imports"] += 1
                        self.imported(m, n, al.name, None)
                elif isinstance(n, ast.ImportFrom):
                    base = self.pkg.base(m, n)
                    for al in n.names:
                        if al.name != "*" and base != "__future__":
                            self.n["imports"] += 1
                            self.imported(m, n, base, al.name)

    def imported(self, m, n, base, name):
        if handled(m, n, {"ImportError", "ModuleNotFoundError"}):
            return
        top = base.split(".")[0]
        key = f"{m.name}:import:{base}:{name or ''}"
        if top == "dxss":
            if base in self.pkg.mods:
                if name is None or base + "." + name in self.pkg.mods:
                    return
                mm = self.pkg.mods[base]
                bs = mm.root.bound.get(name, [])
                tc = type_checking(m, n)
                if not any(tc or self.live(mm, b) for b in bs) and "__getattr__" not in mm.root.bound:
                    self.rep.bad(key, f"module {base} has no name {name}", m.where(n))
            elif not any(x.startswith(base + ".") for x in self.pkg.mods):
                self.rep.bad(key, f"module {base} does not exist", m.where(n))
            return
        if type_checking(m, n):
            return
        r = self.api.ask(base)
        if not r.get("known"):
            return
        if not r["exists"]:
            self.rep.bad(key, f"library module {base} does not exist", m.where(n))
        elif name is not None:
            r = self.api.ask(base + "." + name)
            if r.get("known") and not r["exists"]:
                self.rep.bad(key, f"library module {base} has no name {name}", m.where(n))

    # -------------------------------------------------------------- types
    def type_of(self, m, e, depth=0):
        """('inst', module, classdef) | ('lib', class path) | ('mod', name) | ('libmod', path) | None."""
        if depth > 8 or e is None:
            return None
        if isinstance(e, ast.Name):
            sc, bs = m.scope(e).lookup(e.id)
            if sc is None:
                return None
            if e.id == "self" or (sc.kind == "function" and any(isinstance(b, ast.arg) for b in bs)):
                f = sc.node
                cls = m.parent.get(f)
                if isinstance(cls, ast.ClassDef) and isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == e.id and len(bs) == 1 and not any(self.deco(d) in ("staticmethod", "classmethod") for d in f.decorator_list):
                    return ("inst", m, cls)
            ts = [self.binding_type(m, sc, b, e.id, depth + 1) for b in bs]
            return self.join(ts)
        if isinstance(e, ast.Attribute):
            t = self.type_of(m, e.value, depth + 1)
            if t is not None and t[0] == "inst":
                return self.attr_type(t, e.attr, depth + 1)
            return None
        if isinstance(e, ast.Call):
            r = self.pkg.resolve(m, e.func)
            if r is not None:
                if r[0] == "class":
                    return ("inst", r[1], r[2])
                if r[0] == "lib":
                    a = self.api.ask(r[1])
                    if a.get("known") and a.get("exists") and a.get("kind") == "class" and r[1].startswith("petsc4py."):
                        return ("lib", r[1])
                return None
            if isinstance(e.func, ast.Attribute):
                t = self.type_of(m, e.func.value, depth + 1)
                if t is not None and t[0] == "lib" and t[1].startswith("petsc4py.PETSc."):
                    if e.func.attr in PETSC_SELF:
                        return t
                    if e.func.attr in PETSC_RET:
                        return ("lib", "petsc4py.PETSc." + PETSC_RET[e.func.attr])
            return None
        if isinstance(e, ast.IfExp):
            return self.join([self.type_of(m, e.body, depth + 1), self.type_of(m, e.orelse, depth + 1)])
        if isinstance(e, ast.NamedExpr):
            return self.type_of(m, e.value, depth + 1)
        return None

    def join(self, ts):
        if not ts or any(t is None for t in ts) or any(t[0] != ts[0][0] or t[-1] is not ts[0][-1] and t[-1] != ts[0][-1] for t in ts):
            return None
        return ts[0]

    def binding_type(self, m, sc, b, name, depth):
        if isinstance(b, ast.arg):
            return self.ann_type(m, b.annotation)
        if isinstance(b, ast.Name):
            p = m.parent.get(b)
            if isinstance(p, ast.Assign) and any(t is b for t in p.targets):
                return self.type_of(m, p.value, depth)
            if isinstance(p, ast.AnnAssign) and p.value is not None:
                return self.type_of(m, p.value, depth) or self.ann_type(m, p.annotation)
        return None

    def ann_type(self, m, a):
        if a is None:
            return None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                a = ast.parse(a.value, mode="eval").body
            except SyntaxError:
                return None
            if not isinstance(a, ast.Name):
                return None
            b = m.root.bound.get(a.id, [])
            r = self.pkg.binding(m, b, a.id, 0) if b else None
        else:
            r = self.pkg.resolve(m, a)
        if r is None:
            return None
        if r[0] == "class":
            return ("inst", r[1], r[2])
        if r[0] == "lib" and r[1].startswith("petsc4py.PETSc."):
            return ("lib", r[1])
        return None

    def attr_type(self, t, name, depth):
        _, m, c = t
        k = (m.name, c.name, name)
        if k in self.attr_types:
            return self.attr_types[k]
        self.attr_types[k] = None
        ts = []
        for n in ast.walk(c):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and isinstance(n.value, ast.Name) and self.type_of(m, n.value, depth) == t:
                p = m.parent.get(n)
                if isinstance(p, ast.Assign) and any(x is n for x in p.targets):
                    if isinstance(p.value, ast.Constant) and p.value.value is None:
                        continue
                    ts.append(self.type_of(m, p.value, depth + 1))
                else:
                    ts.append(None)
        for b in c.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.target.id == name:
                ts.append(self.ann_type(m, b.annotation))
        r = self.join(ts)
        self.attr_types[k] = r
        return r

    def deco(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        return ast.unparse(d).split(".")[-1]

    # -------------------------------------------------------------- members
    def bases(self, m, c):
        """In-package base classes, or None if some base is not in the package."""
        out = []
        for b in c.bases:
            r = self.pkg.resolve(m, b)
            if r is not None and r[0] == "class":
                sub = self.bases(r[1], r[2])
                if sub is None:
                    return None
                out += [(r[1], r[2])] + sub
            elif r == ("lib", "builtins.object"):
                pass
            elif r is not None and r[0] == "lib" and r[1].split(".")[-1] in ("NamedTuple", "Protocol", "ABC"):
                out.append(None)
            else:
                return None
        return out

    def members(self, m, c):
        bs = self.bases(m, c)
        if bs is None or c.keywords or any(self.deco(d) not in ("dataclass", "final", "total_ordering") for d in c.decorator_list):
            return None
        out = set(OBJ)
        for x in [(m, c)] + bs:
            if x is None:
                out |= set(dir(tuple)) | {"_asdict", "_replace", "_fields", "_make"}
                continue
            mm, cc = x
            for n in ast.walk(cc):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and mm.parent.get(n) is cc:
                    out.add(n.name)
                    if n.name in ("__getattr__", "__getattribute__"):
                        return None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and mm.scope(n).node is cc:
                    out.add(n.id)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") or isinstance(n, ast.Attribute) and n.attr in ("__dict__", "__setattr__"):
                    return None
            if any(self.deco(d) == "dataclass" for d in cc.decorator_list):
                out |= {"__dataclass_fields__"}
        return out | self.stored

    def attributes(self):
        mem = {}
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)) or n in self.ann[m.name] or handled(m, n, {"AttributeError"}) or type_checking(m, n):
                    continue
                q = m.scope(n).qual()
                r = self.pkg.resolve(m, n.value)
                if r is not None:
                    if r[0] == "mod":
                        self.n["attrs"] += 1
                        mm = self.pkg.mods[r[1]]
                        if not any(self.live(mm, b) for b in mm.root.bound.get(n.attr, [])) and r[1] + "." + n.attr not in self.pkg.mods and n.attr not in DUNDER and n.attr not in self.stored:
                            self.rep.bad(f"{m.name}:{q}:attr:{n.attr}", f"module {r[1]} has no name {n.attr}", m.where(n))
                    elif r[0] == "lib" and not self.optional(m, n.value):
                        self.n["attrs"] += 1
                        a = self.api.ask(r[1] + "." + n.attr)
                        if a.get("known") and not a["exists"] and n.attr not in self.stored:
                            self.rep.bad(f"{m.name}:{q}:attr:{r[1]}.{n.attr}", f"{r[1]} has no attribute {n.attr} (installed library)", m.where(n))
                    elif r[0] == "class":
                        self.n["attrs"] += 1
                        ms = self.members(r[1], r[2])
                        if ms is not None and n.attr not in ms and not hasattr(type, n.attr):
                            self.rep.bad(f"{m.name}:{q}:member:{n.attr}", f"class {r[2].name} has no member {n.attr}", m.where(n))
                    continue
                t = self.type_of(m, n.value)
                if t is None:
                    continue
                self.n["members"] += 1
                if t[0] == "inst":
                    k = (t[1].name, t[2].name)
                    if k not in mem:
                        mem[k] = self.members(t[1], t[2])
                    if mem[k] is not None and n.attr not in mem[k]:
                        self.rep.bad(f"{m.name}:{q}:member:{t[2].name}.{n.attr}", f"{t[2].name} objects have no member {n.attr}", m.where(n))
                else:
                    a = self.api.ask(t[1] + "." + n.attr)
                    if a.get("known") and not a["exists"] and n.attr not in self.stored:
                        self.rep.bad(f"{m.name}:{q}:member:{t[1]}.{n.attr}", f"{t[1]} objects have no member {n.attr} (installed library)", m.where(n))

    def optional(self, m, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        if not isinstance(e, ast.Name):
            return False
        sc, bs = m.scope(e).lookup(e.id)
        return sc is not None and len(bs) > 1

    # -------------------------------------------------------------- calls
    def params(self, m, f, bound):
        a = f.args
        pos = a.posonlyargs + a.args
        ps = [[x.arg, "posonly" if x in a.posonlyargs else "pos", i >= len(pos) - len(a.defaults)] for i, x in enumerate(pos)]
        if bound:
            if not ps:
                return None
            ps = ps[1:]
        if a.vararg:
            ps.append([a.vararg.arg, "var", True])
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            ps.append([x.arg, "kw", d is not None])
        if a.kwarg:
            ps.append([a.kwarg.arg, "varkw", True])
        return ps

    def class_params(self, m, c):
        bs = self.bases(m, c)
        if bs is None or c.keywords:
            return None
        for x in [(m, c)] + bs:
            if x is None:
                continue
            mm, cc = x
            for d in cc.body:
                if isinstance(d, ast.FunctionDef) and d.name == "__new__":
                    return None
            for d in cc.body:
                if isinstance(d, ast.FunctionDef) and d.name == "__init__":
                    return None if d.decorator_list else self.params(mm, d, True)
            dec = [d for d in cc.decorator_list if self.deco(d) == "dataclass"]
            nt = any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in cc.bases)
            if dec or nt:
                if dec and isinstance(dec[0], ast.Call) and any(k.arg in ("init", "kw_only", None) for k in dec[0].keywords):
                    return None
                if bs and not nt:
                    return None
                ps = []
                for s in cc.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        an = ast.unparse(s.annotation)
                        if "ClassVar" in an:
                            continue
                        if "InitVar" in an or "KW_ONLY" in an:
                            return None
                        dv = s.value is not None
                        if isinstance(s.value, ast.Call) and self.deco(s.value) == "field":
                            ks = {k.arg for k in s.value.keywords}
                            if ks & {"init", "kw_only"} or None in ks:
                                return None
                            dv = bool(ks & {"default", "default_factory"})
                        ps.append([s.target.id, "pos", dv])
                return ps
            if cc.decorator_list:
                return None
        return [] if not any(x is None for x in bs) else None

    def target(self, m, call):
        """(description, params) of the callee, or None."""
        r = self.pkg.resolve(m, call.func)
        if r is not None:
            if r[0] == "def":
                f = r[2]
                if isinstance(f, ast.Lambda):
                    return ("the lambda", self.params(r[1], f, False))
                if f.decorator_list:
                    return None
                return (f"{r[1].name}.{f.name}", self.params(r[1], f, False))
            if r[0] == "class":
                ps = self.class_params(r[1], r[2])
                return None if ps is None else (r[2].name, ps)
            if r[0] == "lib" and not r[1].startswith("builtins.") and not self.optional(m, call.func):
                a = self.api.ask(r[1])
                if a.get("known") and a.get("exists") and a.get("sig") is not None and not a.get("method"):
                    return (r[1], a["sig"])
            return None
        if isinstance(call.func, ast.Attribute):
            t = self.type_of(m, call.func.value)
            if t is None:
                return None
            nm = call.func.attr
            if t[0] == "lib":
                a = self.api.ask(t[1] + "." + nm)
                if a.get("known") and a.get("exists") and a.get("sig") and a["sig"][0][0] == "self":
                    return (t[1] + "." + nm, a["sig"][1:])
                return None
            bs = self.bases(t[1], t[2])
            if bs is None:
                return None
            over = [x for x in ast.walk(t[2]) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == nm]
            if over:
                return None
            for x in [(t[1], t[2])] + [b for b in bs if b]:
                mm, cc = x
                for d in cc.body:
                    if isinstance(d, ast.FunctionDef) and d.name == nm:
                        ds = [self.deco(y) for y in d.decorator_list]
                        if ds == ["staticmethod"]:
                            return (f"{cc.name}.{nm}", self.params(mm, d, False))
                        if ds not in ([], ["classmethod"]):
                            return None
                        ps = self.params(mm, d, True)
                        return None if ps is None else (f"{cc.name}.{nm}", ps)
        return None

    def calls(self):
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call) or handled(m, n, {"TypeError"}):
                    continue
                t = self.target(m, n)
                if t is None or t[1] is None:
                    continue
                self.n["calls"] += 1
                why = bind(n, t[1])
                if why:
                    q = m.scope(n).qual()
                    self.rep.bad(f"{m.name}:{q}:call:{t[0]}", f"call of {t[0]}: {why}", m.where(n))

    def unpacking(self):
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)):
                    continue
                for t in n.targets:
                    if not isinstance(t, (ast.Tuple, ast.List)):
                        continue
                    k = self.returned(m, n.value)
                    if k is None:
                        continue
                    star = any(isinstance(x, ast.Starred) for x in t.elts)
                    self.n["calls"] += 1
                    if (len(t.elts) != k) if not star else len(t.elts) - 1 > k:
                        self.rep.bad(f"{m.name}:{m.scope(n).qual()}:unpack:{ast.unparse(n.value.func)}", f"{ast.unparse(n.value.func)} returns {k} values, unpacked into {len(t.elts)}", m.where(n))

    def returned(self, m, call):
        r = self.pkg.resolve(m, call.func)
        f = None
        if r is not None and r[0] == "def" and isinstance(r[2], ast.FunctionDef) and not r[2].decorator_list:
            f = r[2]
        elif r is not None and r[0] == "lib":
            a = self.api.ask(r[1])
            return a.get("ret") if a.get("known") else None
        elif r is None and isinstance(call.func, ast.Attribute):
            t = self.type_of(m, call.func.value)
            if t is not None and t[0] == "inst" and not t[2].bases:
                for d in t[2].body:
                    if isinstance(d, ast.FunctionDef) and d.name == call.func.attr and not d.decorator_list:
                        f = d
        if f is None:
            return None
        ks = set()
        todo = list(f.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return):
                if not isinstance(n.value, ast.Tuple) or any(isinstance(x, ast.Starred) for x in n.value.elts):
                    return None
                ks.add(len(n.value.elts))
            todo += list(ast.iter_child_nodes(n))
        return ks.pop() if len(ks) == 1 else None


def bind(call, ps):
    """Why the call does not match the parameters, or None."""
    names = [p[0] for p in ps if p[1] in ("posonly", "pos")]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(not isinstance(a, ast.Starred) for a in call.args)
    var = any(p[1] == "var" for p in ps)
    if npos > len(names) and not var:
        return f"{npos} positional arguments given, at most {len(names)} taken"
    given = set(names[:npos])
    varkw = any(p[1] == "varkw" for p in ps)
    okkw = {p[0] for p in ps if p[1] in ("pos", "kw")}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg not in okkw and not varkw:
            return f"unknown keyword argument {k.arg}"
        if k.arg in given and k.arg in okkw and not star:
            return f"argument {k.arg} given twice"
        given.add(k.arg)
    if not star and not dstar:
        miss = [p[0] for p in ps if p[1] in ("pos", "posonly", "kw") and not p[2] and p[0] not in given]
        if miss:
            return "missing argument(s) " + ", ".join(miss)
    return None


# ------------------------------------------------------------------ names bound on no path to their use
class Flow:
    """Forward dataflow of the set of names that may be bound, per function and for the module body."""

    def __init__(self, N, m):
        self.N, self.m = N, m

    def run(self):
        m = self.m
        self.scope(m.tree.body, m.root, set())
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = n.args
                start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                self.scope(n.body, m.scope_of[n], start)
            elif isinstance(n, ast.ClassDef):
                self.scope(n.body, m.scope_of[n], set())

    def scope(self, body, sc, start):
        self.sc = sc
        # names with a binding outside the flow (nonlocal/global writers elsewhere) are not judged
        self.skip = set(sc.globals) | set(sc.nonlocals)
        for k in self.descend(sc):
            self.skip |= {x for x in k.nonlocals} | ({x for x in k.globals} if sc.kind == "module" else set())
        self.seen = set()
        self.loops = []
        self.block(body, set(start))

    def descend(self, sc):
        for k in sc.kids:
            yield k
            yield from self.descend(k)

    def block(self, stmts, b):
        """May-bound names after the block; None if it never completes."""
        for s in stmts:
            if b is None:
                return None
            b = self.stmt(s, b)
        return b

    def join(self, *bs):
        bs = [b for b in bs if b is not None]
        return set().union(*bs) if bs else None

    def targets(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def expr(self, e, b):
        if e is None:
            return b
        m = self.m
        new = set(b)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                new.add(n.target.id)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                # evaluated here only if no function body lies in between
                c, deferred = n, False
                while c is not e:
                    p = m.parent[c]
                    if isinstance(p, ast.Lambda) and c is p.body:
                        deferred = True
                        break
                    c = p
                if deferred:
                    continue
                sc, bs = m.scope(n).lookup(n.id)
                if sc is self.sc and n.id not in new and n.id not in self.skip and n not in self.N.ann[m.name]:
                    if self.sc.kind != "function" and (hasattr(builtins, n.id) or (self.sc.kind == "class" and self.sc.parent.lookup(n.id)[0] is not None)):
                        continue
                    if handled(m, n, {"NameError", "UnboundLocalError"}) or (n.id, self.sc.qual()) in self.seen or n.id in DUNDER:
                        continue
                    self.seen.add((n.id, self.sc.qual()))
                    if not any(self.N.live(m, x) for x in bs):
                        continue            # reported as never bound
                    self.N.rep.bad(f"{m.name}:{self.sc.qual()}:unbound:{n.id}", f"{n.id} is bound on no path reaching this use", m.where(n))
        return new

    def stmt(self, s, b):
        E = self.expr
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                b = E(d, b)
            return b | {s.name}
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                b = E(d, b)
            return b | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return b | {a.asname or a.name.split(".")[0] for a in s.names}
        if isinstance(s, ast.Assign):
            b = E(s.value, b)
            for t in s.targets:
                b = E(t, b) | self.targets(t)
            return b
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                ld = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
                self.m.parent[ld] = s
                b = E(ld, b)
            else:
                b = E(s.target, b)
            return E(s.value, b)
        if isinstance(s, ast.AnnAssign):
            b = E(s.value, b)
            b = E(s.target, b)
            return b | self.targets(s.target) if s.value is not None else b
        if isinstance(s, ast.Return):
            E(s.value, b)
            return None
        if isinstance(s, ast.Raise):
            E(s.exc, b), E(s.cause, b)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                (self.loops[-1]["brk"] if isinstance(s, ast.Break) else self.loops[-1]["cont"]).append(b)
            return None
        if isinstance(s, ast.If):
            if ast.unparse(s.test).split(".")[-1] == "TYPE_CHECKING":
                return self.join(b, self.block(s.orelse, set(b)))
            b = E(s.test, b)
            return self.join(self.block(s.body, set(b)), self.block(s.orelse, set(b)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                t0 = s.test
                entry = b
            else:
                b = E(s.iter, b)
                t0, entry = None, b
            # names bound anywhere in the body may be bound at its start from an earlier iteration
            later = set()
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and self.m.scope(n) is self.sc:
                    later.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    later |= {a.asname or a.name.split(".")[0] for a in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    later.add(n.name)
            self.loops.append(dict(brk=[], cont=[]))
            if t0 is not None:
                first = E(t0, entry)
                out = self.block(s.body, first | later)
            else:
                E(s.target, entry | self.targets(s.target))
                # first iteration judged precisely: a name only bound later in the body is unbound here unless an earlier iteration bound it
                out = self.block(s.body, entry | self.targets(s.target) | self.loop_carried(s, later))
            L = self.loops.pop()
            forever = t0 is not None and isinstance(t0, ast.Constant) and t0.value
            norm = None if forever else self.join(entry, out, *L["cont"])
            norm = self.block(s.orelse, set(norm)) if norm is not None else None
            return self.join(norm, *L["brk"])
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                b = E(i.context_expr, b)
                if i.optional_vars is not None:
                    b = E(i.optional_vars, b) | self.targets(i.optional_vars)
            r = self.block(s.body, set(b))
            return r if r is not None else None
        if isinstance(s, ast.Try):
            body = self.block(s.body, set(b))
            mid = set(b)
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        mid.add(x.id)
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        mid |= {a.asname or a.name.split(".")[0] for a in x.names}
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        mid.add(x.name)
            outs = [self.block(s.orelse, set(body)) if body is not None else None]
            for h in s.handlers:
                hb = E(h.type, mid) | ({h.name} if h.name else set())
                o = self.block(h.body, set(hb))
                if o is not None and h.name:
                    o = o - {h.name}
                outs.append(o)
            r = self.join(*outs)
            if s.finalbody:
                f = self.block(s.finalbody, set(mid) | (r or set()))
                if f is None:
                    return None
                return None if r is None else r | (f - mid) | {x for x in f if x in r}
            return r
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    b = b - {t.id}
                else:
                    b = E(t, b)
            return b
        if isinstance(s, ast.Match):
            b = E(s.subject, b)
            outs = [b]
            for c in s.cases:
                cb = set(b)
                for n in ast.walk(c.pattern):
                    for f in ("name", "rest"):
                        if getattr(n, f, None):
                            cb.add(getattr(n, f))
                if c.guard is not None:
                    cb = E(c.guard, cb)
                outs.append(self.block(c.body, cb))
            return self.join(*outs)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                b = E(c, b)
        return b

    def loop_carried(self, s, later):
        return later


# ------------------------------------------------------------------ faults of the interpretation
KINDS = {"NameError", "UnboundLocalError", "unbound", "AttributeError", "TypeError", "import", "NoneAttribute", "NoneCall", "NoneSubscript", "NoneIteration", "NoneLen", "NoneOperand", "NoneForm", "NoneSpace", "NoneVector", "ValueError"}


def kind_of(e):
    return strval(e.data[0]) if isinstance(e.data[0], T.P) else str(e.data[0])


def report_faults(rep, evs, label):
    n = 0
    for e, g in evs:
        k = kind_of(e)
        if k not in KINDS or (k == "ValueError" and "unpack" not in str(e.data[1] if len(e.data) > 1 else "") + (strval(e.data[1]) or "" if len(e.data) > 1 and isinstance(e.data[1], T.P) else "")):
            continue
        if g == ZERO:
            continue
        n += 1
        d = (strval(e.data[1]) if len(e.data) > 1 and isinstance(e.data[1], T.P) else "") or ""
        fn = str(e.where).rsplit(":", 1)[0]
        rep.bad(f"fault:{k}:{d}@{fn}", f"{label}: {k} {d}", e.where)
    return n


def every(evs, pre=None):
    for e in evs:
        g = e.guard if pre is None else pre * e.guard
        if e.kind == "fault":
            yield e, g
        if e.body:
            yield from every(e.body, g)


def driver_job(rep, mod, label, avail, force):
    from . import checks_drv as D
    from .interp import AlwaysRaises
    from .term import ONE, const
    d = D.Drv(mod, avail)
    f = d.get("solve_problem")
    if f is None:
        raise Unsupported("solve_problem not found")
    if force is not None and d.get("SOLVER_TYPE") is not None:
        d.set("SOLVER_TYPE", force)
    k = 0
    try:
        d.A.call(f, ONE)
    except AlwaysRaises:
        pass
    k = report_faults(rep, every(d.A.st.ev), f"{mod}, backend {label}")
    rep.saw({mod + ".solve_problem"})
    if not k:
        rep.ok(f"{mod}:{label}")


def mesh_job(rep, name):
    from . import checks_mesh as M
    ps = [p for p, _ in M.generators()[name][0]]
    k = 0
    kw = {"n_ref": 2} if "n_ref" in ps and M.needs_concrete(name) else {}
    r = M.Run(name, kw or None)
    k += report_faults(rep, [(e, g) for e, g, _ in r.flat() if e.kind == "fault"], name)
    rep.saw({f"{M.M}.{name}"})
    if not k:
        rep.ok(f"meshes.{name}")


def time_job(rep):
    from . import checks_time as C
    k = 0
    A = C.make()
    for q in range(4):
        for qs in range(4):
            C.elmat(A, q, qs)
    k += report_faults(rep, every(A.st.ev), "precomp_time_int")
    rep.saw(A.I.touched)
    if not k:
        rep.ok("precomp_time_int")


def gmres_job(rep):
    from . import checks_gmres as G
    from .term import ONE, const
    k = 0
    for kw in ({}, {"printrates": ZERO}, {"tol": const(1), "reltol": const(1), "restart": const(5)}):
        r = G.Run(**kw)
        k += report_faults(rep, every(r.A.st.ev), "get_gmres_solution")
        rep.saw(r.A.I.touched)
    if not k:
        rep.ok("gmres")


def st_job(rep, q, qs, N, jumps, wp, fitted):
    from . import checks_st as C
    from .interp import AlwaysRaises
    from .term import ONE, const
    i = C.Inst(q, qs, N, jumps=jumps, wp=wp, fitted=fitted)
    lab = C.cfgname(q, qs, N, jumps=jumps, wp=wp, fitted=fitted)
    tot = [0]

    def step(nm, f):
        st0 = C.clone(i)
        n0 = len(i.A.st.ev)

        def one():
            try:
                f()
            except AlwaysRaises:
                pass
            k = report_faults(rep, every(i.A.st.ev[n0:]), f"SpaceTime.{nm}")
            tot[0] += k
            if not k:
                rep.ok(f"{lab}:{nm}")
        rep.guard(f"{lab}:{nm}", one)
        if tot[0]:
            C.restore(i, st0)
    k = report_faults(rep, every(i.A.st.ev), "SpaceTime()")
    if k:
        return
    for nm, f in C.alphabet(i).items():
        step(nm, f)
    first, gen = C.slab_solvers(i.attr("fes_p"))
    step("set_solver_first_slab", lambda: i.m("set_solver_first_slab", first))
    step("set_solver_slab", lambda: i.m("set_solver_slab", gen))
    fes = i.attr("fes")
    v = lambda n, sp=None: C.vec_of(i, n, sp if sp is not None else fes)
    for nm in ("apply_spacetime_matrix", "pre_time_marching", "pre_time_marching_improved"):
        step(nm, lambda nm=nm: i.m(nm, v("in" + nm), v("out" + nm)))
    fc = i.attr("fes_coarse")
    if fc is not None and not C.missing(fc):
        step("set_solver_coarse", lambda: i.m("set_solver_coarse", T.Atom("slabsolver", "coarse", fc).P()))
        step("prolongation", lambda: i.m("prolongation", v("c1", fc), v("f1")))
        step("restriction", lambda: i.m("restriction", v("c2", fc), v("f2")))
        step("q_op", lambda: i.m("q_op", v("a3"), v("b3")))
        step("pre_twolvl", lambda: i.m("pre_twolvl", v("a4"), v("b4")))
    step("measured_errors", lambda: i.m("measured_errors", v("u1")))
    step("measured_errors(verbose)", lambda: i.m("measured_errors", v("u2"), verbose=ONE))
    for nm in ("plot", "plot_error"):
        step(nm, lambda nm=nm: i.m(nm, v("u" + nm), n_space=const(2), n_time_subdiv=const(2)))
    step("plot(abs_val)", lambda: i.m("plot", v("u3"), n_space=const(2), n_time_subdiv=const(2), abs_val=ONE))
    step("plot_para_view", lambda: i.m("plot_para_view", v("u4")))
    rep.saw(i.A.I.touched)


def lint(rep):
    N = Names(rep)
    for nm in ("names", "imports", "attributes", "calls", "unpacking"):
        k = len(rep.viol)
        getattr(N, nm)()
        if len(rep.viol) == k:
            rep.ok(nm)
    N.api.close()
    rep.saw({m.path for m in N.pkg.mods.values()})
    rep.notes.append(", ".join(f"{v} {k}" for k, v in N.n.items()) + " resolved")
    unk = sorted(p for p, r in N.api.cache.items() if not r.get("known") and p.split(".")[0] not in UNKNOWN_LIBS)
    if unk:
        rep.notes.append("library names not inspected: " + ", ".join(unk)[:300])


def c60(rep):
    rep.guard("names", lint, rep)
    from . import checks_drv as D
    from . import checks_mesh as M
    jobs = [("precomp_time_int", time_job, ()), ("gmres", gmres_job, ())]
    for mod in D.drivers():
        for b in D.backends(mod):
            jobs.append((f"{mod}:{b[0]}", driver_job, (mod,) + b))
    for n in M.generators():
        jobs.append((f"meshes.{n}", mesh_job, (n,)))
    cfg = [(1, 1, None), (1, 0, 1)] if rep.tier != "thorough" else [(1, 1, None), (2, 1, None), (1, 0, 1), (3, 3, 3)]
    for q, s, N in cfg:
        for jumps, wp, fitted in ((False, True, True), (True, False, False)) + (((True, True, True), (False, False, False)) if rep.tier == "thorough" else ()):
            jobs.append((f"SpaceTime:{q}{s}{N}{jumps}{wp}{fitted}", st_job, (q, s, N, jumps, wp, fitted)))
    rep.pmap(jobs)


CHECKS = {"C60": c60}
