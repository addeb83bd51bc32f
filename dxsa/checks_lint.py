"""C15 (rank-dependent control), C60: whole-package rules over the syntax trees."""
from __future__ import annotations

import ast
import builtins
import json
import os
import subprocess

from .run import package_sources
from .term import Unsupported

VENV = "/opt/venv/bin/python"


# ------------------------------------------------------------------ scopes
class Scope:
    """A lexical scope with the names bound in it."""

    def __init__(self, node, parent, mod):
        self.node, self.parent, self.mod = node, parent, mod
        self.bound = {}          # name -> list of binding nodes
        self.kids = []
        self.globals = set()
        self.nonlocals = set()

    @property
    def kind(self):
        return {ast.Module: "module", ast.ClassDef: "class", ast.FunctionDef: "function", ast.AsyncFunctionDef: "function", ast.Lambda: "function"}.get(type(self.node), "comp")

    def lookup(self, name):
        """(scope, bindings) visible for a load of `name` here."""
        s, first = self, True
        while s is not None:
            if name in s.globals:
                s = s.root()
                return (s, s.bound[name]) if name in s.bound else (None, None)
            if (s.kind != "class" or first) and name in s.bound and name not in s.nonlocals:
                return s, s.bound[name]
            s, first = s.parent, False
        return None, None

    def root(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s

    def qual(self):
        ns = []
        s = self
        while s is not None and s.parent is not None:
            ns.append(getattr(s.node, "name", "<" + s.kind + ">"))
            s = s.parent
        return ".".join(reversed(ns))


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.scope_of = {}
        self.parent = {}
        for p in ast.walk(tree):
            for c in ast.iter_child_nodes(p):
                self.parent[c] = p
        self.root = self.build(tree, None)
        self.imports = {}

    def build(self, node, parent):
        sc = Scope(node, parent, self)
        if parent is not None:
            parent.kids.append(sc)
        self.scope_of[node] = sc
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                sc.bound.setdefault(x.arg, []).append(x)
            body = node.body if isinstance(node.body, list) else [node.body]
        elif isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            body = [g.target for g in node.generators] + [c for g in node.generators for c in g.ifs] + ([node.elt] if hasattr(node, "elt") else [node.key, node.value]) + [g.iter for g in node.generators[1:]]
        else:
            body = node.body
        for b in body:
            self.visit(b, sc)
        return sc

    def bind(self, sc, name, node):
        sc.bound.setdefault(name, []).append(node)

    def visit(self, n, sc):
        self.scope_of.setdefault(n, sc)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.bind(sc, n.name, n)
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(d, sc)
            self.build(n, sc)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                self.visit(d, sc)
            self.build(n, sc)
            return
        if isinstance(n, ast.ClassDef):
            self.bind(sc, n.name, n)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, sc)
            self.build(n, sc)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            self.visit(n.generators[0].iter, sc)
            self.build(n, sc)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != "*":
                    self.bind(sc, al.asname or al.name.split(".")[0], n)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            t = sc
            self.bind(t, n.id, n)
            return
        if isinstance(n, ast.NamedExpr):
            t = sc
            while t.kind == "comp":
                t = t.parent
            self.bind(t, n.target.id, n)
            self.scope_of.setdefault(n.target, t)
            self.visit(n.value, sc)
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.bind(sc, n.name, n)
        if isinstance(n, ast.Global):
            sc.globals |= set(n.names)
            r = sc.root()
            for x in n.names:
                r.bound.setdefault(x, []).append(n)
            return
        if isinstance(n, ast.Nonlocal):
            sc.nonlocals |= set(n.names)
            return
        if isinstance(n, ast.MatchAs) and n.name:
            self.bind(sc, n.name, n)
        if isinstance(n, ast.AnnAssign):
            self.visit(n.target, sc)
            if n.value:
                self.visit(n.value, sc)
            return                      # annotations are checked separately
        for c in ast.iter_child_nodes(n):
            self.visit(c, sc)

    def scope(self, n):
        while n not in self.scope_of:
            n = self.parent[n]
        return self.scope_of[n]

    def where(self, n):
        sc = self.scope(n)
        q = sc.qual()
        return f"{self.path}{'::' + q if q else ''}:{getattr(n, 'lineno', '?')}"


class Package:
    def __init__(self):
        self.mods = {m: Module(m, p, t) for m, (p, t) in package_sources().items()}
        self.methods = {}         # method name -> [(module, class, def)]
        self.classes = {}         # (module, class) -> ClassDef
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes[(m.name, n.name)] = n
                    for d in n.body:
                        if isinstance(d, ast.FunctionDef):
                            self.methods.setdefault(d.name, []).append((m, n, d))

    def functions(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    yield m, n

    # -------------------------------------------------------- resolution
    def resolve(self, m, e, depth=0):
        """What an expression names: ('lib', dotted path) | ('def', module, node) | ('class', module, node) | ('mod', name) | None."""
        if depth > 6:
            return None
        if isinstance(e, ast.Name):
            sc, bs = m.scope(e).lookup(e.id)
            if sc is None:
                return ("lib", "builtins." + e.id) if hasattr(builtins, e.id) else None
            return self.binding(sc.mod, bs, e.id, depth)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, depth + 1)
            if b is None:
                return None
            if b[0] == "lib":
                return ("lib", b[1] + "." + e.attr)
            if b[0] == "mod":
                return self.member(b[1], e.attr, depth)
            return None
        return None

    def member(self, modname, name, depth=0):
        if modname + "." + name in self.mods:
            return ("mod", modname + "." + name)
        m = self.mods.get(modname)
        if m is None or name not in m.root.bound:
            return None
        return self.binding(m, m.root.bound[name], name, depth + 1)

    def binding(self, m, bs, name, depth):
        real = [b for b in bs if not isinstance(b, ast.Global)]
        if len(real) != 1:
            # e.g. try: import x / except: x = None
            imp = [b for b in real if isinstance(b, (ast.Import, ast.ImportFrom))]
            if len(imp) == 1 and all(b in imp or self.none_assign(m, b) for b in real):
                real = imp
            else:
                return None
        b = real[0]
        if isinstance(b, ast.Import):
            for al in b.names:
                if (al.asname or al.name.split(".")[0]) == name:
                    p = al.name if al.asname else al.name.split(".")[0]
                    return ("mod", p) if p in self.mods else ("lib", p)
        if isinstance(b, ast.ImportFrom):
            base = self.base(m, b)
            for al in b.names:
                if (al.asname or al.name) == name:
                    if base.split(".")[0] == "dxss":
                        return self.member(base, al.name, depth)
                    return ("lib", base + "." + al.name)
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return ("def", m, b)
        if isinstance(b, ast.ClassDef):
            return ("class", m, b)
        if isinstance(b, ast.Name):
            p = m.parent.get(b)
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is b:
                if isinstance(p.value, (ast.Name, ast.Attribute)):
                    return self.resolve(m, p.value, depth + 1)
                if isinstance(p.value, ast.Lambda):
                    return ("def", m, p.value)
        return None

    def none_assign(self, m, b):
        p = m.parent.get(b)
        return isinstance(b, ast.Name) and isinstance(p, ast.Assign) and isinstance(p.value, ast.Constant) and p.value.value is None

    def base(self, m, b):
        if not b.level:
            return b.module or ""
        pk = m.name.split(".")
        pk = pk[: len(pk) - b.level] if m.name in self.mods and not m.path.endswith("__init__.py") else pk[: len(pk) - b.level + 1]
        return ".".join(pk + ([b.module] if b.module else []))

    def callee(self, m, call):
        """In-package functions a call may reach (resolved by scope, self, or unique method name)."""
        r = self.resolve(m, call.func)
        if r is not None:
            if r[0] == "def":
                return [(r[1], r[2])]
            if r[0] == "class":
                return [(r[1], d) for d in r[2].body if isinstance(d, ast.FunctionDef) and d.name == "__init__"]
            return []
        if isinstance(call.func, ast.Attribute):
            return [(mm, d) for mm, c, d in self.methods.get(call.func.attr, [])]
        return []


# ------------------------------------------------------------------ C15: rank-dependent control
COLL_LIB = {"create_mesh", "refine", "refine_plaza", "create_unit_interval", "create_unit_square", "create_unit_cube", "create_box", "create_interval", "create_rectangle",
            "model_to_mesh", "read_from_msh", "XDMFFile", "VTKFile", "VTXWriter", "FunctionSpace", "functionspace", "VectorFunctionSpace", "assemble_matrix", "create_matrix", "create_vector",
            "locate_dofs_topological", "locate_dofs_geometrical", "create_submesh", "meshtags_from_entities", "evaluate_function_at_points", "LinearProblem"}
COLL_METH = {"allreduce", "Allreduce", "bcast", "Bcast", "barrier", "Barrier", "gather", "Gather", "allgather", "Allgather", "scatter", "Scatter", "reduce", "Reduce", "alltoall",
             "Alltoall", "scan", "exscan", "Dup", "Split", "scatter_forward", "scatter_reverse", "scatter_rev", "ghostUpdate", "assemble", "assemblyBegin", "assemblyEnd", "read_mesh", "read_meshtags", "write_mesh", "write_function",
             "write_meshtags", "read_geometry_data", "read_topology_data", "create_connectivity", "create_entities", "createVecs", "createVecRight", "createVecLeft", "interpolate", "setOperators", "setUp", "solve"}
NOT_MPI = {"numpy", "meshio", "scipy", "gmsh", "matplotlib", "ufl", "math", "sympy", "builtins", "itertools", "functools", "os", "sys", "time", "warnings", "dataclasses", "packaging", "importlib", "pypardiso", "resource", "copy", "pathlib", "basix", "typing"}


class Ranks:
    """Flow of the process rank into values, and of those values into control."""

    def __init__(self, pkg):
        self.pkg = pkg
        self.names = {}            # scope -> names that may hold the rank or a value computed from it
        self.attrs = set()
        self.returns = set()       # functions that return such a value
        self.coll = set()          # functions that run a collective operation
        for _ in range(6):
            if not self.step():
                break
        for _ in range(8):
            n = len(self.coll)
            for m, f in pkg.functions():
                if f not in self.coll and any(self.collective(m, c) for c in self.calls_in(f)):
                    self.coll.add(f)
            if len(self.coll) == n:
                break

    @staticmethod
    def calls_in(f):
        todo = list(f.body) if isinstance(f.body, list) else [f.body]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, ast.Call):
                yield n
            todo.extend(ast.iter_child_nodes(n))

    def step(self):
        before = (sum(len(v) for v in self.names.values()), len(self.returns), len(self.attrs))
        for m in self.pkg.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    if self.tainted(m, n.value):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            self.taint(m, t)
                elif isinstance(n, ast.Return) and n.value is not None and self.tainted(m, n.value):
                    sc = m.scope(n)
                    self.returns.add(sc.node)
                elif isinstance(n, ast.Lambda) and self.tainted(m, n.body):
                    self.returns.add(n)
                elif isinstance(n, ast.Call):
                    for mm, d in self.pkg.callee(m, n):
                        if isinstance(d, ast.Lambda):
                            continue
                        ps = d.args.posonlyargs + d.args.args
                        off = 1 if ps and ps[0].arg in ("self", "cls") else 0
                        for k, a in enumerate(n.args):
                            if not isinstance(a, ast.Starred) and k + off < len(ps) and self.tainted(m, a):
                                self.names.setdefault(mm.scope_of[d], set()).add(ps[k + off].arg)
                        for kw in n.keywords:
                            if kw.arg and self.tainted(m, kw.value):
                                self.names.setdefault(mm.scope_of[d], set()).add(kw.arg)
        return (sum(len(v) for v in self.names.values()), len(self.returns), len(self.attrs)) != before

    def taint(self, m, t):
        if isinstance(t, ast.Name):
            sc, _ = m.scope(t).lookup(t.id)
            self.names.setdefault(sc or m.scope(t), set()).add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.taint(m, x)
        elif isinstance(t, ast.Attribute):
            self.attrs.add(t.attr)

    def tainted(self, m, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ("rank", "Get_rank", "getRank") and not self.numpyish(m, n):
                return True
            if isinstance(n, ast.Attribute) and n.attr in self.attrs:
                return True
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                sc, _ = m.scope(n).lookup(n.id)
                if sc is not None and n.id in self.names.get(sc, ()):
                    # broadcast results are equal on all processes
                    return True
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("bcast", "allreduce", "allgather"):
                    return False
                if any(d in self.returns for _, d in self.pkg.callee(m, n)):
                    return True
        return False

    def numpyish(self, m, n):
        r = self.pkg.resolve(m, n)
        return r is not None and r[0] == "lib" and r[1].split(".")[0] in NOT_MPI

    def collective(self, m, call):
        """Name of the collective operation a call runs, or None."""
        r = self.pkg.resolve(m, call.func)
        if r is not None and r[0] == "lib":
            p = r[1].split(".")
            if p[0] in NOT_MPI:
                return None
            return r[1] if p[-1] in COLL_LIB or p[-1] in COLL_METH and p[0] in ("mpi4py", "petsc4py") else None
        for mm, d in self.pkg.callee(m, call):
            if d in self.coll:
                return getattr(d, "name", "lambda")
        if r is None and isinstance(call.func, ast.Attribute) and call.func.attr in COLL_METH:
            root = call.func.value
            while isinstance(root, (ast.Attribute, ast.Call, ast.Subscript)):
                root = root.func if isinstance(root, ast.Call) else root.value
            if isinstance(root, ast.Name) and self.serial(m, root):
                return None
            return "." + call.func.attr
        return None

    def serial(self, m, name):
        """Local variable holding an object of a library without processes."""
        sc, bs = m.scope(name).lookup(name.id)
        for b in bs or []:
            p = m.parent.get(b)
            if isinstance(p, ast.Assign) and isinstance(p.value, ast.Call):
                r = self.pkg.resolve(m, p.value.func)
                if r is not None and r[0] == "lib" and r[1].split(".")[0] in NOT_MPI:
                    return True
            if isinstance(b, ast.Name) and isinstance(p, ast.Assign) and isinstance(p.value, ast.Constant) and isinstance(p.value.value, str):
                return True
        return False


def ends(stmts):
    """Does a block never fall through?"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
            return True
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
            return True
    return False


def rank_guards(rep):
    pkg = Package()
    R = Ranks(pkg)
    nf = ng = 0

    def colls(m, n):
        """Collective operations an expression or statement runs, in order."""
        out = []
        for c in ast.walk(n):
            if isinstance(c, ast.Call):
                k = R.collective(m, c)
                if k:
                    out.append((k, c))
        return out

    def block(m, stmts, guard):
        """guard: None or the node whose rank-dependent value decides whether the block runs."""
        nonlocal ng
        for s in stmts:
            guard = stmt(m, s, guard) or guard

    def expr(m, e, guard):
        if guard is not None:
            for k, c in colls(m, e):
                rep.bad(f"rank-guard:{m.scope(c).qual()}:{k}", f"collective operation {k} runs only on processes selected by the rank (condition at line {guard.lineno})", m.where(c))
            return
        for n in ast.walk(e):
            if isinstance(n, ast.IfExp) and R.tainted(m, n.test):
                a, b = [k for k, _ in colls(m, n.body)], [k for k, _ in colls(m, n.orelse)]
                if a != b:
                    expr(m, n.body, n.test)
                    expr(m, n.orelse, n.test)
            elif isinstance(n, ast.BoolOp):
                for k, v in enumerate(n.values[:-1]):
                    if R.tainted(m, v):
                        for w in n.values[k + 1:]:
                            expr(m, w, v)
                        break

    def stmt(m, s, guard):
        """Returns a guard for the statements after s, if s may leave the block on some ranks only."""
        nonlocal ng
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return None
        if isinstance(s, (ast.If, ast.While)):
            t = R.tainted(m, s.test)
            expr(m, s.test, guard)
            if t:
                ng += 1
            if t and guard is None and isinstance(s, ast.If):
                a = [k for x in s.body for k, _ in colls(m, x)]
                b = [k for x in s.orelse for k, _ in colls(m, x)]
                if a == b and not ends(s.body) and not ends(s.orelse):
                    return None              # every process runs the same operations
            g = s.test if t else guard
            block(m, s.body, g)
            block(m, s.orelse, g)
            if t and (ends(s.body) != ends(s.orelse)):
                raises = all(isinstance(x, ast.Raise) for x in (s.body if ends(s.body) else s.orelse)[-1:])
                return None if raises else s.test
            return None
        if isinstance(s, (ast.For, ast.AsyncFor)):
            t = R.tainted(m, s.iter)
            expr(m, s.iter, guard)
            g = s.iter if t else guard
            block(m, s.body, g)
            block(m, s.orelse, guard)
            return None
        if isinstance(s, ast.Match):
            t = R.tainted(m, s.subject)
            for c in s.cases:
                block(m, c.body, s.subject if t else guard)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                expr(m, i.context_expr, guard)
            block(m, s.body, guard)
            return None
        if isinstance(s, ast.Try):
            block(m, s.body, guard)
            for h in s.handlers:
                block(m, h.body, guard)
            block(m, s.orelse, guard)
            block(m, s.finalbody, guard)
            return None
        expr(m, s, guard)
        return None

    for m in pkg.mods.values():
        block(m, m.tree.body, None)
        n0 = len(rep.viol)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nf += 1
                k = len(rep.viol)
                block(m, n.body, None)
                if len(rep.viol) == k:
                    rep.ok(f"{m.path}::{m.scope_of[n].qual()}: no rank-guarded collective")
                rep.saw([f"{m.path}::{m.scope_of[n].qual()}"])
    rep.notes.append(f"{nf} functions, {ng} rank-dependent conditions, {len(R.coll)} collective functions")


CHECKS = {}
