"""Transfer functions for builtins, numpy, sympy, petsc4py and friends.

Each library function is a summary: how it transforms abstract values and the
abstract store, and which events it emits.  Unknown library calls are opaque:
they yield a value number built from their operands plus an event.
"""
from __future__ import annotations

import ast
from fractions import Fraction as Fr

from . import term as T
from . import interp as X
from .interp import NONE, S, UNDEF, it, mkfam, mkseq, rep, seq_segs, strval, tup, upd, fam_read
from .term import (ONE, ZERO, Atom, P, Unsupported, as_int, cases, close_sum, const, eq0, fresh_idx, ite, lift, subst)

T.SORT.update(ext="num", partial="obj", prop="obj", form="obj", fspace="obj", subsp="obj", dofs="obj", view="obj",
              faulty="obj", bottom="obj", dcfielddef="obj", libobj="obj", cmobj="obj", cmfun="obj", static="obj",
              clsm="obj", super="obj", propsetter="obj", setprop="obj", fstr="obj", fmt="obj", nd="num", tabsel="obj",
              rep="obj", bopq="num", pyconst="obj", mesh="obj", oref="obj", optobj="obj")

MISSING = object()


def sig(spec, args, kw, what="call"):
    """Bind args/kw to 'a b=1 c=None' ; defaults are Python None -> MISSING."""
    names = [s.split("=")[0] for s in spec.split()]
    req = [s for s in spec.split() if "=" not in s]
    kw = dict(kw)
    out = []
    if len(args) > len(names):
        raise Arity(f"{what}: {len(args)} arguments given, at most {len(names)} accepted")
    for i, n in enumerate(names):
        if i < len(args):
            if n in kw:
                raise Arity(f"{what}: argument {n} given twice")
            out.append(args[i])
        elif n in kw:
            out.append(kw.pop(n))
        elif n in req:
            raise Arity(f"{what}: missing argument {n}")
        else:
            out.append(None)
    if kw:
        raise Arity(f"{what}: unexpected keyword {sorted(kw)}")
    return out


class Arity(Exception):
    pass


def is_none(v):
    return v is None or v.atom() is NONE.atom()


class Lib:
    FN: dict = {}
    METH: dict = {}

    def __init__(self):
        self.I = None
        self.available = {}       # optional module -> bool P
        self.intercepts = {}      # qualified function name -> handler
        self.opaque_calls = set()

    # ------------------------------------------------------------ modules
    def optional_module(self, name, st, I, node):
        for k, v in self.available.items():
            if name == k or name.startswith(k + "."):
                return v
        return None

    CONSTS = {
        "numpy.pi": lambda: T.sym("pi"), "math.pi": lambda: T.sym("pi"), "ufl.pi": lambda: T.sym("pi"),
        "sympy.pi": lambda: T.sym("pi"),
        "numpy.inf": lambda: T.sym("inf"), "math.inf": lambda: T.sym("inf"),
        "typing.TYPE_CHECKING": lambda: ZERO,
        "petsc4py.PETSc.NormType.N2": lambda: S("N2"),
    }

    REASONS = dict(CONVERGED_RTOL_NORMAL=1, CONVERGED_RTOL=2, CONVERGED_ATOL=3, CONVERGED_ITS=4, CONVERGED_ATOL_NORMAL=9,
                   CONVERGED_ITERATING=0, ITERATING=0, DIVERGED_NULL=-2, DIVERGED_MAX_IT=-3, DIVERGED_DTOL=-4,
                   DIVERGED_BREAKDOWN=-5, DIVERGED_BREAKDOWN_BICG=-6, DIVERGED_NONSYMMETRIC=-7, DIVERGED_INDEFINITE_PC=-8,
                   DIVERGED_NANORINF=-9, DIVERGED_INDEFINITE_MAT=-10, DIVERGED_PCSETUP_FAILED=-11)

    def modattr(self, mod, name):
        full = f"{mod}.{name}"
        f = self.CONSTS.get(full)
        if f is not None:
            return f()
        if name in ("rank", "size") and mod.endswith("COMM_WORLD"):
            return T.sym("mpi_" + name, "isym")
        if mod.endswith("KSP.ConvergedReason") and name in self.REASONS:
            return const(self.REASONS[name])
        return Atom("mod", full).P()

    # ------------------------------------------------------------ values
    def deref(self, v, st):
        """Content of array-like values; everything else unchanged."""
        a = v.atom()
        if a is None:
            return v
        if a.kind == "view":
            return self.view_get(a, st)
        if a.kind == "attr" and a.args[1] == "T":
            return v
        return v

    def deref_soft(self, v, st):
        return self.deref(v, st)

    def num(self, v, st):
        return self.deref(v, st)

    def view_get(self, a, st):
        ref = a.args[0].atom()
        v = self.I.hget(st, ref, "val")
        if v is None:
            raise Unsupported("array of an object without content")
        return v

    def tidy(self, v):
        return v

    def disjoint_update(self, ph, x0, x1, b, hi, m):
        return None

    def table_lookup(self, d, k, st, node):
        keys = [as_int(x) for x, _ in d.args[0]]
        if any(x is None for x in keys):
            return None
        return Atom("tabsel", d.P(), k).P()

    def intercept(self, f, args, kw, st, node):
        h = self.intercepts.get(f"{f.module}:{f.qual}")
        return h(f, args, kw, st, node) if h is not None else None

    def instantiate_hook(self, cid, args, kw, st, node):
        h = self.intercepts.get(f"class {cid}")
        return h(cid, args, kw, st, node) if h is not None else None

    # ------------------------------------------------------------ operators
    def isarr(self, v):
        a = v.atom()
        return a is not None and a.kind == "ref" and a.args[0] == "ndarray"

    def binop(self, op, a, b, st, node):
        I = self.I
        aa, ba = a.atom(), b.atom()
        for x in (aa, ba):
            if x is not None and x.kind == "faulty":
                return x.P()
        # user-defined operators
        for x, y, names in ((aa, b, X_OPS), (ba, a, X_ROPS)):
            if x is not None and x.kind == "ref" and x.args[0] in I.classes:
                m = I.find_method(x, names.get(type(op), ""))
                if m is not None:
                    return I.call(I.getattr(x.P(), names[type(op)], st, node), [y], {}, st, node)
        if isinstance(op, ast.Add):
            if aa is not None and ba is not None:
                if aa.kind in ("str", "fstr", "fmt") or ba.kind in ("str", "fstr", "fmt"):
                    if aa.kind == ba.kind == "str":
                        return S(aa.args[0] + ba.args[0])
                    parts = []
                    for z in (aa, ba):
                        parts += list(z.args) if z.kind == "fstr" else [z.P()]
                    return Atom("fstr", *parts).P()
                if aa.kind == ba.kind == "tuple":
                    return tup(*(aa.args + ba.args))
                if self.islist(aa) and self.islist(ba):
                    return I.new_list(st, mkseq(tuple(seq_segs(I.items(aa, st))) + tuple(seq_segs(I.items(ba, st)))), node)
            if self.islist(aa) or self.islist(ba) or (aa is not None and aa.kind in ("tuple", "str")) or (ba is not None and ba.kind in ("tuple", "str")):
                r = self.seq_concat(a, b, st, node)
                if r is not None:
                    return r
        if isinstance(op, ast.Mult):
            for x, y in ((aa, b), (ba, a)):
                if x is not None and x.kind in ("tuple",) and as_int(y) is not None:
                    return tup(*(x.args * max(as_int(y), 0)))
                if x is not None and x.kind == "str" and as_int(y) is not None:
                    return S(x.args[0] * max(as_int(y), 0))
                if self.islist(x):
                    n = I.lib.num(y, st)
                    segs = seq_segs(I.items(x, st))
                    return I.new_list(st, mkseq([rep(fresh_idx(n), n, segs)]), node)
        if isinstance(op, ast.Mod) and aa is not None and aa.kind in ("str",):
            return Atom("fstr", a, b).P()
        r = self.binop_dom(op, a, b, st, node)
        if r is not None:
            return r
        a, b = self.num(a, st), self.num(b, st)
        if self.isarr(a) or self.isarr(b):
            return self.nd_binop(op, a, b, st, node)
        for x in (a, b):
            if T.sort_of(x) == "obj":
                ax = x.atom()
                if ax is not None and ax.kind == "none":
                    return I.fault(st, "NoneOperand", node, type(op).__name__)
                if ax is not None and ax.kind in ("undef",):
                    return I.fault(st, "unbound", node)
                return self.obj_binop(op, a, b, st, node)
        return self.arith(op, a, b, st, node)

    def binop_dom(self, op, a, b, st, node):
        return None

    def obj_binop(self, op, a, b, st, node):
        return Atom("ext", "op." + type(op).__name__, (a, b), ()).P()

    def arith(self, op, a, b, st, node):
        I = self.I
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if b.const() == 0:
                return I.fault(st, "ZeroDivisionError", node)
            return a / b
        if isinstance(op, ast.Pow):
            n = as_int(b)
            if n is not None and abs(n) <= 16:
                return a ** n
            if b.const() == Fr(1, 2):
                return mksqrt(a)
            if a.const() == 1:
                return ONE
            return Atom("pow", a, b).P()
        if isinstance(op, ast.FloorDiv):
            return mkfloordiv(a, b)
        if isinstance(op, ast.Mod):
            return mkmodulo(a, b)
        if isinstance(op, ast.BitAnd):
            if T.is_bool(a) and T.is_bool(b):
                return a * b
            return Atom("band", *sorted((a, b), key=lambda p: p.key)).P()
        if isinstance(op, ast.BitOr):
            if T.is_bool(a) and T.is_bool(b):
                return a + b - a * b
            return Atom("bor", *sorted((a, b), key=lambda p: p.key)).P()
        if isinstance(op, ast.BitXor) and T.is_bool(a) and T.is_bool(b):
            return a + b - const(2) * a * b
        if isinstance(op, ast.MatMult):
            return Atom("matmul", a, b).P()
        I.unsup(f"operator {type(op).__name__}", node)

    def islist(self, a):
        return a is not None and a.kind == "ref" and a.args[0] == "list"

    def seq_concat(self, a, b, st, node):
        I = self.I
        for x in (a, b):
            xa = x.atom()
            if xa is None or not (self.islist(xa) or xa.kind in ("seq", "tuple")):
                return None
        return I.new_list(st, mkseq(tuple(seq_segs(I.iterate(a, st, node))) + tuple(seq_segs(I.iterate(b, st, node)))), node)

    def compare(self, op, a, b, st, node):
        aa, ba = a.atom(), b.atom()
        if aa is not None and ba is not None and aa.kind == ba.kind == "ref" and isinstance(op, (ast.Eq, ast.NotEq)):
            I = self.I
            if self.isarr(a) or self.isarr(b):
                return Atom("bopq", "arr" + type(op).__name__, a, b).P()
            if aa.args[0] in I.classes:
                c = I.classes[aa.args[0]]
                m = I.find_method(aa, "__eq__")
                if m is not None:
                    return I.call(I.getattr(a, "__eq__", st, node), [b], {}, st, node)
                if c.is_dc and aa.args[0] == ba.args[0]:
                    g = ONE
                    for n, _, _ in c.fields:
                        g = g * I.equal(I.hget(st, aa, n), I.hget(st, ba, n), st)
                    return g if isinstance(op, ast.Eq) else ONE - g
            if self.islist(aa) and self.islist(ba):
                g = I.equal(I.items(aa, st), I.items(ba, st), st)
                return g if isinstance(op, ast.Eq) else ONE - g
        return self.compare_dom(op, a, b, st, node)

    def compare_dom(self, op, a, b, st, node):
        return None

    def invert(self, v, st, node):
        if T.is_bool(v):
            return ONE - v
        return Atom("ext", "invert", (v,), ()).P()

    def truth(self, a, x, st):
        return Atom("truthy", x).P()

    # ------------------------------------------------------------ sequences
    def iterate(self, a, st, node):
        if a.kind == "ref" and a.args[0] == "ndarray":
            shape = self.shape(a, st)
            if shape is not None:
                n = shape[0]
                c = as_int(n)
                if c is not None and c <= 24:
                    out = []
                    for k in range(c):
                        # every row is an array of its own
                        self.I.ctx.append(f"item{k}")
                        out.append(it(self.nd_get(a, (const(k),), st, node) if len(shape) == 1 else self.I.getitem(a.P(), const(k), st, node)))
                        self.I.ctx.pop()
                    return mkseq(out)
                i = fresh_idx(n, "a")
                if len(shape) > 1:
                    return mkseq([rep(i, n, (it(self.I.getitem(a.P(), i.P(), st, node)),))])
                return mkseq([rep(i, n, (it(self.nd_get(a, (i.P(),), st, node)),))])
        return None

    def iter_value(self, a, st, node):
        if a.kind == "none":
            self.I.fault(st, "NoneIteration", node)
            return mkseq([])
        if a.kind == "faulty":
            return mkseq([])
        if a.kind == "ext" and isinstance(a.args[0], str) and (a.args[0].split(".")[0] in ("numpy", "itertools", "functools", "collections", "") ):
            raise Unsupported(f"iteration over the result of {a.args[0]}, which is not modelled")
        return None

    def enter(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind in ("ext", "libobj"):
            self.I.event(st, "enter", (m,), node)
            return m
        return None

    def leave(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind in ("ext", "libobj"):
            self.I.event(st, "leave", (m,), node)
            return True
        return False

    # ------------------------------------------------------------ ndarrays
    def new_array(self, st, node, shape, base, upds=()):
        r = self.I.alloc(st, "ndarray", node)
        self.I.hset(st, r, "val", mkfam(base, upds))
        self.I.hset(st, r, "shape", tup(*shape))
        return r.P()

    def shape(self, a, st):
        s = self.I.hget(st, a, "shape")
        if s is None or s.atom() is None or s.atom().kind != "tuple":
            return None
        return list(s.atom().args)

    def nd_get(self, a, idx, st, node):
        shape = self.shape(a, st)
        v = self.I.hget(st, a, "val")
        idx = list(idx)
        while len(idx) < len(shape):
            idx.append(Atom("slice", NONE, NONE, NONE).P())
        free = []
        full = []
        for x, n in zip(idx, shape):
            xa = x.atom()
            if xa is not None and xa.kind == "slice":
                if not all(is_none(z) for z in xa.args):
                    return Atom("ext", "item", (a.P(), v, tup(*idx)), ()).P()
                i = fresh_idx(n, "r")
                free.append((i, n))
                full.append(i.P())
            else:
                if x.const() is not None and x.const() < 0:
                    x = x + n
                if T.sort_of(x) == "obj":
                    return Atom("ext", "item", (a.P(), v, tup(*idx)), ()).P()
                full.append(x)
        if free:
            val = fam_read(v, full)
            u = upd([(i, n) for i, n in free], ONE, tuple(i.P() for i, _ in free), val)
            return self.new_array(st, node, [n for _, n in free], ZERO, (u,))
        c = [as_int(x) for x in full]
        for x, n in zip(full, shape):
            if as_int(x) is not None and as_int(n) is not None and not (0 <= as_int(x) < as_int(n)):
                return self.I.fault(st, "IndexError", node)
        return self.I.under(st, fam_read(v, full))

    def nd_set(self, a, idx, val, st, node, mode="set"):
        shape = self.shape(a, st)
        idx = list(idx)
        while len(idx) < len(shape):
            idx.append(Atom("slice", NONE, NONE, NONE).P())
        bs, ps, srcidx = [], [], []
        for x, n in zip(idx, shape):
            xa = x.atom()
            if xa is not None and xa.kind == "slice":
                if not all(is_none(z) for z in xa.args):
                    self.I.unsup("partial slice assignment", node)
                i = fresh_idx(n, "r")
                bs.append((i, n))
                ps.append(i.P())
                srcidx.append(i.P())
            else:
                if x.const() is not None and x.const() < 0:
                    x = x + n
                if T.sort_of(x) == "obj":
                    self.I.unsup("array index", node)
                if as_int(x) is not None and as_int(n) is not None and not (0 <= as_int(x) < as_int(n)):
                    self.I.fault(st, "IndexError", node)
                    return
                ps.append(x)
        va = val.atom()
        if bs and self.isarr(val):
            val = self.nd_get(va, srcidx, st, node)
        elif bs and self.islist(va):
            val = X.seq_index(self.I.items(va, st), srcidx[-1])
        elif bs and va is not None and va.sort != "num":
            val = Atom("item", val, srcidx[-1]).P() if srcidx else val
        elif bs and T.sort_of(val) == "cvec":
            val = Atom("item", val, srcidx[-1]).P()
        elif bs and va is not None and va.kind in ("ext",):
            val = Atom("item", val, srcidx[-1]).P()
        cur = self.I.hget(st, a, "val")
        r = ZERO
        for g, f in cases(cur):
            fa = f.atom()
            if not bs and mode == "set":
                r = r + g * self.I._famset(fa, tuple(ps), val)
            else:
                r = r + g * mkfam(fa.args[0], fa.args[1] + (upd(bs, ONE, tuple(ps), val, mode),))
        self.I.hset(st, a, "val", r)

    def nd_map(self, a, f, st, node):
        shape = self.shape(a, st)
        bs = [(fresh_idx(n, "r"), n) for n in shape]
        v = f([i.P() for i, _ in bs])
        return self.new_array(st, node, shape, ZERO, (upd(bs, ONE, tuple(i.P() for i, _ in bs), v),))

    def nd_binop(self, op, a, b, st, node):
        base = a if self.isarr(a) else b
        oth = b if base is a else a
        if self.isarr(oth):
            if len(self.shape(oth.atom(), st) or ()) != len(self.shape(base.atom(), st) or ()):
                return Atom("ext", "op." + type(op).__name__, (a, b), ()).P()

        def el(v, idx):
            return self.nd_get(v.atom(), idx, st, node) if self.isarr(v) else v

        return self.nd_map(base.atom(), lambda idx: self.arith(op, el(a, idx), el(b, idx), st, node), st, node)

    def set_ndarray(self, a, v, st):
        va = v.atom()
        if va is not None and va.kind == "ref" and va.args[0] == "ndarray":
            self.I.hset(st, a, "val", self.I.hget(st, va, "val"))
            return
        raise Unsupported("array update")

    def view_aug(self, a, k, op, v, st, node):
        I = self.I
        if a.kind == "ref":
            idx = self.index_tuple(k) if k is not None else []
            old = self.nd_get(a, idx, st, node)
            self.nd_set(a, idx, self.binop(op, old, v, st, node), st, node)
            return
        I.unsup("in-place update of a view", node)

    def index_tuple(self, k):
        a = k.atom()
        if a is not None and a.kind == "tuple":
            return list(a.args)
        return [k]

    # ------------------------------------------------------------ items / attributes
    def setitem(self, a, k, v, st, node):
        I = self.I
        if a.kind == "ref" and a.args[0] == "ndarray":
            self.nd_set(a, self.index_tuple(k), v, st, node)
            return
        if a.kind == "none":
            I.fault(st, "NoneSubscript", node)
            return
        if a.kind == "faulty":
            return
        I.event(st, "setitem", (a.P(), k, v), node)

    def getitem(self, a, x, k, st, node):
        if a.kind == "ref" and a.args[0] == "ndarray":
            return self.nd_get(a, self.index_tuple(k), st, node)
        if a.kind == "tabsel":
            d, key = a.args
            # element of the table entry selected by a symbolic key
            return Atom("item", x, k).P()
        return Atom("item", x, k).P()

    def getitem_value(self, x, k, st, node):
        return Atom("item", x, k).P()

    def attr(self, a, x, name, st, node):
        I = self.I
        if a.kind == "ref" and a.args[0] == "ndarray":
            if name == "shape":
                return I.hget(st, a, "shape")
            if name == "size":
                r = ONE
                for n in self.shape(a, st):
                    r = r * n
                return r
            if name == "T":
                shape = self.shape(a, st)
                if len(shape) == 2:
                    i, j = fresh_idx(shape[1]), fresh_idx(shape[0])
                    v = self.nd_get(a, (j.P(), i.P()), st, node)
                    return self.new_array(st, node, [shape[1], shape[0]], ZERO, (upd([(i, shape[1]), (j, shape[0])], ONE, (i.P(), j.P()), v),))
            return Atom("attr", x, name).P()
        h = self.METH.get((a.args[0] if a.kind == "ref" else a.kind, "." + name))
        if h is not None:
            return h(self, a, x, st, node)
        return Atom("attr", x, name).P()

    def attr_value(self, x, name, st, node):
        if T.sort_of(x) in ("num", "cvec", "field"):
            return Atom("attr", x, name).P()
        return Atom("attr", x, name).P()

    def setattr(self, a, x, name, v, st, node):
        if a is not None and a.kind == "none":
            self.I.fault(st, "NoneAttribute", node, name)
            return True
        if a is not None and a.kind == "ref":
            h = self.METH.get((a.args[0], "=" + name))
            if h is not None:
                h(self, a, x, v, st, node)
                return True
            self.I.hset(st, a, "py:" + name, v)
            return False
        return False

    # ------------------------------------------------------------ calls
    def call(self, path, args, kw, st, node):
        f = self.FN.get(path)
        if f is None:
            for al, tg in ALIAS:
                if path.startswith(al):
                    f = self.FN.get(tg + path[len(al):])
                    if f is not None:
                        break
        if f is not None:
            try:
                if path.startswith("numpy."):
                    out = kw.get("out")
                    if out is not None and not is_none(out):
                        v = f(self, args, {k: x for k, x in kw.items() if k != "out"}, st, node)
                        self.I.setitem(out, Atom("slice", NONE, NONE, NONE).P(), v, st, node)
                        return out
                return f(self, args, kw, st, node)
            except Arity as e:
                return self.I.fault(st, "TypeError", node, str(e))
        return self.opaque(path, args, kw, st, node)

    def opaque(self, path, args, kw, st, node, pure=False):
        vals = tuple(self.freeze(x, st) for x in args)
        kws = tuple((k, self.freeze(v, st)) for k, v in sorted(kw.items()))
        r = Atom("ext", path, vals, kws).P()
        if not pure and not path.startswith("builtins."):
            self.I.event(st, "call", (S(path), tup(*vals), tup(*[tup(S(k), v) for k, v in kws]), r), node)
        return r

    def freeze(self, v, st, depth=0):
        """Immutable snapshot of containers passed to opaque calls."""
        r = ZERO
        for g, x in cases(v):
            r = r + g * self._freeze(x, st, depth)
        return r

    def _freeze(self, x, st, depth):
        a = x.atom()
        if a is None or depth > 4:
            return x
        if a.kind == "tuple":
            return tup(*[self.freeze(y, st, depth + 1) for y in a.args])
        if a.kind == "view":
            return self.view_get(a, st)
        if a.kind == "ref":
            if a.args[0] == "list":
                v = self.I.items(a, st)
                if v.atom() is not None and v.atom().kind == "seq":
                    if all(s.kind == "it" for s in seq_segs(v)):
                        return tup(*[self.freeze(s.args[0], st, depth + 1) for s in seq_segs(v)])
                return v
            if a.args[0] == "dict":
                v = self.I.hget(st, a, "items")
                if v.atom() is not None and v.atom().kind == "dict":
                    return Atom("dict", tuple((k, self.freeze(w, st, depth + 1)) for k, w in v.atom().args[0])).P()
                return v
            if a.args[0] == "ndarray":
                return Atom("ext", "array", (self.I.hget(st, a, "shape"), self.I.hget(st, a, "val")), ()).P()
        return x

    def call_value(self, x, args, kw, st, node):
        return self.opaque("call", [x] + args, kw, st, node)

    def call_ref(self, a, x, args, kw, st, node):
        return self.call_value(x, args, kw, st, node)

    def method(self, obj, name, args, kw, st, node):
        I = self.I

        def one(s, x):
            a = x.atom()
            if a is None:
                return self.method_value(x, name, args, kw, s, node)
            key = a.args[0] if a.kind == "ref" else a.kind
            h = self.METH.get((key, name))
            if h is not None:
                try:
                    return h(self, a, x, args, kw, s, node)
                except Arity as e:
                    return I.fault(s, "TypeError", node, str(e))
            if a.kind == "none":
                return I.fault(s, "NoneAttribute", node, name)
            if a.kind == "faulty":
                return x
            return self.method_opaque(a, x, name, args, kw, s, node)

        return I.lifted(obj, st, one, node)

    def method_opaque(self, a, x, name, args, kw, st, node):
        return self.opaque("." + name, [x] + args, kw, st, node)

    def method_value(self, x, name, args, kw, st, node):
        return self.opaque("." + name, [x] + args, kw, st, node)


X_OPS = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.MatMult: "__matmul__", ast.Pow: "__pow__"}
X_ROPS = {ast.Add: "__radd__", ast.Sub: "__rsub__", ast.Mult: "__rmul__", ast.Div: "__rtruediv__", ast.MatMult: "__rmatmul__"}
ALIAS = [("np.", "numpy."), ("math.", "numpy."), ("sympy.", "numpy.")]


def mksqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fr(n, d))
        if d * d != c.denominator:      # sqrt(a/b) = sqrt(a b)/b
            return mksqrt(const(c.numerator * c.denominator)) * const(Fr(1, c.denominator))
        if d != 1:
            return mksqrt(const(c.numerator)) * const(Fr(1, d))
        # square-free part
        k, n2, q = 1, c.numerator, 2
        while q * q <= n2:
            while n2 % (q * q) == 0:
                n2 //= q * q
                k *= q
            q += 1
        return const(k) * Atom("sqrt", const(n2)).P()
    return Atom("sqrt", p).P()


T.CONSTRUCT["sqrt"] = mksqrt


def mkfloordiv(a, b):
    x, y = as_int(a), as_int(b)
    if x is not None and y:
        return const(x // y)
    return Atom("floordiv", a, b).P()


def mkmodulo(a, b):
    x, y = as_int(a), as_int(b)
    if x is not None and y:
        return const(x % y)
    return Atom("modulo", a, b).P()


T.CONSTRUCT["floordiv"] = mkfloordiv
T.CONSTRUCT["modulo"] = mkmodulo


def fn(*paths):
    def deco(f):
        for p in paths:
            Lib.FN[p] = f
        return f
    return deco


def meth(cls, *names):
    def deco(f):
        for n in names:
            Lib.METH[(cls, n)] = f
        return f
    return deco


# ================================================================ builtins
@fn("builtins.range", "numpy.arange")
def _range(L, args, kw, st, node):
    a = [L.num(x, st) for x in args]
    lo, hi, step = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    elif len(a) == 3:
        lo, hi, step = a
    else:
        raise Arity("range")
    for x in (lo, hi, step):
        c = x.const()
        if c is not None and c.denominator != 1:
            L.I.fault(st, "TypeError", node, "range() of a non-integer")
    s = as_int(step)
    if as_int(lo) is not None and as_int(hi) is not None and s:
        return mkseq([it(const(v)) for v in range(as_int(lo), as_int(hi), s)])
    if s == 1:
        n = hi - lo
        i = fresh_idx(n)
        return mkseq([rep(i, n, (it(i.P() + lo),))])
    if s == -1:
        n = lo - hi
        i = fresh_idx(n)
        return mkseq([rep(i, n, (it(lo - i.P()),))])
    # symbolic step: exact when the span is a multiple of the step
    n = (hi - lo) / step
    if all(e > 0 for m in n.t for _, e in m) and not any(a.kind == "inv" for m in n.t for a, _ in m):
        i = fresh_idx(n)
        return mkseq([rep(i, n, (it(i.P() * step + lo),))])
    L.I.unsup("range with a step", node)


@fn("builtins.len")
def _len(L, args, kw, st, node):
    def one(s, x):
        a = x.atom()
        if a is not None and a.kind == "ref":
            if a.args[0] == "list":
                return X.seqlen(L.I.items(a, s))
            if a.args[0] == "dict":
                return const(len(L.I.dict_items(a, s)))
            if a.args[0] == "ndarray":
                return L.shape(a, s)[0]
            if L.I.find_method(a, "__len__") is not None:
                return L.I.call(L.I.getattr(x, "__len__", s, node), [], {}, s, node)
        if a is not None and a.kind == "none":
            return L.I.fault(s, "NoneLen", node)
        return X.seqlen(x)
    return L.I.lifted(args[0], st, one, node)


@fn("builtins.sum", "numpy.sum", "math.fsum")
def _sum(L, args, kw, st, node):
    I = L.I
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if L.isarr(args[0]):
        return _nd_sum(L, args[0].atom(), st, node)
    sv = I.iterate(args[0], st, node)

    def go(segs):
        acc = None
        for s in segs:
            if s.kind == "it":
                v = s.args[0]
            elif s.kind == "rep":
                xs, (hi, inner) = X.unbind(s)
                T.BINDER_HI[xs[0].key] = hi
                b = go(inner)
                if b is None:
                    continue
                if T.sort_of(b) == "obj":
                    I.unsup("symbolic sum of objects", node)
                v = T.mksum(xs[0], ZERO, hi, b)
            elif s.kind == "when":
                b = go(s.args[1])
                if b is None:
                    continue
                v = s.args[0] * b
            else:
                I.unsup("sum over a partially known sequence", node)
            acc = v if acc is None else L.binop(ast.Add(), acc, v, st, node)
        return acc
    r = None
    tot = ZERO
    for g, x in cases(sv):
        v = go(seq_segs(x))
        v = start if v is None else (L.binop(ast.Add(), start, v, st, node) if start.const() != 0 else v)
        tot = tot + g * L.deref(v, st)
    return tot


def known_items(L, x, st, node):
    """Values of a sequence of known length, None otherwise."""
    if L.isarr(x):
        shape = L.shape(x.atom(), st)
        n = as_int(shape[0]) if len(shape) == 1 else None
        return None if n is None else [L.nd_get(x.atom(), [const(i)], st, node) for i in range(n)]
    sv = L.I.iterate(x, st, node)
    if len(cases(sv)) != 1:
        return None
    segs = seq_segs(sv)
    return [z.args[0] for z in segs] if all(z.kind == "it" for z in segs) else None


@fn("math.prod", "numpy.prod", "numpy.product", "numpy.multiply.reduce")
def _prod(L, args, kw, st, node):
    vals = known_items(L, args[0], st, node)
    if vals is None or set(kw) - {"start"}:
        return L.opaque("numpy.prod", args, kw, st, node, pure=True)
    r = kw.get("start", ONE)
    for v in vals:
        r = L.binop(ast.Mult(), r, v, st, node)
    return r


@fn("functools.reduce")
def _reduce(L, args, kw, st, node):
    f, xs, *init = args
    vals = known_items(L, xs, st, node)
    if vals is None or kw:
        raise Unsupported("reduction of a sequence of unknown length")
    vals = list(init) + list(vals)
    if not vals:
        return L.I.fault(st, "TypeError", node, "reduce() of an empty sequence")
    r = vals[0]
    for v in vals[1:]:
        r = L.I.call(f, [r, v], {}, st, node)
    return r


for _n, _o in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv), ("mod", ast.Mod), ("pow", ast.Pow), ("matmul", ast.MatMult)):
    Lib.FN["operator." + _n] = lambda L, args, kw, st, node, _o=_o: L.binop(_o(), args[0], args[1], st, node)
Lib.FN["operator.neg"] = lambda L, args, kw, st, node: -L.num(args[0], st)


def _nd_sum(L, a, st, node):
    shape = L.shape(a, st)
    bs = [(fresh_idx(n, "r"), n) for n in shape]
    v = L.nd_get(a, [i.P() for i, _ in bs], st, node)
    return close_sum(bs, v)


@fn("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs")
def _abs(L, args, kw, st, node):
    x = L.num(args[0], st)
    if L.isarr(x):
        return L.nd_map(x.atom(), lambda i: mkabs(L.nd_get(x.atom(), i, st, node)), st, node)
    return mkabs(x)


def mkabs(p):
    r = ZERO
    for g, x in cases(p):
        c = x.const()
        if c is not None:
            r = r + g * const(abs(c))
            continue
        lead = min(x.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        if lead[1] < 0:
            x = -x
        a = x.atom()
        if a is not None and a.kind == "abs":
            r = r + g * x
            continue
        r = r + g * Atom("abs", x).P()
    return r


T.CONSTRUCT["abs"] = mkabs
T.SORT["abs"] = lambda a: T.sort_of(a.args[0])


@fn("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin")
def _maxmin(L, args, kw, st, node):
    op = "max" if "max" in ast.unparse(node.func) else "min"
    if len(args) > 1:
        vals = sorted((L.num(x, st) for x in args), key=lambda p: p.key)
        cs = [v.const() for v in vals]
        if all(c is not None for c in cs):
            return const(max(cs) if op == "max" else min(cs))
        return Atom("ext", op, tuple(vals), ()).P()
    x = args[0]
    if L.isarr(x):
        return Atom("ext", op, (L.freeze(x, st),), ()).P()
    a = x.atom()
    if a is not None and (a.kind in ("tuple", "seq") or L.islist(a)):
        sv = L.I.iterate(x, st, node)
        if all(s.kind == "it" for g, y in cases(sv) for s in seq_segs(y)) and len(cases(sv)) == 1:
            vals = [L.num(s.args[0], st) for s in seq_segs(sv)]
            if not vals:
                return L.I.fault(st, "ValueError", node, op + "() of an empty sequence")
            cs = [v.const() for v in vals]
            if all(c is not None for c in cs):
                return const(max(cs) if op == "max" else min(cs))
            uniq = {v.key: v for v in vals}
            return Atom("ext", op, (tup(*sorted(uniq.values(), key=lambda p: p.key)),), ()).P()
        return Atom("ext", op, (sv,), ()).P()
    return Atom("ext", op, (L.freeze(L.deref(x, st), st),), ()).P()


@fn("builtins.int", "builtins.float", "builtins.complex", "numpy.float64", "numpy.int32", "numpy.int64", "numpy.intp", "petsc4py.PETSc.ScalarType", "petsc4py.PETSc.IntType", "numpy.float32", "numpy.single", "numpy.float16", "numpy.half", "petsc4py.PETSc.RealType")
def _int(L, args, kw, st, node):
    if not args:
        return ZERO
    x = L.num(args[0], st)
    c = x.const()
    nm = ast.unparse(node.func)
    if "float32" in nm or nm.endswith((".single", ".float16", ".half")):
        if c is not None:
            import struct
            from fractions import Fraction
            return const(Fraction(struct.unpack("f", struct.pack("f", float(c)))[0]))
        return x if T.is_bool(x) else Atom("ext", "numpy.float32", (x,), ()).P()
    if "int" in nm.lower():
        if c is not None:
            return const(int(c))
        if T.int_valued(x):
            return x
        a = x.atom()
        if a is not None and a.sort == "obj" and a.kind == "str":
            try:
                return const(int(a.args[0]))
            except ValueError:
                return L.I.fault(st, "ValueError", node)
        return Atom("trunc", x).P()
    return x


T.INT.add("trunc")


@fn("builtins.bool")
def _bool(L, args, kw, st, node):
    return L.I.truth(args[0], st, node) if args else ZERO


@fn("builtins.str", "builtins.repr", "builtins.format")
def _str(L, args, kw, st, node):
    if not args:
        return S("")
    x = args[0]
    if strval(x) is not None:
        return x
    if as_int(x) is not None:
        return S(str(as_int(x)))
    if x.atom() is not None and x.atom().kind in ("fstr",):
        return x
    return Atom("fstr", Atom("fmt", x, S(""), -1).P()).P()


@fn("builtins.zip")
def _zip(L, args, kw, st, node):
    I = L.I
    svs = [I.iterate(a, st, node) for a in args]
    segss = [seq_segs(s) for s in svs]
    if all(all(s.kind == "it" for s in g) for g in segss):
        return mkseq([it(tup(*[s.args[0] for s in row])) for row in zip(*segss)])
    ns = [X.seqlen(s) for s in svs]
    n = ns[0]
    for m in ns[1:]:
        if m != n:
            if T.nonneg(m - n):
                continue
            if T.nonneg(n - m):
                n = m
                continue
            I.unsup("zip of different lengths", node)
    i = fresh_idx(n)
    return mkseq([rep(i, n, (it(tup(*[X.seq_index(s, i.P()) for s in svs])),))])


@fn("numpy.ndenumerate", "numpy.ndindex")
def _ndenum(L, args, kw, st, node):
    idx = "ndindex" in ast.unparse(node.func)
    if idx:
        a0 = args[0].atom()
        shape = list(a0.args) if len(args) == 1 and a0 is not None and a0.kind == "tuple" else args
    elif L.isarr(args[0]):
        shape = L.shape(args[0].atom(), st)
    else:
        shape = [None]
    ns = [None if n is None else as_int(n) for n in shape]
    if any(n is None for n in ns):
        raise Unsupported("iteration over an array of unknown shape")
    import itertools
    out = []
    for ix in itertools.product(*map(range, ns)):
        k = tup(*map(const, ix))
        out.append(it(k if idx else tup(k, L.nd_get(args[0].atom(), [const(i) for i in ix], st, node))))
    return mkseq(out)


@fn("builtins.enumerate")
def _enum(L, args, kw, st, node):
    I = L.I
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    sv = I.iterate(args[0], st, node)
    r = ZERO
    for g, s in cases(sv):
        segs = seq_segs(s)
        if all(x.kind == "it" for x in segs):
            r = r + g * mkseq([it(tup(const(k) + start, x.args[0])) for k, x in enumerate(segs)])
        else:
            n = X.seqlen(s)
            i = fresh_idx(n)
            r = r + g * mkseq([rep(i, n, (it(tup(i.P() + start, X.seq_index(s, i.P()))),))])
    return r


@fn("builtins.list", "builtins.sorted")
def _list(L, args, kw, st, node):
    if not args:
        return L.I.new_list(st, mkseq([]), node)
    sv = L.I.iterate(args[0], st, node)
    if ast.unparse(node.func) == "sorted":
        segs = [s for g, x in cases(sv) for s in seq_segs(x)]
        vals = [s.args[0] if s.kind == "it" else None for s in segs]
        if kw or any(v is None or v.const() is None for v in vals):
            if not kw and all(v is not None and strval(v) is not None for v in vals):
                return L.I.new_list(st, mkseq([it(v) for v in sorted(vals, key=strval)]), node)
            return L.opaque("builtins.sorted", args, kw, st, node)
        return L.I.new_list(st, mkseq([it(v) for v in sorted(vals, key=lambda p: p.const())]), node)
    return L.I.new_list(st, sv, node)


@fn("builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.iter")
def _tuple(L, args, kw, st, node):
    if not args:
        return tup()
    sv = L.I.iterate(args[0], st, node)
    if len(cases(sv)) == 1 and all(s.kind == "it" for s in seq_segs(sv)):
        return tup(*[s.args[0] for s in seq_segs(sv)])
    return sv


@fn("builtins.dict")
def _dict(L, args, kw, st, node):
    I = L.I
    r = I.alloc(st, "dict", node)
    items = []
    if args:
        a = args[0].atom()
        if a is not None and a.kind == "ref" and a.args[0] == "dict":
            items = list(I.dict_items(a, st))
        else:
            for s in seq_segs(I.iterate(args[0], st, node)):
                if s.kind != "it":
                    I.unsup("symbolic dict()", node)
                k, v = s.args[0].atom().args
                items = [z for z in items if z[0] != k] + [(k, v)]
    for k, v in kw.items():
        items = [z for z in items if z[0] != S(k)] + [(S(k), v)]
    I.hset(st, r, "items", Atom("dict", tuple(items)).P())
    return r.P()


@fn("builtins.reversed")
def _reversed(L, args, kw, st, node):
    sv = L.I.iterate(args[0], st, node)
    r = ZERO
    for g, s in cases(sv):
        segs = seq_segs(s)
        if all(x.kind == "it" for x in segs):
            r = r + g * mkseq(tuple(reversed(segs)))
        else:
            n = X.seqlen(s)
            i = fresh_idx(n)
            r = r + g * mkseq([rep(i, n, (it(X.seq_index(s, n - ONE - i.P())),))])
    return r


@fn("builtins.print")
def _print(L, args, kw, st, node):
    L.I.event(st, "print", tuple(L.freeze(x, st) for x in args), node)
    return NONE


@fn("builtins.getattr")
def _getattr(L, args, kw, st, node):
    n = strval(args[1])
    if n is None:
        L.I.unsup("getattr with a computed name", node)
    fa = args[0].atom()
    if fa is not None and fa.kind == "func" and len(args) > 2 and not n.startswith("__"):
        v = L.I.under(st, st.store.get(("L", ("FN", fa.args[0]), n), X.UNDEF))
        return sum((g * (args[2] if y == X.UNDEF else y) for g, y in cases(v)), ZERO)
    if len(args) > 2:
        ev = len(st.ev)
        s2 = st.copy()
        v = L.I.getattr(args[0], n, s2, node)
        a = v.atom()
        if a is not None and a.kind == "faulty":
            return args[2]
    return L.I.getattr(args[0], n, st, node)


@fn("builtins.setattr")
def _setattr(L, args, kw, st, node):
    n = strval(args[1])
    if n is None:
        L.I.unsup("setattr with a computed name", node)
    L.I.setattr(args[0], n, args[2], st, node)
    return NONE


@fn("builtins.hasattr")
def _hasattr(L, args, kw, st, node):
    n = strval(args[1])

    def one(s, x):
        a = x.atom()
        if a is not None and a.kind in ("none",):
            return ZERO
        if a is not None and a.kind == "ref" and a.args[0] in L.I.classes:
            s2 = s.copy()
            v = L.I._getattr(x, n, s2, node)
            return ZERO if v.atom() is not None and v.atom().kind == "faulty" else ONE
        if a is not None and a.kind == "func" and not n.startswith("__"):
            v = L.I.under(s, s.store.get(("L", ("FN", a.args[0]), n), X.UNDEF))
            return sum((g for g, y in cases(v) if y != X.UNDEF), ZERO)
        if a is not None and a.kind == "mod":
            v = L.hasmember(a.args[0], n)
            if v is not None:
                return v
        return Atom("bopq", "hasattr", x, S(n)).P()
    return L.I.lifted(args[0], st, one, node)


Lib.hasmember = lambda self, mod, name: None


@fn("builtins.isinstance")
def _isinstance(L, args, kw, st, node):
    I = L.I
    ts = args[1].atom().args if args[1].atom() is not None and args[1].atom().kind == "tuple" else (args[1],)

    def one(s, x):
        a = x.atom()
        r = ZERO
        for t in ts:
            ta = t.atom()
            name = ta.args[0] if ta is not None and ta.kind in ("mod", "cls") else None
            v = None
            if name is None:
                v = Atom("isinst", x, t).P()
            elif a is not None and a.kind == "ref" and a.args[0] in I.classes:
                v = ONE if _subclass(I, a.args[0], name) else ZERO
            elif a is not None and a.kind == "ref":
                short = name.split(".")[-1]
                cls = a.args[0].split(".")[-1]
                v = ONE if short == cls else ZERO
            elif a is not None and a.kind == "none":
                v = ONE if name.endswith("NoneType") else ZERO
            elif a is not None and a.kind == "str":
                v = ONE if name == "builtins.str" else ZERO
            elif a is not None and a.kind in ("tuple",):
                v = ONE if name == "builtins.tuple" else ZERO
            elif x.const() is not None or (T.int_valued(x) and x.t):
                v = ONE if name in ("builtins.int", "builtins.float") and (name == "builtins.int") == (T.int_valued(x) or x.const().denominator == 1) else ZERO
            else:
                v = Atom("isinst", x, t).P()
            r = r + v - r * v
        return r
    return I.lifted(args[0], st, one, node)


def _subclass(I, cid, name):
    if cid == name:
        return True
    c = I.classes.get(cid)
    if c is None:
        return False
    for b in c.bases:
        a = b.atom()
        if a is not None and a.kind in ("cls", "mod"):
            if a.args[0] == name or _subclass(I, a.args[0], name):
                return True
    return name == "builtins.object"


@fn("builtins.callable")
def _callable(L, args, kw, st, node):
    a = args[0].atom()
    if a is not None and a.kind in ("func", "bound", "cls"):
        return ONE
    if a is not None and a.kind == "ref":
        return ONE if L.I.find_method(a, "__call__") is not None else Atom("bopq", "callable", args[0]).P()
    if a is None or a.kind in ("none", "str", "tuple"):
        return ZERO
    return Atom("bopq", "callable", args[0]).P()


@fn("builtins.any", "builtins.all")
def _anyall(L, args, kw, st, node):
    isany = ast.unparse(node.func).endswith("any")
    sv = L.I.iterate(args[0], st, node)
    segs = seq_segs(sv) if len(cases(sv)) == 1 else None
    if segs is not None and all(s.kind == "it" for s in segs):
        r = ZERO if isany else ONE
        for s in segs:
            t = L.I.truth(s.args[0], st, node)
            r = r + t - r * t if isany else r * t
        return r
    return Atom("bopq", "any" if isany else "all", sv).P()


@fn("builtins.map")
def _map(L, args, kw, st, node):
    I = L.I
    if len(args) > 2:
        src = _zip(L, args[1:], {}, st, node)
    else:
        src = I.iterate(args[1], st, node)
    acc = ("X", "map", f"{node.lineno}.{node.col_offset}.{len(I.stack)}.{len(I.ctx)}")
    st.store[acc] = mkseq(())

    def body(s, v):
        vs = list(v.atom().args) if len(args) > 2 else [v]
        r = I.call(args[0], vs, {}, s, node)
        I.x_append(s, acc, it(r))
        return s, []
    n, x = I.run_seq(src, st, body, node)
    if n is None or x:
        I.unsup("map", node)
    if n is not st:
        st.store, st.ev, st.pc, st.pcs = n.store, n.ev, n.pc, n.pcs
    return st.store.pop(acc)


@fn("builtins.round")
def _round(L, args, kw, st, node):
    x = L.num(args[0], st)
    c = x.const()
    if c is not None and len(args) == 1:
        return const(round(c))
    if T.int_valued(x):
        return x
    return Atom("ext", "round", tuple(args), ()).P()


@fn("builtins.pow", "numpy.power", "math.pow")
def _pow(L, args, kw, st, node):
    return L.binop(ast.Pow(), args[0], args[1], st, node)


@fn("builtins.divmod")
def _divmod(L, args, kw, st, node):
    return tup(L.binop(ast.FloorDiv(), args[0], args[1], st, node), L.binop(ast.Mod(), args[0], args[1], st, node))


@fn("builtins.slice")
def _slice(L, args, kw, st, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return Atom("slice", *a).P()


@fn("builtins.next")
def _next(L, args, kw, st, node):
    return X.seq_index(L.I.iterate(args[0], st, node), ZERO)


@fn("builtins.type")
def _type(L, args, kw, st, node):
    a = args[0].atom()
    if a is not None and a.kind == "ref" and a.args[0] in L.I.classes:
        return Atom("cls", a.args[0]).P()
    return Atom("ext", "type", tuple(args), ()).P()


@fn("builtins.id", "builtins.hash", "builtins.vars")
def _idf(L, args, kw, st, node):
    return Atom("ext", ast.unparse(node.func), tuple(args), ()).P()


@fn("builtins.object.__init__", "builtins.Exception.__init__")
def _noop(L, args, kw, st, node):
    return NONE


# ---------------------------------------------------------------- containers
@meth("list", "append")
def _append(L, a, x, args, kw, st, node):
    cur = L.I.items(a, st)
    r = ZERO
    for g, v in cases(cur):
        r = r + g * mkseq(tuple(seq_segs(v)) + (it(args[0]),))
    L.I.hset(st, a, "items", r)
    return NONE


@meth("list", "extend")
def _extend(L, a, x, args, kw, st, node):
    L.I.list_extend(a, args[0], st, node)
    return NONE


@meth("list", "pop")
def _pop(L, a, x, args, kw, st, node):
    segs = list(seq_segs(L.I.items(a, st)))
    i = as_int(args[0]) if args else -1
    if i is None or not all(s.kind == "it" for s in segs) or not (-len(segs) <= i < len(segs)):
        L.I.unsup("list.pop", node)
    v = segs.pop(i)
    L.I.hset(st, a, "items", mkseq(segs))
    return v.args[0]


@meth("list", "insert")
def _insert(L, a, x, args, kw, st, node):
    segs = list(seq_segs(L.I.items(a, st)))
    i = as_int(args[0])
    if i == 0:
        segs = [it(args[1])] + segs
    elif i is not None and all(s.kind == "it" for s in segs):
        segs.insert(i, it(args[1]))
    else:
        L.I.unsup("list.insert", node)
    L.I.hset(st, a, "items", mkseq(segs))
    return NONE


@meth("list", "clear")
def _clear(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "items", mkseq([]))
    return NONE


@meth("list", "copy")
def _lcopy(L, a, x, args, kw, st, node):
    return L.I.new_list(st, L.I.items(a, st), node)


@meth("list", "reverse")
def _lrev(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "items", _reversed(L, [x], {}, st, node))
    return NONE


@meth("list", "index")
@meth("tuple", "index")
def _lindex(L, a, x, args, kw, st, node):
    segs = seq_segs(L.I.iterate(x, st, node))
    r, seen = ZERO, ZERO
    for k, s in enumerate(segs):
        if s.kind != "it":
            L.I.unsup("index()", node)
        e = L.I.equal(args[0], s.args[0], st) * (ONE - seen)
        r = r + e * const(k)
        seen = seen + e
    if seen != ONE:
        L.I.event(st, "mayraise", (S("ValueError"), ONE - seen), node)
    return r


@meth("list", "sort")
def _lsort(L, a, x, args, kw, st, node):
    segs = seq_segs(L.I.items(a, st))
    vals = [s.args[0] if s.kind == "it" else None for s in segs]
    if kw or any(v is None or v.const() is None for v in vals):
        L.I.unsup("sort", node)
    L.I.hset(st, a, "items", mkseq([it(v) for v in sorted(vals, key=lambda p: p.const())]))
    return NONE


@meth("dict", "items")
def _ditems(L, a, x, args, kw, st, node):
    return mkseq([it(tup(k, v)) for k, v in L.I.dict_items(a, st)])


@meth("dict", "keys")
def _dkeys(L, a, x, args, kw, st, node):
    return mkseq([it(k) for k, v in L.I.dict_items(a, st)])


@meth("dict", "values")
def _dvalues(L, a, x, args, kw, st, node):
    return mkseq([it(v) for k, v in L.I.dict_items(a, st)])


@meth("dict", "get")
def _dget(L, a, x, args, kw, st, node):
    return L.I.dict_get(a, args[0], st, node, args[1] if len(args) > 1 else NONE)


@meth("dict", "update")
def _dupdate(L, a, x, args, kw, st, node):
    if args:
        b = args[0].atom()
        for k, v in L.I.dict_items(b, st):
            L.I.dict_set(a, k, v, st, node)
    for k, v in kw.items():
        L.I.dict_set(a, S(k), v, st, node)
    return NONE


@meth("dict", "setdefault")
def _dsetdef(L, a, x, args, kw, st, node):
    L.I.event(st, "setdefault", (x, args[0]), node)
    g = L.I.contains(args[0], x, st, node)
    if g.const() == 1:
        return L.I.dict_get(a, args[0], st, node)
    if g.const() == 0:
        L.I.dict_set(a, args[0], args[1] if len(args) > 1 else NONE, st, node)
        return args[1] if len(args) > 1 else NONE
    v = L.I.dict_get(a, args[0], st, node, args[1] if len(args) > 1 else NONE)
    L.I.dict_set(a, args[0], v, st, node)
    return v


@meth("dict", "copy")
def _dcopy(L, a, x, args, kw, st, node):
    r = L.I.alloc(st, "dict", node)
    L.I.hset(st, r, "items", L.I.hget(st, a, "items"))
    return r.P()


@meth("dict", "pop")
def _dpop(L, a, x, args, kw, st, node):
    v = L.I.dict_get(a, args[0], st, node, args[1] if len(args) > 1 else None)
    L.I.dict_del(a, args[0], st, node)
    return v


@meth("str", "format")
def _sformat(L, a, x, args, kw, st, node):
    return Atom("fstr", x, *[L.freeze(v, st) for v in args], *[tup(S(k), v) for k, v in kw.items()]).P()


@meth("str", "join")
def _sjoin(L, a, x, args, kw, st, node):
    return Atom("fstr", x, L.I.iterate(args[0], st, node)).P()


for _n in ("lower", "upper", "strip", "lstrip", "rstrip", "title"):
    def _mk(n):
        @meth("str", n)
        def f(L, a, x, args, kw, st, node):
            return S(getattr(a.args[0], n)(*[strval(v) for v in args]))
    _mk(_n)


@meth("str", "endswith")
def _ends(L, a, x, args, kw, st, node):
    return const(int(a.args[0].endswith(strval(args[0]))))


@meth("str", "startswith")
def _starts(L, a, x, args, kw, st, node):
    return const(int(a.args[0].startswith(strval(args[0]))))


@meth("str", "replace")
def _srepl(L, a, x, args, kw, st, node):
    return S(a.args[0].replace(strval(args[0]), strval(args[1])))


# ================================================================ dataclasses / functools / itertools
@fn("dataclasses.fields")
def _fields(L, args, kw, st, node):
    a = args[0].atom()
    cid = a.args[0]
    c = L.I.classes[cid]
    return tup(*[Atom("dcfield", S(n)).P() for n, _, _ in c.fields])


@meth("dcfield", ".name")
def _dcname(L, a, x, st, node):
    return a.args[0]


T.SORT["dcfield"] = "obj"


@fn("dataclasses.field")
def _field(L, args, kw, st, node):
    return Atom("dcfielddef", kw.get("default", UNDEF), kw.get("default_factory", UNDEF)).P()


@fn("dataclasses.replace", "copy.replace")
def _replace(L, args, kw, st, node):
    I = L.I

    def one(s, x):
        a = x.atom()
        c = I.classes[a.args[0]]
        vals = {n: I.hget(s, a, n) for n, _, _ in c.fields}
        for k in kw:
            if k not in vals:
                return I.fault(s, "TypeError", node, f"replace: no field {k}")
        vals.update(kw)
        return I.call(Atom("cls", a.args[0]).P(), [], vals, s, node)
    return I.lifted(args[0], st, one, node)


@fn("dataclasses.asdict", "dataclasses.astuple")
def _asdict(L, args, kw, st, node):
    I = L.I
    a = args[0].atom()
    c = I.classes[a.args[0]]
    if "tuple" in ast.unparse(node.func):
        return tup(*[I.hget(st, a, n) for n, _, _ in c.fields])
    d = I.alloc(st, "dict", node)
    I.hset(st, d, "items", Atom("dict", tuple((S(n), I.hget(st, a, n)) for n, _, _ in c.fields)).P())
    return d.P()


@fn("gmsh.initialize")
def _gmsh_init(L, args, kw, st, node):
    st.store[("X", "gmsh", "session")] = ONE
    return L.opaque("gmsh.initialize", args, kw, st, node)


@fn("gmsh.finalize")
def _gmsh_fin(L, args, kw, st, node):
    st.store[("X", "gmsh", "session")] = ZERO
    return L.opaque("gmsh.finalize", args, kw, st, node)


@fn("gmsh.isInitialized")
def _gmsh_open(L, args, kw, st, node):
    return st.store.get(("X", "gmsh", "session"), ZERO)


@fn("importlib.util.find_spec")
def _find_spec(L, args, kw, st, node):
    nm = strval(args[0])
    spec = Atom("ext", "modulespec", tuple(args), ()).P()
    T.SUPPLIED.add(spec.atom().key)
    c = L.optional_module(nm, st, L.I, node) if nm else None
    return spec if c is None else ite(c, spec, NONE)


@fn("importlib.import_module")
def _import_module(L, args, kw, st, node):
    nm = strval(args[0])
    if nm is None or nm.startswith(".") or nm in L.I.sources:
        raise Unsupported("import_module")
    good, bad = L.I.optional(nm, st, node)
    if good is None:
        raise X.AlwaysRaises(st, bad)
    if good is not st:
        raise Unsupported("conditional import_module")
    return Atom("mod", nm).P()


@fn("copy.copy", "copy.deepcopy")
def _copy(L, args, kw, st, node):
    I = L.I
    x = args[0]
    a = x.atom()
    if a is not None and a.kind == "ref":
        if a.args[0] == "list":
            return I.new_list(st, I.items(a, st), node)
        r = I.alloc(st, a.args[0], node)
        for f in I.hfields(st, a):
            I.hset(st, r, f, I.hget(st, a, f))
        return r.P()
    return x


@fn("functools.partial")
def _partial(L, args, kw, st, node):
    return Atom("partial", args[0], tup(*args[1:]), tup(*[tup(S(k), v) for k, v in kw.items()])).P()


@fn("itertools.product")
def _product(L, args, kw, st, node):
    I = L.I
    svs = [I.iterate(a, st, node) for a in args]
    n = as_int(kw["repeat"]) if "repeat" in kw else 1
    svs = svs * n

    def go(i, pre):
        if i == len(svs):
            return [it(tup(*pre))]
        out = []
        for s in seq_segs(svs[i]):
            if s.kind == "it":
                out += go(i + 1, pre + [s.args[0]])
            elif s.kind == "rep":
                xs, (hi, inner) = X.unbind(s)
                T.BINDER_HI[xs[0].key] = hi
                if len(inner) != 1 or inner[0].kind != "it":
                    I.unsup("product", node)
                out.append(rep(xs[0], hi, go(i + 1, pre + [inner[0].args[0]])))
            else:
                I.unsup("product", node)
        return out
    return mkseq(go(0, []))


@fn("itertools.chain")
def _chain(L, args, kw, st, node):
    out = []
    for a in args:
        out += list(seq_segs(L.I.iterate(a, st, node)))
    return mkseq(out)


@fn("itertools.chain.from_iterable")
def _chainfi(L, args, kw, st, node):
    out = []
    for s in seq_segs(L.I.iterate(args[0], st, node)):
        if s.kind == "it":
            out += list(seq_segs(L.I.iterate(s.args[0], st, node)))
        else:
            L.I.unsup("chain", node)
    return mkseq(out)


# ================================================================ numpy
@fn("numpy.sqrt")
def _sqrt(L, args, kw, st, node):
    x = L.num(args[0], st)
    if L.isarr(x):
        return L.nd_map(x.atom(), lambda i: mksqrt(L.nd_get(x.atom(), i, st, node)), st, node)
    return mksqrt(x)


def shape_of(L, v, st, node):
    a = v.atom()
    if a is not None and (a.kind in ("tuple", "seq") or L.islist(a)):
        segs = seq_segs(L.I.iterate(v, st, node))
        if all(s.kind == "it" for s in segs):
            return [L.num(s.args[0], st) for s in segs]
        L.I.unsup("shape", node)
    return [L.num(v, st)]


@fn("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full")
def _zeros(L, args, kw, st, node):
    nm = ast.unparse(node.func).split(".")[-1]
    shp = args[0] if args else kw.get("shape")
    sa = shp.atom()
    if sa is not None and sa.kind == "attr" and sa.args[1] == "shape":
        return L.opaque("numpy." + nm, args, kw, st, node, pure=True)
    if T.sort_of(shp) == "num" and sa is not None and sa.kind in ("ext", "item", "len"):
        return L.opaque("numpy." + nm, args, kw, st, node, pure=True)
    if sa is not None and sa.kind in ("tuple",) and any(T.sort_of(x) == "obj" for x in sa.args):
        return L.opaque("numpy." + nm, args, kw, st, node, pure=True)
    shape = shape_of(L, shp, st, node)
    base = ZERO if nm in ("zeros", "empty") else ONE if nm == "ones" else (args[1] if len(args) > 1 else kw["fill_value"])
    return L.new_array(st, node, shape, base)


@fn("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray")
def _array(L, args, kw, st, node):
    I = L.I
    x = args[0]
    a = x.atom()
    if L.isarr(x):
        if "asarray" in ast.unparse(node.func):
            return x
        return L.new_array(st, node, L.shape(a, st), *I.hget(st, a, "val").atom().args)
    if a is not None and (a.kind in ("tuple", "seq") or L.islist(a)):
        sv = I.iterate(x, st, node)
        segs = seq_segs(sv)
        rows = []
        for s in segs:
            if s.kind != "it":
                return L.opaque("numpy.array", args, {}, st, node, pure=True)
            r = s.args[0]
            ra = r.atom()
            if ra is not None and (ra.kind == "tuple" or L.islist(ra)):
                inner = seq_segs(I.iterate(r, st, node))
                if not all(z.kind == "it" for z in inner):
                    return L.opaque("numpy.array", args, {}, st, node, pure=True)
                rows.append([z.args[0] for z in inner])
            else:
                rows.append(r)
        if rows and all(isinstance(r, list) for r in rows) and len({len(r) for r in rows}) == 1:
            ups = tuple(upd([], ONE, (const(i), const(j)), v) for i, r in enumerate(rows) for j, v in enumerate(r))
            if all(T.sort_of(v) == "num" for r in rows for v in r):
                return L.new_array(st, node, [const(len(rows)), const(len(rows[0]))], ZERO, ups)
        if all(isinstance(r, P) and T.sort_of(r) == "num" for r in rows):
            return L.new_array(st, node, [const(len(rows))], ZERO, tuple(upd([], ONE, (const(i),), v) for i, v in enumerate(rows)))
    return L.opaque("numpy.array", args, {}, st, node, pure=True)


@fn("numpy.zeros_like", "numpy.empty_like", "numpy.ones_like")
def _zeros_like(L, args, kw, st, node):
    one = "ones" in ast.unparse(node.func)
    if L.isarr(args[0]):
        return L.new_array(st, node, L.shape(args[0].atom(), st), ONE if one else ZERO)
    return Atom("ext", "numpy.full_like", (L.deref(args[0], st), ONE if one else ZERO), ()).P()


@fn("numpy.linspace")
def _linspace(L, args, kw, st, node):
    start, stop, num, endpoint = sig("start stop num=50 endpoint=True dtype=None", args, {k: v for k, v in kw.items()})[:4]
    n = num if num is not None else const(50)
    ep = True if endpoint is None else bool(as_int(endpoint))
    d = (stop - start) / (n - ONE if ep else n)
    i = fresh_idx(n, "l")
    return L.new_array(st, node, [n], ZERO, (upd([(i, n)], ONE, (i.P(),), start + d * i.P()),))


@meth("ndarray", "tolist")
@meth("ndarray", "flatten")
def _tolist(L, a, x, args, kw, st, node):
    shape = L.shape(a, st)
    if len(shape) == 1:
        i = fresh_idx(shape[0], "l")
        n = as_int(shape[0])
        if n is not None and n <= 24:
            sv = mkseq([it(L.nd_get(a, (const(k),), st, node)) for k in range(n)])
        else:
            sv = mkseq([rep(i, shape[0], (it(L.nd_get(a, (i.P(),), st, node)),))])
        return L.I.new_list(st, sv, node)
    n = [as_int(k) for k in shape]
    name = node.func.attr if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) else "tolist"
    if all(k is not None for k in n):
        import itertools
        if name == "flatten":
            return L.I.new_list(st, mkseq([it(L.nd_get(a, [const(k) for k in ix], st, node)) for ix in itertools.product(*map(range, n))]), node)
        if len(n) == 2:
            rows = []
            for r in range(n[0]):
                L.I.ctx.append(f"row{r}")
                rows.append(it(L.I.new_list(st, mkseq([it(L.nd_get(a, (const(r), const(k)), st, node)) for k in range(n[1])]), node)))
                L.I.ctx.pop()
            return L.I.new_list(st, mkseq(rows), node)
    return L.opaque(".tolist", [x], {}, st, node, pure=True)


@meth("ndarray", "copy")
def _ndcopy(L, a, x, args, kw, st, node):
    r = L.I.alloc(st, "ndarray", node)
    L.I.hset(st, r, "val", L.I.hget(st, a, "val"))
    L.I.hset(st, r, "shape", L.I.hget(st, a, "shape"))
    return r.P()


@meth("ndarray", "fill")
def _ndfill(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "val", mkfam(args[0], ()))
    return NONE


@meth("ndarray", "astype")
def _astype(L, a, x, args, kw, st, node):
    return _ndcopy(L, a, x, [], {}, st, node)


@meth("ndarray", "sum")
def _ndsum(L, a, x, args, kw, st, node):
    if args or kw:
        return L.opaque(".sum", [x] + args, kw, st, node, pure=True)
    return _nd_sum(L, a, st, node)


@meth("ndarray", "max")
@meth("ndarray", "min")
def _ndmax(L, a, x, args, kw, st, node):
    return Atom("ext", node.func.attr, (L.freeze(x, st),), ()).P()


@fn("numpy.dot", "numpy.matmul", "numpy.inner")
def _dot(L, args, kw, st, node):
    a, b = args
    if L.isarr(a) and L.isarr(b):
        sa, sb = L.shape(a.atom(), st), L.shape(b.atom(), st)
        if len(sa) == 1 and len(sb) == 1:
            i = fresh_idx(sa[0])
            return close_sum([(i, sa[0])], L.nd_get(a.atom(), (i.P(),), st, node) * L.nd_get(b.atom(), (i.P(),), st, node))
    return L.opaque("numpy.dot", args, kw, st, node, pure=True)


def _elementwise(paths, f):
    for p in paths:
        def g(L, args, kw, st, node, f=f, p=p):
            x = L.num(args[0], st)
            if L.isarr(x):
                return L.nd_map(x.atom(), lambda i: f(L.nd_get(x.atom(), i, st, node)), st, node)
            return f(x)
        Lib.FN[p] = g


def trig(name):
    def f(p):
        c = p.const()
        if c == 0:
            return ZERO if name in ("sin", "tan", "sinh") else ONE
        if name in ("sin", "cos"):
            lead = min(p.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
            if lead[1] < 0:
                r = Atom(name, -p).P()
                return -r if name == "sin" else r
        return Atom(name, p).P()
    T.CONSTRUCT[name] = f
    T.SORT[name] = lambda a: "field" if T.sort_of(a.args[0]) == "field" else "num"
    return f


for _n in ("sin", "cos", "tan", "exp", "log", "tanh", "sinh", "cosh"):
    _elementwise(["numpy." + _n, "math." + _n, "sympy." + _n], trig(_n))


@fn("numpy.negative")
def _npneg(L, args, kw, st, node):
    return L.binop(ast.Mult(), const(-1), args[0], st, node)


for _nm, _op in (("add", ast.Add), ("subtract", ast.Sub), ("multiply", ast.Mult), ("divide", ast.Div)):
    def _mkop(o):
        def f(L, args, kw, st, node):
            return L.binop(o(), args[0], args[1], st, node)
        return f
    Lib.FN["numpy." + _nm] = _mkop(_op)


# ================================================================ sympy
@fn("sympy.symbols", "sympy.Symbol")
def _symbols(L, args, kw, st, node):
    names = strval(args[0]).replace(",", " ").split()
    vs = [Atom("symv", n).P() for n in names]
    return vs[0] if len(vs) == 1 else tup(*vs)


def pdiff(p, x):
    """Derivative of a polynomial in atom x."""
    r = ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            rest = P({tuple(z for i, z in enumerate(m) if i != k): c})
            if a is x:
                r = r + rest * const(e) * (x.P() ** (e - 1))
            elif x in T.atoms_of(a.P()):
                if a.kind == "lag":
                    q, j, d, t = a.args
                    r = r + rest * Atom("lag", q, j, d + 1, t).P() * (P({((a, e - 1),): Fr(e)}) if e != 1 else ONE) * pdiff(t, x)
                elif a.kind in DERIV:
                    inner = a.args[0]
                    r = r + rest * DERIV[a.kind](inner) * pdiff(inner, x) * (P({((a, e - 1),): Fr(e)}) if e != 1 else ONE)
                elif a.isbool:
                    continue
                else:
                    raise Unsupported(f"derivative of {a.kind}")
    return r


DERIV = {
    "sin": lambda p: Lib_trig("cos")(p),
    "cos": lambda p: -Lib_trig("sin")(p),
    "exp": lambda p: Lib_trig("exp")(p),
}


def Lib_trig(n):
    return T.CONSTRUCT[n]


@fn("sympy.diff")
def _diff(L, args, kw, st, node):
    p, x = L.num(args[0], st), args[1].atom()
    n = 1
    if len(args) > 2:
        n = as_int(args[2])
        if n is None:
            raise Unsupported("diff order")
    for _ in range(n):
        p = pdiff(p, x)
    return p


def pinteg(p, x, lo, hi):
    r = ZERO
    for m, c in p.t.items():
        e = 0
        rest = []
        opaque = []
        for a, k in m:
            if a is x:
                e = k
            elif x in T.atoms_of(a.P()):
                opaque.append((a, k))
            else:
                rest.append((a, k))
        rp = P({tuple(rest): c})
        if opaque:
            body = P({tuple(opaque): Fr(1)}) * x.P() ** e
            body = subst(body, {x: Atom("bv", "t", 0).P()})
            r = r + rp * Atom("integ", body, lo, hi).P()
            continue
        if e == -1:
            raise Unsupported("integral of 1/x")
        r = r + rp * (hi ** (e + 1) - lo ** (e + 1)) * const(Fr(1, e + 1))
    return r


@fn("sympy.integrate")
def _integrate(L, args, kw, st, node):
    p = L.num(args[0], st)
    t = args[1].atom()
    if t is None or t.kind != "tuple" or len(t.args) != 3:
        L.I.unsup("integrate without limits", node)
    return pinteg(p, t.args[0].atom(), t.args[1], t.args[2])


for _p in ("expand", "simplify", "factor", "sympify", "S", "nsimplify", "Rational", "Float", "Integer", "N"):
    def _idsym(L, args, kw, st, node):
        if len(args) == 2 and "Rational" in ast.unparse(node.func):
            return args[0] / args[1]
        return L.num(args[0], st)
    Lib.FN["sympy." + _p] = _idsym


@meth("symv", "x")
def _nop(L, *a):
    return NONE


def _sympy_methods():
    def method_value(self, x, name, args, kw, st, node):
        if name == "subs" and len(args) == 2 and args[0].atom() is not None:
            return subst(x, {args[0].atom(): self.num(args[1], st)})
        if name == "diff" and args and args[0].atom() is not None and args[0].atom().kind == "symv":
            return pdiff(x, args[0].atom())
        if name == "integrate" and args:
            return _integrate(self, [x] + args, kw, st, node)
        if name in ("evalf", "expand", "simplify", "n", "item", "conjugate"):
            return x
        return self.opaque("." + name, [x] + args, kw, st, node)
    Lib.method_value = method_value


_sympy_methods()


@fn("mpi4py.MPI.COMM_WORLD.Get_rank")
@fn("petsc4py.PETSc.COMM_WORLD.getRank")
def _get_rank(L, args, kw, st, node):
    return T.sym("mpi_rank", "isym")


@fn("mpi4py.MPI.COMM_WORLD.Get_size")
@fn("petsc4py.PETSc.COMM_WORLD.getSize")
def _get_size(L, args, kw, st, node):
    return T.sym("mpi_size", "isym")


@fn("petsc4py.PETSc.COMM_WORLD.tompi4py")
def _tompi(L, args, kw, st, node):
    return Atom("mod", "mpi4py.MPI.COMM_WORLD").P()
