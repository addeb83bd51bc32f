"""C50-C53, C61: the solver drivers.  Each driver module and its solve function are abstractly
interpreted with the space-time object, the Krylov solver wrapper and the mesh generators as
opaque components, for each state of the optional backend."""
from __future__ import annotations

import ast
import cmath
import math
from fractions import Fraction

from . import fem as FE
from . import petsc as PT
from . import term as T
from .checks_mesh import Run as MeshRun, domain_box, shapes
from .checks_time import numeric
from .interp import AlwaysRaises, NONE, S, strval, tup
from .run import Analysis, package_sources
from .term import ONE, ZERO, Atom, P, Unsupported, as_int, cases, const, eq0, ite, neg

SPT, GMR, MES = "dxss.space_time", "dxss.gmres", "dxss.meshes"
T.SORT.update(psolve="cvec", count="num", gsol="cvec")
NPTS = T.sym("npts", "isym")


def fl(x):
    return const(Fraction(x).limit_denominator(10 ** 12))


def drivers():
    out = {}
    for m, (p, tree) in package_sources().items():
        if m.split(".")[-1].startswith("solve"):
            out[m] = (p, tree)
    return out


def src_of(m):
    return package_sources()[m][0]


# ------------------------------------------------------------------ library model
class DrvLib(FE.FemLib):
    """FemLib plus: pointwise arrays, pypardiso solver objects, opaque space-time object."""

    def __init__(self, avail):
        super().__init__()
        self.avail = avail

    def optional_module(self, name, st, I, node):
        if name.split(".")[0] == "pypardiso":
            return ONE if self.avail else ZERO
        return super().optional_module(name, st, I, node)

    # -------------------------------------------------- pointwise arrays
    def par(self, st, node, val):
        r = self.I.alloc(st, "parr", node)
        self.I.hset(st, r, "val", val)
        return r.P()

    def isp(self, v):
        a = v.atom() if isinstance(v, P) else None
        return a is not None and a.kind == "ref" and a.args[0] == "parr"

    def ispts(self, v):
        a = v.atom() if isinstance(v, P) else None
        return a is not None and a.kind == "ref" and a.args[0] == "pts"

    def pval(self, v, st):
        return self.I.hget(st, v.atom(), "val") if self.isp(v) else v

    def scalar(self, v):
        if T.sort_of(v) == "obj":
            a = v.atom()
            if a is not None and a.kind in ("faulty", "undef"):
                return
            raise Unsupported("operand of a pointwise array operation: " + T.show(v)[:60])

    def binop_dom(self, op, a, b, st, node):
        if self.isp(a) or self.isp(b):
            x, y = self.pval(a, st), self.pval(b, st)
            self.scalar(x), self.scalar(y)
            if isinstance(op, ast.Add) and T.is_bool(x) and T.is_bool(y) and self.isp(a) and self.isp(b):
                return self.par(st, node, x + y - x * y)
            if isinstance(op, ast.Mult) and T.is_bool(x) and T.is_bool(y):
                return self.par(st, node, x * y)
            return self.par(st, node, self.keep_unset(self.arith(op, x, y, st, node), x, y))
        return super().binop_dom(op, a, b, st, node)

    def keep_unset(self, r, *ops):
        """Arithmetic with memory that was never written stays unset (0 * nan)."""
        g = ZERO
        for x in ops:
            for c, v in T.cases(x):
                if any(z.kind == "undef" for z in T.atoms_of(v)):
                    g = g + c - g * c
        return r if g == ZERO else ite(g, Atom("undef").P(), r)

    def compare(self, op, a, b, st, node):
        if self.isp(a) or self.isp(b):
            x, y = self.pval(a, st), self.pval(b, st)
            self.scalar(x), self.scalar(y)
            return self.par(st, node, self.I.compare(op, x, y, st, node))
        return super().compare(op, a, b, st, node)

    def invert(self, v, st, node):
        if self.isp(v):
            x = self.pval(v, st)
            if not T.is_bool(x):
                raise Unsupported("~ of a non-boolean array")
            return self.par(st, node, ONE - x)
        return super().invert(v, st, node)

    def num(self, v, st):
        return super().num(v, st)

    def truth(self, a, x, st):
        if self.isp(x):
            raise Unsupported("truth value of an array")
        return super().truth(a, x, st)

    def getitem(self, a, x, k, st, node):
        if self.ispts(x):
            idx = self.index_tuple(k)
            j = as_int(idx[0])
            if j is None or (len(idx) == 2 and not self.full_slice(idx[1])) or len(idx) > 2:
                raise Unsupported("selection from the point array")
            if not -3 <= j < 3:
                return self.I.fault(st, "IndexError", node)
            return self.par(st, node, X[j % 3])
        if self.isp(x):
            if self.isp(k):
                return Atom("psel", self.pval(k, st), self.pval(x, st)).P()
            if k.atom() is not None and self.full_slice(k):
                return x
            raise Unsupported("selection from a pointwise array")
        if a is not None and a.kind == "psolve" and self.full_slice(k):
            return x
        return super().getitem(a, x, k, st, node)

    def getitem_value(self, x, k, st, node):
        if x.atom() is not None and x.atom().kind == "psolve" and k.atom() is not None and self.full_slice(k):
            return x
        return super().getitem_value(x, k, st, node)

    def setitem(self, a, k, v, st, node):
        if a.kind == "ref" and a.args[0] == "parr":
            old = self.I.hget(st, a, "val")
            if self.isp(k):
                m = self.pval(k, st)
                if not T.is_bool(m):
                    raise Unsupported("index array")
            elif k.atom() is not None and (self.full_slice(k) or k.atom().kind == "ellipsis"):
                m = ONE
            else:
                raise Unsupported("store into a pointwise array")
            va = v.atom()
            if va is not None and va.kind in ("psel", "cfull"):
                sel = va.args[0]
                if sel != m:
                    self.I.event(st, "shape", (sel, m), node)
                v = va.args[1]
            elif self.isp(v):
                if m != ONE:
                    raise Unsupported("array of all points stored at selected points")
                v = self.pval(v, st)
            self.scalar(v)
            self.I.hset(st, a, "val", ite(m, v, old))
            return
        super().setitem(a, k, v, st, node)

    def attr(self, a, x, name, st, node):
        if self.ispts(x):
            if name == "shape":
                return tup(const(3), NPTS)
            if name == "size":
                return const(3) * NPTS
            raise Unsupported("attribute of the point array: " + name)
        if self.isp(x):
            if name == "shape":
                return tup(NPTS)
            if name == "size":
                return NPTS
            if name in ("T", "real"):
                return x
            if name == "dtype":
                return Atom("mod", "numpy.float64").P()
            if name in ("astype", "copy", "flatten", "ravel", "view", "sum", "fill"):
                return Atom("attr", x, name).P()
            raise Unsupported("attribute of a pointwise array: " + name)
        return super().attr(a, x, name, st, node)

    def iterate(self, a, st, node):
        if a.kind == "ref" and a.args[0] == "pts":
            from .interp import it, mkseq
            rows = []
            for j, x in enumerate(X):
                self.I.ctx.append(f"row{j}")
                rows.append(it(self.par(st, node, x)))
                self.I.ctx.pop()
            return mkseq(rows)
        if a.kind == "ref" and a.args[0] == "parr":
            raise Unsupported("iteration over the points")
        return super().iterate(a, st, node)

    def set_ndarray(self, a, v, st):
        if a.kind == "ref" and a.args[0] == "parr":
            self.I.hset(st, a, "val", self.pval(v, st))
            return
        super().set_ndarray(a, v, st)

    def method(self, obj, name, args, kw, st, node):
        if self.isp(obj):
            x = self.pval(obj, st)
            if name in ("astype", "copy", "flatten", "ravel", "view"):
                return self.par(st, node, self.cast(x, name, args[0] if args and name in ("astype", "view") else kw.get("dtype")))
            if name == "sum":
                return self.count(x)
            if name == "fill":
                self.I.hset(st, obj.atom(), "val", args[0])
                return NONE
            raise Unsupported("method of a pointwise array: " + name)
        return super().method(obj, name, args, kw, st, node)

    def cast(self, x, name, dt):
        """x converted to another element type: exact for truth values and between floating types."""
        s = name + " " + (T.show(dt) if dt is not None else "")
        c = x.const()
        if T.is_bool(x) or c in (0, 1) or not any(z in s for z in ("int", "bool", "32", "16", "single", "half", "str", "object")):
            return x
        if c is not None and "int" not in s and "bool" not in s:
            return x
        raise Unsupported("conversion of a pointwise array by " + s)

    def count(self, m):
        if not T.is_bool(m):
            raise Unsupported("sum of a pointwise array")
        return NPTS if m == ONE else ZERO if m == ZERO else Atom("count", m).P()

    def size_arg(self, v):
        """number of points, a mask count, or None"""
        a = v.atom()
        if a is not None and a.kind == "tuple" and len(a.args) == 1:
            v = a.args[0]
            a = v.atom()
        if v == NPTS:
            return ONE
        if a is not None and a.kind == "count":
            return a.args[0]
        return None

    def call(self, path, args, kw, st, node):
        p = path[6:] if path.startswith("numpy.") else path
        name = p.split(".")[-1]
        if path.startswith("numpy.") or path in ("builtins.sum", "builtins.len", "builtins.abs", "builtins.int"):
            if name in ("zeros", "ones", "empty", "full") and args:
                m = self.size_arg(args[0])
                if m is None and "shape" in kw:
                    m = self.size_arg(kw["shape"])
                if m is not None:
                    v = ZERO if name == "zeros" else ONE if name == "ones" else Atom("undef").P() if name == "empty" else (args[1] if len(args) > 1 else kw.get("fill_value"))
                    if m == ONE:
                        return self.par(st, node, v)
                    return Atom("cfull", m, v).P()
            flatargs = [y for x in args for y in (x.atom().args if x.atom() is not None and x.atom().kind == "tuple" else [x])]
            if any(self.isp(x) for x in flatargs):
                return self.pfunc(p, args, kw, st, node)
            if any(self.ispts(x) for x in flatargs):
                if name == "len":
                    return const(3)
                raise Unsupported(f"{path} of the point array")
            la = [x.atom() for x in args]
            if p in ("logical_or.reduce", "logical_and.reduce", "any", "all", "column_stack", "stack") and la and self.islist(la[0]):
                from .interp import seq_segs
                segs = seq_segs(self.I.items(la[0], st))
                if all(s.kind == "it" for s in segs) and all(self.isp(s.args[0]) for s in segs):
                    ax = kw.get("axis", args[1] if len(args) > 1 else (ZERO if "reduce" in p else NONE))
                    if as_int(ax) != 0:
                        raise Unsupported(p + " over the points")
                    r = ZERO if "or" in p or p == "any" else ONE
                    for s in segs:
                        x = self.pval(s.args[0], st)
                        r = r + x - r * x if ("or" in p or p == "any") else r * x
                    return self.par(st, node, r)
        return super().call(path, args, kw, st, node)

    def pfunc(self, p, args, kw, st, node):
        v = [self.pval(x, st) for x in args]
        for x in v:
            if x.atom() is None or x.atom().kind != "mod":
                self.scalar(x)
        out = kw.get("out")
        r = None
        if p in ("logical_or", "bitwise_or") and len(v) >= 2:
            r = self.tb(v[0]) + self.tb(v[1]) - self.tb(v[0]) * self.tb(v[1])
        elif p in ("logical_and", "bitwise_and") and len(v) >= 2:
            r = self.tb(v[0]) * self.tb(v[1])
        elif p in ("logical_xor", "bitwise_xor"):
            a, b = self.tb(v[0]), self.tb(v[1])
            r = a + b - const(2) * a * b
        elif p in ("logical_not", "invert", "bitwise_not"):
            r = ONE - self.tb(v[0])
        elif p == "where" and len(v) == 3:
            r = ite(self.tb(v[0]), v[1], v[2])
        elif p in ("zeros_like", "ones_like", "empty_like", "full_like"):
            r = {"zeros_like": ZERO, "ones_like": ONE, "empty_like": Atom("undef").P(), "full_like": v[1] if len(v) > 1 else ZERO}[p]
        elif p in ("array", "asarray", "copy", "float64", "ascontiguousarray", "real", "asfarray", "float32", "int32", "squeeze", "ravel"):
            r = self.cast(v[0], p, args[1] if len(args) > 1 else kw.get("dtype"))
        elif p in ("abs", "absolute", "fabs", "builtins.abs"):
            r = ite(neg(v[0]), -v[0], v[0])
        elif p in ("maximum", "fmax"):
            r = ite(neg(v[0] - v[1]), v[1], v[0])
        elif p in ("minimum", "fmin"):
            r = ite(neg(v[0] - v[1]), v[0], v[1])
        elif p in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            op = dict(less=ast.Lt, less_equal=ast.LtE, greater=ast.Gt, greater_equal=ast.GtE, equal=ast.Eq, not_equal=ast.NotEq)[p]()
            r = self.I.compare(op, v[0], v[1], st, node)
        elif p in ("add", "subtract", "multiply"):
            r = self.arith(dict(add=ast.Add, subtract=ast.Sub, multiply=ast.Mult)[p](), v[0], v[1], st, node)
        elif p == "heaviside":
            r = ite(neg(v[0]), ZERO, ite(eq0(v[0]), v[1], ONE))
        elif p == "clip" and len(v) == 3:
            r = ite(neg(v[0] - v[1]), v[1], ite(neg(v[2] - v[0]), v[2], v[0]))
        elif p in ("sum", "count_nonzero", "builtins.sum"):
            return self.count(v[0])
        elif p in ("builtins.len", "size"):
            return NPTS
        elif p == "isclose" and len(v) >= 2:
            tol = fl(1e-8) + fl(1e-5) * (v[1] if v[1].const() is not None and v[1].const() >= 0 else ONE)
            d = v[0] - v[1]
            r = ONE - neg(tol - ite(neg(d), -d, d))
        elif p in ("flatnonzero",):
            return self.par(st, node, self.tb(v[0]))
        if r is None:
            raise Unsupported(f"numpy.{p} of a pointwise array")
        if out is not None and self.isp(out):
            self.I.hset(st, out.atom(), "val", r)
            return out
        return self.par(st, node, r)

    def tb(self, x):
        if T.is_bool(x):
            return x
        c = x.const()
        if c is not None:
            return ONE if c else ZERO
        raise Unsupported("truth value of a pointwise array element")


X = [T.sym(f"coord{j}") for j in range(3)]


# ------------------------------------------------------------------ pypardiso / space-time models
from .lib import Lib, fn, meth, sig  # noqa: E402


@fn("pypardiso.PyPardisoSolver", "pypardiso.pardiso_wrapper.PyPardisoSolver")
def _pps(L, args, kw, st, node):
    return PT.new(L, st, "PyPardisoSolver", node, fact=NONE, phase=const(13))


@meth("PyPardisoSolver", "factorize")
def _fact(L, a, x, args, kw, st, node):
    (A,) = sig("A", args, kw, "factorize")
    L.I.hset(st, a, "fact", L.freeze(A, st))
    L.I.hset(st, a, "phase", const(12))
    return NONE


@meth("PyPardisoSolver", "set_phase")
def _phase(L, a, x, args, kw, st, node):
    (ph,) = sig("phase", args, kw, "set_phase")
    L.I.hset(st, a, "phase", ph)
    return NONE


@meth("PyPardisoSolver", "=phase")
def _phase_set(L, a, x, v, st, node):
    L.I.hset(st, a, "phase", v)


@meth("PyPardisoSolver", ".phase")
def _phase_get(L, a, x, st, node):
    return L.I.hget(st, a, "phase")


@meth("PyPardisoSolver", "_check_A")
def _cka(L, a, x, args, kw, st, node):
    return NONE


@meth("PyPardisoSolver", "_check_b")
def _ckb(L, a, x, args, kw, st, node):
    A, b = sig("A b", args, kw, "_check_b")
    return arrval(L, b, st)


def arrval(L, b, st):
    a = b.atom()
    if a is not None and a.kind == "view":
        return L.view_get(a, st)
    if a is not None and a.kind == "ref" and a.args[0] == "PETSc.Vec":
        return PT.val_of(L, b, st)
    return b


@meth("PyPardisoSolver", "_call_pardiso")
def _callp(L, a, x, args, kw, st, node):
    A, b = sig("A b", args, kw, "_call_pardiso")
    A, b = L.freeze(A, st), arrval(L, b, st)
    ph, f = as_int(L.I.hget(st, a, "phase")), L.I.hget(st, a, "fact")
    if ph == 33:
        return Atom("psolve", f if f == A else Atom("stale", f, A).P(), b).P()
    if ph == 13:
        L.I.hset(st, a, "fact", A)
        return Atom("psolve", A, b).P()
    return Atom("psolve", Atom("phase", const(ph if ph is not None else -1)).P(), b).P()


@meth("PyPardisoSolver", "solve")
def _psolve(L, a, x, args, kw, st, node):
    A, b = sig("A b", args, kw, "solve")
    return Atom("psolve", L.freeze(A, st), arrval(L, b, st)).P()


@fn("pypardiso.spsolve", "pypardiso.scipy_aliases.spsolve")
def _sps(L, args, kw, st, node):
    A, b = args[0] if args else kw["A"], args[1] if len(args) > 1 else kw["b"]
    return Atom("psolve", L.freeze(A, st), arrval(L, b, st)).P()


# opaque assembled matrices
T.SORT.update(opqmat="obj", csrpart="obj")


@meth("opqmat", "getValuesCSR")
def _csr(L, a, x, args, kw, st, node):
    return tup(*[Atom("csrpart", k, x).P() for k in ("indptr", "indices", "data")])


@meth("opqmat", "createVecs")
@meth("opqmat", "getVecs")
def _vecs(L, a, x, args, kw, st, node):
    def mk(side):
        L.I.ctx.append("side-" + side)
        try:
            return mk1(side)
        finally:
            L.I.ctx.pop()

    def mk1(side):
        return PT.new(L, st, "PETSc.Vec", node, val=ZERO, size=Atom("msize", x, S(side)).P())
    if args or kw:
        s = strval(args[0] if args else list(kw.values())[0])
        return mk("row" if s in ("l", "L", "left") else "col")
    return tup(mk("col"), mk("row"))


@meth("opqmat", "createVecLeft")
def _vl(L, a, x, args, kw, st, node):
    return PT.new(L, st, "PETSc.Vec", node, val=ZERO, size=Atom("msize", x, S("row")).P())


@meth("opqmat", "createVecRight")
def _vr(L, a, x, args, kw, st, node):
    return PT.new(L, st, "PETSc.Vec", node, val=ZERO, size=Atom("msize", x, S("col")).P())


@meth("opqmat", "getSize")
def _gs(L, a, x, args, kw, st, node):
    return tup(Atom("msize", x, S("row")).P(), Atom("msize", x, S("col")).P())


@meth("opqmat", ".size")
def _gsz(L, a, x, st, node):
    return tup(Atom("msize", x, S("row")).P(), Atom("msize", x, S("col")).P())


@meth("opqmat", "assemble")
@meth("opqmat", "assemblyBegin")
@meth("opqmat", "assemblyEnd")
def _asm(L, a, x, args, kw, st, node):
    return NONE


T.SORT.update(msize="num")


@fn("drv.SpaceTime")
def _st(L, args, kw, st, node):
    sg = L.st_sig
    vals = dict(zip(sg, args))
    vals.update(kw)
    o = PT.new(L, st, "drv.ST", node, **{"arg:" + k: v for k, v in vals.items()})
    L.I.event(st, "st", (S("__init__"), o, tup(*args), tup(*[tup(S(k), v) for k, v in sorted(kw.items())]), NONE), node)
    return o


KNOWN = {"get_slab_matrix": "slab", "get_slab_matrix_first_slab": "first", "get_spacetime_matrix": "spacetime"}


def st_method(name):
    @meth("drv.ST", name)
    def h(L, a, x, args, kw, st, node):
        r = NONE
        if name in KNOWN:
            r = Atom("opqmat", KNOWN[name], x).P()
        elif name == "get_spacetime_rhs":
            r = L.I.hget(st, a, "rhs")
            if r is None:
                r = PT.new(L, st, "PETSc.Vec", node, val=Atom("bvec").P(), size=T.sym("ndof", "isym"))
                L.I.hset(st, a, "rhs", r)
        elif name in ("measured_errors", "plot_error", "plot_para_view"):
            u = args[0] if args else list(kw.values())[0] if kw else NONE
            L.I.event(st, "report", (S(name), u, PT.val_of(L, u, st)), node)
            r = Atom("ext", name, (), ()).P()
        elif name in ("set_solver_slab", "set_solver_first_slab"):
            s = args[0] if args else list(kw.values())[0] if kw else NONE
            L.I.hset(st, a, "S" + name[11:], s)
        L.I.event(st, "st", (S(name), x, tup(*args), tup(*[tup(S(k), v) for k, v in sorted(kw.items())]), r), node)
        return r


for _m in list(KNOWN) + ["get_spacetime_rhs", "measured_errors", "plot_error", "plot_para_view", "set_solver_slab", "set_solver_first_slab",
                         "setup_spacetime_finite_elements", "prepare_precondition_gmres"]:
    st_method(_m)


@meth("drv.ST", ".msh")
def _st_msh(L, a, x, st, node):
    return L.I.hget(st, a, "arg:msh")


@fn("drv.get_gmres_solution")
def _gm(L, args, kw, st, node):
    vals = dict(zip(L.gm_sig, args))
    vals.update(kw)
    b = vals.get("b", NONE)
    k = const(len(st.ev))
    sol = PT.new(L, st, "PETSc.Vec", node, val=Atom("gsol", k).P(), size=T.sym("ndof", "isym"))
    L.I.event(st, "gmres", (tup(*[tup(S(a), v) for a, v in sorted(vals.items())]), PT.val_of(L, b, st), Atom("gsol", k).P()), node)
    return tup(sol, Atom("ext", "residual", (k,), ()).P())


# ------------------------------------------------------------------ running a driver
def signature(mod, name, method=None):
    _, tree = package_sources()[mod]
    for n in tree.body:
        if method is None and isinstance(n, ast.FunctionDef) and n.name == name:
            return [a.arg for a in n.args.posonlyargs + n.args.args], n
        if method and isinstance(n, ast.ClassDef) and n.name == name:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == method:
                    return [a.arg for a in m.args.posonlyargs + m.args.args][1:], m
    raise Unsupported(f"{mod}.{name} not found")


def int_params(tree):
    """Module-level names assigned integer, boolean or float literals."""
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant):
            out[n.targets[0].id] = n.value.value
    return out


def vec(A, st, name, val, size):
    A.I.ctx.append("vec-" + name)
    r = PT.new(A.lib, st, "PETSc.Vec", A.node, val=val, size=T.sym(size, "isym"))
    A.I.ctx.pop()
    return r


class Drv:
    def __init__(self, mod, avail, over=None, opaque=True):
        self.mod = mod
        src = package_sources()
        if over:
            p, tree = src[mod]
            for n in tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in over and isinstance(n.value, ast.Constant):
                    n.value = ast.copy_location(ast.Constant(over[n.targets[0].id]), n.value)
        self.lib = DrvLib(avail)
        self.A = A = Analysis(src, self.lib)
        self.src = src
        self.lib.gm_sig = signature(GMR, "get_gmres_solution")[0]
        A.load(SPT).load(GMR).load(MES)
        self.replace(GMR, "get_gmres_solution", "drv.get_gmres_solution")
        if opaque:
            self.lib.st_sig = signature(SPT, "SpaceTime", "__init__")[0]
            self.replace(SPT, "SpaceTime", "drv.SpaceTime")
        for n in src[MES][1].body:
            if isinstance(n, ast.FunctionDef):
                self.replace(MES, n.name, "drv.mesh." + n.name)
        self.base = len(A.st.ev)
        A.load(mod)
        self.loaded = len(A.st.ev)

    def replace(self, mod, name, path):
        k = ("L", ("M", mod), name)
        if k not in self.A.st.store:
            raise Unsupported(f"{mod}.{name} not found")
        self.A.st.store[k] = Atom("mod", path).P()

    def get(self, name):
        return self.A.get(self.mod, name)

    def set(self, name, v):
        self.A.st.store[("L", ("M", self.mod), name)] = v

    def evs(self, start=None, kinds=None):
        def flat(es, g, inloop):
            for e in es:
                h = g * e.guard
                if kinds is None or e.kind in kinds:
                    yield e, h, inloop
                if e.body:
                    yield from flat(e.body, h, True)
        yield from flat(self.A.st.ev[self.base if start is None else start:], ONE, False)

    def faults(self, start=None):
        return [(e, g) for e, g, _ in self.evs(start, ("fault",)) if g != ZERO]

    def st_objects(self):
        return [e.data[1] for e, g, _ in self.evs(kinds=("st",)) if strval(e.data[0]) == "__init__"]


def solve_entry(d):
    f = d.get("solve_problem")
    if f is None:
        raise Unsupported("solve_problem not found")
    return f


def where(mod, fnname=None):
    return src_of(mod) + (f"::{fnname}" if fnname else "")


# ------------------------------------------------------------------ exactness of a slab solver
def judge_solver(rep, d, S_, mat, key, what, w):
    """Apply the solver object S_ to arbitrary vectors and look at what it computes."""
    A = d.A
    st = A.st.copy()
    st.ev = []
    b = vec(A, st, "b", Atom("slabrhs").P(), "nslab")
    x = vec(A, st, "x", Atom("slabold").P(), "nslab")
    A.meth(S_, "solve", b, x, st=st)
    for e in st.ev:
        if e.kind == "fault":
            rep.bad(key + ":fault", f"{what}: using it fails: {e.data[0]} {e.data[1]}", e.where)
            return
    got, rhs = PT.val_of(A.lib, x, st), PT.val_of(A.lib, b, st)
    rep.check(rhs == Atom("slabrhs").P(), key + ":rhs", f"{what}: the solve overwrites its right-hand side", w)
    exact(rep, got, mat, Atom("slabrhs").P(), key, what, w)


T.SORT.update(slabrhs="cvec", slabold="cvec", bvec="cvec", stale="obj", phase="obj")


LOSSY = ("where", "round", "around", "rint", "abs", "clip", "trunc", "nan_to_num", "astype", "float32", "single", "float16", "half", "sort", "unique", "diff", "cumsum", "sorted")


def unwrapped(x, role):
    """An array of a matrix behind copies and conversions that keep every value."""
    while x is not None and x.kind == "ext" and x.args[1]:
        p = x.args[0].split(".")[-1]
        rest = list(x.args[1][1:]) + [v for _, v in x.args[2]]
        s = " ".join(T.show(v) for v in rest)
        if p not in ("array", "asarray", "copy", "ascontiguousarray", "require", "ravel", "flatten", "astype", "asfortranarray", "view"):
            break
        if any(z in s for z in ("32", "16", "single", "half", "bool", "int", "'f'", "'i'")) and not (role != "data" and "int" in s and "16" not in s):
            break
        x = x.args[1][0].atom()
    return x


def csr_of(v):
    """Matrix whose CSR arrays make up this sparse matrix; (None, reason) if it is another one."""
    a = v.atom()
    if a is None or a.kind != "ext":
        return None, f"{T.show(v)[:80]}"
    p = a.args[0].split(".")[-1]
    if a.args[0].startswith(".") and p in ("tocsr", "copy", "sorted_indices") and a.args[1]:
        return csr_of(a.args[1][0])
    if p not in ("csr_matrix", "csr_array", "csc_matrix", "csc_array"):
        raise Unsupported("sparse matrix built by " + a.args[0])
    args, kw = a.args[1], dict(a.args[2])
    v = args[0] if args else kw.get("arg1")
    t = v.atom() if v is not None else None
    if t is None or t.kind != "tuple" or len(t.args) not in (2, 3):
        if t is not None and t.kind == "ext":
            return csr_of(v) if p.startswith("csr") else (None, "converted to another layout")
        raise Unsupported("sparse matrix built from " + T.show(v)[:60])
    if len(t.args) == 2:
        raise Unsupported("sparse matrix from coordinates")
    parts = [x.atom() for x in t.args]
    names = ("data", "indices", "indptr")
    mats = set()
    for x, n in zip(parts, names):
        x = unwrapped(x, n)
        if x is not None and x.kind == "ext" and x.args[0].split(".")[-1] not in LOSSY and any(z.kind == "csrpart" for z in T.atoms_of(x.P())):
            raise Unsupported(f"the {n} array is {T.show(x.P())[:80]}")
        if x is None or x.kind != "csrpart":
            return None, f"its {n} array is {T.show(x.P())[:80] if x is not None else 'a computed value'}, not the {n} array of the assembled matrix"
        if x.args[0] != n:
            return None, f"the {x.args[0]} array of the assembled matrix is used as its {n} array"
        mats.add(x.args[1])
    if len(mats) != 1:
        return None, "its arrays come from different matrices"
    m = mats.pop()
    if p.startswith("csc"):
        return None, "the row-wise arrays are read as column-wise ones, which is the transposed matrix"
    dt = kw.get("dtype")
    if dt is not None and dt.atom() is not None:
        s = T.show(dt).lower()
        if any(z in s for z in ("float32", "float16", "int", "bool", "single", "half")):
            return None, f"its entries are converted to {T.show(dt)}"
    sh = kw.get("shape", args[1] if len(args) > 1 else None)
    if sh is not None and sh.atom() is not None and sh.atom().kind == "tuple" and all(x.atom() is not None and x.atom().kind == "msize" for x in sh.atom().args):
        if [(x.atom().args[0], strval(x.atom().args[1])) for x in sh.atom().args] != [(m, "row"), (m, "col")]:
            return None, "its shape is not that of the assembled matrix"
    return m, None


DIRECT = ("lu", "cholesky", "svd")


def exact(rep, got, mat, rhs, key, what, w):
    a = got.atom()
    if a is None or a.kind not in ("solution", "psolve"):
        rep.bad(key + ":result", f"{what}: the output vector does not hold the solver's result but {T.show(got)[:120]}", w)
        return False
    if a.kind == "psolve":
        op, b = a.args
        if op.atom() is not None and op.atom().kind == "stale":
            f, A_ = op.atom().args
            rep.bad(key + ":factor", f"{what}: the factorisation in use is not that of the matrix to be solved with ({'none was computed' if f == NONE else 'it belongs to another matrix'})", w)
            return False
        if op.atom() is not None and op.atom().kind == "phase":
            rep.bad(key + ":phase", f"{what}: the external solver is called outside its solve phase", w)
            return False
        m, why = csr_of(op)
        if m is None:
            rep.bad(key + ":export", f"{what}: the exported matrix differs from the assembled one: {why}", w)
            return False
    else:
        ev = a.args[0].atom()
        f = dict(ev.args[5])
        b = ev.args[2]
        ty = strval(f["type"]) if f["type"] is not None else None
        pct = strval(f.get("pc.type", NONE)) if f.get("pc.type") is not None else None
        if pct not in DIRECT:
            rep.bad(key + ":direct", f"{what}: the solve is not a direct one (preconditioner type {T.show(f.get('pc.type', NONE))})", w)
            return False
        m = f["pmat"] if ty == "preonly" else f["op"]
        if f["pmat"] != f["op"] and ty != "preonly":
            rep.bad(key + ":direct", f"{what}: factorises another matrix than the operator", w)
            return False
        # later reconfiguration by runtime options cannot be seen
    if not rep.check(m == mat, key + ":matrix", f"{what}: solves with {T.show(m)[:80]} instead of {T.show(mat)[:80]}", w):
        return False
    return rep.check(b == rhs, key + ":b", f"{what}: solves for another right-hand side: {T.show(b)[:100]}", w)


# ------------------------------------------------------------------ C50
def backends(d0):
    """Backend selections to analyse: (label, backend installed, value forced for the selector)."""
    return [("external direct solver", True, None), ("PETSc direct solver", False, None), ("assembled fallback", False, S("assembled"))]


def c50_one(rep, mod, label, avail, force):
    d = Drv(mod, avail)
    A = d.A
    rep.saw({mod, mod + ".solve_problem"})
    w = where(mod, "solve_problem")
    key = f"{mod.split('.')[-1]}:{label}:"
    if force is not None:
        if d.get("SOLVER_TYPE") is None:
            raise Unsupported("SOLVER_TYPE not found")
        d.set("SOLVER_TYPE", force)
    for e, g in d.faults():
        rep.bad(key + "import:" + str(e.data[0]), f"importing the driver fails: {e.data[0]} {e.data[1]}", e.where)
    A.I.faulted = False
    try:
        A.call(solve_entry(d), ONE)
    except AlwaysRaises as ex:
        rep.bad(key + "raises", "solve_problem always fails on this backend: " + "; ".join(str(T.show(r[2]))[:80] for r in ex.raises), w)
        return
    bad = d.faults(d.loaded)
    for e, g in bad:
        rep.bad(key + "fault:" + str(e.data[0]), f"solve_problem can fail on backend '{label}': {e.data[0]} {e.data[1]}", e.where)
    if bad:
        return
    objs = d.st_objects()
    if len(objs) != 1:
        raise Unsupported(f"{len(objs)} space-time objects")
    ST = objs[0]
    sa = ST.atom()
    for e, g, _ in d.evs(kinds=("call",)):
        p = strval(e.data[0])
        a0 = e.data[1].atom().args
        if p.startswith(".") and a0 and a0[0] == ST:
            raise Unsupported("method of the space-time object outside the model: " + p)
    evs = list(d.evs())
    order = {}
    for k, (e, g, l) in enumerate(evs):
        if e.kind == "st":
            order.setdefault(strval(e.data[0]), []).append((k, g, l))
    gm = [(k, e, g, l) for k, (e, g, l) in enumerate(evs) if e.kind == "gmres"]
    ks = [(k, e, g, l) for k, (e, g, l) in enumerate(evs) if e.kind == "solve"]
    reports = [(k, e, g) for k, (e, g, l) in enumerate(evs) if e.kind == "report"]
    rhs = A.I.hget(A.st, sa, "rhs")
    bv = Atom("bvec").P()
    if not gm and not ks:
        rep.bad(key + "solve", f"no solve of the space-time system on backend '{label}'", w)
        return
    want_direct = force is not None
    solved = []
    if gm:
        first = gm[0][0]
        for nm in ("setup_spacetime_finite_elements", "prepare_precondition_gmres"):
            ks_ = [k for k, g, l in order.get(nm, []) if g == ONE]
            if not (ks_ and ks_[0] < first):
                confirm_prepared(rep, mod, key + nm, avail, w, nm)
            else:
                rep.ok(key + nm)
        for nm, mat, what in (("set_solver_slab", "slab", "general slab solver"), ("set_solver_first_slab", "first", "first-slab solver")):
            ks_ = [k for k, g, l in order.get(nm, []) if g == ONE and k < first]
            if not rep.check(bool(ks_), key + nm, f"the preconditioned solve starts before the {what} is set", w):
                continue
            s = A.I.hget(A.st, sa, "S" + nm[11:])
            judge_solver(rep, d, s, Atom("opqmat", mat, ST).P(), key + nm, what, w)
        for k, e, g, l in gm:
            vals = {strval(x.atom().args[0]): x.atom().args[1] for x in e.data[0].atom().args}
            for nm, cls in (("A", "SpaceTimePETScMatrixWrapper"), ("pre", "SpaceTimePETScPreconditionerWrapper")):
                v = vals.get(nm)
                va = v.atom() if v is not None else None
                if va is not None and va.kind == "ref" and va.args[0].startswith("dxss."):
                    have = va.args[0].split(".")[-1]
                    meth_ = "mult" if nm == "A" else "apply"
                    ok = A.I.find_method(va, meth_) is not None and have == cls or (have != cls and other_wrapper(d, va, ST, nm))
                    holds = any(A.I.hget(A.st, va, n) == ST for n in A.I.hfields(A.st, va))
                    rep.check(ok and holds, key + "gmres:" + nm, f"the {'operator' if nm == 'A' else 'preconditioner'} handed to the iteration is a {have}" + ("" if holds else " of another space-time object"), e.where)
                else:
                    rep.bad(key + "gmres:" + nm, f"the {'operator' if nm == 'A' else 'preconditioner'} handed to the iteration is {T.show(v)[:60] if v is not None else 'missing'}", e.where)
            rep.check(vals.get("b") == rhs and e.data[1] == bv, key + "gmres:b", "the right-hand side handed to the iteration is not the assembled one", e.where)
            mx, tol = vals.get("maxsteps"), vals.get("tol")
            for nm, v in (("maxsteps", mx), ("tol", tol)):
                if v is not None and v != NONE and v.const() is not None:
                    rep.check(v.const() > 0, key + "gmres:" + nm, f"{nm}={v.const()} stops the iteration immediately", e.where)
            solved.append(e.data[2])
    for k, e, g, l in ks:
        a = e.data[0].atom()
        w2 = e.where
        got = Atom("solution", e.data[0]).P()
        ok = exact(rep, got, Atom("opqmat", "spacetime", ST).P(), bv, key + "direct", "direct solve of the space-time system", w2)
        # roles of the arguments
        b, x = a.args[3], a.args[4]
        rep.check(x != rhs, key + "direct:x", "the direct solve writes its solution into the right-hand side", w2)
        if ok:
            solved.append(got)
    if rhs is not None:
        rep.check(PT.val_of(A.lib, rhs, A.st) == bv, key + "rhs-kept", "the assembled right-hand side is overwritten", w)
    me = [r for r in reports if strval(r[1].data[0]) == "measured_errors"]
    rep.check(bool(me), key + "report", "no error report although it was asked for", w)
    for k, e, g in reports:
        v = e.data[2]
        rep.check(v in solved, key + "report:" + strval(e.data[0]), f"{strval(e.data[0])} is given {T.show(v)[:80]}, not the computed solution", e.where)
    # without measuring: nothing is reported
    d2 = Drv(mod, avail)
    if force is not None:
        d2.set("SOLVER_TYPE", force)
    d2.A.call(solve_entry(d2))
    me = [e for e, g, _ in d2.evs(kinds=("report",)) if strval(e.data[0]) == "measured_errors"]
    rep.check(not me, key + "no-report", "errors are measured by default", w)
    for e, g in d2.faults(d2.loaded):
        rep.bad(key + "fault2:" + str(e.data[0]), f"solve_problem() can fail on backend '{label}': {e.data[0]} {e.data[1]}", e.where)


def other_wrapper(d, va, ST, nm):
    """A wrapper class other than the two of space_time.py: accept only the opposite as a definite error."""
    have = va.args[0].split(".")[-1]
    if have in ("SpaceTimePETScMatrixWrapper", "SpaceTimePETScPreconditionerWrapper"):
        return False
    raise Unsupported("wrapper class " + have)


def confirm_prepared(rep, mod, key, avail, w, nm):
    """The driver does not call the preparation itself: run the real class and apply the preconditioner once."""
    over = {k: v for k, v in dict(N=2, REF_LVL=1, ORDER=1).items()}
    d = Drv(mod, avail, over, opaque=False)
    objs = d.get("ST")
    if objs is None:
        raise Unsupported("space-time object not found")
    A = d.A
    for s in ("set_solver_slab", "set_solver_first_slab"):
        A.meth(objs, s, Atom("osym", s).P())
    n0 = len(A.st.ev)
    b = vec(A, A.st, "b", Atom("bvec").P(), "ndof")
    x = vec(A, A.st, "x", ZERO, "ndof")
    W = A.call(A.get(SPT, "SpaceTimePETScPreconditionerWrapper"), objs)
    try:
        A.meth(W, "apply", NONE, b, x)
    except AlwaysRaises:
        rep.bad(key, f"the preconditioner is applied before it is prepared ({nm} is not called)", w)
        return
    except Unsupported:
        pass
    flt = [e for e in A.st.ev[n0:] if e.kind == "fault"]
    rep.check(not flt, key, f"the preconditioner is applied before it is prepared ({nm} is not called: {[e.data for e in flt][:1]})", w)


def c50(rep):
    ds = drivers()
    if not ds:
        rep.undecided("drivers", "no driver module found")
        return
    jobs = []
    for m in sorted(ds):
        for label, avail, force in backends(m):
            jobs.append((f"{m}:{label}", c50_one, (m, label, avail, force)))
    rep.pmap(jobs)



# ------------------------------------------------------------------ C51
class Ex:
    """Exponential polynomials in t and the coordinates: {(powers, exponents): coefficient}; a complete zero test."""

    def __init__(self, vars_):
        self.v = vars_

    def const(self, c):
        n = len(self.v)
        return {((0,) * n, (0j,) * n): complex(c)} if c else {}

    def key(self, k):
        return k[0], tuple(complex(round(z.real, 9), round(z.imag, 9)) for z in k[1])

    def add(self, a, b, f=1):
        out = dict(a)
        for k, c in b.items():
            out[k] = out.get(k, 0) + f * c
        return out

    def mul(self, a, b):
        out = {}
        for (p, l), c in a.items():
            for (q, m), d in b.items():
                k = self.key((tuple(x + y for x, y in zip(p, q)), tuple(x + y for x, y in zip(l, m))))
                out[k] = out.get(k, 0) + c * d
        return out

    def of(self, p):
        out = {}
        for mon, c in p.t.items():
            term = self.const(float(c))
            for a, e in mon:
                b = self.atom(a)
                if e < 0 or int(e) != e:
                    k = self.scalar(b)
                    if k is None or k == 0:
                        raise Unsupported("power of a non-constant")
                    b, e = self.const(k ** float(e)), 1
                for _ in range(int(e)):
                    term = self.mul(term, b)
            out = self.add(out, term)
        return out

    def scalar(self, b):
        if not b:
            return 0
        if len(b) == 1:
            (k, c), = b.items()
            if not any(k[0]) and not any(k[1]):
                return c.real if abs(c.imag) < 1e-12 else c
        return None

    def linear(self, b):
        """coefficients and constant of an affine expression"""
        n = len(self.v)
        co, c0 = [0j] * n, 0j
        for (p, l), c in b.items():
            if any(l) or sum(p) > 1:
                raise Unsupported("non-affine argument")
            if sum(p) == 0:
                c0 += c
            else:
                co[p.index(1)] += c
        return co, c0

    def atom(self, a):
        n = len(self.v)
        for j, v in enumerate(self.v):
            if a is v.atom():
                return {(tuple(1 if i == j else 0 for i in range(n)), (0j,) * n): 1 + 0j}
        if a == T.sym("pi").atom():
            return self.const(math.pi)
        name = a.kind if a.kind != "ext" else a.args[0].split(".")[-1]
        arg = a.args[0] if a.kind != "ext" else (a.args[1][0] if a.args[1] else None)
        if name == "sqrt":
            k = self.scalar(self.of(arg))
            if k is None:
                raise Unsupported("square root of a non-constant")
            return self.const(cmath.sqrt(k))
        if name in ("cos", "sin", "exp", "cosh", "sinh"):
            co, c0 = self.linear(self.of(arg))
            u = {"cos": 1j, "sin": 1j, "exp": 1, "cosh": 1, "sinh": 1}[name]

            def e(sgn):
                k = self.key(((0,) * n, tuple(sgn * u * c for c in co)))
                return {k: cmath.exp(sgn * u * c0)}
            if name == "exp":
                return e(1)
            f = {"cos": (0.5, 0.5), "sin": (0.5 / 1j, -0.5 / 1j), "cosh": (0.5, 0.5), "sinh": (0.5, -0.5)}[name]
            return self.add({k: c * f[0] for k, c in e(1).items()}, {k: c * f[1] for k, c in e(-1).items()})
        raise Unsupported("function " + T.show(a.P())[:60])

    def diff(self, b, j):
        out = {}
        for (p, l), c in b.items():
            if l[j]:
                out[(p, l)] = out.get((p, l), 0) + c * l[j]
            if p[j]:
                q = p[:j] + (p[j] - 1,) + p[j + 1:]
                out[(q, l)] = out.get((q, l), 0) + c * p[j]
        return out

    def at(self, b, j, val):
        out = {}
        for (p, l), c in b.items():
            k = (p[:j] + (0,) + p[j + 1:], l[:j] + (0j,) + l[j + 1:])
            out[k] = out.get(k, 0) + c * (val ** p[j] if p[j] else 1) * cmath.exp(l[j] * val)
        return out

    def zero(self, b, scale):
        return all(abs(c) <= 1e-9 * max(scale, 1e-300) for c in b.values())

    def size(self, b):
        return max([abs(c) for c in b.values()] + [0])


def mesh_domain(v):
    """Box of the mesh: list of (lo, hi), and cells per direction or None."""
    a = v.atom()
    if a is not None and a.kind == "item":
        w = a.args[0].atom()
        if w is not None and w.kind == "ext" and w.args[0].startswith("drv.mesh."):
            r = mesh_run(w)
            box = [(float(l), float(h)) for l, h in domain_box(r)]
            return [b for b in box if b[1] > b[0]], None, r
    if a is None or a.kind != "ext":
        raise Unsupported("mesh " + T.show(v)[:60])
    name = a.args[0].split(".")[-1]
    args, kw = list(a.args[1]), dict(a.args[2])
    if a.args[0].startswith("drv.mesh."):
        r = mesh_run(a)
        return [(float(l), float(h)) for l, h in domain_box(r) if h > l], None, r

    def ints(p):
        q = p.atom()
        if q is not None and q.kind == "tuple":
            return [as_int(x) for x in q.args]
        return [as_int(p)]

    def pts(p):
        q = p.atom()
        if q is None or q.kind != "tuple":
            raise Unsupported("mesh corners")
        return [[num_of(z) for z in vecvals(x)] for x in q.args]
    order = {"create_unit_interval": ("comm", "nx"), "create_interval": ("comm", "nx", "points"), "create_unit_square": ("comm", "nx", "ny"),
             "create_unit_cube": ("comm", "nx", "ny", "nz"), "create_rectangle": ("comm", "points", "n"), "create_box": ("comm", "points", "n")}
    if name not in order:
        raise Unsupported("mesh built by " + a.args[0])
    d = dict(zip(order[name], args))
    d.update(kw)
    if name.startswith("create_unit"):
        dim = {"interval": 1, "square": 2, "cube": 3}[name.split("_")[-1]]
        return [(0.0, 1.0)] * dim, [as_int(d[k]) for k in ("nx", "ny", "nz")[:dim]], None
    if name == "create_interval":
        q = vecvals(d["points"])
        return [(num_of(q[0]), num_of(q[1]))], [as_int(d["nx"])], None
    lo, hi = pts(d["points"])
    return list(zip(lo, hi)), ints(d["n"]), None


def num_of(x):
    f = numeric(x)
    if f is None:
        raise Unsupported("number " + T.show(x)[:60])
    return float(f)


def vecvals(p):
    from .interp import fam_read
    q = p.atom()
    if q is not None and q.kind == "tuple":
        return list(q.args)
    if q is not None and q.kind == "ext" and q.args[0] in ("array", "numpy.array", "numpy.asarray"):
        if q.args[0] == "array":
            n = as_int(q.args[1][0].atom().args[0])
            return [fam_read(q.args[1][1], [const(k)]) for k in range(n)]
        return vecvals(q.args[1][0])
    raise Unsupported("vector " + T.show(p)[:60])


def mesh_run(a):
    name = a.args[0][len("drv.mesh."):]
    ps, npos, _ = __import__("dxsa.checks_mesh", fromlist=["generators"]).generators()[name]
    d = dict(zip([p for p, _ in ps], a.args[1]))
    d.update(dict(a.args[2]))
    return MeshRun(name, {k: v.const() for k, v in d.items() if v.const() is not None})


def st_args(d):
    objs = d.st_objects()
    if len(objs) != 1:
        raise Unsupported(f"{len(objs)} space-time objects")
    a = objs[0].atom()
    return lambda n: d.A.I.hget(d.A.st, a, "arg:" + n)


def call_plain(A, f, *args):
    st = A.st.copy()
    st.ev = []
    r = A.call(f, *args, st=st)
    return r, st


def c51_one(rep, mod):
    d = Drv(mod, False)
    A = d.A
    key = mod.split(".")[-1] + ":"
    g = st_args(d)
    box, cells, _ = mesh_domain(g("msh"))
    dim = len(box)
    sol = g("solution")
    t = T.sym("time")
    xs = X[:dim]
    out = []
    for n in ("v", "dvdt"):
        f = A.attr(sol, n)
        if f.atom() is None or f.atom().kind not in ("func", "bound", "mod"):
            raise Unsupported("reference solution " + T.show(f)[:60])
        rep.saw({T.show(f).replace("func(", "").split("#")[0]})
        r, st = call_plain(A, f, t, tup(*xs))
        for e in st.ev:
            if e.kind == "fault":
                rep.bad(key + n + ":fault", f"the reference {'solution' if n == 'v' else 'derivative'} fails: {e.data[0]} {e.data[1]}", e.where)
                return
        out.append(r)
    E = Ex([t] + xs)
    u, du = E.of(out[0]), E.of(out[1])
    w = src_of(mod)
    sc = max(E.size(u), 1e-12)
    ut = E.diff(u, 0)
    diff = E.add(ut, du, -1)
    s = max(E.size(ut), E.size(du))
    rep.check(E.zero(diff, s), key + "derivative", f"the companion function {T.show(out[1])[:120]} is not the time derivative of {T.show(out[0])[:120]}", w + f"::{fname(A, sol, 'dvdt')}")
    utt = E.diff(ut, 0)
    lap = {}
    for j in range(dim):
        lap = E.add(lap, E.diff(E.diff(u, j + 1), j + 1))
    s = max(E.size(utt), E.size(lap))
    rep.check(E.zero(E.add(utt, lap, -1), s), key + "wave-equation", f"the reference solution {T.show(out[0])[:120]} does not satisfy the wave equation", w + f"::{fname(A, sol, 'v')}")
    for j, (lo, hi) in enumerate(box):
        for v in (lo, hi):
            rep.check(E.zero(E.at(u, j + 1, v), sc), key + f"boundary:{'xyz'[j]}={v:g}", f"the reference solution does not vanish at {'xyz'[j]} = {v:g}", w + f"::{fname(A, sol, 'v')}")


def fname(A, o, n):
    a = A.attr(o, n).atom()
    return a.args[0].split(":")[-1].split("#")[0] if a is not None and a.args and isinstance(a.args[0], str) else n


def c51(rep):
    ds = drivers()
    if not ds:
        rep.undecided("drivers", "no driver module found")
    rep.pmap([(m, c51_one, (m,)) for m in sorted(ds)])


# ------------------------------------------------------------------ C52
def configs(mod):
    tree = package_sources()[mod][1]
    ps = int_params(tree)
    out = [{}]
    if "REF_LVL" in ps:
        n = 6
        for x in tree.body:
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "REF_LVL_TO_N" and isinstance(x.value, (ast.List, ast.Tuple)):
                n = len(x.value.elts)
        out = [dict(o, REF_LVL=k) for o in out for k in range(n)]
    if "GCC" in ps and isinstance(ps["GCC"], bool):
        out = [dict(o, GCC=b) for o in out for b in (False, True)]
    return out


def frame(ds, dim):
    return lambda x: any(x[k] < ds or x[k] > 1 - ds for k in range(dim))


def spec(mod, name, over, data_size):
    m = mod.split(".")[-1]
    left = lambda x: x[0] < (0.2 if data_size is None else data_size)
    if m == "solve_1d":
        return {"omega_ind_convex": frame(0.2, 1), "omega_ind_nogcc": lambda x: x[0] < 0.2}.get(name)
    if m == "solve_2d":
        return {"omega_ind_convex": frame(0.2, 2)}.get(name)
    if m == "solve_3d" and data_size is not None:
        return frame(data_size, 3) if over.get("GCC") else left
    return None


THR = {"solve_1d": [0.2, 0.8], "solve_2d": [0.2, 0.8]}


def thresholds(p, dim):
    """Coordinate values at which a comparison in p changes, per coordinate; False if some comparison is not axis-parallel."""
    out = [set() for _ in range(dim)]
    plain = True
    for a in T.atoms_of(p):
        if a.kind in ("neg", "eq0", "lt0", "ltz") or (len(a.args) == 1 and isinstance(a.args[0], P) and T.is_bool(a.P())):
            q = a.args[0]
            vs = [x for x in X if x.atom() in T.atoms_of(q)]
            if len(vs) != 1:
                plain = plain and not vs
                continue
            co = T.subst(q, {vs[0].atom(): ONE}) - T.subst(q, {vs[0].atom(): ZERO})
            c0 = T.subst(q, {vs[0].atom(): ZERO})
            if co.const() and c0.const() is not None and T.subst(q, {vs[0].atom(): const(2)}) == co * const(2) + c0:
                j = X.index(vs[0])
                if j < dim:
                    out[j].add(float(-c0.const() / co.const()))
            else:
                plain = False
    return out, plain


def value_at(p, pt):
    v = T.subst(p, {X[j].atom(): fl(pt[j]) for j in range(len(pt))})
    c = v.const()
    if c is None:
        f = numeric(v)
        if f is None:
            raise Unsupported("indicator value " + T.show(v)[:60])
        return float(f)
    return float(c)


def to_coords(p):
    """UFL coordinate components by the generic coordinates; conditionals by their value."""
    for _ in range(6):
        mp = {}
        for a in T.atoms_of(p):
            if a.kind == "uop" and a.args[0] == "x":
                q = a.args[1].atom() if isinstance(a.args[1], P) else None
                k = as_int(q.args[-1]) if q is not None and q.kind == "tuple" else None
                if k is not None:
                    mp[a] = X[k]
        if not mp:
            break
        p = T.subst(p, mp)
    for _ in range(6):
        mp = {a: ite(a.args[0], a.args[1], a.args[2]) for a in T.atoms_of(p) if a.kind == "cond" and len(a.args) == 3 and all(isinstance(z, P) for z in a.args)}
        if not mp:
            break
        p = T.subst(p, mp)
    return p


def axis_points(ts, lo, hi):
    cs = sorted({lo, hi} | {t for t in ts if lo < t < hi})
    out = []
    for a, b in zip(cs, cs[1:]):
        if b - a > 1e-6:
            out.append((a + b) / 2)
    return out, cs


def grid(axes):
    import itertools
    return itertools.product(*axes)


def indicator_value(rep, d, f, key, w):
    """Value of the indicator at a generic point, or None after reporting."""
    A = d.A
    a = f.atom()
    if a is not None and a.kind in ("func", "bound"):
        st = A.st.copy()
        st.ev = []
        A.I.ctx.append("pts")
        x = A.I.alloc(st, "pts", A.node).P()
        A.I.ctx.pop()
        try:
            v = A.call(f, x, st=st)
        except AlwaysRaises as e:
            rep.bad(key + "raises", "evaluating the indicator always fails: " + "; ".join(T.show(r[2])[:80] for r in e.raises), w)
            return None
        for e in st.ev:
            if e.kind == "fault":
                rep.bad(key + "fault", f"evaluating the indicator fails: {e.data[0]} {e.data[1]}", e.where)
                return None
            if e.kind == "shape":
                rep.bad(key + "shape", "an array as long as one set of points is stored at another set of points: fails unless both happen to have the same size", e.where)
                return None
        if not d.lib.isp(v):
            if v.const() is not None or v == NONE:
                rep.bad(key + "array", f"the indicator returns {T.show(v)[:60]}, not one value per point", w)
                return None
            raise Unsupported("indicator result " + T.show(v)[:60])
        return A.I.hget(st, v.atom(), "val")
    return None


def c52_cfg(rep, mod, over):
    d = Drv(mod, False, over)
    A = d.A
    lab = ",".join(f"{k}={v}" for k, v in over.items())
    m = mod.split(".")[-1]
    key = m + (f"[{lab}]:" if lab else ":")
    for e, g in d.faults():
        rep.bad(key + "import:" + str(e.data[0]), f"the driver cannot be imported with {lab or 'its settings'}: {e.data[0]} {e.data[1]}", e.where)
        return
    g = st_args(d)
    box, cells, mrun = mesh_domain(g("msh"))
    dim = len(box)
    ma = g("msh").atom()
    if ma.kind == "item" and mrun is not None and "n_ref" in mrun.params:
        j, n = as_int(ma.args[1]), mrun.params["n_ref"].const()
        if j is not None and n is not None:
            rep.check(-n - 1 <= j <= n, key + "level", f"mesh level {j} of a hierarchy of {n + 1} meshes", src_of(mod))
    dsz = d.get("DATA_SIZE")
    dsz = float(dsz.const()) if dsz is not None and dsz.const() is not None else None
    om = g("omega")
    f, fitted = A.attr(om, "indicator_function"), A.attr(om, "fitted").const()
    if fitted is None:
        raise Unsupported("fitted flag")
    funcs = {}
    tree = package_sources()[mod][1]
    names = sorted({n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.name.startswith("omega")})
    for n in names:
        v = d.get(n)
        if v is not None and v.atom() is not None and v.atom().kind in ("func", "bound"):
            funcs[n] = v
    used = None
    for n, v in funcs.items():
        if v == f:
            used = n
    todo = dict(funcs)
    if used is None:
        todo["(used)"] = f
    isf = f.atom() is not None and f.atom().kind in ("func", "bound")
    rep.check(isf == bool(fitted), key + "kind", "a data domain declared " + ("fitted has an expression instead of a function of points" if fitted else "unfitted has a function of points, which cannot stand in a form"), src_of(mod))
    for n, fn_ in todo.items():
        w = f"{src_of(mod)}::{n}"
        k2 = key + n + ":"

        def one(n=n, fn_=fn_, w=w, k2=k2):
            a = fn_.atom()
            if a is not None and a.kind in ("func", "bound"):
                p = indicator_value(rep, d, fn_, k2, w)
                if p is None:
                    return
                rep.saw({f"{mod}.{n}"})
            else:
                p = to_coords(fn_)
            nm = n if n != "(used)" else "omega_ind"
            sp = spec(mod, nm, over, dsz)
            cand = [sp] if sp is not None else [z for z in (spec(mod, q, over, dsz) for q in ("omega_ind_convex", "omega_ind_nogcc", "omega_ind")) if z is not None]
            ts, plain = thresholds(p, dim)
            extra = THR.get(m, []) + ([dsz, 1 - dsz] if dsz is not None else [])
            axes, cuts = [], []
            for j in range(dim):
                pts, cs = axis_points(ts[j] | set(extra), *box[j])
                if not plain:
                    nn = {1: 97, 2: 23, 3: 9}[dim]
                    pts = sorted(set(pts) | {box[j][0] + (box[j][1] - box[j][0]) * (i + 0.4713) / nn for i in range(nn)})
                axes.append(pts)
                cuts.append(cs)
            vals = {}
            for pt in grid(axes):
                und = T.subst(p, {X[j].atom(): fl(pt[j]) for j in range(dim)})
                if any(z.kind == "undef" for z in T.atoms_of(und)):
                    rep.bad(k2 + "unset", f"the indicator leaves the value at {fmt(pt)} unset", w)
                    return
                vals[pt] = value_at(p, pt)
            badv = [(pt, v) for pt, v in vals.items() if v not in (0.0, 1.0)]
            if not rep.check(not badv, k2 + "zero-one", f"the indicator takes the value {badv[0][1] if badv else 0:g} at {fmt(badv[0][0]) if badv else ''}", w):
                return
            if cand:
                wrong = [[pt for pt, v in vals.items() if bool(v) != bool(c(pt))] for c in cand]
                best = min(wrong, key=len)
                rep.check(not best, k2 + "region", f"the indicator is {vals[best[0]] if best else 0:g} at {fmt(best[0]) if best else ''}, which is {'outside' if best and vals[best[0]] else 'inside'} the data region", w)
            if fitted and (n == used or n == "(used)" or used is None or m != "solve_3d"):
                aligned(rep, k2, vals, axes, cuts, box, cells, mrun, plain, w)
        rep.guard(k2, one)


def fmt(pt):
    return "(" + ", ".join(f"{x:.4g}" for x in pt) + ")"


def aligned(rep, key, vals, axes, cuts, box, cells, mrun, plain, w):
    """Wherever the indicator jumps the mesh must have facets."""
    if not plain:
        raise Unsupported("interface not axis-parallel")
    dim = len(axes)
    live = None
    if mrun is not None:
        live, hist, _ = shapes(mrun, {v.atom(): const(_default(mrun, p)) for p, v in mrun.params.items() if v is not None and v.atom() is not None and _default(mrun, p) is not None})
    bad = None
    njump = 0
    for pt in vals:
        for j in range(dim):
            i = axes[j].index(pt[j])
            if i + 1 >= len(axes[j]):
                continue
            q = pt[:j] + (axes[j][i + 1],) + pt[j + 1:]
            if vals[pt] == vals[q]:
                continue
            c = [x for x in cuts[j] if pt[j] < x < q[j]]
            if not c:
                continue
            c = c[0] if len(c) == 1 else sum(c) / len(c)
            njump += 1
            if cells is not None:
                lo, hi = box[j]
                z = (c - lo) / (hi - lo) * cells[j]
                if abs(z - round(z)) > 1e-6:
                    bad = (j, c, f"not a multiple of the cell size 1/{cells[j]}")
            else:
                eps = 1e-7
                a = tuple(pt[:j]) + (c - eps,) + tuple(pt[j + 1:]) + (0,) * (3 - dim)
                b = tuple(pt[:j]) + (c + eps,) + tuple(pt[j + 1:]) + (0,) * (3 - dim)
                from .checks_mesh import covers
                top = max(dd for dd, _ in live)
                ca = {k for k, s in live.items() if k[0] == top and covers(s, a, dim)}
                cb = {k for k, s in live.items() if k[0] == top and covers(s, b, dim)}
                if ca == cb:
                    bad = (j, c, "inside one piece of the mesh generator's geometry")
    if njump == 0:
        rep.bad(key + "interface", "the data domain declared fitted has no interface inside the domain (it is empty or everything)", w)
        return
    rep.check(bad is None, key + "fitted", f"the interface {'xyz'[bad[0]]} = {bad[1]:.6g} of the data domain declared fitted is {bad[2]}" if bad else "", w)


def _default(r, p):
    from .checks_mesh import default_of
    return default_of(r, p)


def c52(rep):
    ds = drivers()
    if not ds:
        rep.undecided("drivers", "no driver module found")
    jobs = []
    for m in sorted(ds):
        for o in configs(m):
            jobs.append((m + str(o), c52_cfg, (m, o)))
    rep.pmap(jobs)


# ------------------------------------------------------------------ C53
def c53_import(rep, mod):
    """Import with and without the optional backend."""
    w = src_of(mod)
    key = mod.split(".")[-1] + ":"
    rep.saw({mod})
    try:
        d = Drv(mod, False)
    except Unsupported as e:
        if "always raises on import" not in str(e):
            raise
        Drv(mod, True)          # importable when installed: the absence is the cause
        rep.bad(key + "import", "importing the driver fails when the optional backend is absent: " + str(e), w)
        return
    flt = d.faults()
    rep.check(not flt, key + "import", f"importing the driver without the optional backend fails: {flt[0][0].data[0]} {flt[0][0].data[1]}" if flt else "", flt[0][0].where if flt else w)
    rep.check(d.A.st.pc == ONE, key + "import-all", "importing the driver without the optional backend fails on some path", w)
    use = [e for e, g, _ in d.evs() if e.kind == "call" and strval(e.data[0]).startswith("pypardiso") and g != ZERO]
    rep.check(not use, key + "import-use", "the absent backend is called on import", use[0].where if use else w)
    # the solve under the default backend
    d.A.call(solve_entry(d), ONE)
    flt = d.faults(d.loaded)
    rep.check(not flt, key + "run", f"solve_problem without the optional backend fails: {flt[0][0].data[0]} {flt[0][0].data[1]}" if flt else "", flt[0][0].where if flt else w)
    gm = [(e, g) for e, g, _ in d.evs(d.loaded) if e.kind == "gmres" and g != ZERO]
    if not [e for e in flt if e[0].guard == ONE]:
        rep.check(bool(gm), key + "default", "without the optional backend solve_problem does not select the default (GMRES with PETSc LU slab solvers) backend", w)
    use = [e for e, g, _ in d.evs(d.loaded) if g != ZERO and touches(e)]
    rep.check(not use, key + "touch", "the default backend refers to the absent package", use[0].where if use else w)


def touches(e):
    return e.kind == "call" and strval(e.data[0]).startswith("pypardiso")


def c53_adapter(rep, mod):
    key = mod.split(".")[-1] + ":PySolver:"
    w = where(mod, "PySolver.__init__")
    for avail in (False, True):
        d = Drv(mod, avail)
        cls = d.get("PySolver")
        if cls is None:
            raise Unsupported("PySolver not found")
        rep.saw({mod + ".PySolver"})
        st = d.A.st.copy()
        st.ev = []
        try:
            d.A.call(cls, NONE, NONE, st=st)
        except AlwaysRaises as ex:
            rep.bad(key + f"raises{avail}", "constructing the adapter fails " + ("although" if avail else "instead of warning when") + " the optional backend is " + ("installed" if avail else "absent"), w)
            continue
        flt = [e for e in st.ev if e.kind == "fault"]
        rep.check(not flt, key + f"fault{avail}", f"constructing the adapter fails: {flt[0].data if flt else ''}", flt[0].where if flt else w)
        warn = ZERO
        for e in st.ev:
            if e.kind == "warn" or (e.kind == "call" and strval(e.data[0]) in ("warnings.warn", "warnings.warn_explicit")):
                warn = warn + e.guard - warn * e.guard
        if not avail:
            rep.check(warn == ONE, key + "warns", "constructing the adapter without the optional backend does not warn", w)
        else:
            rep.check(warn == ZERO, key + "silent", "constructing the adapter warns although the optional backend is installed", w)
        if not avail and st.pc != ONE:
            rep.bad(key + "raises", "constructing the adapter without the optional backend can fail", w)


def c53_main(rep, mod):
    """The module run as a script without the backend."""
    key = mod.split(".")[-1] + ":script:"
    d = Drv(mod, False)
    tree = package_sources()[mod][1]
    blocks = [n for n in tree.body if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))]
    if not blocks:
        rep.ok(key + "none")
        return
    from .interp import Frame
    A = d.A
    A.st.store[("L", ("M", mod), "__name__")] = S("__main__")
    st = A.st
    for b in blocks:
        n, x = A.I.block([b], st, Frame(("M", mod), (), mod, src_of(mod)))
        if n is None:
            rep.bad(key + "raises", "running the driver as a script without the optional backend always fails", src_of(mod))
            return
        st = n
    flt = [e for e in st.ev[d.loaded:] if e.kind == "fault"]
    rep.check(not flt, key + "run", f"running the driver as a script fails: {flt[0].data if flt else ''}", flt[0].where if flt else src_of(mod))
    use = [e for e in st.ev[d.loaded:] if touches(e)]
    rep.check(not use, key + "touch", "the script refers to the absent package", use[0].where if use else src_of(mod))
    st2 = [e for e in st.ev[d.loaded:] if e.kind in ("gmres", "solve")]
    rep.check(bool(st2), key + "solves", "running the driver as a script solves nothing", src_of(mod))


def c53_package(rep):
    """No other module needs the optional backend."""
    src = package_sources()
    for m in sorted(src):
        if m in drivers() or m.endswith("_version"):
            continue
        lib = DrvLib(False)
        A = Analysis(src, lib)
        key = m + ":import"

        def one():
            try:
                A.load(m)
            except Unsupported as e:
                if "always raises on import" not in str(e):
                    raise
                Analysis(src, DrvLib(True)).load(m)
                rep.bad(key, "importing the module fails when the optional backend is absent", src[m][0])
                return
            rep.ok(key)
        rep.guard(key, one)


def c53(rep):
    ds = drivers()
    if not ds:
        rep.undecided("drivers", "no driver module found")
    jobs = [("package", c53_package, ())]
    for m in sorted(ds):
        jobs += [(m + ":import", c53_import, (m,)), (m + ":adapter", c53_adapter, (m,)), (m + ":script", c53_main, (m,))]
    rep.pmap(jobs)


# ------------------------------------------------------------------ C61
def c61_export(rep):
    lib = DrvLib(True)
    A = Analysis(package_sources(), lib)
    f = A.get(SPT, "get_sparse_matrix")
    w = f"{package_sources()[SPT][0]}::get_sparse_matrix"
    if f is None:
        raise Unsupported("get_sparse_matrix not found")
    M = Atom("opqmat", "any", Atom("osym", "owner").P()).P()
    n0 = len(A.st.ev)
    try:
        r = A.call(f, M)
    except AlwaysRaises:
        rep.bad("export:raises", "exporting a matrix always fails", w)
        return
    flt = [e for e in A.st.ev[n0:] if e.kind == "fault"]
    if flt:
        rep.bad("export:fault", f"exporting a matrix fails: {flt[0].data}", flt[0].where)
        return
    m, why = csr_of(lib.freeze(r, A.st))
    rep.check(m == M, "export", f"the exported matrix differs from the given one: {why}", w)
    for e in A.st.ev[n0:]:
        if e.kind in ("setitem", "write"):
            rep.bad("export:write", "exporting a matrix writes into arrays of the assembled matrix", e.where)
    rep.saw({SPT + ".get_sparse_matrix"})


def c61_adapter(rep, mod):
    d = Drv(mod, True)
    A = d.A
    key = mod.split(".")[-1] + ":"
    cls = d.get("PySolver")
    if cls is None:
        raise Unsupported("PySolver not found")
    rep.saw({mod + ".PySolver.solve"})
    w = where(mod, "PySolver.solve")
    M = Atom("opqmat", "any", Atom("osym", "owner").P()).P()
    sp = A.call(A.get(SPT, "get_sparse_matrix"), M)
    ps = A.call(Atom("mod", "pypardiso.PyPardisoSolver").P())
    A.meth(ps, "factorize", sp)
    o = A.call(cls, sp, ps)
    judge_solver(rep, d, o, M, key + "solve", "external solver adapter", w)
    # the same adapter used a second time
    st0 = len(A.st.ev)
    b = vec(A, A.st, "b0", Atom("slabrhs").P(), "nslab")
    x = vec(A, A.st, "x0", ZERO, "nslab")
    A.meth(o, "solve", b, x)
    judge_solver(rep, d, o, M, key + "again", "external solver adapter used again", w)
    # all drivers hand exported slab matrices to it: checked per backend by C50


def c61(rep):
    rep.guard("export", c61_export, rep)
    for m in sorted(drivers()):
        rep.guard(m, c61_adapter, rep, m)


CHECKS = {"C50": c50, "C51": c51, "C52": c52, "C53": c53, "C61": c61}
