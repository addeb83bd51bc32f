"""Summaries for petsc4py objects: every object is a configuration record."""
from __future__ import annotations

import ast

from . import term as T
from . import interp as X
from .interp import NONE, S, it, mkseq, seq_segs, strval, tup
from .lib import Lib, Arity, fn, meth, sig, is_none
from .term import ONE, ZERO, Atom, P, as_int, cases, const, eq0, ite, lift, neg

PE = "petsc4py.PETSc."


def default(x):
    return Atom("petscdefault", x).P()


T.SORT["petscdefault"] = "num"


def new(L, st, cls, node, **fields):
    r = L.I.alloc(st, cls, node)
    for k, v in fields.items():
        L.I.hset(st, r, k, v)
    return r.P()


def get(L, st, a, f):
    return L.I.hget(st, a, f)


# ---------------------------------------------------------------- creation
@fn(PE + "Mat", PE + "Mat.createPython")
def _mat(L, args, kw, st, node):
    x = new(L, st, "PETSc.Mat", node, ctx=NONE, size=NONE, setup=ZERO, kind=S("empty"))
    if ast.unparse(node.func).endswith("createPython"):
        return mat_create_python(L, x.atom(), x, args, kw, st, node)
    return x


@meth("PETSc.Mat", "createPython")
def mat_create_python(L, a, x, args, kw, st, node):
    size, ctx, comm = sig("size context=None comm=None", args, kw, "Mat.createPython")
    L.I.hset(st, a, "size", size)
    L.I.hset(st, a, "ctx", NONE if ctx is None else ctx)
    L.I.hset(st, a, "kind", S("python"))
    return x


@meth("PETSc.Mat", "getSize")
@meth("PETSc.Mat", ".size")
def mat_size(L, a, x, *rest):
    st = rest[-2]
    v = get(L, st, a, "size")
    sp = get(L, st, a, "space")
    if (v is None or is_none(v)) and sp is not None and not is_none(sp):
        v = Atom("dimof", sp).P()
    if v is not None and not is_none(v) and len(cases(v)) == 1:
        t = v.atom()
        if t is None or t.kind != "tuple":
            return tup(v, v) if T.sort_of(v) != "obj" else Atom("ext", ".getSize", (x,), ()).P()
        if len(t.args) == 2:
            return tup(*[z.atom().args[1] if z.atom() is not None and z.atom().kind == "tuple" and len(z.atom().args) == 2 else z for z in t.args])
    return Atom("ext", ".getSize", (x,), ()).P()


@meth("PETSc.Mat", "setPythonContext")
def mat_set_ctx(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "ctx", args[0])
    return NONE


@meth("PETSc.Mat", "mult")
@meth("PETSc.Mat", "multAdd")
def mat_mult(L, a, x, args, kw, st, node):
    """Product with a shell matrix: a linear atom of its context."""
    plus = ZERO
    if node is not None and ast.unparse(node.func).endswith("multAdd"):
        u, v, y = sig("x v y", args, kw, "Mat.multAdd")
        plus = val_of(L, v, st)
    else:
        u, y = sig("x y", args, kw, "Mat.mult")
    if u == y:
        L.I.fault(st, "Aliasing", node, "Mat.mult with input and output identical")
    ctx = get(L, st, a, "ctx")
    if ctx is None or is_none(ctx):
        raise T.Unsupported("product with a matrix of unknown content")
    set_val(L, y, plus + Atom("matvec", ctx, val_of(L, u, st)).P(), st, node)
    return NONE


@meth("PETSc.Mat", "setSizes")
def mat_set_sizes(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "size", args[0])
    return NONE


@meth("PETSc.Mat", "create")
@meth("PETSc.PC", "create")
@meth("PETSc.Vec", "create")
def obj_create(L, a, x, args, kw, st, node):
    return x


@meth("PETSc.Mat", "setType")
def mat_set_type(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "kind", args[0])
    return NONE


@meth("PETSc.Mat", "setUp")
def mat_setup(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "setup", ONE)
    return x


@meth("PETSc.Mat", "assemble")
@meth("PETSc.Mat", "assemblyBegin")
@meth("PETSc.Mat", "assemblyEnd")
@meth("PETSc.Vec", "assemble")
@meth("PETSc.Vec", "ghostUpdate")
@meth("PETSc.Vec", "setUp")
@meth("PETSc.Vec", "assemblyBegin")
@meth("PETSc.Vec", "assemblyEnd")
def touch(L, a, x, args, kw, st, node):
    L.I.event(st, "touch", (x, S(node.func.attr)), node)
    return NONE


@meth("PETSc.Mat", "getComm")
@meth("PETSc.Vec", "getComm")
@meth("PETSc.KSP", "getComm")
def get_comm(L, a, x, args, kw, st, node):
    return Atom("mod", "petsc4py.PETSc.COMM_WORLD").P()


@meth("PETSc.Mat", ".comm")
@meth("PETSc.Vec", ".comm")
@meth("PETSc.KSP", ".comm")
def comm_attr(L, a, x, st, node):
    return Atom("mod", "petsc4py.PETSc.COMM_WORLD").P()


@meth("PETSc.Vec", "getSize")
@meth("PETSc.Vec", "getLocalSize")
def vec_size(L, a, x, args, kw, st, node):
    v = get(L, st, a, "size")
    return (Atom("ext", "size", (x,), ()).P() if (sp := get(L, st, a, "space")) is None or is_none(sp) else Atom("dimof", sp).P()) if v is None else v


T.SORT["dimof"] = "num"


@meth("PETSc.Vec", ".size")
@meth("PETSc.Vec", ".sizes")
@meth("PETSc.Vec", ".local_size")
def vec_size_attr(L, a, x, st, node):
    return vec_size(L, a, x, [], {}, st, node)


def vec_like(L, st, node, val, size=None, space=None):
    r = new(L, st, "PETSc.Vec", node, val=val)
    if size is not None:
        L.I.hset(st, r.atom(), "size", size)
    if space is not None:
        L.I.hset(st, r.atom(), "space", space)
    return r


@meth("PETSc.Mat", "createVecRight")
@meth("PETSc.Mat", "createVecLeft")
@meth("PETSc.Mat", "getVecRight")
@meth("PETSc.Mat", "getVecLeft")
def mat_vec(L, a, x, args, kw, st, node):
    return vec_like(L, st, node, ZERO, get(L, st, a, "size"), get(L, st, a, "space"))


@meth("PETSc.Mat", "createVecs")
@meth("PETSc.Mat", "getVecs")
def mat_vecs(L, a, x, args, kw, st, node):
    side = args[0] if args else kw.get("side")
    one = vec_like(L, st, node, ZERO, get(L, st, a, "size"), get(L, st, a, "space"))
    if side is not None and not is_none(side):
        return one
    L.I.ctx.append("second")
    two = vec_like(L, st, node, ZERO, get(L, st, a, "size"), get(L, st, a, "space"))
    L.I.ctx.pop()
    return tup(one, two)


@meth("PETSc.Vec", "duplicate")
def vec_dup(L, a, x, args, kw, st, node):
    return vec_like(L, st, node, ZERO, get(L, st, a, "size"), get(L, st, a, "space"))


@meth("PETSc.Vec", "copy")
def vec_copy(L, a, x, args, kw, st, node):
    v = get(L, st, a, "val")
    if args or "result" in kw:
        tgt = args[0] if args else kw["result"]
        if not is_none(tgt):
            set_val(L, tgt, v, st, node)
            return tgt
    return vec_like(L, st, node, v, get(L, st, a, "size"), get(L, st, a, "space"))


def set_val(L, tgt, v, st, node):
    def one(s, t):
        ta = t.atom()
        if ta is None or ta.kind != "ref":
            L.I.unsup("vector target", node)
        L.I.hset(s, ta, "val", v)
        L.I.event(s, "write", (t,), node)
        return NONE
    L.I.lifted(tgt, st, one, node)


@meth("PETSc.Vec", "set")
def vec_set(L, a, x, args, kw, st, node):
    v = args[0]
    set_val(L, x, ZERO if v.const() == 0 else Atom("ext", "fill", (x, v), ()).P(), st, node)
    return NONE


@meth("PETSc.Vec", "zeroEntries")
def vec_zero(L, a, x, args, kw, st, node):
    set_val(L, x, ZERO, st, node)
    return NONE


@meth("PETSc.Vec", "scale")
def vec_scale(L, a, x, args, kw, st, node):
    set_val(L, x, get(L, st, a, "val") * L.num(args[0], st), st, node)
    return NONE


def val_of(L, v, st):
    """Content of a vector-like argument."""
    I = L.I
    r = ZERO
    for g, x in cases(v):
        a = x.atom()
        if a is not None and a.kind == "ref":
            w = I.hget(st, a, "val")
            if w is None:
                raise T.Unsupported("vector content of " + a.args[0])
            r = r + g * w
        elif a is not None and a.kind == "view":
            r = r + g * L.view_get(a, st)
        else:
            r = r + g * x
    return r


@meth("PETSc.Vec", "axpy")
def vec_axpy(L, a, x, args, kw, st, node):
    al, v = sig("alpha x", args, kw, "axpy")
    set_val(L, x, get(L, st, a, "val") + L.num(al, st) * val_of(L, v, st), st, node)
    return NONE


@meth("PETSc.Vec", "aypx")
def vec_aypx(L, a, x, args, kw, st, node):
    al, v = sig("alpha x", args, kw, "aypx")
    set_val(L, x, val_of(L, v, st) + L.num(al, st) * get(L, st, a, "val"), st, node)
    return NONE


@meth("PETSc.Vec", "axpby")
def vec_axpby(L, a, x, args, kw, st, node):
    al, be, v = sig("alpha beta x", args, kw, "axpby")
    set_val(L, x, L.num(be, st) * get(L, st, a, "val") + L.num(al, st) * val_of(L, v, st), st, node)
    return NONE


@meth("PETSc.Vec", "waxpy")
def vec_waxpy(L, a, x, args, kw, st, node):
    al, v, w = sig("alpha x y", args, kw, "waxpy")
    set_val(L, x, L.num(al, st) * val_of(L, v, st) + val_of(L, w, st), st, node)
    return NONE


@meth("PETSc.Vec", "swap")
def vec_swap(L, a, x, args, kw, st, node):
    v, w = get(L, st, a, "val"), val_of(L, args[0], st)
    set_val(L, x, w, st, node)
    set_val(L, args[0], v, st, node)
    return NONE


@meth("PETSc.Vec", "setArray")
def vec_set_array(L, a, x, args, kw, st, node):
    set_val(L, x, val_of(L, args[0], st), st, node)
    return NONE


@meth("PETSc.Vec", "norm")
@meth("PETSc.Vec", "dot")
@meth("PETSc.Vec", "max")
@meth("PETSc.Vec", "min")
@meth("PETSc.Vec", "sum")
def vec_norm(L, a, x, args, kw, st, node):
    return Atom("ext", "vec." + node.func.attr, (get(L, st, a, "val"),) + tuple(val_of(L, v, st) for v in args if v.atom() is not None and v.atom().kind == "ref"), ()).P()


# ---------------------------------------------------------------- KSP / PC
def new_pc(L, st, node):
    return new(L, st, "PETSc.PC", node, type=default("pc_type"), ctx=NONE, fst=default("factor_solver"), setup=ZERO)


@fn(PE + "PC")
def _pc(L, args, kw, st, node):
    return new_pc(L, st, node)


@fn(PE + "KSP")
def _ksp(L, args, kw, st, node):
    return new(L, st, "PETSc.KSP", node, pc=new_pc(L, st, node), **fresh_ksp())


def fresh_ksp():
    return dict(op=NONE, pmat=NONE, type=default("type"), restart=const(30), rtol=default("rtol"),
                atol=default("atol"), max_it=default("max_it"), divtol=default("divtol"), monitors=mkseq([]),
                fromopts=ZERO, guess=ZERO, side=default("side"), norm=default("norm"), nsolve=ZERO, last=NONE,
                convtest=NONE)


@meth("PETSc.KSP", "create")
def ksp_create(L, a, x, args, kw, st, node):
    """A handle that is created anew stands for another solver."""
    if get(L, st, a, "used") == ONE:
        for k, v in dict(fresh_ksp(), pc=new_pc(L, st, node)).items():
            L.I.hset(st, a, k, v)
    L.I.hset(st, a, "used", ONE)
    return x


@meth("PETSc.KSP", ".pc")
def ksp_pc(L, a, x, st, node):
    return get(L, st, a, "pc")


@meth("PETSc.KSP", "getPC")
def ksp_getpc(L, a, x, args, kw, st, node):
    return get(L, st, a, "pc")


@meth("PETSc.KSP", "setPC")
def ksp_setpc(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "pc", args[0])
    return NONE


@meth("PETSc.KSP", "setOperators")
def ksp_ops(L, a, x, args, kw, st, node):
    A, Pm = sig("A P=None", args, kw, "setOperators")
    L.I.hset(st, a, "op", A)
    L.I.hset(st, a, "pmat", A if Pm is None or is_none(Pm) else Pm)
    return NONE


def _touched(L, st, a):
    L.I.hset(st, a, "fromopts", ZERO)


@meth("PETSc.KSP", "setType")
def ksp_type(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "type", norm_type(args[0], "KSP"))
    _touched(L, st, a)
    return NONE


def norm_type(v, what):
    """KSP.Type.GMRES and 'gmres' are the same value."""
    m = v.atom()
    if m is not None and m.kind == "mod" and f"{what}.Type." in m.args[0]:
        return S(m.args[0].split(".")[-1].lower())
    if m is not None and m.kind == "attr" and strval(v) is None:
        return S(m.args[1].lower())
    return v


@meth("PETSc.KSP", "setGMRESRestart")
def ksp_restart(L, a, x, args, kw, st, node):
    (r,) = sig("restart", args, kw)
    L.I.hset(st, a, "restart", r)
    _touched(L, st, a)
    return NONE


@meth("PETSc.KSP", "setTolerances")
def ksp_tol(L, a, x, args, kw, st, node):
    vals = sig("rtol=None atol=None divtol=None max_it=None", args, kw, "setTolerances")
    for n, v in zip(("rtol", "atol", "divtol", "max_it"), vals):
        if v is not None:
            r = ZERO
            for g, y in cases(v):
                r = r + g * (get(L, st, a, n) if is_none(y) else y)
            L.I.hset(st, a, n, r)
    _touched(L, st, a)
    return NONE


for _n in ("rtol", "atol", "divtol", "max_it"):
    def _mk(n):
        @meth("PETSc.KSP", "=" + n)
        def f(L, a, x, v, st, node):
            L.I.hset(st, a, n, v)
            _touched(L, st, a)

        @meth("PETSc.KSP", "." + n)
        def g(L, a, x, st, node):
            return get(L, st, a, n)
    _mk(_n)


@meth("PETSc.KSP", "=type")
def ksp_type_set(L, a, x, v, st, node):
    ksp_type(L, a, x, [v], {}, st, node)


for _n, _k in (("norm_type", "norm"), ("pc_side", "side"), ("guess_nonzero", "guess")):
    meth("PETSc.KSP", "=" + _n)(lambda L, a, x, v, st, node, _k=_k: L.I.hset(st, a, _k, v))


@meth("PETSc.KSP", "getTolerances")
def ksp_gettol(L, a, x, args, kw, st, node):
    return tup(*[get(L, st, a, n) for n in ("rtol", "atol", "divtol", "max_it")])


@meth("PETSc.KSP", "setInitialGuessNonzero")
def ksp_guess(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "guess", args[0])
    return NONE


@meth("PETSc.KSP", "setPCSide")
@meth("PETSc.KSP", "setNormType")
def ksp_side(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "side" if "Side" in node.func.attr else "norm", args[0])
    return NONE


@meth("PETSc.KSP", "setConvergenceTest")
def ksp_conv(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "convtest", args[0])
    return NONE


@meth("PETSc.KSP", "setUp")
@meth("PETSc.KSP", "view")
@meth("PETSc.KSP", "setConvergenceHistory")
@meth("PETSc.KSP", "setOptionsPrefix")
@meth("PETSc.KSP", "destroy")
@meth("PETSc.KSP", "setErrorIfNotConverged")
@meth("PETSc.PC", "view")
def ksp_noop(L, a, x, args, kw, st, node):
    L.I.event(st, "ksp." + node.func.attr, (x,) + tuple(args), node)
    if node.func.attr == "setErrorIfNotConverged":
        L.I.hset(st, a, "errifnot", args[0] if args else ONE)
    return NONE


@meth("PETSc.KSP", "setMonitor")
def ksp_mon(L, a, x, args, kw, st, node):
    cur = get(L, st, a, "monitors")
    f = args[0]
    r = ZERO
    for g, v in cases(cur):
        for h, fv in cases(f):
            gh = g * h
            if gh.t:
                r = r + gh * (v if is_none(fv) else mkseq(tuple(seq_segs(v)) + (it(fv),)))
    L.I.hset(st, a, "monitors", r)
    return NONE


@meth("PETSc.KSP", "cancelMonitor")
@meth("PETSc.KSP", "monitorCancel")
def ksp_moncancel(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "monitors", mkseq([]))
    return NONE


@meth("PETSc.KSP", "setFromOptions")
def ksp_fromopts(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "fromopts", ONE)
    opts = st.store.get(("X", "petsc", "options"))
    if opts is not None:
        for k, v in opts.atom().args[0]:
            n = strval(k).lstrip("-")
            tgt = {"ksp_rtol": "rtol", "ksp_atol": "atol", "ksp_max_it": "max_it", "ksp_gmres_restart": "restart", "ksp_divtol": "divtol",
                   "ksp_type": "type", "ksp_norm_type": "norm", "ksp_pc_side": "side", "ksp_initial_guess_nonzero": "guess",
                   "ksp_convergence_test": "convtest"}.get(n)
            for g, y in cases(v):
                if y.atom() is not None and y.atom().kind == "undef":
                    continue
                if tgt:
                    L.I.hset(st, a, tgt, ite(g, y, get(L, st, a, tgt)))
                elif n == "pc_type":
                    p = get(L, st, a, "pc").atom()
                    L.I.hset(st, p, "type", ite(g, y, get(L, st, p, "type")))
                elif n.startswith("ksp_monitor") or n == "ksp_view_converged":
                    cur = get(L, st, a, "monitors")
                    L.I.hset(st, a, "monitors", ite(g, mkseq(tuple(seq_segs(cur)) + (it(S("opt:" + n)),)), cur))
    L.I.event(st, "ksp.setFromOptions", (x,), node)
    return NONE


@fn(PE + "Options")
def _options(L, args, kw, st, node):
    return Atom("petscopts", *(args or [S("")])).P()


T.SORT["petscopts"] = "obj"


@meth("petscopts", "setValue")
def opt_set(L, a, x, args, kw, st, node):
    name, val = sig("name value", args, kw, "Options.setValue")
    k = ("X", "petsc", "options")
    cur = st.store.get(k)
    items = list(cur.atom().args[0]) if cur is not None and cur.atom() is not None and cur.atom().kind == "dict" else []
    pre = strval(a.args[0])
    name = S((pre or "") + strval(name))
    items = [z for z in items if z[0] != name] + [(name, val)]
    st.store[k] = Atom("dict", tuple(items)).P()
    return NONE


@meth("petscopts", "delValue")
def opt_del(L, a, x, args, kw, st, node):
    k = ("X", "petsc", "options")
    cur = st.store.get(k)
    if cur is not None:
        st.store[k] = Atom("dict", tuple(z for z in cur.atom().args[0] if z[0] != args[0])).P()
    return NONE


@meth("petscopts", "hasName")
def opt_has(L, a, x, args, kw, st, node):
    n = strval(args[0])
    if n is None:
        raise Unsupported("option with a computed name")
    cur = st.store.get(("X", "petsc", "options"))
    n = (strval(a.args[0]) or "") + n.lstrip("-")
    for k, v in (cur.atom().args[0] if cur is not None else ()):
        if strval(k).lstrip("-") == n:
            return sum((g for g, y in cases(v) if y.atom() is None or y.atom().kind != "undef"), ZERO)
    return ZERO


@meth("petscopts", "getReal")
@meth("petscopts", "getInt")
@meth("petscopts", "getBool")
@meth("petscopts", "getString")
def opt_get(L, a, x, args, kw, st, node):
    return Atom("ext", "petscopt", tuple(args), ()).P()


Lib.METH[("petscopts", "__setitem__")] = opt_set
_old_setitem = Lib.setitem


def _setitem(self, a, k, v, st, node):
    if a.kind == "petscopts":
        return opt_set(self, a, a.P(), [k, v], {}, st, node)
    return _old_setitem(self, a, k, v, st, node)


Lib.setitem = _setitem


@meth("PETSc.PC", "setType")
def pc_type(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "type", norm_type(args[0], "PC"))
    return NONE


@meth("PETSc.PC", "=type")
def pc_type_set(L, a, x, v, st, node):
    pc_type(L, a, x, [v], {}, st, node)


@meth("PETSc.PC", ".Type")
def pc_Type(L, a, x, st, node):
    return Atom("mod", PE + "PC.Type").P()


@meth("PETSc.KSP", ".Type")
def ksp_Type(L, a, x, st, node):
    return Atom("mod", PE + "KSP.Type").P()


@meth("PETSc.PC", "setPythonContext")
def pc_ctx(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "ctx", args[0])
    return NONE


@meth("PETSc.PC", "createPython")
def pc_createpy(L, a, x, args, kw, st, node):
    ctx, comm = sig("context=None comm=None", args, kw)
    L.I.hset(st, a, "ctx", ctx)
    L.I.hset(st, a, "type", S("python"))
    return x


@meth("PETSc.PC", "setFactorSolverType")
def pc_fst(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "fst", args[0])
    return NONE


@meth("PETSc.PC", "setUp")
@meth("PETSc.PC", "setFromOptions")
def pc_setup(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "setup", ONE)
    return NONE


def ksp_snapshot(L, st, a):
    f = {}
    for k in ("op", "pmat", "type", "restart", "rtol", "atol", "max_it", "divtol", "monitors", "fromopts", "guess", "side", "norm", "convtest", "pc"):
        f[k] = get(L, st, a, k)
    p = f["pc"].atom()
    if p is not None and p.kind == "ref":
        for k in ("type", "ctx", "fst"):
            f["pc." + k] = get(L, st, p, k)
    op = f["op"].atom()
    if op is not None and op.kind == "ref":
        for k in ("ctx", "size", "kind"):
            w = get(L, st, op, k)
            f["op." + k] = NONE if w is None else w
    e = get(L, st, a, "errifnot")
    f["errifnot"] = e if e is not None else ZERO
    return f


@meth("PETSc.KSP", "solve")
def ksp_solve(L, a, x, args, kw, st, node):
    b, y = sig("b x", args, kw, "KSP.solve")
    h = getattr(L, "ksp_solve_hook", None)
    if h is not None:
        return h(a, x, b, y, st, node)
    n = get(L, st, a, "nsolve") + ONE
    L.I.hset(st, a, "nsolve", n)
    f = ksp_snapshot(L, st, a)
    mons = f.pop("monitors")     # observers, no part of the identity of the solve
    rec = tuple((k, v) for k, v in sorted(f.items()) if v is not None)
    ev = Atom("solverec", x, n, val_of(L, b, st), b, y, rec).P()
    L.I.hset(st, a, "last", ev)
    L.I.event(st, "solve", (ev, mons), node)
    set_val(L, y, Atom("solution", ev).P(), st, node)
    return NONE


T.SORT.update(solverec="obj", solution="cvec", residual="cvec")


@meth("PETSc.KSP", "__call__")
def ksp_call(L, a, x, args, kw, st, node):
    return ksp_solve(L, a, x, args, kw, st, node)


@meth("PETSc.KSP", "solveTranspose")
def ksp_solve_t(L, a, x, args, kw, st, node):
    L.I.event(st, "solveTranspose", (x,), node)
    set_val(L, args[1], Atom("ext", "solveT", (x, val_of(L, args[0], st)), ()).P(), st, node)
    return NONE


def ksp_reason_val(L, a, st):
    return Atom("reason", get(L, st, a, "last")).P()


T.INT.add("reason")


@meth("PETSc.KSP", "getConvergedReason")
def ksp_reason(L, a, x, args, kw, st, node):
    return ksp_reason_val(L, a, st)


@meth("PETSc.KSP", ".reason")
def ksp_reason_attr(L, a, x, st, node):
    return ksp_reason_val(L, a, st)


@meth("PETSc.KSP", ".is_converged")
@meth("PETSc.KSP", ".converged")
def ksp_conv_attr(L, a, x, st, node):
    return neg(-ksp_reason_val(L, a, st))


@meth("PETSc.KSP", ".is_diverged")
@meth("PETSc.KSP", ".diverged")
def ksp_div_attr(L, a, x, st, node):
    return neg(ksp_reason_val(L, a, st))


@meth("PETSc.KSP", ".is_iterating")
@meth("PETSc.KSP", ".iterating")
def ksp_iter_attr(L, a, x, st, node):
    return eq0(ksp_reason_val(L, a, st))


@meth("PETSc.KSP", "getIterationNumber")
@meth("PETSc.KSP", "getResidualNorm")
def ksp_its(L, a, x, args, kw, st, node):
    return Atom("ext", "ksp." + node.func.attr, (get(L, st, a, "last"),), ()).P()


@meth("PETSc.KSP", ".its")
@meth("PETSc.KSP", ".norm")
def ksp_its_attr(L, a, x, st, node):
    return Atom("ext", "ksp." + node.attr, (get(L, st, a, "last"),), ()).P()


@meth("PETSc.KSP", "buildResidual")
def ksp_resid(L, a, x, args, kw, st, node):
    v = Atom("residual", get(L, st, a, "last")).P()
    tgt = args[0] if args else kw.get("r")
    if tgt is not None and not is_none(tgt):
        set_val(L, tgt, v, st, node)
        return tgt
    return vec_like(L, st, node, v)


@meth("PETSc.KSP", "buildSolution")
@meth("PETSc.KSP", "getSolution")
def ksp_sol(L, a, x, args, kw, st, node):
    last = get(L, st, a, "last")
    la = last.atom()
    if la is not None and la.kind == "solverec" and not args:
        return la.args[4]
    return vec_like(L, st, node, Atom("solution", last).P())


@fn(PE + "Sys.Print", PE + "Sys.syncPrint")
def sys_print(L, args, kw, st, node):
    L.I.event(st, "print", tuple(L.freeze(x, st) for x in args), node)
    return NONE


@fn(PE + "Vec")
def _vec(L, args, kw, st, node):
    return vec_like(L, st, node, ZERO)


# array views
@meth("PETSc.Vec", ".array")
@meth("PETSc.Vec", ".array_w")
@meth("PETSc.Vec", ".array_r")
@meth("PETSc.Vec", ".buffer")
def vec_array(L, a, x, st, node):
    return Atom("view", x).P()


@meth("PETSc.Vec", "getArray")
def vec_getarray(L, a, x, args, kw, st, node):
    return Atom("view", x).P()
