"""Summaries for the finite element libraries: spaces, forms, assembly, functions.

Vectors over a mixed space are kept as sums of blocks `sc(space, path, inner)`
with `inner` a vector over the block's scalar space; forms are polynomials over
field atoms and measures; assembled objects keep the form they were assembled
from, with coefficients replaced by the values they had at that moment.
"""
from __future__ import annotations

import ast
from fractions import Fraction as Fr

from . import term as T
from . import interp as X
from . import petsc as PT
from .interp import NONE, S, it, mkseq, seq_segs, strval, tup
from .lib import Lib, Arity, fn, meth, sig, is_none, mkabs
from .term import ONE, ZERO, Atom, P, Unsupported, as_int, cases, close_sum, const, eq0, fresh_idx, ite, lift, subst

T.SORT.update(converted="cvec", partly="cvec", partof="cvec", argv="obj", arg="field", coef="field", coefv="obj", subfun="obj", grad="vfield", lap="field", dvg="field",
              ip="field", geo="field", normal="vfield", spx="obj", meas="meas", fsym="field", fld="field", tst="field",
              sc="cvec", comp="cvec", lf="cvec", sol="cvec", interp="cvec", vabs="cvec", fill="cvec", lsc="num", allred="num",
              slabsolver="obj", lav="obj", lform="obj", element="obj", mesh="obj", fexpr="obj", evalpts="cvec", uop="field",
              dxf="field", cell="obj", comm="obj", app="cvec", vfun="cvec")
T.SORT["res"] = lambda a: T.sort_of(a.args[0])
T.SORT["cond"] = "field"
SPATIAL = {"arg", "coef", "grad", "lap", "dvg", "ip", "geo", "normal", "spx", "fsym", "fld", "tst", "res", "uop", "dxf", "cond", "meas"}
_sp: dict = {}


def spatial(a):
    r = _sp.get(a.key)
    if r is None:
        r = a.kind in SPATIAL or any(b.kind in SPATIAL for b in T.atoms_of(a.P()) if b.kind not in ("lsc",) and b is not a) and a.kind not in ("lsc", "allred", "sc", "comp", "lf", "sol", "interp", "vfun")
        _sp[a.key] = r
    return r


def split_const(m):
    """Monomial -> (constant factor P, [(atom, exp)] of spatial factors)."""
    k = tuple((a, e) for a, e in m if not spatial(a))
    s = [(a, e) for a, e in m if spatial(a)]
    return P({k: Fr(1)}), s


def piecewise(a):
    return a.kind == "geo" and a.args[0] in ("h", "vol", "rad") or (a.kind == "inv" and all(piecewise(b) or not spatial(b) for m in a.args[0].t for b, _ in m))


def flinear(p, f):
    """Linear differential operator on a field polynomial; f maps a single field atom."""
    r = ZERO
    for m, c in p.t.items():
        k, s = split_const(m)
        pw = tuple((a, e) for a, e in s if piecewise(a))
        s = [(a, e) for a, e in s if not piecewise(a)]
        k = k * const(c) * P({pw: Fr(1)})
        if not s:
            continue
        if len(s) == 1 and s[0][1] == 1:
            r = r + k * f(s[0][0])
        else:
            r = r + k * f(Atom("uop", "prod", P({tuple(s): Fr(1)})))
    return r


def mkgrad(p):
    return flinear(p, lambda a: Atom("grad", a.P()).P())


def mkdiv(p):
    def one(a):
        if a.kind == "grad":
            return Atom("lap", a.args[0]).P()
        return Atom("dvg", a.P()).P()
    return flinear(p, one)


def vsplit(p):
    """[(coefficient, vector atom)] of a vector field polynomial."""
    out = []
    for m, c in p.t.items():
        v = [(a, e) for a, e in m if a.sort == "vfield"]
        if len(v) != 1 or v[0][1] != 1:
            raise Unsupported("vector expression " + T.show(T.mono_P(m))[:120])
        out.append((P({tuple(x for x in m if x[0] is not v[0][0]): c}), v[0][0]))
    return out


def mkip(a, b):
    r = ZERO
    vb = vsplit(b)
    for ca, x in vsplit(a):
        for cb, y in vb:
            u, v = sorted((x, y), key=lambda z: z.key)
            r = r + ca * cb * Atom("ip", u.P(), v.P()).P()
    return r


def mklap(p):
    return flinear(p, lambda a: Atom("lap", a.P()).P())


def mkres(p, s):
    r = ZERO
    sg = s if isinstance(s, str) else strval(s)
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            if not spatial(a):
                t = t * P({((a, e),): Fr(1)})
            elif a.kind == "ip":
                t = t * mkip(mkres(a.args[0], sg), mkres(a.args[1], sg)) ** e
            elif a.kind == "inv":
                t = t * mkres(a.args[0], sg).inv() ** e
            elif a.kind == "meas":
                raise Unsupported("restriction of a measure")
            else:
                t = t * P({((Atom("res", a.P(), sg), e),): Fr(1)})
        r = r + t
    return r


def mkfld(p):
    """Field of a scalar-space vector; linear."""
    r = ZERO
    for m, c in p.t.items():
        v = [(a, e) for a, e in m if a.sort == "cvec"]
        if len(v) != 1 or v[0][1] != 1:
            raise Unsupported("nonlinear vector content " + T.show(T.mono_P(m))[:120])
        r = r + P({tuple(x for x in m if x[0] is not v[0][0]): c}) * Atom("fld", v[0][0].P()).P()
    return r


def veclin(p, f):
    r = ZERO
    for m, c in p.t.items():
        v = [(a, e) for a, e in m if a.sort == "cvec"]
        if len(v) != 1 or v[0][1] != 1:
            raise Unsupported("nonlinear vector content " + T.show(T.mono_P(m))[:120])
        r = r + P({tuple(x for x in m if x[0] is not v[0][0]): c}) * f(v[0][0])
    return r


def mksc(space, path, p):
    return veclin(p, lambda a: Atom("sc", space, path, a.P()).P())


T.SORT["gath"] = "cvec"
T.CONSTRUCT["gath"] = lambda sp, path, p: gather(p, sp, path)
T.CONSTRUCT.update(grad=mkgrad, lap=mklap, dvg=mkdiv, ip=mkip, res=mkres, fld=mkfld, sc=mksc)


# ---------------------------------------------------------------- spaces
def el_parts(el):
    """Structure of an element atom: ('s', fam, deg) | ('v', el, n) | ('m', [els])."""
    a = el.atom()
    if a is None or a.kind != "element":
        raise Unsupported("element " + T.show(el)[:80])
    return a.args


def walk_el(el, path):
    for i in path:
        k = el_parts(el)
        if k[0] == "v":
            el = k[1]
        elif k[0] == "m":
            n = as_int(i)
            if n is None:
                raise Unsupported("symbolic component of a mixed element")
            if not 0 <= n < len(k[1]):
                return None
            el = k[1][n]
        else:
            return None
    return el


def space_parts(sp):
    """(mesh, element, path) of a space or subspace value."""
    a = sp.atom()
    if a is not None and a.kind == "fspace":
        return a.args[0], a.args[1], ()
    if a is not None and a.kind == "subsp":
        m, e, _ = space_parts(a.args[0])
        return m, e, a.args[1]
    raise Unsupported("function space " + T.show(sp)[:80])


def norm_path(space, path):
    """Extend a path through one-component vector elements."""
    m, e, _ = space_parts(space)
    path = tuple(path)
    el = walk_el(e, path)
    while el is not None and el_parts(el)[0] == "v" and as_int(el_parts(el)[2]) == 1:
        path = path + (ZERO,)
        el = el_parts(el)[1]
    return path


def subspace_collapse(space, path):
    m, e, _ = space_parts(space)
    el = walk_el(e, path)
    if el is None:
        return None
    return Atom("fspace", m, el).P()


def is_scalar(space):
    return el_parts(space_parts(space)[1])[0] == "s"


def residues(n):
    """n = c * rest with an integer c, if n is a multiple of a symbolic size."""
    if n.const() is None and len(n.t) == 1:
        (m, c), = n.t.items()
        if c.denominator == 1 and 1 < c <= 8:
            return int(c), P({m: Fr(1)})
    return 1, n


def blocks(space, path=()):
    """[(path, binders)] of all scalar blocks."""
    m, e, _ = space_parts(space)
    k = el_parts(walk_el(e, path))
    if k[0] == "s":
        return [(path, [])]
    if k[0] == "v":
        c, rest = residues(k[2])
        i = fresh_idx(rest, "c")
        return [(p, [(i, rest)] + bs) for r in range(c) for p, bs in blocks(space, path + (const(c) * i.P() + const(r),))]
    out = []
    for j in range(len(k[1])):
        out += blocks(space, path + (const(j),))
    return out


def leftover(cur):
    """Tag of zero times unknown contents: remembers the names of the unknowns."""
    return ("zerotimes",) + tuple(sorted({x for a in T.atoms_of(cur) for x in a.args if isinstance(x, str)}))


def opaque_vec(name, space):
    """Block decomposition of an unknown vector."""
    if is_scalar(space):
        return Atom("comp", name, space, ()).P()
    r = ZERO
    for path, bs in blocks(space):
        r = r + close_sum(bs, Atom("sc", space, path, Atom("comp", name, space, path).P()).P())
    return r


def vspace(a):
    """Space of a vector atom."""
    if a.kind == "sc":
        return a.args[0]
    if a.kind == "comp":
        return subspace_collapse(a.args[1], a.args[2])
    if a.kind in ("lf", "interp", "vfun", "fill"):
        return a.args[0]
    if a.kind == "sol":
        return subspace_collapse(a.args[2], a.args[3])
    if a.kind == "gath":
        return subspace_collapse(a.args[0], a.args[1])
    if a.kind == "sum":
        _, b = T.open_sum(a)
        s = pspaces(b)
        return next(iter(s)) if len(s) == 1 else None
    return None


def pspaces(p):
    out = set()
    for m in p.t:
        for a, _ in m:
            if a.sort == "cvec":
                out.add(vspace(a))
    return out


def path_eq(p, q):
    if len(p) != len(q):
        return None
    g = ONE
    for a, b in zip(p, q):
        g = g * eq0(a - b)
    return g


def mono1(m):
    return P({m: Fr(1)})


def fixed_iteration(m, b):
    """c if the term exists in iteration b == c only."""
    for a, e in m:
        if a.kind == "eq0" and b.key in a.free:
            p = a.args[0]
            one = subst(p, {b: b.P() + ONE}) - p
            s = one.const()
            if s:
                c = (b.P() - p * const(Fr(1) / s))
                if b.key not in c.free:
                    return c
    return None


def disjoint_paths(r, c, w, c2, b):
    """Block r of iteration b (c: only of that one) is never block w of another iteration (c2: only of that one)."""
    if len(r) != len(w):
        return False
    if c is not None and c2 is not None and c == c2:
        return True
    for x, y in zip(r, w):
        lin = []
        for p in (x, y):
            s = (subst(p, {b: b.P() + ONE}) - p).const() if b.key in p.free else Fr(0)
            if s is None or b.key in (p - const(s) * b.P()).free:
                lin = None
                break
            lin.append((s, p - const(s) * b.P()))
        if lin is None:
            continue
        (s1, o1), (s2, o2) = lin
        if s1 == 0 and s2 == 0:
            d = (o1 - o2).const()
            if d is not None and d != 0:
                return True
            continue
        if c is not None and s1 == 0 and s2 != 0:
            # s2*b' + o2 == o1 for some b' != c
            d = (o1 - o2 - const(s2) * c).const()
            s = s2
        elif c2 is not None and s2 == 0 and s1 != 0:
            d = (o2 - o1 - const(s1) * c2).const()
            s = s1
        elif s1 == s2:
            d = (o1 - o2).const()
            s = s1
        else:
            continue
        if d is not None and (d == 0 or abs(d) < abs(s) or d % s != 0):
            return True
    return False


class WrongSpace(Exception):
    pass


def gather(val, space, path):
    """Block `path` of a vector value."""
    path = norm_path(space, path)

    def one(a):
        if a.kind in ("phi", "hole", "itat"):
            return Atom("gath", space, path, a.P()).P()
        if a.kind != "sc":
            raise WrongSpace(f"vector {T.show(a.P(),300)} over {show_space(vspace(a))} indexed with dofs of {show_space(space)}")
        if a.args[0] != space:
            raise WrongSpace(f"vector over {show_space(a.args[0])} indexed with dofs of {show_space(space)}")
        g = path_eq(a.args[1], path)
        if g is None:
            raise Unsupported("block of blocks")
        return g * a.args[2]
    return T.linmap(val, lambda a: a.sort == "cvec" and a.kind != "sum", one) if val.t else ZERO


def show_space(sp):
    if sp is None:
        return "?"
    try:
        m, e, p = space_parts(sp)
        return f"{show_el(e)} on {T.show(m)}"
    except Unsupported:
        return T.show(sp)


def show_el(e):
    k = el_parts(e)
    if k[0] == "s":
        return f"{strval(k[1])}{T.show(k[2])}"
    if k[0] == "v":
        return f"{show_el(k[1])}^({T.show(k[2])})"
    return "[" + ",".join(show_el(x) for x in k[1]) + "]"


T.SHOW.update({
    "arg": lambda n, sp, path: ("trial" if n == 1 else "test") + str([T.show(x) for x in path]).replace("'", ""),
    "meas": lambda t, d, md, s: {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}.get(t, t),
    "grad": lambda p: f"grad({T.show(p)})", "lap": lambda p: f"lap({T.show(p)})",
    "ip": lambda a, b: f"({T.show(a)}.{T.show(b)})", "geo": lambda n, m: n, "normal": lambda m: "n",
    "fsym": lambda n: n, "res": lambda p, s: f"{T.show(p)}({s})", "fld": lambda p: f"<{T.show(p, 200)}>",
    "comp": lambda n, sp, path: f"{n}[{','.join(T.show(x) for x in path)}]",
    "sc": lambda sp, path, p: f"@[{','.join(T.show(x) for x in path)}]({T.show(p, 400)})",
    "lf": lambda sp, p: f"int({T.show(p, 300)})", "tst": lambda: "v",
    "fspace": lambda m, e: "V(" + show_el(e) + ")", "element": lambda *k: show_el(Atom("element", *k).P()),
})


# ---------------------------------------------------------------- elements
def mkel(*k):
    return Atom("element", *k).P()


FAM = {"Lagrange": "CG", "P": "CG", "Q": "CG", "CG": "CG", "DG": "DG", "Discontinuous Lagrange": "DG", "DQ": "DG", "DP": "DG"}


def fam(v):
    s = strval(v)
    return S(FAM.get(s, s)) if s is not None else v


@fn("ufl.FiniteElement")
def _fe(L, args, kw, st, node):
    f, cell, deg = sig("family cell=None degree=None form_degree=None quad_scheme=None variant=None", args, kw, "FiniteElement")[:3]
    return mkel("s", fam(f), L.num(deg, st))


@fn("basix.ufl.element")
def _bel(L, args, kw, st, node):
    f, cell, deg = args[:3]
    sh = kw.get("shape")
    e = mkel("s", fam(f), L.num(deg, st))
    if sh is None or is_none(sh):
        return e
    return mkel("v", e, L.num(L.I.getitem(sh, ZERO, st, node), st))


@fn("ufl.VectorElement")
def _ve(L, args, kw, st, node):
    f, cell, deg, dim = sig("family cell=None degree=None dim=None form_degree=None quad_scheme=None variant=None", args, kw, "VectorElement")[:4]
    a = f.atom()
    if a is not None and a.kind == "element":
        if dim is None:
            dim = deg if deg is not None else cell
        return mkel("v", f, L.num(dim, st))
    if dim is None or is_none(dim):
        dim = Atom("ext", "gdim", (), ()).P()
    return mkel("v", mkel("s", fam(f), L.num(deg, st)), L.num(dim, st))


@fn("ufl.MixedElement", "basix.ufl.mixed_element")
def _me(L, args, kw, st, node):
    xs = args
    if len(xs) == 1:
        segs = seq_segs(L.I.iterate(xs[0], st, node))
        if not all(s.kind == "it" for s in segs):
            raise Unsupported("mixed element of unknown length")
        xs = [s.args[0] for s in segs]
    return mkel("m", tuple(xs))


@fn("dolfinx.fem.FunctionSpace", "dolfinx.fem.functionspace")
def _fs(L, args, kw, st, node):
    mesh, el = sig("mesh element form_compiler_options=None jit_options=None", args, kw, "FunctionSpace")[:2]
    a = el.atom()
    if a is not None and a.kind == "tuple":
        xs = a.args
        e = mkel("s", fam(xs[0]), L.num(xs[1], st))
        if len(xs) > 2:
            sh = xs[2].atom()
            e = mkel("v", e, sh.args[0] if sh is not None and sh.kind == "tuple" else xs[2])
        el = e
    return Atom("fspace", mesh, el).P()


@fn("dolfinx.fem.VectorFunctionSpace")
def _vfs(L, args, kw, st, node):
    mesh, el, dim = sig("mesh element dim=None", args, kw)[:3]
    xs = el.atom().args
    return Atom("fspace", mesh, mkel("v", mkel("s", fam(xs[0]), L.num(xs[1], st)), dim if dim is not None else Atom("ext", "gdim", (), ()).P())).P()


@meth("fspace", "sub")
@meth("subsp", "sub")
def _sub(L, a, x, args, kw, st, node):
    base = x if a.kind == "fspace" else a.args[0]
    path = () if a.kind == "fspace" else a.args[1]
    i = L.num(args[0], st)
    m, e, _ = space_parts(base)
    el = walk_el(e, path)
    k = el_parts(el)
    if k[0] == "s":
        return L.I.fault(st, "IndexError", node, "component of a scalar space")
    n = k[2] if k[0] == "v" else const(len(k[1]))
    oob = (ONE - T.neg(i - n)) if not T.nonneg(n - ONE - i) else ZERO
    if as_int(i) is not None and as_int(i) < 0:
        oob = ONE
    if oob == ONE:
        return L.I.fault(st, "IndexError", node, f"subspace {T.show(i)} of {T.show(n)}")
    return Atom("subsp", base, path + (i,)).P()


@meth("subsp", "collapse")
def _collapse(L, a, x, args, kw, st, node):
    path = norm_path(*a.args)
    cs = subspace_collapse(a.args[0], path)
    return tup(cs, Atom("dofs", a.args[0], path).P())


@meth("fspace", "collapse")
def _collapse0(L, a, x, args, kw, st, node):
    return L.I.fault(st, "RuntimeError", node, "collapse of a space that is no subspace")


@meth("fspace", ".mesh")
@meth("subsp", ".mesh")
def _fsmesh(L, a, x, st, node):
    return space_parts(x)[0]


@meth("fspace", "clone")
def _clone(L, a, x, args, kw, st, node):
    return x


@meth("fspace", ".num_sub_spaces")
def _nss(L, a, x, st, node):
    k = el_parts(a.args[1])
    return ZERO if k[0] == "s" else k[2] if k[0] == "v" else const(len(k[1]))


# ---------------------------------------------------------------- arguments
def split_arg(num, space):
    k = el_parts(space_parts(space)[1])
    if k[0] == "m":
        return tup(*[mkargv("argv", num, space, (const(j),)) for j in range(len(k[1]))])
    if k[0] == "v":
        raise Unsupported("split of a vector argument")
    return tup(mkargv("argv", num, space, ()))


def mkargv(kind, x, space, path):
    el = walk_el(space_parts(space)[1], path)
    if el_parts(el)[0] == "s":
        if kind == "argv":
            return Atom("arg", x, space, path).P()
        return Atom("coef", x, space, path).P()
    return Atom(kind, x, space, path).P()


@fn("ufl.TrialFunctions")
def _trs(L, args, kw, st, node):
    return split_arg(1, args[0])


@fn("ufl.TestFunctions")
def _tes(L, args, kw, st, node):
    return split_arg(0, args[0])


@fn("ufl.TrialFunction")
def _tr(L, args, kw, st, node):
    return mkargv("argv", 1, args[0], ())


@fn("ufl.TestFunction")
def _te(L, args, kw, st, node):
    return mkargv("argv", 0, args[0], ())


@fn("ufl.split")
def _uflsplit(L, args, kw, st, node):
    x = L.fieldize(args[0], st)
    a = x.atom()
    if a is not None and a.kind in ("argv", "coefv"):
        n = vdim(a)
        if as_int(n) is not None:
            return tup(*[vcomp(L, a, const(i), st, node) for i in range(as_int(n))])
    raise Unsupported("ufl.split")


def vdim(a):
    k = el_parts(walk_el(space_parts(a.args[1])[1], a.args[2]))
    return k[2] if k[0] == "v" else const(len(k[1]))


def vcomp(L, a, i, st, node):
    n = vdim(a)
    if i.const() is not None and i.const() < 0:
        i = i + n
    c = as_int(i)
    if c is not None and as_int(n) is not None and not 0 <= c < as_int(n):
        return L.I.fault(st, "IndexError", node, f"component {c} of a vector argument with {as_int(n)}")
    return mkargv(a.kind, a.args[0], a.args[1], a.args[2] + (i,))


# ---------------------------------------------------------------- library class
class FemLib(Lib):
    def __init__(self):
        super().__init__()
        self.version = None

    CONSTS = dict(Lib.CONSTS)
    CONSTS.update({
        "ufl.dx": lambda: Atom("meas", "cell", NONE, NONE, NONE).P(),
        "ufl.ds": lambda: Atom("meas", "exterior_facet", NONE, NONE, NONE).P(),
        "ufl.dS": lambda: Atom("meas", "interior_facet", NONE, NONE, NONE).P(),
    })

    def disjoint_update(self, ph, x0, x1, b, hi, m):
        """A vector of which iteration b overwrites blocks no other iteration reads or writes:
        x1 = phi + sum_t sc(path_t(b), V_t), V_t reading phi only at such blocks."""
        if ph.sort != "cvec":
            return None
        d = x1 - ph.P()
        space, paths, reads = None, [], []
        for mo, c in d.t.items():
            hit = [(a, e) for a, e in mo if a.sort == "cvec"]
            if len(hit) != 1 or hit[0][1] != 1 or hit[0][0].kind != "sc":
                return None
            a = hit[0][0]
            if space is not None and a.args[0] != space:
                return None
            space = a.args[0]
            only = fixed_iteration(mo, b)
            if (a.args[1], only) not in paths:
                paths.append((a.args[1], only))
            for g in T.atoms_of(mono1(mo)):
                if g.kind == "gath" and g.args[2] == ph.P():
                    if g.args[0] != space:
                        return None
                    if (g.args[1], only) not in reads:
                        reads.append((g.args[1], only))
        reads += [p for p in paths if p not in reads]
        mp = {a: gather(x0, space, a.args[1]) for a in T.atoms_of(d) if a.kind == "gath" and a.args[2] == ph.P()} if x0.t else \
             {a: ZERO for a in T.atoms_of(d) if a.kind == "gath" and a.args[2] == ph.P()}
        for r, c in reads:
            for w, c2 in paths:
                if not disjoint_paths(r, c, w, c2, b):
                    return None
        v = T.subst(d, mp)
        if ph.key in v.free or any(a is ph for a in T.atoms_of(v)):
            return None
        return x0 + close_sum([(m, b.P())], subst(v, {b: m.P()})), x0 + close_sum([(b, hi)], v)

    def fieldize(self, v, st):
        """Functions and (sub)functions used in expressions become coefficient fields."""
        if not any(a.kind in ("ref", "subfun", "argv", "coefv") for m in v.t for a, _ in m):
            return v
        r = None
        for g, x in cases(v):
            a = x.atom()
            y = x
            if a is not None:
                if a.kind == "ref" and a.args[0] == "fem.Function":
                    vec, sp = self.I.hget(st, a, "vec"), self.I.hget(st, a, "space")
                    y = mkargv("coefv", vec, sp, ())
                    a = y.atom()
                elif a.kind == "subfun":
                    y = mkargv("coefv", a.args[0], a.args[1], a.args[2])
                    a = y.atom()
                elif a.kind == "ref" and a.args[0] == "fem.Constant":
                    y = self.I.hget(st, a, "value")
                    a = y.atom()
                if a is not None and a.kind in ("argv", "coefv"):
                    p = norm_path(a.args[1], a.args[2])
                    if el_parts(walk_el(space_parts(a.args[1])[1], p))[0] == "s":
                        y = mkargv(a.kind, a.args[0], a.args[1], p)
            r = g * y if r is None else r + g * y
        return v if r is None else r

    def binop_dom(self, op, a, b, st, node):
        a2, b2 = self.fieldize(a, st), self.fieldize(b, st)
        if a2 is a and b2 is b or (a2 == a and b2 == b):
            if isinstance(op, (ast.Add, ast.Sub)) and T.sort_of(a) == "obj" and T.sort_of(b) == "obj":
                r = self.vec_comb(op, a, b, st, node)
                if r is not None:
                    return r
            for x in (a, b):
                if x.atom() is not None and x.atom().kind == "ref" and x.atom().args[0] in ("PETSc.Vec", "PETSc.Mat"):
                    return self.petsc_binop(op, a, b, st, node)
            return None
        return self.binop(op, a2, b2, st, node)

    def vec_comb(self, op, a, b, st, node):
        """sum of vector-valued arguments, kept as a tuple of components"""
        xs, ys = self.components(a, st, node), self.components(b, st, node)
        if xs is None or ys is None or len(xs) != len(ys):
            return None
        return Atom("vtuple", *[x + y if isinstance(op, ast.Add) else x - y for x, y in zip(xs, ys)]).P()

    def components(self, x, st, node):
        a = x.atom()
        if a is None:
            return None
        if a.kind == "vtuple":
            return list(a.args)
        if a.kind in ("argv", "coefv"):
            n = as_int(vdim(a))
            if n is None:
                return None
            out = [vcomp(self, a, const(i), st, node) for i in range(n)]
            if any(T.sort_of(y) == "obj" for y in out):
                return None
            return out
        return None

    def petsc_binop(self, op, a, b, st, node):
        aa, ba = a.atom(), b.atom()
        va = aa is not None and aa.kind == "ref" and aa.args[0] == "PETSc.Vec"
        vb = ba is not None and ba.kind == "ref" and ba.args[0] == "PETSc.Vec"
        ma = aa is not None and aa.kind == "ref" and aa.args[0] == "PETSc.Mat"
        if ma and vb and isinstance(op, (ast.Mult, ast.MatMult)):
            y = PT.vec_like(self, st, node, ZERO, space=PT.get(self, st, aa, "space"))
            mat_mult(self, aa, a, [b, y], {}, st, node)
            return y
        if va or vb:
            x = PT.get(self, st, aa, "val") if va else self.num(a, st)
            y = PT.get(self, st, ba, "val") if vb else self.num(b, st)
            if va and vb and isinstance(op, (ast.Mult, ast.Div)):
                return None
            v = self.arith(op, x, y, st, node)
            src = aa if va else ba
            return PT.vec_like(self, st, node, v, PT.get(self, st, src, "size"), PT.get(self, st, src, "space"))
        return None

    # views ------------------------------------------------------------
    def vec_space(self, ref, st):
        return self.I.hget(st, ref, "space")

    def getitem(self, a, x, k, st, node):
        if a.kind in ("argv", "coefv"):
            return vcomp(self, a, self.num(k, st), st, node)
        if a.kind == "vtuple":
            i = as_int(k)
            return a.args[i]
        if a.kind == "subfun":
            y = mkargv("coefv", *a.args).atom()
            if y.kind == "coefv":
                return vcomp(self, y, self.num(k, st), st, node)
            return y.P()
        if a.kind == "ref" and a.args[0] == "fem.Function":
            y = self.fieldize(x, st)
            if y.atom() is not None and y.atom().kind == "coefv":
                return vcomp(self, y.atom(), self.num(k, st), st, node)
        if a.kind == "view":
            return self.view_item(a, x, k, st, node)
        if a.kind == "spx":
            return Atom("uop", "x", tup(a.args[0], k)).P()
        if a.kind == "ref" and a.args[0] == "PETSc.Vec":
            return self.view_item(Atom("view", x), Atom("view", x).P(), k, st, node)
        return super().getitem(a, x, k, st, node)

    # dof arrays handed to numpy -------------------------------------------
    SAME = ("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "require", "ravel", "squeeze", "reshape", "view", "atleast_1d")
    FRESH = ("array", "copy", "flatten", "astype", "float64", "double")
    ARITH = {"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div}

    def dofarray(self, x):
        if not isinstance(x, P):
            return False
        a = x.atom()
        return (a is not None and a.kind == "view") or T.sort_of(x) == "cvec"

    def keeps_values(self, args, kw):
        for v in list(args) + [w for k, w in kw.items() if k != "casting"]:
            s = T.show(v)
            if any(z in s for z in ("int", "bool", "32", "16", "single", "half", "str", "object", "'f'", "'i'")):
                return False
        return True

    def array_fn(self, name, args, kw, st, node):
        """numpy function or method `name` on dof arrays; None: not one of those known here."""
        if name == "copyto" and len(args) == 2 and args[0].atom() is not None and args[0].atom().kind == "view":
            if "where" in kw or not self.keeps_values([], {k: v for k, v in kw.items()}):
                raise Unsupported("partial copy into an array")
            self.view_set(args[0].atom(), None, args[1], st, node)
            return NONE
        if name in self.ARITH and len(args) in (2, 3):
            out = args[2] if len(args) == 3 else kw.get("out")
            if out is not None and out.atom() is not None and out.atom().kind == "tuple" and len(out.atom().args) == 1:
                out = out.atom().args[0]
            if set(kw) - {"out"}:
                raise Unsupported("partial array operation")
            v = self.binop(self.ARITH[name](), args[0], args[1], st, node)
            if out is not None and not is_none(out):
                if out.atom() is None or out.atom().kind != "view":
                    raise Unsupported("array operation into " + T.show(out)[:60])
                self.view_set(out.atom(), None, v, st, node)
                return out
            return v
        if name == "negative" and len(args) == 1 and not kw:
            return -self.num(args[0], st)
        if name == "fill" and len(args) == 2 and args[0].atom() is not None and args[0].atom().kind == "view":
            self.view_set(args[0].atom(), None, args[1], st, node)
            return NONE
        if name in self.SAME or name in self.FRESH:
            if name == "reshape" and not (len(args) == 2 and (T.show(args[1]) == "-1" or (args[1].atom() is not None and args[1].atom().kind == "tuple" and len(args[1].atom().args) == 1))):
                return None
            if not self.keeps_values(args[1:], kw):
                return Atom("converted", self.num(args[0], st), tup(*[self.freeze(x, st) for x in args[1:]], *[self.freeze(v, st) for _, v in sorted(kw.items())])).P()
            fresh = name in self.FRESH
            cp = kw.get("copy")
            if cp is not None:
                if cp.const() not in (0, 1):
                    raise Unsupported("copy or alias")
                fresh = cp.const() == 1
            src = args[0].atom()
            if fresh and "dtype" not in kw and src is not None and src.kind == "view" and src.args[0].atom() is not None and src.args[0].atom().kind == "ref":
                sp = self.vec_space(src.args[0].atom(), st)
                if sp is not None:      # a buffer of its own
                    return Atom("view", PT.vec_like(self, st, node, self.num(args[0], st), space=sp)).P()
            return self.num(args[0], st) if fresh or "dtype" in kw else args[0]
        return None

    def call(self, path, args, kw, st, node):
        if path.startswith("numpy.") and (any(self.dofarray(x) for x in args) or any(self.dofarray(x) for k, x in kw.items() if k in ("out", "a", "object"))):
            r = self.array_fn(path[6:], args, kw, st, node)
            if r is not None:
                return r
        return super().call(path, args, kw, st, node)

    def method(self, obj, name, args, kw, st, node):
        if self.dofarray(obj) and (name in self.SAME or name in self.FRESH or name == "fill"):
            r = self.array_fn(name, [obj] + list(args), kw, st, node)
            if r is not None:
                return r
        return super().method(obj, name, args, kw, st, node)

    def full_slice(self, k):
        a = k.atom()
        if a is not None and a.kind == "slice" and all(isinstance(z, P) and is_none(z) for z in a.args):
            return True
        if a is not None and a.kind == "slice" and a.args == ("...",):
            return True
        return a is not None and a.kind == "mod" and a.args[0].endswith("Ellipsis")

    def proper_part(self, k):
        """A slice that certainly leaves out entries: constant bounds other than the whole range."""
        a = k.atom()
        if a is None or a.kind != "slice" or len(a.args) != 3 or any(not is_none(z) and as_int(z) is None for z in a.args):
            return False
        lo, hi, step = (None if is_none(z) else as_int(z) for z in a.args)
        return (lo or 0) != 0 or hi is not None and hi < 0 or abs(step or 1) != 1

    def dofidx(self, k, node):
        a = k.atom()
        if a is not None and a.kind == "dofs":
            return a.args
        raise Unsupported(f"{self.I.where(node)}: array index {T.show(k,600)[-400:]}")

    def view_item(self, a, x, k, st, node):
        if self.full_slice(k):
            return x
        if self.proper_part(k):
            return Atom("partof", k, self.view_get(a, st)).P()
        r = ZERO
        for g, kk in cases(k):
            sp, path = self.dofidx(kk, node)
            try:
                r = r + g * gather(self.view_get(a, st), sp, path)
            except WrongSpace as e:
                return self.I.fault(st, "WrongIndexMap", node, str(e))
            vs = self.vec_space(a.args[0].atom(), st)
            if vs is not None and vs != sp:
                return self.I.fault(st, "WrongIndexMap", node, f"vector over {show_space(vs)} indexed with dofs of {show_space(sp)}")
        return r

    def view_set(self, a, k, v, st, node, mode="set"):
        """mode: set / add / sub / mul / div"""
        ref = a.args[0].atom()
        if ref is None or ref.kind != "ref":
            raise Unsupported("array of a computed object")
        cur = self.view_get(a, st)
        sp = self.vec_space(ref, st)
        v = self.vecval(v, st, node)
        if k is None or self.full_slice(k):
            if mode in ("set", "add", "sub"):
                v = self.fit(v, sp, st, node)
                if v is None:
                    return
            new = v if mode == "set" else self.comb(mode, cur, v)
            if mode == "mul" and not v.t and cur.t and cur.const() is None and sp is not None:
                new = opaque_vec(leftover(cur), sp)        # what is not finite stays
            PT.set_val(self, a.args[0], new, st, node)
            return
        if self.proper_part(k):
            PT.set_val(self, a.args[0], Atom("partly", k, cur, self.freeze(v, st), S(mode)).P(), st, node)
            return
        new = cur
        for g, kk in cases(k):
            space, path = self.dofidx(kk, node)
            if sp is not None and sp != space:
                self.I.fault(st, "WrongIndexMap", node, f"vector over {show_space(sp)} indexed with dofs of {show_space(space)}")
                return
            try:
                old = gather(cur, space, path)
            except WrongSpace as e:
                self.I.fault(st, "WrongIndexMap", node, str(e))
                return
            w = self.fit(v, subspace_collapse(space, path), st, node)
            if w is None:
                return
            nv = w if mode == "set" else self.comb(mode, old, w)
            new = new + g * (mksc(space, path, nv) - mksc(space, path, old))
        PT.set_val(self, a.args[0], new, st, node)

    def comb(self, mode, a, b):
        if mode == "add":
            return a + b
        if mode == "sub":
            return a - b
        if mode == "mul":
            return a * b
        return a / b

    def vecval(self, v, st, node):
        a = v.atom()
        if a is not None and a.kind == "ref" and a.args[0] in ("PETSc.Vec", "ndarray"):
            return self.I.hget(st, a, "val")
        return self.num(v, st)

    def fit(self, v, sp, st, node):
        """Value assigned to an array over `sp`: numbers broadcast, vectors must live there."""
        if T.sort_of(v) == "cvec":
            for s in pspaces(v):
                if s is not None and sp is not None and s != sp:
                    self.I.fault(st, "SizeMismatch", node, f"values over {show_space(s)} stored over {show_space(sp)}")
                    return None
            return v
        if not v.t:
            return ZERO
        if T.sort_of(v) == "num":
            if sp is None or not is_scalar(sp):
                if sp is None:
                    raise Unsupported("constant fill of an unknown array")
                r = ZERO
                for path, bs in blocks(sp):
                    r = r + close_sum(bs, Atom("sc", sp, path, Atom("fill", subspace_collapse(sp, path)).P()).P())
                return v * r
            return v * Atom("fill", sp).P()
        if v.atom() is not None and v.atom().kind == "faulty":
            return None
        raise Unsupported(f"{self.I.where(node)}: stored value {T.show(v)[:80]}")

    def view_aug(self, a, k, op, v, st, node):
        if a.kind == "view":
            m = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div"}.get(type(op))
            if m is None:
                raise Unsupported("in-place operator")
            self.view_set(a, k, v, st, node, m)
            return
        super().view_aug(a, k, op, v, st, node)

    def setitem(self, a, k, v, st, node):
        if a.kind == "view":
            self.view_set(a, k, v, st, node)
            return
        if a.kind == "ref" and a.args[0] == "PETSc.Vec":
            self.view_set(Atom("view", a.P()), k, v, st, node)
            return
        super().setitem(a, k, v, st, node)

    def set_ndarray(self, a, v, st):
        super().set_ndarray(a, v, st)

    def getitem_value(self, x, k, st, node):
        if T.sort_of(x) == "cvec" and k.atom() is not None and self.full_slice(k):
            return x
        if T.sort_of(x) == "cvec" and self.proper_part(k):
            return Atom("partof", k, x).P()
        if T.sort_of(x) == "cvec" and k.atom() is not None and k.atom().kind == "dofs":
            try:
                return gather(x, *k.atom().args)
            except WrongSpace as e:
                return self.I.fault(st, "WrongIndexMap", node, str(e))
        return super().getitem_value(x, k, st, node)

    def setattr(self, a, x, name, v, st, node):
        if a is not None and a.kind == "lav" and name in ("array", "_array"):
            self.view_set(Atom("view", a.args[0]), None, v, st, node)
            return True
        return super().setattr(a, x, name, v, st, node)

    def attr_value(self, x, name, st, node):
        if T.sort_of(x) == "vfield" and name == "T":
            return x
        return super().attr_value(x, name, st, node)

    def call_value(self, x, args, kw, st, node):
        if T.sort_of(x) in ("field", "vfield") and len(args) == 1 and strval(args[0]) in ("+", "-"):
            return mkres(self.fieldize(x, st), strval(args[0]))
        a = x.atom()
        if a is not None and a.kind == "meas":
            return meas_call(self, a, args, kw, st, node)
        if a is not None and a.kind in ("coef", "arg"):
            return self.opaque("call", [x] + args, kw, st, node, pure=True)
        return super().call_value(x, args, kw, st, node)

    def call_ref(self, a, x, args, kw, st, node):
        if a.args[0] == "fem.Function" and len(args) == 1 and strval(args[0]) in ("+", "-"):
            return mkres(self.fieldize(x, st), strval(args[0]))
        return super().call_ref(a, x, args, kw, st, node)

    def enter(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind == "lform":
            return a.args[0]
        if a is not None and a.kind in ("attr",):
            self.I.event(st, "enter", (m,), node)
            return m
        return super().enter(m, st, node)

    def leave(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind == "lform":
            return True
        return super().leave(m, st, node)

    def cond_vals(self, v):
        return cases(v)


T.SORT["vtuple"] = "obj"
Lib.METH[("PETSc.Vec", "=array")] = lambda L, a, x, v, st, node: L.view_set(Atom("view", x), None, v, st, node)
Lib.METH[("PETSc.Vec", "=array_w")] = Lib.METH[("PETSc.Vec", "=array")]


# ---------------------------------------------------------------- measures, geometry
MEAS = {"dx": "cell", "cell": "cell", "ds": "exterior_facet", "exterior_facet": "exterior_facet", "dS": "interior_facet", "interior_facet": "interior_facet"}


def meta_val(L, md, st):
    if md is None or is_none(md):
        return NONE
    v = L.freeze(md, st)
    a = v.atom()
    if a is not None and a.kind == "dict":
        d = {strval(k): w for k, w in a.args[0]}
        if "quadrature_degree" in d:
            return Atom("ext", "qdeg", (d["quadrature_degree"],), ()).P()
    return v


@fn("ufl.Measure")
def _measure(L, args, kw, st, node):
    t, dom, sid, md, sd = sig("integral_type domain=None subdomain_id=None metadata=None subdomain_data=None", args, kw, "Measure")
    nm = MEAS.get(strval(t))
    if nm is None:
        return L.I.fault(st, "ValueError", node, "unknown measure")
    sub = NONE if sid is None or is_none(sid) or strval(sid) == "everywhere" else sid
    return Atom("meas", nm, NONE if dom is None else mesh_of(dom), meta_val(L, md, st), sub).P()


def mesh_of(d):
    a = d.atom()
    if a is not None and a.kind in ("fspace", "subsp"):
        return space_parts(d)[0]
    return d


def meas_call(L, a, args, kw, st, node):
    sid, md, dom, sd, deg = sig("subdomain_id=None metadata=None domain=None subdomain_data=None degree=None", args, kw, "measure")
    t, d0, m0, s0 = a.args
    if sid is not None and not is_none(sid):
        s0 = NONE if strval(sid) == "everywhere" else sid
        if L.I and a.kind == "meas":
            pass
    if md is not None and not is_none(md):
        m0 = meta_val(L, md, st)
    if deg is not None and not is_none(deg):
        m0 = Atom("ext", "qdeg", (deg,), ()).P()
    if dom is not None and not is_none(dom):
        d0 = mesh_of(dom)
    return Atom("meas", t, d0, m0, s0).P()


@fn("ufl.FacetNormal")
def _normal(L, args, kw, st, node):
    return Atom("normal", mesh_of(args[0])).P()


for _n, _g in (("CellDiameter", "h"), ("Circumradius", "rad"), ("CellVolume", "vol"), ("MaxCellEdgeLength", "maxedge"), ("MinCellEdgeLength", "minedge"),
               ("FacetArea", "farea"), ("MaxFacetEdgeLength", "maxfedge"), ("MinFacetEdgeLength", "minfedge")):
    def _geo(L, args, kw, st, node, g=_g):
        return Atom("geo", g, mesh_of(args[0])).P()
    Lib.FN["ufl." + _n] = _geo


@fn("ufl.SpatialCoordinate")
def _spx(L, args, kw, st, node):
    return Atom("spx", mesh_of(args[0])).P()


# ---------------------------------------------------------------- ufl operators
def F(L, v, st):
    return L.fieldize(L.num(v, st) if v.atom() is None or v.atom().kind != "ref" else v, st)


@fn("ufl.grad", "ufl.nabla_grad")
def _grad(L, args, kw, st, node):
    v = F(L, args[0], st)
    if T.sort_of(v) == "obj":
        cs = L.components(v, st, node)
        if cs is None:
            raise Unsupported("gradient of " + T.show(v)[:80])
        return Atom("vtuple", *[mkgrad(c) for c in cs]).P()
    if T.sort_of(v) == "vfield":
        return Atom("uop", "grad", v).P()
    return mkgrad(v)


@fn("ufl.div", "ufl.nabla_div")
def _div(L, args, kw, st, node):
    v = F(L, args[0], st)
    if T.sort_of(v) != "vfield":
        raise Unsupported("divergence of " + T.show(v)[:80])
    return mkdiv(v)


@fn("ufl.inner", "ufl.dot")
def _inner(L, args, kw, st, node):
    a, b = F(L, args[0], st), F(L, args[1], st)
    if a.const() == 0 or b.const() == 0:
        return ZERO
    sa, sb = T.sort_of(a), T.sort_of(b)
    if sa == "obj" or sb == "obj":
        xs, ys = L.components(a, st, node), L.components(b, st, node)
        if xs is None or ys is None:
            raise Unsupported("inner product of " + T.show(a)[:60])
        if len(xs) != len(ys):
            return L.I.fault(st, "UFLException", node, "shapes do not match")
        r = ZERO
        for x, y in zip(xs, ys):
            r = r + _inner2(L, x, y, st, node)
        return r
    return _inner2(L, a, b, st, node)


def _inner2(L, a, b, st, node):
    va, vb = T.sort_of(a) == "vfield", T.sort_of(b) == "vfield"
    if va != vb:
        return L.I.fault(st, "UFLException", node, "shapes do not match in an inner product")
    return mkip(a, b) if va else a * b


@fn("ufl.jump")
def _jump(L, args, kw, st, node):
    v = F(L, args[0], st)
    if len(args) > 1:
        n = args[1]
        if T.sort_of(v) == "vfield":
            return mkip(mkres(v, "+"), mkres(n, "+")) + mkip(mkres(v, "-"), mkres(n, "-"))
        return mkres(v, "+") * mkres(n, "+") + mkres(v, "-") * mkres(n, "-")
    return mkres(v, "+") - mkres(v, "-")


@fn("ufl.avg")
def _avg(L, args, kw, st, node):
    v = F(L, args[0], st)
    return (mkres(v, "+") + mkres(v, "-")) * const(Fr(1, 2))


@fn("ufl.Dn")
def _dn(L, args, kw, st, node):
    raise Unsupported("Dn")


@fn("ufl.sqrt")
def _usqrt(L, args, kw, st, node):
    from .lib import mksqrt
    return mksqrt(F(L, args[0], st))


for _n in ("sin", "cos", "tan", "exp", "tanh", "sinh", "cosh"):
    def _tr2(L, args, kw, st, node, n=_n):
        return T.CONSTRUCT[n](F(L, args[0], st))
    Lib.FN["ufl." + _n] = _tr2

Lib.FN["ufl.ln"] = lambda L, args, kw, st, node: T.CONSTRUCT["log"](F(L, args[0], st))


@fn("ufl.lt", "ufl.le", "ufl.gt", "ufl.ge", "ufl.eq", "ufl.ne")
def _ucmp(L, args, kw, st, node):
    nm = ast.unparse(node.func).split(".")[-1]
    a, b = F(L, args[0], st), F(L, args[1], st)
    if nm == "lt":
        return T.neg(a - b)
    if nm == "gt":
        return T.neg(b - a)
    if nm == "le":
        return ONE - T.neg(b - a)
    if nm == "ge":
        return ONE - T.neg(a - b)
    return eq0(a - b) if nm == "eq" else ONE - eq0(a - b)


@fn("ufl.And")
def _uand(L, args, kw, st, node):
    return args[0] * args[1]


@fn("ufl.Or")
def _uor(L, args, kw, st, node):
    return args[0] + args[1] - args[0] * args[1]


@fn("ufl.Not")
def _unot(L, args, kw, st, node):
    return ONE - args[0]


@fn("ufl.conditional")
def _ucond(L, args, kw, st, node):
    c, a, b = args
    return Atom("cond", c, F(L, a, st), F(L, b, st)).P()


# ---------------------------------------------------------------- functions
@fn("dolfinx.fem.Function")
def _function(L, args, kw, st, node):
    V, x, name, dt = sig("V x=None name=None dtype=None", args, kw, "Function")
    a = V.atom()
    if a is None or a.kind not in ("fspace", "subsp"):
        if a is not None and a.kind == "none":
            return L.I.fault(st, "NoneSpace", node)
        raise Unsupported("function over " + T.show(V)[:60])
    if a.kind == "subsp":
        return L.I.fault(st, "RuntimeError", node, "Function on a subspace view")
    r = L.I.alloc(st, "fem.Function", node)
    L.I.ctx.append("vec")
    v = PT.new(L, st, "PETSc.Vec", node, val=ZERO, space=V)
    L.I.ctx.pop()
    L.I.hset(st, r, "vec", v)
    L.I.hset(st, r, "space", V)
    return r.P()


@fn("dolfinx.fem.Constant")
def _constant(L, args, kw, st, node):
    mesh, v = args[:2]
    r = L.I.alloc(st, "fem.Constant", node)
    L.I.hset(st, r, "value", v)
    return r.P()


@meth("fem.Function", ".x")
def f_x(L, a, x, st, node):
    return Atom("lav", L.I.hget(st, a, "vec")).P()


@meth("fem.Function", ".vector")
def f_vec(L, a, x, st, node):
    return L.I.hget(st, a, "vec")


@meth("fem.Function", ".function_space")
def f_fs(L, a, x, st, node):
    return L.I.hget(st, a, "space")


@meth("subfun", ".function_space")
def sf_fs(L, a, x, st, node):
    return Atom("subsp", a.args[1], a.args[2]).P()


@meth("subfun", ".x")
def sf_x(L, a, x, st, node):
    return Atom("lav", a.args[0]).P()


@meth("subfun", ".vector")
def sf_vec(L, a, x, st, node):
    return a.args[0]


@meth("lav", ".array")
def lav_array(L, a, x, st, node):
    return Atom("view", a.args[0]).P()


@meth("lav", ".petsc_vec")
def lav_petsc(L, a, x, st, node):
    return a.args[0]


@meth("lav", "scatter_forward")
@meth("lav", "scatter_reverse")
@meth("lav", "set")
def lav_scatter(L, a, x, args, kw, st, node):
    if node.func.attr == "set":
        return PT.vec_set(L, a.args[0].atom(), a.args[0], args, kw, st, node)
    L.I.event(st, "touch", (a.args[0], S(node.func.attr)), node)
    return NONE


@meth("fem.Function", "split")
def f_split(L, a, x, args, kw, st, node):
    vec, sp = L.I.hget(st, a, "vec"), L.I.hget(st, a, "space")
    k = el_parts(space_parts(sp)[1])
    if k[0] == "s":
        return L.I.fault(st, "RuntimeError", node, "No subfunctions to extract")
    n = as_int(k[2]) if k[0] == "v" else len(k[1])
    if n is None:
        raise Unsupported("split into an unknown number of components")
    return tup(*[Atom("subfun", vec, sp, (const(j),)).P() for j in range(n)])


@meth("fem.Function", "sub")
def f_sub(L, a, x, args, kw, st, node):
    return Atom("subfun", L.I.hget(st, a, "vec"), L.I.hget(st, a, "space"), (L.num(args[0], st),)).P()


@meth("subfun", "sub")
def sf_sub(L, a, x, args, kw, st, node):
    return Atom("subfun", a.args[0], a.args[1], a.args[2] + (L.num(args[0], st),)).P()


@meth("subfun", "collapse")
def sf_collapse(L, a, x, args, kw, st, node):
    path = norm_path(a.args[1], a.args[2])
    cs = subspace_collapse(a.args[1], path)
    f = _function(L, [cs], {}, st, node)
    val = PT.get(L, st, a.args[0].atom(), "val")
    if is_scalar(cs):
        v = gather(val, a.args[1], path)
    else:
        v = ZERO
        for p, bs in blocks(cs):
            v = v + close_sum(bs, mksc(cs, p, gather(val, a.args[1], path + p)))
    L.I.hset(st, L.I.hget(st, f.atom(), "vec").atom(), "val", v)
    return f


@meth("subfun", "split")
def sf_split(L, a, x, args, kw, st, node):
    k = el_parts(walk_el(space_parts(a.args[1])[1], a.args[2]))
    n = as_int(k[2]) if k[0] == "v" else len(k[1])
    return tup(*[Atom("subfun", a.args[0], a.args[1], a.args[2] + (const(j),)).P() for j in range(n)])


@meth("fem.Function", "copy")
def f_copy(L, a, x, args, kw, st, node):
    sp = L.I.hget(st, a, "space")
    f = _function(L, [sp], {}, st, node)
    L.I.hset(st, L.I.hget(st, f.atom(), "vec").atom(), "val", L.I.hget(st, L.I.hget(st, a, "vec").atom(), "val"))
    return f


@fn("dolfinx.fem.Expression")
def _expression(L, args, kw, st, node):
    e, pts = args[:2]
    return Atom("fexpr", F(L, e, st), pts).P()


@meth("fem.Function", "interpolate")
def f_interpolate(L, a, x, args, kw, st, node):
    src = args[0] if args else kw.get("u")
    sp, vec = L.I.hget(st, a, "space"), L.I.hget(st, a, "vec")

    def one(s, u):
        ua = u.atom()
        if ua is not None and ua.kind == "ref" and ua.args[0] == "fem.Function":
            usp = L.I.hget(s, ua, "space")
            v = L.I.hget(s, L.I.hget(s, ua, "vec").atom(), "val")
            new = v if usp == sp else veclin(v, lambda z: interp_atom(sp, z))
        elif ua is not None and ua.kind == "subfun":
            p = norm_path(ua.args[1], ua.args[2])
            v = gather(PT.get(L, s, ua.args[0].atom(), "val"), ua.args[1], p)
            new = v if subspace_collapse(ua.args[1], p) == sp else veclin(v, lambda z: interp_atom(sp, z))
        elif ua is not None and ua.kind == "fexpr":
            new = resolve_fields(L, ua.args[0], s)
            new = Atom("vfun", sp, "expr", new).P()
        elif ua is not None and ua.kind == "none":
            return L.I.fault(s, "NoneCall", node, "interpolate(None)")
        elif ua is not None and ua.kind in ("func", "bound", "osym", "attr", "mod", "item", "fsym", "partial", "cls", "ext"):
            new = Atom("vfun", sp, "callable", u).P()
        else:
            raise Unsupported("interpolation of " + T.show(u)[:60])
        PT.set_val(L, vec, new, s, node)
        return NONE
    L.I.lifted(src, st, one, node)
    return NONE


def interp_atom(sp, z):
    """Interpolation of a scalar-space vector into another scalar space."""
    if vspace(z) == sp:
        return z.P()
    return Atom("interp", sp, z.P()).P()


T.CONSTRUCT["interp"] = lambda sp, p: veclin(p, lambda z: interp_atom(sp, z))


def resolve_fields(L, p, st):
    """Coefficients -> the values they have now."""
    mp = {}
    for a in T.atoms_of(p):
        if a.kind == "coef":
            vec, sp, path = a.args
            val = PT.val_of(L, vec, st)
            v = gather(val, sp, path) if path else val
            mp[a] = mkfld(v)
        elif a.kind == "ref" and a.args[0] == "fem.Constant":
            mp[a] = L.I.hget(st, a, "value")
    return subst(p, mp) if mp else p


# ---------------------------------------------------------------- forms
@fn("dolfinx.fem.form")
def _form(L, args, kw, st, node):
    v = args[0]
    a = v.atom()
    if a is not None and (a.kind == "tuple" or L.islist(a)):
        raise Unsupported("block form")
    p = L.num(v, st)
    if a is not None and a.kind in ("none", "faulty", "form"):
        return v
    r = ZERO
    spaces = {0: set(), 1: set()}
    for x in T.atoms_of(p):
        if x.kind == "arg":
            spaces[x.args[0]].add(x.args[1])
    if any(len(s) > 1 for s in spaces.values()):
        return L.I.fault(st, "ValueError", node, "form with arguments of several spaces")
    meshes = {space_parts(s)[0] for ss in spaces.values() for s in ss}
    if not meshes:
        meshes = {m.args[1] for m in T.atoms_of(p) if m.kind == "meas" and not is_none(m.args[1])}
    if len(meshes) > 1:
        return L.I.fault(st, "ValueError", node, "form over several meshes")
    mesh = next(iter(meshes)) if meshes else NONE
    for m, c in p.t.items():
        ms = [(z, e) for z, e in m if z.kind == "meas"]
        if len(ms) != 1 or ms[0][1] != 1:
            return L.I.fault(st, "UFLException", node, "integrand without or with several measures")
        z = ms[0][0]
        if is_none(z.args[1]):
            z2 = Atom("meas", z.args[0], mesh, z.args[2], z.args[3])
        else:
            z2 = z
            if not is_none(mesh) and z.args[1] != mesh:
                return L.I.fault(st, "ValueError", node, "measure on another mesh than the arguments")
        r = r + P({tuple(w for w in m if w[0] is not z): c}) * z2.P()
    return Atom("form", r).P()


def form_poly(f):
    a = f.atom()
    if a is None or a.kind != "form":
        raise Unsupported("form " + T.show(f)[:80])
    return a.args[0]


def arg_space(p, num):
    sp = {x.args[1] for x in T.atoms_of(p) if x.kind == "arg" and x.args[0] == num}
    if len(sp) > 1:
        raise Unsupported("several argument spaces")
    return next(iter(sp)) if sp else None


def to_form(L, f, st, node):
    a = f.atom()
    if a is not None and a.kind == "form":
        return f
    return _form(L, [f], {}, st, node)


@fn("dolfinx.fem.petsc.assemble_matrix")
def _asm(L, args, kw, st, node):
    a0 = args[0].atom()
    if a0 is not None and a0.kind == "none":
        return L.I.fault(st, "NoneForm", node)
    if a0 is not None and a0.kind == "ref" and a0.args[0] == "PETSc.Mat":
        A, f, rest = args[0], args[1], args[2:]
    else:
        A, f, rest = None, args[0], args[1:]
    p = resolve_fields(L, form_poly(f), st)
    bcs = rest[0] if rest else kw.get("bcs")
    if bcs is not None and not is_none(bcs):
        bv = L.freeze(bcs, st).atom()
        if bv is None or bv.kind != "tuple" or bv.args:
            p = p + Atom("ext", "bcs", (L.freeze(bcs, st),), ()).P()
    te, tr = arg_space(p, 0), arg_space(p, 1)
    if te is None or tr is None:
        return L.I.fault(st, "RuntimeError", node, "matrix from a form that is not bilinear")
    if A is None:
        A = PT.new(L, st, "PETSc.Mat", node, ctx=NONE, size=NONE, kind=S("aij"))
        old = ZERO
    else:
        old = PT.get(L, st, A.atom(), "form")
        old = ZERO if old is None else old
    L.I.hset(st, A.atom(), "form", old + p)
    L.I.hset(st, A.atom(), "space", te)
    L.I.hset(st, A.atom(), "trial", tr)
    L.I.event(st, "assemble_matrix", (A,), node)
    return A


@fn("dolfinx.fem.petsc.create_matrix")
def _crm(L, args, kw, st, node):
    p = form_poly(args[0])
    return PT.new(L, st, "PETSc.Mat", node, ctx=NONE, size=NONE, kind=S("aij"), form=ZERO, space=arg_space(p, 0), trial=arg_space(p, 1))


@meth("PETSc.Mat", "zeroEntries")
def mat_zero(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "form", ZERO)
    return NONE


@meth("PETSc.Mat", "axpy")
def mat_axpy(L, a, x, args, kw, st, node):
    al, B = args[:2]
    L.I.hset(st, a, "form", PT.get(L, st, a, "form") + L.num(al, st) * PT.get(L, st, B.atom(), "form"))
    return NONE


@meth("PETSc.Mat", "scale")
def mat_scale(L, a, x, args, kw, st, node):
    L.I.hset(st, a, "form", PT.get(L, st, a, "form") * L.num(args[0], st))
    return NONE


@meth("PETSc.Mat", "copy")
@meth("PETSc.Mat", "duplicate")
def mat_copy(L, a, x, args, kw, st, node):
    if node.func.attr == "duplicate" and not args and not kw:
        return PT.new(L, st, "PETSc.Mat", node, ctx=NONE, size=NONE, kind=S("aij"), form=ZERO, space=PT.get(L, st, a, "space"), trial=PT.get(L, st, a, "trial"))
    return PT.new(L, st, "PETSc.Mat", node, ctx=NONE, size=NONE, kind=S("aij"), form=PT.get(L, st, a, "form"), space=PT.get(L, st, a, "space"), trial=PT.get(L, st, a, "trial"))


def form_space(L, f):
    sp = arg_space(form_poly(f), 0)
    if sp is None:
        raise Unsupported("vector of a functional")
    return sp


@fn("dolfinx.fem.petsc.create_vector")
def _crv(L, args, kw, st, node):
    if is_none(args[0]):
        return L.I.fault(st, "NoneForm", node, "create_vector(None)")
    a = args[0].atom()
    sp = args[0] if a.kind == "fspace" else form_space(L, args[0])
    return PT.vec_like(L, st, node, ZERO, space=sp)


@fn("dolfinx.fem.petsc.assemble_vector")
def _asv(L, args, kw, st, node):
    a0 = args[0].atom()
    if a0 is not None and a0.kind == "ref" and a0.args[0] == "PETSc.Vec":
        b, f = args[0], args[1]
    else:
        b, f = None, args[0]
    p = resolve_fields(L, form_poly(f), st)
    sp = arg_space(p, 0)
    if sp is None:
        sp = arg_space(form_poly(f), 0)
        if sp is None:
            return L.I.fault(st, "RuntimeError", node, "vector from a form without test function")
    if arg_space(p, 1) is not None:
        return L.I.fault(st, "RuntimeError", node, "vector from a bilinear form")
    v = linform_vec(p, sp)
    if b is None:
        return PT.vec_like(L, st, node, v, space=sp)
    bs = L.vec_space(a0, st)
    if bs is not None and bs != sp:
        return L.I.fault(st, "SizeMismatch", node, "vector of another space")
    PT.set_val(L, b, PT.get(L, st, a0, "val") + v, st, node)
    return b


TINY = Fr(1, 10**12)


def linform_vec(p, sp):
    """Coefficient vector of a linear form."""
    r = ZERO
    for m, c in p.t.items():
        if abs(c) < TINY:
            continue
        o = open_spatial(m)
        if o is not None:
            bs, body = o
            r = r + const(c) * close_sum(bs, linform_vec(body, sp))
            continue
        args = {x for z, _ in m for x in T.atoms_of(z.P()) if x.kind == "arg"}
        if len(args) != 1:
            raise Unsupported("linear form term " + T.show(T.mono_P(m))[:100])
        (x,) = args
        path = norm_path(sp, x.args[2])
        k, s = split_const(m)
        body = subst(P({tuple(s): Fr(1)}), {x: Atom("tst").P()})
        cs = subspace_collapse(sp, path)
        r = r + const(c) * k * lfsc(sp, path, cs, body)
    return r


def open_spatial(m):
    """Monomial with a spatial sum factor -> (binders, opened product) or None."""
    for a, e in m:
        if a.kind == "sum" and spatial(a):
            bs, body = T.open_sum(a)
            rest = tuple((x, k) for x, k in m if x is not a)
            body = body * T.mono_P(rest)
            if e > 1:
                body = body * P({((a, e - 1),): Fr(1)})
            return bs, body
    return None


def lfsc(sp, path, cs, body):
    r = ZERO
    for m, c in body.t.items():
        o = open_spatial(m)
        if o is not None:
            r = r + const(c) * close_sum(o[0], lfsc(sp, path, cs, o[1]))
            continue
        k, s = split_const(m)
        v = Atom("lf", cs, P({tuple(s): Fr(1)})).P()
        r = r + const(c) * k * (Atom("sc", sp, path, v).P() if path else v)
    return r


def mklf(cs, p):
    r = ZERO
    for m, c in p.t.items():
        o = open_spatial(m)
        if o is not None:
            r = r + const(c) * close_sum(o[0], mklf(cs, o[1]))
            continue
        k, s = split_const(m)
        r = r + const(c) * k * Atom("lf", cs, P({tuple(s): Fr(1)})).P()
    return r


T.CONSTRUCT["lf"] = mklf


@fn("dolfinx.fem.assemble_scalar", "dolfinx.fem.assemble.assemble_scalar")
def _ass(L, args, kw, st, node):
    p = resolve_fields(L, form_poly(to_form(L, args[0], st, node)), st)
    return mklsc(p)


def mklsc(p):
    r = ZERO
    for m, c in p.t.items():
        o = open_spatial(m)
        if o is not None:
            r = r + const(c) * close_sum(o[0], mklsc(o[1]))
            continue
        k, s = split_const(m)
        r = r + const(c) * k * Atom("lsc", P({tuple(s): Fr(1)})).P()
    return r


T.CONSTRUCT["lsc"] = mklsc


def form_apply(p, trial, xval):
    """Linear form obtained by inserting the vector for the trial function."""
    r, flat = ZERO, {}
    for m, c in p.t.items():
        o = open_spatial(m)
        if o is not None:
            r = r + const(c) * close_sum(o[0], form_apply(o[1], trial, xval))
        else:
            flat[m] = c
    p = P(flat)
    mp = {}
    for a in T.atoms_of(p):
        if a.kind == "arg" and a.args[0] == 1:
            v = gather(xval, trial, a.args[2]) if a.args[2] else xval
            mp[a] = mkfld(v)
    return r + subst(p, mp)


def clean_tiny(p):
    return P({m: c for m, c in p.t.items() if abs(c) >= TINY})


@meth("PETSc.Mat", "mult")
def mat_mult(L, a, x, args, kw, st, node):
    u, y = sig("x y", args, kw, "Mat.mult")
    f = PT.get(L, st, a, "form")
    ua = u.atom()
    for z, nm in ((u, "input"), (y, "output")):
        if is_none(z):
            return L.I.fault(st, "NoneVector", node, f"Mat.mult {nm}")
    v = PT.val_of(L, u, st)
    L.I.event(st, "mat_mult", (x, u, y), node)
    if u == y:
        L.I.fault(st, "Aliasing", node, "Mat.mult with input and output identical")
    if f is None:
        ctx = PT.get(L, st, a, "ctx")
        if ctx is not None and not is_none(ctx):
            L.I.call(L.I.getattr(ctx, "mult", st, node), [x, u, y], {}, st, node)
            return NONE
        PT.set_val(L, y, Atom("ext", "matvec", (x, v), ()).P(), st, node)
        return NONE
    tr, te = PT.get(L, st, a, "trial"), PT.get(L, st, a, "space")
    us = L.vec_space(ua, st) if ua is not None and ua.kind == "ref" else None
    ys = L.vec_space(y.atom(), st)
    if (us is not None and us != tr) or (ys is not None and ys != te):
        return L.I.fault(st, "SizeMismatch", node, "matrix-vector product with vectors of another space")
    PT.set_val(L, y, linform_vec(form_apply(clean_tiny(f), tr, v), te), st, node)
    return NONE


@meth("PETSc.Mat", "multAdd")
def mat_multadd(L, a, x, args, kw, st, node):
    u, v, y = sig("x v y", args, kw, "Mat.multAdd")
    vv = PT.val_of(L, v, st)
    mat_mult(L, a, x, [u, y], {}, st, node)
    PT.set_val(L, y, PT.val_of(L, y, st) + vv, st, node)
    return NONE


@meth("PETSc.Mat", "getValuesCSR")
def mat_csr(L, a, x, args, kw, st, node):
    return tup(*[Atom("csr", x, n).P() for n in ("indptr", "indices", "data")])


T.SORT["csr"] = "obj"


@meth("PETSc.Vec", "localForm")
def vec_localform(L, a, x, args, kw, st, node):
    return Atom("lform", x).P()


# ---------------------------------------------------------------- solvers handed in by the analysis
@meth("slabsolver", "solve")
def ss_solve(L, a, x, args, kw, st, node):
    b, y = sig("b x", args, kw, "solve")
    for z, nm in ((b, "right-hand side"), (y, "solution")):
        if is_none(z):
            return L.I.fault(st, "NoneVector", node, f"solve: {nm}")
    name, sp = a.args
    bv = PT.val_of(L, b, st)
    for s in (L.vec_space(z.atom(), st) for z in (b, y)):
        if s is not None and s != sp:
            return L.I.fault(st, "SizeMismatch", node, f"solver over {show_space(sp)} given a vector over {show_space(s)}")
    L.I.event(st, "slabsolve", (x, b, bv, y), node)
    v = ZERO
    for path, bs in blocks(sp):
        v = v + close_sum(bs, Atom("sc", sp, path, Atom("sol", x, bv, sp, path).P()).P())
    PT.set_val(L, y, v, st, node)
    return NONE


@meth("slabsolver", "__call__")
def ss_call(L, a, x, args, kw, st, node):
    return ss_solve(L, a, x, args, kw, st, node)


# ---------------------------------------------------------------- communicator, sampling
@meth("attr", "allreduce")
@meth("mod", "allreduce")
@meth("ext", "allreduce")
@meth("osym", "allreduce")
def allreduce(L, a, x, args, kw, st, node):
    v, op = sig("sendobj op=None", args, kw, "allreduce")
    v = L.num(v, st)
    L.I.event(st, "collective", (S("allreduce"),), node)
    o = op.atom() if op is not None else None
    nm = o.args[0].split(".")[-1] if o is not None and o.kind == "mod" else "SUM" if op is None else T.show(op)
    return mkallred(x, nm, v)


def mkallred(comm, nm, v):
    if nm == "SUM" and T.sort_of(v) != "obj":
        r = ZERO
        for m, c in v.t.items():
            loc = tuple((a, e) for a, e in m if any(z.kind == "lsc" for z in T.atoms_of(a.P())))
            rest = tuple((a, e) for a, e in m if (a, e) not in loc)
            if len(loc) == 1 and loc[0][0].kind == "sum" and loc[0][1] == 1:
                bs, body = T.open_sum(loc[0][0])
                if not any(z.kind == "lsc" for _, h in bs for z in T.atoms_of(h)):
                    r = r + P({rest: c}) * T.close_sum(bs, mkallred(comm, nm, body))
                    continue
            r = r + P({rest: c}) * Atom("allred", comm, nm, P({loc: Fr(1)})).P()
        return r
    return Atom("allred", comm, nm, v).P()


T.CONSTRUCT["allred"] = mkallred


@fn("dxh.evaluate_function_at_points")
def _evalpts(L, args, kw, st, node):
    f, pts = sig("function points", args, kw, "evaluate_function_at_points")
    a = f.atom()
    if a is None or a.kind != "ref":
        raise Unsupported("evaluation of " + T.show(f)[:60])
    v = PT.get(L, st, L.I.hget(st, a, "vec").atom(), "val")
    p = L.freeze(pts, st)
    return veclin(v, lambda z: Atom("evalpts", z.P(), p).P())


def mkvabs(v):
    return Atom("vabs", v).P()


_oldabs = Lib.FN["builtins.abs"]


def _abs2(L, args, kw, st, node):
    x = L.num(args[0], st)
    if T.sort_of(x) == "cvec":
        return mkabs(x)
    return _oldabs(L, args, kw, st, node)


for _p in ("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs"):
    Lib.FN[_p] = _abs2
