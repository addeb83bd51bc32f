"""C01-C16, C61: the space-time system (space_time.py)."""
from __future__ import annotations

import itertools
from fractions import Fraction as Fr

from . import fem as F
from . import petsc as PT
from . import term as T
from .checks_time import integrate01, lagrange, numeric
from .interp import AlwaysRaises, NONE, S, seq_segs, strval
from .lib import pdiff
from . import stlib
from .stlib import B, Inst, M, SRC, pos
from .term import ONE, ZERO, Atom, P, Unsupported, as_int, close_sum, const, eq0, fresh_idx, subst

PAIRS = [(q, s) for q in range(4) for s in range(4)]
QUICK = [(1, 0), (1, 1), (2, 1), (2, 2), (0, 0), (3, 2), (0, 1), (1, 2)]
W = lambda f: f"{SRC}::SpaceTime.{f}"


def pairs(rep):
    return PAIRS if rep.tier == "thorough" else QUICK


# ------------------------------------------------------------------ comparison
def snap(p, strip=None):
    """Drop coefficients below 1e-12, round floating-point noise, apply an atom map."""
    if strip:
        p = subst(p, strip)
    out = {}
    for m, c in p.t.items():
        if abs(c) < F.TINY:
            continue
        r = c.limit_denominator(10**6)
        out[m] = r if abs(r - c) <= Fr(1, 10**10) * max(1, abs(c)) else c
    return P(out)


def nometa(p):
    """Forget quadrature metadata of measures."""
    mp = {}
    for a in T.atoms_of(p):
        if a.kind == "meas" and (a.args[2] != NONE):
            mp[a] = Atom("meas", a.args[0], a.args[1], NONE, a.args[3]).P()
    return subst(p, mp) if mp else p


def same(rep, key, got, want, what, where, sizes=()):
    """Obligation got == want. `sizes`: symbols whose instances settle a normal-form difference."""
    d = snap(got - want)
    if not d.t:
        rep.ok(key)
        return True
    if numericallyzero(d):
        rep.ok(key)
        return True
    if sizes:
        bad = None
        for n in (1, 2, 3, 4, 5, 7):
            e = snap(subst(d, {s: const(n) for s in sizes}))
            if e.t and not numericallyzero(e):
                bad = (n, e)
                break
        if bad is None:
            rep.undecided(key, "difference not reduced to zero for a symbolic number of slabs: " + T.show(d, 300))
            return None
        d = bad[1]
        what += f" (for {bad[0]} slabs)"
    rep.bad(key, f"{what}; difference: {T.show(d, 400)}", where)
    return False


def numericallyzero(d):
    return all(abs(float(c)) < 1e-9 for c in d.t.values())


def atomkind(p, kind):
    return [a for a in T.atoms_of(p) if a.kind == kind]


# ------------------------------------------------------------------ forms
def mat_form(i, A):
    """Form of an assembled matrix value (resolved coefficients)."""
    a = A.atom()
    if a is None or a.kind != "ref" or a.args[0] != "PETSc.Mat":
        raise Unsupported("matrix " + T.show(A)[:80])
    f = i.A.I.hget(i.A.st, a, "form")
    if f is None:
        raise Unsupported("matrix without form")
    return f


class Spec:
    """Builder of expected forms over one function space."""

    def __init__(self, sp, mesh, meta=NONE):
        self.sp, self.mesh = sp, mesh
        self.dx = Atom("meas", "cell", mesh, meta, NONE).P()
        self.ds = Atom("meas", "exterior_facet", mesh, NONE, NONE).P()
        self.dS = Atom("meas", "interior_facet", mesh, NONE, NONE).P()
        self.h = Atom("geo", "h", mesh).P()
        self.n = Atom("normal", mesh).P()

    def arg(self, num, *path):
        return Atom("arg", num, self.sp, F.norm_path(self.sp, tuple(x if isinstance(x, P) else const(x) for x in path))).P()

    def tr(self, *path):
        return self.arg(1, *path)

    def te(self, *path):
        return self.arg(0, *path)


def ip(a, b):
    return F.mkip(F.mkgrad(a), F.mkgrad(b))


def geo_atoms():
    pass


def swap(p):
    mp = {}
    for a in atomkind(p, "arg"):
        mp[a] = Atom("arg", 1 - a.args[0], a.args[1], a.args[2]).P()
    return subst(p, mp)


def embed(p, frm, to, f):
    """Rename arguments over space `frm` to `to`; f(path) -> path."""
    mp = {}
    for a in atomkind(p, "arg"):
        if a.args[1] != frm:
            raise Unsupported("argument of another space")
        mp[a] = Atom("arg", a.args[0], to, F.norm_path(to, f(a.args[2]))).P()
    return subst(p, mp)


def time_mats(q, qs):
    x = Atom("symv", "x")
    L = {"q": lagrange(q, x.P()), "s": lagrange(qs, x.P())}

    def mk(r, c, dr, dc):
        R = [pdiff(p, x) if dr else p for p in L[r]]
        C = [pdiff(p, x) if dc else p for p in L[c]]
        return [[integrate01(a * b, x) for b in C] for a in R]
    return dict(Ms=mk("s", "q", 0, 0), Mq=mk("q", "q", 0, 0), Mss=mk("s", "s", 0, 0), Ds=mk("s", "q", 0, 1), Dq=mk("q", "q", 0, 1), DD=mk("q", "q", 1, 1))


def slab_spec(i, s, ind, q, qs, dt, w):
    """The jump-free slab form, term by term from the method's definition.
    The weak wave operator A(u; y) of the first-order system, its adjoint, data term, dual and
    primal stabilisation."""
    tm = time_mats(q, qs)
    lam = const(5) * i.k ** 2
    dx, ds, dS, h, n = s.dx, s.ds, s.dS, s.h, s.n
    u1 = lambda j: s.tr(0, j)
    u2 = lambda j: s.tr(1, j)
    z1 = lambda j: s.tr(2, j)
    z2 = lambda j: s.tr(3, j)
    w1 = lambda j: s.te(0, j)
    w2 = lambda j: s.te(1, j)
    y1 = lambda j: s.te(2, j)
    y2 = lambda j: s.te(3, j)

    def wave(a1, a2, b1, b2):
        """int (dt a2, b1) + (grad a1, grad b1) - <dn a1, b1> + (dt a1 - a2, b2)"""
        r = ZERO
        for j in range(q + 1):
            for k in range(qs + 1):
                D, m = tm["Ds"][k][j], tm["Ms"][k][j]
                r = r + D * a2(j) * b1(k) * dx + dt * m * ip(a1(j), b1(k)) * dx - dt * m * F.mkip(F.mkgrad(a1(j)), n) * b1(k) * ds
                r = r + D * a1(j) * b2(k) * dx - dt * m * a2(j) * b2(k) * dx
        return r

    a = wave(u1, u2, y1, y2) + wave(w1, w2, z1, z2)
    hp, hm = F.mkres(h, "+"), F.mkres(h, "-")
    hinv = h.inv() if hasattr(h, "inv") else ONE / h

    def jmp(x):
        g = F.mkgrad(x)
        return F.mkres(g, "+") - F.mkres(g, "-")

    for j in range(q + 1):
        for k in range(q + 1):
            m, D, Dt, DD = tm["Mq"][k][j], tm["Dq"][k][j], tm["Dq"][j][k], tm["DD"][k][j]
            a = a + w["data"] * dt * m * ind * u1(j) * w1(k) * dx
            p = dt * lam * hinv * m * u1(j) * w1(k) * ds
            p = p + dt * m * const(Fr(1, 2)) * (hp + hm) * F.mkip(jmp(u1(j)), jmp(w1(k))) * dS
            # |u2 - dt u1|^2
            p = p + (dt * m * u2(j) * w2(k) - Dt * u2(j) * w1(k) - D * u1(j) * w2(k) + dt.inv() * DD * u1(j) * w1(k)) * dx
            # h^2 |dt u2 - lap u1|^2
            p = p + h ** 2 * (dt.inv() * DD * u2(j) * w2(k) - D * u2(j) * F.mklap(w1(k)) - Dt * F.mklap(u1(j)) * w2(k) + dt * m * F.mklap(u1(j)) * F.mklap(w1(k))) * dx
            a = a + w["primal"] * p
    for j in range(qs + 1):
        for k in range(qs + 1):
            m = tm["Mss"][k][j]
            g = w["dual"] * dt * m
            a = a - g * (y1(j) * z1(k) + ip(y1(j), z1(k)) + y2(j) * z2(k)) * dx - g * lam * hinv * y1(j) * z1(k) * ds
    return a


def init_penalty(s, w, dt, u1, u2, w1, w2):
    g = w["primal-jump"]
    return g * dt.inv() * u1 * w1 * s.dx + g * dt * ip(u1, w1) * s.dx + g * dt.inv() * u2 * w2 * s.dx


def slab_parts(i, p):
    """Path map of a slab block to slab n."""
    q1, s1 = i.q + ONE, i.qs + ONE
    return lambda n: (lambda path: (path[0], path[1] + n * (q1 if as_int(path[0]) in (0, 1) else s1)))


def faults(rep, i, key):
    seen = set()
    for e, _ in flat(i.A.st.ev, "fault"):
        if (str(e.data[0]), e.where) in seen:
            continue
        seen.add((str(e.data[0]), e.where))
        rep.bad(f"{key}fault:{e.data[0]}@{func_of(e.where)}", f"evaluation fails: {e.data[0]} {e.data[1] if len(e.data) > 1 else ''}", e.where)
    return not seen


def func_of(w):
    return str(w).rsplit(":", 1)[0] if w else ""


def flat(evs, kind, inloop=False):
    out = []
    for e in evs:
        if e.kind == "loop":
            out += flat(e.body, kind, True)
        elif e.kind == kind:
            out.append((e, inloop))
    return out


def sizes_of(i):
    return [i.N.atom()] if i.N.atom() is not None and i.N.const() is None else []


# ------------------------------------------------------------------ C01
def modes(rep):
    """(q, qs, N): symbolic slab count first, constants as second opinion."""
    return [(q, s, None) for q, s in pairs(rep)]


def cfgname(q, qs, N, **kw):
    return f"q{q}:qstar{qs}:N={'any' if N is None else N}" + "".join(f":{k}" for k, v in kw.items() if v)


def with_fallback(f, rep, q, qs, **kw):
    """Run f for every number of slabs; if the engine cannot follow, for constants."""
    from .report import Report
    sub = Report(rep.pid, rep.tier)
    sub.guard(cfgname(q, qs, None, **kw), f, sub, q, qs, None, **kw)
    if sub.und and not sub.viol:
        for N in (1, 2, 3):
            n0 = len(rep.und)
            stlib.LAST.clear()
            rep.guard(cfgname(q, qs, N, **kw), f, rep, q, qs, N, **kw)
            if len(rep.und) > n0 and stlib.LAST:      # evaluation that fails outright also stops the analysis
                faults(rep, stlib.LAST[-1], "")
    merge(rep, sub)


def merge(rep, sub):
    rep.obl += sub.obl
    for v in sub.viol:
        if not any(k == v[0] for k, *_ in rep.viol):
            rep.viol.append(v)
    rep.und += sub.und
    rep.analysed |= sub.analysed


def fan(rep, f, combos, prs=None):
    rep.pmap([(cfgname(q, s, None, **kw), with_fallback_job(f), (q, s, kw)) for q, s in (prs or pairs(rep)) for kw in combos])


def with_fallback_job(f):
    return lambda rep, q, s, kw: with_fallback(f, rep, q, s, **kw)


def c01_one(rep, q, qs, N, jumps=False, wp=False, fitted=False):
    i = Inst(q, qs, N, jumps=jumps, wp=wp, fitted=fitted)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    i.m("get_slab_matrix")
    slab_j = mat_form(i, i.attr("slab_matrix"))
    slab_0 = mat_form(i, i.attr("slab_matrix_no_dg_jumps"))
    i.m("setup_coupling_matrix_between_slices")
    coup = mat_form(i, i.attr("coupling_matrix_between_slices"))
    full = mat_form(i, i.m("get_spacetime_matrix"))
    fes, fes_p, fes_c = i.attr("fes"), i.attr("fes_p"), i.attr("fes_coupling")
    dt = i.T * i.N.inv()
    w = i.w
    n = fresh_idx(i.N, "n")
    want = close_sum([(n, i.N)], embed(snap(slab_0), fes_p, fes, slab_parts(i, None)(n.P())))
    q1 = i.q + ONE

    def cpath(m):
        return lambda path: (path[0], path[1] + m * q1 - ONE)
    tot = sum_from(i, lambda m: embed(snap(coup), fes_c, fes, cpath(m)))
    want = want + tot
    s = Spec(fes, i.mesh, cell_meta(full))
    if wp:
        want = want + init_penalty(s, w, dt, s.tr(0, 0), s.tr(1, 0), s.te(0, 0), s.te(1, 0))
    if jumps:
        want = want + sum_from(i, lambda m: fw_jumps(i, s, m, dt))
    same(rep, pre + "sum-of-slabs", full, want, "the space-time form is not the sum of the slab forms and the inter-slab jump forms", W("setup_spacetime_matrix"), sizes_of(i))
    sp = Spec(fes_p, i.mesh, cell_meta(slab_0))
    wj = slab_0 + init_penalty(sp, w, dt, sp.tr(0, 0), sp.tr(1, 0), sp.te(0, 0), sp.te(1, 0))
    if jumps:
        g = w["dual"] * dt
        wj = wj - g * (sp.te(3, 0) * sp.tr(3, 0) + sp.te(2, 0) * sp.tr(2, 0)) * sp.dx + (sp.te(2, 0) * sp.tr(1, 0) + sp.te(3, 0) * sp.tr(0, 0)) * sp.dx
    same(rep, pre + "slab-penalty", slab_j, wj, "the slab form with jumps is not the jump-free form plus the penalty of its initial time node", W("setup_slab_matrix"))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def sum_from(i, f):
    """sum_{m=1}^{N-1} f(m)"""
    m = fresh_idx(i.N, "m")
    r = close_sum([(m, i.N)], f(m.P()))
    return r - f(ZERO)


def cell_meta(p):
    ms = {a.args[2] for a in atomkind(p, "meas") if a.args[0] == "cell"}
    return next(iter(ms)) if len(ms) == 1 else NONE


def fw_jumps(i, s, m, dt):
    """forward problem jumps at slab m (>0): field jump against the first dual node, and the dual penalty"""
    q1, s1 = i.q + ONE, i.qs + ONE
    a, b, c = m * q1, m * q1 - ONE, m * s1
    r = (s.te(1, a) - s.te(1, b)) * s.tr(2, c) + (s.te(0, a) - s.te(0, b)) * s.tr(3, c)
    r = r + (s.tr(0, a) - s.tr(0, b)) * s.te(3, c) + (s.tr(1, a) - s.tr(1, b)) * s.te(2, c)
    g = i.w["dual"] * dt
    return (r - g * (s.te(3, c) * s.tr(3, c) + s.te(2, c) * s.tr(2, c))) * s.dx


SWITCHES = [dict(jumps=a, wp=b) for a in (False, True) for b in (False, True)]


def c01(rep):
    fan(rep, c01_one, SWITCHES)


# ------------------------------------------------------------------ C03
def c03_one(rep, q, qs, N, jumps=False, wp=False):
    i = Inst(q, qs, N, jumps=jumps, wp=wp)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    i.m("get_slab_matrix")
    i.m("setup_coupling_matrix_between_slices")
    i.m("setup_scaled_mass_matrix_between_slices")
    for key, A, fn in (("spacetime", i.m("get_spacetime_matrix"), "setup_spacetime_matrix"),
                       ("slab", i.attr("slab_matrix_no_dg_jumps"), "setup_slab_matrix"),
                       ("coupling", i.attr("coupling_matrix_between_slices"), "setup_coupling_matrix_between_slices"),
                       ("mass", i.attr("scaled_mass_matrix_between_slices"), "setup_scaled_mass_matrix_between_slices")):
        p = mat_form(i, A)
        same(rep, pre + key, p, swap(p), f"the {key} matrix is not symmetric: exchanging trial and test changes the form", W(fn), sizes_of(i))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c03(rep):
    fan(rep, c03_one, SWITCHES)


# ------------------------------------------------------------------ C04
def c04_one(rep, q, qs, N, fitted=False):
    i = Inst(q, qs, N, fitted=fitted)
    pre = cfgname(q, qs, N, fitted=fitted) + ":"
    i.m("get_slab_matrix")
    p = mat_form(i, i.attr("slab_matrix_no_dg_jumps"))
    sp = i.attr("fes_p")
    s = Spec(sp, i.mesh)
    dt = i.T * i.N.inv()
    ind = i.ind
    want = slab_spec(i, s, ind, q, qs, dt, i.w)
    got = nometa(p)
    same(rep, pre + "slab-form", got, want, "the slab form is not the stabilised wave-equation optimality system", W("setup_slab_matrix"), sizes_of(i))
    for a in atomkind(p, "meas"):
        if a.args[0] == "cell" and a.args[2] != NONE:
            b = a.args[2].atom()
            if b is not None and b.kind == "ext" and b.args[0] == "qdeg":
                d = b.args[1][0] - const(2) * i.k
                low = d.const()
                lowk = [subst(d, {i.k.atom(): const(v)}).const() for v in (1, 2, 3, 4)]
                bad = (low is not None and low < 0) or any(x is not None and x < 0 for x in lowk)
                rep.check(not bad, pre + "quadrature", f"cell quadrature degree {T.show(b.args[1][0])} is below 2k: mass terms are under-integrated", W("__init__"))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c04(rep):
    fan(rep, c04_one, [dict()])


# ------------------------------------------------------------------ C05
def num_atoms(p):
    """Replace numeric square roots etc. by rational approximations, also inside call arguments."""
    mp = {}
    for a in T.atoms_of(p):
        if a.kind in ("sqrt", "inv") and not a.free:
            v = numeric(a.P())
            if v is not None:
                mp[a] = const(Fr(v).limit_denominator(10**14))
    return subst(p, mp) if mp else p


def terms_of(p):
    """[(binders, coefficient P, block path, test-space, lf body monomial factors)] of a vector."""
    out = []

    def go(bs, k, p):
        for m, c in p.t.items():
            v = [(a, e) for a, e in m if a.sort == "cvec"]
            if len(v) != 1 or v[0][1] != 1:
                raise Unsupported("vector term " + T.show(T.mono_P(m))[:100])
            rest = k * P({tuple(x for x in m if x[0] is not v[0][0]): c})
            a = v[0][0]
            if a.kind == "sum":
                b2, body = T.open_sum(a)
                go(bs + b2, rest, body)
            elif a.kind == "sc":
                go_in(bs, rest, a.args[1], a.args[2])
            else:
                go_in(bs, rest, (), a.P())

    def go_in(bs, k, path, p):
        for m, c in p.t.items():
            if len(m) != 1 or m[0][1] != 1:
                raise Unsupported("block content")
            a = m[0][0]
            out.append((bs, k * const(c), path, a))
    go([], ONE, p)
    return out


def reft(i, u):
    """Calls of the reference solution `u` -> time argument; None if the call is not (time, x)."""
    def f(a):
        if a.kind == "ext" and a.args[0] == "call" and a.args[1] and a.args[1][0] == u:
            ar = a.args[1][1:]
            if len(ar) == 2 and ar[1].atom() is not None and ar[1].atom().kind == "spx" and ar[1].atom().args[0] == i.mesh:
                return ar[0]
            raise Unsupported("reference solution called with " + T.show(a.P())[:100])
        return None
    return f


def data_factor(i, p):
    """Spatial weight and measure of the data term of a matrix form."""
    g = i.w["data"].atom()
    fs = set()
    for m, c in p.t.items():
        if not any(a is g for a, _ in m):
            continue
        o = F.open_spatial(m)
        mono = [m] if o is None else list(o[1].t)
        for mm in mono:
            if any(a.kind == "sum" for a, _ in mm):
                raise Unsupported("nested sum")
            k, s = F.split_const(mm)
            w = tuple(sorted(((a, e) for a, e in s if a.kind != "arg"), key=lambda x: x[0].key))
            fs.add(w)
    return fs


def c05_one(rep, q, qs, N, wp=False, fitted=False):
    i = Inst(q, qs, N, wp=wp, fitted=fitted)
    pre = cfgname(q, qs, N, wp=wp, fitted=fitted) + ":"
    where = W("setup_rhs")
    fes = i.attr("fes")
    V = F.gather(F.opaque_vec("fes0", fes), fes, (0, 0)) if False else None
    ini = {}
    if wp:
        for nm in ("u1_0", "u2_0"):
            fr = i.attr(nm).atom()
            vec = i.A.I.hget(i.A.st, fr, "vec")
            sp = i.A.I.hget(i.A.st, fr, "space")
            ini[nm] = F.opaque_vec("user_" + nm, sp)
            PT.set_val(i.A.lib, vec, ini[nm], i.A.st, i.A.node)
    b = i.m("get_spacetime_rhs")
    val = num_atoms(PT.get(i.A.lib, i.A.st, b.atom(), "val"))
    i.m("get_slab_matrix")
    wts = data_factor(i, snap(mat_form(i, i.attr("slab_matrix_no_dg_jumps"))))
    if len(wts) != 1:
        raise Unsupported("matrix data term with several weights")
    (wt,) = wts
    dt = i.T * i.N.inv()
    call = reft(i, i.sol_v)
    data, other = {}, ZERO
    s = Spec(fes, i.mesh)
    q1 = q + 1
    for bs, k, path, a in terms_of(val):
        inner = a.args[1] if a.kind == "lf" else None
        hit = [x for x in T.atoms_of(inner) if x.kind == "ext" and x.args[0] == "call"] if inner is not None else []
        if not hit:
            other = other + close_sum(bs, k * F.mksc(fes, path, a.P()))
            continue
        if len(hit) != 1:
            raise Unsupported("several calls in one term")
        t = call(hit[0])
        if t is None:
            rep.bad(pre + "which-solution", f"the data term uses {T.show(hit[0].P(), 100)} instead of the reference solution", where)
            return
        if len(bs) > 1:
            raise Unsupported("data term summed over several indices")
        if bs:
            n = bs[0][0].P()
            if bs[0][1] != i.N:
                raise Unsupported("data terms summed over a part of the slabs")
            slab = "any"
        else:
            idx = as_int(path[1])
            if idx is None or i.N.const() is None:
                raise Unsupported("data term of a single slab")
            slab = idx // q1
            n = const(slab)
        kk = path[1] - n * const(q1)
        if as_int(path[0]) != 0 or as_int(kk) is None or not 0 <= as_int(kk) <= q:
            rep.bad(pre + "block", f"the data term is tested with block {[T.show(x) for x in path]}, not with the first primal field of its slab", where)
            return
        tau = numeric((t - n * dt) * dt.inv())
        if tau is None:
            rep.bad(pre + "time", f"the reference solution is evaluated at {T.show(t)}, which is not (slab start + slab length * node)", where)
            return
        if not -1e-9 <= tau <= 1 + 1e-9:
            rep.bad(pre + "time", f"the reference solution is evaluated at {T.show(t)}, outside its slab", where)
            return
        (mono, c1), = inner.t.items()
        rest = tuple(sorted(((x, e) for x, e in mono if x is not hit[0] and x.kind != "tst"), key=lambda x: x[0].key))
        tst = [e for x, e in mono if x.kind == "tst"]
        if tst != [1] or dict(mono)[hit[0]] != 1:
            rep.bad(pre + "form", f"the data term is {T.show(inner, 200)}", where)
            return
        if rest != wt:
            rep.bad(pre + "weight", f"the data term carries {T.show(T.mono_P(rest), 200)}, the matrix's data term {T.show(T.mono_P(wt), 200)}", where)
            return
        cc = numeric(k * const(c1) * (i.w["data"] * dt).inv())
        if cc is None:
            rep.bad(pre + "scale", f"the data term is scaled with {T.show(k)}, not with data weight times slab length", where)
            return
        key = next((z for z in data if z[0] == slab and abs(z[1] - tau) < 1e-9), (slab, tau))
        d = data.setdefault(key, {})
        d[as_int(kk)] = d.get(as_int(kk), 0.0) + cc
    slabs = ["any"] if N is None else list(range(N))
    x = Atom("symv", "x")
    bas = lagrange(q, x.P())
    for n in slabs:
        pts = sorted((t, d) for (m, t), d in data.items() if m == n)
        if not rep.check(bool(pts), pre + f"slab{n}:present", "no data term in a slab", where):
            continue
        oms = []
        good = True
        for t, d in pts:
            om = sum(d.values())
            oms.append((t, om))
            for k in range(q + 1):
                ph = numeric(subst(bas[k], {x: const(Fr(t))}))
                if abs(d.get(k, 0.0) - om * ph) > 1e-7:
                    good = False
                    rep.bad(pre + "test-basis", f"at node {t:.6f} the test member {k} has weight {d.get(k, 0.0):.8f}, quadrature weight times basis value is {om * ph:.8f}", where)
                    break
        if good:
            rep.ok(pre + f"slab{n}:test-basis")
        for m in range(2 * q + 1):
            v = sum(om * t ** m for t, om in oms)
            if not rep.check(abs(v - 1 / (m + 1)) < 2e-5, pre + f"slab{n}:moment{m}", f"the quadrature of the data term integrates t^{m} to {v:.8f} on the unit interval, so the right-hand side is not the matrix's data term of data of that degree", where):
                break
    # remaining terms
    want = ZERO
    if wp:
        mt = Atom("meas", "cell", i.mesh, [a for a, _ in wt if a.kind == "meas"][0].args[2], NONE).P()
        g = i.w["primal-jump"]
        v = Atom("tst").P()
        cs = F.subspace_collapse(fes, (ZERO, ZERO))
        f1, f2 = F.mkfld(ini["u1_0"]), F.mkfld(ini["u2_0"])
        lf = lambda body: F.mklf(cs, body)
        want = F.mksc(fes, (ZERO, ZERO), g * dt.inv() * lf(f1 * v * mt) + g * dt * lf(ip(f1, v) * mt)) + F.mksc(fes, (ONE, ZERO), g * dt.inv() * lf(f2 * v * mt))
    same(rep, pre + "other-terms", other, want, "the right-hand side carries other terms than the data term" + (" and the initial-data terms" if wp else ""), where, sizes_of(i))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c05(rep):
    fan(rep, c05_one, [dict(wp=a) for a in (False, True)])


# ------------------------------------------------------------------ C02
def vec_of(i, tag, fes, val=None):
    """A caller's vector over `fes` with unknown contents."""
    L, st, node = i.A.lib, i.A.st, i.A.node
    i.calls = getattr(i, "calls", 0) + 1
    i.A.I.ctx.append(f"user-{tag}-{i.calls}")
    v = PT.vec_like(L, st, node, val if val is not None else F.opaque_vec(tag, fes), space=fes)
    i.A.I.ctx.pop()
    return v


def vval(i, v):
    return PT.get(i.A.lib, i.A.st, v.atom(), "val")


def c02_one(rep, q, qs, N, jumps=False, wp=False, wrap=False):
    i = Inst(q, qs, N, jumps=jumps, wp=wp)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    i.m("prepare_precondition_gmres")
    A = i.m("get_spacetime_matrix")
    fes = i.attr("fes")
    x, y, z = vec_of(i, "x", fes), vec_of(i, "yold", fes), vec_of(i, "zold", fes)
    F.mat_mult(i.A.lib, A.atom(), A, [x, z], {}, i.A.st, i.A.node)
    want = vval(i, z)
    xv = vval(i, x)
    where = W("apply_spacetime_matrix")
    warm(i, [("apply_spacetime_matrix", (vec_of(i, "x-earlier", fes), vec_of(i, "y-earlier", fes)))], N is None)
    if not calls(rep, pre + "apply", lambda: i.m("apply_spacetime_matrix", x, y), where):
        return
    got = vval(i, y)
    rep.check(vval(i, x) == xv, pre + "input-untouched", "the operator application changes its input vector", where)
    if jumps:
        # documented defect: the matrix-free operator lacks the forward-problem jump terms
        s = Spec(fes, i.mesh, cell_meta(mat_form(i, A)))
        dt = i.T * i.N.inv()
        miss = F.linform_vec(F.form_apply(sum_from(i, lambda m: fw_jumps(i, s, m, dt)), fes, xv), fes) if i.N.const() != 1 else ZERO
        d = snap(want - got)
        if snap(d - miss).t or not miss.t:
            same(rep, pre + "apply", got + miss, want, "applying the operator differs from the assembled matrix also beyond the forward-problem jump terms", where, sizes_of(i))
        else:
            rep.bad("missing-forward-jump-terms", "with jumps in the forward problem the matrix-free operator lacks exactly the forward-problem jump terms of the assembled matrix", where)
    else:
        same(rep, pre + "apply", got, want, "applying the operator differs from multiplying with the assembled matrix", where, sizes_of(i))
    y2 = vec_of(i, "y2old", fes)
    w = i.A.call(i.A.get(M, "SpaceTimePETScMatrixWrapper"), i.o)
    i.A.meth(w, "mult", Atom("osym", "shell").P(), x, y2)
    same(rep, pre + "wrapper", vval(i, y2), got, "the matrix wrapper computes something else than the operator application", f"{SRC}::SpaceTimePETScMatrixWrapper.mult", sizes_of(i))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def calls(rep, key, f, where):
    """Run an abstract call that must not be refused."""
    try:
        f()
        return True
    except AlwaysRaises as e:
        rep.bad(key + ":raises", "the call always fails: " + str([str(r[2]) for r in e.raises])[:200], where)
        return False


def c02(rep):
    fan(rep, c02_one, SWITCHES)


# ------------------------------------------------------------------ C06 / C07
class March:
    """A system with set-up preconditioner and opaque slab solvers."""

    def __init__(self, q, qs, N, jumps=False, wp=False):
        self.i = i = Inst(q, qs, N, jumps=jumps, wp=wp)
        self.q, self.s, self.jumps = q, qs, jumps
        i.m("prepare_precondition_gmres")
        self.fes, self.fp = i.attr("fes"), i.attr("fes_p")
        self.first, self.gen = (Atom("slabsolver", n, self.fp).P() for n in ("first", "general"))
        i.m("set_solver_first_slab", self.first)
        i.m("set_solver_slab", self.gen)
        self.meta = cell_meta(mat_form(i, i.attr("slab_matrix")))
        self.dx = Atom("meas", "cell", i.mesh, self.meta, NONE).P()
        self.dt = i.T * i.N.inv()

    def blocks(self):
        return [(j, l) for j in range(4) for l in range((self.q if j < 2 else self.s) + 1)]

    def full(self, j, l, n):
        return (const(j), n * const((self.q if j < 2 else self.s) + 1) + const(l))

    def part(self, val, n):
        """{block: value} of slab n of a vector over the full space."""
        return {(j, l): F.gather(val, self.fes, self.full(j, l, n)) for j, l in self.blocks()}

    def local(self, parts):
        r = ZERO
        for (j, l), v in parts.items():
            r = r + F.mksc(self.fp, (const(j), const(l)), v)
        return r

    def sol(self, solver, rhs):
        return {(j, l): Atom("sol", solver, rhs, self.fp, F.norm_path(self.fp, (const(j), const(l)))).P() for j, l in self.blocks()}

    def jump(self, prev):
        """Terms the previous slab's solution contributes: its last time node against the first of this slab."""
        g = self.i.w["primal-jump"]
        v = Atom("tst").P()
        f1, f2 = F.mkfld(prev[(0, self.q)]), F.mkfld(prev[(1, self.q)])

        def put(j, p):
            return F.mksc(self.fp, (const(j), ZERO), p)

        def lf(j, body):
            return F.mklf(F.subspace_collapse(self.fp, (const(j), ZERO)), body)
        r = put(0, g * self.dt.inv() * lf(0, f1 * v * self.dx) + g * self.dt * lf(0, ip(f1, v) * self.dx)) + put(1, g * self.dt.inv() * lf(1, f2 * v * self.dx))
        if self.jumps:
            r = r + put(2, lf(2, f2 * v * self.dx)) + put(3, lf(3, f1 * v * self.dx))
        return r

    def run(self, meth, b, x):
        ev0 = len(self.i.A.st.ev)
        if callable(meth):
            meth(b, x)
        else:
            self.i.m(meth, b, x)
        return self.i.A.st.ev[ev0:]


def one_sol(v):
    """(solver, rhs, path) if the value is exactly one block of one solve."""
    a = v.atom()
    if a is not None and a.kind == "sol":
        return a.args[0], a.args[1], a.args[3]
    return None


def unfold_at(p, i_, base=None):
    from .interp import itat_unfold
    for _ in range(4):
        mp = {a: itat_unfold(a) for a in T.atoms_of(p) if a.kind == "itat" and a.args[1] == i_}
        if not mp:
            return p
        p = subst(p, mp)
    return p


def count_solves(evs):
    """Number of slab solves, as a value (loops multiplied out)."""
    n = ZERO
    for e in evs:
        if e.kind == "loop":
            b, hi = e.data
            n = n + close_sum([(b.atom(), hi)], count_solves(e.body))
        elif e.kind == "slabsolve":
            n = n + e.guard
    return n


def rhs_same(got, want):
    d = snap(got - want)
    return not d.t or numericallyzero(d), d


def march_check(rep, pre, m, meth, where, b, x, sym):
    """Slab-by-slab recursion of one marching variant. sym: symbolic number of slabs (anything
    unexpected is left to the instances with constant numbers of slabs)."""
    i = m.i
    bv = vval(i, b)
    x0 = vval(i, x)
    try:
        evs = m.run(meth, b, x)
    except AlwaysRaises as e:
        rep.bad(pre + "raises", "the call always fails: " + str([str(r[2]) for r in e.raises])[:200], where)
        return None
    xv = vval(i, x)
    rep.check(vval(i, b) == bv, pre + "input-untouched", "the input vector is modified", where)
    cnt = snap(count_solves(evs) - i.N)
    if cnt.t:
        if sym:
            raise Unsupported("number of slab solves " + T.show(cnt, 200))
        rep.bad(pre + "solve-count", f"{T.show(count_solves(evs))} slab solves for {T.show(i.N)} slabs", where)
    else:
        rep.ok(pre + "solve-count")

    def expect(n, got, solver, rhs, nm):
        """every block of slab n is that block of one solve with the given right-hand side"""
        for (j, l), v in got.items():
            o = one_sol(v)
            if o is None:
                if sym:
                    raise Unsupported(f"block {j},{l} of the output: {T.show(v, 200)}")
                rep.bad(pre + f"{nm}:output", f"unknown {l} of field {j} in slab {nm} is {T.show(v, 300)}, not that unknown of the slab's solution", where)
                return False
            s, r, p = o
            if p != F.norm_path(m.fp, (const(j), const(l))):
                if sym:
                    raise Unsupported("permuted output")
                rep.bad(pre + f"{nm}:output", f"unknown {l} of field {j} in slab {nm} receives unknown {[T.show(z) for z in p]} of the slab's solution", where)
                return False
            if s != solver:
                if sym:
                    raise Unsupported("solver of slab")
                rep.bad(pre + f"{nm}:solver", f"slab {nm} is solved with the {s.atom().args[0]} solver instead of the {solver.atom().args[0]} one", where)
                return False
            ok, d = rhs_same(unfold_at(r, n) if sym else r, rhs)
            if not ok:
                if sym:
                    raise Unsupported("right-hand side of slab: " + T.show(d, 300))
                rep.bad(pre + f"{nm}:right-hand-side", f"the right-hand side of slab {nm} differs from its part of the input" + (" plus the jump terms of the previous slab's solution" if nm != "0" else "") + f": {T.show(d, 400)}", where)
                return False
        rep.ok(pre + f"{nm}:slab")
        return True

    rhs0 = m.local(m.part(bv, ZERO))
    if sym:
        expect(ZERO, m.part(xv, ZERO), m.first, rhs0, "0")
        k = fresh_idx(i.N - ONE, "k")
        n = k.P() + ONE
        prev = m.part(xv, k.P())
        expect(n, m.part(xv, n), m.gen, m.local(m.part(bv, n)) + m.jump(prev), "n>0")
    else:
        prev = m.sol(m.first, rhs0)
        ok = expect(ZERO, m.part(xv, ZERO), m.first, rhs0, "0")
        for n in range(1, as_int(i.N)):
            if not ok:
                break
            rhs = m.local(m.part(bv, const(n))) + m.jump(prev)
            ok = expect(const(n), m.part(xv, const(n)), m.gen, rhs, str(n))
            prev = {jl: v for jl, v in m.part(xv, const(n)).items()} if ok else prev
    return xv


def c06_one(rep, q, qs, N, jumps=False, wp=False):
    m = March(q, qs, N, jumps, wp)
    i = m.i
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    sym = N is None
    b = vec_of(i, "b", m.fes)
    b0, x0 = vec_of(i, "b-earlier", m.fes), vec_of(i, "x-earlier", m.fes)
    warm(i, [("pre_time_marching", (b0, x0))], sym)
    if not jumps:
        warm(i, [("pre_time_marching_improved", (b0, x0))], sym)
    march_check(rep, pre + "variational:", m, "pre_time_marching", W("pre_time_marching"), b, vec_of(i, "xold", m.fes), sym)
    if not jumps:
        march_check(rep, pre + "algebraic:", m, "pre_time_marching_improved", W("pre_time_marching_improved"), b, vec_of(i, "xold2", m.fes), sym)
        w = i.A.call(i.A.get(M, "SpaceTimePETScPreconditionerWrapper"), i.o)
        march_check(rep, pre + "adapter:", m, lambda b_, x_: i.A.meth(w, "apply", Atom("osym", "pc").P(), b_, x_), f"{SRC}::SpaceTimePETScPreconditionerWrapper.apply", b, vec_of(i, "xold3", m.fes), sym)
    # the one-sided variant of the space-time form couples a slab to its predecessor with the same terms
    form = mat_form(i, i.m("get_spacetime_matrix", ONE))
    s = Spec(m.fes, i.mesh, cell_meta(form))
    nn = fresh_idx(i.N, "n")
    slab0 = mat_form(i, i.attr("slab_matrix_no_dg_jumps"))
    want = close_sum([(nn, i.N)], embed(snap(slab0), m.fp, m.fes, slab_parts(i, None)(nn.P())))
    g, dt, q1 = i.w["primal-jump"], m.dt, const(q + 1)
    if wp:
        want = want + init_penalty(s, i.w, dt, s.tr(0, 0), s.tr(1, 0), s.te(0, 0), s.te(1, 0))

    def onesided(k):
        a, c = k * q1, k * q1 - ONE
        r = init_penalty(s, i.w, dt, s.tr(0, a) - s.tr(0, c), s.tr(1, a) - s.tr(1, c), s.te(0, a), s.te(1, a))
        return r + (fw_jumps(i, s, k, dt) if jumps else ZERO)
    want = want + sum_from(i, onesided)
    same(rep, pre + "one-sided-form", form, want, "the one-sided variant of the space-time form is not slab forms plus jumps against the later slab only", W("setup_spacetime_matrix"), sizes_of(i))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c06(rep):
    fan(rep, c06_one, SWITCHES)


def c07_one(rep, q, qs, N, jumps=False, wp=False):
    m = March(q, qs, N, jumps, wp)
    i = m.i
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    sym = N is None
    where = W("pre_time_marching_improved")
    b, x, y = vec_of(i, "b", m.fes), vec_of(i, "xold", m.fes), vec_of(i, "yold", m.fes)
    if jumps:
        y0, n0 = vval(i, y), len(i.A.st.ev)
        try:
            m.run("pre_time_marching_improved", b, y)
            rep.bad(pre + "refuses", "the algebraic variant accepts a problem whose forward problem has jump terms", where)
        except AlwaysRaises as e:
            rep.ok(pre + "refuses")
            for k, s, v in e.raises:
                yv = PT.get(i.A.lib, s, y.atom(), "val")
                rep.check(yv == y0, pre + "refusal-first", "the output vector is written before the call is refused", where)
                rep.check(not flat(s.ev[n0:], "slabsolve"), pre + "refusal-first-solve", "slabs are solved before the call is refused", where)
        rep.saw(i.A.I.touched)
        return
    b0, x0 = vec_of(i, "b-earlier", m.fes), vec_of(i, "x-earlier", m.fes)
    for op in ("pre_time_marching", "pre_time_marching_improved"):
        warm(i, [(op, (b0, x0))], sym)
    m.run("pre_time_marching", b, x)
    m.run("pre_time_marching_improved", b, y)
    xv, yv = vval(i, x), vval(i, y)

    def cmp(n, nm, gx, gy):
        for jl in m.blocks():
            ox, oy = one_sol(gx[jl]), one_sol(gy[jl])
            if ox is None or oy is None:
                ok, d = rhs_same(gx[jl], gy[jl])
                if ok:
                    continue
                if sym:
                    raise Unsupported("output " + T.show(d, 200))
                rep.bad(pre + f"{nm}:output", f"the variants give different unknown {jl} in slab {nm}: {T.show(d, 300)}", where)
                return False
            if ox[0] != oy[0] or ox[2] != oy[2]:
                if sym:
                    raise Unsupported("solver or block")
                rep.bad(pre + f"{nm}:solver", f"the variants use different solvers or unknowns in slab {nm}", where)
                return False
            rx, ry = (unfold_at(ox[1], n), unfold_at(oy[1], n)) if sym else (ox[1], oy[1])
            rx, ry = prevs(rx), prevs(ry)
            ok, d = rhs_same(rx, ry)
            if not ok:
                if sym:
                    raise Unsupported("right-hand sides " + T.show(d, 300))
                rep.bad(pre + f"{nm}:right-hand-side", f"the variants solve slab {nm} with different right-hand sides: {T.show(d, 400)}", where)
                return False
        rep.ok(pre + f"{nm}:same")
        return True
    renames = {}

    def prevs(r):
        """Outermost solutions inside a right-hand side are those of the previous slab: name them
        alike in both variants (they are equal by the comparison of that slab)."""
        mp = {}
        for a in outer(r, "sol"):
            mp[a] = Atom("comp", ("prev", a.args[0].key), a.args[2], a.args[3]).P()
        return subst(r, mp)
    if sym:
        cmp(ZERO, "0", m.part(xv, ZERO), m.part(yv, ZERO))
        k = fresh_idx(i.N - ONE, "k")
        cmp(k.P() + ONE, "n>0", m.part(xv, k.P() + ONE), m.part(yv, k.P() + ONE))
    else:
        for n in range(as_int(i.N)):
            if not cmp(const(n), str(n), m.part(xv, const(n)), m.part(yv, const(n))):
                break
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def outer(p, kind):
    """Atoms of a kind not nested in another of that kind."""
    out, stack, seen = [], [p], set()
    while stack:
        v = stack.pop()
        if isinstance(v, P):
            for mo in v.t:
                for a, _ in mo:
                    stack.append(a)
        elif isinstance(v, Atom):
            if v.key in seen:
                continue
            seen.add(v.key)
            if v.kind == kind:
                out.append(v)
            else:
                stack.extend(v.args)
        elif isinstance(v, tuple):
            stack.extend(v)
    return out


def c07(rep):
    fan(rep, c07_one, SWITCHES)


# ------------------------------------------------------------------ C08
def clone(i):
    """Snapshot of the analysis state (restored with `restore`)."""
    return i.A.st.copy()


def restore(i, s):
    st = i.A.st
    st.store, st.ev, st.pc, st.pcs = dict(s.store), list(s.ev), s.pc, s.pcs


def twolvl(m):
    """Coarse-grid set-up of a marching system with an opaque coarse solver."""
    i = m.i
    i.m("prepare_coarse_grid_correction", Atom("osym", "msh_coarse").P())
    m.fc = i.attr("fes_coarse")
    m.coarse = Atom("slabsolver", "coarse", m.fc).P()
    i.m("set_solver_coarse", m.coarse)


def is_val(k):
    return k[0] in ("H", "HF") and k[-1] == "val"


def changed(s0, s1):
    return [k for k in s1.store if k[0] in ("H", "HF") and (k not in s0.store or s0.store[k] != s1.store[k])]


def havoc(i, keys, tag):
    """Replace the contents of the vectors by arbitrary ones; returns the atoms standing for them."""
    names = set()
    for k in keys:
        if not is_val(k) or k[0] != "H":
            continue
        sp = PT.get(i.A.lib, i.A.st, k[1], "space")
        if sp is None or sp == NONE:
            continue
        nm = f"{tag}:{k[1].args[1]}"
        i.A.st.store[k] = F.opaque_vec(nm, sp)
        names.add(nm)
    return names


def warm(i, calls, sym=False):
    """Put the object into the state some earlier use of the operators left behind, with arbitrary
    contents in every vector that use wrote. sym: symbolic number of slabs (where more than vector
    contents survives, that is left to the instances with constant numbers of slabs)."""
    base = clone(i)
    user = {("H", v.atom(), "val") for _, a in calls for v in a}
    refs = {k[1] for k in base.store if k[0] == "H"}
    try:
        for nm, a in calls:
            i.m(nm, *a)
    except (AlwaysRaises, Unsupported):
        restore(i, base)
        return
    ch = [k for k in changed(base, i.A.st) if k not in user]
    if sym and (any((k in base.store or k[1] in refs) and not is_val(k) for k in ch) or any(base.store.get(k) != v for k, v in i.A.st.store.items() if k[0] == "L" and (k in base.store or k[1][0] == "FN"))):
        raise Unsupported("an application leaves more than vector contents behind: judged for constant numbers of slabs")
    havoc(i, ch, "history")
    i.A.st.ev = list(base.ev)


def c08_one(rep, q, qs, N, jumps=False, wp=False):
    m = March(q, qs, N, jumps, wp)
    i = m.i
    twolvl(m)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    sym = N is None
    fes, fc = m.fes, m.fc
    b, x = vec_of(i, "b", fes), vec_of(i, "x", fes)
    cb, cx = vec_of(i, "cb", fc), vec_of(i, "cx", fc)
    ops = {"apply_spacetime_matrix": (b, x), "pre_time_marching": (b, x), "pre_time_marching_improved": (b, x),
           "prolongation": (cb, x), "restriction": (cx, b), "q_op": (b, x), "pre_twolvl": (b, x)}
    if jumps:
        del ops["pre_time_marching_improved"]
    outs = {"prolongation": (x, cb), "restriction": (cx, b)}
    base = clone(i)
    user = {("H", v.atom(), "val") for v in (b, x, cb, cx)}
    work, states = [], [base]
    refs = {k[1] for k in base.store if k[0] == "H"}
    mem = False          # anything but vector contents survives a call
    for _ in range(2):
        for nm, a in ops.items():
            i.m(nm, *a)
            ch = [k for k in changed(states[-1], i.A.st) if k not in user]
            work += [k for k in ch if k not in work]
            mem = mem or any(k in states[-1].store or k[1] in refs for k in ch if not is_val(k))
            mem = mem or any(base.store.get(k) != v for k, v in i.A.st.store.items() if k[0] == "L" and (k in base.store or k[1][0] == "FN"))
            havoc(i, ch, "history")
        states.append(clone(i))
        if not mem:
            break
        if sym:
            raise Unsupported("applications leave more than vector contents behind: compared for constant numbers of slabs")
    used = states[-1]
    rep.saw({f"work state {k[1].args[0] if k[0] == 'H' else k[1]}.{k[-1]}" for k in work})

    def run(nm, s, tag):
        restore(i, s)
        names = havoc(i, [k for k in work if k in s.store], tag)
        old = set()
        for v, sp, t in ((b, fes, "b"), (x, fes, "x"), (cb, fc, "cb"), (cx, fc, "cx")):
            i.A.st.store[("H", v.atom(), "val")] = F.opaque_vec(f"{t}", sp)
        out, inp = outs.get(nm, (x, b))
        ov = f"{tag}:out"
        i.A.st.store[("H", out.atom(), "val")] = F.opaque_vec(ov, PT.get(i.A.lib, i.A.st, out.atom(), "space"))
        names.add(ov)
        iv = vval(i, inp)
        i.m(nm, *ops[nm])
        rep.check(vval(i, inp) == iv, pre + nm + ":input-untouched", "the input vector is modified", W(nm))
        return vval(i, out), names

    if sym:
        k = fresh_idx(i.N - ONE, "k")
        ns = [("0", ZERO), ("n>0", k.P() + ONE)]
    else:
        ns = [(str(n), const(n)) for n in range(as_int(i.N))]

    def canon(nm, v):
        """Comparable form of an output: {place: value}."""
        if nm in ("apply_spacetime_matrix", "prolongation", "restriction", "q_op"):
            sp = fc if nm == "restriction" else fes
            return {"output": v} if nm == "apply_spacetime_matrix" else parts(m, v, sp)
        return parts(m, v, fes)

    def parts(m, v, sp):
        r = {}
        for nn, n in ns:
            for j, l in m.blocks():
                g = F.gather(v, sp, m.full(j, l, n))
                if sym:
                    g = bisim(g, n)
                r[f"slab {nn}, field {j}, node {l}"] = g
        return r

    def bisim(g, n):
        """One slab in terms of the previous slab's solution (the same in both runs by induction)."""
        g = unfold_at(g, n)
        mp = {}
        for a in outer(g, "sol"):
            if a.args[0] == m.coarse:
                continue
            r = unfold_at(a.args[1], n)
            inner = {c: Atom("comp", ("prev",), c.args[2], c.args[3]).P() for c in outer(r, "sol") if c.args[0] != m.coarse}
            mp[a] = Atom("sol", a.args[0], subst(r, inner), a.args[2], a.args[3]).P()
        return subst(g, mp)

    for nm in ops:
        v0, n0 = run(nm, base, "earlier")
        c0 = canon(nm, v0)
        good = True
        for pl, g in c0.items():
            st = [a for a in T.atoms_of(g) if mentions(a, n0)]
            if st:
                if sym:
                    raise Unsupported(f"{nm}: {pl}: {T.show(st[0].P(), 200)}")
                good = False
                rep.bad(pre + nm + ":stale", f"the result depends on what an earlier call left behind ({pl} contains {T.show(st[0].P(), 150)})", W(nm))
                break
        if good:
            rep.ok(pre + nm + ":independent-of-work-vectors")
        if not mem:      # a used object differs from a fresh one in vector contents only
            rep.ok(pre + nm + ":repeatable")
            continue
        v1, n1 = run(nm, used, "earlier2")
        c1 = canon(nm, v1)
        for pl, g in c1.items():
            st = [a for a in T.atoms_of(g) if mentions(a, n1)]
            d = snap(g - c0[pl]) if pl in c0 else g
            if st or (d.t and not numericallyzero(d)):
                if sym:
                    raise Unsupported(f"{nm} used: {pl}: {T.show(d, 200)}")
                if good:
                    rep.bad(pre + nm + ":history", f"a repeated application gives another result ({pl}: difference {T.show(d, 200)})", W(nm))
                break
        else:
            rep.ok(pre + nm + ":repeatable")
    restore(i, used)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def mentions(a, names):
    for x in a.args:
        if isinstance(x, str) and x in names:
            return True
        if isinstance(x, tuple) and any(isinstance(y, str) and y in names for y in x):
            return True
    return False


def c08(rep):
    fan(rep, c08_one, SWITCHES, [(1, 0), (1, 1), (0, 1)] if rep.tier == "quick" else None)


# ------------------------------------------------------------------ C09
def slab_places(i):
    if i.N.const() is None:
        k = fresh_idx(i.N - ONE, "k")
        return [("0", ZERO), ("n>0", k.P() + ONE)]
    return [(str(n), const(n)) for n in range(as_int(i.N))]


def bisim(m, g, n):
    """One slab of a marching result in terms of the previous slab's solution (the same on both
    sides of a comparison by induction over the slabs)."""
    g = unfold_at(g, n)
    coarse = getattr(m, "coarse", None)
    mp = {}
    for a in outer(g, "sol"):
        if a.args[0] == coarse:
            continue
        r = unfold_at(a.args[1], n)
        inner = {c: Atom("comp", ("prev",), c.args[2], c.args[3]).P() for c in outer(r, "sol") if c.args[0] != coarse}
        mp[a] = Atom("sol", a.args[0], subst(r, inner), a.args[2], a.args[3]).P()
    return subst(g, mp)


def same_blocks(rep, pre, m, got, want, sp, what, where, march=False):
    """Every block of two vectors over `sp` agrees."""
    i = m.i
    sym = i.N.const() is None
    for nn, n in slab_places(i):
        for j, l in m.blocks():
            a, b = (F.gather(v, sp, m.full(j, l, n)) for v in (got, want))
            if march and sym:
                a, b = bisim(m, a, n), bisim(m, b, n)
            ok, d = rhs_same(a, b)
            if not ok and sym:
                raise Unsupported(f"{pre} slab {nn} field {j} node {l}: {T.show(d, 200)}")
            if not ok:
                rep.bad(pre, f"{what}: field {j}, slab {nn}, time node {l} differs by {T.show(d, 300)}", where)
                return False
    rep.ok(pre)
    return True


def c09_one(rep, q, qs, N, jumps=False, wp=False):
    m = March(q, qs, N, jumps, wp)
    i = m.i
    twolvl(m)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    fes, fc = m.fes, m.fc
    mc = Atom("osym", "msh_coarse").P()
    rep.check(fc == subst(fes, {i.mesh.atom(): mc}), pre + "coarse-space", "the coarse space is not the fine one on the coarse mesh", W("prepare_coarse_grid_correction"))
    # coarse matrix: the same form on the coarse mesh, indicator interpolated there
    A = i.m("get_spacetime_matrix_coarse")
    form = subst(mat_form(i, i.m("get_spacetime_matrix")), {i.mesh.atom(): mc})
    got = mat_form(i, A)
    same(rep, pre + "coarse-matrix", mark_ind(i, got, fc), mark_ind(i, form, fc), "the coarse system is not the space-time system on the coarse mesh", W("prepare_coarse_grid_correction"), sizes_of(i))
    vs = {k: vec_of(i, k + "-earlier", sp) for k, sp in (("b", fes), ("x", fes), ("c", fc))}
    for nm, a in (("prolongation", "cx"), ("restriction", "cb"), ("q_op", "bx"), ("pre_twolvl", "bx")):
        warm(i, [(nm, tuple(vs[k] for k in a))], N is None)
    # transfers
    for nm, src, dst, sp, tsp in (("prolongation", "coarse", "fine", fc, fes), ("restriction", "fine", "coarse", fes, fc)):
        x, y = vec_of(i, f"{nm}-in", sp), vec_of(i, f"{nm}-old", tsp)
        xv = vval(i, x)
        i.m(nm, *((x, y) if nm == "prolongation" else (y, x)))
        rep.check(vval(i, x) == xv, pre + nm + ":input-untouched", "the input vector is modified", W(nm))
        want = interpolated(m, xv, sp, tsp)
        same_blocks(rep, pre + nm, m, vval(i, y), want, tsp, f"a {dst} block is not the interpolation of the same {src} block", W(nm))
    # coarse correction
    x, y, r, s, z = (vec_of(i, t, sp) for t, sp in (("x", fes), ("y", fes), ("r", fc), ("s", fc), ("z", fes)))
    i.m("q_op", x, y)
    i.m("restriction", r, x)
    i.A.meth(m.coarse, "solve", r, s)
    i.m("prolongation", s, z)
    same_blocks(rep, pre + "coarse-correction", m, vval(i, y), vval(i, z), fes, "the coarse correction is not restrict, coarse solve, prolong", W("q_op"))
    # two-level preconditioner
    b, x, t1, t2, t3, t4 = (vec_of(i, t, fes) for t in ("b", "xold", "t1", "t2", "t3", "t4"))
    if not calls(rep, pre + "two-level", lambda: i.m("pre_twolvl", b, x), W("pre_twolvl")):
        return
    i.m("q_op", b, t1)
    i.m("apply_spacetime_matrix", t1, t2)
    i.A.I.hset(i.A.st, t3.atom(), "val", vval(i, b) - vval(i, t2))
    i.m("pre_time_marching", t3, t4)
    same_blocks(rep, pre + "two-level", m, vval(i, x), vval(i, t1) + vval(i, t4), fes, "the two-level preconditioner is not Q b + M (b - A Q b)", W("pre_twolvl"), march=True)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def mark_ind(i, p, fc):
    """Any piecewise-constant image of the user's indicator, or the indicator itself, by one name."""
    mp = {}
    for a in T.atoms_of(p):
        if a.kind == "fld":
            inner = a.args[0].atom() if isinstance(a.args[0], P) else a.args[0]
            if inner is not None and inner.kind in ("vfun", "interp", "comp") and any(b is i.ind.atom() or b.key == i.ind.atom().key for b in T.atoms_of(inner.P())):
                mp[a] = Atom("sym", "indicator-image").P()
    mp[i.ind.atom()] = Atom("sym", "indicator-image").P()
    return subst(p, mp)


def interpolated(m, val, sp, tsp):
    """Blockwise finite-element interpolation of a vector over sp into tsp."""
    r = ZERO
    for path, bs in F.blocks(tsp):
        v = Atom("interp", F.subspace_collapse(tsp, path), F.gather(val, sp, path)).P()
        r = r + close_sum(bs, Atom("sc", tsp, path, v).P())
    return r


def c09(rep):
    fan(rep, c09_one, SWITCHES, [(1, 0), (1, 1), (0, 1)] if rep.tier == "quick" else None)


# ------------------------------------------------------------------ C10
GETTERS = {"get_spacetime_matrix": (), "get_spacetime_bfi": (), "get_spacetime_rhs": (), "get_spacetime_lfi": (), "get_slab_matrix": (), "get_slab_bfi": ()}
FIRST = ("get_slab_matrix_first_slab", "get_slab_bfi_first_slab")


def alphabet(i):
    mc = Atom("osym", "msh_coarse").P()
    ops = {nm: (lambda nm=nm: i.m(nm)) for nm in GETTERS}
    ops["get_spacetime_matrix(precond)"] = lambda: i.m("get_spacetime_matrix", ONE)
    ops["prepare_precondition_gmres"] = lambda: i.m("prepare_precondition_gmres")
    ops["prepare_coarse_grid_correction"] = lambda: i.m("prepare_coarse_grid_correction", mc)
    first, gen = slab_solvers(i.attr("fes_p"))

    def solvers():
        i.m("set_solver_first_slab", first)
        i.m("set_solver_slab", gen)
    ops["set_solver_slab and set_solver_first_slab"] = solvers
    return ops


def slab_solvers(fp):
    return [Atom("slabsolver", n, fp).P() for n in ("first", "general")]


def missing(v):
    return v == NONE or (v.atom() is not None and v.atom().kind == "none")


def typestate(i):
    """Which members of the object are missing."""
    o = i.o.atom()
    return tuple(sorted((k[2], missing(v)) for k, v in i.A.st.store.items() if k[0] == "H" and k[1] is o and isinstance(v, P)))


def show_hist(h):
    return " -> ".join(h) or "(nothing)"


def reach(i, rep, pre, ops, where):
    """All reachable typestates under any sequence of the calls in `ops`: {typestate: (state, shortest history)}."""
    base = clone(i)
    seen = {typestate(i): (base, ())}
    todo = [typestate(i)]
    while todo:
        t = todo.pop(0)
        s, h = seen[t]
        for nm, f in ops.items():
            restore(i, s)
            n0 = len(i.A.st.ev)
            try:
                f()
            except AlwaysRaises as e:
                rep.bad(f"{pre}{nm}:raises", f"{nm} fails after {show_hist(h)}: " + str([str(r[2]) for r in e.raises])[:200], W(nm.split("(")[0]))
                continue
            fl = flat(i.A.st.ev[n0:], "fault")
            if fl:
                e = fl[0][0]
                rep.bad(f"{pre}{nm}:fault", f"{nm} after {show_hist(h)} fails: {e.data[0]} {e.data[1] if len(e.data) > 1 else ''}", e.where)
                continue
            t2 = typestate(i)
            if t2 not in seen:
                if len(seen) > 150:
                    raise Unsupported("too many set-up states")
                seen[t2] = (clone(i), h + (nm,))
                todo.append(t2)
    return seen


def c10_one(rep, q, qs, N, jumps=False, wp=False, fitted=False):
    N = 2 if N is None else N
    i = Inst(q, qs, N, jumps=jumps, wp=wp, fitted=fitted)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp, fitted=fitted) + ":"
    fes, fp = i.attr("fes"), i.attr("fes_p")
    seen = reach(i, rep, pre, alphabet(i), "")
    ref = {}
    first, gen = slab_solvers(fp)
    ops = {"apply_spacetime_matrix": None, "pre_time_marching": None, "pre_time_marching_improved": None}
    if jumps:
        del ops["pre_time_marching_improved"]
    coarse_ops = ("prolongation", "restriction", "q_op", "pre_twolvl")
    done = 0
    for t, (s, h) in seen.items():
        if "prepare_precondition_gmres" not in h and not reaches(i, s):
            continue
        done += 1
        restore(i, s)
        if not any("set_solver" in x for x in h):
            i.m("set_solver_first_slab", first)
            i.m("set_solver_slab", gen)
        cs = "prepare_coarse_grid_correction" in h
        fc = i.attr("fes_coarse") if cs else None
        if cs:
            i.m("set_solver_coarse", Atom("slabsolver", "coarse", fc).P())
        base = clone(i)
        for nm in list(ops) + (list(coarse_ops) if cs else []):
            restore(i, base)
            n0 = len(i.A.st.ev)
            a, b = vec_of(i, "in", fc if nm == "prolongation" else fes), vec_of(i, "out", fc if nm == "restriction" else fes)
            try:
                i.m(nm, *((b, a) if nm == "restriction" else (a, b)))
            except AlwaysRaises as e:
                rep.bad(f"{pre}{nm}:raises", f"{nm} fails after {show_hist(h)}: " + str([str(r[2]) for r in e.raises])[:200], W(nm))
                continue
            fl = flat(i.A.st.ev[n0:], "fault")
            if fl:
                e = fl[0][0]
                rep.bad(f"{pre}{nm}:fault", f"{nm} after {show_hist(h)} fails: {e.data[0]} {e.data[1] if len(e.data) > 1 else ''}", e.where)
                continue
            v = vval(i, b)
            if nm in ref and ref[nm][0] != v and snap(ref[nm][0] - v).t and not numericallyzero(snap(ref[nm][0] - v)):
                rep.bad(f"{pre}{nm}:order", f"{nm} computes something else after {show_hist(h)} than after {show_hist(ref[nm][1])}", W(nm))
            else:
                ref.setdefault(nm, (v, h))
                rep.ok(f"{pre}{nm}:after {show_hist(h)}")
        restore(i, base)
        for nm in list(GETTERS) + list(FIRST):
            restore(i, base)
            try:
                v = i.m(nm)
            except AlwaysRaises as e:
                rep.bad(f"{pre}{nm}:raises", f"{nm} fails after {show_hist(h)}", W(nm))
                continue
            rep.check(not missing(v), f"{pre}{nm}:none", f"{nm} returns nothing after {show_hist(h)}", W(nm))
    if not done:
        raise Unsupported("no prepared state reached")
    rep.saw(i.A.I.touched)


def reaches(i, s):
    """The preparation has nothing left to do in state s."""
    restore(i, s)
    t = typestate(i)
    i.m("prepare_precondition_gmres")
    return typestate(i) == t


def c10(rep):
    cf = [dict(jumps=a, wp=b, fitted=c) for a in (False, True) for b in (False, True) for c in (False, True)]
    rep.pmap([(cfgname(q, s, 2, **kw), c10_one, (q, s, 2, kw["jumps"], kw["wp"], kw["fitted"])) for q, s in ([(1, 0)] if rep.tier == "quick" else [(1, 0), (1, 1), (2, 1), (0, 1)]) for kw in cf])


# ------------------------------------------------------------------ C11
def bfi_poly(i, v):
    return F.resolve_fields(i.A.lib, F.form_poly(v), i.A.st)


def c11_one(rep, q, qs, N, jumps=False, wp=False):
    N = 2 if N is None else N
    i = Inst(q, qs, N, jumps=jumps, wp=wp)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    fes, fp = i.attr("fes"), i.attr("fes_p")
    base = clone(i)

    def fresh(f):
        restore(i, base)
        v = f()
        return v
    # what each request means, on a fresh object
    full = mat_form(i, fresh(lambda: i.m("get_spacetime_matrix")))
    onesided = mat_form(i, fresh(lambda: i.m("get_spacetime_matrix", ONE)))
    slab = mat_form(i, fresh(lambda: i.m("get_slab_matrix")))
    s, sp = Spec(fes, i.mesh, cell_meta(full)), Spec(fp, i.mesh, cell_meta(slab))
    dt, w, q1 = i.T * i.N.inv(), i.w, q + 1
    d = ZERO
    for n in range(1, N):
        a, c = n * q1, n * q1 - 1
        d = d - init_penalty(s, w, dt, s.tr(0, a) - s.tr(0, c), s.tr(1, a) - s.tr(1, c), s.te(0, c), s.te(1, c))
    same(rep, pre + "variants", full - onesided, d, "the default and the one-sided space-time matrix do not differ by the jump terms against the earlier slab", W("get_spacetime_matrix"))
    # first-slab matrix: with the initial-value penalty iff well-posed
    def first():
        i.m("get_slab_matrix")
        return i.m("get_slab_matrix_first_slab")
    fs = mat_form(i, fresh(first))
    want = slab
    if not wp:
        want = want - init_penalty(sp, w, dt, sp.tr(0, 0), sp.tr(1, 0), sp.te(0, 0), sp.te(1, 0))
        if jumps:
            want = want + w["dual"] * dt * (sp.te(3, 0) * sp.tr(3, 0) + sp.te(2, 0) * sp.tr(2, 0)) * sp.dx - (sp.te(2, 0) * sp.tr(1, 0) + sp.te(3, 0) * sp.tr(0, 0)) * sp.dx
    same(rep, pre + "first-slab", fs, want, "the first-slab matrix " + ("is not the slab matrix with initial-value penalty of the well-posed problem" if wp else "is not the slab matrix without jump terms"), W("get_slab_matrix_first_slab"))

    rhs_lfi = fresh(lambda: bfi_poly(i, i.m("get_spacetime_lfi")))

    def matrix(*a, **k):
        return lambda: mat_form(i, i.m("get_spacetime_matrix", *a, **k))

    def form(nm, *a, **k):
        return lambda: bfi_poly(i, i.m(nm, *a, **k))
    calls_ = {
        "get_spacetime_matrix()": (matrix(), full), "get_spacetime_matrix(precond=True)": (matrix(precond=ONE), onesided), "get_spacetime_matrix(False)": (matrix(ZERO), full),
        "get_spacetime_bfi()": (form("get_spacetime_bfi"), full), "get_spacetime_bfi(precond=True)": (form("get_spacetime_bfi", precond=ONE), onesided),
        "get_slab_matrix()": (lambda: mat_form(i, i.m("get_slab_matrix")), slab), "get_slab_bfi()": (form("get_slab_bfi"), slab),
        "prepare_precondition_gmres()": (lambda: i.m("prepare_precondition_gmres"), None),
        "setup_slab_matrix(with_jumps=True)": (lambda: i.m("setup_slab_matrix", with_jumps=ONE), None),
        "setup_slab_matrix(with_jumps=False)": (lambda: i.m("setup_slab_matrix", with_jumps=ZERO), None),
        "prepare_coarse_grid_correction()": (lambda: i.m("prepare_coarse_grid_correction", Atom("osym", "msh_coarse").P()), None),
        "get_spacetime_lfi()": (form("get_spacetime_lfi"), rhs_lfi),
        "get_slab_matrix_first_slab()": (lambda: None if missing(v := i.m("get_slab_matrix_first_slab")) else mat_form(i, v), fs),
        "get_slab_bfi_first_slab()": (lambda: None if missing(v := i.m("get_slab_bfi_first_slab")) else bfi_poly(i, v), fs),
    }

    def content():
        """What the object holds, up to object identity: forms of matrices and of forms."""
        o = i.o.atom()
        r = []
        for k, v in i.A.st.store.items():
            if k[0] == "H" and k[1] is o and isinstance(v, P):
                a = v.atom()
                if a is not None and a.kind == "ref":
                    f = i.A.I.hget(i.A.st, a, "form")
                    r.append((k[2], f.key if isinstance(f, P) else a.args[0]))
                elif a is not None and a.kind == "form":
                    r.append((k[2], bfi_poly(i, v).key))
                else:
                    r.append((k[2], v.key))
        return tuple(sorted(r))
    if jumps and wp or not (jumps or wp):
        rep.guard(pre + "second", c11_second, rep, i, pre, base)
        if not wp:
            restore(i, base)
            rep.guard(pre + "second-same-mesh", c11_second, rep, i, pre, base, i.mesh, pos("T_two"), "-same-mesh")
    restore(i, base)
    seen = {content(): (base, ())}
    todo = list(seen)
    while todo:
        st0, h = seen[todo.pop(0)]
        for nm, (f, want) in calls_.items():
            restore(i, st0)
            try:
                got = f()
            except AlwaysRaises as e:
                rep.bad(pre + nm + ":raises", f"{nm} fails after {show_hist(h)}: " + str([str(r[2]) for r in e.raises])[:200], W(nm.split("(")[0]))
                continue
            if want is not None and got is not None:
                dd = snap(got - want)
                if dd.t and not numericallyzero(dd):
                    rep.bad(pre + nm, f"{nm} after {show_hist(h)} returns another matrix or form than on a fresh object; difference {T.show(dd, 300)}", W(nm.split("(")[0]))
                else:
                    rep.ok(f"{pre}{nm} after {show_hist(h)}")
            c = content()
            if c not in seen:
                if len(seen) > 200:
                    raise Unsupported("too many cache states")
                seen[c] = (clone(i), h + (nm,))
                todo.append(c)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c11_second(rep, i, pre, base, mesh=None, T2=None, tag=""):
    """A second object, with other weights and on another mesh or with another final time, gets its own matrices and forms."""
    A = i.A
    gets = [("get_spacetime_matrix", (), mat_form), ("get_spacetime_bfi", (), bfi_poly), ("get_slab_matrix", (), mat_form), ("get_slab_bfi", (), bfi_poly),
            ("get_slab_matrix_first_slab", (), mat_form), ("get_slab_bfi_first_slab", (), bfi_poly), ("get_spacetime_lfi", (), bfi_poly),
            ("get_spacetime_rhs", (), lambda i, v: PT.get(i.A.lib, i.A.st, v.atom(), "val")),
            ("get_spacetime_matrix", (ONE,), mat_form), ("get_spacetime_bfi", (ONE,), bfi_poly)]
    g = lambda n: A.get(M, n)
    m2 = mesh if mesh is not None else Atom("osym", "msh_two").P()
    w2 = {k: pos("other_" + k) for k in i.w}

    def second():
        A.I.ctx.append("second")
        stab = i.mkdict(w2)
        o = A.call(g("SpaceTime"), polynomial_order_time=i.ot, polynomial_order_space=i.os, N=i.N, T=i.T if T2 is None else T2, t=pos("t"), msh=m2,
                   stabilisation_terms=stab, omega=i.dom, solution=i.sol, parameters=i.par)
        A.meth(o, "setup_spacetime_finite_elements")
        A.I.ctx.pop()
        return o

    def ask(o, who):
        out = []
        for k, (nm, a, rd) in enumerate(gets):
            A.I.ctx.append(f"{who}{k}")
            v = A.meth(o, nm, *a)
            out.append(None if missing(v) else sum((c * rd(i, y) for c, y in T.cases(v)), ZERO))
            A.I.ctx.pop()
        return out
    restore(i, base)
    alone = ask(second(), "second")
    restore(i, base)
    ask(i.o, "first")
    i.m("prepare_precondition_gmres")
    after = ask(second(), "second")
    for (nm, a, rd), x, y in zip(gets, alone, after):
        d = (x is None) != (y is None) or x is not None and snap(y - x).t
        rep.check(not d, pre + f"second{tag}:{nm}:{len(a)}", f"{nm} of a second object returns what belongs to an object built earlier" + (f"; difference {T.show(snap(y - x), 300)}" if d and x is not None and y is not None else ""), W(nm))


def c11(rep):
    cf = [dict(jumps=a, wp=b) for a in (False, True) for b in (False, True)]
    rep.pmap([(cfgname(q, s, 2, **kw), c11_one, (q, s, 2, kw["jumps"], kw["wp"])) for q, s in ([(1, 0)] if rep.tier == "quick" else [(1, 0), (1, 1), (2, 1), (0, 1)]) for kw in cf])


# ------------------------------------------------------------------ C12
def indicator_expected(i, mesh=None):
    """The spatial weight the data terms must carry: the user's expression, or its interpolation into
    piecewise constants for fitted data domains."""
    if not i.cfg["fitted"]:
        return i.ind
    dg0 = Atom("fspace", i.mesh if mesh is None else mesh, F.mkel("s", S("DG"), ZERO)).P()
    return F.mkfld(Atom("vfun", dg0, "callable", i.ind).P())


def weighted_by(rep, key, i, p, ind, what, where):
    """Exactly the terms with the data weight carry the indicator, once."""
    if p is None:
        return
    g = i.w["data"].atom()
    rest = subst(p, {g: ZERO})
    x = Atom("sym", "IND")
    q = subst(p, {ind.atom(): x.P()})
    left = [a for a in T.atoms_of(q) if a is i.ind.atom()]
    if not rep.check(not left, key + ":image", f"{what}: the data terms use another image of the user's indicator than " + ("its piecewise constant interpolation" if i.cfg["fitted"] else "the supplied expression") + f" ({T.show(next((a.P() for a in T.atoms_of(q) if a.kind in ('vfun', 'interp') and i.ind.atom() in T.atoms_of(a.P())), i.ind), 200)})", where):
        return
    r0 = subst(rest, {ind.atom(): ZERO})
    rep.check(not snap(rest - r0).t, key + ":only-data", f"{what}: terms without the data weight carry the data-domain indicator: {T.show(snap(rest - r0), 300)}", where)
    off = subst(q, {x: ZERO})
    d = snap(off - subst(off, {g: ZERO}))
    rep.check(not d.t, key + ":restricted", f"{what}: data terms are not restricted to the data domain: {T.show(d, 300)}", where)
    on = snap(q - off)
    d = snap(subst(on, {x: const(2) * x.P()}) - const(2) * on)
    rep.check(not d.t, key + ":once", f"{what}: the indicator enters the data terms other than as a factor: {T.show(d, 300)}", where)
    rep.check(bool(on.t), key + ":present", f"{what}: there is no data term", where)


def c12_one(rep, q, qs, N, jumps=False, wp=False, fitted=False):
    i = Inst(q, qs, N, jumps=jumps, wp=wp, fitted=fitted, setup=False)
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp, fitted=fitted) + ":"
    A = i.A

    def owned():
        r = {}
        for nm, o in (("data-domain description", i.dom), ("weight table", i.stab), ("problem parameters", i.par), ("order in time", i.ot), ("order in space", i.os), ("reference solution", i.sol)):
            a = o.atom()
            r[nm] = {k: v for k, v in A.st.store.items() if k[0] == "H" and k[1] is a}
        return r
    # a second, untouched set of the same objects tells what the user wrote
    want = {(i.dom, "indicator_function"): i.ind, (i.dom, "fitted"): B(fitted), (i.par, "jumps_in_fw_problem"): B(jumps), (i.par, "well_posed"): B(wp)}
    for (o, f), v in want.items():
        got = A.attr(o, f)
        nm = "data-domain description" if o is i.dom else "problem parameters"
        rep.check(got == v, pre + f"untouched:{f}", f"creating the solver changes {f} of the user's {nm}", W("__init__"))
    own0 = owned()

    def intact(step):
        own1 = owned()
        for nm in own0:
            d = [k for k in own1[nm] if own0[nm].get(k) != own1[nm][k]]
            rep.check(not d, pre + "untouched:" + nm.replace(" ", "-"), f"setting up the {step} changes the user's {nm}" + (f" ({d[0][2]})" if d else ""), W("setup_spacetime_matrix"))
    i.m("setup_spacetime_finite_elements")
    ind = indicator_expected(i)
    mats = {}
    i.m("prepare_precondition_gmres")
    for nm, f, where in (("space-time matrix", lambda: mat_form(i, i.m("get_spacetime_matrix")), "setup_spacetime_matrix"), ("one-sided space-time matrix", lambda: mat_form(i, i.m("get_spacetime_matrix", ONE)), "setup_spacetime_matrix"),
                         ("slab matrix", lambda: mat_form(i, i.m("get_slab_matrix")), "setup_slab_matrix"), ("first-slab matrix", lambda: mat_form(i, i.m("get_slab_matrix_first_slab")), "setup_slab_matrix"), ("jump-free slab matrix", lambda: mat_form(i, i.attr("slab_matrix_no_dg_jumps")), "setup_slab_matrix"),
                         ("right-hand side", lambda: vval(i, i.m("get_spacetime_rhs")), "setup_rhs")):
        v = f()
        intact(nm)
        weighted_by(rep, pre + nm.replace(" ", "-"), i, v, ind, nm, W(where))
    i.m("prepare_coarse_grid_correction", Atom("osym", "msh_coarse").P())
    intact("coarse-grid correction")
    st = A.I.hget(A.st, i.stab.atom(), "items")
    rep.check(st == Atom("dict", tuple((S(k), v) for k, v in i.w.items())).P(), pre + "untouched:weights", "the user's weight table is changed", W("__init__"))
    for e in A.st.ev:
        if e.kind == "setdefault" and e.data[0] == i.stab:
            rep.bad(pre + "untouched:weights:default", f"entries missing from the user's weight table ({T.show(e.data[1])}) are written into it", e.where)
    # the same objects configure a solver on another mesh
    g = lambda n: A.get(M, n)
    m2 = Atom("osym", "msh_two").P()
    A.I.ctx.append("second")
    o2 = A.call(g("SpaceTime"), polynomial_order_time=i.ot, polynomial_order_space=i.os, N=i.N, T=i.T, t=pos("t"), msh=m2,
                stabilisation_terms=i.stab, omega=i.dom, solution=i.sol, parameters=i.par)
    A.meth(o2, "setup_spacetime_finite_elements")
    s2 = mat_form(i, A.meth(o2, "get_slab_matrix"))
    A.I.ctx.pop()
    if fitted:
        weighted_by(rep, pre + "second-solver", i, s2, indicator_expected(i, m2), "second solver configured with the same objects on another mesh: slab matrix", W("__init__"))
    else:
        weighted_by(rep, pre + "second-solver", i, s2, ind, "second solver configured with the same objects: slab matrix", W("__init__"))
    d = snap(s2 - subst(mat_form(i, i.m("get_slab_matrix")), {i.mesh.atom(): m2}))
    rep.check(not d.t, pre + "second-solver:same-system", f"a second solver configured with the same objects gets another slab system: {T.show(d, 300)}", W("__init__"))
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c12(rep):
    cf = [dict(fitted=c) for c in (False, True)] + [dict(jumps=True, wp=True, fitted=c) for c in (False, True)]
    fan(rep, c12_one, cf, [(1, 0), (1, 1), (2, 1), (0, 1)] if rep.tier == "quick" else None)


# ------------------------------------------------------------------ C13
def c13_one(rep, q, qs, N, jumps=False, wp=False):
    i = Inst(q, qs, N, jumps=jumps, wp=wp)
    A = i.A
    pre = cfgname(q, qs, N, jumps=jumps, wp=wp) + ":"
    g = lambda n: A.get(M, n)

    def space(n):
        a = lambda k, m: F.mkel("v", F.mkel("s", S("CG"), k), m)
        return Atom("fspace", i.mesh, F.mkel("m", (a(i.k, const(q + 1) * n), a(i.k, const(q + 1) * n), a(i.ks, const(qs + 1) * n), a(i.ks, const(qs + 1) * n)))).P()
    for nm, at, n in (("space-time", "fes", i.N), ("slab", "fes_p", ONE)):
        got = i.attr(at)
        rep.check(got == space(n), pre + nm + "-space", f"the {nm} space is {T.show(got, 300)}, expected {T.show(space(n), 300)}", W("setup_spacetime_finite_elements"))
    for nm, v in (("N", i.N), ("T", i.T), ("msh", i.mesh)):
        rep.check(i.attr(nm) == v, pre + "argument:" + nm, f"constructor argument {nm} is stored as {T.show(i.attr(nm), 100)}", W("__init__"))
    i.m("prepare_precondition_gmres")
    i.m("get_slab_matrix")
    p = mat_form(i, i.attr("slab_matrix_no_dg_jumps"))
    sp = i.attr("fes_p")
    s = Spec(sp, i.mesh, cell_meta(p))
    tm = time_mats(q, qs)
    dt = i.T * i.N.inv()
    data = p - subst(p, {i.w["data"].atom(): ZERO})
    want = sum((tm["Mq"][k][j] * s.tr(0, j) * s.te(0, k) for j in range(q + 1) for k in range(q + 1)), ZERO) * i.ind * s.dx * i.w["data"] * dt
    got, want = nometa(data), nometa(want)
    same(rep, pre + "primal-time-basis", got, want, "the data term does not use the time matrix of the primal order", W("__init__"))
    # the L2 dual stabilisation of the second dual field carries the time matrix of the dual order
    dual = subst(p - subst(p, {i.w["dual"].atom(): ZERO}), {a: ZERO for a in atomkind(p, "arg") if as_int(a.args[2][0]) != 3})
    want = ZERO - sum((tm["Mss"][k][j] * s.tr(3, k) * s.te(3, j) for j in range(qs + 1) for k in range(qs + 1)), ZERO) * s.dx * i.w["dual"] * dt
    same(rep, pre + "dual-time-basis", nometa(dual), nometa(want), "the dual stabilisation does not use the time matrix of the dual order", W("__init__"))
    # evaluation bases
    t = T.sym("tau")
    for k in range(q + 1):
        for at, f in (("phi_trial", lambda b: b), ("phi_test", lambda b: b), ("dt_phi_trial", lambda b: pdiff(b, t.atom()))):
            if at == "phi_test" or True:
                v = A.call(A.I.getitem(i.attr(at), const(k), A.st, A.node), t)
                d = num_atoms(v - f(lagrange(q, t)[k]))
                ok = all(abs(float(c)) < 1e-9 for c in d.t.values())
                rep.check(ok, pre + f"{at}[{k}]", f"{at}[{k}] is {T.show(v, 200)}, not member {k} of the basis of order {q}", W("__init__"))
    # switches, however the parameter object is written
    par = g("ProblemParameters")
    forms = {"keywords": lambda a, b: A.call(par, jumps_in_fw_problem=B(a), well_posed=B(b)), "keywords-reversed": lambda a, b: A.call(par, well_posed=B(b), jumps_in_fw_problem=B(a))}

    def later(a, b):
        o = A.call(par)
        A.I.setattr(o, "well_posed", B(b), A.st, A.node)
        A.I.setattr(o, "jumps_in_fw_problem", B(a), A.st, A.node)
        return o
    forms["assigned"] = later
    for a in (False, True):
        forms_a = dict(forms)
        if not a:
            forms_a["only-well-posed"] = lambda a, b: A.call(par, well_posed=B(b))
        for b in (False, True):
            if not b:
                forms_a["only-jumps"] = lambda a, b: A.call(par, jumps_in_fw_problem=B(a))
            else:
                forms_a.pop("only-jumps", None)
            for nm, f in forms_a.items():
                A.I.ctx.append(f"par-{nm}-{a}-{b}")
                o = A.call(g("SpaceTime"), polynomial_order_time=i.ot, polynomial_order_space=i.os, N=i.N, T=i.T, t=pos("t"), msh=i.mesh,
                           stabilisation_terms=i.stab, omega=i.dom, solution=i.sol, parameters=f(a, b))
                A.I.ctx.pop()
                for at, v in (("jumps_in_fw_problem", a), ("well_posed", b)):
                    rep.check(A.attr(o, at) == B(v), pre + f"switch:{nm}:{at}={v}", f"with parameters given as {nm} the switch {at}={v} is stored as {T.show(A.attr(o, at), 60)}", W("__init__"))
    A.I.ctx.append("default")
    o = A.call(g("SpaceTime"), i.ot, i.os, i.N, i.T, pos("t"), i.mesh, i.stab, i.dom, i.sol)
    A.I.ctx.pop()
    for at in ("jumps_in_fw_problem", "well_posed"):
        rep.check(A.attr(o, at) == ZERO, pre + "default:" + at, f"without parameters the switch {at} is {T.show(A.attr(o, at), 60)}", W("__init__"))
    d = A.call(g("DataDomain"), i.ind)
    rep.check(A.attr(d, "indicator_function") == i.ind and A.attr(d, "fitted") == ONE, pre + "default:fitted", "a data domain is not taken as fitted by default", f"{SRC}::DataDomain")
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c13(rep):
    fan(rep, c13_one, [dict(), dict(jumps=True, wp=True)])


# ------------------------------------------------------------------ C14
def err_items(p):
    """Contributions to a (maximum over a) sequence: [(binders, gate, value)]."""
    out = []

    def seg(s, bs, g):
        if s.kind == "it":
            out.append((bs, g, s.args[0]))
        elif s.kind == "when":
            for z in s.args[1]:
                seg(z, bs, g * s.args[0])
        elif s.kind == "rep":
            xs, (hi, inner) = T.unbind(s)
            T.BINDER_HI[xs[0].key] = hi
            for z in inner:
                seg(z, bs + [(xs[0], hi)], g)
        else:
            raise Unsupported("sequence part " + s.kind)

    def go(p, g):
        for g1, v in T.cases(p):
            a = v.atom()
            if a is None:
                out.append(([], g * g1, v))
            elif a.kind == "ext" and a.args[0] == "max":
                for x in a.args[1]:
                    go(x, g * g1)
            elif a.kind == "seq":
                for s in seq_segs(v):
                    seg(s, [], g * g1)
            elif a.kind == "tuple":
                for x in a.args:
                    go(x, g * g1)
            else:
                out.append(([], g * g1, v))
    go(p, ONE)
    return out


def reductions(rep, i, p, key, where):
    """Every local integral in p is summed exactly once over the processes of the mesh, before any nonlinear operation."""
    ok = True
    for a in T.atoms_of(p):
        if a.kind != "allred":
            continue
        comm, op, x = a.args
        if op != "SUM":
            ok = rep.check(False, key + ":operation", f"local integrals are combined over the processes by {op}, not summed", where)
        s = T.show(comm)
        if comm != Atom("attr", i.mesh, "comm").P() and not s.endswith("COMM_WORLD"):
            ok = rep.check(False, key + ":communicator", f"local integrals are summed over {s[:80]}, not over the processes of the mesh", where)
        if any(b.kind == "allred" for b in T.atoms_of(x)):
            ok = rep.check(False, key + ":twice", "a local integral is summed over the processes twice", where)
        if any(b.kind != "lsc" and "lsc" in {z.kind for z in T.atoms_of(b.P())} for m in x.t for b, e in m) or any(e != 1 for m in x.t for b, e in m if b.kind == "lsc"):
            ok = rep.check(False, key + ":nonlinear", "a nonlinear function of a local integral is summed over the processes", where)

    def bare(p):
        return any(b.kind == "lsc" or b.kind != "allred" and any(z.kind == "lsc" for z in T.atoms_of(b.P())) and bare_atom(b) for m in p.t for b, e in m)

    def bare_atom(b):
        def walk(x):
            if isinstance(x, P):
                return bare(x)
            if isinstance(x, Atom):
                return bare(P({((x, 1),): Fr(1)}))
            if isinstance(x, tuple):
                return any(walk(y) for y in x)
            return False
        return any(walk(x) for x in b.args)
    return rep.check(not bare(p), key + ":local", "an error computed from one process's part of the mesh only is used", where) and ok


def reduced(i, p):
    """Replace globally summed local integrals by the integral."""
    mp = {a: a.args[2] for a in T.atoms_of(p) if a.kind == "allred"}
    return subst(p, mp)


def integrand(p):
    """Linear combination of spatial integrals -> the integrand, None if not linear in integrals."""
    out = ZERO
    for m, c in p.t.items():
        ls = [(a, e) for a, e in m if a.kind == "lsc"]
        if len(ls) != 1 or ls[0][1] != 1 or any(b.kind == "lsc" for a, e in m if a.kind != "lsc" for b in T.atoms_of(a.P())):
            return None
        out = out + P({tuple(x for x in m if x[0] is not ls[0][0]): c}) * ls[0][0].args[0]
    return out


def square(v):
    a = v.atom()
    return a.args[0] if a is not None and a.kind == "sqrt" else v * v


def theta_pair(i):
    x = Atom("symv", "tau")
    th = i.A.call(i.A.get(M, "theta_ref"), x.P())
    return x, th, pdiff(th, x)


def c14_one(rep, q, qs, N):
    i = Inst(q, qs, N)
    pre = cfgname(q, qs, N) + ":"
    where = W("measured_errors")
    fes = i.attr("fes")
    u = vec_of(i, "u", fes)
    uv = vval(i, u)
    ret = i.m("measured_errors", u)
    it = i.A.I.hget(i.A.st, ret.atom(), "items").atom()
    if it is None or it.kind != "dict":
        raise Unsupported("error report is not a dictionary")
    items = {strval(k): v for k, v in it.args[0]}
    for k, v in items.items():
        reductions(rep, i, v, pre + "global:" + k, where)
    keys = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")
    for k in keys:
        if not rep.check(k in items, pre + "present:" + k, f"the error report lacks {k}", where):
            return
    q1 = q + 1
    dt = i.T * i.N.inv()
    fld = lambda f, n, l: F.mkfld(F.gather(uv, fes, (const(f), n * const(q1) + const(l))))
    tx, th, dth = theta_pair(i)
    sx = Atom("symv", "s")
    bas = lagrange(q, sx.P())
    mt = None
    for k in keys:
        for a in T.atoms_of(items[k]):
            if a.kind == "meas":
                if a.args[0] != "cell" or a.args[1] != i.mesh or (len(a.args) > 3 and a.args[3] != NONE):
                    rep.bad(pre + "measure", f"errors are integrated over {T.show(a.P())}, not over the cells of the mesh", where)
                    return
                mt = Atom("meas", "cell", i.mesh, NONE, NONE).P() if len(a.args) > 3 else a.P()
    if mt is None:
        raise Unsupported("no integral in the error report")
    refv = lambda f, t: Atom("ext", "call", (f, t, Atom("spx", i.mesh).P()), ()).P()

    def approx(n, first, t, deriv):
        """The lifted discrete solution (or its time derivative) at time t in slab n."""
        s = (t - n * dt) * dt.inv()
        e = ZERO
        for j in range(q1):
            b = pdiff(bas[j], sx) * dt.inv() if deriv else bas[j]
            e = e + subst(b, {sx: s}) * fld(0, n, j)
        if not first:
            z = s * const(2) - ONE
            l = subst(dth, {tx: z}) * const(2) * dt.inv() if deriv else subst(th, {tx: z})
            e = e - l * (fld(0, n, 0) - fld(0, n, -1))
        return e

    def want_sq(n, first, t, deriv):
        e = approx(n, first, t, deriv) - refv(i.sol_d if deriv else i.sol_v, t)
        return nometa(e * e * mt)

    # final time
    g = integrand(reduced(i, square(items["L2-u1-T"])))
    if g is None:
        raise Unsupported("final-time error is not an integral")
    e = F.mkfld(F.gather(uv, fes, (ZERO, i.N * const(q1) - ONE))) - refv(i.sol_v, i.T)
    same(rep, pre + "final", nometa(g), nometa(e * e * mt), "'L2-u1-T' is not the L2 error of the first field at the final time", where, sizes_of(i))

    # maxima over the samples
    pts = {}
    for key, deriv, sv in ((keys[1], False, i.sol_v), (keys[2], True, i.sol_d)):
        call = reft(i, sv)
        nm = "u_t" if deriv else "u"
        done = []
        for bs, gate, v in err_items(items[key]):
            g = integrand(reduced(i, square(v)))
            if g is None:
                raise Unsupported("sampled error is not an integral")
            other = [a for a in T.atoms_of(g) if a.kind == "ext" and a.args[0] == "call" and call(a) is None]
            if other:
                rep.bad(pre + f"sample:{nm}:solution", f"the sampled error of {nm} compares with {T.show(other[0].P(), 100)}", where)
                return
            ts = {call(a).key: call(a) for a in T.atoms_of(g) if a.kind == "ext" and a.args[0] == "call"}
            if len(ts) != 1:
                rep.bad(pre + f"sample:{nm}:time", f"a sampled error of {nm} compares with the reference solution at {len(ts)} times", where)
                return
            (t,) = ts.values()
            nb = [b for b in bs if b[1] == i.N] if N is None else []
            if N is None:
                if len(nb) != 1:
                    raise Unsupported("samples not grouped by slab")
                n = nb[0][0]
                z = [a for a in T.atoms_of(g) if a.kind == "eq0"]
                for lab, first in (("first", True), ("later", False)):
                    g1 = g
                    for a in z:
                        is_first = a.P() == T.eq0(n.P())
                        if not is_first:
                            raise Unsupported("sampled error depends on " + T.show(a.P()))
                    g1 = subst(g1, {a: (ONE if first else ZERO) for a in z})
                    if first:
                        g1 = subst(g1, {n: ZERO})
                    nn, tt = (ZERO, subst(t, {n: ZERO})) if first else (n.P(), t)
                    wv = want_sq(nn, first, tt, deriv)
                    if not first:
                        wv = subst(wv, {T.eq0(n.P()).atom(): ZERO})
                    same(rep, pre + f"sample:{nm}:{lab}", nometa(g1), wv, f"the sampled error of {nm} in {'the first' if first else 'a later'} slab is not that of the {'' if first else 'lifted '}discrete solution", where)
                done.append("any")
            else:
                # slab by the nodes it uses
                us = [a for a in T.atoms_of(g) if a.kind == "fld"]
                cand = None
                for n in range(N):
                    w = want_sq(const(n), n == 0, t, deriv)
                    d = snap(nometa(g) - w)
                    if not d.t or numericallyzero(d):
                        cand = n
                        break
                if cand is None:
                    rep.bad(pre + f"sample:{nm}:value", f"a sampled error at time {T.show(t, 60)} is not the error of the {'(lifted) ' if N > 1 else ''}discrete solution of any slab: integrand {T.show(g, 300)}", where)
                    return
                rep.ok(pre + f"sample:{nm}:slab{cand}")
                pts.setdefault(deriv, []).append((cand, bs, gate, t))
    if N is not None:
        _samples(rep, i, pre, pts, N, where)
    # slab-wise quadrature
    tot = integrand(reduced(i, square(items[keys[3]]) if N is not None else _open_sums(i, square(items[keys[3]]))))
    if tot is None:
        raise Unsupported("L2-L2 error is not a sum of integrals")
    tot = num_atoms(nometa(tot))
    call = reft(i, i.sol_d)
    w = {}
    for m, c in tot.t.items():
        rf = [(a, e) for a, e in m if a.kind == "ext" and a.args[0] == "call"]
        if any(call(a) is None for a, e in rf):
            rep.bad(pre + "l2l2:solution", "the squared error of the derivative compares with something else than the reference derivative", where)
            return
        if len(rf) == 1 and rf[0][1] == 2:
            rest = P({tuple(x for x in m if x[0] is not rf[0][0]): c}) * mt.inv()
            t = call(rf[0][0])
            w[t.key] = (t, w[t.key][1] + rest if t.key in w else rest)
    rule = {}
    sl = _slab(i) if N is None else None
    for t, wt in w.values():
        tau = numeric((t - (sl * dt if N is None else ZERO)) * dt.inv())
        om = numeric(wt * dt.inv())
        if tau is None:
            raise Unsupported(f"quadrature of the squared error: time {T.show(t, 60)}")
        if not rep.check(om is not None, pre + "l2l2:weight", f"a squared error enters with weight {T.show(wt, 60)}, not with slab length times a quadrature weight", where):
            return
        rule[tau] = rule.get(tau, 0.0) + om
    if N is not None and N > 1:
        # interior nodes from the first slab; a node at an interface belongs to one of its two slabs
        loc = {t: o for t, o in rule.items() if t < 1 - 1e-9}
        if any(abs(t - N) < 1e-9 for t in rule):
            loc[1.0] = next(o for t, o in rule.items() if abs(t - N) < 1e-9)
    else:
        loc = rule
    if not rep.check(bool(loc) and all(-1e-9 <= t <= 1 + 1e-9 for t in loc), pre + "l2l2:nodes", f"quadrature nodes of the squared error lie outside the slab: {sorted(loc)}", where):
        return
    deg = 2 * max(q - 1, 1 if N != 1 else 0)
    for m in range(deg + 1):
        v = sum(o * t ** m for t, o in loc.items())
        rep.check(abs(v - 1 / (m + 1)) < 2e-5, pre + f"l2l2:moment{m}", f"the quadrature of the squared error integrates t^{m} to {v:.8f} on the unit interval", where)
    times = {k: (t, t2) for k, (t, t2) in w.items()}

    def exact_t(n, tau):
        """The very time term the code uses for node tau of slab n."""
        for t, _ in times.values():
            s = numeric((t - n * dt) * dt.inv())
            if s is not None and abs(s - tau) < 1e-9:
                return t
        return n * dt + const(Fr(tau).limit_denominator(10**9)) * dt
    if N is None:
        z0 = T.eq0(sl).atom()
        for lab, first in (("first", True), ("later", False)):
            z = [a for a in T.atoms_of(tot) if a.kind == "eq0"]
            if any(a.P() != T.eq0(sl) for a in z):
                raise Unsupported("squared error depends on " + str([T.show(a.P()) for a in z])[:100])
            g1 = subst(tot, {a: (ONE if first else ZERO) for a in z})
            w1 = ZERO
            for tau, om in loc.items():
                w1 = w1 + const(Fr(om)) * dt * want_sq(sl, first, exact_t(sl, tau), True)
            if first:
                g1, w1 = subst(g1, {sl.atom(): ZERO}), subst(w1, {sl.atom(): ZERO})
            else:
                w1 = subst(w1, {z0: ZERO})
            close(rep, pre + f"l2l2:{lab}", g1, w1, f"the integrand of the squared derivative error in {'the first' if first else 'a later'} slab is not that of the {'' if first else 'lifted '}discrete solution", where)
    else:
        w1 = ZERO
        for n in range(N):
            for tau, om in loc.items():
                w1 = w1 + const(Fr(om)) * dt * want_sq(const(n), n == 0, exact_t(const(n), tau), True)
        close(rep, pre + "l2l2", tot, w1, "the squared derivative error is not the slab-wise quadrature of the (lifted) discrete solution's error", where)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def close(rep, key, got, want, what, where, tol=1e-6):
    d = num_atoms(got - want)
    worst = max([abs(float(c)) for c in d.t.values()] or [0.0])
    scale = max([abs(float(c)) for c in want.t.values()] or [1.0])
    if worst <= tol * max(1.0, scale):
        rep.ok(key)
        return True
    big = P({m: c for m, c in d.t.items() if abs(float(c)) > tol * max(1.0, scale)})
    rep.bad(key, f"{what}; difference {T.show(big, 300)}", where)
    return False


def _slab(i):
    if not hasattr(i, "slab_idx"):
        i.slab_idx = fresh_idx(i.N, "slab")
    return i.slab_idx.P()


def _open_sums(i, p):
    """Sum over the slabs of p, as the summand at slab `slab` (terms outside belong to the first slab)."""
    sl = _slab(i)
    out = ZERO
    z = T.eq0(sl)
    for m, c in p.t.items():
        sm = [(a, e) for a, e in m if a.kind == "sum"]
        if not sm:
            out = out + z * P({m: c})
            continue
        if len(sm) != 1 or sm[0][1] != 1:
            raise Unsupported("product of sums")
        bs, body = T.open_sum(sm[0][0])
        if len(bs) != 1:
            raise Unsupported("nested sums")
        k = P({tuple(x for x in m if x[0] is not sm[0][0]): c})
        b = subst(body, {bs[0][0]: sl})
        if bs[0][1] == i.N:
            out = out + k * b
        elif bs[0][1] == i.N - ONE:           # slabs 1..N-1
            out = out + k * (ONE - z) * subst(body, {bs[0][0]: sl - ONE})
        else:
            raise Unsupported("sum over a part of the slabs")
    return out


def _samples(rep, i, pre, pts, N, where):
    """Sample times: inside the slab used, every sample covered, from 0 to the end time."""
    sa = i.attr("sample_pts_error")
    tv = i.A.I.iterate(sa, i.A.st, i.A.node)
    want = set()
    for bs, g, v in err_items(tv):
        if not rep.check(all(sum(e for x, e in m if x is i.T.atom()) == 1 for m in v.t), pre + "samples:scale", f"sample times {T.show(v, 60)} do not scale with the end time", where):
            return
        want |= {round(float(x), 9) for x, ok in _grid(i, bs, g, v) if ok}
    rep.check(bool(want) and min(want) == 0.0 and abs(max(want) - 1.0) < 1e-9, pre + "samples:range", "the sample times do not reach from the start to the end time", where)
    for deriv, items in pts.items():
        nm = "u_t" if deriv else "u"
        got = set()
        good = True
        for n, bs, g, t in items:
            for x, ok in _grid(i, bs, g, t):
                if not ok:
                    continue
                x = float(x)
                got.add(round(x, 9))
                if not n / N - 1e-9 <= x <= (n + 1) / N + 1e-9 and good:
                    good = rep.check(False, pre + f"samples:{nm}:slab", f"the error at time {x:.4f}*T is measured with the solution of slab {n} of {N}", where)
        if good:
            rep.ok(pre + f"samples:{nm}:slab")
        rep.check(want <= got, pre + f"samples:{nm}:covered", f"sample times {sorted(want - got)[:4]}*T are not measured with {N} slabs", where)
    if len(pts) < 2:
        rep.bad(pre + "samples:none", "no sample enters one of the maxima", where)


def _grid(i, bs, gate, t):
    """Values of t/T and of the gate for all values of the (constant-range) binders; the end time is a positive scale."""
    Ta = i.T.atom()
    if any(sum(e for x, e in m if x is Ta) != 1 for m in t.t):
        raise Unsupported("sample time not proportional to the end time")

    def scale(p):
        mp = {}
        for a in T.atoms_of(p):
            if a.kind in ("lt0", "eq0", "lt") and Ta in T.atoms_of(a.P()):
                es = {sum(e for x, e in m if x is Ta) for m in a.args[0].t}
                if len(es) != 1:
                    raise Unsupported("sample condition not homogeneous in the end time")
        return subst(p, {Ta: ONE})
    gate, t = scale(gate), scale(t)
    sizes = []
    for a, hi in bs:
        h = as_int(hi)
        if h is None or h > 5000:
            raise Unsupported("sample range")
        sizes.append(range(h))
    for vals in itertools.product(*sizes):
        mp = {a: const(v) for (a, _), v in zip(bs, vals)}
        g, x = subst(gate, mp).const(), subst(t, mp).const()
        if g is None or x is None:
            raise Unsupported("sample condition not constant: " + T.show(subst(gate, mp))[:80])
        yield x, g != 0


def c14(rep):
    prs = [(1, 0), (2, 1), (3, 2), (1, 1)] if rep.tier != "thorough" else PAIRS[4:]
    jobs = []
    for q, s in prs:
        for N in (None, 1, 2, 3) + ((5,) if rep.tier == "thorough" else ()):
            jobs.append((cfgname(q, s, N), c14_one, (q, s, N)))
    rep.pmap(jobs)


# ------------------------------------------------------------------ C15 (reduction part), C16
def poly_vals(x):
    """All polynomial values inside an event argument."""
    if isinstance(x, P):
        yield x
    elif isinstance(x, Atom):
        yield x.P()
    elif isinstance(x, tuple):
        for y in x:
            yield from poly_vals(y)


def all_events(evs):
    for e in evs:
        yield e
        if e.kind == "loop":
            yield from all_events(e.body)


def c15_one(rep, q, qs, N, verbose=False):
    i = Inst(q, qs, N)
    pre = cfgname(q, qs, N, verbose=verbose) + ":"
    where = W("measured_errors")
    u = vec_of(i, "u", i.attr("fes"))
    e0 = len(i.A.st.ev)
    ret = i.m("measured_errors", u, verbose=B(verbose))
    it = i.A.I.hget(i.A.st, ret.atom(), "items").atom()
    if it is None or it.kind != "dict":
        raise Unsupported("error report is not a dictionary")
    some = False
    for k, v in it.args[0]:
        some = some or any(a.kind == "allred" for a in T.atoms_of(v))
        reductions(rep, i, v, pre + "returned:" + strval(k), where)
    rep.check(some, pre + "reduced", "no returned error is summed over the processes", where)
    npr = 0
    for e in all_events(i.A.st.ev[e0:]):
        if e.kind == "print":
            npr += 1
            for x in e.data:
                for v in poly_vals(x):
                    reductions(rep, i, v, pre + "printed", where)
        for v in poly_vals(e.guard):
            if any(a.kind == "lsc" for a in T.atoms_of(v)):
                reductions(rep, i, v, pre + "compared", where)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def c15(rep):
    from . import checks_lint
    prs = pairs(rep)[:3] if rep.tier != "thorough" else PAIRS[4:]
    jobs = [(cfgname(q, s, N, verbose=v), c15_one, (q, s, N, v)) for q, s in prs for N in (None, 2) for v in (False, True)]
    jobs.append(("rank-guards", checks_lint.rank_guards, ()))
    rep.pmap(jobs)


def entry(i, arr, idx):
    """Element of a frozen array value."""
    a = arr.atom()
    if a is not None and a.kind == "ext" and a.args[0] == "array":
        from .interp import fam_read
        return fam_read(a.args[1][1], idx)
    raise Unsupported("plotted array " + T.show(arr)[:80])


def seq_at(p, n, m, per):
    """Element n*per+m of a list built slab by slab."""
    a = p.atom()
    if a is not None and a.kind == "tuple":
        k = as_int(n * const(per) + const(m))
        return a.args[k] if k is not None and k < len(a.args) else None
    segs = seq_segs(p)
    if all(s.kind == "it" for s in segs):
        k = as_int(n * const(per) + const(m))
        return segs[k].args[0] if k is not None and k < len(segs) else None
    if len(segs) == 1 and segs[0].kind == "rep":
        xs, (hi, inner) = T.unbind(segs[0])
        if len(inner) == per and all(s.kind == "it" for s in inner):
            return subst(inner[m].args[0], {xs[0]: n})
        if len(inner) == 1 and inner[0].kind == "it":
            return subst(inner[0].args[0], {xs[0]: n * const(per) + const(m)})
    raise Unsupported("list of times")


def c16_one(rep, q, qs, N, wp=True):
    """Nothing handed in, and nothing the system is built from, changes."""
    i0 = Inst(q, qs, N, wp=wp)
    pre = cfgname(q, qs, N, wp=wp) + ":"
    fes = i0.attr("fes")
    if wp:
        for nm in ("u1_0", "u2_0"):
            fr = i0.attr(nm).atom()
            vec = i0.A.I.hget(i0.A.st, fr, "vec")
            PT.set_val(i0.A.lib, vec, F.opaque_vec("user_" + nm, i0.A.I.hget(i0.A.st, fr, "space")), i0.A.st, i0.A.node)
    i = i0
    u = vec_of(i, "u", fes)
    uv = vval(i, u)
    st0 = clone(i)

    def rhs():
        b = i.m("get_spacetime_rhs")
        return PT.get(i.A.lib, i.A.st, b.atom(), "val")
    want = rhs()
    restore(i, st0)
    calls0 = i.calls
    for meth, kw in (("measured_errors", {}), ("plot", dict(n_space=const(2), n_time_subdiv=const(2))), ("plot", dict(n_space=const(2), n_time_subdiv=const(2), abs_val=ONE)), ("plot_error", dict(n_space=const(2), n_time_subdiv=const(2))), ("plot_para_view", {})):
        where = W(meth)
        restore(i, st0)

        def one():
            i.m(meth, u, **kw)
            rep.check(vval(i, u) == uv, pre + f"{meth}:input", f"{meth} changes the solution vector it is given", where)
            got = rhs()
            same(rep, pre + f"{meth}:rhs", got, want, f"after {meth} the right-hand side of the system is a different one", where, sizes_of(i))
        rep.guard(pre + meth, one)
        faults(rep, i, "")
    restore(i, st0)
    # also with the system's right-hand side already assembled: it must keep its value
    b = i.m("get_spacetime_rhs")
    st1 = clone(i)
    for meth, kw in (("measured_errors", {}), ("plot", dict(n_space=const(2), n_time_subdiv=const(2))), ("plot", dict(n_space=const(2), n_time_subdiv=const(2), abs_val=ONE)), ("plot_error", dict(n_space=const(2), n_time_subdiv=const(2))), ("plot_para_view", {})):
        restore(i, st1)

        def two():
            i.m(meth, u, **kw)
            rep.check(PT.get(i.A.lib, i.A.st, b.atom(), "val") == want or not snap(PT.get(i.A.lib, i.A.st, b.atom(), "val") - want).t, pre + f"{meth}:assembled-rhs", f"{meth} changes the assembled right-hand side", W(meth))
        rep.guard(pre + meth + ":assembled", two)
    rep.saw(i.A.I.touched)


def escapes(i, s, n):
    """Whether the relative time s (a rational function of the final time, the number of
    slabs and the slab) leaves [0, 1] for some of their values."""
    from fractions import Fraction as F
    sizes = (1, 2, 7) if as_int(i.N) is None else (as_int(i.N),)
    for NN in sizes:
        for TT in (F(1, 2), F(1), F(9)):
            for k in range(NN):
                m = {i.T.atom(): const(TT)}
                if as_int(i.N) is None:
                    m[i.N.atom()] = const(NN)
                if n is not None:
                    m[n.atom()] = const(k)
                w = numeric(T.subst(s, m))
                if w is None:
                    return False
                if not -1e-9 <= w <= 1 + 1e-9:
                    return True
    return False


def c16_plot(rep, q, qs, N, meth, absv=False):
    """Plotted rows: time basis combination of the slab's nodes at the row's time."""
    i = Inst(q, qs, N)
    pre = cfgname(q, qs, N) + f":{meth}{':abs' if absv else ''}:"
    where = W(meth)
    fes = i.attr("fes")
    u = vec_of(i, "u", fes)
    uv = vval(i, u)
    nx, per = 2, 3
    e0 = len(i.A.st.ev)
    kw = dict(n_space=const(nx), n_time_subdiv=const(per))
    if absv:
        kw["abs_val"] = ONE
    i.m(meth, u, **kw)
    plots = []
    for e in all_events(i.A.st.ev[e0:]):
        if e.kind == "call" and strval(e.data[0]).split(".")[-1] in ("pcolormesh", "pcolor"):
            plots.append(e.data[1].atom().args)
    want_kinds = {"plot": {"value", "derivative"}, "plot_error": {"error", "derivative error"}}[meth]
    if not plots:
        raise Unsupported("nothing plotted with pcolormesh")
    dt = i.T * i.N.inv()
    sx = Atom("symv", "s")
    bas = lagrange(q, sx.P())
    q1 = q + 1
    n = fresh_idx(i.N, "slab").P() if N is None else None
    shown = set()
    from .lib import mkabs
    for p, args in enumerate(plots):
        if len(args) != 3:
            raise Unsupported("arguments of pcolormesh")
        xs, ts, z = args
        cand = None
        for nn in ([n] if N is None else [const(k) for k in range(N)]):
            for m in range(per):
                t = seq_at(ts, nn, m, per)
                if t is None:
                    rep.bad(pre + "times", "the list of plotted times is shorter than the number of rows", where)
                    return
                s = (t - nn * dt) * dt.inv()
                sv = numeric(s)
                if sv is None and escapes(i, s, n):
                    rep.bad(pre + "times", f"row {T.show(nn * const(per) + const(m))} is labelled with time {T.show(t)}, which leaves its slab for some final times and numbers of slabs", where)
                    return
                if sv is None:
                    raise Unsupported("plotted time " + T.show(t)[:60])
                if not -1e-9 <= sv <= 1 + 1e-9:
                    rep.bad(pre + "times", f"row {T.show(nn * const(per) + const(m))} is labelled with time {T.show(t)}, outside its slab", where)
                    return
                for j in range(nx):
                    got = entry(i, z, (nn * const(per) + const(m), const(j)))
                    pts = {a.args[1].key: a.args[1] for a in T.atoms_of(got) if a.kind == "evalpts"}
                    if len(pts) != 1:
                        rep.bad(pre + "row", f"row {T.show(nn * const(per) + const(m))} holds {T.show(got, 200)}, no value of the solution at one set of points", where)
                        return
                    (pp,) = pts.values()

                    def at(l):
                        b = F.gather(uv, fes, (ZERO, nn * const(q1) + const(l)))
                        return F.veclin(b, lambda y: Atom("ext", "dummy", (), ()).P()) if False else mkitem(i, b, pp, j)
                    val = der = ZERO
                    for l in range(q1):
                        val = val + subst(bas[l], {sx: s}) * at(l)
                        der = der + subst(pdiff(bas[l], sx), {sx: s}) * dt.inv() * at(l)
                    xj = tup_at(xs, j)
                    rv = Atom("ext", "call", (i.sol_v, t, T_tuple(xj)), ()).P()
                    rd = Atom("ext", "call", (i.sol_d, t, T_tuple(xj)), ()).P()
                    opts = {"value": mkabs(val) if absv else val, "derivative": mkabs(der) if absv else der, "error": mkabs(val - rv), "derivative error": mkabs(der - rd)}
                    ok = {k for k, w in opts.items() if numericallyzero(snap(got - w)) or not snap(got - w).t}
                    if absv and not ok:      # floating-point noise inside abs
                        ok = {k for k, w in (("value", val), ("derivative", der)) if got.atom() is not None and got.atom().kind == "abs" and any(not snap(sg * got.atom().args[0] - w).t for sg in (ONE, -ONE))}
                    if not absv and not ok and got.atom() is not None and got.atom().kind == "abs":
                        ok = {k for k, w in (("error", val - rv), ("derivative error", der - rd)) if any(not snap(sg * got.atom().args[0] - w).t for sg in (ONE, -ONE))}
                    c2 = ok if cand is None else cand & ok
                    if not c2:
                        rep.bad(pre + f"plot{p}", f"at row {T.show(nn * const(per) + const(m))} (time {T.show(t)}) the plot shows {T.show(got, 300)}: neither the {'/'.join(sorted(cand or want_kinds))} of the solution there", where)
                        return
                    cand = c2
        rep.ok(pre + f"plot{p}")
        shown |= cand
    rep.check(want_kinds <= shown, pre + "shown", f"{meth} shows {sorted(shown)}, not {sorted(want_kinds)}", where)
    faults(rep, i, "")
    rep.saw(i.A.I.touched)


def T_tuple(*xs):
    from .interp import tup
    return tup(*xs)


def tup_at(p, j):
    a = p.atom()
    if a is not None and a.kind == "tuple":
        return a.args[j]
    segs = seq_segs(p)
    if all(s.kind == "it" for s in segs):
        return segs[j].args[0]
    xs, (hi, inner) = T.unbind(segs[0])
    return subst(inner[0].args[0], {xs[0]: const(j)})


def mkitem(i, vec, pts, j):
    """Value at point j of the field of a scalar-space vector."""
    out = ZERO
    for m, c in vec.t.items():
        v = [(a, e) for a, e in m if a.sort == "cvec"]
        if len(v) != 1 or v[0][1] != 1:
            raise Unsupported("vector content")
        out = out + P({tuple(x for x in m if x[0] is not v[0][0]): c}) * Atom("item", Atom("evalpts", v[0][0].P(), pts).P(), const(j)).P()
    return out


def c16_export(rep, q, qs, N):
    i = Inst(q, qs, N)
    pre = cfgname(q, qs, N) + ":export:"
    where = W("plot_para_view")
    fes = i.attr("fes")
    u = vec_of(i, "u", fes)
    uv = vval(i, u)
    e0 = len(i.A.st.ev)
    i.m("plot_para_view", u)
    from .lib import mkabs
    out = []
    for e in all_events(i.A.st.ev[e0:]):
        if e.kind == "call" and strval(e.data[0]) == ".write_function":
            fr = e.data[1].atom().args[1].atom()
            out.append(PT.get(i.A.lib, i.A.st, i.A.I.hget(i.A.st, fr, "vec").atom(), "val"))
    if not out:
        raise Unsupported("no function written")
    seen = []
    for fld, sv, nm in ((0, i.sol_v, "the field"), (1, i.sol_d, "its derivative")):
        end = F.gather(uv, fes, (const(fld), i.N * const(q + 1) - ONE))
        hit = None
        for k, v in enumerate(out):
            for a in T.atoms_of(v):
                if a.kind in ("vabs", "abs") and end in (end,):
                    x = a.args[0]
                    rest = x - end
                    rest2 = x + end
                    for sg, r in ((-1, rest), (1, rest2)):
                        ats = [b for m in r.t for b, e in m]
                        if len(r.t) == 1 and len(ats) == 1 and ats[0].kind == "vfun" and any(b.kind == "ext" and b.args[0] == "call" and b.args[1][0] == sv and b.args[1][1] == i.T for b in T.atoms_of(r)) and list(r.t.values())[0] == sg * 1:
                            hit = k
        rep.check(hit is not None, pre + f"field{fld}", f"no written function is the absolute difference at the end time between {nm} and the interpolated reference; written: {[T.show(v, 160) for v in out]}", where)
    rep.saw(i.A.I.touched)


def c16(rep):
    prs = pairs(rep)[:4] if rep.tier != "thorough" else PAIRS
    jobs = []
    for q, s in prs:
        for wp in (True, False):
            jobs.append((cfgname(q, s, 2, wp=wp), c16_one, (q, s, 2, wp)))
        for N in (None, 1, 3):
            for meth, absv in (("plot", False), ("plot", True), ("plot_error", False)):
                jobs.append((cfgname(q, s, N) + ":" + meth, c16_plot, (q, s, N, meth, absv)))
            jobs.append((cfgname(q, s, N) + ":export", c16_export, (q, s, N)))
    rep.pmap(jobs)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
