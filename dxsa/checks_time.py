"""C20-C23: time bases, quadrature rules, time matrices, jump lifting."""
from __future__ import annotations

import math
from fractions import Fraction as Fr

from . import term as T
from . import lib as L0
from .interp import S, seq_segs
from .lib import Lib, pdiff
from .run import Analysis, package_sources
from .term import ONE, ZERO, Atom, P, as_int, const, subst

M = "dxss.precomp_time_int"
TOL = Fr(1, 10**9)


def make():
    from . import petsc  # noqa: F401
    return Analysis(package_sources(), Lib())


def lagrange(q, t):
    """Lagrange basis on the equidistant nodes of [0,1]."""
    if q == 0:
        return [ONE]
    nodes = [Fr(i, q) for i in range(q + 1)]
    out = []
    for i, a in enumerate(nodes):
        p = ONE
        for j, b in enumerate(nodes):
            if j != i:
                p = p * (t - const(b)) * const(1 / (a - b))
        out.append(p)
    return out


def integrate01(p, x):
    return L0.pinteg(p, x, ZERO, ONE)


def numeric(p):
    """Float value of a constant polynomial (sqrt atoms allowed) or None."""
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            if a.kind == "sqrt":
                w = numeric(a.args[0])
                if w is None:
                    return None
                v *= math.sqrt(w) ** e
            elif a.kind == "sym" and a.args[0] == "pi":
                v *= math.pi ** e
            elif a.kind == "inv":
                w = numeric(a.args[0])
                if not w:
                    return None
                v *= w ** (-e)
            else:
                return None
        s += v
    return s


def numeric_at(p, names, i):
    """Value of p with the names replaced by the i-th sample point, or None."""
    try:
        for k, a in enumerate(names):
            p = T.subst(p, {a: const(Fr(3 + 2 * i + k, 17 + 3 * k))})
        return numeric(p)
    except (T.Unsupported, ZeroDivisionError):
        return None


def coeffs(p, names):
    """Split p into {exponents of the given atoms: coefficient polynomial}."""
    out = {}
    for m, c in p.t.items():
        key = [0] * len(names)
        rest = []
        for a, e in m:
            if a in names:
                key[names.index(a)] = e
            else:
                rest.append((a, e))
        k = tuple(key)
        out[k] = out.get(k, ZERO) + P({tuple(rest): c})
    return out


def close(p, names, tol):
    """Are all coefficients of p (in `names`) numerically below tol?"""
    worst = 0.0
    for k, c in coeffs(p, names).items():
        v = numeric(c)
        if v is None:
            # a quotient in the names: a non-zero value anywhere refutes p = 0
            at = [numeric_at(p, names, i) for i in range(3)]
            if any(w is not None and abs(w) > max(tol, 1e-9) for w in at):
                return False, max(abs(w) for w in at if w is not None)
            raise T.Unsupported("non-numeric coefficient " + T.show(c)[:80])
        worst = max(worst, abs(v))
    return worst <= tol, worst


def as_list(A, v):
    sv = A.I.iterate(v, A.st, A.node)
    segs = seq_segs(sv)
    if not all(s.kind == "it" for s in segs):
        raise T.Unsupported("list of unknown length")
    return [s.args[0] for s in segs]


def table(A):
    tab = A.get(M, "basis_in_time")
    if tab is None:
        raise T.Unsupported("basis_in_time not found")
    return tab


def no_faults(A, rep, key):
    for e in A.st.ev:
        if e.kind == "fault" and e.guard.t:
            rep.bad(f"{key}:{T.strval(e.data[0]) if hasattr(T, 'strval') else e.data[0]}", f"evaluation fails: {e.data[0]} {e.data[1]}", e.where)


def c20(rep):
    A = make()
    x = Atom("symv", "x")
    tab = table(A)

    def orders():
        A2 = make()
        for q in range(4):
            def one(q=q):
                pair = as_list(A, A.I.getitem(tab, const(q), A.st, A.node))
                if len(pair) != 2:
                    raise T.Unsupported("table entry is not a (values, derivatives) pair")
                vals, ders = as_list(A, pair[0]), as_list(A, pair[1])
                where = f"src/dxss/precomp_time_int.py::basis_in_time[{q}]"
                rep.check(len(vals) == q + 1, f"order{q}:values:count", f"order {q} value table has {len(vals)} members, not {q + 1}", where)
                rep.check(len(ders) == q + 1, f"order{q}:derivatives:count", f"order {q} derivative table has {len(ders)} members, not {q + 1}", where)
                spec = lagrange(q, x.P())
                pv = [A.lib.num(A.call(f, x.P()), A.st) for f in vals]
                pd = [A.lib.num(A.call(f, x.P()), A.st) for f in ders]
                for j, (p, s) in enumerate(zip(pv, spec)):
                    ok, w = close(p - s, [x], 1e-9)
                    rep.check(ok, f"order{q}:value{j}", f"order {q} member {j} is {T.show(p)}; the nodal Lagrange polynomial is {T.show(s)}", where)
                for j, (p, d) in enumerate(zip(pv, pd)):
                    ok, w = close(pdiff(p, x) - d, [x], 1e-9)
                    rep.check(ok, f"order{q}:derivative{j}", f"order {q} derivative entry {j} is {T.show(d)}; the derivative of its value entry is {T.show(pdiff(p, x))}", where)
                # the matrices are integrals of this very basis
                em = elmat(A2, q, q)
                for name, f in (("M_time_q_q", lambda a, b: a * b), ("DDM_time_q_q", lambda a, b: pdiff(a, x) * pdiff(b, x)), ("DM_time_q_q", lambda a, b: pdiff(a, x) * b)):
                    m = em.get(name)
                    if m is None:
                        continue
                    n, mm, g = m
                    if (n, mm) != (q + 1, q + 1):
                        continue
                    bad = [(i, j) for i in range(n) for j in range(mm) if not close(g(i, j) - integrate01(f(pv[j], pv[i]), x), [], 1e-9)[0]]
                    rep.check(not bad, f"order{q}:same-basis:{name}", f"{name} of order {q} is not the Gram matrix of the evaluation basis at entries {bad[:4]}", "src/dxss/precomp_time_int.py::get_elmat_time")
            rep.guard(f"order{q}", one)
        A.I.touched |= A2.I.touched
    orders()
    no_faults(A, rep, "fault")
    rep.saw(A.I.touched | {"basis_in_time (module table)"})


def elmat(A, q, qs):
    f = A.get(M, "get_elmat_time")
    if f is None:
        raise T.Unsupported("get_elmat_time not found")
    d = A.call(f, q, qs)
    out = {}
    for k, v in A.I.dict_items(d.atom(), A.st):
        a = v.atom()
        if not A.lib.isarr(v):
            raise T.Unsupported("matrix is not an array")
        sh = [as_int(s) for s in A.lib.shape(a, A.st)]
        if len(sh) != 2 or None in sh:
            raise T.Unsupported("matrix shape")
        out[k.atom().args[0]] = (sh[0], sh[1], lambda i, j, a=a: A.lib.nd_get(a, (const(i), const(j)), A.st, A.node))
    return out


def c22(rep):
    x = Atom("symv", "x")
    SPEC = {
        "M_time_q_qstar": ("qs", "q", 0, 0), "M_time_q_q": ("q", "q", 0, 0), "M_time_qstar_qstar": ("qs", "qs", 0, 0),
        "DM_time_q_qstar": ("qs", "q", 0, 1), "DM_time_q_q": ("q", "q", 0, 1), "DDM_time_q_q": ("q", "q", 1, 1),
    }
    A = make()
    where = "src/dxss/precomp_time_int.py::get_elmat_time"
    bad = {}
    for q in range(4):
        for qs in range(4):
            def one(q=q, qs=qs):
                em = elmat(A, q, qs)
                n = {"q": q, "qs": qs}
                for name, (r, c, dr, dc) in SPEC.items():
                    if name not in em:
                        raise T.Unsupported("matrix " + name + " not returned")
                    R, C, g = em[name]
                    okshape = (R, C) == (n[r] + 1, n[c] + 1)
                    if not okshape:
                        bad.setdefault((name, "shape"), f"{name} has shape {(R, C)} for q={q}, qstar={qs}; one row per test and one column per trial member is {(n[r] + 1, n[c] + 1)}")
                        continue
                    rows = [pdiff(p, x) if dr else p for p in lagrange(n[r], x.P())]
                    cols = [pdiff(p, x) if dc else p for p in lagrange(n[c], x.P())]
                    for i in range(R):
                        for j in range(C):
                            v = g(i, j)
                            s = integrate01(rows[i] * cols[j], x)
                            if not close(v - s, [], 1e-9)[0]:
                                bad.setdefault((name, "entries"), f"{name}[{i},{j}] is {T.show(v)} for q={q}, qstar={qs}; the integral it is named after is {T.show(s)}")
                    rep.ok(f"q{q}:qstar{qs}:{name}") if (name, "entries") not in bad else None
            rep.guard(f"q{q}:qstar{qs}", one)
    for (name, what), msg in bad.items():
        rep.bad(f"{name}:{what}", msg, where)
    no_faults(A, rep, "fault")
    rep.saw(A.I.touched)


# ---------------------------------------------------------------- quadrature
def legendre(n):
    """Coefficients of P_n."""
    p0, p1 = [Fr(1)], [Fr(0), Fr(1)]
    if n == 0:
        return p0
    for k in range(1, n):
        p2 = [Fr(0)] + [Fr(2 * k + 1, k + 1) * c for c in p1]
        for i, c in enumerate(p0):
            p2[i] -= Fr(k, k + 1) * c
        p0, p1 = p1, p2
    return p1


def poly_roots(co, lo=-1.0, hi=1.0):
    f = lambda t: sum(float(c) * t ** i for i, c in enumerate(co))
    N = 20000
    rs = []
    xs = [lo + (hi - lo) * i / N for i in range(N + 1)]
    for a, b in zip(xs, xs[1:]):
        fa, fb = f(a), f(b)
        if fa == 0:
            rs.append(a)
            continue
        if fa * fb < 0:
            for _ in range(80):
                m = (a + b) / 2
                if f(a) * f(m) <= 0:
                    b = m
                else:
                    a = m
            rs.append((a + b) / 2)
    if abs(f(hi)) < 1e-13:
        rs.append(hi)
    return rs


def weights_for(nodes):
    """Interpolatory weights on [-1,1]."""
    out = []
    for i, a in enumerate(nodes):
        co = [1.0]
        for j, b in enumerate(nodes):
            if j != i:
                co = [(-b * co[k] if k < len(co) else 0.0) + (co[k - 1] if k else 0.0) for k in range(len(co) + 1)]
                co = [c / (a - b) for c in co]
        out.append(sum(c * ((1 - (-1) ** (k + 1)) / (k + 1)) for k, c in enumerate(co)))
    return out


def exact_rule(name, m):
    if name == "Gauss":
        nodes = poly_roots(legendre(m)) if m > 1 else [0.0]
    elif name == "Gauss-Radau":
        a, b = legendre(m), legendre(m - 1)
        s = [x + (b[i] if i < len(b) else 0) for i, x in enumerate(a)]
        # divide by (1+x)
        q = [Fr(0)] * (len(s) - 1)
        r = list(s)
        for i in range(len(s) - 1, 0, -1):
            q[i - 1] = r[i]
            r[i - 1] -= r[i]
        nodes = [-1.0] + poly_roots(q)
    elif name == "Newton-Cotes":
        nodes = [-1 + 2 * i / (m - 1) for i in range(m)]
    else:
        nodes = [0.0]
    return list(zip(nodes, weights_for(nodes)))


RULES = [("Gauss-Radau", 3, 1e-9), ("Gauss-Radau", 4, 1.01e-6), ("Gauss-Radau", 5, 1.01e-6),
         ("Gauss", 1, 1e-9), ("Gauss", 2, 1e-9), ("Gauss", 3, 1e-9), ("Newton-Cotes", 2, 1e-9), ("Newton-Cotes", 3, 1e-9),
         ("Midpoint-Rule", 1, 1e-9)]


def sampled(pts, ws, rule, a, h):
    """Nodes and weights that are no affine functions of the interval: a sample interval on which they
    are wrong, or None. Ties and rounding of the tabulated constants do not reach 1e-4."""
    frees = sorted({x for v in pts + ws for x in T.atoms_of(v) if x.kind == "sym" and x not in (a, h) and x.args[0] != "pi"}, key=lambda x: x.key)
    for i, (av, hv) in enumerate(((Fr(3, 10), Fr(13, 10)), (Fr(-7, 5), Fr(1, 3)), (Fr(0), Fr(1)), (Fr(11, 4), Fr(1, 100)))):
        env = {a: const(av), h: const(hv), **{x: const(Fr(7 + k + i, 5)) for k, x in enumerate(frees)}}
        try:
            xs, us = ([numeric(subst(v, env)) for v in vs] for vs in (pts, ws))
        except (T.Unsupported, ZeroDivisionError):
            continue
        if None in xs or None in us:
            continue
        want = sorted((float(av + hv * Fr(1, 2)) + float(hv) * x / 2, float(hv) * u / 2) for x, u in rule)
        if any(abs(x - y) > 1e-4 * float(hv) or abs(u - v) > 1e-4 * float(hv) for (x, u), (y, v) in zip(sorted(zip(xs, us)), want)):
            return f"[{float(av):g}, {float(av + hv):g}] nodes {[round(x, 5) for x in xs]} weights {[round(x, 5) for x in us]}, expected {[(round(y, 5), round(v, 5)) for y, v in want]}"
    return None


def c21(rep):
    A = make()
    cls = A.get(M, "QuadRule")
    a, h = Atom("sym", "a"), Atom("sym", "h")
    for name, m, tol, used in [(*r, u) for r in RULES for u in (False, True)]:
        def one(name=name, m=m, tol=tol, used=used):
            qr = A.call(cls, S(name), m)
            if used:        # the answers do not depend on intervals asked for before
                A.meth(qr, "current_pts", T.sym("a0"), T.sym("a0") + T.sym("h0"))
                A.meth(qr, "t_weights", T.sym("h0"))
            pts = [A.lib.num(v, A.st) for v in as_list(A, A.meth(qr, "current_pts", a.P(), a.P() + h.P()))]
            ws = [A.lib.num(v, A.st) for v in as_list(A, A.meth(qr, "t_weights", h.P()))]
            key = f"{name}:{m}" + (":used" if used else "")
            where = f"src/dxss/precomp_time_int.py::QuadRule {name} {m}" + (" (asked for another interval before)" if used else "")
            if not rep.check(len(pts) == len(ws) == m, f"{key}:count", f"{name} with {m} points has {len(pts)} nodes and {len(ws)} weights", where):
                return
            got = []
            if any(numeric(c) is None for v in pts + ws for c in coeffs(v, [a, h]).values()):
                bad = sampled(pts, ws, exact_rule(name, m), a, h)
                if bad is None:
                    raise T.Unsupported("nodes or weights that are no affine functions of the interval")
                rep.bad(f"{key}:mapping", f"nodes and weights are not the images of the reference rule: on {bad}", where)
                return
            for p, w in zip(pts, ws):
                cp = coeffs(p, [a, h])
                cw = coeffs(w, [a, h])
                if set(cp) - {(1, 0), (0, 1)} or set(cw) - {(0, 1)}:
                    extra = [k for k in set(cp) - {(1, 0), (0, 1)} if abs(numeric(cp[k])) > 1e-12] + [k for k in set(cw) - {(0, 1)} if abs(numeric(cw[k])) > 1e-12]
                    if extra:
                        rep.bad(f"{key}:mapping", f"node {T.show(p)} / weight {T.show(w)} is not the affine image on [a, a+h]", where)
                        return
                ca = numeric(cp.get((1, 0), ZERO))
                if abs(ca - 1) > 1e-9:
                    rep.bad(f"{key}:mapping", f"node {T.show(p)} does not move with the interval start", where)
                    return
                got.append((2 * numeric(cp.get((0, 1), ZERO)) - 1, 2 * numeric(cw.get((0, 1), ZERO))))
            exact = sorted(exact_rule(name, m))
            srt = sorted(got)
            worst = max(max(abs(x - y), abs(u - v)) for (x, u), (y, v) in zip(srt, exact))
            rep.check(worst <= tol, f"{key}:exactness", f"reference nodes/weights {[(round(x, 7), round(u, 7)) for x, u in srt]} differ by {worst:.2e} from the rule that is exact to its degree {[(round(x, 7), round(u, 7)) for x, u in exact]}", where)
            inside = all(-1 - 1e-9 <= x <= 1 + 1e-9 for x, _ in got)
            rep.check(inside, f"{key}:inside", "a node lies outside the interval", where)
            if name == "Gauss-Radau":
                rep.check(any(abs(x + 1) <= 1e-9 for x, _ in got), f"{key}:left-end", "the left end point is not a node", where)
        rep.guard(f"{name}:{m}" + (":used" if used else ""), one)
    no_faults(A, rep, "fault")
    rep.saw(A.I.touched)


def generic(rep, key, p, x, where):
    """p without its special values at isolated points, which must agree with the rest."""
    eqs = [a for a in T.atoms_of(p) if a.kind == "eq0" and x in T.atoms_of(a.args[0])]
    if not eqs:
        return p
    g = subst(p, {a: ZERO for a in eqs})
    for a in eqs:
        co = coeffs(a.args[0], [x])
        c1, c0 = (numeric(co.get((k,), ZERO)) for k in (1, 0))
        if set(co) - {(0,), (1,)} or not c1 or c0 is None:
            raise T.Unsupported("special value at " + T.show(a.P())[:60])
        t = co.get((0,), ZERO).const()
        t = -t / co[(1,)].const()
        u, v = (numeric(subst(z, {x: const(t)})) for z in (p, g))
        if u is None or v is None:
            raise T.Unsupported("special value at " + T.show(a.P())[:60])
        rep.check(abs(u - v) < 1e-9, f"{key}:{t}", f"the function takes the value {u} at {t}, where the polynomial it equals elsewhere is {v}", where)
    return g


def c23(rep):
    A = make()
    x = Atom("symv", "tau")
    th, dth = A.get(M, "theta_ref"), A.get(M, "d_theta_ref")

    def run(u=""):
        if u:        # values asked for before do not matter
            for f in (th, dth):
                A.call(f, T.sym("tau0"))
        p = A.lib.num(A.call(th, x.P()), A.st)
        d = A.lib.num(A.call(dth, x.P()), A.st)
        w = "src/dxss/precomp_time_int.py::theta_ref"
        p = generic(rep, u + "theta:special", p, x, w)
        d = generic(rep, u + "dtheta:special", d, x, "src/dxss/precomp_time_int.py::d_theta_ref")
        for k in coeffs(p, [x]):
            if k[0] < 0:
                rep.bad(f"{u}theta:polynomial", f"the lifting {T.show(p)} is not a polynomial", w)
                return
        ev = lambda q, t: numeric(subst(q, {x: const(t)}))
        rep.check(abs(ev(p, -1) - 1) < 1e-9, f"{u}theta:left-end", f"the lifting takes the value {ev(p, -1)} at the left end, not 1", w)
        rep.check(abs(ev(p, 1)) < 1e-9, f"{u}theta:right-end", f"the lifting takes the value {ev(p, 1)} at the right end, not 0", w)
        nodes = A.get(M, "pts_raudau_right")
        if nodes is not None:
            for i, nd in enumerate(as_list(A, nodes)):
                c = nd.const()
                rep.check(abs(ev(p, c)) < 1e-9, f"{u}theta:node{i}", f"the lifting is {ev(p, c)} at its node {c}, not 0", w)
        ok, worst = close(pdiff(p, x) - d, [x], 1e-9)
        rep.check(ok, f"{u}dtheta:derivative", f"d_theta_ref is {T.show(d)}; the derivative of the lifting {T.show(p)} is {T.show(pdiff(p, x))}", "src/dxss/precomp_time_int.py::d_theta_ref")
    rep.guard("theta", run)
    rep.guard("theta-used", lambda: run("used:"))
    no_faults(A, rep, "fault")
    rep.saw(A.I.touched)


CHECKS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23}
