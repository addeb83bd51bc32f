"""C30-C33: typestate / configuration-flow analysis of the GMRES wrapper."""
from __future__ import annotations

from . import term as T
from . import interp as X
from .interp import AlwaysRaises, NONE, S, seq_segs, strval
from .lib import Lib
from .run import Analysis, package_sources
from .term import ONE, ZERO, Atom, P, as_int, cases, const

M = "dxss.gmres"
W = "src/dxss/gmres.py::get_gmres_solution"


def make():
    from . import petsc  # noqa: F401
    return Analysis(package_sources(), Lib())


class Run:
    """One abstract call of get_gmres_solution."""

    def __init__(self, after=None, options=None, tag="", size="", **kw):
        """after: an earlier call in whose state this one is made; options: contents of the runtime
        option database."""
        self.A = A = make() if after is None else after.A
        from . import petsc as PT
        self.f = A.get(M, "get_gmres_solution")
        if self.f is None:
            raise T.Unsupported("get_gmres_solution not found")
        self.op = Atom("osym", "A" + tag).P()
        self.pre = Atom("osym", "pre" + tag).P()
        for x in (self.op, self.pre):          # the caller supplies both objects
            T.SUPPLIED.add(x.atom().key)
        self.size = T.sym("N" + size, "isym")
        T.POSITIVE_SYMS.add(self.size.atom().key)
        self.b = PT.new(A.lib, A.st, "PETSc.Vec", A.node, val=Atom("bvec", *([tag] if tag else [])).P(), size=self.size)
        if options:
            A.st.store[("X", "petsc", "options")] = Atom("dict", tuple((S(k), v) for k, v in options.items())).P()
        n0 = len(A.st.ev)
        if after is not None:
            A.st.pc, A.st.pcs = ONE, ()
            A.I.ctx.append("second-call")
        self.ret = A.call(self.f, self.op, self.b, self.pre, **kw)
        if after is not None:
            A.I.ctx.pop()
        self.end = A.st.copy()
        self.solves = flat(A.st.ev[n0:], "solve")
        self.faults = flat(A.st.ev[n0:], "fault")


T.SORT["bvec"] = "cvec"
T.SORT["matvec"] = "cvec"


def flat(evs, kind, inloop=False):
    out = []
    for e in evs:
        if e.kind == "loop":
            out += [(x, True) for x, _ in flat(e.body, kind)]
        elif e.kind == kind:
            out.append((e, inloop))
    return out


def recof(ev):
    a = ev.data[0].atom()
    return dict(a.args[5], monitors=ev.data[1]), a


def the_solve(r):
    if len(r.solves) != 1 or r.solves[0][1]:
        raise T.Unsupported(f"{len(r.solves)} solve sites")
    ev = r.solves[0][0]
    return ev, *recof(ev)


def c30(rep):
    def run():
        r = Run()
        A = r.A
        n = len(r.solves)
        if not rep.check(n == 1 and not r.solves[0][1], "one-solve", f"a call performs {n} solves" + (" in a loop" if n and r.solves[0][1] else ""), W):
            if n == 0:
                return
        for s, _ in r.solves:
            rec, a = recof(s)
            reason = Atom("reason", a.P()).P()
            pc = A.st.pc                      # guard of normal return
            if rec.get("errifnot", ZERO) == ONE:
                rep.ok("raises-on-divergence")
                continue
            # no normal return with a negative reason
            div = T.neg(reason)
            left = restrict(pc, reason)
            rep.check(not (left).t, "raises-on-divergence", f"a normal return is possible when the solver reports divergence (condition of returning: {T.show(pc)})", W)
            # convergence is not turned into an error
            good = conv(pc, reason)
            rep.check(good != ZERO and all(good_case(pc, reason, c) for c in (1, 2, 3, 4)), "returns-on-convergence", f"a converged solve does not return normally (condition of returning: {T.show(pc)})", W)
        if any(e.kind == "fault" for e, _ in r.faults):
            for e, _ in r.faults:
                rep.bad(f"fault:{e.data[0]}", f"the call can fail: {e.data[0]} {e.data[1]}", e.where)
        rep.saw(A.I.touched | {"solve site " + s.where for s, _ in r.solves})
    rep.guard("status", run)

    # each documented divergence code individually
    def codes():
        r = Run()
        pc = r.A.st.pc
        for s, _ in r.solves:
            rec, a = recof(s)
            ra = Atom("reason", a.P())
            if rec.get("errifnot", ZERO) == ONE:
                continue
            for c in (-2, -3, -4, -5, -6, -7, -8, -9, -10, -11):
                v = T.subst(pc, {ra: const(c)})
                rep.check(v.const() == 0, f"diverged{c}", f"a solve that stopped with reason {c} is returned as a solution", s.where)
    rep.guard("codes", codes)


def restrict(pc, reason):
    """pc under [reason < 0], evaluated over every negative code."""
    tot = ZERO
    a = reason.atom()
    for c in (-2, -3, -4, -5, -6, -7, -8, -9, -10, -11):
        tot = tot + T.subst(pc, {a: const(c)})
    return tot


def conv(pc, reason):
    a = reason.atom()
    tot = ZERO
    for c in (1, 2, 3, 4):
        tot = tot + T.subst(pc, {a: const(c)})
    return tot


def good_case(pc, reason, c):
    return T.subst(pc, {reason.atom(): const(c)}).const() == 1


def c31(rep):
    DEF = {"maxsteps": ("max_it", const(100)), "tol": ("atol", const(T.Fr(1, 10**12))), "reltol": ("rtol", const(T.Fr(1, 10**7))), "restart": ("restart", const(1000))}

    def run():
        r = Run()
        ev, rec, a = the_solve(r)
        for arg, (field, d) in DEF.items():
            rep.check(rec[field] == d, f"default:{arg}", f"without {arg} the solve uses {field}={T.show(rec[field])}, not {T.show(d)}", ev.where)
        rep.check(rec["fromopts"] == ONE, "runtime-options", "runtime options are not consulted after the settings and before the solve", ev.where)
        rep.check(rec["convtest"] == NONE, "convergence-test", "the convergence test of the solver is replaced", ev.where)
        for arg, (field, d) in DEF.items():
            for val, nm in ((T.sym("arg_" + arg, "isym" if arg in ("maxsteps", "restart") else "sym"), "given"), (ZERO, "zero")):
                r2 = Run(**{arg: val})
                ev2, rec2, _ = the_solve(r2)
                rep.check(rec2[field] == val, f"{nm}:{arg}", f"{arg}={T.show(val)} passed by the caller reaches the solve as {field}={T.show(rec2[field])}", ev2.where)
                for arg2, (f2, d2) in DEF.items():
                    if arg2 != arg:
                        rep.check(rec2[f2] == d2, f"{nm}:{arg}:leaves:{arg2}", f"passing {arg} changes {f2} to {T.show(rec2[f2])}", ev2.where)
                rep.check(rec2["fromopts"] == ONE, f"{nm}:{arg}:runtime-options", "runtime options are not consulted after the settings", ev2.where)
        r3 = Run(**{k: T.sym("arg_" + k, "isym" if k in ("maxsteps", "restart") else "sym") for k in DEF})
        ev3, rec3, _ = the_solve(r3)
        for arg, (field, d) in DEF.items():
            v = T.sym("arg_" + arg, "isym" if arg in ("maxsteps", "restart") else "sym")
            rep.check(rec3[field] == v, f"all:{arg}", f"{arg} given with all other controls reaches the solve as {field}={T.show(rec3[field])}", ev3.where)
        rep.saw(r.A.I.touched)
    rep.guard("controls", run)

    def runtime():
        # what the user sets on the command line has the last word
        opt = {"max_it": "ksp_max_it", "atol": "ksp_atol", "rtol": "ksp_rtol", "restart": "ksp_gmres_restart"}
        cmd = {f: T.sym("cmd_" + f, "isym" if f in ("max_it", "restart") else "sym") for f in opt}
        for kw, tag in (({}, "defaults"), ({k: T.sym("arg_" + k, "isym" if k in ("maxsteps", "restart") else "sym") for k in DEF}, "given")):
            r = Run(options={opt[f]: v for f, v in cmd.items()}, **kw)
            ev, rec, a = the_solve(r)
            for f, v in cmd.items():
                rep.check(rec[f] == v, f"runtime:{tag}:{f}", f"the runtime option -{opt[f]} set by the user is overridden: the solve uses {f}={T.show(rec[f])}", ev.where)
    rep.guard("runtime", runtime)

    def history():
        # a call is not affected by what an earlier call was given
        first = Run(**{k: T.sym("earlier_" + k, "isym" if k in ("maxsteps", "restart") else "sym") for k in DEF})
        given = {k: T.sym("arg_" + k, "isym" if k in ("maxsteps", "restart") else "sym") for k in DEF}
        for kw, tag in (({}, "defaults"), (given, "given")):
            r = Run(after=first, **kw)
            ev, rec, a = the_solve(r)
            for arg, (field, d) in DEF.items():
                want = kw.get(arg, d)
                rep.check(rec[field] == want, f"second-call:{tag}:{arg}", f"after an earlier call the solve uses {field}={T.show(rec[field])}, not {T.show(want)}", ev.where)
    rep.guard("history", history)


def c32(rep):
    def run():
        for kw, tag in (({}, "default"), ({"printrates": ZERO}, "quiet"), ({"restart": T.sym("arg_restart", "isym"), "tol": T.sym("arg_tol"), "reltol": T.sym("arg_reltol")}, "controls"),
                        ({"after": Run(tag="1", size="1")}, "second-call"), ({"after": Run(tag="1")}, "second-call-same-size")):
            r = Run(**kw)
            A = r.A
            ev, rec, a = the_solve(r)
            ksp, n, bval, bref, xref, _ = a.args
            rep.check(rec.get("op.kind") == S("python") and rec.get("op.ctx") == r.op, f"{tag}:operator", f"the operator of the solve is {T.show(rec.get('op.ctx', rec['op']))}, not the supplied matrix object", ev.where)
            rep.check(size_ok(rec.get("op.size"), r.size), f"{tag}:size", f"the operator has size {rec.get('op.size')}, not the size of the right-hand side", ev.where)
            rep.check(rec["pmat"] == rec["op"], f"{tag}:pmat", "the preconditioning matrix is a different operator", ev.where)
            rep.check(rec.get("pc.ctx") == r.pre and rec.get("pc.type") == S("python"), f"{tag}:preconditioner", f"the preconditioner is {T.show(rec.get('pc.type'))} with context {T.show(rec.get('pc.ctx'))}, not the supplied one", ev.where)
            rep.check(rec["type"] == S("gmres"), f"{tag}:method", f"the method is {T.show(rec['type'])}, not GMRES", ev.where)
            rep.check(bval == Atom("bvec").P(), f"{tag}:rhs", f"the right-hand side of the solve is {T.show(bval)}, not the supplied vector", ev.where)
            rep.check(A.I.hget(A.st, r.b.atom(), "val") == Atom("bvec").P() and not any(e.kind == "write" and e.data[0] == r.b for e in A.st.ev), f"{tag}:rhs-untouched", "the supplied right-hand side vector is modified", ev.where)
            rep.check(xref != r.b, f"{tag}:storage", "the solution is written into the right-hand side vector", ev.where)
            g = rec["guess"]
            init0 = True
            rep.check(init0, f"{tag}:initial-guess", "")
            if "after" in kw:
                f = kw["after"]
                from .petsc import val_of
                old = f.ret.atom()
                for nm, v in zip(("solution", "residual"), old.args if old is not None and old.kind == "tuple" else ()):
                    was = val_of(A.lib, v, f.end)
                    rep.check(val_of(A.lib, v, A.st) == was, f"{tag}:earlier-{nm}", f"a later call overwrites the {nm} an earlier call returned", W)
            # returned pair
            ra = r.ret.atom()
            parts = None
            if ra is not None and ra.kind == "tuple":
                parts = list(ra.args)
            elif ra is not None:
                parts = [s.args[0] for s in seq_segs(A.I.iterate(r.ret, A.st, A.node)) if s.kind == "it"]
            if not rep.check(parts is not None and len(parts) == 2, f"{tag}:pair", "the call does not return a pair", W):
                continue
            from .petsc import val_of
            xs, rs = parts
            rep.check(val_of(A.lib, xs, A.st) == Atom("solution", a.P()).P(), f"{tag}:solution", f"the first returned value is {T.show(val_of(A.lib, xs, A.st))[:120]}, not the solution of this solve", W)
            rep.check(xs != r.b and xs != rs, f"{tag}:distinct", "returned vectors share storage with the right-hand side or each other", W)
            sol = Atom("solution", a.P()).P()
            own = bval - Atom("matvec", r.op, sol).P()        # b - A x, spelled out
            rep.check(val_of(A.lib, rs, A.st) in (Atom("residual", a.P()).P(), own), f"{tag}:residual", f"the second returned value is {T.show(val_of(A.lib, rs, A.st))[:120]}, not the residual built after this solve", W)
            rep.saw(A.I.touched | {"solve site " + ev.where})
    rep.guard("wiring", run)


def size_ok(v, N):
    if v is None:
        return False
    if v == N:
        return True
    a = v.atom()
    if a is not None and a.kind == "tuple":
        return all(size_ok(x, N) for x in a.args)
    return False


def c33(rep):
    def run():
        def mons(rec):
            return rec["monitors"]
        root = {T.sym("mpi_rank", "isym").atom(): ZERO}   # the rank that prints
        r_def = Run()
        _, rec_d, _ = the_solve(r_def)
        flag = Atom("bsym", "printrates").P()
        r_s = Run(printrates=flag)
        ev, rec, a = the_solve(r_s)
        A = r_s.A

        def count(m, val):
            v = T.subst(m, {flag.atom(): const(val), **root})
            return [s.args[0] for s in expand(v)]
        on, off = count(mons(rec), 1), count(mons(rec), 0)
        rep.check(len(off) == 0, "quiet", f"per-iteration output stays on although the caller switched it off ({len(off)} monitors)", ev.where)
        rep.check(len(on) == 1, "verbose", f"{len(on)} per-iteration monitors are installed when output is requested", ev.where)
        d = [s.args[0] for s in expand(T.subst(mons(rec_d), root))]
        rep.check(len(d) == 1, "default-on", f"{len(d)} per-iteration monitors are installed by default", ev.where)
        for f in d[:1]:
            its, rn, k = T.sym("its", "isym"), T.sym("rnorm"), Atom("osym", "kspobj").P()
            A2 = r_def.A
            n0 = len(A2.st.ev)
            A2.st.pc, A2.st.pcs = ONE, ()
            A2.call(f, k, its, rn)
            pr = [e for e in A2.st.ev[n0:] if e.kind == "print"]
            txt = [x for e in pr for y in e.data for x in T.atoms_of(y)]
            rep.check(bool(pr) and its.atom() in txt, "reports-iteration", "the monitor does not print the iteration number it was given", "src/dxss/gmres.py::convergence_monitor")
            rep.check(bool(pr) and rn.atom() in txt, "reports-residual", "the monitor does not print the residual norm it was given", "src/dxss/gmres.py::convergence_monitor")
            gd = [e for e in pr if e.guard == ONE]
            rep.check(bool(gd), "reports-always", "the monitor does not print at every iteration", "src/dxss/gmres.py::convergence_monitor")
            faults = [e for e in A2.st.ev[n0:] if e.kind == "fault"]
            rep.check(not faults, "monitor-fault", "the monitor itself can fail", "src/dxss/gmres.py::convergence_monitor")
            vals = fmt_values(pr)
            rep.check(all(v in (its, rn) or v.atom() is not None and v.atom().kind in ("ext", "osym") for v in vals), "reports-unchanged", f"the monitor prints altered values {[T.show(v) for v in vals]}", "src/dxss/gmres.py::convergence_monitor")
        # the switch changes nothing else
        for k in rec:
            if k in ("monitors",):
                continue
            v1 = T.subst(rec[k], {flag.atom(): ONE}) if rec[k].t else rec[k]
            v0 = T.subst(rec[k], {flag.atom(): ZERO}) if rec[k].t else rec[k]
            rep.check(v1 == v0, f"unaffected:{k}", f"the printing switch changes {k} of the solve from {T.show(v0)} to {T.show(v1)}", ev.where)
        rep.check(flag.atom() not in T.atoms_of(A.st.pc), "unaffected:return", "the printing switch decides whether the call returns", W)
        rep.saw(A.I.touched | {"dxss.gmres:convergence_monitor"})
    rep.guard("monitor", run)

    def history():
        root = {T.sym("mpi_rank", "isym").atom(): ZERO}
        r = Run(after=Run(printrates=ONE), printrates=ZERO)
        ev, rec, a = the_solve(r)
        n = len(expand(T.subst(rec["monitors"], root)))
        rep.check(n == 0, "quiet-after-verbose", f"per-iteration output requested in an earlier call stays on ({n} monitors)", ev.where)
        r = Run(after=Run(printrates=ZERO), printrates=ONE)
        ev, rec, a = the_solve(r)
        n = len(expand(T.subst(rec["monitors"], root)))
        rep.check(n == 1, "verbose-after-quiet", f"{n} per-iteration monitors are installed when output is requested after a call without", ev.where)
        r = Run(after=Run(printrates=ONE), printrates=ONE)
        ev, rec, a = the_solve(r)
        n = len(expand(T.subst(rec["monitors"], root)))
        rep.check(n == 1, "verbose-twice", f"{n} per-iteration monitors are installed in a second call that requests output", ev.where)
    rep.guard("history", history)


def expand(v):
    a = v.atom()
    if a is None or a.kind != "seq":
        raise T.Unsupported("monitor list")
    out = []
    for s in a.args[0]:
        if s.kind == "it":
            out.append(s)
        elif s.kind == "when":
            c = s.args[0].const()
            if c is None:
                raise T.Unsupported("conditional monitor")
            if c:
                out += list(s.args[1])
    return out


def fmt_values(evs):
    out = []
    for e in evs:
        for y in e.data:
            for a in T.atoms_of(y):
                if a.kind == "fmt" and a.args[0].const() is None and strval(a.args[0]) is None:
                    out.append(a.args[0])
    return out


CHECKS = {"C30": c30, "C31": c31, "C32": c32, "C33": c33}
