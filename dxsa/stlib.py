"""Construction of abstract SpaceTime instances for the checks of space_time.py."""
from __future__ import annotations

import os

from . import fem as F
from . import interp as X
from . import petsc as PT
from . import term as T
from .interp import AlwaysRaises, NONE, S, strval
from .run import Analysis, package_sources
from .term import ONE, ZERO, Atom, P, Unsupported, as_int, const

M = "dxss.space_time"
SRC = "src/dxss/space_time.py"
LAST = []       # the most recently built instance
for _n in ("T", "k", "kstar", "gd", "gs", "gp", "gj"):
    pass


def pos(name, kind="sym"):
    s = T.sym(name, kind)
    T.POSITIVE_SYMS.add(s.atom().key)
    return s


class Inst:
    """One SpaceTime object built with constant orders and slab count (None: symbolic) on
    a symbolic mesh, with symbolic weights, end time, space orders and reference solution."""

    def __init__(self, q=1, qstar=1, N=3, jumps=False, wp=False, fitted=False, setup=True):
        self.cfg = dict(q=q, qstar=qstar, N=N, jumps=jumps, wp=wp, fitted=fitted)
        LAST.append(self)
        self.A = A = Analysis(package_sources(), F.FemLib())
        A.load(M)
        g = lambda n: A.get(M, n)
        self.q, self.qs = const(q), const(qstar)
        self.N = pos("N", "isym") if N is None else const(N)
        self.T = pos("T")
        self.k, self.ks = pos("k", "isym"), pos("kstar", "isym")
        self.mesh = Atom("osym", "msh").P()
        T.SORT["mesh"] = "obj"
        self.w = {"data": pos("gamma_data"), "dual": pos("gamma_dual"), "primal": pos("gamma_primal"), "primal-jump": pos("gamma_jump")}
        self.stab = self.mkdict(self.w)
        self.ind = Atom("osym", "indicator").P() if fitted else Atom("fsym", "indicator").P()
        self.sol_v, self.sol_d = Atom("osym", "u_ref").P(), Atom("osym", "ut_ref").P()
        A.lib.field_callables = {self.sol_v, self.sol_d}
        self.ot = A.call(g("OrderTime"), q=self.q, qstar=self.qs)
        self.os = A.call(g("OrderSpace"), k=self.k, kstar=self.ks)
        self.dom = A.call(g("DataDomain"), indicator_function=self.ind, fitted=B(fitted))
        self.sol = A.call(g("ValueAndDerivative"), v=self.sol_v, dvdt=self.sol_d)
        self.par = A.call(g("ProblemParameters"), jumps_in_fw_problem=B(jumps), well_posed=B(wp))
        self.o = A.call(g("SpaceTime"), polynomial_order_time=self.ot, polynomial_order_space=self.os, N=self.N, T=self.T, t=pos("t"), msh=self.mesh,
                        stabilisation_terms=self.stab, omega=self.dom, solution=self.sol, parameters=self.par)
        if setup:
            A.meth(self.o, "setup_spacetime_finite_elements")

    def mkdict(self, d):
        A = self.A
        A.I.ctx.append("user-dict")
        r = A.I.alloc(A.st, "dict", A.node)
        A.I.ctx.pop()
        A.I.hset(A.st, r, "items", Atom("dict", tuple((S(k), v) for k, v in d.items())).P())
        return r.P()

    def m(self, name, *a, **kw):
        # each entry call allocates objects of its own
        self.calls = getattr(self, "calls", 0) + 1
        self.A.I.ctx.append(f"call{self.calls}")
        try:
            return self.A.meth(self.o, name, *a, **kw)
        finally:
            self.A.I.ctx.pop()

    def attr(self, name):
        return self.A.attr(self.o, name)


def B(x):
    return ONE if x else ZERO
