"""Small serial 1D space-time problems on the stand-in finite element library, for the demonstrations."""
import contextlib, io as sio, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np, ufl
from mpi4py import MPI
from petsc4py import PETSc
from dolfinx.mesh import Mesh
from dxss.space_time import *


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(sio.StringIO()):
        return f(*a, **k)


STABS = {"data": 1e2, "dual": 1.0, "primal": 1e-2, "primal-jump": 1.0}
V = ValueAndDerivative(lambda t, x: ufl.cos(np.pi * t) * ufl.sin(np.pi * x[0]), lambda t, x: -np.pi * ufl.sin(np.pi * t) * ufl.sin(np.pi * x[0]))


def make(q=1, qs=0, k=1, ks=1, N=3, xs=None, jumps=False, wp=False, fitted=True, T=1.0, omega=None, sol=V, ready=True, stabs=STABS):
    msh = Mesh(np.linspace(0, 1, 6) if xs is None else xs)
    if omega is None:
        omega = DataDomain(indicator_function=(lambda x: np.where(x[0] <= 0.4, 1.0, 0.0)) if fitted else (lambda x: ufl.conditional(x[0] <= 0.4, 1.0, 0.0)), fitted=fitted)
    st = SpaceTime(OrderTime(q, qs), OrderSpace(k, ks), N, T, 0, msh, stabs, omega, sol, ProblemParameters(jumps, wp))
    quiet(st.setup_spacetime_finite_elements)
    if ready:
        quiet(st.prepare_precondition_gmres)
    return st


def dense(A):
    n, m = A.getSize()
    return A.getValues(range(n), range(m))


def close(a, b, what, tol=1e-9):
    d = np.abs(np.asarray(a) - np.asarray(b)).max()
    s = max(1.0, np.abs(np.asarray(b)).max())
    if not d <= tol * s:
        print("FAIL:", what, "differs by", d)
        sys.exit(1)


def vec(n, seed=0):
    v = PETSc.Vec().createSeq(n)
    v.array[:] = np.random.default_rng(seed).uniform(-1, 1, n)
    return v


class Lu:
    def __init__(self, A):
        self.a = dense(A)

    def solve(self, b, x):
        x.array[:] = np.linalg.solve(self.a, b.array)


def solvers(st):
    st.set_solver_slab(Lu(st.get_slab_matrix()))
    st.set_solver_first_slab(Lu(st.get_slab_matrix_first_slab()))
