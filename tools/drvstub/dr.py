"""Runs the real driver modules against recording stand-ins for the space-time class, meshes and the optional solver.

load("solve_2d", pardiso=False, REF_LVL=1) -> module namespace (constants replaced at their assignment).
"""
import ast, contextlib, importlib.metadata, io, os, sys, types
from unittest.mock import MagicMock
import numpy as np
from petsc4py import PETSc
import scipy.sparse as sp

ROOT = os.path.join(os.getcwd(), "src")
sys.path.insert(0, ROOT)


def mat(a):
    n = a.shape[0]
    m = PETSc.Mat().createAIJ([n, n], nnz=n, comm=PETSc.COMM_SELF)
    m.setValues(range(n), range(n), a)
    m.assemble()
    return m


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


rng = np.random.default_rng(3)
SLAB = rng.random((4, 4)) + 4 * np.eye(4)
FIRST = rng.random((4, 4)) + 5 * np.eye(4)
FULL = rng.random((8, 8)) + 9 * np.eye(8)
RHS = rng.random(8)


class SpaceTime:
    def __init__(self, *a, **k):
        self.a, self.k = a, k
        self.msh = types.SimpleNamespace(comm=PETSc.COMM_SELF)
        self.ready, self.solver_slab, self.solver_first_slab = False, None, None
        self.rhs = vec(RHS)

    def setup_spacetime_finite_elements(self):
        self.set = True

    def prepare_precondition_gmres(self):
        self.ready = True

    def get_spacetime_rhs(self):
        return self.rhs

    def get_slab_matrix(self):
        assert self.ready
        return mat(SLAB)

    def get_slab_matrix_first_slab(self):
        assert self.ready
        return mat(FIRST)

    def get_spacetime_matrix(self, *a, **k):
        return mat(FULL)

    def set_solver_slab(self, s):
        self.solver_slab = s

    def set_solver_first_slab(self, s):
        self.solver_first_slab = s

    def measured_errors(self, u):
        self.measured = u.array.copy()

    def __getattr__(self, n):
        return MagicMock()


class A:
    def __init__(self, st):
        self.st = st

    def mult(self, mat, X, Y):
        Y.array[:] = FULL @ X.array


class B:
    def __init__(self, st):
        self.st = st

    def apply(self, pc, X, Y):
        b, x = vec(X.array[:4].copy()), vec(np.zeros(4))
        self.st.solver_first_slab.solve(b, x)
        Y.array[:4] = x.array
        b, x = vec(X.array[4:].copy()), vec(np.zeros(4))
        self.st.solver_slab.solve(b, x)
        Y.array[4:] = x.array


class Pardiso:
    """as much of pypardiso.PyPardisoSolver as the drivers use"""

    def __init__(self):
        self.f = None

    def factorize(self, m):
        self.f = m.copy()

    def _check_A(self, m):
        pass

    def _check_b(self, m, b):
        return b

    def set_phase(self, p):
        self.p = p

    def _call_pardiso(self, m, b):
        assert self.p == 33
        return sp.linalg.spsolve(self.f.tocsc(), b)


def get_sparse_matrix(m):
    ai, aj, av = m.getValuesCSR()
    return sp.csr_matrix((av, aj, ai))


def load(name, pardiso=False, **consts):
    for m in list(sys.modules):
        if m.startswith(("dxss", "dolfinx", "pypardiso")):
            del sys.modules[m]
    pk = types.ModuleType("dxss")
    pk.__path__ = [os.path.join(ROOT, "dxss")]
    sys.modules["dxss"] = pk
    st = types.ModuleType("dxss.space_time")
    for c in ("DataDomain", "OrderSpace", "OrderTime", "ProblemParameters", "ValueAndDerivative"):
        setattr(st, c, type(c, (), {"__init__": lambda self, *a, **k: self.__dict__.update(k, a=a)}))
    st.SpaceTime, st.SpaceTimePETScMatrixWrapper, st.SpaceTimePETScPreconditionerWrapper, st.get_sparse_matrix = SpaceTime, A, B, get_sparse_matrix
    sys.modules["dxss.space_time"] = st
    sys.modules["dxss.meshes"] = MagicMock()
    for m in ("dolfinx", "dolfinx.mesh", "dolfinx.fem", "dolfinx.io"):
        sys.modules[m] = MagicMock()
    import ufl
    sys.modules["dolfinx.mesh"].create_box = lambda *a, **k: ufl.Mesh(ufl.VectorElement("CG", "hexahedron", 1))
    sys.modules["pypardiso"] = types.ModuleType("pypardiso") if pardiso else None
    if pardiso:
        sys.modules["pypardiso"].PyPardisoSolver = Pardiso
    src = open(os.path.join(ROOT, "dxss", name + ".py")).read()
    t = ast.parse(src)
    for n in t.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and getattr(n.targets[0], "id", None) in consts:
            n.value = ast.copy_location(ast.Constant(consts[n.targets[0].id]), n.value)
    m = types.ModuleType("driver")
    m.__name__ = "dxss." + name
    with contextlib.redirect_stdout(io.StringIO()):
        exec(compile(t, name, "exec"), m.__dict__)
    return m


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def solution(m):
    """solution of the driver's solve"""
    quiet(m.solve_problem, measure_errors=True)
    return m.ST.measured


def at(f, t, x):
    """value of a reference solution at time t and point x"""
    from ufl.algorithms import expand_derivatives
    return float(f(t, list(x)))
