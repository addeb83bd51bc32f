import numpy as np
import types
import sys
import ufl
from mpi4py import MPI
from petsc4py import PETSc
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.classes import (Abs, Argument, CellDiameter, Coefficient, ComponentTensor, Conditional, Constant, Division, FacetNormal, Grad, Indexed, IndexSum,
                         ListTensor, MathFunction, MultiIndex, Power, Product, Restricted, ScalarValue, SpatialCoordinate, Sum, Zero, Condition, FixedIndex,
                         EQ, GE, GT, LE, LT, AndCondition, OrCondition, NotCondition, MaxValue, MinValue, ConstantValue)

XQ, WQ = np.polynomial.legendre.leggauss(8)
XQ, WQ = (XQ + 1) / 2, WQ / 2


# ------------------------------------------------------------------ elements
def leaves(el):
    if isinstance(el, (ufl.MixedElement, ufl.VectorElement)):
        return [l for s in el.sub_elements() for l in leaves(s)]
    return [el]


def nodes(deg):
    return np.array([0.5]) if deg == 0 else np.linspace(0, 1, deg + 1)


def basis(deg, x, d):
    """d-th reference derivative of the Lagrange basis at x: (len(x), deg+1)."""
    xs = nodes(deg)
    out = []
    for i in range(len(xs)):
        p = np.polynomial.Polynomial([1.0])
        for j in range(len(xs)):
            if j != i:
                p = p * np.polynomial.Polynomial([-xs[j], 1.0]) / (xs[i] - xs[j])
        for _ in range(d):
            p = p.deriv()
        out.append(p(np.asarray(x)))
    return np.array(out).T


class _X:
    def __init__(self, a):
        self.array = a

    def scatter_forward(self):
        pass


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, parent=None):
        if isinstance(element, tuple):
            element = ufl.FiniteElement(element[0], mesh.ufl_cell(), element[1])
        super().__init__(mesh, element)
        self.mesh = mesh
        self.parent = parent
        self.comps = leaves(element)
        if parent is None:
            nc = mesh.n
            maps, off = [], 0
            for l in self.comps:
                deg = l.degree()
                cont = l.family() in ("Lagrange", "CG", "Q")
                dm = np.zeros((nc, deg + 1), dtype=int)
                for c in range(nc):
                    for i in range(deg + 1):
                        dm[c, i] = (c * deg + i) if cont else c * (deg + 1) + i
                k = dm.max() + 1
                maps.append(dm + off)
                off += k
            self.dim = off
            perm = np.random.RandomState(off).permutation(off)
            self.maps = [perm[m] for m in maps]
        self.element = types.SimpleNamespace(interpolation_points=lambda: None)

    def sub(self, i):
        el = self.ufl_element().sub_elements()
        s = FunctionSpace(self.mesh, el[i], parent=self)
        k = sum(len(leaves(e)) for e in el[:i])
        s.maps = self.maps[k:k + len(s.comps)]
        return s

    def collapse(self):
        new = FunctionSpace(self.mesh, self.ufl_element())
        arr = np.zeros(new.dim, dtype=int)
        for a, b in zip(new.maps, self.maps):
            arr[a.ravel()] = b.ravel()
        return new, arr

    @property
    def dofmap(self):
        n = self.dim
        return types.SimpleNamespace(index_map=types.SimpleNamespace(size_local=n, size_global=n, num_ghosts=0), index_map_bs=1)

    def coords(self):
        """Coordinates of the dofs (scalar or vector of them)."""
        x = np.zeros(self.dim)
        for l, m in zip(self.comps, self.maps):
            ref = nodes(l.degree())
            for c in range(self.mesh.n):
                x[m[c]] = self.mesh.xs[c] + ref * (self.mesh.xs[c + 1] - self.mesh.xs[c])
        return x

    def tabulate_dof_coordinates(self):
        x = self.coords()
        return np.column_stack([x, 0 * x, 0 * x])


class Function(ufl.Coefficient):
    def __init__(self, V, name=None, arr=None):
        super().__init__(V)
        self.function_space = V
        self.x = _X(np.zeros(V.dim) if arr is None else arr)
        self.name = name or "f"
        self._vec = None

    @property
    def vector(self):
        if self._vec is None:
            self._vec = PETSc.Vec().createWithArray(self.x.array, comm=PETSc.COMM_SELF)
        return self._vec

    def sub(self, i):
        V = self.function_space.sub(i)
        f = Function.__new__(Function, V)
        ufl.Coefficient.__init__(f, V)
        f.function_space, f.x, f.name, f._vec = V, self.x, "sub", None
        return f

    def split(self):
        return tuple(self.sub(i) for i in range(len(self.function_space.ufl_element().sub_elements())))

    def collapse(self):
        V, m = self.function_space.collapse()
        return Function(V, arr=self.x.array[m].copy())

    def copy(self):
        return Function(self.function_space, arr=self.x.array.copy())

    def at(self, c, comp, ref, d=0):
        V = self.function_space
        h = V.mesh.xs[c + 1] - V.mesh.xs[c]
        return basis(V.comps[comp].degree(), np.atleast_1d(ref), d) @ self.x.array[V.maps[comp][c]] / h ** d

    def eval_points(self, xs, comp=0):
        out = []
        for x in xs:
            c = min(max(np.searchsorted(self.function_space.mesh.xs, x, "right") - 1, 0), self.function_space.mesh.n - 1)
            m = self.function_space.mesh.xs
            out.append(self.at(c, comp, (x - m[c]) / (m[c + 1] - m[c]))[0])
        return np.array(out)

    def interpolate(self, g, cells=None):
        V = self.function_space
        if isinstance(g, Function):
            for k, (l, m) in enumerate(zip(V.comps, V.maps)):
                x = np.zeros(V.dim if V.parent is None else max(mm.max() for mm in V.maps) + 1)
                for c in range(V.mesh.n):
                    pts = V.mesh.xs[c] + nodes(l.degree()) * (V.mesh.xs[c + 1] - V.mesh.xs[c])
                    if l.degree() == 0 or g.function_space.comps[k].family() not in ("Lagrange", "CG"):
                        self.x.array[m[c]] = g.eval_points(pts, k)
                    else:
                        self.x.array[m[c]] = g.eval_points(pts, k)
        elif isinstance(g, Expression):
            for k, (l, m) in enumerate(zip(V.comps, V.maps)):
                for c in range(V.mesh.n):
                    ev = Ev(V.mesh, np.array([c]), nodes(l.degree()))
                    v = ev.val(prep(g.e), (k,) if g.e.ufl_shape else (), {}, None)
                    self.x.array[m[c]] = np.broadcast_to(v, (1, l.degree() + 1, 1, 1))[0, :, 0, 0]
        else:
            pts = V.tabulate_dof_coordinates().T
            self.x.array[:] = np.asarray(g(pts), dtype=float)


class Expression:
    def __init__(self, e, points, *a, **k):
        self.e = ufl.as_ufl(e)


def Constant_(mesh, v):
    return ufl.as_ufl(float(v))


Constant = Constant_ if False else (lambda mesh, v: ufl.as_ufl(float(np.real(v))))


# ------------------------------------------------------------------ evaluation
def prep(e):
    return apply_derivatives(apply_algebra_lowering(e))


class Ev:
    """Values on cells (dx) at reference points; arrays (cells, points, test dofs, trial dofs)."""

    def __init__(self, mesh, cells, ref, V=None, facet=None):
        self.mesh, self.cells, self.ref, self.facet = mesh, cells, np.asarray(ref), facet
        self.memo = {}

    # sides: None (dx/ds) or '+'/'-'
    def cellpts(self, side):
        if self.facet is None:
            return self.cells, [self.ref] * 1
        return self.facet[side]

    def tab(self, deg, d, side):
        if self.facet is None:
            cells, ref = self.cells, self.ref
        else:
            cells, r = self.facet[side]
            ref = np.array([r])
        h = (self.mesh.xs[1:] - self.mesh.xs[:-1])[cells]
        b = basis(deg, ref, d)                                   # (points, basis)
        return cells, b[None] / (h ** d)[:, None, None]          # (cells, points, basis)

    def val(self, e, comp, env, side):
        key = (id(e), comp, tuple(sorted((k, v) for k, v in env.items())), side)
        if key not in self.memo:
            self.memo[key] = (self._val(e, comp, env, side), e)
        return self.memo[key][0]

    def idx(self, mi, env):
        return tuple(int(i) if isinstance(i, FixedIndex) else env[i.count()] for i in mi)

    def field(self, e, comp, d, side):
        V = e.ufl_function_space()
        k = comp[0] if comp else 0
        if e.ufl_shape and len(comp) != 1:
            raise ValueError("component")
        cells, b = self.tab(V.comps[k].degree(), d, side)
        if isinstance(e, Argument):
            tot = sum(m.shape[1] for m in V.maps)
            off = sum(m.shape[1] for m in V.maps[:k])
            n = V.maps[k].shape[1]
            sides = 1 if side is None else 2
            out = np.zeros(b.shape[:2] + (tot * sides,))
            o2 = off + (tot if side == "-" else 0)
            out[:, :, o2:o2 + n] = b
            return out[:, :, :, None] if e.number() == 0 else out[:, :, None, :]
        vals = e.x.array[V.maps[k][cells]]
        return np.einsum("cpb,cb->cp", b, vals)[:, :, None, None]

    def _val(self, e, comp, env, side):
        if isinstance(e, Zero):
            return np.zeros((1, 1, 1, 1))
        if isinstance(e, ScalarValue):
            return np.full((1, 1, 1, 1), float(e._value))
        if isinstance(e, Restricted):
            return self.val(e.ufl_operands[0], comp, env, e._side)
        if isinstance(e, (Argument, Coefficient)):
            return self.field(e, comp, 0, side)
        if isinstance(e, Grad):
            d, f = 0, e
            while isinstance(f, Grad):
                f = f.ufl_operands[0]
                d += 1
            return self.field(f, comp[:len(comp) - d], d, side)
        if isinstance(e, SpatialCoordinate):
            if self.facet is None:
                c = self.cells
                x0, x1 = self.mesh.xs[c], self.mesh.xs[c + 1]
                return (x0[:, None] + (x1 - x0)[:, None] * self.ref[None])[:, :, None, None]
            c, r = self.facet[side or "+"]
            x0, x1 = self.mesh.xs[c], self.mesh.xs[c + 1]
            return (x0 + (x1 - x0) * r)[:, None, None, None]
        if isinstance(e, CellDiameter):
            c = self.cells if self.facet is None else self.facet[side or "+"][0]
            return (self.mesh.xs[c + 1] - self.mesh.xs[c])[:, None, None, None]
        if isinstance(e, FacetNormal):
            c, r = self.facet[side] if self.facet is not None else (None, None)
            if self.facet is None:
                raise ValueError("normal in a cell")
            return np.full((len(c), 1, 1, 1), 1.0 if r == 1.0 else -1.0)
        o = e.ufl_operands
        if type(e).__name__ in ('Conj', 'Real'):
            return self.val(o[0], comp, env, side)
        if isinstance(e, Sum):
            return self.val(o[0], comp, env, side) + self.val(o[1], comp, env, side)
        if isinstance(e, Product):
            return self.val(o[0], (), env, side) * self.val(o[1], (), env, side)
        if isinstance(e, Division):
            return self.val(o[0], comp, env, side) / self.val(o[1], (), env, side)
        if isinstance(e, Power):
            return self.val(o[0], (), env, side) ** self.val(o[1], (), env, side)
        if type(e).__name__ in ("MinValue", "MaxValue"):
            f = np.minimum if type(e).__name__ == "MinValue" else np.maximum
            return f(self.val(o[0], (), env, side), self.val(o[1], (), env, side))
        if isinstance(e, Abs):
            return abs(self.val(o[0], (), env, side))
        if isinstance(e, MathFunction):
            return getattr(np, {"ln": "log"}.get(e._name, e._name))(self.val(o[0], (), env, side))
        if isinstance(e, Indexed):
            return self.val(o[0], self.idx(o[1], env), env, side)
        if isinstance(e, ListTensor):
            return self.val(o[comp[0]], comp[1:], env, side)
        if isinstance(e, ComponentTensor):
            env = dict(env)
            for i, c in zip(o[1], comp):
                env[i.count()] = c
            return self.val(o[0], (), env, side)
        if isinstance(e, IndexSum):
            i = o[1][0].count()
            return sum(self.val(o[0], comp, dict(env, **{}) | {i: k}, side) for k in range(e.dimension()))
        if isinstance(e, Conditional):
            return np.where(self.cond(o[0], env, side), self.val(o[1], (), env, side), self.val(o[2], (), env, side))
        raise NotImplementedError(type(e).__name__)

    def cond(self, e, env, side):
        o = e.ufl_operands
        if isinstance(e, AndCondition):
            return self.cond(o[0], env, side) & self.cond(o[1], env, side)
        if isinstance(e, OrCondition):
            return self.cond(o[0], env, side) | self.cond(o[1], env, side)
        if isinstance(e, NotCondition):
            return ~self.cond(o[0], env, side)
        a, b = self.val(o[0], (), env, side), self.val(o[1], (), env, side)
        return {EQ: a == b, GE: a >= b, GT: a > b, LE: a <= b, LT: a < b}[type(e)]


class Form:
    def __init__(self, f):
        self.form = f
        self.args = f.arguments() if hasattr(f, "arguments") else ()
        self.function_spaces = [a.ufl_function_space() for a in self.args]


def form(f, *a, **k):
    return Form(f)


def _integrals(F):
    for it in F.form.integrals():
        mesh = it.ufl_domain()
        e = prep(it.integrand())
        n = mesh.n
        h = mesh.xs[1:] - mesh.xs[:-1]
        t = it.integral_type()
        if t == "cell":
            ev = Ev(mesh, np.arange(n), XQ)
            v = ev.val(e, (), {}, None)
            yield "cell", np.arange(n), np.einsum("cptu,cp->ctu", np.broadcast_to(v, (n, len(XQ)) + v.shape[2:]), h[:, None] * WQ[None]), mesh
        elif t == "interior_facet":
            c = np.arange(n - 1)
            ev = Ev(mesh, None, None, facet={"+": (c, 1.0), "-": (c + 1, 0.0)})
            v = ev.val(e, (), {}, None)
            yield "facet", c, np.broadcast_to(v, (n - 1, 1) + v.shape[2:])[:, 0], mesh
        else:
            for c, r in ((0, 0.0), (n - 1, 1.0)):
                ev = Ev(mesh, None, None, facet={None: (np.array([c]), r), "+": (np.array([c]), r)})
                v = ev.val(e, (), {}, None)
                yield "cell", np.array([c]), np.broadcast_to(v, (1, 1) + v.shape[2:])[:, 0], mesh


def local(V, kind, c):
    d = np.concatenate([m[c] for m in V.maps], axis=1)
    return d if kind == "cell" else np.concatenate([d, np.concatenate([m[c + 1] for m in V.maps], axis=1)], axis=1)


def dense(F):
    """Assembled form as a numpy array (scalar, vector or matrix)."""
    r = len(F.args)
    if r == 0:
        return float(sum(v.sum() for _, _, v, _ in _integrals(F)))
    V = F.args[0].ufl_function_space()
    if r == 1:
        b = np.zeros(V.dim)
        for kind, c, v, _ in _integrals(F):
            np.add.at(b, local(V, kind, c), v[:, :, 0])
        return b
    U = F.args[1].ufl_function_space()
    A = np.zeros((V.dim, U.dim))
    for kind, c, v, _ in _integrals(F):
        lv, lu = local(V, kind, c), local(U, kind, c)
        v = np.broadcast_to(v, (len(c), lv.shape[1], lu.shape[1]))
        for k in range(len(c)):
            np.add.at(A, np.ix_(lv[k], lu[k]), v[k])
    return A


def assemble_scalar(F):
    return dense(F)


petsc = types.ModuleType("dolfinx.fem.petsc")


def _mat(F, bcs=None, **k):
    A = dense(F)
    M = PETSc.Mat().createAIJ(A.shape, nnz=A.shape[1], comm=PETSc.COMM_SELF)
    for i in range(A.shape[0]):
        j = np.nonzero(A[i])[0].astype("int32")
        j = np.union1d(j, [i]).astype("int32") if A.shape[0] == A.shape[1] else j
        M.setValues([i], j, A[i, j])
    M.assemble()
    return M


def _cvec(F):
    return PETSc.Vec().createSeq(F.args[0].ufl_function_space().dim, comm=PETSc.COMM_SELF)


def _avec(b, F=None):
    if F is None:
        v = _cvec(b)
        v.array[:] = dense(b)
        return v
    b.array[:] += dense(F)
    return b


petsc.assemble_matrix, petsc.create_vector, petsc.assemble_vector = _mat, _cvec, _avec
sys.modules["dolfinx.fem.petsc"] = petsc
