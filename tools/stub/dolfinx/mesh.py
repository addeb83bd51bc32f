import types
import enum
import numpy as np
import ufl
from mpi4py import MPI


class CellType(enum.Enum):
    interval = 1
    triangle = 2
    quadrilateral = 3
    tetrahedron = 4
    hexahedron = 5


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class Mesh(ufl.Mesh):
    def __init__(self, xs):
        super().__init__(ufl.VectorElement("Lagrange", ufl.Cell("interval"), 1, dim=1))
        self.xs = np.asarray(xs, dtype=float)
        self.n = len(xs) - 1
        self.comm = MPI.COMM_WORLD
        self.geometry = types.SimpleNamespace(x=np.column_stack([self.xs, 0 * self.xs, 0 * self.xs]), dim=1)
        self.topology = types.SimpleNamespace(dim=1)
        self.ufl_domain = lambda: self


def create_interval(comm, nx, points, ghost_mode=None):
    return Mesh(np.linspace(points[0], points[1], nx + 1))


def create_unit_interval(comm, nx, ghost_mode=None):
    return create_interval(comm, nx, (0, 1))


def _missing(*a, **k):
    raise NotImplementedError


create_box = create_mesh = create_unit_cube = create_unit_square = create_rectangle = refine = compute_incident_entities = meshtags_from_entities = meshtags = locate_entities = locate_entities_boundary = _missing
