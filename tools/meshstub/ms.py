"""Stand-in for dolfinx/XDMF around the real meshes.py and the real gmsh; file effects stay in a scratch directory.

run(name, *args, rank=0, version="0.7.2") -> (result, trace); trace is a list of tuples of what happened in order.
"""
import contextlib, importlib.metadata, importlib.util, io, os, shutil, sys, tempfile, types
import numpy as np

SRC = os.path.join(os.getcwd(), "src", "dxss", "meshes.py")
TRACE = []
VERSION = ["0.7.2"]
_v = importlib.metadata.version
importlib.metadata.version = lambda n: VERSION[0] if n == "fenics-dolfinx" else _v(n)


class Topology:
    dim = 2

    def __init__(self):
        self.created = set()

    def create_entities(self, d):
        self.created.add(d)

    def create_connectivity(self, a, b):
        pass


class Mesh:
    def __init__(self, parent=None, of=None):
        self.parent, self.of, self.topology, self.comm = parent, of, Topology(), types.SimpleNamespace()
        self.level = 0 if parent is None else parent.level + 1


class Cells:
    def __init__(self, mesh):
        self.mesh = mesh


class Edges:
    def __init__(self, mesh, ok):
        self.mesh, self.ok = mesh, ok


def locate_entities(mesh, dim, f):
    assert np.all(f(np.random.default_rng(0).random((3, 10)))), "not all cells"
    return Cells(mesh)


def compute_incident_entities(where, cells, a, b):
    old = VERSION[0] < "0.7"
    assert isinstance(where, Mesh if old else Topology), "wrong argument for this version of the library"
    m = cells.mesh
    assert (where is m) if old else (where is m.topology)
    return Edges(m, b in m.topology.created)


def refine(mesh, edges=None, redistribute=True):
    if edges is None:
        assert 1 in mesh.topology.created, "edges were not created"
    else:
        assert edges.mesh is mesh, "edges of another mesh"
        assert edges.ok, "edges were not created"
    return Mesh(mesh)


def create_mesh(comm, cells, x, domain, *a):
    TRACE.append(("create_mesh", np.array(cells), np.array(x)))
    return Mesh()


class XDMFFile:
    def __init__(self, comm, name, mode):
        TRACE.append(("read" if mode == "r" else "write", name))
        if mode == "r":
            assert os.path.exists(name) or RANK[0], name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read_mesh(self, **k):
        return Mesh()

    def read_meshtags(self, *a, **k):
        return None

    def write_mesh(self, *a):
        pass


RANK = [0]


class Comm:
    size = 2

    @property
    def rank(self):
        return RANK[0]

    def barrier(self):
        TRACE.append(("barrier",))

    Barrier = barrier


def perm_gmsh(cell_type, n):
    return {3: [0, 1, 2], 6: [0, 1, 2, 4, 5, 3]}[n]      # as the library: dolfinx orders edges by opposite vertex


def _mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    return m


_mod("dolfinx")
_mod("dolfinx.cpp")
_mod("dolfinx.cpp.io", perm_gmsh=perm_gmsh)
gmshio = types.SimpleNamespace(
    ufl_mesh=lambda *a: a,
    model_to_mesh=lambda *a, **k: (TRACE.append(("model_to_mesh",)), (Mesh(), None, None))[1],
)
_mod("dolfinx.io", XDMFFile=XDMFFile, gmshio=gmshio)
CellType = types.SimpleNamespace(triangle="triangle", quadrilateral="quadrilateral")
_mod("dolfinx.mesh", CellType=CellType, GhostMode=types.SimpleNamespace(shared_facet=1), compute_incident_entities=compute_incident_entities,
     create_mesh=create_mesh, locate_entities=locate_entities, refine=refine)
spec = importlib.util.spec_from_file_location("meshes", SRC)
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
M.MPI = types.SimpleNamespace(COMM_WORLD=Comm())
import gmsh, meshio

_write = meshio.write


def write(name, mesh, *a, **k):
    TRACE.append(("write", name))
    return _write(name, mesh, *a, **k)


meshio.write = write
GROUPS = []
_apg = gmsh.model.addPhysicalGroup


def apg(dim, tags, tag=-1, *a, **k):
    GROUPS.append((dim, [(t, tuple(gmsh.model.occ.getCenterOfMass(dim, t))) for t in tags], tag))
    return _apg(dim, tags, tag, *a, **k)


gmsh.model.addPhysicalGroup = apg


def run(name, *args, rank=0, version="0.7.2", **kw):
    RANK[0], VERSION[0] = rank, version
    del TRACE[:], GROUPS[:]
    here = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = getattr(M, name)(*args, **kw)
        return r, list(TRACE), list(GROUPS)
    finally:
        os.chdir(here)
        shutil.rmtree(d)
