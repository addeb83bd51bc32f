import types


class XDMFFile:
    def __init__(self, comm, name, mode="r"):
        self.name = name
        self.written = WRITTEN

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write_mesh(self, m):
        pass

    def write_function(self, f, t=0.0):
        WRITTEN.append((str(self.name), f.x.array.copy(), f))

    def close(self):
        pass


WRITTEN = []
VTKFile = XDMFFile
gmshio = types.SimpleNamespace(extract_topology_and_markers=None, extract_geometry=None, model_to_mesh=None, ufl_mesh=None)
def cell_perm_gmsh(*a): raise NotImplementedError
distribute_entity_data = None
