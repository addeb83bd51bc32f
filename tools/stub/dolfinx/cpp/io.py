def perm_gmsh(*a):
    raise NotImplementedError
