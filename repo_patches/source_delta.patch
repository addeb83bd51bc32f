From 111fa71d3050c1f14ce2b5b06023c4eb19af9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 01/16] fix: interpolate the user's indicator for fitted data
 domains and leave the user's object alone

---
 src/dxss/space_time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 3bd5ccc..71aaf60 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -146,8 +146,12 @@ class SpaceTime:
         # TODO: could this be moved to the constructor of the dataclass?
         if omega.fitted:
             q_ind = fem.FunctionSpace(self.msh, ("DG", 0))
-            self.omega.indicator_function = fem.Function(q_ind)
-            self.omega.indicator_function.interpolate(self.omega.indicator_function)
+            indicator_function = fem.Function(q_ind)
+            indicator_function.interpolate(omega.indicator_function)
+            self.omega = dataclasses.replace(
+                omega,
+                indicator_function=indicator_function,
+            )
         else:
             self.omega.indicator_function = self.omega.indicator_function
 
-- 
2.43.0


From ed5b663f1f2f314dedddf4e05a46ffeea0eb547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 02/16] fix: two-level preconditioner calls the coarse-grid
 correction of the space-time object

---
 src/dxss/space_time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 71aaf60..6d29349 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1445,7 +1445,7 @@ class SpaceTime:
         self.prolongation(self.tmp2_coarse, x_out)
 
     def pre_twolvl(self, b, x_sol):
-        self.otime.q_op(b, self.tmp3_sol)
+        self.q_op(b, self.tmp3_sol)
         self.apply_spacetime_matrix(self.tmp3_sol, self.tmp4_sol)
         self.tmp5_sol.array[:] = b.array[:]
         self.tmp5_sol.array[:] -= self.tmp4_sol.array[:]
-- 
2.43.0


From a68affab55c5d2a5875aa0cbaf5b3793e078a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 03/16] fix: matrix and form caches distinguish the
 preconditioner variant

---
 src/dxss/space_time.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 6d29349..c88fa20 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -183,6 +183,7 @@ class SpaceTime:
         # SpaceTime
         self.spacetime_bilinear_form = None
         self.spacetime_matrix = None
+        self.spacetime_precond = None
         # Slab matrix with DG-jumps
         self.slab_bilinear_form = None
         self.slab_matrix = None
@@ -711,7 +712,7 @@ class SpaceTime:
         return A, bilinear_form
 
     def get_spacetime_matrix(self, precond=False):
-        if not self.spacetime_matrix:
+        if not self.spacetime_matrix or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
@@ -719,16 +720,18 @@ class SpaceTime:
             # TODO: was this a bug? also on l663 👇
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_matrix
 
     def get_spacetime_bfi(self, precond=False):
-        if not self.spacetime_bilinear_form:
+        if not self.spacetime_bilinear_form or self.spacetime_precond != precond:
             A, bilinear_form = self.setup_spacetime_matrix(  # noqa: N806
                 self.fes,
                 precond,
             )
             self.spacetime_bilinear_form = bilinear_form
             self.spacetime_matrix = A
+            self.spacetime_precond = precond
         return self.spacetime_bilinear_form
 
     def setup_rhs(self):
-- 
2.43.0


From 1df51ca8d5e9d709d437cbac8fd42cde001a4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 04/16] fix: preconditioner set-up works after the slab matrix
 was built and for well-posed problems

---
 src/dxss/space_time.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index c88fa20..4c6a5a0 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -216,6 +216,7 @@ class SpaceTime:
         self.u2_0_pre = None
         self.vec_0_bnd_in = None
         self.vec_0_bnd_out = None
+        self.b_rhs_pre = None
 
         # auxiliary FEM functions
         self.u1_0 = None
@@ -1336,8 +1337,9 @@ class SpaceTime:
     def prepare_precondition_gmres(self):
         if not self.slab_matrix:
             self.setup_slab_matrix(with_jumps=True)
+        if not self.b_rhs_pre:
             self.b_rhs_pre, _ = self.slab_matrix.createVecs()
-        if not self.SlabMatFirstSlab and not self.well_posed:
+        if not self.slab_matrix_no_dg_jumps:
             self.setup_slab_matrix(with_jumps=False)
         if not self.coupling_matrix_between_slices:
             self.setup_coupling_matrix_between_slices()
-- 
2.43.0


From d97a40b730e7057ff1f438f092cb87a92235ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 05/16] fix: coarse-grid set-up creates the linear form it
 needs

---
 src/dxss/space_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 4c6a5a0..758f551 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1396,6 +1396,8 @@ class SpaceTime:
             precond=False,
         )
 
+        if not self.SpaceTimeLfi:
+            self.setup_rhs()
         self.tmp1_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
         self.tmp2_fine = fem.petsc.create_vector(self.SpaceTimeLfi)
         self.tmp3_sol = fem.petsc.create_vector(self.SpaceTimeLfi)
-- 
2.43.0


From 7de21cb79a4f1682338a976664b25865e80e85c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 06/16] fix: matrix-free operator includes the initial-data
 terms of well-posed problems

---
 src/dxss/space_time.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 758f551..c23781f 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1168,6 +1168,22 @@ class SpaceTime:
                         self.dofmaps_full[j][shift_idx + ell]
                     ] += self.vec_slab2.array[self.dofmaps_pre[j][ell]]
 
+            if n == 0 and self.well_posed:
+                for j in range(2):
+                    self.vec_0_bnd_in.array[self.dofmaps_slab_bnd[j]] = vec_in.array[
+                        self.dofmaps_full[j][0]
+                    ]
+
+                self.scaled_mass_matrix_between_slices.mult(
+                    self.vec_0_bnd_in,
+                    self.vec_0_bnd_out,
+                )
+
+                for j in range(2):
+                    vec_out.array[self.dofmaps_full[j][0]] += self.vec_0_bnd_out.array[
+                        self.dofmaps_slab_bnd[j]
+                    ]
+
             if n > 0:
                 for j in range(2):
                     for i in range(2):
-- 
2.43.0


From dc01e4647cdb7d2afdd97595828389bab9ee57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 07/16] fix: error measurement does not overwrite the initial
 data

---
 src/dxss/space_time.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index c23781f..2557381 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1487,10 +1487,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
         ue = self.solution.v(self.T, self.x)
-        l2_error = fem.form(ufl.inner(self.u1_0 - ue, self.u1_0 - ue) * dx)
+        l2_error = fem.form(ufl.inner(u1_end - ue, u1_end - ue) * dx)
         error_local = fem.assemble_scalar(l2_error)
         error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
         print(f"t = {self.T}, L2-error = {error_l2_abs} ")
-- 
2.43.0


From 8adc8830cab093cfbca70e758fed7accff8b2bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 08/16] fix: ParaView export does not overwrite the initial
 data

---
 src/dxss/space_time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index 2557381..f143245 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1858,8 +1858,10 @@ class SpaceTime:
         self.uh.x.scatter_forward()
         u1_h, u2_h, z1_h, z2_h = self.uh.split()
 
-        self.u1_0.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
-        self.u2_0.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
+        u1_end = fem.Function(self.fes_u1_0)
+        u2_end = fem.Function(self.fes_u2_0)
+        u1_end.x.array[:] = u1_h.x.array[self.dofmaps_full[0][-1]]
+        u2_end.x.array[:] = u2_h.x.array[self.dofmaps_full[1][-1]]
 
         u_exact = fem.Function(self.fes_u1_0)
         u_diff = fem.Function(self.fes_u1_0)
@@ -1879,8 +1881,8 @@ class SpaceTime:
         )
         ut_exact.interpolate(ut_expr_exact)
 
-        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - self.u1_0.x.array[:])
-        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - self.u2_0.x.array[:])
+        u_diff.x.array[:] = np.abs(u_exact.x.array[:] - u1_end.x.array[:])
+        ut_diff.x.array[:] = np.abs(ut_exact.x.array[:] - u2_end.x.array[:])
         print(" u_diff.x.array =", u_diff.x.array)
 
         u_diff.name = "u-abserr"
-- 
2.43.0


From 694f92e22bee64349d5aeca2d123290de678e55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 09/16] fix: grid transfer uses the space of each field

---
 src/dxss/space_time.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dxss/space_time.py b/src/dxss/space_time.py
index f143245..c1664af 100644
--- a/src/dxss/space_time.py
+++ b/src/dxss/space_time.py
@@ -1404,8 +1404,12 @@ class SpaceTime:
             self.fes_coarse.sub(0).sub(0).collapse()
         )
         self.fes_node_fine, self.dofmap_node_fine = self.fes.sub(0).sub(0).collapse()
-        self.u_node_fine = fem.Function(self.fes_node_fine)
-        self.u_node_coarse = fem.Function(self.fes_node_coarse)
+        self.u_node_fine = [
+            fem.Function(self.fes.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
+        self.u_node_coarse = [
+            fem.Function(self.fes_coarse.sub(j).sub(0).collapse()[0]) for j in range(4)
+        ]
 
         self.SpaceTimeMatCoarse, self.SpaceTimeBfiCoarse = self.setup_spacetime_matrix(
             self.fes_coarse,
@@ -1435,13 +1439,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_coarse.x.array[:] = x_coarse.array[
+                    self.u_node_coarse[j].x.array[:] = x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
                     ]
-                    self.u_node_fine.interpolate(self.u_node_coarse)
+                    self.u_node_fine[j].interpolate(self.u_node_coarse[j])
                     x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
-                    ] = self.u_node_fine.x.array[:]
+                    ] = self.u_node_fine[j].x.array[:]
             int_idx_q += self.otime.q + 1
             int_idx_qstar += self.otime.qstar + 1
 
@@ -1452,13 +1456,13 @@ class SpaceTime:
             for j in range(4):
                 shift_idx = int_idx_q if j in [0, 1] else int_idx_qstar
                 for ell in range(self.subspace_time_order[j] + 1):
-                    self.u_node_fine.x.array[:] = x_fine.array[
+                    self.u_node_fine[j].x.array[:] = x_fine.array[
                         self.dofmaps_full[j][shift_idx + ell]
                     ]
-                    self.u_node_coarse.interpolate(self.u_node_fine)
+                    self.u_node_coarse[j].interpolate(self.u_node_fine[j])
                     x_coarse.array[
                         self.dofmaps_full_coarse[j][shift_idx + ell]
-                    ] = self.u_node_coarse.x.array[:]
+                    ] = self.u_node_coarse[j].x.array[:]
             int_idx_qstar += self.otime.qstar + 1
             int_idx_q += self.otime.q + 1
 
-- 
2.43.0


From d345166b9bc265fe49fa1d1684395c36da471bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 10/16] fix: mesh generators reject non-sequential node
 numbers, not sequential ones

---
 src/dxss/meshes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index dd74037..fd3ae43 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -491,7 +491,7 @@ def get_mesh_inclusion(h_init=1.25, order=2):  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -623,7 +623,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
@@ -728,7 +728,7 @@ def get_mesh_bottom_data(h_init=1.25, eta=0.6):
     points = ls_points_2d.reshape(-1, 2)
     idx -= 1
     srt = np.argsort(idx)
-    if np.all(idx[srt] == np.arange(len(idx))):
+    if not np.all(idx[srt] == np.arange(len(idx))):
         msg = "idx not sequential"
         raise RuntimeError(msg)  # TODO: check
     x = points[srt]
-- 
2.43.0


From 912478cc0fee0baec5fa21ad72fa607f288822d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 11/16] fix: get_mesh_inclusion_square passes the UFL mesh
 directly instead of an undefined function

---
 src/dxss/meshes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index fd3ae43..5782d57 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -650,9 +650,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
         MPI.COMM_WORLD,
         cells,
         x,
-        ufl_mesh_from_gmsh(  # noqa: F821
-            gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
-        ),  # TODO: this function is undefined!! (old dolfinx api?)
+        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
     )
 
     with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
-- 
2.43.0


From b8c51ce4060ba3f7b80ae107fef81945e4dfca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 12/16] fix: every process that starts a gmsh session ends it

---
 src/dxss/meshes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index 5782d57..bec8f5d 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -78,7 +78,7 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -382,7 +382,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
         gmsh.model.mesh.generate(2)
         gmsh.write("mesh.msh")
-        gmsh.finalize()
+    gmsh.finalize()
 
     import meshio
 
@@ -917,6 +917,7 @@ def get_3d_mesh_data_all_around(n_ref, init_h_scale=1.0):
         gmsh_model_rank,
         gdim=gdim,
     )
+    gmsh.finalize()
 
     mesh_hierarchy = []
     mesh_hierarchy.append(mesh)
-- 
2.43.0


From c4324fb5fa919193c83a4a4c1f2b7e7917cbb965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 13/16] fix: wait for the mesh files before reading them on all
 processes

---
 src/dxss/meshes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index bec8f5d..d4ef69b 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -101,6 +101,8 @@ def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # All processes read these files
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -203,6 +205,8 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # All processes read these files
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -295,6 +299,8 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # All processes read these files
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
     with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
@@ -405,6 +411,8 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # All processes read these files
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
@@ -831,6 +839,8 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
         line_mesh = create_mesh(msh, "line", prune_z=True)
         meshio.write("mesh.xdmf", triangle_mesh)
         meshio.write("mt.xdmf", line_mesh)
+    # All processes read these files
+    MPI.COMM_WORLD.barrier()
 
     # for i in range(n_ref):
 
-- 
2.43.0


From 594c110f48cf8cd3d732546a41aa8fa71e458f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 14/16] fix: all mesh hierarchies use the
 compute_incident_entities signature of the installed dolfinx

---
 src/dxss/meshes.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index d4ef69b..f93f855 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -19,6 +19,17 @@ GM = GhostMode.shared_facet
 eta = 0.6
 
 
+def incident_edges(mesh, cells):
+    # Call signature for compute_incident_entities changed to accept mesh topology
+    # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
+    # installed version
+    if Version(version("fenics-dolfinx")) < Version("0.7"):
+        mesh_or_topology = mesh
+    else:
+        mesh_or_topology = mesh.topology
+    return compute_incident_entities(mesh_or_topology, cells, 2, 1)
+
+
 def create_initial_mesh_convex(init_h_scale=1.0):  # noqa: PLR0915
     # TODO: Need to understand why there is a an import and subfunction here.
     # Looks like create_mesh could be global level. The following functions have
@@ -227,7 +238,7 @@ def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = incident_edges(mesh, cells)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
@@ -319,7 +330,7 @@ def get_mesh_hierarchy_nonconvex(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = incident_edges(mesh, cells)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -432,7 +443,7 @@ def get_mesh_hierarchy_fitted_disc(n_ref, eta, h_init=1.25):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        edges = compute_incident_entities(mesh, cells, 2, 1)
+        edges = incident_edges(mesh, cells)
         print(edges)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
@@ -861,14 +872,7 @@ def get_mesh_data_all_around(n_ref, init_h_scale=1.0):  # noqa: PLR0915
     for _i in range(n_ref):
         mesh.topology.create_entities(1)
         cells = locate_entities(mesh, mesh.topology.dim, refine_all)
-        # Call signature for compute_incident_entities changed to accept mesh topology
-        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
-        # installed version
-        if Version(version("fenics-dolfinx")) < Version("0.7"):
-            mesh_or_topology = mesh
-        else:
-            mesh_or_topology = mesh.topology
-        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
+        edges = incident_edges(mesh, cells)
         mesh = refine(mesh, edges, redistribute=True)
         mesh_hierarchy.append(mesh)
     return mesh_hierarchy
-- 
2.43.0


From 8bc0c3480aee4c7cffb49a8377b7c05a708eb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 15/16] fix: direct space-time solve passes right-hand side and
 solution in the order KSP.solve expects

---
 src/dxss/solve_1d.py | 2 +-
 src/dxss/solve_2d.py | 2 +-
 src/dxss/solve_3d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dxss/solve_1d.py b/src/dxss/solve_1d.py
index 1a0309e..848c8c6 100644
--- a/src/dxss/solve_1d.py
+++ b/src/dxss/solve_1d.py
@@ -170,7 +170,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_2d.py b/src/dxss/solve_2d.py
index 292d46b..e26db7f 100644
--- a/src/dxss/solve_2d.py
+++ b/src/dxss/solve_2d.py
@@ -172,7 +172,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
diff --git a/src/dxss/solve_3d.py b/src/dxss/solve_3d.py
index 9f36f60..9fcb1c9 100644
--- a/src/dxss/solve_3d.py
+++ b/src/dxss/solve_3d.py
@@ -237,7 +237,7 @@ def solve_problem(measure_errors=False):
         A_space_time = ST.get_spacetime_matrix()  # noqa: N806
         u_sol, _ = A_space_time.createVecs()
         solver_space_time = get_lu_solver(ST.msh, A_space_time)
-        solver_space_time.solve(u_sol, b_rhs)
+        solver_space_time.solve(b_rhs, u_sol)
 
     end = time.time()
     print("elapsed time  " + str(end - start) + " seconds")
-- 
2.43.0


From a6da46e6013194e5b56a1ff03623f3970c52cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 16/16] fix: get_mesh_inclusion_square leaves out the empty
 part of the target for its default interface

---
 src/dxss/meshes.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dxss/meshes.py b/src/dxss/meshes.py
index f93f855..ce2a9f2 100644
--- a/src/dxss/meshes.py
+++ b/src/dxss/meshes.py
@@ -574,13 +574,11 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 x_r - x_l,
                 eta - y_l,
             )
-            target_dom_plus = gmsh.model.occ.addRectangle(
-                x_l,
-                eta,
-                0,
-                x_r - x_l,
-                y_r - eta,
-            )
+            # The part of the target above the interface is empty if eta == y_r
+            target_dom_plus = []
+            if eta < y_r:
+                tag = gmsh.model.occ.addRectangle(x_l, eta, 0, x_r - x_l, y_r - eta)
+                target_dom_plus.append((2, tag))
             mu_inner = gmsh.model.occ.addRectangle(-0.75, -0.75, 0, 1.5, 1.5)
             remainder_top = gmsh.model.occ.addRectangle(-1.5, eta, 0, 3.0, 1.5 - eta)
             gmsh.model.occ.synchronize()
@@ -589,7 +587,7 @@ def get_mesh_inclusion_square(  # noqa: PLR0915
                 [
                     (2, target_dom_minus),
                     (2, mu_inner),
-                    (2, target_dom_plus),
+                    *target_dom_plus,
                     (2, remainder_top),
                 ],
             )
-- 
2.43.0

