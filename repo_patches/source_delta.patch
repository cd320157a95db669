From fcdedf2aef40810b0755baafa0a9ed133847c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 01/13] fix: jax_solver with precond=False passes no
 preconditioner

The conditional bound to the lambda body, so bicgstab was handed a
preconditioner returning None and the solve crashed.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..176d44f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From dd335924ea1566d99d391236676b5bc37cbdb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 02/13] fix: count_selected_faces works on the JAX arrays Mesh
 stores

numpy.take on a jax.Array asks for mode='raise', which jax rejects, so
every call raised NotImplementedError.
---
 jax_fem/generate_mesh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..f53a174 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,14 +40,14 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
-        cell_face_points = onp.take(cell_points, face_inds, axis=1)
+        cell_points = np.take(self.points, self.cells, axis=0)
+        cell_face_points = np.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
         def on_boundary(cell_points):
             boundary_flag = vmap_location_fn(cell_points)
-            return onp.all(boundary_flag)
+            return np.all(boundary_flag)
 
         vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
         boundary_flags = vvmap_on_boundary(cell_face_points)
-- 
2.43.0


From e8dbccbb252145084f752628d83b9c13bad2b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 03/13] fix: MMA filter handles JAX mesh arrays and fewer than
 20 flexible cells

numpy.take on a jax.Array raises, so compute_filter_kd_tree (hence
optimize) always crashed; and asking the k-d tree for 20 neighbours when
fewer cells exist returns an out-of-range index.
---
 jax_fem/mma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..003fa6f 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.asarray(fe.points)[np.asarray(fe.cells)], axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
@@ -43,8 +43,8 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], range(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 94e11eb794ac219c97136650f2729ac0a3418a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 04/13] fix: line search supports multipoint constraints

With P_mat the Newton unknowns are the reduced dofs; line_search fed them
to the full residual and crashed (or measured the wrong residual).
---
 jax_fem/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 176d44f..0dbed9f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -430,7 +430,10 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        if hasattr(problem, 'P_mat'):
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ (dofs + alpha*inc))
+        else:
+            res_vec = res_fn(dofs + alpha*inc)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From 357e7a98e1731f0447de97c53b55c1bba4018f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 05/13] fix: linear_solver does not write the default backend
 into caller's options

The default was inserted into the caller's dict (or the shared default
argument), so a backend chosen later in the same dict was ignored.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 0dbed9f..1fc51dd 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}}
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From bb072fa7eb4321c593d1d6fc045f499da591d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 06/13] fix: walltime works with jax releases without
 jax.lib.xla_bridge

The wrapped function ran and then its result was lost to AttributeError.
---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..222e202 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -186,7 +186,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From 76837d18d27f222be2abf0b0655b48a4bcb1fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 07/13] fix: save_sol accepts a file name without a directory

os.makedirs('') raises FileNotFoundError.
---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 222e202..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 5abe3d46f7e79d0b20f10a26e762191dba5390be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 08/13] fix: dynamic relaxation assembles the matrix of all
 variables

assembleCSR sized the matrix by the first variable only, so coupled
problems raised 'row index exceeds matrix dimensions'.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 1fc51dd..a821e32 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -879,7 +879,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From c3bc61bdbebde4dd98b6481f00a2db5e6d257c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 09/13] fix: QUAD8 and HEX20 shape functions are nodal

Basix serendipity edge dofs are moments, so the mid-edge dofs were not
field values: prescribed boundary values, initial guesses and output at
mid-edge nodes described another field, and mid-side node positions
distorted curved cells.
---
 jax_fem/basis.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..b5f7ac1 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -138,6 +138,21 @@ def _normalize_quadrature_rule(rule):
     )
 
 
+def tabulate_nodal(element, basix_ele, degree, points):
+    """Tabulate the shape functions (and first derivatives) whose dofs are nodal values.
+
+    Basix defines the edge dofs of serendipity elements as moments, so its basis is not
+    nodal at the mid-edge nodes and has to be transformed.
+    """
+    vals_and_grads = element.tabulate(1, points)
+    if element.family == basix.ElementFamily.serendipity:
+        # Lagrange points are ordered as (vertices, edges, ...), like the serendipity dofs
+        nodes = basix.create_element(basix.ElementFamily.P, basix_ele, degree).points[:element.dim]
+        vandermonde = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqai,ab->dqbi', vals_and_grads, onp.linalg.inv(vandermonde))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=None):
     """Use `basix <https://github.com/FEniCS/basix>`_ to get shape function values and gradients for elements.
 
@@ -168,7 +183,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -242,7 +257,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
     element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal(element, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0


From cbfa09f8fb3b27586a03d90ee07641cda8fcfb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 10/13] fix: implicit_vjp leaves the problem with concrete
 parameters

---
 jax_fem/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index a821e32..051e406 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1416,6 +1416,8 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
 
     vjp_linear_fn = get_vjp_contraint_fn_params(params, sol_list)
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
+    # set_params was traced inside jax.vjp: put the concrete parameters back.
+    problem.set_params(params)
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
     return vjp_result
-- 
2.43.0


From f6ee113d1e24a6ff1c38e9b5b891b47c61017b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:15 +0000
Subject: [PATCH 11/13] fix: save_sol rejects a solution whose rows do not
 match the mesh nodes

---
 jax_fem/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 90bd0a9..c2ec7c7 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -39,6 +39,7 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
             point_infos = [('T', T_point_data)]
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
+    assert len(sol) == len(fe.points), f"solution wrong shape, get {len(sol)} rows, while the mesh has {len(fe.points)} nodes"
     sol_dir = os.path.dirname(sol_file)
     if sol_dir:
         os.makedirs(sol_dir, exist_ok=True)
-- 
2.43.0


From 1e071b8c76530c1368105a68df7708dd0db5b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 12/13] fix: derivative of spectral functions at eigenvalues
 that are equal up to round-off

---
 applications/phase_field_fracture/eigen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/applications/phase_field_fracture/eigen.py b/applications/phase_field_fracture/eigen.py
index 36a3ba3..c988f3f 100644
--- a/applications/phase_field_fracture/eigen.py
+++ b/applications/phase_field_fracture/eigen.py
@@ -59,7 +59,9 @@ def get_eigen_f_custom(fn):
         diff_fvals = fvals[:, None] - fvals[None, :]
         diff_grads = grads[:, None]
 
-        theta = np.where(diff_evals == 0., diff_grads, diff_fvals/diff_evals)
+        # Eigenvalues that differ by round-off only are repeated ones: their divided difference is noise.
+        repeated = np.abs(diff_evals) <= 1e-8*np.max(np.abs(evals))
+        theta = np.where(repeated, diff_grads, diff_fvals/diff_evals)
 
         tmp = G * theta[:, :, None, None, None, None]
         tmp1 = np.sum(tmp, axis=(0, 1))
-- 
2.43.0


From 4c8dd898388c3748242b12b31f1c55559348f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 13/13] fix: latent heat of the noise term in the explicit
 dendrite solver

---
 applications/dendrite/explicit_fem/example.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dendrite/explicit_fem/example.py b/applications/dendrite/explicit_fem/example.py
index a248dd8..a4e363e 100644
--- a/applications/dendrite/explicit_fem/example.py
+++ b/applications/dendrite/explicit_fem/example.py
@@ -180,7 +180,8 @@ class SolidificationForce(Problem):
             tau = self.params['tau']
             val71 = np.sum(tmp1[:, None, :, :] * cell_v_grads_JxW_T, axis=(0, -1))
             val72 = np.sum(tmp2[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
-            val7 = K / tau * (val71 + val72)
+            val74 = np.sum(tmp4[:, None, None] * self.fe_T.shape_vals[:, :, None] * cell_JxW_T[:, None, None], axis=0)
+            val7 = K / tau * (val71 + val72 + val74)
 
             weak_form = [val1 + val2 + val4, val5 + val7] # [(num_nodes_p, vec_p), (num_nodes_T, vec_T)]
 
-- 
2.43.0

