edit('fe_einsum', 'C01 C02 C03 C22', [
 (FE, '''        jacobian_dx_deta = np.sum(physical_coos[:, None, :, :, None] *
                                   self.shape_grads_ref[None, :, :, None, :], axis=2, keepdims=True)
        jacobian_det = np.linalg.det(jacobian_dx_deta)[:, :, 0]  # (num_cells, num_quads)
        jacobian_deta_dx = np.linalg.inv(jacobian_dx_deta)
''', '''        jacobian_dx_deta = np.einsum('cnd,qne->cqde', physical_coos, self.shape_grads_ref)
        jacobian_det = np.linalg.det(jacobian_dx_deta)  # (num_cells, num_quads)
        jacobian_deta_dx = np.linalg.inv(jacobian_dx_deta)
'''),
 (FE, '''        shape_grads_physical = (self.shape_grads_ref[None, :, :, None, :]
                                @ jacobian_deta_dx)[:, :, :, 0, :]
''', '''        shape_grads_physical = np.einsum('qne,cqed->cqnd', self.shape_grads_ref, jacobian_deta_dx)
'''),
 (FE, '''        nanson_scale = np.linalg.norm((selected_f_normals[:, None, None, :] @ jacobian_deta_dx)[:, :, 0, :], axis=-1)
''', '''        scaled_normals = np.einsum('fe,fqed->fqd', selected_f_normals, jacobian_deta_dx)
        nanson_scale = np.sqrt(np.sum(scaled_normals**2, axis=-1))
'''),
 (FE, '''        physical_quad_points = np.sum(self.shape_vals[None, :, :, None] * physical_coos[:, None, :, :], axis=2)
''', '''        physical_quad_points = np.einsum('qn,cnd->cqd', self.shape_vals, physical_coos)
'''),
 (FE, '''        u = np.sum(cells_sol[:, None, :, :] * self.shape_vals[None, :, :, None], axis=2)
''', '''        u = np.matmul(self.shape_vals, cells_sol)
'''),
 (FE, '''        u = np.sum(selected_cell_sols[:, None, :, :] * selected_face_shape_vals[:, :, :, None], axis=2)
''', '''        u = selected_face_shape_vals @ selected_cell_sols
'''),
 (FE, '''        u_grads = np.take(sol, self.cells, axis=0)[:, None, :, :, None] * self.shape_grads[:, :, :, None, :]
        u_grads = np.sum(u_grads, axis=2)  # (num_cells, num_quads, vec, dim)
''', '''        u_grads = np.einsum('cnv,cqnd->cqvd', sol[self.cells], self.shape_grads)
''')])

edit('fe_bc_helper', 'C06 C07 C08 C09', [
 (FE, '''    def Dirichlet_boundary_conditions(self,''', '''    @staticmethod
    def _as_two_argument_fn(fn):
        num_args = fn.__code__.co_argcount
        if num_args not in (1, 2):
            raise ValueError(f"Wrong number of arguments for location_fn: must be 1 or 2, get {num_args}")
        return fn if num_args == 2 else (lambda point, ind: fn(point))

    def Dirichlet_boundary_conditions(self,'''),
 (FE, '''            for i in range(len(location_fns)):
                num_args = location_fns[i].__code__.co_argcount
                if num_args == 1:
                    location_fn = lambda point, ind: location_fns[i](point)
                elif num_args == 2:
                    location_fn = location_fns[i]
                else:
                    raise ValueError(f"Wrong number of arguments for location_fn: must be 1 or 2, get {num_args}")

                node_inds = np.argwhere(jax.vmap(location_fn)(self.points, np.arange(self.num_total_nodes))).reshape(-1)
                vec_inds = np.ones_like(node_inds, dtype=np.int32) * vecs[i]
                values = jax.vmap(value_fns[i])(self.points[node_inds].reshape(-1, self.dim)).reshape(-1)
''', '''            all_inds = np.arange(self.num_total_nodes)
            for fn, vec, value_fn in zip(location_fns, vecs, value_fns):
                location_fn = self._as_two_argument_fn(fn)
                flags = jax.vmap(location_fn)(self.points, all_inds)
                node_inds = np.flatnonzero(flags)
                vec_inds = np.full_like(node_inds, vec, dtype=np.int32)
                values = jax.vmap(value_fn)(np.take(self.points, node_inds, axis=0)).reshape(-1)
'''),
 (FE, '''            for i in range(len(location_fns)):
                num_args = location_fns[i].__code__.co_argcount
                if num_args == 1:
                    location_fn = lambda point, ind: location_fns[i](point)
                elif num_args == 2:
                    location_fn = location_fns[i]
                else:
                    raise ValueError(f"Wrong number of arguments for location_fn: must be 1 or 2, get {num_args}")

                vmap_location_fn = jax.vmap(location_fn)
                def on_boundary(cell_points, cell_inds):
                    boundary_flag = vmap_location_fn(cell_points, cell_inds)
                    return np.all(boundary_flag)

                vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
                boundary_flags = vvmap_on_boundary(cell_face_points, cell_face_inds)
                boundary_inds = np.argwhere(boundary_flags)  # (num_selected_faces, 2)
''', '''            for fn in location_fns:
                location_fn = self._as_two_argument_fn(fn)
                vertex_flags = jax.vmap(jax.vmap(jax.vmap(location_fn)))(cell_face_points, cell_face_inds)
                boundary_flags = vertex_flags.all(axis=-1)
                boundary_inds = np.stack(np.nonzero(boundary_flags), axis=1)  # (num_selected_faces, 2)
''')])

edit('problem_cells', 'C03 C04 C05 C22 C13', [
 (PR, '''        if jac_flag:
            values = []
            jacs = []
            for i in range(num_cuts):
                if i < num_cuts - 1:
                    input_col = jax.tree_util.tree_map(lambda x: x[i * batch_size:(i + 1) * batch_size], input_collection)
                else:
                    input_col = jax.tree_util.tree_map(lambda x: x[i * batch_size:], input_collection)

                val, jac = vmap_fn(*input_col)
                values.append(val)
                jacs.append(jac)
            values = np_version.vstack(values)
            jacs = np_version.vstack(jacs)

            return values, jacs
        else:
            values = []
            for i in range(num_cuts):
                if i < num_cuts - 1:
                    input_col = jax.tree_util.tree_map(lambda x: x[i * batch_size:(i + 1) * batch_size], input_collection)
                else:
                    input_col = jax.tree_util.tree_map(lambda x: x[i * batch_size:], input_collection)

                val = vmap_fn(*input_col)
                values.append(val)
            values = np_version.vstack(values)
            return values
''', '''        bounds = [i * batch_size for i in range(num_cuts)] + [self.num_cells]
        outputs = []
        for start, stop in zip(bounds[:-1], bounds[1:]):
            input_col = jax.tree_util.tree_map(lambda x: x[start:stop], input_collection)
            outputs.append(vmap_fn(*input_col))

        if jac_flag:
            vals, jacs = zip(*outputs)
            return np_version.concatenate(vals), np_version.concatenate(jacs)
        return np_version.concatenate(outputs)
'''),
 (PR, '''        if jac_flag:
            values = []
            jacs = []
            for i, boundary_inds in enumerate(self.boundary_inds_list):
                vmap_fn = self.kernel_jac_face[i]
                selected_cell_sols_flat = cells_sol_flat[boundary_inds[:, 0]]  # (num_selected_faces, num_nodes*vec + ...))
                input_collection = [selected_cell_sols_flat, self.physical_surface_quad_points[i], self.selected_face_shape_vals[i], 
                                    self.selected_face_shape_grads[i], self.nanson_scale[i], *internal_vars_surfaces[i]]

                val, jac = vmap_fn(*input_collection)
                values.append(val)
                jacs.append(jac)
            return values, jacs
        else:
            values = []
            for i, boundary_inds in enumerate(self.boundary_inds_list):
                vmap_fn = self.kernel_face[i]
                selected_cell_sols_flat = cells_sol_flat[boundary_inds[:, 0]]  # (num_selected_faces, num_nodes*vec + ...))
                # TODO: duplicated code
                input_collection = [selected_cell_sols_flat, self.physical_surface_quad_points[i], self.selected_face_shape_vals[i], 
                                    self.selected_face_shape_grads[i], self.nanson_scale[i], *internal_vars_surfaces[i]]
                val = vmap_fn(*input_collection)
                values.append(val)
            return values
''', '''        fns = self.kernel_jac_face if jac_flag else self.kernel_face
        outputs = []
        for i, (vmap_fn, boundary_inds) in enumerate(zip(fns, self.boundary_inds_list)):
            selected_cell_sols_flat = np.take(cells_sol_flat, boundary_inds[:, 0], axis=0)
            outputs.append(vmap_fn(selected_cell_sols_flat, self.physical_surface_quad_points[i], self.selected_face_shape_vals[i],
                                   self.selected_face_shape_grads[i], self.nanson_scale[i], *internal_vars_surfaces[i]))
        if jac_flag:
            return [o[0] for o in outputs], [o[1] for o in outputs]
        return outputs
'''),
 (PR, '''        res_list = [res_list[i].at[self.cells_list[i].reshape(-1)].add(weak_form_list[i].reshape(-1, 
            self.fes[i].vec)) for i in range(self.num_vars)]
''', '''        for i in range(self.num_vars):
            contributions = weak_form_list[i].reshape(-1, self.fes[i].vec)
            res_list[i] = res_list[i] + jax.ops.segment_sum(contributions, self.cells_list[i].reshape(-1), num_segments=self.fes[i].num_total_nodes)
'''),
 (PR, '''            u_grads = cell_sol[None, :, :, None] * cell_shape_grads[:, :, None, :]
            u_grads = np.sum(u_grads, axis=1)  # (num_quads, vec, dim)
            u_grads_reshape = u_grads.reshape(-1, vec, self.dim)  # (num_quads, vec, dim)
            # (num_quads, vec, dim)
            u_physics = jax.vmap(tensor_map)(u_grads_reshape, *cell_internal_vars).reshape(u_grads.shape)
            # (num_quads, num_nodes, vec, dim) -> (num_nodes, vec)
            val = np.sum(u_physics[:, None, :, :] * cell_v_grads_JxW, axis=(0, -1))
            val = jax.flatten_util.ravel_pytree(val)[0] # (num_nodes*vec + ...,)
            return val
''', '''            u_grads = np.einsum('nv,qnd->qvd', cell_sol, cell_shape_grads)  # (num_quads, vec, dim)
            u_physics = jax.vmap(tensor_map)(u_grads, *cell_internal_vars).reshape(u_grads.shape)
            val = np.einsum('qvd,qnd->nv', u_physics, cell_v_grads_JxW[:, :, 0, :])
            return val.reshape(-1)
'''),
 (PR, '''            y, jac = jax.vmap(pushfwd, out_axes=(None, -1))((basis, ))
            return y, jac
''', '''            return jax.vmap(pushfwd, out_axes=(None, -1))((basis, ))
'''),
 (PR, '''        self.V = onp.array(cells_jac_flat.reshape(-1))
''', '''        blocks = [onp.asarray(cells_jac_flat).ravel()]
'''),
 (PR, '''            self.V = onp.hstack((self.V, onp.array(cells_jac_f_flat.reshape(-1))))
''', '''            blocks.append(onp.asarray(cells_jac_f_flat).ravel())
        self.V = onp.concatenate(blocks)
'''),
])

edit('problem_inds', 'C03 C04 C08 C09 C16', [
 (PR, '''        inds = onp.array(jax.vmap(find_ind)(*self.cells_list))
        self.I = onp.repeat(inds[:, :, None], inds.shape[1], axis=2).reshape(-1)
        self.J = onp.repeat(inds[:, None, :], inds.shape[1], axis=1).reshape(-1)
''', '''        def pairs(inds):
            n = inds.shape[1]
            shape = (len(inds), n, n)
            return onp.broadcast_to(inds[:, :, None], shape).ravel(), onp.broadcast_to(inds[:, None, :], shape).ravel()

        I_parts, J_parts = zip(pairs(onp.array(jax.vmap(find_ind)(*self.cells_list))))
'''),
 (PR, '''            I_face = onp.repeat(inds_face[:, :, None], inds_face.shape[1], axis=2).reshape(-1)
            J_face = onp.repeat(inds_face[:, None, :], inds_face.shape[1], axis=1).reshape(-1)
            self.I = onp.hstack((self.I, I_face))
            self.J = onp.hstack((self.J, J_face))
            self.cells_list_face_list.append(cells_list_face)
''', '''            I_face, J_face = pairs(inds_face)
            I_parts += (I_face,)
            J_parts += (J_face,)
            self.cells_list_face_list.append(cells_list_face)
        self.I = onp.concatenate(I_parts)
        self.J = onp.concatenate(J_parts)
'''),
 (PR, '''        for i in range(len(self.fes) - 1):
            self.offset.append(self.offset[i] + self.fes[i].num_total_dofs)
''', '''        for fe in self.fes[:-1]:
            self.offset.append(self.offset[-1] + fe.num_total_dofs)
''')])

edit('solver_bc', 'C08 C09 C10 C11 C15 C16', [
 (SO, '''            res = (res.at[fe.node_inds_list[i], fe.vec_inds_list[i]].set(
                sol[fe.node_inds_list[i], fe.vec_inds_list[i]], unique_indices=True))
            res = res.at[fe.node_inds_list[i], fe.vec_inds_list[i]].add(-fe.vals_list[i]*scale)
''', '''            idx = (fe.node_inds_list[i], fe.vec_inds_list[i])
            res = res.at[idx].set(sol[idx] - scale * fe.vals_list[i])
'''),
 (SO, '''def assign_bc(dofs, problem):
    sol_list = problem.unflatten_fn_sol_list(dofs)
    for ind, fe in enumerate(problem.fes):
        sol = sol_list[ind]
        for i in range(len(fe.node_inds_list)):
            sol = sol.at[fe.node_inds_list[i],
                         fe.vec_inds_list[i]].set(fe.vals_list[i])
        sol_list[ind] = sol
    return jax.flatten_util.ravel_pytree(sol_list)[0]


def assign_ones_bc(dofs, problem):
    sol_list = problem.unflatten_fn_sol_list(dofs)
    for ind, fe in enumerate(problem.fes):
        sol = sol_list[ind]
        for i in range(len(fe.node_inds_list)):
            sol = sol.at[fe.node_inds_list[i],
                         fe.vec_inds_list[i]].set(1.)
        sol_list[ind] = sol
    return jax.flatten_util.ravel_pytree(sol_list)[0]


def assign_zeros_bc(dofs, problem):
    sol_list = problem.unflatten_fn_sol_list(dofs)
    for ind, fe in enumerate(problem.fes):
        sol = sol_list[ind]
        for i in range(len(fe.node_inds_list)):
            sol = sol.at[fe.node_inds_list[i],
                         fe.vec_inds_list[i]].set(0.)
        sol_list[ind] = sol
    return jax.flatten_util.ravel_pytree(sol_list)[0]
''', '''def _assign(dofs, problem, value_fn):
    sol_list = problem.unflatten_fn_sol_list(dofs)
    new_sol_list = []
    for fe, sol in zip(problem.fes, sol_list):
        for node_inds, vec_inds, vals in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
            sol = sol.at[node_inds, vec_inds].set(value_fn(vals))
        new_sol_list.append(sol)
    return jax.flatten_util.ravel_pytree(new_sol_list)[0]


def assign_bc(dofs, problem):
    return _assign(dofs, problem, lambda vals: vals)


def assign_ones_bc(dofs, problem):
    return _assign(dofs, problem, lambda vals: 1.)


def assign_zeros_bc(dofs, problem):
    return _assign(dofs, problem, lambda vals: 0.)
'''),
 (SO, '''                row_inds = onp.asarray(
                    fe.node_inds_list[i] * fe.vec
                    + fe.vec_inds_list[i]
                    + problem.offset[ind],
                    dtype=PETSc.IntType,
                )
                self.bc_row_inds_list.append(row_inds)
''', '''                row_inds = problem.offset[ind] + fe.vec * onp.asarray(fe.node_inds_list[i]) + onp.asarray(fe.vec_inds_list[i])
                self.bc_row_inds_list.append(row_inds.astype(PETSc.IntType))
'''),
 (SO, '''        for row_inds in self.bc_row_inds_list:
            self.mat.zeroRows(row_inds)
''', '''        if len(self.bc_row_inds_list) > 0:
            self.mat.zeroRows(onp.concatenate(self.bc_row_inds_list))
'''),
])

edit('solver_newton', 'C10 C11 C12 C13 C14 C17', [
 (SO, '''    while (rel_res_val > rel_tol) and (res_val > tol):
        n_iters += 1
''', '''    def is_converged(res_val, rel_res_val):
        return not (rel_res_val > rel_tol and res_val > tol)

    while not is_converged(res_val, rel_res_val):
        n_iters += 1
'''),
 (SO, '''    alpha = 1.
    res_norm = res_norm_fn(alpha)
    for i in range(3):
        alpha *= 0.5
        res_norm_half = res_norm_fn(alpha)
''', '''    alpha = 1.
    res_norm = res_norm_fn(1.)
    for i in range(3):
        alpha = alpha / 2.
        res_norm_half = res_norm_fn(alpha)
'''),
 (SO, '''        return np.linalg.norm(res_vec)

    # grad''', '''        return np.sqrt(np.sum(res_vec**2))

    # grad'''),
 (SO, '''    err = np.linalg.norm(A @ x - b)
    logger''', '''    residual = b - A @ x
    err = np.sqrt(np.dot(residual, residual))
    logger'''),
 (SO, '''    if 'jax_solver' in linear_options:
        precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
        x = jax_solve(A, b, x0, precond)
''', '''    if 'jax_solver' in linear_options:
        x = jax_solve(A, b, x0, linear_options['jax_solver'].get('precond', True))
'''),
 (SO, '''        ksp_type = linear_options['petsc_solver']['ksp_type'] if 'ksp_type' in linear_options['petsc_solver'] else 'bcgsl'
        pc_type = linear_options['petsc_solver']['pc_type'] if 'pc_type' in linear_options['petsc_solver'] else 'ilu'
        x = petsc_solve(A, b, ksp_type, pc_type)
''', '''        petsc_options = {'ksp_type': 'bcgsl', 'pc_type': 'ilu', **linear_options['petsc_solver']}
        x = petsc_solve(A, b, petsc_options['ksp_type'], petsc_options['pc_type'])
'''),
 (SO, '''    rhs = PETSc.Vec().createSeq(len(b))
    rhs.setValues(range(len(b)), onp.array(b))
''', '''    rhs = PETSc.Vec().createWithArray(onp.array(b))
'''),
 (SO, '''    y = PETSc.Vec().createSeq(len(b))
    A.mult(x, y)

    err = np.linalg.norm(y.getArray() - rhs.getArray())
''', '''    y = A.createVecLeft()
    A.mult(x, y)
    y.axpy(-1., rhs)
    err = y.norm()
'''),
 (SO, '''    vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)

    return vjp_result
''', '''    return jax.tree.map(np.negative, vjp_result)
'''),
 (SO, '''    linear = {k: opts[k] for k in _LINEAR_OPTION_KEYS if k in opts}
''', '''    linear = {k: v for k, v in opts.items() if k in _LINEAR_OPTION_KEYS}
''') if False else (SO, '''        linear = {k: opts[k] for k in _LINEAR_OPTION_KEYS if k in opts}
''', '''        linear = {k: v for k, v in opts.items() if k in _LINEAR_OPTION_KEYS}
'''),
])

edit('arc_helper', 'C15 C17', [
 (SO, '''        a1 = np.sum(delta_u_t**2.) + psi**2. * np.sum(u_b**2.)
        a2 = (2. * np.sum((Delta_u_vec + delta_u_bar) * delta_u_t)
              + 2. * psi**2. * Delta_lamda * np.sum(u_b**2.))
        a3 = (np.sum((Delta_u_vec + delta_u_bar)**2.)
              + psi**2. * Delta_lamda**2. * np.sum(u_b**2.) - Delta_l**2.)

        delta_lamda1 = (-a2 + np.sqrt(a2**2. - 4. * a1 * a3)) / (2. * a1)
        delta_lamda2 = (-a2 - np.sqrt(a2**2. - 4. * a1 * a3)) / (2. * a1)
''', '''        ref = psi**2 * np.dot(u_b, u_b)
        total = Delta_u_vec + delta_u_bar
        a1 = np.dot(delta_u_t, delta_u_t) + ref
        a2 = 2. * (np.dot(total, delta_u_t) + Delta_lamda * ref)
        a3 = np.dot(total, total) + ref * Delta_lamda**2 - Delta_l**2
        root = np.sqrt(a2 * a2 - 4. * a1 * a3)
        delta_lamda1 = 0.5 * (root - a2) / a1
        delta_lamda2 = -0.5 * (a2 + root) / a1
'''),
 (SO, '''        a1 = np.sum(delta_u_t**2.) + psi**2. * np.sum(q_aux_mapped**2.)
        a2 = (2. * np.sum((Delta_u_vec + delta_u_bar) * delta_u_t)
              + 2. * psi**2. * Delta_lamda * np.sum(q_aux_mapped**2.))
        a3 = (np.sum((Delta_u_vec + delta_u_bar)**2.)
              + psi**2. * Delta_lamda**2. * np.sum(q_aux_mapped**2.) - Delta_l**2.)

        delta_lamda1 = (-a2 + np.sqrt(a2**2. - 4. * a1 * a3)) / (2. * a1)
        delta_lamda2 = (-a2 - np.sqrt(a2**2. - 4. * a1 * a3)) / (2. * a1)
''', '''        coeffs = _arc_quadratic(Delta_u_vec + delta_u_bar, delta_u_t, Delta_lamda, psi**2. * np.sum(q_aux_mapped**2.), Delta_l)
        a1, a2, a3 = coeffs
        discriminant = a2**2. - 4. * a1 * a3
        delta_lamda1 = (-a2 + np.sqrt(discriminant)) / (2. * a1)
        delta_lamda2 = (-a2 - np.sqrt(discriminant)) / (2. * a1)
'''),
 (SO, '''def get_q_vec(problem):''', '''def _arc_quadratic(total, direction, Delta_lamda, ref, Delta_l):
    a1 = np.sum(direction**2.) + ref
    a2 = 2. * np.sum(total * direction) + 2. * Delta_lamda * ref
    a3 = np.sum(total**2.) + Delta_lamda**2. * ref - Delta_l**2.
    return a1, a2, a3


def get_q_vec(problem):'''),
 (SO, '''        load_term = (1. - lamda) * q_aux_mapped
        res_val = np.linalg.norm(res_vec + load_term)
        logger.debug(f"Arc length solver: res_val = {res_val}")

        delta_u_bar = scipy_spsolve(A, -(res_vec + load_term))
''', '''        unbalanced = res_vec + (1. - lamda) * q_aux_mapped
        res_val = np.linalg.norm(unbalanced)
        logger.debug(f"Arc length solver: res_val = {res_val}")

        delta_u_bar = scipy_spsolve(A, -unbalanced)
'''),
 (SO, '''        sol_list = _arc_length_newton_polish(
            problem, sol_list, cfg, lam_continuation)
    return sol_list, {
        'lam': lam_continuation,
        'lambda_target': _LAMBDA_TARGET,
        'polished': reached_target,
        'history': history,
        'control': control,
    }
''', '''        sol_list = _arc_length_newton_polish(problem, sol_list, cfg, lam_continuation)
    info = dict(lam=lam_continuation, lambda_target=_LAMBDA_TARGET, polished=reached_target)
    info.update(history=history, control=control)
    return sol_list, info
''')])

edit('relax_clip', 'C16 C17', [
 (SO, '''    if t < 0.: t = 0.

    c = 2. * onp.sqrt(t)
    if (c < cmin): c = cmin
    if (c > cmax): c = cmax

    return c
''', '''    c = 2. * onp.sqrt(max(t, 0.))
    return min(max(c, cmin), cmax)
'''),
 (SO, '''        error = onp.max(onp.absolute(R))

        # damping''', '''        error = onp.abs(R).max()

        # damping'''),
 (SO, '''        t = S0 / onp.einsum('i,i,i', qdot, M, qdot)
''', '''        t = S0 / onp.sum(qdot * M * qdot)
'''),
 (SO, '''        q[:] += h*qdot; dofs = np.array(q)
''', '''        q = q + h*qdot
        dofs = np.array(q)
'''),
 (SO, '''            M[:] = h_tilde * h_tilde / 4. * onp.array(
                onp.absolute(KCSR).sum(axis=1)).squeeze()

        # compute''', '''            M = 0.25 * h_tilde**2 * onp.asarray(abs(KCSR).sum(axis=1)).ravel()

        # compute'''),
])

edit('relax_clip2', 'C16', [
 (SO, '''    c = 2. * onp.sqrt(t)
    if (c < cmin): c = cmin
    if (c > cmax): c = cmax

    return c
''', '''    return onp.clip(2. * onp.sqrt(t), cmin, cmax)
'''),
 (SO, '''                A_sp_scipy.data[A_sp_scipy.indptr[row_ind]: A_sp_scipy.indptr[row_ind + 1]] = 0.
                A_sp_scipy[row_ind, row_ind] = 1.
''', '''                start, stop = A_sp_scipy.indptr[row_ind], A_sp_scipy.indptr[row_ind + 1]
                A_sp_scipy.data[start:stop] = (A_sp_scipy.indices[start:stop] == row_ind)
''')])

edit('mma_sub', 'C19', [
 (MM, '''            factor = eeen.copy()
            factor[np.where(zzz>0)] = asyincr
            factor[np.where(zzz<0)] = asydecr
''', '''            factor = np.where(zzz > 0, asyincr, np.where(zzz < 0, asydecr, 1.))
'''),
 (MM, '''            low = np.maximum(low,lowmin)
            low = np.minimum(low,lowmax)
            upp = np.minimum(upp,uppmax)
            upp = np.maximum(upp,uppmin)
''', '''            low = np.clip(low, lowmin, lowmax)
            upp = np.clip(upp, uppmin, uppmax)
'''),
 (MM, '''        zzz1 = low+albefa*(xval-low)
        zzz2 = xval-move*(xmax-xmin)
        zzz = np.maximum(zzz1,zzz2)
        alfa = np.maximum(zzz,xmin)
''', '''        alfa = np.maximum(np.maximum(low+albefa*(xval-low), xval-move*(xmax-xmin)), xmin)
'''),
 (MM, '''        P = ux2.T*P
        Q = xl2.T*Q

        b = (np.dot(P,uxinv)+np.dot(Q,xlinv)-fval)
''', '''        P = P * ux2.T
        Q = Q * xl2.T
        b = P @ uxinv + Q @ xlinv - fval
'''),
 (MM, '''        residu1 = np.concatenate((rex, rey, rez), axis = 0)
        residu2 = np.concatenate((relam, rexsi, reeta, remu, rezet, res), axis = 0)
        residu = np.concatenate((residu1, residu2), axis = 0)
        residunorm = np.sqrt((np.dot(residu.T,residu)).item())
''', '''        residu = np.vstack((rex, rey, rez, relam, rexsi, reeta, remu, rezet, res))
        residunorm = np.linalg.norm(residu)
'''),
 (MM, '''                resinew = np.sqrt(np.dot(residu.T,residu))
                steg = steg/2
''', '''                resinew = np.linalg.norm(residu)
                steg = 0.5*steg
'''),
 (MM, '''            residunorm = resinew.copy()
            residumax = max(abs(residu))
''', '''            residunorm = resinew
            residumax = np.max(np.abs(residu))
'''),
 (MM, '''            stmalbe = max(stmalfa,stmbeta)
            stmalbexx = max(stmalbe,stmxx)
            stminv = max(stmalbexx,1.0)
            steg = 1.0/stminv
''', '''            steg = 1.0/max(stmalfa, stmbeta, stmxx, 1.0)
''')])

edit('mma_filter', 'C20', [
 (MM, '''    for i in range(flex_num_cells):
        num_nbs = min(20, flex_num_cells)
        dd, ii = kd_tree.query(flex_cell_centroids[i], range(1, num_nbs + 1))
        neighbors = np.take(flex_cell_centroids, ii, axis=0)
        vals = np.where(rmin - dd > 0., rmin - dd, 0.)
        I += [i]*num_nbs
        J += ii.tolist()
        V += vals.tolist()
''', '''    num_nbs = min(20, flex_num_cells)
    for i, centroid in enumerate(flex_cell_centroids):
        dd, ii = kd_tree.query(centroid, range(1, num_nbs + 1))
        I.extend(i for _ in range(num_nbs))
        J.extend(ii)
        V.extend(np.maximum(rmin - dd, 0.))
'''),
 (MM, '''    dJ = ft['H'] @ (rho*dJ/np.maximum(1e-3, rho)/ft['Hs'][:, None])
''', '''    weights = np.maximum(1e-3, rho)*ft['Hs'][:, None]
    dJ = ft['H'] @ (rho*dJ/weights)
'''),
 (MM, '''    V = np.sum(fe.JxW)
    avg_elem_V = V/fe.num_cells
''', '''    avg_elem_V = np.sum(fe.JxW)/len(fe.cells)
''')])

edit('plastic', 'C21', [
 (FP, '''                f_bar = np.linalg.det(f)**(-1./3.)*f
''', '''                f_bar = f/np.cbrt(np.linalg.det(f))
'''),
 (FP, '''                yield_f_trial = np.linalg.norm(s_trial) - np.sqrt(2./3.)*(sig0 + H1*alpha_old)
''', '''                norm_s_trial = np.sqrt(np.sum(s_trial*s_trial))
                yield_f_trial = norm_s_trial - np.sqrt(2./3.)*(sig0 + H1*alpha_old)
'''),
 (FP, '''                    direction = s_trial/np.linalg.norm(s_trial)
                    s = s_trial - 2.*G_bar*Delta_gamma * direction
''', '''                    s = (1. - 2.*G_bar*Delta_gamma/norm_s_trial)*s_trial
'''),
 (FP, '''                return jax.lax.cond(yield_f_trial < 0., elastic_loading, plastic_loading)
''', '''                return jax.lax.cond(yield_f_trial >= 0., plastic_loading, elastic_loading)
'''),
 (FP, '''                sigma = 1./J*P @ F.T
                return sigma
''', '''                return (P @ F.T)/J
''')])

edit('mesh', 'C18 C07', [
 (GM, '''    xv, yv, zv = onp.meshgrid(x, y, z, indexing='ij')
    points_xyz = onp.stack((xv, yv, zv), axis=dim)
    points = points_xyz.reshape(-1, dim)
''', '''    points = onp.array([[a, b, c] for a in x for b in y for c in z])
'''),
 (GM, '''    points_inds = onp.arange(len(points))
    points_inds_xy = points_inds.reshape(Nx + 1, Ny + 1)
    inds1 = points_inds_xy[:-1, :-1]
    inds2 = points_inds_xy[1:, :-1]
    inds3 = points_inds_xy[1:, 1:]
    inds4 = points_inds_xy[:-1, 1:]
    cells = onp.stack((inds1, inds2, inds3, inds4), axis=dim).reshape(-1, 4)
''', '''    i, j = onp.indices((Nx, Ny)).reshape(2, -1)
    first = i*(Ny + 1) + j
    cells = onp.column_stack((first, first + Ny + 1, first + Ny + 2, first + 1))
'''),
 (GM, '''        p1, p2, p3, p4 = pts
        v1 = p2 - p1
        v2 = p3 - p1
        v12 = np.cross(v1, v2)
        v3 = p4 - p1
        return np.dot(v12, v3)
''', '''        edges = pts[1:] - pts[0]
        return np.linalg.det(edges)
'''),
 (GM, '''        vmap_location_fn = jax.vmap(location_fn)

        def on_boundary(cell_points):
            boundary_flag = vmap_location_fn(cell_points)
            return np.all(boundary_flag)

        vvmap_on_boundary = jax.vmap(jax.vmap(on_boundary))
        boundary_flags = vvmap_on_boundary(cell_face_points)
        boundary_inds = onp.argwhere(boundary_flags)
        return boundary_inds.shape[0]
''', '''        flags = jax.vmap(jax.vmap(jax.vmap(location_fn)))(cell_face_points)
        return int(np.sum(np.all(flags, axis=-1)))
''')])

edit('utils', 'C23', [
 (UT, '''    out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
    out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
''', '''    to_single = lambda x: onp.asarray(x).astype(onp.float32)
    out_mesh = meshio.Mesh(onp.asarray(fe.points), [(cell_type, onp.asarray(fe.cells))], point_data={'sol': to_single(sol)})
'''),
 (UT, '''        for point_info in point_infos:
            name, data = point_info
            assert len(data) == len(sol), "point data wrong shape!"
            out_mesh.point_data[name] = onp.array(data, dtype=onp.float32)
''', '''        for name, data in point_infos:
            if len(data) != len(sol):
                raise AssertionError("point data wrong shape!")
            out_mesh.point_data[name] = to_single(data)
''')])

edit('basis', 'C01 C02 C07', [
 (BA, '''        mapped_points = []
        for i in range(len(points)):
            vals = values[i]
            mapped_point = onp.sum(vertices[facet[0]] * vals[:, None], axis=0)
            mapped_points.append(mapped_point)
        face_quad_points.append(mapped_points)
''', '''        face_quad_points.append(values @ vertices[facet[0]])
'''),
 (BA, '''    new_inds = []
    for ind in inds.reshape(-1):
        new_inds.append(onp.argwhere(re_order == ind))
    new_inds = onp.array(new_inds).reshape(inds.shape)
    return new_inds
''', '''    position = {ind: i for i, ind in enumerate(re_order)}
    return onp.array([position[ind] for ind in inds.reshape(-1)]).reshape(inds.shape)
''')])
