"""Writes properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          'mechanism': [dict(name=n, where=w) for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


B, FE, PR, SO, GM, MM, UT = ('jax_fem/' + f for f in ('basis.py', 'fe.py', 'problem.py', 'solver.py', 'generate_mesh.py', 'mma.py', 'utils.py'))

prop('C01', 'Every element type reproduces its polynomial fields exactly',
     'For each supported element type, with nodes in the documented ordering, a nodal field sampled from any polynomial the element is complete for is interpolated exactly, values and physical gradients, at every volume and face quadrature point of any non-degenerate affine cell. On arbitrarily placed nodes, fields linear in the physical coordinates still have exact values and gradients. The degree of freedom at a node is the value of the field at that node.',
     ['inputs', 'configurations'], 'over all field coefficients, all affine cell placements (and node perturbations), all nine element types and quadrature settings',
     'Benchmarks use HEX8/TET10 on one mesh with loose tolerances against one stored reference solution; QUAD8, HEX20, HEX27, TRI6 are never run and a wrong node permutation on a symmetric mesh can go unnoticed.',
     [B, FE], [('get_elements/re_order', B), ('get_shape_vals_and_grads', B), ('get_face_shape_vals_and_grads', B), ('FiniteElement.get_shape_grads', FE), ('convert_from_dof_to_quad, sol_to_grad, convert_from_dof_to_face_quad', FE)],
     ['FiniteElement.convert_from_dof_to_quad', 'FiniteElement.sol_to_grad', 'FiniteElement.convert_from_dof_to_face_quad', 'FiniteElement.shape_grads'])
prop('C02', 'Volume and surface integration measure the true geometry',
     'Integration weights of a cell sum to its true volume and those of a face to its true area, and first moments are exact, for every placement of the cell. Face quadrature points lie on the selected face and weights stay positive for positively oriented cells. The divergence theorem holds between volume and surface integration.',
     ['inputs', 'configurations'], 'over all affine cell placements, all faces of all element types, all requested quadrature orders',
     'Stored reference solutions exercise one axis-aligned or one fixed mesh; scale factors of tilted faces and of non-default quadrature are not looked at.',
     [FE, B], [('get_shape_grads (JxW)', FE), ('get_face_shape_grads (Nanson)', FE), ('get_physical_quad_points / get_physical_surface_quad_points', FE), ('face weights', B)],
     ['Problem.JxW', 'Problem.nanson_scale', 'Problem.physical_quad_points', 'Problem.physical_surface_quad_points'])
prop('C03', 'The residual is the discretised weak form of the user\'s problem',
     'For every nodal solution the assembled residual equals the weak form evaluated by quadrature: gradient flux against test gradients, mass/source terms against test values, surface terms on exactly the selected faces, user kernels as given, each with the internal variables of its own cell, face and quadrature point. Every variable of a coupled problem contributes to, and only to, its own block of unknowns.',
     ['inputs', 'programs', 'configurations'], 'over all nodal fields, all internal variable fields, kinds of terms, element types and multi-variable combinations',
     'Tests compare one solution of a few problems to stored data; spatially varying internal variables per quadrature point, mixed variables and surface kernels are not sampled densely enough to expose index mix-ups.',
     [PR, FE], [('get_laplace_kernel / get_mass_kernel / get_surface_kernel', PR), ('pre_jit_fns', PR), ('compute_face', PR), ('compute_residual_vars_helper', PR)],
     ['Problem.compute_residual'])
prop('C04', 'The assembled tangent is the derivative of the residual',
     'For every solution state and every internal variable field the assembled global matrix equals the derivative of the assembled residual with respect to the unknowns, including surface terms and cross-coupling of all variables. The residual returned while assembling the tangent equals the residual computed alone.',
     ['inputs', 'programs', 'configurations'], 'over all nodal fields and internal variables, all kinds of terms, element types and variable combinations',
     'A slightly wrong tangent still converges to the same solution in the stored benchmarks, only slower.',
     [PR], [('value_and_jacfwd kernels', PR), ('I/J construction (find_ind)', PR), ('compute_newton_vars', PR)],
     ['Problem.newton_update', 'Problem.I', 'Problem.J', 'Problem.V'], [('I, J, V', 'COO triples of the tangent', PR)])
prop('C05', 'Batched cell evaluation visits every cell exactly once, in order',
     'For every number of cells and every assignment of data to cells, the split evaluation of cells returns exactly the per-cell kernel results, one per cell, in cell order, with each cell seeing its own geometry and internal variables, with and without tangents.',
     ['inputs', 'configurations'], 'over all numbers of cells (around and across the batch boundaries) and all per-cell data',
     'Batch boundaries depend on the number of cells; tests use a handful of meshes whose sizes do not hit every remainder.',
     [PR], [('split_and_compute_cell', PR)], ['Problem.compute_residual', 'Problem.newton_update'])
prop('C06', 'Dirichlet conditions select exactly the described degrees of freedom',
     'For every mesh and location predicate the constrained degrees of freedom are exactly the nodes where the predicate holds, in the requested component, with the value function evaluated at that node\'s own coordinates; predicates may also use the node index. Updating the conditions replaces the old ones completely.',
     ['inputs', 'configurations'], 'over all node positions, all predicates (as arbitrary truth assignments), all components, empty selections, and sequences of updates',
     'Tests use axis-aligned face predicates on fixed meshes, never empty, never index-based, never changed.',
     [FE], [('Dirichlet_boundary_conditions', FE), ('update_Dirichlet_boundary_conditions', FE)], ['FiniteElement.node_inds_list', 'FiniteElement.vec_inds_list', 'FiniteElement.vals_list'])
prop('C07', 'Surface integrals act on exactly the faces whose vertices all qualify',
     'For every mesh and location predicate a cell face is selected if and only if all of its corner vertices satisfy the predicate, for position-only and for index-aware predicates, in every boundary set independently. Counting selected faces agrees with the selection.',
     ['inputs', 'configurations'], 'over all truth assignments of the predicate on nodes, all element types',
     'Tests select one full side of a box; partial selections touching a face in all but one vertex are not tried.',
     [FE, GM, B], [('get_boundary_conditions_inds', FE), ('Mesh.count_selected_faces', GM), ('face_inds/reorder_inds', B)], ['Problem.boundary_inds_list', 'Mesh.count_selected_faces'])
prop('C08', 'Row elimination imposes Dirichlet conditions exactly',
     'In the constrained system every constrained row reads "unknown equals prescribed value" (times the load factor where one is given) and its matrix row is the matching unit row, while every other row and column entry is untouched, for all variables and offsets. Helper assignments of boundary values write exactly the constrained entries, and where several conditions name the same unknown the later one wins consistently.',
     ['inputs', 'configurations'], 'over all residuals, states, prescribed values, load factors, sets of (overlapping) conditions and variables',
     'Tests only see the converged solution, where a wrongly scaled or doubly applied boundary row can still vanish.',
     [SO], [('apply_bc_vec / apply_bc', SO), ('assign_bc / assign_ones_bc / assign_zeros_bc / copy_bc', SO), ('_PetscTangentCache.update', SO)], ['apply_bc_vec', 'get_A', 'assign_bc', 'copy_bc'])
prop('C09', 'The reused global matrix never carries stale entries',
     'Whatever sequence of assemblies, solves, boundary-condition updates and internal-variable updates came before, the global matrix built for the current state equals the one a freshly created problem in the same state would build.',
     ['histories', 'inputs'], 'over all histories of assemblies, boundary-condition changes (values, sets, counts, components) and parameter updates up to the bound',
     'Tests build each problem once and never change the constrained set between assemblies.',
     [SO], [('_PetscTangentCache._refresh_bc_rows_if_needed / update', SO), ('_get_petsc_tangent_cache', SO)], ['get_A'], [('_petsc_tangent_cache', 'cached matrix and boundary rows of a problem', SO)])
prop('C10', 'The nonlinear solver returns only converged, finite states',
     'If the Newton solver returns, the returned state is finite and its constrained residual is below the absolute tolerance or the relative tolerance with respect to the starting residual, whatever the linear solves returned; the state it returns is the one whose residual was judged. A state that is already converged is returned unchanged.',
     ['inputs', 'fault_sequences', 'configurations'], 'over all residual functions along the path, all (possibly wrong) linear-solve results, all tolerances and starting points, within the iteration bound',
     'Tests converge in a few well-behaved steps; premature acceptance and non-finite states need adversarial increments.',
     [SO], [('solver() Newton loop', SO), ('newton_step', SO)], ['solver'])
prop('C11', 'Newton solves linear problems exactly, whatever the starting point',
     'For a problem whose residual is affine, one exact Newton step from any starting point (with or without line search, with or without a supplied initial guess) lands on the exact constrained solution with every prescribed value met. The initial guess of the linear solve already satisfies the prescribed increments, and the line search never accepts a step with a larger residual than the full step.',
     ['inputs', 'configurations'], 'over all starting points, internal variables, boundary values and increments',
     'Tests start from zero and look at one final answer.',
     [SO], [('newton_step', SO), ('line_search', SO)], ['solver'])
prop('C12', 'The chosen linear backend solves the given system or fails loudly',
     'Each backend option runs that backend, with the documented defaults, on exactly the given matrix and right-hand side, and hands back its result unpermuted; an iterative backend (JAX, PETSc) whose result is non-finite or does not satisfy the system within the acceptance threshold raises rather than returning it, the result of a direct or custom backend is handed back as is, and an unavailable backend raises. The caller\'s options are never modified, and a missing backend choice means the documented default.',
     ['configurations', 'inputs', 'fault_sequences'], 'over all matrices, right-hand sides, backend results (including wrong and non-finite ones) and option combinations',
     'Tests run two backends with one option set on well-conditioned systems and never see a failed solve.',
     [SO], [('linear_solver', SO), ('jax_solve / scipy_spsolve / petsc_solve', SO)], ['linear_solver'])
prop('C13', 'Gradients through the solver equal the true sensitivity of the solution',
     'For any differentiable function of the solution, the gradient obtained through the differentiable solver with respect to any parameter (material fields, surface loads, nodal coordinates, boundary values) equals the derivative of the solution implicitly defined by the constrained equations. This holds whatever else was solved with the same problem object in between, and leaves the forward solution unchanged.',
     ['inputs', 'programs', 'histories'], 'over all parameter values, cotangents, states satisfying the equations, and interleavings of forward and backward evaluations',
     'No stable test differentiates through the solver.',
     [SO, PR], [('implicit_vjp', SO), ('ad_wrapper', SO), ('set_params', PR)], ['ad_wrapper', 'implicit_vjp'])
prop('C14', 'Linear multipoint constraints hold exactly and in the right space',
     'With a constraint matrix mapping reduced to full unknowns, the reduced residual and matrix are the projections of the full constrained ones, every returned solution lies in the range of the constraint matrix, the Newton step solves the reduced problem, and adjoint gradients are those of the constrained problem.',
     ['inputs', 'configurations'], 'over all constraint matrices of the bounded shapes, states, parameters and increments',
     'Multipoint constraints are used only in applications; no stable test builds one.',
     [SO], [('P_mat branches of solver/newton_step/line_search/get_A/implicit_vjp', SO)], ['solver', 'get_A', 'implicit_vjp'])
prop('C15', 'Arc-length continuation follows the equilibrium path',
     'Each corrector step keeps the arc-length constraint satisfied and takes, of the two admissible load increments, the one continuing the previous direction; a step ends exactly when the unbalanced residual of an iterate is within tolerance and returns that iterate with one further correction, so that with exact solves of an affine problem the returned state is in exact equilibrium at its load factor, meets the arc-length constraint and carries the scaled boundary values. The outer loop stops at the first load factor reaching full load, reports what it did truthfully, and only then finishes with a full-load Newton solve.',
     ['inputs', 'fault_sequences', 'configurations'], 'over all states, previous directions, load factors, arc lengths, scaling parameters and linear-solve results within the iteration bounds',
     'No stable test runs the arc-length solver.',
     [SO], [('arc_length_solver_disp_driven / arc_length_solver_force_driven', SO), ('_solve_arc_length_* / _finish_arc_length', SO)], ['arc_length_solver_disp_driven', 'arc_length_solver_force_driven', 'solver'])
prop('C16', 'Dynamic relaxation returns states in force equilibrium',
     'If dynamic relaxation returns, the largest unbalanced force on unconstrained unknowns of the returned state is within tolerance (or that force is visibly NaN), constrained unknowns keep their prescribed values throughout, and damping stays within its stability limits. The mass matrix is built from the row-eliminated tangent of all variables.',
     ['inputs', 'configurations'], 'over all residual histories, states, masses and damping arguments within the iteration bound',
     'No stable test runs dynamic relaxation.',
     [SO], [('dynamic_relax_solve', SO), ('assembleCSR', SO), ('calC', SO)], ['solver', 'dynamic_relax_solve', 'calC', 'assembleCSR'])
prop('C17', 'Solver options mean what the documentation says',
     'Every documented spelling of the solver options (nested or legacy flat, with any subset of keys) selects the documented method, tolerances, starting point, line search and linear backend, with the documented defaults for omitted keys; ambiguous or malformed options are rejected. Options are never modified by a solve.',
     ['configurations'], 'over all subsets of option keys, their values and spellings',
     'Tests use two or three spellings; a lost key silently falls back to a default.',
     [SO], [('_resolve_solver_options', SO), ('solver', SO), ('_solve_arc_length', SO), ('_solve_dynamic_relax', SO)], ['solver'])
prop('C18', 'Structured mesh generators tile the requested domain',
     'For all counts and side lengths the meshes generated by rectangle_mesh and box_mesh have the right numbers of nodes and cells, every cell is positively oriented with the documented node order and the same size, and together the cells tile the domain with conforming neighbours. box_mesh_gmsh asks the external mesher for exactly the requested box, cell counts, element kind and order, and returns the cells of that kind. The tetrahedron quality helper returns six times the signed volume.',
     ['inputs', 'configurations'], 'over all side lengths and node positions, and all counts within the bound',
     'Benchmarks generate a few cubes with equal counts per direction, which hides axis mix-ups.',
     [GM], [('rectangle_mesh', GM), ('box_mesh', GM), ('box_mesh_gmsh', GM), ('check_mesh_TET4', GM)], ['rectangle_mesh', 'box_mesh', 'check_mesh_TET4'])
prop('C19', 'Each optimisation step solves a valid convex approximation within limits',
     'For all histories, objective and constraint data, the step\'s approximation matches the true values and gradients at the current design, its asymptotes and bounds enclose the admissible box and respect the move limit, and every iterate of its interior-point solver stays strictly inside those bounds with positive multipliers. Newton directions inside solve the linearised optimality conditions exactly.',
     ['inputs', 'histories'], 'over all designs, bounds, gradients, constraint values, previous iterates and move limits within the size bound',
     'No stable test runs the optimiser.',
     [MM], [('MMA.mmasub', MM), ('subsolv', MM)], ['MMA.mmasub', 'subsolv'])
prop('C20', 'Filters average over the right neighbourhood',
     'For all designs the density filter is a convex combination of neighbouring densities (constants are preserved, bounds respected) with weights falling linearly to zero at the filter radius around each flexible cell, and the sensitivity filter is the documented weighting of the same neighbours applied to each objective and constraint gradient.',
     ['inputs', 'configurations'], 'over all densities and sensitivities, all numbers of flexible cells within the bound, all sets of flexible cells',
     'No stable test runs the filters.',
     [MM], [('compute_filter_kd_tree', MM), ('applyDensityFilter / applySensitivityFilter', MM), ('optimize', MM)], ['compute_filter_kd_tree', 'applyDensityFilter', 'applySensitivityFilter'])
prop('C21', 'The finite-strain plasticity update returns admissible states',
     'For every deformation increment and admissible history the updated state lies on or inside the yield surface hardened by the updated plastic strain, plastic strain never decreases and grows exactly when the trial state is outside, and elastic steps leave the plastic history unchanged. The plastic correction is purely deviatoric along the trial direction, and volume change enters the stress through pressure only. The reported stress is the one of the updated state.',
     ['inputs', 'histories'], 'over all deformation gradients and histories within the stated ranges',
     'Tests sample two load cases on one cube.',
     ['applications/finite_plasticity/model.py'], [('Plasticity.get_maps (return_map)', 'applications/finite_plasticity/model.py'), ('Plasticity.update_int_vars_gp / compute_stress', 'applications/finite_plasticity/model.py')], ['Plasticity.get_tensor_map', 'Plasticity.update_int_vars_gp', 'Plasticity.compute_stress'])
prop('C22', 'Refreshing geometry equals building the problem on the new nodes',
     'After geometry is refreshed with new nodal positions, every residual, tangent and integration measure equals that of a problem built from scratch on those positions, and refreshing back restores the original; integrals are unchanged by rigid translation and rotation of the mesh.',
     ['inputs', 'histories'], 'over all node positions (perturbations), nodal fields and sequences of refreshes within the bound',
     'No stable test moves nodes after construction.',
     [PR, FE], [('initialize_geometric_quantities', PR), ('get_shape_grads(points), get_face_shape_grads(points), ...', FE)], ['Problem.compute_residual', 'Problem.newton_update', 'Problem.JxW', 'Problem.nanson_scale'])
prop('C23', 'Saved results hold exactly the solved fields, and wrappers are transparent',
     'For every solution and every additional cell or point field the saved mesh contains the problem\'s own nodes, cells of the matching type, and each given field (in single precision) under its own name in node or cell order; wrongly sized data and unknown element types are rejected. Timing wrappers return what the wrapped function returned and call it exactly once.',
     ['inputs', 'configurations'], 'over all field values, names, field counts, element types and call signatures within the bound',
     'Tests do not read back what they save.',
     [UT, GM], [('save_sol', UT), ('get_meshio_cell_type', GM), ('timeit / walltime', UT)], ['save_sol', 'timeit', 'walltime'])
prop('C24', 'Spectral split of the phase-field model: stress, tangent, driving force',
     'For every symmetric strain, repeated eigenvalues included, the spectral function equals the matrix function of the scalar law and its forward and reverse derivatives equal the exact derivative of that matrix function (on the symmetric part of the direction). The tensile energy and the degraded stress follow from the split of the principal strains and the trace, for both stress options. The crack driving force is point by point the larger of its old value and the present tensile energy, the reaction force is the integral of the degraded stress, and the crack field obeys its documented weak form.',
     ['inputs', 'histories'], 'over all eigenvalues (every multiplicity and sign pattern), polynomial and split laws, perturbation directions, damage and history values, for the stated eigenbases',
     'The application has no tests; its demonstration functions print three matrices.',
     ['applications/phase_field_fracture/eigen.py', 'applications/phase_field_fracture/example.py'],
     [('get_eigen_f_custom / get_eigen_f_jax', 'applications/phase_field_fracture/eigen.py'), ('Elasticity.get_maps, compute_history, compute_traction; PhaseField maps', 'applications/phase_field_fracture/example.py')],
     ['get_eigen_f_custom', 'Elasticity.get_tensor_map', 'Elasticity.compute_history', 'Elasticity.compute_traction', 'PhaseField.get_mass_map'])
prop('C25', 'The periodic prolongation matrix ties exactly the mapped pairs',
     'For every mesh and list of periodic conditions (two sides, a mapping and a component each), expanding any reduced vector with the built matrix gives equal values at every pair of a node and its mapped image in the stated component, every other degree of freedom is one reduced unknown of its own, and the matrix has exactly as many columns as free degrees of freedom. Node numbering and the order of the conditions do not matter. Sides without matching partners, and ties chained onto other ties, are refused rather than silently mistied.',
     ['inputs', 'configurations'], 'over all side lengths, grid line positions, node numberings and condition lists within the bound',
     'No test builds the matrix; the example uses one condition on one mesh.',
     ['applications/periodic_bc/example.py'], [('periodic_boundary_conditions', 'applications/periodic_bc/example.py')], ['periodic_boundary_conditions'])
prop('C26', 'Material laws of the applications are physically consistent',
     'For every deformation of positive volume, each neo-Hookean law of the applications (arc length, dynamic relaxation in 2D, 3D and plane strain, nodal stress, scalability with and without a stiffness field) gives the first Piola-Kirchhoff stress that derives from its documented energy with the documented Young modulus and Poisson number: angular momentum balances, a superposed rotation only rotates the stress, rotations alone cause none, and small strains follow Hooke\'s law. The linear elastic laws are isotropic Hooke\'s law. The counter load of the force-controlled beam is exactly opposite to the end traction. The updated-Lagrangian force equals that of the neo-Hookean law on the undeformed body however the motion is split into steps, its accumulated deformation gradient is the total one, and prescribed increments are differences of the total end motion. Gradients recovered at nodes are those of the interpolated field.',
     ['inputs', 'histories'], 'over all displacement gradients of the stated families, rotations, stiffness fields, elastic constants, nodal increments, load levels and densities within the bound',
     'No stable test runs these applications; their laws are only ever looked at in pictures.',
     ['applications/arc_length', 'applications/dynamic_relaxation', 'applications/nodal_stress/example.py', 'applications/scalability/hyperelastic3d_common.py', 'applications/updated_lagrangian/example.py', 'applications/serendipity/example.py', 'applications/explicit_dynamics/example.py'],
     [('get_tensor_map of each application problem', 'applications/'), ('UpdatedLagrangian, push_F_prev, nodal_displacement_total_target', 'applications/updated_lagrangian/example.py'), ('get_shape_grads_physical', 'applications/nodal_stress/example.py')],
     ['Problem.get_tensor_map', 'Problem.get_surface_maps', 'push_F_prev', 'UpdatedLagrangian.set_params'])

prop('C27', 'Application kernels discretise the weak forms they document',
     'For every nodal field and material constant, the residual of each application problem is the sum over cells and boundary faces of its documented weak form: Stokes flow, linear elasticity written with one and with two variables, the scalar wave step, the Poisson problem with a nonlinear Robin condition, the coupled thermo-elastic step, and the laser-heating step (convection, radiation, a beam that follows its centre, carries the absorbed power and is switched). Powder melts above the liquidus, liquid solidifies below it, nothing else changes phase. The thermo-plastic law is elastic up to the yield stress and projects radially onto it beyond; its history becomes the stress and strain of the converged displacement. The discrete error norms, the manufactured sources and the reorientation of imported triangles are what their names say.',
     ['inputs', 'configurations'], 'over all nodal values, time steps, material constants, temperatures, phases, strains, points and triangles within the bound',
     'No test runs these applications; a wrong term changes pictures, not exit codes.',
     ['applications/stokes', 'applications/wave/example.py', 'applications/robin_bc/example.py', 'applications/thermal_mechanical', 'applications/thermal_mechanical_full', 'applications/convergence_rate/example.py', 'applications/differentiable_mesh/example.py'],
     [('get_universal_kernel, get_universal_kernels_surface', 'applications/stokes, wave, robin_bc, thermal_mechanical_full'), ('Thermal, Plasticity', 'applications/thermal_mechanical/example.py'), ('compute_l2_norm_error, compute_h1_norm_error', 'applications/convergence_rate/example.py'), ('transform_cells', 'applications/stokes/example.py')],
     ['Problem.get_universal_kernel', 'Plasticity.get_maps', 'Plasticity.update_dT_and_phase', 'Thermal.set_params', 'transform_cells'])

prop('C28', 'Element birth: quiet parts take no part, the surface follows the births',
     'For every activity pattern the residual of the quiet-element heat problem is the heat step of exactly the active cells with the convection of exactly the faces marked external and the laser flux of exactly those marked top; the given quiet points, and no others, are held at the ambient temperature. After every first region and every sequence of births, in any numbering, the tracked external faces are those of the active region (each face of an active cell that no second active cell shares), top faces are the external ones lying flat at the laser height, and the quiet points are those without an active cell. A shrinking region and unknown faces are refused.',
     ['inputs', 'histories'], 'over all activity patterns, birth sequences, markers, temperatures and time steps within the bound',
     'No test runs the application; it is driven by one tool path on one mesh.',
     ['applications/quiet_element/example.py'],
     [('Thermal', 'applications/quiet_element/example.py'), ('hash_map_for_faces / initialize_hash_map / update_hash_map', 'applications/quiet_element/example.py'), ('get_active_face_truth_tab, get_quiet_point_inds_set', 'applications/quiet_element/example.py')],
     ['Thermal.set_params', 'hash_map_for_faces', 'update_hash_map', 'get_active_face_truth_tab', 'get_quiet_point_inds_set'])

prop('C29', 'Time stepping of the applications conserves what it should',
     'For every pair of consecutive states the explicit wave-guide step is the leapfrog step with row-sum lumped mass (whose sum is the mass of the body), holds the constrained components, and conserves the discrete energy; its start is the stated mode at rest to second order. For every phase field, temperature, noise and material constant the explicit and the implicit dendrite steps solve the discretised anisotropic phase-field and heat equations, and the total of heat and latent heat is conserved by each step. The surface direction is the four-quadrant angle, and zero with zero derivative where there is no direction.',
     ['inputs', 'histories'], 'over all states, noise values and constants within the bound; conservation over a step implies it over every history',
     'No test runs these applications; a small loss of energy or heat per step is invisible in pictures.',
     ['applications/explicit_dynamics/example.py', 'applications/dendrite/explicit_fem/example.py', 'applications/dendrite/implicit_fem/example.py'],
     [('main: acceleration, step', 'applications/explicit_dynamics/example.py'), ('SolidificationMass, SolidificationForce, get_explicit_dynamics', 'applications/dendrite/explicit_fem/example.py'), ('Solidification', 'applications/dendrite/implicit_fem/example.py')],
     ['get_explicit_dynamics', 'SolidificationForce.get_universal_kernel', 'Solidification.get_universal_kernel', 'safe_arctan2'])

prop('C30', 'Crystal plasticity and contact: rotations, slip, implicit stress, memory',
     'For every quaternion the rotation matrix turns vectors as q v q* does, and tensors of second and fourth order rotate componentwise with it. The slip systems are the twelve of the lattice, so slip keeps the volume; elasticity is cubic; every cell starts undeformed in its own orientation. For every stress the local solution may return, the new plastic deformation, slip and resistance follow the flow and hardening rules in the rotated crystal, the returned stress is the pull back of the elastic one and balances angular momentum, and the derivative handed to the global Newton method is that of the implicitly defined solution. The local iteration goes along the Newton direction, its recorded residual belongs to its recorded stress, and only a small one ends it. Point updates use their own gradient and state; cell means are volume averages. In third-medium contact the rotation is that of the polar decomposition; the solid follows its logarithmic law; the medium resists only shear and the deviation from the stored cell-mean rotation.',
     ['inputs', 'histories'], 'over all quaternions, tensors, old states, line-search lengths and directions, and over families of stresses and deformations within the bound',
     'No test runs these applications; a wrong rotation or tangent still gives smooth pictures.',
     ['applications/crystal_plasticity/models.py', 'applications/third_medium_contact/example.py'],
     [('get_rot_mat, rotate_tensor_rank_2, rotate_tensor_rank_4', 'applications/crystal_plasticity/models.py'), ('CrystalPlasticity', 'applications/crystal_plasticity/models.py'), ('Contact', 'applications/third_medium_contact/example.py')],
     ['CrystalPlasticity.get_maps', 'CrystalPlasticity.update_int_vars_gp', 'CrystalPlasticity.compute_avg_stress', 'Contact.get_maps', 'Contact.post_processing'])

if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in P:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
