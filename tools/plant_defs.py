bug('stale_rows', 'C09', [(SO, '''                node_inds is old_node_inds
                and vec_inds is old_vec_inds
''', '''                len(node_inds) == len(old_node_inds)
                and len(vec_inds) == len(old_vec_inds)
''')], '''
def newton(problem):
    problem.newton_update(problem.unflatten_fn_sol_list(np.zeros(problem.num_total_dofs_all_vars)))
    return dense(get_A(problem))

a = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left], [0], [zero]])
newton(a)
a.fes[0].update_Dirichlet_boundary_conditions([[right], [0], [zero]])
b = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[right], [0], [zero]])
check(onp.allclose(newton(a), newton(b)), 'matrix keeps the rows of the previous boundary conditions')
''', 'an assembly, then update_Dirichlet_boundary_conditions selecting as many but different nodes, then another assembly',
    'the reused PETSc matrix keeps the eliminated rows of the old boundary')

bug('surface_points_not_refreshed', 'C22', [(PR, 'self.fes[0].get_physical_surface_quad_points(boundary_inds, fes_points[0])', 'self.fes[0].get_physical_surface_quad_points(boundary_inds)')], '''
class Robin(Poisson):
    def get_surface_maps(self):
        return [lambda u, x: -x * 1. if False else np.array([x[1]**2 + x[0]])]

m = quad_mesh()
a = Robin(m, vec=1, dim=2, ele_type='QUAD4', location_fns=[right])
pts = m.points + np.stack([0.1 * m.points[:, 1], 0.2 * m.points[:, 0] * m.points[:, 1]], axis=1)
inds = a.boundary_inds_list[0]
a.initialize_geometric_quantities([pts])
want = a.fes[0].get_physical_surface_quad_points(inds, pts)
check(np.allclose(a.physical_surface_quad_points[0], want), 'surface quadrature points are those of the old nodes')
''', 'nodes moved with initialize_geometric_quantities and a position-dependent surface load',
    'surface loads are evaluated at the old positions after a geometry refresh')

bug('asymptote_history', 'C19', [(MM, '''            low = xval-factor*(xold1-low)
''', '''            low = xval-factor*(xval-low)
''')], '''
from jax_fem.mma import MMA
n, m = 2, 1
mma = MMA(); mma.setNumConstraints(m); mma.setNumDesignVariables(n)
mma.setMinandMaxBoundsForDesignVariables(onp.zeros((n, 1)), onp.ones((n, 1)))
mma.epoch = 5
c = lambda *x: onp.array(x, float)[:, None]
mma.xval, mma.xold1, mma.xold2 = c(.5, .5), c(.45, .55), c(.4, .5)
mma.setLowerAndUpperAsymptotes(c(.2, .3), c(.9, .8))
mma.setScalingParams(1., onp.zeros((m, 1)), 1e4*onp.ones((m, 1)), onp.zeros((m, 1)))
mma.setMoveLimit(.2)
mma.setObjectiveWithGradient(1., c(1., -1.)); mma.setConstraintWithGradient(onp.array([[-.1]]), onp.array([[.3, .4]]))
mma.mmasub(mma.xval)
low, upp = mma.getAsymptoteValues()
f = c(1.2, .7)
check(onp.allclose(low, mma.xval - f*(mma.xold1 - c(.2, .3))), f'lower asymptotes {low.ravel()}')
''', 'more than two optimisation iterations (history-based asymptotes) with a moving design',
    'the lower asymptote is moved relative to the wrong iterate')

bug('move_limit_range', 'C19', [(MM, 'zzz2 = xval+move*(xmax-xmin)', 'zzz2 = xval+move')], '''
from jax_fem.mma import MMA
n, m = 2, 1
mma = MMA(); mma.setNumConstraints(m); mma.setNumDesignVariables(n)
c = lambda *x: onp.array(x, float)[:, None]
mma.setMinandMaxBoundsForDesignVariables(onp.zeros((n, 1)), c(1., .5))
mma.epoch = 1
mma.xval = mma.xold1 = mma.xold2 = c(.3, .2)
mma.setLowerAndUpperAsymptotes(onp.ones((n, 1)), onp.ones((n, 1)))
mma.setScalingParams(1., onp.zeros((m, 1)), 1e4*onp.ones((m, 1)), onp.zeros((m, 1)))
mma.setMoveLimit(.2)
mma.setObjectiveWithGradient(1., c(-1., -1.)); mma.setConstraintWithGradient(onp.array([[-.9]]), onp.array([[.1, .1]]))
mma.mmasub(mma.xval)
x = mma.getOptimalValues()[0]
check(abs(x[1] - .2) <= .2*.5 + 1e-9, f'step {abs(x[1]-.2)} exceeds the move limit')
''', 'design bounds whose range is not one', 'the upper move limit ignores the range of the variable')

bug('filter_radius', 'C20', [(MM, 'avg_elem_V = V/fe.num_cells', 'avg_elem_V = V/flex_num_cells')], '''
from jax_fem.mma import compute_filter_kd_tree
p = Poisson(quad_mesh(4, 4), vec=1, dim=2, ele_type='QUAD4')
fe = p.fes[0]
fe.flex_inds = onp.arange(4)
H, Hs = compute_filter_kd_tree(fe)
H = onp.array(H.todense())
check(onp.allclose(onp.diag(H), 1.5*.25), f'filter radius {onp.diag(H)}')
''', 'only part of the cells is flexible', 'the filter radius grows with the number of fixed cells')

bug('plastic_trace', 'C21', [(FP, 'Ie_bar = 1./3.*np.trace(be_bar_trial)', 'Ie_bar = 1./3.*np.trace(be_bar_old)')], '''
from applications.finite_plasticity.model import Plasticity
m = box_mesh(1, 1, 1, 1., 1., 1.)
p = Plasticity(Mesh(m.points, m.cells_dict['hexahedron']), vec=3, dim=3, ele_type='HEX8')
_, upd, _ = p.get_maps()
g = onp.zeros((3, 3)); g[0, 1] = .4
be = onp.diag([1.2, 1., 1/1.2])
F, be_new, alpha = upd(g, onp.eye(3), be, 0.)
tr = onp.eye(3) + g; tr = tr @ be @ tr.T
check(abs(onp.trace(be_new) - onp.trace(tr)) < 1e-8, f'plastic step changed the trace of the elastic strain: {onp.trace(be_new)} instead of {onp.trace(tr)}')
''', 'a plastic step starting from a deformed elastic state', 'the plastic correction is no longer purely deviatoric')

bug('point_or_cell_data', 'C23', [(UT, '''    if point_infos is not None:
        for point_info''', '''    elif point_infos is not None:
        for point_info''')], '''
import tempfile, meshio
from jax_fem.utils import save_sol
p = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4')
with tempfile.TemporaryDirectory() as d:
    save_sol(p.fes[0], onp.zeros((12, 1)), d + '/a.vtu', cell_infos=[('c', onp.arange(6.))], point_infos=[('p', onp.arange(12.))])
    m = meshio.read(d + '/a.vtu')
check('p' in m.point_data and 'c' in m.cell_data, 'point data missing')
''', 'cell and point data saved together', 'point data is dropped silently')

bug('box_axes', 'C18', [(GM, 'points_inds_xyz = points_inds.reshape(Nx + 1, Ny + 1, Nz + 1)', 'points_inds_xyz = points_inds.reshape(Nx + 1, Nz + 1, Ny + 1).transpose(0, 2, 1)')], '''
m = box_mesh(2, 3, 4, 1., 1., 1.)
p = Poisson(Mesh(m.points, m.cells_dict['hexahedron']), vec=1, dim=3, ele_type='HEX8')
check(p.fes[0].JxW.min() > 0 and onp.allclose(p.fes[0].JxW.sum(1), 1/24), 'cells of the box mesh do not tile it')
''', 'different cell counts along y and z', 'cells connect the wrong nodes')

bug('arc_psi', 'C15', [(SO, '''              + 2. * psi**2. * Delta_lamda * np.sum(q_aux_mapped**2.))
''', '''              + 2. * psi * Delta_lamda * np.sum(q_aux_mapped**2.))
''')], '''
class Loaded(Poisson):
    def get_mass_map(self):
        return lambda u, x: 4.*u**3 - 1.

p = Loaded(quad_mesh(2, 1), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left], [0], [zero]])
q = -get_q_vec(p)
u = np.zeros(6); lam = 0.; du = np.zeros(6); dl = 0.
qm = assign_zeros_bc(q, p)
for k in range(3):
    u1, lam1, du, dl = arc_length_solver_force_driven(p, u, lam, du, dl, q, Delta_l=.3, psi=.5)
    l2 = np.sum((u1-u)**2) + .25*(lam1-lam)**2*np.sum(qm**2)
    check(abs(l2 - .09) < 1e-8, f'arc length of the step {l2**.5}')
    u, lam = u1, lam1
''', 'force control with psi different from one', 'the corrector leaves the arc-length constraint')

bug('line_search_shrinks', 'C11', [(SO, '''            alpha *= 2.
            break
''', '''            break
''')], '''
p = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left, right], [0, 0], [zero, one]])
dofs = np.linspace(0., 3., p.num_total_dofs_all_vars)
res = apply_bc_vec(jax.flatten_util.ravel_pytree(p.newton_update(p.unflatten_fn_sol_list(dofs)))[0], dofs, p)
A = dense(get_A(p))
inc = np.linalg.solve(A, -res)
check(np.allclose(line_search(p, dofs, inc), dofs + inc), 'line search does not take the full step of a linear problem')
''', 'line search switched on', 'the line search keeps a step with a larger residual')

bug('surface_vars_first', 'C04', [(PR, '''                                    self.selected_face_shape_grads[i], self.nanson_scale[i], *internal_vars_surfaces[i]]

                val, jac = vmap_fn(*input_collection)''', '''                                    self.selected_face_shape_grads[i], self.nanson_scale[i], *internal_vars_surfaces[min(i, 0)]]

                val, jac = vmap_fn(*input_collection)''')], '''
class Robin(Poisson):
    def get_surface_maps(self):
        return [lambda u, x, k: k*u, lambda u, x, k: k*u]

p = Robin(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', location_fns=[left, right])
p.internal_vars_surfaces = [[onp.full(p.nanson_scale[0].shape[::2], 2.)], [onp.full(p.nanson_scale[1].shape[::2], 5.)]]
s = [np.linspace(0., 1., 12)[:, None]]
check(np.allclose(p.newton_update(s)[0], p.compute_residual(s)[0]), 'residual of the tangent evaluation differs')
''', 'two boundary sets with different internal variables of the same shape', 'the tangent of the second surface uses the variables of the first')

bug('local_node_index', 'C07', [(FE, '''        cell_face_inds = np.take(self.cells, self.face_inds, axis=1) # (num_cells, num_faces, num_face_vertices)
''', '''        cell_face_inds = np.broadcast_to(self.face_inds, cell_face_points.shape[:-1]) # (num_cells, num_faces, num_face_vertices)
''')], '''
p = quad_mesh()
fe = Poisson(p, vec=1, dim=2, ele_type='QUAD4').fes[0]
sel = fe.get_boundary_conditions_inds([lambda point, ind: np.isin(ind, np.array([9, 10, 11]))])[0]
check(len(sel) == 2, f'selected {sel.tolist()}')
''', 'an index-aware location function', 'faces are selected by local instead of global node numbers')

bug('adjoint_params', 'C13', [(SO, '''    problem.set_params(params)
    problem.newton_update(sol_list)

    A = get_A(problem)
    v_vec''', '''    problem.newton_update(sol_list)

    A = get_A(problem)
    v_vec''')], '''
class P(Poisson):
    def get_mass_map(self):
        return lambda u, x, k: -np.ones(1)
    def set_params(self, k):
        self.internal_vars = [k * np.ones((self.fes[0].num_cells, self.fes[0].num_quads))]

p = P(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left], [0], [zero]])
opts = {'newton': {'linear': {'spsolve_solver': {}}}}
f = ad_wrapper(p, opts, {'spsolve_solver': {}})
y, vjp = jax.vjp(lambda k: np.sum(f(k)[0]), 2.)
f(7.)
g, = vjp(1.)
check(abs(g + y/2.) < 1e-8, f'gradient {g}, expected {-y/2.}')
''', 'a second forward solve with other parameters between the forward solve and its gradient', 'the adjoint system is assembled with the parameters of the last solve')

bug('relax_guess', 'C16', [(SO, '''        dofs = initial_guess
        dofs = assign_bc(dofs, problem)
''', '''        dofs = initial_guess
''')], '''
p = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left, right], [0, 0], [zero, one]])
s = solver(p, {'dynamic_relax': {'tol': 1e-8, 'info': False, 'info_force': False, 'initial_guess': [np.full((12, 1), .3)]}})[0]
check(np.allclose(s[:3], 0.) and np.allclose(s[-3:], 1.), 'boundary values not met')
''', 'dynamic relaxation started from a guess that does not satisfy the boundary conditions', 'constrained unknowns keep the values of the guess')

bug('flat_falsy_options', 'C17', [(SO, 'cfg = {k: opts[k] for k in _NEWTON_OPTION_KEYS if k in opts}', 'cfg = {k: opts[k] for k in _NEWTON_OPTION_KEYS if opts.get(k)}')], '''
from jax_fem.solver import _resolve_solver_options
m, c = _resolve_solver_options({'rel_tol': 0., 'tol': 1e-9, 'spsolve_solver': {}})
check(m == 'newton' and c.get('rel_tol', 1e-8) == 0., f'rel_tol = 0 lost: {c}')
''', 'legacy flat options with a zero tolerance', 'an explicit zero falls back to the default')

bug('three_variable_offset', 'C04', [(PR, 'self.offset.append(self.offset[i] + self.fes[i].num_total_dofs)', 'self.offset.append(max(self.offset[i], self.fes[i].num_total_dofs))')], '''
class Three(Problem):
    def get_universal_kernel(self):
        def k(sol, x, grads, JxW, vJ, *iv):
            a, b, c = self.unflatten_fn_dof(sol)
            return jax.flatten_util.ravel_pytree([2.*a, 3.*b + a, 5.*c])[0]
        return k

m = quad_mesh(1, 1)
p = Three([m]*3, vec=[1]*3, dim=2, ele_type=['QUAD4']*3, dirichlet_bc_info=[None]*3, quadrature_rule=[None]*3, quadrature_order=[None]*3)
p.newton_update([np.zeros((4, 1))]*3)
A = dense(get_A(p))
J = onp.kron(onp.array([[2., 0, 0], [1., 3., 0], [0, 0, 5.]]), onp.eye(4))
check(onp.allclose(A, J), 'matrix of a three-variable problem')
''', 'three coupled variables', 'the blocks of the third variable land on the second')

bug('face_cells_first', 'C03', [(PR, 'res_list = [res_list[i].at[cells_list_face[i].reshape(-1)].add(weak_form_face_list[i]', 'res_list = [res_list[i].at[cells_list_face[0].reshape(-1)].add(weak_form_face_list[i]')], '''
class Two(Problem):
    def get_universal_kernel(self):
        return lambda sol, *a: 0. * sol
    def get_universal_kernels_surface(self):
        def k(sol, x, vals, grads, nanson, *iv):
            n = self.fes[0].num_nodes
            va, vb = vals[:, :n], vals[:, n:]
            return np.concatenate([nanson[0] @ va, nanson[1] @ vb])
        return [k]

m = quad_mesh(2, 1)
perm = onp.array([5, 4, 3, 2, 1, 0])
inv = onp.argsort(perm)
m2 = Mesh(onp.array(m.points)[perm], inv[onp.array(m.cells)], ele_type='QUAD4')
p = Two([m, m2], vec=[1, 1], dim=2, ele_type=['QUAD4']*2, location_fns=[right], dirichlet_bc_info=[None]*2, quadrature_rule=[None]*2, quadrature_order=[None]*2)
r = p.compute_residual([np.zeros((6, 1))]*2)
check(np.allclose(r[0][perm], r[1]), 'surface load of the second variable')
''', 'two variables whose meshes number the nodes differently, with a surface term', 'surface contributions of the second variable land on other nodes')

bug('overlapping_conditions', 'C08', [(SO, '''                sol[fe.node_inds_list[i], fe.vec_inds_list[i]], unique_indices=True))
            res = res''', '''                sol[fe.node_inds_list[i], fe.vec_inds_list[i]], unique_indices=True))
        for i in range(len(fe.node_inds_list)):
            res = res''')], '''
bot = lambda p: np.isclose(p[1], 0., atol=1e-6)
p = Poisson(quad_mesh(), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left, bot], [0, 0], [one, lambda p: 3.]])
u = assign_bc(np.zeros(12), p)
r = apply_bc_vec(np.zeros(12), u, p)
check(np.allclose(r, 0.), f'residual of the prescribed values is {r}')
''', 'two conditions on the same unknown with non-zero values', 'both values are subtracted from the row')

bug('petsc_nan', 'C12', [(SO, '''    assert err < 0.1, f"PETSc linear solver failed to converge, err = {err}"
''', '''    assert not err >= 0.1, f"PETSc linear solver failed to converge, err = {err}"
''')], '''
A = PETSc.Mat().createAIJ(size=(2, 2))
A.setUp()
for i in range(2):
    for j in range(2):
        A.setValue(i, j, 1.)
A.assemble()
b = onp.array([1., onp.nan])
try:
    x = linear_solver(A, b, None, {'petsc_solver': {}})
    check(False, f'returned {x}')
except AssertionError:
    pass
''', 'a PETSc solve that ends with non-finite values', 'a NaN result is handed back instead of raising')

bug('newton_gives_up', 'C10', [(SO, 'while (rel_res_val > rel_tol) and (res_val > tol):', 'while (rel_res_val > rel_tol) and (res_val > tol) and n_iters < 20:')], '''
class Slow(Problem):
    def get_mass_map(self):
        return lambda u, x: u**3

p = Slow(quad_mesh(1, 1), vec=1, dim=2, ele_type='QUAD4')
s = solver(p, {'newton': {'tol': 1e-24, 'rel_tol': 1e-30, 'initial_guess': [np.ones((4, 1))], 'linear': {'spsolve_solver': {}}}})
r = p.compute_residual(s)[0]
check(np.linalg.norm(r) <= 1e-24, f'returned with residual {np.linalg.norm(r)}')
''', 'a problem that needs more than twenty Newton iterations', 'an unconverged state is returned silently')

bug('keep_row_indices', 'C06', [(FE, '''        self.node_inds_list, self.vec_inds_list, self.vals_list = self.Dirichlet_boundary_conditions(dirichlet_bc_info)

    def get_b''', '''        node_inds_list, vec_inds_list, self.vals_list = self.Dirichlet_boundary_conditions(dirichlet_bc_info)
        # Keep the index arrays when the boundary did not change, so that cached matrix rows stay valid
        if [len(x) for x in node_inds_list] != [len(x) for x in self.node_inds_list]:
            self.node_inds_list, self.vec_inds_list = node_inds_list, vec_inds_list

    def get_b''')], '''
fe = Poisson(quad_mesh(), vec=2, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left], [0], [zero]]).fes[0]
fe.update_Dirichlet_boundary_conditions([[left], [1], [zero]])
check((fe.vec_inds_list[0] == 1).all(), 'the component of the old condition stays')
''', 'a boundary-condition update with as many nodes but another component or place', 'the old selection stays in force with the new values')

bug('cached_constraint_matrix', 'C14', [(SO, '''        P = PETSc.Mat().createAIJ(size=problem.P_mat.shape, csr=(problem.P_mat.indptr.astype(PETSc.IntType, copy=False),
                                                   problem.P_mat.indices.astype(PETSc.IntType, copy=False), problem.P_mat.data))
''', '''        P = getattr(problem, '_petsc_P_mat', None)
        if P is None or P.getSize() != problem.P_mat.shape:
            P = PETSc.Mat().createAIJ(size=problem.P_mat.shape, csr=(problem.P_mat.indptr.astype(PETSc.IntType, copy=False),
                                                       problem.P_mat.indices.astype(PETSc.IntType, copy=False), problem.P_mat.data))
            problem._petsc_P_mat = P
'''), (SO, '        P_T = P.transpose()\n', '        P_T = P.transpose(PETSc.Mat())\n')], '''
import scipy.sparse as sp
p = Poisson(quad_mesh(1, 1), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=[[left], [0], [zero]])
p.newton_update([np.zeros((4, 1))])
K = dense(get_A(p))
P1 = sp.csr_array(onp.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 1]]))
P2 = sp.csr_array(onp.array([[1., 0, 0], [0, 1, 0], [0, 0, 1], [0, 1., 0]]))
for P in (P1, P2):
    p.P_mat = P
    A = dense(get_A(p))
    check(onp.allclose(A, P.T @ K @ P), 'matrix of an earlier constraint')
''', 'the constraint matrix of a problem is replaced by another of the same shape', 'the reduced matrix is projected with the old constraint matrix')

bug('hex27_order', 'C01', [(BA, '17, 10, 12, 15, 14, 22, 23, 21, 24, 20, 25, 26]', '17, 10, 12, 15, 14, 21, 24, 22, 23, 20, 25, 26]')], '''
import basix
from jax_fem.basis import get_elements
r = get_elements('HEX27')[-1]
pts = basix.create_element(basix.ElementFamily.P, basix.CellType.hexahedron, 2).points[r]
# meshio / VTK face centres: x-, x+, y-, y+, z-, z+
want = [[0, .5, .5], [1, .5, .5], [.5, 0, .5], [.5, 1, .5], [.5, .5, 0], [.5, .5, 1]]
check(onp.allclose(pts[20:26], want), f'face centre nodes {pts[20:26].tolist()}')
''', 'HEX27 elements', 'face centre nodes are exchanged, so fields are not reproduced')

bug('face_weight_first', 'C02', [(FE, 'selected_weights = self.face_quad_weights[boundary_inds[:, 1]]  #', 'selected_weights = self.face_quad_weights[boundary_inds[:, 1]*0]  #')], '''
pts = onp.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
p = Poisson(Mesh(pts, onp.array([[0, 1, 2, 3]])), vec=1, dim=3, ele_type='TET4')
fe = p.fes[0]
inds = np.array([[0, f] for f in range(4)])
a = fe.get_face_shape_grads(inds)[1].sum(1)
check(onp.allclose(sorted(a), [.5, .5, .5, 3**.5/2]), f'face areas {a}')
''', 'faces of tetrahedra or triangles, whose reference faces have different sizes', 'areas of all faces but one kind are wrong')

bug('last_batch', 'C05', [(PR, '''                    input_col = jax.tree_util.tree_map(lambda x: x[i * batch_size:], input_collection)

                val = vmap_fn''', '''                    rest = batch_size + self.num_cells % batch_size if batch_size > 1 else self.num_cells - i
                    input_col = jax.tree_util.tree_map(lambda x: x[-rest:], input_collection)

                val = vmap_fn''')], '''
m = rectangle_mesh(9, 5, 1., 1.)
for n in (20, 40, 45):
    cells = m.cells_dict['quad'][:n]
    keep = onp.unique(cells)
    new = onp.zeros(len(m.points), dtype=int); new[keep] = onp.arange(len(keep))
    p = Poisson(Mesh(m.points[keep], new[cells], 'QUAD4'), vec=1, dim=2, ele_type='QUAD4')
    u = np.asarray(m.points[keep][:, :1]) ** 2
    a = p.newton_update([u])[0]
    try:
        b = p.compute_residual([u])[0]
    except Exception as e:
        check(False, repr(e)[:200])
    check(onp.allclose(a, b), f'{n} cells: residual differs from the one computed with the tangent')
''', 'at least 40 cells and a number that is not a multiple of the batch count', 'the last batch of the residual loses cells')

bug('spectral_nonsymmetric', 'C24', [(EI, "G = np.einsum('aik,bjl->abijkl', M, M) + np.einsum('ail,bjk->abijkl', M, M)", "G = 2.*np.einsum('aik,bjl->abijkl', M, M)")], '''
from applications.phase_field_fracture.eigen import get_eigen_f_custom
f = get_eigen_f_custom(lambda x: x**2)
x = onp.diag([1., 2., 4.]) + .1
v = onp.array([[0., 1., 0.], [0, 0, 0], [0, 0, 0]])
d = jax.jvp(f, (np.asarray(x),), (np.asarray(v),))[1]
s = (v + v.T) / 2
check(onp.allclose(d, x @ s + s @ x), 'derivative in a non-symmetric direction')
''', 'a derivative with respect to a single off-diagonal entry (forward or reverse mode), not a symmetric direction', 'the tangent of the spectral function is not symmetric in its last index pair')

bug('tensile_history', 'C24', [(PF, 'history = np.maximum(psi_plus, history_old)', 'history = np.where(np.max(psi_plus) > np.max(history_old), psi_plus, history_old)')], '''
import ast
src = open('applications/phase_field_fracture/example.py').read()
body = [n for n in ast.parse(src).body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) or (isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda))]
from applications.phase_field_fracture.eigen import get_eigen_f_custom
ns = dict(np=np, onp=onp, jax=jax, Problem=Problem, get_eigen_f_custom=get_eigen_f_custom, mu=80., lmbda=120.)
exec(compile(ast.Module(body, []), 'example', 'exec'), ns)
p = ns['Elasticity'](quad_mesh(2, 1), vec=2, dim=2, ele_type='QUAD4')
u = .01 * onp.minimum(onp.asarray(p.fes[0].points), [.5, 0.])
old = onp.array([[0.] * 4, [.001] * 4])
h = p.compute_history(np.asarray(u), np.asarray(old))
check(bool(np.all(h >= old)) and bool(np.all(h[0] > 0)), f'history {h.tolist()}')
''', 'unloading in one place while another is loaded further', 'the crack driving force decreases where the old history was larger')

bug('periodic_mapping', 'C25', [(PB, 'mappings[i](point_A)[None, :] - points_set_B', 'mappings[0](point_A)[None, :] - points_set_B')], '''
from applications.periodic_bc.example import periodic_boundary_conditions
m = quad_mesh(2, 2, 1., 1.)
bottom = lambda p: np.isclose(p[1], 0., atol=1e-6)
top = lambda p: np.isclose(p[1], 1., atol=1e-6)
shift = lambda *d: (lambda p: p + np.array(d))
try:
    P = periodic_boundary_conditions([[left, bottom], [right, top], [shift(1., 0.), shift(0., 1.)], [0, 1]], m, 2)
except Exception as e:
    check(False, repr(e))
u = P @ onp.arange(1., P.shape[1] + 1)
u = u.reshape(-1, 2)
X = onp.asarray(m.points)
for k in range(3):
    y = k / 2
    at = lambda a, b: onp.argmin(onp.abs(X - [a, b]).sum(1))
    check(u[at(0, y), 0] == u[at(1, y), 0] and u[at(y, 0), 1] == u[at(y, 1), 1], 'ties')
''', 'two periodic directions', 'the second direction is matched with the mapping of the first')

UL='applications/updated_lagrangian/example.py'; HC='applications/scalability/hyperelastic3d_common.py'
bug('push_order', 'C26', [(UL, 'return jnp.einsum("qij,qjk->qik", F_inc, F_p)', 'return jnp.einsum("qij,qjk->qik", F_p, F_inc)')], '''
from applications.updated_lagrangian import example as U
pb = U.build_mesh_and_problem()
fe = pb.fes[0]
X = onp.asarray(fe.points)
I = np.broadcast_to(np.eye(3), fe.shape_grads.shape[:2] + (3, 3))
A = onp.array([[0., .2, 0.], [0, 0, 0], [0, 0, 0]])
B = onp.array([[0., 0., 0.], [.3, 0, 0], [0, 0, 0]])
u1 = X @ A.T
F = U.push_F_prev(fe, X, u1, I)
u2 = (X + u1) @ B.T
F = U.push_F_prev(fe, X + u1, u2, F)
want = (onp.eye(3) + B) @ (onp.eye(3) + A)
check(onp.allclose(F[0, 0], want), 'accumulated deformation gradient')
''', 'at least two load steps whose deformations do not commute', 'the accumulated deformation gradient is composed in the wrong order')

bug('rho_bulk', 'C26', [(HC, '''            kappa = E / (3.0 * (1.0 - 2.0 * nu))
            J = np.linalg.det(F)
            J = np.maximum''', '''            kappa = self.E / (3.0 * (1.0 - 2.0 * nu))
            J = np.linalg.det(F)
            J = np.maximum''')], '''
from applications.scalability.hyperelastic3d_common import build_hyperelastic3d_problem_inverse
p, m = build_hyperelastic3d_problem_inverse(1, 1, 1)
f = p.get_tensor_map()
H = np.array([[.1, .02, 0.], [0., -.05, .01], [.03, 0., .04]])
check(np.allclose(f(H, .5), .5 * f(H, 1.)), 'stress is not proportional to the stiffness field')
''', 'a stiffness field different from one and a change of volume', 'the bulk modulus ignores the stiffness field')

DEFS = '''
import ast
def definitions(path, extra=()):
    def const(v):
        return isinstance(v, ast.Lambda) or not any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute)) for x in ast.walk(v))
    body = [n for n in ast.parse(open(path).read()).body if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.ImportFrom))
            or isinstance(n, ast.Import) and 'matplotlib' not in n.names[0].name or isinstance(n, ast.Assign) and const(n.value)]
    ns = {'__name__': 'definitions', '__file__': path}
    exec(compile(ast.Module(body, []), path, 'exec'), ns)
    return ns
'''
ST='applications/stokes/example.py'; TMX='applications/thermal_mechanical/example.py'; TF='applications/thermal_mechanical_full/example.py'; QE='applications/quiet_element/example.py'
bug('tri6_midsides', 'C27', [(ST, 'cell[[0, 2, 1, 5, 4, 3]]', 'cell[[0, 2, 1, 4, 5, 3]]')], DEFS + '''
ns = definitions('applications/stokes/example.py')
p = onp.array([[0., 0], [0, 1], [1, 0], [0, .5], [.5, .5], [.5, 0]])
out = ns['transform_cells'](onp.array([[0, 1, 2, 3, 4, 5]]), p, 'TRI6')[0]
q = p[out]
check(onp.allclose(q[3], (q[0] + q[1]) / 2) and onp.allclose(q[4], (q[1] + q[2]) / 2) and onp.allclose(q[5], (q[2] + q[0]) / 2), f'midside nodes {out.tolist()}')
''', 'a clockwise six-node triangle', 'two midside nodes of reoriented triangles are exchanged')

bug('solid_remelts', 'C27', [(TMX, 'powder_to_liquid = (phase == POWDER) & (T_quad > Tl)', 'powder_to_liquid = (phase != LIQUID) & (T_quad > Tl)')], DEFS + '''
ns = definitions('applications/thermal_mechanical/example.py')
from jax_fem.generate_mesh import box_mesh, Mesh
b = box_mesh(1, 1, 1, 1., 1., 1.)
p = ns['Plasticity'](Mesh(b.points, b.cells_dict['hexahedron'], ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8')
s, e, d, ph = p.internal_vars
hot = np.full((8, 1), 2000.)
out = p.update_dT_and_phase(0. * hot, hot, [s, e, d, np.full(ph.shape, ns['SOLID'])])
check(bool(np.all(out[3] == ns['SOLID'])), 'solid material changed its phase')
''', 'a second laser pass over solidified material', 'solid turns into liquid and loses its thermal strain and stiffness')

bug('old_strain_dropped', 'C27', [(TF, 'np.trace((epsilon-epsilon_old)/dt,axis1=1,axis2=2)', 'np.trace(epsilon/dt,axis1=1,axis2=2)')], DEFS + '''
ns = definitions('applications/thermal_mechanical_full/example.py')
m = quad_mesh(2, 1)
p = ns['thermal_mechanical_full']([m, m], vec=[2, 1], dim=2, ele_type=['QUAD4', 'QUAD4'], quadrature_order=[2, 2])
n = len(m.points)
u = np.stack([.01 * np.arange(float(n)) ** 2, np.zeros(n)], axis=1)
p.set_params([u, np.zeros((n, 1)), .5])
r = p.compute_residual([u, np.zeros((n, 1))])
check(bool(np.all(np.abs(r[1]) < 1e-9)), 'a resting deformation produces heat')
''', 'a second time step, with a deformed state before it', 'the thermoelastic heat source uses the strain instead of its rate')

bug('top_faces_any', 'C28', [(QE, 'if onp.all(onp.isclose(face_points[:, 2], laser_center_z, atol=1e-5)):', 'if onp.any(onp.isclose(face_points[:, 2], laser_center_z, atol=1e-5)):')], DEFS + '''
ns = definitions('applications/quiet_element/example.py')
from jax_fem.generate_mesh import box_mesh, Mesh
b = box_mesh(2, 1, 1, 2., 1., 1.)
p = ns['Thermal'](Mesh(b.points, b.cells_dict['hexahedron'], ele_type='HEX8'), vec=1, dim=3, dirichlet_bc_info=[[lambda x: False], [0], [lambda x: 300.]], location_fns=[lambda x: True])
ext = ns['initialize_hash_map'](p, onp.array([True, False]))[0]
tab = ns['get_active_face_truth_tab'](p, ext, 1.)
check(tab[:, 0].sum() == 6 and tab[:, 1].sum() == 1, f'top faces {tab.sum(axis=0).tolist()}')
''', 'a side face that reaches up to the height of the laser', 'the laser also heats the side walls next to the melt pool')

bug('births_inner_faces', 'C28', [(QE, 'new_born_cell_inds = onp.argwhere(active_cell_truth_tab_old != active_cell_truth_tab_new).reshape(-1)', 'new_born_cell_inds = onp.argwhere(active_cell_truth_tab_old != active_cell_truth_tab_new)[:onp.sum(active_cell_truth_tab_old)].reshape(-1)')], DEFS + '''
ns = definitions('applications/quiet_element/example.py')
from jax_fem.generate_mesh import box_mesh, Mesh
b = box_mesh(3, 1, 1, 3., 1., 1.)
p = ns['Thermal'](Mesh(b.points, b.cells_dict['hexahedron'], ele_type='HEX8'), vec=1, dim=3, dirichlet_bc_info=[[lambda x: False], [0], [lambda x: 300.]], location_fns=[lambda x: True])
a, c = onp.array([True, False, False]), onp.array([True, True, True])
ext, cf, hm, inner, every = ns['initialize_hash_map'](p, a)
check(len(ns['update_hash_map'](a, c, cf, hm, inner, every)) == 14, 'external faces after the birth of two cells')
''', 'a birth of more cells than were active before', 'some newborn cells are left out of the face table')

DX='applications/dendrite/explicit_fem/example.py'; DI='applications/dendrite/implicit_fem/example.py'; CPM='applications/crystal_plasticity/models.py'; TMC='applications/third_medium_contact/example.py'
DENDRITE = DEFS + '''
m = quad_mesh(2, 2)
c = dict(K=1.2, T_eq=1., a=.1, alpha=.9, delta=%s, dt=.01, eps_bar=.3, gamma=10., tau=.4, J=4)
n = len(m.points)
X = onp.asarray(m.points)
p, T = np.asarray(.3 + .5 * X[:, :1] + .2 * X[:, 1:] ** 2), np.asarray(.1 + .4 * X[:, :1] * X[:, 1:])
'''
bug('anisotropy_transposed', 'C29', [(DX, 'np.stack((-p_grads_y, p_grads_x)).T', 'np.stack((p_grads_y, -p_grads_x)).T')], DENDRITE % '.2' + '''
ns = definitions('applications/dendrite/explicit_fem/example.py')
pb = ns['SolidificationForce'](mesh=[m, m], vec=[1, 1], dim=2, ele_type=['QUAD4', 'QUAD4'], additional_info=[c])
iso = ns['SolidificationForce'](mesh=[m, m], vec=[1, 1], dim=2, ele_type=['QUAD4', 'QUAD4'], additional_info=[{**c, 'a': 0.}])
def res(p):
    iv = [np.zeros((len(m.cells), iso.fe_p.num_quads))]
    return iso.compute_residual_vars([p, 0. * p], iv, iso.internal_vars_surfaces)[0]
# the gradient term is the variation of 1/2 eps(theta)^2 |grad p|^2; a circle of directions keeps their sum
def energy(p):
    g = np.einsum('cn,cqnd->cqd', p[iso.fe_p.cells, 0], iso.fe_p.shape_grads)
    th = np.arctan2(g[..., 1], g[..., 0])
    e = .3 * (1. + .2 * np.cos(4 * (th - np.pi / 2)))
    return np.sum(.5 * e ** 2 * np.sum(g * g, -1) * iso.fe_p.JxW)
q = np.einsum('cn,qn->cq', p[iso.fe_p.cells, 0], iso.fe_p.shape_vals)
src = -q * (1. - q) * (q - .5 + .9 / np.pi * np.arctan(10.))
vol = np.zeros((n, 1)).at[iso.fe_p.cells.reshape(-1), 0].add(np.einsum('cq,qn,cq->cn', src, iso.fe_p.shape_vals, iso.fe_p.JxW).reshape(-1))
check(np.allclose(res(p), jax.grad(energy)(p) + vol, atol=1e-9), 'the phase equation is not the variation of its energy')
''', 'an anisotropic interface energy and a gradient off the symmetry axes', 'the torque term of the phase equation has the wrong sign: crystals grow against their preferred directions')

bug('latent_heat_scaled', 'C29', [(DI, 'tmp7 = -K*(p - p_old)/dt', 'tmp7 = -K*(p - p_old)/self.params["tau"]')], DENDRITE % '0.' + '''
ns = definitions('applications/dendrite/implicit_fem/example.py')
pb = ns['Solidification'](mesh=[m, m], vec=[1, 1], dim=2, ele_type=['QUAD4', 'QUAD4'], additional_info=[c])
pb.set_params([p, T, np.zeros(len(m.cells))])
d = .1 * X[:, :1]
r = pb.compute_residual([p + d, T + 1.2 * d])[1] - pb.compute_residual([p, T])[1]
check(abs(float(np.sum(r))) < 1e-9, 'released latent heat does not warm the body')
''', 'a step in which the phase changes (tau differs from the time step)', 'the implicit dendrite step releases the wrong amount of latent heat')

CRYSTAL = '''
import importlib.util
spec = importlib.util.spec_from_file_location('cp', 'applications/crystal_plasticity/models.py')
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
from jax_fem.generate_mesh import box_mesh, Mesh
b = box_mesh(1, 1, 1, 1., 1., 1.)
def crystal(q):
    pb = mod.CrystalPlasticity(Mesh(b.points, b.cells_dict['hexahedron'], ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8', additional_info=(onp.asarray(q), onp.array([0])))
    pb.dt = 1e-2
    return pb
H = np.array([[.0015, .0004, 0.], [.0002, -.0006, .0003], [0., .0001, -.0005]])
q = onp.array([[.8, 0., .6, 0.]])
a, c = crystal(onp.array([[1., 0., 0., 0.]])), crystal(q)
R = onp.asarray(mod.get_rot_mat(q[0]))
'''
bug('slip_frame', 'C30', [(CPM, 'L_plastic_inc = np.sum(gamma_inc[:, None, None] * rotate_tensor_rank_2_vmap(rot_mat, self.Schmid_tensors), axis=0)', 'L_plastic_inc = rotate_tensor_rank_2(rot_mat.T, np.sum(gamma_inc[:, None, None] * self.Schmid_tensors, axis=0))')], CRYSTAL + '''
P = lambda pb, h: pb.get_tensor_map()(h, *[v[0, 0] for v in pb.internal_vars])
# turning the crystal and the load together turns the stress
h = 3. * H
check(np.allclose(P(c, R @ h @ R.T), R @ P(a, h) @ R.T, rtol=1e-6, atol=1e-4), 'response depends on the frame')
''', 'a rotated grain that yields', 'plastic flow happens in directions turned the wrong way')

bug('tangent_at_zero', 'C30', [(CPM, 'jac_y = jax.jacfwd(implicit_residual, argnums=1)(x, y)', 'jac_y = jax.jacfwd(implicit_residual, argnums=1)(x, 0.*y)')], CRYSTAL + '''
P = lambda h: c.get_tensor_map()(h, *[v[0, 0] for v in c.internal_vars])
h, v = 3. * H, np.array([[.3, .1, 0.], [0., -.5, .2], [.1, 0., .4]])
d = jax.jvp(P, (h,), (v,))[1]
e = 1e-6
num = (P(h + e * v) - P(h - e * v)) / (2 * e)
check(np.allclose(d, num, rtol=1e-3, atol=1e-3 * float(np.abs(num).max())), 'tangent differs from the change of the stress')
''', 'a plastic step (the elastic tangent stays right)', 'the tangent handed to the global Newton method ignores plastic flow')

bug('rotations_of_neighbours', 'C30', [(TMC, 'mean_Rs = np.mean(Rs, axis=1, keepdims=True)', 'mean_Rs = np.mean(Rs, axis=(0, 1), keepdims=True)'), (TMC, 'mean_Rs = np.repeat(mean_Rs, repeats=Rs.shape[1], axis=1)', 'mean_Rs = np.broadcast_to(mean_Rs, Rs.shape)')], DEFS + '''
ns = definitions('applications/third_medium_contact/example.py')
m = quad_mesh(2, 1)
p = ns['Contact'](m, vec=2, dim=2, ele_type='QUAD4', quadrature_rule='Gauss-Lobatto-Legendre', quadrature_order=2, dirichlet_bc_info=[[left], [0], [zero]])
x = onp.asarray(m.points)
mid = x[:, 0].max() / 2
u = onp.zeros(x.shape)
u[:, 1] = onp.where(x[:, 0] > mid, .4 * (x[:, 0] - mid), 0.)
Rs = p.post_processing(np.asarray(u))
check(onp.allclose(Rs[0], onp.eye(3), atol=1e-4), 'an undeformed cell remembers a rotation')
''', 'rotations that differ between cells', 'the stored rotation of a cell is the mean over the mesh')
