"""C08: row elimination imposes Dirichlet conditions exactly."""
import numpy as onp
import jax
import jax.numpy as np
from vf import models as M, oracle as O

S = M.S


def problem(ctx, kind, overlap):
    """A problem with several (overlapping) conditions and free values."""
    zero = lambda p: 0.0
    if kind == 'scalar':
        p, c = M.mesh_for('QUAD4', 2)
        info = [[M.node_set([0, 3]), M.node_set([3, 4, 1]), M.node_set([4])], [0, 0, 0], [zero] * 3]
        if not overlap:
            info = [[M.node_set([0, 3]), M.node_set([5])], [0, 0], [zero] * 2]
        prob = M.Scalar(M.Mesh(p, c, ele_type='QUAD4'), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=info)
        qs = M.quad_shape(prob.fes[0])
        prob.internal_vars = [np.ones(qs), ctx.array('m', qs, -1, 1)]
    elif kind == 'vector':
        p, c = M.mesh_for('TRI3', 1)
        info = [[M.node_set([0, 2]), M.node_set([2, 1]), M.node_set([2, 0, 3])], [1, 0, 1], [zero] * 3]
        if not overlap:
            info = [[M.node_set([0, 2]), M.node_set([2, 1])], [1, 0], [zero] * 2]
        prob = M.Vector(M.Mesh(p, c, ele_type='TRI3'), vec=2, dim=2, ele_type='TRI3', dirichlet_bc_info=info)
        qs = M.quad_shape(prob.fes[0])
        prob.internal_vars = [ctx.array('lam', qs, 0.5, 2), np.ones(qs)]
    else:
        p, c = M.mesh_for('TRI3', 1)
        ia = [[M.node_set([1]), M.node_set([1, 3])], [0, 1], [zero] * 2]
        ib = [[M.node_set([2, 0]), M.node_set([0])], [0, 0], [zero] * 2] if overlap else [[M.node_set([2])], [0], [zero]]
        prob = M.Coupled([M.Mesh(p, c, ele_type='TRI3')] * 2, vec=[2, 1], dim=2, ele_type=['TRI3'] * 2,
                         quadrature_order=[1, 1], dirichlet_bc_info=[ia, ib])
        prob.internal_vars = [ctx.array('k', M.quad_shape(prob.fes[0]), 0.5, 2)]
    k = 0
    for fe in prob.fes:
        for i in range(len(fe.vals_list)):
            # above the range of the states: no state meets the conditions by chance
            fe.vals_list[i] = ctx.array(f'val{k}', (len(fe.vals_list[i]),), 2.5, 4)
            k += 1
    return prob


def vectors(ctx, kind, overlap):
    prob = problem(ctx, kind, overlap)
    n = prob.num_total_dofs_all_vars
    r, u = ctx.array('r', (n,), -3, 3), ctx.array('u', (n,), -3, 2)
    sc = ctx.scalar('scale', -2, 2)
    bc = M.constrained(prob)
    ctx.close('apply_bc_vec', S.apply_bc_vec(r, u, prob), M.bc_residual(prob, u, 1.0, r))
    ctx.close('apply_bc_vec scaled', S.apply_bc_vec(r, u, prob, sc), M.bc_residual(prob, u, sc, r))
    ctx.close('apply_bc', S.apply_bc(lambda d: r * 2.0 + d, prob, sc)(u), M.bc_residual(prob, u, sc, r * 2.0 + u))
    want1, want0, wantv, cop = u, u, u, np.zeros(n)
    for d, v in bc.items():
        want1, want0, wantv = want1.at[d].set(1.0), want0.at[d].set(0.0), wantv.at[d].set(v)
        cop = cop.at[d].set(u[d])
    ctx.close('assign_bc', S.assign_bc(u, prob), wantv)
    ctx.close('assign_ones_bc', S.assign_ones_bc(u, prob), want1)
    ctx.close('assign_zeros_bc', S.assign_zeros_bc(u, prob), want0)
    ctx.close('copy_bc', S.copy_bc(u, prob), cop)
    ctx.close('a state meeting the conditions has no constrained residual',
              np.stack([S.apply_bc_vec(r, wantv, prob)[d] for d in bc]), np.zeros(len(bc)))


def matrix(ctx, kind, overlap):
    prob = problem(ctx, kind, overlap)
    n = prob.num_total_dofs_all_vars
    u = ctx.array('u', (n,), -2, 2)
    with M.fake_libs(ctx):
        r = M.flat(prob.newton_update(prob.unflatten_fn_sol_list(u)))
        A = M.dense_mat(S.get_A(prob))
    ctx.close('constrained matrix', A, M.bc_matrix(prob, M.fresh_matrix(prob)))
    # the derivative of the constrained residual is the constrained matrix
    ctx.close('matrix is the derivative of the constrained residual', A,
              ctx.jacobian(lambda d: S.apply_bc_vec(M.flat(prob.compute_residual(prob.unflatten_fn_sol_list(d))), d, prob), u),
              1e-7)


def system(ctx, kind, overlap):
    """What the solver hands to the linear backend at an arbitrary start."""
    prob = problem(ctx, kind, overlap)
    n = prob.num_total_dofs_all_vars
    u = ctx.array('u', (n,), -2, 2)
    seen = {}

    def linear(A, b, x0, opts):
        seen.update(A=M.dense_mat(A), b=b, x0=x0)
        raise M.Stop()
    with M.fake_libs(ctx):
        try:
            S.solver(prob, {'newton': {'initial_guess': prob.unflatten_fn_sol_list(u), 'tol': -1.0, 'rel_tol': -1.0,
                                       'linear': {'custom_solver': linear}}})
        except M.Stop:
            pass
    ctx.check('linear backend called', 'A' in seen)
    prob.newton_update(prob.unflatten_fn_sol_list(u))
    ctx.close('right-hand side', seen['b'], -M.bc_residual(prob, u))
    ctx.close('matrix', seen['A'], M.bc_matrix(prob, M.fresh_matrix(prob)))


def units(tier):
    U = []
    for kind in ('scalar', 'vector', 'coupled'):
        for ov in (False, True):
            for fn in (vectors, matrix, system):
                U.append({'name': f'{fn.__name__}-{kind}{"-overlap" if ov else ""}', 'fn': fn,
                          'kw': {'kind': kind, 'overlap': ov}, 'cost': 1 if kind != 'coupled' else 3,
                          'bounds': 'fixed mesh (2 cells) and condition sets; all residuals, states, prescribed values, load factors'})
    return U
