"""C09: the reused global matrix never carries stale entries."""
import numpy as onp
import jax.numpy as np
from vf import models as M

S = M.S
zero = lambda p: 0.0

CONDS = {
    'scalar': [
        [[[0], 0]],
        [[[1], 0]],
        [[[0, 3], 0], [[3, 1], 0]],
        None,
    ],
    'vector': [
        [[[0, 2], 0]],
        [[[0, 2], 1]],
        [[[0], 1], [[2], 0]],
        [],
    ],
    'coupled': [
        ([[[0], 1]], [[[2], 0]]),
        ([[[0], 1]], [[[1], 0]]),
        ([[[0], 0], [[3], 1]], None),
        (None, [[[2, 0], 0]]),
    ],
}
OPS = ['assemble', 'conditions', 'element', 'parameters', 'adjoint', 'solve']


def info(c):
    if c is None:
        return None
    return [[M.node_set(n) for n, _ in c], [k for _, k in c], [zero for _ in c]]


class ScalarP(M.Scalar):
    def set_params(self, k):
        self.internal_vars = [k, np.ones(M.quad_shape(self.fes[0]))]


class VectorP(M.Vector):
    def set_params(self, k):
        self.internal_vars = [k, np.ones(M.quad_shape(self.fes[0]))]


class CoupledP(M.Coupled):
    def set_params(self, k):
        self.internal_vars = [k]


def make(kind, k):
    p, c = M.mesh_for('TRI3', 1)
    cond = CONDS[kind][k]
    if kind == 'coupled':
        return CoupledP([M.Mesh(p, c, ele_type='TRI3')] * 2, vec=[2, 1], dim=2, ele_type=['TRI3'] * 2,
                        quadrature_order=[1, 1], dirichlet_bc_info=[info(x) for x in cond])
    cls, vec = (ScalarP, 1) if kind == 'scalar' else (VectorP, 2)
    return cls(M.Mesh(p, c, ele_type='TRI3'), vec=vec, dim=2, ele_type='TRI3', dirichlet_bc_info=info(cond))


def set_cond(prob, kind, k):
    cond = CONDS[kind][k]
    for fe, c in zip(prob.fes, cond if kind == 'coupled' else [cond]):
        fe.update_Dirichlet_boundary_conditions(info(c))


def history(ctx, kind, first, length, starts=4):
    """first operation fixed, the others arbitrary; then compare."""
    c0 = ctx.choose('start', starts)
    prob = make(kind, c0)
    n = prob.num_total_dofs_all_vars
    fe0 = prob.fes[0]
    cnt = [0]

    def fresh(name, shape, lo, hi):
        cnt[0] += 1
        return ctx.array(f'{name}{cnt[0]}', shape, lo, hi)

    def state():
        return prob.unflatten_fn_sol_list(fresh('u', (n,), -2, 2))

    def nonlinear():
        # the values of one assembly only matter as values: a fresh array stands for them
        prob.V = fresh('V', (len(prob.I),), -4, 4)
    par = np.ones(M.quad_shape(fe0))
    prob.set_params(par)
    edits = []

    def linear(A, b, x0, o):
        M.dense_mat(A)
        raise M.Stop()

    with M.fake_libs(ctx):
        nonlinear()
        S.get_A(prob)
        for step in range(length):
            op = first if step == 0 else OPS[ctx.choose(f'op{step}', len(OPS))]
            if op == 'assemble':
                nonlinear()
                S.get_A(prob)
            elif op == 'conditions':
                c0 = (c0 + 1 + ctx.choose(f'cond{step}', 3)) % 4
                set_cond(prob, kind, c0)
                edits = []
            elif op == 'element':
                # replace one index array inside the existing lists
                for fe in prob.fes:
                    if fe.node_inds_list:
                        new = np.asarray(onp.asarray(fe.node_inds_list[-1])[:1] * 0 + 3)
                        fe.node_inds_list[-1] = new
                        fe.vec_inds_list[-1] = fe.vec_inds_list[-1][:1]
                        fe.vals_list[-1] = fe.vals_list[-1][:1]
            elif op == 'parameters':
                par = fresh('k', M.quad_shape(fe0), 0.5, 2)
                prob.set_params(par)
            elif op == 'adjoint':
                S.implicit_vjp(prob, prob.unflatten_fn_sol_list(np.zeros(n)), par, prob.unflatten_fn_sol_list(np.ones(n)),
                               {'custom_solver': lambda A, b, x0, o: np.zeros(n)})
            elif op == 'solve':
                try:
                    S.solver(prob, {'newton': {'initial_guess': prob.unflatten_fn_sol_list(onp.full(n, 0.5)),
                                               'tol': -1.0, 'rel_tol': -1.0, 'linear': {'custom_solver': linear}}})
                except M.Stop:
                    pass
        # final state
        prob.set_params(par)
        sol = prob.unflatten_fn_sol_list(np.linspace(-1.0, 1.0, n))
        prob.newton_update(sol)
        A = M.dense_mat(S.get_A(prob))
        other = make(kind, c0)
        for fe, fo in zip(prob.fes, other.fes):
            fo.node_inds_list = list(fe.node_inds_list)
            fo.vec_inds_list = list(fe.vec_inds_list)
            fo.vals_list = list(fe.vals_list)
        other.set_params(par)
        other.newton_update(sol)
        B = M.dense_mat(S.get_A(other))
        ctx.close('matrix after the history', A, B)
        # and once more with entirely arbitrary entries
        V = ctx.array('Vfin', (len(prob.I),), -4, 4)
        prob.V = other.V = V
        ctx.close('matrix of arbitrary entries', M.dense_mat(S.get_A(prob)), M.dense_mat(S.get_A(other)))
        ctx.close('matrix agrees with row elimination', M.dense_mat(S.get_A(prob)),
                  M.bc_matrix(other, M.dense_coo(prob.I, prob.J, V, n)))


def units(tier):
    U = []
    for kind in ('scalar', 'vector', 'coupled'):
        for op in OPS:
            L = 3 if tier == 'thorough' else 2
            U.append({'name': f'{kind}-{op}-first', 'fn': history, 'kw': {'kind': kind, 'first': op, 'length': L,
                             'starts': 4 if kind == 'scalar' or tier == 'thorough' else 2},
                      'cost': 3 if op == 'conditions' else 1, 'cfg': {'max_paths': 20000, 'validate': 3},
                      'bounds': f'2-triangle mesh, 4 condition layouts, all histories of {L} operations after the first assembly; all entries and parameters'})
    return U
