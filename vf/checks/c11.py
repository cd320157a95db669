"""C11: Newton solves linear problems exactly, whatever the starting point."""
import numpy as onp
import jax.numpy as np
from vf import models as M
from vf.checks.c10 import problem as adversary

S = M.S
zero = lambda p: 0.0

ASSUMPTIONS = ['the linear solve is exact (its contract); stiffness entries are fixed numbers, loads, starts and prescribed values are free']


class Heat(M.Problem):
    def get_tensor_map(self):
        return lambda g, s: 1.3 * g

    def get_mass_map(self):
        return lambda u, x, s: 0.4 * u + s


class HeatSurf(Heat):
    def get_surface_maps(self):
        return [lambda u, x, q: 0.7 * u + q for _ in self.location_fns]


class Elastic(M.Problem):
    def get_tensor_map(self):
        def f(g, s):
            e = 0.5 * (g + g.T)
            return 0.9 * np.trace(e) * np.eye(self.dim) + 1.1 * e + s * np.eye(self.dim)
        return f


class Mixed(M.Coupled):
    """Affine coupled problem."""

    def get_universal_kernel(self):
        import jax

        def k(cell_sol_flat, xq, grads, JxW, vgJ, s):
            u, p = self.unflatten_fn_dof(cell_sol_flat)
            n0 = self.fes[0].num_nodes
            gu = np.sum(u[None, :, :, None] * grads[:, :n0][:, :, None, :], axis=1)
            gp = np.sum(p[None, :, :, None] * grads[:, n0:][:, :, None, :], axis=1)
            pq = np.sum(p[None] * self.fes[1].shape_vals[:, :, None], axis=1)
            s0 = gu + (0.5 * pq + s[:, None])[:, :, None] * np.ones((1, 2, 2))
            r0 = np.sum(s0[:, None] * vgJ[:, :n0], axis=(0, -1))
            r1 = np.sum(gp[:, None] * vgJ[:, n0:], axis=(0, -1)) + np.sum(
                (0.3 * pq + gu[:, :1, 0])[:, None, :] * self.fes[1].shape_vals[:, :, None] * JxW[1][:, None, None], axis=0)
            return jax.flatten_util.ravel_pytree([r0, r1])[0]
        return k


def make(ctx, kind):
    t = 'QUAD4' if kind in ('heat', 'heatsurf') else 'TRI3'
    p, c = M.mesh_for(t, 1)
    mesh = M.Mesh(p, c, ele_type=t)
    if kind == 'heat':
        prob = Heat(mesh, vec=1, dim=2, ele_type=t, dirichlet_bc_info=[[M.node_set([0]), M.node_set([1, 3])], [0, 0], [zero] * 2])
    elif kind == 'heatsurf':
        prob = HeatSurf(mesh, vec=1, dim=2, ele_type=t, location_fns=[M.node_set(c[0][:2])],
                        dirichlet_bc_info=[[M.node_set([3])], [0], [zero]])
        prob.internal_vars_surfaces = [[ctx.array('q', (1, prob.fes[0].num_face_quads), -1, 1)]]
    elif kind == 'elastic':
        prob = Elastic(mesh, vec=2, dim=2, ele_type=t, dirichlet_bc_info=[[M.node_set([0, 1]), M.node_set([0])], [1, 0], [zero] * 2])
    else:
        prob = Mixed([mesh, mesh], vec=[2, 1], dim=2, ele_type=[t, t], quadrature_order=[1, 1],
                     dirichlet_bc_info=[[[M.node_set([0, 2]), M.node_set([0])], [0, 1], [zero] * 2], [[M.node_set([3])], [0], [zero]]])
    k = 0
    for fe in prob.fes:
        for i in range(len(fe.vals_list)):
            fe.vals_list[i] = ctx.array(f'val{k}', (len(fe.vals_list[i]),), 2.5, 4)
            k += 1
    prob.internal_vars = [ctx.array('s', M.quad_shape(prob.fes[0]), -1, 1)]
    return prob


def exact(A, b):
    return np.asarray(onp.linalg.inv(onp.asarray(M.dense_mat(A), dtype=float))) @ b


def affine(ctx, kind, line_search, guess, backend):
    prob = make(ctx, kind)
    n = prob.num_total_dofs_all_vars
    seen = []
    u0 = np.zeros(n)
    o = {}
    if line_search:
        o['line_search_flag'] = True
    if guess:
        u0 = ctx.array('u0', (n,), -2, 2)
        # starts that are already converged belong to C10
        ctx.assume(np.linalg.norm(M.bc_residual(prob, u0)) > 1e-6)
        o['initial_guess'] = prob.unflatten_fn_sol_list(u0)

    def linear(A, b, x0, opts):
        seen.append(x0)
        if len(seen) > 1:
            raise M.Stop()
        return exact(A, b)

    def spsolve(A, b):
        seen.append(None)
        return exact(A, b)
    o['linear'] = {'custom_solver': linear} if backend == 'custom' else {'spsolve_solver': {}}
    with M.fake_libs(ctx, spsolve=spsolve):
        try:
            sol = S.solver(prob, {'newton': o})
        except M.Stop:
            ctx.check('one exact step is enough', False)
            return
    out = M.flat(sol)
    if not seen and (backend == 'custom' or ctx.symbolic or onp.array_equal(out, u0)):
        ctx.check('a start returned as is meets the tolerance', np.linalg.norm(M.bc_residual(prob, u0)) <= 1.0000001e-6)
        return
    ctx.close('prescribed values', np.stack([out[d] for d in M.constrained(prob)]),
              np.stack([v for v in M.constrained(prob).values()]))
    ctx.close('residual of the solution', M.bc_residual(prob, out), np.zeros(n), 1e-7)
    if backend == 'custom':
        ctx.check('a linear solve was made', len(seen) == 1)
        bc = M.constrained(prob)
        ctx.close('start of the linear solve meets the prescribed increments',
                  np.stack([seen[0][d] for d in bc]), np.stack([v - u0[d] for d, v in bc.items()]))


def search(ctx, faults=False):
    """Adversarial residuals: which step does the line search accept?"""
    prob = adversary(ctx, 2)
    n = 3
    u0, inc = ctx.array('u0', (n,), -2, 2), ctx.array('inc', (n,), 0.5, 2)
    prob.arm(lambda k: np.concatenate([ctx.array(f'r{k}', (1,), -3, 3), np.ones(2) * 7.0]))
    calls = []

    def linear(A, b, x0, o):
        calls.append(1)
        if len(calls) > 1:
            raise M.Stop()
        return inc
    with M.fake_libs(ctx):
        try:
            S.solver(prob, {'newton': {'initial_guess': prob.unflatten_fn_sol_list(u0), 'line_search_flag': True,
                                       'linear': {'custom_solver': linear}, 'tol': -1.0, 'rel_tol': -1.0}})
        except M.Stop:
            pass
    got = prob.last

    def size(d):
        return np.linalg.norm(M.bc_residual(prob, d))
    alpha = (got[1] - u0[1]) / inc[1]
    ctx.close('the accepted state lies on the search line', got, u0 + alpha * inc)
    ctx.check('step length in (0, 1]', np.logical_and(alpha > 0.0, alpha <= 1.000001))
    ctx.check('not worse than the full step', size(got) <= size(u0 + inc) * 1.000001)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds})
    for kind in ('heat', 'heatsurf', 'elastic', 'mixed'):
        for guess in (False, True):
            add(f'{kind}{"-guess" if guess else ""}', affine, kind=kind, line_search=False, guess=guess, backend='custom',
                cost=3 if kind == 'mixed' else 1, bounds='fixed mesh; all loads, starts, prescribed values')
    add('heat-guess-line-search', affine, kind='heat', line_search=True, guess=True, backend='custom', cost=3,
        bounds='fixed mesh; all loads, starts, prescribed values')
    add('heat-guess-spsolve', affine, kind='heat', line_search=False, guess=True, backend='spsolve',
        bounds='fixed mesh; all loads, starts, prescribed values')
    add('elastic-spsolve', affine, kind='elastic', line_search=False, guess=False, backend='spsolve',
        bounds='fixed mesh; all loads, starts, prescribed values')
    add('line-search', search, bounds='all residual values along the search, all steps')
    return U
