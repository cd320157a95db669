"""C13: gradients through the solver equal the true sensitivity."""
import numpy as onp
import jax
import jax.numpy as np
import jax.flatten_util
from vf import models as M
from vf.checks.c17 import Log, expected_backend, backend_opts

S = M.S
ravel = jax.flatten_util.ravel_pytree

ASSUMPTIONS = ['the adjoint linear solver returns an arbitrary vector; it is checked that the system handed to it is the '
               'transposed one, so that its solution is the adjoint state',
               'derivatives of the constrained equations used as oracle are taken term by term from the symbolic '
               'residual of a freshly built problem, not by JAX differentiation']


def tri(nx=1, distort='wobble'):
    return M.mesh_for('TRI3', nx, 1, 1, distort)


def P_material():
    class P(M.Scalar):
        def set_params(self, p):
            self.internal_vars = [p['k'], p['m']]
    return P


def P_theta():
    class P(M.Scalar):
        def get_tensor_map(self):
            # not the gradient of an energy: the tangent is not symmetric
            def f(g, k, m):
                return (k + np.sum(g * g)) * g + k * np.stack([0.5 * g[:, 1], 0.0 * g[:, 0]], axis=1)
            return f

        def set_params(self, t):
            one = np.ones(M.quad_shape(self.fes[0]))
            self.internal_vars = [t * one, t * t * one]
    return P


def P_load():
    class P(M.ScalarSurf):
        def set_params(self, p):
            self.internal_vars_surfaces = [[p[0]], [p[1]]]
    return P


def P_bc():
    class P(M.Scalar):
        def set_params(self, p):
            one = np.ones(M.quad_shape(self.fes[0]))
            self.internal_vars = [one, p[1] * one]
            self.fes[0].vals_list = [p[0]]
    return P


def P_points():
    class P(M.Bare):
        def get_tensor_map(self):
            return lambda g: g

        def set_params(self, x):
            self.initialize_geometric_quantities([x])
    return P


def P_points_load():
    class P(M.Bare):
        def get_tensor_map(self):
            return lambda g: g

        def get_mass_map(self):
            return lambda u, x: x[1:2] * u

        def set_params(self, p):
            self.initialize_geometric_quantities([p['x']])
            self.fes[0].vals_list = [p['v']]
    return P


def P_vector():
    class P(M.VectorSurf):
        def set_params(self, p):
            self.internal_vars = [p[0], p[1]]
    return P


def P_coupled():
    class P(M.Coupled):
        def set_params(self, p):
            self.internal_vars = [p[0]]
            self.fes[0].vals_list = [self.fes[0].vals_list[0], p[1]]
    return P


def build(kind):
    """Problem factory and parameter factory."""
    p, c = tri()
    quad = None

    def single(cls, vec=1, info=None, loc=None):
        ns = M.node_set([0, 2])

        def mk():
            return cls(M.Mesh(p, c, ele_type='TRI3'), vec=vec, dim=2, ele_type='TRI3',
                       dirichlet_bc_info=info or [[ns], [vec - 1], [lambda x: 0.3 + 0.2 * x[0]]], location_fns=loc)
        return mk
    faces = [M.x_is(p[:, 0].max()), M.x_is(p[:, 0].min())]
    if kind in ('load', 'vector'):
        p = M.mesh_for('TRI3', 1, 1, 1, 'none')[0]
        faces = [M.x_is(1.0), M.x_is(0.0)]
    if kind == 'material':
        mk = single(P_material())
        q = M.quad_shape(mk().fes[0])
        return mk, lambda ctx, n: {'k': ctx.array(n + 'k', q, 0.5, 2), 'm': ctx.array(n + 'm', q, 0.5, 2)}
    if kind == 'theta':
        return single(P_theta()), lambda ctx, n: ctx.scalar(n + 't', 0.5, 2)
    if kind == 'load':
        mk = single(P_load(), loc=faces)

        def mk2():
            pr = mk()
            one = np.ones(M.quad_shape(pr.fes[0]))
            pr.internal_vars = [one, one]
            return pr
        pr = mk()
        qs = [onp.asarray(b).shape[:1] + (pr.fes[0].num_face_quads,) for b in pr.boundary_inds_list]
        return mk2, lambda ctx, n: [ctx.array(n + f's{i}', s, 0.5, 2) for i, s in enumerate(qs)]
    if kind == 'bc':
        return single(P_bc()), lambda ctx, n: (ctx.array(n + 'v', (2,), -1, 1), ctx.scalar(n + 'm', 0.5, 2))
    if kind in ('points', 'points-load'):
        def par(ctx, n):
            x = np.asarray(p) + np.zeros(p.shape).at[2].set(ctx.array(n + 'x', (2,), -0.15, 0.15))
            return x if kind == 'points' else {'x': x, 'v': ctx.array(n + 'v', (2,), -1, 1)}
        return single(P_points() if kind == 'points' else P_points_load()), par
    if kind == 'vector':
        mk = single(P_vector(), 2, loc=faces[:1])
        q = M.quad_shape(mk().fes[0])
        return mk, lambda ctx, n: (ctx.array(n + 'l', q, 0.5, 2), ctx.array(n + 'g', q, 0.5, 2))
    if kind == 'coupled':
        def mk():
            ns = M.node_set([0, 2])
            m = M.Mesh(p, c, ele_type='TRI3')
            return P_coupled()([m, m], vec=[2, 1], dim=2, ele_type=['TRI3', 'TRI3'],
                               dirichlet_bc_info=[[[ns, M.node_set([1])], [0, 1], [lambda x: 0.1, lambda x: 0.2]],
                                                  [[M.node_set([3])], [0], [lambda x: 0.4]]])
        q = M.quad_shape(mk().fes[0])
        return mk, lambda ctx, n: (ctx.array(n + 'c', q, 0.5, 2), ctx.array(n + 'v', (1,), -1, 1))
    raise KeyError(kind)


class Adjoint:
    """Adjoint linear solver: records the system, hands back an arbitrary vector."""

    def __init__(self, ctx, n, name='lam'):
        self.ctx, self.n, self.name = ctx, n, name
        self.calls = []

    def __call__(self, A, b, x0, o):
        lam = self.ctx.array(f'{self.name}{len(self.calls)}', (self.n,), -2, 2)
        self.calls.append((M.dense_mat(A), b, lam))
        return lam


def freevars(ctx, kind, p):
    """The independent inputs inside the parameter tree: (z, rebuild, positions)."""
    flat_p, un = ravel(p)
    if kind in ('points', 'points-load'):
        # node 2 moves; 'v' precedes 'x' in the flattened dict
        idx = onp.array([4, 5]) if kind == 'points' else onp.array([0, 1, 2 + 4, 2 + 5])
    else:
        idx = onp.arange(flat_p.shape[0])
    return flat_p, un, idx


def oracle(ctx, kind, mk, u, p):
    flat_p, un, idx = freevars(ctx, kind, p)

    def c(uu, z):
        pr = mk()
        pr.set_params(un(z))
        return M.bc_residual(pr, uu)
    Ju = ctx.jacobian(lambda x: c(x, flat_p), u)
    if kind.startswith('points'):
        # the moved coordinates are base + input: differentiate by the inputs
        base = flat_p
        Jp = jac_shift(ctx, lambda d: c(u, base.at[idx].add(d)), idx, flat_p)
    else:
        Jp = ctx.jacobian(lambda z: c(u, z), flat_p)
    return Ju, Jp, idx


def jac_shift(ctx, f, idx, flat_p):
    if ctx.symbolic:
        from vf import sym, jaxsym
        y = f(np.zeros(len(idx)))
        yd = y.data.reshape(-1).tolist()
        out = []
        for e in yd:
            for i in idx.tolist():
                v = flat_p.data[i]
                (vi,) = [m[0][0] for m in v.t if m]
                out.append(sym.diff(e, vi, {}) if isinstance(e, sym.Poly) else 0.0)
        return jaxsym.sym_array(out, (len(yd), len(idx)))
    h = 0.004
    cols = []
    for b in range(len(idx)):
        e = np.zeros(len(idx)).at[b].set(h)
        cols.append((8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * h))
    return np.stack(cols, axis=1)


def state(ctx, prob, name='u'):
    return ctx.array(name, (prob.num_total_dofs_all_vars,), -1, 1)


TOLS = 1e-6


def check_grad(ctx, tag, got, want, kind):
    g, _ = ravel(got)
    idx = onp.arange(g.shape[0])
    if kind == 'points':
        idx = onp.array([4, 5])
    elif kind == 'points-load':
        idx = onp.array([0, 1, 6, 7])
    ctx.close(tag, g[idx], want, tol=TOLS if kind.startswith('points') else 1e-7)


def pullback(ctx, kind):
    """implicit_vjp for every state, parameter, cotangent and adjoint vector."""
    mk, par = build(kind)
    prob = mk()
    p = par(ctx, 'p')
    u = state(ctx, prob)
    v = ctx.array('v', u.shape, -1, 1)
    adj = Adjoint(ctx, u.shape[0])
    with M.fake_libs(ctx):
        got = S.implicit_vjp(prob, prob.unflatten_fn_sol_list(u), p, prob.unflatten_fn_sol_list(v), {'custom_solver': adj})
    Ju, Jp, idx = oracle(ctx, kind, mk, u, p)
    A, b, lam = adj.calls[0]
    ctx.check('one adjoint solve', len(adj.calls) == 1)
    ctx.close('adjoint matrix', A, Ju.T, tol=TOLS if kind.startswith('points') else 1e-7)
    ctx.close('adjoint right-hand side', b, v)
    check_grad(ctx, 'gradient', got, -(lam @ Jp), kind)
    ctx.check('tree structure', jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(p))


OPS = ['none', 'forward', 'gradient', 'solver', 'assemble']


def history(ctx, kind, length):
    """jax.grad of a loss through the wrapper, with other use of the same
    problem object between the forward and the backward pass and after it."""
    mk, par = build(kind)
    prob = mk()
    p, p2 = par(ctx, 'p'), par(ctx, 'q')
    n = prob.num_total_dofs_all_vars
    u = state(ctx, prob)
    w = ctx.array('w', (n,), -1, 1)
    adj = Adjoint(ctx, n)
    seen = []

    def stop(A, b, x0, o):
        seen.append((M.dense_mat(A), b))
        raise M.Stop()
    guess = prob.unflatten_fn_sol_list(u)
    # u is a state within the (loose) tolerance: it is the solution for every parameter
    opts = {'newton': {'initial_guess': guess, 'tol': 1e9, 'linear': {'custom_solver': stop}}}
    fwd = S.ad_wrapper(prob, opts, {'custom_solver': adj})
    pre = M.fake_libs(ctx)
    with pre:
        sol, back = jax.vjp(fwd, p)
        ctx.close('forward solution', M.flat(sol), u)
        for k in range(length):
            op = OPS[ctx.choose(f'op{k}', len(OPS))]
            if op == 'forward':
                ctx.close('forward in between', M.flat(fwd(p2)), u)
            elif op == 'gradient':
                jax.grad(lambda t: np.sum(M.flat(fwd(t)) * w))(p2)
            elif op == 'solver':
                S.solver(prob, opts)
            elif op == 'assemble':
                prob.set_params(p2)
                prob.newton_update(prob.unflatten_fn_sol_list(w))
                S.get_A(prob)
        ncalls = len(adj.calls)
        got, = back(prob.unflatten_fn_sol_list(w))
        A, b, lam = adj.calls[ncalls]
        ctx.check('one adjoint solve', len(adj.calls) == ncalls + 1)
        # the object stays usable, at the differentiated parameters
        try:
            S.solver(prob, {'newton': {'initial_guess': prob.unflatten_fn_sol_list(u), 'tol': -1.0, 'rel_tol': -1.0,
                                       'linear': {'custom_solver': stop}}})
        except M.Stop:
            pass
    Ju, Jp, idx = oracle(ctx, kind, mk, u, p)
    ctx.close('adjoint matrix', A, Ju.T, tol=1e-7)
    ctx.close('adjoint right-hand side', b, w)
    check_grad(ctx, 'gradient', got, -(lam @ Jp), kind)
    if seen:
        ctx.close('matrix of a solve after the gradient', seen[-1][0], Ju, tol=1e-7)
        pr = mk()
        pr.set_params(p)
        ctx.close('residual of a solve after the gradient', -seen[-1][1], M.bc_residual(pr, u))
    ctx.close('solution unchanged by the backward pass', M.flat(sol), u)


def loss(ctx, kind):
    """jax.grad of losses depending on the solution and on the parameters."""
    mk, par = build(kind)
    prob = mk()
    p = par(ctx, 'p')
    n = prob.num_total_dofs_all_vars
    u = state(ctx, prob)
    w = ctx.array('w', (n,), -1, 1)
    adj = Adjoint(ctx, n)

    def stop(A, b, x0, o):
        raise M.Stop()
    opts = {'initial_guess': prob.unflatten_fn_sol_list(u), 'tol': 1e9, 'custom_solver': stop}
    fwd = S.ad_wrapper(prob, opts, {'custom_solver': adj})

    def J(t):
        s = M.flat(fwd(t))
        return np.sum(w * s * s) + np.sum(ravel(t)[0] ** 2) * np.sum(s[:1])
    with M.fake_libs(ctx):
        val, got = jax.value_and_grad(J)(p)
    flat_p, un = ravel(p)
    Ju, Jp, idx = oracle(ctx, kind, mk, u, p)
    A, b, lam = adj.calls[0]
    dJdu = 2 * w * u + np.zeros(n).at[0].set(np.sum(flat_p ** 2))
    ctx.close('value', val, np.sum(w * u * u) + np.sum(flat_p ** 2) * u[0])
    ctx.close('adjoint right-hand side', b, dJdu)
    ctx.close('adjoint matrix', A, Ju.T, tol=1e-7)
    check_grad(ctx, 'gradient', got, (2 * flat_p * u[0])[idx] - lam @ Jp, kind)


def backend(ctx, b):
    """The adjoint options choose the linear backend of the adjoint solve."""
    mk, par = build('theta')
    prob = mk()
    t = par(ctx, 'p')
    n = prob.num_total_dofs_all_vars
    u = state(ctx, prob)
    log = Log(ctx, n, limit=2, cut=False)
    sysm = {}

    class L2(Log):
        def inc(self, what, rhs):
            super().inc(what, rhs)
            return self.ctx.array('lam', (n,), -2, 2)
    log = L2(ctx, n, limit=1, cut=False)
    o = backend_opts(b, log)
    before = None if o is None else {k: (dict(x) if isinstance(x, dict) else x) for k, x in o.items()}

    def stop(A, rhs, x0, oo):
        raise M.Stop()
    fo = {'newton': {'initial_guess': prob.unflatten_fn_sol_list(u), 'tol': 1e9, 'linear': {'custom_solver': stop}}}
    fwd = S.ad_wrapper(prob, fo, o) if o is not None else S.ad_wrapper(prob, fo)
    # iterative backends are asked to return the given vector whatever the system: take a system that it solves
    with log.libs():
        try:
            jax.vjp(fwd, t)[1](prob.unflatten_fn_sol_list(np.zeros(n)))
        except AssertionError:
            pass            # an inexact iterative answer is rejected (C12)
    ctx.check('adjoint backend', log.calls == [expected_backend(b)])
    ctx.check('options unchanged', o is None or (o.keys() == before.keys() and all(o[k] == before[k] for k in o)))


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    b = 'two TRI3 cells; all states, parameters, cotangents, adjoint vectors'
    for k in ('material', 'theta', 'load', 'bc', 'points', 'points-load', 'vector', 'coupled'):
        add(f'pullback-{k}', pullback, kind=k, bounds=b, cost=3 if k in ('vector', 'coupled', 'points-load') else 1)
    for k in ('theta', 'bc', 'material', 'load'):
        add(f'loss-{k}', loss, kind=k, bounds=b)
    for k in ('theta', 'bc', 'load') + (('material', 'vector') if tier == 'thorough' else ()):
        add(f'history-{k}', history, kind=k, length=(2 if k == 'theta' else 1) if tier == 'quick' else 3, cost=4,
            bounds=b + '; all interleavings of length 2 (3) of forward, gradient, solve, assembly on the same object')
    from vf.checks.c17 import BACKENDS
    for bk in BACKENDS:
        add(f'backend-{bk}', backend, b=bk, bounds='all states and parameters')
    return U
