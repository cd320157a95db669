"""C14: linear multipoint constraints hold exactly and in the right space."""
import numpy as onp
import jax
import jax.numpy as np
from vf import models as M
from vf.checks.c10 import problem as adversary
from vf.checks import c13

S = M.S

ASSUMPTIONS = ['the constraint matrix is a scipy CSR matrix, as in the documented use; its entries are arbitrary where the '
               'pattern allows any (not all zero)', 'linear solves return arbitrary vectors']

PATTERNS = {
    # full unknowns x reduced unknowns
    'periodic': [[0], [1], [0], [1]],
    'ties': [[0, 1], [0], [1], [2]],
    'other': [[1], [0], [0], [1]],
    'dense3': [[0, 1, 2]] * 4,
    'dense1': [[0]] * 4,
    'empty-row': [[0, 1], [], [1], [0]],
}


def matrix(ctx, pat, name='P', cls='csr_array'):
    """(P as the code sees it, dense P)"""
    n, m = len(pat), 1 + max(max(r) for r in pat if r)
    ptr = onp.cumsum([0] + [len(r) for r in pat]).astype(onp.int32)
    ind = onp.array(sum((list(r) for r in pat), []), dtype=onp.int32)
    v = ctx.array(name, (len(ind),), 0.5, 2)
    D = np.zeros((n, m)).at[onp.repeat(onp.arange(n), onp.diff(ptr)), ind].set(v)
    import scipy
    sp = S.scipy.sparse if ctx.symbolic else scipy.sparse
    data = v if ctx.symbolic else onp.asarray(v)
    return getattr(sp, cls)((data, ind, ptr), shape=(n, m)), D


def pattern_for(prob, kind):
    n = prob.num_total_dofs_all_vars
    if kind in PATTERNS and len(PATTERNS[kind]) == n:
        return PATTERNS[kind]
    if kind == 'dense3':
        return [[0, 1, 2]] * n
    if kind == 'periodic':
        return [[i % (n // 2)] for i in range(n)]
    if kind == 'ties':
        return [[0, 1]] + [[i] for i in range(n - 1)]
    raise KeyError(kind)


def problem(ctx, kind, name=''):
    mk, par = c13.build(kind)
    prob = mk()
    p = par(ctx, name + 'p')
    prob.set_params(p)
    return mk, prob, p


def full_system(ctx, mk, p, u):
    """Constrained residual and Jacobian of the unreduced equations at u."""
    def c(x):
        pr = mk()
        pr.set_params(p)
        return M.bc_residual(pr, x)
    return c(u), ctx.jacobian(c, u)


def full_at(ctx, mk, p, D, ur):
    """The same at u = D ur: evaluated at a free state, then substituted."""
    pr = mk()
    pr.set_params(p)
    u = D @ ur
    r = M.bc_residual(pr, u)
    pr.newton_update(pr.unflatten_fn_sol_list(u))
    return r, M.bc_matrix(pr, M.fresh_matrix(pr))


def reduced(ctx, kind, pat, backend):
    """System handed to the linear solve, and the space of the result."""
    from vf.checks.c17 import backend_opts
    got = {}
    with M.fake_libs(ctx, spsolve=lambda A, b: take(A, b), draw=lambda n, A, b, ksp: take(A, np.asarray(b.getArray())),
                     bicgstab=lambda A, b, x0=None, M=None, **k: (take(A, b), None), native=True):
        mk, prob, p = problem(ctx, kind)
        P, D = matrix(ctx, pattern_for(prob, pat))
        prob.P_mat = P
        m = D.shape[1]
        ur = ctx.array('u', (m,), -1, 1)

        def take(A, b, *rest):
            got.update(A=M.dense_mat(A), b=b)
            raise M.Stop()
        lin = {'custom': {'custom_solver': take}, 'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {}},
               'jax': {'jax_solver': {}}}[backend]
        try:
            S.solver(prob, {'newton': {'initial_guess': ur, 'linear': lin, 'tol': -1.0, 'rel_tol': -1.0}})
        except M.Stop:
            pass
        sol = S.solver(prob, {'newton': {'initial_guess': ur, 'linear': lin, 'tol': 1e9}})
    ctx.close('returned solution in the range', M.flat(sol), D @ ur)
    r, K = full_at(ctx, mk, p, D, ur)
    ctx.check('a linear solve was made', 'A' in got)
    ctx.close('reduced matrix', got['A'], D.T @ K @ D)
    ctx.close('reduced right-hand side', np.asarray(got['b']), -(D.T @ r))


def flow(ctx, steps, guess, line_search, pat):
    """Arbitrary residuals and increments: the judged residual is the reduced
    one, iterates live in the range, the result is the judged iterate."""
    prob = adversary(ctx, 1)
    n = 3
    prob.arm(lambda k: ctx.array(f'r{k}', (n,), -3, 3))
    incs = []
    with M.fake_libs(ctx):
        P, D = matrix(ctx, pat)
        prob.P_mat = P
        m = D.shape[1]

        def linear(A, b, x0, o):
            k = len(incs)
            if k >= steps:
                ctx.cut('Newton iterations')
            incs.append((M.dense_mat(A), b, ctx.array(f'inc{k}', (m,), -2, 2)))
            return incs[-1][2]
        tol = ctx.scalar('tol', 1e-2, 1)
        o = {'tol': tol, 'rel_tol': 0.01, 'linear': {'custom_solver': linear}}
        u0 = np.zeros(m)
        if guess:
            u0 = ctx.array('u0', (m,), -2, 2)
            o['initial_guess'] = u0
        if line_search:
            o['line_search_flag'] = True
        sol = M.flat(S.solver(prob, {'newton': o}))
    ur = u0
    seen = [M.state_key(s) for s in prob.states]
    ctx.check('start in the range', seen[0] == M.state_key(D @ u0))

    def size(x):
        return np.linalg.norm(D.T @ M.bc_residual(prob, D @ x))
    n0 = size(u0)
    for k, (A, b, inc) in enumerate(incs):
        ctx.close(f'right-hand side {k}', b, -(D.T @ M.bc_residual(prob, D @ ur)))
        if line_search:
            # the accepted step is the one whose residual the next solve uses
            alphas = [1.0, 0.5, 0.25, 0.125]
            nxt = M.state_key(D @ ur)
            known = [a for a in alphas if M.state_key(D @ (ur + a * inc)) in prob.memo]
            ctx.check('probes on the search line within the range', len(known) >= 2)
            want = incs[k + 1] if k + 1 < len(incs) else None
            target = sol if want is None else None
            if target is not None:
                hit = [a for a in alphas if M.state_key(D @ (ur + a * inc)) == M.state_key(sol)]
                ctx.check('result on the search line', len(hit) == 1)
                ctx.check('not worse than the full step', size(ur + hit[0] * inc) <= size(ur + inc) * 1.000001)
                ur = ur + hit[0] * inc
        else:
            ur = ur + inc
    ctx.close('result is the last iterate, in the range', sol, D @ ur)
    nk = size(ur)
    if incs:
        ctx.check('converged in the reduced space', np.logical_or(nk <= tol * 1.000001, nk / n0 <= 0.01000001))
    else:
        ctx.check('not iterated only if converged', n0 <= tol * 1.000001)


def adjoint(ctx, kind, pat, wrapped):
    """Gradients are those of the constrained problem."""
    with M.fake_libs(ctx):
        mk, prob, p = problem(ctx, kind)
        P, D = matrix(ctx, pattern_for(prob, pat))
        prob.P_mat = P
        m = D.shape[1]
        ur = ctx.array('u', (m,), -1, 1)
        n = D.shape[0]
        v = ctx.array('v', (n,), -1, 1)
        adj = c13.Adjoint(ctx, m)

        def stop(A, b, x0, o):
            raise M.Stop()
        if wrapped:
            fwd = S.ad_wrapper(prob, {'newton': {'initial_guess': ur, 'tol': 1e9, 'linear': {'custom_solver': stop}}},
                               {'custom_solver': adj})
            sol, back = jax.vjp(fwd, p)
            ctx.close('solution in the range', M.flat(sol), D @ ur)
            got, = back(prob.unflatten_fn_sol_list(v))
        else:
            got = S.implicit_vjp(prob, prob.unflatten_fn_sol_list(D @ ur), p, prob.unflatten_fn_sol_list(v), {'custom_solver': adj})
    u = D @ ur
    r, K = full_at(ctx, mk, p, D, ur)
    flat_p, un = c13.ravel(p)

    def c(z):
        pr = mk()
        pr.set_params(un(z))
        return M.bc_residual(pr, u)
    Jp = ctx.jacobian(c, flat_p)
    A, b, lam = adj.calls[0]
    ctx.check('one adjoint solve', len(adj.calls) == 1)
    ctx.close('adjoint matrix', A, (D.T @ K @ D).T)
    ctx.close('adjoint right-hand side', b, D.T @ v)
    ctx.close('gradient', c13.ravel(got)[0], -((D @ lam) @ Jp), tol=1e-7)


def toggled(ctx, kind):
    """Adding, exchanging and removing the constraint matrix takes effect."""
    got = {}

    def take(A, b, x0, o):
        got.update(A=M.dense_mat(A), b=b)
        raise M.Stop()
    with M.fake_libs(ctx):
        mk, prob, p = problem(ctx, kind)
        n = prob.num_total_dofs_all_vars
        mats = [None, matrix(ctx, pattern_for(prob, 'periodic'), 'P'), matrix(ctx, pattern_for(prob, 'ties'), 'Q'),
                matrix(ctx, pattern_for(prob, 'other'), 'R')]
        seq = [ctx.choose(f'step{k}', 4) for k in range(3)]
        for k, s in enumerate(seq):
            if mats[s] is None:
                if hasattr(prob, 'P_mat'):
                    del prob.P_mat
                D = np.eye(n)
            else:
                prob.P_mat, D = mats[s]
            ur = ctx.array(f'u{k}', (D.shape[1],), -1, 1)
            g = prob.unflatten_fn_sol_list(ur) if mats[s] is None else ur
            try:
                S.solver(prob, {'newton': {'initial_guess': g, 'linear': {'custom_solver': take}, 'tol': -1.0, 'rel_tol': -1.0}})
            except M.Stop:
                pass
            if k == len(seq) - 1:
                r, K = full_at(ctx, mk, p, D, ur)
                ctx.close('matrix', got['A'], D.T @ K @ D)
                ctx.close('right-hand side', got['b'], -(D.T @ r))


def exact(ctx, pat):
    """Affine problem, exact reduced solves: the result satisfies the reduced
    equations and lies in the range, from every start."""
    from vf.checks import c11
    with M.fake_libs(ctx):
        prob = c11.make(ctx, 'heat')
        for i in range(len(prob.fes[0].vals_list)):
            pass
        n = prob.num_total_dofs_all_vars
        # fixed weights: the reduced matrix is then a fixed matrix
        rows = {'selection': [[(0, 1.)], [(1, 1.)], [(0, 1.)], [(1, 1.)]],
                'weights': [[(0, .5), (1, .5)], [(0, 1.)], [(1, 1.)], [(2, 2.)]]}[pat]
        D = onp.zeros((n, 1 + max(j for r in rows for j, _ in r)))
        for i, r in enumerate(rows):
            for j, w in r:
                D[i, j] = w
        import scipy
        sp = S.scipy.sparse if ctx.symbolic else scipy.sparse
        prob.P_mat = sp.csr_array(D)
        m = D.shape[1]
        ur = ctx.array('u0', (m,), -2, 2)
        ctx.assume(np.linalg.norm(D.T @ M.bc_residual(prob, D @ ur)) > 1e-6)
        seen = []

        def linear(A, b, x0, o):
            seen.append(1)
            if len(seen) > 1:
                raise M.Stop()
            return c11.exact(A, b)
        try:
            sol = M.flat(S.solver(prob, {'newton': {'initial_guess': ur, 'linear': {'custom_solver': linear}}}))
        except M.Stop:
            ctx.check('one exact step is enough', False)
            return
    if not seen:
        # a start a hair above the tolerance in real arithmetic
        ctx.check('a start returned as is meets the tolerance', np.linalg.norm(D.T @ M.bc_residual(prob, D @ ur)) <= 1.0000001e-6)
        return
    ctx.close('reduced residual of the solution', D.T @ M.bc_residual(prob, sol), np.zeros(m), 1e-7)
    z = onp.linalg.lstsq(D, onp.eye(n), rcond=None)[0]
    ctx.close('solution in the range', D @ (z @ sol), sol)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    b = 'two TRI3 cells; all weights on the pattern, states, parameters'
    for pat in ('periodic', 'ties', 'dense3', 'dense1', 'empty-row'):
        add(f'reduced-theta-{pat}', reduced, kind='theta', pat=pat, backend='custom', bounds=b, cost=2 if pat == 'dense3' else 1)
    for bk in ('spsolve', 'petsc', 'jax'):
        add(f'reduced-theta-ties-{bk}', reduced, kind='theta', pat='ties', backend=bk, bounds=b)
    for k in ('bc', 'load'):
        add(f'reduced-{k}', reduced, kind=k, pat='ties', backend='custom', bounds=b)
    for k in ('vector', 'coupled') if tier == 'thorough' else ():
        add(f'reduced-{k}', reduced, kind=k, pat='periodic', backend='custom', bounds=b, cost=4)
    add('flow', flow, steps=2, guess=True, line_search=False, pat=[[0, 1], [1], [0]], cost=3, bounds='at most two iterations; all residuals, increments, weights')
    add('flow-zero-start', flow, steps=1, guess=False, line_search=False, pat=[[0, 1], [1], [0]], bounds='one iteration')
    add('flow-line-search', flow, steps=1, guess=True, line_search=True, pat=[[0, 1], [1], [0]], cost=3, bounds='one iteration with step halving')
    add('flow-line-search-1', flow, steps=1, guess=True, line_search=True, pat=[[0], [0], [0]], cost=3, bounds='one iteration with step halving')
    for k in ('theta', 'bc', 'load', 'material'):
        add(f'adjoint-{k}', adjoint, kind=k, pat='ties', wrapped=k in ('theta', 'bc'), bounds=b, cost=2)
    add('adjoint-theta-dense3', adjoint, kind='theta', pat='dense3', wrapped=False, bounds=b, cost=2)
    add('toggled', toggled, kind='theta', bounds='all sequences of three solves with no or one of three constraint matrices (two of the same shape)', cost=4)
    for pat in ('selection', 'weights'):
        add(f'exact-{pat}', exact, pat=pat, bounds='fixed stiffness and weights; all loads, prescribed values, starts')
    return U
