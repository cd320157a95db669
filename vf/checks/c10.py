"""C10: the nonlinear solver returns only converged, finite states."""
import numpy as onp
import jax.numpy as np
from vf import models as M

S = M.S
zero = lambda p: 0.0

ASSUMPTIONS = ['the residual is an arbitrary function of the state (one fresh value per distinct state)',
               'paths longer than the iteration bound are cut']


def problem(ctx, nbc=1):
    p = onp.array([[0., 0.], [1., 0.], [0., 1.]])
    c = onp.array([[0, 1, 2]])
    ids = [2] if nbc == 1 else [2, 1]
    info = [[M.node_set([i]) for i in ids], [0] * nbc, [zero] * nbc]
    prob = M.Adversary(M.Mesh(p, c, ele_type='TRI3'), vec=1, dim=2, ele_type='TRI3', dirichlet_bc_info=info)
    for i in range(nbc):
        prob.fes[0].vals_list[i] = ctx.array(f'val{i}', (1,), -2, 2)
    return prob


def newton(ctx, steps, line_search, guess, faults, spelling):
    prob = problem(ctx, 2)
    n = 3
    bad = {'res': False, 'inc': False}
    calls = [0]

    def draw(k):
        # only the first unknown is unconstrained; the others' rows are overwritten
        r = ctx.array(f'r{k}', (1,), -3, 3)
        if faults and k > 0:
            f = ctx.choose(f'fault_r{k}', 2)
            if f:
                bad['res'] = True
                r = r.at[0].set([0., onp.nan][f])
        return np.concatenate([r, np.ones(2) * 7.0])

    def linear(A, b, x0, o):
        k = calls[0]
        calls[0] += 1
        if k >= steps:
            ctx.cut('Newton iterations')
        inc = ctx.array(f'inc{k}', (n,), -2, 2)
        if faults:
            f = ctx.choose(f'fault_i{k}', 3)
            if f:
                bad['inc'] = True
                inc = inc.at[1].set([0., onp.nan, onp.inf][f])
        return inc
    prob.arm(draw)
    tol, rel = ctx.scalar('tol', 1e-3, 1), ctx.scalar('rel_tol', 1e-3, 0.5)
    o = {'tol': tol, 'rel_tol': rel}
    u0 = onp.zeros(n)
    if guess:
        u0 = ctx.array('u0', (n,), -2, 2)
        o['initial_guess'] = prob.unflatten_fn_sol_list(u0)
    if line_search:
        o['line_search_flag'] = True
    if spelling == 'flat':
        opts = {**o, 'custom_solver': linear}
    else:
        opts = {'newton': {**o, 'linear': {'custom_solver': linear}}}
    with M.fake_libs(ctx):
        try:
            sol = S.solver(prob, opts)
        except AssertionError:
            ctx.check('raises only on non-finite states', bad['res'] or bad['inc'])
            return
    out = M.flat(sol)
    ctx.check('finite', np.all(np.isfinite(out)))

    def size(d):
        return np.linalg.norm(M.bc_residual(prob, d))
    known = M.state_key(out) in prob.memo
    s, s0 = size(out), size(u0)
    ctx.check('converged', np.logical_or(s <= tol * 1.000001, s / s0 <= rel * 1.000001))
    ctx.check('the judged state is the one returned', known)
    # already converged: unchanged, no linear solve
    if calls[0] == 0:
        ctx.close('unchanged', out, u0)
        ctx.check('a start that is not converged is iterated', s0 <= tol * 1.000001)
    else:
        ctx.check('a converged start is not iterated', s0 >= tol * 0.999999)


def patience(ctx, steps, line_search):
    """However long it takes: no return while the residual is out of tolerance."""
    prob = problem(ctx, 1)
    prob.arm(lambda k: np.concatenate([ctx.array(f'r{k}', (1,), 1, 3) if k in ((2, 60) if line_search else (0, 1, 2, 19, 40, 70, 100, 500)) else np.ones(1) * (1.5 + k % 7 / 10), np.ones(2) * 2.0]))
    calls = [0]

    def linear(A, b, x0, o):
        calls[0] += 1
        if calls[0] > steps:
            raise M.Stop()
        return np.asarray([0.01 * calls[0], -0.02 * calls[0], 0.0])
    tol, rel = ctx.scalar('tol', 0, 1), ctx.scalar('rel_tol', 0, 0.1)
    u0 = onp.zeros(3)
    o = {'tol': tol, 'rel_tol': rel, 'line_search_flag': line_search, 'linear': {'custom_solver': linear},
         'initial_guess': prob.unflatten_fn_sol_list(np.asarray(u0).at[2].set(prob.fes[0].vals_list[0][0]))}
    stopped = False
    with M.fake_libs(ctx):
        try:
            S.solver(prob, {'newton': o})
        except M.Stop:
            stopped = True
        except AssertionError:
            ctx.check('raises only on non-finite states', False)
    ctx.check('never returns out of tolerance', stopped)


def zero_residual(ctx):
    """Exactly zero starting residual: nothing to divide by, state returned as is."""
    prob = problem(ctx, 1)
    u0 = ctx.array('u0', (3,), -2, 2).at[2].set(prob.fes[0].vals_list[0][0])
    prob.arm(lambda k: np.zeros(3))

    def linear(A, b, x0, o):
        raise M.Stop()
    with M.fake_libs(ctx):
        sol = S.solver(prob, {'newton': {'initial_guess': prob.unflatten_fn_sol_list(u0), 'linear': {'custom_solver': linear}}})
    ctx.close('unchanged', M.flat(sol), u0)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    K = 3 if tier == 'quick' else 4
    b = f'at most {K} Newton iterations; all residual values, increments, tolerances, starts'
    for guess in (False, True):
        for sp in ('flat', 'nested'):
            add(f'newton-{sp}{"-guess" if guess else ""}', newton, steps=K, line_search=False, guess=guess, faults=False,
                spelling=sp, bounds=b)
    add('newton-faults', newton, steps=K, line_search=False, guess=True, faults=True, spelling='nested',
        bounds=b + '; NaN/inf in any increment or residual', cost=2)
    add('line-search', newton, steps=2, line_search=True, guess=True, faults=False, spelling='nested',
        bounds=b, cost=3)
    add('line-search-faults', newton, steps=1, line_search=True, guess=True, faults=True, spelling='nested', bounds=b, cost=3)
    N = 120 if tier == 'quick' else 600
    add('patience', patience, steps=N, line_search=False, bounds=f'{N} iterations that stay out of tolerance')
    add('patience-line-search', patience, steps=N // 4, line_search=True, bounds=f'{N // 4} iterations that stay out of tolerance')
    add('zero-residual', zero_residual, bounds='all starts meeting the conditions with zero residual')
    return U
