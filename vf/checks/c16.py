"""C16: dynamic relaxation returns states in force equilibrium."""
import numpy as onp
import jax
import jax.numpy as np
from vf import models as M, sym
from vf.checks.c10 import problem as adversary
from vf.checks import c11

S = M.S

ASSUMPTIONS = ['the residual is an arbitrary function of the state; the first linear solve returns an arbitrary vector that is right on constrained rows',
               'accelerations and velocities do not vanish exactly (no division by zero)',
               'runs longer than the iteration bound are cut']
QUIET = {'info': False, 'info_force': False, 'nPrint': 10 ** 9}
CMIN, CMAX, H2 = 1e-3, 3.9, 1.1 * 1.1


def by_cases(ctx):
    """The limits of the damping coefficient become separate paths, however they are written."""
    fn = getattr(S, 'calC', None)
    if not ctx.symbolic or fn is None:
        return []

    def calC(*a, **k):
        with ctx.patch([(sym, 'FORK_ITE', True)]):
            return fn(*a, **k)
    return [(S, 'calC', calC)]


class Run:
    """S.solver(..., {'dynamic_relax': ...}) with observed states."""

    def __init__(self, ctx, prob, opts, guess=None, spsolve=None):
        o = {**QUIET, **opts}
        if guess is not None:
            o['initial_guess'] = prob.unflatten_fn_sol_list(guess)
        self.sol = None
        with M.fake_libs(ctx, spsolve=spsolve, native=True), M.sym_numpy(ctx), jax.disable_jit(), ctx.patch(by_cases(ctx)):
            try:
                self.sol = S.solver(prob, {'dynamic_relax': o})
            except M.Stop:
                pass


def first_solve(ctx, free=True):
    def spsolve(A, b):
        b = np.asarray(b)
        x = ctx.array('step', (2,), -1, 1) if free else np.asarray([0.3, -0.4])
        return np.concatenate([x, b[2:]])
    return spsolve


def returned(ctx, guess, iters, fault, wide):
    """Whatever the forces do: what comes back is balanced."""
    prob = adversary(ctx, 1)
    bad = [False]

    def draw(k):
        # state 0 is the zero state of the first solve
        if k > iters + 1:
            ctx.cut('relaxation steps')
        if k > iters or wide:
            r = ctx.array(f'r{k}', (2,), -3, 3)
        else:
            r = np.asarray([[1.5, -1.1], [1.2, 0.9], [-0.7, 0.8]][k % 3])
        if fault and k == iters + 1:
            bad[0] = True
            r = r.at[ctx.choose('component', 2)].set(onp.nan)
        return np.concatenate([r, np.ones(1) * 7.0])
    prob.arm(draw)
    tol = ctx.scalar('tol', 1e-2, 1)
    u0 = ctx.array('u0', (3,), -2, 2) if guess else None
    run = Run(ctx, prob, {'tol': tol}, u0, first_solve(ctx))
    u = M.flat(run.sol)
    key = M.state_key(u)
    ctx.check('returns a state whose forces were evaluated', key in prob.memo)
    f = prob.memo[key][:2]
    if not bad[0]:
        ctx.check('unbalanced force within tolerance', np.abs(f) <= tol + 1e-12)
    else:
        ctx.check('within tolerance or visibly not', np.logical_or(np.any(np.isnan(f)), np.all(np.abs(f) <= tol + 1e-12)))
    for k, s in enumerate(prob.states[1:]):
        ctx.close(f'constrained unknowns keep their values {k}', s[2], prob.fes[0].vals_list[0][0])
    ctx.close('returned constrained unknowns', u[2], prob.fes[0].vals_list[0][0])


def patience(ctx, steps, nK):
    """However long it takes: no return while a force is out of tolerance."""
    prob = adversary(ctx, 1)
    n = [0]

    def draw(k):
        n[0] = k
        if k > steps:
            raise M.Stop()
        s = 1.0 + (k * 7 % 11) / 10
        r = np.asarray([s * (-1) ** (k // 2), 0.4 * s])
        return np.concatenate([r, np.ones(1) * 7.0])
    prob.arm(draw)
    tol = ctx.scalar('tol', 0, 0.9)
    run = Run(ctx, prob, {'tol': tol, 'nKMat': nK}, None, first_solve(ctx, False))
    ctx.check('never returns out of tolerance', run.sol is None and n[0] > steps)


def damping(ctx, c=None):
    """The damping coefficient is 2 sqrt(t) within its limits."""
    t = ctx.scalar('t', -3, 9)
    lo, hi = ctx.scalar('cmin', 1e-3, 0.5), ctx.scalar('cmax', 1, 4)
    with M.sym_numpy(ctx):
        c = S.calC(t, lo, hi)
    c = np.asarray(c)
    ctx.check('within limits', np.logical_and(c >= lo - 1e-12, c <= hi + 1e-12))
    want = 2.0 * np.sqrt(np.maximum(t, 0.0))
    if t <= 0:
        ctx.close('least damping', c, lo)
    elif want < lo:
        ctx.close('least damping', c, lo)
    elif want > hi:
        ctx.close('most damping', c, hi)
    else:
        ctx.close('critical damping', c, want)


def damp(R, R0, qd, m):
    """Documented damping: 2 sqrt of the Rayleigh quotient, limited."""
    t = np.dot(R - R0, qd) / np.einsum('i,i,i', qd, m, qd)
    if t < 0:
        return CMIN
    c = 2.0 * np.sqrt(t)
    if c < CMIN:
        return CMIN
    if c > CMAX:
        return CMAX
    return c


def advance(qd, R, m, c):
    return (2.0 - c) / (2.0 + c) * qd - 2.0 / (2.0 + c) * R / m


def update(ctx, free):
    """Each move is the damped central-difference step; the mass comes from
    the tangent in force (renewed only when the monitor asks for it)."""
    nK = 0 if free == 'renewed' else 1000
    prob = adversary(ctx, 1)
    n = 3
    steps = 2 if free == 'two' else 3
    base = np.asarray([2.0, -1.0, 0.5, -0.7, 1.6, 0.4, 0.3, 0.2, 1.1])
    K = {}

    def draw(k):
        if k > steps - 1:
            raise M.Stop()
        if free == 'two':
            r = ctx.array(f'r{k}', (2,), 0.5, 2)
        elif k == 0:
            r = np.asarray([0.9, -0.8])
        elif k == 1:
            r = np.stack([ctx.scalar('r1', *((-1.2, -0.3) if nK == 0 else (0.2, 1.5))), -0.9])
        else:
            r = np.stack([0.6, ctx.scalar(f'r{k}', -1.5, -0.1)])
        return np.concatenate([r, np.ones(1) * 7.0])
    prob.arm(draw)
    real = prob.newton_update

    def newton_update(sol_list):
        d = M.flat(sol_list)
        k = M.state_key(d)
        res = real(sol_list)
        if k not in K:
            K[k] = base * (1.0 + 0.5 * len(K))
        prob.V = K[k]
        return res
    prob.newton_update = newton_update
    # the guess is already consistent with the constraint, so it is the first state met
    u0 = np.concatenate([np.asarray([0.2, -0.3]), prob.fes[0].vals_list[0]])
    real_draw = prob.draw

    def draw2(k):
        # the zero state of the discarded first solve comes first
        if k == 0:
            return np.asarray([0.4, 0.3, 7.0])
        return real_draw(k - 1)
    prob.draw = draw2
    Run(ctx, prob, {'tol': 1e-9, 'nKMat': nK}, u0, first_solve(ctx, False))
    q = prob.states[1:]

    def mass(state):
        A = M.dense_coo(prob.I, prob.J, K[M.state_key(state)], n)
        A = M.bc_matrix(prob, A)
        return H2 / 4 * np.sum(np.abs(A), axis=1)
    ctx.close('starts from the guess', q[0], u0)
    m = mass(q[0])
    R = [prob.memo[M.state_key(s)].at[2].set(0.0) for s in q[:steps]]
    ctx.check('takes every step', len(R) == steps)
    qd = -0.5 * R[0] / m
    acc, acc_old = np.zeros(n), np.zeros(n)
    moved = q[1:] + [prob.last]
    for k in range(1, steps):
        ctx.close(f'step {k}', moved[k - 1], q[k - 1] + qd)
        c = damp(R[k], R[k - 1], qd, m)
        if nK == 0 and k > 1:
            d = q[k] - q[k - 1]
            eps = H2 / 4 * np.abs((acc - acc_old)[:2] / d[:2])
            if np.max(eps) > 1:
                m = mass(q[k])
        new = advance(qd, R[k], m, c)
        acc_old, acc = acc, new - qd
        qd = new
    ctx.close('last step', prob.last, q[steps - 1] + qd)


class NonLin(M.Problem):
    """Scalar problem with state-dependent stiffness."""

    def get_tensor_map(self):
        return lambda g, s: (1.0 + 0.2 * s) * g * (1.0 + 0.5 * np.sum(g * g))

    def get_mass_map(self):
        return lambda u, x, s: 0.4 * u ** 2 + s


class MixedNL(c11.Mixed):
    def get_universal_kernel(self):
        k0 = super().get_universal_kernel()

        def k(cell_sol_flat, *a):
            return k0(cell_sol_flat, *a) + 0.2 * cell_sol_flat ** 2
        return k


def real_problem(ctx, kind, field=True):
    t = 'QUAD4' if kind == 'scalar' else 'TRI3'
    p, c = M.mesh_for(t, 1)
    mesh = M.Mesh(p, c, ele_type=t)
    z = lambda x: 0.0
    if kind == 'scalar':
        prob = NonLin(mesh, vec=1, dim=2, ele_type=t, dirichlet_bc_info=[[M.node_set([0]), M.node_set([3])], [0, 0], [z] * 2])
    else:
        prob = MixedNL([mesh, mesh], vec=[2, 1], dim=2, ele_type=[t, t], quadrature_order=[1, 1],
                       dirichlet_bc_info=[[[M.node_set([0, 2]), M.node_set([0])], [0, 1], [z] * 2], [[M.node_set([3])], [0], [z]]])
    k = 0
    for fe in prob.fes:
        for i in range(len(fe.vals_list)):
            fe.vals_list[i] = ctx.array(f'val{k}', (len(fe.vals_list[i]),), -1, 1)
            k += 1
    prob.internal_vars = [np.ones(M.quad_shape(prob.fes[0])) * (ctx.scalar('s', -1, 1) if field else 0.3)]
    return prob


def eliminated(ctx, kind):
    """assembleCSR: the row-eliminated tangent of all variables."""
    prob = real_problem(ctx, kind)
    n = prob.num_total_dofs_all_vars
    u = ctx.array('u', (n,), -1, 1)
    with M.fake_libs(ctx), M.sym_numpy(ctx):
        A = S.assembleCSR(prob, u)
    got = M.dense_mat(A)
    prob.newton_update(prob.unflatten_fn_sol_list(u))
    ctx.close('row-eliminated tangent', got, M.bc_matrix(prob, M.fresh_matrix(prob)))


def first_move(ctx, kind):
    """The first move of a relaxation of a real problem: balanced by masses
    from all variables, constrained unknowns at rest."""
    prob = real_problem(ctx, kind, kind == 'mixed')
    n = prob.num_total_dofs_all_vars
    bc = M.constrained(prob)
    free = [i for i in range(n) if i not in bc]
    u0 = np.asarray([0.3 * ((7 * i) % 5 - 2) for i in range(n)])
    u0 = u0.at[free[0]].set(ctx.scalar('u', -1, 1))
    seen = []
    real = prob.compute_residual

    def residual(sol_list):
        seen.append(M.flat(sol_list))
        if len(seen) > 1:
            raise M.Stop()
        return real(sol_list)
    prob.compute_residual = residual
    run = Run(ctx, prob, {'tol': 1e-6}, u0, lambda A, b: np.asarray(b))
    prob.compute_residual = real
    start = u0
    for d, v in bc.items():
        start = start.at[d].set(v)
    ctx.close('starts from the guess with prescribed values', seen[0], start)
    R = M.flat(real(prob.unflatten_fn_sol_list(start)))
    for d in bc:
        R = R.at[d].set(0.0)
    if run.sol is not None:
        ctx.check('returned at once only when balanced', np.abs(R) <= 1e-6 + 1e-12)
        return
    prob.newton_update(prob.unflatten_fn_sol_list(start))
    A = M.bc_matrix(prob, M.fresh_matrix(prob))
    m = H2 / 4 * np.sum(np.abs(A), axis=1)
    ctx.close('first move', (seen[1] - start) * m, -0.5 * R)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    add('damping', damping, bounds='every Rayleigh quotient and pair of limits')
    for g in (False, True):
        for it, f, w in ((1, False, True), (2, False, False), (1, True, True)) + (((3, False, False),) if tier == 'thorough' else ()):
            add(f'returned-{"guess" if g else "plain"}-{it}{"-fault" if f else ""}', returned, guess=g, iters=it, fault=f, wide=w,
                bounds=f'{it} relaxation steps with {"arbitrary forces" if w else "arbitrary forces at the last state"}'
                + (', one not-a-number' if f else ''), cost=3)
    N = 80 if tier == 'quick' else 1200
    for nK in (1000, 5):
        add(f'patience-{nK}', patience, steps=N, nK=nK, bounds=f'{N} steps that stay out of tolerance', cost=3)
    for f in ('two', 'three', 'renewed'):
        add(f'update-{f}', update, free=f, bounds='forces of two steps free' if f == 'two' else 'three steps, one force component per step free', cost=3)
    for k in ('scalar', 'mixed'):
        add(f'eliminated-{k}', eliminated, kind=k, bounds='one or two cells; all states, values, fields', cost=2)
        add(f'first-move-{k}', first_move, kind=k, bounds='one or two cells; one free start component, all prescribed values', cost=3)
    return U
