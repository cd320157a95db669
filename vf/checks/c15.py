"""C15: arc-length continuation follows the equilibrium path."""
import numpy as onp
import jax.numpy as np
from vf import models as M
from vf.checks.c10 import problem as adversary
from vf.checks import c11, c17

S = M.S

ASSUMPTIONS = ['the residual is an arbitrary function of the state; the two linear solves of a correction return arbitrary '
               'vectors that are right on constrained rows (unit rows)',
               'a correction whose quadratic has no real root must raise']


class Step:
    """Instrumented residual and linear solves around one continuation step."""

    def __init__(self, ctx, control, iters, concrete=0, n=3):
        self.ctx, self.control, self.iters = ctx, control, iters
        self.prob = adversary(ctx, 1)
        self.val = np.asarray(ctx.array('val', (1,), 0.5, 2))[0] if concrete == 0 else 1.25
        self.prob.fes[0].vals_list[0] = np.stack([self.val])
        self.n = n
        self.solves = []
        self.rhs = []
        self.mats = []
        self.res = []
        self.concrete = concrete
        self.prob.arm(self.draw_res)

    def draw_res(self, k):
        # not converged for the first iters-1 states, then exactly balanced
        if k >= self.iters:
            self.ctx.check('a balanced iterate ends the step', False)
        if k == self.iters - 1:
            r = self.balance(self.prob.last)
        else:
            r = self.ctx.array(f'r{k}', (2,), 0.5, 3)
        self.res.append(r)
        return np.concatenate([r, np.ones(1) * 7.0])

    def balance(self, u):
        return np.zeros(2)

    def spsolve(self, A, b):
        k = len(self.solves)
        it, which = divmod(k, 2)
        b = np.asarray(b)
        if it < self.concrete:
            x = np.asarray([[0.3, -0.2], [0.6, 0.5]][which]) * (0.4 if it else 1.0)
        else:
            x = self.ctx.array(f'{"bt"[which]}{it}', (2,), *((-0.1, 0.1) if which == 0 else (0.5, 1.5)))
        x = np.concatenate([x, b[2:]])
        self.solves.append(x)
        self.rhs.append(b)
        self.mats.append(A)
        return x


def admissible(d, dl, ref2, psi, L2):
    return np.sum(d * d) + psi ** 2 * dl ** 2 * ref2 - L2


def step(ctx, control, iters, concrete, free):
    """One continuation step from an arbitrary point of the path."""
    st = Step(ctx, control, iters, concrete)
    prob, n = st.prob, st.n
    lam0 = ctx.scalar('lam', 0, 1) if 'start' in free else 0.25
    u0 = np.concatenate([ctx.array('u', (2,), -1, 1) if 'start' in free else np.array([0.2, -0.1]), np.zeros(1)])
    full = st.val if control == 'force' else lam0 * st.val
    u0 = u0.at[2].set(full)
    if free == 'zero-direction':
        du0, dlam0 = np.zeros(n), 0.0
    elif concrete:
        du0, dlam0 = np.asarray([0.3, -0.4, 0.2]), ctx.scalar('dlam', -1, 1)
    else:
        du0, dlam0 = ctx.array('du', (n,), -1, 1), ctx.scalar('dlam', -1, 1)
    L = 1.5 if concrete else ctx.scalar('Delta_l', 1, 2)
    psi = ctx.scalar('psi', 0.0, 2) if 'psi' in free else 0.6 if concrete == 3 else 1.7 if concrete else 1.0
    kw = {}
    if control == 'force':
        q = np.asarray([0.9, 0.6, 0.8]) if concrete else ctx.array('q', (n,), 0.5, 1) if 'start' not in free else np.concatenate([ctx.array('q', (1,), 0.5, 1), np.array([0.7, 0.9])])
        qm = q.at[2].set(0.0)
        fn, args = S.arc_length_solver_force_driven, (q,)
        ref, ref2 = qm, np.sum(qm * qm)

        # the states are balanced with the load that is missing at their load factor
        def balance(u):
            return -(1.0 - lam_at[-1]) * qm[:2]
        st.balance = balance
    else:
        fn, args = S.arc_length_solver_disp_driven, ()
        ub = np.zeros(n).at[2].set(st.val)
        ref, ref2 = ub, st.val ** 2
    lam_at = [lam0]
    real_draw = st.draw_res

    def check_iterate(j):
        uj, lj = st.states_u[j], lam_at[j]
        if control == 'force':
            want = M.bc_residual(prob, uj) + (1.0 - lj) * ref
        else:
            want = M.bc_residual(prob, uj, lj)
        ctx.close(f'right-hand side {j}', st.rhs[2 * j], -want)
        ctx.close(f'load direction {j}', st.rhs[2 * j + 1], ref)
        if j > 0:
            ctx.close(f'prescribed values scale with the load factor {j}', uj[2], st.val * (lj if control != 'force' else 1.0))
            ctx.close(f'arc-length constraint {j}', admissible(uj - u0, lj - lam0, ref2, psi, L * L), 0.0, 1e-7)

    def draw(k):
        now = prob.last
        if k > 0:
            check_iterate(k - 1)
            prob.last = now
            # load factor of the state just reached, from its own definition
            d = now - st.states_u[-1] - st.solves[2 * k - 2]
            t = st.solves[2 * k - 1]
            lam_at.append(lam_at[-1] + d[0] / t[0])
        st.states_u.append(prob.last)
        return real_draw(k)
    st.states_u = []
    prob.draw = draw
    raised = False
    with M.fake_libs(ctx, spsolve=st.spsolve, native=True):
        try:
            u, lam, du, dlam = fn(prob, u0, lam0, du0, dlam0, *args, Delta_l=L, psi=psi)
        except AssertionError:
            raised = True
    k = len(st.solves) // 2 - 1                      # the last correction
    us = st.states_u
    bar, t = st.solves[2 * k], st.solves[2 * k + 1]
    lamk = lam_at[k]
    check_iterate(k)
    D = us[k] - u0 + bar
    dl = lamk - lam0
    a1 = np.sum(t * t) + psi ** 2 * ref2
    a2 = 2 * np.sum(D * t) + 2 * psi ** 2 * dl * ref2
    a3 = np.sum(D * D) + psi ** 2 * dl ** 2 * ref2 - L * L
    disc = a2 * a2 - 4 * a1 * a3
    if raised:
        ctx.check('raises only without an admissible load increment', disc <= 1e-9)
        return
    ctx.check('one pair of solves per correction', len(st.solves) == 2 * len(us))
    ctx.check('accepted only after a balanced iterate', len(us) == iters)
    x = lam - lamk
    ctx.close('correction', u, us[k] + bar + x * t)
    ctx.close('arc-length constraint', admissible(u - u0, lam - lam0, ref2, psi, L * L), 0.0, 1e-7)
    ctx.close('returned displacement increment', du, u - u0)
    ctx.close('returned load increment', np.asarray(dlam), np.asarray(lam - lam0))
    ctx.close('prescribed values scale with the load factor', u[2], st.val * (lam if control != 'force' else 1.0))
    other = -a2 / a1 - x
    pd, pl = (du0, dlam0) if k == 0 else (us[k] - u0, lamk - lam0)

    def dot(y):
        return np.sum(pd * (us[k] + bar + y * t - u0)) + psi ** 2 * pl * (lamk + y - lam0) * ref2
    if free == 'zero-direction' and k == 0:
        ctx.check('larger load increment without a direction', x >= other - 1e-9)
    else:
        s = np.sqrt(a2 ** 2. - 4. * a1 * a3)
        r1, r2 = (-a2 + s) / (2. * a1), (-a2 - s) / (2. * a1)
        p1, p2 = dot(r1), dot(r2)
        for c, o, r in ((p1, p2, r1), (p2, p1, r2)):
            if c > o + 1e-9:
                ctx.check('continues the previous direction', np.logical_or(
                    np.abs(x - r) < 1e-9, np.logical_and(np.abs(c) < 1e-9, np.abs(o) < 1e-9)))


def patience(ctx, control, steps):
    """However many corrections it takes: no return from an unbalanced state."""
    prob = adversary(ctx, 1)
    free = (1, 2, 30)
    prob.arm(lambda k: np.concatenate([ctx.array(f'r{k}', (2,), 0.5, 3) if k in free else np.asarray([1.0 + k % 3, -1.0 - k % 4]), np.ones(1)]))
    prob.fes[0].vals_list[0] = np.ones(1) * 1.25
    n, cnt = 3, [0]

    def spsolve(A, b):
        k, which = divmod(cnt[0], 2)
        cnt[0] += 1
        if k >= steps:
            raise M.Stop()
        x = np.asarray([[0.05 * (-1) ** k, -0.02], [0.6, 0.5 + 0.01 * (k % 5)]][which])
        return np.concatenate([x, np.asarray(b)[2:]])
    q = np.asarray([0.9, 0.6, 0.8])
    fn = S.arc_length_solver_disp_driven if control == 'disp' else S.arc_length_solver_force_driven
    u0 = np.asarray([0.2, -0.1, 1.25 * (0.25 if control == 'disp' else 1.0)])
    stopped = False
    with M.fake_libs(ctx, spsolve=spsolve, native=True):
        try:
            fn(prob, u0, 0.25, np.asarray([0.3, -0.4, 0.2]), 0.1, *(() if control == 'disp' else (q,)), Delta_l=1.5, psi=0.7)
        except M.Stop:
            stopped = True
    ctx.check('never returns from an unbalanced state', stopped)


def affine(ctx, control, free):
    """Affine problem and exact linear solves: the accepted state is in exact
    equilibrium at its load factor."""
    prob = c11.make(ctx, 'heat')
    n = prob.num_total_dofs_all_vars
    fe = prob.fes[0]
    fe.vals_list[0] = np.ones(1) * 3.0
    fe.vals_list[1] = np.stack([fe.vals_list[1][0] if free == 'value' else 3.5, 2.5])
    prob.internal_vars = [np.ones(M.quad_shape(fe)) * (ctx.scalar('src', -1, 1) if free == 'source' else 0.4)]
    bc = M.constrained(prob)
    freed = [i for i in range(n) if i not in bc]
    count = [0]

    def spsolve(A, b):
        count[0] += 1
        if count[0] > 6:
            ctx.cut('corrections')
        return c11.exact(A, b)
    lam0 = 0.25
    u0 = np.zeros(n).at[freed[0]].set(ctx.scalar('u', -1, 1) if free == 'start' else 0.3)
    for d, v in bc.items():
        u0 = u0.at[d].set(v * (lam0 if control == 'disp' else 1.0))
    q = np.zeros(n).at[freed[0]].set(ctx.scalar('q', 0.5, 1) if free == 'load' else 0.8)
    qm = q
    q = q + np.asarray([1.0 if i in bc else 0.0 for i in range(n)])
    fn = S.arc_length_solver_disp_driven if control == 'disp' else S.arc_length_solver_force_driven
    with M.fake_libs(ctx, spsolve=spsolve, native=True):
        try:
            u, lam, du, dlam = fn(prob, u0, lam0, np.zeros(n), 0.0, *(() if control == 'disp' else (q,)), Delta_l=6.0, psi=1.0)
        except AssertionError:
            return
    if control == 'disp':
        r = M.bc_residual(prob, u, lam)
    else:
        r = M.bc_residual(prob, u) + (1.0 - lam) * qm
    ctx.close('equilibrium at the load factor', r, np.zeros(n), 1e-6)


def outer(ctx, control):
    """Outer loop with arbitrary step results."""
    c17.arc(ctx, control)


def load_vector(ctx):
    """get_q_vec is the unconstrained residual at the zero state."""
    mk, par = __import__('vf.checks.c13', fromlist=['x']).build('load')
    prob = mk()
    prob.set_params(par(ctx, 'p'))
    q = S.get_q_vec(prob)
    pr = mk()
    pr.internal_vars_surfaces = prob.internal_vars_surfaces
    ctx.close('load vector', q, M.flat(pr.compute_residual(pr.unflatten_fn_sol_list(np.zeros(pr.num_total_dofs_all_vars)))))


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    for c in ('disp', 'force'):
        add(f'{c}-first', step, control=c, iters=1, concrete=0, free='start psi', bounds='one correction; all starts, directions, lengths, scalings, solve results', cost=3)
        add(f'{c}-zero-direction', step, control=c, iters=1, concrete=0, free='zero-direction', bounds='one correction without a previous direction')
        add(f'{c}-second', step, control=c, iters=2, concrete=1, free='', bounds='two corrections, the first with fixed solve results', cost=3)
        add(f'{c}-third', step, control=c, iters=3, concrete=3, free='', bounds='three corrections with fixed solve results; all residuals, directions')
        N = 60 if tier == 'quick' else 400
        add(f'{c}-patience', patience, control=c, steps=N, bounds=f'{N} corrections that stay unbalanced')
        for f in ['source', 'start', 'value'] + ['load'] * (c == 'force'):
            add(f'{c}-affine-{f}', affine, control=c, free=f, bounds=f'affine problem; every {f}', cost=3)
    add('outer-displacement', outer, control='displacement', cost=6, bounds='one or two continuation steps with arbitrary results')
    add('outer-force', outer, control='force', cost=6, bounds='one or two continuation steps with arbitrary results')
    add('load-vector', load_vector, bounds='two TRI3 cells; all loads')
    return U
