"""C17: solver options mean what the documentation says."""
import numpy as onp
import jax.numpy as np
from vf import models as M
from vf.checks.c10 import problem as adversary

S = M.S

ASSUMPTIONS = ['the residual is an arbitrary function of the state; linear solves return arbitrary vectors',
               'arc-length steps are replaced by arbitrary (state, load factor) results when the outer loop is examined']

BACKENDS = {
    'none': None, 'jax': {'jax_solver': {}}, 'jax-plain': {'jax_solver': {'precond': False}}, 'spsolve': {'spsolve_solver': {}},
    'petsc': {'petsc_solver': {}}, 'petsc-args': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, 'custom': {'custom_solver': 0},
}


class Log:
    """Records which linear backend ran; hands out arbitrary increments."""

    def __init__(self, ctx, n, limit=1, cut=True):
        self.ctx, self.n, self.limit, self.cut = ctx, n, limit, cut
        self.calls = []
        self.incs = []

    def inc(self, what, b):
        k = len(self.calls)
        self.calls.append(what)
        if k >= self.limit:
            if self.cut:
                self.ctx.cut('Newton iterations')
            raise M.Stop()
        v = np.asarray(b)           # exact: the matrix is the identity
        self.incs.append(v)
        return v

    def libs(self, extra=()):
        def bicg(A, b, x0=None, M=None, **kw):
            return self.inc(('jax', M is not None), b), None

        def spsolve(A, b):
            return self.inc(('spsolve',), b)

        def draw(m, A, b, ksp):
            return self.inc(('petsc', ksp.getType(), (ksp.pc if hasattr(ksp, 'pc') else ksp.getPC()).getType()), b.getArray())
        return M.fake_libs(self.ctx, draw=draw, spsolve=spsolve, bicgstab=bicg, native=True, extra=extra)

    def custom(self, A, b, x0, o):
        return self.inc(('custom',), b)


def expected_backend(b):
    return {'none': ('jax', True), 'jax': ('jax', True), 'jax-plain': ('jax', False), 'spsolve': ('spsolve',),
            'petsc': ('petsc', 'bcgsl', 'ilu'), 'petsc-args': ('petsc', 'gmres', 'jacobi'), 'custom': ('custom',)}[b]


def backend_opts(b, log):
    if BACKENDS[b] is None:
        return None
    return {k: (dict(v) if isinstance(v, dict) else log.custom) for k, v in BACKENDS[b].items()}


def copy2(d):
    return {k: (copy2(v) if isinstance(v, dict) else v) for k, v in d.items()}


def same_dict(a, b):
    return a.keys() == b.keys() and all(same_dict(a[k], b[k]) if isinstance(b[k], dict) else a[k] is b[k] for k in b)


def newton_problem(ctx):
    prob = adversary(ctx, 2)
    prob.arm(lambda k: np.concatenate([ctx.array(f'r{k}', (1,), -3, 3), np.ones(2) * 7.0]))
    if True:
        # a regular matrix for the acceptance tests of the real backends
        I, J = onp.asarray(prob.I), onp.asarray(prob.J)
        prob.V = np.asarray((I == J) * 1.0)
    return prob


def newton(ctx, backend, spelling):
    prob = newton_problem(ctx)
    n = 3
    log = Log(ctx, n)
    tol, rel = 1e-6, 1e-8
    o = {}
    ls = ctx.choose('line search', 3)
    if ls:
        o['line_search_flag'] = ls == 2
    if ls != 2 and ctx.choose('tol given', 2):
        tol = o['tol'] = ctx.scalar('tol', 0, 1)
    if ls != 2 and ctx.choose('rel_tol given', 2):
        rel = o['rel_tol'] = ctx.scalar('rel', 0, 0.5)
    u0 = np.zeros(n)
    if ctx.choose('guess given', 2):
        u0 = ctx.array('u0', (n,), -2, 2)
        o['initial_guess'] = prob.unflatten_fn_sol_list(u0)
    lin = backend_opts(backend, log)
    if spelling == 'flat':
        opts = {**o, **(lin or {})}
    else:
        opts = {'newton': dict(o)}
        if lin is not None:
            opts['newton']['linear'] = lin
        elif spelling == 'nested-empty':
            opts['newton']['linear'] = {}
    before = copy2(opts)
    with log.libs():
        try:
            if not opts and spelling == 'flat':
                sol = S.solver(prob)
            else:
                sol = S.solver(prob, opts)
        except M.Stop:
            raise
    ctx.check('options unchanged', same_dict(opts, before))
    out = M.flat(sol)

    def size(d):
        return np.linalg.norm(M.bc_residual(prob, d))
    n0 = size(u0)
    go = np.logical_and(n0 / n0 > rel, n0 > tol)
    if not log.calls:
        ctx.close('start', out, u0)
        ctx.check('no iteration only if the start is within tolerance', np.logical_not(go))
        return
    ctx.check('iterated only if the start is not within tolerance', go)
    ctx.check('backend', log.calls == [expected_backend(backend)])
    if ls == 2:
        ctx.check('line search probes the half step', M.state_key(u0 + 0.5 * log.incs[0]) in prob.memo)
    else:
        ctx.close('full step', out, u0 + log.incs[0])
        ctx.check('no line search', len(prob.memo) == 2)
    n1 = size(out)
    ctx.check('stopped only within tolerance', np.logical_or(n1 / n0 <= rel, n1 <= tol))


def rejected(ctx):
    """Ambiguous and malformed options are rejected before anything runs."""
    prob = newton_problem(ctx)
    log = Log(ctx, 3)
    two = {'newton': {}, 'arc_length': {'control': 'displacement'}, 'dynamic_relax': {}}
    bad = []
    names = list(two)
    for i in range(3):
        for j in range(i):
            bad.append({k: two[k] for k in (names[i], names[j])})
    bad.append(two)
    for k in names:
        bad += [{k: None}, {k: 'default'}, {k: 3}, {k: [('tol', 1)]}]
    bad += [{'arc_length': {}}, {'arc_length': {'control': 'load'}}, {'arc_length': {'control': None}},
            {'arc_length': {'control': 'force'}}]
    k = ctx.choose('options', len(bad))
    with log.libs():
        try:
            S.solver(prob, bad[k])
            ok = False
        except ValueError:
            ok = True
    ctx.check('rejected', ok)
    ctx.check('nothing ran', not prob.memo and not log.calls)
    x = prob.fes[0].vals_list[0]
    ctx.close('conditions untouched', x, x)


def arc(ctx, control):
    """Which options reach the continuation, and what is reported."""
    prob = newton_problem(ctx)
    n = 3
    log = Log(ctx, n, limit=0, cut=False)
    q = ctx.array('q', (n,), -1, 1)
    o = {'control': control}
    want = {'Delta_l': 0.1, 'psi': 1.0 if control == 'displacement' else 0.5}
    given = ctx.choose('given', 3)
    for k, lo, hi in (('Delta_l', 0.05, 0.5), ('psi', 0.0, 2.0)):
        if given == 2 or (given == 1 and k == 'psi'):
            want[k] = o[k] = ctx.scalar(k, lo, hi)
    if control == 'force':
        o['q_vec_aux'] = q
    info = ctx.choose('return_info', 3)
    if info:
        o['return_info'] = info == 2
    limit = 1 + ctx.choose('steps', 2)
    o['max_continuation_steps'] = limit
    cbs = []
    if info != 1:
        o['step_callback'] = lambda s, u, lam: cbs.append((s, u, lam))
    polish = ctx.choose('polish', 2)
    if polish == 1:
        o['newton'] = {'tol': ctx.scalar('tol', 0, 1), 'rel_tol': 0.25}
    lin = ctx.choose('linear', 2)
    if lin:
        o['linear'] = {'spsolve_solver': {}}
    before = copy2(o)
    steps = []

    def step(problem, u, lam, du, dlam, *a, **kw):
        q_in = a[0] if a else kw.get('q_aux')
        k = len(steps)
        r = (ctx.array(f'u{k}', (n,), -2, 2), ctx.scalar(f'lam{k}', 0, 2), ctx.array(f'du{k}', (n,), -1, 1), ctx.scalar(f'dl{k}', -1, 1))
        steps.append(dict(u=u, lam=lam, du=du, dlam=dlam, q=q_in, Delta_l=kw.get('Delta_l', a[1] if len(a) > 1 else None),
                          psi=kw.get('psi', a[2] if len(a) > 2 else None), out=r, same=problem is prob))
        return r
    name = f'arc_length_solver_{"disp" if control == "displacement" else "force"}_driven'
    from vf import jaxsym
    with log.libs(), jaxsym.patched([(S, name, step)]):
        try:
            res = S.solver(prob, {'arc_length': o})
            stopped = False
        except M.Stop:
            stopped = True
    ctx.check('options unchanged', same_dict(o, before))
    ctx.check('continuation ran', 1 <= len(steps) <= limit and all(s['same'] for s in steps))
    prev = (np.zeros(n), 0.0, np.zeros(n), 0.0)
    for i, s in enumerate(steps):
        ctx.close(f'arc length {i}', np.asarray(s['Delta_l']), np.asarray(want['Delta_l']))
        ctx.close(f'scaling {i}', np.asarray(s['psi']), np.asarray(want['psi']))
        for k, (a, b) in enumerate(zip((s['u'], s['lam'], s['du'], s['dlam']), prev)):
            ctx.close(f'step {i} starts from the previous one ({k})', np.asarray(a), np.asarray(b))
        if control == 'force':
            ctx.close(f'load vector {i}', np.asarray(s['q']), q)
        prev = s['out']
        last = i == len(steps) - 1
        if not last:
            ctx.check('stops at full load', s['out'][1] < 1.0)
    full = prev[1] >= 1.0
    if len(steps) < limit:
        ctx.check('stops early only at full load', full)
    if 'step_callback' in o:
        ctx.check('callback per step', [c[0] for c in cbs] == list(range(len(steps))))
        for c, s in zip(cbs, steps):
            ctx.close('callback state', np.asarray(c[1]), s['out'][0])
            ctx.close('callback load factor', np.asarray(c[2]), s['out'][1])
    polished = len(prob.memo) > 0
    if polished:
        ctx.check('full-load solve only after full load', full)
        ctx.close('full-load solve starts from the last state', prob.states[0], prev[0])
    else:
        ctx.check('no full-load solve only below full load', np.logical_not(full))
    N = np.linalg.norm(M.bc_residual(prob, prev[0])) if polished else None
    tol = o['newton']['tol'] if polish == 1 else 1e-6
    if stopped:
        ctx.check('the full-load solve iterated', polished and len(log.calls) == 1)
        ctx.check('linear backend of the full-load solve', log.calls[0] == (('spsolve',) if lin else ('jax', True)))
        ctx.check('iterated only outside the tolerance', N > tol)
        return
    if polished:
        ctx.check('not iterated only within the tolerance', N <= tol)
    if info == 2:
        ctx.check('returns solution and report', isinstance(res, tuple) and len(res) == 2)
        sol, rep = res
        ctx.check('report', rep['control'] == control and rep['polished'] == polished and rep['lambda_target'] == 1.0
                  and len(rep['history']) == len(steps))
        ctx.close('reported load factor', np.asarray(rep['lam']), prev[1])
        for i, (h, s) in enumerate(zip(rep['history'], steps)):
            ctx.check('history index', h['step'] == i)
            ctx.close('history state', np.asarray(h['u']), s['out'][0])
            ctx.close('history load factor', np.asarray(h['lam']), s['out'][1])
    else:
        ctx.check('returns the solution only', isinstance(res, list))
        sol = res
    ctx.close('returned state', M.flat(sol), prev[0])


def force_switch(ctx):
    """Force control: the late arc length applies from the switch step on."""
    prob = newton_problem(ctx)
    n = 3
    o = {'control': 'force', 'q_vec_aux': ctx.array('q', (n,), -1, 1), 'max_continuation_steps': 4}
    given = ctx.choose('given', 4)
    late = sw = None
    if given & 1:
        late = o['Delta_l_late'] = ctx.scalar('late', 0.2, 2)
    if given & 2:
        sw = o['Delta_l_switch_step'] = ctx.choose('switch', 4)
    seen = []

    def step(problem, u, lam, du, dlam, *a, **kw):
        seen.append(kw.get('Delta_l', a[1] if len(a) > 1 else None))
        return u, 0.0, du, dlam
    from vf import jaxsym
    log = Log(ctx, n)
    with log.libs(), jaxsym.patched([(S, 'arc_length_solver_force_driven', step)]):
        S.solver(prob, {'arc_length': o})
    ctx.check('all steps taken', len(seen) == 4)
    for i, d in enumerate(seen):
        w = 0.1 if i < (200 if sw is None else sw) else (1.0 if late is None else late)
        ctx.close(f'arc length {i}', np.asarray(d), np.asarray(w))


def relax(ctx, backend):
    """Dynamic relaxation: backend of the first solve, start and tolerance."""
    prob = newton_problem(ctx)
    n = 3
    log = Log(ctx, n, limit=1, cut=False)
    I, J = onp.asarray(prob.I), onp.asarray(prob.J)
    o = {'info': False, 'info_force': False}
    lin = backend_opts(backend, log)
    if lin is not None:
        o['linear'] = lin
    tol = 1e-6
    if ctx.choose('tol given', 2):
        tol = o['tol'] = ctx.scalar('tol', 0, 1)
    guess = ctx.choose('guess given', 2)
    if guess:
        u0 = ctx.array('u0', (n,), -2, 2)
        o['initial_guess'] = prob.unflatten_fn_sol_list(u0)
    before = copy2(o)
    hist = []
    real = prob.draw

    def draw(k):
        if k >= 2:
            raise M.Stop()       # an iteration was started
        return real(k)
    prob.draw = draw
    import jax
    with log.libs(), M.sym_numpy(ctx), jax.disable_jit():
        try:
            sol = S.solver(prob, {'dynamic_relax': o})
        except M.Stop:
            sol = None
    ctx.check('options unchanged', same_dict(o, before))
    want = ('spsolve',) if backend == 'none' else expected_backend(backend)
    ctx.check('backend of the first solve', log.calls == [want])
    start = (u0 if guess else np.zeros(n))
    bc = M.constrained(prob)
    if guess:
        for d, v in bc.items():
            start = start.at[d].set(v)
    else:
        start = log.incs[0]
    key = M.state_key(start)
    ctx.check('relaxation starts from the documented state', key in prob.memo)
    f = np.abs(prob.memo[key][0])
    if sol is None:
        ctx.check('relaxes only outside the tolerance', f > tol)
    else:
        ctx.check('returned at once only within the tolerance', f <= tol)
        ctx.close('returned start', M.flat(sol), start)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    for b in BACKENDS:
        for sp in ('flat',) + (('nested',) if tier == 'thorough' or b in ('none', 'petsc-args', 'custom') else ()) \
                + (('nested-empty',) if b == 'none' else ()):
            add(f'newton-{b}-{sp}', newton, backend=b, spelling=sp, cost=2,
                bounds='all subsets of Newton keys; all values; one iteration')
    add('rejected', rejected, bounds='all pairs of methods, four malformed values per method, arc-length without what it needs')
    for c in ('displacement', 'force'):
        add(f'arc-{c}', arc, control=c, cost=6, bounds='all subsets of arc-length keys; one or two continuation steps with arbitrary results')
    add('arc-force-switch', force_switch, bounds='four continuation steps, all switch steps and late lengths')
    for b in ('none', 'spsolve', 'petsc-args', 'custom', 'jax'):
        add(f'relax-{b}', relax, backend=b, bounds='all subsets of tol/initial_guess; arbitrary residual; start of the relaxation')
    return U
