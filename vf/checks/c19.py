"""C19: each optimisation step solves a valid convex approximation within limits."""
import ast
import inspect
import textwrap
import types
import numpy as onp
import jax.numpy as np
from vf import models as M, jaxsym
from vf.sym import ATOMS, Poly
from jax_fem import mma as MM

ASSUMPTIONS = ['design and history lie in the box, the box is not degenerate, asymptotes bracket the previous design',
               'step directions are arbitrary where stated; runs longer than the step bound are cut']


def col(a):
    return np.asarray(a)[:, None]


class Capture(Exception):
    pass


def sub_args(ctx, mma, x):
    """What mmasub hands to the sub-problem solver."""
    got = []

    def subsolv(*a):
        got.append(a)
        raise Capture()
    with M.sym_numpy(ctx), jaxsym.patched([(MM, 'subsolv', subsolv)]):
        try:
            mma.mmasub(x)
        except Capture:
            pass
    return got[0]


def approx(ctx, epoch, n, m):
    """The convex approximation around the current design."""
    free = n == 1 and epoch <= 2
    xmin = col(ctx.array('xmin', (n,), -1, 0)) if free else -0.5 * np.ones((n, 1))
    rng = col(ctx.array('range', (n,), 0.5, 2)) if free else 2. * np.ones((n, 1))
    xmax = xmin + rng
    fx = [col(ctx.array(f'x{k}', (n,), 0, 1)) for k in range(3)]
    x, x1, x2 = (xmin + f * rng for f in fx)
    move = ctx.scalar('move', 0.01, 1)
    sg = 1 - 2 * ctx.choose('sign', 2)
    f0, df0 = ctx.scalar('f0', -2, 2), col(ctx.array('df0', (n,), 0, 2)) * sg * onp.array([1., -1.])[:n, None]
    f = col(ctx.array('f', (m,), -2, 2))
    df = ctx.array('df', (m, n), 0, 2) * (1 - 2 * ctx.choose('sign2', 2)) * onp.array([[1., 1.], [-1., 1.]])[:m, :n]
    low0 = x1 - col(ctx.array('dl', (n,), 0.01, 3)) * rng
    upp0 = x1 + col(ctx.array('du', (n,), 0.01, 3)) * rng
    mma = MM.MMA()
    mma.setNumConstraints(m)
    mma.setNumDesignVariables(n)
    mma.setMinandMaxBoundsForDesignVariables(xmin, xmax)
    for _ in range(epoch):
        mma.registerMMAIter(x, x1, x2)
    mma.setLowerAndUpperAsymptotes(low0, upp0)
    mma.setScalingParams(1.0, np.zeros((m, 1)), 1e4 * np.ones((m, 1)), np.zeros((m, 1)))
    mma.setMoveLimit(move)
    mma.setObjectiveWithGradient(f0, df0)
    mma.setConstraintWithGradient(f, df)
    m_, n_, eps, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d = sub_args(ctx, mma, x)
    low, upp, alfa, beta, p0, q0, P, Q, b = map(np.asarray, (low, upp, alfa, beta, p0, q0, P, Q, b))
    ctx.check('sizes', (m_, n_) == (m, n))
    ctx.check('accuracy', 0 < eps <= 1e-6)
    t = 1e-12
    if epoch <= 2:
        ctx.close('first lower asymptotes', low, x - 0.5 * rng)
        ctx.close('first upper asymptotes', upp, x + 0.5 * rng)
    else:
        for i in range(n):
            z = (x[i, 0] - x1[i, 0]) * (x1[i, 0] - x2[i, 0])
            g = 1.2 if z > 0 else (0.7 if z < 0 else 1.0)
            r = rng[i, 0]
            wl = np.clip(x[i, 0] - g * (x1[i, 0] - low0[i, 0]), x[i, 0] - 10 * r, x[i, 0] - 0.01 * r)
            wu = np.clip(x[i, 0] + g * (upp0[i, 0] - x1[i, 0]), x[i, 0] + 0.01 * r, x[i, 0] + 10 * r)
            ctx.close(f'lower asymptote {i}', low[i, 0], wl)
            ctx.close(f'upper asymptote {i}', upp[i, 0], wu)
    ctx.check('asymptotes enclose the design', np.logical_and(low < x, x < upp))
    ctx.check('bounds lie between the asymptotes', np.logical_and(low < alfa, beta < upp))
    ctx.check('bounds enclose the design', np.logical_and(alfa <= x + t, x <= beta + t))
    ctx.check('bounds stay in the box', np.logical_and(alfa >= xmin - t, beta <= xmax + t))
    ctx.check('move limit', np.logical_and(alfa >= x - move * rng - t, beta <= x + move * rng + t))
    for i in range(n):
        ctx.check(f'some room to move {i}', alfa[i, 0] < beta[i, 0])
    ux, xl = upp - x, x - low
    ctx.check('convex', np.logical_and(np.all(p0 > 0), np.all(q0 > 0)))
    ctx.check('convex constraints', np.logical_and(np.all(P > 0), np.all(Q > 0)))
    u2, l2 = ux * ux, xl * xl
    ctx.close('objective gradient', p0 * l2 - q0 * u2, df0 * u2 * l2)
    ctx.close('constraint gradients', P * l2.T - Q * u2.T, df * (u2 * l2).T)
    ctx.close('constraint values', np.sum(P / ux.T, axis=1) + np.sum(Q / xl.T, axis=1) - b[:, 0], f[:, 0])
    ctx.check('scaling is handed on', a0 == 1.0 and bool(np.all(np.asarray(c) == 1e4)) and bool(np.all(np.asarray(a) == 0)) and bool(np.all(np.asarray(d) == 0)))


def capped(outer):
    """The real interior-point solver unrolled to a bound: at most `outer`
    Newton steps per barrier parameter, no step halvings."""
    tree = ast.parse(textwrap.dedent(inspect.getsource(MM.subsolv)))
    caps = {200: outer, 50: 1}

    class T(ast.NodeTransformer):
        def visit_Constant(self, node):
            return ast.copy_location(ast.Constant(caps[node.value]), node) if type(node.value) is int and node.value in caps else node

        def visit_BoolOp(self, node):
            # comparisons have no effects: look at the iteration count first
            self.generic_visit(node)
            node.values.sort(key=lambda v: not any(isinstance(u, ast.Constant) and u.value in (1, outer) and type(u.value) is int for u in ast.walk(v)))
            return node
    tree = ast.fix_missing_locations(T().visit(tree))
    code = next(c for c in compile(tree, MM.__file__, 'exec').co_consts if isinstance(c, types.CodeType))
    return types.FunctionType(code, vars(MM))


def largest(vals):
    """Maximum: one path per maximiser where the candidates are affine in the
    inputs, a defined term otherwise."""
    ps = [jaxsym.data_of(v)[()] if isinstance(v, jaxsym.SymTracer) else v for v in vals]
    affine = all(not isinstance(p, Poly) or all(len(m) == 0 or len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'var' for m in p.t) for p in ps)
    best = vals[0]
    for v in vals[1:]:
        if not affine:
            best = np.maximum(best, v)
        elif v > best:
            best = v
    return best


def numpy_names(ctx, px, tag):
    """Maxima inside the sub-problem solver."""
    if not ctx.symbolic:
        return []

    def npmax(a, axis=None, **k):
        if axis is not None or k or not isinstance(a, jaxsym.SymTracer):
            return onp.max(a, axis=axis, **k)
        f = np.reshape(a, (-1,))
        return largest([f[i] for i in range(f.shape[0])])

    def pymax(*a, **k):
        v = list(a[0]) if len(a) == 1 else list(a)
        if k or not any(isinstance(x, jaxsym.SymTracer) for x in v):
            return max(*a, **k)
        return largest([np.reshape(x, ()) for x in v])
    out = [(MM, k, px.diag) for k, v in list(vars(MM).items()) if v is onp.diag]
    k = [0]

    def norm(a):
        # the residual norm only steers step halvings, which are outside the
        # bound: an arbitrary non-negative number stands for it
        if not isinstance(a, jaxsym.SymTracer):
            return onp.sqrt(a)
        k[0] += 1
        return np.broadcast_to(ctx.scalar(f'norm{tag}.{k[0]}', 1e-3, 1e9), a.shape)
    px.__dict__.update(max=npmax, amax=npmax, sqrt=norm)
    return out + [(MM, 'max', pymax)]


# sizes, data of the sub-problem: low, upp, alfa, beta, p0, q0, P, Q, a, d
DATA = [
    (1, 2, [-1., -1.5], [2., 1.], [-.6, -.5], [.8, .7], [.5, 1.], [.3, .2], [[1., .4]], [[.2, .9]], [0.], [0.]),
    (2, 1, [-1.], [2.], [-.6], [.8], [.5], [.3], [[1.], [.3]], [[.2], [.8]], [0., 0.], [0., 0.]),
    (1, 1, [-1.], [1.], [-.9], [.5], [.1], [.9], [[.7]], [[.2]], [.4], [.5]),
    (2, 3, [-1., -1.5, -1.], [2., 1., 1.], [-.6, -.5, -.9], [.8, .7, .8], [.5, 1., .1], [.3, .2, .6],
     [[1., .4, .2], [.3, .1, .9]], [[.2, .9, .1], [.5, .5, .1]], [.3, .1], [0., .6]),
]


def data(k, ctx, bsym=1, c=(10., 9.)):
    m, n, low, upp, alfa, beta, p0, q0, P, Q, a, d = DATA[k]
    cv = lambda v: onp.array(v)[:, None]
    a0 = ctx.scalar('a0', 0.5, 2) if bsym else 1.5
    b = col(ctx.array('b', (m,), -2, 2)) if bsym == 1 else cv([.3, -.2][:m])
    c = cv(list(c)[:m])
    return m, n, cv(low), cv(upp), cv(alfa), cv(beta), cv(p0), cv(q0), onp.array(P), onp.array(Q), a0, cv(a), b, c, cv(d)


def kkt(D, w, eps):
    """Relaxed optimality conditions of the sub-problem (Svanberg 1987)."""
    m, n, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d = D
    x, y, z, lam, xsi, eta, mu, zet, s = w
    ux1, xl1 = upp - x, x - low
    g = P @ (1. / ux1) + Q @ (1. / xl1)
    return np.concatenate([
        (p0 + P.T @ lam) / (ux1 * ux1) - (q0 + Q.T @ lam) / (xl1 * xl1) - xsi + eta,
        c + d * y - mu - lam,
        np.reshape(a0 - zet - np.sum(a * lam), (1, 1)),
        g - a * z - y + s - b,
        xsi * (x - alfa) - eps, eta * (beta - x) - eps, mu * y - eps, zet * z - eps, lam * s - eps])


def kkt_jvp(D, w, v):
    """Its derivative at w along v."""
    m, n, low, upp, alfa, beta, p0, q0, P, Q, a0, a, b, c, d = D
    x, y, z, lam, xsi, eta, mu, zet, s = w
    dx, dy, dz, dlam, dxsi, deta, dmu, dzet, ds = v
    ux1, xl1 = upp - x, x - low
    curv = 2 * ((p0 + P.T @ lam) / ux1 ** 3 + (q0 + Q.T @ lam) / xl1 ** 3)
    G = P / (ux1 ** 2).T - Q / (xl1 ** 2).T
    return np.concatenate([
        curv * dx + G.T @ dlam - dxsi + deta, d * dy - dmu - dlam, np.reshape(-dzet - np.sum(a * dlam), (1, 1)),
        G @ dx - a * dz - dy + ds, dxsi * (x - alfa) + xsi * dx, deta * (beta - x) - eta * dx,
        dmu * y + mu * dy, dzet * z + zet * dz, dlam * s + lam * ds])


def run_sub(ctx, D, outer, solves, eps=0.5, tag=''):
    """The real sub-problem solver for the first barrier parameter, with the
    given stand-ins for its dense solves."""
    k = [0]

    def solve(A, B):
        f = solves[min(k[0], len(solves) - 1)]
        k[0] += 1
        return f(A, B)
    sub = capped(outer) if outer else MM.subsolv
    m, n = D[:2]
    with M.sym_numpy(ctx):
        px = MM.np
        with jaxsym.patched([(MM, 'solve', solve)] + numpy_names(ctx, px, tag)):
            arr = (lambda v: px.array(v)) if ctx.symbolic else (lambda v: onp.array(v))
            out = sub(m, n, eps, *[arr(v) for v in D[2:]])
    return [np.asarray(v) for v in out], k[0]


def interior(ctx, D, w):
    m, n, low, upp, alfa, beta = D[:6]
    for i in range(n):
        ctx.check(f'design {i} above its bound', w[0][i, 0] > alfa[i, 0])
        ctx.check(f'design {i} below its bound', w[0][i, 0] < beta[i, 0])
    for name, v in zip(('y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's'), w[1:]):
        for i in range(v.shape[0]):
            ctx.check(f'{name} {i} strictly positive', v[i, 0] > 0)


def size(k):
    m, n = DATA[k][:2]
    return (m if m < n else n) + 1


def DIR(k):
    return [lambda A, B: onp.array([[.1], [-.2], [.15], [.1]])[:size(k)]]


def start(ctx, k):
    """Before the first step."""
    D = data(k, ctx)
    w, ns = run_sub(ctx, D, None, [], eps=2.)
    m, n = D[:2]
    ctx.check('no step taken', ns == 0)
    interior(ctx, D, w)
    ctx.check('sizes', [v.shape for v in w] == [(n, 1), (m, 1), (1, 1), (m, 1), (n, 1), (n, 1), (m, 1), (1, 1), (m, 1)])


def steps(ctx, k, first):
    """Step lengths: wherever the linear solves point, iterates stay strictly inside."""
    D = data(k, ctx, bsym=0)
    free = ctx.array('direction', (size(k), 1), -3, 3)
    fixed = [lambda A, B: onp.array([[.3], [-.4], [.5], [.2]])[:size(k)]] if first else []
    w, ns = run_sub(ctx, D, 1 + first, fixed + [lambda A, B: free])
    ctx.check('steps taken', ns <= 1 + first)
    interior(ctx, D, w)


def newton(ctx, k, first):
    """Directions solve the linearised optimality conditions."""
    D = data(k, ctx, bsym=1 if size(k) == DATA[k][0] + 1 and DATA[k][0] < DATA[k][1] or not first else 2)
    fixed = DIR(k) if first else []
    exact = lambda A, B: np.linalg.solve(np.asarray(A), np.asarray(B))
    if first:
        w0, n0 = run_sub(ctx, D, 1, fixed, tag='first')
    else:
        w0, n0 = run_sub(ctx, D, None, [], eps=2.)
    w1, n1 = run_sub(ctx, D, 1 + first, fixed + [exact])
    if n1 != 1 + first:
        ctx.cut('converged before the step')
    F = kkt(D, w0, 1.)[:, 0]
    J = kkt_jvp(D, w0, [p - q for p, q in zip(w1, w0)])[:, 0]
    piv = D[1]                                            # the first y equation
    for i in range(F.shape[0]):
        ctx.close(f'linearised condition {i}', J[i] * F[piv], F[i] * J[piv])
    ctx.check('a step towards the solution', J[piv] * F[piv] <= 0)


def accept(ctx, k, first):
    """What ends the Newton loop: the relaxed optimality conditions hold."""
    D = data(k, ctx, c=[1.7, 2.2])
    m, n = D[:2]

    def again(A, B):
        ctx.cut('not accepted yet')
    w, ns = run_sub(ctx, D, 1 + first, DIR(k)[:first] + [again])
    F = kkt(D, w, 1.)
    for i in range(F.shape[0]):
        ctx.check(f'optimality condition {i} within tolerance', np.abs(F[i, 0]) <= 0.9 + 1e-9)
    interior(ctx, D, w)


class Line:
    """A row of unit cells as the optimiser sees a mesh."""

    def __init__(self, n):
        self.points = onp.array([[float(i), 0.] for i in range(n + 1)] + [[float(i), 1.] for i in range(n + 1)])
        self.cells = onp.array([[i, i + 1, n + 2 + i, n + 1 + i] for i in range(n)])
        self.num_cells, self.dim = n, 2
        self.JxW = onp.full((n, 4), 0.25)
        self.flex_inds = onp.arange(n)


def opt_loop(ctx, n, m, iters, dfilter):
    """The driver: histories, bounds and data it hands to the sub-problems."""
    rho0 = ctx.array('rho', (n, 1), 0.01, 1)
    move = ctx.scalar('move', 0.05, 1)
    calls, ccalls, subs, xs = [], [], [], [col(rho0[:, 0])]

    def objective(rho):
        k = len(calls)
        J, dJ = ctx.scalar(f'J{k}', -1, 1), ctx.array(f'dJ{k}', (n, 1), -1, 1)
        calls.append((rho, dJ))
        return J, dJ

    def constraints(rho, it):
        k = len(ccalls)
        vc, dvc = ctx.array(f'vc{k}', (m,), -1, 1), ctx.array(f'dvc{k}', (m, n, 1), -1, 1)
        ccalls.append((rho, it, vc, dvc))
        return vc, dvc

    def subsolv(*a):
        subs.append([np.asarray(v) if hasattr(v, 'shape') else v for v in a])
        x = ctx.array(f'x{len(subs)}', (n, 1), 0.01, 1)
        xs.append(x)
        o = onp.ones
        xm = MM.np.array(x) if ctx.symbolic else onp.array(x)
        return xm, o((m, 1)), o((1, 1)), o((m, 1)), o((n, 1)), o((n, 1)), o((m, 1)), o((1, 1)), o((m, 1))
    fe = Line(n)
    quiet = [(MM.logger, 'info', lambda *a, **k: None)]
    sets = [(MM, 'density_filtering', bool(dfilter)), (MM, 'sensitivity_filtering', not dfilter)]
    if ctx.symbolic:
        from vf.fakes import FakeBCOO
        sets.append((MM, 'BCOO', FakeBCOO))
    with M.sym_numpy(ctx), jaxsym.patched([(MM, 'subsolv', subsolv)] + quiet + sets):
        rho = MM.optimize(fe, rho0, {'movelimit': move, 'maxIters': iters}, objective, constraints, m)
    ctx.check('number of iterations', len(calls) == len(ccalls) == len(subs) == iters)
    ctx.close('returned design', rho, xs[-1])
    ctx.check('iteration numbers', [c[1] for c in ccalls] == list(range(1, iters + 1)))
    # the filter of unit cells in a row, radius 1.5
    H = onp.maximum(1.5 - onp.abs(onp.arange(n)[:, None] - onp.arange(n)[None]), 0.)
    Hs = H.sum(1)[:, None]
    t = 1e-12
    hist = [xs[0], xs[0]] + xs
    low = upp = None
    for k in range(iters):
        x, x1, x2 = hist[k + 2], hist[k + 1], hist[k]
        phys = H @ x / Hs if dfilter else x
        ctx.close(f'design analysed {k}', calls[k][0], phys)
        ctx.close(f'design constrained {k}', ccalls[k][0], phys)
        dJ, dvc = calls[k][1], ccalls[k][3]
        if not dfilter:
            dJ = H @ (x * dJ / np.maximum(1e-3, x) / Hs)
            dvc = np.stack([H @ (x * dvc[j] / np.maximum(1e-3, x) / Hs) for j in range(m)])
        m_, n_, eps, lo, up, alfa, beta, p0, q0, P, Q, a0, a, b, c, d = subs[k]
        ctx.check(f'sizes {k}', (m_, n_) == (m, n))
        if k < 2:
            wl, wu = x - 0.5, x + 0.5
        else:
            z = (x - x1) * (x1 - x2)
            g = onp.ones((n, 1)).astype(object)
            for i in range(n):
                g[i, 0] = 1.2 if z[i, 0] > 0 else (0.7 if z[i, 0] < 0 else 1.0)
            g = g.astype(float)
            wl = np.minimum(np.maximum(x - g * (x1 - low), x - 10), x - 0.01)
            wu = np.maximum(np.minimum(x + g * (upp - x1), x + 10), x + 0.01)
        low, upp = wl, wu
        ctx.close(f'lower asymptotes {k}', lo, wl)
        ctx.close(f'upper asymptotes {k}', up, wu)
        ctx.check(f'bounds stay in the box {k}', np.logical_and(alfa >= -t, beta <= 1 + t))
        ctx.check(f'move limit {k}', np.logical_and(alfa >= x - move - t, beta <= x + move + t))
        ctx.check(f'bounds enclose the design {k}', np.logical_and(alfa <= x + t, x <= beta + t))
        ux, xl = up - x, x - lo
        if k < 2:
            ctx.close(f'objective gradient {k}', p0 / ux ** 2 - q0 / xl ** 2, dJ)
            ctx.close(f'constraint gradients {k}', P / ux.T ** 2 - Q / xl.T ** 2, dvc[:, :, 0])
            ctx.close(f'constraint values {k}', np.sum(P / ux.T, axis=1) + np.sum(Q / xl.T, axis=1) - b[:, 0], ccalls[k][2])


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    for e in (1, 2, 3, 4):
        add(f'approx-{e}', approx, epoch=e, n=1, m=1, bounds='one variable, one constraint; all boxes, designs, histories, asymptotes, data, move limits', cost=3)
    add('approx-two-1', approx, epoch=1, n=2, m=2, bounds='two variables, two constraints', cost=3)
    add('approx-two-3', approx, epoch=3, n=2, m=2, bounds='two variables, two constraints', cost=3)
    for k in range(len(DATA)):
        add(f'start-{k}', start, k=k, bounds='initial point')
        add(f'steps-{k}', steps, k=k, first=0, bounds='first step, arbitrary direction', cost=5)
        if k < 3 or tier == 'thorough':
            add(f'steps2-{k}', steps, k=k, first=1, bounds='second step, arbitrary direction', cost=4)
        add(f'newton-{k}', newton, k=k, first=0, bounds='first step, exact solve', cost=3)
        if k < 3:
            add(f'newton2-{k}', newton, k=k, first=1, bounds='second step, exact solve', cost=3)
        if k == 1:
            add(f'accept-{k}', accept, k=k, first=0, bounds='no step', cost=3)
        if k in (0, 3):
            add(f'accept1-{k}', accept, k=k, first=1, bounds='one step', cost=3)
    add('loop-1', opt_loop, n=1, m=1, iters=4, dfilter=0, bounds='one variable, four iterations', cost=4)
    add('loop-2', opt_loop, n=2, m=2, iters=3, dfilter=0, bounds='two variables, two constraints, three iterations', cost=4)
    add('loop-density', opt_loop, n=2, m=1, iters=2, dfilter=1, bounds='two variables, density filter', cost=4)
    return U
