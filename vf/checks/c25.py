"""C25: the periodic prolongation matrix ties exactly the mapped pairs of nodes."""
import itertools
import numpy as onp
import jax.numpy as np
from vf import models as M
from jax_fem.generate_mesh import Mesh
from applications.periodic_bc import example as E

ASSUMPTIONS = ['no degree of freedom is tied twice and no master is itself a slave (such chains are refused by the code)',
               'nodes of one side are further apart than the matching tolerance 1e-5 of the code']


def grid(ctx, rows, cols, order):
    """A structured quad mesh with free side lengths and free row and column positions, nodes renumbered."""
    L = [ctx.scalar('Lx', .5, 20), ctx.scalar('Ly', .5, 20)]
    xs = [0. * L[0]] + [ctx.scalar(f'x{i}', .1, .4) for i in range(cols - 1)] + [L[0]]
    ys = [0. * L[1]] + [ctx.scalar(f'y{i}', .1, .4) for i in range(rows - 1)] + [L[1]]
    for c in (xs, ys):
        for a, b in zip(c[1:-1], c[2:-1]):
            ctx.assume(b - a > 1e-2)
    n = (rows + 1) * (cols + 1)
    rng = onp.random.RandomState(order)
    perm = rng.permutation(n) if order else onp.arange(n)
    place = {}                            # (i, j) -> node
    pts = [None] * n
    for k, (i, j) in enumerate(itertools.product(range(cols + 1), range(rows + 1))):
        pts[perm[k]] = np.stack([xs[i] * 1., ys[j] * 1.])
        place[i, j] = int(perm[k])
    cells = [[place[i, j], place[i + 1, j], place[i + 1, j + 1], place[i, j + 1]] for i in range(cols) for j in range(rows)]
    m = Mesh(np.stack(pts), onp.array(cells), 'QUAD4')
    return m, place, L


CASES = {
    'x': [('x', 0, False)],
    'y': [('y', 0, False)],
    'x-all': [('x', None, False)],
    'x-second': [('x', 1, False)],
    'x-then-y': [('x', 0, False), ('y', 1, False)],
    'both-inner': [('x', None, True), ('y', None, True)],
    'reversed': [('X', None, False)],
}


def tie(ctx, case, rows, cols, vec, order, noise=0.):
    m, place, (Lx, Ly) = grid(ctx, rows, cols, order)
    A, B, maps, vecs, pairs = [], [], [], [], []
    near = lambda a, b: abs(a - b) < 1e-3

    def side(ax, value, inner):
        top = (Ly, Lx)[ax]

        def f(p):
            r = near(p[ax], value)
            o = p[1 - ax]
            return np.logical_and(r, np.logical_and(o > 1e-2, o < top - 1e-2)) if inner else r
        return f
    for d, comp, inner in CASES[case]:
        ax = 0 if d in 'xX' else 1
        L = (Lx, Ly)[ax]
        e = onp.eye(2)[ax]
        flip = d == 'X'
        lo, hi = side(ax, 0., inner), side(ax, L, inner)
        last = (cols, rows)[ax]
        width = (rows, cols)[ax]
        s = ctx.scalar(f'shift{d}', -1e-6, 1e-6) if noise else 0.
        for c in range(vec) if comp is None else [comp]:
            A.append(hi if flip else lo)
            B.append(lo if flip else hi)
            maps.append((lambda L, e: lambda p: p + (L + s) * e)(-L if flip else L, e))
            vecs.append(c)
            for k in range(1, width) if inner else range(width + 1):
                a = place[(0, k) if ax == 0 else (k, 0)]
                b = place[(last, k) if ax == 0 else (k, last)]
                if flip:
                    a, b = b, a
                pairs.append((a * vec + c, b * vec + c))
    with M.sym_numpy(ctx):
        P = E.periodic_boundary_conditions([A, B, maps, vecs], m, vec)
    N = (rows + 1) * (cols + 1) * vec
    slaves = [b for _, b in pairs]
    ctx.check('shape', tuple(P.shape) == (N, N - len(slaves)))
    P = onp.asarray(P.todense())
    r = ctx.array('r', (N - len(slaves),))
    u = P @ r
    ctx.check('one degree of freedom per pair', len(set(slaves)) == len(slaves))
    for a, b in pairs:
        ctx.close(f'dof {b} equals its image {a}', u[b], u[a])
    free = [i for i in range(N) if i not in slaves]
    Pf = P[onp.array(free)]
    ctx.check('every reduced unknown is one free degree of freedom', bool((onp.sort(Pf.argmax(axis=1)) == onp.arange(N - len(slaves))).all() and (Pf.sum(axis=1) == 1).all() and (onp.abs(Pf).sum() == len(free))))


def mismatch(ctx, order):
    """A side without a matching partner is refused."""
    m, place, (Lx, Ly) = grid(ctx, 2, 1, order)
    t = ctx.scalar('slip', 1e-3, 1.)
    A, B = [lambda p: abs(p[0]) < 1e-3], [lambda p: abs(p[0] - Lx) < 1e-3]
    ok = False
    with M.sym_numpy(ctx):
        try:
            E.periodic_boundary_conditions([A, B, [lambda p: p + Lx * onp.array([1., 0.]) + t * onp.array([.3, 0.])], [0]], m, 1)
        except Exception as e:
            if type(e).__name__ in ('Unsupported', 'PathCut'):
                raise
            ok = True
    ctx.check('unmatched sides are refused', ok)


def chained(ctx, twice, order):
    """Ties that hang on other ties are refused or resolved, never silently wrong."""
    m, place, (Lx, Ly) = grid(ctx, 2, 2, order)
    near = lambda a, b: abs(a - b) < 1e-3
    A = [lambda p: near(p[0], 0.), lambda p: near(p[1], 0.) if twice else np.logical_and(near(p[1], 0.), p[0] < Lx - 1e-2)]
    B = [lambda p: near(p[0], Lx), lambda p: near(p[1], Ly) if twice else np.logical_and(near(p[1], Ly), p[0] < Lx - 1e-2)]
    maps = [lambda p: p + Lx * onp.array([1., 0.]), lambda p: p + Ly * onp.array([0., 1.])]
    with M.sym_numpy(ctx):
        try:
            P = E.periodic_boundary_conditions([A, B, maps, [0, 0]], m, 1)
        except Exception as e:
            if type(e).__name__ in ('Unsupported', 'PathCut'):
                raise
            ctx.check('refused', True)
            return
    P = onp.asarray(P.todense())
    u = P @ ctx.array('r', (P.shape[1],))
    for k in range(3):
        ctx.close('right equals left', u[place[2, k]], u[place[0, k]])
        ctx.close('top equals bottom', u[place[k, 2]], u[place[k, 0]])


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 4000}})
    for case in CASES:
        for vec in (1, 2) if case in ('x', 'y') else (2, 3) if case != 'reversed' else (2,):
            for order in (0, 3) if tier == 'quick' else (0, 1, 2, 3, 4):
                add(f'{case}-vec{vec}-{order}', tie, case=case, rows=2, cols=2, vec=vec, order=order, bounds=f'2x2 cells, {vec} components, numbering {order}, all side lengths and grid lines')
    add('wide', tie, case='x-then-y', rows=3, cols=1, vec=2, order=5, bounds='1x3 cells')
    add('tolerance', tie, case='x-all', rows=2, cols=1, vec=2, order=2, noise=1., bounds='mapping off by up to 1e-6')
    for t in (False, True):
        add(f'chained-{t}', chained, twice=t, order=4, bounds='doubly periodic square with corners')
    add('mismatch', mismatch, order=1, bounds='all offsets above 1e-3')
    return U
