"""C06: Dirichlet conditions select exactly the described degrees of freedom."""
import numpy as onp
import jax.numpy as np
from vf import models as M, oracle as O


def value_a(p):
    return p[0] * p[1] + 2.0 * p[0] - 0.5


def value_b(p):
    return p[0] * p[0] - p[1]


def value_c(p):
    return 0.75


def points(ctx, t, nx):
    """Node positions: a free x per node, distinct fixed other coordinates."""
    p, cells = O.grid_mesh(t, nx)
    x = ctx.array('x', (len(p),), -2, 2)
    pts = np.asarray(p).at[:, 0].set(x)
    return pts, cells, x


def verify(ctx, tag, fe, conds, pts, vec):
    """conds: list of (per-node booleans, component, value function)."""
    ctx.check(f'{tag} one entry per condition', len(fe.node_inds_list) == len(fe.vec_inds_list)
              == len(fe.vals_list) == len(conds))
    for k, (flags, comp, vf) in enumerate(conds):
        nodes = onp.asarray(fe.node_inds_list[k])
        comps = onp.asarray(fe.vec_inds_list[k])
        vals = fe.vals_list[k]
        ctx.check(f'{tag} condition {k} shapes', nodes.ndim == 1 and comps.shape == nodes.shape and vals.shape == nodes.shape)
        ctx.check(f'{tag} condition {k} component', bool((comps == comp).all()))
        sel = nodes.tolist()
        ctx.check(f'{tag} condition {k} no duplicates', len(set(sel)) == len(sel))
        ctx.check(f'{tag} condition {k} selects exactly', [fl if i in sel else ~fl for i, fl in enumerate(flags)])
        if sel:
            want = np.stack([np.asarray(vf(pts[i]), dtype=float).reshape(()) for i in sel])
            ctx.close(f'{tag} condition {k} values at own nodes', vals, want)


def arbitrary(ctx, t, vec, nx=1):
    """Every truth assignment of an index-aware predicate; positions free."""
    pts, cells, x = points(ctx, t, nx)
    n = len(pts)
    b = ctx.bools('b', (n,))
    comp = vec - 1
    info = [[lambda p, i: b[i], lambda p: p[1] > 0.5], [comp, 0], [value_a, value_b]]
    fe = M.Bare(M.Mesh(pts, cells, ele_type=t), vec=vec, dim=O.DIM[t], ele_type=t, dirichlet_bc_info=info).fes[0]
    y = onp.asarray(O.grid_mesh(t, nx)[0])[:, 1]
    verify(ctx, 'init', fe, [([b[i] for i in range(n)], comp, value_a),
                             ([np.asarray(v > 0.5) for v in y], 0, value_b)], pts, vec)


def position(ctx, t, vec, nx=1):
    """Position predicate on free coordinates, combined with an index condition."""
    pts, cells, x = points(ctx, t, nx)
    n = len(pts)
    thr = ctx.scalar('thr', -1, 1)
    keep = onp.arange(n) % 2 == 0

    def loc1(p):
        return p[0] >= thr

    def loc2(p, ind):
        return (p[0] < thr) & np.asarray(keep)[ind]
    info = [[loc1, loc2], [0, vec - 1], [value_b, value_a]]
    fe = M.Bare(M.Mesh(pts, cells, ele_type=t), vec=vec, dim=O.DIM[t], ele_type=t, dirichlet_bc_info=info).fes[0]
    ge = [x[i] >= thr for i in range(n)]
    verify(ctx, 'init', fe, [(ge, 0, value_b),
                             ([(~g) & bool(keep[i]) for i, g in enumerate(ge)], vec - 1, value_a)], pts, vec)


def update(ctx, t, vec, steps):
    """A sequence of updates with different numbers, sets, components and values
    of conditions: after each, exactly the last description holds."""
    p, cells = O.grid_mesh(t, 1)
    pts = np.asarray(p)
    n = len(p)
    fe = M.Bare(M.Mesh(pts, cells, ele_type=t), vec=vec, dim=O.DIM[t], ele_type=t,
                dirichlet_bc_info=[[M.node_set([0, 2]), M.node_set([1])], [0, vec - 1], [value_a, value_c]]).fes[0]
    b = ctx.bools('b', (2, n))
    s = ctx.array('s', (steps,), -2, 2)

    def flags(ids):
        return [np.asarray(i in ids) for i in range(n)]
    verify(ctx, 'init', fe, [(flags([0, 2]), 0, value_a), (flags([1]), vec - 1, value_c)], pts, vec)
    for k in range(steps):
        c = ctx.choose(f'op{k}', 4)
        sv = s[k]

        def val(p, sv=sv):
            return sv * p[0] + sv
        vfn = lambda p: val(p)
        if c == 0:
            info, conds = None, []
        elif c == 1:
            row = b[k % 2]
            info = [[lambda p, i: row[i]], [vec - 1], [vfn]]
            conds = [([row[i] for i in range(n)], vec - 1, val)]
        elif c == 2:
            info = [[lambda p: p[0] > 100.0, M.node_set([n - 1, 0]), M.every_node()], [0, 0, vec - 1], [value_a, vfn, value_b]]
            conds = [(flags([]), 0, value_a), (flags([0, n - 1]), 0, val), (flags(range(n)), vec - 1, value_b)]
        else:
            info = [[], [], []]
            conds = []
        fe.update_Dirichlet_boundary_conditions(info)
        verify(ctx, f'update {k}', fe, conds, pts, vec)


def many_vars(ctx):
    """Each variable of a coupled problem gets its own conditions."""
    p, ca = O.grid_mesh('TRI6', 1)
    q, cb = O.grid_mesh('TRI3', 1)
    b = ctx.bools('b', (len(q),))
    prob = M.Bare([M.Mesh(p, ca, ele_type='TRI6'), M.Mesh(q, cb, ele_type='TRI3')], vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2],
                  dirichlet_bc_info=[[[M.node_set([3, 1])], [1], [value_a]], [[lambda p, i: b[i]], [0], [value_b]]])
    verify(ctx, 'first', prob.fes[0], [([np.asarray(i in (1, 3)) for i in range(len(p))], 1, value_a)], np.asarray(p), 2)
    verify(ctx, 'second', prob.fes[1], [([b[i] for i in range(len(q))], 0, value_b)], np.asarray(q), 1)


def units(tier):
    U = []

    def add(name, fn, bounds, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 3000}})
    b1 = 'one or two cells; every truth assignment of the predicate on the nodes, free x coordinate per node in [-2,2]'
    b2 = 'one cell; free x coordinate per node and threshold'
    b3 = 'every sequence of {t} updates of 4 kinds; arbitrary node sets, free values'
    add('arbitrary-QUAD4', arbitrary, b1, t='QUAD4', vec=2)
    add('arbitrary-TRI3', arbitrary, b1, t='TRI3', vec=1)
    add('arbitrary-TET4', arbitrary, b1, t='TET4', vec=3, cost=9)
    add('arbitrary-QUAD4x2', arbitrary, b1, t='QUAD4', vec=3, nx=2, cost=4)
    add('position-QUAD4', position, b2, t='QUAD4', vec=2, cost=3)
    add('position-TRI6', position, b2, t='TRI3', vec=1, cost=3)
    add('update-2', update, b3.format(t=2), t='TRI3', vec=2, steps=2, cost=9)
    add('many-variables', many_vars, b1)
    if tier == 'thorough':
        add('update-3', update, b3.format(t=3), t='TRI3', vec=3, steps=3, cost=30)
        add('arbitrary-HEX8', arbitrary, b1, t='HEX8', vec=3, cost=20)
        add('position-TRI6', position, b2, t='TRI6', vec=2, cost=30)
    return U
