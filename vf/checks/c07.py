"""C07: surface integrals act on exactly the faces whose vertices all qualify."""
import functools

import numpy as onp
import jax.numpy as np
from vf import models as M, oracle as O
from vf.checks.c03 import rows


def all_of(bs):
    return functools.reduce(lambda a, b: a & b, bs)


def verify(ctx, tag, fe, t, cells, inds, flags):
    """inds selects exactly the faces all of whose corners are flagged."""
    a = onp.asarray(inds)
    ctx.check(f'{tag} shape', a.ndim == 2 and a.shape[1] == 2)
    got = rows(fe, cells, a)
    ctx.check(f'{tag} no face twice', len(set(got)) == len(got))
    known = {(c, frozenset(int(cell[k]) for k in f)) for c, cell in enumerate(cells) for f in O.corner_faces(t)}
    ctx.check(f'{tag} only faces', set(got) <= known)
    conds = []
    for c, cell in enumerate(cells):
        for f in O.corner_faces(t):
            ids = [int(cell[k]) for k in f]
            q = all_of([flags[i] for i in ids])
            conds.append(q if (c, frozenset(ids)) in set(got) else ~q)
    ctx.check(f'{tag} exactly the qualifying faces', conds)
    return got


def index_aware(ctx, t, nx=1):
    p, cells = O.grid_mesh(t, nx)
    n = len(p)
    b = ctx.bools('b', (n,))
    corner = sorted({int(c[k]) for c in cells for f in O.corner_faces(t) for k in f})
    other = onp.asarray(corner[: len(corner) // 2 + 2])
    # three sets: arbitrary, fixed, and the conjunction with a position test
    fns = [lambda q, i: b[i], lambda q, i: np.isin(i, other), lambda q: q[0] > -1.0]
    prob = M.Bare(M.Mesh(p, cells, ele_type=t), vec=1, dim=O.DIM[t], ele_type=t, location_fns=None)
    fe = prob.fes[0]
    lst = fe.get_boundary_conditions_inds(fns)
    ctx.check('one set per predicate', len(lst) == 3)
    verify(ctx, 'arbitrary', fe, t, cells, lst[0], [b[i] for i in range(n)])
    verify(ctx, 'fixed', fe, t, cells, lst[1], [np.asarray(i in other) for i in range(n)])
    verify(ctx, 'everywhere', fe, t, cells, lst[2], [np.asarray(True)] * n)


def position(ctx, t, nx=1, order=(1, 0)):
    """Predicates on free positions; the mesh counts what the element selects."""
    p, cells = O.grid_mesh(t, nx)
    n = len(p)
    x = ctx.array('x', (n,), -2, 2)
    pts = np.asarray(p).at[:, 0].set(x)
    mesh = M.Mesh(pts, cells, ele_type=t)
    prob = M.Bare.__new__(M.Bare)
    fe = M.S and __import__('jax_fem.fe', fromlist=['x']).FiniteElement(mesh=mesh, vec=1, dim=O.DIM[t], ele_type=t)

    def loc(q):
        return q[0] > 0.0
    inds, = fe.get_boundary_conditions_inds([loc])
    got = verify(ctx, 'position', fe, t, cells, inds, [x[i] > 0 for i in range(n)])
    ctx.check('count agrees with the selection', mesh.count_selected_faces(loc) == len(got))


def problem_sets(ctx, t):
    """The sets a Problem integrates over, through its residual: a unit load on
    the selected faces of one set shows up on exactly the nodes of those faces."""
    p, cells = M.mesh_for(t, 1)
    n = len(p)
    b = ctx.bools('b', (n,))
    w = ctx.array('w', (2,), 1, 2)

    class Load(M.Problem):
        def get_surface_maps(self):
            return [lambda u, x: w[0] * np.ones_like(u), lambda u, x: w[1] * np.ones_like(u)]
        def get_tensor_map(self):
            return lambda g: 0.0 * g
    fixed = [int(cells[0][k]) for k in O.corner_faces(t)[0]]
    prob = Load(M.Mesh(p, cells, ele_type=t), vec=1, dim=O.DIM[t], ele_type=t, quadrature_order=2,
                location_fns=[lambda q, i: b[i], M.node_set(fixed)])
    res = np.sum(prob.compute_residual([np.zeros((n, 1))])[0])
    fe = prob.fes[0]
    E = O.Element(t)
    sel = set(verify(ctx, 'set 0', fe, t, cells, prob.boundary_inds_list[0], [b[i] for i in range(n)]))
    one = set(verify(ctx, 'set 1', fe, t, cells, prob.boundary_inds_list[1], [np.asarray(i in fixed) for i in range(n)]))
    tot = 0.0
    for c, cell in enumerate(cells):
        for g, f in enumerate(O.corner_faces(t)):
            key = (c, frozenset(int(cell[k]) for k in f))
            P, T, ws = O.face_rule(t, g, 4)
            area = 0.0
            for y, wt in zip(P, ws):
                tg = p[cell].T @ E.dN(y) @ T
                area += wt * (onp.linalg.norm(tg[:, 0]) if tg.shape[0] == 2 else onp.linalg.norm(onp.cross(tg[:, 0], tg[:, 1])))
            if key in sel:
                tot = tot + w[0] * area
            if key in one:
                tot = tot + w[1] * area
    ctx.close('total load', res, tot * np.ones(()), 1e-3)


def units(tier):
    U = []

    def add(name, fn, bounds, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 5000}})
    b1 = 'every truth assignment of the predicate on the nodes of one (or two) cells'
    b2 = 'predicate x > 0 with a free x coordinate per node'
    for t in ('QUAD4', 'TRI3', 'QUAD8', 'TRI6', 'TET10', 'HEX8', 'HEX20', 'HEX27'):
        if t in ('TET10',):
            continue
        add(f'index-{t}', index_aware, b1, t=t, cost=3 if O.DIM[t] == 3 else 1)
    add('index-QUAD4x2', index_aware, b1, t='QUAD4', nx=2, cost=2)
    add('position-QUAD4', position, b2, t='QUAD4')
    add('position-TRI3', position, b2, t='TRI3')
    add('position-TRI6', position, b2, t='TRI6')
    add('position-HEX8', position, b2, t='HEX8', cost=5)
    add('problem-QUAD4', problem_sets, b1, t='QUAD4')
    add('problem-TRI3', problem_sets, b1, t='TRI3')
    add('tet-TET4', tet, b1, t='TET4', cost=2)
    add('tet-TET10', tet, b1, t='TET10', cost=2)
    if tier == 'thorough':
        add('index-TET4', index_aware, b1, t='TET4', cost=20)
        add('position-HEX20', position, b2, t='HEX20', cost=20)
        add('index-TRI3x2', index_aware, b1, t='TRI3', nx=2, cost=10)
    return U


def tet(ctx, t):
    """One tetrahedron and its neighbour across a face."""
    p, cells = O.grid_mesh(t, 1)
    c0 = cells[0]
    for c1 in cells[1:]:
        if len(set(c0[:4]) & set(c1[:4])) == 3:
            break
    cells = onp.array([c0, c1])
    keep = sorted(set(cells.reshape(-1).tolist()))
    m = {o: i for i, o in enumerate(keep)}
    cells = onp.array([[m[int(k)] for k in c] for c in cells])
    p = p[keep]
    n = len(p)
    b = ctx.bools('b', (n,))
    fe = __import__('jax_fem.fe', fromlist=['x']).FiniteElement(mesh=M.Mesh(p, cells, ele_type=t), vec=1, dim=3, ele_type=t)
    inds, = fe.get_boundary_conditions_inds([lambda q, i: b[i]])
    verify(ctx, 'arbitrary', fe, t, cells, inds, [b[i] for i in range(n)])
