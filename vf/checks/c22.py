"""C22: refreshing geometry equals building the problem on the new nodes."""
import numpy as onp
import jax.numpy as np
from vf import models as M, oracle as O

ASSUMPTIONS = ['node sets of surfaces and conditions are chosen by node index, so that they do not move with the mesh']


def build(kind, t, points=None, nx=2, qo=None):
    p, c = M.mesh_for(t, nx)
    p = p if points is None else points
    d = O.DIM[t]
    f0 = c[0][list(O.corner_faces(t)[0])]
    f1 = c[-1][list(O.corner_faces(t)[-1])]
    mesh = M.Mesh(p, c, ele_type=t)
    if kind == 'vector':
        return M.VectorSurf(mesh, vec=d, dim=d, ele_type=t, location_fns=[M.node_set(f0)], quadrature_order=qo)
    cls = M.ScalarUniSurf if kind == 'uni' else M.ScalarSurf
    locs = [M.node_set(f0), M.node_set(f1)]
    return cls(mesh, vec=1, dim=d, ele_type=t, location_fns=locs, quadrature_order=qo)


def set_ivs(ctx, prob, store):
    fe = prob.fes[0]
    if 'k' not in store:
        store['k'] = ctx.array('k', M.quad_shape(fe), 0.5, 2)
        store['u'] = ctx.array('u', (fe.num_total_nodes, fe.vec), -2, 2)
    prob.internal_vars = [store['k'], np.ones(M.quad_shape(fe))]
    prob.internal_vars_surfaces = [() for _ in prob.boundary_inds_list]
    return [store['u']]


def moved(ctx, t, name, amp, nodes=None, nx=2):
    """All (or some) node coordinates perturbed freely."""
    p, c = M.mesh_for(t, nx)
    nodes = range(len(p)) if nodes is None else nodes
    X = np.asarray(p)
    d = ctx.array(name, (len(list(nodes)), p.shape[1]), -amp, amp)
    return X.at[onp.asarray(list(nodes))].add(d)


def same(ctx, tag, a, b, sol, full=True):
    """Every geometric quantity and every result of two problems agree."""
    def cl(n, x, y):
        ctx.close(f'{tag}: {n}', x, y, 1e-7)
    cl('JxW', a.JxW, b.JxW)
    cl('shape gradients', a.shape_grads, b.shape_grads)
    cl('quadrature points', a.physical_quad_points, b.physical_quad_points)
    for i in range(len(b.boundary_inds_list)):
        cl(f'surface scale {i}', a.nanson_scale[i], b.nanson_scale[i])
        cl(f'surface gradients {i}', a.selected_face_shape_grads[i], b.selected_face_shape_grads[i])
        cl(f'surface points {i}', a.physical_surface_quad_points[i], b.physical_surface_quad_points[i])
    for i, (fa, fb) in enumerate(zip(a.fes, b.fes)):
        cl(f'gradient of a field {i}', fa.sol_to_grad(sol[i]), fb.sol_to_grad(sol[i]))
        cl(f'weights of variable {i}', fa.JxW, fb.JxW)
    ra, rb = M.flat(a.compute_residual(sol)), M.flat(b.compute_residual(sol))
    cl('residual', ra, rb)
    if full:
        ra, rb = M.flat(a.newton_update(sol)), M.flat(b.newton_update(sol))
        cl('residual of the tangent assembly', ra, rb)
        cl('tangent', M.fresh_matrix(a), M.fresh_matrix(b))


def refresh(ctx, kind, t, amp=0.05, nodes=None, nx=2, qo=None, full=True):
    X = moved(ctx, t, 'dx', amp, nodes, nx)
    a, b = build(kind, t, nx=nx, qo=qo), build(kind, t, X, nx, qo)
    store = {}
    sol = set_ivs(ctx, a, store)
    set_ivs(ctx, b, store)
    if full:
        a.newton_update(sol)               # something was computed on the old nodes
    a.initialize_geometric_quantities([X])
    same(ctx, 'refreshed', a, b, sol, full)


def sequence(ctx, kind, t, nodes, nx=2):
    """Refresh twice, then back to the original nodes."""
    X = moved(ctx, t, 'dx', 0.05, nodes, nx)
    Y = moved(ctx, t, 'dy', 0.05, nodes, nx)
    a, b, c = build(kind, t, nx=nx), build(kind, t, Y, nx), build(kind, t, nx=nx)
    store = {}
    sol = [set_ivs(ctx, q, store) for q in (a, b, c)][0]
    a.initialize_geometric_quantities([X])
    a.compute_residual(sol)
    a.initialize_geometric_quantities([Y])
    same(ctx, 'second refresh', a, b, sol)
    a.initialize_geometric_quantities()
    same(ctx, 'back', a, c, sol)


def coupled(ctx, ta, tb, amp=0.05, na=None, nb=None, surf=True):
    """Each variable is refreshed with the nodes of its own mesh."""
    def make(pa=None, pb=None):
        p, ca = M.mesh_for(ta, 1)
        q, cb = M.mesh_for(tb, 1)
        kw = {}
        if surf:
            kw['location_fns'] = [M.node_set(ca[0][list(O.corner_faces(ta)[0])])]
        return (M.CoupledSurf if surf else M.Coupled)(
            [M.Mesh(p if pa is None else pa, ca, ele_type=ta), M.Mesh(q if pb is None else pb, cb, ele_type=tb)],
            vec=[2, 1], dim=2, ele_type=[ta, tb], quadrature_order=[2, 2], dirichlet_bc_info=[None, None], **kw)
    X = moved(ctx, ta, 'dx', amp, na, 1)
    Y = moved(ctx, tb, 'dy', amp, nb, 1)
    a, b = make(), make(X, Y)
    fe = a.fes
    sol = [ctx.array('u', (fe[0].num_total_nodes, 2), -2, 2), ctx.array('p', (fe[1].num_total_nodes, 1), -2, 2)]
    k = ctx.array('k', M.quad_shape(fe[0]), 0.5, 2)
    for q in (a, b):
        q.internal_vars = [k]
        q.internal_vars_surfaces = [() for _ in q.boundary_inds_list]
    a.initialize_geometric_quantities([X, Y])
    same(ctx, 'refreshed', a, b, sol)


class Iso(M.Problem):
    def get_tensor_map(self):
        return lambda g: 2.0 * g

    def get_mass_map(self):
        return lambda u, x: u * u + u

    def get_surface_maps(self):
        return [lambda u, x: u + 0.5 for _ in self.location_fns]


def rigid(ctx, t, nx=1):
    """Weights and an isotropic problem are unchanged by translation and rotation."""
    p, c = M.mesh_for(t, nx)
    d = O.DIM[t]
    C = ctx.scalar('cos', -0.95, 0.95)
    b = ctx.array('b', (d,), -3, 3)
    s = np.sqrt(1.0 - C * C) * (1.0 - 2.0 * ctx.choose('sign', 2))
    if d == 2:
        R = np.stack([np.stack([C, -s]), np.stack([s, C])])
    else:
        k = ctx.choose('axis', 3)
        i, j = [(1, 2), (2, 0), (0, 1)][k]
        R = np.zeros((3, 3)).at[i, i].set(C).at[j, j].set(C).at[i, j].set(-s).at[j, i].set(s).at[k, k].set(1.0)
    locs = [M.node_set(c[0][list(f)]) for f in (O.corner_faces(t)[0], O.corner_faces(t)[-1])]
    kw = dict(vec=1, dim=d, ele_type=t, location_fns=locs)
    a, o = Iso(M.Mesh(p, c, ele_type=t), **kw), Iso(M.Mesh(p, c, ele_type=t), **kw)
    a.initialize_geometric_quantities([np.asarray(p) @ R.T + b])
    ctx.close('volume weights', a.JxW, o.JxW, 1e-7)
    for i in range(2):
        n1, n0 = a.nanson_scale[i], o.nanson_scale[i]
        ctx.close(f'surface weights {i}', n1, n0, 1e-7)
    u = ctx.array('u', (len(p), 1), -2, 2)
    ctx.close('residual', M.flat(a.compute_residual([u])), M.flat(o.compute_residual([u])), 1e-6)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds or
                  'all node moves up to 0.05 (mesh size 0.5-1), all nodal values, all internal variables'})
    add('refresh-scalar-TRI3', refresh, kind='scalar', t='TRI3', nx=1)
    add('refresh-scalar-QUAD4', refresh, kind='scalar', t='QUAD4', nx=2, nodes=[1, 4], cost=2)
    add('refresh-uni-QUAD4', refresh, kind='uni', t='QUAD4', nx=1, nodes=[0, 3], cost=2)
    add('refresh-vector-TRI3', refresh, kind='vector', t='TRI3', nx=1, nodes=[0, 1], cost=2)
    add('refresh-TET4', refresh, kind='scalar', t='TET4', nx=1, nodes=[0], full=False, cost=3)
    add('refresh-HEX8', refresh, kind='scalar', t='HEX8', nx=1, nodes=[0], full=False, cost=3, qo=1)
    add('refresh-TRI6', refresh, kind='scalar', t='TRI6', nx=1, nodes=[0, 4], full=False, cost=3)
    add('sequence-TRI3', sequence, kind='scalar', t='TRI3', nodes=[0, 1], nx=1)
    add('sequence-QUAD4', sequence, kind='uni', t='QUAD4', nodes=[1, 2], nx=1, cost=2)
    add('coupled-TRI3-TRI3', coupled, ta='TRI3', tb='TRI3', na=[0, 2], nb=[0, 2])
    add('coupled-TRI6-TRI3', coupled, ta='TRI6', tb='TRI3', na=[0, 4], nb=[0, 2], cost=2)
    for t in ('TRI3', 'QUAD4', 'TET4'):
        add(f'rigid-{t}', rigid, t=t, cost=3, bounds='all rotations about a coordinate axis with |cos| <= 0.95, all translations')
    if tier == 'thorough':
        add('refresh-QUAD4-all', refresh, kind='scalar', t='QUAD4', nx=2, cost=6)
        add('refresh-vector-QUAD4', refresh, kind='vector', t='QUAD4', nx=1, cost=6)
        add('refresh-TET4-all', refresh, kind='vector', t='TET4', nx=1, cost=6)
        add('refresh-HEX8-4', refresh, kind='scalar', t='HEX8', nx=1, nodes=[0, 3, 5, 6], full=False, cost=6)
        add('rigid-HEX8', rigid, t='HEX8', cost=6, bounds='all rotations about a coordinate axis with |cos| <= 0.95')
    return U
