"""C04: the assembled tangent is the derivative of the residual."""
import numpy as onp
import jax.numpy as np
from vf import models as M, oracle as O


def build(kind, t, nx=2, quadrature_order=None):
    p, c = M.mesh_for(t, nx)
    d = O.DIM[t]
    mesh = M.Mesh(p, c, ele_type=t)
    # boundary sets by node index: nodes of face 0 of cell 0 and of another face of the last cell
    f0 = c[0][list(O.corner_faces(t)[0])]
    f1 = c[-1][list(O.corner_faces(t)[-1])]
    locs = [M.node_set(f0), M.node_set(f1)]
    kw = dict(vec=1, dim=d, ele_type=t, quadrature_order=quadrature_order)
    if kind == 'scalar':
        return M.Scalar(mesh, **kw)
    if kind == 'scalar_surf':
        return M.ScalarSurf(mesh, location_fns=locs, **kw)
    if kind == 'scalar_uni':
        return M.ScalarUniSurf(mesh, location_fns=locs, **kw)
    if kind == 'scalar_both':
        return M.ScalarBothSurf(mesh, location_fns=locs, **kw)
    kw['vec'] = d
    if kind == 'vector':
        return M.Vector(mesh, **kw)
    if kind == 'vector_surf':
        return M.VectorSurf(mesh, location_fns=locs, **kw)
    raise KeyError(kind)


def tangent(ctx, kind, t, nx=2, quadrature_order=None, free=None):
    prob = build(kind, t, nx, quadrature_order)
    fe = prob.fes[0]
    n = fe.num_total_nodes
    u = ctx.array('u', (n, fe.vec), -2, 2)
    qs = M.quad_shape(fe)
    a, b = ctx.array('k', qs, 0.5, 2), ctx.array('m', qs, -1, 1)
    ivs = []
    for i, bi in enumerate(prob.boundary_inds_list):
        if kind == 'scalar_surf':
            ivs.append([ctx.array(f's{i}', (len(bi), fe.num_face_quads), 0.5, 2)])
        else:
            ivs.append(())
    prob.internal_vars = [a, b]
    prob.internal_vars_surfaces = ivs
    compare(ctx, prob, [u])


def compare(ctx, prob, sol_list):
    N = prob.num_total_dofs_all_vars
    dofs = M.flat(sol_list)

    def res(d):
        return M.flat(prob.compute_residual(prob.unflatten_fn_sol_list(d)))
    r1 = M.flat(prob.newton_update(sol_list))
    K = M.dense_coo(prob.I, prob.J, prob.V, N)
    ctx.close('newton residual equals residual', r1, res(dofs))
    ctx.close('tangent equals derivative', K, ctx.jacobian(res, dofs), tol=1e-7)


def coupled(ctx, ta, tb, surf):
    p, ca = M.mesh_for(ta, 2)
    q, cb = M.mesh_for(tb, 2)
    d = O.DIM[ta]
    kw = {}
    cls = M.Coupled
    if surf:
        f0 = ca[0][list(O.corner_faces(ta)[0])]
        kw['location_fns'] = [M.node_set(f0), M.node_set(ca[-1][list(O.corner_faces(ta)[-1])])]
        cls = M.CoupledSurf
    prob = cls([M.Mesh(p, ca, ele_type=ta), M.Mesh(q, cb, ele_type=tb)], vec=[2, 1], dim=d, ele_type=[ta, tb],
               quadrature_order=[2, 2], dirichlet_bc_info=[None, None], **kw)
    sol = [ctx.array('u', (prob.fes[0].num_total_nodes, 2), -2, 2), ctx.array('p', (prob.fes[1].num_total_nodes, 1), -2, 2)]
    prob.internal_vars = [ctx.array('k', M.quad_shape(prob.fes[0]), 0.5, 2)]
    prob.internal_vars_surfaces = [() for _ in prob.boundary_inds_list]
    compare(ctx, prob, sol)


def many(ctx, types, vecs, nx=1):
    """Three and more coupled variables."""
    from vf.checks.c03 import Many
    d = O.DIM[types[0]]
    ms = [M.mesh_for(t, nx) for t in types]
    cf = O.corner_faces(types[0])
    c0 = ms[0][1]
    sel = sorted(set(c0[0][list(cf[0])]) | set(c0[-1][list(cf[1])]))
    prob = Many([M.Mesh(p, c, ele_type=t) for (p, c), t in zip(ms, types)], vec=list(vecs), dim=d, ele_type=list(types),
                quadrature_order=[1] * len(types), dirichlet_bc_info=[None] * len(types), location_fns=[M.node_set(sel)])
    n = len(types)
    us = [ctx.array(f'u{i}', (len(ms[i][0]), vecs[i]), -2, 2) for i in range(n)]
    prob.internal_vars = [ctx.array('C', (len(c0), prob.fes[0].num_quads, n, n), -2, 2)]
    prob.internal_vars_surfaces = [[ctx.array('s', (len(prob.boundary_inds_list[0]), prob.fes[0].num_face_quads), -2, 2)]]
    compare(ctx, prob, us)


def units(tier):
    U = []

    def add(name, fn, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost,
                  'bounds': 'fixed distorted mesh; all nodal values in [-2,2], all internal variables free per quadrature point'})
    for kind in ('scalar_surf', 'scalar_uni', 'scalar_both', 'vector_surf'):
        add(f'{kind}-QUAD4', tangent, kind=kind, t='QUAD4')
    add('scalar_surf-TRI3', tangent, kind='scalar_surf', t='TRI3', nx=1)
    add('scalar_surf-TRI6', tangent, kind='scalar_surf', t='TRI6', nx=1, cost=4)
    add('vector-TET4', tangent, kind='vector', t='TET4', nx=1, cost=4)
    add('scalar_surf-TET4', tangent, kind='scalar_surf', t='TET4', nx=1, cost=4)
    add('coupled-QUAD4-QUAD4', coupled, ta='QUAD4', tb='QUAD4', surf=True)
    add('coupled-TRI6-TRI3', coupled, ta='TRI6', tb='TRI3', surf=True, cost=3)
    add('coupled-QUAD8-QUAD4', coupled, ta='QUAD8', tb='QUAD4', surf=False, cost=3)
    add('many-TRI3-TRI3-TRI3', many, types=('TRI3',) * 3, vecs=(1, 2, 1), cost=3)
    add('many-QUAD8-QUAD4-QUAD4', many, types=('QUAD8', 'QUAD4', 'QUAD4'), vecs=(1, 1, 2), cost=4)
    if tier == 'thorough':
        add('many-4', many, types=('TRI6', 'TRI3', 'TRI3', 'TRI6'), vecs=(2, 1, 1, 1), cost=5)
        add('scalar_surf-HEX8', tangent, kind='scalar_surf', t='HEX8', nx=1, cost=10)
        add('vector_surf-TRI6', tangent, kind='vector_surf', t='TRI6', nx=1, cost=10)
        add('coupled-TET10-TET4', coupled, ta='TET10', tb='TET4', surf=True, cost=10)
    return U
