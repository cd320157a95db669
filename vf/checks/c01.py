"""C01: polynomial completeness of interpolation on volume and faces."""
import itertools

import jax.numpy as np
from vf import models as M, oracle as O


def complete(t):
    d, k = O.DIM[t], O.FULL_DEGREE[t]
    return [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]


def check_fields(ctx, prob, es, c, value_tol=1e-8):
    fe = prob.fes[0]
    u = M.polyval(es, c, fe.points)
    xq = prob.physical_quad_points
    ctx.close('volume values', fe.convert_from_dof_to_quad(u), M.polyval(es, c, xq), value_tol)
    ctx.close('volume gradients', fe.sol_to_grad(u), M.polygrad(es, c, xq), value_tol)
    for i, bi in enumerate(prob.boundary_inds_list):
        xs = prob.physical_surface_quad_points[i]
        ctx.close('face values', fe.convert_from_dof_to_face_quad(u, bi), M.polyval(es, c, xs), value_tol)
        ucell = u[fe.cells][bi[:, 0]]
        g = np.sum(ucell[:, None, :, :, None] * prob.selected_face_shape_grads[i][:, :, :, None, :], axis=2)
        ctx.close('face gradients', g, M.polygrad(es, c, xs), value_tol)


def field(ctx, t, order=None, rule=None, mesh='grid', full=False):
    """Concrete geometry; all field coefficients symbolic."""
    d = O.DIM[t]
    if mesh == 'grid':
        p, cells = M.mesh_for(t, 2 if d == 2 else 1, 1, 1, 'skew')
    else:
        p, cells = O.one_cell(t)
        p = p * onp_scale(d)
    es = O.monomials(t) if full else complete(t)
    prob = M.Bare(M.Mesh(p, cells, ele_type=t), vec=2, dim=d, ele_type=t, quadrature_order=order, quadrature_rule=rule,
                  location_fns=[M.every_node()])
    c = ctx.array('c', (len(es), 2), -2, 2)
    check_fields(ctx, prob, es, c)


def onp_scale(d):
    import numpy as onp
    return onp.array([1.5, 0.8, 1.2][:d])


def affine(ctx, t, order=None, degree=1, faces=True):
    """Symbolic affine placement of one cell and symbolic field."""
    d = O.DIM[t]
    p, cells = O.one_cell(t)
    A, b = M.symbolic_affine(ctx, d)
    pts = p @ A.T + b
    es = complete(t) if degree > 1 else [e for e in itertools.product(range(2), repeat=d) if sum(e) <= 1]
    prob = M.Bare(M.Mesh(pts, cells, ele_type=t), vec=2, dim=d, ele_type=t, quadrature_order=order,
                  location_fns=[M.every_node()] if faces else None)
    c = ctx.array('c', (len(es), 2), -2, 2)
    check_fields(ctx, prob, es, c)


def nodes(ctx, t, moved, order=None):
    """Some nodes displaced symbolically (non-affine cell): linear fields."""
    d = O.DIM[t]
    p, cells = O.one_cell(t)
    pts = np.asarray(p).at[np.asarray(moved)].add(ctx.array('dx', (len(moved), d), -0.15, 0.15))
    es = [e for e in itertools.product(range(2), repeat=d) if sum(e) <= 1]
    prob = M.Bare(M.Mesh(pts, cells, ele_type=t), vec=1, dim=d, ele_type=t, quadrature_order=order,
                  location_fns=[M.every_node()])
    c = ctx.array('c', (len(es), 1), -2, 2)
    check_fields(ctx, prob, es, c)


def units(tier):
    U = []

    def add(name, fn, bounds, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds})
    b1 = 'fixed affine mesh; all polynomial coefficients in [-2,2]'
    b2 = 'one cell, affine map I+[-0.25,0.25]^(d x d) and shift; all coefficients in [-2,2]'
    b3 = 'one cell, listed nodes moved by [-0.15,0.15]; linear fields with coefficients in [-2,2]'
    for t in O.TYPES:
        add(f'field-{t}', field, b1, t=t, cost=8 if t == 'HEX27' else 3 if O.DIM[t] == 3 else 1, order=3 if t == 'HEX27' else None)
        add(f'space-{t}', field, b1, t=t, mesh='one', full=True, order=3 if t in ('HEX27', 'HEX20') else 4, cost=4)
    for t in ('QUAD4', 'QUAD8', 'TRI3', 'TRI6'):
        add(f'affine-{t}', affine, b2, t=t, degree=2, cost=3)
    for t in ('HEX8', 'TET4', 'TET10', 'HEX20', 'HEX27'):
        add(f'affine-{t}', affine, b2, t=t, degree=1, order=1, cost=6)
    add('nodes-QUAD4', nodes, b3, t='QUAD4', moved=[0, 1, 2, 3])
    add('nodes-TRI6', nodes, b3, t='TRI6', moved=[3, 4, 5])
    add('nodes-QUAD8', nodes, b3, t='QUAD8', moved=[2, 5], cost=2)
    add('nodes-HEX8', nodes, b3, t='HEX8', moved=[6], order=1, cost=3)
    add('rule-QUAD4', field, b1, t='QUAD4', order=5, rule='Gauss-Jacobi')
    add('rule-HEX8', field, b1, t='HEX8', order=1, rule='GLL', cost=2)
    if tier == 'thorough':
        for t in ('HEX8', 'TET10'):
            add(f'affine2-{t}', affine, b2, t=t, degree=2, cost=20, order=2)
        add('field-HEX27-default', field, b1, t='HEX27', cost=30)
        add('nodes-TET10', nodes, b3, t='TET10', moved=[4, 7, 9], order=2, cost=10)
        add('nodes2-HEX8', nodes, b3, t='HEX8', moved=[1, 6], order=2, cost=20)
    return U
