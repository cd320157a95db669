"""C02: integration weights measure the true geometry."""
import itertools

import numpy as onp
import jax.numpy as np
from vf import models as M, oracle as O


def degree_set(d, k):
    return [e for e in itertools.product(range(k + 1), repeat=d) if sum(e) <= k]


def build(t, pts, cells, order, rule=None, every=True):
    mesh = M.Mesh(pts, cells, ele_type=t)
    return M.Bare(mesh, vec=1, dim=O.DIM[t], ele_type=t, quadrature_order=order, quadrature_rule=rule,
                  location_fns=[M.every_node()] if every else None)


def symbolic_geometry(ctx, t, order=None):
    """One cell under a free affine map A, b.  The reference placement (concrete)
    has the right positive weights, sums and moments; for every A each volume
    weight scales by det A, each face weight by the Nanson factor (compared as
    squares; weights are continuous and never zero, hence stay positive), and all
    quadrature points move with the map.  Together: volumes, areas and first
    moments are exact for every placement."""
    d = O.DIM[t]
    p, cells = O.one_cell(t)
    ref = build(t, p, cells, order)
    A, b = M.symbolic_affine(ctx, d)
    prob = build(t, p @ A.T + b, cells, order)
    fe, fr = prob.fes[0], ref.fes[0]
    det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0] if d == 2 else (
        A[0, 0] * (A[1, 1] * A[2, 2] - A[1, 2] * A[2, 1]) - A[0, 1] * (A[1, 0] * A[2, 2] - A[1, 2] * A[2, 0])
        + A[0, 2] * (A[1, 0] * A[2, 1] - A[1, 1] * A[2, 0]))
    X, W = O.volume_rule(t, 2)
    ctx.check('reference weights are positive', fr.JxW > 0)
    ctx.close('reference volume', np.sum(fr.JxW), float(W.sum()))
    ctx.close('volume weights scale with det A', fe.JxW, fr.JxW * det)
    ctx.close('volume', np.sum(fe.JxW), float(W.sum()) * det)
    xr = ref.physical_quad_points
    if order is None or order > 0:
        ctx.close('reference first moment', np.sum(fr.JxW[:, :, None] * xr, axis=(0, 1)), W @ X)
    ctx.close('volume points move with the map', prob.physical_quad_points, xr @ A.T + b)
    bi = onp.asarray(prob.boundary_inds_list[0])
    ctx.check('every face selected once', sorted(map(tuple, bi.tolist())) ==
              [(0, f) for f in range(len(O.corner_faces(t)))])
    na, nr = prob.nanson_scale[0][:, 0, :], ref.nanson_scale[0][:, 0, :]
    xs, xsr = prob.physical_surface_quad_points[0], ref.physical_surface_quad_points[0]
    ctx.close('face points move with the map', xs, xsr @ A.T + b)
    ctx.check('reference face weights are positive', nr > 0)
    for k, (_, f) in enumerate(bi):
        g = find_face(t, fe, f)
        P, T, w = O.face_rule(t, g, 2)
        ctx.close(f'face {f} reference area', np.sum(nr[k]), float(w.sum()) * cross_norm(T))
        if order is None or order > 0:
            ctx.close(f'face {f} reference first moment', nr[k] @ xsr[k], (w @ P) * cross_norm(T))
        tang = A @ np.asarray(T)
        if d == 2:
            sq = tang[0, 0] ** 2 + tang[1, 0] ** 2
        else:
            c = np.stack([tang[1, 0] * tang[2, 1] - tang[2, 0] * tang[1, 1],
                          tang[2, 0] * tang[0, 1] - tang[0, 0] * tang[2, 1],
                          tang[0, 0] * tang[1, 1] - tang[1, 0] * tang[0, 1]])
            sq = c[0] ** 2 + c[1] ** 2 + c[2] ** 2
        ctx.close(f'face {f} weights squared', na[k] * na[k], nr[k] * nr[k] * sq / cross_norm(T) ** 2)


def cross_norm(T):
    return float(onp.linalg.norm(T[:, 0]) if T.shape[0] == 2 else onp.linalg.norm(onp.cross(T[:, 0], T[:, 1])))


def find_face(t, fe, f):
    mine = sorted(onp.asarray(fe.face_inds)[f].reshape(-1).tolist())
    hit = [g for g, c in enumerate(O.corner_faces(t)) if sorted(c) == mine]
    return hit[0] if hit else -1


def exactness(ctx, t, order, rule=None, degree=None):
    """Fixed affine cells: polynomials up to the requested degree integrate
    exactly over the volume and over every face; coefficients are free."""
    d = O.DIM[t]
    p, cells = M.mesh_for(t, 2 if d == 2 else 1, 1, 1, 'skew')
    prob = build(t, p, cells, order, rule)
    fe = prob.fes[0]
    k = order if degree is None else degree
    es = degree_set(d, k)
    c = ctx.array('c', (len(es), 1), -2, 2)
    E = O.Element(t)
    got = np.sum(fe.JxW[:, :, None] * M.polyval(es, c, prob.physical_quad_points), axis=1)[:, 0]
    X, W = O.volume_rule(t, 5)
    want = []
    for cell in cells:
        s = onp.zeros(len(es))
        for x, w in zip(X, W):
            y = E.N(x) @ p[cell]
            J = p[cell].T @ E.dN(x)
            s += w * onp.linalg.det(J) * O._mono(es, y)
        want.append(s)
    ctx.close('volume integrals', got, np.asarray(onp.array(want)) @ c[:, 0])
    bi = onp.asarray(prob.boundary_inds_list[0])
    got = np.sum(prob.nanson_scale[0][:, 0, :, None] * M.polyval(es, c, prob.physical_surface_quad_points[0]), axis=1)[:, 0]
    want = []
    for ci, f in bi:
        g = find_face(t, fe, f)
        want.append(face_integral(E, t, g, p[cells[ci]], es))
    ctx.close('surface integrals', got, np.asarray(onp.array(want)) @ c[:, 0])


def face_integral(E, t, g, coords, es):
    P, T, ws = O.face_rule(t, g, 5)
    s = onp.zeros(len(es))
    for x, w in zip(P, ws):
        J = coords.T @ E.dN(x)
        tg = J @ T
        area = onp.linalg.norm(tg[:, 0]) if tg.shape[0] == 2 else onp.linalg.norm(onp.cross(tg[:, 0], tg[:, 1]))
        s += w * area * O._mono(es, E.N(x) @ coords)
    return s


def inside(ctx, t, order):
    """Face quadrature points are convex combinations of the face corners: the
    position interpolated from free corner values stays within their range."""
    d = O.DIM[t]
    p, cells = O.one_cell(t)
    prob = build(t, p, cells, order)
    fe = prob.fes[0]
    bi = prob.boundary_inds_list[0]
    E = O.Element(t)
    z = ctx.array('z', (d,), -1, 1)
    xs = prob.physical_surface_quad_points[0]
    xq = prob.physical_quad_points[0]
    for k, (_, f) in enumerate(onp.asarray(bi)):
        g = find_face(t, fe, f)
        V = np.asarray(O.ref_nodes(t)[list(O.corner_faces(t)[g])])
        h = V @ z
        lo, hi = np.min(h), np.max(h)
        s = xs[k] @ z
        ctx.check(f'face {f} points inside the face', [s >= lo - 1e-9, s <= hi + 1e-9])
    V = np.asarray(O.ref_nodes(t)) @ z
    s = xq @ z
    ctx.check('volume points inside the cell', [s >= np.min(V) - 1e-9, s <= np.max(V) + 1e-9])


def curved(ctx, t, moved, order):
    """Displaced nodes (non-affine cell): the volume equals the divergence-theorem
    value, an exact polynomial of the nodes."""
    d = O.DIM[t]
    p, cells = O.one_cell(t)
    pts = np.asarray(p).at[np.asarray(moved)].add(ctx.array('dx', (len(moved), d), -0.1, 0.1))
    prob = build(t, pts, cells, order, every=False)
    fe = prob.fes[0]
    E = O.Element(t)
    tot, mom = 0.0, 0.0
    X, W = O.volume_rule(t, 4)
    for x, w in zip(X, W):
        J = pts.T @ np.asarray(E.dN(x))
        det = J[0, 0] * J[1, 1] - J[0, 1] * J[1, 0] if d == 2 else (
            J[0, 0] * (J[1, 1] * J[2, 2] - J[1, 2] * J[2, 1]) - J[0, 1] * (J[1, 0] * J[2, 2] - J[1, 2] * J[2, 0])
            + J[0, 2] * (J[1, 0] * J[2, 1] - J[1, 1] * J[2, 0]))
        tot = tot + float(w) * det
        mom = mom + float(w) * det * (np.asarray(E.N(x)) @ pts)
    ctx.close('volume', np.sum(fe.JxW), tot)
    ctx.close('first moment', np.sum(fe.JxW[:, :, None] * prob.physical_quad_points, axis=(0, 1)), mom)


def divergence(ctx, t, order):
    """sum JxW div F = sum over the boundary faces of nanson F.n, all F of degree <= 2."""
    d = O.DIM[t]
    p, cells = M.mesh_for(t, 2 if d == 2 else 1, 1, 1, 'skew')
    prob = build(t, p, cells, order)
    fe = prob.fes[0]
    es = degree_set(d, 2)
    c = ctx.array('c', (len(es), d), -2, 2)
    grad = M.polygrad(es, c, prob.physical_quad_points)
    div = sum(grad[..., j, j] for j in range(d))
    lhs = np.sum(fe.JxW * div)
    bi = onp.asarray(prob.boundary_inds_list[0])
    seen = {}
    for k, (ci, f) in enumerate(bi):
        key = tuple(sorted(onp.asarray(cells[ci])[onp.asarray(fe.face_inds)[f].reshape(-1)].tolist()))
        seen.setdefault(key, []).append(k)
    F = M.polyval(es, c, prob.physical_surface_quad_points[0])
    rhs = 0.0
    for key, ks in seen.items():
        if len(ks) > 1:
            continue
        k = ks[0]
        ci = bi[k][0]
        V = p[list(key)]
        cc = p[cells[ci]].mean(axis=0)
        if d == 2:
            tg = V[1] - V[0]
            n = onp.array([tg[1], -tg[0]])
        else:
            n = onp.cross(V[1] - V[0], V[2] - V[0])
        n = n / onp.linalg.norm(n)
        n = n if n @ (V.mean(axis=0) - cc) > 0 else -n
        rhs = rhs + np.sum(prob.nanson_scale[0][k, 0][:, None] * F[k] * np.asarray(n))
    ctx.close('divergence theorem', lhs, rhs)


def units(tier):
    U = []

    def add(name, fn, bounds, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds})
    b1 = 'one cell, affine map I+[-0.25,0.25]^(d x d), free shift'
    b2 = 'fixed affine cells; all polynomials of the requested degree with coefficients in [-2,2]'
    b3 = 'one cell, listed nodes moved by [-0.1,0.1]'
    b4 = 'fixed cell; all directions'
    orders = {'QUAD4': (1, 2, 3, 4), 'TRI3': (1, 2, 3), 'TRI6': (2, 3, 4), 'QUAD8': (2, 3), 'HEX8': (1, 2, 3),
              'TET4': (1, 2, 3), 'TET10': (2, 3), 'HEX20': (2,), 'HEX27': (2,)}
    for t in O.TYPES:
        d = O.DIM[t]
        add(f'geometry-{t}', symbolic_geometry, b1, t=t, order=None if d == 2 else 2 if t == 'TET10' else 1, cost=2 if d == 2 else 6)
        for o in orders[t]:
            add(f'exactness-{t}-{o}', exactness, b2, t=t, order=o, cost=1 if d == 2 else 2)
        add(f'inside-{t}', inside, b4, t=t, order=2)
        add(f'divergence-{t}', divergence, b2, t=t, order=2, cost=1 if d == 2 else 2)
    # documented defaults integrate at least the constant-gradient forms exactly
    for t in ('TRI3', 'TET4'):
        add(f'default-{t}', exactness, b2, t=t, order=None, degree=1)
    for t in ('QUAD4', 'QUAD8', 'TRI6', 'HEX8', 'HEX20', 'TET10'):
        add(f'default-{t}', exactness, b2, t=t, order=None, degree=2)
    add('rule-QUAD4-GLL', exactness, b2, t='QUAD4', order=3, rule='GLL')
    add('rule-TRI3-GJ', exactness, b2, t='TRI3', order=3, rule='Gauss-Jacobi')
    add('curved-QUAD4', curved, b3, t='QUAD4', moved=[0, 1, 2, 3], order=3)
    add('curved-QUAD8', curved, b3, t='QUAD8', moved=[1, 4, 6], order=8)
    add('curved-TRI6', curved, b3, t='TRI6', moved=[2, 3, 5], order=6)
    add('curved-HEX8', curved, b3, t='HEX8', moved=[6], order=4, cost=2)
    add('curved-TET10', curved, b3, t='TET10', moved=[4, 8], order=8, cost=2)
    if tier == 'thorough':
        for t in O.TYPES:
            for o in (5, 6) if O.DIM[t] == 2 else (4,):
                add(f'exactness-{t}-{o}', exactness, b2, t=t, order=o, cost=3)
        add('geometry-HEX8-2', symbolic_geometry, b1, t='HEX8', order=2, cost=20)
        add('geometry-HEX27-2', symbolic_geometry, b1, t='HEX27', order=2, cost=30)
    return U
