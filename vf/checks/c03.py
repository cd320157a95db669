"""C03: the assembled residual is the discretised weak form."""
import numpy as onp
import jax
import jax.numpy as np
from vf import models as M, oracle as O


class RefCell:
    """Quadrature points and weights the code uses, read off a problem on the
    reference cell itself (judged by C02); shape functions come from the oracle."""

    def __init__(self, t, order):
        p, c = O.one_cell(t)
        pr = M.Bare(M.Mesh(p, c, ele_type=t), vec=1, dim=O.DIM[t], ele_type=t, quadrature_order=order,
                    location_fns=[M.every_node()])
        self.t, self.E = t, O.Element(t)
        self.x = onp.asarray(pr.physical_quad_points)[0]
        self.w = onp.asarray(pr.fes[0].JxW)[0]
        self.face_x, self.face_w, self.face_T = {}, {}, {}
        for k, (_, f) in enumerate(onp.asarray(pr.boundary_inds_list[0])):
            self.face_x[int(f)] = onp.asarray(pr.physical_surface_quad_points[0])[k]
            self.face_w[int(f)] = onp.asarray(pr.nanson_scale[0])[k, 0]
            loc = sorted(onp.asarray(pr.fes[0].face_inds)[f].reshape(-1).tolist())
            g = [i for i, cf in enumerate(O.corner_faces(t)) if sorted(cf) == loc][0]
            self.face_T[int(f)] = O.face_rule(t, g, 1)[1]

    def volume(self, coords):
        """N (q,n), dN/dx (q,n,d), weights (q), x (q,d) for one cell."""
        N = onp.array([self.E.N(x) for x in self.x])
        G, W = [], []
        for x, w in zip(self.x, self.w):
            J = coords.T @ self.E.dN(x)
            G.append(self.E.dN(x) @ onp.linalg.inv(J))
            W.append(w * onp.linalg.det(J))
        return N, onp.array(G), onp.array(W), N @ coords

    def face(self, coords, f):
        xs, ws, T = self.face_x[f], self.face_w[f], self.face_T[f]
        N = onp.array([self.E.N(x) for x in xs])
        G, W = [], []
        for x, w in zip(xs, ws):
            J = coords.T @ self.E.dN(x)
            G.append(self.E.dN(x) @ onp.linalg.inv(J))
            W.append(w * meas(J @ T) / meas(T))
        return N, onp.array(G), onp.array(W), N @ coords


def meas(T):
    return onp.linalg.norm(T[:, 0]) if T.shape[0] == 2 else onp.linalg.norm(onp.cross(T[:, 0], T[:, 1]))


def expected_faces(t, cells, nodes):
    nodes = set(map(int, nodes))
    return {(i, frozenset(int(c[k]) for k in f)) for i, c in enumerate(cells) for f in O.corner_faces(t)
            if all(int(c[k]) in nodes for k in f)}


def rows(fe, cells, bi):
    fi = onp.asarray(fe.face_inds)
    return [(int(c), frozenset(int(k) for k in onp.asarray(cells[int(c)])[fi[int(f)].reshape(-1)])) for c, f in onp.asarray(bi)]


class Single(M.Problem):
    """One variable; which of the term kinds exist is chosen by subclasses."""

    def custom_init(self, maps=None):
        pass


def flux(g, k, D):
    return k * (D @ g.T).T + g * np.sum(g * g)


def source(u, x, k, D):
    return u * u * k + x[0] * D[0, 1] + x[1]


def surf0(u, x, s, v):
    return s * u * u + x[1] * v[0] + v[1]


def surf1(u, x, s, v):
    return u * v[0] * s - x[0]


def univ(self_fn):
    def k(cell_sol_flat, xq, grads, JxW, vgJ, kq, D):
        prob = self_fn()
        u = prob.unflatten_fn_dof(cell_sol_flat)[0]
        uq = np.sum(u[None] * prob.fes[0].shape_vals[:, :, None], axis=1)
        gq = np.sum(u[None, :, :, None] * grads[:, :, None, :], axis=1)
        s = uq * kq[:, None] + gq[:, :, 0] * xq[:, :1]
        r = np.sum(s[:, None, :] * prob.fes[0].shape_vals[:, :, None] * JxW[0][:, None, None], axis=0)
        r = r + np.sum(gq[:, None] * kq[:, None, None, None] * vgJ, axis=(0, -1))
        return jax.flatten_util.ravel_pytree(r)[0]
    return k


def univ_surf(self_fn, sign):
    def k(cell_sol_flat, xq, fv, fg, nanson, s, v):
        prob = self_fn()
        u = prob.unflatten_fn_dof(cell_sol_flat)[0]
        uq = np.sum(u[None] * fv[:, :, None], axis=1)
        gq = np.sum(u[None, :, :, None] * fg[:, :, None, :], axis=1)
        val = uq * s[:, None] + sign * gq[:, :, 1] * v[:, :1] + xq[:, :1]
        return jax.flatten_util.ravel_pytree(np.sum(val[:, None] * fv[:, :, None] * nanson[0][:, None, None], axis=0))[0]
    return k


def make(kinds):
    body = {}
    if 'tensor' in kinds:
        body['get_tensor_map'] = lambda self: flux
    if 'mass' in kinds:
        body['get_mass_map'] = lambda self: source
    if 'universal' in kinds:
        body['get_universal_kernel'] = lambda self: univ(lambda: self)
    if 'surface' in kinds:
        body['get_surface_maps'] = lambda self: [surf0, surf1, surf0][:len(self.location_fns)]
    if 'usurface' in kinds:
        body['get_universal_kernels_surface'] = lambda self: [univ_surf(lambda: self, 1.0), univ_surf(lambda: self, -2.0),
                                                              univ_surf(lambda: self, 3.0)][:len(self.location_fns)]
    return type('P_' + '_'.join(kinds), (M.Problem,), body)


def single(ctx, kinds, t, vec=1, nx=2, order=2, sets=2):
    p, cells = M.mesh_for(t, nx)
    d = O.DIM[t]
    cf = O.corner_faces(t)
    sel = []
    if 'surface' in kinds or 'usurface' in kinds:
        # overlapping, adjacent and empty boundary sets
        a = set(cells[0][list(cf[0])]) | set(cells[0][list(cf[-1])])
        b = set(cells[-1][list(cf[1])]) | set(cells[0][list(cf[0])])
        sel = [sorted(a), sorted(b), [int(cells[0][0])]][:sets]
    prob = make(kinds)(M.Mesh(p, cells, ele_type=t), vec=vec, dim=d, ele_type=t, quadrature_order=order,
                       location_fns=[M.node_set(s) for s in sel] or None)
    fe = prob.fes[0]
    u = ctx.array('u', (len(p), vec), -2, 2)
    qs = M.quad_shape(fe)
    k = ctx.array('k', qs, -2, 2)
    D = ctx.array('D', qs + (d, d), -2, 2) if d == 2 and t in ('QUAD4', 'TRI3') else np.asarray(
        onp.random.RandomState(3).uniform(-1, 1, qs + (d, d)))
    prob.internal_vars = [k, D]
    ivs = []
    for i, bi in enumerate(prob.boundary_inds_list):
        got = rows(fe, cells, bi)
        ctx.check(f'set {i} selects its faces once', len(set(got)) == len(got) and set(got) == expected_faces(t, cells, sel[i]))
        nb = len(bi)
        ivs.append([ctx.array(f's{i}', (nb, fe.num_face_quads), -2, 2), ctx.array(f'v{i}', (nb, fe.num_face_quads, 2), -2, 2)])
    prob.internal_vars_surfaces = ivs
    res = prob.compute_residual([u])
    ctx.check('one residual per variable', len(res) == 1)
    # ---- oracle
    R = RefCell(t, order)
    want = np.zeros((len(p), vec))
    for c, cell in enumerate(cells):
        N, G, W, X = R.volume(p[cell])
        uc = u[cell]
        loc = np.zeros((len(cell), vec))
        for q in range(len(W)):
            uq, gq, x = N[q] @ uc, uc.T @ np.asarray(G[q]), np.asarray(X[q])
            if 'tensor' in kinds:
                loc = loc + W[q] * np.asarray(G[q]) @ flux(gq, k[c, q], D[c, q]).T
            val = 0.0
            if 'mass' in kinds:
                val = val + source(uq, x, k[c, q], D[c, q])
            if 'universal' in kinds:
                val = val + uq * k[c, q] + gq[:, 0] * X[q][0]
                loc = loc + W[q] * k[c, q] * (np.asarray(G[q]) @ gq.T)
            if 'mass' in kinds or 'universal' in kinds:
                loc = loc + W[q] * np.outer(np.asarray(N[q]), val)
        want = want.at[cell].add(loc)
    for i, bi in enumerate(prob.boundary_inds_list):
        for r, (c, f) in enumerate(onp.asarray(bi)):
            cell = cells[c]
            N, G, W, X = R.face(p[cell], int(f))
            uc = u[cell]
            loc = np.zeros((len(cell), vec))
            for q in range(len(W)):
                uq, gq, x = N[q] @ uc, uc.T @ np.asarray(G[q]), np.asarray(X[q])
                s, v = ivs[i][0][r, q], ivs[i][1][r, q]
                val = 0.0
                if 'surface' in kinds:
                    val = val + [surf0, surf1, surf0][i](uq, x, s, v)
                if 'usurface' in kinds:
                    val = val + uq * s + (1.0, -2.0, 3.0)[i] * gq[:, 1] * v[0] + X[q][0]
                loc = loc + W[q] * np.outer(np.asarray(N[q]), val)
            want = want.at[cell].add(loc)
    ctx.close('residual equals the weak form', res[0], want)


class Many(M.Problem):
    """n coupled variables: r_i = sum_j c_ij (u_j^0 u_i, v_i) + c_ii (grad u_i, grad v_i)."""

    def get_universal_kernel(self):
        def k(cell_sol_flat, xq, grads, JxW, vgJ, C):
            us = self.unflatten_fn_dof(cell_sol_flat)
            cs = self.num_nodes_cumsum
            out = []
            vals = [np.sum(u[None] * fe.shape_vals[:, :, None], axis=1) for u, fe in zip(us, self.fes)]
            for i, (u, fe) in enumerate(zip(us, self.fes)):
                g = np.sum(u[None, :, :, None] * grads[:, cs[i]:cs[i + 1]][:, :, None, :], axis=1)
                r = np.sum((C[:, i, i][:, None, None] * g)[:, None] * vgJ[:, cs[i]:cs[i + 1]], axis=(0, -1))
                s = sum(C[:, i, j][:, None] * vals[j][:, :1] * vals[i] for j in range(len(us)))
                r = r + np.sum(s[:, None] * fe.shape_vals[:, :, None] * JxW[i][:, None, None], axis=0)
                out.append(r)
            return jax.flatten_util.ravel_pytree(out)[0]
        return k

    def get_universal_kernels_surface(self):
        def k(cell_sol_flat, xq, fv, fg, nanson, s):
            us = self.unflatten_fn_dof(cell_sol_flat)
            cs = self.num_nodes_cumsum
            vals = [np.sum(u[None] * fv[:, cs[i]:cs[i + 1], None], axis=1) for i, u in enumerate(us)]
            tot = sum(v[:, :1] for v in vals)
            out = []
            for i, u in enumerate(us):
                r = (vals[i] * tot * s[:, None])[:, None] * fv[:, cs[i]:cs[i + 1], None] * nanson[i][:, None, None]
                out.append(np.sum(r, axis=0))
            return jax.flatten_util.ravel_pytree(out)[0]
        return [k for _ in self.location_fns]


def many(ctx, types, vecs, nx=2, order=2):
    d = O.DIM[types[0]]
    ms = [M.mesh_for(t, nx) for t in types]
    cf = O.corner_faces(types[0])
    c0 = ms[0][1]
    sel = sorted(set(c0[0][list(cf[0])]) | set(c0[-1][list(cf[1])]))
    prob = Many([M.Mesh(p, c, ele_type=t) for (p, c), t in zip(ms, types)], vec=list(vecs), dim=d, ele_type=list(types),
                quadrature_order=[order] * len(types), dirichlet_bc_info=[None] * len(types), location_fns=[M.node_set(sel)])
    n = len(types)
    us = [ctx.array(f'u{i}', (len(ms[i][0]), vecs[i]), -2, 2) for i in range(n)]
    nq = prob.fes[0].num_quads
    C = ctx.array('C', (len(c0), nq, n, n), -2, 2)
    bi = onp.asarray(prob.boundary_inds_list[0])
    s = ctx.array('s', (len(bi), prob.fes[0].num_face_quads), -2, 2)
    prob.internal_vars = [C]
    prob.internal_vars_surfaces = [[s]]
    res = prob.compute_residual(us)
    ctx.check('one residual per variable', len(res) == n)
    Rs = [RefCell(t, order) for t in types]
    want = [np.zeros((len(ms[i][0]), vecs[i])) for i in range(n)]
    for c in range(len(c0)):
        geo = [Rs[i].volume(ms[i][0][ms[i][1][c]]) for i in range(n)]
        uc = [us[i][ms[i][1][c]] for i in range(n)]
        for q in range(nq):
            vals = [geo[i][0][q] @ uc[i] for i in range(n)]
            for i in range(n):
                N, G, W, _ = geo[i]
                g = np.asarray(G[q])
                r = W[q] * C[c, q, i, i] * (g @ (uc[i].T @ g).T)
                for j in range(n):
                    r = r + W[q] * C[c, q, i, j] * vals[j][0] * np.outer(np.asarray(N[q]), vals[i])
                want[i] = want[i].at[ms[i][1][c]].add(r)
    for r_, (c, f) in enumerate(bi):
        geo = [Rs[i].face(ms[i][0][ms[i][1][c]], int(f)) for i in range(n)]
        uc = [us[i][ms[i][1][c]] for i in range(n)]
        for q in range(len(geo[0][2])):
            vals = [geo[i][0][q] @ uc[i] for i in range(n)]
            tot = sum(v[0] for v in vals)
            for i in range(n):
                N, G, W, _ = geo[i]
                want[i] = want[i].at[ms[i][1][c]].add(W[q] * s[r_, q] * tot * np.outer(np.asarray(N[q]), vals[i]))
    for i in range(n):
        ctx.close(f'residual of variable {i}', res[i], want[i])


def units(tier):
    U = []
    b = ('fixed distorted mesh; all nodal values, internal variables per cell / face / quadrature point in [-2,2]; '
         'boundary sets overlapping, adjacent and empty')

    def add(name, fn, cost=1, **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': b})
    allk = ('tensor', 'mass', 'universal', 'surface', 'usurface')
    for t, nx in (('QUAD4', 2), ('TRI3', 1), ('TRI6', 1), ('QUAD8', 1)):
        add(f'all-{t}', single, kinds=allk, t=t, nx=nx, sets=3, cost=2)
    for kk in (('tensor',), ('mass',), ('universal',), ('mass', 'surface'), ('tensor', 'usurface'), ('tensor', 'mass', 'surface')):
        add('-'.join(kk) + '-QUAD4', single, kinds=kk, t='QUAD4', sets=2)
    add('vec2-QUAD4', single, kinds=allk, t='QUAD4', vec=2, cost=3)
    add('vec3-TRI3', single, kinds=('tensor', 'mass', 'surface'), t='TRI3', vec=3, nx=1, cost=3)
    add('tm-TET4', single, kinds=('tensor', 'mass', 'surface'), t='TET4', nx=1, order=1, cost=3)
    add('tm-HEX8', single, kinds=('tensor', 'mass', 'surface'), t='HEX8', nx=1, order=2, cost=5)
    add('m-TET10', single, kinds=('mass', 'surface'), t='TET10', nx=1, order=2, sets=1, cost=5)
    add('ms-HEX20', single, kinds=('mass', 'surface'), t='HEX20', nx=1, order=1, sets=1, cost=5)
    add('ms-HEX27', single, kinds=('mass', 'surface'), t='HEX27', nx=1, order=1, sets=1, cost=5)
    add('many-QUAD4-QUAD4', many, types=('QUAD4', 'QUAD4'), vecs=(1, 2))
    add('many-TRI6-TRI3', many, types=('TRI6', 'TRI3'), vecs=(2, 1), nx=1)
    add('many-QUAD8-QUAD4-QUAD4', many, types=('QUAD8', 'QUAD4', 'QUAD4'), vecs=(2, 1, 3), nx=1, cost=3)
    add('many-TET4-TET4', many, types=('TET4', 'TET4'), vecs=(3, 1), nx=1, order=1, cost=3)
    if tier == 'thorough':
        add('all-HEX8', single, kinds=allk, t='HEX8', vec=1, nx=2, cost=20)
        add('all-vec3-TET4', single, kinds=allk, t='TET4', vec=3, nx=1, cost=20)
        add('many-TET10-TET4', many, types=('TET10', 'TET4'), vecs=(3, 1), nx=1, cost=20)
        add('all-QUAD8-vec2', single, kinds=allk, t='QUAD8', vec=2, nx=2, order=3, cost=10)
    return U
