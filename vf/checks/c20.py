"""C20: filters average over the right neighbourhood."""
import numpy as onp
import jax.numpy as np
import scipy.spatial
from vf import models as M, jaxsym
from jax_fem import generate_mesh as G
from jax_fem import mma as MM
from jax_fem.problem import Problem

ASSUMPTIONS = ['no more than 20 flexible cells lie within the radius (so on regular meshes)', 'cell centroids are distinct']


class Plain(Problem):
    def get_tensor_map(self):
        return lambda u_grad: u_grad


class Fe:
    def __init__(self, points, cells, JxW, dim):
        self.points, self.cells, self.JxW, self.dim = points, cells, JxW, dim
        self.num_cells = len(cells)


def mesh(kind):
    """Real finite elements on small meshes."""
    if kind == 'grid':
        m, t, d = G.rectangle_mesh(4, 3, 2., 1.5), 'QUAD4', 2
        pts, cells = m.points, m.cells_dict['quad']
    elif kind == 'wide':
        m, t, d = G.rectangle_mesh(6, 5, 3., 1.), 'QUAD4', 2
        pts, cells = m.points, m.cells_dict['quad']
    elif kind == 'tri':
        pts = onp.array([[0, 0], [1, 0], [2, 0.2], [0, 1], [1.1, 0.9], [2, 1], [0.1, 2], [1, 2.1], [2.2, 2]])
        t, d = 'TRI3', 2
        cells = onp.array([[0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [3, 4, 7], [3, 7, 6], [4, 5, 8], [4, 8, 7]])
    else:
        m, t, d = G.box_mesh(3, 3, 3, 1.5, 1.2, 0.9), 'HEX8', 3
        pts, cells = m.points, m.cells_dict['hexahedron']
    mm = G.Mesh(pts, cells, ele_type=t)
    return Plain(mm, vec=1, dim=d, ele_type=t).fes[0]


class Nearest:
    """scipy.spatial.KDTree over symbolic points: one path per ordering."""

    def __init__(self, data, *a, **k):
        self.p = np.asarray(data)

    def query(self, x, k=1):
        ks = list(k) if hasattr(k, '__iter__') else list(range(1, k + 1))
        n = self.p.shape[0]
        d = [np.sqrt(np.sum((self.p[i] - x) ** 2)) for i in range(n)]
        s = [np.sum((self.p[i] - x) ** 2) for i in range(n)]
        order = []
        for i in range(n):
            at = len(order)
            while at and s[i] < s[order[at - 1]]:
                at -= 1
            order.insert(at, i)
        dd = np.stack([d[order[q - 1]] if q <= n else np.inf for q in ks])
        return MM.np.array(dd), onp.array([order[q - 1] if q <= n else n for q in ks])


def check_filter(ctx, fe, flex, cent, size, m=2):
    """The real filter functions on one finite element object."""
    fe.flex_inds = onp.asarray(flex)
    n = len(flex)
    extra = []
    if ctx.symbolic:
        from vf import fakes as F
        import scipy
        over = {'sparse': F._NS(scipy.sparse, {k: F.SymSparse for k in ('csc_array', 'csr_array', 'coo_array', 'csc_matrix', 'csr_matrix', 'coo_matrix')})}
        if isinstance(cent, jaxsym.SymTracer):
            over['spatial'] = F._NS(scipy.spatial, {k: Nearest for k in ('KDTree', 'cKDTree')})
        extra = [(MM, 'BCOO', F.FakeBCOO), (MM, 'scipy', F._NS(scipy, over))]
    rho = ctx.array('rho', (n, 1), 0, 1)
    dJ = ctx.array('dJ', (n, 1), -1, 1)
    dvc = ctx.array('dvc', (m, n, 1), -1, 1)
    with M.sym_numpy(ctx), jaxsym.patched(extra):
        H, Hs = MM.compute_filter_kd_tree(fe)
        ft = {'H': H, 'Hs': Hs}
        out = MM.applyDensityFilter(ft, rho)
        const = MM.applyDensityFilter(ft, np.full((n, 1), 0.37))
        sJ, sv = MM.applySensitivityFilter(ft, rho, dJ, dvc)
        Hd = H.todense()
    r = 1.5 * size
    c = cent[onp.asarray(flex)]
    d2 = np.sum((c[:, None] - c[None]) ** 2, axis=-1)
    dist = np.sqrt(d2 + onp.eye(n)) * (1 - onp.eye(n))
    W = np.maximum(r - dist, 0.)
    ctx.close('weights', Hd, W)
    ctx.close('total weights', Hs, np.sum(W, axis=1))
    W, S = np.asarray(Hd), np.asarray(Hs)[:, None]         # established above
    ctx.close('density filter', out, (W @ rho) / S)
    ctx.close('constants are preserved', const, onp.full((n, 1), 0.37))
    ctx.close('objective sensitivities', sJ, W @ (rho * dJ / np.maximum(1e-3, rho) / S))
    ctx.check('constraint sensitivity shape', tuple(sv.shape) == (m, n, 1))
    for j in range(m):
        ctx.close(f'constraint sensitivities {j}', sv[j], W @ (rho * dvc[j] / np.maximum(1e-3, rho) / S))
    return rho, out


def real_mesh(ctx, kind, flex):
    fe = mesh(kind)
    pts, cells = onp.asarray(fe.points), onp.asarray(fe.cells)
    N = len(cells)
    flex = {'all': onp.arange(N), 'some': onp.arange(0, N, 2), 'mixed': onp.array([5, 1, 6, 2, 0]), 'one': onp.array([3])}[flex]
    area = float(onp.sum(onp.asarray(fe.JxW))) / N
    if kind in ('grid', 'wide', 'box'):
        L = onp.ptp(pts, axis=0)
        ctx.check('mean cell size', abs(area - onp.prod(L) / N) < 1e-9)
    rho, out = check_filter(ctx, fe, flex, pts[cells].mean(axis=1), area ** (1. / fe.dim))
    ctx.check('bounds respected', np.logical_and(out >= -1e-9, out <= 1 + 1e-9))


def radius(ctx, dim):
    """Any cell size."""
    fe0 = mesh('grid' if dim == 2 else 'box')
    pts, cells = onp.asarray(fe0.points), onp.asarray(fe0.cells)
    h = ctx.scalar('h', 0.2, 2)
    fe = Fe(pts, cells, np.ones((len(cells), 4)) * (h ** dim / 4.), dim)
    flex = onp.arange(5)
    M_ = check_filter(ctx, fe, flex, pts[cells].mean(axis=1), h)


def row(ctx, n, flex):
    """A row of cells with arbitrary widths."""
    w = ctx.array('w', (n,), 0.3, 2)
    x = np.concatenate([np.zeros(1), np.cumsum(w)])
    pts = np.concatenate([np.stack([x, 0 * x], 1), np.stack([x, 0 * x + 1.], 1)])
    cells = onp.array([[i, i + 1, n + 2 + i, n + 1 + i] for i in range(n)])
    s = ctx.scalar('size', 0.3, 2)
    fe = Fe(pts, cells, np.ones((n, 4)) * (s * s / 4.), 2)
    check_filter(ctx, fe, flex, np.mean(pts[cells], axis=1), s, m=1)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 20000}})
    for kind in ('grid', 'tri', 'box'):
        for fl in ('all', 'some', 'mixed', 'one'):
            add(f'{kind}-{fl}', real_mesh, kind=kind, flex=fl, bounds=f'{kind} mesh, all densities and sensitivities')
    add('wide-all', real_mesh, kind='wide', flex='all', bounds='30 cells')
    add('radius-2', radius, dim=2, bounds='all cell sizes')
    add('radius-3', radius, dim=3, bounds='all cell sizes')
    add('row-2', row, n=2, flex=(0, 1), bounds='all widths and sizes')
    add('row-3', row, n=3, flex=(2, 0), bounds='all widths and sizes')
    return U
