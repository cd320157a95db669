"""C05: batched evaluation of cells visits every cell exactly once, in order."""
import numpy as onp
import jax.numpy as np
from vf import models as M

N_QUICK = (1, 2, 3, 7, 19, 20, 21, 22, 38, 39, 40, 41, 59, 60, 61, 67, 79, 81)


class Cells(M.Problem):
    """Every cell carries its own scalar and vector data."""

    def get_mass_map(self):
        def f(u, x, k, w):
            return k * u + w[0] * x[0] + w[1]
        return f


def geometry(n):
    """n disjoint triangles, every one of a different size and place."""
    pts, cells = [], []
    for i in range(n):
        s = 1.0 + 0.07 * i
        o = onp.array([2.0 * i, -0.3 * i])
        pts += [o, o + [s, 0.1], o + [0.05 * i, 0.9 + 0.01 * i]]
        cells.append([3 * i, 3 * i + 1, 3 * i + 2])
    # node numbers scrambled between cells
    perm = onp.random.RandomState(n).permutation(3 * n)
    inv = onp.argsort(perm)
    return onp.array(pts)[perm], inv[onp.array(cells)]


def batch(ctx, n, tangent=True):
    p, cells = geometry(n)
    prob = Cells(M.Mesh(p, cells, ele_type='TRI3'), vec=1, dim=2, ele_type='TRI3', quadrature_order=1)
    k = ctx.array('k', (n, 1), -2, 2)
    w = ctx.array('w', (n, 1, 2), -2, 2)
    u = ctx.array('u', (3 * n, 1), -2, 2)
    prob.internal_vars = [k, w]
    a = p[cells]
    area = 0.5 * ((a[:, 1, 0] - a[:, 0, 0]) * (a[:, 2, 1] - a[:, 0, 1]) - (a[:, 2, 0] - a[:, 0, 0]) * (a[:, 1, 1] - a[:, 0, 1]))
    cx = a.mean(axis=1)[:, 0]
    uc = np.mean(u[cells][:, :, 0], axis=1)
    cell_val = (k[:, 0] * uc + w[:, 0, 0] * cx + w[:, 0, 1]) * area / 3
    res = prob.compute_residual([u])[0]
    ctx.close('residual of every cell', res[cells][:, :, 0], np.stack([cell_val] * 3, axis=1))
    if tangent:
        res2 = prob.newton_update([u])[0]
        ctx.close('newton residual of every cell', res2[cells][:, :, 0], np.stack([cell_val] * 3, axis=1))
        I, Jc = onp.asarray(prob.I), onp.asarray(prob.J)
        V = np.asarray(prob.V)
        ctx.check('one tangent block per cell', V.shape == (9 * n,) and I.shape == (9 * n,) and Jc.shape == (9 * n,))
        owner = onp.empty(3 * n, dtype=int)
        owner[cells.reshape(-1)] = onp.repeat(onp.arange(n), 3)
        pairs = set(zip(I.tolist(), Jc.tolist()))
        ctx.check('tangent positions', pairs == {(i, j) for c in cells.tolist() for i in c for j in c})
        ctx.close('tangent block of every cell', V, (k[:, 0] * area / 9)[owner[I]])


def units(tier):
    ns = N_QUICK if tier == 'quick' else tuple(range(1, 131))
    return [{'name': f'cells-{n}', 'fn': batch, 'kw': {'n': n}, 'cost': n,
             'bounds': f'{n} cells of different geometry; per-cell internal variables and all nodal values in [-2,2]'} for n in ns]
