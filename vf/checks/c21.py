"""C21: the finite-strain plasticity update returns admissible states."""
import numpy as onp
import jax
import jax.numpy as np
from jax_fem import generate_mesh as G
from applications.finite_plasticity.model import Plasticity

ASSUMPTIONS = ['deformation gradients and histories in the stated families; the hardening variable is non-negative; material data of the model',
               'real arithmetic (states closer to the yield surface than rounding are outside)']
K, MU, H, SIG0 = 164.e3, 80.e3, 18., 400.
I = onp.eye(3)
A1 = onp.array([[.3, -.7, .2], [.5, .4, -.6], [-.1, .8, -.2]])
FO = I + .01 * onp.array([[.2, .5, -.3], [-.4, .1, .6], [.7, -.2, -.5]])
BE = onp.array([[1.004, .002, -.001], [.002, .997, .0015], [-.001, .0015, .9995]])


def problem():
    m = G.box_mesh(1, 1, 1, 1., 1., 1.)
    return Plasticity(G.Mesh(m.points, m.cells_dict['hexahedron']), ele_type='HEX8', vec=3, dim=3)


def state(ctx, family):
    """(u_grad, F_old, be_bar_old, alpha_old)"""
    alpha = ctx.scalar('alpha', 0, 0.2)
    dg = lambda v: np.asarray(v)[:, None] * I
    if family == 'diagonal':
        return dg(ctx.array('u', (3,), -.02, .02)), onp.diag([1.004, .997, 1.001]), onp.diag([1.003, .998, .9992]), alpha
    if family == 'first':
        d = ctx.array('u', (6,), -.02, .02)
        return np.stack([np.stack([d[0], d[1], d[2]]), np.stack([0. * d[0], d[3], d[4]]), np.stack([0. * d[0], 0. * d[0], d[5]])]), I, I, alpha
    if family == 'history':
        b = ctx.array('be', (6,), -.01, .01)
        be = np.stack([np.stack([1 + b[0], b[1], b[2]]), np.stack([b[1], 1 + b[3], b[4]]), np.stack([b[2], b[4], 1 + b[5]])])
        return .004 * A1, FO, be, alpha
    if family == 'ray':
        return ctx.scalar('t', -.03, .03) * A1, FO, BE, alpha
    if family == 'old':
        fo = I + ctx.scalar('a', -.03, .03) * A1 @ A1
        return .01 * A1.T, fo, BE, alpha
    if family == 'shear':
        g, h = ctx.scalar('g', -.03, .03), ctx.scalar('h', -.03, .03)
        e12, e23 = onp.zeros((3, 3)), onp.zeros((3, 3))
        e12[0, 1] = e23[1, 2] = 1.
        return g * e12 + h * e23, FO, BE, alpha


def dev(A):
    return A - np.trace(A) / 3. * I


def trial(u, Fo, be):
    """Trial state: isochoric push-forward of the old elastic strain."""
    F = u + I
    f = F @ np.linalg.inv(Fo)
    fb = np.linalg.det(f) ** (-1. / 3.) * f
    return F, fb @ be @ fb.T


def update(ctx, family):
    _, upd, _ = problem().get_maps()
    u, Fo, be, al = state(ctx, family)
    F, bt = trial(u, Fo, be)
    st = MU * dev(bt)
    N = np.linalg.norm(st)
    R = np.sqrt(2. / 3.) * (SIG0 + H * al)
    F1, b1, a1 = upd(u, np.asarray(Fo), np.asarray(be), al)
    ctx.close('deformation gradient is stored', F1, F)
    s1 = MU * dev(b1)
    ctx.close('elastic strain is symmetric', b1, b1.T)
    if N - R < 0.:
        ctx.close('elastic strain of an elastic step', b1, bt)
        ctx.close('plastic strain of an elastic step', a1, al)
        return
    R1 = np.sqrt(2. / 3.) * (SIG0 + H * a1)
    ctx.close('correction is deviatoric', np.trace(b1), np.trace(bt))
    Ie = np.trace(bt) / 3.
    D = np.sqrt(3. / 2.) * (a1 - al)
    ctx.close('back on the hardened yield surface', N - 2. * MU * Ie * D, R1, 1e-7)
    for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2)):
        ctx.close(f'along the trial direction {i}{j}', s1[i, j] * N, R1 * st[i, j], 1e-7)
    # the plastic strain grows by a positive multiple of the distance N - R >= 0
    ctx.check('trial strain is positive', Ie > 0.)
    ctx.close('growth of the plastic strain', (a1 - al) * (2. * MU * Ie * np.sqrt(1.5) + H * np.sqrt(2. / 3.)), N - R, 1e-7)


def stress(ctx, family):
    pb = problem()
    tmap, upd, cauchy = pb.get_maps()
    u, Fo, be, al = state(ctx, family)
    Fo, be = np.asarray(Fo), np.asarray(be)
    F, bt = trial(u, Fo, be)
    J = np.linalg.det(F)
    st = MU * dev(bt)
    bool(np.linalg.norm(st) - np.sqrt(2. / 3.) * (SIG0 + H * al) < 0.)       # both kinds of step
    _, b1, _ = upd(u, Fo, be, al)
    tau = 0.5 * K * (J ** 2 - 1.) * I + MU * dev(b1)
    P = tmap(u, Fo, be, al)
    ctx.close('first Piola-Kirchhoff stress', P @ F.T, tau, 1e-7)
    ctx.close('tensor map of the problem', pb.get_tensor_map()(u, Fo, be, al), P, 1e-7)
    ctx.close('Cauchy stress', cauchy(u, Fo, be, al) * J, tau, 1e-7)


def points(ctx):
    """Cell and quadrature-point wiring: every point gets its own gradient and history."""
    pb = problem()
    _, upd, cauchy = pb.get_maps()
    nq = pb.fe.num_quads
    t = ctx.array('t', (1, 1), -.01, .01)[0, 0]
    X = onp.asarray(pb.fe.points)
    sol0 = .01 * onp.sin(onp.arange(24.).reshape(8, 3))
    sol = sol0 + t * X @ A1.T
    al = ctx.array('alpha', (1, nq), 0, 0.2)
    Fo = onp.stack([I + .001 * (q + 1) * A1 for q in range(nq)])[None]
    be = onp.stack([BE + .0005 * q * (A1 + A1.T) for q in range(nq)])[None]
    iv = [np.asarray(Fo), np.asarray(be), al]
    # gradients from the nodal values and the geometry alone
    ug = np.sum(np.take(sol, onp.asarray(pb.fe.cells), axis=0)[:, None, :, :, None] * pb.fe.shape_grads[:, :, :, None, :], axis=2)
    out = pb.update_int_vars_gp(sol, iv)
    sig = pb.compute_stress(sol, iv)
    ctx.check('one entry per history variable', len(out) == 3)
    ctx.check('stress shape', tuple(sig.shape) == (1, nq, 3, 3))
    for q in range(nq):
        w = upd(ug[0, q], iv[0][0, q], iv[1][0, q], al[0, q])
        for k, (a, b) in enumerate(zip(out, w)):
            ctx.close(f'history {k} of point {q}', a[0, q], b)
        ctx.close(f'stress of point {q}', sig[0, q], cauchy(ug[0, q], iv[0][0, q], iv[1][0, q], al[0, q]), 1e-7)


def initial(ctx):
    pb = problem()
    F, be, al = pb.internal_vars
    ctx.check('history starts undeformed', bool(np.all(F == I) and np.all(be == I) and np.all(al == 0)))
    ctx.check('history shapes', F.shape == be.shape == (1, pb.fe.num_quads, 3, 3) and al.shape == (1, pb.fe.num_quads))
    al = ctx.scalar('alpha', 0, 1)
    s = ctx.scalar('stretch', .8, 1.2)
    _, upd, cauchy = pb.get_maps()
    be = I + .3 * (BE - I)
    F1, b1, a1 = upd((s - 1.) * I, I, be, al)
    ctx.close('volume change leaves the isochoric strain', b1, be)
    ctx.close('volume change leaves the plastic strain', a1, al)
    J = s ** 3
    ctx.close('volume change gives pressure only', cauchy((s - 1.) * I, I, np.asarray(I), al) * J, 0.5 * K * (J ** 2 - 1.) * I, 1e-7)


FAMILIES = {'diagonal': 'diagonal states: all increments',
            'first': 'virgin strain and gradient, all triangular increments (every increment up to a rotation)', 'history': 'all six components of the old elastic strain',
            'ray': 'a full 3x3 increment of any size on a full history', 'old': 'any size of a full old gradient', 'shear': 'two shears on a full history'}


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 2000}})
    for f, b in FAMILIES.items():
        add(f'update-{f}', update, family=f, bounds=b, cost=3)
        add(f'stress-{f}', stress, family=f, bounds=b, cost=3)
    add('initial', initial, bounds='all volume changes')
    add('points', points, bounds='one cell, eight points')
    return U
