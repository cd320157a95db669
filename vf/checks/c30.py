"""C30: crystal plasticity and third-medium contact: rotations, slip kinematics, implicit stress, regularisation."""
import importlib.util
import os
import numpy as onp
import jax
import jax.numpy as np
from vf import apps, env, jaxsym, models as M
from vf.jaxsym import NSProxy
from jax_fem import generate_mesh as G
from vf.checks.c26 import cof, det, mesh

ASSUMPTIONS = ['the local Newton loop is replaced by an arbitrary result (its body and its derivative rule are checked separately)',
               'real arithmetic; fractional powers are exact functions of their argument',
               'eigendecompositions are exact; checked for deformations that are diagonal in a stated basis']
CP, TM = 'applications/crystal_plasticity/models.py', 'applications/third_medium_contact/example.py'
AO, H, TSAT, GSSA, G0 = .001, 541.5, 109.8, 2.5, 60.8
C11, C12, C44 = 1.684e5, 1.214e5, .754e5
QUAT = onp.array([[.5, .5, -.5, .5], [.8, 0., .6, 0.], [1., 0., 0., 0.], [.1, .7, -.5, .5]])


def module():
    spec = importlib.util.spec_from_file_location('crystal_plasticity_models', os.path.join(env.REPO, CP))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def crystal(mod, quat=QUAT, ori=(0,)):
    n = len(ori)
    m = G.box_mesh(n, 1, 1, float(n), 1., 1.)
    pb = mod.CrystalPlasticity(G.Mesh(m.points, m.cells_dict['hexahedron'], 'HEX8'), vec=3, dim=3, ele_type='HEX8',
                               additional_info=(onp.asarray(quat), onp.array(ori)))
    pb.dt = 1e-2
    return pb


# ------------------------------------------------------------------ rotations
def hamilton(p, q):
    return np.stack([p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3],
                     p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
                     p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1],
                     p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0]])


def quaternions(ctx):
    """The matrix of a quaternion maps v to q v q*; it is orthogonal and proper for unit quaternions."""
    mod = module()
    q, v = ctx.array('q', (4,), -1, 1), ctx.array('v', (3,), -1, 1)
    R = mod.get_rot_mat(q)
    conj = q * onp.array([1., -1., -1., -1.])
    want = hamilton(hamilton(q, np.concatenate([0. * v[:1], v])), conj)
    ctx.close('rotation of a vector', R @ v, want[1:])
    n = np.sum(q * q)
    ctx.close('orthogonal', R @ R.T, n * n * onp.eye(3))
    ctx.close('proper', det(R), n ** 3)
    ctx.close('list of quaternions', mod.get_rot_mat_vmap(np.stack([q, 2. * q]))[1], 4. * R)


def tensors(ctx):
    """Components of rotated tensors."""
    mod = module()
    R0 = onp.array([[.3, -.7, .2], [.9, .4, -.1], [.2, .6, 1.1]])
    R, T = ctx.array('R', (3, 3), -1, 1), ctx.array('T', (3, 3), -1, 1)
    ctx.close('second order', mod.rotate_tensor_rank_2(R, T), R @ T @ R.T)
    A, B = onp.array([[1., .2, -.3], [.4, -1., .5], [.6, .7, .8]]), onp.array([[.3, -.2, 1.], [.9, .5, -.4], [0., .1, -.7]])
    four = lambda a, b: a[:, :, None, None] * b[None, None, :, :]
    ctx.close('fourth order: dyads', mod.rotate_tensor_rank_4(R0, four(T, B)), four(R0 @ T @ R0.T, R0 @ B @ R0.T))
    Q = ctx.array('Q', (4, 3), -1, 1)
    V = np.einsum('i,j,k,l->ijkl', *Q)
    ctx.close('fourth order: vectors', mod.rotate_tensor_rank_4(R0, V), np.einsum('i,j,k,l->ijkl', *[R0 @ a for a in Q]))
    s = ctx.scalar('s', -1, 1)
    ctx.close('fourth order: rotation', mod.rotate_tensor_rank_4(s * A + R0, four(A, B)), four((s * A + R0) @ A @ (s * A + R0).T, (s * A + R0) @ B @ (s * A + R0).T))
    x = ctx.array('x', (2, 3, 3), -1, 1)
    got = mod.rotate_tensor_rank_2_vmap(R0, x)
    for k in range(2):
        ctx.close('list of tensors', got[k], R0 @ x[k] @ R0.T)


def material(ctx, ori):
    """Slip systems, hardening matrix, elasticity and the initial state of every point."""
    mod = module()
    q = onp.asarray(QUAT)
    pb = crystal(mod, q, ori)
    S = onp.asarray(pb.Schmid_tensors)
    ctx.check('twelve systems', S.shape == (12, 3, 3))
    # {111}<110>: all of them, up to their sign
    normals = [onp.array(n) / onp.sqrt(3.) for n in ((1, 1, 1), (1, 1, -1), (1, -1, 1), (-1, 1, 1))]
    dirs = [onp.array(d) / onp.sqrt(2.) for d in ((1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (0, 1, 1), (0, 1, -1))]
    all_ = [onp.outer(d, n) for n in normals for d in dirs if abs(d @ n) < 1e-12]
    ctx.check('the systems of the lattice', all(sum(min(abs(a - s).max(), abs(a + s).max()) < 1e-9 for s in S) == 1 for a in all_))
    g = ctx.array('g', (12,), -1, 1)
    L = np.einsum('s,sij->ij', g, S)
    ctx.close('slip keeps the volume', np.trace(L), 0.)
    ctx.close('hardening couples all systems equally', np.asarray(pb.q) @ g, np.sum(g) * onp.ones(12))
    e = ctx.array('e', (3, 3), -1, 1)
    sig = np.einsum('ijkl,kl->ij', onp.asarray(pb.C) / 1e5, e)
    d = e * onp.eye(3)
    sym = .5 * (e + e.T) - d
    ctx.close('cubic elasticity', sig, ((C11 - C12) * d + C12 * np.trace(e) * onp.eye(3) + 2 * C44 * sym) / 1e5)
    Fp, r, s, R = pb.internal_vars
    n = len(ori)
    ctx.close('no plastic deformation', Fp, onp.broadcast_to(onp.eye(3), (n, 8, 3, 3)))
    ctx.close('resistance', r, G0 * onp.ones((n, 8, 12)))
    ctx.close('no slip', s, onp.zeros((n, 8, 12)))
    x = ctx.array('x', (n, 8, 3, 3), -1, 1)
    for c, o in enumerate(ori):
        w, a, b, z = q[o] / onp.linalg.norm(q[o])
        K = onp.array([[0, -z, b], [z, 0, -a], [-b, a, 0]])
        Rm = (onp.eye(3) + 2 * w * K + 2 * K @ K) * (q[o] @ q[o])
        ctx.close('orientation of the cell', R[c], onp.broadcast_to(Rm, (8, 3, 3)))
    new = [x, r, s, R]
    pb.set_params(new)
    ctx.check('parameters are the internal variables', len(pb.internal_vars) == 4)
    ctx.close('state is handed over', pb.internal_vars[0], x)


# ----------------------------------------------------------------- local problem
class Loop:
    """Stands in for jax.lax.while_loop: the outer loop gives an arbitrary stress."""

    def __init__(self, S):
        self.S, self.outer, self.inner = S, None, None

    def __call__(self, cond, body, init):
        if self.inner is not None:
            return self.inner(cond, body, init)
        self.outer = (cond, body, init)
        return (init[0] + 1, 0. * init[1], np.reshape(np.asarray(self.S), -1))


def havocked(mod, S):
    loop = Loop(S)
    mod.jax = NSProxy(jax, {'lax': NSProxy(jax.lax, {'while_loop': loop})})
    return loop


S0 = onp.array([[150., 40., -20.], [40., -90., 35.], [-20., 35., 60.]])
A0 = onp.array([[.04, -.03, .02], [.05, -.02, .01], [-.03, .02, .03]])
FP0 = onp.array([[1.02, .03, -.01], [.02, .97, .02], [.01, -.02, 1.01]])
GR = onp.array([56., 170., 60., 140., 75., 118., 90., 64., 160., 80., 100., 70.])
SL = onp.linspace(-.1, .2, 12)


def rot(k):
    w, x, y, z = QUAT[k] / onp.linalg.norm(QUAT[k])
    K = onp.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return onp.eye(3) + 2 * w * K + 2 * K @ K


def systems(S):
    """Directions and normals of the slip systems in use, in their order."""
    out = []
    for s in onp.asarray(S):
        u, w, vt = onp.linalg.svd(s)
        out.append((u[:, 0] * w[0], vt[0]))
    return out


def step(pb, S, Fp, g, s, R, dt):
    """New inverse plastic deformation, resistance and slip of a stress S."""
    gam = []
    for k, (d, n) in enumerate(systems(pb.Schmid_tensors)):
        tau = np.dot(R @ d, S @ (R @ n))
        x = tau / g[k]
        x2 = x * x
        gam.append(AO * dt * x2 * x2 * x2 * x2 * x2 * np.sign(tau))
    gam = np.stack(gam)
    rate = onp.abs(1 - g / TSAT) ** GSSA * onp.sign(1 - g / TSAT)
    harden = np.sum(H * np.abs(gam) * rate)
    L = sum(gam[k] * np.outer(R @ d, R @ n) for k, (d, n) in enumerate(systems(pb.Schmid_tensors)))
    return Fp @ (onp.eye(3) - L), g + harden, s + gam, gam


def update(ctx, k, family):
    """The state after a step is that of the flow and hardening rules at the stress found."""
    mod = module()
    pb = crystal(mod)
    R = rot(k)
    t = ctx.scalar('t', .9, 1.2) if family != 'negative' else ctx.scalar('t', -1.2, -.9)
    S = t * S0
    loop = havocked(mod, S)
    _, fn = pb.get_maps()
    Fp, s = (ctx.array('Fp', (3, 3), -1, 1), ctx.array('slip', (12,), -1, 1)) if family != 'stretch' else (FP0, SL)
    h = A0
    pb.dt = ctx.scalar('dt', .01, .05) if family != 'stretch' else .02
    Fn, gn, sn, Rn = fn(h, Fp, GR, s, R)
    if loop.outer is None:
        ctx.cut('the local problem is not solved by a loop')
    want = step(pb, S, Fp, GR, s, R, pb.dt)
    ctx.close('plastic deformation', Fn, want[0])
    ctx.close('resistance', gn, want[1])
    ctx.close('slip', sn, want[2])
    ctx.close('orientation stays', Rn, R)


def stress(ctx, k, family):
    """P is the pull back of the elastic second Piola-Kirchhoff stress found; it balances angular momentum."""
    mod = module()
    pb = crystal(mod)
    R = rot(k)
    if family == 'stress':
        pb.dt, h = 0., A0                                   # no slip: every stress along two directions
        S = ctx.scalar('a', .5, 1) * S0 + ctx.scalar('b', -.1, .1) * onp.array([[.1, .2, .3], [.2, -.4, .1], [.3, .1, .2]]) * 100.
    else:
        S, h = .9 * S0, ctx.scalar('g', -1, 1) * A0 if family == 'ray' else A0 + ctx.array('d', (3,), -.1, .1) * onp.eye(3)
    loop = havocked(mod, S)
    fn = pb.get_tensor_map()
    P = fn(h, FP0, GR, SL, R)
    if loop.outer is None:
        ctx.cut('the local problem is not solved by a loop')
    Fp = step(pb, S, FP0, GR, SL, R, pb.dt)[0]
    F = h + onp.eye(3)
    Fe = F @ Fp
    # P = det(F)/det(Fe) Fe S Fe^T F^-T = (1/det Fp^-1) Fe S Fp^-T
    ctx.close('stress', P * det(Fp), Fe @ S @ Fp.T, 1e-7)
    K = P @ F.T
    for i in range(3):
        for j in range(i):
            ctx.close('angular momentum', K[i, j], K[j, i], 1e-7)


def residual(pb, h, Fp, g, s, R, S, dt):
    Fn = step(pb, S, Fp, g, s, R, dt)[0]
    Fe = (h + onp.eye(3)) @ Fn
    E = .5 * (Fe.T @ Fe - onp.eye(3))
    e = R.T @ E @ R
    d = e * onp.eye(3)
    sig = (C11 - C12) * d + C12 * np.trace(e) * onp.eye(3) + 2 * C44 * (e - d)
    return S - R @ sig @ R.T


def newton(ctx, k, family):
    """Each iteration goes along the Newton step; the recorded residual belongs to the recorded stress; only small ones end the loop."""
    mod = module()
    pb = crystal(mod)
    R = rot(k)
    loop = havocked(mod, S0)
    fn = pb.get_tensor_map()
    h = .02 * A0
    pb.dt = 1e-3
    if family == 'start':
        h = ctx.scalar('g', -1, 1) * A0 if not k else A0 + ctx.array('d', (3, 3), -.1, .1)
    Fp = onp.eye(3)
    fn(h, Fp, GR, SL, R)
    if loop.outer is None:
        ctx.cut('the local problem is not solved by a loop')
    cond, body, init = loop.outer
    if len(init) != 3:
        ctx.cut('another loop state')
    if family == 'start':
        y0 = init[2]
        ctx.close('starts without stress', y0, onp.zeros(9))
        ctx.close('first residual', init[1] / 1e5, np.reshape(residual(pb, h, Fp, GR, SL, R, np.zeros((3, 3)), pb.dt), -1) / 1e5, 1e-9)
        r = ctx.scalar('r', 1e-3, 1e5) * onp.linspace(-1., 1.5, 9)
        ctx.check('open while the residual is not small', cond((0, r, y0)))
        ctx.check('closed when it vanishes', not cond((0, onp.zeros(9), onp.ones(9))))
        return
    y = .2 * S0.reshape(-1)
    Fr = lambda v: np.reshape(residual(pb, h, Fp, GR, SL, R, np.reshape(v, (3, 3)), pb.dt), -1)
    res = Fr(y)
    a = ctx.scalar('a', .02, 1)
    seen = {}

    def inner(c, b, ini):
        seen['first'] = c(ini)
        out = b((a,) + tuple(ini[1:]))
        seen['k'] = (ini[2], out[2])
        seen['half'] = out[0]
        seen['better'] = c((a, .5 * ini[1], 1))
        seen['worse'] = c((a, 2. * ini[1], 1))
        seen['cap'] = c((a, 2. * ini[1], 50))
        return out
    loop.inner = inner
    with ctx.patch([]):
        n, r, y2 = body((0, np.asarray(res), np.asarray(y)))
    if not seen:
        ctx.cut('no line search')
    J = onp.asarray(jax.jacfwd(Fr)(y))
    inc = onp.linalg.solve(J, -onp.asarray(res))
    ctx.check('the first trial is made', seen['first'])
    ctx.close('trials are halved', seen['half'], .5 * a)
    ctx.check('a smaller residual is accepted', np.logical_not(seen['better']))
    ctx.check('a larger one is not', seen['worse'])
    ctx.check('the trials end', np.logical_not(seen['cap']))
    ctx.close('Newton direction', y2, y + a * inc, 1e-6)
    ctx.close('residual of the new stress', r / 1e3, Fr(y + a * inc) / 1e3, 1e-6)
    ctx.check('iterations are counted', n == 1)


def tangent(ctx, k):
    """The derivative of the stress is that of the implicitly defined local solution."""
    mod = module()
    pb = crystal(mod)
    R = rot(k)
    S = .9 * S0
    loop = havocked(mod, S)
    fn = pb.get_tensor_map()
    V = ctx.array('v', (3, 3), -1, 1)
    h = A0
    _, dP = jax.jvp(lambda x: fn(x, FP0, GR, SL, R), (h,), (V,))
    if loop.outer is None:
        ctx.cut('the local problem is not solved by a loop')
    f = lambda x, y: np.reshape(residual(pb, np.reshape(x, (3, 3)), FP0, GR, SL, R, np.reshape(y, (3, 3)), pb.dt), -1)

    def P(x, y):
        x, y = np.reshape(x, (3, 3)), np.reshape(y, (3, 3))
        Fp = step(pb, y, FP0, GR, SL, R, pb.dt)[0]
        return np.reshape((x + onp.eye(3)) @ Fp @ y @ Fp.T / det(Fp), -1)
    x, y = np.asarray(h).reshape(-1), np.asarray(S).reshape(-1)
    J = [onp.asarray(jax.jacfwd(g, argnums=i)(x, y)) for g in (f, P) for i in (0, 1)]
    D = J[2] - J[3] @ onp.linalg.solve(J[1], J[0])
    ctx.close('consistent tangent', dP.reshape(-1) / 1e4, (D / 1e4) @ V.reshape(-1), 1e-7)


class Stub:
    """Problem methods around a given local law."""

    def __init__(self, pb, law, upd):
        self.pb, self.law, self.upd = pb, law, upd

    def __enter__(self):
        self.pb.get_maps = lambda: (self.law, self.upd)
        return self.pb

    def __exit__(self, *a):
        del self.pb.get_maps


def points(ctx, ori):
    """Every point is updated with its own gradient and state; the mean stress of a cell is its volume average."""
    mod = module()
    pb = crystal(mod, QUAT, ori)
    fe = pb.fes[0]
    n = len(ori)
    B = onp.array([[1., .3, -.2], [.1, 2., .5], [.4, -.6, 1.5]])
    X = onp.asarray(fe.points)
    u = .1 * onp.sin(X @ onp.array([[1., -.3, .4], [.2, .9, -.5], [-.6, .1, .8]]) + onp.arange(3)) + ctx.scalar('t', -1, 1) * .05 * (X ** 2 @ B)
    r = onp.random.RandomState(3)
    st = [r.uniform(.5, 1., v.shape) for v in pb.internal_vars]
    law = lambda h, a, b, c, d: h @ B + b[0] * a + c[1] * d
    upd = lambda h, a, b, c, d: (a @ h, b + h[0, 1], c * h[2, 0], d)
    with Stub(pb, law, upd):
        new = pb.update_int_vars_gp(u, st)
        sig = pb.compute_avg_stress(u, st)
    C, g, w = onp.asarray(fe.cells), onp.asarray(fe.shape_grads), onp.asarray(fe.JxW)
    ctx.check('four fields', len(new) == 4)
    for c in range(n):
        mean, vol = 0., 0.
        for q in range(8):
            h = np.einsum('ni,nj->ij', u[C[c]], g[c, q])
            a = [v[c, q] for v in st]
            for i, (got, want) in enumerate(zip(new, upd(h, *a))):
                ctx.close(f'state {i} of a point', got[c, q], want)
            F = h + onp.eye(3)
            if ctx.symbolic:
                ctx.assume(det(F) > .05)
            mean = mean + w[c, q] / det(F) * (law(h, *a) @ F.T)
            vol += w[c, q]
        ctx.close('mean stress of a cell', sig[c], mean / vol)


# ---------------------------------------------------------------- third medium
def contact(ns, cells=1):
    m = mesh(2)
    if cells == 2:
        m = G.rectangle_mesh(2, 1, 2., 1.)
        m = G.Mesh(m.points, m.cells_dict['quad'], 'QUAD4')
    return ns['Contact'](m, vec=2, dim=2, ele_type='QUAD4', quadrature_rule='Gauss-Lobatto-Legendre', quadrature_order=2,
                         dirichlet_bc_info=[[lambda p: np.isclose(p[0], 0.), lambda p: np.isclose(p[0], float(cells)) & np.isclose(p[1], 1.)], [0, 1], [lambda p: 0., lambda p: 0.]])


def bases(ctx, B):
    return ctx.patch([(jaxsym, 'EIGENBASES', B)] if ctx.symbolic else [])


def turn(ctx, c, s):
    """The rotation part of R U is R."""
    ns = apps.definitions(TM)
    _, grad, rotation = contact(ns).get_maps()
    l = ctx.array('l', (2,), .3, 2)
    Q = onp.array([[.6, -.8, 0.], [.8, .6, 0.], [0., 0., 1.]])
    A = onp.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]])
    d = np.stack([l[0], l[1], 1. + 0. * l[0]])
    if ctx.symbolic:
        ctx.assume((l[0] - l[1]) * (l[0] - l[1]) > 1e-4)
    with bases(ctx, [Q]):
        R = rotation(A @ (Q @ (d[:, None] * Q.T)))
    ctx.close('rotation', R, A, 1e-6)
    h = ctx.array('h', (2, 2), -.3, .3)
    F = grad(h)
    base = onp.asarray(grad(onp.zeros((2, 2))))
    ctx.check('unit matrix at rest (but for a perturbation)', abs(base - onp.eye(3)).max() < 1e-5)
    ctx.close('plane deformation gradient', F[:2, :2], h + base[:2, :2])
    ctx.close('plane strain', np.concatenate([F[2], F[:2, 2]]), onp.array([0., 0., 1., 0., 0.]))


def medium(ctx, solid):
    """Solid: the logarithmic neo-Hookean law. Medium: it vanishes but for the resistance to compression-free shear and rotation."""
    ns = apps.definitions(TM)
    P_of, grad, _ = contact(ns).get_maps()
    noise = onp.asarray(grad(onp.zeros((2, 2))))[:2, :2] - onp.eye(2)
    l = ctx.array('l', (2,), .5, 1.6)
    if ctx.symbolic:
        for x, y in ((l[0], l[1]), (l[0], 1.), (l[1], 1.)):
            ctx.assume((x - y) * (x - y) > 1e-3)
    Ro = ctx.array('R', (3, 3), -1, 1)
    th = ctx.scalar('theta', .51, 1) if solid else ctx.scalar('theta', 0, .49)
    ctx.check('the perturbation is small and diagonal', abs(noise).max() < 1e-5 and noise[0, 1] == 0. == noise[1, 0])
    h = np.stack([np.stack([l[0] - 1., 0. * l[0]]), np.stack([0. * l[0], l[1] - 1.])]) - noise
    with bases(ctx, [onp.eye(3)]):
        P = P_of(h, th, Ro)
    K, Gm, kR = 1. / .6, 1. / 2.8, 1e-2
    J = l[0] * l[1]
    I1 = l[0] ** 2 + l[1] ** 2 + 1.
    gk, gg, gr = (1., 1., 0.) if solid else (0., 1e-6, 1.)
    for i in range(2):
        iso = Gm * J ** (-2. / 3.) * (l[i] - I1 / 3. / l[i])
        ctx.close(f'normal stress {i}', P[i, i], gk * K * np.log(J) / l[i] + gg * iso, 1e-8)
    w = gr * kR * (Ro[1, 0] - Ro[0, 1]) / (l[0] + l[1])
    ctx.close('rotational stress 10', P[1, 0], -w, 1e-10)
    ctx.close('rotational stress 01', P[0, 1], w, 1e-10)


def memory(ctx, cells):
    """The stored rotations are cell means at every point; the load moves the corner down by the stated share of the height."""
    ns = apps.definitions(TM)
    pb = contact(ns, cells)
    fe = pb.fes[0]
    u = ctx.array('u', (len(onp.asarray(fe.points)), 2), -1, 1)
    emb = lambda h: np.concatenate([np.concatenate([h, h[:1]]), np.concatenate([h, h[1:]])[:3, :1]], axis=1)
    pb.get_maps = lambda: (None, emb, lambda F: F * F)
    got = pb.post_processing(u)
    del pb.get_maps
    C, g = onp.asarray(fe.cells), onp.asarray(fe.shape_grads)
    n = g.shape[1]
    ctx.check('one per point', got.shape == (cells, n, 3, 3))
    for c in range(cells):
        each = [emb(np.einsum('ni,nj->ij', u[C[c]], g[c, q])) for q in range(n)]
        mean = sum(e * e for e in each) / n
        for q in range(n):
            ctx.close('mean rotation', got[c, q], mean)
    s = ctx.scalar('s', 0, 2)
    th = ctx.array('th', (cells, n), 0, 1)
    pb.set_params([s, th, got])
    ctx.close('phase is handed over', pb.internal_vars[0], th)
    ctx.close('rotations are handed over', pb.internal_vars[1], got)
    ctx.close('load', fe.vals_list[-1], -s * 500. * onp.ones(1))
    ctx.check('loaded degree of freedom', len(fe.vals_list[-1]) == 1 and int(onp.asarray(fe.vec_inds_list[-1])[0]) == 1)
    ctx.close('support', fe.vals_list[0], onp.zeros(2))


def units(tier):
    U = []
    th = tier == 'thorough'

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 2000}})
    add('quaternions', quaternions, bounds='every quaternion and vector')
    add('tensors', tensors, cost=2, bounds='every second-order tensor and matrix; fourth-order tensors that are products')
    for o in [(0,), (2, 0), (1, 3)]:
        add('material-' + ''.join(map(str, o)), material, ori=o, bounds='the slip systems of the file; every strain and slip increment')
    ks = (0, 1, 3) if th else (0, 1)
    for k in ks:
        for f in ('positive', 'negative', 'stretch'):
            add(f'update-{f}-{k}', update, k=k, family=f, cost=2, bounds='stresses along one line, both directions; every old state (positive, negative)')
        for f in ('stress', 'ray', 'diagonal'):
            add(f'stress-{f}-{k}', stress, k=k, family=f, cost=2, bounds='one-parameter stresses or displacement gradients')
        for f in ('start', 'step'):
            add(f'newton-{f}-{k}', newton, k=k, family=f, cost=2, bounds='one stress state, every line-search length')
        add(f'tangent-{k}', tangent, k=k, bounds='one state, every direction')
    for o in [(0,), (1, 2)]:
        add('points-' + ''.join(map(str, o)), points, ori=o, cost=2, bounds=f'{len(o)} cells, one-parameter displacements')
    for c, s in ((1., 0.), (.8, .6), (0., 1.), (-.6, -.8)):
        add(f'turn-{c}', turn, c=c, s=s, bounds='every pair of principal stretches of one basis')
    for b in (True, False):
        add('solid' if b else 'medium', medium, solid=b, bounds='every pair of principal stretches, every stored rotation')
    for c in (1, 2):
        add(f'memory-{c}', memory, cells=c, bounds=f'every displacement of {c} cells')
    return U
