"""C27: the cell and face kernels of the application problems discretise the weak forms they document."""
import ast
import numpy as onp
import jax
import jax.numpy as np
from vf import apps, models as M, oracle as O, sym
from jax_fem import generate_mesh as G

ASSUMPTIONS = ['shape functions, their gradients and the quadrature weights are those of C01 and C02',
               'real arithmetic; exponentials and sines are exact functions of their argument']

AP = 'applications/'


def mesh(t, nx=2, ny=1, nz=1):
    p, c = O.grid_mesh(t, nx, ny, nz)
    return M.Mesh(O.wobble(onp.asarray(p, dtype=float)), onp.asarray(c), ele_type=t)


def at(fe, U, c, q):
    """Value and gradient of a nodal field at a quadrature point."""
    u = np.asarray(U)[onp.asarray(fe.cells)[c]]
    return onp.asarray(fe.shape_vals)[q] @ u, u.T @ onp.asarray(fe.shape_grads)[c, q]


def galerkin(fe, density):
    """sum over cells and points of w (flux . grad N + body N); density(c, q) -> (flux (vec, dim) | None, body (vec) | None)"""
    cells, N, dN, w = (onp.asarray(a) for a in (fe.cells, fe.shape_vals, fe.shape_grads, fe.JxW))
    out = [[0.] * fe.vec for _ in range(fe.num_total_nodes)]
    for c in range(len(cells)):
        for q in range(fe.num_quads):
            flux, body = density(c, q)
            for n, node in enumerate(cells[c]):
                for i in range(fe.vec):
                    if flux is not None:
                        out[node][i] = out[node][i] + np.sum(flux[i] * dN[c, q, n]) * w[c, q]
                    if body is not None:
                        out[node][i] = out[node][i] + body[i] * N[q, n] * w[c, q]
    return np.stack([np.stack([x + np.zeros(()) for x in r]) for r in out])


def face_load(pb, k, density):
    """sum over the faces of a boundary set of w density N; density(i, q, x) -> (vec)"""
    fe = pb.fes[0]
    cells, vals = onp.asarray(fe.cells), onp.asarray(fe.face_shape_vals)
    _, nanson = fe.get_face_shape_grads(pb.boundary_inds_list[k])
    x = onp.asarray(fe.get_physical_surface_quad_points(pb.boundary_inds_list[k]))
    nanson = onp.asarray(nanson)
    out = [[0.] * fe.vec for _ in range(fe.num_total_nodes)]
    for i, (c, f) in enumerate(onp.asarray(pb.boundary_inds_list[k])):
        for q in range(fe.num_face_quads):
            t = density(i, q, x[i, q], int(c), int(f))
            for n, node in enumerate(cells[c]):
                for j in range(fe.vec):
                    out[node][j] = out[node][j] + t[j] * vals[f, q, n] * nanson[i, q]
    return np.stack([np.stack([x + np.zeros(()) for x in r]) for r in out])


def face_at(fe, U, c, f, q):
    return onp.asarray(fe.face_shape_vals)[f, q] @ np.asarray(U)[onp.asarray(fe.cells)[c]]


def sides(m, d=2):
    p = onp.asarray(m.points)
    return [M.node_set([int(i) for i in onp.where(onp.isclose(p[:, k], v, atol=1e-6))[0]]) for k, v in ((0, p[:, 0].min()), (0, p[:, 0].max()))]


def straight(t, nx=2, ny=1, nz=1):
    """A mesh with straight sides, distorted inside by a shear."""
    p, c = O.grid_mesh(t, nx, ny, nz)
    p = onp.asarray(p, dtype=float)
    p[:, 0] = p[:, 0] / p[:, 0].max()
    p[:, 1] = p[:, 1] + .2 * p[:, 0]
    return M.Mesh(p, onp.asarray(c), ele_type=t)


def stokes(ctx, nx):
    ns = apps.definitions(AP + 'stokes/example.py')
    mu, mp = mesh('TRI6', nx), None
    cells = onp.asarray(mu.cells)[:, :3]
    ids = onp.unique(cells)
    mp = M.Mesh(onp.asarray(mu.points)[ids], onp.searchsorted(ids, cells), ele_type='TRI3')
    pb = ns['StokesFlow']([mu, mp], vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2])
    fu, fp = pb.fes
    U, P = ctx.array('u', (fu.num_total_nodes, 2), -3, 3), ctx.array('p', (fp.num_total_nodes, 1), -3, 3)
    ru, rp = pb.compute_residual([U, P])
    I = onp.eye(2)
    ctx.close('momentum: grad u : grad v + p div v', ru, galerkin(fu, lambda c, q: (at(fu, U, c, q)[1] + at(fp, P, c, q)[0][0] * I, None)))
    ctx.close('continuity: q div u', rp, galerkin(fp, lambda c, q: (None, np.trace(at(fu, U, c, q)[1])[None])))


def hooke2(ctx, kind, nx):
    """Linear elasticity written with one and with two variables."""
    one = kind == '1var'
    ns = apps.definitions(AP + f'stokes/example_{kind}.py')
    m = mesh('HEX8', nx)
    if one:
        pb = ns['LinearElasticity'](m, vec=3, dim=3, ele_type='HEX8')
    else:
        pb = ns['LinearElasticity']([m, m], vec=[1, 2], dim=3, ele_type=['HEX8', 'HEX8'], quadrature_order=[None, None])
    n = len(m.points)
    U = ctx.array('u', (n, 3), -1, 1)
    r = pb.compute_residual([U] if one else [U[:, :1], U[:, 1:]])
    got = r[0] if one else np.concatenate(r, axis=1)
    E, nu = 70e3, .3
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    bare = M.Bare(m, vec=3, dim=3, ele_type='HEX8').fes[0]

    def sigma(c, q):
        g = at(bare, U, c, q)[1]
        return lam * np.trace(g) * onp.eye(3) + mu * (g + g.T), None
    ctx.close('sigma(u) : grad v', got, galerkin(bare, sigma), 1e-6)


def wave_eq(ctx, t, nx):
    ns = apps.definitions(AP + 'wave/example.py')
    m = mesh(t, nx)
    pb = ns['wave'](m, vec=1, dim=2, ele_type=t, quadrature_order=2)
    fe = pb.fes[0]
    n = fe.num_total_nodes
    u, u1, u2 = (ctx.array(k, (n, 1), -1, 1) for k in ('u', 'u1', 'u2'))
    dt, c = ctx.scalar('dt', .01, 1), ctx.scalar('c', .5, 5)
    ns['dt'], ns['c'] = dt, c
    pb.set_params([u2, u1])
    k = c * c * dt * dt
    (r,) = pb.compute_residual([u])
    ctx.close('(u - 2 u1 + u2, v) + c^2 dt^2 (grad u, grad v)', r, galerkin(
        fe, lambda e, q: (k * at(fe, u, e, q)[1], at(fe, u, e, q)[0] - 2. * at(fe, u1, e, q)[0] + at(fe, u2, e, q)[0])))


def robin(ctx, nx):
    ns = apps.definitions(AP + 'robin_bc/example.py')
    m = straight('TRI3', nx)
    pb = ns['Poisson'](m, vec=1, dim=2, ele_type='TRI3', quadrature_order=2, location_fns=sides(m))
    fe = pb.fes[0]
    u = ctx.array('u', (fe.num_total_nodes, 1), -1, 1)
    X = onp.asarray(fe.get_physical_quad_points())

    def inner(c, q):
        x, y = X[c, q]
        f = x * onp.sin(5 * onp.pi * y) + onp.exp(-((x - .5) ** 2 + (y - .5) ** 2) / .02)
        return at(fe, u, c, q)[1], -onp.array([f])
    want = galerkin(fe, inner)
    for k in range(2):
        ctx.check('faces found', len(pb.boundary_inds_list[k]) > 0)
        want = want + face_load(pb, k, lambda i, q, x, c, f: 5. * face_at(fe, u, c, f, q) ** 2)
    (r,) = pb.compute_residual([u])
    ctx.close('(grad u, grad v) - (f, v) + <5 u^2, v>', r, want)


def coupled(ctx, nx, t):
    """Thermo-elasticity: momentum and energy balance of one implicit step."""
    ns = apps.definitions(AP + 'thermal_mechanical_full/example.py')
    m = mesh(t, nx)
    pb = ns['thermal_mechanical_full']([m, m], vec=[2, 1], dim=2, ele_type=[t, t], quadrature_order=[2, 2])
    fu, fT = pb.fes
    n = fu.num_total_nodes
    c = {k: ctx.scalar(k, .2, 3) for k in ('lmbda', 'mu', 'kappa', 'C', 'k', 'T0', 'dt')}
    for k in ('lmbda', 'mu', 'kappa', 'C', 'k', 'T0'):
        ctx.check(f'{k} is a parameter', k in ns)
        ns[k] = c[k]
    U, V = ctx.array('u', (n, 2), -1, 1), ctx.array('v', (n, 2), -1, 1)
    T, S = ctx.array('T', (n, 1), -1, 1), ctx.array('S', (n, 1), -1, 1)
    pb.set_params([V, S, c['dt']])
    ru, rT = pb.compute_residual([U, T])
    I = onp.eye(2)

    def mom(e, q):
        g = at(fu, U, e, q)[1]
        return c['lmbda'] * np.trace(g) * I + c['mu'] * (g + g.T) - c['kappa'] * at(fT, T, e, q)[0][0] * I, None

    def energy(e, q):
        (a, ga), b = at(fT, T, e, q), at(fT, S, e, q)[0]
        rate = np.trace(at(fu, U, e, q)[1] - at(fu, V, e, q)[1])
        return c['k'] * ga * c['dt'], c['C'] * (a - b) + c['kappa'] * c['T0'] * rate
    ctx.close('momentum', ru, galerkin(fu, mom))
    ctx.close('energy', rT * c['dt'], galerkin(fT, energy))


def coupled_constants(ctx):
    ns = apps.definitions(AP + 'thermal_mechanical_full/example.py')
    E, nu, al = ns['E'], ns['nu'], ns['alpha']
    # a free body expands by alpha dT: 3 bulk modulus alpha = kappa
    ctx.close('free expansion', (3 * ns['lmbda'] + 2 * ns['mu']) * al, ns['kappa'])
    ctx.close('uniaxial stress', ns['mu'] * (3 * ns['lmbda'] + 2 * ns['mu']) / (ns['lmbda'] + ns['mu']), E, 1e-6)
    ctx.close('Poisson number', ns['lmbda'] / (2 * (ns['lmbda'] + ns['mu'])), nu)


# ------------------------------------------------------------- laser heating
TM = AP + 'thermal_mechanical/example.py'


def heat(ctx, nx, part):
    """Implicit heat step with convection, radiation and the laser."""
    ns = apps.definitions(TM)
    m = mesh('HEX8', nx)
    p = onp.asarray(m.points)
    m = M.Mesh(p * onp.array([1e-4, 8e-5, 5e-5]), m.cells, ele_type='HEX8')
    g = O.grid_mesh('HEX8', nx, 1, 1)[0]
    g = onp.asarray(g, dtype=float)
    top = M.node_set([int(i) for i in onp.where(g[:, 2] == g[:, 2].max())[0]])
    wall = M.node_set([int(i) for i in onp.where(g[:, 0] == g[:, 0].min())[0]])
    pb = ns['Thermal'](m, vec=1, dim=3, ele_type='HEX8', location_fns=[top, wall])
    fe = pb.fes[0]
    n = fe.num_total_nodes
    T = 300. + 1000. * ctx.array('T', (n, 1), 0, 1)
    S = 300. + 1000. * ctx.array('S', (n, 1), 0, 1)
    sw = ctx.scalar('switch', 0, 1)
    if part == 'laser':
        # straight dependence on the laser position would put a variable into an exponential per point: positions are given
        T, S = np.full((n, 1), 300.), np.full((n, 1), 300.)
    at0 = onp.array([6e-5, 3e-5, 5e-5])
    pb.set_params([S, at0, sw if part == 'laser' else 0.])
    (r,) = pb.compute_residual([T])
    dt, rho, Cp, k, h = (ns[x] for x in ('dt', 'rho', 'Cp', 'k', 'h'))
    em, eta, P, rb, T0 = (ns[x] for x in ('emissivity', 'eta', 'P', 'rb', 'T0'))
    sb = 5.67e-8

    def inner(c, q):
        a, ga = at(fe, T, c, q)
        b = at(fe, S, c, q)[0]
        return k * ga, rho * Cp / dt * (a - b)
    want = galerkin(fe, inner)

    def surf(laser):
        def f(i, q, x, c, fc):
            t = face_at(fe, S, c, fc, q)[0]
            gain = h * (T0 - t) + sb * em * (T0 ** 4 - t ** 4)
            if laser and part == 'laser':
                d2 = onp.sum((x[:2] - at0[:2]) ** 2)
                gain = gain + sw * 2 * eta * P / (onp.pi * rb ** 2) * onp.exp(-2 * d2 / rb ** 2)
            return -np.stack([gain])
        return f
    ctx.check('faces found', [len(b) for b in pb.boundary_inds_list] == [nx, 1])
    want = want + face_load(pb, 0, surf(True)) + face_load(pb, 1, surf(False))
    k = 1. if part == 'laser' else 1e5
    ctx.close('heat balance', k * r, k * want, 1e-7)


def laser_power(ctx):
    """The beam profile depends on the distance to the laser axis only and is proportional to the switch."""
    ns = apps.definitions(TM)
    fn = ns['Thermal'].get_surface_maps(object.__new__(ns['Thermal']))[0]
    rb = ns['rb']
    s, a, b = ctx.scalar('switch', 0, 1), ctx.scalar('a', -2, 2), ctx.scalar('b', -2, 2)
    sh = rb * ctx.array('sh', (2,), -3, 3)
    T = np.full((1,), 300.)
    x = rb * np.stack([a, b])
    z = np.zeros((1,))
    at0 = lambda v: np.concatenate([v, z])
    base = fn(T, at0(x), T, at0(np.zeros(2)), s)[0]
    ctx.close('moves with the beam', 1e-9 * fn(T, at0(x + sh), T, at0(sh), s)[0], 1e-9 * base)
    c = x @ onp.array([[.6, .8], [-.8, .6]])
    ctx.close('rotationally symmetric', 1e-9 * fn(T, at0(c), T, at0(np.zeros(2)), s)[0], 1e-9 * base)
    ctx.close('proportional to the switch', 1e-9 * fn(T, at0(x), T, at0(np.zeros(2)), 1.)[0] * s, 1e-9 * base)
    # its integral over the plane is the absorbed power: a Gaussian of this width integrates to peak * pi rb^2 / 2
    peak = -fn(T, at0(np.zeros(2)), T, at0(np.zeros(2)), s)[0]
    ctx.close('absorbed power', peak * onp.pi * rb ** 2 / 2., ns['eta'] * ns['P'] * s)


def plastic_problem(ns, nx=1):
    return ns['Plasticity'](mesh('HEX8', nx), vec=3, dim=3, ele_type='HEX8')


class MaskedSet(ast.NodeTransformer):
    """x.at[mask].set(v) with a symbolic mask: where(mask, v, x)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'set' and isinstance(f.value, ast.Subscript) \
                and isinstance(f.value.value, ast.Attribute) and f.value.value.attr == 'at':
            return ast.copy_location(ast.Call(ast.Name('_at_set', ast.Load()), [f.value.value.value, f.value.slice, *n.args], n.keywords), n)
        return n

    def visit(self, n):
        return ast.fix_missing_locations(super().visit(n))


def at_set(a, mask, v, **kw):
    if getattr(mask, 'dtype', None) == bool and mask.shape == a.shape:
        return np.where(mask, v, a)
    return a.at[mask].set(v, **kw)


def phases(ctx):
    """Melting and solidification, point by point, for every temperature and every present phase."""
    ns = apps.definitions(TM, rewrite=MaskedSet() if ctx.symbolic else None)
    ns['_at_set'] = at_set
    pb = plastic_problem(ns)
    fe = pb.fes[0]
    ps = {k: ns[k] for k in ('POWDER', 'LIQUID', 'SOLID')}
    ctx.check('phases differ', len(set(ps.values())) == 3)
    T = ns['Tl'] + 500. * ctx.array('T', (8, 1), -1, 1)
    dT = 100. * ctx.array('d', (8, 1), -1, 1)
    Tq = onp.asarray(fe.shape_vals) @ T[onp.asarray(fe.cells)[0]]
    dq = onp.asarray(fe.shape_vals) @ dT[onp.asarray(fe.cells)[0]]
    sig, eps, dT0, ph = pb.internal_vars
    ctx.check('starts as powder', bool((onp.asarray(ph) == ps['POWDER']).all()))
    for r in range(3):
        now = (onp.arange(8) + r) % 3
        old = onp.array(list(ps.values()))[now].reshape(1, 8, 1)
        s, e, d, new = pb.update_dT_and_phase(dT, T, [sig, eps, dT0, np.asarray(old)])
        ctx.check('stress and strain kept', s is sig and e is eps)
        ctx.close('temperature increment', d, dq[None])
        for q in range(8):
            t, v, o = Tq[q, 0], new[0, q, 0], int(old[0, q, 0])
            if o == ps['POWDER']:
                want = np.where(t > ns['Tl'], float(ps['LIQUID']), float(o))
            elif o == ps['LIQUID']:
                want = np.where(t < ns['Tl'], float(ps['SOLID']), float(o))
            else:
                want = float(o)
            ctx.close('phase', v * 1., want)


def plastic(ctx, family, phase):
    """Thermo-plastic return map: elastic below the yield stress, projected radially onto the yield surface above it."""
    ns = apps.definitions(TM)
    pb = plastic_problem(ns)
    fn = pb.get_tensor_map()
    ph = np.full((1,), ns[phase])
    solid = phase == 'SOLID'
    E, sig0 = (70e9 if solid else 70e7), 250e6
    nu, al = .3, (1e-5 if solid else 0.)
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    K = lam + 2 * mu / 3
    dT = 200. * ctx.scalar('dT', -1, 1)
    y = sig0 / (2 * mu)                                    # strains are measured in yield strains
    g, s0 = ctx.scalar('g', -3, 3), ctx.scalar('s', -.5, .5)
    if family == 'shear':
        A = onp.array([[0., 1, 0], [1, 0, 0], [0, 0, 0]])
        H = y * (g * A + ctx.scalar('v', -1, 1) * onp.eye(3) + ctx.scalar('w', -1, 1) * onp.array([[0., 1, 0], [-1, 0, 0], [0, 0, 0]]))
    else:
        A = onp.array([[2., 0, 0], [0, -1, 0], [0, 0, -1]])
        H = y * g * A
    old = sig0 * (s0 * A + ctx.scalar('p', -1, 1) * onp.eye(3))
    e_old = y * ctx.scalar('e', -.3, .3) * A
    eps = .5 * (H + H.T)
    inc = eps - e_old - al * dT * onp.eye(3)
    trial = lam * np.trace(inc) * onp.eye(3) + 2 * mu * inc + old
    dev = trial - np.trace(trial) / 3. * onp.eye(3)
    n2 = 1.5 * np.sum(dev * dev)
    c = 1. / sig0
    inside = bool(c * c * n2 <= 1.)
    with ctx.patch([(sym, 'FORK_ITE', True)] if ctx.symbolic else []):
        out = fn(H, old, e_old, dT[None] if hasattr(dT, 'ndim') and dT.ndim == 0 else np.asarray(dT)[None], ph)
    odev = out - np.trace(out) / 3. * onp.eye(3)
    o2 = 1.5 * np.sum(odev * odev)
    ctx.close('pressure is elastic', c * np.trace(out), c * np.trace(trial))
    for i in range(3):
        for j in range(3):
            ctx.close('stays on the ray', c * c * (odev[i, j] * A[0, 1] - odev[0, 1] * A[i, j]) if family == 'shear'
                      else c * c * (odev[i, j] * A[0, 0] - odev[0, 0] * A[i, j]), 0.)
    ctx.check('never outside the yield surface', c * c * o2 <= 1. + 1e-6)
    if inside:
        ctx.close('elastic inside', c * out, c * trial)
    else:
        ctx.close('on the surface', c * c * o2, 1., 1e-6)
    ctx.check('keeps its direction', c * c * np.sum(odev * dev) >= -1e-9)


def plastic_update(ctx):
    """The updated history is the stress and strain of the converged displacement."""
    ns = apps.definitions(TM)
    pb = plastic_problem(ns)
    fe = pb.fes[0]
    U = 1e-6 * (ctx.scalar('t', -1, 1) * onp.sin(onp.arange(24.) * 1.7).reshape(8, 3) + onp.cos(onp.arange(24.)).reshape(8, 3))   # elastic
    sig, eps, dT, ph = pb.internal_vars
    ph = np.asarray(onp.full(ph.shape, ns['SOLID']))
    e0 = np.asarray(1e-6 * onp.sin(onp.arange(72.)).reshape(1, 8, 3, 3))
    e0 = .5 * (e0 + np.swapaxes(e0, 2, 3))
    s0 = np.asarray(1e3 * onp.cos(onp.arange(72.)).reshape(1, 8, 3, 3))
    s0 = .5 * (s0 + np.swapaxes(s0, 2, 3))
    tq = np.asarray(onp.linspace(-.01, .01, 8).reshape(1, 8, 1))
    with ctx.patch([(sym, 'FORK_ITE', True)] if ctx.symbolic else []):
        (s, e, d, p), _ = pb.update_stress_strain(U, [s0, e0, tq, ph])
    E, nu = 70e9, .3
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    ctx.check('temperature and phase kept', d is tq and p is ph)
    for q in range(fe.num_quads):
        g = at(fe, U, 0, q)[1]
        ee = .5 * (g + g.T)
        i = ee - e0[0, q] - 1e-5 * tq[0, q] * onp.eye(3)
        ctx.close('strain', 1e6 * e[0, q], 1e6 * ee)
        ctx.close('stress', 1e-5 * s[0, q], 1e-5 * (s0[0, q] + lam * np.trace(i) * onp.eye(3) + 2 * mu * i))


# --------------------------------------------------------- errors and manufactured solutions
def norms(ctx, t, nx):
    """Discrete L2 and H1 errors; the source is the Laplacian of the exact solution."""
    ns = apps.definitions(AP + 'convergence_rate/example.py')
    m = mesh(t, nx)
    pb = ns['LinearPoisson'](m, vec=1, dim=3, ele_type=t)
    fe = pb.fes[0]
    u = ctx.array('u', (fe.num_total_nodes, 1), -1, 1)
    X, w = onp.asarray(fe.get_physical_quad_points()), onp.asarray(fe.JxW)

    def exact(x):
        return np.array([x[0] ** 2 - x[1] * x[2] + .5 * x[2]])
    a = b = 0.
    for c in range(len(w)):
        for q in range(fe.num_quads):
            v, g = at(fe, u, c, q)
            x, y, z = X[c, q]
            a = a + w[c, q] * (v[0] - (x * x - y * z + .5 * z)) ** 2
            b = b + w[c, q] * np.sum((g[0] - onp.array([2 * x, -z, -y + .5])) ** 2)
    l2 = pb.compute_l2_norm_error(u, exact)
    h1 = pb.compute_h1_norm_error(u, exact)
    ctx.close('L2 error', l2 ** 2, a)
    ctx.check('L2 error is not negative', l2 >= 0.)
    ctx.close('H1 error', (h1 - l2) ** 2, b)
    ctx.check('H1 error is not below the L2 error', h1 >= l2)


def manufactured(ctx):
    ns = apps.definitions(AP + 'convergence_rate/example.py')
    fn = ns['LinearPoisson'].get_mass_map(None)
    x = ctx.array('x', (3,), 0, 1)
    f = fn(np.zeros(1), x)
    # 1e2 ((x-.5)^3 + 2 (y-.5)^3 + 10 exp(-(z-.5)^2))
    z = x[2] - .5
    ctx.close('source of the Poisson problem', f, 1e2 * np.stack([6 * (x[0] - .5) + 12 * (x[1] - .5) + 10 * np.exp(-z * z) * (4 * z * z - 2)]), 1e-6)


def moving_mesh(ctx):
    """The differentiable mesh problem: its source and flux belong to u = sin(pi x)(1 + y)."""
    ns = apps.definitions(AP + 'differentiable_mesh/example.py')
    cls = ns['NonlinearPoisson']
    o = object.__new__(cls)
    x = ctx.array('x', (2,), 0, 1)
    u = ctx.array('u', (1,), -2, 2)
    s = np.sin(onp.pi * x[0])
    ex = s * (1. + x[1])
    ctx.close('source', cls.get_mass_map(o)(u, x), np.stack([u[0] ** 3 - onp.pi ** 2 * ex - ex ** 3]))
    (flux,) = cls.get_surface_maps(o)
    ctx.close('flux on the lower side', flux(u, np.stack([x[0], 0. * x[0]])), np.stack([s]))
    ctx.close('upper value', ns['u0_top'](np.stack([x[0], 0. * x[0] + 1.])), 2. * s)
    g = ctx.array('g', (1, 2), -1, 1)
    ctx.close('diffusion', cls.get_tensor_map(o)(g), g)


def orient(ctx, app, t):
    """Imported triangles come out counter-clockwise with the same nodes in matching positions."""
    ns = apps.definitions(AP + app)
    ns['float'] = lambda v: v
    p = ctx.array('p', (3, 2), -1, 1)
    area = (p[1, 0] - p[0, 0]) * (p[2, 1] - p[0, 1]) - (p[2, 0] - p[0, 0]) * (p[1, 1] - p[0, 1])
    ctx.assume((area > 1e-3) | (area < -1e-3)) if ctx.symbolic else ctx.assume(abs(area) > 1e-3)
    n = 3 if t == 'TRI3' else 6
    ids = onp.array([4, 2, 0, 1, 5, 3])[:n]
    P = onp.zeros((6, 2), dtype=object if ctx.symbolic else float)
    mids = [(0, 1), (1, 2), (2, 0)]
    for k in range(n):
        for d in range(2):
            P[ids[k], d] = _item(p[k, d]) if k < 3 else _item((p[mids[k - 3][0], d] + p[mids[k - 3][1], d]) / 2.)
    out = onp.asarray(ns['transform_cells'](ids[None], P, t))
    ctx.check('one cell', out.shape == (1, n) and sorted(out[0].tolist()) == sorted(ids.tolist()))
    a, b, c = (P[int(k)] for k in out[0][:3])
    ctx.check('counter-clockwise', (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]) > 0)
    if t == 'TRI6':
        for k, (i, j) in enumerate(mids):
            for d in range(2):
                ctx.close('midside node between its corners', 2. * P[int(out[0][3 + k]), d], P[int(out[0][i]), d] + P[int(out[0][j]), d])


def _item(x):
    return x.item() if hasattr(x, 'item') else x


def units(tier):
    U = []
    th = tier == 'thorough'

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 4000}})
    every = 'every nodal value'
    for nx in (1, 2, 3)[:3 if th else 2]:
        add(f'stokes-{nx}', stokes, nx=nx, cost=2, bounds=f'{2 * nx} curved TRI6/TRI3 cells; {every}')
        for k in ('1var', '2vars'):
            add(f'hooke-{k}-{nx}', hooke2, kind=k, nx=nx, cost=2, bounds=f'{nx} distorted HEX8 cells; {every}')
        for t in ('TRI3', 'QUAD4', 'TRI6'):
            add(f'wave-{t}-{nx}', wave_eq, t=t, nx=nx, bounds=f'{t} mesh of {nx} squares; {every} of three instants, time step and speed')
        add(f'robin-{nx}', robin, nx=nx, bounds=f'{2 * nx} TRI3 cells; {every}')
        for t in ('TRI3', 'QUAD4'):
            add(f'coupled-{t}-{nx}', coupled, nx=nx, t=t, cost=2, bounds=f'{t} mesh of {nx} squares; {every}, every material constant and step')
        for part in ('air', 'laser'):
            add(f'heat-{part}-{nx}', heat, nx=nx, part=part, cost=2, bounds=f'{nx} HEX8 cells; every pair of temperatures' if part == 'air' else 'every switch')
    add('coupled-constants', coupled_constants)
    add('laser', laser_power, bounds='every position, beam axis and switch')
    add('phases', phases, cost=3, bounds='one HEX8 cell, every nodal temperature, each phase at every point')
    for f in ('shear', 'axial'):
        for ph in ('SOLID', 'POWDER', 'LIQUID'):
            add(f'plastic-{f}-{ph}', plastic, family=f, phase=ph, bounds='strains up to three yield strains along one deviator, any pressure, stress history and temperature step')
    add('plastic-update', plastic_update, cost=2, bounds='one cell, elastic displacements along one direction')
    for t in ('TET4', 'HEX8') + (('TET10',) if th else ()):
        add(f'norms-{t}', norms, t=t, nx=1, cost=2, bounds=f'{t} mesh of one cube; {every}')
    add('manufactured', manufactured, bounds='every point')
    add('moving-mesh', moving_mesh, bounds='every point and value')
    for a in ('stokes/example.py', 'wave/example.py', 'thermal_mechanical_full/example.py'):
        for t in ('TRI3', 'TRI6'):
            add(f'orient-{a.split("/")[0]}-{t}', orient, app=a, t=t, bounds='every triangle of area at least 5e-4')
    return U
