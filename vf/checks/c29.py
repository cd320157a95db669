"""C29: explicit and implicit time stepping of the applications: lumped equations and conserved quantities."""
import numpy as onp
import jax
import jax.numpy as np
from vf import apps, models as M, oracle as O, sym
from vf.jaxsym import NSProxy
from vf.checks.c27 import at, galerkin, mesh
from jax_fem import generate_mesh as G

ASSUMPTIONS = ['shape functions and quadrature are those of C01 and C02',
               'cosines, arctangents and angles are uninterpreted functions of their arguments with their ranges']
DYN = 'applications/explicit_dynamics/example.py'
FEMX, FEMI = 'applications/dendrite/explicit_fem/example.py', 'applications/dendrite/implicit_fem/example.py'


# ------------------------------------------------------------- wave guide
class Captured(Exception):
    pass


def waveguide(ctx, n):
    """Run the script's set-up on a small mesh up to its time loop: (step, initial state, mesh, dt)."""
    ns = apps.definitions(DYN)
    size = []

    def small(Nx, Ny, Nz, Lx, Ly, Lz):
        size.extend([Lx, Ly, Lz])
        return G.box_mesh(*n, Lx, Ly, Lz)

    def scan(f, init, xs=None, length=None, **kw):
        got.update(f=f, init=init, length=length)
        raise Captured()
    got = {}
    ns['box_mesh'] = small
    ns['jax'] = NSProxy(jax, {'lax': NSProxy(jax.lax, {'scan': scan})})
    try:
        ns['main']()
    except Captured:
        pass
    if 'f' not in got:
        ctx.cut('the time loop is not a scan')
    b = G.box_mesh(*n, *size)
    return got, M.Mesh(onp.asarray(b.points), b.cells_dict['hexahedron'], ele_type='HEX8'), size


def guide_model(m, size):
    bare = M.Bare(m, vec=3, dim=3, ele_type='HEX8').fes[0]
    X = onp.asarray(bare.points)
    fixed = onp.stack([onp.isclose(X[:, 0], 0.), onp.isclose(X[:, 1], 0.) | onp.isclose(X[:, 1], size[1]),
                       onp.isclose(X[:, 2], 0.) | onp.isclose(X[:, 2], size[2])], axis=1)
    N, w = onp.asarray(bare.shape_vals), onp.asarray(bare.JxW)
    mass = onp.zeros(len(X))
    for c, nodes in enumerate(onp.asarray(bare.cells)):
        for k, node in enumerate(nodes):
            mass[node] += (N[:, k] * w[c]).sum()
    lam, mu = .3 / (1.3 * .4), 1 / 2.6

    def force(u):
        def s(c, q):
            g = at(bare, u, c, q)[1]
            return lam * np.trace(g) * onp.eye(3) + mu * (g + g.T), None
        return galerkin(bare, s)
    return X, fixed, mass, force


def time_step(got, X):
    """The script's step size, from its documented rule."""
    length = got['length']
    lam, mu = .3 / (1.3 * .4), 1 / 2.6
    c = onp.sqrt(lam + 2 * mu)
    return (2 * onp.pi / (c * onp.pi / 2.)) / length


def leapfrog(ctx, n):
    """u+ = 2u - u- - dt^2 M^-1 K u with lumped mass; held components stay; the discrete energy is conserved."""
    got, m, size = waveguide(ctx, n)
    X, fixed, mass, force = guide_model(m, size)
    dt = time_step(got, X)
    ctx.close('lumped mass is the mass of the body', mass.sum(), onp.prod(size))
    free = onp.where(fixed, 0., 1.)
    a, b = (ctx.array(k, X.shape, -1, 1) * free for k in ('a', 'b'))
    (b2, c), out = got['f']((a, b), None)
    ctx.close('the present becomes the past', b2, b)
    ctx.close('the new state is recorded', out, c)
    Kb = force(b)
    want = (2. * b - a - dt * dt * Kb / mass[:, None]) * free
    ctx.close('leapfrog step', c, want)
    ma = onp.repeat(mass[:, None], 3, axis=1)
    e = lambda p, q, Kq: .5 * np.sum(ma * (q - p) ** 2) / dt ** 2 + .5 * np.sum(p * Kq)
    ctx.close('discrete energy', 1e2 * e(a, b, Kb), 1e2 * (.5 * np.sum(ma * (c - b) ** 2) / dt ** 2 + .5 * np.sum(c * Kb)), 1e-6)


def guide_start(ctx, n):
    """Starts from rest in the first longitudinal mode; the fictitious state is second order."""
    got, m, size = waveguide(ctx, n)
    X, fixed, mass, force = guide_model(m, size)
    dt = time_step(got, X)
    prev, u0 = (onp.asarray(v) for v in got['init'])
    mode = onp.zeros(X.shape)
    mode[:, 0] = 1e-3 * onp.sin(onp.pi / 2 * X[:, 0] / size[0])
    ctx.close('initial mode', 1e3 * u0, 1e3 * mode)
    acc = -onp.asarray(force(u0)) / mass[:, None]
    ctx.close('state before the start', 1e3 * prev, 1e3 * onp.where(fixed, 0., u0 + .5 * dt ** 2 * acc))
    # any scaling of the start is stepped linearly
    s = ctx.scalar('s', -1, 1)
    (_, c), _ = got['f']((1e3 * s * prev, 1e3 * s * u0), None)
    (_, d), _ = got['f']((1e3 * prev, 1e3 * u0), None)
    ctx.close('linear', c, s * d)
    ctx.check('time step below the crossing time of a cell of the guide', dt * onp.sqrt(.3 / (1.3 * .4) + 2 / 2.6) <= 1. / 80)


# --------------------------------------------------------------- dendrites
def constants(ctx, J):
    c = {k: ctx.scalar(k, .2, 2) for k in ('K', 'T_eq', 'a', 'alpha', 'delta', 'dt', 'eps_bar', 'gamma', 'tau')}
    return {**c, 'J': J}


def dendrite_terms(c, g, p, T, chi, flat):
    """(flux, source) of the phase equation with explicit coefficients from (g, p, T)."""
    th = 0. if flat else np.arctan2(g[1], g[0])
    phi = c['J'] * (th - onp.pi / 2)
    e = c['eps_bar'] * (1. + c['delta'] * np.cos(phi))
    de = -c['eps_bar'] * c['delta'] * c['J'] * np.sin(phi)
    m = c['alpha'] / onp.pi * np.arctan(c['gamma'] * (c['T_eq'] - T))
    return (lambda h: np.stack([np.stack([e * e * h[0] - e * de * h[1], e * e * h[1] + e * de * h[0]])])), \
        -p * (1. - p) * (p - .5 + m) - c['a'] * p * (1. - p) * chi


def fields(ctx, n, family):
    """Phase fields without stationary points, or none at all."""
    if family == 'flat':
        return np.zeros((n, 1))                             # (a uniform non-zero field has rounding noise for a gradient)
    return ctx.array('p', (n, 1), 0, 1)


def prime(ctx, fe, p, family):
    """Keep away from vanishing gradients (the angle is not defined there)."""
    for c in range(len(onp.asarray(fe.cells))):
        for q in range(fe.num_quads):
            g = at(fe, p, c, q)[1][0]
            if family != 'flat':
                ctx.assume((g[0] > 1e-3) if ctx.symbolic else bool(g[0] > 1e-3))


def explicit(ctx, t, nx, family, J):
    ns = apps.definitions(FEMX)
    m = mesh(t, nx)
    c = constants(ctx, J)
    num = {**c, 'dt': .3, 'tau': .7} if ctx.symbolic else {**c, 'dt': .3, 'tau': .7}
    mk = lambda cls: ns[cls](mesh=[m, m], vec=[1, 1], dim=2, ele_type=[t, t], additional_info=[num])
    pm, pf = mk('SolidificationMass'), mk('SolidificationForce')
    fe = pf.fes[0]
    n, N = fe.num_total_nodes, len(onp.asarray(fe.cells))
    p, T = fields(ctx, n, family), ctx.array('T', (n, 1), 0, 1)
    if family == 'rising':
        p = onp.asarray(fe.points)[:, :1] * 2. + .2 * p
    chi = ctx.array('chi', (N,), -.5, .5)
    prime(ctx, fe, p, family)
    new_p, new_T = ns['get_explicit_dynamics'](pm, pf)([p, T], chi)
    c = num
    w, Nv = onp.asarray(fe.JxW), onp.asarray(fe.shape_vals)
    lump = onp.zeros((n, 1))
    for e, nodes in enumerate(onp.asarray(fe.cells)):
        for k, node in enumerate(nodes):
            lump[node, 0] += (Nv[:, k] * w[e]).sum()

    def phase(e, q):
        (v, g), tt = at(fe, p, e, q), at(fe, T, e, q)[0][0]
        flux, src = dendrite_terms(c, g[0], v[0], tt, chi[e], family == 'flat')
        return flux(g[0]), np.stack([src])
    r = galerkin(fe, phase)
    ctx.close('phase field step', new_p, p - c['dt'] / c['tau'] * r / lump)
    heat = galerkin(fe, lambda e, q: (at(fe, T, e, q)[1], None))
    ctx.close('temperature step: diffusion and the latent heat of the whole phase change', new_T, T - c['dt'] * heat / lump + c['K'] * (new_p - p))
    ctx.close('heat and latent heat are conserved', np.sum(lump * (new_T - c['K'] * new_p)), np.sum(lump * (T - c['K'] * p)))


def implicit(ctx, t, nx, family, J):
    ns = apps.definitions(FEMI)
    m = mesh(t, nx)
    c = constants(ctx, J)
    pb = ns['Solidification'](mesh=[m, m], vec=[1, 1], dim=2, ele_type=[t, t], additional_info=[c])
    fe = pb.fes[0]
    n, N = fe.num_total_nodes, len(onp.asarray(fe.cells))
    o, S = fields(ctx, n, family), ctx.array('S', (n, 1), 0, 1)
    if family == 'rising':
        o = onp.asarray(fe.points)[:, :1] * 2. + .2 * o
    p, T = ctx.array('pn', (n, 1), 0, 1), ctx.array('Tn', (n, 1), 0, 1)
    chi = ctx.array('chi', (N,), -.5, .5)
    prime(ctx, fe, o, family)
    pb.set_params([o, S, chi])
    rp, rT = pb.compute_residual([p, T])

    def phase(e, q):
        (v, g), (vo, go), s = at(fe, p, e, q), at(fe, o, e, q), at(fe, S, e, q)[0][0]
        flux, src = dendrite_terms(c, go[0], vo[0], s, chi[e], family == 'flat')
        return flux(g[0]) * c['dt'], np.stack([src * c['dt'] + c['tau'] * (v[0] - vo[0])])

    def heat(e, q):
        (v, g), s = at(fe, T, e, q), at(fe, S, e, q)[0]
        return g * c['dt'], v - s - c['K'] * (at(fe, p, e, q)[0] - at(fe, o, e, q)[0])
    ctx.close('phase field equation', rp * c['dt'], galerkin(fe, phase))
    ctx.close('heat equation', rT * c['dt'], galerkin(fe, heat))
    stored = galerkin(fe, lambda e, q: (None, at(fe, T, e, q)[0] - at(fe, S, e, q)[0] - c['K'] * (at(fe, p, e, q)[0] - at(fe, o, e, q)[0])))
    ctx.close('a solved step conserves heat and latent heat', np.sum(rT) * c['dt'], np.sum(stored))


def angle(ctx, which):
    """The angle is the four-quadrant one; without a direction it and its forward derivative are zero."""
    ns = apps.definitions(which)
    y, x = ctx.scalar('y', -1, 1), ctx.scalar('x', .01, 1)
    ctx.close('angle', ns['safe_arctan2'](y, x), np.arctan2(y, x))
    dy, dx = ctx.scalar('dy', -1, 1), ctx.scalar('dx', -1, 1)
    v, d = jax.jvp(ns['safe_arctan2'], (0. * y, 0. * x), (dy, dx)) if not ctx.symbolic else jax.jvp(ns['safe_arctan2'], (np.zeros(()), np.zeros(())), (dy, dx))
    ctx.close('no direction', v, 0.)
    ctx.close('no derivative there', d, 0.)


def units(tier):
    U = []
    th = tier == 'thorough'

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 2000}})
    for n in [(1, 1, 1), (2, 1, 1), (2, 2, 1)] + ([(2, 2, 2)] if th else []):
        s = 'x'.join(map(str, n))
        add(f'leapfrog-{s}', leapfrog, n=n, cost=2, bounds=f'{s} HEX8 cells, every pair of consecutive states')
        add(f'guide-start-{s}', guide_start, n=n, bounds=f'{s} HEX8 cells')
    for t in ('QUAD4', 'TRI3'):
        for nx in (1, 2):
            for f in ('rising', 'flat'):
                for J in (6,) if not th else (6, 4):
                    add(f'explicit-{t}-{nx}-{f}-{J}', explicit, t=t, nx=nx, family=f, J=J, cost=3, bounds=f'{t} mesh of {nx} squares; {f} phase fields, every temperature, noise and constant (time step and tau fixed)')
                    add(f'implicit-{t}-{nx}-{f}-{J}', implicit, t=t, nx=nx, family=f, J=J, cost=3, bounds=f'{t} mesh of {nx} squares; {f} old phase fields, every new one, temperature, noise and constant')
    for w in (FEMX, FEMI):
        add(f'angle-{w.split("/")[2]}', angle, which=w, bounds='every direction to the right, and none')
    return U
