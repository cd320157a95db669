"""C26: the material laws of the application problems are physically consistent."""
import numpy as onp
import jax
import jax.numpy as np
from vf import apps, models as M, oracle as O, sym
from jax_fem import generate_mesh as G

ASSUMPTIONS = ['deformations with positive volume in the stated families (components of the displacement gradient up to 0.3)',
               'real arithmetic; fractional powers and logarithms are exact functions of their argument']

# name: (file, class, dimension, E, nu, plane strain)
NEO = {
    'arc-beam': ('applications/arc_length/hyperelastic_models.py', 'BeamHyperelastic', 2, 1e3, .3, False),
    'relax-beam': ('applications/dynamic_relaxation/beam2d_displacement.py', 'HyperElasticity', 2, 1e3, .3, False),
    'relax-beam-aux': ('applications/dynamic_relaxation/beam2d_displacement.py', 'HyperElasticityAux', 2, 1e3, .3, False),
    'relax-beam3d': ('applications/dynamic_relaxation/beam3d_displacement.py', 'HyperElasticity', 3, 10., .3, False),
    'cellular': ('applications/dynamic_relaxation/cellular_displacement.py', 'Elasticity', 2, 70e3, .3, True),
    'nodal': ('applications/nodal_stress/example.py', 'HyperElasticity', 3, 10., .3, False),
    'cube': ('applications/scalability/hyperelastic3d_common.py', 'HyperElasticityClassic', 3, 10., .3, False),
    'cube-rho': ('applications/scalability/hyperelastic3d_common.py', 'HyperElasticityInverse', 3, 10., .3, False),
}
HOOKE = {
    'serendipity': ('applications/serendipity/example.py', 'LinearElasticity', 70e3, .3),
    'waveguide': ('applications/explicit_dynamics/example.py', 'LinearElasticity', None, None),
}


def mesh(d):
    if d == 2:
        m = G.rectangle_mesh(1, 1, 1., 1.)
        return G.Mesh(m.points, m.cells_dict['quad'], 'QUAD4')
    m = G.box_mesh(1, 1, 1, 1., 1., 1.)
    return G.Mesh(m.points, m.cells_dict['hexahedron'], 'HEX8')


def law(name):
    f, cls, d = NEO[name][:3]
    return make(apps.definitions(f)[cls], d)


def make(cls, d, **kw):
    """The problem on one cell, with as many (empty) boundary sets as it has loads."""
    n = len(cls.get_surface_maps(object.__new__(cls))) if hasattr(cls, 'get_surface_maps') else 0
    return cls(mesh(d), vec=d, dim=d, ele_type='QUAD4' if d == 2 else 'HEX8',
               location_fns=[M.node_set([]) for _ in range(n)] or None, **kw)


def forks(ctx):
    return ctx.patch([(sym, 'FORK_ITE', True)] if ctx.symbolic else [])


def gradient(ctx, d, family):
    A = onp.array([[.13, -.2, .07], [.15, -.11, .24], [-.09, .18, .06]])[:d, :d]
    if family == 'full':
        return ctx.array('h', (d, d), -.3, .3)
    if family == 'diagonal':
        return np.asarray(ctx.array('h', (d,), -.3, .3))[:, None] * onp.eye(d)
    if family == 'triangular':
        n = d * (d + 1) // 2
        h = ctx.array('h', (n,), -.3, .3)
        k = iter(range(n))
        return np.stack([np.stack([h[next(k)] if j >= i else 0. * h[0] for j in range(d)]) for i in range(d)])
    if family == 'ray':
        return ctx.scalar('t', -1, 1) * A
    if family == 'shear':
        e = onp.zeros((d, d))
        e[0, d - 1] = 1.
        return A * .5 + ctx.scalar('g', -.3, .3) * e + ctx.scalar('s', -.2, .2) * onp.eye(d)


def cof(F):
    d = F.shape[0]
    if d == 2:
        return np.stack([np.stack([F[1, 1], -F[1, 0]]), np.stack([-F[0, 1], F[0, 0]])])
    return np.stack([np.cross(F[1], F[2]), np.cross(F[2], F[0]), np.cross(F[0], F[1])])


def det(F):
    return np.sum(F[0] * cof(F)[0])


def expected(F, E, nu):
    """(J P): the law multiplied by J, with the power of J as given."""
    d = F.shape[0]
    mu, kappa = E / (2. * (1. + nu)), E / (3. * (1. - 2. * nu))
    J, C = det(F), cof(F)
    I1 = np.sum(F * F)
    return mu * J ** (-2. / d) * (F * J - I1 / d * C) + kappa * (J - 1.) * C * J, J


def embed(F):
    z = 0. * F[0, 0]
    return np.stack([np.stack([F[0, 0], F[0, 1], z]), np.stack([F[1, 0], F[1, 1], z]), np.stack([z, z, z + 1.])])


def stress(ctx, law_of, family):
    """The law is the derivative of its energy, so P = mu J^(-2/d)(F - I1/d F^-T) + kappa (J - 1) J F^-T."""
    d, E, nu, plane = NEO[law_of][2:]
    pb = law(law_of)
    H = gradient(ctx, d, family)
    F = H + onp.eye(d)
    ctx.assume(det(F) > .05)
    fn = pb.get_tensor_map()
    k, args = 1., ()
    if law_of == 'cube-rho':
        k = ctx.scalar('rho', .05, 3)
        args = (k,)
        pb.set_params(np.ones((1, pb.fes[0].num_quads)) * k)
        ctx.close('stiffness field is handed over', pb.internal_vars[0], np.ones((1, pb.fes[0].num_quads)) * k)
    with forks(ctx):
        P = fn(H, *args)
    JP, J = expected(embed(F) if plane else F, E, nu)
    ctx.close('stress', P * J, k * JP[:d, :d], 1e-7)
    S = P @ F.T
    for i in range(d):
        for j in range(i):
            ctx.close(f'balance of angular momentum {i}{j}', S[i, j], S[j, i], 1e-7)


ROT = {2: [onp.array([[.6, -.8], [.8, .6]]), onp.array([[0., 1.], [-1., 0.]])],
       3: [onp.array([[1., 2., 2.], [2., 1., -2.], [-2., 2., -1.]]) / 3., onp.array([[0., 0., 1.], [1., 0., 0.], [0., 1., 0.]])]}


def objective(ctx, law_of, family, k):
    """A superposed rotation only rotates the stress."""
    d = NEO[law_of][2]
    fn = law(law_of).get_tensor_map()
    H = gradient(ctx, d, family)
    Q = ROT[d][k]
    if onp.linalg.det(Q) < 0:
        Q = -Q
    F = H + onp.eye(d)
    ctx.assume(det(F) > .05)
    args = (2.,) if law_of == 'cube-rho' else ()
    with forks(ctx):
        P, R = fn(H, *args), fn(Q @ F - onp.eye(d), *args)
    ctx.close('rotated stress', R, Q @ P, 1e-7)


def rest(ctx, law_of):
    """No stress at rest; Hooke's law for small strains; no stress under any plane rotation."""
    d, E, nu, plane = NEO[law_of][2:]
    fn = law(law_of).get_tensor_map()
    k = ctx.scalar('rho', .05, 3) if law_of == 'cube-rho' else 1.
    args = (k,) if law_of == 'cube-rho' else ()
    V = ctx.array('v', (d, d), -1, 1)
    P, dP = jax.jvp(lambda h: fn(h, *args), (np.zeros((d, d)),), (V,))
    mu, kappa = E / (2. * (1. + nu)), E / (3. * (1. - 2. * nu))
    m = 3 if plane else d
    eps = 0.5 * (V + V.T)
    tr = np.trace(eps)
    ctx.close('no stress at rest', P, np.zeros((d, d)))
    ctx.close('small strains', dP, k * (2 * mu * (eps - tr / m * onp.eye(d)) + kappa * tr * onp.eye(d)), 1e-7)
    c, s = ctx.scalar('c', -1, 1), ctx.scalar('s', -1, 1)
    ctx.assume(c * c + s * s == 1.) if ctx.symbolic else None
    if not ctx.symbolic:
        r = onp.hypot(c, s) + 1e-300
        c, s = c / r, s / r
    Q = onp.eye(d)
    Q = np.asarray(Q) * 1.
    Q = Q.at[0, 0].set(c).at[0, 1].set(-s).at[1, 0].set(s).at[1, 1].set(c)
    J = det(Q)
    P = fn(Q - onp.eye(d), *args)
    ctx.close('no stress under a rotation', P, np.zeros((d, d)), 1e-6)


def hooke(ctx, law_of):
    f, cls, E, nu = HOOKE[law_of]
    kw = {}
    if E is None:
        E, nu = ctx.scalar('E', .5, 100), ctx.scalar('nu', 0, .45)
        kw = {'additional_info': (E, nu)}
    pb = make(apps.definitions(f)[cls], 3, **kw)
    fn = pb.get_tensor_map()
    H = ctx.array('h', (3, 3), -1, 1)
    S = fn(H)
    eps = 0.5 * (H + H.T)
    mu = E / (2. * (1. + nu))
    ctx.close('stress is symmetric', S, S.T)
    # E-nu form: the strain follows from the stress by (1 + nu)/E S - nu/E tr S
    ctx.close('compliance', (1. + nu) * S - nu * np.trace(S) * onp.eye(3), E * eps)
    W = ctx.array('w', (3, 3), -1, 1)
    ctx.close('rotations carry no stress', fn(H + (W - W.T)), S)
    ctx.close('shear modulus', S[0, 1] * (1. + nu), E * eps[0, 1])
    return mu


def loads(ctx):
    """The loads of the beam problems: the stated traction, its exact opposite in the counter load."""
    ns = apps.definitions('applications/arc_length/beam2d_force.py')
    main = make(ns['BeamHyperelasticWithImperfection'], 2)
    counter = make(ns['BeamCounterLoad'], 2)
    u, x = ctx.array('u', (2,), -5, 5), ctx.array('x', (2,), -5, 50)
    imp, end = main.get_surface_maps()
    c = counter.get_surface_maps()
    ctx.close('imperfection load', imp(u, x), onp.array([0., 1e-5]), 1e-13)
    ctx.close('end traction', end(u, x), onp.array([ns['END_TRACTION'], 0.]))
    ctx.check('one counter load', len(c) == 1)
    ctx.close('counter load cancels the end traction', c[0](u, x), -end(u, x))
    H = ctx.array('h', (2, 2), -1, 1)
    ctx.close('counter problem has no stiffness', counter.get_tensor_map()(H), np.zeros((2, 2)))
    ns = apps.definitions('applications/arc_length/beam2d_displacement.py')
    pb = make(ns['BeamHyperelasticWithImperfection'], 2)
    (imp,) = pb.get_surface_maps()
    ctx.close('imperfection load', imp(u, x), onp.array([0., 1e-5]), 1e-13)
    ns = apps.definitions('applications/scalability/hyperelastic3d_common.py')
    for cls in ('HyperElasticityClassic', 'HyperElasticityInverse'):
        pb = make(ns[cls], 3)
        (lat,) = pb.get_surface_maps()
        ctx.close('lateral load', lat(np.concatenate([u, u[:1]]), np.concatenate([x, x[:1]])), onp.array([0., ns['T_LATERAL'], 0.]))


def nodal(ctx):
    """Gradients recovered at the nodes are those of the interpolated field (one point per node, in any order)."""
    ns = apps.definitions('applications/nodal_stress/example.py')
    p, c = O.one_cell('HEX8')
    p = onp.asarray(p, dtype=float)
    p = p @ onp.array([[1.1, .2, -.1], [.1, .9, .15], [-.2, .1, 1.2]]) + .04 * onp.sin(3. * p + onp.arange(3))
    pb = M.Bare(M.Mesh(p, c, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8')
    g = onp.asarray(ns['get_shape_grads_physical'](pb))
    E, ref = O.Element('HEX8'), O.ref_nodes('HEX8')
    u = ctx.array('u', (8, 3), -1, 1)
    nodes = onp.asarray(c)[0]
    want = []
    for k in range(8):
        dN = E.dN(ref[k])
        want.append(onp.asarray(dN @ onp.linalg.inv(p[nodes].T @ dN)))
    order = [int(onp.argmin([onp.abs(g[0, k] - w).max() for w in want])) for k in range(8)]
    ctx.check('one point per node', sorted(order) == list(range(8)))
    for k in range(8):
        ctx.close(f'gradient at point {k}', np.einsum('ni,nj->ij', u[nodes], g[0, k]), np.einsum('ni,nj->ij', u[nodes], want[order[k]]))


# ---------------------------------------------------------- updated Lagrangian
UL = 'applications/updated_lagrangian/example.py'
BOX = onp.array([.5, .2, .3])


def ul_problem(ns, cells=1):
    m = G.box_mesh(cells, 1, 1, 1., .4, .6)
    pts = onp.asarray(m.points) - onp.array([0., .2, .3])
    tags = ns['boundary_node_tags'](pts)
    pb = ns['UpdatedLagrangian'](G.Mesh(pts, m.cells_dict['hexahedron'], 'HEX8'), vec=3, dim=3, ele_type='HEX8',
                                 dirichlet_bc_info=ns['build_dirichlet_bc_by_tag'](tags), additional_info=(tags,))
    return pb, pts, tags


def wave(pts, k):
    r = onp.random.RandomState(k)
    return .12 * onp.sin(pts @ r.uniform(-2, 2, (3, 3)) + r.uniform(-2, 2, 3))


def ul_push(ctx, cells):
    """F_prev accumulates to the total deformation gradient, whatever the steps."""
    ns = apps.definitions(UL)
    pb, X, _ = ul_problem(ns, cells)
    fe = pb.fes[0]
    G0 = onp.asarray(fe.get_shape_grads(X)[0])
    C = onp.asarray(fe.cells)
    I = onp.eye(3)
    total = lambda u: np.einsum('cni,cqnj->cqij', np.asarray(u)[C], G0) + I
    u1 = wave(X, 1)
    F = np.broadcast_to(I, G0.shape[:2] + (3, 3))
    F = ns['push_F_prev'](fe, X, u1, F)
    ctx.close('first step', F, total(u1))
    u2 = wave(X, 2)
    F = ns['push_F_prev'](fe, X + u1, u2, F)
    d = ctx.array('d', X.shape, -.2, .2)
    ctx.close('third step', ns['push_F_prev'](fe, X + u1 + u2, d, F), total(u1 + u2 + d))


def ul_force(ctx, family):
    """The internal force is that of the neo-Hookean law on the undeformed body, whatever the frozen configuration."""
    ns = apps.definitions(UL)
    pb, X, _ = ul_problem(ns)
    fe = pb.fes[0]
    C = onp.asarray(fe.cells)
    out = fe.get_shape_grads(X)
    G0, JxW = onp.asarray(out[0]), onp.asarray(out[1])
    u1 = wave(X, 1)
    F1 = onp.einsum('cni,cqnj->cqij', u1[C], G0) + onp.eye(3)
    if family == 'nodal':
        d = np.asarray(wave(X, 3)).at[5, 1].add(ctx.scalar('d', -.1, .1))
    else:
        t = ctx.scalar('t', -1, 1)
        d = t * wave(X, 3)
    rho = ctx.scalar('rho', .02, 1)
    pb.set_params({'points': X + u1, 'lam': .5, 'lam_prev': .25, 'F_prev': np.asarray(F1), 'rho': np.ones(1) * rho})
    got = pb.compute_residual([d])[0]
    F = np.einsum('ni,qnj->qij', (u1 + d)[C[0]], G0[0]) + onp.eye(3)
    want = [[0.] * 3 for _ in range(8)]
    mu, lam = ns['MU'], ns['LAMBDA']
    for q in range(G0.shape[1]):
        Fq = F[q]
        J, K = det(Fq), cof(Fq)
        FinvT = K / J
        P = rho ** 3 * (mu * (Fq - FinvT) + lam * np.log(J) * FinvT)
        for n in range(8):
            for i in range(3):
                want[n][i] = want[n][i] + np.sum(P[i] * G0[0, q, n]) * JxW[0, q]
    want = np.stack([np.stack(w) for w in want])
    ctx.close('internal force', got[C[0]], want, 1e-7)


def ul_targets(ctx):
    """Prescribed increments are differences of the total end-section motion."""
    ns = apps.definitions(UL)
    pb, X, tags = ul_problem(ns)
    a, b = ctx.scalar('lam', 0, 1), ctx.scalar('prev', 0, 1)
    pb.set_params({'points': X, 'lam': a, 'lam_prev': b, 'F_prev': np.broadcast_to(onp.eye(3), (1, 8, 3, 3))})
    fe = pb.fes[0]
    seen = set()

    def target(l, x):
        c, s = np.cos(l * np.pi), np.sin(l * np.pi)
        return [l * ns['RIGHT_PULL'], c * x[1] - s * x[2] - x[1], s * x[1] + c * x[2] - x[2]]
    for nodes, vec, vals in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
        for k, (n, v) in enumerate(zip(onp.asarray(nodes), onp.asarray(vec))):
            x = X[n]
            seen.add((int(n), int(v)))
            want = target(a, x)[v] - target(b, x)[v] if x[0] > .5 else 0.
            ctx.close('prescribed increment', vals[k], want)
    ctx.check('both ends, all components', seen == {(n, v) for n in range(8) for v in range(3)})
    ctx.close('default density', pb.internal_vars[1], np.ones((1, 8)))


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 2000}})
    for nm, v in NEO.items():
        d = v[2]
        fams = ('full', 'diagonal', 'ray') if d == 2 else ('diagonal', 'triangular', 'ray', 'shear') + (('full',) if tier == 'thorough' else ())
        for f in fams:
            add(f'stress-{nm}-{f}', stress, law_of=nm, family=f, cost=3 if d == 3 else 1, bounds=f'{d}x{d} displacement gradients: {f}')
        for k in (0, 1):
            add(f'objective-{nm}-{k}', objective, law_of=nm, family='full' if d == 2 else 'diagonal', k=k, cost=2, bounds='one rotation; all gradients of the family')
        add(f'rest-{nm}', rest, law_of=nm, bounds='every small strain; every plane rotation')
    for nm in HOOKE:
        add(f'hooke-{nm}', hooke, law_of=nm, bounds='every gradient' + ('' if HOOKE[nm][2] else ', modulus and Poisson number'))
    add('loads', loads, bounds='every displacement and position')
    add('nodal', nodal, bounds='one distorted cell, every nodal displacement')
    for c in (1, 2):
        add(f'ul-push-{c}', ul_push, cells=c, bounds=f'{c} cells, three steps, every last increment')
    for f in ('ray', 'nodal'):
        add(f'ul-force-{f}', ul_force, family=f, cost=3, bounds='one cell, a deformed frozen configuration, one-parameter increments, every density')
    add('ul-targets', ul_targets, bounds='every pair of load levels')
    return U
