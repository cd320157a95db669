"""C24: spectral functions of the phase-field application and the split they define."""
import ast
import numpy as onp
import jax
import jax.numpy as np
from vf import apps, jaxsym as J, sym
from jax_fem import generate_mesh as G
from applications.phase_field_fracture import eigen

ASSUMPTIONS = ['strains with eigenvectors in the stated bases (every basis of the list; eigenvalues free)',
               'the numerical eigensolver returns the exact eigenpairs (stand-in); the 1e-8 noise of the default stress option is set to zero in the encoding',
               'real arithmetic']
EX = 'applications/phase_field_fracture/example.py'


def rot(n, *angles):
    q = onp.eye(n)
    for k, (i, j) in zip(range(len(angles)), [(0, 1), (1, 2), (0, 2)]):
        g = onp.eye(n)
        c, s = onp.cos(angles[k]), onp.sin(angles[k])
        g[i, i] = g[j, j] = c
        g[i, j], g[j, i] = -s, s
        q = q @ g
    return q


BASES = {2: [rot(2, .7), onp.eye(2), rot(2, -2.1)], 3: [rot(3, .6, 1.1, -.4), rot(3, 2., -.3, .9), onp.eye(3)]}


def example(option=1):
    """The definitions of the phase-field script, without its simulation."""
    second = None
    if option == 2:
        class Second(ast.NodeTransformer):
            def visit_Assign(self, n):
                if isinstance(n.value, ast.Name) and n.value.id == 'stress_fn_opt1':
                    n.value.id = 'stress_fn_opt2'
                return n
        second = Second()
    return apps.definitions(EX, second)


def spectrum(ctx, n, kind, lo=-1., hi=1., gap=.05):
    """Eigenvalues, ascending and apart (free gaps), or repeated (the same symbol)."""
    v = [ctx.scalar('l0', lo, hi)]
    for i in range(1, n):
        same = kind == 'all' or (kind == 'low' and i == 1) or (kind == 'high' and i == n - 1)
        v.append(v[-1] if same else v[-1] + ctx.scalar(f'gap{i}', gap, hi))
    return v


def matrix(ctx, q, l):
    if ctx.symbolic:
        J.EIGENBASES[:] = [q]
    n = len(l)
    x = sum(l[a] * onp.outer(q[:, a], q[:, a]) for a in range(n))
    return 0.5 * (x + x.T)


def build(fn, jvp=True):
    return eigen.get_eigen_f_custom(fn) if jvp else eigen.get_eigen_f_jax(fn)


def poly(ctx, degree):
    c = [ctx.scalar(f'c{k}', -2, 2) for k in range(degree + 1)]
    return c, lambda x: sum(ck * x ** k for k, ck in enumerate(c))


def mpow(x, k, n):
    r = np.eye(n)
    for _ in range(k):
        r = r @ x
    return r


def forks(ctx):
    return ctx.patch([(sym, 'FORK_ITE', True)] if ctx.symbolic else [])


def value(ctx, n, kind, basis, degree=3):
    q = BASES[n][basis]
    x = matrix(ctx, q, spectrum(ctx, n, kind))
    c, fn = poly(ctx, degree)
    want = sum(ck * mpow(x, k, n) for k, ck in enumerate(c))
    ctx.close('matrix function', build(fn)(x), want)
    ctx.close('matrix function, plain version', build(fn, False)(x), want)


def derivative(ctx, n, kind, basis, degree=3):
    q = BASES[n][basis]
    x = matrix(ctx, q, spectrum(ctx, n, kind))
    c, fn = poly(ctx, degree)
    v = ctx.array('v', (n, n))
    y, dy = jax.jvp(build(fn), (x,), (v,))
    ctx.close('value next to the derivative', y, sum(ck * mpow(x, k, n) for k, ck in enumerate(c)))
    s = 0.5 * (v + v.T)
    want = sum((ck * sum(mpow(x, i, n) @ s @ mpow(x, k - 1 - i, n) for i in range(k)) for k, ck in enumerate(c) if k), np.zeros((n, n)))
    ctx.close('directional derivative', dy, want, 1e-7)


def pull_back(ctx, n, kind, basis):
    """The derivative is self-adjoint, so reverse mode gives the same map."""
    q = BASES[n][basis]
    x = matrix(ctx, q, spectrum(ctx, n, kind))
    c, fn = poly(ctx, 2)
    w = ctx.array('w', (n, n))
    _, vjp = jax.vjp(build(fn), x)
    (g,) = vjp(w)
    s = 0.5 * (w + w.T)
    ctx.close('pull-back', g, c[1] * s + c[2] * (x @ s + s @ x), 1e-7)


def split(ctx, n, kind, basis):
    """The non-smooth degraded split used for the stress."""
    ns = example()
    q = BASES[n][basis]
    l = spectrum(ctx, n, kind)
    for e in l:
        ctx.assume(abs(e) > 1e-3)
    x = matrix(ctx, q, l)
    gd = ctx.scalar('g', 0, 1)
    plus, minus = ns['safe_plus'], ns['safe_minus']

    def fn(e):
        return gd * plus(e) + minus(e)
    f = [gd * e if bool(e > 0) else e for e in l]
    df = [gd if bool(e > 0) else 1. + 0. * gd for e in l]
    v = ctx.array('v', (n, n))
    with forks(ctx):
        y, dy = jax.jvp(build(fn), (x,), (v,))
    ctx.close('split', y, sum(f[a] * onp.outer(q[:, a], q[:, a]) for a in range(n)))
    # derivative in the eigenbasis: divided differences
    s = q.T @ (0.5 * (v + v.T)) @ q
    d = q.T @ dy @ q
    for a in range(n):
        for b in range(n):
            if l[a] is l[b]:
                ctx.close(f'derivative of the split {a}{b}', d[a, b], df[a] * s[a, b], 1e-7)
            else:
                ctx.close(f'derivative of the split {a}{b}', d[a, b] * (l[a] - l[b]), (f[a] - f[b]) * s[a, b], 1e-7)


def stress(ctx, n, kind, basis, option):
    ns = example(option)
    q = BASES[n][basis]
    l = spectrum(ctx, n, kind)
    tr = sum(l)
    for e in l + [tr]:
        ctx.assume(abs(e) > 1e-3)
    x = matrix(ctx, q, l)
    w = ctx.scalar('w', -1, 1)
    spin = onp.zeros((n, n))
    spin[0, 1], spin[1, 0] = 1., -1.
    ug = x + w * spin
    d = ctx.scalar('d', 0, 1)
    m = G.rectangle_mesh(1, 1, 1., 1.) if n == 2 else G.box_mesh(1, 1, 1, 1., 1., 1.)
    pb = ns['Elasticity'](G.Mesh(m.points, m.cells_dict['quad' if n == 2 else 'hexahedron'], 'QUAD4' if n == 2 else 'HEX8'), vec=n, dim=n, ele_type='QUAD4' if n == 2 else 'HEX8')
    E, nu = 210., .3
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    gd = (1 - d) ** 2
    zero = [(jax.random, 'uniform', lambda key, shape=(), *a, **k: onp.zeros(shape))] if ctx.symbolic else []
    with ctx.patch(zero), forks(ctx):
        psi, _ = pb.get_maps()
        energy = psi(ug)
        sig = pb.get_tensor_map()(ug, np.array([d]) if not ctx.symbolic else d[None])
    pos = [bool(e > 0) for e in l]
    trp = bool(tr > 0)
    ctx.close('tensile energy', energy, lam / 2 * (tr ** 2 if trp else 0.) + mu * sum([e ** 2 for e, p in zip(l, pos) if p], 0. * w), 1e-7)
    want = lam * (gd if trp else 1.) * tr * onp.eye(n) + sum(2 * mu * (gd if p else 1.) * e * onp.outer(q[:, a], q[:, a]) for a, (e, p) in enumerate(zip(l, pos)))
    ctx.close('degraded stress', sig, want, 1e-4)


def history(ctx, basis):
    """The crack driving force never decreases and belongs to the right point."""
    ns = example()
    q = BASES[2][basis]
    m = G.rectangle_mesh(2, 1, 1., 1.)
    pb = ns['Elasticity'](G.Mesh(m.points, m.cells_dict['quad'], 'QUAD4'), vec=2, dim=2, ele_type='QUAD4')
    nq = pb.fes[0].num_quads
    # affine displacement: the same strain in every point
    l = spectrum(ctx, 2, 'distinct')
    x = matrix(ctx, q, l)
    sol = onp.asarray(m.points)[:, :2] @ x.T
    old = ctx.array('old', (2, nq), 0, 300)
    h = pb.compute_history(sol, old)
    ctx.check('one value per point', tuple(h.shape) == (2, nq))
    psi = pb.get_maps()[0](x)
    for c in range(2):
        for k in range(nq):
            ctx.check(f'irreversible {c}{k}', h[c, k] >= old[c, k] - 1e-9)
            ctx.check(f'at least the present energy {c}{k}', h[c, k] >= psi - 1e-6)
            ctx.check(f'one of the two {c}{k}', (h[c, k] <= old[c, k] + 1e-9) | (h[c, k] <= psi + 1e-6))


def traction(ctx, basis):
    """Force on the top edge: the integral of the degraded stress."""
    ns = example()
    q = BASES[2][basis]
    m = G.rectangle_mesh(2, 2, 1.5, 1.)
    pb = ns['Elasticity'](G.Mesh(m.points, m.cells_dict['quad'], 'QUAD4'), vec=2, dim=2, ele_type='QUAD4')
    n1, p1 = ctx.scalar('n', .01, 1), ctx.scalar('p', .01, 1)
    l = [-n1, n1 + p1]                 # one of each sign, trace positive
    x = matrix(ctx, q, l)
    pts = onp.asarray(m.points)[:, :2]
    d0, d1 = ctx.scalar('d0', 0, .5), ctx.scalar('d1', 0, .3)
    sol_d = d0 + d1 * onp.asarray(pts[:, :1])
    zero = [(jax.random, 'uniform', lambda key, shape=(), *a, **k: onp.zeros(shape))] if ctx.symbolic else []
    with ctx.patch(zero), forks(ctx):
        f = pb.compute_traction(lambda p: np.isclose(p[1], 1., atol=1e-5), pts @ x.T, sol_d)
    E, nu = 210., .3
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
    # integral over the edge of length 1.5 of (1 - d0 - d1 s)^2
    a = 1. - d0
    g = a * a * 1.5 - a * d1 * 1.5 ** 2 + d1 * d1 * 1.5 ** 3 / 3.
    N = [onp.outer(q[:, k], q[:, k])[:, 1] for k in range(2)]
    want = g * (lam * p1 * onp.array([0., 1.]) + 2 * mu * (n1 + p1) * N[1]) + 1.5 * 2 * mu * (-n1) * N[0]
    ctx.close('force on the edge', f, want, 1e-5)


def crack(ctx):
    """Weak form of the crack field: surface density and driving force."""
    ns = example()
    m = G.rectangle_mesh(1, 1, 1., 1.)
    pb = ns['PhaseField'](G.Mesh(m.points, m.cells_dict['quad'], 'QUAD4'), vec=1, dim=2, ele_type='QUAD4')
    g, d, h = ctx.array('g', (1, 2)), ctx.array('d', (1,), 0, 1), ctx.scalar('h', 0, 10)
    gc, l = 2.7e-3, .0075
    ctx.close('gradient term', pb.get_tensor_map()(g, h), gc * l * g)
    ctx.close('local term', pb.get_mass_map()(d, onp.zeros(2), h), gc / l * d - 2. * (1. - d) * h)
    hist = ctx.array('hist', (1, pb.fes[0].num_quads), 0, 10)
    pb.set_params(hist)
    ctx.check('one internal field', len(pb.internal_vars) == 1)
    ctx.close('history is used point by point', pb.internal_vars[0], hist)


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 4000}})
    many = range(3 if tier == 'thorough' else 2)
    for n in (2, 3):
        for kind in ('distinct', 'low', 'high', 'all')[:4 if n == 3 else 2]:
            for b in many:
                t = f'{n}d-{kind}-{b}'
                add('value-' + t, value, n=n, kind=kind, basis=b, bounds=f'{n}x{n}, {kind} eigenvalues, all cubics')
                add('derivative-' + t, derivative, n=n, kind=kind, basis=b, bounds=f'{n}x{n}, {kind} eigenvalues, all cubics, all directions', cost=3)
            add(f'reverse-{n}d-{kind}', pull_back, n=n, kind=kind, basis=0, bounds='all quadratics, all cotangents', cost=2)
            add(f'split-{n}d-{kind}', split, n=n, kind=kind, basis=0, bounds='all signs and degradations', cost=3)
        for option in (1, 2):
            for kind in ('distinct',) if option == 1 else ('distinct', 'low', 'all'):
                add(f'stress-{n}d-{kind}-{option}', stress, n=n, kind=kind, basis=0, option=option, bounds='all strains of the basis, spins, damage', cost=3)
    add('history', history, basis=0, bounds='two cells, every affine displacement of the basis, all old values', cost=2)
    add('traction', traction, basis=0, bounds='four cells, mixed-sign strains, linear damage', cost=2)
    add('crack', crack, bounds='all gradients, damage, driving forces')
    return U
