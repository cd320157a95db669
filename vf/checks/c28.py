"""C28: element birth: quiet cells, faces and points take no part, and the active surface follows every history."""
import numpy as onp
import jax.numpy as np
from vf import apps, models as M, oracle as O
from vf.checks.c27 import at, galerkin, face_load, face_at

ASSUMPTIONS = ['shape functions and quadrature are those of C01 and C02', 'activity patterns are decided by path splitting']
FILE = 'applications/quiet_element/example.py'


def problem(ns, n, scale=1., k=0):
    p, c = O.grid_mesh('HEX8', *n)
    p, c = onp.asarray(p, dtype=float), onp.asarray(c)
    if k:                                                   # another numbering of nodes and cells
        r = onp.random.RandomState(k)
        q = r.permutation(len(p))
        inv = onp.argsort(q)
        p, c = p[q], inv[c][r.permutation(len(c))]
    T0 = ns['T0']
    return ns['Thermal'](M.Mesh(scale * p, c, ele_type='HEX8'), vec=1, dim=3, dirichlet_bc_info=[[lambda x: False], [0], [lambda x: T0]],
                         location_fns=[lambda x: True])


CACHE = {}


def fixed(n, k):
    """The same concrete problem on every path of a unit (history leaves it unchanged)."""
    if (n, k) not in CACHE:
        ns = apps.definitions(FILE)
        CACHE[n, k] = ns, problem(ns, n, k=k)
    return CACHE[n, k]


def surface(fe, on):
    """Faces of active cells that no second active cell shares, from the node sets of a cube's sides."""
    cells, faces = onp.asarray(fe.cells), onp.asarray(fe.face_inds)
    keys = {(c, f): frozenset(cells[c][faces[f]].tolist()) for c in range(len(cells)) if on[c] for f in range(len(faces))}
    return {cf for cf, key in keys.items() if sum(key == other for other in keys.values()) == 1}


def decided(b):
    return onp.array([bool(x) for x in b])


def history(ctx, n, steps, k=0):
    """The external faces are those of the active region after any sequence of births."""
    ns, pb = fixed(n, k)
    fe = pb.fe
    N = len(fe.cells)
    on = decided(ctx.bools('a', (N,)))
    ext, cf, hm, inner, every = ns['initialize_hash_map'](pb, np.asarray(on))
    ctx.check('sides of the first region', same(ext, surface(fe, on)))
    for s in range(steps):
        b = ctx.bools(f'b{s}', (N,))
        new = onp.array([o or bool(x) for o, x in zip(on, b)])
        ext = ns['update_hash_map'](on, new, cf, hm, inner, every)
        ctx.check(f'sides after birth {s}', same(ext, surface(fe, new)))
        on = new
    z = [-.5, 0., .5, 1., 1. + 8e-6, 1. + 5e-5][ctx.choose('z', 6)] if steps < 2 else 1.
    if len(ext):
        tab = ns['get_active_face_truth_tab'](pb, ext, z)
        faces = [tuple(int(i) for i in r) for r in onp.asarray(pb.boundary_inds_list[0])]
        P, C, FI = onp.asarray(fe.points), onp.asarray(fe.cells), onp.asarray(fe.face_inds)
        want = surface(fe, on)
        ctx.check('one row per selected face', onp.asarray(tab).shape == (len(faces), 2) and len(faces) == 6 * N)
        for i, (c, f) in enumerate(faces):
            flat = bool((onp.abs(P[C[c][FI[f]], 2] - z) <= 2e-5).all())
            ctx.check('external faces are marked', bool(tab[i][0]) == ((c, f) in want))
            ctx.check('top faces are marked', bool(tab[i][1]) == ((c, f) in want and flat))
    quiet = onp.asarray(ns['get_quiet_point_inds_set'](pb, np.asarray(on)))
    live = set(onp.asarray(fe.cells)[on].reshape(-1).tolist())
    ctx.check('quiet points belong to no active cell', sorted(quiet.tolist()) == sorted(set(range(fe.num_total_nodes)) - live))


def same(ext, want):
    got = [tuple(int(i) for i in r) for r in onp.asarray(ext)]
    return len(got) == len(set(got)) and set(got) == want


def refuse(ctx):
    """A region that lost cells is refused."""
    ns = apps.definitions(FILE)
    pb = problem(ns, (2, 1, 1))
    on, new = decided(ctx.bools('a', (2,))), decided(ctx.bools('b', (2,)))
    _, cf, hm, inner, every = ns['initialize_hash_map'](pb, on)
    try:
        ns['update_hash_map'](on, new, cf, hm, inner, every)
        ok = True
    except AssertionError:
        ok = False
    ctx.check('fewer cells are refused', ok == (new.sum() >= on.sum()))


def unknown(ctx):
    """A face that was not selected is refused."""
    ns = apps.definitions(FILE)
    pb = problem(ns, (1, 1, 1))
    f = ctx.choose('f', 8)
    try:
        ns['get_active_face_truth_tab'](pb, onp.array([[0, f]]), 0.)
        ok = True
    except (ValueError, IndexError):
        ok = False
    ctx.check('only existing faces', ok == (f < 6))


def ite(m, v):
    return np.where(m, v, 0. * v)


def balance(ctx, n, part, quiet, k=0):
    """The residual is the heat step of the active cells with the fluxes of the active faces."""
    ns = apps.definitions(FILE)
    h = 1e-3
    pb = problem(ns, n, h, k)
    fe = pb.fe
    N, nn = len(fe.cells), fe.num_total_nodes
    F = len(pb.boundary_inds_list[0])
    S = 300. + 1000. * ctx.array('S', (nn, 1), 0, 1)
    T = 300. + 1000. * ctx.array('T', (nn, 1), 0, 1)
    dt, sw = ctx.scalar('dt', .01, 1), ctx.scalar('switch', 0, 1)
    if part == 'cells':
        on = np.asarray(ctx.bools('c', (N,)))
        top = onp.zeros((F, 2), dtype=bool)
    else:
        on = np.asarray(onp.arange(N) % 2 == 0)
        top = np.asarray(ctx.bools('f', (F, 2)))
        if part == 'laser':
            S = np.asarray(onp.full((nn, 1), 300.)) + 50. * ctx.scalar('s', 0, 1)
    at0 = onp.array([.4, .6, 1.]) * h
    pb.set_params([S, dt, np.asarray(at0), sw, onp.array(quiet, dtype=onp.int32), on, top])
    (r,) = pb.compute_residual([T])
    rho, Cp, hc, T0 = (ns[x] for x in ('rho', 'Cp', 'h', 'T0'))

    def inner(c, q):
        a, ga = at(fe, T, c, q)
        return ite(on[c], 15. * ga), ite(on[c], rho * Cp * (a - at(fe, S, c, q)[0]) / dt)
    want = galerkin(fe, inner)

    def flux(i, q, x, c, f):
        t = face_at(fe, S, c, f, q)[0]
        d2 = onp.sum((x[:2] - at0[:2]) ** 2)
        beam = 2 * ns['eta'] * ns['P'] / (onp.pi * ns['rb'] ** 2) * onp.exp(-2 * d2 / ns['rb'] ** 2)
        return -np.stack([ite(top[i][0], hc * (T0 - t)) + ite(top[i][1], sw * beam)])
    if part != 'cells':
        want = want + face_load(pb, 0, flux)
    ctx.close('heat balance', r * dt, want * dt, 1e-7)
    got = sorted(int(i) for a in fe.node_inds_list for i in onp.asarray(a))
    ctx.check('quiet points are held', got == sorted(quiet))
    for a in fe.vals_list:
        ctx.close('at the ambient temperature', a, onp.full(len(a), T0))


def births(ctx):
    """Points held one moment are released when their cell is born, for every order."""
    ns = apps.definitions(FILE)
    pb = problem(ns, (2, 1, 1), 1e-3)
    fe = pb.fe
    F, nn = len(pb.boundary_inds_list[0]), fe.num_total_nodes
    S = np.asarray(onp.full((nn, 1), 300.))
    for s in range(3):
        on = decided(ctx.bools(f'a{s}', (2,)))
        quiet = ns['get_quiet_point_inds_set'](pb, on)
        pb.set_params([S, .1, np.zeros(3), 0., quiet, on, onp.zeros((F, 2), dtype=bool)])
        got = sorted(int(i) for a in fe.node_inds_list for i in onp.asarray(a))
        live = set(onp.asarray(fe.cells)[on].reshape(-1).tolist())
        ctx.check('exactly the points without an active cell are held', got == sorted(set(range(nn)) - live))
        (r,) = pb.compute_residual([S + np.asarray(onp.cos(onp.arange(nn)))[:, None]])
        ctx.close('no balance at held points', np.asarray(r)[onp.array(got, dtype=int)], onp.zeros((len(got), 1)))
        rows = onp.abs(onp.asarray(r))[sorted(live), 0] if live else onp.ones(1)
        ctx.check('a balance everywhere else', bool((rows > 0).all()))


def units(tier):
    U = []
    th = tier == 'thorough'

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds, 'cfg': {'max_paths': 70000}})
    for n, steps in [((2, 1, 1), 0), ((2, 2, 1), 0), ((2, 1, 1), 1), ((3, 1, 1), 1), ((2, 1, 1), 2), ((2, 2, 1), 1), ((1, 2, 2), 1), ((3, 1, 1), 2)] \
            + ([((2, 2, 1), 2), ((2, 2, 2), 0), ((3, 2, 1), 1)] if th else []):
        for k in (0, 3):
            add(f'history-{"x".join(map(str, n))}-{steps}-{k}', history, n=n, steps=steps, k=k, cost=2,
                bounds=f'{onp.prod(n)} cells, every first region and every {steps} births')
    add('refuse', refuse, bounds='every pair of regions of two cells')
    add('unknown', unknown, bounds='faces 0 to 7')
    for n in [(2, 1, 1), (2, 2, 1)]:
        add(f'cells-{"x".join(map(str, n))}', balance, n=n, part='cells', quiet=[], cost=2, bounds='every region, temperatures, time step')
    add('cells-held', balance, n=(2, 1, 1), part='cells', quiet=[1, 4, 7], k=2, cost=2, bounds='every region, temperatures, time step')
    for p in ('faces', 'laser'):
        add(p, balance, n=(2, 1, 1), part=p, quiet=[0], cost=2, bounds='every pair of markers on every face')
    add('births', births, bounds='every three regions of two cells')
    return U
