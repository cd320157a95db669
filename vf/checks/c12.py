"""C12: the chosen linear backend solves the given system or fails loudly."""
import copy
import numpy as onp
import jax.numpy as np
from vf import models as M

S = M.S

ASSUMPTIONS = ['the numerical libraries (bicgstab, spsolve, KSP) are arbitrary: any vector may come back; '
               'their own convergence is outside the claim']

# non-symmetric pattern with structurally missing entries
PAT = {3: [[0, 1], [1, 2], [0, 2]], 4: [[0, 3], [0, 1, 2], [2], [1, 3]]}


VALUES = {n: onp.random.RandomState(n + 5).uniform(.5, 2, sum(map(len, p))) for n, p in PAT.items()}


def pattern(n):
    ptr = onp.cumsum([0] + [len(r) for r in PAT[n]]).astype(onp.int32)
    return ptr, onp.array(sum(PAT[n], []), dtype=onp.int32)


def dense(n, data):
    ptr, ind = pattern(n)
    D = onp.zeros((n, n))
    D[onp.repeat(onp.arange(n), onp.diff(ptr)), ind] = data
    return D


def system(ctx, n, fixed=False):
    pat = PAT[n]
    ptr, ind = pattern(n)
    lo, hi = [], []
    for i, r in enumerate(pat):
        for j in r:
            lo.append(0.5 if i == j else -2.0)
            hi.append(2.0)
    data = np.asarray(VALUES[n]) if fixed else ctx.array('a', (len(ind),), onp.array(lo), onp.array(hi))
    D = np.zeros((n, n)).at[onp.repeat(onp.arange(n), onp.diff(ptr)), ind].set(data)
    if ctx.symbolic:
        A = S.PETSc.Mat().createAIJ(size=(n, n), csr=(ptr, ind, data))
    else:
        A = S.PETSc.Mat().createAIJ(size=(n, n), csr=(ptr, ind, onp.asarray(data)))
    return A, D


OPTS = {
    'default': {}, 'unrelated': {'tol': 1e-3}, 'jax': {'jax_solver': {}}, 'jax-precond': {'jax_solver': {'precond': True}},
    'jax-plain': {'jax_solver': {'precond': False}},
    'petsc': {'petsc_solver': {}}, 'petsc-gmres': {'petsc_solver': {'ksp_type': 'gmres'}},
    'petsc-jacobi': {'petsc_solver': {'pc_type': 'jacobi'}},
    'petsc-both': {'petsc_solver': {'ksp_type': 'minres', 'pc_type': 'none'}},
    'spsolve': {'spsolve_solver': {}}, 'custom': {'custom_solver': None, 'keep': 7},
}


def backend(ctx, opt, n, fault, with_x0=True, near=False):
    opts = copy.deepcopy(OPTS[opt])
    seen = {}
    if near:                    # fixed system, every distance from its solution along one direction
        fixed = onp.random.RandomState(n).uniform(.5, 2, 3 * n)
        x = np.asarray(fixed[:n])
        b = np.asarray(fixed[n:2 * n] * 0.1) * ctx.scalar('off', -2, 2)
        b = b + np.asarray(dense(n, VALUES[n]) @ onp.asarray(fixed[:n]))
    else:
        x = ctx.array('x', (n,), -3, 3)
        b = ctx.array('b', (n,), -3, 3)
    x0 = ctx.array('x0', (n,), -3, 3) if with_x0 else None
    if fault:
        x = x.at[n - 1].set([onp.nan, onp.inf][ctx.choose('fault', 2)])

    def bicg(A, rhs, x0=None, M=None, **kw):
        seen.update(run='jax', A=M_.dense_mat(A), b=rhs, x0=x0, M=M, kw=kw, n=seen.get('n', 0) + 1)
        return x, None

    def spsolve(A, rhs):
        seen.update(run='spsolve', A=M_.dense_mat(A), b=np.asarray(rhs), n=seen.get('n', 0) + 1)
        return x

    def draw(m, A, rhs, ksp):
        seen.update(run='petsc', A=M_.dense_mat(A), b=np.asarray(rhs.getArray()), ksp=ksp.getType(),
                    pc=(ksp.pc if hasattr(ksp, 'pc') else ksp.getPC()).getType(), n=seen.get('n', 0) + 1)
        return x

    def custom(A, rhs, x0, o):
        seen.update(run='custom', A=M_.dense_mat(A), b=rhs, x0=x0, o=o, n=seen.get('n', 0) + 1)
        return x
    M_ = M
    if opt == "custom":
        opts['custom_solver'] = custom
    before = {k: (dict(v) if isinstance(v, dict) else v) for k, v in opts.items()}
    with M.fake_libs(ctx, draw=draw, spsolve=spsolve, bicgstab=bicg, native=True):
        A, D = system(ctx, n, near)
        raised = None
        try:
            got = S.linear_solver(A, b, x0, opts)
        except AssertionError as e:
            raised = e
        after = M.dense_mat(A)
    ctx.check('options unchanged', opts == before)
    ctx.close('the given matrix is unchanged', after, D)
    want = {'default': 'jax', 'unrelated': 'jax', 'jax': 'jax', 'jax-precond': 'jax', 'jax-plain': 'jax', 'spsolve': 'spsolve',
            'custom': 'custom'}.get(opt, "petsc")
    ctx.check('the chosen backend ran, once', seen.get('run') == want and seen['n'] == 1)
    ctx.close('matrix given to the backend', seen['A'], D)
    ctx.close('right-hand side given to the backend', np.asarray(seen['b']), b)
    if want in ('jax', 'custom'):
        ctx.check('start handed over', (seen['x0'] is None) == (x0 is None))
        if x0 is not None:
            ctx.close('start', np.asarray(seen['x0']), x0)
    if want == 'jax':
        ctx.check('preconditioner', (seen['M'] is None) == (opt == "jax-plain"))
        if seen['M'] is not None:
            v = ctx.array('v', (n,), -3, 3)
            ctx.close('Jacobi preconditioner', seen['M'](v) * np.diagonal(D), v)
    if want == 'petsc':
        o = OPTS[opt]['petsc_solver']
        ctx.check('method', seen['ksp'] == o.get('ksp_type', 'bcgsl'))
        ctx.check('preconditioner type', seen['pc'] == o.get('pc_type', 'ilu'))
    if want == 'custom':
        ctx.check('options handed over', seen['o'] == before)
    if fault:
        if want in ('jax', 'petsc'):
            ctx.check('a non-finite result raises', raised is not None)
        return
    err = np.linalg.norm(D @ x - b)
    if raised is not None:
        ctx.check('raises only when the system is not satisfied', want in ('jax', 'petsc'))
        ctx.check('raises only when the residual is large', err >= 0.0999999)
        return
    if want in ('jax', 'petsc'):
        ctx.check('a returned result satisfies the system', err <= 0.1000001)
    ctx.close('the result is handed back', np.asarray(got), x)


def unavailable(ctx):
    """AMGX without pyamgx raises instead of falling back."""
    x = ctx.array('b', (3,), -3, 3)
    hit = []
    with M.fake_libs(ctx, draw=lambda *a: hit.append(1), spsolve=lambda *a: hit.append(1), bicgstab=lambda *a, **k: hit.append(1), native=True):
        A, D = system(ctx, 3)
        try:
            S.linear_solver(A, x, None, {'amgx_solver': {}})
        except RuntimeError:
            hit.append('raised')
    ctx.check('raises', hit == ['raised'])
    ctx.close('the system is unchanged', x, x)


def twice(ctx, first, second, n=3):
    """Two solves with different options do not influence each other."""
    log = []
    xs = [ctx.array(f'x{i}', (n,), -3, 3) for i in range(2)]
    b = ctx.array('b', (n,), -3, 3)

    def bicg(A, rhs, x0=None, M=None, **kw):
        log.append(('jax', M is not None))
        return xs[len(log) - 1], None

    def spsolve(A, rhs):
        log.append(('spsolve',))
        return xs[len(log) - 1]

    def draw(m, A, rhs, ksp):
        log.append(('petsc', ksp.getType(), (ksp.pc if hasattr(ksp, 'pc') else ksp.getPC()).getType()))
        return xs[len(log) - 1]

    def expect(nm):
        o = OPTS[nm]
        if 'petsc_solver' in o:
            return ('petsc', o['petsc_solver'].get('ksp_type', 'bcgsl'), o['petsc_solver'].get('pc_type', 'ilu'))
        return ('spsolve',) if 'spsolve_solver' in o else ('jax', nm != 'jax-plain')
    with M.fake_libs(ctx, draw=draw, spsolve=spsolve, bicgstab=bicg, native=True):
        A, D = system(ctx, n)
        shared = {}
        for i, nm in enumerate((first, second)):
            ctx.assume(np.linalg.norm(D @ xs[i] - b) < 0.1)
            o = copy.deepcopy(OPTS[nm])
            got = S.linear_solver(A, b, None, o)
            ctx.close(f'result {i}', np.asarray(got), xs[i])
            ctx.check(f'options {i}', o == OPTS[nm])
    ctx.check('backends in order', log == [expect(first), expect(second)])


def units(tier):
    U = []

    def add(name, fn, cost=1, bounds='', **kw):
        U.append({'name': name, 'fn': fn, 'kw': kw, 'cost': cost, 'bounds': bounds})
    for nm in OPTS:
        for n in ((3,) if tier == 'quick' else (3, 4)):
            for fault in (False, True):
                add(f'{nm}-{n}{"-fault" if fault else ""}', backend, opt=nm, n=n, fault=fault,
                    bounds=f'{n}x{n} non-symmetric pattern; all entries, right-hand sides, starts and backend results'
                           + (' with NaN/inf' if fault else ''))
        add(f'{nm}-near', backend, opt=nm, n=4, fault=False, near=True, bounds='fixed 4x4 system; every distance of the right-hand side along one direction')
        add(f'{nm}-nostart', backend, opt=nm, n=3, fault=False, with_x0=False, bounds='no initial guess')
    add('amgx-unavailable', unavailable, bounds='-')
    for a, c in (('default', 'petsc'), ('petsc-gmres', 'petsc'), ('spsolve', 'default'), ('jax-plain', 'default'), ('petsc-both', 'petsc-jacobi')):
        add(f'twice-{a}-{c}', twice, first=a, second=c, bounds='two solves in a row; all entries and results')
    return U
