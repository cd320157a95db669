"""Problem classes and meshes shared by the checks (built on the public API)."""
import functools
import numpy as onp
import jax
import jax.numpy as np
import jax.flatten_util

from . import env
env.load()
from jax_fem.problem import Problem
from jax_fem.generate_mesh import Mesh
from jax_fem import solver as S

from . import oracle as O


def mesh_for(t, nx=2, ny=1, nz=1, distort='wobble'):
    p, c = O.grid_mesh(t, nx, ny, nz)
    if distort in ('skew', 'wobble'):
        p = O.skew(p)
    if distort == 'wobble':
        p = O.wobble(p)
    return p, c


class Scalar(Problem):
    """-div((k + |grad u|^2) grad u) + u^3 + m u = 0 with internal variables."""

    def custom_init(self, cubic=1.0):
        self.cubic = cubic

    def get_tensor_map(self):
        c = self.cubic

        def f(g, k, m):
            return (k + c * np.sum(g * g)) * g
        return f

    def get_mass_map(self):
        c = self.cubic

        def f(u, x, k, m):
            return c * u ** 3 + m * u + x[0] * m
        return f


class ScalarSurf(Scalar):
    def get_surface_maps(self):
        def f(u, x, *iv):
            s = iv[0] if iv else 1.0
            return s * u * u + x[1] + s

        def g(u, x, *iv):
            s = iv[0] if iv else 0.5
            return 2.0 * s * u + x[0]
        return [f, g][:len(self.location_fns)]


class ScalarUniSurf(Scalar):
    """Surface term through universal surface kernels (uses the gradient)."""

    def get_universal_kernels_surface(self):
        def k(cell_sol_flat, xq, fvals, fgrads, nanson, *iv, w=1.0):
            u = self.unflatten_fn_dof(cell_sol_flat)[0]
            fv = fvals[:, :self.fes[0].num_nodes]
            fg = fgrads[:, :self.fes[0].num_nodes]
            uq = np.sum(u[None] * fv[:, :, None], axis=1)                      # (q, vec)
            gq = np.sum(u[None, :, :, None] * fg[:, :, None, :], axis=1)      # (q, vec, dim)
            s = w * uq * gq[:, :, 0] + uq
            val = np.sum(s[:, None, :] * fv[:, :, None] * nanson[0][:, None, None], axis=0)
            return jax.flatten_util.ravel_pytree(val)[0]
        return [functools.partial(k, w=1.0 + 2.0 * i) for i in range(len(self.location_fns))]


class ScalarBothSurf(ScalarUniSurf):
    def get_surface_maps(self):
        return [(lambda u, x, *iv, i=i: (1.0 - 3.0 * i) * u * u + x[1]) for i in range(len(self.location_fns))]


class Vector(Problem):
    """Saint-Venant-Kirchhoff-like polynomial hyperelasticity."""

    def custom_init(self, nl=1.0):
        self.nl = nl

    def get_tensor_map(self):
        nl = self.nl

        def f(g, lam, mu):
            eps = 0.5 * (g + g.T) + 0.5 * nl * (g.T @ g)
            s = lam * np.trace(eps) * np.eye(self.dim) + 2 * mu * eps
            return (np.eye(self.dim) + nl * g) @ s
        return f


class VectorSurf(Vector):
    def get_surface_maps(self):
        # the dependence on u is not symmetric, and differs between the sets
        return [(lambda u, x, *iv, i=i: np.ones(self.dim) * (0.3 + x[0]) + u * u[0] + 1.5 * i * u[::-1] * u[0] * u[0])
                for i in range(len(self.location_fns))]


class Coupled(Problem):
    """Two variables of different type/components through a universal kernel."""

    def get_universal_kernel(self):
        def k(cell_sol_flat, xq, grads, JxW, vgJ, *iv):
            u, p = self.unflatten_fn_dof(cell_sol_flat)
            n0 = self.fes[0].num_nodes
            gu, gp = grads[:, :n0], grads[:, n0:]
            vu, vp = vgJ[:, :n0], vgJ[:, n0:]
            ugrad = np.sum(u[None, :, :, None] * gu[:, :, None, :], axis=1)
            pgrad = np.sum(p[None, :, :, None] * gp[:, :, None, :], axis=1)
            pq = np.sum(p[None] * self.fes[1].shape_vals[:, :, None], axis=1)     # (q,1)
            uq = np.sum(u[None] * self.fes[0].shape_vals[:, :, None], axis=1)     # (q,vec)
            c = iv[0][:, None, None] if iv else 1.0
            s0 = c * ugrad + pq[:, :, None] * np.ones((1, self.fes[0].vec, self.dim)) * 0.5
            s1 = pgrad * (1.0 + pq[:, :, None])
            r0 = np.sum(s0[:, None] * vu, axis=(0, -1))
            r1 = np.sum(s1[:, None] * vp, axis=(0, -1))
            r1 = r1 + np.sum((uq[:, :1] * pq)[:, None, :] * self.fes[1].shape_vals[:, :, None]
                             * JxW[1][:, None, None], axis=0)
            return jax.flatten_util.ravel_pytree([r0, r1])[0]
        return k


class CoupledSurf(Coupled):
    def get_universal_kernels_surface(self):
        def k(cell_sol_flat, xq, fvals, fgrads, nanson, *iv, w=1.0):
            u, p = self.unflatten_fn_dof(cell_sol_flat)
            n0 = self.fes[0].num_nodes
            fu, fp = fvals[:, :n0], fvals[:, n0:]
            uq = np.sum(u[None] * fu[:, :, None], axis=1)
            pq = np.sum(p[None] * fp[:, :, None], axis=1)
            r0 = np.sum((uq * pq * w)[:, None, :] * fu[:, :, None] * nanson[0][:, None, None], axis=0)
            r1 = np.sum((w * pq * pq + uq[:, 1:2])[:, None, :] * fp[:, :, None] * nanson[1][:, None, None], axis=0)
            return jax.flatten_util.ravel_pytree([r0, r1])[0]
        return [functools.partial(k, w=1.0 - 2.0 * i) for i in range(len(self.location_fns))]


def flat(lst):
    return jax.flatten_util.ravel_pytree(lst)[0]


def dense_coo(I, J, V, n):
    """Sum of COO triples as a dense matrix (JAX scatter-add)."""
    return np.zeros((n, n)).at[onp.asarray(I), onp.asarray(J)].add(np.asarray(V))


def quad_shape(fe):
    return (fe.num_cells, fe.num_quads)


def x_is(v, axis=0):
    return lambda p: np.isclose(p[axis], v, atol=1e-6)


def node_set(ids):
    """Location function selecting given node indices."""
    ids = onp.asarray(ids)
    return lambda p, i: np.isin(i, ids)


class Bare(Problem):
    """No volume kernel; trivial surface maps so that faces can be selected."""

    def get_surface_maps(self):
        return [(lambda u, x, *iv: 0.0 * u) for _ in (self.location_fns or [])]


def every_node():
    return lambda p, i: i >= 0


def symbolic_affine(ctx, d, amp=0.25, name='A'):
    """A = I + [-amp, amp] entries and a free shift."""
    A = np.asarray(ctx.array(name, (d, d), -amp, amp)) + np.eye(d)
    b = ctx.array(name + 'b', (d,), -1, 1)
    return A, b


def polyval(es, c, x):
    """sum_k c[k] x^es[k]; x (..., d), c (m, vec) -> (..., vec)."""
    out = 0.0
    for k, e in enumerate(es):
        t = 1.0
        for j, n in enumerate(e):
            for _ in range(n):
                t = t * x[..., j]
        out = out + (t[..., None] if hasattr(t, 'shape') else np.ones(x.shape[:-1])[..., None]) * c[k]
    return out


def polygrad(es, c, x):
    """(..., vec, d)"""
    gs = []
    for j in range(x.shape[-1]):
        g = 0.0 * x[..., :1] * c[0]
        for k, e in enumerate(es):
            if e[j] == 0:
                continue
            t = float(e[j]) * np.ones(x.shape[:-1])
            for i, n in enumerate(e):
                for _ in range(n - (1 if i == j else 0)):
                    t = t * x[..., i]
            g = g + t[..., None] * c[k]
        gs.append(g)
    return np.stack(gs, axis=-1)


# ------------------------------------------------------------ solver-level helpers
import contextlib  # noqa: E402


class Stop(Exception):
    """Raised by harness callbacks to leave the code under test."""


def fake_libs(ctx, draw=None, spsolve=None, bicgstab=None, extra=(), native=False):
    """Symbolically: PETSc and scipy.sparse replaced by the symbolic stand-ins;
    draw(n, A, b, ksp) / spsolve(A, b) / bicgstab(A, b, **kw) supply results of
    the linear solves.  Natively nothing is replaced, unless native=True: then
    the solve calls of the real libraries hand back the same results."""
    import scipy
    import jax.scipy.sparse.linalg as L
    from jax.experimental.sparse import BCOO
    from petsc4py import PETSc
    from . import fakes as F
    extra = list(extra)
    real_bicg = L.bicgstab
    if bicgstab and (ctx.symbolic or native):
        extra += [(L, 'bicgstab', bicgstab)] + F.patch_refs([(real_bicg, bicgstab)])
    if not ctx.symbolic:
        if not native:
            return contextlib.nullcontext()
        from . import jaxsym
        if draw:
            class KSP(PETSc.KSP):
                def solve(self, b, x):
                    x.setArray(onp.asarray(draw(b.getSize(), self.getOperators()[0], b, self), dtype=float))
            extra += F.patch_refs([(PETSc, F._NS(PETSc, {'KSP': KSP}))])
        if spsolve:
            extra.append((scipy.sparse.linalg, 'spsolve', lambda A, b, *a, **k: onp.asarray(spsolve(A, b), dtype=float)))
        return jaxsym.patched(extra)
    F.FakeKSP.draw = staticmethod(draw) if draw else None

    def no(*a, **k):
        from .sym import Unsupported
        raise Unsupported('linear solve without a contract')
    pairs = F.patch_refs([(PETSc, F.make_fake_petsc()), (scipy, F.make_fake_scipy(spsolve or no)), (BCOO, F.FakeBCOO)])
    return ctx.patch(pairs + sym_builtins() + extra)


def sym_numpy(ctx):
    """Symbolically: float arrays jax_fem creates with NumPy accept symbolic entries."""
    import sys
    from . import jaxsym
    if not ctx.symbolic:
        return contextlib.nullcontext()
    px = jaxsym.numpy_proxy()
    return ctx.patch([(m, a, px) for n, m in list(sys.modules.items()) if m is not None and n.startswith(('jax_fem', 'applications'))
                      for a, v in list(vars(m).items()) if v is onp])


def sym_builtins():
    """float()/int() of symbolic scalars are the identity inside jax_fem."""
    import sys
    from . import jaxsym

    def sfloat(x=0.0):
        return x if isinstance(x, jaxsym.SymTracer) or type(x).__name__ == 'Poly' else float(x)
    return [(m, 'float', sfloat) for n, m in list(sys.modules.items()) if m is not None and n.startswith('jax_fem')]


def dense_mat(A):
    """Dense JAX array of a (real or stand-in) PETSc matrix or scipy matrix."""
    if hasattr(A, 'getValuesCSR'):
        ptr, ind, val = A.getValuesCSR()
        shape = A.getSize()
    elif hasattr(A, 'todense') and not hasattr(A, 'indptr'):
        return np.asarray(A.todense())
    else:
        if getattr(A, 'format', 'csr') != 'csr':
            A = A.tocsr()
        ptr, ind, val = A.indptr, A.indices, A.data
        shape = A.shape
    ptr, ind = onp.asarray(ptr), onp.asarray(ind)
    r = onp.repeat(onp.arange(len(ptr) - 1), onp.diff(ptr))
    return np.zeros(tuple(shape)).at[r, ind].add(np.asarray(val))


def constrained(prob):
    """{global dof: value} as described by the conditions, later ones winning."""
    out = {}
    off = 0
    for fe in prob.fes:
        for ns, cs, vs in zip(fe.node_inds_list, fe.vec_inds_list, fe.vals_list):
            for k, (a, b) in enumerate(zip(onp.asarray(ns).tolist(), onp.asarray(cs).tolist())):
                out[off + a * fe.vec + b] = vs[k]
        off += fe.num_total_nodes * fe.vec
    return out


def bc_residual(prob, dofs, scale=1.0, res=None):
    """Oracle: constrained residual vector."""
    r = flat(prob.compute_residual(prob.unflatten_fn_sol_list(dofs))) if res is None else res
    for d, v in constrained(prob).items():
        r = r.at[d].set(dofs[d] - scale * v)
    return r


def bc_matrix(prob, K):
    """Oracle: K with constrained rows replaced by unit rows."""
    for d in constrained(prob):
        K = K.at[d].set(0.0)
        K = K.at[d, d].set(1.0)
    return K


def fresh_matrix(prob):
    """Dense unconstrained matrix of the problem's current COO triples."""
    return dense_coo(prob.I, prob.J, prob.V, prob.num_total_dofs_all_vars)


def state_key(a):
    """Hashable identity of an array's values (symbolic or concrete)."""
    from .harness import _elems
    from .sym import Poly
    out = []
    for e in _elems(a)[0]:
        out.append(('p', e.key()) if isinstance(e, Poly) else ('c', 'nan' if e != e else round(float(e), 12)))
    return tuple(out)


class Adversary(Problem):
    """A problem whose residual is an arbitrary function of the state:
    `draw(k)` supplies the value at the k-th new state met."""

    def get_tensor_map(self):
        return lambda g: g

    def arm(self, draw, V=None):
        self.draw = draw
        self.memo = {}
        self.states = []
        self.V = np.ones(len(self.I)) if V is None else V
        return self

    def compute_residual(self, sol_list):
        d = flat(sol_list)
        if isinstance(d, jax.core.Tracer) and type(d).__name__ != 'SymTracer':
            # native code compiles the residual: look the value up at run time
            v = jax.pure_callback(lambda x: onp.asarray(self.lookup(np.asarray(x)), dtype=float),
                                  jax.ShapeDtypeStruct(d.shape, d.dtype), d)
            return self.unflatten_fn_sol_list(v)
        return self.unflatten_fn_sol_list(self.lookup(d))

    def lookup(self, d):
        k = state_key(d)
        self.last = d
        if k not in self.memo:
            self.memo[k] = self.draw(len(self.memo))
            self.states.append(d)
        return self.memo[k]

    def newton_update(self, sol_list):
        return self.compute_residual(sol_list)
