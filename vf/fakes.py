"""In-memory stand-ins for PETSc and scipy.sparse that hold symbolic entries.

They implement the documented behaviour of the operations the code uses and
are validated against the real libraries by running every harness natively.
"""
import types

import numpy as onp
import jax.numpy as jnp
import scipy as real_scipy
import scipy.sparse  # noqa: F401
import scipy.sparse.linalg  # noqa: F401
import scipy.spatial  # noqa: F401
from petsc4py import PETSc as RealPETSc

from . import sym
from . import jaxsym as J
from .sym import Unsupported


def _vals(x):
    """Flat object list of an array-like."""
    if isinstance(x, J.SymTracer):
        return x.data.reshape(-1).tolist()
    a = onp.asarray(x)
    if isinstance(a, J.SymTracer):
        return list(J.data_of(a).reshape(-1))
    return a.astype(object).reshape(-1).tolist()


def _ints(x):
    return onp.asarray(x).astype(onp.int64).reshape(-1)


def _lift(elems, shape, mutable=True):
    d = onp.empty(shape, dtype=object)
    f = d.reshape(-1)
    for i, e in enumerate(elems):
        f[i] = e
    d = f.reshape(shape)
    if mutable:
        return J.SymTracer(J.current_trace(), d, onp.float64)
    return J.mk(J.current_trace(), d, onp.float64)


def _shape(size):
    if isinstance(size, (int, onp.integer)):
        return (int(size), int(size))
    r = []
    for s in size:
        r.append(int(s[1] if isinstance(s, (tuple, list)) and s[1] is not None else (s[0] if isinstance(s, (tuple, list)) else s)))
    return tuple(r)


# ------------------------------------------------------------------- PETSc
class FakeMat:
    Option = RealPETSc.Mat.Option
    Type = RealPETSc.Mat.Type
    Structure = getattr(RealPETSc.Mat, 'Structure', None)
    AssemblyType = getattr(RealPETSc.Mat, 'AssemblyType', None)

    def __init__(self):
        self.shape = None
        self.e = {}               # (i, j) -> element; keys are the pattern
        self.options = {}
        self._coo = None
        self.transposed_inplace = 0

    # creation
    def create(self, *a, **k):
        return self

    def setSizes(self, size, *a, **k):
        self.shape = _shape(size)
        return self

    def setType(self, *a):
        return self

    def setFromOptions(self):
        return self

    def setUp(self):
        return self

    def createAIJ(self, size=None, bsize=None, nnz=None, csr=None, comm=None, **k):
        self.shape = _shape(size)
        self.e = {}
        if csr is not None:
            indptr, indices, data = _ints(csr[0]), _ints(csr[1]), _vals(csr[2])
            for i in range(self.shape[0]):
                for k2 in range(indptr[i], indptr[i + 1]):
                    key = (i, int(indices[k2]))
                    self.e[key] = data[k2]     # MatSetValues INSERT semantics
        return self

    createAIJWithArrays = lambda self, size, csr, **k: self.createAIJ(size, csr=csr)

    def createDense(self, size, array=None, **k):
        self.shape = _shape(size)
        if array is not None:
            v = _vals(array)
            for i in range(self.shape[0]):
                for j in range(self.shape[1]):
                    self.e[(i, j)] = v[i * self.shape[1] + j]
        return self

    def setOption(self, opt, flag):
        self.options[opt] = flag

    def setPreallocationCOO(self, i, j):
        self._coo = (_ints(i), _ints(j))
        self.e = {}
        for a, b in zip(*self._coo):
            if a >= 0 and b >= 0:
                self.e[(int(a), int(b))] = 0.0

    def setPreallocationNNZ(self, *a, **k):
        return self

    def setValuesCOO(self, v, addv=None):
        v = _vals(v)
        if self._coo is None:
            raise RuntimeError('setPreallocationCOO first')
        i, j = self._coo
        if len(v) != len(i):
            raise RuntimeError('COO value count mismatch')
        acc = {}
        for a, b, x in zip(i, j, v):
            if a >= 0 and b >= 0:
                acc.setdefault((int(a), int(b)), []).append(x)
        add = addv in (True, RealPETSc.InsertMode.ADD_VALUES, RealPETSc.InsertMode.ADD)
        for key, l in acc.items():
            self.e[key] = sym.sum_terms(l + ([self.e.get(key, 0.0)] if add else []))

    def setValues(self, rows, cols, vals, addv=None):
        rows, cols, v = _ints(rows), _ints(cols), _vals(vals)
        add = addv in (True, RealPETSc.InsertMode.ADD_VALUES, RealPETSc.InsertMode.ADD)
        for a, r in enumerate(rows):
            for b, c in enumerate(cols):
                x = v[a * len(cols) + b]
                key = (int(r), int(c))
                self.e[key] = sym.sum_terms([self.e.get(key, 0.0), x]) if add else x

    def setValue(self, r, c, v, addv=None):
        self.setValues([r], [c], onp.array([v], dtype=object) if not isinstance(v, J.SymTracer) else v, addv)

    def setValuesCSR(self, indptr, indices, data, addv=None):
        indptr, indices, data = _ints(indptr), _ints(indices), _vals(data)
        for i in range(self.shape[0]):
            for k in range(indptr[i], indptr[i + 1]):
                self.setValues([i], [indices[k]], onp.array([data[k]], dtype=object), addv)

    def assemble(self, *a, **k):
        return self

    assemblyBegin = assemblyEnd = assemble

    def zeroEntries(self):
        for k in self.e:
            self.e[k] = 0.0

    def zeroRows(self, rows, diag=1.0, x=None, b=None):
        if isinstance(rows, RealPETSc.IS):
            rows = rows.getIndices()
        rs = set(int(r) for r in _ints(rows))
        for k in list(self.e):
            if k[0] in rs:
                self.e[k] = 0.0
        for r in rs:
            if diag != 0.0 or (r, r) in self.e:
                self.e[(r, r)] = float(diag)

    zeroRowsLocal = zeroRows

    def zeroRowsColumns(self, rows, diag=1.0, x=None, b=None):
        rs = set(int(r) for r in _ints(rows))
        self.zeroRows(rows, diag)
        for k in list(self.e):
            if k[1] in rs and k[0] not in rs:
                self.e[k] = 0.0

    def copy(self, result=None, structure=None):
        r = result if result is not None else FakeMat()
        r.shape, r.e, r._coo, r.options = self.shape, dict(self.e), self._coo, dict(self.options)
        return r

    def duplicate(self, copy=False):
        r = self.copy()
        if not copy:
            r.zeroEntries()
        return r

    def transpose(self, out=None):
        t = {(j, i): v for (i, j), v in self.e.items()}
        shape = (self.shape[1], self.shape[0])
        if out is None:
            if self._coo:
                # like PETSc: COO values keep going to the same storage positions
                new = sorted(t)
                where = {k: new[n] for n, k in enumerate(sorted(self.e))}
                ks = [where[(int(a), int(b))] for a, b in zip(*self._coo)]
                self._coo = (onp.array([k[0] for k in ks]), onp.array([k[1] for k in ks]))
            self.e, self.shape = t, shape           # in place, like PETSc
            return self
        out.e, out.shape = t, shape
        return out

    def createTranspose(self, A):
        A.transpose(self)
        return self

    def matMult(self, B, result=None, fill=None):
        r = result if result is not None else FakeMat()
        r.shape = (self.shape[0], B.shape[1])
        rows = {}
        for (j, k), v in B.e.items():
            rows.setdefault(j, []).append((k, v))
        acc = {}
        for (i, j), v in self.e.items():
            for k, w in rows.get(j, ()):
                acc.setdefault((i, k), ([], []))
                acc[(i, k)][0].append(v)
                acc[(i, k)][1].append(w)
        r.e = {k: sym.dot_terms(a, b) for k, (a, b) in acc.items()}
        return r

    __matmul__ = matMult

    def __mul__(self, o):
        if isinstance(o, FakeMat):
            return self.matMult(o)
        r = self.copy()
        if isinstance(o, FakeVec):
            y = FakeVec().createSeq(self.shape[0])
            self.mult(o, y)
            return y
        r.e = {k: v * o for k, v in self.e.items()}
        return r

    def transposeMatMult(self, B, result=None, fill=None):
        t = FakeMat()
        self.transpose(t)
        return t.matMult(B, result)

    def matTransposeMult(self, B, result=None, fill=None):
        t = FakeMat()
        B.transpose(t)
        return self.matMult(t, result)

    def ptap(self, P, result=None, fill=None):
        t = FakeMat()
        P.transpose(t)
        return t.matMult(self.matMult(P), result)

    PtAP = ptap

    def mult(self, x, y):
        y.v = [0.0] * self.shape[0]
        rows = {}
        for (i, j), a in self.e.items():
            rows.setdefault(i, ([], []))
            rows[i][0].append(a)
            rows[i][1].append(x.v[j])
        for i, (a, b) in rows.items():
            y.v[i] = sym.dot_terms(a, b)

    def multTranspose(self, x, y):
        t = FakeMat()
        self.transpose(t)
        t.mult(x, y)

    def multAdd(self, x, v, y):
        t = FakeVec()
        self.mult(x, t)
        y.v = [sym.sum_terms([a, b]) for a, b in zip(v.v, t.v)]

    def createVecLeft(self):
        return FakeVec().createSeq(self.shape[0])

    def createVecRight(self):
        return FakeVec().createSeq(self.shape[1])

    def createVecs(self, side=None):
        return self.createVecRight(), self.createVecLeft()

    getVecLeft, getVecRight, getVecs = createVecLeft, createVecRight, createVecs

    def scale(self, a):
        for k in self.e:
            self.e[k] = J._e_mul(self.e[k], a)

    def axpy(self, a, X, structure=None):
        for k, v in X.e.items():
            self.e[k] = sym.sum_terms([self.e.get(k, 0.0), J._e_mul(v, a)])

    def shift(self, a):
        for i in range(min(self.shape)):
            self.e[(i, i)] = sym.sum_terms([self.e.get((i, i), 0.0), a])

    def setDiagonal(self, d, addv=None):
        for i, x in enumerate(d.v):
            self.e[(i, i)] = x

    def getRow(self, i):
        ks = sorted(k for k in self.e if k[0] == i)
        return onp.array([k[1] for k in ks], dtype=onp.int32), _lift([self.e[k] for k in ks], (len(ks),))

    def getSize(self):
        return self.shape

    size = property(getSize)
    getLocalSize = getSize

    def getOwnershipRange(self):
        return (0, self.shape[0])

    def getValuesCSR(self):
        return self._csr()

    def _csr(self):
        keys = sorted(self.e)
        indptr = onp.zeros(self.shape[0] + 1, dtype=onp.int32)
        for i, _ in keys:
            indptr[i + 1] += 1
        indptr = onp.cumsum(indptr).astype(onp.int32)
        indices = onp.array([j for _, j in keys], dtype=onp.int32)
        return indptr, indices, _lift([self.e[k] for k in keys], (len(keys),))

    def getRowIJ(self):
        a, b, _ = self._csr()
        return a, b

    def getValues(self, rows, cols):
        rows, cols = _ints(rows), _ints(cols)
        return _lift([self.e.get((int(r), int(c)), 0.0) for r in rows for c in cols], (len(rows), len(cols)))

    def getValue(self, r, c):
        v = self.e.get((int(r), int(c)), 0.0)
        return v

    def getDiagonal(self, result=None):
        v = result if result is not None else FakeVec()
        v.v = [self.e.get((i, i), 0.0) for i in range(self.shape[0])]
        return v

    def convert(self, *a, **k):
        return self

    def destroy(self):
        return self

    def isAssembled(self):
        return True

    assembled = property(lambda self: True)

    def dense(self):
        d = onp.empty(self.shape, dtype=object)
        d[:] = 0.0
        for (i, j), v in self.e.items():
            d[i, j] = v
        return d


class FakeVec:
    def __init__(self):
        self.v = []

    def create(self, *a, **k):
        return self

    def createSeq(self, n, *a, **k):
        self.v = [0.0] * int(n)
        return self

    def createWithArray(self, arr, *a, **k):
        self.v = _vals(arr)
        return self

    def setSizes(self, n, *a, **k):
        self.v = [0.0] * int(n if not isinstance(n, (tuple, list)) else n[0] or n[1])

    def setUp(self):
        return self

    def setFromOptions(self):
        return self

    def setValues(self, idx, vals, addv=None):
        add = addv in (True, RealPETSc.InsertMode.ADD_VALUES, RealPETSc.InsertMode.ADD)
        for i, x in zip(list(_ints(idx)), _vals(vals)):
            self.v[int(i)] = sym.sum_terms([self.v[int(i)], x]) if add else x

    def setArray(self, arr):
        self.v = _vals(arr)

    def set(self, x):
        self.v = [x] * len(self.v)

    def assemble(self):
        return self

    assemblyBegin = assemblyEnd = assemble

    def getArray(self, *a, **k):
        return _lift(self.v, (len(self.v),))

    array = property(getArray)
    array_r = property(getArray)

    def getSize(self):
        return len(self.v)

    size = property(getSize)

    def duplicate(self, *a):
        r = FakeVec()
        r.v = [0.0] * len(self.v)
        return r

    def copy(self, result=None):
        r = result if result is not None else FakeVec()
        r.v = list(self.v)
        return r

    def axpy(self, a, x):
        self.v = [sym.sum_terms([p, q * a]) for p, q in zip(self.v, x.v)]

    def norm(self, *a):
        return jnp.linalg.norm(jnp.asarray(self.getArray()))

    def aypx(self, a, x):
        self.v = [sym.sum_terms([q, J._e_mul(p, a)]) for p, q in zip(self.v, x.v)]

    def waxpy(self, a, x, y):
        self.v = [sym.sum_terms([q, J._e_mul(p, a)]) for p, q in zip(x.v, y.v)]

    def axpby(self, a, b, x):
        self.v = [sym.sum_terms([J._e_mul(q, a), J._e_mul(p, b)]) for p, q in zip(self.v, x.v)]

    def scale(self, a):
        self.v = [J._e_mul(p, a) for p in self.v]

    def zeroEntries(self):
        self.v = [0.0] * len(self.v)

    def dot(self, o):
        return J.lift_scalar(sym.dot_terms(self.v, o.v))

    def sum(self):
        return J.lift_scalar(sym.sum_terms(self.v))

    def setValue(self, i, x, addv=None):
        self.setValues([i], [x] if not isinstance(x, J.SymTracer) else x.reshape((1,)), addv)

    def getValues(self, idx):
        idx = _ints(idx)
        return _lift([self.v[int(i)] for i in idx], (len(idx),))

    def getValue(self, i):
        return J.lift_scalar(self.v[int(i)])

    getLocalSize = getSize

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.getArray()[i]

    def __setitem__(self, i, x):
        idx = onp.arange(len(self.v))[i]
        self.setValues(onp.atleast_1d(idx), jnp.broadcast_to(jnp.asarray(x), onp.shape(idx)).reshape(-1))

    def destroy(self):
        return self

    def _new(self, v):
        r = FakeVec()
        r.v = v
        return r

    def __sub__(self, o):
        if isinstance(o, FakeVec):
            return self._new([J._e_sub(a, b) for a, b in zip(self.v, o.v)])
        return self._new([J._e_sub(a, o) for a in self.v])

    def __add__(self, o):
        return self._new([J._e_add(a, b) for a, b in zip(self.v, o.v if isinstance(o, FakeVec) else [o] * len(self.v))])

    def __mul__(self, a):
        return self._new([J._e_mul(p, a) for p in self.v])

    __rmul__ = __mul__

    def __neg__(self):
        return self._new([J._e_mul(p, -1.0) for p in self.v])

    def __isub__(self, o):
        self.v = (self - o).v
        return self

    def __iadd__(self, o):
        self.v = (self + o).v
        return self


class FakePC:
    def __init__(self):
        self.type = None

    def setType(self, t):
        self.type = t

    def getType(self):
        return self.type

    def setFactorSolverType(self, t):
        self.factor = t

    def setFromOptions(self):
        pass

    def __getattr__(self, n):
        return lambda *a, **k: None


class FakeKSP:
    """Arbitrary-solution solver: `draw(n, A, b, self)` supplies x."""
    draw = None

    def __init__(self):
        self.pc = FakePC()
        self.A = None
        self.type = None
        self.tol = {}

    def create(self, *a, **k):
        return self

    def setOperators(self, A, P=None):
        self.A = A

    def setFromOptions(self):
        pass

    def setType(self, t):
        self.type = t

    def getType(self):
        return self.type

    def getPC(self):
        return self.pc

    def setTolerances(self, **k):
        self.tol.update(k)

    def solve(self, b, x):
        if FakeKSP.draw is None:
            raise Unsupported('PETSc solve without a contract')
        x.v = _vals(FakeKSP.draw(len(b.v), self.A, b, self))

    def getConvergedReason(self):
        return 1

    reason = property(getConvergedReason)

    def getIterationNumber(self):
        return 1

    def destroy(self):
        return self

    def __getattr__(self, n):
        return lambda *a, **k: None


def make_fake_petsc():
    ns = types.ModuleType('FakePETSc')
    for n in dir(RealPETSc):
        if not n.startswith('__'):
            try:
                setattr(ns, n, getattr(RealPETSc, n))
            except Exception:
                pass
    ns.Mat, ns.Vec, ns.KSP, ns.PC = FakeMat, FakeVec, FakeKSP, FakePC
    return ns


# -------------------------------------------------------------------- scipy
class SymSparse:
    """Sparse matrix with symbolic entries (csr layout)."""
    __array_priority__ = 6000

    def __init__(self, arg, shape=None, dtype=None, copy=False, fmt='csr'):
        self.fmt = fmt
        self.dtype = onp.dtype(onp.float64)
        e = {}
        if isinstance(arg, SymSparse):
            e, shape = dict(arg._entries()), arg.shape
        elif isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], (int, onp.integer)):
            data, (i, j) = arg
            i, j = _ints(i), _ints(j)
            acc = {}
            for a, b, v in zip(i, j, _vals(data)):
                acc.setdefault((int(a), int(b)), []).append(v)
            e = {k: sym.sum_terms(l) if len(l) > 1 else l[0] for k, l in acc.items()}
            if shape is None:
                shape = (int(i.max()) + 1, int(j.max()) + 1)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, indices, indptr = _vals(arg[0]), _ints(arg[1]), _ints(arg[2])
            n = len(indptr) - 1
            for r in range(n):
                for k in range(indptr[r], indptr[r + 1]):
                    key = (r, int(indices[k]))
                    key = key if fmt != 'csc' else (key[1], key[0])
                    e[key] = sym.sum_terms([e[key], data[k]]) if key in e else data[k]
            if shape is None:
                m = int(indices.max()) + 1 if len(indices) else 0
                shape = (n, m) if fmt != 'csc' else (m, n)
        elif isinstance(arg, tuple):
            shape = arg
        else:
            if real_scipy.sparse.issparse(arg):
                c = arg.tocoo()
                shape = c.shape
                for a, b, v in zip(c.row, c.col, c.data):
                    e[(int(a), int(b))] = e.get((int(a), int(b)), 0.0) + float(v)
            else:
                d = J.data_of(arg)
                shape = d.shape
                for i in range(shape[0]):
                    for j in range(shape[1]):
                        if J.elem_is_sym(d[i, j]) or d[i, j] != 0:
                            e[(i, j)] = d[i, j]
        self.shape = tuple(int(s) for s in shape)
        self._set(e)

    def _set(self, e):
        keys = sorted(e)
        indptr = onp.zeros(self.shape[0] + 1, dtype=onp.int32)
        for i, j in keys:
            if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
                raise ValueError('row or column index exceeds matrix dimensions')
            indptr[i + 1] += 1
        self.indptr = onp.cumsum(indptr).astype(onp.int32)
        self.indices = onp.array([j for _, j in keys], dtype=onp.int32)
        self.data = _lift([e[k] for k in keys], (len(keys),))

    def _entries(self):
        vals = _vals(self.data)
        e = {}
        for i in range(self.shape[0]):
            for k in range(self.indptr[i], self.indptr[i + 1]):
                e[(i, int(self.indices[k]))] = vals[k]
        return e

    nnz = property(lambda self: len(self.indices))
    ndim = 2

    @property
    def row(self):
        return onp.repeat(onp.arange(self.shape[0]), onp.diff(self.indptr))

    col = property(lambda self: self.indices)

    def tocsr(self, copy=False):
        return self

    tocoo = tocsc = asformat = tocsr

    def copy(self):
        return SymSparse(self)

    def sort_indices(self):
        return self

    sum_duplicates = eliminate_zeros = sort_indices

    def diagonal(self, k=0):
        e = self._entries()
        return _lift([e.get((i, i + k), 0.0) for i in range(min(self.shape))], (min(self.shape),))

    def transpose(self, *a):
        r = SymSparse((self.shape[1], self.shape[0]))
        r._set({(j, i): v for (i, j), v in self._entries().items()})
        return r

    T = property(transpose)

    def dense(self):
        d = onp.empty(self.shape, dtype=object)
        d[:] = 0.0
        for (i, j), v in self._entries().items():
            d[i, j] = v
        return d

    def toarray(self):
        return _lift(self.dense().reshape(-1).tolist(), self.shape)

    todense = toarray

    def _matvec(self, x):
        xd = J.data_of(x) if not isinstance(x, SymSparse) else x.dense()
        one = xd.ndim == 1
        xd = xd.reshape(xd.shape[0], -1)
        if xd.shape[0] != self.shape[1]:
            raise ValueError('dimension mismatch')
        rows = {}
        for (i, j), v in self._entries().items():
            rows.setdefault(i, []).append((j, v))
        out = onp.empty((self.shape[0], xd.shape[1]), dtype=object)
        out[:] = 0.0
        for i, l in rows.items():
            for c in range(xd.shape[1]):
                out[i, c] = sym.dot_terms([v for _, v in l], [xd[j, c] for j, _ in l])
        if one:
            out = out[:, 0]
        return _lift(out.reshape(-1).tolist(), out.shape)

    def __matmul__(self, x):
        if isinstance(x, SymSparse):
            r = SymSparse((self.shape[0], x.shape[1]))
            d = J.data_of(self._matvec(x))
            r._set({(i, j): d[i, j] for i in range(d.shape[0]) for j in range(d.shape[1])})
            return r
        return self._matvec(x)

    dot = __matmul__

    def __rmatmul__(self, x):
        return self.T._matvec(x)

    def _map(self, f):
        r = SymSparse(self.shape)
        r._set({k: f(v) for k, v in self._entries().items()})
        return r

    def __abs__(self):
        return self._map(lambda v: sym.sym_abs(J._fl(v)))

    def __neg__(self):
        return self._map(lambda v: -v)

    def __mul__(self, s):
        if isinstance(s, SymSparse):
            return self @ s
        return self._map(lambda v: J._e_mul(v, s))

    __rmul__ = __mul__

    def multiply(self, s):
        return self * s

    def __array_ufunc__(self, ufunc, method, *a, **k):
        if ufunc is onp.absolute and method == '__call__':
            return abs(self)
        if ufunc is onp.matmul and method == '__call__':
            return self.__rmatmul__(a[0]) if a[1] is self else self @ a[1]
        return NotImplemented

    def sum(self, axis=None):
        e = self._entries()
        if axis is None:
            return _lift([sym.sum_terms(list(e.values()))], ())
        axis = axis % 2
        n = self.shape[1 - axis]
        acc = [[] for _ in range(n)]
        for k, v in e.items():
            acc[k[1 - axis]].append(v)
        return _lift([sym.sum_terms(l) if l else 0.0 for l in acc], (n,))

    def __setitem__(self, key, v):
        e = self._entries()
        i, j = (_ints(x) for x in key)
        vs = _vals(v)
        for a, (p, q) in enumerate(zip(*onp.broadcast_arrays(i, j))):
            e[(int(p), int(q))] = vs[a if len(vs) > 1 else 0]
        self._set(e)

    def __getitem__(self, key):
        e = self._entries()
        if isinstance(key, tuple) and all(isinstance(x, (int, onp.integer)) for x in key):
            return e.get((int(key[0]), int(key[1])), 0.0)
        return self.toarray()[key]

    def getrow(self, i):
        return self.toarray()[i]

    def astype(self, *a, **k):
        return self

    def setdiag(self, v):
        e = self._entries()
        vs = _vals(v)
        for i in range(min(self.shape)):
            e[(i, i)] = vs[i if len(vs) > 1 else 0]
        self._set(e)


def _sparse_cls(fmt, real):
    class C(SymSparse):
        def __init__(self, arg, shape=None, dtype=None, copy=False):
            super().__init__(arg, shape, dtype, copy, fmt)
    C.__name__ = real.__name__
    return C


class _NS:
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


def make_fake_scipy(spsolve):
    over = {}
    for fmt in ('csr', 'csc', 'coo'):
        for kind in ('array', 'matrix'):
            over[f'{fmt}_{kind}'] = _sparse_cls(fmt, getattr(real_scipy.sparse, f'{fmt}_{kind}'))
    over['issparse'] = lambda x: isinstance(x, SymSparse) or real_scipy.sparse.issparse(x)
    lin = _NS(real_scipy.sparse.linalg, {'spsolve': spsolve})
    over['linalg'] = lin
    sp = _NS(real_scipy.sparse, over)
    return _NS(real_scipy, {'sparse': sp})


class FakeBCOO:
    """jax.experimental.sparse.BCOO over symbolic entries."""

    def __init__(self, args, *, shape=None, **k):
        if isinstance(args, SymSparse):
            self.m = args
        else:
            data, idx = args
            idx = onp.asarray(idx)
            self.m = SymSparse((data, (idx[:, 0], idx[:, 1])), shape=shape)
        self.shape = self.m.shape
        self.dtype = onp.dtype(onp.float64)

    ndim = 2

    @classmethod
    def from_scipy_sparse(cls, m, **k):
        return cls(m if isinstance(m, SymSparse) else SymSparse(m))

    @classmethod
    def fromdense(cls, d, **k):
        return cls(SymSparse(d))

    def sort_indices(self):
        return self

    def sum_duplicates(self, *a, **k):
        return self

    def astype(self, *a):
        return self

    def todense(self):
        return jnp.asarray(self.m.toarray())

    def __getitem__(self, idx):
        return self.todense()[idx]                        # products with it are dense ones

    def transpose(self, *a):
        return FakeBCOO(self.m.T)

    T = property(transpose)

    def __matmul__(self, x):
        return jnp.asarray(self.m @ x)

    def __rmatmul__(self, x):
        return jnp.asarray(self.m.T @ x)

    def sum(self, axis=None):
        r = self.m.sum(axis)

        class _D:
            def todense(s):
                return jnp.asarray(r)
        return _D()


def patch_refs(replacements):
    """(module, name, new) triples replacing every global of the loaded
    jax_fem modules that refers to a key of `replacements` (by identity)."""
    import sys
    out = []
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname == 'jax_fem' or mname.startswith('jax_fem.')):
            continue
        for n, v in list(vars(mod).items()):
            for old, new in replacements:
                if v is old:
                    out.append((mod, n, new))
    return out
