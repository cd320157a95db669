"""A JAX trace whose values are arrays of symbolic elements.

While the trace is current, every JAX primitive the executed code binds is
interpreted here: natively when all operands are concrete, element-wise over
symbolic terms otherwise.  Data-movement primitives are executed by JAX itself
on arrays of element identifiers, so their semantics is JAX's own.
"""
import contextlib
import itertools
import math

import numpy as onp
import jax
import jax.numpy as jnp
from jax._src import core
from jax._src.core import ShapedArray

from . import sym
from .sym import Poly, SymBool, Unsupported

_orig_array, _orig_asarray = onp.array, onp.asarray
_eval = core.eval_trace


def _objarr(x):
    """numpy/jax concrete array -> object array of Python scalars."""
    a = _orig_asarray(x)
    return a.astype(object)


def elem_is_sym(e):
    return isinstance(e, (Poly, SymBool))


def has_sym(data):
    for e in data.reshape(-1):
        if isinstance(e, (Poly, SymBool)):
            return True
    return False


class SymTracer(core.Tracer):
    __array_priority__ = 5000

    def __init__(self, trace, data, dtype):
        super().__init__(trace, ShapedArray(data.shape, onp.dtype(dtype)))
        self.data = data

    # -- conversions
    def to_concrete_value(self):
        if has_sym(self.data):
            return None
        return _orig_array(self.data.tolist(), dtype=self.dtype).reshape(self.data.shape)

    def _one(self):
        if self.data.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return self.data.reshape(-1)[0]

    def __bool__(self):
        e = self._one()
        return bool(e)

    def __float__(self):
        e = self._one()
        return float(e)

    def __int__(self):
        return int(self._one())

    def __index__(self):
        e = self._one()
        return e.__index__()

    def __repr__(self):
        return f'SymTracer{self.data.shape}'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _short_repr(self):
        return repr(self)

    def __iter__(self):
        if self.data.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(self.data.shape[0])])

    def __len__(self):
        if self.data.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.data.shape[0]

    __hash__ = None

    # -- numpy interoperability: numpy calls on symbolic arrays use jax.numpy
    def __array__(self, dtype=None, copy=None):
        c = self.to_concrete_value()
        if c is None:
            raise Unsupported('a symbolic array reached native numpy code')
        return c if dtype is None else c.astype(dtype)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        mod = func.__module__ or ''
        ns = jnp.linalg if 'linalg' in mod else jnp
        f = NP_OVERRIDE.get(name) or getattr(ns, name, None)
        if f is None:
            raise Unsupported(f'numpy.{name} on a symbolic array')
        kwargs = {k: v for k, v in kwargs.items() if not (k in ('out',) and v is None)}
        out = kwargs.pop('out', None)
        r = f(*[_lift_arg(a) for a in args], **kwargs)
        if out is not None:
            _assign_out(out, r)
            return out
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method == 'at':
            raise Unsupported('ufunc.at on a symbolic array')
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', True)
        name = ufunc.__name__
        if method == 'reduce':
            f = {'add': jnp.sum, 'maximum': jnp.max, 'minimum': jnp.min, 'multiply': jnp.prod,
                 'logical_and': jnp.all, 'logical_or': jnp.any}.get(name)
            if f is None:
                raise Unsupported(f'{name}.reduce')
            kwargs.setdefault('axis', 0)
            r = f(*[_lift_arg(a) for a in inputs], axis=kwargs.get('axis'), keepdims=kwargs.get('keepdims', False))
        elif method == '__call__':
            f = NP_OVERRIDE.get(name) or getattr(jnp, name, None)
            if f is None:
                raise Unsupported(f'numpy.{name} on a symbolic array')
            ins = [_lift_arg(a) for a in inputs]
            kwargs.pop('casting', None), kwargs.pop('dtype', None)
            if where is not True:
                base = out[0] if isinstance(out, tuple) else out
                if base is None:
                    raise Unsupported('where= without out=')
                # masked lanes must not be evaluated
                w = jnp.asarray(where)
                safe = [jnp.where(w, a, jnp.ones_like(a)) if name in ('divide', 'true_divide') and k == 1 else a
                        for k, a in enumerate(ins)]
                r = jnp.where(w, f(*safe, **kwargs), _lift_arg(base))
            else:
                r = f(*ins, **kwargs)
        else:
            raise Unsupported(f'{name}.{method}')
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            _assign_out(o, r)
            return o
        return r

    # -- mutability (numpy semantics)
    def __setitem__(self, idx, value):
        r = jnp.asarray(self).at[_lift_index(idx)].set(_lift_arg(value))
        self.data = r.data if isinstance(r, SymTracer) else _objarr(r)

    def fill(self, v):
        self[...] = v

    def copy(self):
        return mk(self._trace, self.data.copy(), self.dtype)

    def astype(self, dtype, copy=True, **kw):
        return jax.lax.convert_element_type(self, dtype)

    def tolist(self):
        if has_sym(self.data):
            return [self[i].tolist() for i in range(self.shape[0])] if self.ndim else self
        return self.data.tolist()

    def block_until_ready(self):
        return self

    def item(self, *a):
        if a:
            return self[a].item()
        return SymTracer(self._trace, self.data.reshape(()), self.dtype)

    def transpose(self, *axes):
        return jnp.transpose(self, axes[0] if len(axes) == 1 and not isinstance(axes[0], int) else (axes or None))

    def toarray(self):
        return self


class MutArr(SymTracer):
    """A NumPy array with symbolic entries: views, in-place operations and
    aliasing as in NumPy; results of NumPy operations are NumPy arrays again."""

    def _wrap(self, r, *others):
        if any(isinstance(o, core.Tracer) and not isinstance(o, MutArr) or isinstance(o, jax.Array) for o in others):
            return r                                  # jax wins, as in the real dispatch
        if isinstance(r, (SymTracer, jax.Array)) and getattr(r, 'ndim', 0) > 0:
            return MutArr(current_trace(), data_of(r).copy(), r.dtype)
        return r

    def __array_function__(self, func, types, args, kwargs):
        return self._wrap(super().__array_function__(func, types, args, kwargs))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.get('out')
        r = super().__array_ufunc__(ufunc, method, *inputs, **kwargs)
        return r if out is not None else self._wrap(r)

    def __getitem__(self, idx):
        i = _lift_index(idx)
        t = i if isinstance(i, tuple) else (i,)
        if any(isinstance(x, SymTracer) for x in t):
            return self._wrap(SymTracer.__getitem__(self, idx))
        r = self.data[tuple(_orig_asarray(x) if isinstance(x, jax.Array) else x for x in t)]
        if isinstance(r, onp.ndarray):
            return MutArr(current_trace(), r, self.dtype)
        return mk(current_trace(), r, self.dtype)

    def __setitem__(self, idx, value):
        i = _lift_index(idx)
        t = i if isinstance(i, tuple) else (i,)
        if any(isinstance(x, SymTracer) for x in t):
            raise Unsupported('symbolic index of an assignment')
        t = tuple(_orig_asarray(x) if isinstance(x, jax.Array) else x for x in t)
        v = data_of(_lift_arg(value))
        if v.ndim == 0:
            v = v[()]
        self.data[t] = v

    def copy(self, *a, **k):
        return MutArr(self._trace, self.data.copy(), self.dtype)

    def astype(self, dtype, copy=True, **kw):
        return self._wrap(jax.lax.convert_element_type(self, dtype))

    @property
    def T(self):
        return MutArr(self._trace, self.data.T, self.dtype)

    def reshape(self, *a, **k):
        return MutArr(self._trace, self.data.reshape(*a, **k), self.dtype)

    def squeeze(self, axis=None):
        return MutArr(self._trace, self.data.squeeze(axis), self.dtype)


def _mut_ops():
    def binary(name):
        base = getattr(SymTracer, name)

        def f(self, o):
            r = base(self, _lift_arg(o))
            return r if r is NotImplemented else self._wrap(r, o)
        return f

    def inplace(name):
        base = getattr(SymTracer, name)

        def f(self, o):
            r = base(self, _lift_arg(o))
            self.data[...] = data_of(r)
            return self
        return f
    for op in ('add', 'sub', 'mul', 'truediv', 'pow', 'matmul', 'mod', 'floordiv'):
        setattr(MutArr, f'__{op}__', binary(f'__{op}__'))
        setattr(MutArr, f'__r{op}__', binary(f'__r{op}__'))
        if op != 'matmul':
            setattr(MutArr, f'__i{op}__', inplace(f'__{op}__'))
    for op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and', 'or'):
        setattr(MutArr, f'__{op}__', binary(f'__{op}__'))
    for op in ('neg', 'abs', 'pos', 'invert'):
        base = getattr(SymTracer, f'__{op}__')
        setattr(MutArr, f'__{op}__', (lambda b: lambda self: self._wrap(b(self)))(base))


_mut_ops()


def numpy_proxy():
    """The numpy module as the code under test sees it when float arrays it
    creates may receive symbolic entries."""
    def mut(d):
        return MutArr(current_trace(), _objarr(d), onp.float64)

    def is_float(dt):
        return dt is None or (not isinstance(dt, str) or dt[0] in 'fd') and onp.issubdtype(onp.dtype(dt), onp.floating)

    def maker(f):
        def g(shape, *a, **k):
            dt = k.get('dtype', (a[-1] if a else None))
            if f is onp.full:
                dt = k.get('dtype', a[1] if len(a) > 1 else (None if isinstance(a[0], float) else float))
                if contains_symbolic(a[0]):
                    r = mut(onp.zeros(shape))
                    r[...] = a[0]
                    return r
            return mut(f(shape, *a, **k)) if is_float(dt) else f(shape, *a, **k)
        return g

    def like(f, c):
        def g(x, dtype=None, **k):
            fl = onp.issubdtype(x.dtype if hasattr(x, 'dtype') else onp.asarray(x).dtype, onp.floating) if dtype is None else is_float(dtype)
            if not fl:
                return f(x, dtype=dtype, **k)
            return mut(onp.full(onp.shape(x), c))
        return g

    def array(x, dtype=None, **k):
        r = _np_array(x, dtype, **k)
        if isinstance(r, SymTracer) and not isinstance(r, MutArr):
            return MutArr(current_trace(), r.data.copy(), r.dtype)
        return r
    over = {n: maker(getattr(onp, n)) for n in ('zeros', 'ones', 'empty', 'full')}
    over.update(zeros_like=like(onp.zeros_like, 0.0), ones_like=like(onp.ones_like, 1.0), empty_like=like(onp.empty_like, 0.0),
                array=array, copy=lambda x, **k: array(x))
    return NSProxy(onp, over)


class NSProxy:
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


def _assign_out(o, r):
    if isinstance(o, MutArr):
        o.data[...] = data_of(r)
    elif isinstance(o, SymTracer):
        o.data = r.data.copy() if isinstance(r, SymTracer) else _objarr(r)
    else:
        o[...] = r


def _lift_index(idx):
    if isinstance(idx, SymTracer) and idx.dtype == bool:
        return concretize_bool(idx)
    if isinstance(idx, tuple):
        return tuple(_lift_index(i) for i in idx)
    if isinstance(idx, onp.ndarray) and idx.dtype == bool:
        return idx
    return idx


def _lift_arg(a):
    if isinstance(a, (Poly, SymBool)):
        return lift_scalar(a)
    if isinstance(a, onp.ndarray) and a.dtype == object:
        return mk(current_trace(), a, onp.float64)
    if isinstance(a, (list, tuple)) and any(isinstance(x, (SymTracer, Poly, SymBool)) for x in a):
        return type(a)(_lift_arg(x) for x in a)
    return a


def lift_scalar(e):
    d = onp.empty((), dtype=object)
    d[()] = e
    return SymTracer(current_trace(), d, bool if isinstance(e, SymBool) else onp.float64)


NP_OVERRIDE = {
    'absolute': lambda x, **k: jnp.abs(x),
    'abs': lambda x, **k: jnp.abs(x),
    'conjugate': lambda x, **k: x,
    'isnan': lambda x, **k: jnp.isnan(x),
    'array_equal': lambda a, b, **k: jnp.array_equal(a, b),
    'copyto': lambda a, b, **k: _assign_out(a, b),
    'atleast_1d': lambda *a: jnp.atleast_1d(*a),
    'where': lambda c, *a, **k: jnp.where(c, *a) if a else _nonzero(c),
    'nonzero': lambda c, **k: _nonzero(c),
    'flatnonzero': lambda c, **k: _nonzero(c.reshape(-1))[0],
    'shape': lambda a: a.shape,
    'ndim': lambda a: a.ndim,
    'size': lambda a: a.size,
}


_TRACE = []


def current_trace():
    if not _TRACE:
        raise Unsupported('no symbolic trace is active')
    return _TRACE[-1]


# ------------------------------------------------------------ value plumbing
def mk(trace, data, dtype):
    """SymTracer, or a concrete jax array when nothing in it is symbolic."""
    if not isinstance(data, onp.ndarray):
        d = onp.empty((), dtype=object)
        d[()] = data
        data = d
    if not has_sym(data):
        with core.set_current_trace(_eval):
            return jnp.asarray(_orig_array(data.tolist(), dtype=dtype).reshape(data.shape))
    return SymTracer(trace, data, dtype)


def data_of(x):
    if isinstance(x, SymTracer):
        return x.data
    return _objarr(x)


def concretize_bool(t):
    """Decide every symbolic boolean on this path (forks)."""
    flat = [bool(e) for e in t.data.reshape(-1)]
    return onp.asarray(flat, dtype=bool).reshape(t.data.shape)


def _nonzero(t):
    return onp.nonzero(concretize_bool(t if t.dtype == bool else t != 0))


RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


def _bc(fn, n):
    u = onp.frompyfunc(fn, n, 1)

    def f(*xs):
        r = u(*xs)
        if not isinstance(r, onp.ndarray):
            d = onp.empty((), dtype=object)
            d[()] = r
            r = d
        return r
    return f


def _fl(x):
    return x if isinstance(x, (Poly, float)) else (x.to_num() if isinstance(x, SymBool) else float(x))


def _e_div(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly) or isinstance(a, SymBool) or isinstance(b, SymBool):
        if isinstance(a, SymBool):
            a = a.to_num()
        if isinstance(b, SymBool):
            b = b.to_num()
        if not isinstance(a, Poly) and not isinstance(b, Poly):
            return _e_div(a, b)
        if not isinstance(b, Poly) and float(b) == 0.0:
            # IEEE: the sign of the numerator decides
            if bool(sym.cmp('==', a, 0.0)):
                return math.nan
            s = math.copysign(1.0, float(b))
            return s * math.inf if bool(sym.cmp('<', 0.0, a)) else -s * math.inf
        if not isinstance(a, Poly):
            if math.isinf(a) or math.isnan(a):
                return math.nan if math.isnan(a) else (a if bool(sym.cmp('<', 0.0, b)) else -a)
            if float(a) == 0.0:
                return 0.0
        return a / b
    a, b = float(a), float(b)
    if b == 0.0:
        if a == 0.0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def _e_add(a, b):
    if isinstance(a, (Poly, SymBool)) or isinstance(b, (Poly, SymBool)):
        return _fl(a) + _fl(b)
    return a + b


def _e_sub(a, b):
    if isinstance(a, (Poly, SymBool)) or isinstance(b, (Poly, SymBool)):
        return _fl(a) - _fl(b)
    return a - b


def _e_mul(a, b):
    if isinstance(a, (Poly, SymBool)) or isinstance(b, (Poly, SymBool)):
        a, b = _fl(a), _fl(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and math.isinf(x) and isinstance(y, Poly):
                if bool(sym.cmp('==', y, 0.0)):
                    return math.nan
                return x if bool(sym.cmp('<', 0.0, y)) else -x
        return a * b
    return a * b


def _idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _reg_ew(name, fn, n):
    g = _bc(fn, n)

    def r(tr, prim, args, params):
        return g(*[data_of(a) for a in args])
    RULES[name] = r


_reg_ew('add', _e_add, 2)
_reg_ew('add_any', _e_add, 2)
_reg_ew('sub', _e_sub, 2)
_reg_ew('mul', _e_mul, 2)
_reg_ew('div', _e_div, 2)
_reg_ew('neg', lambda a: -_fl(a), 1)
_reg_ew('max', lambda a, b: sym.bor(a, b) if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)) else sym.sym_max(_fl(a), _fl(b)), 2)
_reg_ew('min', lambda a, b: sym.band(a, b) if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)) else sym.sym_min(_fl(a), _fl(b)), 2)
_reg_ew('abs', lambda a: sym.sym_abs(_fl(a)), 1)
_reg_ew('sign', lambda a: sym.sym_sign(_fl(a)), 1)
_reg_ew('sqrt', lambda a: sym.sqrt(_fl(a)), 1)
_reg_ew('rsqrt', lambda a: _e_div(1.0, sym.sqrt(_fl(a))), 1)
_reg_ew('cbrt', lambda a: sym.root(_fl(a), 3), 1)
_reg_ew('square', lambda a: _fl(a) * _fl(a), 1)
_reg_ew('real', lambda a: a, 1)
_reg_ew('conj', lambda a: a, 1)
_reg_ew('copy', lambda a: a, 1)
_reg_ew('copy_p', lambda a: a, 1)
_reg_ew('stop_gradient', lambda a: a, 1)
_reg_ew('reduce_precision', lambda a: a, 1)
_reg_ew('is_finite', lambda a: True if isinstance(a, (Poly, SymBool)) else math.isfinite(a), 1)
_reg_ew('lt', lambda a, b: sym.cmp('<', a, b), 2)
_reg_ew('le', lambda a, b: sym.cmp('<=', a, b), 2)
_reg_ew('gt', lambda a, b: sym.cmp('<', b, a), 2)
_reg_ew('ge', lambda a, b: sym.cmp('<=', b, a), 2)
for _n in ('exp', 'log', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'tanh', 'asin', 'acos', 'atan', 'sinh', 'cosh',
           'erf', 'exp2', 'asinh', 'acosh', 'atanh'):
    _reg_ew(_n, (lambda nm: lambda a: sym.fn(nm, a) if isinstance(a, Poly) else getattr(math, nm)(float(a)))(_n), 1)
_reg_ew('logistic', lambda a: sym.fn('logistic', a) if isinstance(a, Poly) else 1 / (1 + math.exp(-float(a))), 1)
_reg_ew('atan2', lambda a, b: sym.fn('atan2', _fl(a), _fl(b)), 2)
from . import engine as _engine
_engine.FN_EVAL['logistic'] = lambda x: 1 / (1 + math.exp(-x))


def _e_eq(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        x = sym.bor(sym.band(a, sym.bnot(b)), sym.band(sym.bnot(a), b))
        return sym.bnot(x)
    return sym.cmp('==', a, b)


_reg_ew('eq', _e_eq, 2)
_reg_ew('ne', lambda a, b: sym.bnot(_e_eq(a, b)), 2)


def _bitwise(fb, fi):
    def g(a, b):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return fb(a, b)
        if not elem_is_sym(a) and not elem_is_sym(b):
            return fi(a, b)
        raise Unsupported('bitwise operation on symbolic numbers')
    return g


_reg_ew('and', _bitwise(sym.band, lambda a, b: a & b), 2)
_reg_ew('or', _bitwise(sym.bor, lambda a, b: a | b), 2)
_reg_ew('xor', _bitwise(lambda a, b: sym.bnot(_e_eq(a, b)), lambda a, b: a ^ b), 2)
_reg_ew('not', lambda a: sym.bnot(a) if isinstance(a, (SymBool, bool)) else ~a, 1)
_reg_ew('clamp', lambda lo, x, hi: sym.sym_min(sym.sym_max(_fl(x), _fl(lo)), _fl(hi)), 3)


@rule('rem', 'floor', 'ceil', 'round', 'nextafter')
def _unsup(tr, prim, args, params):
    raise Unsupported(f'{prim.name} of a symbolic value')


@rule('integer_pow')
def _ipow(tr, prim, args, params):
    y = params['y']
    return _bc(lambda a: sym.power(_fl(a), y) if y >= 0 or isinstance(a, Poly) else _e_div(1.0, float(a) ** -y), 1)(data_of(args[0]))


@rule('pow')
def _pow(tr, prim, args, params):
    def f(a, b):
        if isinstance(b, (Poly, SymBool)):
            if isinstance(a, Poly) or not isinstance(b, Poly):
                raise Unsupported('symbolic exponent')
            return sym.fn('exp', b * math.log(a)) if a > 0 else math.nan
        if not isinstance(a, Poly):
            a = _fl(a)
            if isinstance(a, Poly):
                return sym.power(a, float(b))
            try:
                r = float(a) ** float(b)
                return math.nan if isinstance(r, complex) else r
            except (ZeroDivisionError, OverflowError):
                return math.inf
        return sym.power(a, float(b))
    return _bc(f, 2)(*[data_of(a) for a in args])


@rule('select_n')
def _select(tr, prim, args, params):
    which = data_of(args[0])
    cases = [data_of(a) for a in args[1:]]

    def f(w, *cs):
        if isinstance(w, SymBool):
            return sym.ite(w, cs[1], cs[0])
        return cs[int(w)]
    if which.shape == () and cases[0].shape != ():
        w0 = which[()]
        which = onp.empty(cases[0].shape, dtype=object)
        which.fill(w0)
    return _bc(f, 1 + len(cases))(which, *cases)


@rule('convert_element_type')
def _cvt(tr, prim, args, params):
    dt = onp.dtype(params['new_dtype'])
    d = data_of(args[0])
    src = args[0].dtype
    if dt == bool:
        return _bc(lambda a: a if isinstance(a, (SymBool, bool)) else sym.bnot(sym.cmp('==', a, 0.0)), 1)(d)
    if src == bool:
        return _bc(lambda a: a.to_num() if isinstance(a, SymBool) else (int(a) if dt.kind in 'iu' else float(a)), 1)(d)
    if dt.kind in 'iu':
        def f(a):
            if isinstance(a, Poly):
                if onp.dtype(src).kind in 'iu':
                    return a
                raise Unsupported('integer cast of a symbolic value')
            return int(a)
        return _bc(f, 1)(d)
    return _bc(lambda a: a if isinstance(a, (Poly,)) else float(_fl(a)) if not isinstance(a, SymBool) else a.to_num(), 1)(d)


@rule('reduce_sum')
def _rsum(tr, prim, args, params):
    return _reduce(args[0], params['axes'], sym.sum_terms, 0.0)


def _reduce(x, axes, f, empty):
    d = data_of(x)
    axes = tuple(a % d.ndim for a in axes)
    keep = [i for i in range(d.ndim) if i not in axes]
    out_shape = tuple(d.shape[i] for i in keep)
    t = onp.transpose(d, keep + list(axes)).reshape(out_shape + (-1,))
    out = onp.empty(out_shape, dtype=object)
    for idx in onp.ndindex(*out_shape):
        v = t[idx]
        out[idx] = f(list(v)) if len(v) else empty
    return out


def _fold(op):
    def f(vs):
        r = vs[0]
        for v in vs[1:]:
            r = op(r, v)
        return r
    return f


@rule('reduce_max')
def _rmax(tr, prim, args, params):
    return _reduce(args[0], params['axes'], _fold(lambda a, b: sym.bor(a, b) if isinstance(a, (SymBool, bool)) else sym.sym_max(a, b)), -math.inf)


@rule('reduce_min')
def _rmin(tr, prim, args, params):
    return _reduce(args[0], params['axes'], _fold(lambda a, b: sym.band(a, b) if isinstance(a, (SymBool, bool)) else sym.sym_min(a, b)), math.inf)


@rule('reduce_prod')
def _rprod(tr, prim, args, params):
    return _reduce(args[0], params['axes'], _fold(_e_mul), 1.0)


@rule('reduce_and')
def _rand(tr, prim, args, params):
    return _reduce(args[0], params['axes'], sym.band_all, True)


@rule('reduce_or')
def _ror(tr, prim, args, params):
    return _reduce(args[0], params['axes'], sym.bor_any, False)


@rule('argmax', 'argmin')
def _argmax(tr, prim, args, params):
    d = data_of(args[0])
    (ax,) = params['axes']
    m = onp.moveaxis(d, ax, -1)
    out = onp.empty(m.shape[:-1], dtype=object)
    for idx in onp.ndindex(*m.shape[:-1]):
        best = 0
        for j in range(1, m.shape[-1]):
            c = sym.cmp('<', m[idx][best], m[idx][j]) if prim.name == 'argmax' else sym.cmp('<', m[idx][j], m[idx][best])
            if bool(c):
                best = j
        out[idx] = best
    return out


@rule('cumsum')
def _cumsum(tr, prim, args, params):
    d = data_of(args[0])
    ax = params['axis']
    m = onp.moveaxis(d, ax, 0).copy()
    if params.get('reverse'):
        m = m[::-1].copy()
    for j in range(1, m.shape[0]):
        m[j] = _bc(_e_add, 2)(m[j], m[j - 1]) if m.ndim > 1 else _e_add(m[j], m[j - 1])
    if params.get('reverse'):
        m = m[::-1]
    return onp.moveaxis(m, 0, ax)


@rule('dot_general')
def _dot(tr, prim, args, params):
    (lc, rc), (lb, rb) = params['dimension_numbers']
    a, b = data_of(args[0]), data_of(args[1])
    lf = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(b.ndim) if i not in rc and i not in rb]
    bs = tuple(a.shape[i] for i in lb)
    ms = tuple(a.shape[i] for i in lf)
    ns = tuple(b.shape[i] for i in rf)
    ks = tuple(a.shape[i] for i in lc)
    B, M, N, K = (int(onp.prod(s, dtype=int)) for s in (bs, ms, ns, ks))
    a = onp.transpose(a, list(lb) + lf + list(lc)).reshape(B, M, K)
    b = onp.transpose(b, list(rb) + rf + list(rc)).reshape(B, N, K)
    out = onp.empty((B, M, N), dtype=object)
    for i in range(B):
        for m in range(M):
            am = a[i, m]
            for n in range(N):
                out[i, m, n] = sym.dot_terms(am, b[i, n])
    return out.reshape(bs + ms + ns)


# ------------------------------------------------------------- data movement
def _ids(shape, start):
    n = int(onp.prod(shape, dtype=int))
    return onp.arange(start, start + n, dtype=onp.int64).reshape(shape)


def _native(prim, args, params):
    with core.set_current_trace(_eval):
        return prim.bind(*[jnp.asarray(a) if isinstance(a, onp.ndarray) else a for a in args], **params)


def _movement(tr, prim, args, params, data_args):
    """Run prim natively on element identifiers; map back."""
    pool = []
    start = 1
    nargs = list(args)
    flat = [None]
    for k in data_args:
        d = data_of(args[k])
        nargs[k] = _ids(d.shape, start)
        start += d.size
        flat.extend(d.reshape(-1).tolist())
    for k, a in enumerate(nargs):
        if k not in data_args and isinstance(a, SymTracer):
            c = a.to_concrete_value()
            if c is None:
                raise Unsupported(f'symbolic index in {prim.name}')
            nargs[k] = c
    outs = _native(prim, nargs, params)
    multi = prim.multiple_results
    res = []
    for o in (outs if multi else [outs]):
        o = _orig_asarray(o)
        r = onp.empty(o.shape, dtype=object)
        rf = r.reshape(-1)
        for j, i in enumerate(o.reshape(-1).tolist()):
            rf[j] = flat[i] if i > 0 else math.nan
        res.append(rf.reshape(o.shape))
    return res if multi else res[0]


for _n in ('reshape', 'broadcast_in_dim', 'transpose', 'squeeze', 'expand_dims', 'slice', 'rev', 'copy', 'split', 'unstack'):
    RULES[_n] = (lambda: lambda tr, prim, args, params: _movement(tr, prim, args, params, [0]))()


@rule('concatenate', 'stack')
def _concat(tr, prim, args, params):
    return _movement(tr, prim, args, params, list(range(len(args))))


@rule('pad')
def _pad(tr, prim, args, params):
    return _movement(tr, prim, args, params, [0, 1])


@rule('dynamic_slice')
def _dslice(tr, prim, args, params):
    return _movement(tr, prim, args, params, [0])


@rule('dynamic_update_slice')
def _dus(tr, prim, args, params):
    return _movement(tr, prim, args, params, [0, 1])


@rule('gather')
def _gather(tr, prim, args, params):
    params = dict(params)
    fill = params.get('fill_value')
    params['fill_value'] = 0
    return _movement(tr, prim, args, params, [0])


def _scatter_dest(prim, args, params):
    """Destination (flat operand index, or -1) of every update element."""
    op, idx, upd = args
    oshape, ushape = tuple(op.shape), tuple(upd.shape)
    n = int(onp.prod(oshape, dtype=int))
    from jax._src.lax import slicing
    if isinstance(idx, SymTracer):
        c = idx.to_concrete_value()
        if c is None:
            raise Unsupported('symbolic scatter index')
        idx = c
    with core.set_current_trace(_eval):
        idx = jnp.asarray(idx)
        z = jnp.zeros(oshape, jnp.float64)

        def f(u):
            return slicing.scatter_add(z, idx, u, params['dimension_numbers'],
                                       indices_are_sorted=params['indices_are_sorted'],
                                       unique_indices=False, mode=params['mode'])
        _, vjp = jax.vjp(f, jnp.zeros(ushape, jnp.float64))
        ct = jnp.asarray(onp.arange(1, n + 1, dtype=onp.float64).reshape(oshape))
        (g,) = vjp(ct)
        return onp.rint(_orig_asarray(g)).astype(onp.int64) - 1


@rule('scatter-add', 'scatter_add', 'scatter', 'scatter-mul', 'scatter_mul', 'scatter-min', 'scatter-max', 'scatter-sub')
def _scatter(tr, prim, args, params):
    dest = _scatter_dest(prim, args, params).reshape(-1)
    out = data_of(args[0]).copy().reshape(-1)
    shape = args[0].shape
    upd = data_of(args[2]).reshape(-1)
    name = prim.name.replace('_', '-')
    if name == 'scatter-add':
        acc = {}
        for j, d in enumerate(dest.tolist()):
            if d >= 0:
                acc.setdefault(d, []).append(upd[j])
        for d, l in acc.items():
            out[d] = sym.sum_terms([out[d]] + l)
    else:
        op = {'scatter': lambda a, b: b, 'scatter-mul': _e_mul, 'scatter-sub': _e_sub,
              'scatter-min': lambda a, b: sym.sym_min(_fl(a), _fl(b)),
              'scatter-max': lambda a, b: sym.sym_max(_fl(a), _fl(b))}[name]
        for j, d in enumerate(dest.tolist()):
            if d >= 0:
                out[d] = op(out[d], upd[j])
    return out.reshape(shape)


@rule('sort')
def _sort(tr, prim, args, params):
    raise Unsupported('sort of symbolic values')


EIGENBASES = []       # orthonormal matrices in which the harness built its symmetric inputs


def eigen_of(m):
    """Spectral decomposition of one symmetric matrix of terms, ascending, in one of the known eigenbases."""
    n = m.shape[0]
    if not has_sym(m):
        w, v = onp.linalg.eigh(onp.array(m.tolist(), dtype=float).reshape(m.shape))
        return w.tolist(), v
    for q in EIGENBASES:
        if q.shape != m.shape:
            continue
        d = [[sym.snap(sum((m[i, j] * (q[i, a] * q[j, b]) for i in range(n) for j in range(n)), 0.0)) for b in range(n)] for a in range(n)]
        if all(not isinstance(d[a][b], Poly) and d[a][b] == 0.0 for a in range(n) for b in range(n) if a != b):
            w = [d[a][a] for a in range(n)]
            order = []
            for k in range(n):          # insertion sort, forking on every undecided comparison
                p = len(order)
                while p > 0 and bool(sym.cmp('<', w[k], w[order[p - 1]])):
                    p -= 1
                order.insert(p, k)
            return [w[k] for k in order], q[:, order]
    raise Unsupported('eigendecomposition in an unknown basis')


@rule('eigh')
def _eigh(tr, prim, args, params):
    x = data_of(args[0])
    if params.get('subset_by_index') not in (None, (0, x.shape[-1])):
        raise Unsupported('partial eigendecomposition')
    w, v = onp.empty(x.shape[:-1], dtype=object), onp.empty(x.shape, dtype=object)
    for i in onp.ndindex(*x.shape[:-2]):
        a, b = eigen_of(x[i])
        for k, e in enumerate(a):
            w[i + (k,)] = e
        v[i] = b.astype(object)
    return v, w


@rule('optimization_barrier')
def _ob(tr, prim, args, params):
    return [data_of(a) for a in args]


# --------------------------------------------------------------- structured
def _closed(tr, jaxpr, args):
    with core.set_current_trace(tr):
        return list(core.eval_jaxpr(jaxpr.jaxpr, jaxpr.consts, *args)) if hasattr(jaxpr, 'consts') and hasattr(jaxpr, 'jaxpr') \
            else list(core.eval_jaxpr(jaxpr, (), *args))


def _call_rule(key):
    def r(tr, prim, args, params):
        j = params[key]
        name = str(params.get('name', ''))
        norm = 'norm' in name
        if norm:
            sym.NONNEG[0] += 1
        try:
            return Raw(_closed(tr, j, args))
        finally:
            if norm:
                sym.NONNEG[0] -= 1
    return r


class Raw:
    """Already lifted outputs."""

    def __init__(self, outs):
        self.outs = outs


for _n, _k in (('jit', 'jaxpr'), ('pjit', 'jaxpr'), ('closed_call', 'call_jaxpr'), ('core_call', 'call_jaxpr'),
               ('remat', 'jaxpr'), ('checkpoint', 'jaxpr'), ('custom_jvp_call', 'call_jaxpr'),
               ('custom_vjp_call', 'call_jaxpr'), ('custom_vjp_call_jaxpr', 'fun_jaxpr'),
               ('custom_lin', 'jaxpr')):
    RULES[_n] = _call_rule(_k)


@rule('cond')
def _cond(tr, prim, args, params):
    idx, ops = args[0], args[1:]
    branches = params['branches']
    if isinstance(idx, SymTracer):
        e = idx.data.reshape(-1)[0]
        if isinstance(e, Poly):
            # index derived from a boolean: decide it
            k = None
            for i in range(len(branches)):
                if bool(sym.cmp('==', e, float(i))):
                    k = i
                    break
            k = len(branches) - 1 if k is None else k
        else:
            k = int(bool(e))
    else:
        k = int(idx)
        k = min(max(k, 0), len(branches) - 1)
    return Raw(_closed(tr, branches[k], ops))


@rule('while')
def _while(tr, prim, args, params):
    cc, bc = params['cond_nconsts'], params['body_nconsts']
    cconst, bconst, carry = args[:cc], args[cc:cc + bc], list(args[cc + bc:])
    limit = 2000
    for _ in range(limit):
        (p,) = _closed(tr, params['cond_jaxpr'], [*cconst, *carry])
        if not bool(p):
            return Raw(carry)
        carry = _closed(tr, params['body_jaxpr'], [*bconst, *carry])
    raise Unsupported('while loop exceeds the unrolling bound')


@rule('scan')
def _scan(tr, prim, args, params):
    nc, ncar, length, rev = params['num_consts'], params['num_carry'], params['length'], params['reverse']
    consts, carry, xs = args[:nc], list(args[nc:nc + ncar]), args[nc + ncar:]
    ys = []
    with core.set_current_trace(tr):
        for i in (reversed(range(length)) if rev else range(length)):
            outs = _closed(tr, params['jaxpr'], [*consts, *carry, *[x[i] for x in xs]])
            carry = outs[:ncar]
            ys.append(outs[ncar:])
        if rev:
            ys = ys[::-1]
        n_y = len(ys[0]) if ys else 0
        stacked = [jnp.stack([y[k] for y in ys]) for k in range(n_y)]
    return Raw(list(carry) + stacked)


# ------------------------------------------------------------------- linear algebra
def _det_n(m, n):
    if n == 1:
        return m[..., 0, 0]
    if n == 2:
        return m[..., 0, 0] * m[..., 1, 1] - m[..., 0, 1] * m[..., 1, 0]
    if n == 3:
        return (m[..., 0, 0] * (m[..., 1, 1] * m[..., 2, 2] - m[..., 1, 2] * m[..., 2, 1])
                - m[..., 0, 1] * (m[..., 1, 0] * m[..., 2, 2] - m[..., 1, 2] * m[..., 2, 0])
                + m[..., 0, 2] * (m[..., 1, 0] * m[..., 2, 1] - m[..., 1, 1] * m[..., 2, 0]))
    return None


_orig_det, _orig_inv, _orig_lsolve = jnp.linalg.det, jnp.linalg.inv, jnp.linalg.solve


def sym_det(a):
    a = jnp.asarray(a)
    if a.shape[-1] > 3:
        return _orig_det(a)
    return _det_n(a, a.shape[-1])


def sym_inv(a):
    a = jnp.asarray(a)
    n = a.shape[-1]
    if n > 3:
        return _orig_inv(a)
    d = _det_n(a, n)
    if n == 1:
        adj = jnp.ones_like(a)
    elif n == 2:
        adj = jnp.stack([jnp.stack([a[..., 1, 1], -a[..., 0, 1]], -1),
                         jnp.stack([-a[..., 1, 0], a[..., 0, 0]], -1)], -2)
    elif n == 3:
        def c(i, j):
            r = [k for k in range(3) if k != i]
            s = [k for k in range(3) if k != j]
            v = a[..., r[0], s[0]] * a[..., r[1], s[1]] - a[..., r[0], s[1]] * a[..., r[1], s[0]]
            return v if (i + j) % 2 == 0 else -v
        adj = jnp.stack([jnp.stack([c(j, i) for j in range(3)], -1) for i in range(3)], -2)
    return adj / d[..., None, None]


def sym_solve(a, b):
    a = jnp.asarray(a)
    b = jnp.asarray(b)
    if a.shape[-1] > 3:
        if not isinstance(a, SymTracer) and not isinstance(a, core.Tracer) and isinstance(b, SymTracer):
            ai = jnp.asarray(onp.linalg.inv(onp.asarray(a)))
        else:
            return _orig_lsolve(a, b)
    else:
        ai = sym_inv(a)
    if b.ndim == a.ndim - 1:
        return jnp.einsum('...ij,...j->...i', ai, b)
    return ai @ b


# -------------------------------------------------------------------- the trace
class SymTrace(core.Trace):
    def __init__(self):
        super().__init__()
        self.prim_count = {}

    def stage_value(self, val):
        if isinstance(val, SymTracer):
            return val
        with core.set_current_trace(_eval):
            return _eval.stage_value(val)

    def process_primitive(self, primitive, tracers, params, /):
        for t in tracers:
            if isinstance(t, SymTracer):
                break
            if isinstance(t, core.Tracer):
                raise Unsupported(f'foreign tracer in {primitive.name}')
        else:
            return _native(primitive, [t for t in tracers], params)
        name = primitive.name
        self.prim_count[name] = self.prim_count.get(name, 0) + 1
        r = RULES.get(name)
        if r is None:
            # last resort: all concrete after all?
            cs = [t.to_concrete_value() if isinstance(t, SymTracer) else t for t in tracers]
            if all(c is not None for c in cs):
                return _native(primitive, cs, params)
            raise Unsupported(f'primitive {name}')
        with core.set_current_trace(self):
            out = r(self, primitive, list(tracers), params)
        if isinstance(out, Raw):
            return out.outs if primitive.multiple_results else out.outs[0]
        dts = self._out_dtypes(primitive, tracers, params)
        if primitive.multiple_results:
            return [mk(self, o, d) for o, d in zip(out, dts)]
        return mk(self, out, dts[0])

    def _out_dtypes(self, primitive, tracers, params):
        name = primitive.name
        if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'is_finite', 'reduce_and', 'reduce_or'):
            return [onp.dtype(bool)]
        if name == 'convert_element_type':
            return [onp.dtype(params['new_dtype'])]
        if name in ('argmax', 'argmin'):
            return [onp.dtype(params['index_dtype'])]
        if name == 'select_n':
            return [tracers[1].dtype]
        if name in ('optimization_barrier', 'split', 'unstack'):
            return [t.dtype for t in tracers] if name == 'optimization_barrier' else [tracers[0].dtype] * 1000
        if name == 'clamp':
            return [tracers[1].dtype]
        if name == 'eigh':
            return [tracers[0].dtype] * 2
        return [onp.result_type(tracers[0].dtype)]

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, /, *, symbolic_zeros=False):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, /, **_):
        with core.set_current_trace(self):
            return fun.call_wrapped(*tracers)


def contains_symbolic(x, depth=0):
    if isinstance(x, (SymTracer, Poly, SymBool)):
        return True
    if isinstance(x, onp.ndarray):
        return x.dtype == object and x.size and has_sym(x)
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(contains_symbolic(y, depth + 1) for y in x)
    return False


def _np_array(x, dtype=None, *a, **k):
    if isinstance(x, SymTracer):
        y = x.copy()
        return y
    if contains_symbolic(x):
        return _to_sym(x)
    return _orig_array(x, dtype, *a, **k) if dtype is not None else _orig_array(x, *a, **k)


def _np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, SymTracer):
        return x
    if contains_symbolic(x):
        return _to_sym(x)
    return _orig_asarray(x, dtype, *a, **k) if dtype is not None else _orig_asarray(x, *a, **k)


def _to_sym(x):
    if isinstance(x, SymTracer):
        return x
    if isinstance(x, (Poly, SymBool)):
        return lift_scalar(x)
    if isinstance(x, onp.ndarray):
        return mk(current_trace(), x, onp.float64)
    return jnp.stack([jnp.asarray(_to_sym(y) if contains_symbolic(y) else y) for y in x])


def _wrap_concretize(orig):
    """argwhere/nonzero-like: the mask is decided on each path."""
    def f(a, *args, **kw):
        if isinstance(a, SymTracer):
            m = concretize_bool(a) if a.dtype == bool else None
            if m is None:
                raise Unsupported('argwhere of symbolic numbers')
            a = m
        return orig(a, *args, **kw)
    return f


def _wrap_where(orig):
    def f(cond, x=None, y=None, *args, **kw):
        if x is None and y is None and not args and not kw:
            if isinstance(cond, SymTracer):
                m = concretize_bool(cond)
                return _orig_nonzero(m)
        return orig(cond, x, y, *args, **kw) if not (x is None and y is None) else orig(cond, *args, **kw)
    return f


_orig_nonzero = onp.nonzero


@contextlib.contextmanager
def patched(pairs):
    saved = []
    try:
        for obj, name, val in pairs:
            saved.append((obj, name, getattr(obj, name, None), hasattr(obj, name)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, old, had in reversed(saved):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


@contextlib.contextmanager
def symbolic_mode():
    tr = SymTrace()
    pairs = [
        (onp, 'array', _np_array), (onp, 'asarray', _np_asarray),
        (jnp.linalg, 'det', sym_det), (jnp.linalg, 'inv', sym_inv), (jnp.linalg, 'solve', sym_solve),
        (jnp, 'argwhere', _wrap_concretize(jnp.argwhere)), (jnp, 'nonzero', _wrap_concretize(jnp.nonzero)),
        (jnp, 'flatnonzero', _wrap_concretize(jnp.flatnonzero)),
    ]
    _TRACE.append(tr)
    try:
        with patched(pairs), core.set_current_trace(tr):
            NP_OVERRIDE['argwhere'] = jnp.argwhere
            NP_OVERRIDE['nonzero'] = jnp.nonzero
            yield tr
    finally:
        _TRACE.pop()


def sym_array(elements, shape):
    d = onp.empty(shape, dtype=object)
    f = d.reshape(-1)
    for i, e in enumerate(elements):
        f[i] = e
    return SymTracer(current_trace(), f.reshape(shape), onp.float64)
