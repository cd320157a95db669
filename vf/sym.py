"""Symbolic scalars: multivariate polynomials with float coefficients over atoms.

An element of a symbolic array is either a Python float (concrete) or a Poly.
Atoms are input variables or defined terms (denominators, square roots,
if-then-else, opaque functions).  Monomials may carry negative exponents of
atoms, so x * (1/x) cancels structurally.
"""
import math
import z3

ATOMS = []            # index -> Atom
_KEYS = {}            # hash-consing of defined atoms


class Unsupported(Exception):
    """The encoding does not cover an operation: the run is inconclusive."""


class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'z', 'lo', 'hi', '_def')

    def __init__(self, kind, args, name, lo=None, hi=None):
        self.id = len(ATOMS)
        self.kind = kind
        self.args = args
        self.name = name
        self.lo, self.hi = lo, hi
        self.z = z3.Real(f'{name}')
        self._def = None
        ATOMS.append(self)


def reset_atoms():
    ATOMS.clear()
    _KEYS.clear()


def new_var(name, lo=None, hi=None):
    return Poly({((Atom('var', (), name, lo, hi).id, 1),): 1.0})


# ---------------------------------------------------------------- polynomials
def snap(p, digits=12):
    """p with the rounding residue of its coefficients removed."""
    if not isinstance(p, Poly):
        return 0.0 if abs(p) < 10.0 ** -digits else p
    t = {}
    for m, c in p.t.items():
        r = round(c, digits)
        if r != 0.0:
            t[m] = r
    return _mk(t)


def _num(x):
    """x as float if it is a plain number, else None."""
    if isinstance(x, float):
        return x
    if isinstance(x, Poly):
        return None
    if isinstance(x, (bool, int)):
        return float(x)
    try:
        return float(x)
    except TypeError:
        return None


def _mk(t):
    if not t:
        return 0.0
    if len(t) == 1:
        c = t.get(())
        if c is not None:
            return c
    return Poly(t)


def _mark(p, nn):
    if nn and isinstance(p, Poly):
        p.nn = True
    return p


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    return tuple(sorted(d.items()))


_CANCEL = 1e-14


class Poly:
    __slots__ = ('t', '_k', 'nn')
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, t, nn=False):
        self.t = t
        self._k = None
        self.nn = nn                   # a sum of squares by construction

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o.to_num()
        if isinstance(o, Poly):
            a, b = self.t, o.t
            if len(a) < len(b):
                a, b = b, a
            t = dict(a)
            for m, c in b.items():
                p = t.get(m)
                if p is None:
                    t[m] = c
                else:
                    s = p + c
                    if abs(s) <= _CANCEL * (abs(p) if abs(p) > abs(c) else abs(c)):
                        del t[m]
                    else:
                        t[m] = s
            return _mark(_mk(t), self.nn and o.nn)
        n = _num(o)
        if n is None:
            return NotImplemented
        if n == 0.0:
            return self
        if n != n or n in (math.inf, -math.inf):
            return n
        t = dict(self.t)
        p = t.get((), 0.0)
        s = p + n
        if abs(s) <= _CANCEL * max(abs(p), abs(n)):
            t.pop((), None)
        else:
            t[()] = s
        return _mark(_mk(t), self.nn and n >= 0)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Poly):
            return self + (-o)
        if isinstance(o, SymBool):
            return self + (-o.to_num())
        n = _num(o)
        if n is None:
            return NotImplemented
        return self + (-n)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o.to_num()
        if isinstance(o, Poly):
            a, b = self.t, o.t
            if len(a) < len(b):
                a, b = b, a
            t = {}
            for m2, c2 in b.items():
                for m1, c1 in a.items():
                    m = _mono_mul(m1, m2)
                    c = c1 * c2
                    p = t.get(m)
                    if p is None:
                        t[m] = c
                    else:
                        s = p + c
                        if abs(s) <= _CANCEL * max(abs(p), abs(c)):
                            del t[m]
                        else:
                            t[m] = s
            return _mark(reduce_sqrt(_mk(t)), self.t is o.t or (self.nn and o.nn) or self.t == o.t)
        n = _num(o)
        if n is None:
            return NotImplemented
        if n == 0.0:
            return 0.0
        if n == 1.0:
            return self
        if n != n:
            return n
        if n in (math.inf, -math.inf):
            raise Unsupported('infinity times a symbolic value')
        return Poly({m: c * n for m, c in self.t.items()}, self.nn and n > 0)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Poly):
            return self * inv(o)
        if isinstance(o, SymBool):
            return self * inv(o.to_num())
        n = _num(o)
        if n is None:
            return NotImplemented
        if n != n:
            return n
        if n in (math.inf, -math.inf):
            return 0.0
        if n == 0.0:
            return div0(self)
        return Poly({m: c / n for m, c in self.t.items()}, self.nn and n > 0)

    def __rtruediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        r = inv(self)
        return r * n

    def __pow__(self, e):
        n = _num(e)
        if n is None:
            raise Unsupported('symbolic exponent')
        return power(self, n)

    def __abs__(self):
        return sym_abs(self)

    # -- comparisons give SymBool
    def __lt__(self, o): return cmp('<', self, o)
    def __le__(self, o): return cmp('<=', self, o)
    def __gt__(self, o): return cmp('<', o, self)
    def __ge__(self, o): return cmp('<=', o, self)
    def __eq__(self, o): return cmp('==', self, o)
    def __ne__(self, o): return bnot(cmp('==', self, o))

    def __bool__(self):
        return bool(self != 0.0)

    def sqrt(self): return sqrt(self)
    def conjugate(self): return self

    def item(self): return self

    def copy(self): return self

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        # whole numbers (counts of conditions): one path per value
        for v in sorted(range(-4, 65), key=abs):
            if bool(self == float(v)):
                return v
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        raise Unsupported('index of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        items = list(self.t.items())[:6]
        s = ' + '.join(f'{c:.6g}' + ''.join(f'*{ATOMS[i].name}' + (f'^{e}' if e != 1 else '') for i, e in m)
                       for m, c in items)
        return s + (' + ...' if len(self.t) > 6 else '')

    __str__ = __repr__

    def key(self):
        """Normalised key: coefficients relative to the largest, 10 digits."""
        if self._k is None:
            s = max(abs(c) for c in self.t.values())
            items = []
            for m in sorted(self.t):
                r = self.t[m] / s
                if abs(r) < 1e-11:
                    continue
                items.append((m, round(r, 10)))
            self._k = (tuple(items), float('%.10g' % s))
        return self._k


def sum_terms(items):
    """Sum of an iterable of elements (floats, Polys, SymBools)."""
    items = list(items)
    const = 0.0
    polys = []
    for x in items:
        if isinstance(x, Poly):
            polys.append(x)
        elif isinstance(x, SymBool):
            x = x.to_num()
            if isinstance(x, Poly):
                polys.append(x)
            else:
                const += x
        else:
            const += x
    if not polys:
        return float(const)
    if len(polys) == 1:
        return polys[0] + const
    t = dict(polys[0].t)
    for p in polys[1:]:
        for m, c in p.t.items():
            q = t.get(m)
            if q is None:
                t[m] = c
            else:
                s = q + c
                if abs(s) <= _CANCEL * (abs(q) if abs(q) > abs(c) else abs(c)):
                    del t[m]
                else:
                    t[m] = s
    return _mark(_mk(t), all(p.nn for p in polys)) + const


def _nonfinite(x):
    return isinstance(x, float) and not math.isfinite(x)


def _nonfinite_mul(x, y):
    """Product where one factor is NaN or infinite (IEEE; the sign of a
    symbolic factor is decided by a branch)."""
    if not _nonfinite(x):
        x, y = y, x
    if isinstance(y, SymBool):
        y = y.to_num()
    if x != x or not isinstance(y, Poly):
        return x * float(y) if not isinstance(y, Poly) else x
    if bool(cmp('==', y, 0.0)):
        return math.nan
    return x if bool(cmp('<', 0.0, y)) else -x


def dot_terms(xs, ys):
    """Sum of products."""
    xs, ys = list(xs), list(ys)
    nn = all(_square(x, y) for x, y in zip(xs, ys))
    bad = [i for i, (x, y) in enumerate(zip(xs, ys)) if _nonfinite(x) or _nonfinite(y)]
    if bad:
        acc = 0.0
        for i in bad:
            acc += _nonfinite_mul(xs[i], ys[i])
        return acc
    out = []
    const = 0.0
    t = {}
    for x, y in zip(xs, ys):
        px, py = isinstance(x, Poly), isinstance(y, Poly)
        if px and not py and not isinstance(y, SymBool):
            if y == 0:
                continue
            y = float(y)
            for m, c in x.t.items():
                q = t.get(m)
                c = c * y
                if q is None:
                    t[m] = c
                else:
                    s = q + c
                    if abs(s) <= _CANCEL * (abs(q) if abs(q) > abs(c) else abs(c)):
                        del t[m]
                    else:
                        t[m] = s
        elif py and not px and not isinstance(x, SymBool):
            if x == 0:
                continue
            x = float(x)
            for m, c in y.t.items():
                q = t.get(m)
                c = c * x
                if q is None:
                    t[m] = c
                else:
                    s = q + c
                    if abs(s) <= _CANCEL * (abs(q) if abs(q) > abs(c) else abs(c)):
                        del t[m]
                    else:
                        t[m] = s
        elif not px and not py and not isinstance(x, SymBool) and not isinstance(y, SymBool):
            const += float(x) * float(y)
        else:
            out.append(x * y)
    r = _mk(t) if t else 0.0
    if out:
        r = sum_terms(out + [r])
    return _mark(r + const, nn)


def _square(x, y):
    px, py = isinstance(x, Poly), isinstance(y, Poly)
    if px and py:
        return (x.nn and y.nn) or x.t is y.t or (len(x.t) == len(y.t) and x.t == y.t)
    if px or py:
        p, c = (x, y) if px else (y, x)
        return p.nn and isinstance(c, (int, float)) and c >= 0
    return isinstance(x, (int, float)) and isinstance(y, (int, float)) and x * y >= 0


class DivByZero(Exception):
    """The real code divides by an exact zero on this path."""


def div0(p):
    # concrete zero denominator under a symbolic numerator: IEEE would give
    # +-inf or nan depending on the numerator; represent as nan when p may be 0
    raise Unsupported('symbolic value divided by concrete zero')


def _leading(p):
    """(scale, normalised poly): p = scale * q with q's largest-|coef| = +1
    for the first such monomial in sorted order."""
    items = sorted(p.t.items())
    s = max(abs(c) for _, c in items)
    lead = next(c for _, c in items if abs(c) >= s * (1 - 1e-9))
    q = {}
    for m, c in items:
        r = c / lead
        if abs(r) > 1e-13:
            q[m] = r
    return lead, Poly(q)


def defined(kind, args, key, name, lo=None, hi=None):
    k = (kind, key)
    a = _KEYS.get(k)
    if a is None:
        a = Atom(kind, args, f'{name}!{len(ATOMS)}', lo, hi)
        _KEYS[k] = a
    return a


def inv(p):
    if not isinstance(p, Poly):
        return 1.0 / p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return Poly({tuple((i, -e) for i, e in m): 1.0 / c})
    s, q = _leading(p)
    lo, hi = interval_of(q) if len(q.t) <= 200 else (None, None)
    q.nn = p.nn and s > 0
    if lo is None or lo < 0:
        lo = 0.0 if _visibly_nonneg(q) else lo
    a = defined('den', (q,), q.key()[0], 'D', lo, hi)
    return Poly({((a.id, -1),): 1.0 / s})


NONNEG = [0]          # >0: arguments of roots are known non-negative (norms)


def _visibly_nonneg(p):
    if p.nn:
        return True
    lo, _ = interval_of(p)
    if lo is not None and lo >= 0:
        return True
    return all(c > 0 and all(e % 2 == 0 or (ATOMS[i].lo is not None and ATOMS[i].lo >= 0) for i, e in m)
               for m, c in p.t.items())


def root(p, k):
    """k-th root (nan on the paths where the argument is negative)."""
    if not isinstance(p, Poly):
        return (math.sqrt(p) if k == 2 else p ** (1.0 / k)) if p >= 0 else math.nan
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % k == 0 for _, e in m):
            out = c ** (1.0 / k)
            if k % 2 or all((e // k) % 2 == 0 for _, e in m):
                for i, e in m:
                    out = out * power(Poly({((i, 1),): 1.0}), e // k)
                return out
            for i, e in m:
                base = Poly({((i, 1),): 1.0})
                ab = base if (ATOMS[i].lo is not None and ATOMS[i].lo >= 0) else sym_abs(base)
                out = out * power(ab, e // k)
            return out
    if not NONNEG[0] and not _visibly_nonneg(p):
        if bool(cmp('<', p, 0.0)):
            return math.nan
    s, q = _leading(p)
    if s < 0:
        s, q = -s, Poly({m: -c for m, c in q.t.items()}, p.nn)
        key = (q.key()[0], -1, k)
    else:
        key = (q.key()[0], 1, k)
    lo, hi = interval_of(q)
    lo = 0.0 if lo is None or lo < 0 else lo ** (1.0 / k)
    hi = None if hi is None or hi < 0 else hi ** (1.0 / k)
    a = defined('root', (q, k), key, f'root{k}', lo=lo, hi=hi)
    return Poly({((a.id, 1),): s ** (1.0 / k)})


def sqrt(p):
    return root(p, 2)


def reduce_sqrt(p):
    """Replace k-th powers of k-th root atoms by their argument."""
    if not isinstance(p, Poly):
        return p
    hit = False
    for m in p.t:
        for i, e in m:
            if e >= 2 or e <= -2:
                a = ATOMS[i]
                if a.kind == 'root' and abs(e) >= a.args[1]:
                    hit = True
                    break
        if hit:
            break
    if not hit:
        return p
    out = 0.0
    for m, c in p.t.items():
        rest = []
        fac = 1.0
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'root' and abs(e) >= a.args[1]:
                kk = a.args[1]
                k = int(e / kk)                     # trunc toward zero
                r = e - kk * k
                arg = a.args[0]
                fac = fac * (power(arg, k) if k > 0 else power(inv(arg), -k))
                if r:
                    rest.append((i, r))
            else:
                rest.append((i, e))
        out = out + Poly({tuple(rest): c}) * fac if rest else out + (fac * c)
    return out


def power(p, n):
    if not isinstance(p, Poly):
        return p ** n
    if n == int(n):
        n = int(n)
        if n == 0:
            return 1.0
        if n < 0:
            return power(inv(p), -n)
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r
    from fractions import Fraction
    f = Fraction(n).limit_denominator(12)
    if abs(float(f) - n) < 1e-15 * max(1.0, abs(n)):
        return power(root(p, f.denominator), f.numerator)
    a = defined('fn', ('pow', p, n), ('pow', p.key(), n), 'pow')
    return Poly({((a.id, 1),): 1.0})


FN_BOUNDS = {'exp': (0.0, None), 'tanh': (-1.0, 1.0), 'sin': (-1.0, 1.0), 'cos': (-1.0, 1.0),
             'logistic': (0.0, 1.0)}


def fn(name, *args):
    """Opaque function: equal (normalised) arguments give the same term."""
    if all(not isinstance(a, Poly) for a in args):
        return getattr(math, name)(*args)
    key = (name,) + tuple(a.key() if isinstance(a, Poly) else a for a in args)
    lo, hi = FN_BOUNDS.get(name, (None, None))
    a = defined('fn', (name,) + args, key, name, lo, hi)
    return Poly({((a.id, 1),): 1.0})


# ------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('kind', 'args', '_z')
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, kind, args):
        self.kind, self.args, self._z = kind, args, None

    def __bool__(self):
        from . import engine
        return engine.current().fork(self)

    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
    def __invert__(self): return bnot(self)
    def __xor__(self, o): return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__
    def __eq__(self, o): return bnot(self.__xor__(o))
    def __ne__(self, o): return self.__xor__(o)

    def to_num(self):
        return ite(self, 1.0, 0.0)

    def __add__(self, o): return self.to_num() + (o.to_num() if isinstance(o, SymBool) else o)
    __radd__ = __add__
    def __mul__(self, o): return self.to_num() * (o.to_num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__
    def __sub__(self, o): return self.to_num() - (o.to_num() if isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - self.to_num()

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __repr__(self):
        return f'<{self.kind} {self.args}>'

    def key(self):
        if self.kind == 'cmp':
            op, p = self.args
            return ('cmp', op, p.key())
        if self.kind == 'var':
            return ('var', self.args[0])
        return (self.kind,) + tuple(a.key() for a in self.args)


def bool_var(name):
    return SymBool('var', (name,))


def is_symb(b):
    return isinstance(b, SymBool)


def cmp(op, a, b):
    if isinstance(a, SymBool):
        a = a.to_num()
    if isinstance(b, SymBool):
        b = b.to_num()
    na, nb = (None if isinstance(a, Poly) else float(a)), (None if isinstance(b, Poly) else float(b))
    for n, other in ((na, b), (nb, a)):
        if n is not None and n != n:
            return False
    if na is not None and nb is not None:
        return {'<': na < nb, '<=': na <= nb, '==': na == nb}[op]
    if na is not None and math.isinf(na):
        return False if op == '==' else na < 0
    if nb is not None and math.isinf(nb):
        return False if op == '==' else nb > 0
    d = a - b
    if not isinstance(d, Poly):
        return {'<': d < 0, '<=': d <= 0, '==': d == 0}[op]
    if d.nn and op == '<':
        return False
    if len(d.t) <= 200:
        # decided by the ranges of the inputs alone
        lo, hi = interval_of(d)
        m = 1e-9 * max(map(abs, d.t.values()))
        if lo is not None and lo > m:
            return False
        if hi is not None and hi < -m:
            return op != '=='
        if op == '<=' and hi is not None and hi <= 0:
            return True
        if op == '<' and lo is not None and lo >= 0:
            return False
    return SymBool('cmp', (op, _known_difference(d)))


def _known_difference(d):
    """A difference met before that agrees with d, or with -d, up to rounding: the same condition written differently."""
    if len(d.t) > 400:
        return d
    mono = frozenset(d.t)
    seen = _KEYS.setdefault(('cmp', mono), [])
    for e in seen:
        m = next(iter(mono))
        sg = 1.0 if d.t[m] * e.t[m] > 0 else -1.0
        if all(abs(d.t[k] - sg * e.t[k]) <= 1e-12 * abs(e.t[k]) for k in mono):
            return e if sg > 0 else -e
    if len(seen) < 50:
        seen.append(d)
    return d


def bnot(b):
    if not is_symb(b):
        return not b
    if b.kind == 'not':
        return b.args[0]
    if b.kind == 'cmp' and b.args[0] in ('<', '<='):
        # reals: not (p < 0) == (-p <= 0)
        return SymBool('cmp', ('<=' if b.args[0] == '<' else '<', -b.args[1]))
    return SymBool('not', (b,))


def band(a, b):
    if not is_symb(a):
        return b if a else False
    if not is_symb(b):
        return a if b else False
    return SymBool('and', (a, b))


def bor(a, b):
    if not is_symb(a):
        return True if a else b
    if not is_symb(b):
        return True if b else a
    return SymBool('or', (a, b))


def band_all(bs):
    r = True
    for b in bs:
        r = band(r, b)
    return r


def bor_any(bs):
    r = False
    for b in bs:
        r = bor(r, b)
    return r


def _k(x):
    return x.key() if isinstance(x, Poly) else float(x)


FORK_ITE = False      # decide conditionals by path splitting instead of if-then-else terms


def ite(c, a, b):
    if not is_symb(c):
        return a if c else b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return bor(band(c, a), band(bnot(c), b))
    if isinstance(a, SymBool):
        a = a.to_num()
    if isinstance(b, SymBool):
        b = b.to_num()
    if not isinstance(a, Poly):
        a = float(a)
    if not isinstance(b, Poly):
        b = float(b)
    na, nb = isinstance(a, float) and not math.isfinite(a), isinstance(b, float) and not math.isfinite(b)
    if na and nb and (a == b or (a != a and b != b)):
        return a
    if na or nb:
        # a non-finite alternative: decide the condition on this path
        return a if bool(c) else b
    d = a - b
    if not isinstance(d, Poly) and d == 0:
        return a
    if FORK_ITE:
        return a if bool(c) else b
    # affine shape: c ? a : b  ==  b + (a-b) * [c]   keeps linear structure only
    # when the difference is a constant; otherwise a fresh atom
    bounds = interval_of(a), interval_of(b)
    lo = None if bounds[0][0] is None or bounds[1][0] is None else min(bounds[0][0], bounds[1][0])
    hi = None if bounds[0][1] is None or bounds[1][1] is None else max(bounds[0][1], bounds[1][1])
    at = defined('ite', (c, a, b), (c.key(), _k(a), _k(b)), 'ite', lo, hi)
    return Poly({((at.id, 1),): 1.0})


def sym_max(a, b):
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return math.nan
    return ite(cmp('<=', b, a), a, b)


def sym_min(a, b):
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return math.nan
    return ite(cmp('<=', a, b), a, b)


def sym_abs(a):
    if not isinstance(a, Poly):
        return abs(a)
    return ite(cmp('<=', 0.0, a), a, -a)


def sym_sign(a):
    return ite(cmp('<', 0.0, a), 1.0, ite(cmp('<', a, 0.0), -1.0, 0.0))


# ------------------------------------------------------------------ intervals
def atom_interval(i):
    a = ATOMS[i]
    return a.lo, a.hi


def _imul(x, y):
    xl, xh = x
    yl, yh = y
    if None in (xl, xh, yl, yh):
        if xl is not None and xl >= 0 and yl is not None and yl >= 0:
            return (xl * yl, None if (xh is None or yh is None) else xh * yh)
        if xh is not None and xh <= 0 and yl is not None and yl >= 0:
            return (None if (xl is None or yh is None) else xl * yh, xh * yl)
        if yh is not None and yh <= 0 and xl is not None and xl >= 0:
            return (None if (yl is None or xh is None) else yl * xh, yh * xl)
        return (None, None)
    v = (xl * yl, xl * yh, xh * yl, xh * yh)
    return (min(v), max(v))


def mono_interval(m):
    r = (1.0, 1.0)
    for i, e in m:
        lo, hi = atom_interval(i)
        if e < 0:
            # the quotient exists on the path, so the denominator is not zero
            if lo is not None and lo >= 0:
                lo, hi = (0.0 if hi is None or hi == 0 else 1 / hi), (None if lo == 0 else 1 / lo)
            elif hi is not None and hi <= 0:
                lo, hi = (None if hi == 0 else 1 / hi), (0.0 if lo is None or lo == 0 else 1 / lo)
            else:
                return (None, None)
            e = -e
        if e % 2 == 0:
            if lo is None or hi is None:
                p = (0.0, None)
            else:
                mx = max(abs(lo), abs(hi)) ** e
                mn = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** e
                p = (mn, mx)
        else:
            p = (None if lo is None else lo ** e, None if hi is None else hi ** e)
        r = _imul(r, p)
    return r


def interval_of(p):
    if not isinstance(p, Poly):
        return (float(p), float(p))
    lo = hi = 0.0
    for m, c in p.t.items():
        l, h = mono_interval(m)
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + c * l
        hi = None if (hi is None or h is None) else hi + c * h
        if lo is None and hi is None:
            break
    if p.nn and (lo is None or lo < 0):
        lo = 0.0
    return lo, hi


# ------------------------------------------------------- clearing denominators
def clear_denominators(p):
    n, d, _ = clear_denominators_scaled(p)
    return n, d


def clear_denominators_scaled(p):
    """(numerator, list of (denominator poly/atom, power), scale) with
    p * prod(den**power) == numerator; scale is the largest coefficient met,
    against which rounding residues are judged.

    Positive powers of 'den' atoms are expanded to their definitions."""
    if not isinstance(p, Poly):
        return p, [], abs(p)
    out_dens = []
    scale = max(abs(c) for c in p.t.values())
    for _ in range(40):
        neg = {}
        posden = False
        for m in p.t:
            for i, e in m:
                if e < 0:
                    neg[i] = max(neg.get(i, 0), -e)
                elif ATOMS[i].kind == 'den':
                    posden = True
        if not neg and not posden:
            return p, out_dens, scale
        if neg:
            mult = tuple(sorted(neg.items()))
            for i, e in mult:
                a = ATOMS[i]
                out_dens.append((a.args[0] if a.kind == 'den' else Poly({((i, 1),): 1.0}), e))
            p = _mk({_mono_mul(m, mult): c for m, c in p.t.items()})
            if not isinstance(p, Poly):
                return p, out_dens, scale
        # expand positive den powers
        out = 0.0
        for m, c in p.t.items():
            fac = None
            rest = []
            for i, e in m:
                if ATOMS[i].kind == 'den' and e > 0:
                    q = power(ATOMS[i].args[0], e)
                    fac = q if fac is None else fac * q
                else:
                    rest.append((i, e))
            term = Poly({tuple(rest): c}) if rest else c
            if fac is not None:
                term = term * fac
            if isinstance(term, Poly):
                scale = max(scale, max(abs(c) for c in term.t.values()))
            out = out + term
        p = reduce_sqrt(out)
        if not isinstance(p, Poly):
            return p, out_dens, scale
    raise Unsupported('denominators do not clear')


# -------------------------------------------------------------------- to Z3
def zconst(c):
    if c == int(c) and abs(c) < 1e15:
        return z3.RealVal(int(c))
    return z3.RealVal(repr(float(c)))


class Z3Conv:
    """Converts terms, collecting the definitions of the atoms they use."""

    def __init__(self):
        self.defs = []
        self.seen = set()
        self.dens = []          # denominators assumed non-zero
        self.lazy = []          # atoms whose definitions are not yet added

    def expand(self):
        """Adds the definitions of all atoms met so far (and of theirs)."""
        while self.lazy:
            i = self.lazy.pop()
            a = ATOMS[i]
            if a.kind == 'den':
                self.defs.append(a.z == self.poly(a.args[0]))
            elif a.kind == 'root':
                arg = self.poly(a.args[0])
                pw = a.z
                for _ in range(a.args[1] - 1):
                    pw = pw * a.z
                self.defs.append(pw == arg)
            elif a.kind == 'ite':
                c, x, y = a.args
                self.defs.append(z3.If(self.bool(c), a.z == self.poly(x), a.z == self.poly(y)))
            elif a.kind == 'fn':
                if a.args[0] == 'exp':
                    self.defs.append(a.z > 0)
                if a.args[0] == 'pow':
                    self.defs.append(z3.Implies(self.poly(a.args[1]) > 0, a.z > 0))

    def atom(self, i):
        a = ATOMS[i]
        if i not in self.seen:
            self.seen.add(i)
            if a.kind in ('var', 'fn'):
                if a.lo is not None:
                    self.defs.append(a.z >= zconst(a.lo))
                if a.hi is not None:
                    self.defs.append(a.z <= zconst(a.hi))
            elif a.kind == 'root':
                self.defs.append(a.z >= 0)
            elif a.kind == 'ite' or a.kind == 'den':
                if a.lo is not None:
                    self.defs.append(a.z >= zconst(a.lo))
                if a.hi is not None:
                    self.defs.append(a.z <= zconst(a.hi))
            self.lazy.append(i)
        return a.z

    def mono(self, m):
        num, den = None, None
        for i, e in m:
            z = self.atom(i)
            for _ in range(abs(e)):
                if e > 0:
                    num = z if num is None else num * z
                else:
                    den = z if den is None else den * z
                    self.dens.append(z)
        if den is not None:
            return (num if num is not None else z3.RealVal(1)) / den
        return num if num is not None else z3.RealVal(1)

    def poly(self, p):
        if isinstance(p, SymBool):
            p = p.to_num()
        if not isinstance(p, Poly):
            return zconst(p)
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(zconst(c))
            elif c == 1.0:
                ts.append(self.mono(m))
            else:
                ts.append(zconst(c) * self.mono(m))
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def bool(self, b):
        if not is_symb(b):
            return z3.BoolVal(bool(b))
        if b.kind == 'cmp':
            op, p = b.args
            z = self.poly(p)
            return {'<': z < 0, '<=': z <= 0, '==': z == 0}[op]
        if b.kind == 'var':
            return z3.Bool(b.args[0])
        if b.kind == 'not':
            return z3.Not(self.bool(b.args[0]))
        if b.kind == 'and':
            return z3.And(self.bool(b.args[0]), self.bool(b.args[1]))
        if b.kind == 'or':
            return z3.Or(self.bool(b.args[0]), self.bool(b.args[1]))
        if b.kind == 'z3':
            return b.args[0]
        raise Unsupported(b.kind)


# ------------------------------------------------------------- differentiation
_DDEFS = {'exp': lambda x: fn('exp', x), 'log': lambda x: inv(x),
          'sin': lambda x: fn('cos', x), 'cos': lambda x: -fn('sin', x),
          'tanh': lambda x: 1.0 - fn('tanh', x) * fn('tanh', x)}


def depends(p, i, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(p, Poly):
        return False
    for m in p.t:
        for j, _ in m:
            if j == i:
                return True
            if j not in memo:
                memo[j] = False
                memo[j] = any(isinstance(q, Poly) and depends(q, i, memo) for q in ATOMS[j].args
                              if not isinstance(q, (str, int, float, SymBool)))
            if memo[j]:
                return True
    return False


def diff(p, i, memo=None):
    """d p / d atom i (exact, term by term; piecewise for if-then-else)."""
    memo = {} if memo is None else memo
    if not isinstance(p, Poly):
        return 0.0
    out = []
    acc = {}
    for m, c in p.t.items():
        for k, (j, e) in enumerate(m):
            d = diff_atom(j, i, memo)
            if not isinstance(d, Poly) and d == 0.0:
                continue
            rest = _mono_mul(m, ((j, -1),))
            if not isinstance(d, Poly):
                acc[rest] = acc.get(rest, 0.0) + c * e * d
            else:
                out.append((Poly({rest: c * e}) if rest else c * e) * d)
    acc = {m: c for m, c in acc.items() if c != 0.0}
    r = _mk(acc) if acc else 0.0
    return sum_terms(out + [r]) if out else r


def diff_atom(j, i, memo):
    if j == i:
        return 1.0
    if j in memo:
        return memo[j]
    a = ATOMS[j]
    if a.kind == 'var':
        r = 0.0
    elif a.kind == 'den':
        r = diff(a.args[0], i, memo)
    elif a.kind == 'root':
        d = diff(a.args[0], i, memo)
        r = d * Poly({((j, 1 - a.args[1]),): 1.0 / a.args[1]}) if isinstance(d, Poly) or d != 0 else 0.0
    elif a.kind == 'ite':
        c, x, y = a.args
        r = ite(c, diff(x, i, memo), diff(y, i, memo))
    else:
        ds = [diff(x, i, memo) for x in a.args[1:2]]
        if all(not isinstance(d, Poly) and d == 0 for d in ds):
            r = 0.0
        elif a.args[0] == 'pow':
            r = ds[0] * (Poly({((j, 1),): a.args[2]}) * inv(a.args[1]))
        elif a.args[0] in _DDEFS:
            r = ds[0] * _DDEFS[a.args[0]](a.args[1])
        else:
            raise Unsupported(f'derivative of {a.args[0]}')
    memo[j] = r
    return r
