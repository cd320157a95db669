"""Path exploration, path conditions and obligations.

A harness function is executed symbolically.  Whenever the executed code
branches on a symbolic condition the engine asks z3 which sides are feasible
under the path condition and explores every feasible side by re-execution.
Obligations are discharged by z3; counterexamples are concrete input values.
"""
import math
import random
import time

import z3

from . import sym
from .sym import Poly, SymBool, Unsupported

_current = None


def current():
    if _current is None:
        raise Unsupported('symbolic branch outside the engine')
    return _current


class PathCut(BaseException):
    """End this path: infeasible assumption or declared bound reached."""

    def __init__(self, kind):
        self.kind = kind


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.paths = 0
        self.cut = {}
        self.forks = 0
        self.feasible_paths = 0
        self.terms = 0
        self.concrete_obligations = 0

    def as_dict(self):
        return dict(self.__dict__)


class Violation(Exception):
    def __init__(self, name, values, detail, choices=None):
        super().__init__(f'{name}: {detail}')
        self.name, self.values, self.detail = name, values, detail
        self.choices = dict(choices or {})


class Inconclusive(Exception):
    pass


def z3_check(solver, stats, timeout_ms):
    solver.set('timeout', int(timeout_ms))
    t = time.perf_counter()
    try:
        r = solver.check()
    except z3.Z3Exception:
        r = z3.unknown
    stats.solver_s += time.perf_counter() - t
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
    elif r == z3.sat:
        stats.sat += 1
    else:
        stats.unknown += 1
    return r


def _to_float(v):
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0


# ----------------------------------------------------------- numeric evaluation
def eval_poly(p, env, cache):
    if not isinstance(p, Poly):
        return float(p)
    s = 0.0
    for m, c in p.t.items():
        v = c
        for i, e in m:
            x = eval_atom(i, env, cache)
            try:
                v = v * x ** e
            except ZeroDivisionError:
                return math.nan
            except OverflowError:
                return math.inf
        s += v
    return s


def eval_atom(i, env, cache):
    if i in cache:
        return cache[i]
    a = sym.ATOMS[i]
    if a.kind == 'var':
        v = env.get(a.name)
        if v is None:
            v = env[a.name] = _default_value(a)
    elif a.kind == 'den':
        v = eval_poly(a.args[0], env, cache)
    elif a.kind == 'root':
        q = eval_poly(a.args[0], env, cache)
        v = q ** (1.0 / a.args[1]) if q >= 0 else (0.0 if q > -1e-12 else math.nan)
    elif a.kind == 'ite':
        v = eval_poly(a.args[1], env, cache) if eval_bool(a.args[0], env, cache) else eval_poly(a.args[2], env, cache)
    elif a.kind == 'fn':
        name = a.args[0]
        try:
            if name == 'pow':
                b = eval_poly(a.args[1], env, cache)
                v = b ** a.args[2] if b >= 0 else math.nan
            elif name in FN_EVAL:
                v = FN_EVAL[name](*[eval_poly(x, env, cache) for x in a.args[1:]])
            else:
                v = getattr(math, name)(*[eval_poly(x, env, cache) for x in a.args[1:]])
        except (ValueError, OverflowError, ZeroDivisionError):
            v = math.nan
    else:
        raise Unsupported(a.kind)
    cache[i] = v
    return v


FN_EVAL = {}


def _default_value(a):
    lo = -1.0 if a.lo is None else a.lo
    hi = (lo + 2.0) if a.hi is None else a.hi
    return min(max(0.0, lo), hi)


def eval_bool(b, env, cache):
    if not isinstance(b, SymBool):
        return bool(b)
    k = b.kind
    if k == 'cmp':
        op, p = b.args
        v = eval_poly(p, env, cache)
        if v != v:
            return False
        return v < 0 if op == '<' else v <= 0 if op == '<=' else v == 0
    if k == 'var':
        return bool(env.get(b.args[0], False))
    if k == 'not':
        return not eval_bool(b.args[0], env, cache)
    if k == 'and':
        return eval_bool(b.args[0], env, cache) and eval_bool(b.args[1], env, cache)
    if k == 'or':
        return eval_bool(b.args[0], env, cache) or eval_bool(b.args[1], env, cache)
    raise Unsupported(k)


class LinConv:
    """Linear abstraction: every monomial is a fresh variable within its range
    (an over-approximation, so `unsat` is final)."""

    def __init__(self):
        self.m = {}
        self.side = []

    def poly(self, p):
        out = []
        for m, c in p.t.items():
            if not m:
                out.append(sym.zconst(c))
                continue
            v = self.m.get(m)
            if v is None:
                v = self.m[m] = z3.Real(f'm!{len(self.m)}')
                lo, hi = sym.mono_interval(m)
                if lo is not None and math.isfinite(lo):
                    self.side.append(v >= sym.zconst(lo))
                if hi is not None and math.isfinite(hi):
                    self.side.append(v <= sym.zconst(hi))
                if len(m) == 1 and m[0][1] == 1:
                    a = sym.ATOMS[m[0][0]]
                    if a.kind == 'ite':
                        q, x, y = a.args
                        if all(not isinstance(e, Poly) or len(e.t) <= 200 for e in (x, y)):
                            x, y = (self.poly(e) if isinstance(e, Poly) else sym.zconst(float(e)) for e in (x, y))
                            self.side.append(z3.If(self.bool(q), v == x, v == y))
            out.append(sym.zconst(c) * v)
        return z3.Sum(out) if out else z3.RealVal(0)

    def bool(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        k = b.kind
        if k == 'cmp':
            op, p = b.args
            z = self.poly(p) if isinstance(p, Poly) else sym.zconst(float(p))
            return z < 0 if op == '<' else z <= 0 if op == '<=' else z == 0
        if k == 'var':
            return z3.Bool(b.args[0])
        if k == 'not':
            return z3.Not(self.bool(b.args[0]))
        if k == 'and':
            return z3.And(self.bool(b.args[0]), self.bool(b.args[1]))
        if k == 'or':
            return z3.Or(self.bool(b.args[0]), self.bool(b.args[1]))
        raise Unsupported(k)


class Engine:
    """One symbolic execution (one path)."""

    def __init__(self, stats, decisions, cfg, rng):
        self.stats = stats
        self.decisions = list(decisions)
        self.pos = 0
        self.alternatives = []
        self.path = []                 # SymBool conditions on this path
        self.assumed = []              # assumptions (subset of path)
        self.cfg = cfg
        self.rng = rng
        self.inputs = {}               # name -> (lo, hi)
        self.input_order = []
        self.bool_inputs = []
        self.obl_names = []
        self.violations = []
        self.inconclusive = []
        self.env_choices = {}
        self.env_pool = []             # known concrete points of this path

    # -- inputs
    def new_input(self, name, lo, hi):
        if name in self.inputs:
            raise RuntimeError(f'duplicate input {name}')
        self.inputs[name] = (lo, hi)
        self.input_order.append(name)
        return sym.new_var(name, lo, hi)

    def new_bool(self, name):
        self.bool_inputs.append(name)
        return sym.bool_var(name)

    # -- path condition
    def _solver(self, extra=(), prune=None):
        conv = sym.Z3Conv()
        s = z3.Solver()
        for b in list(self.path) + list(extra):
            s.add(conv.bool(b))
        return s, conv

    def _finish(self, s, conv, abstract=False):
        """Adds atom bounds and (unless abstract) atom definitions."""
        n = 0
        if not abstract:
            conv.expand()
        while n < len(conv.defs):
            s.add(conv.defs[n])
            n += 1
        seen = set()
        for d in conv.dens:
            if d.get_id() not in seen:
                seen.add(d.get_id())
                s.add(d != 0)

    def feasible(self, cond, timeout=None):
        """True / False / None (unknown)."""
        for env in self.env_pool[-6:]:
            c = {}
            try:
                if eval_bool(cond, env, c) and all(eval_bool(b, env, c) for b in self.path):
                    return True
            except Unsupported:
                pass
        # a concrete point that satisfies the path settles it without the solver
        for _ in range(self.cfg.get('fork_samples', 12)):
            env, c = self.random_env(), {}
            try:
                if eval_bool(cond, env, c) and self.point_ok(env):
                    self.env_pool.append(env)
                    return True
            except (Unsupported, ZeroDivisionError, OverflowError, ValueError):
                pass
        s, conv = self._solver([cond])
        self._finish(s, conv)
        r = z3_check(s, self.stats, timeout or self.cfg.get('fork_timeout_ms', 3000))
        if r == z3.unsat:
            return False
        if r == z3.sat:
            try:
                env = self.model_env(s.model())
                if self.point_ok(env):
                    self.env_pool.append(env)
            except Exception:
                pass
            return True
        return None

    def ruled_out(self, cond):
        """Infeasible already with the defined atoms free within their bounds
        (an over-approximation, so a True answer is final)."""
        for env in self.env_pool[-2:]:
            c = {}
            try:
                if eval_bool(cond, env, c) and all(eval_bool(b, env, c) for b in self.path):
                    return False
            except Unsupported:
                pass
        if self.linearly_unsat([cond]) or (self.path and self.linearly_unsat([cond] + self.path)):
            return True
        s, conv = self._solver([cond])
        self._finish(s, conv, abstract=True)
        return z3_check(s, self.stats, 1000) == z3.unsat

    def linearly_unsat(self, conds, timeout=1000):
        conv = LinConv()
        s = z3.Solver()
        for b in conds:
            s.add(conv.bool(b))
        s.add(conv.side)
        return z3_check(s, self.stats, timeout) == z3.unsat

    def fork(self, cond):
        self.stats.forks += 1
        # already decided on this path?
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d[1]:
                self.path.append(cond if d[0] else sym.bnot(cond))
            return d[0]
        both = keep = False
        if self.ruled_out(sym.bnot(cond)):
            choice = True
        elif self.ruled_out(cond):
            choice = False
        elif self.feasible(cond) is False:
            choice, keep = False, True         # implied, but not evidently so
        elif self.feasible(sym.bnot(cond)) is False:
            choice, keep = True, True
        else:
            choice = both = keep = True
        if both:
            self.alternatives.append(self.decisions[:self.pos] + [(False, True)])
        if keep:
            self.path.append(cond if choice else sym.bnot(cond))
        self.decisions.append((choice, keep))
        self.pos += 1
        return choice

    def choose(self, n):
        """Nondeterministic choice among n alternatives (explored exhaustively)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d[1]
        for k in range(1, n):
            self.alternatives.append(self.decisions[:self.pos] + [('choose', k)])
        self.decisions.append(('choose', 0))
        self.pos += 1
        return 0

    def assume(self, cond):
        if not isinstance(cond, SymBool):
            if not bool(cond):
                raise PathCut('assumption')
            return
        self.path.append(cond)
        self.assumed.append(cond)
        if self.pos >= len(self.decisions):
            s, conv = self._solver()
            self._finish(s, conv)
            if z3_check(s, self.stats, 3000) == z3.unsat:
                raise PathCut('assumption')

    # -- models
    def model_env(self, model):
        env = {}
        for name in self.input_order:
            v = model.eval(z3.Real(name), model_completion=False)
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                lo, hi = self.inputs[name]
                lo = -1.0 if lo is None else lo
                hi = lo + 2.0 if hi is None else hi
                env[name] = self.rng.uniform(lo, hi)
            else:
                env[name] = _to_float(v)
        for name in self.bool_inputs:
            env[name] = z3.is_true(model.eval(z3.Bool(name), model_completion=True))
        return env

    def random_env(self):
        env = {}
        for name in self.input_order:
            lo, hi = self.inputs[name]
            lo = -3.0 if lo is None else lo
            hi = lo + 6.0 if hi is None else hi
            env[name] = self.rng.uniform(lo, hi)
        for name in self.bool_inputs:
            env[name] = self.rng.random() < 0.5
        return env

    def point_ok(self, env):
        c = {}
        for name in self.bool_inputs:
            env.setdefault(name, self.rng.random() < 0.5)
        for name, (lo, hi) in self.inputs.items():
            v = env.get(name)
            if v is None:               # created after this point was found
                a = -1.0 if lo is None else lo
                v = env[name] = self.rng.uniform(a, a + 2.0 if hi is None else hi)
            if (lo is not None and v < lo - 1e-12) or (hi is not None and v > hi + 1e-12):
                return False
        return all(eval_bool(b, env, c) for b in self.path)

    def witness(self):
        """A concrete point of the current path, or None."""
        for env in reversed(self.env_pool):
            if self.point_ok(env):
                return env
        for _ in range(50):
            env = self.random_env()
            if self.point_ok(env):
                self.env_pool.append(env)
                return env
        s, conv = self._solver()
        self._finish(s, conv)
        if z3_check(s, self.stats, 20000) == z3.sat:
            env = self.model_env(s.model())
            if self.point_ok(env):
                self.env_pool.append(env)
            return env
        return None

    def candidates(self, n=12):
        w = []
        for env in self.env_pool[-4:]:
            if self.point_ok(env):
                w.append(env)
        tries = 0
        while len(w) < n and tries < 60:
            tries += 1
            env = self.random_env()
            if self.point_ok(env):
                w.append(env)
        if not w:
            e = self.witness()
            if e is not None:
                w.append(e)
        # neighbours of a known point
        if w and len(w) < n:
            base = w[0]
            for _ in range(40):
                env = dict(base)
                for k in self.input_order:
                    lo, hi = self.inputs[k]
                    r = 0.1 * ((1.0 if hi is None or lo is None else hi - lo))
                    env[k] = base[k] + self.rng.uniform(-r, r)
                    if lo is not None:
                        env[k] = max(lo, env[k])
                    if hi is not None:
                        env[k] = min(hi, env[k])
                if self.point_ok(env):
                    w.append(env)
                if len(w) >= n:
                    break
        return w

    # -- obligations
    def _record(self, name):
        self.stats.obligations += 1
        self.obl_names.append(name)

    def violate(self, name, env, detail):
        self.violations.append(Violation(name, dict(env), detail, self.env_choices))
        raise PathCut('violation')

    def require_all_close(self, name, pairs, tol):
        """pairs: list of (a, b, label). One obligation: all |a-b| <= tol(1+|b|)."""
        self._record(name)
        todo = {}
        same = []
        nterms = 0
        for a, b, lab in pairs:
            if isinstance(a, SymBool):
                a = a.to_num()
            if isinstance(b, SymBool):
                b = b.to_num()
            ca, cb = not isinstance(a, Poly), not isinstance(b, Poly)
            if ca and cb:
                a, b = float(a), float(b)
                if not (abs(a - b) <= tol * (1 + abs(b))):
                    self._concrete_violation(name, f'{lab}: {a!r} != {b!r}')
                continue
            if (ca and not math.isfinite(a)) or (cb and not math.isfinite(b)):
                self._concrete_violation(name, f'{lab}: non-finite {a!r} vs {b!r}')
            d = a - b
            if isinstance(d, Poly):                       # rounding residues of cancelled terms
                ta = a.t if isinstance(a, Poly) else {(): float(a)}
                tb = b.t if isinstance(b, Poly) else {(): float(b)}
                top = max(map(abs, (*ta.values(), *tb.values())))
                t = {m: c for m, c in d.t.items()
                     if abs(c) > max(1e-12, 1e-12 * abs(ta.get(m, 0.0)), 1e-12 * abs(tb.get(m, 0.0)), 1e-14 * top)}
                if len(t) < len(d.t):
                    d = Poly(t) if any(t) else float(t.get((), 0.0))
            if not isinstance(d, Poly):
                if not (abs(d) <= tol):
                    self._concrete_violation(name, f'{lab}: differ by {d!r}')
                if nterms < 40000:
                    same.append((a, b))
                    nterms += len(a.t) if not ca else 0
                continue
            k = d.key()
            if k not in todo:
                todo[k] = (d, a, b, lab)
        hard = []
        s = z3.Solver()
        mvars = {}
        lin_entries = []
        # both sides as linear terms over their monomials: z3 decides equality
        same_e = []
        for a, b in same:
            ta = a.t if isinstance(a, Poly) else {(): float(a)}
            tb = b.t if isinstance(b, Poly) else {(): float(b)}
            l, r = [], []
            for m, c in ta.items():
                q = tb.get(m, 0.0)
                if q != c and abs(q - c) <= max(1e-12, 1e-12 * abs(c), 1e-14 * max(map(abs, (*ta.values(), *tb.values())))):
                    q = c
                v = mvars.get(m) if m else z3.RealVal(1)
                if v is None:
                    v = mvars[m] = z3.Real(f'm!{len(mvars)}')
                l.append(sym.zconst(c) * v)
                r.append(sym.zconst(q) * v)
            if l:
                same_e.append(z3.Sum(l) != z3.Sum(r))
        if same_e:
            s0 = z3.Solver()
            s0.add(z3.Or(same_e))
            if z3_check(s0, self.stats, 60000) != z3.unsat:
                self.inconclusive.append(f'{name}: normalisation disagrees with the solver')
                raise PathCut('inconclusive')
        if not todo:
            if not same_e:
                self.stats.concrete_obligations += 1
            self.stats.discharged += 1
            return
        # linear abstraction, one query for all entries
        for d, a, b, lab in todo.values():
            num, dens, scale = sym.clear_denominators_scaled(d)
            self.stats.terms += len(num.t) if isinstance(num, Poly) else 1
            if not isinstance(num, Poly):
                num = Poly({(): float(num)})
            terms = []
            tol_abs = tol * max(scale, 1e-300) if dens else tol * max(1.0, scale)
            # terms whose whole range is far below the tolerance are moved into it
            small = 1e-3 * tol_abs / max(1, len(num.t))
            slack = 0.0
            for m, c in num.t.items():
                if not m:
                    terms.append(sym.zconst(c))
                    continue
                lo, hi = sym.mono_interval(m)
                if lo is None or hi is None:
                    if abs(c) <= 1e-13 * scale:
                        # rounding residue of a cancelled unbounded term
                        continue
                    terms = None
                    break
                if abs(c) * max(abs(lo), abs(hi)) <= small:
                    slack += small
                    continue
                v = mvars.get(m)
                if v is None:
                    v = mvars[m] = z3.Real(f'm!{len(mvars)}')
                s.add(v >= sym.zconst(lo), v <= sym.zconst(hi))
                terms.append(sym.zconst(c) * v)
            if terms is None:
                hard.append((d, a, b, lab))
                continue
            if not terms:
                terms = [z3.RealVal(0)]
            e = z3.Sum(terms)
            ta = sym.zconst(tol_abs - slack)
            lin_entries.append((d, a, b, lab, z3.Or(e > ta, e < -ta)))
        if lin_entries:
            n0 = len(s.assertions())
            s.add(z3.Or([x[4] for x in lin_entries]))
            r = z3_check(s, self.stats, self.cfg.get('lra_timeout_ms', 20000))
            if r != z3.unsat:
                base = list(s.assertions())[:n0]
                for x in lin_entries:
                    if len(lin_entries) == 1 or len(hard) > 40:
                        hard.append(x[:4])
                        continue
                    s2 = z3.Solver()
                    s2.add(base)
                    s2.add(x[4])
                    if z3_check(s2, self.stats, 20000) != z3.unsat:
                        hard.append(x[:4])
        if hard:
            # try to falsify at concrete points first
            for env in self.candidates():
                c = {}
                for d, a, b, lab in hard:
                    va, vb = eval_poly(a, env, c), eval_poly(b, env, c)
                    if not (abs(va - vb) <= 10 * tol * (1 + abs(vb))):
                        if va != va or vb != vb:
                            continue
                        self._confirm_and_violate(name, env, d, f'{lab}: {va!r} != {vb!r}')
            for d, a, b, lab in hard:
                r, env = self._nonlinear_neq(d, tol)
                if r == z3.unsat:
                    continue
                if r == z3.sat:
                    c = {}
                    va, vb = eval_poly(a, env, c), eval_poly(b, env, c)
                    self.violate(name, env, f'{lab}: {va!r} != {vb!r}')
                self.inconclusive.append(f'{name}: {lab}: solver unknown')
                raise PathCut('inconclusive')
        self.stats.discharged += 1

    def _confirm_and_violate(self, name, env, d, detail):
        """Have z3 confirm the difference at this point, then report."""
        self.violate(name, env, detail)

    def _nonlinear_neq(self, d, tol):
        num, dens, scale = sym.clear_denominators_scaled(d)
        if isinstance(num, Poly):
            num = sym._mk({m: c for m, c in num.t.items() if abs(c) > 1e-12 * scale})
        for extra in (None, 'nlsat'):
            s, conv = self._solver()
            z = conv.poly(num)
            rhs = sym.zconst(tol * (scale if dens else max(1.0, scale)))
            s.add(z3.Or(z > rhs, z < -rhs))
            if extra == 'nlsat':
                s2 = z3.Tactic('qfnra-nlsat').solver()
                self._finish(s, conv)
                s2.add(s.assertions())
                s = s2
            else:
                self._finish(s, conv)
            r = z3_check(s, self.stats, self.cfg.get('nra_timeout_ms', 20000))
            if r == z3.unsat:
                return r, None
            if r == z3.sat:
                return r, self.model_env(s.model())
        return z3.unknown, None

    def _concrete_violation(self, name, detail):
        env = self.witness()
        if env is None:
            # path may be infeasible
            s, conv = self._solver()
            self._finish(s, conv)
            if z3_check(s, self.stats, 20000) == z3.unsat:
                self.stats.discharged += 1
                raise PathCut('infeasible')
            self.inconclusive.append(f'{name}: {detail} (no witness for the path)')
            raise PathCut('inconclusive')
        self.violate(name, env, detail)

    def require(self, name, cond, detail=''):
        self._record(name)
        if not isinstance(cond, SymBool):
            if not bool(cond):
                self._concrete_violation(name, detail or 'condition is false')
            self.stats.concrete_obligations += 1
            self.stats.discharged += 1
            return
        neg = sym.bnot(cond)
        for env in self.candidates(6):
            if eval_bool(neg, env, {}):
                # margin: must be robustly false, not a rounding tie
                if self._robust(neg, env):
                    self.violate(name, env, detail or 'condition is false')
        if self.linearly_unsat([neg] + self.path, 2000):
            self.stats.discharged += 1
            return
        for mode in ('abstract', 'default', 'nlsat', 'nra'):
            s, conv = self._solver([neg])
            self._finish(s, conv, abstract=mode == 'abstract')
            if mode == 'abstract':
                if not conv.lazy or z3_check(s, self.stats, 2000) != z3.unsat:
                    continue
                self.stats.discharged += 1
                return
            if mode == 'nlsat':
                s2 = z3.Tactic('qfnra-nlsat').solver()
                s2.add(s.assertions())
                s = s2
            elif mode == 'nra':
                s2 = z3.SolverFor('QF_NRA')
                s2.add(s.assertions())
                s = s2
            r = z3_check(s, self.stats, self.cfg.get('nra_timeout_ms', 20000))
            if r == z3.unsat:
                self.stats.discharged += 1
                return
            if r == z3.sat:
                env = self.model_env(s.model())
                self.violate(name, env, detail or 'condition is false')
        self.inconclusive.append(f'{name}: solver unknown')
        raise PathCut('inconclusive')

    def _robust(self, neg, env):
        if neg.kind == 'cmp':
            op, p = neg.args
            v = eval_poly(p, env, {})
            return v < -1e-9 if op != '==' else False
        return True


def explore(harness, cfg, seed=1):
    """Run harness(engine) over all paths. Returns dict."""
    global _current
    stats = Stats()
    rng = random.Random(seed)
    work = [[]]
    violations, inconclusive, errors = [], [], []
    max_paths = cfg.get('max_paths', 400)
    deadline = time.time() + cfg.get('deadline_s', 600)
    samples = []
    while work:
        if stats.paths >= max_paths or time.time() > deadline:
            inconclusive.append(f'path budget exhausted after {stats.paths} paths, {len(work)} left')
            break
        dec = work.pop()
        sym.reset_atoms()
        eng = Engine(stats, dec, cfg, rng)
        _current = eng
        stats.paths += 1
        try:
            harness(eng)
            stats.feasible_paths += 1
            if len(samples) < 3:
                samples.append({'decisions': [d if d[0] == 'choose' else bool(d[0]) for d in eng.decisions],
                                'obligations': eng.obl_names[:12]})
        except PathCut as e:
            stats.cut[e.kind] = stats.cut.get(e.kind, 0) + 1
            if e.kind not in ('assumption', 'infeasible'):
                stats.feasible_paths += 1
        except Unsupported as e:
            import traceback
            errors.append(('unsupported', f'{e}', traceback.format_exc(limit=-8), eng.witness_safe(), dict(eng.env_choices)))
        except Exception as e:
            import traceback
            tb = traceback.format_exc(limit=-14)
            errors.append(('exception', f'{type(e).__name__}: {e}', tb, eng.witness_safe(), dict(eng.env_choices)))
        finally:
            _current = None
        violations += eng.violations
        inconclusive += eng.inconclusive
        work += eng.alternatives
        if violations and cfg.get('stop_on_violation', True):
            break
        if len(errors) >= 3:
            break
    return {'stats': stats, 'violations': violations, 'inconclusive': inconclusive,
            'errors': errors, 'samples': samples}


def _witness_safe(self):
    try:
        return self.witness()
    except Exception:
        return None


Engine.witness_safe = _witness_safe
