"""Harness contexts: the same harness runs symbolically and natively."""
import contextlib
import io
import math
import os
import random
import sys
import time
import traceback

import numpy as onp
import jax
import jax.numpy as jnp

from . import engine, sym
from . import env as _env
from . import jaxsym as J
from .sym import Poly, SymBool, Unsupported


class NativeFailure(Exception):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    # ---- inputs
    def array(self, name, shape, lo=-1.0, hi=1.0):
        shape = tuple(shape)
        lo_a = onp.broadcast_to(onp.asarray(lo, dtype=object), shape)
        hi_a = onp.broadcast_to(onp.asarray(hi, dtype=object), shape)
        els = []
        for idx in onp.ndindex(*shape):
            l, h = lo_a[idx], hi_a[idx]
            els.append(self.eng.new_input(f'{name}[{",".join(map(str, idx))}]',
                                          None if l is None else float(l), None if h is None else float(h)))
        return J.sym_array(els, shape)

    def scalar(self, name, lo=-1.0, hi=1.0):
        return self.array(name, (), lo, hi)

    def bools(self, name, shape):
        els = [self.eng.new_bool(f'{name}[{",".join(map(str, i))}]') for i in onp.ndindex(*tuple(shape))]
        a = J.sym_array(els, tuple(shape))
        return J.SymTracer(a._trace, a.data, bool)

    def choose(self, name, n):
        k = self.eng.choose(n)
        self.eng.env_choices[name] = k
        return k

    # ---- assumptions and obligations
    def assume(self, cond):
        for c in _conds(cond):
            self.eng.assume(c)

    def close(self, name, a, b, tol=1e-8):
        av, bv, shape = _pair(a, b)
        if av is None:
            self.eng._record(name)
            self.eng._concrete_violation(name, f'shapes differ: {shape}')
        pairs = [(x, y, f'{name}[{i}]') for i, (x, y) in enumerate(zip(av, bv))]
        self.eng.require_all_close(name, pairs, tol)

    def check(self, name, cond, detail=''):
        conds = _conds(cond)
        c = sym.band_all(conds)
        self.eng.require(name, c, detail)

    def cut(self, why):
        raise engine.PathCut('bound:' + why)

    def patch(self, pairs):
        return J.patched(pairs)

    def jacobian(self, f, x, h=0.3):
        """d f(x)/dx for a 1-d input of symbolic variables: the terms of f(x)
        are differentiated one by one, independently of any JAX derivative."""
        y = f(x)
        yd, xd = _elems(y)[0], _elems(x)[0]
        out = onp.empty((len(yd), len(xd)), dtype=object)
        out[:] = 0.0
        for b, v in enumerate(xd):
            if not isinstance(v, Poly):
                raise Unsupported('jacobian with respect to a constant')
            (m, c), = v.t.items()
            (i, e), = m
            assert e == 1 and c == 1.0
            memo = {}
            for a, p in enumerate(yd):
                out[a, b] = sym.diff(p, i, memo)
        return J.sym_array(out.reshape(-1).tolist(), out.shape)


class NatCtx:
    symbolic = False

    def __init__(self, values, choices=None, rng=None):
        self.values = values
        self.choices = choices or {}
        self.failures = []
        self.checked = 0
        self.rng = rng or random.Random(0)
        self.missing = []

    def _get(self, key, lo, hi):
        if key in self.values:
            return self.values[key]
        self.missing.append(key)
        l = -1.0 if lo is None else lo
        h = l + 2.0 if hi is None else hi
        v = self.values[key] = self.rng.uniform(l, h)
        return v

    def array(self, name, shape, lo=-1.0, hi=1.0):
        shape = tuple(shape)
        lo_a = onp.broadcast_to(onp.asarray(lo, dtype=object), shape)
        hi_a = onp.broadcast_to(onp.asarray(hi, dtype=object), shape)
        out = onp.zeros(shape)
        for idx in onp.ndindex(*shape):
            out[idx] = self._get(f'{name}[{",".join(map(str, idx))}]', lo_a[idx], hi_a[idx])
        return jnp.asarray(out)

    def scalar(self, name, lo=-1.0, hi=1.0):
        return self.array(name, (), lo, hi)

    def bools(self, name, shape):
        out = onp.zeros(tuple(shape), dtype=bool)
        for idx in onp.ndindex(*tuple(shape)):
            k = f'{name}[{",".join(map(str, idx))}]'
            out[idx] = bool(self.values.setdefault(k, self.rng.random() < 0.5))
        return jnp.asarray(out)

    def choose(self, name, n):
        return min(self.choices.get(name, 0), n - 1)

    def assume(self, cond):
        for c in _conds(cond):
            if not bool(c):
                raise engine.PathCut('assumption')

    def close(self, name, a, b, tol=1e-8):
        self.checked += 1
        x, y = onp.asarray(a, dtype=float), onp.asarray(b, dtype=float)
        if x.shape != y.shape:
            self.failures.append((name, f'shapes {x.shape} vs {y.shape}'))
            return
        bad = ~(onp.abs(x - y) <= tol * (1 + onp.abs(y)))
        if bad.any():
            i = tuple(int(k) for k in onp.argwhere(bad)[0])
            self.failures.append((name, f'at {i}: {x[i]!r} != {y[i]!r}'))

    def check(self, name, cond, detail=''):
        self.checked += 1
        if not all(bool(c) for c in _conds(cond)):
            self.failures.append((name, detail or 'condition is false'))

    def cut(self, why):
        raise engine.PathCut('bound:' + why)

    def patch(self, pairs):
        return J.patched([])

    def jacobian(self, f, x, h=0.3):
        """Five-point differences: exact for polynomials up to degree four."""
        x = jnp.asarray(x)
        cols = []
        for b in range(x.shape[0]):
            e = jnp.zeros(x.shape).at[b].set(h)
            cols.append((8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h))
        return jnp.stack([jnp.ravel(c) for c in cols], axis=1)


def _elems(x):
    if isinstance(x, (Poly, SymBool)):
        return [x], ()
    if isinstance(x, J.SymTracer):
        return x.data.reshape(-1).tolist(), x.data.shape
    if isinstance(x, onp.ndarray) and x.dtype == object:
        return x.reshape(-1).tolist(), x.shape
    a = J._orig_asarray(x)
    return a.astype(object).reshape(-1).tolist(), a.shape


def _pair(a, b):
    av, sa = _elems(a)
    bv, sb = _elems(b)
    if sa != sb:
        if sb == ():
            return av, bv * len(av), sa
        return None, None, f'{sa} vs {sb}'
    return av, bv, sa


def _conds(c):
    if isinstance(c, (list, tuple)):
        return [x for y in c for x in _conds(y)]
    if isinstance(c, SymBool):
        return [c]
    if isinstance(c, bool):
        return [c]
    if isinstance(c, J.SymTracer):
        return c.data.reshape(-1).tolist()
    return [bool(v) for v in onp.asarray(c).reshape(-1).tolist()]


# ------------------------------------------------------------ function coverage
class Coverage:
    """Which functions of /repo were executed (sys.monitoring, one hit each)."""
    TOOL = 4

    def __init__(self):
        self.funcs = set()

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'vf')
        except ValueError:
            return self

        def start(code, off):
            if code.co_filename.startswith(_env.REPO + '/'):
                self.funcs.add(f'{code.co_filename[len(_env.REPO) + 1:]}:{code.co_qualname}')
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
        except ValueError:
            pass


def _quiet():
    return contextlib.redirect_stdout(io.StringIO())


def run_native(fn, values, choices, kw):
    """Returns (failures, exception-string or None, cut)."""
    ctx = NatCtx(dict(values), choices)
    try:
        with _quiet():
            fn(ctx, **kw)
    except engine.PathCut as e:
        return ctx, None, e.kind
    except Exception as e:
        return ctx, f'{type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}', None
    return ctx, None, None


def run_unit(unit, cfg, seed):
    """Execute one unit. Returns a JSON-able result dict."""
    name, fn, kw = unit['name'], unit['fn'], unit.get('kw', {})
    cfg = dict(cfg, **unit.get('cfg', {}))
    t0 = time.time()
    engs = []
    prims = {}

    def h(eng):
        engs.append(eng)
        del engs[:-1]
        with _quiet(), J.symbolic_mode() as tr:
            try:
                fn(SymCtx(eng), **kw)
            finally:
                for k, v in tr.prim_count.items():
                    prims[k] = prims.get(k, 0) + v
        # validation point for the native run
        if eng.obl_names and len(wits) < cfg.get('validate', 2):
            w = None
            try:
                w = eng.witness()
            except Exception:
                pass
            if w is not None:
                wits.append((dict(w), dict(getattr(eng, 'env_choices', {}))))
    wits = []
    res = {'unit': name, 'status': 'ok', 'violations': [], 'notes': []}
    with Coverage() as cov:
        r = engine.explore(h, cfg, seed)
    st = r['stats']
    res['stats'] = st.as_dict()
    res['samples'] = r['samples']
    res['prims'] = prims
    res['bounds'] = unit.get('bounds', '')
    # violations found symbolically: replay on the real stack
    for v in r['violations']:
        ctx, exc, cut = run_native(fn, v.values, v.choices, kw)
        hit = [f for f in ctx.failures]
        if hit or exc:
            res['violations'].append({'obligation': hit[0][0] if hit else 'exception', 'values': v.values,
                                      'choices': v.choices, 'detail': hit[0][1] if hit else exc,
                                      'symbolic': f'{v.name}: {v.detail}'})
        else:
            res['notes'].append(f'counterexample for {v.name} does not reproduce natively: {v.detail} (cut={cut})')
    for kind, msg, tb, wit, ch in r['errors']:
        if wit is None:
            res['notes'].append(f'{kind}: {msg} (no witness)\n{tb}')
            continue
        ctx, exc, cut = run_native(fn, wit, ch, kw)
        if ctx.failures or exc:
            res['violations'].append({'obligation': ctx.failures[0][0] if ctx.failures else 'exception',
                                      'values': wit, 'choices': ch,
                                      'detail': ctx.failures[0][1] if ctx.failures else exc,
                                      'symbolic': f'{kind}: {msg}'})
        else:
            res['notes'].append(f'{kind}: {msg}\n{tb}')
    res['notes'] += r['inconclusive']
    # encoding validation: the native run must satisfy the same obligations
    res['validated'] = 0
    if not res['violations']:
        for w, ch in wits:
            ctx, exc, cut = run_native(fn, w, ch, kw)
            if ctx.failures or exc:
                res['violations'].append({'obligation': ctx.failures[0][0] if ctx.failures else 'exception',
                                          'values': w, 'choices': ch,
                                          'detail': ctx.failures[0][1] if ctx.failures else exc,
                                          'symbolic': 'native run at a witness of a discharged path'})
                break
            res['validated'] += 1
    res['functions'] = sorted(cov.funcs)
    if res['violations']:
        res['status'] = 'violation'
    elif res['notes']:
        res['status'] = 'inconclusive'
    elif st.obligations == 0 or st.feasible_paths == 0:
        res['status'] = 'inconclusive'
        res['notes'].append('vacuous: no obligation was reached')
    elif st.discharged < st.obligations:
        res['status'] = 'inconclusive'
        res['notes'].append('not every obligation was discharged')
    res['wall_s'] = time.time() - t0
    return res
