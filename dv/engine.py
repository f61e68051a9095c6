"""Verification-condition generation by native symbolic execution of the real
code, plus the concrete and random modes that replay counterexamples.

A *contract* is a Python function `spec(c)` that
  - draws the inputs from the context `c`      (c.real / c.int / c.bool / c.choice)
  - states the precondition                    (c.assume)
  - calls the real code of /repo
  - states the postcondition                   (c.eq / c.prove / ...)
The same function is run in three modes:
  sym   : inputs are universally quantified; every obligation is discharged
  conc  : inputs come from a solver model; real code on floats (replay)
  rand  : inputs are random; real code on floats (bounded conformance run)
"""
import contextlib
import json
import math
import os
import random
import sys
import time
import traceback
import types
from fractions import Fraction

import numpy as np

from . import backends as bk
from . import term as tm
from .term import Sym, SymC, Unsupported, PathAbort, wrap, mk, const, var, cmp, lift, num
from . import npshim
from .npshim import OArr, UninitRead


class Skip(BaseException):
    """sample rejected by an assumption (conc / rand modes)"""


class Fail(Exception):
    """a concrete evaluation of the contract failed on the real code"""

    def __init__(self, name, detail):
        super().__init__(f'{name}: {detail}')
        self.name, self.detail = name, detail


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'inputs')

    def __init__(self, name, pc, goal, inputs):
        self.name, self.pc, self.goal, self.inputs = name, pc, goal, inputs


class SymCtx:
    mode = 'sym'
    sym = True

    def __init__(self, prefix, eng):
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []
        self.eng = eng
        self.inputs = {}
        self.obls = []
        self.defs = []
        self.notes = []
        self.canary = eng.canary
        self.pending = []
        self.div_obligations = False

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, neg=False, **k):
        t = var(name, 'R')
        self.inputs[name] = ('R', lo, hi, pos, nonzero, neg)
        x = Sym(t)
        if lo is not None:
            self.pc.append((x >= lo).t)
        if hi is not None:
            self.pc.append((x <= hi).t)
        if pos:
            self.pc.append((x > 0).t)
        if neg:
            self.pc.append((x < 0).t)
        if nonzero:
            self.pc.append((x != 0).t)
        return x

    def int(self, name, lo=None, hi=None, nonzero=False, **k):
        t = var(name, 'I')
        self.inputs[name] = ('I', lo, hi)
        x = Sym(t)
        if lo is not None:
            self.pc.append((x >= lo).t)
        if hi is not None:
            self.pc.append((x <= hi).t)
        if nonzero:
            self.pc.append((x != 0).t)
        return x

    def bool(self, name):
        self.inputs[name] = ('B',)
        return Sym(var(name, 'B'))

    def complex(self, name, **k):
        return SymC(self.real(name + '.re', **k), self.real(name + '.im', **k))

    def choice(self, name, options):
        """finite case split"""
        options = list(options)
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1):
                self.pending.append(self.decisions + [j])
        self.decisions.append(k)
        self.inputs[name] = ('C', k)
        return options[k]

    def arr(self, xs):
        return npshim.mkarr(list(xs))

    def reals(self, name, n, **k):
        return self.arr([self.real(f'{name}[{i}]', **k) for i in range(n)])

    def assume(self, c):
        t = self._b(c)
        if t.op == 'bconst':
            if not t.val:
                raise PathAbort
            return
        self.pc.append(t)

    def _b(self, c):
        if isinstance(c, np.ndarray):
            c = npshim.f_all(npshim._oa(c))
        t = lift(c)
        if t is None:
            raise Unsupported(f'condition of type {type(c)}')
        if t.sort != 'B':
            raise Unsupported('condition is not boolean')
        return t

    # ---- obligations
    def prove(self, name, c, detail=None, margin=None, **k):
        t = self._b(c)
        self.obls.append(Obligation(name, list(self.pc), t, dict(self.inputs)))

    def eq(self, name, a, b, **k):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b) and np.shape(b) != ():
                self.obls.append(Obligation(name + ':shape', list(self.pc), tm.bconst(False),
                                            dict(self.inputs)))
                return
            aa, bb = np.broadcast_arrays(np.asarray(npshim.base(a), dtype=object),
                                         np.asarray(npshim.base(b), dtype=object))
            for ix in np.ndindex(*aa.shape):
                self.eq(f'{name}{list(ix)}', aa[ix], bb[ix])
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str) or \
                a is npshim.UNINIT or b is npshim.UNINIT:
            self.obls.append(Obligation(name, list(self.pc), tm.bconst(a is b or (
                isinstance(a, str) and isinstance(b, str) and a == b)), dict(self.inputs)))
            return
        if isinstance(a, (SymC, complex, np.complexfloating)) or \
                isinstance(b, (SymC, complex, np.complexfloating)):
            a, b = SymC.of(a), SymC.of(b)
            self.eq(name + '.re', a.re, b.re)
            self.eq(name + '.im', a.im, b.im)
            return
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            raise Unsupported(f'eq on {type(a)}, {type(b)}')
        self.obls.append(Obligation(name, list(self.pc), cmp('eq', la, lb)
                                    if la.sort == lb.sort == 'B' else cmp('eq', num(la), num(lb)),
                                    dict(self.inputs)))

    def fail(self, name, why=''):
        self.obls.append(Obligation(f'{name}', list(self.pc), tm.bconst(False), dict(self.inputs)))

    def finite(self, name, x):
        """concrete modes: the value exists; symbolic mode: see div_obligations"""

    # ---- engine callbacks
    def assume_defined(self, t):
        if t.op == 'bconst':
            return
        if t not in self.pc:
            if self.div_obligations:
                self.obls.append(Obligation('definedness', list(self.pc), t, dict(self.inputs)))
            self.pc.append(t)
            self.eng.defined += 1

    def branch(self, t):
        if t in self.pc:
            return True
        nt = tm.bnot(t)
        if nt in self.pc:
            return False
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.decisions.append(k)
            self.pc.append(t if k else nt)
            return bool(k)
        e = self._identity(t)
        if e is not None:
            self.decisions.append(e)
            self.pc.append(t if e else nt)
            return bool(e)
        ft = self._feas(t)
        ff = self._feas(nt)
        if not ft and not ff:
            raise PathAbort
        if ft and ff:
            self.pending.append(self.decisions + [0])
        k = 1 if ft else 0
        self.decisions.append(k)
        self.pc.append(t if k else nt)
        if time.time() > self.eng.deadline:
            raise Unsupported('path exploration budget')
        return bool(k)

    def _identity(self, t):
        """an equation between large terms that is an identity of the reals needs no split"""
        g, k = (t.args[0], 0) if t.op == 'not' else (t, 1)
        if g.op != 'eq' or any(a.sort != 'R' for a in g.args):
            return None
        memo = self.eng.ident
        if g.id not in memo:
            small = len(tm.free_vars(g)) < 8
            try:
                memo[g.id] = False if small else bk.pit_equal(*g.args, hyps=self.pc) is True
            except (bk.NotAlg, ArithmeticError, RecursionError):
                memo[g.id] = False
        return k if memo[g.id] else None

    def _feas(self, t):
        """can t hold here?  A float witness answers yes at once (taking a
        branch that is not feasible would cost time only, never soundness);
        no is answered only by z3."""
        rel = bk.relevant(self.pc, t)
        fv = set(tm.free_vars(t))
        cone = rel + [t]
        wit = self.eng.wit
        if self._holds(cone, wit):
            return True
        narrow = [f for f in rel if set(tm.free_vars(f)) <= fv]
        if len(narrow) < len(rel):
            r, _ = bk.z3_sat(narrow + [t], min(100, self.eng.feas_ms))
            if r == 'unsat':
                return False
        w = self._sample(cone)
        if w is not None:
            wit.update(w)
            return True
        r, _ = bk.z3_sat(cone, self.eng.feas_ms)
        return r != 'unsat'

    @staticmethod
    def _holds(fs, env):
        try:
            memo = {}
            return all(bk.feval(f, env, memo) for f in fs)
        except (ArithmeticError, KeyError, ValueError, TypeError):
            return False

    def _sample(self, cone):
        vs = {}
        for f in cone:
            tm.free_vars(f, vs)
        if any(v.sort != 'R' for v in vs.values()) or len(vs) > 80:
            return None
        cone = sorted(cone, key=lambda f: len(tm.free_vars(f)))
        sign = {}
        for f in cone:
            g, pol = (f.args[0], False) if f.op == 'not' else (f, True)
            if g.op in ('lt', 'le') and {a.op for a in g.args} == {'const', 'var'}:
                a, b = g.args
                if a.op == 'const' and a.val == 0:
                    sign[b.val] = 1 if pol else -1
                elif b.op == 'const' and b.val == 0:
                    sign[a.val] = -1 if pol else 1
        rng = self.eng.rng
        names = sorted(vs)
        old = self.eng.wit
        for k in range(self.eng.samples):
            spread = (.3, 1., 2.5)[k % 3]
            env = {}
            for n in names:
                if k % 2 and n in old and rng.random() < .7:
                    env[n] = old[n]
                    continue
                s = sign.get(n) or rng.choice((-1, 1))
                env[n] = s * math.exp(rng.gauss(0, spread))
            if self._holds(cone, env):
                return env
        return None

    def hint(self, *xs):
        """integer terms the verifier may try as the value of a floor (each use is proved)"""
        self.hints = list(getattr(self, 'hints', [])) + [num(lift(x)) for x in xs]

    def floor_is(self, a, h):
        key = (a.id, h.id, tuple(f.id for f in self.pc))
        memo = self.eng.floors
        if key not in memo:
            g = tm.band(cmp('le', h, a), cmp('lt', a, tm.add(h, const(1, 'I'))))
            memo[key] = bk.prove(self.pc, g, 1500, False)[0] == 'proved'
        return memo[key]

    def concretise(self, t):
        """enumerate feasible integer values of t"""
        for v in range(-64, 65):
            if self.branch(cmp('eq', t, const(v, 'I'))):
                return v
        raise Unsupported('unbounded integer used as a concrete index')


class ConcCtx:
    """conc / rand modes: the same contract on floats"""
    sym = False

    def __init__(self, mode, values=None, rng=None, tol=1e-8):
        self.mode = mode
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.inputs = {}
        self.tol = tol
        self.n_checks = 0
        self.canary = False
        self.div_obligations = False

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False, neg=False, scale=None, rand=None):
        v = self.values.get(name)
        if v is None:
            if rand is not None:
                v = rand(self.rng)
            elif lo is not None and hi is not None:
                v = self.rng.uniform(float(lo), float(hi))
            elif pos:
                v = math.exp(self.rng.uniform(-1.5, 1.5)) * (scale or 1)
            elif neg:
                v = -math.exp(self.rng.uniform(-1.5, 1.5)) * (scale or 1)
            elif lo is not None:
                v = lo + math.exp(self.rng.uniform(-2, 1.5))
            elif hi is not None:
                v = hi - math.exp(self.rng.uniform(-2, 1.5))
            else:
                v = self.rng.choice([-1, 1]) * math.exp(self.rng.uniform(-1.5, 1.5)) * (scale or 1)
        v = float(v)
        self.inputs[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0) or \
                (neg and v >= 0) or (nonzero and v == 0):
            raise Skip
        return np.float64(v)

    def int(self, name, lo=None, hi=None, nonzero=False, rand=None, py=True, **k):
        v = self.values.get(name)
        if v is None:
            if rand is not None:
                v = rand(self.rng)
            else:
                a = lo if lo is not None else -6
                b = hi if hi is not None else a + 14
                v = self.rng.randint(a, b)
        v = int(v)
        self.inputs[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (nonzero and v == 0):
            raise Skip
        return v

    def bool(self, name):
        v = self.values.get(name)
        if v is None:
            v = self.rng.random() < .5
        self.inputs[name] = bool(v)
        return bool(v)

    def hint(self, *xs):
        pass

    def complex(self, name, **k):
        return complex(self.real(name + '.re', **k), self.real(name + '.im', **k))

    def choice(self, name, options):
        options = list(options)
        k = self.values.get(name)
        if k is None:
            k = self.rng.randrange(len(options))
        self.inputs[name] = int(k)
        return options[int(k)]

    def arr(self, xs):
        return np.array(list(xs))

    def reals(self, name, n, **k):
        return np.array([self.real(f'{name}[{i}]', **k) for i in range(n)])

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not c:
            raise Skip

    def prove(self, name, c, detail=None, margin=None, **k):
        self.n_checks += 1
        if margin is not None and not margin:
            return
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not bool(c):
            raise Fail(name, str(detail)[:600] if detail is not None else f'condition is {c}')

    def eq(self, name, a, b, tol=None, **k):
        self.n_checks += 1
        tol = self.tol if tol is None else tol
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or a == b):
                raise Fail(name, f'got {a!r}, required {b!r}')
            return
        try:
            aa, bb = np.asarray(a), np.asarray(b)
            if aa.shape != bb.shape and bb.shape != ():
                raise Fail(name, f'shape {aa.shape}, required {bb.shape}')
            if aa.dtype == bool or bb.dtype == bool:
                if not np.array_equal(aa, bb):
                    raise Fail(name, f'got {a!r}, required {b!r}')
                return
            if aa.dtype == object:
                aa = aa.astype(complex)
            if bb.dtype == object:
                bb = bb.astype(complex)
        except (TypeError, ValueError):
            raise Fail(name, f'incomparable values {a!r}, {b!r}')
        ab, bb_ = np.broadcast_arrays(aa, bb)
        # exact non-finite agreement
        sc = np.maximum(np.abs(ab), np.abs(bb_))
        atol = k.get('atol', 1e-11)
        bad = ~((np.abs(ab - bb_) <= tol * sc + atol) | (ab == bb_))
        if np.any(bad):
            if np.any(~np.isfinite(bb_.astype(complex))):
                raise Skip
            ix = tuple(np.argwhere(bad)[0])
            raise Fail(name, f'got {ab[ix]!r}, required {bb_[ix]!r} (index {list(ix)})')

    def finite(self, name, x):
        self.n_checks += 1
        if not np.all(np.isfinite(np.asarray(x, dtype=complex))):
            raise Fail(name, f'not finite: {x!r}')

    def fail(self, name, why=''):
        raise Fail(name, why or 'unexpected behaviour')


# ---------------------------------------------------------------- patching --
def _multi(mm):
    """type-based dispatch that knows symbolic operands"""
    import typing

    def call(*a, **k):
        if not any(npshim.has_sym(x) if isinstance(x, (list, tuple)) else
                   (npshim.is_sym(x) or isinstance(x, npshim.OArr)) for x in a):
            return mm(*a, **k)
        if getattr(mm, 'pending', None):
            mm.evaluate()
        for sig, f in list(mm.items()):
            ts = tuple(sig)
            if len(ts) > len(a):
                continue
            if all(npshim.sh_isinstance(x, typing.get_origin(t) or getattr(t, '__origin__', t))
                   if isinstance(typing.get_origin(t) or getattr(t, '__origin__', t), type)
                   else True for x, t in zip(a, ts)):
                return f(*a, **k)
        raise Unsupported('multimethod dispatch')
    return call


@contextlib.contextmanager
def shimmed(mods, builtins=('isinstance', 'max', 'min'), extra=None):
    """give the modules under verification symbolic numpy / builtins"""
    saved = []
    miss = object()
    try:
        for m in mods:
            d = m.__dict__
            for k, v in list(d.items()):
                new = None
                if v is np:
                    new = npshim.NPI
                elif v is math:
                    new = npshim.MATHI
                elif isinstance(v, types.ModuleType) and v is np.linalg:
                    new = npshim.NPI.linalg
                elif type(v) is types.BuiltinFunctionType and v.__module__ == 'math':
                    new = getattr(npshim.MATHI, v.__name__)
                elif callable(v) and getattr(v, '__module__', '') == 'numpy' and \
                        k in NPFUNCS:
                    new = getattr(npshim.NPI, k)
                elif type(v).__name__ == 'multimethod':
                    new = _multi(v)
                elif hasattr(v, 'py_func') and hasattr(v, 'signatures'):
                    new = v.py_func
                if new is not None:
                    saved.append((d, k, v))
                    d[k] = new
            for b in builtins:
                saved.append((d, b, d.get(b, miss)))
                d[b] = npshim.BUILTIN_SHIMS[b]
            for k, v in (extra or {}).items():
                if isinstance(k, tuple):
                    if k[0] != m.__name__ and not m.__name__.endswith(k[0]):
                        continue
                    kk = k[1]
                elif k in d:
                    kk = k
                else:
                    continue
                saved.append((d, kk, d.get(kk, miss)))
                d[kk] = v
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is miss:
                d.pop(k, None)
            else:
                d[k] = v


NPFUNCS = {'sqrt', 'array', 'empty', 'zeros', 'ones', 'where', 'arange', 'linspace', 'abs'}


# ---------------------------------------------------------------- explore ---
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.obls = []          # (name, status, backend, model, goal text)
        self.undecided = []
        self.violations = []    # dicts
        self.proved = 0
        self.total = 0
        self.rand_runs = 0
        self.rand_checks = 0
        self.rand_skips = 0
        self.samples = []
        self.canary_ok = None
        self.aborted = None
        self.defined = 0
        self.wall = 0.0
        self.backends = {}


class Explorer:
    def __init__(self, budget_s=60, feas_ms=1500, max_paths=4000):
        self.deadline = time.time() + budget_s
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.canary = False
        self.defined = 0
        self.wit = {}
        self.floors = {}
        self.ident = {}
        self.samples = 90
        self.rng = random.Random(7)

    def run(self, spec):
        """all paths -> list of obligations; raises Unsupported"""
        work = [[]]
        out = []
        self.paths = 0
        self.completed = 0
        while work:
            prefix = work.pop()
            c = SymCtx(prefix, self)
            tm.set_engine(c)
            try:
                spec(c)
                self.completed += 1
            except PathAbort:
                pass
            except UninitRead as e:
                c.fail('no-uninitialised-read', str(e))
            except Unsupported:
                raise
            except Fail as f:
                c.fail(f.name)
            except RecursionError:
                raise Unsupported('recursion limit')
            finally:
                tm.set_engine(None)
            work.extend(c.pending)
            out.extend(c.obls)
            self.paths += 1
            if self.paths > self.max_paths or time.time() > self.deadline:
                raise Unsupported(f'path budget ({self.paths} paths)')
        return out
