"""Finite differences: exact for polynomials up to the order of the scheme."""
import json
import os
import subprocess
import sys

import numpy as np
from dv import backends as bk, fortran, loader, native, term as tm
from dv.npshim import OArr, mkarr
from dv.runner import Contract
from dv.term import Sym, as_sym, const, num

NDM, STM = 'num_deriv.num_deriv', 'num_deriv.stencils'
F90 = 'fornberg-num-deriv/fornberg_num_deriv/fornberg.f90'
NDF, STF = 'num-tools/num_deriv/num_deriv.py', 'num-tools/num_deriv/stencils.py'


def load():
    for m in (NDM, STM):
        loader.repo(m)


# ------------------------------------------------------------------ Fortran
class FCtx(fortran.Ctx):
    def __init__(self, c, n):
        self.c, self.n, self.ranges, self.k = c, n, [], 0

    def bad(self, what):
        self.c.fail('in-bounds', what)
        raise fortran.Stop(what)

    def index(self, x, n):
        x = as_sym(x)
        g = x >= 1
        if n is not None:
            g = g & (x <= n)
        t = g.t if isinstance(g, Sym) else tm.bconst(bool(g))
        if t.op == 'bconst' and t.val or t in self.c.pc:
            return
        self.c.prove('in-bounds', g)

    def cond(self, v):
        return bool(v)

    def real(self, s):
        return float(s)

    def constant(self, d):
        """value of an index difference that does not depend on the symbols"""
        t = num(as_sym(d).t)
        if t.op == 'const':
            return int(t.val)
        env = {v: 7 + 3 * i for i, v in enumerate(sorted(tm.free_vars(t)))}
        v = round(bk.feval(t, env))
        if not bk.pit_equal(t, const(v)):
            raise tm.Unsupported('array section of symbolic length')
        return v

    def dosym(self, lo, hi, st):
        self.ranges.append((lo, hi))
        try:
            k = self.constant(as_sym(hi) - lo)
        except tm.Unsupported:
            k = None
        if k is not None:
            for j in range(0, k + 1, st):
                yield lo + j
            return
        if st != 1:
            raise tm.Unsupported('stride')
        self.k += 1
        i = self.c.int(f'i{self.k}')
        self.c.assume((i >= lo) & (i <= hi))
        yield i


class SymGrid:
    def __init__(self, ctx, n, f):
        self.ctx, self.dims, self.f = ctx, [n], f

    def get(self, ix, ctx):
        ctx.index(ix[0], self.dims[0])
        return self.f(ix[0])


class Out:
    def __init__(self, n):
        self.dims, self.w = [n], []

    def set(self, ix, v, ctx):
        ctx.index(ix[0], self.dims[0])
        self.w.append((ix[0], v))


def gridval(i):
    return Sym(tm.uf('grid', num(as_sym(i).t)))


fortran.ARRS = (fortran.Arr, fortran.Sub1, SymGrid, Out)


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def fornberg(c):
    order = c.choice('order', [1, 2, 3])
    acc = c.choice('accuracy', [4, 2, 3, 6])
    if order > acc or order == 3 and acc == 6:
        return
    k = c.choice('degree', range(0, acc + 1))
    if c.sym:
        n = c.int('ngrid', lo=acc + 1)
        ctx = FCtx(c, n)
        I = fortran.Interp(open(f'{loader.REPO}/{F90}').read(), ctx)
        a = c.real('a')
        grid = SymGrid(ctx, n, gridval)
        u = SymGrid(ctx, n, lambda i: (gridval(i) - a) ** k if k else as_sym(1) * 1.0)
        du = Out(n)
        I.call('grid_derivative', [order, acc, grid, n, u, du])
        f = fact(k) / fact(k - order) if k >= order else 0
        for i, v in du.w:
            want = f * (gridval(i) - a) ** (k - order) if k >= order else 0.
            c.eq('exact-derivative', v, want)
        j = c.int('point', lo=1)
        c.assume(j <= n)
        cov = as_sym(0) > 1
        for lo, hi in ctx.ranges:
            cov = cov | ((as_sym(lo) <= j) & (j <= hi))
        for i, v in du.w:
            cov = cov | (as_sym(i) == j)
        c.prove('every-point-written', cov)
        return
    n = c.int('ngrid', lo=acc + 1, hi=acc + 8)
    h = [c.real(f'h{i}', lo=.2, hi=1.) for i in range(n)]
    x = np.cumsum(h)
    if c.choice('descending', [False, True]):
        x = np.ascontiguousarray(x[::-1])
    a = c.real('a', lo=-1., hi=1.)
    du = np.full(n, np.nan)
    native.fornberg_grid_derivative(order, acc, x, (x - a) ** k, du)
    want = fact(k) / fact(k - order) * (x - a) ** (k - order) if k >= order else np.zeros(n)
    c.eq('exact-derivative', du / (1 + np.abs(want)), want / (1 + np.abs(want)), tol=1e-5)


def fornberg_high(c):
    """bounded: high accuracy orders on the compiled kernel"""
    acc = c.choice('accuracy', [5, 7, 8, 10, 13, 16, 19, 20])
    order = c.choice('order', [1, 2])
    k = c.choice('degree', [0, 1, 2, 3, 5])
    n = acc + 1 + c.choice('extra', [0, 1, 7])
    x = np.cos(np.pi * (np.arange(n) + .5) / n)[::-1].copy()
    du = np.full(n, np.nan)
    native.fornberg_grid_derivative(order, acc, x, x ** k, du)
    want = fact(k) / fact(k - order) * x ** (k - order) if k >= order else np.zeros(n)
    err = np.abs(du - want)
    c.prove('exact-derivative', bool(np.all(err < 1e-2)), margin=None)


# ------------------------------------------------------------------ stencils
class Rel:
    def __init__(self, a, i, off):
        self.a, self.i, self.off = a, i, off

    def __getitem__(self, k):
        self.off.append(k)
        j = self.i + k
        return self.a[j] if 0 <= j < len(self.a) else 1.0 + j + 0 * self.a[0]


def stencil_call(st, x, y):
    """numba.stencil semantics: relative indices, zero where the stencil leaves the array"""
    f = st.kernel_ir.func_id.func
    n = len(x)
    off = []
    f(Rel(x, n // 2, off), Rel(y, n // 2, off))
    out = [0.] * n
    for i in range(n):
        if 0 <= i + min(off + [0]) and i + max(off + [0]) < n:
            out[i] = f(Rel(x, i, []), Rel(y, i, []))
    return out


class StencilShim:
    def __init__(self, st):
        self.st = st

    def __call__(self, x, y):
        r = stencil_call(self.st, x, y)
        return mkarr(r) if any(isinstance(v, Sym) for v in r) else np.array(r)


KINDS = [('center', 1), ('forward', 1), ('backward', 1), ('center', 2)]


def stencils(c):
    m, nd = loader.repo(STM), loader.repo(NDM)
    kind, order = c.choice('stencil', KINDS)
    uniform = (kind, order) == ('center', 2) or c.choice('uniform', [False, True])
    n = 6
    if uniform:
        h, x0 = c.real('h', pos=True), c.real('x0')
        x = [x0 + i * h for i in range(n)]
    else:
        x = [c.real(f'x{i}') for i in range(n)]
        for i in range(n - 1):
            c.assume(x[i] < x[i + 1])
        if not c.sym:
            return
    top = 1 if kind != 'center' else (2 if uniform else 1)
    top = 4 if order == 2 else top
    k = c.choice('degree', range(0, 5))
    if k > top:
        return
    a = c.real('a')
    y = [(v - a) ** k if k else 1. + 0 * v for v in x]
    x, y = c.arr(x), c.arr(y)
    real = m.StencilFunctions.retrieve_stencil

    def retrieve(my_order=1, my_differencing_type='center'):
        s, info = real(my_order=my_order, my_differencing_type=my_differencing_type)
        return StencilShim(s), info
    old = nd.StencilFunctions
    nd.StencilFunctions = type('S', (), {'retrieve_stencil': staticmethod(retrieve)})
    try:
        D = nd.NumericalDifferentiator(2, 'stencil_functions')
        r, info = D.differentiate(x, y, my_order=order, my_differencing_type=kind)
    finally:
        nd.StencilFunctions = old
    c.prove('three-results', len(r) == 3 and r[2] is None)
    lo, hi = {('forward', 1): (0, n - 1), ('backward', 1): (1, n)}.get(
        (kind, order), (order, n - order))
    for i in range(n):
        c.eq('function', r[0][i], y[i])
        if lo <= i < hi:
            want = k * (x[i] - a) ** (k - 1) if k > 1 else (1. if k else 0.)
            c.eq('exact-derivative', r[1][i], want)
        else:
            c.eq('border-is-zero', r[1][i], 0.)


JIT = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
from dv import loader; loader.setup()
s = loader.repo('num_deriv.stencils').StencilFunctions
import numpy as np
x = 1. + .25 * np.arange(9); out = {}
for k, o in (('center', 1), ('forward', 1), ('backward', 1), ('center', 2)):
    f, _ = s.retrieve_stencil(my_order=o, my_differencing_type=k)
    out[f'{k}{o}'] = [float(v) for v in f(x, x ** 2 - x)]
print(json.dumps(out))
'''


def jit(c):
    """bounded: the compiled stencils agree with their relative-index meaning"""
    env = {k: v for k, v in os.environ.items() if k != 'NUMBA_DISABLE_JIT'}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.run([sys.executable, '-W', 'ignore', '-c', JIT, here],
                       capture_output=True, text=True, env=env, timeout=200)
    if r.returncode:
        c.fail('stencils-compile', r.stderr[-300:])
        return
    got = json.loads(r.stdout.strip().split('\n')[-1])
    x = 1. + .25 * np.arange(9)
    y = x ** 2 - x
    for k, o in KINDS:
        v = np.array(got[f'{k}{o}'])
        w = {'center': 2 * x - 1, 'forward': 2 * x + .25 - 1, 'backward': 2 * x - .25 - 1}[k].copy()
        lo, hi = {('forward', 1): (0, 8), ('backward', 1): (1, 9)}.get((k, o), (o, 9 - o))
        w[:lo] = 0
        w[hi:] = 0
        c.eq('compiled-stencil', v, w)


# ------------------------------------------------------------------ class
def differentiator(c):
    nd = loader.repo(NDM)
    which = c.choice('method', ['gradient', 'fornberg'])
    n = 5
    x = [c.real(f'x{i}', lo=None) for i in range(n)] if c.sym else \
        list(np.cumsum([c.real(f'h{i}', lo=.2, hi=1.) for i in range(n)]))
    if c.sym:
        for i in range(n - 1):
            c.assume(x[i] < x[i + 1])
    a = c.real('a')
    order = c.choice('order', [0, 1, 2])
    if which == 'gradient':
        k = c.choice('degree', [0, 1, 2])
        edge = c.choice('edge_order', [None, 2, 1])
        if edge == 1 and k == 2:
            return
        y = c.arr([(v - a) ** k if k else 1. + 0 * v for v in x])
        D = nd.NumericalDifferentiator(order, 'gradient')
        r, info = D.differentiate(c.arr(x), y, **({} if edge is None else {'edge_order': edge}))
        c.prove('number-of-results', len(r) == order + 1)
        for i in range(n):
            c.eq('function', r[0][i], y[i])
            if order >= 1:
                c.eq('gradient', r[1][i], k * (x[i] - a) ** (k - 1) if k > 1 else (1. if k else 0.))
        if order == 2:
            c.prove('second-derivative-not-offered', r[2] is None)
        return
    y = c.reals('y', n)
    acc = c.choice('interpolation_order', [None, 2, 4])
    calls = []

    def kernel(o, ac, gx, gy, out):
        calls.append((o, ac))
        for i in range(n):
            c.eq('kernel-grid', gx[i], x[i])
            c.eq('kernel-values', gy[i], y[i])
            out[i] = 100. * o + i
    old = nd.fnd
    nd.fnd = type('F', (), {'fornberg_grid_derivative': staticmethod(kernel)})
    try:
        D = nd.NumericalDifferentiator(order, 'fornberg')
        r, info = D.differentiate(c.arr(x), y,
                                  **({} if acc is None else {'interpolation_order': acc}))
    finally:
        nd.fnd = old
    c.prove('kernel-calls', calls == [(o, acc or 4) for o in range(1, order + 1)])
    c.prove('number-of-results', len(r) == order + 1)
    for o in range(order + 1):
        for i in range(n):
            c.eq(f'result-{o}', r[o][i], y[i] if o == 0 else 100. * o + i)


def interpolation(c):
    """bounded: with interpolation, one derivative per original grid point"""
    nd = loader.repo(NDM)
    n = c.int('n', lo=4, hi=30)
    f = c.int('factor', lo=2, hi=12)
    meth = c.choice('method', ['gradient', 'fornberg'])
    uniform = c.choice('uniform', [True, False])
    x = c.real('x0') + (c.real('h', lo=.1, hi=1.) * np.arange(n) if uniform else
                        np.cumsum([c.real(f'h{i}', lo=.2, hi=1.) for i in range(n)]))
    s, t = c.real('slope'), c.real('offset')
    D = nd.NumericalDifferentiator(1, meth, perform_interpolation=True, interpolation_factor=f)
    kw = {} if meth == 'gradient' else {'interpolation_order': 2}
    r, _ = D.differentiate(x, s * x + t, **kw)
    c.prove('one-value-per-point', len(r) == 2 and len(r[0]) == n and len(r[1]) == n)
    c.eq('function', r[0], s * x + t)
    c.eq('slope', r[1], np.full(n, s), tol=1e-5)
    if uniform:
        r, _ = D.differentiate(x, x ** 2, **kw)
        c.eq('quadratic-interior', r[1][1:-1], 2 * x[1:-1], tol=1e-5)
    # tables of whole or single-precision numbers are differentiated like any other
    y = c.rng.choice([np.array([c.rng.randint(-9, 9) for _ in x]), np.float32(s * x + t)])
    D = nd.NumericalDifferentiator(1, meth)
    a, b = (D.differentiate(x, v, **kw)[0] for v in (y, y.astype(float)))
    for u, v in zip(a, b):
        c.eq('table-type', u, v, tol=1e-4 if y.dtype == np.float32 else 1e-9)


CONTRACTS = [
    Contract('fornberg-kernel', fornberg, load=load, functions=[
        f'{F90}:fdcoef', f'{F90}:grid_derivative'], rand=120, budget=200, prove_ms=8000,
        note='Fortran source executed symbolically; any number of grid points, any spacing; '
             'accuracy orders 2, 3, 4, 6 and derivative orders 1-3'),
    Contract('fornberg-high-accuracy', fornberg_high, load=load, sym=False, rand=40,
             note='bounded: compiled kernel, accuracy orders up to 20'),
    Contract('stencils', stencils, load=load, modules=[NDM], rand=60,
             functions=[f'{STF}:{k}' for k in (
                 'forward_difference_kernel_first_order', 'backward_difference_kernel_first_order',
                 'center_kernel_first_order', 'center_kernel_second_order',
                 'StencilFunctions.retrieve_stencil')] + [
                 f'{NDF}:NumericalDifferentiator._finite_difference_stencil']),
    Contract('compiled-stencils', jit, load=load, sym=False, rand=1,
             note='bounded: one array through the numba-compiled stencils'),
    Contract('differentiator', differentiator, load=load, modules=[NDM], rand=80, budget=60,
             functions=[f'{NDF}:NumericalDifferentiator.{k}' for k in (
                 '__init__', '_select_differentiation_method', '_fornberg_interpolation',
                 '_gradient_stencil_numpy', 'differentiate')]),
    Contract('interpolation', interpolation, load=load, sym=False, rand=40,
             note='bounded: random grids of up to 30 points'),
]
