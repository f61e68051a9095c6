"""The native quadrature returns the trapezoid and Simpson rules."""
import numpy as np
from dv import cppsym
from dv.runner import Contract
from . import _quad

F = 'cpp-numintegrator/num_integrator/num_integration.cpp'
PX = 'cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx'


def rule(method, equal, f, x):
    n = len(f)
    if n < 2:
        return 0.
    if method == 'simpson' and equal and n % 2:
        h = x[1] - x[0]
        t = f[0] + f[-1]
        for i in range(1, n - 1):
            t = t + (4 if i % 2 else 2) * f[i]
        return h * t / 3
    t = 0
    for i in range(n - 1):
        t = t + (x[i + 1] - x[i]) * (f[i] + f[i + 1]) / 2
    return t


def grid(c, equal, n):
    if equal:
        a, h = c.real('a'), c.real('h')
        return [a + i * h for i in range(n)]
    return [c.real(f'x{i}') for i in range(n)]


def call(c, method, equal, f, x, threads, par):
    if c.sym:
        return cppsym.wrappers(c)[0](method, equal, cppsym.Buf(f), cppsym.Buf(x), threads, par)
    m = cppsym.compiled()['cni']
    return m.integrate(method, equal, np.array(f, float), np.array(x, float), threads, par)


def values(c):
    """the result is that of the named rule"""
    method = c.choice('method', ['trapz', 'simpson'])
    equal = c.choice('equally_spaced', [True, False])
    par = c.choice('parallel', [False, True])
    n = c.choice('n', range(2, 10) if c.sym else list(range(2, 24)) + [201, 1000, 40001, 70001])
    f = c.reals('f', n)
    x = grid(c, equal, n)
    c.eq('rule', call(c, method, equal, f, x, c.choice('threads', [1, 4]), par),
         rule(method, equal, f, x))


def short(c):
    """fewer than two nodes: nothing to integrate, and nothing outside the arrays is read"""
    method = c.choice('method', ['trapz', 'simpson'])
    equal = c.choice('equally_spaced', [True, False])
    f, x = [c.real('f')], [c.real('x')]
    c.eq('empty', call(c, method, equal, f, x, 2, False), 0.)


def exact(c):
    """trapezoid: exact for linear integrands on any grid; Simpson: for cubics"""
    method = c.choice('method', ['trapz', 'simpson'])
    n = c.choice('n', [3, 5, 7, 9])
    equal = method == 'simpson'
    x = grid(c, equal, n)
    cs = [c.real(f'c{i}') for i in range(4 if equal else 2)]
    p = lambda v: sum((q * v ** i for i, q in enumerate(cs) if i), cs[0])
    P = lambda v: sum(q * v ** (i + 1) / (i + 1) for i, q in enumerate(cs))
    c.eq('exact', call(c, method, equal, [p(v) for v in x], x, 1, False), P(x[-1]) - P(x[0]))


def unknown(c):
    """any other method name falls back to the trapezoid rule"""
    equal = c.choice('equally_spaced', [True, False])
    f = [c.real(f'f{i}') for i in range(5)]
    x = grid(c, equal, 5)
    c.eq('fallback', call(c, 'romberg', equal, f, x, 1, False), rule('trapz', equal, f, x))


FN = [f'{F}:NumericalDoubleInputIntegrator::{k}' for k in (
    'NumericalDoubleInputIntegrator', 'integrate', 'trapz', 'simpson')] + [
    f'{PX}:integrate', f'{PX}:_integrate']
NOTE = 'array sizes 1 to 9 with symbolic contents; sizes to 70001 in the concrete run'
CONTRACTS = [
    Contract('rule', values, functions=FN, rand=200, note=NOTE, strict=False),
    Contract('short', short, functions=FN, rand=16, strict=False),
    Contract('exactness', exact, functions=FN, rand=60, note=NOTE, strict=False),
    Contract('fallback', unknown, functions=FN, rand=10, strict=False),
] + _quad.P15
TRUSTED = ['clang++ front end (AST)', 'loop summariser dv/cxxloop.py']
