"""Disc-integral factors and limb-darkening function."""
import numpy as np
from dv import cppsym
from dv.runner import Contract
from . import _quad
from .P15 import rule

D = 'cpp-disc-integrator/disc_integrator/'
L = 'cpp-ld-funcs/ld_funcs/'


def ld(c):
    """the Eddington law 1 + 3 mu / 2 at every node, also for strided input"""
    par = c.choice('parallel', [False, True])
    name = c.choice('name', ['eddington', 'Eddington', 'other'])
    n = c.choice('n', [1, 2, 5] if c.sym else [1, 2, 5, 100])
    mu = [c.real(f'mu{i}') for i in range(n)]
    if c.sym:
        out = cppsym.Buf([0.] * n)
        cppsym.wrappers(c)[1](cppsym.Buf(mu), out, name, 4, par)
        got = out.v
    else:
        m = cppsym.compiled()['ldf']
        step = c.choice('step', [1, 2, -1])
        a, b = np.zeros(2 * n), np.zeros(2 * n)
        a, b = (a[:n], b[:n]) if step == 1 else (a[::2], b[::2]) if step == 2 else \
            (a[:n][::-1], b[:n][::-1])
        a[:] = mu
        try:
            m.compute(a, b, name, 4, par)
        except ValueError:
            c.prove('contiguous-accepted', step != 1)
            return
        got = list(b)
    for g, u in zip(got, mu):
        c.eq('eddington', g, 1 + 1.5 * u)


def node(c, k, u):
    return {'in': u, 'neg': -u, 'big': 1 + u}[k]


PAT = [('neg', 'neg', 'in', 'in', 'in'), ('in',) * 6, ('in', 'in', 'in', 'in', 'neg'),
       ('neg', 'in', 'in', 'big'), ('neg', 'in', 'in', 'in', 'big'), ('neg', 'neg', 'in'),
       ('neg', 'neg')]
LARGE = [('neg',) * 200 + ('in',) * 201, ('neg',) * 3 + ('in',) * 1000, ('in',) * 64 + ('big',)]


def disc(c):
    """first factor: integral over the visible disc of mu f h; second: of
    mu h [2 mu f' + (mu^2 - 1) f'']; h the limb darkening"""
    par = c.choice('parallel', [False, True])
    method = c.choice('method', ['trapz', 'simpson'])
    spacing = c.choice('spacing', ['equal', 'general'])
    pat = c.choice('pattern', PAT if c.sym else PAT + LARGE)
    n = len(pat)
    ins = [i for i in range(n) if pat[i] == 'in']
    mu = [None] * n
    a, h = c.real('a', lo=0., hi=.05), c.real('h', lo=.01, hi=.15)
    if c.sym:
        c.assume(a + h * len(ins) < 1)
    g = c.real('growth', lo=1.2, hi=1.4)
    for j, i in enumerate(ins):
        if n > 10:
            mu[i] = a + .9 * (j / len(ins)) ** (1 if spacing == 'equal' else 1.5)
        elif spacing == 'equal':
            mu[i] = a + j * h
        else:
            mu[i] = a + h / 10 * g ** j if j else a
    if c.sym and spacing == 'general':
        c.assume(a + h * 2 < 1)
    for i in range(n):
        if mu[i] is None:
            u = c.real(f'u{i}', lo=.01, hi=1.)
            if c.sym:
                c.assume(u > 0)
            mu[i] = -u if pat[i] == 'neg' else 1 + u
    f, d1, d2 = ([c.real(f'{k}{i}') for i in range(n)] for k in ('f', 'd', 'e'))
    if c.sym:
        r = cppsym.wrappers(c)[2](*[cppsym.Buf(v) for v in (mu, f, d1, d2)], 'eddington', method,
                                  3, par)
    else:
        r = cppsym.compiled()['di'].get_integrals(
            *[np.array(v, float) for v in (mu, f, d1, d2)], 'eddington', method, 3, par)
    x = [mu[i] for i in ins]
    l = [1 + 1.5 * v for v in x]
    k1 = [u * f[i] * w for u, i, w in zip(x, ins, l)]
    k2 = [u * w * (2 * u * d1[i] + (u * u - 1) * d2[i]) for u, i, w in zip(x, ins, l)]
    eq = spacing == 'equal' or len(x) < 3
    c.eq('first', r[0], rule(method, eq, k1, x))
    c.eq('second', r[1], rule(method, eq, k2, x))


CONTRACTS = [
    Contract('limb-darkening', ld, rand=40, strict=False, functions=[
        f'{L}ld_functions.cpp:LimbDarkeningFunctions::{k}' for k in (
            'LimbDarkeningFunctions', 'compute', 'eddington')] + [
        f'{L}libcpp_ld_funcs.pyx:compute', f'{L}libcpp_ld_funcs.pyx:_comp']),
    Contract('disc-integrals', disc, rand=120, strict=False, functions=[
        f'{D}disc_integrals.cpp:DiscIntegration::{k}' for k in (
            'DiscIntegration', 'adjust_data_to_integration_length', 'compute_ld_function',
            'perform_integration', 'compute_first_disc_integral', 'serial_first',
            'compute_second_disc_integral', 'serial_second')] + [
        f'{D}libcpp_disc_integration.pyx:get_integrals'],
        note='up to 6 nodes with symbolic positions and values; to 1000 in the concrete run'),
] + _quad.P16
TRUSTED = ['clang++ front end (AST)', 'loop summariser dv/cxxloop.py']
