"""Normalisation of Hough functions and angular integrals."""
import math
import types

import numpy as np
from dv import cppsym, loader
from dv.runner import Contract
from . import _qcc as qc

HN = 'hough-func-tools/hough_function/hough_normalizer.py'


def load():
    qc.load()


class Cni:
    """the compiled quadrature of the current tree, on terms"""

    def __init__(self, c):
        self.c = c

    def integrate(self, method, equal, f, x, threads, par):
        return cppsym.wrappers(self.c)[0](method, equal, cppsym.Buf(list(f)),
                                          cppsym.Buf(list(x)), threads, par)


def stubs(c, *mods):
    return qc.patched(*[(loader.repo(m), 'cni', Cni(c)) for m in mods]) if c.sym else \
        qc.contextlib.nullcontext()


def nodes(c, n):
    if not c.sym:
        return np.sort(np.array([c.real(f'mu{i}', lo=-.99, hi=.99) for i in range(n)]))
    mu = [c.real(f'mu{i}') for i in range(n)]
    for i in range(n):
        c.assume(mu[i] * mu[i] < 1)
        if i:
            c.assume(mu[i - 1] < mu[i])
    return c.arr(mu)


def norm(c):
    """lee2012: unit L2 norm on the sphere; prat2019: unit maximum"""
    m = loader.repo(qc.HNORM).HoughNormalizer
    which = c.choice('normalisation', ['lee2012', 'Lee2012', 'prat2019'])
    n = c.choice('n', [2, 3] if c.sym else [2, 3, 8, 50])
    mu, hr = nodes(c, n), c.reals('hr', n)
    if c.sym:
        c.assume(hr[0] != 0)
    with stubs(c, qc.HNORM):
        f = m.get_norm_factor(which, mu, hr)
    if which == 'prat2019':
        top = abs(hr[0])
        for v in hr[1:]:
            if bool(abs(v) > top):
                top = abs(v)
        c.eq('unit-maximum', f * top, 1.)
    else:
        h = [f * v for v in hr]
        c.eq('unit-norm', 2 * math.pi * qc.trapz(c, [v * v for v in h], list(mu)), 1.)
    c.prove('positive-factor', f > 0)


CONJ = [None, True, False] + [(a, b, d) for a in (True, False) for b in (True, False)
                              for d in (True, False)]


def angular(c):
    """2 pi times the quadrature of the product (times mu, over sin theta) when the azimuthal
    selection rule holds, and zero otherwise"""
    H = loader.repo(qc.HINT).HoughIntegration
    conj = c.choice('conj', CONJ)
    meth = c.choice('method', ['trapz', 'simpson'])
    k = c.choice('factors', [1, 2, 3])
    div, mul = c.choice('div_by_sin', [False, True]), c.choice('mul_with_mu', [False, True])
    check = c.choice('check', ['none', 'only_theta', 'check'])
    prot = c.choice('protection', [False] if c.sym else [False, True])
    n = 3 if c.sym else c.choice('n', [3, 9])
    mu = nodes(c, n)
    fs = [c.reals(f'f{j}', n) for j in range(k)]
    o = types.SimpleNamespace(_mu_values=mu, **{f'_f{j}': fs[j] for j in range(k)})
    m1, m2, m3 = (c.int(f'm{j}', -3, 3) for j in range(3))
    old = [[+v for v in f] for f in fs]
    kw = dict(conj=conj, div_by_sin=div, mul_with_mu=mul, num_integ_method=meth)
    if check != 'none':
        kw['m_list_for_azimuthal_check'] = [m1, m2, m3]
        kw['only_theta'] = check == 'only_theta'
    if prot:
        kw.update(cheby_blow_up_protection=True, cheby_blow_up_factor=1e30)
    with stubs(c, qc.HINT):
        got = H.quadratic_angular_integral(o, [f'_f{j}' for j in range(k)], **kw)
    g = []
    for i in range(n):
        v = 1
        for f in old:
            v = v * f[i]
        if mul:
            v = v * mu[i]
        if div:
            s2 = 1 - mu[i] * mu[i]
            if c.sym:
                from dv.npshim import scalar
                v = v / scalar('sqrt', s2)
            else:
                v = v / math.sqrt(s2)
        g.append(v)
    want = 2 * math.pi * qc.trapz(c, g, list(mu))
    if check == 'check':
        cj = (conj, False, False) if isinstance(conj, bool) else conj or (False,) * 3
        t = 0
        for m, q in zip((m1, m2, m3), cj):
            t = t + (-m if q else m)
        if not bool(t == 0):
            want = 0.
    c.eq('integral', got, want)
    for f, q in zip(fs, old):
        for i in range(n):
            c.eq('operands-unchanged', f[i], q[i])


def at(c, x, mu, v):
    """piecewise-linear interpolation"""
    for i in range(len(mu) - 1):
        if mu[i] <= x <= mu[i + 1]:
            t = float((x - mu[i]) / (mu[i + 1] - mu[i]))
            return v[i] * (1 - t) + v[i + 1] * t
    raise ValueError('outside')


class Linear:
    """scipy's linear interpolation, on terms"""

    def __init__(self, c):
        self.c = c

    def __call__(self, x, y, **kw):
        x, y = [float(v) for v in x], list(y)
        if kw or len(x) != len(y):
            raise TypeError(f'interpolation of {len(x)}, {len(y)} with {kw}')
        return lambda q: self.c.arr([at(self.c, v, x, y) for v in np.asarray(q, float)])


def chebyshev(c):
    """Gauss-Chebyshev quadrature of the linear interpolant of sin(theta) times the integrand:
    always if requested, if the ordinary result blows up with the protection"""
    m = loader.repo(qc.HINT)
    prot = c.choice('protection', [False, True])
    div, mul = c.choice('div_by_sin', [False, True]), c.choice('mul_with_mu', [False, True])
    k = c.choice('factors', [1, 2, 3])
    mult = c.choice('order multiplier', [1, 2, 9] if prot else [1, 3])
    n = c.choice('n', [4, 3] if c.sym else [3, 4, 9])
    end = .9995 if prot else 1.
    inner = {3: [.25], 4: [-.375, .5], 9: [-.8, -.7, -.3, 0., .2, .5, .85]}[n]
    mu = [-end] + inner + [end]
    fs = [c.reals(f'f{j}', n) for j in range(k)]
    o = types.SimpleNamespace(_mu_values=np.array(mu), **{f'_f{j}': fs[j] for j in range(k)})
    old = [[+v for v in f] for f in fs]
    kw = dict(cheby_order_multiplier=mult)
    if prot:
        top = c.real('factor', pos=True, rand=lambda r: r.choice([.01, .1, 1., 5.]))
        kw.update(cheby_blow_up_protection=True, cheby_blow_up_factor=top)
    else:
        kw['use_cheby_integration'] = True
    with stubs(c, qc.HINT), qc.patched((m, 'interp1d', Linear(c))) if c.sym else \
            qc.contextlib.nullcontext():
        got = m.HoughIntegration.quadratic_angular_integral(
            o, [f'_f{j}' for j in range(k)], div_by_sin=div, mul_with_mu=mul, **kw)
    g, sin = [], [math.sqrt(1. - v * v) for v in mu]
    for i in range(n):
        v = mu[i] if mul else 1.
        for f in old:
            v = v * f[i]
        g.append(v)
    order = n * mult
    gauss = [math.cos(math.pi * (2 * i + 1) / (2 * order)) for i in range(order)]
    want = None
    if prot:
        want = qc.trapz(c, [v / s for v, s in zip(g, sin)] if div else g, mu)
        if bool(want > top) and gauss[0] < end:
            want = None
    if want is None:
        h = g if div else [v * s for v, s in zip(g, sin)]
        want = 0.
        for v in gauss:
            want = want + at(c, v, mu, h) * (math.pi / order)
    c.eq('gauss-chebyshev', got, want * 2 * math.pi, tol=1e-9)
    for f, q in zip(fs, old):
        for i in range(n):
            c.eq('operands-unchanged', f[i], q[i])


def coupled(c):
    """the Hough functions held by the coupling object are those of the handler, all of one mode
    scaled by the factor that gives its radial function unit norm"""
    W = qc.World(c, 5, 2 if c.sym else 8, poly=True, ls=(2, 1, 3), conj=None)
    o = W.build()
    W.qpos = []
    hn = W.norms()
    for j in range(3):
        for k in qc.H:
            v = getattr(o, f'_{k}_mode_{j + 1}')
            for i, w in enumerate(list(W.h[j][k])):
                c.eq(f'scaled-{k}', v[i], w * hn[j])


CONTRACTS = [
    Contract('normalisation', norm, load=load, modules=qc.MODS, rand=60, functions=[
        f'{HN}:HoughNormalizer.{k}' for k in (
            'get_norm_factor', '_acceptable_normalizations', '_prat_2019_normalization_factor',
            '_lee_2012_normalization_factor')]),
    Contract('angular-integral', angular, load=load, modules=qc.MODS, rand=300, budget=200,
             functions=[f'{qc.HF}:{k}' for k in (
                 'conjugator', 'HoughIntegration._phi_m_selection_rule',
                 'HoughIntegration._compute_theta_integral',
                 'HoughIntegration._adapt_to_complex_conjugation',
                 'HoughIntegration.quadratic_angular_integral')]),
    Contract('chebyshev-quadrature', chebyshev, load=load, modules=qc.MODS, rand=150, budget=100,
             functions=[f'{qc.HF}:HoughIntegration.{k}' for k in (
                 '_chebyshev_gauss_quad', '_compute_theta_integral',
                 'quadratic_angular_integral')]),
    Contract('scaled-functions', coupled, load=load, modules=qc.MODS, rand=20, functions=[
        f'{qc.QF}:QuadraticCouplingCoefficientRotating.{k}' for k in (
            '_store_houghs', '_normalize_houghs')]),
]
