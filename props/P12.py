"""Hough functions: Laplace's tidal equation, definitions, derivatives, parities."""
import types

import numpy as np
from dv import loader
from dv.runner import CRASH, Contract

HFM, CHM = 'hough_function.hough_function', 'cheby_transform.cheby_transform'
HANDLER = 'aesolver.angular_integration.rotating_tar_angular.hough_function_handler'
F = 'hough-func-tools/hough_function/hough_function.py'
HF = 'aesolver/aesolver/angular_integration/rotating_tar_angular/hough_function_handler.py'


def load():
    for m in (HFM, CHM, HANDLER):
        loader.repo(m)


def sqrt(c, v):
    if c.sym:
        from dv.npshim import scalar
        return scalar('sqrt', v)
    return np.sqrt(v)


class D:
    """value and mu-derivative"""

    def __init__(self, v, d=0):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        return x if isinstance(x, D) else D(x)

    def __add__(a, b):
        b = D.of(b)
        return D(a.v + b.v, a.d + b.d)
    __radd__ = __add__

    def __neg__(a):
        return D(-a.v, -a.d)

    def __sub__(a, b):
        return a + (-D.of(b))

    def __rsub__(a, b):
        return D.of(b) - a

    def __mul__(a, b):
        b = D.of(b)
        return D(a.v * b.v, a.v * b.d + a.d * b.v)
    __rmul__ = __mul__

    def __truediv__(a, b):
        b = D.of(b)
        return D(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v))


def expected(kind, mu, s, m, nu, f, f1, f2):
    """all functions at one latitude, from the radial function and its derivatives"""
    M, S, FF, F1 = D(mu, 1), D(s, -mu / s), D(f, f1), D(f1, f2)
    den = 1 - nu * nu * M * M
    ht = (-(S * S * F1) - m * nu * M * FF) / (den * S)
    hp = (nu * M * S * S * F1 + m * FF) / (den * S)
    ms = m
    if kind != 'prat':
        hp, ms = -hp, -m
    if kind == 'townsend':
        ht, hp = ht * S, hp * S
    return {
        'hr': f, 'ht': ht.v, 'hp': hp.v, 'theta_der_hr': f1, 'theta_der2_hr': f2,
        'theta_der_ht': ht.d, 'theta_der_hp': hp.d, 'theta_der_hr_theta': -s * f1,
        'theta_der2_hr_theta': s * s * f2 - mu * f1, 'theta_der_ht_theta': -s * ht.d,
        'theta_der_hp_theta': -s * hp.d, 'mhr': -m * f,
        'theta_phi': ms * ht.v - mu * hp.v, 'phi_phi': (mu * ht.v - ms * hp.v) / s}


def tidal(mu, s, m, nu):
    """coefficients of f, f', f'' in Laplace's tidal operator:
    d/dmu (s^2/D df/dmu) + [nu m (1 + nu^2 mu^2)/D^2 - m^2/(s^2 D)] f"""
    M, S2 = D(mu, 1), D(s * s, -2 * mu)
    den = 1 - nu * nu * M * M
    q = S2 / den
    dd = den.v
    return nu * m * (1 + nu * nu * mu * mu) / (dd * dd) - m * m / (s * s * dd), q.d, q.v


EIG = [-12.25, 5., -6.5 + 1j, -6.5 - 1j, -2.125, 0.5, -7.]
REAL = [-12.25, -2.125, -7.]
LM = [((2, 1), (None, -7.)), ((2, 1), (12., -12.25)), ((3, -2), (None, -12.25)),
      ((1, 1), ([2.5], -2.125)), ((2, 0), (6., -7.)), ((1, -1), (1 + 2j, -2.125)),
      ((3, 2), (np.array([3.]), -2.125))]


def functions(c):
    """every output is the stated function of the selected eigenvector on [-1, 1]"""
    if not c.sym:
        return concrete(c)
    hm, hd = loader.repo(HFM), loader.repo(HANDLER)
    kind = c.choice('definition', ['lee_saio_equivalent', 'prat', 'townsend'])
    (l, m), (lmbd, want) = c.choice('mode', LM)
    nu = c.real('nu')
    n = 2
    mu = [c.real(f'mu{i}') for i in range(n)]
    for u in mu:
        c.assume(u > 0)
        c.assume(u < 1)
        c.assume(1 - nu * nu * u * u != 0)
    s = [sqrt(c, 1 - u * u) for u in mu]
    vec = np.empty((n, len(EIG)), dtype=object)
    for i in range(n):
        for j in range(len(EIG)):
            vec[i, j] = 1. * (i + j)
    k = EIG.index(want)
    v = [c.real(f'v{i}') for i in range(n)]
    w = [c.real(f'w{i}') for i in range(n)]
    for i in range(n):
        c.assume(v[i] != 0)
        vec[i, k] = v[i]
    p2 = []
    for i in range(n):
        a0, a1, a2 = tidal(mu[i], s[i], m, nu)
        p2.append((want * v[i] - a0 * v[i] - a1 * w[i]) / a2)
    seen = []

    class Cheby:
        def __init__(self, npts=200):
            self.npts, self.mu, self.s = npts, c.arr(mu), c.arr(s)

        def par(self, parity, pf):
            c.prove('parity', parity == (l - m) % 2 and pf == m % 2)

        def solve_eig(self, c0, c1, c2, parity, pf):
            self.par(parity, pf)
            for i in range(n):
                a = tidal(mu[i], s[i], m, nu)
                for nm, x, y in zip('fgh', (c0, c1, c2), a):
                    c.eq(f'tidal-operator-{nm}', x[i], y)
            return np.array(EIG), vec

        def der(self, f, d):
            return [f[i] / v[i] * d[i] for i in range(n)]

        def apply(self, f, c0, c1, c2, parity, pf):
            self.par(parity, pf)
            g1, g2 = self.der(f, w), self.der(f, p2)
            return c.arr([c0[i] * f[i] + c1[i] * g1[i] + (0 if c2 is None else c2[i] * g2[i])
                          for i in range(n)])

        def diff1(self, f, parity, pf):
            self.par(parity, pf)
            return c.arr(self.der(f, w))

        def diff2(self, f, parity, pf):
            self.par(parity, pf)
            return c.arr(self.der(f, p2))
    old = hm.ChebyTransform
    hm.ChebyTransform = Cheby
    try:
        out, mus, th = hd.HoughFunctionHandler.get_relevant_hough_output(
            nu, l, m, npts=4, lmbd=lmbd, definition=kind)
    finally:
        hm.ChebyTransform = old
    grid = [-u for u in mu] + mu[::-1]
    c.prove('grid-size', len(mus) == 2 * n)
    # the selected eigenvector, scaled to unit maximum and positive at its last node
    hr = list(out['hr'])
    fac = hr[-1] / v[0]
    mx = abs(v[0])
    if bool(abs(v[1]) > mx):
        mx = abs(v[1])
    sg = 1 if bool(v[-1] > 0) else -1
    c.eq('normalisation', fac, sg / mx)
    sign = (-1) ** (l - abs(m))
    for i in range(2 * n):
        j = i if i < n else 2 * n - 1 - i
        q = sign if i < n else 1
        c.eq('mu', mus[i], grid[i])
        f, f1, f2 = v[j] * fac * q, w[j] * fac * (-q if i < n else 1), p2[j] * fac * q
        e = expected(kind, grid[i], s[j], m, nu, f, f1, f2)
        for name in e:
            c.eq(f'{name}{"-south" if i < n else ""}', out[name][i], e[name])
        if kind != 'townsend':
            c.eq('horizontal-divergence', out['theta_der_ht_theta'][i] + out['phi_phi'][i],
                 want * f)
    c.prove('all-functions', set(out) == set(e))


def chebpoly(mu, y, der):
    C = np.polynomial.chebyshev
    k = C.chebfit(mu, y, len(mu) - 1)
    return [C.chebval(mu, C.chebder(k, d) if d else k) for d in range(der + 1)]


def concrete(c):
    hd = loader.repo(HANDLER)
    kind = c.choice('definition', ['lee_saio_equivalent', 'prat', 'townsend'])
    l = c.int('l', 1, 5)
    m = c.int('m', -l, l)
    nu = c.real('nu', lo=-.9, hi=.9)
    npts = c.choice('npts', [40, 61, 80])
    n = npts // 2
    out, mu, th = hd.HoughFunctionHandler.get_relevant_hough_output(
        nu, l, m, npts=npts, lmbd=None, definition=kind)
    c.eq('grid', mu, np.concatenate([-np.cos((np.arange(n) + .5) * np.pi / (2 * n)),
                                     np.cos((np.arange(n) + .5) * np.pi / (2 * n))[::-1]]))
    c.eq('thetas', th, np.arccos(mu))
    s = np.sqrt(1 - mu ** 2)
    if np.abs(1 - nu ** 2 * mu ** 2).min() < 1e-3:
        return
    f = out['hr']
    c.eq('unit-maximum', np.abs(f).max(), 1.)
    c.prove('positive-at-equator', f[n] >= 0)
    c.eq('parity', f[::-1], (-1) ** (l - m) * f)
    pf = m % 2
    P = chebpoly(mu, f / s ** pf, 2)
    f1, f2 = P[1], P[2]
    if pf:
        f1 = P[1] * s - mu / s * P[0]
        f2 = P[2] * s - 2 * mu / s * P[1] - P[0] / s ** 3
    i = slice(n // 4, 2 * n - n // 4)
    e = expected(kind, mu, s, m, nu, f, f1, f2)
    for k in e:
        sc = max(np.abs(e[k][i]).max(), 1e-2)
        c.eq(k, out[k][i] / sc, e[k][i] / sc, tol=2e-4)
    a0, a1, a2 = tidal(mu, s, m, nu)
    L = (a0 * f + a1 * f1 + a2 * f2)[i]
    lam = np.dot(L, f[i]) / np.dot(f[i], f[i])
    sc = max(np.abs(lam), np.abs(a0[i] * f[i]).max(), np.abs(a2[i] * f2[i]).max())
    c.eq('tidal-equation', L / sc, lam * f[i] / sc, tol=2e-3)
    if abs(nu) < .05 and m == 0:
        c.eq('eigenvalue', lam, -l * (l + 1), tol=.1)


def nonrotating(c):
    """without rotation the functions are the associated Legendre functions"""
    from scipy.special import lpmv
    hd = loader.repo(HANDLER)
    l = c.int('l', 1, 6)
    m = c.int('m', -l, l)
    lam = c.choice('lmbd', [None, 'exact'])
    out, mu, _ = hd.HoughFunctionHandler.get_relevant_hough_output(
        0., l, m, npts=60, lmbd=None if lam is None else l * (l + 1.))
    P = lpmv(abs(m), l, mu)
    P = P / np.abs(P).max()
    n = len(mu) // 2
    P = P * (1 if P[n] > 0 else -1)
    c.eq('legendre', out['hr'], P, tol=1e-6)


CONTRACTS = [
    Contract('hough-functions', functions, load=load, modules=[HFM, HANDLER], rand=60, budget=120,
             crash=CRASH + (TypeError, KeyError),
             functions=[f'{F}:HoughFunction.{k}' for k in (
                 '__init__', '__call__', '_colloc', '_get_eigenvalue_and_radial_hough',
                 '_get_latitudinal_hough', '_get_azimuthal_hough', '_get_derivatives',
                 '_get_theta_derivatives', '_mul_kgrav', '_mul_kgrav_1', 'neg_mu_hr', 'neg_mu_ht',
                 'neg_mu_hp', 'neg_mu_hrp', 'neg_mu_hrpp', 'neg_mu_htp', 'neg_mu_hpp', 'hr_range',
                 'ht_range', 'hp_range', 'hrp_range', 'hrpp_range', 'htp_range', 'hpp_range',
                 'hr_range_m', 'theta_phi_hough_tilde', 'phi_phi_hough_tilde', 'mu_range',
                 'thetas_range')] + [f'{HF}:HoughFunctionHandler.{k}' for k in (
                     'get_relevant_hough_output', '_get_hough_object',
                     '_compute_hough_function_or_derivative')],
             note='symbolic: spin, latitudes and radial function and its derivatives; the '
                  'Chebyshev operators are replaced by exact differentiation (property P11)'),
    Contract('non-rotating', nonrotating, load=load, sym=False, rand=30,
             note='bounded: associated Legendre functions for l up to 6'),
]
