"""Chebyshev collocation: exact differentiation of parity-adapted polynomials."""
import numpy as np
from dv import loader
from dv.runner import Contract

CHM = 'cheby_transform.cheby_transform'
F = 'hough-func-tools/cheby_transform/cheby_transform.py'
C = np.polynomial.chebyshev


def load():
    loader.repo(CHM)


def basis(mu, k, pf):
    """values, first and second derivative of T_k(mu) (1 - mu^2)^(pf/2)"""
    co = np.zeros(k + 1)
    co[k] = 1.
    t = [C.chebval(mu, C.chebder(co, d) if d else co) for d in range(3)]
    if not pf:
        return t
    s = np.sqrt(1 - mu ** 2)
    return [t[0] * s, t[1] * s - mu / s * t[0], t[2] * s - 2 * mu / s * t[1] - t[0] / s ** 3]


def matrices(c):
    """diff1, diff2 and apply on every element of the expansion basis (the operators are linear,
    so this covers every function the expansion represents, for each number of points tried)"""
    npts = c.choice('npts', list(range(2, 41)) + [64, 101, 200])
    parity, pf = c.choice('parity', [0, 1]), c.choice('pf', [0, 1])
    T = loader.repo(CHM).ChebyTransform(npts=npts)
    n = npts // 2
    th = np.pi / (2 * n) * (np.arange(n) + .5)
    c.eq('theta', T.theta, th)
    c.eq('mu', T.mu, np.cos(th))
    c.eq('s', T.s, np.sin(th))
    mu = np.cos(th)
    tol = 1e-7 if n < 25 else 1e-4
    a, b, d = (np.array([c.real(f'{k}{i}', lo=-1., hi=1.) for i in range(n)]) for k in 'abd')
    tot = [0., 0., 0.]
    for j in range(n):
        k = 2 * j + parity
        f = basis(mu, k, pf)
        w = (c.real(f'w{j}', lo=-1., hi=1.)) / (1 + k) ** 2
        tot = [t + w * v for t, v in zip(tot, f)]
        for nm, got, want in (('diff1', T.diff1(f[0], parity, pf), f[1]),
                              ('diff2', T.diff2(f[0], parity, pf), f[2])):
            sc = np.abs(want).max() + 1.
            c.eq(nm, got / sc, want / sc, tol=tol, atol=tol)
    sc = 1. + max(np.abs(t).max() for t in tot)
    c.eq('apply', T.apply(tot[0], a, b, d, parity, pf) / sc,
         (a * tot[0] + b * tot[1] + d * tot[2]) / sc, tol=tol, atol=tol)
    c.eq('apply-first-order', T.apply(tot[0], a, b, None, parity, pf) / sc,
         (a * tot[0] + b * tot[1]) / sc, tol=tol, atol=tol)


def eig(c):
    """solve_eig returns eigenpairs of c2 D2 + c1 D1 + c0"""
    npts = c.choice('npts', [4, 7, 10, 16])
    parity, pf = c.choice('parity', [0, 1]), c.choice('pf', [0, 1])
    T = loader.repo(CHM).ChebyTransform(npts=npts)
    n = npts // 2
    a, b, d = (np.array([c.real(f'{k}{i}', lo=-1., hi=1.) for i in range(n)]) for k in 'abd')
    w, v = T.solve_eig(a, b, d, parity, pf)
    c.prove('number', len(w) == n and v.shape == (n, n))
    sc = 1. + np.abs(w).max()
    for i in range(n):
        for part in (v[:, i].real, v[:, i].imag):
            pass
        u = v[:, i]
        r = a * u + b * (T.diff1(u.real, parity, pf) + 1j * T.diff1(u.imag, parity, pf)) + \
            d * (T.diff2(u.real, parity, pf) + 1j * T.diff2(u.imag, parity, pf))
        c.eq('eigenpair', np.abs(r - w[i] * u) / sc, np.zeros(n), tol=1e-7)


def operators(c):
    """apply and diff for arbitrary differentiation matrices: c0 f + c1 D1 f + c2 D2 f"""
    n = 3
    mod = loader.repo(CHM)
    T = object.__new__(mod.ChebyTransform)
    parity, pf = c.choice('parity', [0, 1]), c.choice('pf', [0, 1])
    mats = {}
    for nm in ('d1', 'd2'):
        A = np.empty((2, 2, n, n), dtype=object if c.sym else float)
        for i in np.ndindex(*A.shape):
            A[i] = c.real(nm + ''.join(map(str, i)))
        mats[nm] = A
        setattr(T, nm, A)
    f, a, b, d = (c.arr([c.real(f'{k}{i}') for i in range(n)]) for k in 'fabd')
    dot = lambda A: [sum((A[parity, pf, i, j] * f[j] for j in range(n)), 0 * f[0])
                     for i in range(n)]
    g1, g2 = dot(mats['d1']), dot(mats['d2'])
    r1, r2 = T.diff1(f, parity, pf), T.diff2(f, parity, pf)
    full = T.apply(f, a, b, d, parity, pf)
    low = T.apply(f, a, b, None, parity, pf)
    for i in range(n):
        c.eq('diff1', r1[i], g1[i])
        c.eq('diff2', r2[i], g2[i])
        c.eq('apply', full[i], a[i] * f[i] + b[i] * g1[i] + d[i] * g2[i])
        c.eq('apply-first-order', low[i], a[i] * f[i] + b[i] * g1[i])


CONTRACTS = [
    Contract('operators', operators, load=load, modules=[CHM], rand=40,
             functions=[f'{F}:ChebyTransform.{k}' for k in ('apply', 'diff1', 'diff2')],
             note='3 points, symbolic matrices, functions and coefficients'),
    Contract('matrices', matrices, load=load, sym=False, rand=160,
             note='bounded: numbers of points up to 40, 64, 101 and 200; every basis function'),
    Contract('eigenproblem', eig, load=load, sym=False, rand=60, note='bounded'),
]
