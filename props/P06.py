"""Hyperbolicity verdict and the Jacobians it is computed from."""
import numpy as np
from dv import loader
from dv.runner import Contract
from dv.term import Sym, SymC, iff, mk, var
from dv.npshim import NPI

MOD = 'aesolver.stability_checker.hyperbolicity.hyperbolicity_checker'
FILE = 'aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py'


def rt(c, x):
    return NPI.sqrt(x) if c.sym else float(np.sqrt(x))


def truth4(c, g, w, q, eta):
    """Jacobian in (A1, A2, A3, Y) of the amplitude equations (see _ae) at the fixed point of a
    parametric triad; s = sin Y < 0 (eta > 0), cot Y = -q (phase Y = psi_2 + psi_3 - psi_1)."""
    s12, s13, s23 = (rt(c, -g[0] * g[1] / (w[0] * w[1])), rt(c, -g[0] * g[2] / (w[0] * w[2])),
                     rt(c, g[1] * g[2] / (w[1] * w[2])))
    r = rt(c, 1 + q * q)
    a = [s23 * r / (2 * eta), s13 * r / (2 * eta), s12 * r / (2 * eta)]     # amplitudes
    gp = g[0] + g[1] + g[2]
    n = 2 * eta
    s = -1 / r
    T = [[g[0], n * w[0] * a[2] * s, n * w[0] * a[1] * s, q * g[0] * a[0]],
         [-n * w[1] * a[2] * s, g[1], -n * w[1] * a[0] * s, q * g[1] * a[1]],
         [-n * w[2] * a[1] * s, -n * w[2] * a[0] * s, g[2], q * g[2] * a[2]],
         [q * (gp - 2 * g[i]) / a[i] for i in range(3)] + [gp]]
    return T, a


def _in4(c):
    g = [c.real('g1', pos=True), c.real('g2', neg=True), c.real('g3', neg=True)]
    w = [c.real(f'w{i}', pos=True) for i in range(3)]
    q = c.real('q', nonzero=True)
    eta = c.real('eta', pos=True)
    c.assume(g[0] + g[1] + g[2] != 0)
    return g, w, q, eta


def jac4(c):
    mod = loader.repo(MOD)
    g, w, q, eta = _in4(c)
    how = c.choice('eta_as', ['scalar', 'list'])
    J = mod.jacobian_in_fp_real_four_ae_system(c.arr(g), c.arr(w), q,
                                               eta if how == 'scalar' else [eta])
    T, a = truth4(c, g, w, q, eta)
    c.prove('shape', tuple(J.shape) == (4, 4))
    for i in range(4):
        for j in range(4):
            if i == j or 3 in (i, j):
                c.eq(f'entry{i}{j}', J[i, j], T[i][j])
    off = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]
    for i, j in off:
        c.eq(f'magnitude{i}{j}', J[i, j] * J[i, j], T[i][j] * T[i][j])
        # one common orientation for the six coupling entries
        c.eq(f'orientation{i}{j}', J[i, j] * T[0][1], T[i][j] * J[0, 1])


def truth4_lemma(c):
    """the closed form above is the derivative of the amplitude equations (numerical)"""
    g, w, q, eta = _in4(c)
    T, a = truth4(c, g, w, q, eta)
    n = 2 * eta
    gp = sum(g)

    def f(x):
        A, B, C, Y = x
        s, k = np.sin(Y), np.cos(Y)
        return np.array([g[0] * A + n * w[0] * B * C * s, g[1] * B - n * w[1] * A * C * s,
                         g[2] * C - n * w[2] * A * B * s,
                         -q * gp + n * k * (w[0] * B * C / A - w[1] * A * C / B - w[2] * A * B / C)])
    r = np.sqrt(1 + q * q)
    Y = np.arctan2(-1 / r, q / r)
    x = np.array(list(a) + [Y], dtype=float)
    c.prove('fixed point', np.max(np.abs(f(x))) < 1e-9 * (1 + np.max(np.abs(x))) * (1 + abs(q * gp)))
    for j in range(4):
        h = 1e-6 * max(abs(x[j]), 1e-3)
        e = np.zeros(4)
        e[j] = h
        d = (f(x + e) - f(x - e)) / (2 * h)
        for i in range(4):
            c.eq(f'derivative{i}{j}', d[i], float(T[i][j]), tol=1e-4, atol=1e-5)


def jac3(c):
    """harmonic system: every entry is the derivative, (0,1) and (1,1) may deviate as in the known
    findings"""
    mod = loader.repo(MOD)
    par = c.choice('case', [True, False])
    g1 = c.real('g1', pos=par, neg=not par)
    g2 = c.real('g2', pos=not par, neg=par)
    w1, w2 = c.real('w1', pos=True), c.real('w2', pos=True)
    q, eta = c.real('q', nonzero=True), c.real('eta', pos=True)
    c.assume(g1 + 2 * g2 != 0)
    J = mod.jacobian_in_fp_real_three_ae_system(c.arr([g1, g2, g2]), c.arr([w1, w2, w2]), q, eta)
    c.prove('shape', tuple(J.shape) == (3, 3))
    r = rt(c, 1 + q * q)
    # fixed point of A1' = g1 A1 + w1 n A2^2 s, A2' = g2 A2 - 2 w2 n A1 A2 s
    # 2 w2 n A1 s = g2 ; w1 n A2^2 s = -g1 A1
    a1 = g2 * r / (2 * w2 * eta)            # signed with s > 0
    a2sq = -g1 * g2 * r * r / (2 * w1 * w2 * eta * eta)
    a2 = rt(c, a2sq)
    s = 1 / r
    c.eq('e00', J[0, 0], g1)
    c.eq('e10', J[1, 0], -2 * w2 * eta * a2 * s)
    c.eq('e02', J[0, 2], q * g1 * a1)
    c.eq('e12', J[1, 2], q * g2 * a2)
    c.eq('e20', J[2, 0], q * (2 * g2 - g1) / a1)
    # (2,1) = 2 cot(Y) w1 n A2 sin(Y) / A1 = -2 q g1 / A2 (up to the orientation of A1)
    c.eq('e21', J[2, 1] * J[2, 1] * a2sq, 4 * q * q * g1 * g1)
    c.prove('e21sign', J[2, 1] * q > 0)
    c.eq('e22', J[2, 2], g1 + 2 * g2)
    # the known findings, and no other deviation
    x = J[0, 1] * J[0, 1] * w2 / (-g1 * g2 * w1)
    c.eq('e01', (x - 1) * (x - 2), 0., atol=1e-8)
    c.prove('e01sign', J[0, 1] * J[1, 0] < 0)
    y = J[1, 1] / g2
    c.eq('e11', y * (y - 1), 0., atol=1e-8)


def verdict(c):
    """the fixed point is hyperbolic iff no eigenvalue has zero real part and det != 0"""
    mod = loader.repo(MOD)
    if c.sym:
        n = c.choice('n', [3, 4])
        ev = c.arr([SymC(c.real(f'e{i}.re'), c.real(f'e{i}.im')) for i in range(n)])
        det = c.real('det')
        STUB['ev'], STUB['det'] = ev, det
        J = c.arr([[c.real(f'J{i}{j}') for j in range(n)] for i in range(n)]) if False else \
            np.eye(n)
        v = mod.check_hyperbolicity_of_fp(J)
        want = det != 0
        for e in ev:
            want = want & (e.real != 0)
        c.prove('verdict', Sym(iff(c._b(v), c._b(want))))
    else:
        kind = c.choice('kind', ['generic', 'center', 'singular', 'nan', 'inf'])
        n = c.choice('n', [3, 4])
        if kind == 'generic':
            d = [c.real(f'd{i}', nonzero=True) for i in range(n)]
            J = np.triu(np.ones((n, n))) - np.eye(n) + np.diag(d)
            c.prove('generic', bool(mod.check_hyperbolicity_of_fp(J)) is True)
        elif kind == 'center':
            J = np.zeros((n, n))
            b = 2. ** c.int('b', -2, 3)
            J[0, 1], J[1, 0] = b, -b
            for i in range(2, n):
                J[i, i] = c.real(f'd{i}', nonzero=True)
            c.prove('centre', not mod.check_hyperbolicity_of_fp(J))
        elif kind == 'singular':
            J = np.diag([c.real(f'd{i}', nonzero=True) for i in range(n)])
            k = c.int('k', 0, n - 1)
            J[k, k] = 0.
            c.prove('singular', not mod.check_hyperbolicity_of_fp(J))
        else:
            J = np.diag([1.] * n)
            J[c.int('i', 0, n - 1), c.int('j', 0, n - 1)] = np.nan if kind == 'nan' else np.inf
            c.prove('non-finite', not mod.check_hyperbolicity_of_fp(J))


STUB = {}


class _Lin:
    LinAlgError = np.linalg.LinAlgError

    @staticmethod
    def eigvals(m):
        return STUB['ev']

    @staticmethod
    def det(m):
        return STUB['det']


class _Np:
    linalg = _Lin()

    def __getattr__(self, n):
        return getattr(NPI, n)


def known4(c):
    mod = loader.repo(MOD)
    g, w, q, eta = _in4(c)
    J = mod.jacobian_in_fp_real_four_ae_system(c.arr(g), c.arr(w), q, eta)
    T, _ = truth4(c, g, w, q, eta)
    c.eq('coupling-signs', J[0, 1], T[0][1])


def known3(c):
    mod = loader.repo(MOD)
    g1, g2 = c.real('g1', pos=True), c.real('g2', neg=True)
    w1, w2 = c.real('w1', pos=True), c.real('w2', pos=True)
    J = mod.jacobian_in_fp_real_three_ae_system(c.arr([g1, g2, g2]), c.arr([w1, w2, w2]),
                                                c.real('q', pos=True), c.real('eta', pos=True))
    c.eq('harmonic-entries', np.array([J[0, 1] ** 2, J[1, 1]]),
         np.array([-2 * g1 * g2 * w1 / w2, 0.]))


CONTRACTS = [
    Contract('jacobian-three-mode', jac4, modules=[MOD],
             functions=[f'{FILE}:jacobian_in_fp_real_four_ae_system']),
    Contract('jacobian-closed-form', truth4_lemma, modules=[MOD], sym=False, rand=30,
             note='bounded: the closed form of the specification against finite differences'),
    Contract('jacobian-harmonic', jac3, modules=[MOD],
             functions=[f'{FILE}:jacobian_in_fp_real_three_ae_system']),
    Contract('hyperbolic-verdict', verdict, modules=[MOD], extra={'np': _Np()},
             functions=[f'{FILE}:check_hyperbolicity_of_fp'],
             note='numpy.linalg.eigvals and det are opaque in the proof'),
    Contract('known-three-mode-signs', known4, modules=[MOD], sym=False, rand=3, strict=False),
    Contract('known-harmonic-entries', known3, modules=[MOD], sym=False, rand=3, strict=False),
]
