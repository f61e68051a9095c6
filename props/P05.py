"""Harmonic (two-mode) stability verdict == Routh-Hurwitz stability of the harmonic fixed point.

  A1' = g1 A1 + w1 n A2^2 sin Y,  A2' = g2 A2 - 2 w2 n A1 A2 sin Y,
  Y'  = D + n cos Y (w1 A2^2/A1 - 4 w2 A1),  D = q (g1 + 2 g2)
linearised in (ln A1, ln A2, Y)."""
from dv import loader
from dv.runner import Contract
from dv.term import Sym, iff
from . import _freq as fq, _ae, _pre

TWO = 'aesolver.stability_checker.two_mode.stab_checker_quadratic_two_sum'
FILE = 'aesolver/aesolver/stability_checker/two_mode/stab_checker_quadratic_two_sum.py'


def same(c, name, a, b, margin=None):
    if c.sym:
        c.prove(name, Sym(iff(c._b(a), c._b(b))))
    else:
        c.prove(name, bool(a) == bool(b), margin=margin)


def linear(g, q):
    u1, u2, ct = -g[0], -g[1], -q
    return [[-u1, 2 * u1, u1 * ct], [u2, 0 * u2, u2 * ct],
            [ct * (2 * u2 - u1), 2 * ct * u1, -(u1 + 2 * u2)]]


def routh(g, q):
    c1, c2, c3 = _ae.charpoly(linear(g, q))
    return c1, c3, c1 * c2 - c3


def eig_ok(c, g, q, verdict, guard=True):
    import numpy as np
    ev = np.linalg.eigvals(np.array(linear(g, q), dtype=float))
    c.prove('eigenvalues', bool((ev.real < 0).all()) == bool(verdict),
            margin=guard and np.min(np.abs(ev.real)) > 1e-5 * np.max(np.abs(ev)))


def band(c, g, q):
    """driving ratios and detunings between the two quotients (see known findings)"""
    th = -g[1] / g[0]
    a = 2 * th * (th - 1)
    q2 = q * q
    return (a > 1) & (q2 * (a + 1) > a - 1) & (q2 * (a - 1) <= a + 1)


def _par(c):
    g1, g2 = c.real('g1', pos=True), c.real('g2', neg=True)
    return [g1, g2, g2], c.real('q')


def parametric(c):
    mod = loader.repo(TWO)
    g, q = _par(c)
    if c.sym:
        c.assume(~band(c, g, q))
    elif band(c, g, q):
        from dv.engine import Skip
        raise Skip
    v = mod.check_dziembowski_conditions_parametric(c.arr(g), q)
    c1, c3, d3 = routh(g, q)
    if c.sym:
        same(c, 'parametric', v, (c1 > 0) & (c3 > 0) & (d3 > 0))
    else:
        ok = c1 > 0 and c3 > 0 and d3 > 0
        sc = (abs(g[0]) + abs(g[1])) ** 3 * (1 + q * q)
        m = abs(d3) > 1e-6 * sc and abs(c3) > 1e-6 * sc
        same(c, 'parametric', v, ok, margin=m)
        eig_ok(c, g, q, v, m)


def direct(c):
    mod = loader.repo(TWO)
    g1, g2 = c.real('g1', neg=True), c.real('g2', pos=True)
    g, q = [g1, g2, g2], c.real('q')
    v = mod.check_dziembowski_conditions_direct(c.arr(g))
    c1, c3, d3 = routh(g, q)
    if c.sym:
        same(c, 'direct', v, (c1 > 0) & (c3 > 0) & (d3 > 0))
    else:
        sc = (abs(g[0]) + abs(g[1])) ** 3 * (1 + q * q)
        m = abs(d3) > 1e-6 * sc and abs(c3) > 1e-6 * sc
        same(c, 'direct', v, c1 > 0 and c3 > 0 and d3 > 0, margin=m)
        eig_ok(c, g, q, v, m)


def verdict(c):
    """the verdict of the pre-check object for a harmonic triad (parent, daughter, same daughter)"""
    w1, w2 = c.real('w1', pos=True), c.real('w2', pos=True)
    g1, g2 = c.real('g1', nonzero=True), c.real('g2', nonzero=True)
    w, g = [w1, w2, w2], [g1, g2, g2]
    gs = g1 + 2 * g2
    c.assume(gs != 0)
    q = (w1 - 2 * w2) / gs
    from dv.engine import Skip
    if c.sym:
        c.assume(~((g1 > 0) & (g2 < 0) & band(c, g, q)))
    elif g1 > 0 and g2 < 0 and band(c, g, q):
        raise Skip
    v = _pre.obj_of(c, w, g, harmonic=True).check()
    c1, c3, d3 = routh(g, q)
    if c.sym:
        opp = ((g1 > 0) & (g2 < 0)) | ((g1 < 0) & (g2 > 0))
        same(c, 'harmonic-verdict', v, opp & (c1 > 0) & (c3 > 0) & (d3 > 0))
    else:
        sc = (abs(g1) + abs(g2)) ** 3 * (1 + q * q)
        same(c, 'harmonic-verdict', v, g1 * g2 < 0 and c1 > 0 and c3 > 0 and d3 > 0,
             margin=abs(d3) > 1e-6 * sc and abs(c3) > 1e-6 * sc)


def known_band(c):
    """inside the band the fixed point is unstable"""
    mod = loader.repo(TWO)
    g1 = c.real('g1', pos=True)
    th = c.real('theta', lo=1.5, hi=4)
    g = [g1, -th * g1, -th * g1]
    a = 2 * th * (th - 1)
    q = (c.real('f', lo=.1, hi=.9) * ((a + 1) / (a - 1) - (a - 1) / (a + 1)) + (a - 1) / (a + 1)) ** .5
    v = mod.check_dziembowski_conditions_parametric(c.arr(g), q)
    c.prove('unstable-band', not v)


CONTRACTS = [
    Contract('harmonic-parametric', parametric, modules=[TWO], functions=[
        f'{FILE}:check_dziembowski_conditions_parametric', f'{FILE}:compute_theta']),
    Contract('harmonic-direct', direct, modules=[TWO], functions=[
        f'{FILE}:check_dziembowski_conditions_direct']),
    Contract('harmonic-verdict', verdict, modules=[_pre.PRE, TWO] + fq.mods(), functions=[
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic.check',
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic._check_linearly_stable_fp']),
    Contract('known-harmonic-band', known_band, modules=[TWO], sym=False, rand=3, strict=False,
             functions=[]),
]
