"""Three-mode stability verdict == Routh-Hurwitz stability of the fixed point."""
from dv import loader
from dv.runner import Contract
from dv.term import Sym, SymC, iff, band, lift
from . import _freq as fq
from . import _ae

THREE = 'aesolver.stability_checker.three_mode.stab_checker_quadratic_three_sum'
PRE = 'aesolver.pre_checks.specific.three_mode_checks'
FILE = 'aesolver/aesolver/stability_checker/three_mode/stab_checker_quadratic_three_sum.py'
PFILE = 'aesolver/aesolver/pre_checks/specific/three_mode_checks.py'


def same(c, name, a, b, margin=None):
    if c.sym:
        c.prove(name, Sym(iff(c._b(a), c._b(b))))
    else:
        c.prove(name, bool(a) == bool(b), margin=margin)


def _h3(g, q):
    return _ae.hurwitz4(_ae.charpoly(_ae.log_linearisation(g, q)))


def lemma(c):
    """Routh-Hurwitz conditions of the linearised amplitude equations (parametric regime)"""
    mod = loader.repo(THREE)
    g = c.arr([c.real('g1', pos=True), c.real('g2', neg=True), c.real('g3', neg=True)])
    q = c.real('q')
    h = _h3(list(g), q)
    scale = sum(abs(x) for x in g) if not c.sym else 1
    f = mod.check_corrected_dziembowski_conditions
    v = f(g, q)
    # third Hurwitz determinant
    same(c, 'condition<=>H3>0', v, h[2] > 0, margin=c.sym or abs(h[2]) > 1e-6 * scale ** 6)
    gs = mod.gamma_sum_stability
    if c.sym:
        gs = gs.dispatch(type(g)) if False else gs
    # remaining conditions: c1 > 0 and c4 > 0 <=> damping sum
    same(c, 'c1<=>sum<0', h[0] > 0, g[0] + g[1] + g[2] < 0)
    same(c, 'c4<=>sum<0', h[1] > 0, g[0] + g[1] + g[2] < 0,
         margin=c.sym or abs(g[0] + g[1] + g[2]) > 1e-9 * scale)
    if not c.sym:
        import numpy as np
        M = np.array(_ae.log_linearisation(list(g), q), dtype=float)
        ev = np.linalg.eigvals(M)
        stab = bool((ev.real < 0).all())
        ver = bool(gs(g)) and bool(v)
        c.prove('eigenvalues', stab == ver,
                margin=np.min(np.abs(ev.real)) > 1e-5 * np.max(np.abs(ev)))


def gss(c):
    mod = loader.repo(THREE)
    form = c.choice('form', ['array', 'list', 'float'])
    g = [c.real('g1'), c.real('g2'), c.real('g3')]
    s = g[0] + g[1] + g[2]
    if form == 'float':
        v = mod.gamma_sum_stability(float(s) if not c.sym else s)
    else:
        v = mod.gamma_sum_stability(c.arr(g) if form == 'array' else list(g))
    same(c, 'gss', v, s < 0)


def verdict(c):
    """the combined linear-stability verdict of a three-mode triad"""
    mod = loader.repo(PRE)
    FH = loader.repo(fq.mods()[0]).FrequencyHandler
    w = [c.real(f'w{i+1}', pos=True) for i in range(3)]
    g = [c.real(f'g{i+1}', nonzero=True) for i in range(3)]
    gs = g[0] + g[1] + g[2]
    c.assume(gs != 0)
    if not c.sym and c.rng.random() < .7:
        g = [abs(g[0]), -abs(g[1]), -abs(g[2])]
    if not c.sym:       # rates of stellar modes are far below 1 rad/s
        unit = 2. ** -int(c.rng.random() * 50)
        g, w = [x * unit for x in g], [x * unit for x in w]
    gs = g[0] + g[1] + g[2]
    d = w[0] - w[1] - w[2]
    q = d / gs
    dicts = [{'G': 1., 'M_star': 1., 'R_star': 1., 'm': m, 'l': l, 'freq_units': b'RAD_PER_SEC',
              'freq_frame': b'COROT_O',
              'freq': c.arr([SymC(w[i], g[i]) if c.sym else complex(w[i], g[i])]),
              'Omega_rot_dim': c.arr([0., 0.])} for i, (l, m) in enumerate(((2, 2), (1, 1), (1, 1)))]
    fh = FH(*dicts, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*fq.nonadiabatic(c, dicts, g))
    obj = mod.PreCheckThreeModesQuadratic(dicts, fh, triads=[(1, 2, 3)], conjugation=None,
                                          two_mode_harmonic=False)
    v = obj.check()
    h = _h3(g, q)
    if c.sym:
        par = (g[0] > 0) & (g[1] < 0) & (g[2] < 0)
        want = par & (gs < 0) & (h[2] > 0)
        same(c, 'verdict', v, want)
    else:
        want = g[0] > 0 and g[1] < 0 and g[2] < 0 and gs < 0 and h[2] > 0
        sc = sum(abs(x) for x in g)
        c.prove('verdict', bool(v) == bool(want), margin=abs(h[2]) > 1e-6 * sc ** 6)


CONTRACTS = [
    Contract('routh-hurwitz', lemma, functions=[f'{FILE}:check_corrected_dziembowski_conditions'],
             modules=[THREE]),
    Contract('damping-sum', gss, functions=[f'{FILE}:gamma_sum_stability'], modules=[THREE]),
    Contract('three-mode-verdict', verdict, functions=[
        f'{PFILE}:PreCheckThreeModesQuadratic.check',
        f'{PFILE}:PreCheckThreeModesQuadratic._check_linearly_stable_fp',
        f'{PFILE}:PreCheckThreeModesQuadratic._check_parametric',
        f'{PFILE}:PreCheckThreeModesQuadratic._check_direct'], modules=[PRE, THREE] + fq.mods()),
]
