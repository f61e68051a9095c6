"""Stationary amplitudes are fixed points of the amplitude equations; thresholds, phases,
observables."""
import types

import numpy as np
from dv import loader, stubs
from dv.runner import Contract
from dv.term import Sym, SymC
from . import _freq as fq

MOD = 'aesolver.stationary_solving.three_mode.three_mode_stationary'
FILE = 'aesolver/aesolver/stationary_solving/three_mode/three_mode_stationary.py'
GEN = 'aesolver/aesolver/stationary_solving/generic/stationary_solve.py'


def _solver(c, eta, complex_terms=True):
    s = types.SimpleNamespace()
    n = 3
    mus = c.reals('mu', 5) if c.sym else np.linspace(-1, 1, 5)
    houghs = [c.reals(f'hough{i}', 5) for i in range(n)]
    s._coupler = types.SimpleNamespace(
        eta_lee_coupling_coefficient=eta, _mu_values=mus,
        _hr_mode_1=houghs[0], _hr_mode_2=houghs[1], _hr_mode_3=houghs[2],
        _m_mode_1=c.int('m1', -4, 4), _m_mode_2=c.int('m2', -4, 4), _m_mode_3=c.int('m3', -4, 4))

    def cplx(name):
        out = []
        for i in range(n):
            re = c.real(f'{name}{i}.re')
            out.append(c.complex(f'{name}{i}') if complex_terms else re)
        return c.arr(out)
    s._lag_var_surf_lum = cplx('lum')
    s._xir_terms_norm = cplx('xir')
    s._tk_disc_integrals = c.reals('tk', n)
    s._ek_disc_integrals = c.reals('ek', n)
    return s


def _case(c):
    fh, w, g = fq.triad_fh(c)
    if c.choice('case', ['parametric', 'direct']) == 'parametric':
        if not c.sym:
            g[0], g[1], g[2] = abs(g[0]), -abs(g[1]), -abs(g[2])
    return fh, w, g


def _signed(c):
    """parametric (driven parent, damped daughters) or direct (the reverse) triads"""
    FH = loader.repo(fq.mods()[0]).FrequencyHandler
    par = c.choice('case', [True, False])
    w = [c.real(f'w{i+1}', pos=True) for i in range(3)]
    g = [c.real('g1', pos=par, neg=not par), c.real('g2', pos=not par, neg=par),
         c.real('g3', pos=not par, neg=par)]
    dicts = [{'G': 1., 'M_star': 1., 'R_star': 1., 'm': m, 'freq_units': b'RAD_PER_SEC',
              'freq_frame': b'COROT_O',
              'freq': c.arr([SymC(w[i], g[i]) if c.sym else complex(w[i], g[i])]),
              'Omega_rot_dim': c.arr([0., 0.])} for i, m in enumerate((2, 1, 1))]
    fh = FH(*dicts, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*fq.nonadiabatic(c, dicts, g))
    gs = g[0] + g[1] + g[2]
    c.assume(abs(gs) > 0.05 if not c.sym else gs != 0)
    c.assume(abs(g[1] + g[2]) > 0)
    d = w[0] - w[1] - w[2]
    c.assume(abs(d) > 0.05 if not c.sym else d != 0)
    return fh, w, g, d, gs


def amplitudes(c):
    TMS = loader.repo(MOD).ThreeModeStationary
    fh, w, g, d, gs = _signed(c)
    cpx = c.choice('eta_complex', [False, True])
    eta = c.complex('eta') if cpx else c.real('eta', nonzero=True)
    if cpx:
        c.assume((eta.real != 0) if c.sym else eta != 0)
        ab2 = eta.real * eta.real + eta.imag * eta.imag
    else:
        ab2 = eta * eta
    s = _solver(c, eta)
    hyp = c.choice('hyperbolic', [True, False])
    c.div_obligations = True
    out = TMS(True, fh, hyp, solver_object=s)()
    c.div_obligations = False
    a = out['equilibrium amplitudes']
    for k in ('equilibrium amplitudes', 'q factor', 'critical q factor', 'gamma', 'detunings',
              'critical parent amplitude', 'stationary relative phase'):
        c.finite('defined:' + k, out[k])
    q = d / gs
    # fixed-point balance of each amplitude equation
    for i, (j, k) in enumerate(((1, 2), (0, 2), (0, 1))):
        c.eq(f'balance{i}', g[i] * g[i] * a[i] * a[i] * (1 + q * q),
             4 * ab2 * w[i] * w[i] * a[j] * a[j] * a[k] * a[k])
        c.prove(f'nonnegative{i}', a[i] >= 0)
    c.eq('q', out['q factor'], q)
    c.eq('detuning', out['detunings'], d)
    c.eq('gamma', out['gamma'], gs)
    qc = d / (g[1] + g[2])
    c.eq('q_crit', out['critical q factor'], qc)
    ac = out['critical parent amplitude']
    # onset of the parametric instability: |2 eta|^2 w2 w3 A1^2 = g2 g3 (1 + q_crit^2)
    c.eq('threshold', 4 * ab2 * w[1] * w[2] * ac * ac, g[1] * g[2] * (1 + qc * qc))
    c.prove('threshold_nonnegative', ac >= 0)
    for i in range(3):
        c.eq(f'rates{i}', out['linear driving rates'][i], g[i])
    c.prove('hyperbolic_flag', bool(out['hyperbolic']) == hyp)
    c.prove('stable_flag', out['linearly stable'] is True or out['linearly stable'] == True)  # noqa
    # phase: tan = -1/q
    ph = out['stationary relative phase']
    if c.sym:
        from dv.npshim import scalar
        c.eq('phase', ph, scalar('arctan', -1 / q))
    else:
        c.eq('phase', ph, np.arctan(-1 / q))
        c.prove('phase_principal', abs(ph) <= np.pi / 2)


def unstable(c):
    """A triad that fails the checks is reported with zero amplitudes and no phases"""
    TMS = loader.repo(MOD).ThreeModeStationary
    fh, w, g, d, gs = _signed(c)
    with_solver = c.choice('with_solver', [False, True])
    s = _solver(c, None)
    hyp = c.choice('hyperbolic', [True, False])
    out = TMS(False, fh, hyp, solver_object=s if with_solver else None)()
    for i in range(3):
        c.eq(f'amp{i}', out['equilibrium amplitudes'][i], 0)
        c.eq(f'flux{i}', out['surface flux variations'][i], 0)
        c.eq(f'rates{i}', out['linear driving rates'][i], g[i])
    for k in ('critical parent amplitude', 'stationary relative phase',
              'stationary relative luminosity phase'):
        c.prove('none:' + k, out[k] is None)
    c.prove('stable_flag', not out['linearly stable'])
    c.prove('hyperbolic_flag', bool(out['hyperbolic']) == hyp)
    c.eq('q', out['q factor'], d / gs)
    c.eq('gamma', out['gamma'], gs)
    c.eq('detuning', out['detunings'], d)
    c.eq('q_crit', out['critical q factor'], d / (g[1] + g[2]))


def observables(c):
    TMS = loader.repo(MOD).ThreeModeStationary
    fh, w, g, d, gs = _signed(c)
    eta = c.real('eta', nonzero=True)
    s = _solver(c, eta)
    inc = c.choice('inclination', [None, 'given'])
    per = c.choice('periastron', [None, 'zero', 'given'])
    incv = c.real('inc', lo=0, hi=1.5) if inc else None
    perv = None
    if per == 'given':
        perv = c.real('per', lo=0, hi=1.5)          # pi/2 - per in (0, 2 pi)
    elif per == 'zero':
        perv = np.pi / 2
    obj = TMS(True, fh, True, solver_object=s, spin_inclination=incv, periastron_arg=perv)
    out = obj()
    a = out['equilibrium amplitudes']
    fl = out['surface flux variations']
    for i in range(3):
        z = s._tk_disc_integrals[i] * s._lag_var_surf_lum[i] - \
            s._ek_disc_integrals[i] * s._xir_terms_norm[i]
        h = 1.
        if inc:
            hv = getattr(s._coupler, f'_hr_mode_{i+1}')
            if c.sym:
                from dv.npshim import scalar
                h = stubs.splev(scalar('cos', incv), (s._coupler._mu_values, hv))
            else:
                from scipy.interpolate import splev, splrep
                h = splev(np.cos(incv), splrep(s._coupler._mu_values, hv))
        mod2 = z.real * z.real + z.imag * z.imag
        # |flux| = amplitude * |T_k dL - E_k xi| * Hough(inclination), sign of the Hough value
        c.eq(f'flux_sq{i}', fl[i] * fl[i], a[i] * a[i] * mod2 * h * h)
        c.prove(f'flux_sign{i}', fl[i] * h >= -1e-12 if not c.sym else fl[i] * h >= 0)
    ph = out['stationary relative phase']
    lp = out['stationary relative luminosity phase']
    az = 0
    if per == 'given':
        az = (s._coupler._m_mode_1 - s._coupler._m_mode_2 - s._coupler._m_mode_3) * \
            (np.pi / 2 - perv)
    c.eq('luminosity_phase', lp, ph + az)


NOTE = 'amplitude equations: Ai\' = gi Ai +- 2 wi |eta| Aj Ak sin Y, Y\' = Dw + 2|eta| cos Y (...)'
_F = [f'{FILE}:ThreeModeStationary.{m}' for m in (
    '__init__', '__call__', '_get_cc_product', '_compute_qs', '_compute_theoretical_amps',
    '_compute_relative_stat_phase')]
CONTRACTS = [
    Contract('stationary-amplitudes', amplitudes, functions=_F, modules=[MOD] + fq.mods(), extra=stubs.SPLINE,
             load=lambda: loader.repo(MOD), note=NOTE),
    Contract('failed-triads', unstable, functions=_F, modules=[MOD] + fq.mods(), extra=stubs.SPLINE),
    Contract('observables', observables, functions=[f'{FILE}:ThreeModeStationary.{m}' for m in (
        '_compute_luminosity_fluctuations', '_compute_relative_luminosity_phase',
        '_compute_stationary_luminosity_phase', '_compute_observer_hough',
        '_compute_azimuthal_factors')] + [f'{GEN}:StatSolve.*'], modules=[MOD] + fq.mods(), extra=stubs.SPLINE),
]
TRUSTED = ['scipy.interpolate.splrep/splev: opaque interpolant in the proofs, the real one in the '
           'bounded runs']
