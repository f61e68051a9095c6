"""Derived triad quantities: detuning, driving rates, quality factors, q's, spins."""
from dv.runner import Contract
from . import _freq as fq

FILES = 'aesolver/aesolver/frequency_handling/frequency_handler.py'


def spins(c):
    s = fq.Setup(c, nad=False)
    f, r = s.FH, s.req
    for i in range(3):
        co = s.corot_rps(i)
        c.assume(co != 0)
        c.eq(f'spin{i}', f.spin_factors[i], 2 * s.rot_rps / co)
    d = s.corot_rps(0) - s.corot_rps(1) - s.corot_rps(2)
    c.eq('detuning', f.detuning, fq.omega_from_rps(r, d))
    g = f.get_detunings()
    c.eq('get_detunings0', g[0, 0], fq.omega_from_rps(r, d))
    c.eq('get_detunings1', g[1, 0], fq.omega_from_rps(r, d))


def rates(c):
    s = fq.Setup(c, nad=True)
    f, r = s.FH, s.req
    gam, co, con = [], [], []
    for i in range(3):
        gam.append(s.gamma_rps(i))
        co.append(s.corot_rps(i))
        con.append(s.corot_rps(i, True))
        c.eq(f'driving_rate{i}', f.driving_rates[i], fq.omega_from_rps(r, gam[i]))
        c.eq(f'quality{i}', f.quality_factors[i], co[i] / gam[i])
        c.eq(f'quality_nad{i}', f.quality_factors_nad[i], con[i] / gam[i])
    Q = [a / b for a, b in zip(co, gam)]
    QN = [a / b for a, b in zip(con, gam)]
    for k, (i, j) in enumerate(((1, 0), (2, 0), (2, 1))):
        c.eq(f'product{k}', f.quality_factor_products[k], Q[i] * Q[j])
        c.eq(f'product_nad{k}', f.quality_factor_products_nad[k], QN[i] * QN[j])
    gs = gam[0] + gam[1] + gam[2]
    c.assume(gs != 0)
    c.eq('gamma_sum', f.gamma_sum, fq.omega_from_rps(r, gs))
    d = co[0] - co[1] - co[2]
    dn = con[0] - con[1] - con[2]
    # tolerance-sensitive in floating point: cancellation in the detuning
    c.eq('detuning', f.detuning, fq.omega_from_rps(r, d))
    c.eq('detuning_nad', f.detuning_nad, fq.omega_from_rps(r, dn))
    g = f.get_detunings_nad()
    c.eq('get_detunings_nad0', g[0, 0], fq.omega_from_rps(r, dn))
    c.eq('get_detunings_nad1', g[1, 0], fq.omega_from_rps(r, dn))
    c.eq('q', f.q_factor, d / gs)
    c.eq('q_nad', f.q_factor_nad, dn / gs)
    c.eq('q1', f.q1_factor, d / gam[0])
    c.eq('q1_nad', f.q1_factor_nad, dn / gam[0])


_M = dict(modules=fq.mods(), budget=90)
CONTRACTS = [
    Contract('spins-and-detuning', spins, functions=[
        f'{FILES}:FrequencyHandler.{m}' for m in ('spin_factors', 'detuning', 'get_detunings')],
        **_M),
    Contract('rates-and-quality-factors', rates, functions=[
        f'{FILES}:FrequencyHandler.{m}' for m in (
            'driving_rates', 'quality_factors', 'quality_factors_nad', 'quality_factor_products',
            'quality_factor_products_nad', 'gamma_sum', 'q_factor', 'q1_factor', 'q_factor_nad',
            'q1_factor_nad', 'detuning_nad', 'get_detunings_nad')], **_M),
]
