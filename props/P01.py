"""Frequencies: frames and units."""
import numpy as np
from dv.runner import Contract
from . import _freq as fq

FILES = 'aesolver/aesolver/frequency_handling/frequency_handler.py'


def _col(a):
    return [a[0, 0], a[1, 0]]


def frames(c):
    s = fq.Setup(c, nad=False)
    f, r = s.FH, s.req
    for i in range(3):
        co, ine = s.corot_rps(i), s.inert_rps(i)
        c.eq(f'corot_omega{i}', f.corot_mode_omegas[i], fq.omega_from_rps(r, co))
        c.eq(f'inert_omega{i}', f.inert_mode_omegas[i], fq.omega_from_rps(r, ine))
        c.eq(f'corot_freq{i}', f.corot_mode_freqs[i], fq.freq_from_rps(r, co))
        c.eq(f'inert_freq{i}', f.inert_mode_freqs[i], fq.freq_from_rps(r, ine))
        c.eq(f'dimless_corot_omega{i}', f.dimless_corot_omegas[i], co / s.dyn)
        c.eq(f'dimless_inert_omega{i}', f.dimless_inert_omegas[i], ine / s.dyn)
        c.eq(f'dimless_corot_freq{i}', f.dimless_corot_freqs[i], co / s.dyn / (2 * fq.PI))
        c.eq(f'dimless_inert_freq{i}', f.dimless_inert_freqs[i], ine / s.dyn / (2 * fq.PI))
    for i in range(3):
        for g, a, b in ((f.get_inert_corot_f, f.corot_mode_freqs, f.inert_mode_freqs),
                        (f.get_inert_corot_o, f.corot_mode_omegas, f.inert_mode_omegas),
                        (f.get_dimless_freqs, f.dimless_corot_freqs, f.dimless_inert_freqs),
                        (f.get_dimless_omegas, f.dimless_corot_omegas, f.dimless_inert_omegas)):
            v = _col(g(my_f_nr=i + 1))
            c.eq(f'{g.__name__}.corot{i}', v[0], a[i])
            c.eq(f'{g.__name__}.inert{i}', v[1], b[i])
    c.eq('rot_rps', f.surf_rot_angular_freq_rps, s.rot_rps)
    c.eq('rot_angular', f.surf_rot_angular_freq, fq.omega_from_rps(r, s.rot_rps))
    c.eq('rot', f.surf_rot_freq, fq.omega_from_rps(r, s.rot_rps) if r == 'RAD_PER_SEC'
         else fq.freq_from_rps(r, s.rot_rps))
    c.eq('angular_conv_factor', f.angular_conv_factor_from_rps, fq.omega_from_rps(r, 1.))


def frames_nad(c):
    s = fq.Setup(c, nad=True)
    f, r = s.FH, s.req
    for i in range(3):
        co, ine = s.corot_rps(i, True), s.inert_rps(i, True)
        c.eq(f'corot_omega_nad{i}', f.corot_mode_omegas_nad[i], fq.omega_from_rps(r, co))
        c.eq(f'inert_omega_nad{i}', f.inert_mode_omegas_nad[i], fq.omega_from_rps(r, ine))
        c.eq(f'corot_freq_nad{i}', f.corot_mode_freqs_nad[i], fq.freq_from_rps(r, co))
        c.eq(f'inert_freq_nad{i}', f.inert_mode_freqs_nad[i], fq.freq_from_rps(r, ine))
        c.eq(f'dimless_corot_omega{i}', f.dimless_corot_omegas_nad[i], co / s.dyn)
        c.eq(f'dimless_inert_omega{i}', f.dimless_inert_omegas_nad[i], ine / s.dyn)
        c.eq(f'dimless_corot_freq{i}', f.dimless_corot_freqs_nad[i], co / s.dyn / (2 * fq.PI))
        c.eq(f'dimless_inert_freq{i}', f.dimless_inert_freqs_nad[i], ine / s.dyn / (2 * fq.PI))
        # the adiabatic data are not disturbed
        c.eq(f'adiabatic_kept{i}', f.corot_mode_omegas[i],
             fq.omega_from_rps(r, s.corot_rps(i)))
    for i in range(3):
        for g, a, b in ((f.get_inert_corot_f_nad, f.corot_mode_freqs_nad, f.inert_mode_freqs_nad),
                        (f.get_inert_corot_o_nad, f.corot_mode_omegas_nad,
                         f.inert_mode_omegas_nad),
                        (f.get_dimless_freqs_nad, f.dimless_corot_freqs_nad,
                         f.dimless_inert_freqs_nad),
                        (f.get_dimless_omegas_nad, f.dimless_corot_omegas_nad,
                         f.dimless_inert_omegas_nad)):
            v = _col(g(my_f_nr=i + 1))
            c.eq(f'{g.__name__}.corot{i}', v[0], a[i])
            c.eq(f'{g.__name__}.inert{i}', v[1], b[i])


_M = dict(modules=fq.mods(), budget=90)
CONTRACTS = [
    Contract('frames-and-units', frames, functions=[
        f'{FILES}:FrequencyHandler.{m}' for m in (
            '__init__', 'set_mode_info', 'get_inert_corot_f', 'get_inert_corot_o',
            'get_dimless_freqs', 'get_dimless_omegas', 'surf_rot_freq', 'surf_rot_angular_freq',
            'surf_rot_angular_freq_rps', 'angular_conv_factor_from_rps')] +
        ['aesolver/aesolver/frequency_handling/enumeration_files/'
         'enumeration_freq_converter_normalization.py:EnumerationGYREFreqConverter.'
         'factor_from_dict/factor_from_str/factor_for_dimensioning_factor'], **_M),
    Contract('frames-and-units-nonadiabatic', frames_nad, functions=[
        f'{FILES}:FrequencyHandler.{m}' for m in (
            'set_mode_nonadiabatic_info', 'get_inert_corot_f_nad', 'get_inert_corot_o_nad',
            'get_dimless_freqs_nad', 'get_dimless_omegas_nad')], **_M),
]
