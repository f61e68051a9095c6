"""Eigenfunctions are normalised to the mode-energy convention, consistently in every function."""
import contextlib
import math
import os
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from . import _qcc as qc
from .P14 import agree, energies, pick, same_sum


def root(c, v):
    if c.sym:
        from dv.npshim import scalar
        return scalar('sqrt', v)
    return math.sqrt(v)


NAMES = [('_rad_der_x_z_1', 0), ('_z_1', 1), ('_z_2_over_c_1_omega', 2),
         ('_rad_der_x_z_2_c_1_omega', 3), ('_rad_diverg', 4)]


def constructed(poly):
    def spec(c):
        """E_k = G M^2/R for each mode; every function of mode k carries the factor of mode k"""
        ls = c.choice('l', [(1, 0, 2), (2, 2, 2), (3, 1, 4)])
        W = qc.World(c, 5, 2 if c.sym else 8, poly=poly, ls=ls,
                     m=None if c.sym else pick(c))
        W.qpos = []
        hn = W.norms()
        A = [{k: [v * hn[j] for v in list(W.h[j][k])] for k in qc.H} for j in range(3)]
        R, E = W.radial(), None
        E = energies(W, R, A)
        for _, e in E:
            c.assume(e > 0)
        o = W.build()
        ref = W.G * W.M ** 2 / W.R
        x = W.sl(W.x)
        nf = list(o.normalization_factors)
        c.prove('three-factors', len(nf) == 3)
        for k in range(3):
            f = root(c, ref / E[k][1])
            agree(c, 'energy', getattr(o, f'_energy_mode_{k + 1}'), ref, 1. if c.sym else ref)
            agree(c, 'energy-is-b-omega', getattr(o, f'_b_a_mode_{k + 1}') * W.cor[k], ref,
                  1. if c.sym else ref)
            agree(c, 'factor', nf[k], f, 1. if c.sym else f)
            for name, j in NAMES:
                v = getattr(o, f'{name}_mode_{k + 1}')
                c.prove('size', len(v) == len(x))
                for i in range(len(x)):
                    s = 1. if c.sym else max(abs(r[j]) for r in R[k]) * f or 1.
                    agree(c, name.strip('_'), v[i], f * R[k][i][j], s)
            for name, j in (('_x_z_1', 1), ('_x_z_2_over_c_1_omega', 2)):
                v = getattr(o, f'{name}_mode_{k + 1}')
                for i in range(len(x)):
                    s = 1. if c.sym else max(abs(r[j]) for r in R[k]) * f or 1.
                    agree(c, name.strip('_'), v[i], f * x[i] * R[k][i][j], s)
        for i in range(len(x)):
            c.eq('radial-coordinate', o.x[i], x[i])
    return spec


def profile(c):
    """entry i of the cumulative profile is the coupling of the shells up to node i"""
    conj, ls = c.choice('conj,l', [(None, (1, 0, 2)), ((False, False, False), (3, 1, 4))])
    bar, poly = c.choice('progress-bar,poly', [(False, True), (True, True), (True, False)] if c.sym
                         else [(b, q) for b in (False, True) for q in (True, False)])
    W = qc.World(c, 5, 2 if c.sym else 8, poly=poly, ls=ls, conj=conj,
                 m=[0, 0, 0] if c.sym else None)
    W.qpos = []
    hn = W.norms()
    A = [{k: [v * hn[j] for v in list(W.h[j][k])] for k in qc.H} for j in range(3)]
    for _, e in energies(W, W.radial(), A):
        c.assume(e > 0)
    o = W.build()
    with open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
        W.run(o.adiabatic_coupling_rot_profile, progress_bar=bar)
    prof = list(o.coupling_coefficient_profile)
    part = [list(v) for v in o.normed_contributions_coupling_coefficient_profile]
    norm = list(o.normed_coupling_coefficient_profile)
    n = len(W.sl(W.x))
    c.prove('one-entry-per-node', len(prof) == n and all(len(p) == n for p in part))
    ref = W.G * W.M ** 2 / W.R
    c.eq('starts-at-zero', prof[0], 0.)
    for i in range(2, n + 1):
        W.run(o.adiabatic_coupling_rot, i)
        agree(c, 'cumulative', prof[i - 1], o.coupling_coefficient)
        agree(c, 'normed', norm[i - 1], o.coupling_coefficient / ref)
        t = list(o.coupling_terms_quadratic)
        for j in range(4):
            agree(c, 'contributions', part[j][i - 1], t[j] / ref)
    W.run(o.adiabatic_coupling_rot)
    agree(c, 'ends-at-total', prof[-1], o.coupling_coefficient)


def convention(c):
    """the normaliser on any object whose energies are quadratic forms of its functions"""
    GN = loader.repo('gyre_eigen_norm.gyre_eigen_norm').GYREEigenFunctionNormalizer
    conv = c.choice('convention', ['lee2012', 'schenk2002', 'LEE2012'])
    nm = c.choice('modes', [1, 2, 3])
    it = c.choice('iterate', [False, True])
    n = 2
    w = [[c.real(f'w{k}{i}', pos=True) for i in range(n)] for k in range(nm)]
    o = types.SimpleNamespace(_G=c.real('G', pos=True), _M_star=c.real('M', pos=True),
                              _R_star=c.real('R', pos=True))
    om = [c.real(f'om{k}', pos=True) for k in range(nm)]
    f0 = {}
    for k in range(nm):
        for a in ('_f', '_g'):
            v = c.arr([c.real(f'{a}{k}{i}', pos=True) for i in range(n)])
            f0[a, k] = list(v)
            setattr(o, f'{a}_mode_{k + 1}', v)

    def compute(nr):
        f = list(getattr(o, f'_f_mode_{nr}'))
        q = 0
        for a, b in zip(w[nr - 1], f):
            q = q + a * b * b
        setattr(o, f'_classic_norm_mode_{nr}', q)
        setattr(o, f'_energy_mode_{nr}', om[nr - 1] * q)
    o.compute_b_a_mode_energy = compute
    for k in range(nm):
        compute(k + 1)
    q0 = [getattr(o, f'_classic_norm_mode_{k + 1}') for k in range(nm)]
    en = types.SimpleNamespace(access_all_parameters=lambda: ['_f', '_g'])
    g = GN(my_obj=o, coupler_enumeration=en, norm_convention=conv, nr_modes=nm,
           iterative_process=it, max_iterations=3)
    g()
    fac = list(g.normalizing_factors)
    c.prove('a-factor-per-mode', len(fac) == nm)
    for k in range(nm):
        if conv.lower() == 'lee2012':
            want = o._G * o._M_star ** 2 / o._R_star
            got = getattr(o, f'_energy_mode_{k + 1}')
            before = om[k] * q0[k]
        else:
            want = o._M_star * o._R_star ** 2
            got = getattr(o, f'_classic_norm_mode_{k + 1}')
            before = q0[k]
        agree(c, 'normalised', got, want, 1. if c.sym else want)
        agree(c, 'factor-squared', fac[k] ** 2 * before, want, 1. if c.sym else want)
        c.prove('positive-factor', fac[k] > 0)
        for a in ('_f', '_g'):
            for i in range(n):
                agree(c, 'scaled-function', getattr(o, f'{a}_mode_{k + 1}')[i], f0[a, k][i] * fac[k])


QN = f'{qc.QF}:QuadraticCouplingCoefficientRotating.'
ENF = 'gyre-tools/gyre_eigen_norm/enumeration_modules/'
NORM = [f'{qc.NF}:GYREEigenFunctionNormalizer.{k}' for k in (
    '__init__', '__call__', '_do_initial_normalization', '_compute_mode_energies',
    '_checks_normalizations', '_iteratively_refine', '_get_norm_factor', '_eigenmode_normalizer',
    '_check_normalization')] + [
    f'{ENF}enum_norm.py:EnumNormConvFactors.{k}' for k in
    ('factor_from_object', 'check_value_from_object')] + [
    f'{ENF}enum_norm_wrapper.py:EnumerationNormalizationMethodWrapper']
MODE = [QN + k for k in ('__init__', 'compute_b_a_mode_energy', '_compute_traditional_norms_modes',
                         '_compute_b_a_s_mode_energies', 'normalization_factors')]

CONTRACTS = [
    Contract('energies-polytrope', constructed(True), modules=qc.MODS, load=qc.load, rand=20,
             functions=NORM + MODE),
    Contract('energies-structure-model', constructed(False), modules=qc.MODS, load=qc.load,
             rand=20, functions=NORM + MODE),
    Contract('coupling-profile', profile, modules=qc.MODS, load=qc.load, rand=20,
             budget=150, functions=[
        QN + k for k in ('adiabatic_coupling_rot_profile', 'adiabatic_coupling_rot',
                         'coupling_coefficient_profile', 'normed_coupling_coefficient_profile',
                         'normed_contributions_coupling_coefficient_profile')]),
    Contract('conventions', convention, modules=qc.MODS, load=qc.load, rand=40, functions=NORM + [
        f'{qc.NF}:GYREEigenFunctionNormalizer.{k}' for k in (
            '_iterative_refinement_looper', '_refine_mode_obj', '_proc_devs',
            '_log_debug_if_not_fully_successful')] + [
        f'{ENF}enum_norm.py:EnumNormConvFactors.proc_diff_from_object']),
]
