"""The quadratic coupling coefficient is the third-order perturbation integral of its modes."""
import math

import numpy as np
from dv import loader
from dv.runner import Contract
from . import _qcc as qc


def same_sum(c, ms, conj):
    cj = conj if conj else (True, False, False)
    t = 0
    for m, f in zip(ms, cj):
        t = t + (-m if f else m)
    return t == 0


def weights(v):
    n = len(v)
    return [((v[i + 1] if i + 1 < n else v[i]) - (v[i - 1] if i else v[i])) / 2 for i in range(n)]


def energies(W, R, A):
    """energy of each mode in the co-rotating frame (b_a omega), before normalisation"""
    c = W.c
    x = W.sl(W.x)
    rho = W.sl(W.S['rho'])
    mu = list(W.mu)
    out = []
    for k in range(3):
        ang = {n: 2 * math.pi * qc.trapz(c, [f[n] * g[n] for f, g in zip(F, F)], mu)
               for n, F in (('hr', [{'hr': v} for v in A[k]['hr']]),
                            ('ht', [{'ht': v} for v in A[k]['ht']]),
                            ('hp', [{'hp': v} for v in A[k]['hp']]))}
        cor = 2 * math.pi * qc.trapz(c, [a * b * u for a, b, u in
                                         zip(A[k]['ht'], A[k]['hp'], mu)], mu)
        ri = qc.trapz(c, [q * v ** 2 * (v * R[k][i][1]) ** 2
                          for i, (q, v) in enumerate(zip(rho, x))], x)
        rh = qc.trapz(c, [q * v ** 2 * (v * R[k][i][2]) ** 2
                          for i, (q, v) in enumerate(zip(rho, x))], x)
        cl = ri * ang['hr'] + rh * (ang['ht'] + ang['hp'])
        b = 4 * math.pi * (W.cor[k] * cl + 2 * W.Om * cor * rh) * W.R ** 5
        out.append((b, b * W.cor[k]))
    return out


def oracle(W, single=None):
    c = W.c
    hn = W.norms()
    A = [{k: [v * hn[j] for v in list(W.h[j][k])] for k in qc.H} for j in range(3)]
    R = W.radial()
    E = energies(W, R, A)
    for _, e in E:
        c.assume(e > 0)
    fac = []
    for _, e in E:
        f = W.G * W.M ** 2 / (W.R * e)
        if c.sym:
            from dv.npshim import scalar
            fac.append(scalar('sqrt', f))
        else:
            fac.append(math.sqrt(f))
    Rn = [[tuple(v * fac[k] for v in row) for row in R[k]] for k in range(3)]
    x, wx, wm = W.sl(W.x), weights(W.sl(W.x)), weights(list(W.mu))
    P, rho, gam = (W.sl(W.S[k]) for k in ('P', 'rho', 'Gamma_1'))
    gad = W.sl(W.gad)
    g1, g2, g3 = W.gravity()
    K = [0, 0, 0, 0]
    for i in range(len(x)):
        r = x[i] * W.R
        ang4 = g2[i] / r - g1[i] / r ** 2
        for j in range(len(wm)):
            w = wx[i] * wm[j] * 2 * math.pi * x[i] ** 2
            k1, k2, k3 = W.density(i, j, Rn, A)
            K[0] = K[0] + w * P[i] * (gam[i] - 1) * k1 * W.R ** 3 / 2
            iso = (gam[i] - 1) ** 2 + (0 if W.poly else rho[i] * gad[i])
            K[1] = K[1] + w * P[i] * iso * k2 * W.R ** 3 / 2
            K[2] = K[2] + w * P[i] * k3 * W.R ** 3 / 2
            z = [Rn[k][i][1] * A[k]['hr'][j] for k in range(3)]
            t = [Rn[k][i][2] * A[k]['ht'][j] for k in range(3)]
            p = [Rn[k][i][2] * A[k]['hp'][j] for k in range(3)]
            hes = z[0] * z[1] * z[2] * g3[i]
            for (u, v, q) in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
                hes = hes + ang4 * z[u] * (t[v] * t[q] - p[v] * p[q])
            K[3] = K[3] - w * rho[i] * x[i] ** 3 * W.R ** 6 * hes / 2
    return K, E, fac, Rn, A


def agree(c, name, a, b, scale=1.):
    if c.sym:
        c.eq(name, a, b)
    else:
        c.eq(name, a / scale, b / scale)


def coupling(poly):
    def spec(c):
        """kappa_1..4 = the integrals of the contracted displacement gradients"""
        conj, ls = c.choice('conj,l', [
            (None, (1, 0, 2)), ((True, False, False), (2, 2, 2)),
            ((False, False, False), (3, 1, 4)), ((False, True, True), (4, 3, 1))])
        W = qc.World(c, 5, 2 if c.sym else 8, poly=poly, ls=ls, conj=conj,
                     m=None if c.sym else pick(c))
        W.qpos = []
        K, E, fac, _, _ = oracle(W)
        o = W.build()
        W.run(o.adiabatic_coupling_rot)
        got = list(o.coupling_terms_quadratic)
        ok = same_sum(c, W.m, conj)
        if bool(ok):
            s = 1. if c.sym else max(abs(float(k)) for k in K) or 1.
            for i in range(4):
                agree(c, f'kappa{i + 1}', got[i], K[i], s)
            tot = K[0] + K[1] + K[2] + K[3]
        else:
            s, tot = 1., 0.
            for i in range(4):
                c.eq(f'selection-rule-kappa{i + 1}', got[i], 0.)
        agree(c, 'sum-of-terms', o.coupling_coefficient, tot, s)
        e1 = W.G * W.M ** 2 / W.R
        agree(c, 'normed', o.normed_coupling_coefficient, tot / e1, s / e1)
        agree(c, 'eta', o.eta_lee_coupling_coefficient, 2 * tot / e1, s / e1)
    return spec


def pick(c):
    m2, m3 = c.int('m2', -2, 2), c.int('m3', -2, 2)
    r = c.rng.random()
    m1 = c.int('m1', rand=lambda q: m2 + m3 if r < .5 else -(m2 + m3) if r < .75 else q.randint(-3, 3))
    return [m1, m2, m3]


QN = 'QuadraticCouplingCoefficientRotating.'
FUNCS = [f'{qc.QF}:{QN}{k}' for k in (
    '__init__', '_store_houghs', '_normalize_houghs', '_rad_int', '_map_hough_to_mode',
    '_symmetry_mapping', '_overloaded_symmetry_determiner', '_symmetrization_s_term_integral',
    '_compute_traditional_norms_modes', '_compute_radial_integral', '_compute_radial_integral_real',
    '_compute_b_a_s_mode_energies', 'compute_b_a_mode_energy', '_kappa_1_abc', '_kappa_2_abc',
    '_kappa_3_abc', '_kappa_4_abc', 'adiabatic_coupling_rot', 'coupling_coefficient',
    'normed_coupling_coefficient', 'eta_lee_coupling_coefficient', 'coupling_terms_quadratic')] + [
    f'{qc.CRF}:CouplingCoefficientRotating.{k}' for k in (
        '__init__', '_compute_radial_vectors', '_compute_radial_gradients',
        '_compute_divergence_radial_part')] + [
    f'{qc.SF}:SuperCouplingCoefficient.{k}' for k in (
        '__init__', '_extract_common_info_dictionary', '_extract_mode_dependent_info_dictionary',
        '_set_normalization_factors', '_pre_profile_cuts', '_mode_structure_cuts', '_compute_der')] + [
    f'{qc.HF}:quadratic_angular_integral', f'{qc.HF}:quad_integration_mu',
    'hough-func-tools/hough_function/hough_normalizer.py:HoughNormalizer']
NOTE = ('5 radial x 2 latitudinal nodes with symbolic positions and values (8 latitudes in the '
        'concrete run); Hough outputs and the quadrature rule are generic')

CONTRACTS = [
    Contract('kappa-polytrope', coupling(True), modules=qc.MODS, load=qc.load, note=NOTE,
             functions=FUNCS + [f'{qc.SF}:SuperCouplingCoefficient._get_profiles_polytrope_analytic']),
    Contract('kappa-structure-model', coupling(False), modules=qc.MODS, load=qc.load, note=NOTE,
             functions=FUNCS + [f'{qc.SF}:SuperCouplingCoefficient._get_profiles_MESA_GYRE']),
]
