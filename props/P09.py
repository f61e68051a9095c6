"""Polytropic structure: the profiles solve the equations of stellar structure."""
import math

import numpy as np
from dv import loader
from dv.runner import Contract

M = 'aesolver.polytropic_computations.poly_struct_comps'
F = 'aesolver/aesolver/polytropic_computations/poly_struct_comps.py'
E = 'aesolver/aesolver/polytropic_computations/enumeration_files/polytropic_struct_enumeration.py'


def load():
    loader.repo(M)


def spec(c):
    """rho = rho_c theta^n, P = P_c theta^(n+1), hydrostatic equilibrium, and every derivative of
    density, pressure and potential follows from the Lane-Emden equation"""
    PaSi = loader.repo(M).PolytropicAdditionalStructureInformation
    N = 3 if c.sym else c.choice('nodes', [3, 6])
    if c.sym:
        n = c.real('n', pos=True)
        z = [c.real(f'z{i}', pos=True) for i in range(N)]
        th = [c.real(f'theta{i}', pos=True) for i in range(N)]
        dt = [-c.real(f'slope{i}', pos=True) for i in range(N)]
        for i in range(N - 1):       # outwards, the density falls
            c.assume(z[i] < z[i + 1])
            c.assume(th[i] > th[i + 1])
    else:
        n = c.real('n', rand=lambda r: r.choice([1., 1.5, 2., 3., r.uniform(.5, 4.5)]))
        z = list(np.cumsum([c.real(f'z{i}', lo=.1, hi=1.5) for i in range(N)]))
        th = sorted([c.real(f'theta{i}', lo=.02, hi=1.) for i in range(N)], reverse=True)
        dt = [-c.real(f'slope{i}', lo=.02, hi=1.) for i in range(N)]
    G, mass, rad, gam = (c.real(k, pos=True) for k in ('G', 'M', 'R', 'Gamma_1'))
    arr = c.arr
    nn = n
    if c.sym or c.choice('array-index', [False, True]):
        nn = arr([n])
    d = {'n_poly': nn, 'z': arr(z), 'theta': arr(th), 'dtheta': arr(dt),
         'Gamma_1': arr([gam] * N), 'G': G}
    keep = {k: list(v) for k, v in d.items() if k in ('z', 'theta', 'dtheta')}
    o = PaSi([d], mass, rad)
    got = o.property_dict
    for k, v in keep.items():
        for a, b in zip(d[k], v):
            c.eq('inputs-unchanged', a, b)
    zs, aux = z[-1], -z[-1] ** 2 * dt[-1]
    al = rad / zs
    rho0 = mass / (4 * math.pi * al ** 3 * aux)
    p0 = 4 * math.pi * G * rho0 ** 2 * al ** 2 / (n + 1)
    c.eq('central-density', got['rho0'], rho0, atol=0)
    c.eq('central-pressure', got['p0'], p0, atol=0)
    names = set(got)
    for i in range(N):
        x = z[i] / zs
        r = al * z[i]
        t, t1 = th[i], dt[i]
        tn = t ** n
        t2 = -tn - 2 * t1 / z[i]
        t3 = -n * tn / t * t1 - 2 * t2 / z[i] + 2 * t1 / z[i] ** 2
        rho = rho0 * tn
        p = p0 * tn * t
        m = mass * (-z[i] ** 2 * t1) / aux
        g = G * m / r ** 2
        d1 = rho0 / al * n * tn / t * t1
        d2 = rho0 / al ** 2 * n * ((n - 1) * tn / t ** 2 * t1 ** 2 + tn / t * t2)
        d3 = rho0 / al ** 3 * n * (
            (n - 1) * (n - 2) * tn / t ** 3 * t1 ** 3 + 3 * (n - 1) * tn / t ** 2 * t1 * t2
            + tn / t * t3)
        g2 = 4 * math.pi * G * rho - 2 * g / r
        g3 = 4 * math.pi * G * d1 - 2 * g2 / r + 2 * g / r ** 2
        vv = G * m * rho / (r * p)
        dlr = r * d1 / rho
        ast = -vv / gam - dlr
        want = {
            'rho': rho, 'p': p, 'r': r, 'mr': m, 'surfgrav': g, 'dgravpot': g, 'dgravpot2': g2,
            'dgravpot3': g3, 'drho': d1, 'drho2': d2, 'drho3': d3,
            'dp': -g * rho, 'dp2': -g2 * rho - g * d1, 'dp3': -g3 * rho - 2 * g2 * d1 - g * d2,
            'v': vv, 'v2': vv / x ** 2, 'u': 4 * math.pi * rho * r ** 3 / m,
            'c1': x ** 3 * mass / m, 'as': ast, 'brunt_n2': g * ast / r}
        if not c.sym:
            sc = {'dgravpot2': g / r + G * rho, 'as': vv, 'brunt_n2': g * vv / r,
                  'dgravpot3': g / r ** 2 + abs(G * d1), 'drho2': abs(rho0 / al ** 2),
                  'drho3': abs(rho0 / al ** 3 * tn / t ** 3), 'dp2': g2 * rho, 'dp3': abs(g3 * rho)}
        # away from the surface layer n = 0 (constant density) has no derivative to compare
        for k, v in want.items():
            q = np.asarray(got[k]).reshape(-1)[i] if not c.sym else list(got[k])[i]
            if c.sym:
                c.eq(k, q, v)
            else:
                s = max(abs(sc.get(k, 0.)), abs(v), 1e-300)
                c.eq(k, q / s, v / s)
        c.prove('all-outputs', names == set(want) | {'p0', 'rho0'})


CONTRACTS = [
    Contract('lane-emden', spec, load=load, modules=[M], rand=100, functions=[
        f'{F}:PolytropicAdditionalStructureInformation.{k}' for k in (
            '__init__', 'property_dict', '_store_auxiliary_mass', '_store_average_density',
            '_store_fractional_radius', '_compute_rho_zero', '_compute_p_zero',
            '_compute_alpha_conversion_factor', '_compute_dtheta_2', '_compute_dtheta_3',
            '_compute_rho', '_compute_drho_dz', '_compute_drho_dz_2', '_compute_drho_dz_3',
            '_compute_p', '_compute_dp_dz', '_compute_dp_dz_2', '_compute_dp_dz_3',
            '_compute_d_grav_pot', '_compute_d_grav_pot_2', '_compute_d_grav_pot_3',
            '_convert_z_derivatives', '_convert_to_r_derivative', '_compute_radius',
            '_compute_pressure', '_compute_density', '_compute_v_2', '_compute_v', '_compute_u',
            '_compute_c1', '_compute_as', '_compute_mr', '_compute_g',
            '_compute_buoyancy_freq')] + [
        f'{E}:PolytropicDerivativeConversion', f'{E}:PolytropicStructureOutput',
        f'{E}:get_grav_pot_factor']),
]
