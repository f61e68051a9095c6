"""Mode files: complex values, unit systems and dimensioned perturbations."""
import contextlib
import math
import os
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from dv.term import Sym

CC = 'carr_conv.carr_conv'
LM = 'aesolver.model_handling.load_models'
EF = 'aesolver.model_handling.enumeration_files.'
D = 'aesolver/aesolver/model_handling/'
MODS = [CC, LM, 'aesolver.polytropic_computations.poly_struct_comps', EF + 'enumeration_dimensions', EF + 'enumeration_models']


def load():
    for m in MODS:
        loader.repo(m)


class ReIm:
    """an array of the compound type of GYRE files, of symbolic numbers"""

    def __init__(self, re, im):
        self.d = {'re': re, 'im': im}
        self.shape = re.shape

    def __getitem__(self, k):
        return self.d[k]


def pair(c, name, n):
    """-> the value as read from a file, list of (re, im)"""
    re, im = c.reals(name + '_re', n), c.reals(name + '_im', n)
    if c.sym:
        return ReIm(re, im), list(zip(list(re), list(im)))
    a = np.zeros(n, dtype=[('re', float), ('im', float)])
    a['re'], a['im'] = re, im
    return a, list(zip(re, im))


def same(c, name, got, want):
    """a complex array against its real and imaginary parts"""
    got = list(np.asarray(got).reshape(-1)) if not c.sym else list(got)
    c.prove(name + '-size', len(got) == len(want))
    for g, (r, i) in zip(got, want):
        c.eq(name, g.real, r)
        c.eq(name, g.imag, i)


def parts(c):
    """re + i im, each times the scale, element by element"""
    m = loader.repo(CC)
    n = c.choice('n', [1, 2, 4])
    v, w = pair(c, 'v', n)
    if c.choice('scale', ['number', 'array']) == 'array':
        s = c.reals('s', n)
        sl = list(s)
    else:
        s = c.real('s')
        sl = [s] * n
    same(c, 're_im', m.re_im(v, s), [(r * q, i * q) for (r, i), q in zip(w, sl)])
    re, im = c.arr([x for x, _ in w]), c.arr([y for _, y in w])
    for kw in ({}, {'check_for_void': True}):
        same(c, 're_im_parts', m.re_im_parts(re, im, **kw), w)
    if not c.sym:
        same(c, 'scalar', m.re_im(v[0], sl[0]), [(w[0][0] * sl[0], w[0][1] * sl[0])])


GYRE = {'R': ['xi_r', 'xi_h', 'xi_r_ref', 'xi_h_ref'],
        'GM/R': ['eul_phi', 'eul_phi_ref'], 'GM/R2': ['deul_phi', 'deul_phi_ref'],
        'P': ['eul_P', 'lag_P'], 'rho': ['eul_rho', 'lag_rho'], 'T': ['eul_T', 'lag_T'],
        'L': ['lag_L', 'lag_L_ref'],
        '1': ['omega', 'y_1', 'y_2', 'y_3', 'y_4', 'y_5', 'y_6', 'freq', 'l_i', 'lambda',
              'omega_int', 'dzeta_dx', 'Yt_1', 'Yt_2', 'I_0', 'I_1', 'dbeta_dx']}
REAL = {'MR2': ['E', 'E_p', 'E_g', 'dE_dx'],
        'GM2/R': ['H', 'W', 'W_eps', 'tau_ss', 'tau_tr', 'dW_dx', 'dW_eps_dx', 'dtau_ss_dx',
                  'dtau_tr_dx'],
        'dyn': ['Omega_rot', 'Delta_p', 'Delta_g'],
        '1': ['x', 'V_2', 'As', 'U', 'c_1', 'Gamma_1', 'nabla', 'eta', 'beta', 'M_r']}
KEEP = {'freq_units': 'HZ', 'freq_frame': 'INERTIAL', 'n': 3, 'l': 2, 'm': -1, 'n_p': 0, 'n_g': 20,
        'n_pg': -20, 'j': 1}


def scales(c, d):
    """scale of each kind of quantity, at each node"""
    G, M, R = d['G'], d['M_star'], d['R_star']
    if c.sym:
        from dv.npshim import scalar
        dyn = scalar('sqrt', G * M / R ** 3)
    else:
        dyn = math.sqrt(G * M / R ** 3)
    k = {'R': R, 'GM/R': G * M / R, 'GM/R2': G * M / R ** 2, 'L': d.get('L_star'), '1': 1,
         'MR2': M * R ** 2, 'GM2/R': G * M ** 2 / R, 'dyn': dyn}
    out = {q: [v] * 2 for q, v in k.items()}
    for q in ('P', 'rho', 'T'):
        out[q] = list(d[q]) if q in d else [1, 1]
    return out


def dimensions(c):
    """dimensioned copy = dimensionless value x scale; the file's values stay as they are"""
    which = c.choice('class', ['gyre', 'polytrope'])
    m = loader.repo(EF + 'enumeration_dimensions')
    cls = m.DimGyre if which == 'gyre' else m.ReImPoly
    d = {k: c.real(k, pos=True) for k in ('G', 'M_star', 'R_star')}
    poly = which == 'polytrope'
    if not poly:
        d['L_star'] = c.real('L_star', pos=True)
        for k in ('P', 'rho', 'T'):
            d[k] = c.reals(k, 2)
    cplx, real = {}, {}
    for kind, names in GYRE.items():
        for q in names:
            if not poly or q in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'omega', 'y_1', 'y_2',
                                 'y_3', 'y_4', 'freq', 'l_i', 'lambda'):
                v, w = pair(c, q, 2)
                d[q] = v
                cplx[q] = ('1' if poly else kind, v, w)
    for kind, names in REAL.items():
        for q in names:
            if not poly or q in ('Omega_rot', 'x', 'Gamma_1'):
                v = c.reals(q, 2)
                d[q] = v
                real[q] = ('1' if poly else kind, list(v))
    keep = dict(KEEP, label=b'x') if poly else KEEP
    d.update(keep)
    base = {k: d[k] for k in ('G', 'M_star', 'R_star')}
    sc = scales(c, d)
    cls.dimensionalize(d)
    for k, v in keep.items():
        c.prove('labels-unchanged', d[k] is v or d[k] == v)
    for k, v in base.items():
        c.eq('constants-unchanged', d[k], v)
    for q, (kind, v, w) in cplx.items():
        want = [(r * s, i * s) for (r, i), s in zip(w, sc[kind])]
        if kind == '1':
            same(c, 'complex', d[q], want)
            c.prove('no-dimension', f'{q}_dim' not in d)
        else:
            same(c, f'{kind}-scaled', d[f'{q}_dim'], want)
            c.prove('original-kept', d[q] is v)
    for q, (kind, w) in real.items():
        got = d[q if kind == '1' else f'{q}_dim']
        for i in range(2):
            c.eq('real' if kind == '1' else f'{kind}-scaled', got[i], w[i] * sc[kind][i])
            c.eq('original-real', d[q][i], w[i])


SI = {'M_star': 1e-3, 'R_star': 1e-2, 'L_star': 1e-7, 'M_r': 1e-3, 'P': .1, 'rho': 1e3}
SIM = {'pressure': .1, 'grav': .01, 'mlt_mixing_length': .01, 'gamma_1_adDer': 1e-3}


def reader(data):
    it = iter(data)
    return types.SimpleNamespace(data_file_reader=lambda *a, **k: [next(it)])


def units(c):
    """one consistent unit system: gravity constant, stellar quantities and perturbations"""
    m = loader.repo(LM)
    sys_ = c.choice('system', ['CGS', 'SI', 'cgs', 'si', 'Si'])
    si = sys_.lower() == 'si'
    nm = c.choice('modes', [3, 1])
    L = m.ModelLoader(base_dir='x/', mesa_output_dir='m', gyre_output_dir='g', infer_dir=False,
                      search_l=[2] * nm, search_m=[0] * nm, search_n=[20] * nm, unit_system=sys_)
    data, keep = [], []
    for k in range(nm):
        d = {q: c.real(f'{q}{k}', pos=True) for q in ('M_star', 'R_star', 'L_star')}
        d.update({q: c.reals(f'{q}{k}', 2) for q in ('P', 'rho', 'T', 'M_r', 'As', 'x', 'Omega_rot')})
        d.update(freq_units='HZ', n=2, l=2, m=k - 1)
        w = {}
        for q in ('xi_r', 'deul_phi', 'lag_P', 'omega'):
            d[q], w[q] = pair(c, q + str(k), 2)
        data.append(dict(d))
        keep.append((d, w))
    mesa = {q: c.reals(q, 2) for q in ('pressure', 'grav', 'gamma_1_adDer', 'radius', 'brunt_N2')}
    L._gyre_detail_reader = reader(data)
    L._mesa_profile_reader = reader([dict(mesa)])
    with open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
        L.read_data_files(gyre_detail=True, mesa_profile=True,
                          progress_bars=c.choice('progress', [False, True]))
    G = 6.6743e-11 if si else 6.6743e-8
    c.prove('a-dictionary-per-mode', len(L.gyre_details) == nm and len(L.mesa_profile) == 1)
    for got, (d, w) in zip(L.gyre_details, keep):
        c.prove('gravity', abs(float(got['G']) / G - 1) < 1e-3)
        f = {q: (v if si else 1.) for q, v in SI.items()}
        for q in ('M_star', 'R_star', 'L_star'):
            c.eq('star', got[q], d[q] * f[q])
        for q in ('P', 'rho', 'M_r', 'T', 'As', 'x'):
            for i in range(2):
                c.eq('profile', got[q][i], d[q][i] * f.get(q, 1.))
        R, P = d['R_star'] * f['R_star'], [v * f['P'] for v in list(d['P'])]
        gm = got['G'] * d['M_star'] * f['M_star']
        same(c, 'displacement', got['xi_r_dim'], [(r * R, i * R) for r, i in w['xi_r']])
        same(c, 'potential', got['deul_phi_dim'],
             [(r * gm / R ** 2, i * gm / R ** 2) for r, i in w['deul_phi']])
        same(c, 'pressure', got['lag_P_dim'], [(r * p, i * p) for (r, i), p in zip(w['lag_P'], P)])
        same(c, 'frequency', got['omega'], w['omega'])
        for i in range(2):
            c.eq('rotation', got['Omega_rot_dim'][i] ** 2, d['Omega_rot'][i] ** 2 * gm / R ** 3)
        c.prove('labels', got['freq_units'] == 'HZ' and got['m'] == d['m'] and got['n'] == 2)
    got = L.mesa_profile[0]
    for q, v in mesa.items():
        for i in range(2):
            c.eq('structure-profile', got[q][i], v[i] * (SIM.get(q, 1.) if si else 1.))


def polytropes(c):
    """one gravity constant, mass and radius for the structure and the modes of a polytrope"""
    m = loader.repo(LM)
    sys_ = c.choice('system', ['CGS', 'SI', 'cgs', 'si'])
    nm = c.choice('modes', [3, 2])
    M, R, gam = (c.real(k, pos=True) for k in ('mass', 'radius', 'Gamma_1'))
    L = m.ModelLoader(base_dir='x/', infer_dir=False, use_polytrope_data=True,
                      polytrope_model_output_dir='m', polytrope_oscillation_output_dir='g',
                      search_l=[2] * nm, search_m=[0] * nm, search_n=[20] * nm, unit_system=sys_)
    data, keep = [], []
    for k in range(nm):
        d = {q: c.reals(f'{q}{k}', 2) for q in ('x', 'Omega_rot')}
        d.update(freq_units='HZ', n=2, l=2, m=k - 1)
        w = {}
        for q in ('xi_r', 'deul_phi', 'y_1', 'omega'):
            d[q], w[q] = pair(c, q + str(k), 2)
        data.append(dict(d))
        keep.append((d, w))
    z = [c.real(f'z{i}', lo=i + .1, hi=i + 1.) for i in range(3)]
    th = [c.real(f'theta{i}', lo=.05, hi=1.) for i in range(3)]
    dt = [-c.real(f'slope{i}', pos=True) for i in range(3)]
    n = c.real('n', pos=True, rand=lambda r: r.uniform(.5, 4.))
    model = {'n_poly': c.arr([n]), 'z': c.arr(z), 'theta': c.arr(th), 'dtheta': c.arr(dt),
             'Gamma_1': c.arr([gam] * 3)}
    L._polytrope_oscillation_reader = reader(data)
    L._polytrope_model_reader = reader([dict(model)])
    with open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
        L.read_data_files(polytrope_model=True, polytrope_oscillation=True, polytrope_mass=M,
                          polytrope_radius=R, progress_bars=c.choice('progress', [False, True]))
    G = 6.6743e-11 if sys_.lower() == 'si' else 6.6743e-8
    got = L.polytrope_oscillation_models
    c.prove('a-dictionary-per-mode', len(got) == nm and len(L.polytrope_model) == 1)
    P, = L.polytrope_model
    g = P['G']
    c.prove('gravity', abs(float(g) / G - 1) < 1e-3)
    for i in range(3):
        r = R * z[i] / z[2]
        mr = M * z[i] ** 2 * dt[i] / (z[2] ** 2 * dt[2])
        c.eq('mass', P['mr'][i], mr)
        c.eq('labels', P['Gamma_1'][i], gam)
        if c.sym:
            continue    # (P09; here the rounded product of two constants is in the way)
        c.eq('radius', P['r'][i], r)
        c.eq('acceleration', P['dgravpot'][i], g * mr / r ** 2)
        c.eq('dimensionless-gravity', P['v2'][i] * P['p'][i] * r * (z[i] / z[2]) ** 2,
             g * mr * P['rho'][i])
    for d, (o, w) in zip(got, keep):
        c.prove('gravity', d['G'] == g)
        c.eq('mass', d['M_star'], M)
        c.eq('radius', d['R_star'], R)
        for q, v in w.items():
            if q in ('y_1', 'omega'):
                same(c, 'complex', d[q], v)
        for i in range(2):
            c.eq('grid', d['x'][i], o['x'][i])
            c.eq('rotation', d['Omega_rot'][i], o['Omega_rot'][i])
        c.prove('labels', d['freq_units'] == 'HZ' and d['m'] == o['m'] and d['n'] == 2)


EFD = D + 'enumeration_files/'
CONTRACTS = [
    Contract('complex-parts', parts, load=load, modules=MODS, rand=40, functions=[
        'num-tools/carr_conv/carr_conv.py:re_im', 'num-tools/carr_conv/carr_conv.py:re_im_parts']),
    Contract('dimensions', dimensions, load=load, modules=MODS, rand=40, functions=[
        f'{EFD}enumeration_dimensions.py:DimClass.dimensionalize',
        f'{EFD}enumeration_dimensions.py:DimGyre', f'{EFD}enumeration_dimensions.py:ReImPoly'] + [
        f'{EFD}enumeration_dimensions.py:{k}' for k in (
            'get_r', 'get_eul_phi_fac', 'get_deul_phi_fac', 'get_P', 'get_rho', 'get_T',
            'get_om_rot_fac', 'get_L', 'get_E_fac', 'get_H_fac')]),
    Contract('unit-systems', units, load=load, modules=MODS, rand=40, functions=[
        f'{EFD}enumeration_models.py:BaseFileInfo.unit_conversions',
        f'{EFD}enumeration_models.py:BaseFileInfo._return_input',
        f'{D}load_models.py:ModelLoader._unit_conversion',
        f'{D}load_models.py:ModelLoader.read_data_files']),
    Contract('polytropes', polytropes, load=load, modules=MODS, rand=30, functions=[
        f'{D}load_models.py:ModelLoader.read_data_files',
        f'{EFD}enumeration_dimensions.py:ReImPoly',
        'aesolver/aesolver/polytropic_computations/poly_struct_comps.py:'
        'PolytropicAdditionalStructureInformation']),
]
