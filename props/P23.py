"""Analysis and plotting of stored triads: derived quantities and validity masks."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from dv import loader
from dv.npshim import scalar
from dv.runner import Contract

AN, PL = 'ae_analyzer.quadratic_stationary_analyzer', 'aeplotter.quadratic_plotter'
MODS = ['ae_analyzer.quadratic_stationary_analyzer', 'ae_analyzer.utility_functions',
        'ae_analyzer.library_functions.masking', 'aeplotter.quadratic_plotter',
        'aeplotter.utility_functions', 'aeplotter.library_functions.masking']
# where the solver stores what
PATH = {'n': 'quantum_numbers/n', 'checks': 'checks/pre_checks',
        'W': 'mode_frequency_info/corot_mode_omegas', 'F': 'mode_frequency_info/corot_mode_freqs',
        'WI': 'mode_frequency_info/inert_mode_omegas', 'FI': 'mode_frequency_info/inert_mode_freqs',
        'WD': 'mode_frequency_info/inert_dimless_mode_omegas', 'g': 'linear_driving/driving_rates',
        'kap': 'coupling/generic/|kappa|', 'kapn': 'coupling/generic/|kappa_norm|',
        'A': 'coupling/stationary_three_mode/equilibrium_theoretical_amplitudes',
        'S': 'coupling/stationary_three_mode/surface_flux_variations',
        'T': 'coupling/stationary_three_mode/critical_parent_amplitudes',
        'ph': 'coupling/stationary_three_mode/stationary_relative_luminosity_phases'}
FILES = {}


class DSet:
    def __init__(self, a):
        self.a, self.attrs = a, {}

    @property
    def shape(self):
        return self.a.shape

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self.a.copy()
        return self.a[i]


class Attr:
    def __init__(self, d):
        self.attrs = {k: np.array(v) for k, v in d.items()}


class File:
    """a stored HDF5 file"""

    def __init__(self, name, mode='r'):
        if mode != 'r' or str(name) not in FILES:
            raise OSError(f'{name} {mode}')
        self.f = FILES[str(name)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, p):
        p = p.strip('/')
        if p == 'quantum_numbers':
            return Attr(self.f['q'])
        for k, v in PATH.items():
            if v == p:
                return DSet(self.f[k])
        raise KeyError(p)


def load():
    loader.setup()
    import matplotlib
    matplotlib.use('Agg')
    sys.modules['aesolver'].generate_load_file_path_list = loader.repo(
        'aesolver.read_load_info.load_name_plots').generate_load_file_path_list
    loader.stubmod('hogg_jacky', histogram_likelihood_blas=None,
                   log_histogram_likelihood_blas=None, histogram_blas_log_spec_edges=None)
    for m in MODS:
        loader.repo(m)
    for m in (AN, PL):
        loader.repo(m).h5 = types.SimpleNamespace(File=File)


def info(names):
    """loading dictionary for the given files: list of names, or of lists of names"""
    n = len(names)
    return {'nr_files': n, 'base_dir': 'b', 'output_dir': 'o', 'use_standard_format': False,
            'base_file_names': names, 'specification_names': [
                '' if isinstance(x, str) else [''] * len(x) for x in names],
            'file_suffix': ['h5' if isinstance(x, str) else ['h5'] * len(x) for x in names],
            'masses': [1.] * n, 'Xcs': [.5] * n, 'triple_pairs': [[1, 1, 1]] * n,
            'meridional_degrees': [[0, 0, 0]] * n, 'azimuthal_orders': [[2, 1, 1]] * n}


def full(name):
    return f'b/o/{name}_k_0_0_0_m_2_1_1.h5'


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix='dv_plt_')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


OUT = io.StringIO()


def analyzer(names):
    OUT.seek(0), OUT.truncate()
    with contextlib.redirect_stdout(OUT):
        o = loader.repo(AN).QuadraticAEStationaryAnalyzer(info(names), {}, {})
    return o


def plotter(names, overview=True, sharp=True):
    with folder() as d, contextlib.redirect_stdout(io.StringIO()):
        return loader.repo(PL).QuadraticAEPlotter(
            info(names), {'show_plots': False, 'plot_overview': overview,
                          'plot_resonance_sharpness': sharp, 'plot_coefficient_profile': False},
            {'save_base_dir': d, 'save_dir': 's', 'extra_specifier_save': '', 'save_formats': [],
             'sharpness_save_name': 'x', 'sharpness_subdir': '', 'overview_save_name': 'y',
             'overview_subdir': ''})


def conc(c, rows_, t):
    if not c.sym:
        return np.array(rows_, dtype=t)
    from dv.npshim import OArr
    a = np.empty((len(rows_), len(rows_[0])), dtype=object)
    for i, r in enumerate(rows_):
        a[i] = [t(x) for x in r]
    return OArr(a)


def rows(c, pre, orders, checks, vals=None):
    """stored data of some triads"""
    n = len(orders)
    d = {'n': conc(c, orders, int), 'checks': conc(c, checks, bool),
         'q': {'k': [0, 0, 0], 'l': [2, 1, 1], 'm': [2, 1, 1]}}
    m2 = lambda k, **kw: np.stack([c.reals(f'{pre}{k}{i}', 3, **kw) for i in range(n)])
    for k in ('W', 'F', 'FI', 'WD', 'A', 'S'):
        d[k] = m2(k)
    d['WI'] = m2('WI')
    d['g'] = m2('g')
    for k in ('kap', 'kapn', 'T', 'ph'):
        d[k] = c.reals(pre + k, n)
    return d


CPD, MU = 86400., 1e6


def row_facts(c, tag, dd, i, d, j):
    """entry i of the derived data against triad j of the stored data"""
    W, g, S = d['W'][j], d['g'][j], d['S'][j]
    A, T, WI, F, FI = d['A'][j][0], d['T'][j], d['WI'][j], d['F'][j], d['FI'][j]
    par, direct = bool(d['checks'][j][0]), bool(d['checks'][j][1])
    dw = W[0] - W[1] - W[2]
    gs = g[0] + g[1] + g[2]
    
    def E(name, got, want):
        if isnan(want) or isnan(got):
            c.prove(f'{tag}-{name}', isnan(want) and isnan(got), f'{got} {want}')
        else:
            c.eq(f'{tag}-{name}', got, want, tol=1e-9)

    for k, f in (('cpd', CPD), ('muHz', MU)):
        E('corot-omega', dd[f'corot_mode_omegas_p_{k}'][i], W[0] * f)
        E('corot-freq', dd[f'corot_mode_freqs_p_{k}'][i], F[0] * f)
        E('inert-omega', dd[f'inert_mode_omegas_p_{k}'][i], WI[0] * f)
        E('inert-freq', dd[f'inert_mode_freqs_p_{k}'][i], FI[0] * f)
        E('detuning', dd[f'linear_omega_diff_{k}'][i], dw * f)
        E('rotation', dd[f'rotation_freqs_{k}'][i], (WI[1] - W[1]) * f)
        E('driving', dd[f'p_driv_rates_{k}'][i], g[0] * f)
        E('parent-shift', dd[f'freq_shift_p_{k}'][i], -f * dw * g[0] / gs)
        for q in (1, 2):
            E('corot-omega', dd[f'corot_mode_omegas_d_{k}'][i][q - 1], W[q] * f)
            E('corot-freq', dd[f'corot_mode_freqs_d_{k}'][i][q - 1], F[q] * f)
            E('inert-omega', dd[f'inert_mode_omegas_d_{k}'][i][q - 1], WI[q] * f)
            E('inert-freq', dd[f'inert_mode_freqs_d_{k}'][i][q - 1], FI[q] * f)
            E('damping', dd[f'd_damp_rates_{k}'][i][q - 1], g[q] * f)
            E('daughter-shift', dd[f'freq_shift_d_{k}'][i][q - 1], f * dw * g[q] / gs)
    E('parent-shift', dd['freq_shift_p'][i], -dw * g[0] / gs)
    E('driving', dd['p_driv_rates'][i], g[0])
    for q in (1, 2):
        E('daughter-shift', dd['freq_shift_d'][i][q - 1], dw * g[q] / gs)
        E('damping', dd['d_damp_rates'][i][q - 1], g[q])
    E('shift-fraction', dd['freq_shift_p_to_omega'][i], -dw * g[0] / gs / WI[0])
    for q in (1, 2):
        E('shift-fraction', dd['freq_shift_d_to_omega'][i][q - 1], dw * g[q] / gs / WI[q])
    E('detuning', dd['linear_omega_diff'][i], dw)
    m2 = lambda a, b: scalar('minimum', a, b) if c.sym else min(a, b)
    lo = m2(m2(abs(W[0]), abs(W[1])), abs(W[2]))
    E('relative-detuning', dd['linear_omega_diff_to_min_omega'][i] * lo, dw)
    for q in range(3):
        E('spin', dd['spin_parameters'][i][q], 2 * (WI[1] - W[1]) / W[q])
    E('coupling', dd['abs_kappa'][i], abs(d['kap'][j]))
    E('coupling', dd['abs_kappa_norm'][i], abs(d['kapn'][j]))
    if par and ok(A):
        E('threshold', dd['thresh_surf_ppm'][i], T * S[0] / A * 1e6)
    else:
        c.prove(tag + '-no-threshold', isnan(dd['thresh_surf_ppm'][i]))
    ra = dd['surf_ratio_daughter_parent_OG_SHAPE'][i]
    for q in (1, 2):
        flat = dd['surf_ratio_daughter_parent'][i + (q - 1) * (len(dd['surf_ratio_daughter_parent']) // 2)]
        if par and ok(S[0]):
            want = S[q] / S[0]
        elif direct and ok(S[q]):
            want = S[0] / S[q]
        else:
            c.prove(tag + '-no-ratio', isnan(ra[q - 1]) and isnan(flat))
            continue
        E('ratio', ra[q - 1], want)
        E('ratio', flat, want)
    if (par or direct) and ok(S[1]) and ok(S[2]):
        E('ratio-product', dd['surf_ratio_vb_21'][i], S[0] / (S[1] * S[2]))
    else:
        c.prove(tag + '-no-ratio', isnan(dd['surf_ratio_vb_21'][i]))


def ok(x):
    return not isnan(x) and bool(x != 0)


def isnan(x):
    from dv.npshim import _isnan, is_sym
    return _isnan(x) if is_sym(x) else x != x


def nonzero(c, d):
    """quantities that are divided by are not zero"""
    for j in range(len(d['W'])):
        for q in range(3):
            c.assume(d['W'][j][q] != 0)
            c.assume(d['WI'][j][q] != 0)
            c.assume(d['g'][j][q] != 0)
        c.assume(d['g'][j][0] + d['g'][j][1] + d['g'][j][2] != 0)


CH = {'parametric': [1, 0, 0, 1, 1, 1], 'direct': [0, 1, 0, 1, 1, 1],
      'driven': [0, 0, 1, 0, 0, 0], 'other': [0] * 6}


def derived(c):
    """every derived quantity is its defining function of what was stored for that triad"""
    which = c.choice('tool', ['analyzer', 'plotter'])
    kind = c.choice('triad', list(CH))
    d = rows(c, 'a', [(5, -3, -4)], [CH[kind]])
    nonzero(c, d)
    zero = c.choice('zeros', ['none', 'amplitude', 'parent', 'daughter 1', 'daughter 2'])
    z = {'amplitude': d['A'][0], 'parent': d['S'][0], 'daughter 1': d['S'][0][1:],
         'daughter 2': d['S'][0][2:]}
    for k, v in z.items():
        if k == zero:
            v[0] = 0. if c.sym else 0.
        else:
            c.assume(v[0] != 0)
    FILES.clear()
    FILES[full('x')] = d
    o = analyzer(['x']) if which == 'analyzer' else plotter(['x'], True, True)
    dd, = o._list_data_dict
    c.prove('triads', len(dd['linear_omega_diff']) == 1)
    row_facts(c, which, dd, 0, d, 0)
    if which == 'analyzer':
        more(c, dd, 0, d)
    else:
        W, g = d['W'][0], d['g'][0]
        c.eq('sharpness', dd['resonance_sharpness_factor'][0],
             (W[0] - W[1] - W[2]) / (g[1] + g[2]))


def many(c):
    """files: one model per entry (flat lists are one model); triads keep their order"""
    which = c.choice('tool', ['analyzer', 'plotter'])
    FILES.clear()
    data = {}
    n = c.rng.randint if hasattr(c.rng, 'randint') else lambda a, b: int(c.rng.integers(a, b + 1))
    for k in 'xyz':
        q = n(1, 4)
        data[k] = d = rows(c, k, [(n(1, 9), -n(1, 5), -n(1, 5)) for _ in range(q)],
                           [CH[list(CH)[n(0, 3)]] for _ in range(q)])
        for f in ('A', 'S'):
            for j in range(q):
                if n(0, 3) == 0:
                    d[f][j][n(0, 2)] = [0., float('nan')][n(0, 1)]
        FILES[full(k)] = d
    names = c.choice('files', [['x'], ['y', 'z', 'x'], [['x', 'y'], ['z']], [['z']],
                               [['x'], ['z'], ['y']]])
    o = analyzer(names) if which == 'analyzer' else plotter(names, True, True)
    groups = [names] if isinstance(names[0], str) else names
    L = o._list_data_dict
    c.prove('models', len(L) == len(groups), f'{len(L)}')
    for dd, gr in zip(L, groups):
        ent = [(data[k], j) for k in gr for j in range(len(data[k]['W']))]
        c.prove('triads', len(dd['linear_omega_diff']) == len(ent))
        for i, (d, j) in enumerate(ent):
            row_facts(c, which, dd, i, d, j)
    for k in 'klm':
        c.prove('quantum-numbers', str([np.asarray(x).tolist() for x in getattr(o, '_' + k)]) == str(
            [data[g]['q'][k] if isinstance(g, str) else [data[q]['q'][k] for q in g]
             for g in names]))


def more(c, dd, i, d):
    W, g, WI = d['W'][0], d['g'][0], d['WI'][0]
    dw, gs = W[0] - W[1] - W[2], g[0] + g[1] + g[2]
    c.eq('quality', dd['p_quality_factors'][i], W[0] / g[0])
    for k in ('gamma_sum', 'gamma_sum_cpd'):
        c.eq('gamma-sum', dd[k][i], gs * CPD)
    c.eq('q', dd['q'][i], dw / gs)
    c.eq('q1', dd['q1'][i], dw / g[0])
    c.eq('q3', dd['q3'][i], dw / g[2])
    c.eq('theta', dd['theta2'][i], -g[1] / g[0])
    c.eq('theta', dd['theta3'][i], -g[2] / g[0])
    c.eq('theta', dd['theta23'][i], g[1] / g[2])
    c.eq('phase', dd['nonlinear phase'][i], d['ph'][0])
    nl = dd['nonlinear omegas (c/d)'][i]
    sh = dd['nonlinear frequency shift/omega inert'][i]
    s = [-dw * g[0] / gs, dw * g[1] / gs, dw * g[2] / gs]
    for q in range(3):
        c.eq('nonlinear', nl[q], (WI[q] + s[q]) * CPD)
        c.eq('shift-fraction', sh[q], s[q] / WI[q])
    c.eq('nonlinear', dd['nonlinear parent omega (c/d)'][i], nl[0])
    for q in (1, 2):
        c.eq('nonlinear', dd['nonlinear daughter omega (c/d)'][i][q - 1], nl[q])
    # locked: in the co-rotating frame the shifted parent is the sum of the shifted daughters
    c.eq('phase-lock', (nl[0] - nl[1] - nl[2]) / CPD - (WI[0] - WI[1] - WI[2]) + dw, 0,
         atol=1e-9)


NY = 283e-6 * 86400
PATTERNS = {
    'one': [(5, -3, -4)], 'harmonic': [(5, -3, -3)],
    'same parent': [(5, -3, -4), (5, -6, -7)], 'shared daughter': [(5, -3, -4), (6, -3, -7)],
    'crossed daughter': [(5, -3, -4), (6, -4, -8)], 'independent': [(5, -3, -4), (6, -7, -8)],
    'harmonic and sibling': [(5, -3, -3), (5, -3, -4)],
    'three siblings': [(5, -3, -4), (5, -6, -7), (5, -8, -9)],
    'chain': [(5, -3, -4), (6, -4, -5), (6, -8, -9)],
    'star': [(5, -3, -4), (5, -3, -6), (7, -4, -6)]}


def iso_spec(orders, valued, thr, eq):
    """isolated: lowest threshold of all (parametric) triads of each of its modes, and its
    parent saturates below the next threshold"""
    out = []
    for i, (p, a, b) in enumerate(orders):
        if not valued[i]:
            out.append(False)
            continue
        same = [j for j in range(len(orders)) if valued[j] and j != i and orders[j][0] == p]
        share = [j for j in range(len(orders)) if valued[j] and j != i and
                 {a, b} & set(orders[j][1:])]
        ok = all(bool(thr[i] < thr[j]) for j in same + share)
        if ok and same:
            nxt = thr[same[0]]
            for j in same[1:]:
                if bool(thr[j] < nxt):
                    nxt = thr[j]
            ok = not isnan(eq[i]) and bool(nxt > eq[i])
        out.append(ok)
    return out


def flags(c, name, got, want):
    got = [bool(x) for x in got]
    c.prove(name, got == want, f'{got} instead of {want}')


def masks_facts(c, which, o, dd, orders, iso, ae, st, k=0):
    if which == 'analyzer':
        for n, w in (('stability_mask', st), ('ae_mask', ae), ('isolation_mask', iso),
                     ('validity_mask', [a and i for a, i in zip(ae, iso)]),
                     ('stability_and_validity_mask',
                      [s and a and i for s, a, i in zip(st, ae, iso)])):
            flags(c, n, dd[n], w)
        return
    h = [x[1] == x[2] for x in orders]
    z = list(zip(st, ae, iso, h))
    I, N = [s and a and i for s, a, i, _ in z], [s and a and not i for s, a, i, _ in z]
    flags(c, 'isolated', o._mask_list_isolated[k], I)
    flags(c, 'not-isolated', o._mask_list_not_isolated_stable[k], N)
    c.prove('counts', bool(o._count_nr_dict['isolated'][k] == sum(I)) and
            bool(o._count_nr_dict['not isolated'][k] == sum(N)))
    flags(c, 'overview-valid', o._mask_list_stable_valid[k],
          [s and a and i and not q for s, a, i, q in z])
    flags(c, 'overview-ae', o._mask_list_ae_stable[k],
          [s and a and not i and not q for s, a, i, q in z])
    flags(c, 'overview-stable', o._mask_list_stable[k],
          [s and not a and not q for s, a, i, q in z])


def isolation(c):
    """which triads are isolated, for every order of thresholds and saturation amplitudes"""
    which = c.choice('tool', ['analyzer', 'plotter'])
    pat = c.choice('pattern', list(PATTERNS))
    orders = PATTERNS[pat]
    n = len(orders)
    kinds = ['parametric'] * n
    if n > 1:
        kinds[-1] = c.choice('last', ['parametric', 'direct'])
    d = rows(c, 'a', orders, [CH[k] for k in kinds])
    for i in range(n):
        # values that do not matter for isolation
        for k in ('W', 'WI', 'g', 'F', 'FI', 'WD'):
            for q in range(3):
                d[k][i][q] = {'W': 2. - 1. * (q > 0), 'g': 1. - 2 * (q > 0)}.get(k, 1. + q)
        for q in (1, 2):
            d['S'][i][q] = 1.
        d['A'][i][0] = 1.
        if not c.sym:
            d['S'][i][0], d['T'][i] = abs(d['S'][i][0]), abs(d['T'][i])
        c.assume(d['S'][i][0] > 0)
        c.assume(d['T'][i] > 0)
    val = [k == 'parametric' for k in kinds]
    thr = [d['T'][i] * d['S'][i][0] * 1e6 for i in range(n)]
    for i in range(n):
        for j in range(i):
            if val[i] and val[j]:
                if c.sym:
                    c.assume((thr[i] - thr[j]) * (thr[i] - thr[j]) > 1e-26)
                else:
                    c.assume(abs(thr[i] - thr[j]) > 1e-9 * abs(thr[i]))
    FILES.clear()
    FILES[full('x')] = d
    o = analyzer(['x']) if which == 'analyzer' else plotter(['x'], True, True)
    iso = iso_spec(orders, val, thr, [d['S'][i][0] * 1e6 for i in range(n)])
    masks_facts(c, which, o, o._list_data_dict[0], orders, iso, [True] * n, [True] * n)


def validity(c):
    """amplitude-equation validity (detuning at most a tenth of the lowest frequency) and
    stability of a triad"""
    which = c.choice('tool', ['analyzer', 'plotter'])
    ch = [1, 0, 0] + [c.choice(f'check{i}', [1, 0]) for i in range(3)]
    d = rows(c, 'a', [(5, -3, -4)], [ch])
    nonzero(c, d)
    W = d['W'][0]
    if not c.sym and c.rng.random() < .3:  # exactly a tenth
        lo, dw = 10. * c.rng.randint(1, 9), c.rng.choice([-1, 1])
        W[:] = c.rng.choice([[2.5 * lo + dw * lo / 10, 1.5 * lo, lo],
                             [2 * lo + dw * lo / 10, lo, lo], [lo, 2 * lo, -lo - dw * lo / 10]])
    for k in ('A', 'S', 'T'):
        d[k][0] = 1.
    FILES.clear()
    FILES[full('x')] = d
    o = analyzer(['x']) if which == 'analyzer' else plotter(['x'], False, True)
    dw = abs(W[0] - W[1] - W[2])
    ae = all([bool(10 * dw <= abs(w)) for w in W])
    st = ch[3:] == [1, 1, 1]
    if which == 'analyzer':
        masks_facts(c, which, o, o._list_data_dict[0], d['n'], [True], [ae], [st])
    else:
        flags(c, 'isolated', o._mask_list_isolated[0], [st and ae])
        flags(c, 'not-isolated', o._mask_list_not_isolated_stable[0], [False])
        R = o._resonance_sharpness_figure_dict
        want = [(W[0] - W[1] - W[2]) / (d['g'][0][1] + d['g'][0][2])] if st and ae else []
        for k in ('all', 'isolated'):
            c.prove('plotted', len(R[k]) == len(want))
            for a, b in zip(R[k], want):
                c.eq('plotted', a, b)
        c.prove('plotted', len(R['not isolated']) == 0)


def mirror(c):
    """lowest nonlinear inertial frequency of a triad, mirrored about multiples of the Nyquist
    frequency when it is negative"""
    d = rows(c, 'a', [(5, -3, -4)], [CH['parametric']])
    nonzero(c, d)
    for k in ('A', 'S', 'T'):
        d[k][0] = 1.
    W, g, FI = d['W'][0], d['g'][0], d['FI'][0]
    for q in range(3):     # away from the validity limit, which has its own contract
        if c.sym:   # co-rotating frequencies in units of pi, decided growth rates
            from dv.npshim import as_sym
            W[q] = as_sym(np.pi) * (.75 - .375 * (q > 0) + .0078125 * (q == 0))
            g[q] = [.5, -.125, -.125][q]
        else:
            W[q] = 2.2 - 1.1 * (q > 0) + .01 * (q == 0)
    if not c.sym:
        top_ = c.rng.choice([.3, 2.2, 3.9])
        for q in range(3):
            FI[q] = (c.rng.random() * 2 - 1) * top_ * NY / CPD
            g[q] = (c.rng.random() * 2 - 1)
        f0 = abs(g[0] + g[1] + g[2])
        W[0] = 2.2 + (c.rng.random() - .5) * f0 * 1e-4
        c.assume(f0 > .1)
    gs, dw = g[0] + g[1] + g[2], W[0] - W[1] - W[2]
    pi2 = 2 * np.pi
    f = [FI[q] * CPD + (-1 if q == 0 else 1) * dw * g[q] / gs * CPD / pi2 for q in range(3)]
    lo = f[0]
    for q in (1, 2):
        if bool(f[q] < lo):
            lo = f[q]
    c.assume(lo > -4 * NY)
    FILES.clear()
    FILES[full('x')] = d
    o = plotter(['x'], True, False)
    dd = o._list_data_dict[0]
    neg = bool(lo < 0)
    want = lo
    if neg:
        m = -lo
        want = m if bool(m < NY) else 2 * NY - m if bool(m < 2 * NY) else m - 2 * NY \
            if bool(m < 3 * NY) else 4 * NY - m
    for j in range(2):
        c.eq('lowest', dd['min_inertial_freq_stack'][0][j], want, atol=1e-9)
        c.prove('negative', bool(dd['neg_mask'][0][j]) == neg)


def random_models(c, size):
    n = c.rng.randint if hasattr(c.rng, 'randint') else lambda a, b: int(c.rng.integers(a, b + 1))
    FILES.clear()
    names, data = [], []
    for k in range(n(1, 3)):
        q = n(1, size(k))
        d = rows(c, f'm{k}', [(n(1, 6), -n(1, 6), -n(1, 6)) for _ in range(q)],
                 [CH[list(CH)[min(n(0, 6), 3) if n(0, 1) else 0]] for _ in range(q)])
        for i in range(q):
            for x in (3, 4, 5):
                d['checks'][i][x] = n(0, 4) > 0
            d['W'][i] = [40. + n(0, 10), 20., 20.]  # whole numbers: also a tenth exactly
            d['g'][i] = [n(1, 9) * 1e-3, -n(1, 9) * 1e-3, -n(1, 9) * 1.1e-3]
            a, b = (d['W'][i][0] - 40) / d['g'][i].sum(), d['W'][i][0] / d['g'][i][0]
            c.assume(abs(a - b) > 1e-9 * abs(b))  # q and Q1 are told apart by rounding only
            d['T'][i], d['A'][i][0] = abs(d['T'][i]) + .1, abs(d['A'][i][0]) + .1
            d['S'][i] = abs(d['S'][i]) * [1, .3, 3][n(0, 2)] + .01
            if n(0, 3) == 0:
                d['S'][i][n(1, 2)] = d['S'][i][0]
            if n(0, 5) == 0:
                d['S'][i][0] = [0., float('nan')][n(0, 1)]
        FILES[full(f'f{k}')] = d
        names.append([f'f{k}'])
        data.append(d)
    return names, data


def population(c):
    """masks, counts and printed totals of whole populations"""
    names, data = random_models(c, lambda k: 12)
    o, pl = analyzer(names), plotter(names, True, True)
    info_ = []
    for k, d in enumerate(data):
        q = len(d['W'])
        orders = [tuple(int(v) for v in x) for x in d['n']]
        with np.errstate(all='ignore'):
            thr = d['T'] * d['S'][:, 0] / d['A'][:, 0] * 1e6
        val = [bool(d['checks'][i][0]) and thr[i] == thr[i] for i in range(q)]
        t = [thr[i] for i in range(q) if val[i]]
        c.assume(len(set(t)) == len(t))
        iso = iso_spec(orders, val, thr, d['S'][:, 0] * 1e6)
        ae = [bool(abs(w[0] - w[1] - w[2]) / min(abs(w)) <= .1) for w in d['W']]
        st = [bool(x[3] and x[4] and x[5]) for x in d['checks']]
        masks_facts(c, 'analyzer', o, o._list_data_dict[k], orders, iso, ae, st)
        masks_facts(c, 'plotter', pl, pl._list_data_dict[k], orders, iso, ae, st, k)
        info_.append((iso, ae, st, d))
    R = pl._resonance_sharpness_figure_dict
    sh = [(i and a and s, a and s and not i, (w[0] - w[1] - w[2]) / (g[1] + g[2]))
          for iso, ae, st, d in info_ for i, a, s, w, g in zip(iso, ae, st, d['W'], d['g'])]
    I, N = [x for a, _, x in sh if a], [x for _, b, x in sh if b]
    for k, w in (('isolated', I), ('not isolated', N), ('all', I + N)):
        c.prove('plotted', len(R[k]) == len(w) and np.allclose(R[k], w, rtol=1e-12), k)
    totals(c, o, info_)


def printed(f):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue()


def totals(c, o, info_):
    import re
    t = printed(o.generate_mode_triad_numbers_per_model)
    for k, (iso, ae, st, d) in enumerate(info_):
        ch = d['checks'].astype(int).sum(axis=0)
        V = [a and b for a, b in zip(ae, iso)]
        want = [len(iso), ch[3], ch[4], ch[5], sum(ae), sum(iso), sum(st), sum(V),
                sum(a and b for a, b in zip(V, st))]
        got = [int(x) for x in re.findall(rf'\(model{k + 1}\): *(\d+)', t)]
        c.prove('printed-counts', got == want, f'{got} instead of {want}')
    T = Tokens(c)
    with T.on():
        t = printed(o.generate_counts_q_quality_factor_1_condition)
    tot, qs, listed = [0] * 14, [], [[], []]
    for iso, ae, st, d in info_:
        S, W, g, ch = d['S'], d['W'], d['g'], d['checks']
        nq = 0
        listed[0].append([]), listed[1].append([])
        for i in range(len(iso)):
            with np.errstate(all='ignore'):
                big = bool(ch[i][0] and S[i][1] > S[i][0] and S[i][2] > S[i][0] and
                           S[i][0] != 0 or ch[i][1] and S[i][0] > S[i][1] and S[i][0] > S[i][2])
                q = bool((W[i][0] - W[i][1] - W[i][2]) / g[i].sum() > W[i][0] / g[i][0])
            both = big and q
            nq += q
            if big:
                with np.errstate(all='ignore'):
                    dw = W[i][0] - W[i][1] - W[i][2]
                    r = S[i][1:] / S[i][0] if ch[i][0] else S[i][0] / S[i][1:]
                    listed[0 if q else 1][-1].append(
                        (dw / g[i].sum(), W[i][0] / g[i][0], r, d['n'][i]))
            v = ae[i] and iso[i]
            for n, x in enumerate([q, big, both, big and not q, both and st[i], both and not st[i],
                                   both and ae[i], both and not ae[i], both and iso[i],
                                   both and not iso[i], both and v, both and not v,
                                   both and v and st[i], both and not (v and st[i])]):
                tot[n] += x
        qs.append(nq)
    got = [int(x) for x in re.findall(r'q > Q1 \(model\d+\) is (\d+)', t)]
    c.prove('printed-q-counts', got == qs, f'{got} {qs}')
    got = [int(x) for x in re.findall(r'^The total.*: (\d+)$', t, re.M)][:14]
    c.prove('printed-totals', got == tot, f'{got} {tot}')
    # the triads themselves, per model
    t = t.replace('\n ', ' ')
    parts = t.split('Information on the triads')[1:]
    c.prove('printed-triads', len(parts) == 2)
    for part, per_model in zip(parts, listed):
        c.prove('printed-triads', per_model is not listed[1] or 'do not satisfy' in part)
        got = re.split(r'^Model(\d+) has ', part, flags=re.M)[1:]
        c.prove('printed-triads', [int(x) for x in got[::2]] ==
                list(range(1, len(per_model) + 1)))
        for text, want in zip(got[1::2], per_model):
            if not want:
                c.prove('printed-triads', text.startswith('no triads'), text)
                continue
            c.prove('printed-triads', text.startswith(f'{len(want)} triads'), text)
            for j, label in enumerate(['q: ', 'Q1: ', 'Daughter-parent amplitude ratio: ',
                                       'Radial orders: ']):
                x = [y for y in text.split('\n') if y.startswith(label)]
                v = T.values(x[0][len(label):]) if len(x) == 1 else []
                w = np.ravel([y[j] for y in want])
                c.prove('printed-triads', len(v) == len(w) and np.allclose(v, w, rtol=1e-9),
                        f'{label}{v} instead of {w}')


class Tokens:
    """printed arrays: every array that a format string receives is kept, and printed as a token"""

    def __init__(self, c):
        self.c, self.a = c, []

    def of(self, a):
        if not getattr(a, 'ndim', 0):
            return str(a)
        self.a.append(a)
        return f'<<{len(self.a) - 1}>>'

    @contextlib.contextmanager
    def on(self):
        if not self.c.sym:
            with np.printoptions(precision=17, threshold=10**6, linewidth=10**6):
                yield
            return
        from dv.npshim import OArr
        OArr.__format__ = lambda a, spec: self.of(a)
        try:
            yield
        finally:
            del OArr.__format__

    def values(self, text):
        import re
        if self.c.sym:
            return [x for i in re.findall(r'<<(\d+)>>', text)
                    for x in np.asarray(self.a[int(i)], dtype=object).ravel()]
        text = text.replace('array', '').replace('dtype', '')
        return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)', text)]


def reports(c):
    """what is printed about the isolated, valid and stable triads of every model"""
    sizes = c.choice('triads', [[1], [2], [3, 1], [1, 2]])
    FILES.clear()
    names, data, keep = [], [], []
    order = [(5, -3, -4), (8, -6, -7), (11, -9, -12)]
    for k, n in enumerate(sizes):
        st = [c.choice(f'stable{k}{i}', [1, 0]) for i in range(n)] if n < 3 else [1, 0, 1]
        d = rows(c, f'm{k}', order[:n], [[1, 0, 0, s, s, s] for s in st])
        for i in range(n):
            W = d['W'][i]
            if c.sym:
                W[:] = [2. + i, -1., 3.0625 + i] if k else [2., 1., 1.03125 + .015625 * i]
            else:
                W[:] = [2.22 + c.rng.random() * .06, 1.2, 1. + .03 * i]
            for k_ in 'ST':
                if not c.sym:
                    d[k_][i] = abs(d[k_][i])
            d['A'][i] = [.5, 1., 2.]
            c.assume(d['S'][i][0] > 0)
            c.assume(d['S'][i][1] != 0)
            c.assume(d['S'][i][2] != 0)
            c.assume(d['T'][i] > 0)
        nonzero(c, d)
        FILES[full(f'f{k}')] = d
        names.append([f'f{k}'])
        data.append(d)
        keep.append([i for i in range(n) if st[i]])
    o = analyzer(names)
    T = Tokens(c)
    with T.on():
        out = {k: printed(getattr(o, 'generate_isolated_triad_' + k)).replace(
            '\n ', ' ').split('\n')
               for k in ('mode_properties', 'stab_val_estimators', 'observables')}
    model = o._model_names

    def line(kind, k, label, want, tail='', tol=1e-9):
        got = [x for x in out[kind] if x.startswith(label) and f'{model[k]})' in x]
        if len(got) != 1:
            c.prove('printed-' + kind, False, f'{len(got)} lines {label!r} for model {k + 1}')
            return
        got = T.values(got[0].split(f'{model[k]})', 1)[1].split(':', 1)[1])
        c.prove('printed-' + kind, len(got) == len(want), f'{label}: {got} instead of {want}')
        for a, b in zip(got, want):
            c.eq('printed-' + kind, a, b, tol=tol)

    for k, (d, rr) in enumerate(zip(data, keep)):
        W, WI, g, S = d['W'], d['WI'], d['g'], d['S']
        # isolation and amplitude-equation validity hold by construction
        dw = [W[i][0] - W[i][1] - W[i][2] for i in rr]
        gs = [g[i][0] + g[i][1] + g[i][2] for i in rr]
        orders = [x for i in rr for x in order[i]]
        for kind in out:
            line(kind, k, 'Radial orders', orders)
        kind = 'mode_properties'
        line(kind, k, 'Delta Omega', [x * CPD for x in dw])
        line(kind, k, 'Gamma_sum', [x * CPD * 1e3 for x in gs])
        line(kind, k, 'Corot omegas', [W[i][q] * CPD for q in range(3) for i in rr])
        line(kind, k, 'Gammas', [g[i][q] * CPD * 1e5 for q in range(3) for i in rr])
        line(kind, k, 'Maximal spin', [top([2 * (WI[i][1] - W[i][1]) / W[i][q]
                                            for q in range(3)]) for i in rr])
        kind = 'stab_val_estimators'
        line(kind, k, 'AE parameters', [abs(x) / min(abs(v) for v in W[i])
                                        for x, i in zip(dw, rr)])
        line(kind, k, '|q| ', [abs(x / y) for x, y in zip(dw, gs)])
        line(kind, k, '|q1|', [abs(x / g[i][0]) for x, i in zip(dw, rr)])
        line(kind, k, 'Theta_2', [-g[i][1] / g[i][0] for i in rr])
        line(kind, k, 'Theta_3', [-g[i][2] / g[i][0] for i in rr])
        line(kind, k, 'O(|eta1|)', [abs(d['kapn'][i]) for i in rr])
        kind = 'observables'
        line(kind, k, 'Maximal absolute', [top([abs(x * g[i][q] / y / WI[i][q])
                                                for q in range(3)]) * 1e3
                                           for x, y, i in zip(dw, gs, rr)])
        line(kind, k, 'Nonlinear combination phases', [d['ph'][i] for i in rr])
        line(kind, k, 'Surface luminosity', [S[i][q] / S[i][0] for q in (1, 2) for i in rr])


def top(v):
    r = v[0]
    for x in v[1:]:
        r = max(r, x) if isinstance(x, float) else scalar('maximum', r, x)
    return r


def real_histograms():
    """the histogram functions as the package exports them"""
    if hasattr(sys.modules['hogg_jacky'], '__path__'):
        return
    import ast
    from . import P20
    del sys.modules['hogg_jacky']
    P20.load()
    t = ast.parse(open(f'{loader.REPO}/histogram_maker/hogg_jacky/__init__.py').read())
    f = {a.asname or a.name: (x.module, a.name) for x in ast.walk(t)
         if isinstance(x, ast.ImportFrom) for a in x.names}
    for g in (loader.repo('aeplotter.library_functions.generic_histograms'),
              loader.repo('aeplotter.resonance_sharpness.histogram')):
        for k in ('histogram_likelihood_blas', 'log_histogram_likelihood_blas',
                  'histogram_blas_log_spec_edges'):
            m, n = f[k]
            setattr(g, k, getattr(loader.repo('hogg_jacky.' + m), n))


def figures(c):
    """what the figures show: every triad that belongs to them, at its derived quantities"""
    import matplotlib.pyplot as plt
    real_histograms()
    names, data = random_models(c, lambda k: 6 + 18 * (k > 0))
    for d in data:      # detunings differ
        d['W'][:, 0] += [c.rng.random() * .01 + .001 for _ in d['W']]
    sharp, over = c.choice('figures', [(True, True), (True, False), (False, True)])
    fmt = c.choice('formats', [[], ['png'], ['png', 'pdf']])
    extra = c.choice('specifier', ['', 'run1'])
    sub = c.choice('subdir', ['', 'deeper'])
    shown = []
    with folder() as d, contextlib.redirect_stdout(io.StringIO()):
        o = loader.repo(PL).QuadraticAEPlotter(
            info(names), {'show_plots': False, 'plot_overview': over, 'fig_size': (4., 3.),
                          'plot_resonance_sharpness': sharp, 'plot_coefficient_profile': False,
                          'fig_dpi': 40},
            {'save_base_dir': d + '/new', 'save_dir': 's', 'extra_specifier_save': extra,
             'save_formats': fmt, 'sharpness_save_name': 'x', 'sharpness_subdir': sub,
             'overview_save_name': 'y', 'overview_subdir': ''})
        plt.close('all')
        with np.errstate(all='ignore'):
            o.generate_plots()
        shown = [plt.figure(n).axes[0] for n in plt.get_fignums()]
        plt.close('all')
        got = sorted(os.path.join(r, f)[len(d) + 1:] for r, _, fs in os.walk(d) for f in fs)
        tail = '_' + extra if extra else ''
        want = sorted([f'new/s/{sub + "/" if sub else ""}x{tail}.{e}' for e in fmt if sharp] +
                      [f'new/s/y{tail}.{e}' for e in fmt if over])
        c.prove('saved', got == want, f'{got} instead of {want}')
    c.prove('figures', len(shown) == sharp + over)
    c.assume(len(shown) == sharp + over)
    if sharp:
        bars(c, o, shown[0])
    if over:
        points(c, o, shown[-1])


def bars(c, o, ax):
    """percentage of the triads of each kind in every bin of sharpness"""
    R = o._resonance_sharpness_figure_dict
    kinds = [k for k in ('isolated', 'not isolated') if len(R[k])]
    if len(R['all']) < 2:
        return
    c.prove('bars', len(ax.containers) == len(kinds) and ax.get_xscale() == 'log',
            f'{len(ax.containers)} {kinds}')
    for k, B in zip(kinds, ax.containers):
        c.prove('bars', f'({sum(o._count_nr_dict[k])} triads)' in B.get_label() and
                ('Isolated' in B.get_label()) == (k == 'isolated'))
        x, n = np.abs(R[k]), 0
        for b in B.patches:
            lo, hi = b.get_x(), b.get_x() + b.get_width()
            eps = 1e-9 * hi
            sure = np.sum((x > lo + eps) & (x < hi - eps))
            most = np.sum((x > lo - eps) & (x < hi + eps))
            m = b.get_height() * len(x) / 100
            c.prove('bars', sure - 1e-6 <= m <= most + 1e-6 and abs(m - round(m)) < 1e-6,
                    f'{k}: {m} of {sure}..{most} in [{lo}, {hi}]')
            n += m
        c.prove('bars', abs(n - len(x)) < 1e-6, f'{k}: {n} of {len(x)}')


def points(c, o, ax):
    """lowest frequency and both amplitude ratios of every stable triad, in its category"""
    L = o._list_data_dict
    x = np.concatenate([d['min_inertial_freq_stack'] for d in L])
    y = np.concatenate([d['surf_ratio_daughter_parent_OG_SHAPE'] for d in L])
    neg = np.concatenate([d['neg_mask'] for d in L])
    seen = {}
    for s in ax.collections:
        seen.setdefault((s.get_label(), s.get_alpha() < .01), []).append(
            np.asarray(s.get_offsets()))
    for label, masks in (('Stab.', o._mask_list_stable), ('Stab. + AE', o._mask_list_ae_stable),
                         ('Stab. + Val.', o._mask_list_stable_valid)):
        m = np.concatenate(masks)
        for mirrored in (False, True):
            want = np.array([(x[i, q], y[i, q]) for i in range(len(m)) if m[i]
                             for q in range(2) if bool(neg[i, q]) == mirrored and
                             y[i, q] == y[i, q]]).reshape(-1, 2)
            got = np.concatenate(seen.get((label, mirrored), [np.zeros((0, 2))]))
            got = np.ma.filled(got, np.nan)
            got = got[~np.isnan(got).any(axis=1)]
            want, got = (a[np.lexsort(a.T)] for a in (want, got))
            c.prove('points', got.shape == want.shape and np.allclose(got, want, rtol=1e-9),
                    f'{label} {mirrored}: {got} instead of {want}')
    leg = [t.get_text() for t in ax.get_legend().get_texts()]
    c.prove('points', len(leg) == len(set(leg)))


FA, FM = 'aesolver/ae_analyzer/quadratic_stationary_analyzer.py:QuadraticAEStationaryAnalyzer.', \
    'aesolver/ae_analyzer/library_functions/masking.py:'
GA, GM = 'aesolver/aeplotter/quadratic_plotter.py:QuadraticAEPlotter.', \
    'aesolver/aeplotter/library_functions/masking.py:'
COMP = ['_compute_frequency_data', '_compute_threshold_surface_luminosity_variations',
        '_compute_driv_damp_info', '_compute_amp_ratios', '_compute_cc_abs',
        '_compute_freq_shifts']
CONTRACTS = [
    Contract('derived', derived, load=load, modules=MODS, rand=60, functions=[
        a + k for a in (FA, GA) for k in COMP] + [
        FA + k for k in ('_store_nonlinear_frequency_observables',
                         '_compute_dimensionless_validity_estimators')] + [
        GA + '_store_resonance_sharpness_factors']),
    Contract('isolation', isolation, load=load, modules=MODS, rand=60, functions=[
        a + k for a in (FM, GM) for k in (
            '_get_isolation_mask_lowest_thresh_amp', '_get_isolation_mask',
            '_get_lowest_thresh_amp_map_and_unique_values', '_get_lowest_thresh_surfs',
            'compare_second_lowest_thresholds_with_lowest_threshold_equilibrium_amp')] + [
        GM + 'theoretical_plotting_masks_overview', FM + 'get_mask_information_triad_counts'],
             note='per pattern of radial orders (at most three triads), all thresholds and '
                  'amplitudes; larger populations by random runs'),
    Contract('validity', validity, load=load, modules=MODS, rand=60, functions=[
        a + k for a in (FM, GM) for k in ('_get_stability_check_mask',
                                          '_get_ae_validity_check_mask')] + [
        GM + 'isolated_non_isolated_stable_valid_masking']),
    Contract('mirrored-frequency', mirror, load=load, modules=MODS, rand=100, functions=[
        GA + k for k in ('_compute_minimal_inertial_frequencies', '_perform_frequency_mirroring')]),
    Contract('files', many, load=load, modules=MODS, rand=60, sym=False),
    Contract('populations', population, load=load, modules=MODS, rand=150, sym=False, functions=[
        FA + k for k in ('generate_mode_triad_numbers_per_model',
                         'generate_counts_q_quality_factor_1_condition')]),
    Contract('reports', reports, load=load, modules=MODS, rand=60, functions=[
        FA + 'generate_isolated_triad_' + k for k in (
            'mode_properties', 'stab_val_estimators', 'observables')],
             note='up to three triads per model, two models; which triads are stable is '
                  'enumerated, all values but the co-rotating frequencies are symbolic'),
    Contract('figures', figures, load=load, modules=MODS, rand=25, sym=False, functions=[
        GA + 'generate_plots', GA + '_store_generic_save_information',
        GA + '_store_specific_save_info'] + [
        'aesolver/aeplotter/' + k for k in (
            'overview_plot/figure_class.py:OverviewFigure',
            'overview_plot/plot.py:plot_predicted_data_on_target_figure',
            'resonance_sharpness/figure_class.py:ResonanceSharpnessFigure',
            'resonance_sharpness/histogram.py:get_sharpness_histogram_plot_data',
            'resonance_sharpness/plot.py:generate_sharpness_histogram_plot')]),
]
