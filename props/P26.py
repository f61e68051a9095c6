"""Coupling profile runs: where the traditional approximation holds, what the coupling is without
the zones where it does not, and the kernels that make up the coupling."""
import contextlib
import inspect
import io
import itertools
import math
import os
import re
import shutil
import tempfile
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from dv.term import as_sym
from .P08 import patched

PROF = 'aesolver.solver.quadratic_profile'
PKG = 'aesolver/aesolver/solver/'
TEMP = 'aesolver.solver.profile_plot_classes.coupling_coefficient_plots.plot_template'
PRT = 'aesolver.solver.profile_print_functions.'
RAD = 'aesolver.solver.profile_helper_classes.radial_kernels.radial_kernel_helper'
KP = 'aesolver.solver.profile_plot_classes.kernel_plots.'
ANG = 'aesolver.solver.profile_helper_classes.angular_kernels.angular_kernel_helper'


def load():
    r = loader.REPO + '/aesolver/aesolver/'
    loader.stubpkg('aesolver.solver', r + 'solver').QuadRotAESolver = object
    # the interactive prompt's library is not installed here
    loader.stubmod('simple_poller', Poller=object)
    for m in (PROF, TEMP, RAD, ANG, KP + 'angular_kernel_plots', KP + 'radial_kernel_plots', PRT + 'coupling_coefficient_print_functions',
              PRT + 'coupling_coefficient_contributions_print_functions'):
        loader.repo(m)


def root(c, v):
    if c.sym:
        from dv.npshim import scalar
        return scalar('sqrt', as_sym(v))
    return math.sqrt(v)


def mag(c, v):
    if c.sym:
        from dv.npshim import scalar
        return scalar('absolute', as_sym(v))
    return abs(v)


def runs(flags):
    """maximal runs of equal values: (value, first, end)"""
    out, i = [], 0
    while i < len(flags):
        j = i
        while j < len(flags) and flags[j] == flags[i]:
            j += 1
        out.append((flags[i], i, j))
        i = j
    return out


def members(s, n):
    return [] if s is None else list(range(n))[s]


def star(c, n, pattern=None):
    """a triad in a star with n nodes"""
    coriolis = c.real('rotation', lo=0)
    conv = c.real('unit-conversion', pos=True)
    om = [c.real(f'omega{k}', nonzero=True) for k in range(3)]
    N2 = []
    for i in range(n):
        if c.sym:
            N2.append(c.real(f'N2_{i}'))
        else:
            # around the limit, on either side, or a convective node
            lim = 100 * max(4 * coriolis ** 2, max(o * o for o in om) / conv ** 2)
            good = c.rng.random() < .5 if pattern is None else pattern[i]
            v = lim * (1 + c.rng.random() * c.rng.choice([.1, 3.])) if good else \
                c.rng.choice([-lim * c.rng.random(), 0., lim * c.rng.random(), lim * .99])
            N2.append(c.real(f'N2_{i}', rand=lambda r_, v=v: v))
    o = object.__new__(loader.repo(PROF).QuadraticAEProfileSolver)
    fh = types.SimpleNamespace(
        _quality_factors=c.arr([c.real(f'Q{k}', nonzero=True, **({} if c.sym else {
            'rand': lambda r_: r_.choice([-1, 1]) * 10 ** r_.uniform(.95, 5)})) for k in range(3)]),
        surf_rot_angular_freq_rps=coriolis, angular_conv_factor_from_rps=conv,
        _corot_mode_omegas=c.arr(om))
    o._coupler = types.SimpleNamespace(_freq_handler=fh, _brunt_N2_profile=c.arr(N2))
    return o, N2, coriolis, conv, om


def zones(c):
    n = c.choice('nodes', [2, 3] if c.sym else [2, 3, 5, 9, 16])
    pat = None
    if not c.sym and n < 6:
        pat = c.choice('pattern', list(itertools.product([False, True], repeat=n)))
    o, N2, rot, conv, om = star(c, n, pat)
    q = o._coupler._freq_handler._quality_factors
    if c.sym:
        # every node belongs to one of these classes: cover each of them
        slow = c.choice('slow-manifold', [True, False])
        ok = [mag(c, v) > 10 for v in q]
        c.assume(ok[0] & ok[1] & ok[2] if slow else ~(ok[0] & ok[1] & ok[2]))
        valid = []
        for i in range(n):
            k = c.choice(f'node{i}', ['convective', 'valid', 'rotation', 'frequency', 'neither'])
            valid.append(k == 'valid')
            if k == 'convective':
                c.assume(N2[i] < 0)
                continue
            b = root(c, N2[i]) / 10
            r = b > 2 * rot
            f = (conv * b > mag(c, om[0])) & (conv * b > mag(c, om[1])) & (conv * b > mag(c, om[2]))
            c.assume(N2[i] >= 0)
            c.assume(r if k in ('valid', 'frequency') else ~r)
            c.assume(f if k in ('valid', 'rotation') else ~f)
    else:
        slow = all(abs(v) > 10 for v in q)
        valid = [v >= 0 and v ** .5 > 20 * rot and all(conv * v ** .5 > 10 * abs(w) for w in om)
                 for v in N2]
    P = loader.repo(PROF).PhysicsError
    try:
        with np.errstate(invalid='ignore'):
            tv, idx, vz, iz, full = o.get_masking_info_tar_validity()
    except P:
        c.prove('error-only-without-validity', not slow or not any(valid), f'{slow} {valid}')
        return
    c.prove('slow-manifold', slow)
    for i in range(n):
        c.prove('valid-nodes', tv[i] == valid[i], f'{i} {valid}')
    c.prove('fully-invalid', bool(full) == (not any(valid)))
    R = runs(valid)
    if not any(valid):
        c.prove('no-valid-zone', not any(members(s, n) for s in vz))
    else:
        c.prove('valid-zones', [members(s, n) for s in vz] ==
                [list(range(i, j)) for v, i, j in R if v], f'{vz} {valid}')
    want = [(i, j) for v, i, j in R if not v]
    got = [m for m in (members(s, n) for s in iz) if m]
    c.prove('invalid-zones', got == [list(range(i, j)) for i, j in want], f'{iz} {valid}')
    # from the first node without validity up to the next valid node
    idx = [tuple(int(k) for k in t) for t in idx]
    if want:
        c.prove('invalid-indices', idx == [(i, min(j, n - 1)) for i, j in want], f'{idx} {valid}')
    else:
        c.prove('invalid-indices', all(i == j for i, j in idx))


def figures(c, mod, seen):
    import types as t
    ns = t.SimpleNamespace()

    sig = inspect.signature(mod.create_individual_figure_coupling_profile)

    def record(*a, **k):
        k = sig.bind(*a, **k).arguments
        seen.append((k['coupling_ax'], k['y_values'], k['fractional_radius'],
                     k['tar_validity_mask']))
    return patched(mod, get_figure_axes=lambda: ('fig', 'gs', 'all', 'adjusted'),
                   create_individual_figure_coupling_profile=record,
                   get_tight_layout_outer_labels=lambda *a, **k: None)


def adjusted(c):
    """the coupling without the zones where the approximation fails"""
    n = c.choice('nodes', [2, 4] if c.sym else [2, 3, 5, 9])
    pats = list(itertools.product([False, True], repeat=n))
    pat = c.choice('pattern', pats if n < 9 else [tuple((k >> i) & 1 == 1 for i in range(9))
                                                  for k in range(0, 512, 7)])
    ny = c.choice('profiles', [0, 4])
    y = [c.arr([c.real(f'y{j}{i}') for i in range(n)]) for j in range(max(ny, 1))]
    y0 = [list(v) for v in y]
    mod = loader.repo(PROF)
    o = object.__new__(mod.QuadraticAEProfileSolver)
    fh = types.SimpleNamespace(
        _quality_factors=np.array([20., -30., 40.]), surf_rot_angular_freq_rps=1.,
        angular_conv_factor_from_rps=1., _corot_mode_omegas=np.array([1., -2., 1.5]))
    N2 = np.array([1e4 * (1 + .1 * i) if p else [-1., 0., 399.][i % 3] for i, p in enumerate(pat)])
    o._coupler = types.SimpleNamespace(_freq_handler=fh, _brunt_N2_profile=N2)
    with np.errstate(invalid='ignore'):
        tv, idx, vz, iz, full = o.get_masking_info_tar_validity()
    x = np.linspace(.1, 1, n)
    seen = []
    t = loader.repo(TEMP)
    with figures(c, t, seen):
        tot, adj, fig, cont = t.double_masking_integrated_radial_profile_figure_template_function(
            radial_coordinate=x, y_ax_data=list(y) if ny else y[0], y_ax_label=['a', 'b'],
            convection_zone_selection_indices=idx, fully_invalid=full, convection_zone_masks=iz,
            validity_zone_masks=vz, tar_validity_mask=tv, my_brunt=N2)
    c.prove('figure', fig == 'fig' and [s[0] for s in seen] == ['all', 'adjusted'] and
            all(list(s[2]) == list(x) and list(s[3]) == list(tv) for s in seen))
    plotted = [s[1] if ny else [s[1]] for s in seen]
    if not ny:
        tot, adj, cont = [tot], [adj], [cont]
    c.prove('one-result-per-profile', len(tot) == len(adj) == len(cont) == len(y) ==
            len(plotted[0]) == len(plotted[1]))
    Z = runs(pat)
    for j, v in enumerate(y0):
        c.eq('total', tot[j], v[-1])
        parts, out = [], [0.] * n
        before = 0.
        for good, a, b in Z:
            if good:
                for i in range(a, b):
                    out[i] = v[i] - before
            else:
                for i in range(a, b):
                    out[i] = v[a] - before
                d = v[min(b, n - 1)] - v[a]
                parts.append(d)
                before = before + d
        if not any(pat):
            out = [0.] * n
        c.eq('adjusted-total', adj[j], v[-1] - before)
        got = list(cont[j])
        if parts:
            c.prove('one-contribution-per-zone', len(got) == len(parts))
            for p, q in zip(got, parts):
                c.eq('zone-contribution', p, q)
        for i in range(n):
            c.eq('profile', plotted[0][j][i], v[i])
            c.eq('adjusted-profile', plotted[1][j][i], out[i])
            c.eq('frame', y[j][i], v[i])


# ------------------------------------------------------------------ kernels
D, Z1, Z2, ZD, RD = '_rad_diverg', '_z_1', '_z_2_over_c_1_omega', '_rad_der_x_z_2_c_1_omega', \
    '_rad_der_x_z_1'
# functions, constant, stellar profiles; a triple of equal functions has one arrangement
RADIAL = {
    1: [((RD, RD, D), .5), ((Z2, Z2, D), .5), ((Z1, Z1, D), 1.), ((Z2, Z1, D), 1.),
        ((Z1, ZD, D), 1.), ((D, Z2, ZD), -1.)],
    2: [((D, D, D), 1., 'gam'), ((D, D, D), 1., 'der')],
    3: [((RD, Z2, ZD), -1.), ((RD, Z1, ZD), 1.), ((Z1, Z2, ZD), 1.), ((Z2, Z2, ZD), 1.),
        ((Z1, Z1, ZD), 1.), ((Z2, Z2, Z2), -1.), ((Z1, Z2, Z2), -2.), ((Z1, Z2, Z2), 1.),
        ((Z1, Z1, Z2), 1.), ((RD, RD, RD), 2.), ((Z1, Z1, Z1), 4.), ((Z2, Z2, Z2), 2.)],
    4: [((Z1, Z2, Z2), -.5, 'g1'), ((Z1, Z2, Z2), .5, 'g2'), ((Z1, Z1, Z1), 1., 'g3')]}
HR, HT, HP, MH, DR, DT, DP, PP, TP = 'hr', 'ht', 'hp', 'mhr', 'theta_der_hr_theta', \
    'theta_der_ht_theta', 'theta_der_hp_theta', 'phi_phi', 'theta_phi'
# functions, constant, whether divided by the sine of the colatitude
ANGULAR = {
    1: [((HR, HR, HR), 1, 0), ((DT, DT, HR), 1, 0), ((PP, PP, HR), 1, 0), ((TP, DP, HR), -2, 1),
        ((DT, HR, HR), 1, 0), ((PP, HR, HR), 1, 0), ((DR, HT, HR), 1, 0), ((MH, HP, HR), -1, 1),
        ((HR, HT, HT), 1, 0), ((HR, HP, HP), -1, 0)],
    2: [((HR, HR, HR), 1, 0)],
    3: [((HR, HT, HT), 1, 0), ((HR, HP, HP), -1, 0), ((DR, HR, HT), 1, 0), ((MH, HR, HP), -1, 1),
        ((DR, DT, HT), 1, 0), ((MH, PP, HP), 1, 1), ((MH, DP, HT), 1, 1), ((DR, TP, HP), 1, 1),
        ((HT, DT, HT), 1, 0), ((HP, PP, HP), 1, 0), ((HP, DP, HT), 1, 0), ((TP, HT, HP), 1, 1),
        ((DR, HR, HT), 1, 0), ((MH, HR, HP), -1, 1), ((DT, TP, DP), 1, 1), ((DP, TP, PP), 1, 1),
        ((HR, TP, DP), -1, 1), ((HR, PP, PP), 1, 0), ((HR, DT, DT), 1, 0), ((HR, HR, DT), 1, 0),
        ((HR, HR, PP), 1, 0), ((HR, HR, HR), 1, 0), ((PP, PP, PP), 1, 0), ((DT, DT, DT), 1, 0)],
    4: [((HR, HT, HT), 1, 0), ((HR, HP, HP), -1, 0), ((HR, HR, HR), 1, 0)]}
RLAB = {Z1: 'z_1', D: 'H', RD: r'\dfrac{\partial(r\,z_1)}{\partial r}',
        Z2: r'\dfrac{z_2}{c_1\,\bar{\omega}^2}',
        ZD: r'\dfrac{\partial}{\partial r}\,(r\,\dfrac{z_2}{c_1\,\bar{\omega}^2})'}
ALAB = {HR: 'H_r', HT: r'H_\theta', HP: r'H_\phi', MH: r'm\,H_r', DR: r'\partial\,H_r',
        DT: r'\partial\,H_\theta', DP: r'\partial\,H_\phi', PP: r'H_\phi^\phi',
        TP: r'H_\phi^\theta'}


def arrangements(t):
    return sorted(set(itertools.permutations(t)))


def rows_of(c, v, want, n, tag, label):
    """one curve per distinct assignment of the functions to the modes, each with its legend"""
    k = np.asarray(v['kernel'])
    k = k[None, :] if k.ndim == 1 else k
    c.prove(f'{tag}-curves', k.shape == (len(want), n), f'{k.shape} {len(want)}')
    if k.shape != (len(want), n):
        return
    left = dict(want)
    for i in range(len(want)):
        t = label(v, i)
        if t not in left:
            c.fail(f'{tag}-legend', f'{t} {list(left)}')
            return
        val = left.pop(t)
        for j in range(n):
            c.eq(f'{tag}-kernel', k[i, j], val[j])


def radial(c):
    n = 2 if c.sym else c.choice('nodes', [2, 5])
    arr = lambda s, **k: c.arr([c.real(f'{s}{i}', **k) for i in range(n)])
    w = types.SimpleNamespace(
        _energy_mode_1=c.real('energy', pos=True), _R_star=c.real('R', pos=True),
        _Gamma_1=arr('Gamma_1'), _rho=arr('rho'), _gamma_1_adDer_profile=arr('gad'), _P=arr('P'),
        _dgravpot=arr('g1'), _dgravpot2=arr('g2'), _dgravpot3=arr('g3'), _x=arr('x', pos=True),
        _nr_modes=3)
    f = {}
    for t in (D, Z1, Z2, ZD, RD):
        for m in (1, 2, 3):
            f[t, m] = arr(f'{t}{m}')
            setattr(w, f'{t}_mode_{m}', f[t, m])
    nr = c.choice('contribution', [1, 2, 3, 4])
    with np.errstate(all='ignore'), np.testing.suppress_warnings() as sw:
        sw.filter(np.exceptions.ComplexWarning)
        out = loader.repo(RAD).RadialKernelData(w)(nr)
    r = [w._x[i] * w._R_star for i in range(n)]
    se = {None: lambda i: w._P[i], 'g1': lambda i: w._rho[i] * r[i] * w._dgravpot[i],
          'gam': lambda i: w._P[i] * (w._Gamma_1[i] - 1) ** 2,
          'der': lambda i: w._P[i] * w._rho[i] * w._gamma_1_adDer_profile[i],
          'g2': lambda i: w._rho[i] * r[i] ** 2 * w._dgravpot2[i],
          'g3': lambda i: w._rho[i] * r[i] ** 3 * w._dgravpot3[i]}
    if nr == 1:
        se[None] = lambda i: w._P[i] * (w._Gamma_1[i] - 1)
    title = {None: 'P', 'gam': r'P\,(\Gamma_1 - 1)^2',
             'der': r'P\,\left(\dfrac{\partial \Gamma_1}{\partial \ln \rho}\right)_S',
             'g1': r'\rho\,r\,\dfrac{\partial \Phi}{\partial r}',
             'g2': r'\rho\,r^2\,\dfrac{\partial^2 \Phi}{\partial r^2}',
             'g3': r'\rho\,r^3\,\dfrac{\partial^3 \Phi}{\partial r^3}'}
    if nr == 1:
        title[None] = r'P\,(\Gamma_1 - 1)'
    c.prove('one-panel-per-term', len(out) == len(RADIAL[nr]))
    for v, (t, k, *s) in zip(out.values(), RADIAL[nr]):
        s = s[0] if s else None
        want = {}
        for a in arrangements(t):
            want[a] = [k * f[a[0], 1][i] * f[a[1], 2][i] * f[a[2], 3][i] * se[s](i) * r[i] ** 3 /
                       w._energy_mode_1 for i in range(n)]
        c.prove('title', v['legend_title'] == f'${title[s]}$', v['legend_title'])
        rows_of(c, v, want, n, 'radial', lambda v, i, t=t: arranged(v, i, RLAB, v['legend'], t))


def arranged(v, i, lab, legend, t):
    """the assignment a legend entry stands for"""
    if len(set(t)) == 1:        # one entry that names the modes
        return tuple(t)
    e = legend[i]
    for a in arrangements(t):
        core = ', '.join(lab[x] for x in a)
        if core in e and all(core not in o for j, o in enumerate(legend) if j != i):
            return a
    return e


def angular(c):
    n = 2 if c.sym else c.choice('nodes', [2, 5])
    arr = lambda s, **k: c.arr([c.real(f'{s}{i}', **k) for i in range(n)])
    mu = arr('mu', lo=-.999, hi=.999)
    w = types.SimpleNamespace(_mu_values=mu, _nr_modes=3)
    f = {}
    for t in ALAB:
        for m in (1, 2, 3):
            f[t, m] = arr(f'{t}{m}')
            setattr(w, f'_{t}_mode_{m}', f[t, m])
    nr = c.choice('contribution', [1, 2, 3, 4])
    with np.testing.suppress_warnings() as sw:
        sw.filter(np.exceptions.ComplexWarning)
        out = loader.repo(ANG).AngularKernelData(w)(nr)
    c.prove('one-panel-per-term', len(out) == len(ANGULAR[nr]))
    sine = [root(c, 1 - mu[i] ** 2) for i in range(n)]
    for v, (t, k, div) in zip(out.values(), ANGULAR[nr]):
        want = {a: [k * f[a[0], 1][i] * f[a[1], 2][i] * f[a[2], 3][i] / (sine[i] if div else 1)
                    for i in range(n)] for a in arrangements(t)}
        c.prove('legend-sine', all((r'\sqrt{1 - \mu^2}' in e) == bool(div)
                                   for e in v['legend_string']), str(v['legend_string'][:1]))
        c.prove('legend-constant', all(
            ('-2.0' in e) == (k == -2) and (r'-\,' in e) == (k == -1) and r'\mu\,' not in e
            for e in v['legend_string']), str(v['legend_string'][:1]))
        rows_of(c, v, want, n, 'angular',
                lambda v, i, t=t: arranged(v, i, ALAB, v['legend_string'], t))


# ------------------------------------------------------------ the whole run
NUM = r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)'


def numbers(s):
    return [float(v) for v in re.findall(NUM, re.sub(r'np\.float64\(|\)', ' ', s))]


def said(c, out, key, want):
    """the line about key reports exactly these numbers, in this order"""
    ls = [l for l in out.splitlines() if key in l]
    c.prove('reported-once', len(ls) == 1, f'{key}: {len(ls)}')
    if len(ls) != 1:
        return
    got = numbers(ls[0].split(key, 1)[1].split('These contributions')[0])
    c.prove('reported-numbers', len(got) == len(want), f'{key}: {ls[0][:200]}')
    for g, v in zip(got, want):
        c.eq(f'reported {key[:30]}', g, v, tol=1e-6)


class Axis:
    def __init__(self):
        self.lines = []

    def plot(self, x, y, *a, **k):
        self.lines.append((np.array(x), np.array(y), k.get('label')))


def whole(c):
    """one profile run: everything shown belongs to the triad, and is adjusted consistently"""
    mod = loader.repo(PROF)
    pp = loader.repo(PRT + 'coupling_coefficient_print_functions')
    t = loader.repo(TEMP)
    k = loader.repo(KP + 'angular_kernel_plots'), loader.repo(KP + 'radial_kernel_plots')
    n, nm = c.choice('nodes', [4, 7]), 3
    terms, kern = c.choice('terms', [True, False]), c.choice('kernels', [True, False])
    pats = [(0, 0, 1, 1), (0, 1, 1, 0), (1, 1, 0, 0), (0, 1, 0, 1), (1, 0, 0, 1)] if n == 4 else \
        [(0, 0, 1, 1, 0, 1, 1), (0, 1, 0, 1, 0, 1, 0), (1, 0, 1, 1, 0, 0, 1), (1, 1, 0, 1, 0, 0, 0)]
    pat = c.choice('valid', pats)
    two = c.choice('daughters', ['equal', 'n', 'l', 'm'])
    rng = c.rng
    N2 = np.array([1e4 * (1 + .1 * i) if p else [-1., 0., 399.][i % 3] for i, p in enumerate(pat)])
    prof = [np.array([c.real(f'cc{j}{i}') for i in range(n)]) for j in range(4)]
    total = sum(prof)
    fh = types.SimpleNamespace(
        _quality_factors=np.array([20., -30., 40.]), surf_rot_angular_freq_rps=1.,
        angular_conv_factor_from_rps=1., _corot_mode_omegas=np.array([1., -2., 1.5]),
        driving_rates='rates', corot_mode_omegas='omegas', q_factor='q')
    w = types.SimpleNamespace(_freq_handler=fh, _brunt_N2_profile=N2, _x=np.linspace(.1, 1, n),
                              _mu_values=np.linspace(-.9, .9, nm), _nr_modes=3, _R_star=2.,
                              _energy_mode_1=3.)
    for a in ('_Gamma_1', '_rho', '_gamma_1_adDer_profile', '_P', '_dgravpot', '_dgravpot2',
              '_dgravpot3'):
        setattr(w, a, rng.random(n) if hasattr(rng, 'standard_normal') else
                np.array([rng.random() for _ in range(n)]))
    for m in (1, 2, 3):
        for f in (D, Z1, Z2, ZD, RD):
            setattr(w, f'{f}_mode_{m}', np.array([rng.random() for _ in range(n)]))
        for f in ALAB:
            setattr(w, f'_{f}_mode_{m}', np.array([rng.random() for _ in range(nm)]))
    w.normed_coupling_coefficient_profile = w.normed_contributions_coupling_coefficient_profile = \
        None
    steps = []

    def profile(*a, **kw):
        steps.append('profile')
        w.normed_coupling_coefficient_profile = np.array(total)
        w.normed_contributions_coupling_coefficient_profile = tuple(np.array(p) for p in prof)
    w.adiabatic_coupling_rot_profile = profile
    o = object.__new__(mod.QuadraticAEProfileSolver)
    o._coupler, o._freq_handler = None, None

    def triad(*a, **kw):
        steps.append('triad')
        o._coupler, o._freq_handler, o._hyperbolicity_info = w, fh, [True]
        return True
    o.compute_coupling_one_triad = triad
    d = {'l': 2, 'm': 1, 'n_pg': -7}
    e = dict(d)
    if two != 'equal':
        e['n_pg' if two == 'n' else two] += 1
    d.update(n_p=2, n_g=9)
    e.update(n_p=1, n_g=1 - e['n_pg'])
    o._gyre_ad = [{'l': 2, 'm': 1, 'n_pg': -7, 'n_p': 0, 'n_g': 7}, d, e]
    o._save_name, o._rad_tup_profile, o._rot_pct = 'tag', (-20, -30, -41), 35
    o._cc_profile_selection_dict = {'parent_n': -20, 'daughter_1_n': -30, 'daughter_2_n': -41,
                                    'mode_l': [2, 2, 2], 'mode_m': [-2, 0, 2]}
    o._info_dict_info_dirs = {'mesa_profile_substrings': ['Z4', 'X5', 'last']}
    o._view_term_by_term, o._view_kernels, o._display_progress_bars = terms, kern, False
    o._coupling_profile = None
    amps, flux = [np.array([c.real(f'{s}{i}', pos=True) for i in range(3)]) for s in 'af']
    crit = c.real('critical', pos=True)
    seen, jac, figs, saved, kinds = [], [], [], [], []

    class Stationary:
        @loader.as_called(mod.ThreeModeStationary.__init__)
        def __init__(self, **kw):
            self.kw = kw

        def __call__(self):
            steps.append('stationary')
            if not (self.kw['precheck_satisfied'] is True and self.kw['hyperbolic'] is True and
                    self.kw['freq_handler'] is fh and self.kw['solver_object'] is o):
                c.fail('stationary-arguments', str(self.kw))
            return {'equilibrium amplitudes': amps.copy(), 'surface flux variations': flux.copy(),
                    'critical parent amplitude': crit}

    def jacobian(kind):
        def f(rates, om, q, eta):
            jac.append((kind, rates, om, q, eta))
            return 'J'
        return f

    @loader.as_called(t.single_integrated_radial_profile_figure_template_function)
    def shown(fractional_radius, y_values, **kw):
        figs.append((list(fractional_radius), list(y_values)))
        return 'single'

    def axes(kind):
        @loader.as_called(getattr(k[kind == 'radial'], f'_{kind}_kernel_fig'))
        def f(ylabel_number, nr_plot_cols=1, cc_contribution_data=None, tar_valid=None, **kw):
            ax = [Axis() for _ in range(nr_plot_cols)]
            kinds.append((kind, ylabel_number, ax, None if tar_valid is None else
                          [bool(v) for v in tar_valid]))
            return {'fig': (kind, ylabel_number), 'ax': ax, 'gs': None}
        return f

    @loader.as_called(mod.save_fig)
    def stored(figure_base_name, fig, model_name_part, **kw):
        saved.append((figure_base_name, fig, model_name_part))
    buf, cwd = io.StringIO(), os.getcwd()
    tmp = tempfile.mkdtemp(prefix='p26_')
    ended = False
    quiet = dict(add_individual_figure_legend_and_title=lambda *a, **q: None,
                 add_figure_legend_update_layout_and_save=lambda *a, **q: None)
    try:
        os.chdir(tmp)
        with figures(c, t, seen), patched(
                mod, ThreeModeStationary=Stationary, save_fig=stored,
                single_integrated_radial_profile_figure_template_function=shown,
                plt=types.SimpleNamespace(show=lambda *a: steps.append('show'),
                                          style=types.SimpleNamespace(context=contextlib.nullcontext))), \
                patched(pp, hyper_jac=jacobian('four'), hyper_jac_three=jacobian('three'),
                        check_hyper=lambda my_jac: 'verdict' if my_jac == 'J' else 'wrong'), \
                patched(k[0], _angular_kernel_fig=axes('angular'), **quiet), \
                patched(k[1], _radial_kernel_fig=axes('radial'), **quiet), \
                np.testing.suppress_warnings() as sw, contextlib.redirect_stdout(buf), \
                np.errstate(all='ignore'):
            sw.filter(np.exceptions.ComplexWarning)
            sw.filter(DeprecationWarning)
            try:
                o()
            except SystemExit as x:
                ended = not x.code
        made = sorted(os.path.relpath(os.path.join(a, x), tmp) for a, ds, _ in os.walk(tmp)
                      for x in ds)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)
    out = buf.getvalue()
    c.prove('finishes', ended or steps[-1] == 'show', str(steps))
    c.prove('steps', steps == ['triad', 'profile', 'stationary', 'show'], str(steps))
    c.prove('own-folder', 'figure_output/profiles_isolated_mode_triads/Z4/X5/rot_35' in made,
            str(made))
    name = '_tag_n-20_-30_-41_l2_2_2_m-2_0_2'
    c.prove('figures', [x[:2] for x in saved] == [('cc_profile_single', 'single'),
            ('cc_profile', 'fig')] + [('cc_contributions_profile', 'fig')] * terms and
            all(x[2] == name for x in saved), str(saved))
    ys = [total] + (prof if terms else [])
    res = [reference(y, pat) for y in ys]
    ratio = res[0][0] / total[-1]
    c.prove('profile-figure', len(figs) == 1 and np.allclose(figs[0], [w._x, total]))
    c.prove('masked-figures', len(seen) == 2 + 2 * terms)
    if len(seen) == 2 + 2 * terms:
        for q, (ax, y, x, tv) in enumerate(seen):
            want = [total] if q < 2 else prof
            y = y if isinstance(y, list) else [y]
            c.prove('masked-figure-frame', list(map(bool, tv)) == list(map(bool, pat)) and
                    np.allclose(x, w._x) and len(y) == len(want))
            for g, v, r in zip(y, want, res[:1] if q < 2 else res[1:]):
                for i in range(n):
                    c.eq('masked-figure', g[i], (r[1] if q % 2 else v)[i], tol=1e-6)
    said(c, out, 'Normed coupling coefficient eta:', [total[-1], res[0][0]])
    said(c, out, 'Stationary amplitudes (ppm)', [*(amps * 1e6), *(amps * 1e6 / ratio)])
    said(c, out, 'threshold amplitude for parametric resonance (ppm)',
         [crit * 1e6, crit * 1e6 / ratio])
    said(c, out, 'Surface luminosity fluctuations (ppm)', [*(flux * 1e6), *(flux * 1e6 / ratio)])
    th = crit * flux[0] / amps[0] * 1e6
    said(c, out, 'threshold luminosity fluctuation for parametric resonance (ppm)',
         [th, th / ratio])
    said(c, out, 'Contributions to the normed coupling coefficient due to', res[0][2])
    c.prove('hyperbolicity', len(jac) == 1 and jac[0][:4] == (
        'three' if two == 'equal' else 'four', 'rates', 'omegas', 'q') and
        'Hyperbolicity check: True, after adjustment for TAR validity: verdict' in out, str(jac))
    if len(jac) == 1:
        c.eq('hyperbolicity-eta', jac[0][4], res[0][0])
    if terms:
        for q, word in enumerate(('First', 'Second', 'Third', 'Fourth')):
            said(c, out, f'{word} normed coupling coefficient (eta) contribution:',
                 [prof[q][-1], res[q + 1][0]])
            said(c, out, f'Contributions to the {word.lower()} normed coupling coefficient (eta) '
                 'contribution due to', res[q + 1][2])
    want = {('angular', q): 0 for q in (1, 2, 3, 4)} | {('radial', q): 0 for q in (1, 2, 3, 4)}
    c.prove('kernel-figures', {x[:2] for x in kinds} == (set(want) if kern else set()))
    for kind, table, cls, grid in (('angular', ANGULAR, loader.repo(ANG).AngularKernelData,
                                    w._mu_values),
                                   ('radial', RADIAL, loader.repo(RAD).RadialKernelData, w._x)):
        for q in (1, 2, 3, 4) if kern else ():
            panels = [a for x in kinds if x[:2] == (kind, q) for a in x[2]]
            with np.testing.suppress_warnings() as sw:
                sw.filter(np.exceptions.ComplexWarning)
                data = cls(w)(q)
            ls = [(i, l) for i, a in enumerate(panels) for l in a.lines]
            c.prove('panels', [i for i, _ in ls] == ([0] * len(data) if q == 2 else
                                                     list(range(len(data)))), f'{kind} {q}')
            if kind == 'radial':
                c.prove('valid-domain', all(x[3] == list(map(bool, pat)) for x in kinds
                                            if x[:2] == (kind, q)))
            for (_, (x, y, lab)), v in zip(ls, data.values()):
                y = y if y.ndim > 1 else y[:, None]
                x = x if x.ndim > 1 else x[:, None]
                ker = np.atleast_2d(v['kernel'])
                c.prove('panel-curves', x.shape == y.shape == ker.T.shape and
                        np.allclose(x, grid[:, None] * np.ones(y.shape)) and
                        np.allclose(y, ker.T), f'{kind} {q}')
                leg = v['legend_string' if kind == 'angular' else 'legend']
                lab = lab if isinstance(lab, list) else [lab]
                c.prove('panel-legend', len(lab) == len(leg) == ker.shape[0], f'{kind} {q} {lab}')


def reference(v, pat):
    """adjusted total, adjusted profile, contribution of each zone without validity"""
    n, before, parts, out = len(v), 0., [], np.zeros(len(v))
    for good, a, b in runs([bool(p) for p in pat]):
        if good:
            out[a:b] = v[a:b] - before
        else:
            out[a:b] = v[a] - before
            parts.append(v[min(b, n - 1)] - v[a])
            before += parts[-1]
    return v[-1] - before, out, parts


def construct(c):
    """what the run is asked for reaches it"""
    mod = loader.repo(PROF)
    base = loader.repo(mod.QuadraticAESolver.__module__).QuadraticAESolver
    own = {'cc_profile_selection_dict', 'save_name', 'view_term_by_term', 'view_kernels'}
    par = list(inspect.signature(base.__init__).parameters)[1:]
    mine = list(inspect.signature(mod.QuadraticAEProfileSolver.__init__).parameters)[1:]
    sel = {'parent_n': -20, 'daughter_1_n': -30, 'daughter_2_n': -41, 'mode_l': [2, 1, 3],
           'mode_m': [-2, 0, 2]}
    given = {k: ('given', k) for k in mine if k not in own}
    tv, vk = c.choice('terms', [True, False]), c.choice('kernels', [True, False])
    got = {}

    def init(self, *a, **k):
        got.update(zip(par, a))
        got.update(k)
    with patched(base, __init__=init):
        o = mod.QuadraticAEProfileSolver(**given, cc_profile_selection_dict=sel, save_name='tag',
                                         view_term_by_term=tv, view_kernels=vk)
    for k, v in given.items():
        c.prove('passed-on', got.get(k) == v, k)
    c.prove('own-options', o._save_name == 'tag' and o._view_term_by_term is tv and
            o._view_kernels is vk and o._cc_profile_selection_dict == sel)
    o._info_dict_info_dirs = {'base_dir': 'B', 'mesa_suffix': 'S'}
    kw = o._generate_loading_kwargs()
    c.prove('selection', kw == {'base_dir': 'B', 'mesa_suffix': 'S', 'infer_dir': False,
                                'search_l': [2, 1, 3], 'search_m': [-2, 0, 2],
                                'search_n': (-20, -30, -41)}, str(kw))
    c.prove('room-for-one-triad', all(len(getattr(o, a)) == 1 for a in (
        '_coupling_info', '_coupling_stat_info', '_stat_sol_info', '_mode_freq_info',
        '_hyperbolicity_info')))


CONTRACTS = [
    Contract('validity-zones', zones, modules=[PROF], load=load, rand=120, functions=[
        PKG + 'quadratic_profile.py:QuadraticAEProfileSolver.get_masking_info_tar_validity']),
    Contract('adjusted-profile', adjusted, modules=[PROF, TEMP], load=load, rand=60, functions=[
        PKG + 'quadratic_profile.py:QuadraticAEProfileSolver.get_masking_info_tar_validity',
        PKG + 'profile_plot_classes/coupling_coefficient_plots/plot_template.py:'
        'double_masking_integrated_radial_profile_figure_template_function',
        PKG + 'profile_plot_classes/coupling_coefficient_plots/plot_template.py:'
        'get_contribution_due_to_convective_zone']),
    Contract('radial-kernels', radial, modules=[RAD], load=load, rand=40, functions=[
        PKG + 'profile_helper_classes/radial_kernels/radial_kernel_helper.py:RadialKernelData.' + k
        for k in ('__init__', '__call__', '_load_stellar_evolution_model_profiles',
                  '_load_derived_profiles', '_get_symmetrized_radial_kernel_terms',
                  '_symmetry_mapping', '_kernel_term_constructor', '_load_radial_kernel_term')] + [
        PKG + 'profile_helper_classes/radial_kernels/radial_kernel_labeler.py:'
        'generate_plot_labels']),
    Contract('angular-kernels', angular, modules=[ANG], load=load, rand=40, functions=[
        PKG + 'profile_helper_classes/angular_kernels/angular_kernel_helper.py:AngularKernelData.' +
        k for k in ('__init__', '__call__', '_load_mode_independent_angular_profiles',
                    '_get_symmetrized_angular_kernel_terms', '_symmetry_mapping',
                    '_kernel_term_constructor', '_scale_angular_terms',
                    '_load_angular_kernel_term')] + [
        PKG + 'profile_helper_classes/angular_kernels/angular_kernel_labeler.py:'
        'generate_angular_plot_labels']),
    Contract('profile-run', whole, modules=[PROF, TEMP, RAD, ANG], load=load, rand=160, sym=False,
             functions=[PKG + f for f in (
                 'quadratic_profile.py:QuadraticAEProfileSolver.__call__',
                 'quadratic_profile.py:QuadraticAEProfileSolver.compute_mode_triad_profile',
                 'quadratic_profile.py:QuadraticAEProfileSolver.compute_coupling_coefficient_profile',
                 'profile_print_functions/coupling_coefficient_print_functions.py:*',
                 'profile_print_functions/coupling_coefficient_contributions_print_functions.py:*',
                 'profile_plot_classes/setup_for_plotting.py:*',
                 'profile_plot_classes/kernel_plots/angular_kernel_plots.py:*',
                 'profile_plot_classes/kernel_plots/radial_kernel_plots.py:*')]),
    Contract('options', construct, modules=[PROF], load=load, rand=4, sym=False, functions=[
        PKG + 'quadratic_profile.py:QuadraticAEProfileSolver.__init__',
        PKG + 'quadratic_profile.py:QuadraticAEProfileSolver._generate_loading_kwargs']),
]
