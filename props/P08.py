"""The results file: every row holds the quantities of its own triad."""
import contextlib
import functools
import inspect
import os
import pathlib
import shutil
import tempfile
import types

import numpy as np
from dv import loader, stubs
from dv.runner import Contract
from dv.term import SymC
from . import _freq as fq

BASE = 'aesolver.solver.solver_base_classes.quadratic_solver'
GRID = 'aesolver.solver.quadratic_grid'
BFILE = 'aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py'
GFILE = 'aesolver/aesolver/solver/quadratic_grid.py'
ONE = 'aesolver.solver.quadratic_solver'
OFILE = 'aesolver/aesolver/solver/quadratic_solver.py'
DH = 'aesolver.data_handling.'
UFILE = 'aesolver/aesolver/data_handling/'
LOADER = 'aesolver.model_handling.load_models'


def load():
    r = loader.REPO + '/aesolver/aesolver/'
    loader.stubpkg('aesolver.solver', r + 'solver').QuadRotAESolver = object
    loader.stubpkg('aesolver.data_handling', r + 'data_handling')
    for m in (GRID, BASE, DH + 'storer', DH + 'unpacker', DH + 'data_specific.hdf5_saver',
              'aesolver.stationary_solving.three_mode.three_mode_stationary', 'carr_conv.carr_conv',
              LOADER,
              *fq.mods()):
        loader.repo(m)


@contextlib.contextmanager
def patched(mod, **kw):
    old = {k: getattr(mod, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(mod, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


# ------------------------------------------------------------ collaborators
POLYK = ['poly_base_dir', 'poly_struct_dir', 'poly_struct_substrings', 'poly_struct_suffix',
         'poly_mode_base_dir', 'poly_mode_dir', 'poly_mode_substrings', 'poly_summary_substring']


GYREK = ['base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix',
         'gyre_detail_substring', 'gyre_summary_substring']


class Tagged(np.ndarray):
    def __new__(cls, a, *tag):
        r = np.asarray(a).view(cls)
        r.tag = tag
        return r


class World:
    """per-triad data and the collaborators of the solver that serve them"""

    def __init__(self, c, scen, combos, lm, poly, signs):
        self.c, self.poly = c, poly
        self.combos = [tuple(x) for x in combos]
        self.bad = []
        self.triads = []
        for t, ns in enumerate(self.combos):
            T = types.SimpleNamespace(idx=t, ns=ns)
            T.ad, T.nad = [], []
            for i, (l, m) in enumerate(lm):
                d = {'G': 1., 'M_star': 1., 'R_star': 1., 'l': l, 'm': m, 'n_pg': -ns[i],
                     'n_p': i, 'n_g': ns[i] + i, 'freq_units': b'HZ', 'freq_frame': b'INERTIAL' if i else b'COROT_O',
                     'Omega_rot_dim': c.arr([c.real('rot', lo=0)] * 2), 'tag': (t, i)}
                w = c.real(f'w{t}{i}', pos=True)
                g = c.real(f'g{t}{i}', pos=True) * signs[t][i]
                nw = c.real(f'nw{t}{i}', pos=True)
                x = [c.real(f'x{t}{i}', pos=True) for _ in range(1)]
                d['x'] = c.arr([c.real('x0', pos=True), c.real('x9', pos=True), x[0]])
                d['c_rad'] = c.arr([c.real('cr0'), c.real('cr2'), c.real('cr1')])
                cplx = (lambda a, b: SymC(a, b)) if c.sym else complex
                ad = dict(d, freq=c.arr([cplx(w, 0.)]))
                ad['xi_r'] = stubs.struct(c, [c.real('u'), c.real('u1'), c.real(f'xr{t}{i}')],
                                          [c.real('u'), c.real('u2'), c.real(f'xi{t}{i}')])
                nad = dict(d, freq=c.arr([cplx(nw, g)]))
                nad['lag_L'] = stubs.struct(c, [c.real('u'), c.real('u1'), c.real(f'lr{t}{i}')],
                                            [c.real('u'), c.real('u2'), c.real(f'li{t}{i}')])
                nad['xi_r'] = stubs.struct(c, [0., c.real('u3'), c.real(f'nxr{t}{i}')], [0., c.real('u3'), c.real('v')])
                ad['lag_L'] = stubs.struct(c, [0., c.real('u3'), c.real('v2')], [0., c.real('u3'), c.real('v3')])
                ad['kind'], nad['kind'] = 'ad', 'nad'
                T.ad.append(ad)
                T.nad.append(nad)
            T.cc, T.ncc, T.eta = (c.real(f'{n}{t}', nonzero=True) for n in ('cc', 'ncc', 'eta'))
            T.norm = c.arr([c.real(f'norm{t}{i}') for i in range(3)])
            T.terms = c.arr([c.real(f'term{t}{i}') for i in range(4)])
            T.hyp = bool((scen // 3 + t) % 2) or poly
            T.tk = [c.real(f'tk{t}{i}') for i in range(3)]
            T.ek = [c.real(f'ek{t}{i}') for i in range(3)]
            T.coupler = None
            T.mesa = [('mesa', t)]
            self.triads.append(T)

    def require(self, cond, what):
        if not cond:
            self.bad.append(what)

    def triad(self, search_n):
        return self.triads[self.combos.index(tuple(search_n))]

    # -- stand-ins
    def info(w):
        class InfoDirHandler:
            def __init__(self, *a, **k):
                pass

            def parse_info_directories(self):
                pass

            full_info = {k: k + '!' for k in POLYK + GYREK + ['gyre_base_dir', 'gyre_output_dir']}
        return InfoDirHandler

    def loader(w):
        real, as_called = loader.repo(LOADER).ModelLoader, loader.as_called

        class ModelLoader:
            @as_called(real.__init__)
            def __init__(self, **k):
                self.k = k

            @as_called(real.read_data_files)
            def read_data_files(self, **k):
                T = w.triad(self.k['search_n'])
                w.require(list(self.k['search_l']) == [2, 1, 1], 'search_l')
                w.require(list(self.k['search_m']) == w.ms, 'search_m')
                if k.get('polytrope_oscillation'):
                    for a, b in (('polytrope_model_output_dir', 'poly_struct_dir'),
                                 ('polytrope_oscillation_output_dir', 'poly_mode_dir'),
                                 ('polytrope_model_suffix', 'poly_struct_suffix'),
                                 ('polytrope_model_substrings', 'poly_struct_substrings'),
                                 ('polytrope_oscillation_substrings', 'poly_mode_substrings')):
                        w.require(self.k.get(a) == b + '!', a)
                    w.require(self.k.get('use_polytrope_data') is True, 'use_polytrope_data')
                    for a, v in (('polytrope_mass', 2.5 * 1.988409870698051e33),
                                 ('polytrope_radius', 3.5 * 6.957e10)):     # [g], [cm]
                        w.require(abs(k[a] / v - 1) < 1e-9, a)
                    self.polytrope_oscillation_models = T.ad
                    self.polytrope_model = T.mesa
                    return
                d = self.k['gyre_output_dir']
                w.require(self.k.get('infer_dir') is False, 'infer_dir')
                for a in GYREK:
                    w.require(self.k.get(a) == a + '!', a)
                w.require(not self.k.get('use_polytrope_data'), 'use_polytrope_data')
                w.require(d in ('/d/output_rot_20/', '/d/output_nad_rot_20/'), 'directory ' + d)
                self.gyre_details = T.nad if 'nad' in d else T.ad
                if k.get('mesa_profile'):
                    self.mesa_profile = T.mesa
        return ModelLoader

    def qccr(w):
        class QCCR:
            @loader.as_called(loader.repo(
                'aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating'
            ).QuadraticCouplingCoefficientRotating.__init__)
            def __init__(self, first_dict, second_dict, third_dict, **k):
                modes = first_dict, second_dict, third_dict
                T = w.triads[modes[0]['tag'][0]]
                exp = T.ad if (w.adiabatic or w.poly) else T.nad
                w.require(all(a is b for a, b in zip(modes, exp)) and len(modes) == 3, 'modes')
                w.require(k['additional_profile_information'] is T.mesa[0], 'structure model')
                w.require(list(k['l_list']) == [2, 1, 1] and list(k['m_list']) == w.ms, 'lists')
                w.require(k['polytropic'] is w.poly, 'polytropic')
                w.require(k['use_complex'] is (w.use_complex and not w.adiabatic and not w.poly),
                          'use_complex')
                for a, b in w.options.items():
                    if a in k:
                        w.require(k[a] == b, 'option ' + a)
                    else:
                        w.require(a == 'analytic_polytrope' and not w.poly, 'option ' + a)
                w.require(k['freq_handler']._mode_dicts[0]['tag'][0] == T.idx, 'frequencies')
                self.T = T
                T.coupler = self
                mu = np.linspace(-1, 1, 5)
                self._mu_values = mu
                for i in range(3):
                    for s in ('_hr_mode_', '_theta_der_hr_mode_', '_theta_der2_hr_mode_'):
                        setattr(self, f'{s}{i+1}', Tagged(np.cos(mu + i), s, T.idx, i))
                    setattr(self, f'_m_mode_{i+1}', w.ms[i])
                self.done = False

            def adiabatic_coupling_rot(self):
                self.done = True

            def _get(self, x):
                w.require(self.done, 'coupling read before it is computed')
                return x

            coupling_coefficient = property(lambda s: s._get(s.T.cc))
            normed_coupling_coefficient = property(lambda s: s._get(s.T.ncc))
            eta_lee_coupling_coefficient = property(lambda s: s._get(s.T.eta))
            normalization_factors = property(lambda s: s._get(s.T.norm))
            coupling_terms_quadratic = property(lambda s: s._get(s.T.terms))
        return QCCR

    def di(w):
        def get_integrals(mus, a, b, b2, ld, method, n, par):
            t, i = a.tag[1], a.tag[2]
            w.require(a.tag[0] == '_hr_mode_' and b.tag == ('_theta_der_hr_mode_', t, i) and
                      b2.tag == ('_theta_der2_hr_mode_', t, i), 'disc integrands')
            w.require(ld == 'eddington' and method == w.options['numerical_integration_method'],
                      'disc options')
            return w.triads[t].tk[i], w.triads[t].ek[i]
        return types.SimpleNamespace(get_integrals=get_integrals)

    def jac(w, kind):
        def f(gammas, omegas, q, eta):
            T = next((t for t in w.triads if eta is t.ncc), None)
            w.require(T is not None, 'Jacobian: coupling coefficient')
            if T is not None:
                harmonic = T.ns[1] == T.ns[2] and w.ms[1] == w.ms[2]
                w.require((kind == 3) == harmonic, 'Jacobian: kind')
                f = w.fh(T)
                for a, b in ((gammas, f.driving_rates), (omegas, f.corot_mode_omegas)):
                    for i in range(3):
                        w.c.eq('jacobian-argument', a[i], b[i])
                w.c.eq('jacobian-q', q, f.q_factor)
            return T
        return f

    def fh(w, T):
        FH = loader.repo(fq.mods()[0]).FrequencyHandler
        f = FH(*(T.ad if w.adiabatic or w.poly else T.nad))
        if not w.poly:
            f.set_mode_nonadiabatic_info(*T.nad)
        return f


class H5:
    """records what is written (symbolic runs)"""

    class Node:
        def __init__(self, root, path):
            self.root, self.path = root, path
            self.attrs = root.setdefault(('attrs', path), {})

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __contains__(self, p):
            return p in self.root

        def require_group(self, name):
            return H5.Node(self.root, name)

        def create_dataset(self, name, data=None, dtype=None):
            assert name not in self.root
            self.root[name] = data

    def __init__(self):
        self.files = {}

    def File(self, name, mode='r'):
        if mode == 'w':
            self.files.pop(str(name), None)
        return H5.Node(self.files.setdefault(str(name), {}), '')

    @staticmethod
    def Empty(_):
        return None


class NoPath(pathlib.PurePosixPath):
    """creates no directories (symbolic runs)"""

    def mkdir(self, *a, **k):
        pass


def read_all(path):
    import h5py
    out = {}
    with h5py.File(path, 'r') as f:
        out[('attrs', '')] = dict(f.attrs)

        def vis(n, o):
            if isinstance(o, h5py.Dataset):
                out[n] = o[()]
            else:
                out[('attrs', n)] = dict(o.attrs)
        f.visititems(vis)
    return out


def load_one():
    load()
    loader.stubmod('simple_poller', Poller=None)      # not installed, not used here
    loader.repo(ONE)


def run(c, poly, one=False):
    """`one`: the class that is both the grid and the profile solver"""
    (load_one if one else load)()
    base, grid = (loader.repo(ONE),) * 2 if one else (loader.repo(BASE), loader.repo(GRID))
    storer = loader.repo(DH + 'storer')
    saver = loader.repo(DH + 'data_specific.hdf5_saver')
    scen = c.choice('scenario', range(12))
    shape = ['distinct', 'harmonic'][scen % 2]
    sel = dict(mode_l=[2, 1, 1], mode_m=[2, 1, 1], driven_n_low=130, driven_n_high=131,
               damped_n_low1=20, damped_n_high1=20)
    n3 = 40022 if shape == 'distinct' else 20
    sel.update(damped_n_low2=n3, damped_n_high2=n3)
    combos = [(130, 20, n3), (131, 20, n3)]
    ms = [2, 1, 1] if scen % 6 else [2, 1, -1]
    sel['mode_m'] = ms
    signs = [((1, -1, -1), (-1, 1, 1)), ((1, 1, 1), (1, -1, -1)),
             ((1, -1, -1), (1, -1, -1))][(scen // 2) % 3]
    w = World(c, scen, combos, list(zip([2, 1, 1], ms)), poly, signs)
    w.ms = ms
    mode = 0 if poly else (scen + scen // 3) % 3
    w.adiabatic = mode != 1
    w.use_complex = mode == 1
    stat = poly or mode != 2
    w.options = {'use_brunt_def': mode == 0, 'use_symbolic_derivatives': mode == 1,
                 'nr_omp_threads': 3, 'use_parallel': mode == 2,
                 'numerical_integration_method': ['simpson', 'trapz', 'simpson'][mode],
                 'store_debug': mode == 0, 'conj_cc': None, 'analytic_polytrope': mode == 2,
                 'use_cheby_integration': mode == 1, 'cheby_order_multiplier': 4 + mode,
                 'cheby_blow_up_protection': mode == 0, 'cheby_blow_up_factor': 1e3 + mode}
    o = w.options
    tmp = None if c.sym else tempfile.mkdtemp(prefix='dv_h5_')
    h5 = H5()
    try:
        with contextlib.ExitStack() as st:
            st.enter_context(patched(
                base, InfoDirHandler=w.info(), ModelLoader=w.loader(), QCCR=w.qccr(), di=w.di(),
                check_hyper=lambda T: T.hyp if T is not None else False, hyper_jac=w.jac(4),
                hyper_jac_three=w.jac(3)))
            null = st.enter_context(open(os.devnull, 'w'))
            st.enter_context(contextlib.redirect_stdout(null))
            bars = bool(scen // 3 % 2)
            S = (functools.partial(grid.QuadraticAESolver, cc_profile_selection_dict={},
                                   compute_grid=True) if one else
                 functools.partial(grid.QuadraticAEGridSolver, progress_bars=bars))(
                [], rot_pct=20, use_complex=w.use_complex, adiabatic=w.adiabatic, base_dir='/d/',
                use_symbolic_profiles=o['use_symbolic_derivatives'],
                use_brunt_def=o['use_brunt_def'], nr_omp_threads=3, use_parallel=o['use_parallel'],
                numerical_integration_method=o['numerical_integration_method'],
                use_cheby_integration=o['use_cheby_integration'],
                cheby_order_multiplier=o['cheby_order_multiplier'],
                cheby_blow_up_protection=o['cheby_blow_up_protection'],
                cheby_blow_up_factor=o['cheby_blow_up_factor'], ld_function='eddington',
                mode_selection_dict=sel, get_debug_info=o['store_debug'],
                stationary_solving=stat, terms_cc_conj=None, polytrope_comp=poly,
                analytic_polytrope=o['analytic_polytrope'], polytrope_mass=2.5,
                polytrope_radius=3.5)
            with contextlib.redirect_stderr(null):
                S(progress_bars=bars) if one else S()
            if c.sym:
                st.enter_context(patched(saver, h5=h5, create_group_path_dataset=lambda
                                         h5file_stream, group_specifier:
                                         h5file_stream.require_group(group_specifier)))
                st.enter_context(patched(storer, Path=NoPath))
            N = storer.NumericalSaver('res', S, base_dir=tmp or '/d', save_dir='/sub/',
                                      polytropic=poly)
            N()
            names = list(h5.files) if c.sym else [
                os.path.join(a, f) for a, _, fs in os.walk(tmp) for f in fs]
        c.prove('one-results-file', len(names) == 1)
        c.prove('file-name-has-quantum-numbers',
                f'_k_0_0_0_m_{"_".join(map(str, ms))}.h5' in names[0])
        D = h5.files[names[0]] if c.sym else read_all(names[0])
        verify(c, w, S, stubs.Required(c, D, 'file'), stat)
    finally:
        if tmp:
            shutil.rmtree(tmp, True)


def verdict(w, T, stat):
    gen = loader.repo('aesolver.pre_checks.generic.generic_quadratic_checks')
    pre = loader.repo('aesolver.pre_checks.specific.three_mode_checks')
    if stat:
        return pre.PreCheckThreeModesQuadratic(T.ad, w.fh(T), triads=[(1, 2, 3)],
                                               two_mode_harmonic=T.ns[1] == T.ns[2] and
                                               w.ms[1] == w.ms[2]).check()
    return gen.PreCheckQuadratic(T.ad, triads=[(1, 2, 3)]).generic_check()


FREQS = ['inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas']
DIMLESS = {'inert_dimless_mode_freqs': 'dimless_inert_freqs',
           'corot_dimless_mode_freqs': 'dimless_corot_freqs',
           'inert_dimless_mode_omegas': 'dimless_inert_omegas',
           'corot_dimless_mode_omegas': 'dimless_corot_omegas'}
STATK = {'detunings': 'detunings', 'gammas': 'gamma',
         'critical_parent_amplitudes': 'critical parent amplitude',
         'stationary_relative_phases': 'stationary relative phase',
         'stationary_relative_luminosity_phases': 'stationary relative luminosity phase',
         'q_factors': 'q factor', 'critical_q_factors': 'critical q factor',
         'equilibrium_theoretical_amplitudes': 'equilibrium amplitudes',
         'surface_flux_variations': 'surface flux variations'}


def eqv(c, name, got, want):
    """equality where 'no value' is NaN"""
    if want is None:
        c.prove(name, isinstance(got, (float, np.floating)) and got != got)
    else:
        c.eq(name, got, want)


def mabs(c, x):
    from dv.npshim import scalar
    return scalar('absolute', x) if c.sym else abs(x)


def verify(c, w, S, D, stat):
    for b in w.bad:
        c.fail('collaborators', b)
    TMS = loader.repo(
        'aesolver.stationary_solving.three_mode.three_mode_stationary').ThreeModeStationary
    a0, aq = D[('attrs', '')], D[('attrs', 'quantum_numbers')]
    o = w.options
    c.prove('attributes', all((
        a0['num_int_method'] == o['numerical_integration_method'],
        bool(a0['use_cheby']) == o['use_cheby_integration'],
        a0['cheby_order_mul'] == o['cheby_order_multiplier'],
        bool(a0['cheby_blow_up']) == o['cheby_blow_up_protection'],
        a0['cheby_blow_up_fac'] == o['cheby_blow_up_factor'])))
    c.prove('quantum-numbers', all((
        list(aq['l']) == [2, 1, 1], list(aq['m']) == w.ms, list(aq['k']) == [0, 0, 0],
        [tuple(x) for x in D['quantum_numbers/n']] == w.combos)))
    c.prove('wu', [int(x) for x in D['mode_statistics/wu']] ==
            [n[0] - abs(n[1] - n[2]) for n in w.combos])
    units = [D[('attrs', 'mode_frequency_info')]['frequency_units']]
    if not w.poly:
        units.append(D[('attrs', 'nad_mode_frequency_info')]['frequency_units'])
    c.prove('frequency-units', all(bytes(u) == b'HZ' for u in units))
    for t, T in enumerate(w.triads):
        f = w.fh(T)
        if t and not w.poly:
            # (the specification side takes the same decisions as the run)
            pass
        for sfx, grp in (('', ''), ('_nad', 'nad_')):
            if sfx and w.poly:
                c.prove('polytrope-datasets', 'nad_mode_frequency_info/inert_mode_freqs' not in D)
                continue
            for k in FREQS + list(DIMLESS):
                src = getattr(f, DIMLESS.get(k, k) + sfx)
                for i in range(3):
                    c.eq(f'{grp}{k}[{t}]', D[f'{grp}mode_frequency_info/{k}'][t, i], src[i])
        for i in range(3):
            c.eq(f'spin[{t}]', D['rotation/spin_factors'][t, i], f.spin_factors[i])
        c.eq(f'rotation[{t}]', D['rotation/surface_rotation_frequency'][t], f.surf_rot_freq)
        ok = True if w.poly else bool(verdict(w, T, stat))
        computed = ok or not stat
        for k, v in (('|kappa|', T.cc), ('|kappa_norm|', T.ncc), ('|eta|', T.eta)):
            c.eq(f'{k}[{t}]', D['coupling/generic/' + k][t], mabs(c, v) if computed else 0.)
        c.prove(f'adiabatic[{t}]', bool(D['coupling/generic/adiabatic'][t]) == w.adiabatic)
        for i in range(4):
            c.eq(f'terms[{t}]', D['coupling/generic/quadratic_terms'][t, i],
                 T.terms[i] if computed else 0.)
        norm = T.norm if computed else [0.] * 3
        for i in range(3):
            c.eq(f'norm[{t}]', D['normalization/radial'][t, i], norm[i])
        if w.poly:
            continue
        for i in range(3):
            c.eq(f'driving_rates[{t}]', D['linear_driving/driving_rates'][t, i],
                 f.driving_rates[i])
            c.eq(f'quality_factors[{t}]', D['linear_driving/quality_factors'][t, i],
                 f.quality_factors[i])
        cplx = (lambda a, b: SymC(a, b)) if c.sym else complex
        lag = c.arr([cplx(e['lag_L']['re'][-1], e['lag_L']['im'][-1]) * norm[i]
                     for i, e in enumerate(T.nad)])
        xi = c.arr([cplx(e['xi_r']['re'][-1], e['xi_r']['im'][-1]) / e['x'][-1] * norm[i]
                    for i, e in enumerate(T.ad)])
        hyp = T.hyp if computed else False
        sol = TMS(ok, f, hyp, solver_object=types.SimpleNamespace(
            _coupler=T.coupler if computed else None, _tk_disc_integrals=c.arr(T.tk),
            _ek_disc_integrals=c.arr(T.ek), _lag_var_surf_lum=lag, _xir_terms_norm=xi))()
        for ds, k in STATK.items():
            got = D['coupling/stationary_three_mode/' + ds][t]
            want = sol[k]
            if ds in ('equilibrium_theoretical_amplitudes', 'surface_flux_variations'):
                for i in range(3):
                    eqv(c, f'{ds}[{t}]', got[i], want[i])
            else:
                eqv(c, f'{ds}[{t}]', got, want)
        g = [x.imag for e in T.nad for x in [e['freq'][0]]]
        s = [1 if bool(x > 0) else -1 for x in g]
        P = D['checks/pre_checks'][t]
        c.prove(f'pre_checks[{t}]', all((
            bool(P[0]) == (s == [1, -1, -1]), bool(P[1]) == (s == [-1, 1, 1]),
            bool(P[2]) == (s == [1, 1, 1]), bool(P[3]) == bool(sum(g) < 0),
            bool(P[4]) == ok, bool(P[5]) == hyp)))


_X = dict(stubs.SPLINE)
_MODS = [GRID, BASE, DH + 'storer', DH + 'unpacker', DH + 'data_specific.hdf5_saver',
         'carr_conv.carr_conv', 'aesolver.stationary_solving.three_mode.three_mode_stationary'
         ] + fq.mods()
_FN = [f'{BFILE}:QuadraticAESolver.{m}' for m in (
    '__init__', 'load_nonradial_mode_triad', 'compute_mode_coupling', '_store_hyperbolicity_info',
    '_store_mode_frequency_info', '_store_mode_coupling_info', '_compute_disc_integral_factors',
    'compute_additional_mode_info', '_compute_lagrangian_surface_luminosity_perturbations',
    '_compute_xir_term_norm', 'compute_coupling_one_triad', 'check_two_mode_sum_resonance')] + [
    f'{GFILE}:QuadraticAEGridSolver.*', f'{UFILE}unpacker.py:UnPacker.*',
    f'{UFILE}storer.py:NumericalSaver.*', f'{UFILE}data_specific/hdf5_saver.py:HDF5Saver.*']
_ONE = [x.replace(BFILE, OFILE) for x in _FN if x.startswith(BFILE)] + [
    f'{OFILE}:QuadraticAESolver.{m}' for m in (
        '__call__', '_call_grid_computations', 'store_relevant_statistics')]
CONTRACTS = [
    Contract('results-file', lambda c: run(c, False), functions=_FN, modules=_MODS, load=load,
             extra=_X, rand=60, budget=150,
             note='coupling coefficients, disc integrals and the hyperbolicity verdict of a triad '
                  'are opaque values (contracts P06, P14, P16); two triads per run'),
    Contract('results-file-polytrope', lambda c: run(c, True), functions=_FN, modules=_MODS,
             load=load, extra=_X, rand=20, budget=60),
    Contract('results-file-one-solver', lambda c: run(c, c.choice('poly', [False, True]), True),
             functions=_ONE, modules=[ONE if m == BASE else m for m in _MODS if m != GRID],
             load=load_one, extra=_X, rand=30, budget=80,
             note='the class `QuadRotAESolver`, which computes both grids and profiles'),
]
