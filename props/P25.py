"""Results files: where they are put, what they contain after a save, who can read them."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from dv import loader
from dv.runner import CRASH, Contract
from . import P08, P23
from .P08 import read_all

DH = 'aesolver.data_handling.'
NAMES = 'aesolver.read_load_info.load_name_plots'
MODS = [DH + 'storer', DH + 'unpacker', DH + 'data_specific.hdf5_saver',
        DH + 'data_specific.hdf5_specific.overwrite_dataset',
        DH + 'data_specific.hdf5_specific.create_group', DH + 'enumeration_files.enum_generic',
        DH + 'enumeration_files.enum_hdf5_saver', NAMES] + P23.MODS


def load():
    P08.load()
    P23.load()
    import h5py
    for m in (P23.AN, P23.PL):
        loader.repo(m).h5 = h5py
    for m in MODS:
        loader.repo(m)


@contextlib.contextmanager
def folder():
    d, here = tempfile.mkdtemp(prefix='dv_res_'), os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def solver(c, n, poly, lm=None):
    """results of a solver for n triads"""
    r = c.rng
    v = lambda *s: np.array([r.uniform(-3, 3) for _ in range(int(np.prod(s)))]).reshape(s)
    sc = lambda: r.uniform(.1, 3.)
    g = lambda: np.array([r.choice([-1, 1]) * sc(), -sc(), -sc()])
    sol = [{'gamma': gg.sum(), 'linear driving rates': gg, 'linearly stable': r.random() < .5,
            'hyperbolic': r.random() < .5, 'detunings': sc(), 'critical parent amplitude': sc(),
            'stationary relative phase': sc(), 'stationary relative luminosity phase': sc(),
            'q factor': sc(), 'critical q factor': sc(),
            'equilibrium amplitudes': v(3), 'surface flux variations': v(3)}
           for gg in [g() for _ in range(n)]]
    k = 9 if poly else 10
    fr = [tuple([v(3) for _ in range(k)] + [sc(), 'Hz'] +
                ([] if poly else [v(3) for _ in range(8)])) for _ in range(n)]
    l, m = lm or ([2, 1, 1], [2, 1, 1])
    return types.SimpleNamespace(
        stat_sol_info=[None] * n if poly else sol, mode_freq_info=fr,
        coupling_info=[(sc(), -sc(), sc(), v(3), v(3), v(3), bool(r.random() < .5), v(3), v(4))
                       for _ in range(n)],
        coupling_statistics=[(i, r.randint(-3, 3)) for i in range(n)],
        _mode_info_object=types.SimpleNamespace(
            mode_l=l, mode_m=m,
            combinations_radial_orders=[tuple(r.randint(-40, -1) for _ in range(3))
                                        for _ in range(n)]),
        _numerical_integration_method='trapz', _use_cheby=False, _cheby_order_mul=4,
        _cheby_blow_up=False, _cheby_blow_up_fac=1e3)


def expected(S, poly):
    """contents of the results file of a run"""
    A = np.asarray
    M, F, C, T = S._mode_info_object, S.mode_freq_info, S.coupling_info, S.stat_sol_info
    l, m = A(M.mode_l), A(M.mode_m)
    D = {('attrs', ''): {'num_int_method': 'trapz', 'use_cheby': False, 'cheby_order_mul': 4,
                         'cheby_blow_up': False, 'cheby_blow_up_fac': 1e3},
         ('attrs', 'quantum_numbers'): {'l': l, 'm': m, 'k': l - abs(m)},
         'quantum_numbers/n': A(M.combinations_radial_orders),
         'mode_statistics/wu': A([x[1] for x in S.coupling_statistics]),
         'coupling/generic/|kappa|': A([abs(x[0]) for x in C]),
         'coupling/generic/|kappa_norm|': A([abs(x[1]) for x in C]),
         'coupling/generic/|eta|': A([abs(x[2]) for x in C]),
         'coupling/generic/adiabatic': A([x[6] for x in C]),
         'coupling/generic/quadratic_terms': A([x[8] for x in C]),
         'normalization/radial': A([x[5] for x in C]),
         'rotation/spin_factors': A([x[8] for x in F]),
         'rotation/surface_rotation_frequency': A([x[9 if poly else 10] for x in F])}
    kinds = ('inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas',
             'inert_dimless_mode_freqs', 'corot_dimless_mode_freqs', 'inert_dimless_mode_omegas',
             'corot_dimless_mode_omegas')
    for i, k in enumerate(kinds):
        D['mode_frequency_info/' + k] = A([x[i] for x in F])
        if not poly:
            D['nad_mode_frequency_info/' + k] = A([x[12 + i] for x in F])
    D['attrs', 'mode_frequency_info'] = {'frequency_units': b'Hz'}
    if poly:
        return D
    D['attrs', 'nad_mode_frequency_info'] = {'frequency_units': b'Hz'}
    D['linear_driving/driving_rates'] = A([x['linear driving rates'] for x in T])
    D['linear_driving/quality_factors'] = A([x[9] for x in F])
    for k, s in (('detunings', 'detunings'), ('gammas', 'gamma'),
                 ('critical_parent_amplitudes', 'critical parent amplitude'),
                 ('stationary_relative_phases', 'stationary relative phase'),
                 ('stationary_relative_luminosity_phases', 'stationary relative luminosity phase'),
                 ('q_factors', 'q factor'), ('critical_q_factors', 'critical q factor'),
                 ('equilibrium_theoretical_amplitudes', 'equilibrium amplitudes'),
                 ('surface_flux_variations', 'surface flux variations')):
        D['coupling/stationary_three_mode/' + k] = A([x[s] for x in T])
    sg = [np.sign(x['linear driving rates']).tolist() for x in T]
    D['checks/pre_checks'] = A([[s == [1, -1, -1], s == [-1, 1, 1], s == [1, 1, 1],
                                 x['gamma'] < 0, x['linearly stable'], x['hyperbolic']]
                                for s, x in zip(sg, T)], dtype=bool)
    return D


def contents(c, name, path, D):
    G = read_all(path)
    c.prove(name + '-entries', {k for k in G if isinstance(k, str)} ==
            {k for k in D if isinstance(k, str)}, str(set(map(str, G)) ^ set(map(str, D))))
    for k, w in D.items():
        if isinstance(k, tuple):
            for a, x in w.items():
                c.prove(f'{name}-attribute', np.array_equal(G.get(k, {}).get(a), x), f'{k} {a}')
        elif k in G:
            c.prove(f'{name}-data', np.array_equal(G[k], w, equal_nan=G[k].dtype.kind == 'f'),
                    f'{k}: {G[k]} instead of {w}')


def found():
    return sorted(os.path.normpath(os.path.join(a, f)) for a, _, fs in os.walk('.') for f in fs)


WORDS = ['grid', 'grid-1', 'a.b', 'run_2', 'model 1', 'M3.0-Xc0.5', 'X', 'r(1)', 'x_k_0', '1']
SUBS = ['', 'sub', 'sub/', '/sub', 'sub/deep', 'a.b', 'my-sub/', '/sub/']


def lms(r):
    out = []
    for _ in range(3):
        l = r.randint(1, 4)
        out.append((l, r.randint(-l, l)))
    return [x[0] for x in out], [x[1] for x in out]


def save(S, poly, **k):
    st = loader.repo(DH + 'storer')
    N = st.NumericalSaver(solving_object=S, polytropic=poly, **k)
    N()
    return N


def location(c):
    """the file of a run is where the loading settings of the plotter and analyzer point to"""
    r = c.rng
    with folder():
        done = {}
        for _ in range(r.randint(1, 4)):
            base, sub = r.choice(['.', 'out', 'v1.2/out', 'out/', 'o-1']), r.choice(SUBS)
            word, spec = r.choice(WORDS), r.choice(['', '', '_fine', '-x', '.5'])
            l, m = lms(r)
            poly = r.random() < .3
            S = solver(c, r.randint(1, 4), poly, (l, m))
            N = save(S, poly, save_name=word, base_dir=base, save_dir=sub, extra_specifier=spec)
            k = [a - abs(b) for a, b in zip(l, m)]
            std = r.random() < .5
            bare, masses, xc = word, 3.0, .5
            name = f'{word}'
            n = len(found())
            info = {'nr_files': 1, 'base_dir': base,
                    'output_dir': 'hdf5_output/' + (sub.strip('/') + spec), 'file_suffix': ['h5'],
                    'use_standard_format': False, 'base_file_names': [bare],
                    'specification_names': [''], 'masses': [masses], 'Xcs': [xc],
                    'triple_pairs': [[[1, 2], [3, 4], [5, 6]]], 'meridional_degrees': [k],
                    'azimuthal_orders': [m]}
            path = os.path.normpath(
                loader.repo(NAMES).generate_load_file_path_list(info)[0])
            want = os.path.normpath(f'{base}/hdf5_output/{sub.strip("/")}{spec}/{name}_k_'
                                    f'{k[0]}_{k[1]}_{k[2]}_m_{m[0]}_{m[1]}_{m[2]}.h5')
            c.prove('load-path', path == want, f'{path} instead of {want}')
            done[path] = (S, poly)
            c.prove('only-file', found() == sorted(done), f'{found()} instead of {sorted(done)}')
            c.prove('format', N.save_format == 'hdf5')
            del std, n
        for i, (p, (S, poly)) in enumerate(done.items()):
            if os.path.exists(p):
                contents(c, 'file', p, expected(S, poly))


def load_names(c):
    """load paths: models in the order of the inlist, lists of files stay together"""
    r = c.rng
    n = r.randint(1, 4)
    names, specs, suf, want = [], [], [], []
    std = r.random() < .5
    I = {'nr_files': n, 'base_dir': 'b', 'output_dir': 'o/p', 'use_standard_format': std,
         'masses': [r.choice([3, 4.5]) for _ in range(n)],
         'Xcs': [r.choice([.5, .09, .3125, .70123, 0., 1.]) for _ in range(n)],
         'triple_pairs': [[[r.randint(1, 50) for _ in 'ab'] for _ in 'abc'] for _ in range(n)],
         'meridional_degrees': [[r.randint(-2, 2) for _ in 'abc'] for _ in range(n)],
         'azimuthal_orders': [[r.randint(-2, 2) for _ in 'abc'] for _ in range(n)]}
    for i in range(n):
        q = r.randint(1, 3)
        b = [r.choice(WORDS) for _ in range(q)]
        s = [r.choice(['', 'OP', 'x-1']) for _ in range(q)]
        e = [r.choice(['h5', 'hdf5']) for _ in range(q)]
        t, k, m = (I[x][i] for x in ('triple_pairs', 'meridional_degrees', 'azimuthal_orders'))
        mid = f'_M{I["masses"][i]}_Xc{str(I["Xcs"][i]).replace(".", "_")}_d{t[0][0]}_{t[0][1]}' \
            f'_d{t[1][0]}_{t[1][1]}_p{t[2][0]}_{t[2][1]}' if std else ''
        w = ['b/o/p/' + x + ('_' + y if y else '') + mid +
             f'_k_{k[0]}_{k[1]}_{k[2]}_m_{m[0]}_{m[1]}_{m[2]}.{z}' for x, y, z in zip(b, s, e)]
        one = q == 1 and r.random() < .5
        for a, v in ((names, b), (specs, s), (suf, e), (want, w)):
            a.append(v[0] if one else v)
    I |= {'base_file_names': names, 'specification_names': specs, 'file_suffix': suf}
    got = loader.repo(NAMES).generate_load_file_path_list(I)
    c.prove('load-paths', got == want, f'{got} instead of {want}')
    key = r.choice([k for k in I if std or k not in ('masses', 'Xcs', 'triple_pairs')])
    del I[key]
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            got = loader.repo(NAMES).generate_load_file_path_list(I)
    except (SystemExit, KeyError):
        return
    c.prove('missing-setting-ends-run', False, f'{key}: {got}')


def again(c):
    """saving again: the file holds exactly the last run, in every mode that may overwrite"""
    r = c.rng
    with folder():
        poly = [r.random() < .4 for _ in range(3)]
        mode = r.choice([None, (False, False), (True, False), (False, True)])
        path = 'hdf5_output/x_k_0_0_0_m_2_1_1.h5'
        if mode in ((True, False), (False, True)):
            poly = [poly[0]] * 3
        for i in range(3):
            S = solver(c, r.randint(1, 3), poly[i])
            if i == 0 or mode is None:
                save(S, poly[i], save_name='x')
            else:
                st = loader.repo(DH + 'storer')
                N = st.NumericalSaver(save_name='x', solving_object=S, polytropic=poly[i])
                N._read_data_from_solver()
                N._unpack_data_to_object()
                H = st.HDF5Saver(N.save_name, N.unpacked_data, poly[i])
                H.h5_mode = mode
                c.prove('mode', H.h5_mode == {(False, False): 'w', (True, False): 'r+',
                                              (False, True): 'a'}[mode])
                if mode == (False, True):
                    os.unlink(path)      # appending starts a new file
                H.save_data()
            c.prove('one-file', found() == [path], str(found()))
            contents(c, 'again', path, expected(S, poly[i]))


def overwrite(c):
    """a dataset that is overwritten holds the new value, others are left alone"""
    import h5py
    r = c.rng
    f = loader.repo(DH + 'data_specific.hdf5_specific.overwrite_dataset').overwrite_dataset

    def value():
        k = r.randint(0, 3)
        if k == 0:
            return h5py.Empty('f')
        s = r.choice([(), (1,), (2,), (3,), (1, 3), (3, 1), (2, 3), (0,)])
        return (np.array(r.uniform(-9, 9)) + np.zeros(s) + np.arange(int(np.prod(s))).reshape(s)
                ).astype(r.choice([np.float64, np.float32, np.int64, np.bool_, np.complex128]))
    same = lambda a, b: isinstance(a, h5py.Empty) and isinstance(b, h5py.Empty) or (
        not isinstance(a, h5py.Empty) and not isinstance(b, h5py.Empty) and
        np.shape(a) == np.shape(b) and a.dtype == b.dtype and np.array_equal(a, b))
    with folder():
        with h5py.File('x.h5', 'w') as h:
            a, b, e = value(), value(), value()
            h.create_dataset('g/a', data=a)
            h.create_dataset('g/b', data=e)
            # a requested type applies where the dataset has to be made anew
            to = r.choice([None, None, np.float64, np.float32])
            if isinstance(b, h5py.Empty) or b.dtype.kind == 'c':
                to = None
            f(h5file_stream=h, dataset_path='g/a', overwrite_value=b,
              **({} if to is None else {'dtype': to}))
            if to is not None and not (not isinstance(a, h5py.Empty) and a.shape == b.shape and
                                       a.dtype == b.dtype):
                b = b.astype(to)
            f(h5file_stream=h, dataset_path='g', overwrite_value=b)
        with h5py.File('x.h5', 'r') as h:
            c.prove('overwritten', same(h['g/a'][()], b), f'{a} {b}: {h["g/a"][()]}')
            c.prove('others', set(h) == {'g'} and set(h['g']) == {'a', 'b'} and
                    same(h['g/b'][()], e))


def readback(c):
    """the analyzer and the plotter read back what the solver obtained"""
    r = c.rng
    which = c.choice('tool', ['analyzer', 'plotter'])
    with folder():
        word, sub = r.choice(WORDS), r.choice(['', 'sub', 'sub/'])
        S = solver(c, r.randint(2, 5), False)
        N = S._mode_info_object.combinations_radial_orders
        for i in range(len(N)):
            N[i] = (-i - 1, -9, -8)
        save(S, False, save_name=word, save_dir=sub)
        I = P23.info([word]) | {'base_dir': '.', 'output_dir': f'hdf5_output/{sub}'.strip('/')}
        old = P23.info
        P23.info = lambda names: I
        try:
            o = P23.analyzer([word]) if which == 'analyzer' else P23.plotter([word], True, True)
        except OSError as e:
            c.prove('readable', False, f'{e}: {found()}')
            return
        finally:
            P23.info = old
        D, = o._list_data_dict
        E = expected(S, False)
        d = {k: E[v] for k, v in P23.PATH.items()}
        d['q'] = E['attrs', 'quantum_numbers']
        for i in range(len(N)):
            P23.row_facts(c, which, D, i, d, i)
        for k in 'klm':
            v = np.asarray(getattr(o, '_' + k)).ravel().tolist()
            c.prove('quantum-numbers', v == list(d['q'][k]), f'{k} {v}')


class Stored:
    """reads what was recorded (symbolic runs)"""

    def __init__(self, root, sym, path=''):
        self.root, self.path, self.sym = root, path, sym
        self.attrs = root.get(('attrs', path), {})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, p):
        p = f'{self.path}/{p}'.strip('/')
        if p in self.root:
            a = self.root[p]
            if self.sym:
                from dv.npshim import OArr
                b = np.empty(np.shape(a), dtype=object)
                for i, x in np.ndenumerate(np.asarray(a)):
                    b[i] = x.item() if hasattr(x, 'item') else x
                a = b.view(OArr)
            return P23.DSet(a)
        if ('attrs', p) in self.root or any(
                isinstance(k, str) and k.startswith(p + '/') for k in self.root):
            return Stored(self.root, self.sym, p)
        raise KeyError(p)


def chain(c):
    """solver to analyzer: what is derived is derived from the values the solver obtained"""
    which = c.choice('tool', ['analyzer', 'plotter'])
    v = lambda n: c.reals(n, 3)
    g = v('g')
    for i in range(3):
        c.assume(g[i] != 0)
    gs = g[0] + g[1] + g[2]
    c.assume(gs != 0)
    ok, hyp = c.choice('stable', [True, False]), c.choice('hyperbolic', [True, False])
    sol = {'gamma': gs, 'linear driving rates': g, 'linearly stable': ok, 'hyperbolic': hyp,
           'equilibrium amplitudes': v('A'), 'surface flux variations': v('S')}
    for k in ('detunings', 'critical parent amplitude', 'stationary relative phase',
              'stationary relative luminosity phase', 'q factor', 'critical q factor'):
        sol[k] = c.real('s_' + k.replace(' ', '_'))
    fr = tuple([v(f'f{i}') for i in range(10)] + [c.real('rot'), 'Hz'] +
               [v(f'nad{i}') for i in range(8)])
    for i in range(3):
        for j in (2, 3):
            c.assume(fr[j][i] != 0)
        c.assume(sol['equilibrium amplitudes'][i] != 0)
        c.assume(sol['surface flux variations'][i] != 0)
    cc = (c.real('kap'), c.real('kapn'), c.real('eta'), None, None, v('norm'), True, None,
          c.reals('terms', 4))
    S = types.SimpleNamespace(
        stat_sol_info=[sol], mode_freq_info=[fr], coupling_info=[cc], coupling_statistics=[(0, 1)],
        _mode_info_object=types.SimpleNamespace(mode_l=[2, 1, 1], mode_m=[2, 1, 1],
                                                combinations_radial_orders=[(5, 3, 4)]),
        _numerical_integration_method='trapz', _use_cheby=False, _cheby_order_mul=4,
        _cheby_blow_up=False, _cheby_blow_up_fac=1e3)
    rec = P08.H5()
    saver, storer = (loader.repo(DH + x) for x in ('data_specific.hdf5_saver', 'storer'))
    group = lambda h5file_stream, group_specifier: h5file_stream.require_group(group_specifier)
    with contextlib.ExitStack() as st:
        st.enter_context(P08.patched(saver, h5=rec, create_group_path_dataset=group))
        st.enter_context(P08.patched(storer, Path=P08.NoPath))
        save(S, False, save_name='x', base_dir='b')
        c.prove('one-file', list(map(os.path.normpath, rec.files)) ==
                ['b/hdf5_output/x_k_0_0_0_m_2_1_1.h5'], str(list(rec.files)))
        D, = rec.files.values()

        def read(path, mode='r'):
            c.prove('path', os.path.normpath(path) == 'b/hdf5_output/x_k_0_0_0_m_2_1_1.h5' and
                    mode == 'r')
            return Stored(D, c.sym)
        I = P23.info(['x']) | {'base_dir': 'b', 'output_dir': 'hdf5_output'}
        st.enter_context(P08.patched(P23, info=lambda names: I))
        for m in (P23.AN, P23.PL):
            st.enter_context(P08.patched(loader.repo(m), h5=types.SimpleNamespace(File=read)))
        o = P23.analyzer(['x']) if which == 'analyzer' else P23.plotter(['x'], True, True)
    one = lambda x: [x]
    sg = [1 if bool(x > 0) else -1 for x in g]
    d = {'W': one(fr[3]), 'F': one(fr[1]), 'WI': one(fr[2]), 'FI': one(fr[0]), 'g': one(g),
         'kap': one(cc[0]), 'kapn': one(cc[1]), 'A': one(sol['equilibrium amplitudes']),
         'S': one(sol['surface flux variations']), 'T': one(sol['critical parent amplitude']),
         'ph': one(sol['stationary relative phase']),
         'checks': [[sg == [1, -1, -1], sg == [-1, 1, 1]]]}
    P23.row_facts(c, which, o._list_data_dict[0], 0, d, 0)


UF = 'aesolver/aesolver/data_handling/'
_FN = [UF + 'storer.py:NumericalSaver.*', UF + 'unpacker.py:UnPacker.*',
       UF + 'data_specific/hdf5_saver.py:HDF5Saver.*',
       UF + 'enumeration_files/enum_generic.py:SaveSubDirectory.*',
       UF + 'enumeration_files/enum_generic.py:SaveDirectoryEnum.obtain_save_directory',
       'aesolver/aesolver/read_load_info/load_name_plots.py:LoadFileName.*']
FILES = CRASH + (OSError, KeyError, TypeError, RuntimeError)
CONTRACTS = [
    Contract('location', location, load=load, modules=MODS, rand=60, sym=False, crash=FILES,
             functions=_FN),
    Contract('load-names', load_names, load=load, modules=MODS, rand=150, sym=False, crash=FILES,
             functions=[
        'aesolver/aesolver/read_load_info/load_name_plots.py:LoadFileName.*']),
    Contract('save-again', again, load=load, modules=MODS, rand=40, sym=False, crash=FILES,
             functions=_FN[:3]),
    Contract('overwrite', overwrite, load=load, modules=MODS, rand=300, sym=False, crash=FILES,
             functions=[
        UF + 'data_specific/hdf5_specific/overwrite_dataset.py:overwrite_dataset']),
    Contract('solver-to-analysis', chain, load=load, modules=MODS, rand=20, functions=_FN + [
        P23.FA + '_load_specific_file_data', P23.GA + '_load_specific_file_data']),
    Contract('read-back', readback, load=load, modules=MODS, rand=60, sym=False, crash=FILES),
]
