"""Inlist values reach the solver, saver, plotter and analyzer under the right names."""
import contextlib
import inspect
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path

from dv import loader
from dv.runner import Contract

RUN = 'aerunners.'
MODS = [RUN + 'solve_quadratic', RUN + 'plot_quadratic', RUN + 'analyze_quadratic',
        'generic_parser.generic_parser', 'inlist_handler.toml_inlist_handler',
        'inlist_handler.inlist_handler', 'path_resolver.resolve_paths',
        'aesolver.read_load_info.read_info_dirs']

calls = []


class Recorder:
    """stands in for a solver / saver / plotter: remembers how it was called"""
    real = None

    def __init__(self, *a, **k):
        calls.append((type(self).__name__, a, k))

    def __call__(self, *a, **k):
        calls.append((type(self).__name__ + '()', a, k))


class Grid(Recorder):
    pass


class Profile(Recorder):
    pass


class Saver(Recorder):
    pass


class Plotter(Recorder):
    def generate_plots(self):
        calls.append(('generate_plots', (), {}))


class Analyzer(Recorder):
    def __getattr__(self, n):
        if not n.startswith('generate_'):
            raise AttributeError(n)
        return lambda: calls.append((n, (), {}))


def load():
    loader.setup()
    m = sys.modules['aesolver']
    m.NumericalSaver, m.QuadraticAEGridSolver, m.QuadraticAEProfileSolver = Saver, Grid, Profile
    loader.stubmod('aeplotter', QuadraticAEPlotter=Plotter)
    loader.stubmod('ae_analyzer', QuadraticAEStationaryAnalyzer=Analyzer)
    for n in MODS:
        loader.repo(n)


# what the documented inlist keys are for: argument name -> key
MODE = {'rot_pct': 'rotation.rot_percent', 'base_dir': 'GYRE_selection.gyre_dir_path',
        'alternative_directory_path': 'GYRE_selection.alternative.directory_path',
        'alternative_file_name': 'GYRE_selection.alternative.file_name'}
LOG = {'verbose': 'verbosity-debug.verbose', 'debug': 'verbosity-debug.debug'}
POLY = {'rot_pct': 'rotation.rot_percent', 'base_dir': 'POLY_selection.mode_path',
        'alternative_directory_path': 'POLY_selection.alternative.directory_path',
        'alternative_file_name': 'POLY_selection.alternative.file_name'}
CC = 'coupling_coefficient.'
COMP = {'adiabatic': CC + 'adiabatic', 'use_complex': CC + 'use_complex',
        'use_symbolic_profiles': CC + 'symbolic_profiles',
        'use_brunt_def': CC + 'brunt_def_profiles',
        'use_rotating_formalism': 'rotation.rotating_formalism',
        'terms_cc_conj': CC + 'terms_cc_conj', 'polytrope_comp': CC + 'compute_for_polytrope',
        'analytic_polytrope': CC + 'analytic_polytrope',
        'polytrope_mass': 'POLY_model.mass', 'polytrope_radius': 'POLY_model.radius',
        'numerical_integration_method': 'computation.integration_method',
        'use_cheby_integration': 'computation.angular.use_cheby',
        'cheby_order_multiplier': 'computation.angular.cheby_mul',
        'cheby_blow_up_protection': 'computation.angular.blow_up_protect',
        'cheby_blow_up_factor': 'computation.angular.blow_up_fac',
        'use_parallel': 'computation.parallel_mode_coupling',
        'progress_bars': 'computation.display_progress',
        'get_debug_info': 'verbosity-debug.get_debug_info'}
SEL = {'driven_n_low': 'mode_info.parent.n.low', 'driven_n_high': 'mode_info.parent.n.high',
       'damped_n_low1': 'mode_info.daughter_1.n.low',
       'damped_n_high1': 'mode_info.daughter_1.n.high',
       'damped_n_low2': 'mode_info.daughter_2.n.low',
       'damped_n_high2': 'mode_info.daughter_2.n.high'}
WHO = ['parent', 'daughter_1', 'daughter_2']
TRIAD = {'parent_n': 'mode_info.coupling.parent.n',
         'daughter_1_n': 'mode_info.coupling.daughter_1.n',
         'daughter_2_n': 'mode_info.coupling.daughter_2.n'}
VIEW = {'view_kernels': 'plotting.profile.show_kernels',
        'view_term_by_term': 'plotting.profile.show_term_by_term'}
PATHS = {'ad': 'GYRE_selection.specifier.adiabatic', 'nad': 'GYRE_selection.specifier.nonadiabatic',
         'poly': 'POLY_selection.specifier.modes'}
SAVE = {'base_dir': 'saving.solve.base_dir', 'save_dir': 'saving.solve.save_dir',
        'extra_specifier': 'saving.solve.extra_specifier',
        'initial_save_format': 'saving.solve.save_format'}
RUNS = {'grid': 'computation.compute_grid_models',
        'profile': 'computation.compute_coefficient_profile'}
PSAVE = {'save_base_dir': 'saving.plot.base_dir', 'save_dir': 'saving.plot.save_dir',
         'extra_specifier_save': 'saving.plot.extra_specifier',
         'save_formats': 'saving.plot.save_formats',
         'sharpness_save_name': 'saving.plot.sharpness.save_name',
         'sharpness_subdir': 'saving.plot.sharpness.save_subdir',
         'overview_save_name': 'saving.plot.overview.save_name',
         'overview_subdir': 'saving.plot.overview.save_subdir'}
PLOT = {'plot_overview': 'plotting.plot.overview',
        'plot_coefficient_profile': 'plotting.plot.coefficient_profile',
        'plot_resonance_sharpness': 'plotting.plot.resonance_sharpness',
        'fig_size': 'plotting.figure.size', 'fig_dpi': 'plotting.figure.dpi',
        'ax_label_size': 'plotting.labels.ax_label.size',
        'tick_label_size': 'plotting.labels.tick_label.size', 'tick_size': 'plotting.ticks.size',
        'rad_nr': 'plotting.misc.rad_nr', 'show_plots': 'plotting.plot.show',
        'cmap': 'plotting.colors.matplotlib_color_map',
        'tick_label_pad': 'plotting.labels.tick_label.pad', 'verbose': 'verbosity-debug.verbose'}
LOAD = {k: 'plotting.load.' + k for k in (
    'base_file_names', 'specification_names', 'masses', 'Xcs', 'triple_pairs',
    'meridional_degrees', 'azimuthal_orders', 'file_suffix', 'nr_files', 'output_dir',
    'base_dir')}
ANA = {'numbers_categories': 'analysis.numbers_categories',
       'q_Q1_condition': 'analysis.q_Q1_condition',
       'isolated_mode_properties': 'analysis.isolated_mode_properties',
       'isolated_stab_val_estimators': 'analysis.isolated_stability_validity_estimators',
       'isolated_triad_observables': 'analysis.isolated_triad_observables'}
INFO = {'base_dir': 'MESA.default.base_dir', 'mesa_output_dir': 'MESA.default.output_dir',
        'mesa_profile_substrings': 'MESA.selection.substrings',
        'mesa_suffix': 'MESA.selection.suffix', 'gyre_base_dir': 'GYRE.default.base_dir',
        'gyre_output_dir': 'GYRE.default.output_dir',
        'gyre_detail_substring': 'GYRE.selection.detail_substrings',
        'gyre_summary_substring': 'GYRE.selection.summary_substring',
        'poly_base_dir': 'POLY.structure.default.base_dir',
        'poly_struct_dir': 'POLY.structure.default.output_dir',
        'poly_struct_substrings': 'POLY.structure.selection.substrings',
        'poly_struct_suffix': 'POLY.structure.selection.suffix',
        'poly_mode_base_dir': 'POLY.modes.default.base_dir',
        'poly_mode_dir': 'POLY.modes.default.output_dir',
        'poly_mode_substrings': 'POLY.modes.selection.detail_substrings',
        'poly_summary_substring': 'POLY.modes.selection.summary_substring'}
TUPLES = {'MESA.selection.substrings': 'MESA.selection.substrings_to_tuple',
          'GYRE.selection.detail_substrings': 'GYRE.selection.detail_substrings_to_tuple',
          'POLY.structure.selection.substrings': 'POLY.structure.selection.substrings_to_tuple',
          'POLY.modes.selection.detail_substrings':
              'POLY.modes.selection.detail_substrings_to_tuple'}
LM = [f'mode_info.{w}.{q}' for w in WHO for q in 'lm']


def keys():
    ks = set(LM) | {'plotting.load.use_custom_name'}
    for d in (MODE, LOG, POLY, COMP, SEL, TRIAD, VIEW, PATHS, SAVE, RUNS, PSAVE, PLOT, LOAD, ANA):
        ks |= set(d.values())
    return sorted(ks)


def put(d, key, v):
    *p, last = key.split('.')
    for k in p:
        d = d.setdefault(k, {})
    d[last] = v


class Opaque:
    """a value the parser has no business with"""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f'<{self.key}>'

    def __iter__(self):
        return iter([self])


def opaque():
    d, v = {}, {}
    for k in keys():
        v[k] = Opaque(k)
        put(d, k, v[k])
    return d, v


def parser(m, cls, d):
    p = object.__new__(getattr(loader.repo(RUN + m), cls))
    p._data_read_dictionary = d
    p._inlist_suffix = 'toml'
    return p


def same(c, what, got, want):
    """want: name -> value, by identity"""
    c.prove(what + '-names', set(got) == set(want), f'{sorted(set(got) ^ set(want))}')
    for k, v in want.items():
        c.prove(what, k in got and got[k] is v, f'{k}: {got.get(k)!r} instead of {v!r}')


def solve_args(c):
    """every documented key ends up under its argument name"""
    d, v = opaque()
    sel = lambda t: {k: v[q] for k, q in t.items()}
    conj = v[COMP['terms_cc_conj']]
    out = parser('solve_quadratic', 'QuadraticSolveParser', d).read_args()
    c.prove('parts', len(out) == 14)
    save, mode, triad, view, grid, comp, run, poly, pm, ang, ad, nad, pmodes, dbg = out
    same(c, 'saving', save, sel(SAVE))
    same(c, 'modes', mode, sel(MODE) | sel(LOG))
    same(c, 'polytrope-modes', poly, sel(POLY) | sel(LOG))
    lm = {f'mode_{q}': [v[f'mode_info.{w}.{q}'] for w in WHO] for q in 'lm'}
    for what, got, want in (('selection', grid, SEL), ('triad', triad, TRIAD)):
        same(c, what, {k: x for k, x in got.items() if k not in lm}, sel(want))
        for k, w in lm.items():
            c.prove(what + '-' + k, len(got[k]) == 3 and all(a is b for a, b in zip(got[k], w)))
    same(c, 'views', view, sel(VIEW))
    full = {**comp, **pm, **ang, 'use_parallel': run['use_parallel'],
            'progress_bars': run['progress_bars'], 'get_debug_info': dbg}
    t = full.pop('terms_cc_conj')
    c.prove('conjugation', isinstance(t, tuple) and len(t) == 1 and t[0] is conj)
    want = sel(COMP)
    want.pop('terms_cc_conj')
    same(c, 'computation', full, want)
    c.prove('run-kind', run['compute_grid'] is v[RUNS['grid']] and
            run['compute_profile'] is v[RUNS['profile']])
    c.prove('paths', ad is v[PATHS['ad']] and nad is v[PATHS['nad']] and pmodes is v[PATHS['poly']])


def plot_args(c):
    d, v = opaque()
    sel = lambda t: {k: v[q] for k, q in t.items()}
    custom = c.choice('use_custom_name', [True, False])
    put(d, 'plotting.load.use_custom_name', custom)
    if c.choice('runner', ['plot', 'analyze']) == 'plot':
        out = parser('plot_quadratic', 'QuadraticPlotParser', d).read_args()
    else:
        out = parser('analyze_quadratic', 'QuadraticAnalysisParser', d).read_args()
        same(c, 'analysis', out[4], sel(ANA))
    save, mode, plot, ld = out[:4]
    same(c, 'saving', save, sel(PSAVE))
    same(c, 'modes', mode, sel(MODE) | sel(LOG))
    same(c, 'plotting', plot, sel(PLOT))
    std = ld.pop('use_standard_format')
    same(c, 'loading', ld, sel(LOAD))
    c.prove('standard-format', std is (not custom))


# ------------------------------------------------------------------ whole runs
def rnd_value(c, key):
    r = c.rng
    i = lambda a, b: int(a + (b - a) * r.random())
    s = lambda: ''.join(chr(97 + i(0, 26)) for _ in range(i(1, 8)))
    if key in RUNS.values() or key == COMP['polytrope_comp']:
        return False
    if key == COMP['terms_cc_conj']:
        return [r.random() < .5 for _ in range(3)]
    if key.endswith('.alternative.directory_path') or key.endswith('.alternative.file_name'):
        return {} if r.random() < .5 else s()
    if key in TUPLES:
        return [s() for _ in range(i(1, 4))]
    if key in TUPLES.values() or key.startswith('analysis.') or key in LOG.values() or \
            key.startswith('plotting.plot.') or key.endswith('use_custom_name'):
        return r.random() < .5
    k = i(0, 6)
    return [s(), i(-50, 90), round(r.random() * 100 - 50, 6), r.random() < .5,
            [i(-3, 9) for _ in range(i(0, 4))], '/' + s() + '/' + s()][k]


def toml(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(toml(q) for q in v) + ']'
    return '{}' if v == {} else repr(v)


@contextlib.contextmanager
def scratch(argv):
    """an inlist folder in a scratch directory, with command-line arguments"""
    d = tempfile.mkdtemp(prefix='dv_inl_')
    old, cwd = sys.argv, os.getcwd()
    root = logging.getLogger()
    handlers, level = list(root.handlers), root.level
    try:
        base = Path(d).resolve() / 'AESolver'
        (base / 'inlists').mkdir(parents=True)
        (base / 'runs').mkdir()
        os.chdir(base)
        root.addHandler(logging.NullHandler())
        sys.argv = argv
        yield base
    finally:
        sys.argv = old
        os.chdir(cwd)
        root.handlers[:] = handlers
        root.setLevel(level)
        shutil.rmtree(d, ignore_errors=True)


def write(c, base, name, v):
    lines = [f'{k} = {toml(x)}' for k, x in v.items()]
    lines = ['"' + l.replace(' = ', '" = ', 1) if False else l for l in lines]
    (base / 'inlists' / name).write_text('# an inlist\n' + '\n'.join(lines) + '\n')


def none(v):
    return None if v == {} else v


def whole(c):
    """inlist file and command line -> constructor arguments of solver and saver"""
    m = loader.repo(RUN + 'solve_quadratic')
    own = c.choice('inlist', ['own', 'default', 'run_0.5', 'v1.2.beta'])
    run = c.choice('run', ['grid', 'profile', 'both', 'neither'])
    pol = c.choice('polytrope', [False, True])
    name = 'save_' + str(int(c.rng.random() * 1e6))
    fn = {'own': 'myinlist', 'default': 'inlist'}.get(own, own)
    argv = ['run.py'] + ([fn, 'toml', './inlists/'] if own != 'default' else []) + \
        ['--save_file_name', name]
    v = {k: rnd_value(c, k) for k in keys()}
    v[RUNS['grid']], v[RUNS['profile']] = run in ('grid', 'both'), run in ('profile', 'both')
    v[COMP['polytrope_comp']] = pol
    log = logging.getLogger('dv_run')
    log.handlers[:] = [logging.NullHandler()]
    with scratch(argv) as base:
        if '.' in fn:
            # another inlist whose name is the part before the first dot
            write(c, base, fn.split('.')[0] + '.toml', {k: rnd_value(c, k) for k in keys()})
        write(c, base, fn + '.toml', v)
        calls.clear()
        try:
            m.perform_complete_solve_run(log)
        except RuntimeError:
            c.prove('impossible-run', run in ('both', 'neither'))
            c.prove('nothing-computed', not calls)
            return
        c.prove('possible-run', run in ('grid', 'profile'))
        arg = lambda t: {k: none(v[q]) for k, q in t.items()}
        want = arg(COMP) | arg(POLY if pol and run == 'grid' else MODE)
        want['terms_cc_conj'] = tuple(want['terms_cc_conj'])
        lm = {'mode_' + q: [v[f'mode_info.{w}.{q}'] for w in WHO] for q in 'lm'}
        if run == 'grid':
            want['mode_selection_dict'] = arg(SEL) | lm
        else:
            want |= arg(VIEW) | {'cc_profile_selection_dict': arg(TRIAD) | lm, 'save_name': name}
        if run == 'grid' and pol:
            want |= {'ad_path': v[PATHS['poly']], 'nad_path': None}
        else:
            want |= {'ad_path': v[PATHS['ad']], 'nad_path': v[PATHS['nad']]}
        want['toml_use'] = True
        cls, a, k = calls[0]
        c.prove('solver', cls == ('Grid' if run == 'grid' else 'Profile'), cls)
        c.prove('command-line', len(a) == 1 and list(a[0]) == argv)
        il = k.pop('inlist_path')
        c.prove('inlist-path', Path(il).resolve() == base / 'inlists' / (fn + '.toml'), str(il))
        c.prove('argument-names', set(k) == set(want), f'{sorted(set(k) ^ set(want))}')
        for q, w in want.items():
            c.prove('argument', k.get(q, ...) == w and type(k.get(q)) is type(w),
                    f'{q}: {k.get(q)!r} instead of {w!r}')
        sig = signature('quadratic_grid' if run == 'grid' else 'quadratic_profile')
        c.prove('accepted', set(k) <= sig, f'{sorted(set(k) - sig)}')
        c.prove('computed', [x[0] for x in calls[1:2]] == [cls + '()'])
        rest = calls[2:]
        if run == 'profile':
            c.prove('nothing-saved', not rest)
        else:
            c.prove('saved', [x[0] for x in rest] == ['Saver', 'Saver()'])
            k = dict(rest[0][2])
            obj = k.pop('solving_object', None)
            c.prove('saved-solver', isinstance(obj, Grid))
            want = arg(SAVE) | {'save_name': name, 'polytropic': pol, 'nr_modes': 3}
            c.prove('saver-arguments', k == want, f'{k} {want}')


def signature(mod):
    """argument names of the real constructor (read from its source)"""
    import ast
    tree = ast.parse(open(f'{loader.REPO}/aesolver/aesolver/solver/{mod}.py').read())
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == '__init__':
            return {a.arg for a in n.args.args + n.args.kwonlyargs}
    return set()


def others(c):
    """plot and analysis runs"""
    kind = c.choice('runner', ['plot', 'analyze'])
    m = loader.repo(RUN + ('plot_quadratic' if kind == 'plot' else 'analyze_quadratic'))
    v = {k: rnd_value(c, k) for k in keys()}
    v['plotting.plot.show'] = False
    log = logging.getLogger('dv_run')
    log.handlers[:] = [logging.NullHandler()]
    fn = c.choice('inlist', ['inlist', 'run_0.5'])
    args = ['run.py', fn, 'toml', './inlists/'][:4 if '.' in fn else c.choice('arguments', [4, 1])]
    with scratch(args) as b:
        base = b.parent / 'amplitude_equations_solver'
        os.rename(b, base)
        os.chdir(base)
        if '.' in fn:
            write(c, base, fn.split('.')[0] + '.toml', {k: rnd_value(c, k) for k in keys()})
        write(c, base, fn + '.toml', v)
        calls.clear()
        (m.perform_complete_plotting_run if kind == 'plot' else m.perform_complete_analysis_run)(log)
        arg = lambda t: {k: none(v[q]) for k, q in t.items()}
        k = calls[0][2]
        ld = arg(LOAD) | {'use_standard_format': not v['plotting.load.use_custom_name']}
        c.prove('loading', k['load_information'] == ld)
        c.prove('saving', k['save_information'] == arg(PSAVE))
        if kind == 'plot':
            c.prove('plotting', k['plotting_dict'] == arg(PLOT))
            c.prove('plotted', [x[0] for x in calls[1:]] == ['generate_plots'])
        else:
            ana = arg(ANA)
            want = [n for q, n in (
                ('numbers_categories', 'generate_mode_triad_numbers_per_model'),
                ('q_Q1_condition', 'generate_counts_q_quality_factor_1_condition'),
                ('isolated_mode_properties', 'generate_isolated_triad_mode_properties'),
                ('isolated_stab_val_estimators', 'generate_isolated_triad_stab_val_estimators'),
                ('isolated_triad_observables', 'generate_isolated_triad_observables')) if ana[q]]
            c.prove('analyses', [x[0] for x in calls[1:]] == want)


def refused(c):
    """command lines without a save name, or with an inlist that does not exist, start nothing"""
    m = loader.repo(RUN + 'solve_quadratic')
    argv = c.choice('command line', [
        ['run.py'], ['run.py', 'inlist', 'toml', './inlists/'], ['run.py', 'x', 'y'],
        ['run.py', 'none', 'toml', './inlists/', '--save_file_name', 'a'],
        ['run.py', 'inlist', 'toml', './inlists/', '--other', 'a'],
        ['run.py', 'inlist', 'toml', './elsewhere/', '--save_file_name', 'a']])
    v = {k: rnd_value(c, k) for k in keys()}
    v[RUNS['grid']] = True
    with scratch(argv) as base:
        write(c, base, 'inlist.toml', v)
        calls.clear()
        bad = False
        try:
            m.perform_complete_solve_run(logging.getLogger('dv_run'))
        except (RuntimeError, OSError, SystemExit, ExceptionGroup):
            bad = True
        c.prove('refused', bad and not calls)


def tree(c, d):
    r = c.rng
    o = {}
    for i in range(int(r.random() * 5)):
        q = r.random()
        o[f'k{i}'] = tree(c, d - 1) if q < .4 and d else {} if q < .6 else \
            [1, 'x', False, 0, [], '', 2.5][int(r.random() * 7)]
    return o


def emptied(v):
    if isinstance(v, dict):
        return {k: None if x == {} and isinstance(x, dict) else emptied(x) for k, x in v.items()}
    return v


def flat(d, pre=''):
    for k, v in d.items():
        if isinstance(v, dict) and v:
            yield from flat(v, pre + k + '.')
        else:
            yield pre + k, v


def nothing(c):
    """empty tables are None at every depth; everything else is what was written"""
    m = loader.repo('inlist_handler.toml_inlist_handler').TomlInlistHandler
    t = tree(c, 3)
    with scratch([]) as b:
        write(c, b, 'a.toml', dict(flat(t)))
        got = m.get_inlist_values(str(b / 'inlists' / 'a.toml'))
    c.prove('values', got == emptied(t), f'{got} {t}')


def folders(c):
    """information folders of the inlist"""
    m = loader.repo('aesolver.read_load_info.read_info_dirs').InformationDirectoriesHandler
    ks = list(INFO.values()) + list(TUPLES.values())
    v = {k: rnd_value(c, k) for k in ks}
    with scratch([]) as b:
        write(c, b, 'a.toml', {'information_folders.' + k: x for k, x in v.items()})
        h = m([], toml_use=True, inlist_path=str(b / 'inlists' / 'a.toml'))
        h.parse_info_directories()
    want = {k: tuple(v[q]) if q in TUPLES and v[TUPLES[q]] else v[q] for k, q in INFO.items()}
    c.prove('folders', h.full_info == want, f'{h.full_info} {want}')
    cmp = ['base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix',
           'gyre_detail_substring', 'gyre_summary_substring']
    c.prove('comparison', h.gyre_comparison_info == {k: want[k] for k in cmp})
    c.prove('load', h.load_info == {k: want[k] for k in cmp + ['gyre_output_dir']})


def custom(c):
    """custom-format inlists: typed values, defaults overridden by the user's file"""
    m = loader.repo('inlist_handler.inlist_handler').InlistHandler
    r = c.rng
    i = lambda a, b: int(a + (b - a) * r.random())
    word = lambda: ''.join(chr(97 + i(0, 26)) for _ in range(i(1, 8)))

    def value():
        k = i(0, 9)
        if k == 0:
            b = r.random() < .5
            return b, [['True', 'TRUE'], ['False', 'FALSE']][not b][i(0, 2)]
        if k == 1:
            n = i(-999, 999)
            return n, str(n)
        if k == 2:
            x = round(r.random() * 200 - 100, 4)
            return x, repr(x)
        if k == 3:
            x = f'{i(1, 99)}{"eE"[i(0, 2)]}{i(-9, 9)}'
            return float(x), x
        if k == 4:
            q = '\'"'[i(0, 2)]
            s = [word(), '/' + word() + '/' + word() + '.in', word() + ' ' + word(), '8.0', 'None',
                 'True'][i(0, 6)]
            return s, q + s + q
        if k == 5:
            return None, 'None'
        v = [i(-99, 99) if k == 6 else round(r.random() * 100 - 50, 3) for _ in range(i(2, 5))]
        if k == 8:
            return tuple(v), '(' + ','.join(map(repr, v)) + ')'
        return v, '[' + ','.join(map(repr, v)) + ']'

    def text(d):
        out = ['% comment = 3', '']
        for k, (_, s) in d.items():
            out += [f'{k} = {s}' + (' % with = comment' if r.random() < .3 else '')]
            if r.random() < .3:
                out += ['  % another', '']
        return '\n'.join(out) + '\n'
    names = list(dict.fromkeys(word() + '_' + word() for _ in range(i(1, 8))))
    dflt = {k: value() for k in names}
    user = {k: value() for k in names if r.random() < .5}
    user |= {'own_' + word(): value() for _ in range(i(0, 3))}
    with scratch([]) as b:
        (b / 'defaults').mkdir()
        (b / 'defaults' / 'my.defaults').write_text(text(dflt))
        (b / 'inlists' / 'my.in').write_text(text(user))
        got = m.get_inlist_values(str(b / 'inlists' / 'my.in'))
    want = {k: v for k, (v, _) in (dflt | user).items()}
    c.prove('values', got == want and all(type(got[k]) is type(want[k]) for k in want),
            f'{got} instead of {want}')


def resolve(c):
    """a file is looked up at the given path first, then relative to the script"""
    m = loader.repo('path_resolver.resolve_paths')
    rel = c.choice('run path', ['..', '../../', '.'])
    here, there = c.choice('here', [True, False]), c.choice('there', [True, False])
    with scratch([]) as b:
        sub = b / 'runs' / 'deep'
        sub.mkdir()
        far = (sub / rel / 'data' / 'f.dat').resolve()
        near = b / 'inlists' / 'data' / 'f.dat'
        os.chdir(b / 'inlists')
        for on, p in ((here, near), (there, far)):
            if on:
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text('x')
        try:
            got = m.resolve_path_to_file([str(sub / 'run.py'), 'x'], 'f.dat', 'data',
                                         default_run_path=rel)
        except FileNotFoundError:
            c.prove('not-found', not here and not there)
        else:
            c.prove('found', (here or there) and got.resolve() == (near if here else far).resolve())


IN = 'util-tools/inlist_handler/'
AR = 'aesolver/aerunners/'
GP = 'util-tools/generic_parser/generic_parser.py:GenericParser.'
KW = dict(load=load, modules=MODS)
CONTRACTS = [
    Contract('solver-arguments', solve_args, rand=2, functions=[
        AR + 'solve_quadratic.py:QuadraticSolveParser.read_toml_args',
        AR + 'solve_quadratic.py:QuadraticSolveParser._convert_toml_input_list_to_tuple',
        GP + 'read_in_to_dict', GP + 'read_in_to_list', GP + 'get_ha'], **KW),
    Contract('plotter-analyzer-arguments', plot_args, rand=2, functions=[
        AR + 'plot_quadratic.py:QuadraticPlotParser.read_toml_args',
        AR + 'analyze_quadratic.py:QuadraticAnalysisParser.read_toml_args'], **KW),
    Contract('solve-runs', whole, rand=60, sym=False, functions=[
        AR + 'solve_quadratic.py:' + k for k in (
            '_get_path_to_inlist', '_get_and_parse_elements', '_perform_computations',
            '_save_data', 'perform_complete_solve_run')] + [
        GP + k for k in ('__init__', '_initialize_path_info', '_initialization_mode_1',
                         '_set_up_generic_argparser_groups_arguments', '_exists',
                         '_prepare_to_read_args', 'read_args')], **KW),
    Contract('plot-and-analysis-runs', others, rand=20, sym=False, functions=[
        AR + 'plot_quadratic.py:perform_complete_plotting_run',
        AR + 'analyze_quadratic.py:perform_complete_analysis_run'], **KW),
    Contract('refused-runs', refused, rand=12, sym=False, functions=[
        AR + 'solve_quadratic.py:_get_path_to_inlist',
        AR + 'data_modules/utility_functions.py:check_save_file_name'], **KW),
    Contract('empty-tables', nothing, rand=80, sym=False, functions=[
        IN + 'toml_inlist_handler.py:TomlInlistHandler.get_inlist_values',
        IN + 'toml_inlist_handler.py:TomlInlistHandler._adjust_for_none'], **KW),
    Contract('information-folders', folders, rand=30, sym=False, functions=[
        'aesolver/aesolver/read_load_info/read_info_dirs.py:InformationDirectoriesHandler.' + k
        for k in ('parse_info_directories', '_parse_toml_info_file', 'full_info', 'load_info',
                  'gyre_comparison_info')], **KW),
    Contract('custom-inlists', custom, rand=150, sym=False, functions=[
        IN + 'inlist_handler.py:InlistHandler.' + k for k in (
            'get_inlist_values', '_get_default_inlist_values', '_parse_inlist', '_typer')], **KW),
    Contract('file-lookup', resolve, rand=30, sym=False, functions=[
        'util-tools/path_resolver/resolve_paths.py:resolve_path_to_file']),
]
CONTRACTS[-1].load = load
