"""Model files: which files are loaded for a triad, and what is read from them."""
import contextlib
import os
import re
import types

import numpy as np
from dv import loader
from dv.runner import CRASH, Contract
from .P08 import patched
from .P25 import Stored, folder

LEVEL = 'exploration'
M = 'aesolver.model_handling.'
LOADER, READER, SUB = M + 'load_models', M + 'read_models', M + 'subselection_classes'
ENUM = M + 'enumeration_files.enumeration_models'
MODS = [LOADER, READER, SUB, ENUM, M + 'enumeration_files.enumeration_read',
        M + 'enumeration_files.enumeration_dimensions', M + 'enumeration_files']


def load():
    loader.setup()
    for m in MODS:
        loader.repo(m)


def h5file(path, **k):
    import h5py
    with h5py.File(path, 'w') as f:
        for a, v in k.items():
            if a.startswith('at_'):
                f.attrs[a[3:]] = v
            else:
                f[a] = v


PRE = ['detail', 'my_substring', 'model1_detail', 'profile_l3_detail', 'detail_n+7_x', 'M3.0-a']


def mode_name(r, mode):
    l, m, n, g = mode
    pad = r.choice([1, 1, 2, 5])
    return f'{"g" if g else "p"}_mode{r.choice(["_", ".", ""])}l{l}{r.choice(["", "_", "."])}' \
        f'm{"+" if m >= 0 else "-"}{abs(m):0{r.choice([1, 2])}d}{r.choice(["", "_"])}n+{n:0{pad}d}'


def modes(c):
    """the files of a triad are those of its degrees, orders and radial orders, in that order;
    a missing or ambiguous file ends the run"""
    r = c.rng
    poly = r.random() < .4
    want = [(r.randint(1, 3), r.randint(-2, 2), r.randint(1, 30), r.random() < .8)
            for _ in range(3)]
    if r.random() < .2:
        want[2] = want[1]
    one = r.choice(PRE)
    pre = [one] * 3
    sub = one
    kind = r.choice(['str', 'str', 'list', 'None', 'tuple'])
    if kind == 'list':
        pre = [r.choice(PRE) for _ in range(3)]
        sub = list(pre)
    elif kind == 'None':
        sub = None
    elif kind == 'tuple':
        sub = (one[:3], one[2:])
    files = {}
    for p, w in zip(pre, want):
        files.setdefault((p, w), 1)
        for _ in range(r.randint(0, 4)):       # neighbours
            l, m, n, g = w
            v = r.choice([(l + 10, m, n, g), (l, -m, n, g), (l, m, n * 10 + 1, g), (l, m, n, not g),
                          (l, m, n + 100, g), (l + 1, m, n, g), (l, m + 1, n, g), (l, m, n + 1, g),
                          (l, m, n % 10, g)])
            files.setdefault((r.choice([p, p, r.choice(PRE)]), v), 1)
    if r.random() < .15:
        del files[r.choice(list(files))]
    elif r.random() < .15:
        files[r.choice(list(files))] = 2

    def hit(i, f):
        p, w = f
        s = sub[i] if kind == 'list' else sub
        return w == want[i] and (s is None or (
            all(x in p for x in s) if isinstance(s, tuple) else s in p))
    with folder():
        os.mkdir('d')
        tags = {}
        for f, k in files.items():
            for j in range(k):
                name = f'{f[0]}{"_b" * j}_{mode_name(r, f[1])}.{r.choice(["h5", "h5", "HDF5"])}'
                if name in os.listdir('d'):
                    continue
                tags.setdefault(f, []).append(float(len(tags) + j * 100))
                h5file('d/' + name, at_M_star=1., at_R_star=1., at_L_star=1.,
                       eta=tags[f][-1], Omega_rot=tags[f][-1])
        for i in range(3):                  # a name that leaves one of the numbers out
            if r.random() < .3 and not re.search('[lmn][+]?[0-9]', pre[i]):
                parts = [*re.findall('[gp]_mode|[lmn][+-]?[0-9]+', mode_name(r, want[i]))]
                parts.remove(r.choice(parts))
                h5file('d/' + '_'.join([pre[i], *parts]) + '.h5', Omega_rot=-1.)
        os.makedirs(f'd/{pre[0]}_{mode_name(r, want[0])}_dir.h5', exist_ok=True)
        exp = [[t for f, ts in tags.items() if hit(i, f) for t in ts] for i in range(3)]
        unit = r.choice(['CGS', 'CGS', 'SI'])
        L = loader.repo(LOADER).ModelLoader(
            base_dir='', infer_dir=False, unit_system=unit, search_l=[w[0] for w in want],
            search_m=[w[1] for w in want], search_n=[w[2] for w in want], **(
                dict(polytrope_oscillation_output_dir='d', use_polytrope_data=True,
                     polytrope_oscillation_substrings=sub) if poly else
                dict(gyre_output_dir='d', gyre_detail_substring=sub)))
        good = all(len(e) == 1 for e in exp)
        dim = []

        def note(d):
            dim.append(d)
            d['star'] = [d.get('G'), d.get('M_star'), d.get('R_star')]
        m, R = r.choice([(), (r.uniform(1, 9), r.uniform(1, 9))]) or (None, None)
        given = {} if m is None else dict(polytrope_mass=m, polytrope_radius=R)
        try:
            with patched(loader.repo(LOADER).ReImPoly, dimensionalize=note), \
                    patched(loader.repo(LOADER).DimGyre, dimensionalize=note), \
                    open(os.devnull, 'w') as null, contextlib.redirect_stderr(null):
                L.read_data_files(
                    g_modes=[w[3] for w in want], progress_bars=r.random() < .3,
                    gyre_summary=r.random() < .1, **given, **{
                        'polytrope_oscillation' if poly else 'gyre_detail': True})
        except SystemExit:
            c.prove('files-exist', not good, f'{want} in {sorted(os.listdir("d"))}')
            return
        got = [float(d['Omega_rot']) for d in (
            L.polytrope_oscillation_models if poly else L.gyre_details)]
        c.prove('files', good and got == [e[0] for e in exp],
                f'{got} instead of {exp}: {want} {sub} in {sorted(os.listdir("d"))}')
        # each mode is dimensionalized once, when G and the star's mass and radius are known
        data = L.polytrope_oscillation_models if poly else L.gyre_details
        c.prove('dimensional', sorted(map(id, dim)) == sorted(map(id, data)))
        si = unit == 'SI'
        for d in data:
            g, M, rad = d['star']
            c.eq('G', d.get('G', 0.), 6.6743e-11 if si else 6.6743e-8, tol=1e-4)
            c.prove('G-known', g == d['G'])
            if poly:
                c.eq('mass', M, 3 * 1.98841e33 if m is None else m, tol=1e-4)
                c.eq('radius', rad, 4.5 * 6.957e10 if m is None else R, tol=1e-4)
            else:
                c.eq('mass', M, 1e-3 if si else 1., tol=1e-9)
                c.eq('radius', rad, 1e-2 if si else 1., tol=1e-9)


def mesa_text(head, cols, n):
    """profile in MESA's fixed format"""
    def cell(v):
        if isinstance(v, str):
            return f'{v:>40}'
        if isinstance(v, int):
            return f'{v:>40d}'
        m, e = f'{v:.16E}'.split('E')
        return f'{m}E{e[0]}{int(e[1:]):03d}'.rjust(40)
    rows = [list(range(1, len(head) + 1)), list(head), list(head.values())]
    out = [' '.join(map(cell, x)) for x in rows] + [' ' * 40 * len(head)]
    out += [' '.join(map(cell, range(1, len(cols) + 1))), ' '.join(map(cell, cols))]
    out += [' '.join(cell(v[i]) for v in cols.values()) for i in range(n)]
    return '\n'.join(out) + '\n'


HEAD = ['model_number', 'num_zones', 'initial_mass', 'Teff', 'star_age', 'center_eta',
        'version_number', 'compiler', 'star_mdot']


def column(r, n, kind=None):
    kind = kind or r.choice(['int', 'pos', 'mixed', 'late', 'small', 'jump'])
    if kind == 'int':
        return [int(i + 1) for i in range(n)]
    v = [r.uniform(.1, 9) * 10. ** r.randint(-12, 12) for _ in range(n)]
    if kind == 'mixed':
        v = [x * r.choice([-1, 1]) for x in v]
    elif kind == 'late':          # e.g. convective cores: negative towards the centre
        k = r.randint(0, n)
        v = [x if i < k else -x for i, x in enumerate(v)]
    elif kind == 'small':
        v = [x * 10. ** -r.choice([90, 150, 290]) for x in v]
    elif kind == 'jump':
        k = r.randint(0, n)
        v = [0. if i < k else -x for i, x in enumerate(v)]
    return [float(x) for x in v]


def profile(r, n):
    names = [k for k in loader.repo(ENUM).MESAProfileFiles.attrs() if k not in HEAD]
    cols = {}
    for k in r.sample(names[:60], r.randint(3, 9)) + ['unknown_column', 'another']:
        cols[k] = column(r, n, 'int' if k == 'zone' else None)
    ks = list(cols)
    r.shuffle(ks)
    head = {k: (r.randint(1, 99999) if k in ('model_number', 'num_zones') else
                '"abc"' if k in ('version_number', 'compiler') else
                r.choice([-1, 1]) * r.uniform(1, 9) * 10. ** r.randint(-12, 12)) for k in HEAD}
    return head, {k: cols[k] for k in ks}


def same(a, b):
    """equal up to the rounding of the decimal conversion"""
    return abs(float(a) - b) <= 1e-14 * abs(b)


def mesa(c):
    """numbers read from a MESA profile are the numbers in the file"""
    r = c.rng
    n = r.choice([2, 5, 99, 101, 150, 400])
    head, cols = profile(r, n)
    with folder():
        os.mkdir('d')
        with open('d/star_profile_M3.dat', 'w') as f:
            f.write(mesa_text(head, cols, n))
        for k in r.sample(['gyre_profile.dat', 'star_profile_M3.dat.GYRE', 'star_profile.dat_gyre',
                           'star_profile_M3.txt', 'star_profile_M3_GYRE.dat', 'other_M3.dat',
                           'star_profile_M3.dat.bak', 'star_profile_M3.dat~',
                           'star_profile_M3.data', 'star_profile_M3dat', 'star_profile_M3_dat'], r.randint(0, 4)):
            with open('d/' + k, 'w') as f:
                f.write('x\n')
        os.mkdir('d/star_profile_M3x.dat')
        L = loader.repo(LOADER).ModelLoader(
            base_dir='', infer_dir=False, mesa_output_dir='d',
            mesa_profile_substrings=r.choice([('star', 'profile'), ['profile', 'star_'],
                                              ('star_profile',)]))
        try:
            L.read_data_files(mesa_profile=True)
        except SystemExit:
            c.prove('profile-found', False, str(os.listdir('d')))
            return
        D, = L.mesa_profile
    known = loader.repo(ENUM).MESAProfileFiles.attrs()
    c.prove('attributes', set(D) == {k for k in list(cols) + list(head) if k in known},
            str(set(D) ^ {k for k in list(cols) + list(head) if k in known}))
    for k, v in cols.items():
        if k in D:
            c.prove('column', len(D[k]) == n and all(same(a, b) for a, b in zip(D[k], v)),
                    f'{k}: ' + str([(a, b) for a, b in zip(D[k], v) if not same(a, b)][:3]))
    for k, v in head.items():
        if k in D:
            ok = str(D[k]).strip('"') == v.strip('"') if isinstance(v, str) else \
                same(D[k], v)
            c.prove('header', ok, f'{k}: {D[k]} instead of {v}')


def mesa_missing(c):
    """no, or more than one, structure file ends the run"""
    r = c.rng
    poly = r.random() < .4
    with folder():
        os.mkdir('d')
        k = r.choice([0, 2])
        for i in range(k):
            if poly:
                h5file(f'd/p{i}_n_3_0.h5', at_n_poly=3., z=np.arange(3.))
            else:
                h, cs = profile(r, 3)
                with open(f'd/p{i}_n_3_0.dat', 'w') as f:
                    f.write(mesa_text(h, cs, 3))
        L = loader.repo(LOADER).ModelLoader(
            base_dir='', infer_dir=False, mesa_output_dir='d', polytrope_model_output_dir='d',
            mesa_profile_substrings=('p', 'n_3'), polytrope_model_substrings=('p', 'n_3_0'))
        try:
            L.read_data_files(mesa_profile=not poly, polytrope_model=poly)
        except SystemExit:
            return
        c.prove('missing-structure-ends-run', False, f'{k} files')


def hdf5(c):
    """data sets and attributes of an HDF5 model file are read as stored; others are left out"""
    r = c.rng
    E = loader.repo(ENUM)
    cls = r.choice([E.GYREDetailFiles, E.PolytropeModelFiles, E.PolytropeOscillationModelFiles])
    names = r.sample(list(dict.fromkeys(cls.attrs())), 6) + ['unknown']
    vals = {}
    for k in names:
        vals[k] = r.choice([
            lambda: r.uniform(-9, 9), lambda: r.randint(-9, 9),
            lambda: np.array([r.uniform(-9, 9) for _ in range(r.randint(1, 5))]),
            lambda: np.array([(r.uniform(-9, 9), r.uniform(-9, 9)) for _ in range(3)],
                             dtype=[('re', '<f8'), ('im', '<f8')])])()
    at = {k for k in names if r.random() < .5}
    with folder():
        h5file('x.h5', **{('at_' if k in at else '') + k: v for k, v in vals.items()})
        D, = loader.repo(READER).ModelReader(enumeration_class=cls).data_file_reader(
            my_dir='.', subselection_method=lambda name, additional_substring: True,
            structure_file=True)
    c.prove('attributes', set(D) == set(names) - {'unknown'}, str(set(D) ^ set(names)))
    for k, v in D.items():
        c.prove('value', np.array_equal(np.asarray(v), np.asarray(vals[k])),
                f'{k}: {v} instead of {vals[k]}')


def stored(c):
    """whatever the numbers in an HDF5 model file are, they are what is read"""
    E = loader.repo(ENUM)
    cls = [E.GYREDetailFiles, E.PolytropeModelFiles, E.PolytropeOscillationModelFiles][
        c.choice('class', range(3))]
    place = c.choice('place', range(3))       # all attributes, all data sets, alternating
    known = list(dict.fromkeys(cls.attrs()))
    root, vals = {('attrs', ''): {}}, {}
    for i, k in enumerate(known + ['unknown', 'unknown_2']):
        if i % 5 == 4:
            continue                          # not in the file
        at = place == 0 or place == 2 and i % 2
        vals[k] = c.real('v_' + k) if at or i % 3 == 0 else c.reals('v_' + k, 2)
        if at:
            root['attrs', ''][k] = vals[k]
        else:
            root[k] = vals[k]
    opened = []

    def read(path, mode='r'):
        opened.append(os.path.normpath(path))
        c.prove('read-only', mode == 'r')
        return Stored(root, c.sym)
    R = loader.repo(READER)
    with folder():
        for n in ('x.h5', 'y.h5'):
            open(n, 'w').close()
        with patched(R, h5=types.SimpleNamespace(File=read)):
            D, = R.ModelReader(enumeration_class=cls).data_file_reader(
                my_dir='.', subselection_method=lambda name, additional_substring: name == 'x.h5',
                structure_file=True)
    c.prove('file', opened == ['x.h5'])
    c.prove('attributes', set(D) == set(vals) & set(known), str(set(D) ^ set(vals)))
    for k, v in D.items():
        c.eq('value', v, vals[k])


def polytrope(c):
    """the polytrope structure file is the one with all substrings and the suffix"""
    r = c.rng
    got = []

    class PaSi:
        def __init__(self, model_info_dictionary_list, model_mass, model_radius):
            got.append((model_info_dictionary_list, model_mass, model_radius))
            self.property_dict = {'extra': 5}
    with folder():
        os.mkdir('d')
        h5file('d/polytrope_n_3_0.h5', at_n_poly=3., z=np.arange(4.))
        for k in r.sample(['polytrope_n_3_5.h5', 'poly_n_3_0.h5', 'polytrope_n_3_0.txt',
                           'polytrope_n_3_0.h5.bak', 'polytrope_n_3_0_h5'], r.randint(0, 4)):
            h5file('d/' + k, at_n_poly=9., z=np.arange(2.))
        m, R = r.uniform(1, 9), r.uniform(1, 9)
        L = loader.repo(LOADER).ModelLoader(
            base_dir='', infer_dir=False, polytrope_model_output_dir='d', use_polytrope_data=True,
            unit_system=r.choice(['CGS', 'cgs']),
            polytrope_model_substrings=r.choice([('polytrope', 'n_3_0'), ['n_3_0', 'polytrope']]))
        try:
            with patched(loader.repo(LOADER), PaSi=PaSi):
                L.read_data_files(polytrope_model=True, polytrope_mass=m, polytrope_radius=R)
        except SystemExit:
            c.prove('model-found', False, str(os.listdir('d')))
            return
        D, = L.polytrope_model
        c.prove('model', D['n_poly'] == 3. and list(D['z']) == [0, 1, 2, 3] and D['extra'] == 5)
        c.prove('mass-radius', got[0][1:] == (m, R))
        c.prove('G', abs(D['G'] / 6.6743e-8 - 1) < 1e-3)


def infer(c):
    """directories are inferred only when there is exactly one candidate"""
    r = c.rng
    kinds = ['MESA', 'GYRE', 'polytrope_model', 'polytrope_oscillation']
    with folder() as d:
        found = {k: [] for k in kinds}
        for k in kinds:
            for i in range(r.choice([0, 1, 1, 1, 2])):
                n = r.choice([k.lower(), k.upper(), 'my_' + k, k + '_out']) + str(i)
                os.mkdir(n)
                found[k].append(os.path.join(d, n))
            if r.random() < .3:
                open('file_' + k, 'w').close()
        given = {k: r.choice([None, None, 'given']) for k in kinds}
        L = loader.repo(LOADER).ModelLoader(
            base_dir=d, infer_dir=True, mesa_output_dir=given['MESA'],
            gyre_output_dir=given['GYRE'], polytrope_model_output_dir=given['polytrope_model'],
            polytrope_oscillation_output_dir=given['polytrope_oscillation'])
        for k in kinds:
            got = getattr(L, f'_{k.lower()}_dir')
            want = given[k] or (found[k][0] if len(found[k]) == 1 else None)
            c.prove('directory', got == want, f'{k}: {got} instead of {want}')


F = 'aesolver/aesolver/model_handling/'
FILES = CRASH + (OSError, KeyError, TypeError, RuntimeError)
CONTRACTS = [
    Contract('mode-files', modes, load=load, modules=MODS, rand=250, sym=False, crash=FILES,
             functions=[
        F + 'subselection_classes.py:GYREDetailSubSelector.*',
        F + 'subselection_classes.py:PolytropeOscillationModelSubSelector.*',
        F + 'read_models.py:ModelReader.data_file_reader']),
    Contract('mesa-profile', mesa, load=load, modules=MODS, rand=80, sym=False, crash=FILES,
             functions=[
        F + 'read_models.py:ModelReader._dat_reader',
        F + 'subselection_classes.py:MESAProfileSubSelector.*']),
    Contract('hdf5-file', hdf5, load=load, modules=MODS, rand=100, sym=False, crash=FILES,
             functions=[
        F + 'read_models.py:ModelReader._hdf5_reader']),
    Contract('model-values', stored, load=load, modules=MODS, rand=30, functions=[
        F + 'read_models.py:ModelReader._hdf5_reader', F + 'read_models.py:ModelReader._read_file',
        F + 'enumeration_files/enumeration_read.py:EnumReadInfo.reader']),
    Contract('polytrope-model', polytrope, load=load, modules=MODS, rand=50, sym=False, crash=FILES,
             functions=[
        F + 'subselection_classes.py:PolytropeModelSubSelector.*',
        F + 'load_models.py:ModelLoader.read_data_files']),
    Contract('structure-missing', mesa_missing, load=load, modules=MODS, rand=20, sym=False, crash=FILES),
    Contract('directories', infer, load=load, modules=MODS, rand=60, sym=False, crash=FILES,
             functions=[
        F + 'load_models.py:ModelLoader._infer_dirs']),
]
