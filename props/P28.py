"""GYRE helpers: tables of tidal eigenvalues, unit labels, removal of end points."""
import contextlib
import os
import shutil
import sys
import tempfile
import types

import numpy as np
from dv import loader
from dv.runner import Contract

LT = 'lam_tar_gyre.lam_tar_gyre'
GC = 'gyre_cutter.gyre_cutter'
UC = 'gyre_unit_converter.gyre_unit_converter'
MODS = [LT, GC, UC]


def load():
    for m in MODS:
        loader.repo(m)


def order(c):
    """k = l - |m| counts the nodes of the Hough function in the limit without rotation"""
    g = loader.repo(LT).GyreLambdas
    deg, m = c.int('l', lo=0, hi=40), c.int('m', lo=-40, hi=40)
    k = g.get_k(deg, m)
    c.prove('negative-m', k == deg + m if bool(m < 0) else k == deg - m)
    c.prove('package-alias', loader.repo('lam_tar_gyre').gravito_inertial_k(deg, m) == k)


TF = '''
class TarFit:
    @classmethod
    def load(cls, fn):
        o = cls()
        o.fn = fn
        return o

    def lam(self, nu):
        return (self.fn, nu)
'''


@contextlib.contextmanager
def gyre_dir():
    d = tempfile.mkdtemp(prefix='dv_gyre_')
    path, env = list(sys.path), dict(os.environ)
    try:
        os.makedirs(d + '/src/tar')
        os.makedirs(d + '/data/tar')
        with open(d + '/src/tar/gyre_tar_fit.py', 'w') as f:
            f.write(TF)
        yield d
    finally:
        sys.path[:] = path
        os.environ.clear()
        os.environ.update(env)
        sys.modules.pop('gyre_tar_fit', None)
        shutil.rmtree(d, ignore_errors=True)


def exits(f, *a):
    try:
        f(*a)
    except SystemExit:
        return True
    return False


def table(c):
    """the table of (m, k) is the one that is read; a missing table ends the run"""
    m_ = loader.repo(LT)
    with gyre_dir() as d:
        have = set()
        for i in range(30):
            deg = int(c.rng.integers(0, 5)) if hasattr(c.rng, 'integers') else c.rng.randint(0, 4)
            m = c.rng.randint(-deg, deg) if not hasattr(c.rng, 'integers') else \
                int(c.rng.integers(-deg, deg + 1))
            if (deg, m) not in have and c.rng.random() < .8:
                have.add((deg, m))
                k = deg - abs(m)
                open(f'{d}/data/tar/tar_fit.m{m:+d}.k{k:+d}.h5', 'w').close()
        if c.rng.random() < .5:
            o = m_.GyreLambdas(d)
        else:
            os.environ['GYRE_DIR'] = d
            o = m_.GyreLambdas()
        for deg in range(5):
            for m in range(-deg, deg + 1):
                nu = c.rng.random() * 10 - 5
                want = f'{d}/data/tar/tar_fit.m{m:+d}.k{deg - abs(m):+d}.h5'
                if (deg, m) in have or any(b - abs(a) == deg - abs(m) and a == m
                                           for b, a in have):
                    fn, got = o.get_lambda(deg, m, nu)
                    c.prove('table', os.path.normpath(fn) == os.path.normpath(want),
                            f'l={deg} m={m}: read {fn}')
                    c.prove('spin', got == nu)
                else:
                    c.prove('missing-table', exits(o.get_lambda, deg, m, nu), f'l={deg} m={m}')
        hs = sorted(have)[:3]
        if hs:
            nus = [float(i) + .5 for i in range(len(hs))]
            got = o.get_lambda([h[0] for h in hs], [h[1] for h in hs], nus)
            c.prove('list', len(got) == len(hs) and all(
                g == o.get_lambda(h[0], h[1], n) for g, h, n in zip(got, hs, nus)))
        for bad in (d + '/nowhere', d + '/src', None):
            c.prove('bad-directory', exits(m_.GyreLambdas, bad), repr(bad))


CUTS = {
    'structure_coefficient_cuts': ['_c_1', '_V_2', '_As', '_U'],
    'polytropic_cuts': [f'{k}_mode_{i}' for k in ('_xi_h', '_xi_r', '_y_1', '_y_2')
                        for i in (1, 2, 3)],
    'mesa_gyre_cuts': [f'{k}_mode_{i}' for k in ('_deul_phi', '_eul_phi', '_xi_h', '_xi_r', '_y_1',
                                                 '_y_2') for i in (1, 2, 3)] +
    ['_gamma_1_adDer_profile'],
    'pre_profile_load_cuts': ['_x', '_M_r', '_rho', '_P', '_Gamma_1', '_brunt_N2_profile'],
    'pre_profile_load_cuts_POLY': ['_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile',
                                   '_Gamma_1', '_brunt_n2_profile'],
    'profile_load_cuts_analytic_POLY': [
        '_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile', '_Gamma_1',
        '_brunt_n2_profile', '_drho', '_drho2', '_drho3', '_dP', '_dP2', '_dP3', '_dgravpot',
        '_dgravpot2', '_dgravpot3']}


def cuts(c):
    """exactly the named attributes lose exactly the requested points"""
    E = loader.repo(GC)
    E = getattr(E, 'EnumerationCutter', None) or E.GYRECutter
    which = c.choice('list', list(CUTS) + ['own list', 'own list, polytrope'])
    end = c.choice('points', ['centre', 'surface', 'both'])
    n = c.choice('n', [4, 2] if end != 'both' else [4, 5])
    o = types.SimpleNamespace()
    every = sorted({a for v in CUTS.values() for a in v} | {'_own_1', '_own_2', '_other'})
    val = {}
    for a in every:
        v = c.reals(a, n)
        val[a] = list(v)
        setattr(o, a, v)
    kw = {}
    if which.startswith('own'):
        arg, hit = ['_own_1', '_own_2'], ['_own_1', '_own_2']
        kw['polytrope'] = which.endswith('polytrope')
    else:
        arg, hit = which.replace('_POLY', ''), CUTS[which]
        kw['polytrope'] = which.endswith('_POLY')
        arg = c.choice('case', [arg, arg.upper()])
    if end == 'centre':
        E.cutter(o, arg, **kw)
    elif end == 'surface':
        E.cutter(o, arg, cut_slice=np.s_[:-1], **kw)
    else:
        E.cutter(o, arg, cut_slice=np.s_[1:-1], **kw)
    sl = {'centre': np.s_[1:], 'surface': np.s_[:-1], 'both': np.s_[1:-1]}[end]
    for a in every:
        got, want = list(getattr(o, a)), val[a][sl] if a in hit else val[a]
        c.prove('size', len(got) == len(want), a)
        for g, w in zip(got, want):
            c.eq('cut' if a in hit else 'untouched', g, w)


def labels(c):
    U = loader.repo(UC).GYREFreqUnitConverter
    want = {'CYC_PER_DAY': 'd$^{-1}$', 'HZ': 'Hz', 'UHZ': '$\\mu$Hz', 'RAD_PER_SEC': 'rad s$^{-1}$'}
    k = c.choice('unit', list(want) + ['NONE', '', 'hz', 'ACOUSTIC_CUTOFF'])
    for t in (k, k.encode()):
        c.prove('label', U.convert(t) == want.get(k, ''), repr(t))


LTF = 'gyre-tools/lam_tar_gyre/lam_tar_gyre.py:GyreLambdas.'
CONTRACTS = [
    Contract('node-count', order, load=load, modules=MODS, rand=40, functions=[LTF + 'get_k']),
    Contract('tables', table, load=load, modules=MODS, rand=20, sym=False, functions=[
        LTF + k for k in ('__init__', '_set_gtf', '_set_base_gyre_dir', '_sgnval',
                          '_retrieve_name_gyre_file', 'get_lambda')]),
    Contract('point-removal', cuts, load=load, modules=MODS, rand=40, functions=[
        'gyre-tools/gyre_cutter/gyre_cutter.py:EnumerationCutter.cutter']),
    Contract('unit-labels', labels, load=load, modules=MODS, rand=20, functions=[
        'gyre-tools/gyre_unit_converter/gyre_unit_converter.py:GYREFreqUnitConverter.convert']),
]
