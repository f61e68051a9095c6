"""Histograms: each datum in its bin, the documented normalisation, the most likely binning."""
import contextlib
import importlib.util
import io
import os
import subprocess
import sys
import sysconfig
import types

import numpy as np
from dv import cppsym, loader, native
from dv.runner import Contract
from dv.term import Unsupported
from .P08 import patched

H = 'hogg_jacky.'
CY = 'histogram_maker/hogg_jacky/cython_jacky/'
PYX = ['cython_jacky_bin_widths', 'cython_jacky_binning', 'cython_jacky_empirical_density_hist',
       'cython_jacky_empirical_probability_conversion_factor',
       'cython_jacky_empirical_probability_hist', 'cython_jacky_jacky']
BLAS, NUMEXPR, NUMPY, CYTHON = (H + x for x in (
    'blas_jacky', 'numexpr_jacky', 'numpy_iterator_jacky', 'cython_jacky.cy_jacky'))
SHARED = H + 'shared.shared_computation_functions'
MODS = [BLAS, NUMEXPR, NUMPY, SHARED]
_ext = {}


def load():
    """the package of the working tree; its Cython modules are built from the working tree"""
    loader.setup()
    p = f'{loader.REPO}/histogram_maker'
    if p not in sys.path:
        sys.path.insert(0, p)
    if 'hogg_jacky' not in sys.modules:
        for m in MODS:
            loader.repo(m)


def cython_built():
    """cy_jacky on top of compiled extension modules, built from the working tree"""
    if 'm' in _ext:
        if isinstance(_ext['m'], str):
            raise Unsupported(_ext['m'])
        return _ext['m']
    load()
    d = native.scratch()
    inc = f'-I{sysconfig.get_paths()["include"]} -I{np.get_include()}'
    ps = [subprocess.Popen(
        f'cp {loader.REPO}/{CY}{n}.pyx {d}/ && '
        f'"{sys.executable}" -W ignore -m cython -3 {d}/{n}.pyx -o {d}/{n}.c && '
        f'gcc -O1 -w -fopenmp -fPIC -shared {inc} {d}/{n}.c -o {d}/{n}.so', shell=True,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for n in PYX]
    outs = [p.communicate()[0] for p in ps]
    if any(p.returncode for p in ps):
        _ext['m'] = 'Cython modules do not build: ' + ''.join(outs)[-400:]
        raise Unsupported(_ext['m'])
    pk = H + 'cython_jacky'
    pkg = types.ModuleType(pk)
    pkg.__path__ = [f'{loader.REPO}/{CY}']
    sys.modules[pk] = pkg
    for n in PYX:
        spec = importlib.util.spec_from_file_location(f'{pk}.{n}', f'{d}/{n}.so')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        sys.modules[f'{pk}.{n}'] = m
        setattr(pkg, n, m)
    _ext['m'] = loader.repo(CYTHON)
    return _ext['m']


def module(name):
    return cython_built() if name == 'cython' else loader.repo(
        {'blas': BLAS, 'numexpr': NUMEXPR, 'numpy': NUMPY, 'iterator': NUMPY}[name])


# ------------------------------------------------------------ the definition
def edges(x, B, log):
    if not log:
        return x.min() + (x.max() - x.min()) * np.arange(B + 1) / B
    a, b = np.log10(x.min()), np.log10(x.max())
    return 10. ** (a + (b - a) * np.arange(B + 1) / B)


def counts(x, e, log):
    """number of data per bin; the outermost data belong to the outermost bins"""
    n = np.zeros(len(e) - 1)
    for v in x:
        k = sum(1 for g in e[1:-1] if (v > g if log else v >= g))
        n[k] += 1
    return n


def likelihood(n, w, a):
    """Hogg (2008), eq. (10)"""
    return np.sum(n * np.log((n + a - 1) / ((np.sum(n) + len(n) * a - 1) * w)))


def close_to_edge(x, e):
    i = np.array([v for v in x if v not in (x.min(), x.max())])
    return len(i) and len(e) > 2 and \
        np.min(np.abs(i[:, None] / e[None, 1:-1] - 1)) < 1e-9


KINDS = [dict(empirical_probability=True), dict(empirical_probability=False,
                                                 empirical_density=True),
         dict(empirical_probability=False)]


def normalised(n, w, kind):
    return [n / n.sum(), n / n.sum() / w, n][kind]


def data(r, log, lo=2, hi=30):
    n = r.randint(lo, hi)
    s = r.choice([1., 1e-7, 1e5])
    x = [(10 ** r.uniform(-3, 3) if log else r.gauss(r.choice([0, 3]), 2.)) * s for _ in range(n)]
    if n > 3 and r.random() < .3:
        x[r.randrange(n)] = x[r.randrange(n)]
    return np.array(x)


def best(c):
    """the histogram returned is that of the most likely combination of smoothing and bins"""
    r = c.rng
    log = r.random() < .5
    name = r.choice(['blas', 'numexpr', 'cython', 'iterator'] + ([] if log else ['numpy']))
    m = module(name)
    fn = 'hogg_jackknife_likelihood_' + name + ('_log' if log else '')
    x = data(r, log, *r.choice([(), (), (100, 300)]))
    if r.random() < .4:
        x = np.insert(x, r.randint(0, len(x)), [np.nan] * r.randint(1, 2))
    v = x[~np.isnan(x)]
    nb = np.array(r.sample(r.choice([range(1, 9), range(1, 9), range(1, 101)]), r.randint(1, 4)))
    al = np.array(r.sample([.01, .1, 1., 1.5, 3., 10., 100.], r.randint(1, 4)))
    got = []
    for a in al:
        for B in nb:
            e = edges(v, B, log)
            if close_to_edge(v, e):
                return
            n, w = counts(v, e, log), np.diff(e)
            got.append((likelihood(n, w, a), a, B, n, e, w))
    fine = [g for g in got if not np.isnan(g[0])]
    if not fine:
        return
    top = max(g[0] for g in fine)
    if sum(1 for g in fine if g[0] > top - 1e-9 * abs(top) - 1e-12) > 1:
        return                                # equally likely
    L, a, B, n, e, w = next(g for g in fine if g[0] == top)
    kind = r.randrange(3)
    kw = dict(KINDS[kind], verbose=r.random() < .2, return_binning_parameters=r.random() < .8)
    if name == 'cython':
        kw['use_parallel'] = r.random() < .3
    old = x.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        h, ed, bw, par = getattr(m, fn)(x, r.choice([al, list(al)]), r.choice([nb, list(nb)]), **kw)
    c.prove('data-unchanged', np.array_equal(x, old, equal_nan=True))
    if kw['return_binning_parameters']:
        c.prove('most-likely', (par['binning alpha'], par['nr of bins']) == (a, B),
                f'{name} {log}: {par} instead of {a} {B}')
    else:
        c.prove('no-parameters', par is None)
    c.prove('bins', len(h) == B and len(ed) == B + 1, f'{name} {log}: {len(h)} of {B}')
    c.eq('edges', ed / np.abs(e).max(), e / np.abs(e).max(), tol=1e-9)
    c.eq('widths', np.broadcast_to(bw, w.shape) / w.max(), w / w.max(), tol=1e-9)
    c.eq('histogram', h / normalised(n, w, kind).max(),
         normalised(n, w, kind) / normalised(n, w, kind).max(), tol=1e-9)


def special(c):
    """no data, undefined data, a single datum"""
    r = c.rng
    log = r.random() < .5
    name = r.choice(['blas', 'numexpr', 'cython', 'iterator'] + ([] if log else ['numpy']))
    f = getattr(module(name), 'hogg_jackknife_likelihood_' + name + ('_log' if log else ''))
    k = r.randrange(5)
    x = [np.array([]), np.full(3, np.nan), np.array([r.uniform(1, 9)]), None, None][k]
    al, nb = np.array([1.]), np.array([2, 3])
    if k == 4:
        x, (al, nb) = np.array([1., 2., 3.]), r.choice([(None, nb), (al, None)])
    elif log and r.random() < .3 and k < 3:
        x = -np.abs(data(r, False))
        with contextlib.redirect_stdout(io.StringIO()):
            got = f(x, al, nb, negative_values=True)
        c.prove('negative-logarithm', all(g is None for g in got))
        return
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            got = f(x, al, nb, custom_bin_width=[.25], verbose=r.random() < .5, **r.choice(KINDS))
        except SystemExit:
            c.prove('missing-input-ends-run', k >= 3)
            return
    c.prove('missing-input-ends-run', k < 3)
    if k < 2:
        c.prove('no-histogram', len(got) == 4 and all(g is None for g in got))
    else:
        c.prove('single-datum', list(got[0]) == [1] and got[2] == .25 and
                got[1][0] <= x[0] <= got[1][1])


# ------------------------------------------------------------ given bins
def place(c, B, zero=False):
    """data of a histogram of B equal bins: the lowest, the highest, and others anywhere, as
    lowest + width * (bin + fraction)"""
    lo, w = c.real('lo'), c.real('w', pos=True)
    if zero:
        lo = 0. * w if c.sym else 0.
    if c.sym:
        c.hint(*range(-1, B + 1))
    extra = c.choice('data', [(), (0, B - 1), (B // 2,)])
    x, k, fr = [lo, lo + B * w], [0, B - 1], []
    for i, b in enumerate(extra):
        f = c.real(f'f{i}', lo=0, hi=1)
        c.assume(f < 1)
        if not c.sym:
            c.assume(1e-6 < f < 1 - 1e-6)
        x.append(lo + w * (b + f))
        fr.append(f)
        k.append(b)
    if len(extra) == 2:
        x, k = x[::-1], k[::-1]
    n = [k.count(b) for b in range(B)]
    return c.arr(x), lo, w, n, fr


def evaluate(expr, env):
    """the documented meaning of numexpr.evaluate"""
    def total(a, axis=0):
        return np.sum(a)
    return eval(expr, {'__builtins__': {}, 'sum': total, 'log': np.log, 'sqrt': np.sqrt,
                       'abs': np.abs, 'floor': np.floor, 'where': np.where}, dict(env))


class Blas:
    """the documented meaning of the BLAS routines used"""
    @staticmethod
    def daxpy(x, y, n=None, a=1.0):
        return a * x + y

    @staticmethod
    def dscal(a, x):
        for i in range(len(x)):
            x[i] = a * x[i]
        return x

    @staticmethod
    def dasum(x):
        return np.sum(np.abs(x))

    @staticmethod
    def ddot(x, y):
        return np.sum(x * y)


def interpreted(c, st, name):
    """external routines with their documented meaning (symbolic runs)"""
    if not c.sym:
        return
    if name == 'blas':
        st.enter_context(patched(loader.repo(BLAS), daxpy=Blas.daxpy, dscal=Blas.dscal,
                                 dasum=Blas.dasum, ddot=Blas.ddot))
    elif name == 'numexpr':
        def ev(expr, local_dict=None, global_dict=None, **k):
            fr = sys._getframe(1)
            env = dict(fr.f_globals, **fr.f_locals) if local_dict is None else dict(local_dict)
            return evaluate(expr, {**(global_dict or {}), **env})
        st.enter_context(patched(loader.repo(NUMEXPR), numexpr=types.SimpleNamespace(evaluate=ev)))


def given_width(c):
    """histogram for given bins: numbers per bin, divided by the number of data (and the width)"""
    name = c.choice('routine', ['blas', 'numexpr'] + ([] if c.sym else ['cython']))
    B = c.choice('bins', [1, 2, 3] + ([] if c.sym else [4, 6, 40, 300]))
    kind = c.choice('kind', range(3))
    sub = c.choice('range', ['all', 'given minimum', 'part', 'part above zero', 'lowest below'])
    x, lo, w, n, fr = place(c, B, sub == 'part above zero')
    m = module(name)
    kw = dict(KINDS[kind])
    if sub == 'lowest below':     # rounding may leave the lowest datum below the first bin
        g = c.real('g', lo=0, hi=.5)
        c.assume(g > 0)
        c.assume(2 * g < 1)
        for f in fr:
            c.assume(g < f)
        kw['my_data_min'] = lo + g * w
        kw['additional_checks'] = True
    elif sub != 'all':
        kw['my_data_min'] = lo if sub != 'part above zero' else 0.
    kw['min_nr_bins'] = B
    if sub[:4] == 'part':      # e.g. a population within the bins of another one
        if len(x) < 3 or B == 1:
            return
        keep = [i for i in range(len(x)) if i != (len(x) - 1 if x[0] is lo else 0)]
        x = x[[i for i in range(len(x)) if not _same(x[i], lo)]]
        n = [n[0] - 1] + n[1:]
    N = sum(n)
    with contextlib.ExitStack() as st:
        interpreted(c, st, name)
        if name == 'blas':
            h = m.histogram_blas_spec_width(x, w, B, 0.0, **kw)
        else:
            h = getattr(m, f'histogram_{name}_spec_width')(x, w, 0.0, nr_bins=B, **kw)
    c.prove('bins', len(h) == B, f'{name}: {len(h)} instead of {B}')
    for k in range(B):
        want = [n[k] / N, n[k] / (N * w), n[k]][kind]
        c.eq('bin', h[k], want)


def _same(a, b):
    return a is b or (not hasattr(a, 't') and not hasattr(b, 't') and a == b) or \
        (hasattr(a, 't') and hasattr(b, 't') and a.t is b.t)


def given_edges(c):
    """histogram for given edges: edge < datum <= next edge, the outermost bins are closed"""
    name = c.choice('routine', ['blas', 'numexpr', 'numpy'] + ([] if c.sym else ['cython']))
    B = c.choice('bins', [1, 2, 3] + ([] if c.sym else [5, 40, 300]))
    kind = c.choice('kind', range(3))
    e = [c.real('e0', pos=True)]
    for i in range(B):
        e.append(e[-1] + c.real(f'w{i}', pos=True))
    x, n = [], [0] * B
    for i, (b, where) in enumerate(c.choice('data', [
            [(0, 'in')], [(0, 'low'), (B - 1, 'high')], [(0, 'below'), (B - 1, 'above')],
            [(B - 1, 'in'), (0, 'in'), (B // 2, 'in')], [(B // 2, 'high'), (0, 'low')]])):
        f = c.real(f'f{i}', lo=0, hi=1)
        c.assume(f > 0)
        c.assume(f < 1)
        x.append({'in': e[b] + f * (e[b + 1] - e[b]), 'low': e[b], 'high': e[b + 1],
                  'below': e[0] - f * e[0], 'above': e[-1] + f}[where])
        n[b] += 1
    m = module(name)
    kw = dict(KINDS[kind], min_nr_bins=B)
    fn = {'numpy': 'histogram_log_spec_edges'}.get(name, f'histogram_{name}_log_spec_edges')
    with contextlib.ExitStack() as st:
        interpreted(c, st, name)
        h = getattr(m, fn)(c.arr(x), c.arr(e), **kw)
    c.prove('bins', len(h) == B)
    for k in range(B):
        c.eq('bin', h[k], [n[k] / len(x), n[k] / (len(x) * (e[k + 1] - e[k])), n[k]][kind])


def no_histogram(c):
    """nothing to bin: no histogram"""
    name = c.choice('routine', ['blas', 'numexpr', 'numpy', 'cython'])
    m = module(name)
    x, e = c.choice('input', [(None, np.arange(3.)), (np.array([1.]), None),
                              (np.array([]), np.arange(3.))])
    kw = c.choice('kind', KINDS)
    fn = {'numpy': 'histogram_log_spec_edges'}.get(name, f'histogram_{name}_log_spec_edges')
    c.prove('none', getattr(m, fn)(x, e, **kw) is None)
    c.prove('negative', getattr(m, fn)(np.array([1.]), np.array([1., 2.]), negative_values=True,
                                       **kw) is None)
    if name == 'blas':
        h = m.histogram_blas_spec_width(x, None if e is None else 1., 2, 0., **kw)
    elif name == 'numpy':
        h = m.histogram_spec_width(x, None if e is None else 2, **kw)
    else:
        h = getattr(m, f'histogram_{name}_spec_width')(x, None if e is None else 1., 0., **kw)
    c.prove('none', h is None)


D = 'histogram_maker/hogg_jacky/'
CONTRACTS = [
    Contract('given-width', given_width, load=load, modules=MODS, rand=300, functions=[
        D + 'blas_jacky.py:histogram_blas_spec_width', D + 'blas_jacky.py:histogram_blas',
        D + 'blas_jacky.py:empirical_*', D + 'blas_jacky.py:_blas_*',
        D + 'numexpr_jacky.py:histogram_numexpr_spec_width',
        D + 'numexpr_jacky.py:_numexpr_histogram_counts', D + 'numexpr_jacky.py:_numexpr_binning'],
        note='up to 4 bins and 4 data with symbolic minimum, width and positions; Cython bounded'),
    Contract('given-edges', given_edges, load=load, modules=MODS, rand=300, functions=[
        D + 'shared/shared_computation_functions.py:*histogram_log_counts',
        D + 'blas_jacky.py:histogram_blas_log_spec_edges',
        D + 'numexpr_jacky.py:histogram_numexpr_log_spec_edges',
        D + 'numpy_iterator_jacky.py:histogram_log_spec_edges'],
        note='up to 3 bins with symbolic edges and data; Cython bounded'),
    Contract('most-likely', best, load=load, modules=MODS, rand=300, sym=False, functions=[
        D + 'blas_jacky.py:hogg_jackknife_*', D + 'numexpr_jacky.py:hogg_jackknife_*',
        D + 'numpy_iterator_jacky.py:hogg_jackknife_*',
        D + 'cython_jacky/cy_jacky.py:hogg_jackknife_*'],
        note='bounded: random data sets of up to 30 data, 8 bins'),
    Contract('special-data', special, load=load, modules=MODS, rand=100, sym=False),
    Contract('no-data', no_histogram, load=load, modules=MODS, rand=60, sym=False),
]
