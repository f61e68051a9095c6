"""Scripts of the accompanying paper: the stability domains of its figure and its threshold value."""
import ast
import contextlib
import io
import math
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from . import _ae
from .P04 import same

DIR = 'VB_et_al_2024_additional_plot_compute_scripts/'
DOM, THR = DIR + 'dziembowski_subplot.py', DIR + 'compute_threshold_theta.py'
NAME = {p: 'dvfile_' + p.replace('/', '_').replace('.py', '').replace('-', '_')
        for p in (DOM, THR)}


def load():
    loader.setup()
    import matplotlib
    matplotlib.use('Agg')
    for p in (DOM, THR):
        loader.repo_file(p)


def quartic(t2, t3, d):
    """third Hurwitz determinant of the linearised amplitude equations, growth rate 1 for the parent
    and damping rates t2, t3 of the daughters, detuning d; and the damping sum"""
    s = 1 - t2 - t3
    return _ae.hurwitz4(_ae.charpoly(_ae.log_linearisation([1, -t2, -t3], d / s)))[2], s


def domain(c):
    """the domain drawn as stable is the Routh-Hurwitz domain of the three-mode fixed points"""
    m = loader.repo_file(DOM)
    t2, t3, q = c.real('theta2', pos=True), c.real('theta3', pos=True), c.real('q')
    s = 1 - t2 - t3
    c.assume(s != 0)
    grows = c.choice('damping-sum', [True, False])
    c.assume(s > 0 if grows else s < 0)
    v = m.corrected_dziembowski(c.arr([t2, 1.]), c.arr([t3, 2.]), q * s)[0]
    if grows:
        c.prove('unstable-when-driven', ~v if c.sym else not v)
        return
    h = _ae.hurwitz4(_ae.charpoly(_ae.log_linearisation([1, -t2, -t3], q)))
    c.prove('other-conditions', (h[0] > 0) & (h[1] > 0))
    same(c, 'stable<=>Routh-Hurwitz', v, h[2] > 0, margin=c.sym or abs(h[2]) > 1e-6 * (
        1 + t2 + t3) ** 6 * (1 + q * q) ** 2)


def solver(c):
    """the domain drawn is the one the solver uses for its verdict"""
    m = loader.repo_file(DOM)
    three = loader.repo('aesolver.stability_checker.three_mode.stab_checker_quadratic_three_sum')
    g1 = c.real('g1', pos=True)
    t2, t3, d = c.real('theta2', pos=True), c.real('theta3', pos=True), c.real('ratio')
    s = 1 - t2 - t3
    c.assume(s != 0)
    v = m.corrected_dziembowski(c.arr([t2]), c.arr([t3]), d)[0]
    g = [g1, -g1 * t2, -g1 * t3]
    w = three.check_corrected_dziembowski_conditions(c.arr(g), d / s)
    if c.sym:
        same(c, 'same-as-solver', v, (g[0] + g[1] + g[2] < 0) & w)
    else:
        h, _ = quartic(t2, t3, d)
        same(c, 'same-as-solver', v, sum(g) < 0 and bool(w), margin=abs(h) > 1e-6 * (
            1 + t2 + t3) ** 6 * (1 + (d / s) ** 2) ** 2 and abs(s) > 1e-9)


def original(c):
    """the domain hatched for comparison: with the sum of the damping ratios squared in the
    quartic's last term"""
    m = loader.repo_file(DOM)
    t2, t3, d = c.real('theta2', pos=True), c.real('theta3', pos=True), c.real('ratio')
    T = t2 + t3 - 1
    c.assume(T != 0)
    q2 = (d / T) ** 2
    p, s2, df = t2 * t3, (t2 + t3) ** 2, (t2 - t3) ** 2
    h = -T ** 3 - 2 * p + (-12 * p + T * (df + s2 + 2)) * q2 + \
        3 * (-6 * p + T * (df + 2 * s2 + 1)) * q2 * q2
    v = m.original_dziembowski(c.arr([t2]), c.arr([t3]), d)[0]
    sc = (1 + t2 + t3) ** 3 * (1 + q2) ** 2 if not c.sym else 1
    same(c, 'original', v, (T > 0) & (h > 0) if c.sym else T > 0 and h > 0,
         margin=c.sym or abs(h) > 1e-6 * sc)


# ------------------------------------------------------------------ the scripts as run
class Quiet:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: Quiet()


class Axes(Quiet):
    def __init__(self):
        self.im, self.hatch, self.text_, self.curve = [], [], [], []
        self.xaxis = self.yaxis = Quiet()

    def imshow(self, Z, **k):
        self.im.append((np.array(Z), k))

    def contourf(self, X, Y, Z, *a, **k):
        self.hatch.append((X, Y, np.array(Z)))

    def text(self, x, y, s, **k):
        self.text_.append(s)


class Plt(Quiet):
    def __init__(self):
        self.axes, self.saved, self.curves = [], [], []

    def subplots(self, nrows=1, ncols=1, **k):
        self.axes = np.array([Axes() for _ in range(nrows * ncols)], dtype=object)
        return Quiet(), self.axes

    def savefig(self, name, **k):
        self.saved.append((name, k.get('metadata', {})))

    def plot(self, x, y, *a, **k):
        self.curves.append((list(x), list(y)))


def script(path, plt, change):
    """run what the script does when started, from its own source, with user settings changed and a
    stand-in for pyplot; gives what it prints"""
    tree = ast.parse(open(f'{loader.REPO}/{path}').read())
    values = {k: v for k, v in change.items() if not callable(v)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in values:
            n.value = ast.copy_location(ast.Constant(values.pop(n.targets[0].id)), n.value)
    body = [n for n in tree.body if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test)]
    tree.body = [n for n in tree.body if n not in body]
    if values or len(body) != 1:
        return None                  # started in another way: nothing to run
    ns = dict(__name__='__main__')
    exec(compile(tree, f'{loader.REPO}/{path}', 'exec'), ns)
    ns['plt'] = plt
    for k, v in change.items():
        if callable(v):
            ns[k] = v(ns[k])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        exec(compile(ast.Module(body[0].body, []), f'{loader.REPO}/{path}', 'exec'), ns)
    return out.getvalue()


EXPONENTS = {True: [-1, 0, 1], False: [2, 3, 4]}


def panels(c):
    """each panel shows both domains for its own ratio, on its own grid, under a name that says so"""
    r = c.rng
    first, text = r.choice([True, False]), r.choice([True, False])

    def coarse(f):
        def g(*a, **k):
            d = f(*a, **k)
            full.update({k_: list(v) for k_, v in d.items()})
            return dict(d, dtheta=[(b - a_) / (r.randint(20, 45) - .5) for a_, b in
                                   zip(d['theta_min'], d['theta_max'])])
        return g
    full, plt = {}, Plt()
    if script(DOM, plt, dict(first_row=first, add_text=text,
                             get_grid_information=coarse)) is None:
        return
    c.prove('three-panels', len(plt.axes) == 3)
    tag = '_'.join(f'e{k}' for k in EXPONENTS[first])
    c.prove('file', len(plt.saved) == 1 and f'_{tag}_' in plt.saved[0][0] and
            ('annotated' in plt.saved[0][0]) == text, str(plt.saved))
    c.prove('file-description', all(f'{10. ** k:.2E}' in plt.saved[0][1]['Description']
                                    for k in EXPONENTS[first]))
    for i, (ax, k) in enumerate(zip(plt.axes, EXPONENTS[first])):
        d = 10. ** k
        if text:
            c.prove('panel-text', len(ax.text_) == 1 and f'10^{{{k}}}' in ax.text_[0])
        else:
            c.prove('panel-text', not ax.text_)
        (Z, kw), (X, Y, O) = ax.im[0], ax.hatch[0]
        c.prove('panel-domains', len(ax.im) == len(ax.hatch) == 1 and Z.shape == O.shape == X.shape)
        lo, hi = full['theta_min'][i], full['theta_max'][i]
        ext = kw['extent']
        c.prove('panel-extent', tuple(ext) == (lo, hi, lo, hi) and kw.get('origin') == 'lower')
        n = len(Z)
        x = [lo + (hi - lo) * j / n for j in range(n)]
        for j in range(0, n):
            if abs(X[0, j] - x[j]) > (hi - lo) / n or abs(Y[j, 0] - x[j]) > (hi - lo) / n:
                c.fail('panel-grid', f'{X[0, j]} {Y[j, 0]} {x[j]}')
                return
        for _ in range(60):
            a, b = r.randrange(n), r.randrange(n)
            t2, t3 = X[a, b], Y[a, b]
            c.prove('panel-axes', t2 == X[0, b] and t3 == Y[a, 0])
            M = np.array(_ae.log_linearisation([1., -t2, -t3], d / (1 - t2 - t3)), dtype=float)
            ev = np.linalg.eigvals(M)
            c.prove('panel-stability', bool(Z[a, b]) == bool((ev.real < 0).all()),
                    f'{t2} {t3} {d} {Z[a, b]} {ev}',
                    margin=np.min(np.abs(ev.real)) > 1e-5 * np.max(np.abs(ev)))
            c.prove('panel-original', bool(O[a, b]) == bool(
                loader.repo_file(DOM).original_dziembowski(np.array([t2]), np.array([t3]), d)[0]))


def grid(c):
    """the default grids resolve the domains"""
    m = loader.repo_file(DOM)
    for first in (True, False):
        g = m.get_grid_information(first_row=first)
        c.prove('ratios', all(abs(math.log10(v) - k) < 1e-12 for v, k in
                              zip(g['domega_gamma1'], EXPONENTS[first])))
        c.prove('ranges', all(0 < a < b and (b - a) / s > 500 for a, b, s in
                              zip(g['theta_min'], g['theta_max'], g['dtheta'])))
    r = c.rng
    lo, n, s = r.uniform(.01, 3), r.randint(2, 9), r.uniform(.01, 2)
    X, Y, e = m.comp_meshgrid(theta_min=lo, theta_max=lo + (n - .5) * s, dtheta=s)
    c.prove('mesh', X.shape == Y.shape == (n, n) and all(
        abs(X[i, j] - lo - j * s) < 1e-9 and abs(Y[i, j] - lo - i * s) < 1e-9
        for i in range(n) for j in range(n)))
    c.prove('extent', tuple(e) == (lo, lo + (n - .5) * s) * 2)


# ------------------------------------------------------------------ threshold
def nearest(t, a, k):
    """the k triads closest to amplitude ratio one from above and from below"""
    up = sorted((v - 1, i) for i, v in enumerate(a) if v > 1)[:k]
    dn = sorted((1 - v, i) for i, v in enumerate(a) if v <= 1)[:k]
    i = [j for _, j in up + dn]
    return [t[j] for j in i], [a[j] for j in i]


def line(x, y):
    """least squares of y on x, with standard errors of slope and intercept"""
    n = len(x)
    mx, my = sum(x) / n, sum(y) / n
    sxx = sum((v - mx) ** 2 for v in x)
    b = sum((v - mx) * (w - my) for v, w in zip(x, y)) / sxx
    a = my - b * mx
    res = sum((w - a - b * v) ** 2 for v, w in zip(x, y)) / (n - 2)
    sb = math.sqrt(max(res, 0) / sxx)
    return a, b, sb * math.sqrt(sum(v * v for v in x) / n), sb


def numbers(t):
    import re
    return [float(v) for v in re.findall(r'-?\d+\.?\d*(?:[eE][-+]?\d+)?(?![\w.])', t)]


def threshold(c):
    """the threshold is the regression of the damping ratio on the amplitude ratio at ratio one,
    through the k closest triads on either side"""
    r = c.rng
    k = r.choice([2, 3, 3, 4])
    up, dn = r.randint(k, 7), r.randint(k, 12)
    a = [r.uniform(1.01, 4) for _ in range(up)] + [r.uniform(.01, .99) for _ in range(dn)]
    r.shuffle(a)
    t = [r.uniform(.01, 40) for _ in a]
    own = r.random() < .3
    plt = Plt()
    change = {} if own else dict(my_nr_closest_points=k,
                                 get_values_for_interpolation=lambda f: lambda: (t, a))
    out = script(THR, plt, change)
    if out is None:
        return
    if own:
        k = 3
        t, a = loader.repo_file(THR).get_values_for_interpolation()
        c.prove('table', len(t) == len(a) == 21 and all(v > 0 for v in t + a))
    x, y = nearest(t, a, k)
    A, B, sA, sB = line(y, x)
    tol = dict(tol=1e-7, atol=1e-9)
    L = [s for s in out.split('\n') if s.strip()]
    c.prove('printed', len(L) == 3)
    for s, (p, q) in zip(L, ((A + B, math.hypot(sA, sB)), (B, sB), (A, sA))):
        v = numbers(s.split(':', 1)[1].split('(')[0])
        c.prove('printed-two', len(v) == 2, s)
        if len(v) == 2:
            c.eq('printed-value', v[0], p, **tol)
            c.eq('printed-error', v[1], q, tol=1e-6, atol=1e-9)
    (px, py), = plt.curves
    c.prove('drawn-points', sorted(py) == sorted(y))
    for p, q in zip(px, py):
        c.eq('drawn-line', p, A + B * q, **tol)


def differences(c):
    """excess and deficit over one; neither counts on the other's side"""
    m = loader.repo_file(THR)
    r = c.rng
    a = [r.choice([r.uniform(0, 3), 1.]) for _ in range(r.randint(1, 9))]
    p, q = m.get_difference_arrays(m.generate_plot_dataframe([1.] * len(a), a))
    for v, x, y in zip(a, p, q):
        if v > 1:
            c.prove('above', abs(x - v + 1) < 1e-12 and math.isnan(y))
        else:
            c.prove('below', abs(y - v + 1) < 1e-12 and math.isnan(x))


def regression(c):
    """boundary and uncertainty for every regression result"""
    m = loader.repo_file(THR)
    res = types.SimpleNamespace(slope=c.real('slope'), intercept=c.real('intercept'),
                                stderr=c.real('sb', pos=True), intercept_stderr=c.real('sa', pos=True))
    x, y = c.reals('theta', 4), c.reals('amplitude', 4)
    args = []

    def linregress(p, q):
        args.append((list(p), list(q)))
        return res
    old = m.linregress
    m.linregress = linregress
    try:
        got, u, b = m.perform_linear_regression(xx_k=x, yy_k=y)
    finally:
        m.linregress = old
    c.prove('result', got is res and len(args) == 1)
    for v, w in zip(args[0][0] + args[0][1], list(y) + list(x)):
        c.eq('regression-of-theta-on-amplitude', v, w)
    c.eq('boundary', b, res.slope + res.intercept)
    c.eq('uncertainty-squared', u * u, res.stderr * res.stderr +
         res.intercept_stderr * res.intercept_stderr)
    c.prove('uncertainty-positive', u >= 0)


ST = 'aesolver.stability_checker.three_mode.stab_checker_quadratic_three_sum'
CONTRACTS = [
    Contract('domain', domain, modules=[NAME[DOM]], load=load, functions=[
        f'{DOM}:corrected_dziembowski']),
    Contract('domain-of-solver', solver, modules=[NAME[DOM], ST], load=load, functions=[
        f'{DOM}:corrected_dziembowski',
        'aesolver/aesolver/stability_checker/three_mode/stab_checker_quadratic_three_sum.py:'
        'check_corrected_dziembowski_conditions']),
    Contract('original-domain', original, modules=[NAME[DOM]], load=load, functions=[
        f'{DOM}:original_dziembowski']),
    Contract('regression', regression, modules=[NAME[THR]], load=load, functions=[
        f'{THR}:perform_linear_regression']),
    Contract('panels', panels, load=load, sym=False, rand=8, crash='all', functions=[
        f'{DOM}:{f}' for f in ('get_dict_axes_information', 'get_figure_information',
                               'generate_loop_data', 'create_figure_meta_data',
                               'generate_save_name', 'save_figure', 'add_text_label')],
        note='bounded: the script as run, on coarse grids'),
    Contract('grids', grid, load=load, sym=False, rand=20, crash='all', functions=[
        f'{DOM}:comp_meshgrid', f'{DOM}:get_grid_information']),
    Contract('threshold', threshold, load=load, sym=False, rand=60, crash='all', functions=[
        f'{THR}:get_k_smallest_points_masks', f'{THR}:get_k_smallest_points',
        f'{THR}:print_result', f'{THR}:get_values_for_interpolation'],
        note='bounded: random tables'),
    Contract('differences', differences, load=load, sym=False, rand=60, crash='all', functions=[
        f'{THR}:get_difference_arrays', f'{THR}:generate_plot_dataframe']),
]
