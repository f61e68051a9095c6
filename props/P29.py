"""Comparison figures of adiabatic and non-adiabatic modes, and profiles of their stellar model."""
import contextlib
import io
import os
import re
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from .P24 import ENUM, h5file, mesa_text, mode_name, profile
from .P25 import folder

PKG = 'aesolver.ad_nad_comparer.'
CMP, GYRE, MESA, SUP = PKG + 'comparer', PKG + 'plotting.gyre_plotter', \
    PKG + 'plotting.mesa_plotter', PKG + 'plotting.plotter'
F = 'aesolver/aesolver/ad_nad_comparer/'


def load():
    loader.setup()
    import matplotlib
    matplotlib.use('Agg')
    for m in (CMP, GYRE, MESA, SUP):
        loader.repo(m)


class Quiet:
    def __getattr__(self, k):
        return lambda *a, **kw: Quiet()


class Axes(Quiet):
    def __init__(self):
        self.lines, self.legend_shown, self.title, self.lim, self.lab = [], False, '', {}, {}
        self.xaxis = self.yaxis = Quiet()

    def plot(self, x, y, *a, label=None, **k):
        self.lines.append((label, list(x), list(y)))

    def legend(self, *a, **k):
        self.legend_shown = True

    def set_title(self, t, **k):
        self.title = t

    def _set(self, w, *a, **k):
        v = a[0] if len(a) == 1 else a
        if k:
            v = (k.get('left', k.get('bottom')), k.get('right', k.get('top')))
        self.lim[w] = tuple(v)

    def set_xlim(self, *a, **k):
        self._set('x', *a, **k)

    def set_ylim(self, *a, **k):
        self._set('y', *a, **k)

    def set_xlabel(self, t, **k):
        self.lab['x'] = t

    def set_ylabel(self, t, **k):
        self.lab['y'] = t


class Plt(Quiet):
    def __init__(self):
        self.figures = []

    def subplots(self, nrows=1, ncols=1, **k):
        axs = [Axes() for _ in range(nrows * ncols)]
        self.figures.append(axs)
        return Quiet(), (axs[0] if len(axs) == 1 else tuple(axs))


@contextlib.contextmanager
def drawing():
    p = Plt()
    mods = [loader.repo(GYRE), loader.repo(MESA)]
    old = [m.plt for m in mods]
    for m in mods:
        m.plt = p
    try:
        yield p.figures
    finally:
        for m, o in zip(mods, old):
            m.plt = o


def curve(c, name, got, want):
    if len(got) != len(want):
        c.fail(name, f'{len(got)} points instead of {len(want)}')
        return
    for a, b in zip(got, want):
        c.eq(name, a, b)


def lines(c, ax, want, name, legend=True):
    """the curves of these axes are exactly the wanted ones, under their labels"""
    got = [l[0] for l in ax.lines]
    c.prove(f'{name}-labels', sorted(map(str, got)) == sorted(str(w[0]) for w in want), f'{got}')
    if sorted(map(str, got)) != sorted(str(w[0]) for w in want):
        return
    for lab, x, y in want:
        g, = [l for l in ax.lines if l[0] == lab]
        curve(c, f'{name}-x', g[1], x)
        curve(c, f'{name}-y', g[2], y)
    if legend and any(w[0] is not None for w in want):
        c.prove(f'{name}-legend', ax.legend_shown)


FRAMES = [(b'INERTIAL', 'inertial'), ('COROT_I', 'corot_i'), (b'COROT_O', 'corot_o')]
UNITS = [(b'CYC_PER_DAY', r'd$^{-1}$'), ('UHZ', r'$\mu$Hz'), (b'NONE', '')]


def mode(c, n, tag, i, lmn):
    """one calculated mode; degrees, frequencies (used in titles only) are plain numbers"""
    d = dict(x=c.reals(f'x{tag}{i}', n), M_r=c.reals(f'm{tag}{i}', n),
             M_star=c.real(f'M{tag}{i}', pos=True), l=lmn[0], m=lmn[1], n_g=lmn[2],
             n_p=7, n_pg=99, freq=1.25 + i + (.5 if tag == 'nad' else 0),
             freq_units=UNITS[i][0], freq_frame=FRAMES[i][0])
    for q in ('xi_r', 'xi_h', 'eul_phi'):
        d[q] = {'re': c.reals(f'{q}re{tag}{i}', n), 'im': c.reals(f'{q}im{tag}{i}', n)}
    return d


LMN = [(2, -2, 31), (1, 1, 24), (3, 0, 17)]


def world(c, n):
    sets = {t: [mode(c, n, t, i, LMN[i]) for i in range(3)] for t in ('ad', 'nad')}
    # what the figures have to show, before the plotter gets hold of the data
    want = {t: [dict(x=list(d['x']), mass=[v / d['M_star'] for v in d['M_r']],
                     **{q: {k: list(v) for k, v in d[q].items()}
                        for q in ('xi_r', 'xi_h', 'eul_phi')}) for d in s]
            for t, s in sets.items()}
    return loader.repo(GYRE).AdNadComparisonGYREPlotter(
        gyre_ad=sets['ad'], gyre_nad=sets['nad']), want


def pair(want, i, xq, yq, part, xpart=None):
    out = []
    for t, lab in (('ad', 'adiabatic'), ('nad', 'non-adiabatic')):
        w = want[t][i]
        x, y = w[xq], w[yq]
        if isinstance(x, dict):
            x = x[xpart]
        out.append((lab, x, y if part is None else y[part]))
    return out


def title(c, t, i):
    """the modes, their two frequencies (with unit) and the frame"""
    l, m, n = LMN[i]
    f = 1.25 + i
    c.prove('title-mode', re.sub(r'\s', '', t).find(f'({l},{m},{n})') >= 0, t)
    c.prove('title-frequencies', f'{f}/{f + .5} {UNITS[i][1]}' in t, t)
    c.prove('title-frame', f'({FRAMES[i][1]} frame)' in t, t)


def figure(c):
    """a comparison figure draws the asked part of the asked quantity of both calculations of the
    asked mode"""
    n = c.choice('nodes', [2, 3])
    i = c.choice('mode', [0, 1, 2])
    kind = c.choice('figure', ['both', 'real', 'imaginary', 'plain', 'complex-x', 'default'])
    bounds = c.choice('bounds', [None, 'tuple', 'dict'])
    xq = c.choice('abscissa', ['x', 'mass'])
    yq = c.choice('ordinate', ['xi_r', 'xi_h', 'eul_phi'])
    P, want = world(c, n)
    kw = dict(x_quantity=xq, y_quantity=yq, mode_nr=i + 1, x_label='r-axis', y_label='y-axis')
    if kind == 'both':
        kw.update(real_quantity_y=[True, False], y_label=['re-axis', 'im-axis'])
    elif kind == 'imaginary':
        kw.update(real_quantity_y=False)
    elif kind == 'real':
        kw.update(real_quantity_y=True)
    elif kind == 'plain':
        kw.update(real_quantity_y=None, y_quantity='M_r')
    elif kind == 'complex-x':
        kw.update(real_quantity_x=False, x_quantity='eul_phi', real_quantity_y=True)
    lo, hi, b, t = .25, .75, -3., 4.
    if bounds == 'tuple':
        kw.update(x_bounds=(lo, hi), y_bounds=(b, t))
    elif bounds == 'dict':
        kw.update(x_bounds={'left': lo, 'right': hi}, y_bounds={'bottom': b, 'top': t})
    with drawing() as figs:
        P.figure_comparison(**kw)
    c.prove('one-figure', len(figs) == 1 and len(figs[0]) == (2 if kind == 'both' else 1))
    axs = figs[0]
    if kind == 'plain':
        masses = {k: [[v * s for v in w['mass']] for w in ws] for (k, ws), s in
                  zip(want.items(), (P._gyre_ad[i]['M_star'], P._gyre_nad[i]['M_star']))}
        exp = [(lab, want[k][i][xq], masses[k][i])
               for k, lab in (('ad', 'adiabatic'), ('nad', 'non-adiabatic'))]
        lines(c, axs[0], exp, 'plain')
    elif kind == 'complex-x':
        lines(c, axs[0], pair(want, i, 'eul_phi', yq, 're', 'im'), 'complex-x')
    elif kind == 'both':
        for ax, part, lab in zip(axs, ('re', 'im'), ('re-axis', 'im-axis')):
            exp = pair(want, i, xq, yq, part)
            lines(c, ax, exp, 'panel', legend=False)
            c.prove('panel-axis-label', ax.lab.get('y') == lab)
        c.prove('panel-legend', any(a.legend_shown for a in axs))
    else:
        lines(c, axs[0], pair(want, i, xq, yq, 'im' if kind == 'imaginary' else 're'), 'single')
    title(c, ' '.join(a.title for a in axs), i)
    c.prove('x-label', [a.lab['x'] for a in axs if 'x' in a.lab] == ['r-axis'])
    for a in axs:
        # without bounds the axes are left to matplotlib
        c.prove('bounds', a.lim == ({} if bounds is None else {'x': (lo, hi), 'y': (b, t)}),
                str(a.lim))


def eigenfunctions(c):
    """the figures of a triad: both parts of both displacement components, for each mode"""
    n = 2
    radius = c.choice('radius', [True, False])
    P, want = world(c, n)
    o = object.__new__(loader.repo(CMP).AdNadComparer)
    o._gyre_plotter = P
    with drawing() as figs:
        if radius:
            o.generate_mode_eigenfunction_comparison_figures(radius_profiles=True)
        else:
            o.generate_mode_eigenfunction_comparison_figures()
    triad_figures(c, figs, want, radius)


def triad_figures(c, figs, want, radius):
    xq = 'x' if radius else 'mass'
    c.prove('figures-per-triad', len(figs) == 6 and all(len(f) == 2 for f in figs))
    if len(figs) != 6:
        return
    for k, axs in enumerate(figs):
        i = k // 2
        # the component is the one on the axis label
        for ax in axs:
            m = re.fullmatch(r'\$(Re|Im)\[\\xi_(R|H)\]\$', ax.lab.get('y', ''))
            c.prove('label-names-component', m is not None, str(ax.lab))
            if m is None:
                return
            exp = pair(want, i, xq, 'xi_r' if m[2] == 'R' else 'xi_h', m[1].lower())
            lines(c, ax, exp, 'displacement', legend=False)
            c.prove('range', ax.lim.get('x') == (0., 1.))
        if isinstance(axs[0], Axes):
            title(c, axs[0].title, i)
        c.prove('abscissa-label', [t.strip()[:1] for a in axs if (t := a.lab.get('x', ''))] ==
                ['r' if radius else 'm'])
    shown = sorted(a.lab['y'] for f in figs for a in f)
    c.prove('all-components', len(set(shown)) == 4 and all(shown.count(s) == 3 for s in shown))


# ------------------------------------------------------------------ stellar profiles
# what the standard figures show: (quantity, legend) per curve
SAME = ('h1', 'h2', 'he3', 'he4')
MIX = ('log_D_mix', 'log_D_conv', 'log_D_ovr')
STANDARD = [[(q, q) for q in SAME],
            [('brunt_N2', r'N$^2$'), ('brunt_N2_structure_term', r'N$^2_{structure}$'),
             ('brunt_N2_composition_term', r'N$^2_{composition}$')],
            [('lamb_S2', None)], [('csound', None)], [(('hyeq_lhs', 'hyeq_rhs'), None)],
            [('gamma_1_adDer', None)], [(q, q) for q in MIX] + [('log_D_minimum', 'log_D_min')],
            [('pressure', None)], [('logRho', None)], [('logT', None)],
            [('grada', r'$\Delta_a$'), ('gradT', r'$\Delta_T$'), ('gradr', r'$\Delta_r$')]]
YLAB = ['x', 'N$^2$', 'S$^2$', 'c$_{s}$', 'lhs - rhs', r'(d$\Gamma_1$/dr)$_S$', 'log D', 'P',
        r'log $\rho$', 'log T', r'$\Delta$']
NEED = sorted({q for f in STANDARD for s, _ in f for q in ((s,) if isinstance(s, str) else s)}
              | {'radius', 'mass'})


def big(c, v):
    m = v[0]
    for x in v[1:]:
        if x > m:
            m = x
    return m


def model(c, n):
    D = {k: c.reals(k, n, **({'pos': True} if k in ('radius', 'mass') else {})) for k in NEED}
    return D, {k: list(v) for k, v in D.items()}


def profiles(c):
    """the standard profile figures draw every quantity under its own name, against the radius or
    mass as a fraction of the star's"""
    n = 2
    radius = c.choice('radius', [True, False])
    D, W = model(c, n)
    o = object.__new__(loader.repo(CMP).AdNadComparer)
    o._mesa_plotter = loader.repo(MESA).AdNadComparisonMESAPlotter(mesa=[D])
    with drawing() as figs:
        o.generate_profile_figures(**({'radius_profiles': True} if radius else {}))
    standard(c, figs, W, radius)


def standard(c, figs, W, radius):
    xs = W['radius' if radius else 'mass']
    top = big(c, xs)
    x = [v / top for v in xs]
    c.prove('profile-figures', len(figs) == len(STANDARD) and all(len(f) == 1 for f in figs))
    if len(figs) != len(STANDARD):
        return
    for (ax,), exp, lab in zip(figs, STANDARD, YLAB):
        lines(c, ax, [(t, x, W[q] if isinstance(q, str) else
                       [a - b for a, b in zip(W[q[0]], W[q[1]])]) for q, t in exp],
              f'profile-{exp[0][0]}')
        c.prove('profile-legend', ax.legend_shown == (exp[0][1] is not None))
        c.prove('profile-quantity', ax.lab.get('y') == lab, str(ax.lab))
        c.prove('profile-range', ax.lim.get('x') == (0., 1.))
        c.prove('profile-axis', ax.lab.get('x', '').strip()[:1] == ('r' if radius else 'm'))


def profile_figure(c):
    """normalisations of a profile figure"""
    n = 2
    D, W = model(c, n)
    other = {k: c.reals(f'other-{k}', n, **({'pos': True} if k == 'mass' else {})) for k in NEED}
    nr = c.choice('model', [0, 1])
    data = [other, other]
    data[nr] = D
    how = {k: c.choice(f'normalise-{k}', [None, 'quantity', 'function']) for k in 'xy'}
    kind = c.choice('kind', ['one', 'named', 'list', 'difference'])
    norm = {None: None, 'quantity': 'mass', 'function': (lambda v: v[0] + v[1], 'mass')}
    y = {'one': 'logT', 'named': 'logT', 'list': ['logT', 'grada'],
         'difference': ['grada', 'logT']}[kind]
    leg = {'one': None, 'named': 'temperature', 'list': ['T', 'g'], 'difference': None}[kind]
    P = loader.repo(MESA).AdNadComparisonMESAPlotter(mesa=data)
    with drawing() as figs:
        P.figure_profile(x_quantity='radius', y_quantity=y, x_label='abscissa', y_label='ordinate',
                         quantity_diff=kind == 'difference', mode_nr=nr, y_legend_labels=leg,
                         x_normalizing_quantity=norm[how['x']],
                         y_normalizing_quantity=norm[how['y']], y_bounds=(1., 2.))

    def val(q, h):
        v = W[q]
        if h == 'quantity':
            return [a / b for a, b in zip(v, W['mass'])]
        if h == 'function':
            return [a / (W['mass'][0] + W['mass'][1]) for a in v]
        return v
    c.prove('one-figure', len(figs) == 1 and len(figs[0]) == 1)
    ax, = figs[0]
    x = val('radius', how['x'])
    if kind == 'difference':
        exp = [(None, x, [a - b for a, b in zip(W['grada'], W['logT'])])]
    else:
        qs = [y] if isinstance(y, str) else y
        ls = leg if isinstance(leg, list) else [leg]
        exp = [(t, x, val(q, how['y'])) for q, t in zip(qs, ls)]
    lines(c, ax, exp, 'profile')
    c.prove('profile-axes', ax.lab == {'x': 'abscissa', 'y': 'ordinate'})
    c.prove('profile-bounds', ax.lim == {'y': (1., 2.)})


# ------------------------------------------------------------------ from files to figures
RI = [('re', '<f8'), ('im', '<f8')]
INFO = [('MESA base folder/directory', 'base_dir'), ('MESA default output folder/directory', 'md'),
        ('MESA default profile substrings', 'ms'), ('MESA default suffix', 'mx'),
        ('GYRE default detail substring', 'gd'), ('GYRE default summary substring', 'gs'),
        ('GYRE base folder/directory', 'gb'), ('GYRE default output folder/directory', 'go')]


def write_mode(d, name, lmn, want, r, n):
    data = dict(x=np.linspace(0, 1, n), M_r=np.array([r.uniform(0, 3) for _ in range(n)]))
    M = r.uniform(1, 3)
    ri = {q: np.array([(r.uniform(-2, 2), r.uniform(-2, 2)) for _ in range(n)], dtype=RI)
          for q in ('xi_r', 'xi_h')}
    f = np.array((r.uniform(1, 2), 0.), dtype=RI)
    h5file(f'{d}/{name}', at_l=lmn[0], at_m=lmn[1], at_n_g=lmn[2], at_n_p=0, at_M_star=M,
           at_R_star=r.uniform(1, 5), at_L_star=1., at_freq=f, at_freq_units='CYC_PER_DAY',
           at_freq_frame='INERTIAL', **data, **ri)
    if want is not None:
        want.append(dict(x=list(data['x']), mass=[v / M for v in data['M_r']], **{
            q: {k: list(v[k]) for k in ('re', 'im')} for q, v in ri.items()}))


def from_axes(figs, extra):
    """what matplotlib holds, as recorded axes"""
    out = []
    for f in figs:
        row = []
        for a in f.axes:
            b = Axes()
            b.lines = [(None if l.get_label().startswith('_') else l.get_label(),
                        list(l.get_xdata()), list(l.get_ydata())) for l in a.get_lines()]
            b.legend_shown = a.get_legend() is not None
            b.lab = {k: v for k, v in (('x', a.get_xlabel()), ('y', a.get_ylabel())) if v}
            b.lim = {'x': tuple(a.get_xlim())}
            b.title = a.get_title()
            row.append(b)
        out.append(row)
    return out


def files(c):
    """the figures show the modes of the chosen combination as the two calculations stored them"""
    import matplotlib.pyplot as plt
    r = c.rng
    n, rot = r.randint(3, 8), r.choice([0, 20, 35, '45'])
    ad, nad = r.choice([(None, None), (None, 'N'), ('A', None), ('A', 'N'), ('out', 'out_nad')])
    combos = r.sample(range(1, 41), 9)
    combos = [combos[:3], combos[3:6], combos[6:]]
    ls = [r.randint(1, 3) for _ in range(3)]
    ms = [r.randint(-2, 2) for _ in range(3)]
    pick = r.choice([0, 1, 2])
    want = {'ad': [], 'nad': []}
    with folder():
        base = r.choice(['b/', 'deep/er/', ''])
        dirs = {'ad': base + (ad or f'output_rot_{rot}'),
                'nad': base + (nad or f'output_nad_rot_{rot}')}
        for t, d in dirs.items():
            os.makedirs(d)
            for k, combo in enumerate(combos):
                for i, v in enumerate(combo):
                    name = f'detail_{mode_name(r, (ls[i], ms[i], v, True))}.h5'
                    write_mode(d, name, (ls[i], ms[i], v), want[t] if k == pick else None, r, n)
        os.makedirs('mesa_out')
        head, cols = profile(r, n)
        cols = {k: v for k, v in cols.items() if k not in NEED}
        for k in NEED:
            cols[k] = [round(r.uniform(.1, 3), 6) for _ in range(n)]
        with open('mesa_out/star_profile_M3.dat', 'w') as f:
            f.write(mesa_text(head, cols, n))
        vals = dict(base_dir='elsewhere/', md='mesa_out', ms=('star', 'M3'), mx='dat', gd='detail',
                    gs='summary', gb='nowhere/', go='unused/')
        with open('info.dat', 'w') as f:
            # a string with slashes reads best in quotes; tuples are written without spaces
            f.write('\n'.join(f'# {a}\n{vals[b]!r}'.replace("', '", "','") for a, b in INFO) + '\n')
        info = types.SimpleNamespace(mode_l=ls, mode_m=ms, combinations_radial_orders=combos)
        plt.close('all')
        kw = {k: v for k, v in dict(ad_path=ad, nad_path=nad).items() if v is not None}
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            o = loader.repo(CMP).AdNadComparer(
                [], rot, info, base_dir=base, alternative_directory_path=os.getcwd(),
                alternative_file_name='info.dat', **kw)
            o.load_modes(**({} if pick == 0 else dict(radial_order_combo_nr=pick)))
            radius = r.random() < .5
            o.generate_mode_eigenfunction_comparison_figures(radius_profiles=radius)
            one = [plt.figure(k) for k in plt.get_fignums()]
            o.generate_profile_figures(radius_profiles=radius)
            two = [plt.figure(k) for k in plt.get_fignums()][len(one):]
        for f in one:
            l, m, k = [(ls[i], ms[i], combos[pick][i]) for i in range(3)][one.index(f) // 2]
            t = ' '.join(a.get_title() for a in f.axes)
            c.prove('title', f'({l},{m},{k})' in t.replace(' ', ''), t)
        axes = [[_Plain(a) for a in f] for f in from_axes(one, want)]
        triad_figures(c, axes, want, radius)
        standard(c, from_axes(two, None), {k: cols[k] for k in NEED}, radius)
        plt.close('all')


class _Plain:
    """axes whose title is judged by the caller"""

    def __init__(self, a):
        self.__dict__.update(a.__dict__)


CONTRACTS = [
    Contract('figure', figure, modules=[GYRE, SUP], load=load, crash='all', rand=30, functions=[
        F + 'plotting/gyre_plotter.py:AdNadComparisonGYREPlotter.*',
        F + 'plotting/plotter.py:SuperAdNadComparisonPlotter.*']),
    Contract('eigenfunctions', eigenfunctions, modules=[GYRE, SUP, CMP], load=load, crash='all', rand=4,
             functions=[
                 F + 'comparer.py:AdNadComparer.generate_mode_eigenfunction_comparison_figures']),
    Contract('profiles', profiles, modules=[MESA, SUP, CMP], load=load, crash='all', rand=10, functions=[
        F + 'plotting/mesa_plotter.py:AdNadComparisonMESAPlotter.*',
        F + 'comparer.py:AdNadComparer.generate_profile_figures']),
    Contract('profile-figure', profile_figure, modules=[MESA, SUP], load=load, crash='all', rand=40, functions=[
        F + 'plotting/mesa_plotter.py:AdNadComparisonMESAPlotter.figure_profile',
        F + 'plotting/plotter.py:SuperAdNadComparisonPlotter._normalizer']),
    Contract('files', files, load=load, crash='all', sym=False, rand=5, functions=[
        F + 'comparer.py:AdNadComparer.__init__', F + 'comparer.py:AdNadComparer.load_modes'],
        note='bounded: random modes and models in scratch directories'),
]
