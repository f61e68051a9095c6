"""Structure profiles and eigenfunctions are expressed on one radial grid; derivatives follow the
equations of stellar structure."""
import bisect
import itertools
from fractions import Fraction as F

import numpy as np
from dv import loader
from dv.runner import Contract
from . import _qcc as qc

# radial grids (fractions of the stellar radius); structure grids always reach the surface
GRIDS = {3: [F(1, 16), F(1, 2), F(1)],
         4: [F(1, 16), F(5, 16), F(3, 4), F(1)],
         5: [F(1, 16), F(3, 16), F(1, 2), F(7, 8), F(1)],
         6: [F(1, 32), F(1, 4), F(3, 8), F(1, 2), F(27, 32), F(1)],
         7: [F(1, 64), F(1, 8), F(9, 32), F(1, 2), F(5, 8), F(15, 16), F(1)]}


def weights(x, xs):
    """for every node of x, the nodes of xs around it and their weights"""
    out = []
    for v in x:
        i = bisect.bisect_left(xs, v)
        if v <= xs[0]:
            out.append(((0, F(1)),))
        elif i == len(xs):
            out.append(((i - 1, F(1)),))
        elif xs[i] == v:
            out.append(((i, F(1)),))
        else:
            t = (v - xs[i - 1]) / (xs[i] - xs[i - 1])
            out.append(((i - 1, 1 - t), (i, t)))
    return out


def onto(x, xs, v):
    """piecewise-linear values of v (on xs) at the nodes x"""
    out = []
    for ws in weights(x, xs):
        s = 0
        for i, w in ws:
            s = s + v[i] * float(w)
        out.append(s)
    return out


class World(qc.World):
    """modes on their own grids, the structure model on its own grid"""

    def __init__(self, c, nmode, nstruct, **kw):
        self.ng, self.ns = nmode, nstruct
        n = self.nl = max(nmode)
        super().__init__(c, n, 2 if c.sym else 8, **kw)
        fl = lambda g: [float(v) for v in g]
        self.xm = [fl(GRIDS[k]) for k in nmode]
        self.xs = fl(GRIDS[nstruct])
        self.x = c.arr(fl(GRIDS[n]))
        r = lambda s, k, **o: c.arr([c.real(f'{s}{i}', **o) for i in range(k)])
        st = lambda s, pos=False: r('s_' + s, nstruct, **({'pos': True} if pos else {}))
        self.N2, self.gad = st('n2'), st('gad')
        if self.poly:
            for k in ('c_1', 'V_2', 'U', 'P', 'rho', 'M_r'):
                self.S[k] = st(k, True)
            self.S['As'] = st('As')
            self.D = {k: st(k) for k in self.D}
        self.y = [(r(f'y1m{k}', nmode[k]), r(f'y2m{k}', nmode[k])) for k in range(3)]
        self.z = [(r(f'zr{k}', nmode[k]), r(f'zi{k}', nmode[k])) for k in range(3)]

    def compound(self, k):
        re, im = self.z[k]
        if self.c.sym:
            return ReIm(re, im)
        a = np.zeros(len(re), dtype=[('re', float), ('im', float)])
        a['re'], a['im'] = re, im
        return a

    def mode_dict(self, k):
        d = super().mode_dict(k)
        n = self.ng[k]
        d.update({'x': self.c.arr(self.xm[k]), 'n': n,
                  'lambda': self.c.arr([self.lam[k]] * n)})
        for nm in ('Gamma_1', 'As', 'V_2', 'U', 'c_1', 'P', 'rho', 'M_r', 'T', 'Omega_rot'):
            if nm in d and n != self.nl:
                d[nm] = self.c.arr(onto(GRIDS[n], GRIDS[self.nl], list(d[nm])))
        for nm in ('xi_h', 'deul_phi', 'lag_L_dim'):
            d[nm] = self.c.arr([0.] * n)
        d['xi_r'] = self.compound(k)
        d['eul_phi'] = self.compound(k)
        return d

    def structure(self):
        x, self.x = self.x, self.c.arr(self.xs)
        d = super().structure()
        self.x = x
        d['n' if self.poly else 'zones'] = self.ns
        self.p0, self.rho0 = d.get('p0'), d.get('rho0')
        return d

    def at(self, v):
        """structure quantity on the grid of the modes"""
        return onto(GRIDS[self.nl], GRIDS[self.ns], list(v))


class ReIm:
    class dtype:
        names = ('re', 'im')

    def __init__(self, re, im):
        self.d = {'re': re, 'im': im}
        self.shape = re.shape

    def __getitem__(self, k):
        return self.d[k]


def fill(c):
    """the angular part is not the subject: keep it from being degenerate"""
    return {'ls': (1, 0, 2)}


def grad(c, x, y):
    """derivative at each node of the parabola through the three nearest nodes"""
    n = len(x)
    out = []
    for i in range(n):
        k = min(max(i, 1), n - 2)
        a, b, d = x[k - 1], x[k], x[k + 1]
        p = (y[k] - y[k - 1]) / (b - a)
        q = ((y[k + 1] - y[k]) / (d - b) - p) / (d - a)
        out.append(p + q * (x[i] - a + x[i] - b))
    return out


def check(c, name, got, want, rel=1e-9):
    got = list(got)
    if not c.prove(name + '-size', len(got) == len(want)) and len(got) != len(want):
        return
    s = 1. if c.sym else max(abs(w) for w in want) or 1.
    for g, w in zip(got, want):
        c.eq(name, g / s, w / s, tol=rel)


def structure(c):
    """generic mode and structure grids"""
    poly = c.choice('poly', [True, False])
    analytic = c.choice('analytic', [True, False]) if poly else False
    ns = c.choice('structure nodes', [5, 4, 6] if c.sym else [5, 4, 6, 7, 3])
    nm = 5
    W = World(c, (nm,) * 3, ns, poly=poly, **fill(c))
    up = c.choice('outwards', ['down', 'up']) if c.sym and not poly else None
    if up:
        for k in ('P', 'rho'):
            v = W.sl(W.S[k])
            for a, b in itertools.combinations(v, 2):
                c.assume(a < b if up == 'up' else b < a)
    o = W.build(analytic=analytic)
    cut = lambda v: list(v)[1:-1]
    x = cut(GRIDS[nm])
    check(c, 'radial-grid', o._x, [float(v) for v in x])
    if poly:
        N2, rho, P, mr, D = (cut(W.at(W.N2)), cut(W.at(W.S['rho'])), cut(W.at(W.S['P'])),
                             cut(W.at(W.S['M_r'])), {k: cut(W.at(v)) for k, v in W.D.items()})
        for k, a in (('c_1', '_c_1'), ('V_2', '_V_2'), ('As', '_As'), ('U', '_U')):
            check(c, 'structure-' + k, getattr(o, a), cut(W.at(W.S[k])))
        check(c, 'density', o._rho_profile, rho)
        check(c, 'pressure', o._p_profile, P)
        check(c, 'mass', o._mr_profile, mr)
        if analytic:
            for k, a in (('dgravpot', '_dgravpot'), ('dgravpot2', '_dgravpot2'),
                         ('dgravpot3', '_dgravpot3'), ('drho', '_drho'), ('drho2', '_drho2'),
                         ('drho3', '_drho3'), ('dp', '_dP'), ('dp2', '_dP2'), ('dp3', '_dP3')):
                check(c, 'derivative-' + k, getattr(o, a), D[k])
        G1 = cut(W.S['Gamma_1'])
    else:
        N2 = cut(W.at(W.N2))
        check(c, 'gamma_1_adDer', o._gamma_1_adDer_profile, cut(W.at(W.gad)))
        check(c, 'buoyancy', o._brunt_N2_profile, N2)
        rho, P, mr, G1 = (cut(W.S[k]) for k in ('rho', 'P', 'M_r', 'Gamma_1'))
    if not analytic:
        n = len(x)
        r = [float(v) * W.R for v in x]
        g = [W.G * mr[i] / r[i] ** 2 for i in range(n)]
        check(c, 'gravity', o._dgravpot, g)
        dr = [-rho[i] * (N2[i] / g[i] + rho[i] * g[i] / (G1[i] * P[i])) for i in range(n)]
        hydro(c, W, o, r, g, rho, dr)
    refs = (W.p0, W.rho0) if poly else None
    normed(c, o, rho, P, refs, up)


def hydro(c, W, o, r, g, rho, dr, tol=1e-9):
    """Poisson and hydrostatic equilibrium; density gradient from the buoyancy frequency"""
    import math
    n = len(r)
    check(c, 'density-gradient', o._drho, dr)
    d2 = grad(c, r, dr)
    check(c, 'density-gradient2', o._drho2, d2)
    check(c, 'density-gradient3', o._drho3, grad(c, r, d2))
    g2 = [4 * math.pi * W.G * rho[i] - 2 * g[i] / r[i] for i in range(n)]
    g3 = [4 * math.pi * W.G * dr[i] - 2 * (g2[i] - g[i] / r[i]) / r[i] for i in range(n)]
    check(c, 'poisson', o._dgravpot2, g2)
    check(c, 'poisson-derivative', o._dgravpot3, g3)
    check(c, 'hydrostatic', o._dP, [-rho[i] * g[i] for i in range(n)])
    check(c, 'hydrostatic2', o._dP2, [-(dr[i] * g[i] + rho[i] * g2[i]) for i in range(n)])
    check(c, 'hydrostatic3', o._dP3, [-(d2[i] * g[i] + 2 * dr[i] * g2[i] + rho[i] * g3[i])
                                     for i in range(n)])


def normed(c, o, rho, P, refs, up):
    if refs is None:
        refs = [v[-1] if up == 'up' else v[0] if up else max(v) for v in (P, rho)]
    for a, s in (('_P', refs[0]), ('_rho', refs[1])):
        for k in ('', '2', '3'):
            d = '_d' + a[1:] + k
            check(c, 'normed' + d, [v * s for v in getattr(o, d + '_normed')],
                  list(getattr(o, d)))
    check(c, 'normed-density', [v * refs[1] for v in o._rho_normed], rho)
    check(c, 'normed-pressure', [v * refs[0] for v in o._P_normed], P)


def numeric(c):
    """no symbolic derivatives: everything is differentiated numerically, in physical radius"""
    poly = c.choice('poly', [True, False])
    W = World(c, (6,) * 3, 6, poly=poly, symbolic=False, brunt=c.choice('brunt', [True, False]),
              **fill(c))
    o = W.build(analytic=False)
    derivs(c, W, o, poly)


def nobrunt(c):
    """density gradient without the definition of the buoyancy frequency"""
    poly = c.choice('poly', [True, False])
    W = World(c, (6,) * 3, 6, poly=poly, brunt=False, **fill(c))
    o = W.build(analytic=False)
    cut = lambda v: list(v)[1:-1]
    x = cut(GRIDS[6])
    r = [float(v) * W.R for v in x]
    rho, mr = cut(W.S['rho']), cut(W.S['M_r'])
    g = [W.G * mr[i] / r[i] ** 2 for i in range(len(x))]
    hydro(c, W, o, r, g, rho, grad(c, r, rho))


def derivs(c, W, o, poly):
    cut = lambda v: list(v)[1:-1]
    x = cut(GRIDS[W.nl])
    r = [float(v) * W.R for v in x]
    rho, P, mr = (cut(W.S[k]) for k in ('rho', 'P', 'M_r'))
    g = [W.G * mr[i] / r[i] ** 2 for i in range(len(x))]
    for name, v in (('rho', rho), ('P', P)):
        for k in ('', '2', '3'):
            v = grad(c, r, v)
            check(c, f'd{name}{k}', getattr(o, f'_d{name}{k}'), v)
    check(c, 'gravity', o._dgravpot, g)
    for k in ('2', '3'):
        g = grad(c, r, g)
        check(c, 'dgravpot' + k, getattr(o, '_dgravpot' + k), g)


def modes(c):
    """modes given on grids of different lengths: the longest one is the common grid"""
    sizes = c.choice('nodes', [(5, 5, 5), (5, 4, 3), (6, 5, 4), (5, 3, 5), (3, 5, 4), (4, 5, 6),
                               (4, 5, 5), (5, 6, 4)])
    n = max(sizes)
    W = World(c, sizes, n, poly=c.choice('poly', [True, False]), **fill(c))
    o = W.build()
    cut = lambda v: list(v)[1:-1]
    check(c, 'radial-grid', o._x, [float(v) for v in cut(GRIDS[n])])
    for k in ('c_1', 'V_2', 'As', 'U', 'Gamma_1'):
        check(c, 'structure-' + k, getattr(o, '_' + k), cut(W.S[k]))
    if not W.poly:
        for k, a in (('rho', '_rho'), ('P', '_P'), ('M_r', '_M_r')):
            check(c, 'structure-' + k, getattr(o, a), cut(W.S[k]))
    for k in range(3):
        on = lambda v: cut(onto(GRIDS[n], GRIDS[sizes[k]], list(v)))
        check(c, 'y_1', getattr(o, f'_y_1_mode_{k + 1}'), on(W.y[k][0]))
        check(c, 'y_2', getattr(o, f'_y_2_mode_{k + 1}'), on(W.y[k][1]))
        z = list(getattr(o, f'_xi_r_mode_{k + 1}'))
        check(c, 'xi_r-re', [v.real for v in z], on(W.z[k][0]))
        check(c, 'xi_r-im', [v.imag for v in z], on(W.z[k][1]))


SN = f'{qc.SF}:SuperCouplingCoefficient.'


def fns(*n):
    return [SN + k for k in n]


KW = dict(load=qc.load, modules=qc.MODS)
CONTRACTS = [
    Contract('structure-on-mode-grid', structure, rand=12, budget=200,
             functions=fns('_extract_additional_profile_info', '_get_profiles_MESA_GYRE',
                           '_get_profiles_polytrope_MESA_GYRE', '_get_profiles_polytrope_analytic',
                           '_get_and_interpolate_if_needed', '_set_normalization_factors',
                           '_pre_profile_cuts', '_mode_structure_cuts',
                           '_store_polytropic_structure_coefficients') +
             ['gyre-tools/gyre_cutter/gyre_cutter.py:EnumerationCutter.cutter'], **KW),
    Contract('density-gradient-without-buoyancy', nobrunt, rand=6,
             functions=fns('_get_profiles_MESA_GYRE', '_get_profiles_polytrope_MESA_GYRE',
                           '_compute_der'), **KW),
    Contract('numerical-derivatives', numeric, rand=6,
             functions=fns('_get_profiles_MESA_GYRE', '_get_profiles_polytrope_MESA_GYRE',
                           '_compute_der'), **KW),
    Contract('modes-on-common-grid', modes, rand=8,
             functions=fns('_interpolation_modes', '_interpolator',
                           '_extract_common_info_dictionary',
                           '_extract_mode_dependent_info_dictionary'), **KW),
]
