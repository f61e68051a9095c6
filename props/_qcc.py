"""Builds the real coupling-coefficient object from generic mode and structure data."""
import contextlib
import math
import types

import numpy as np
from dv import loader
from dv.term import Sym, as_sym

Q = 'aesolver.coupling_coefficients.quadratic_coupling_coefficient_rotating'
SUP = 'aesolver.coupling_coefficients.coefficient_support_classes.'
HINT = 'aesolver.angular_integration.rotating_tar_angular.hough_integration'
HNORM = 'hough_function.hough_normalizer'
QF = 'aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py'
CRF = 'aesolver/aesolver/coupling_coefficients/coefficient_support_classes/' \
      'coupling_coefficient_rotating.py'
SF = 'aesolver/aesolver/coupling_coefficients/coefficient_support_classes/' \
     'super_coupling_coefficients.py'
HF = 'aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py'
NF = 'gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py'
EN = 'gyre_eigen_norm.enumeration_modules.enum_norm'

MODS = [Q, SUP + 'coupling_coefficient_rotating', SUP + 'super_coupling_coefficients', HINT,
        HNORM, 'gyre_eigen_norm.gyre_eigen_norm', EN, 'gyre_cutter.gyre_cutter',
        'num_deriv.num_deriv', 'carr_conv.carr_conv']

H = ['hr', 'ht', 'hp', 'theta_der_hr', 'theta_der_ht', 'theta_der_hp', 'theta_phi', 'phi_phi',
     'mhr', 'theta_der2_hr', 'theta_der_hr_theta', 'theta_der2_hr_theta', 'theta_der_ht_theta',
     'theta_der_hp_theta']


def load():
    for m in MODS:
        loader.repo(m)


def mods():
    return MODS


@contextlib.contextmanager
def patched(*trips):
    old = [(m, k, getattr(m, k)) for m, k, _ in trips]
    try:
        for m, k, v in trips:
            setattr(m, k, v)
        yield
    finally:
        for m, k, v in old:
            setattr(m, k, v)


class Grids:
    """the quadrature as a linear functional: one generic weight per node, for each of the two
    grids (radius, mu); remembers every misuse"""

    def __init__(self, c, single=None):
        self.c, self.w, self.calls, self.single = c, {}, [], single
        self.wr = self.wm = None

    def weights(self, var):
        k = tuple(as_sym(v).t if not isinstance(v, float) else v for v in np.asarray(var).tolist()) \
            if self.c.sym else tuple(var.tolist())
        return k

    def integrate(self, method, equal, f, var, *thr):
        c = self.c
        if not (isinstance(method, str) and len(thr) == 2):
            c.fail('quadrature-arguments', repr((method, thr)))
        f, var = np.asarray(f), np.asarray(var)
        if f.shape != var.shape:
            c.fail('quadrature-sizes', f'{f.shape} {var.shape}')
            return 0.
        if c.sym:
            w = self.sym_weights(var, equal)
            t = 0
            for a, b in zip(w, list(f)):
                t = t + a * as_sym(b)
            return t
        from num_integrator import cni
        return cni.integrate(method, bool(equal), np.ascontiguousarray(f, dtype=float),
                             np.ascontiguousarray(var, dtype=float), *thr)

    def sym_weights(self, var, equal):
        """trapezoidal weights: generic, because the nodes are"""
        x = list(var)
        n = len(x)
        if equal:
            h = x[1] - x[0]
            return [h / 2 if i in (0, n - 1) else h for i in range(n)]
        return [((x[i + 1] if i + 1 < n else x[i]) - (x[i - 1] if i else x[i])) / 2
                for i in range(n)]


def rt(c, v):
    if c.sym:
        from dv.npshim import scalar
        return scalar('sqrt', as_sym(v))
    return math.sqrt(v)


def trapz(c, f, x):
    n = len(x)
    s = 0
    for i in range(1, n):
        s = s + (f[i] + f[i - 1]) * (x[i] - x[i - 1]) / 2
    return s


class World:
    """generic data of three modes on a common radial grid"""

    def __init__(self, c, nr=5, nm=2, poly=False, ls=(1, 0, 2), conj=None, symbolic=True,
                 m=None, brunt=True):
        self.c, self.poly, self.ls, self.conj = c, poly, ls, conj
        self.symbolic, self.brunt = symbolic, brunt
        self.nr, self.nm = nr, nm
        inc = self.increasing
        self.x = inc('x', nr)
        self.mu = inc('mu', nm, lo=-.95, span=1.9)
        r = lambda s, **k: c.arr([c.real(f'{s}{i}', **k) for i in range(nr)])
        p = lambda s: r(s, pos=True)
        self.S = {k: p(k) for k in ('c_1', 'V_2', 'U', 'Gamma_1', 'P', 'rho', 'M_r')}
        self.S['As'] = r('As')
        self.G, self.M, self.R = (c.real(k, pos=True) for k in ('G', 'M', 'R'))
        self.N2 = r('N2')
        self.gad = r('gad')
        # analytic polytropes carry their derivatives
        self.D = {k: r(k) for k in ('dgravpot', 'dgravpot2', 'dgravpot3', 'drho', 'drho2', 'drho3',
                                    'dp', 'dp2', 'dp3')}
        self.y = [(r(f'y1m{k}'), r(f'y2m{k}')) for k in range(3)]
        self.lam = [c.real(f'lam{k}', pos=True) for k in range(3)]
        self.om = [c.real(f'om{k}', pos=True) for k in range(3)]
        self.cor = [c.real(f'cor{k}', pos=True) for k in range(3)]
        self.Om = c.real('Om', lo=0)
        self.m = m or [c.int(f'm{k}') for k in range(3)]
        self.h = [{k: c.arr([c.real(f'{k}{j}{i}') for i in range(nm)]) for k in H}
                  for j in range(3)]
        self.nu = [c.real(f'nu{k}') for k in range(3)]

    def increasing(self, name, n, lo=None, span=None):
        c = self.c
        if c.sym:
            return c.arr([c.real(f'{name}{i}', pos=(name == 'x')) for i in range(n)])
        rng = c.rng
        if name == 'x':
            g = np.cumsum([rng.uniform(.3, 1.) for _ in range(n)])
            g = g / g[-1]
        else:
            g = lo + span * np.sort(np.array([rng.random() for _ in range(n)]))
        return np.array([c.real(f'{name}{i}', rand=lambda r_, v=v: v) for i, v in enumerate(g)])

    def mode_dict(self, k):
        c = self.c
        d = {'x': self.x, 'n': self.nr, 'l': self.ls[k], 'm': self.m[k], 'G': self.G,
             'M_star': self.M, 'R_star': self.R, 'L_star': 1., 'Gamma_1': self.S['Gamma_1'],
             'lambda': c.arr([self.lam[k]] * self.nr), 'y_1': self.y[k][0], 'y_2': self.y[k][1],
             'Omega_rot': c.arr([0.] * self.nr)}
        for n in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_L_dim'):
            d[n] = c.arr([0.] * self.nr)
        if not self.poly:
            d.update({k_: self.S[k_] for k_ in ('As', 'V_2', 'U', 'c_1', 'P', 'rho', 'M_r')})
            d['T'] = c.arr([1.] * self.nr)
        return d

    def structure(self):
        c = self.c
        if self.poly:
            d = {'r': self.x * self.R, 'n': self.nr, 'G': self.G, 'mr': self.S['M_r'],
                 'rho': self.S['rho'], 'p': self.S['P'], 'brunt_n2': self.N2, 'c1': self.S['c_1'],
                 'v2': self.S['V_2'], 'as': self.S['As'], 'u': self.S['U'],
                 'p0': c.real('p0', pos=True), 'rho0': c.real('rho0', pos=True),
                 'z': self.x, 'theta': self.x, 'dtheta': self.x}
            d.update(self.D)
            return d
        rev = lambda a: c.arr(list(a)[::-1])
        return {'radius': rev(self.x * self.R), 'brunt_N2': rev(self.N2),
                'gamma_1_adDer': rev(self.gad), 'name': 'model', 'zones': self.nr}

    def build(self, analytic=True, self_coupling=False, **kw):
        c = self.c
        mod = loader.repo(Q)
        self.grids = Grids(c)
        W = self

        class HFH:
            n = 0

            @staticmethod
            def get_functional_names():
                return list(H)

            @staticmethod
            @loader.as_called(mod.HFHandler.get_relevant_hough_output)
            def get_relevant_hough_output(nu, l, m, npts=200, lmbd=None, **k):
                j = HFH.n
                HFH.n += 1
                W.hough_calls.append((nu, l, m, npts, lmbd, k))
                return dict(W.h[j]), W.mu, W.mu
        self.hough_calls = []
        fh = types.SimpleNamespace(
            spin_factors=c.arr(self.nu), dimless_corot_omegas=c.arr(self.om),
            corot_mode_omegas=c.arr(self.cor), surf_rot_angular_freq=self.Om)
        trips = [(mod, 'HFHandler', HFH)]
        if c.sym:
            trips += [(m_, 'cni', self.grids) for m_ in
                      (mod, loader.repo(HINT), loader.repo(HNORM))]
        self.trips = trips
        with patched(*trips):
            o = mod.QuadraticCouplingCoefficientRotating(
                *[self.mode_dict(k) for k in range(3)],
                additional_profile_information=self.structure(), freq_handler=fh,
                l_list=list(self.ls), m_list=list(self.m), polytropic=self.poly,
                analytic_polytrope=self.poly and analytic, npoints=self.nm // 2,
                self_coupling=self_coupling, use_brunt_def=self.brunt,
                use_symbolic_derivatives=self.symbolic, conj_cc=self.conj, **kw)
        self.o = o
        return o

    def run(self, f, *a, **k):
        with patched(*self.trips):
            return f(*a, **k)

    # ------------------------------------------------------------- the oracle
    def sl(self, a):
        return list(a)[1:-1]

    def norms(self):
        """factor that gives the Hough function of each mode unit L2 norm on the sphere"""
        c = self.c
        from dv.npshim import scalar
        out = []
        for j in range(3):
            hr = list(self.h[j]['hr'])
            q = trapz(c, [v * v for v in hr], list(self.mu)) * (2 * math.pi)
            self.qpos.append(q)
            out.append(1 / (scalar('sqrt', q) if c.sym else math.sqrt(q)))
        return out

    qpos = ()

    def radial(self):
        """per mode, per radial node: xi_r', xi_r/x, xi_h/x, xi_h', div xi"""
        c = self.c
        out = []
        x = self.sl(self.x)
        S = {k: self.sl(v) for k, v in self.S.items()}
        for k in range(3):
            y1, y2 = self.sl(self.y[k][0]), self.sl(self.y[k][1])
            rows = []
            for i in range(len(x)):
                f = x[i] ** (self.ls[k] - 2) * rt(c, 4 * math.pi)
                z1, z2 = y1[i] * f, y2[i] * f
                cw = S['c_1'][i] * self.om[k] ** 2
                vg = S['V_2'][i] * x[i] ** 2 / S['Gamma_1'][i]
                rho = S['rho'][i]
                a = (vg - 2) * z1 + (self.lam[k] / cw - vg) * z2
                # U = 4 pi rho r^3 / m and c_1 = (r/R)^3 M/m: U/c_1 = 4 pi rho R^3/M
                d = (1 - S['As'][i] / cw) * z1 + ((S['As'][i] - S['U'][i] - 1) / cw +
                                                  4 * math.pi * rho * self.R ** 3 /
                                                  (self.M * self.om[k] ** 2)) * z2
                rows.append((a, z1, z2 / cw, d, vg * (z1 - z2)))
            out.append(rows)
        if not self.symbolic:
            for k in range(3):
                xi = [x[i] * out[k][i][1] for i in range(len(x))]
                xh = [x[i] * out[k][i][2] for i in range(len(x))]
                gi, gh = (np.gradient(np.array(v, dtype=object) if c.sym else np.array(v),
                                      np.array(x, dtype=object) if c.sym else np.array(x),
                                      edge_order=2) for v in (xi, xh))
                out[k] = [(gi[i], r[1], r[2], gh[i], r[4]) for i, r in enumerate(out[k])]
        return out

    def gradient_tensor(self, rad, ang, s):
        """covariant derivatives nabla_i xi_j of one mode at one point of the star, with
        xi = (xi_r hr, xi_h ht, i xi_h hp) exp(i m phi); the phi-components are stored without
        their factor i, which `II` accounts for"""
        a, b, cc, d, _ = rad
        z = {}
        z['rr'] = a * ang['hr']
        z['tt'] = cc * ang['theta_der_ht_theta'] + b * ang['hr']
        z['pp'] = cc * ang['phi_phi'] + b * ang['hr']
        z['tr'] = b * ang['theta_der_hr_theta'] - cc * ang['ht']      # nabla_theta xi_r
        z['rt'] = d * ang['ht']
        z['pr'] = b * ang['mhr'] / s - cc * ang['hp']                 # / i
        z['rp'] = d * ang['hp']                                       # / i
        z['tp'] = cc * ang['theta_der_hp_theta']                      # / i
        z['pt'] = cc * ang['theta_phi'] / s                           # / i
        return z

    def density(self, i, j, R, A, parts=False):
        """third-order perturbation density at radial node i, angular node j"""
        c = self.c
        s2 = 1 - self.mu[j] * self.mu[j]
        if c.sym:
            from dv.npshim import scalar
            s = scalar('sqrt', s2)
        else:
            s = math.sqrt(s2)
        T = [self.gradient_tensor(R[k][i], {h: v[j] for h, v in A[k].items()}, s)
             for k in range(3)]
        II = lambda *comp: -1 if sum(q.count('p') % 2 for q in comp) == 2 else 1
        dv = [R[k][i][4] * A[k]['hr'][j] for k in range(3)]
        ix = 'rtp'
        k1 = 0
        for (p, q, w) in ((0, 1, 2), (0, 2, 1), (1, 2, 0)):
            t = 0
            for u in ix:
                for v in ix:
                    t = t + II(u + v, v + u) * T[p][u + v] * T[q][v + u]
            k1 = k1 + t * dv[w]
        k3 = 0
        for (p, q, w) in ((0, 1, 2), (0, 2, 1)):
            for u in ix:
                for v in ix:
                    for o in ix:
                        k3 = k3 + II(u + v, v + o, o + u) * T[p][u + v] * T[q][v + o] * T[w][o + u]
        return k1, dv[0] * dv[1] * dv[2], k3

    def gravity(self):
        """gravitational acceleration and its first and second radial derivative"""
        if self.poly:
            return tuple(self.sl(self.D[k]) for k in ('dgravpot', 'dgravpot2', 'dgravpot3'))
        x = self.sl(self.x)
        S = {k: self.sl(v) for k, v in self.S.items()}
        n2 = self.sl(self.N2)
        g1, g2, g3 = [], [], []
        for i, v in enumerate(x):
            r = v * self.R
            g = self.G * S['M_r'][i] / r ** 2
            rho = S['rho'][i]
            # d ln rho / d r = -(N^2/g + g rho / (Gamma_1 P))
            dr = -rho * (n2[i] / g + g * rho / (S['Gamma_1'][i] * S['P'][i]))
            h = 4 * math.pi * self.G * rho - 2 * g / r
            g1.append(g)
            g2.append(h)
            g3.append(4 * math.pi * self.G * dr - 2 * h / r + 2 * g / r ** 2)
        return g1, g2, g3
