"""Shared: builds real FrequencyHandler objects from (symbolic) mode data."""
import numpy as np
from dv import loader
from dv.term import Sym, SymC

REQ = ['HZ', 'UHZ', 'CPD', 'CYC_PER_DAY', 'RAD_PER_SEC']
GIV = [b'HZ', b'UHZ', b'RAD_PER_SEC', b'CYC_PER_DAY', b'NONE']
PI = np.pi


def mods():
    return ['aesolver.frequency_handling.frequency_handler',
            'aesolver.frequency_handling.enumeration_files.enumeration_freq_converter_normalization']


def to_rps(unit, val, dyn):
    """angular frequency in rad/s denoted by `val` in GYRE unit `unit`"""
    if unit == b'HZ':
        return val * 2 * PI
    if unit == b'UHZ':
        return val * 2 * PI / 1000000
    if unit == b'CYC_PER_DAY':
        return val * 2 * PI / 86400
    if unit == b'RAD_PER_SEC':
        return val * 1
    return val * dyn            # NONE: units of the dynamical frequency sqrt(GM/R^3)


def freq_from_rps(req, w):
    """cyclic frequency, in the requested units"""
    if req == 'HZ':
        return w / (2 * PI)
    if req == 'UHZ':
        return w / (2 * PI) * 1000000
    if req in ('CPD', 'CYC_PER_DAY'):
        return w / (2 * PI) * 86400
    return w / (2 * PI)          # RAD_PER_SEC: cyclic counterpart in 1/s


def omega_from_rps(req, w):
    """angular frequency, in (2 pi x) the requested units"""
    if req in ('HZ', 'RAD_PER_SEC'):
        return w * 1
    if req == 'UHZ':
        return w * 1000000
    return w * 86400


class Setup:
    """draws a mode triad as GYRE dictionaries"""

    def __init__(self, c, n=3, nad=True, req=None, same=False, reuse=True):
        FH = loader.repo(mods()[0]).FrequencyHandler
        self.c, self.n = c, n
        self.req = req or c.choice('requested', REQ)
        u0 = c.choice('unit', range(5))
        frm = c.choice('frame', range(4))
        self.dimrot = c.choice('rot_dimensional', [True, False])
        G = c.real('G', pos=True)
        M = c.real('M', pos=True)
        R = c.real('R', pos=True)
        if c.mode == 'sym':
            from dv.npshim import scalar
            dyn = scalar('sqrt', G * M / R ** 3)
        else:
            dyn = np.sqrt(G * M / R ** 3)
        self.dyn = dyn
        rot = c.real('Omega', lo=0)
        self.rot_rps = rot if self.dimrot else rot * dyn
        self.units = [GIV[(u0 + (0 if same else i)) % 5] for i in range(n)]
        self.frames = [(b'INERTIAL' if (frm >> (i % 2)) & 1 else b'COROT_O') for i in range(n)]
        self.m = [c.int(f'm{i+1}', -4, 4) for i in range(n)]
        self.w_in = [c.real(f'f{i+1}', nonzero=True) for i in range(n)]
        self.dicts = []
        self.nads = []
        inner = c.real('Omega_inner', lo=0)
        for i in range(n):
            d = {'G': G, 'M_star': M, 'R_star': R, 'm': self.m[i],
                 'freq_units': self.units[i], 'freq_frame': self.frames[i]}
            im0 = c.real(f'im{i+1}')
            d['freq'] = c.arr([SymC(self.w_in[i], im0) if c.sym else complex(self.w_in[i], im0)])
            d['Omega_rot_dim' if self.dimrot else 'Omega_rot'] = c.arr([inner, rot])
            self.dicts.append(d)
            e = dict(d)
            if nad:
                re_, im_ = c.real(f'fn{i+1}', nonzero=True), c.real(f'gn{i+1}', nonzero=True)
                e['freq'] = c.arr([SymC(re_, im_) if c.sym else complex(re_, im_)])
                # the non-adiabatic run may use other units than the adiabatic one
                differs = {0: True, 1: False, 2: i == n - 1, 3: i == 1}[frm]
                e['freq_units'] = GIV[(u0 + 1 + i) % 5] if differs else self.units[i]
                if frm in (1, 2) and i == 1:    # ... and another frame
                    e['freq_frame'] = (b'COROT_O' if self.frames[i] == b'INERTIAL'
                                       else b'INERTIAL')
                self.nads.append(e)
        if reuse and c.choice('reused_object', [False, True]):
            # history: the same object served another triad, in other units, before
            other = [dict(d, freq=d['freq'] + 1, m=d['m'] + 1, freq_frame=b'COROT_O')
                     for d in self.dicts]
            self.FH = FH(*other, my_freq_units='UHZ' if self.req != 'UHZ' else 'CPD')
            self.FH.set_mode_nonadiabatic_info(*other)
            self.FH.set_mode_info(*self.dicts, requested_units=self.req)
        else:
            self.FH = FH(*self.dicts, my_freq_units=self.req)
        if nad:
            self.FH.set_mode_nonadiabatic_info(*self.nads)

    # spec functions -------------------------------------------------------
    def corot_rps(self, i, nad=False):
        d = (self.nads if nad else self.dicts)[i]
        w = to_rps(d['freq_units'], d['freq'][0].real, self.dyn)
        return w - self.m[i] * self.rot_rps if d['freq_frame'] == b'INERTIAL' else w

    def inert_rps(self, i, nad=False):
        d = (self.nads if nad else self.dicts)[i]
        w = to_rps(d['freq_units'], d['freq'][0].real, self.dyn)
        return w if d['freq_frame'] == b'INERTIAL' else w + self.m[i] * self.rot_rps

    def gamma_rps(self, i):
        d = self.nads[i]
        return to_rps(d['freq_units'], d['freq'][0].imag, self.dyn)


def triad_fh(c, m=None, reuse=False, nad=True):
    """A real FrequencyHandler holding co-rotating frequencies w_i and rates g_i (rad/s).
    Returns (handler, [w1,w2,w3], [g1,g2,g3])."""
    FH = loader.repo(mods()[0]).FrequencyHandler
    w = [c.real(f'w{i+1}', pos=True) for i in range(3)]
    g = [c.real(f'g{i+1}', nonzero=True) for i in range(3)]
    rot = c.real('Omega', lo=0)
    ms = m or [2, 1, 1]
    dicts = []
    for i in range(3):
        dicts.append({'G': c.real('G', pos=True), 'M_star': c.real('M', pos=True),
                      'R_star': c.real('R', pos=True), 'm': ms[i],
                      'freq_units': b'RAD_PER_SEC', 'freq_frame': b'COROT_O',
                      'freq': c.arr([SymC(w[i], g[i]) if c.sym else complex(w[i], g[i])]),
                      'Omega_rot_dim': c.arr([rot, rot])})
    fh = FH(*dicts, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*nonadiabatic(c, dicts, g))
    return fh, w, g


def nonadiabatic(c, dicts, g):
    """the same modes in a non-adiabatic run: other frequencies, the rates g"""
    out = []
    for i, d in enumerate(dicts):
        v = c.real(f'wn{i+1}', pos=True)
        out.append(dict(d, freq=c.arr([SymC(v, g[i]) if c.sym else complex(v, g[i])])))
    return out
