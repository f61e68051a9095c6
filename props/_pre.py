"""Real pre-check object built from symbolic mode information."""
from dv import loader
from dv.term import SymC
from . import _freq as fq

PRE = 'aesolver.pre_checks.specific.three_mode_checks'
PFILE = 'aesolver/aesolver/pre_checks/specific/three_mode_checks.py'
GFILE = 'aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py'


def dicts_of(c, w, g, lm):
    return [{'G': 1., 'M_star': 1., 'R_star': 1., 'm': m, 'l': l, 'freq_units': b'RAD_PER_SEC',
             'freq_frame': b'COROT_O',
             'freq': c.arr([SymC(w[i], g[i]) if c.sym else complex(w[i], g[i])]),
             'Omega_rot_dim': c.arr([0., 0.])} for i, (l, m) in enumerate(lm)]


def fh_of(dicts, c, g):
    FH = loader.repo(fq.mods()[0]).FrequencyHandler
    fh = FH(*dicts, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*fq.nonadiabatic(c, dicts, g))
    return fh


def obj_of(c, w, g, lm=((2, 2), (1, 1), (1, 1)), harmonic=False, conjugation=None):
    dicts = dicts_of(c, w, g, lm)
    mod = loader.repo(PRE)
    return mod.PreCheckThreeModesQuadratic(dicts, fh_of(dicts, c, g), triads=[(1, 2, 3)],
                                           conjugation=conjugation, two_mode_harmonic=harmonic)
