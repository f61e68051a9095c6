"""Rebuilds the native kernels of /repo (C++ and Fortran) from the working tree
into a scratch directory and exposes them to the Python code under their
package names (num_integrator.cni, ld_funcs.ldf, disc_integrator.di, myfnd)."""
import atexit
import ctypes
import os
import shutil
import subprocess
import sys
import tempfile
import types

import numpy as np

REPO = os.environ.get('DV_REPO', '/repo')
_state = {}

WRAP = r'''
#include "disc_integrals.h"
#include "num_integration.h"
#include "ld_functions.h"
#include <string>
extern "C" {
double dv_integrate(int n, double* f, double* x, int es, const char* m, int nt, int par){
  NumericalDoubleInputIntegrator o(n, f, x, es!=0, std::string(m), nt, par!=0);
  return o.integrate();
}
void dv_ld(int n, double* mu, double* out, const char* s, int nt, int par){
  LimbDarkeningFunctions o(n, mu, out, std::string(s), nt, par!=0);
  o.compute();
}
void dv_disc(int n, double* mu, double* a, double* d1, double* d2, const char* ld,
             const char* in, int nt, int par, double* out){
  DiscIntegration o(n, mu, a, d1, d2, std::string(ld), std::string(in), nt, par!=0);
  out[0] = o.compute_first_disc_integral();
  out[1] = o.compute_second_disc_integral();
}
}
'''


class BuildError(Exception):
    pass


def scratch():
    d = _state.get('dir')
    if d is None:
        d = tempfile.mkdtemp(prefix='dv_native_')
        _state['dir'] = d
        atexit.register(shutil.rmtree, d, True)
    return d


def lib():
    if 'lib' in _state:
        if _state['lib'] is None:
            raise BuildError('native kernels do not build')
        return _state['lib']
    d = scratch()
    with open(f'{d}/wrap.cpp', 'w') as f:
        f.write(WRAP)
    src = [f'{REPO}/cpp-numintegrator/num_integrator/num_integration.cpp',
           f'{REPO}/cpp-ld-funcs/ld_funcs/ld_functions.cpp',
           f'{REPO}/cpp-disc-integrator/disc_integrator/disc_integrals.cpp']
    cmd = ['g++', '-std=c++17', '-O1', '-fopenmp', '-fPIC', '-shared', '-o', f'{d}/libdv.so',
           f'-I{REPO}/cpp-numintegrator/num_integrator', f'-I{REPO}/cpp-ld-funcs/ld_funcs',
           f'-I{REPO}/cpp-disc-integrator/disc_integrator', f'{d}/wrap.cpp'] + src
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        _state['lib'] = None
        raise BuildError(r.stderr[-2000:])
    L = ctypes.CDLL(f'{d}/libdv.so')
    dp = ctypes.POINTER(ctypes.c_double)
    L.dv_integrate.restype = ctypes.c_double
    L.dv_integrate.argtypes = [ctypes.c_int, dp, dp, ctypes.c_int, ctypes.c_char_p, ctypes.c_int,
                               ctypes.c_int]
    L.dv_ld.argtypes = [ctypes.c_int, dp, dp, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
    L.dv_disc.argtypes = [ctypes.c_int, dp, dp, dp, dp, ctypes.c_char_p, ctypes.c_char_p,
                          ctypes.c_int, ctypes.c_int, dp]
    _state['lib'] = L
    return L


def _p(a):
    return a.ctypes.data_as(ctypes.POINTER(ctypes.c_double))


def _mv(a, contiguous=True):
    """what a Cython `double[::1]` argument accepts"""
    a = np.asarray(a)
    if a.dtype != np.float64:
        raise ValueError(f'Buffer dtype mismatch, expected double got {a.dtype}')
    if a.ndim != 1:
        raise ValueError('Buffer has wrong number of dimensions')
    if contiguous and not a.flags.c_contiguous:
        raise ValueError('ndarray is not C-contiguous')
    return a


def integrate(integration_method, equally_spaced, integrand, variable, num_threads,
              parallel_comp):
    f, x = _mv(integrand), _mv(variable)
    return lib().dv_integrate(len(f), _p(f), _p(x), int(bool(equally_spaced)),
                              integration_method.encode(), int(num_threads),
                              int(bool(parallel_comp)))


def ld_compute(kap, res, myselvar, num_threads, paral):
    k, r = _mv(kap), _mv(res)
    lib().dv_ld(len(k), _p(k), _p(r), myselvar.encode(), int(num_threads), int(bool(paral)))


def get_integrals(mus, angular_function, first_mu_der, second_mu_der, ld_function_string,
                  integration_string, num_threads, paral):
    a = [_mv(x) for x in (mus, angular_function, first_mu_der, second_mu_der)]
    out = np.zeros(2)
    lib().dv_disc(len(a[0]), *[_p(x) for x in a], ld_function_string.encode(),
                  integration_string.encode(), int(num_threads), int(bool(paral)), _p(out))
    return float(out[0]), float(out[1])


class Proxy:
    """looks its functions up at call time, so that contracts may replace them"""


def install_lazy():
    cni = types.ModuleType('num_integrator.libcpp_num_integrator')
    cni.integrate = integrate
    m = types.ModuleType('num_integrator')
    m.cni = cni
    sys.modules['num_integrator'] = m
    ldf = types.ModuleType('ld_funcs.libcpp_ld_funcs')
    ldf.compute = ld_compute
    m = types.ModuleType('ld_funcs')
    m.ldf = ldf
    sys.modules['ld_funcs'] = m
    di = types.ModuleType('disc_integrator.libcpp_disc_integration')
    di.get_integrals = get_integrals
    m = types.ModuleType('disc_integrator')
    m.di = di
    sys.modules['disc_integrator'] = m
    fnd = types.ModuleType('myfnd.fnd')
    fnd.fornberg_grid_derivative = fornberg_grid_derivative
    m = types.ModuleType('myfnd')
    m.fnd = fnd
    sys.modules['myfnd'] = m


def flib():
    if 'flib' not in _state:
        d = scratch()
        s = f'{REPO}/fornberg-num-deriv/fornberg_num_deriv'
        r = subprocess.run(['gfortran', '-O1', '-fPIC', '-shared', '-ffree-line-length-none', f'-J{d}', '-o',
                            f'{d}/libfnd.so', f'{s}/fornberg.f90', f'{s}/f90wrap_fornberg.f90'],
                           capture_output=True, text=True)
        _state['flib'] = None if r.returncode else ctypes.CDLL(f'{d}/libfnd.so')
        _state['ferr'] = r.stderr[-2000:]
    if _state['flib'] is None:
        raise BuildError('Fortran kernel does not build: ' + _state['ferr'])
    return _state['flib']


def fornberg_grid_derivative(iorder, iaccuracy, grid, u, du):
    g, v = np.ascontiguousarray(grid, float), np.ascontiguousarray(u, float)
    if du.dtype != np.float64 or not du.flags.c_contiguous:
        raise ValueError('failed to initialize intent(inout) array')
    n = len(g)
    if len(v) != n or len(du) != n:
        raise ValueError('shape mismatch')
    f = flib().fornberg_grid_derivative_
    i = [ctypes.byref(ctypes.c_int(int(k))) for k in (iorder, iaccuracy, n)]
    f(i[0], i[1], _p(g), _p(v), _p(du), i[2])
