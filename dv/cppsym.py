"""Symbolic execution of the C++ kernels of /repo.

The unmodified .cpp/.h files are compiled with the type `double` replaced by a
class whose arithmetic and comparisons call back into the verifier, so running
the compiled code yields terms over the symbolic inputs and forks paths at
comparisons of doubles.  OpenMP pragmas are not enabled in this build (the
serial semantics of each loop); everything else is the code that runs.
Reads of uninitialised memory or outside an array return a poison value, which
the verifier reports when it is used."""
import ctypes
import os
import re
import shutil
import subprocess

import numpy as np

from . import native
from .term import Unsupported

REPO = native.REPO
POISON = -1515870811            # 0xA5A5A5A5
G = 8                           # guard entries on each side of an array

HEADER = r'''
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <omp.h>
typedef double dv_real;
extern "C" {
typedef int (*dv_op_t)(int, int, int);
typedef int (*dv_const_t)(dv_real);
extern dv_op_t dv_op, dv_cmp;
extern dv_const_t dv_const;
}
/* heap blocks of doubles are surrounded by and filled with the poison pattern */
inline void *dv_new(std::size_t n) {
  std::size_t pad = 64;
  char *p = (char *)std::malloc(n + 2 * pad);
  for (std::size_t i = 0; i < n + 2 * pad; i++) p[i] = (char)0xA5;
  return p + pad;
}
inline void dv_free(void *p) { if (p) std::free((char *)p - 64); }
#define DV_AR(T) typename std::enable_if<std::is_arithmetic<T>::value, int>::type = 0
struct SymD {
  int id;
  SymD() = default;
  template <class T, DV_AR(T)> SymD(T v) : id(dv_const((dv_real)v)) {}
  static SymD mk(int i) { SymD s; s.id = i; return s; }
  static void *operator new(std::size_t n) { return dv_new(n); }
  static void *operator new[](std::size_t n) { return dv_new(n); }
  static void *operator new(std::size_t, void *p) { return p; }
  static void operator delete(void *p) { dv_free(p); }
  static void operator delete[](void *p) { dv_free(p); }
  SymD operator-() const { return mk(dv_op(5, id, id)); }
  SymD operator+() const { return *this; }
#define DV_CA(O, K) SymD &operator O(const SymD &b) { id = dv_op(K, id, b.id); return *this; }
  DV_CA(+=, 1) DV_CA(-=, 2) DV_CA(*=, 3) DV_CA(/=, 4)
  explicit operator bool() const { return dv_cmp(6, id, 0); }
};
namespace std {
template <> struct allocator<SymD> : public __new_allocator<SymD> {
  using value_type = SymD;
  allocator() noexcept {}
  allocator(const allocator &) noexcept {}
  template <class U> allocator(const allocator<U> &) noexcept {}
  template <class U> struct rebind { using other = allocator<U>; };
  SymD *allocate(std::size_t n, const void * = 0) { return (SymD *)dv_new(n * sizeof(SymD)); }
  void deallocate(SymD *p, std::size_t) noexcept { dv_free(p); }
  template <class U> bool operator==(const allocator<U> &) const noexcept { return true; }
  template <class U> bool operator!=(const allocator<U> &) const noexcept { return false; }
};
}
#define DV_BIN(O, K) \
  inline SymD operator O(const SymD &a, const SymD &b) { return SymD::mk(dv_op(K, a.id, b.id)); }
DV_BIN(+, 1) DV_BIN(-, 2) DV_BIN(*, 3) DV_BIN(/, 4)
#define DV_CMP(O, K) \
  inline bool operator O(const SymD &a, const SymD &b) { return dv_cmp(K, a.id, b.id) != 0; }
DV_CMP(<, 1) DV_CMP(<=, 2) DV_CMP(>, 3) DV_CMP(>=, 4) DV_CMP(==, 5) DV_CMP(!=, 6)
#define DV_F1(N, K) \
  namespace std { inline SymD N(const SymD &a) { return SymD::mk(dv_op(K, a.id, a.id)); } } \
  using std::N;
DV_F1(sqrt, 10) DV_F1(fabs, 11) DV_F1(exp, 12) DV_F1(log, 13) DV_F1(sin, 14) DV_F1(cos, 15)
namespace std { inline SymD abs(const SymD &a) { return SymD::mk(dv_op(11, a.id, a.id)); } }
using std::abs;
namespace std {
inline SymD pow(const SymD &a, const SymD &b) { return SymD::mk(dv_op(20, a.id, b.id)); }
inline SymD fma(const SymD &a, const SymD &b, const SymD &c) { return a * b + c; }
inline SymD fmax(const SymD &a, const SymD &b) { return a > b ? a : b; }
inline SymD fmin(const SymD &a, const SymD &b) { return a < b ? a : b; }
template <> class numeric_limits<SymD> : public numeric_limits<dv_real> {};
}
using std::pow;
using std::fma;
using std::fmax;
using std::fmin;
#define double SymD
'''

WRAP = r'''
#include "disc_integrals.h"
#include "num_integration.h"
#include "ld_functions.h"
extern "C" {
dv_op_t dv_op, dv_cmp;
dv_const_t dv_const;
void dv_set(dv_op_t a, dv_op_t b, dv_const_t c) { dv_op = a; dv_cmp = b; dv_const = c; }
int dv_integrate(int n, SymD *f, SymD *x, int es, const char *m, int nt, int par) {
  NumericalDoubleInputIntegrator o(n, f, x, es != 0, std::string(m), nt, par != 0);
  return o.integrate().id;
}
void dv_ld(int n, SymD *mu, SymD *out, const char *s, int nt, int par) {
  LimbDarkeningFunctions o(n, mu, out, std::string(s), nt, par != 0);
  o.compute();
}
void dv_disc(int n, SymD *mu, SymD *a, SymD *d1, SymD *d2, const char *ld, const char *in,
             int nt, int par, int *out) {
  DiscIntegration o(n, mu, a, d1, d2, std::string(ld), std::string(in), nt, par != 0);
  out[0] = o.compute_first_disc_integral().id;
  out[1] = o.compute_second_disc_integral().id;
}
}
'''
_state = {}
OP = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int)
CO = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_double)


def lib():
    if 'lib' not in _state:
        _state['lib'] = None
        d = native.scratch()
        for n, t in (('dvsym.h', HEADER), ('swrap.cpp', WRAP)):
            with open(f'{d}/{n}', 'w') as f:
                f.write(t)
        inc = [f'-I{REPO}/cpp-numintegrator/num_integrator', f'-I{REPO}/cpp-ld-funcs/ld_funcs',
               f'-I{REPO}/cpp-disc-integrator/disc_integrator']
        src = [f'{REPO}/cpp-numintegrator/num_integrator/num_integration.cpp',
               f'{REPO}/cpp-ld-funcs/ld_funcs/ld_functions.cpp',
               f'{REPO}/cpp-disc-integrator/disc_integrator/disc_integrals.cpp',
               f'{d}/swrap.cpp']
        ps = []
        for i, s in enumerate(src):
            cmd = ['g++', '-std=c++17', '-O0', '-fPIC', '-w', '-ftrivial-auto-var-init=pattern',
                   '-include', f'{d}/dvsym.h', '-c', '-o', f'{d}/s{i}.o'] + inc + [s]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                       text=True))
        errs = [p.communicate()[1] for p in ps]
        if any(p.returncode for p in ps):
            _state['err'] = ''.join(errs)[-600:]
        else:
            r = subprocess.run(['g++', '-shared', '-fPIC', '-Wl,-Bsymbolic', '-o', f'{d}/libdvs.so'] +
                               [f'{d}/s{i}.o' for i in range(len(src))] + ['-lgomp'],
                               capture_output=True, text=True)
            if r.returncode:
                _state['err'] = r.stderr[-600:]
            else:
                _state['lib'] = ctypes.CDLL(f'{d}/libdvs.so')
    if _state['lib'] is None:
        raise Unsupported('C++ kernels do not compile with symbolic doubles: ' + _state['err'])
    return _state['lib']


class Session:
    """one symbolic execution of a kernel"""

    def __init__(self, c):
        self.c, self.vals, self.exc = c, [0.], None
        L = lib()
        self.fns = (OP(self.op), OP(self.cmp), CO(self.const))
        L.dv_set(*self.fns)
        self.L = L

    def put(self, v):
        self.vals.append(v)
        return len(self.vals) - 1

    def get(self, i):
        if not 0 <= i < len(self.vals):
            self.c.fail('memory', 'uses an uninitialised value or reads outside its arrays')
            raise en_abort()
        return self.vals[i]

    def guard(self, f):
        if self.exc is not None:
            return 0
        try:
            return f()
        except BaseException as e:      # ctypes would swallow it
            self.exc = e
            return 0

    def op(self, k, a, b):
        return self.guard(lambda: self.put(self.arith(k, self.get(a), self.get(b))))

    def arith(self, k, x, y):
        from .npshim import scalar
        if k == 20:
            if isinstance(y, (int, float)) and float(y).is_integer():
                return x ** int(y)
            return x ** y
        if k == 11:
            return abs(x)
        if k >= 10:
            return scalar({10: 'sqrt', 11: 'abs', 12: 'exp', 13: 'log', 14: 'sin', 15: 'cos'}[k], x)
        return x + y if k == 1 else x - y if k == 2 else x * y if k == 3 else \
            x / y if k == 4 else -x

    def cmp(self, k, a, b):
        def f():
            x, y = self.get(a), self.get(b)
            r = x < y if k == 1 else x <= y if k == 2 else x > y if k == 3 else \
                x >= y if k == 4 else x == y if k == 5 else x != y
            return int(bool(r))
        return self.guard(f)

    def const(self, v):
        return self.guard(lambda: self.put(float(v)))

    def arr(self, vs):
        n = len(vs)
        a = (ctypes.c_int * (n + 2 * G))(*([POISON] * (n + 2 * G)))
        for i, v in enumerate(vs):
            a[G + i] = self.put(v)
        p = ctypes.cast(ctypes.byref(a, 4 * G), ctypes.c_void_p)
        return a, p

    def done(self, *arrs):
        if self.exc is not None:
            raise self.exc
        for a in arrs:
            if any(a[i] != POISON or a[len(a) - 1 - i] != POISON for i in range(G)):
                self.c.fail('memory', 'writes outside its arrays')


def en_abort():
    from .term import PathAbort
    return PathAbort()


def integrate(c, method, equal, f, x, threads=1, par=False):
    s = Session(c)
    (a, p), (b, q) = s.arr(f), s.arr(x)
    r = s.L.dv_integrate(len(f), p, q, int(equal), method.encode(), threads, int(par))
    s.done(a, b)
    return s.get(r)


def limb_darkening(c, mu, name='eddington', threads=1, par=False):
    s = Session(c)
    a, p = s.arr(mu)
    b, q = s.arr([0.] * len(mu))
    for i in range(len(mu)):
        b[G + i] = POISON
    s.L.dv_ld(len(mu), p, q, name.encode(), threads, int(par))
    s.done(a, b)
    return [s.get(b[G + i]) for i in range(len(mu))]


def disc(c, mu, ang, d1, d2, ld='eddington', method='trapz', threads=1, par=False):
    s = Session(c)
    A = [s.arr(v) for v in (mu, ang, d1, d2)]
    out = (ctypes.c_int * 2)(0, 0)
    s.L.dv_disc(len(mu), *[p for _, p in A], ld.encode(), method.encode(), threads, int(par), out)
    s.done(*[a for a, _ in A])
    return s.get(out[0]), s.get(out[1])


# ------------------------------------------------------------------ Cython layer
def pyx(path, ns):
    """the functions of a Cython wrapper as Python functions (types dropped; `&a[0]` is `a`)"""
    src = open(f'{REPO}/{path}').read()
    out, sig = [], None
    for ln in src.split('\n'):
        t = ln.strip()
        if sig is None and (re.match(r'(from\s+\S+\s+)?(cimport|import)\b', t) or
                            re.match(r'from\s+\S+\s+cimport', t) or t.startswith('@cython')):
            continue
        if sig is None and re.match(r'(cdef|cpdef|def)\b.*\(', t) and '=' not in t.split('(')[0]:
            sig = ln
        elif sig is not None:
            sig += ' ' + t.split('#')[0]
        if sig is not None:
            if not sig.rstrip().endswith(':'):
                continue
            m = re.match(r'(\s*)(?:cdef|cpdef|def)\b(?:\s*\([^()]*\)|[^()])*?(\w+)\s*\((.*)\)\s*'
                         r'(?:except\S*|nogil|noexcept|\s)*:$', sig.rstrip())
            if not m:
                raise Unsupported(f'Cython signature: {sig[:60]}')
            args = [re.sub(r'\[[^\]]*\]', '', a).split('=')[0].split()[-1]
                    for a in m[3].split(',') if a.strip()] if '[' not in m[3] else \
                [a.split('=')[0].split()[-1] for a in
                 re.sub(r'\[[^\]]*\]', '', m[3]).split(',') if a.strip()]
            out.append(f'{m[1]}def {m[2]}({", ".join(args)}):')
            sig = None
            continue
        m = re.match(r'(\s*)cdef\s+[\w\s\[\]:*,<>()]*?(\w+)\s*=\s*(.*)$', ln)
        if m:
            ln = f'{m[1]}{m[2]} = {m[3]}'
        elif re.match(r'\s*cdef\b', ln):
            ln = re.match(r'\s*', ln)[0] + 'pass'
        ln = re.sub(r'&(\w+)\[0\]', r'\1', ln)
        ln = re.sub(r'\bnew\s+(\w+)', r'\1', ln)
        out.append(ln)
    try:
        exec(compile('\n'.join(out), f'{REPO}/{path}', 'exec'), ns)
    except SyntaxError as e:
        raise Unsupported(f'Cython source: {e}')
    return ns


class Buf:
    """a contiguous buffer of terms"""

    def __init__(self, v):
        self.v = list(v)
        self.shape = (len(self.v),)

    def __len__(self):
        return len(self.v)


def _s(x):
    return x.decode() if isinstance(x, bytes) else x


def wrappers(c):
    """the three Cython modules of the current tree on top of the symbolic kernels"""
    def opt(n, k, d):
        return d if n is None else n

    class NumericalDoubleInputIntegrator:
        def __init__(self, n, f, x, es, method, threads=4, par=False):
            if n != len(f) or n != len(x):
                c.fail('memory', f'array size {n} passed for buffers of {len(f)} and {len(x)}')
            self.a = (_s(method), bool(es), f.v, x.v, threads, par)

        def integrate(self):
            return integrate(c, *self.a)

    class LimbDarkeningFunctions:
        def __init__(self, n, mu, out, name, threads=4, par=False):
            if n != len(mu) or n != len(out):
                c.fail('memory', f'array size {n} passed for buffers of {len(mu)} and {len(out)}')
            self.a, self.out = (mu.v, _s(name), threads, par), out

        def compute(self):
            self.out.v[:] = limb_darkening(c, *self.a)

    class DiscIntegration:
        def __init__(self, n, mu, a, d1, d2, ld, method, threads=4, par=False):
            if any(n != len(v) for v in (mu, a, d1, d2)):
                c.fail('memory', f'array size {n} passed')
            self.r = disc(c, mu.v, a.v, d1.v, d2.v, _s(ld), _s(method), threads, par)

        def compute_first_disc_integral(self):
            return self.r[0]

        def compute_second_disc_integral(self):
            return self.r[1]
    k = locals()
    out = []
    for path, cls, fn in (
            ('cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx',
             NumericalDoubleInputIntegrator, 'integrate'),
            ('cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx', LimbDarkeningFunctions, 'compute'),
            ('cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx', DiscIntegration,
             'get_integrals')):
        ns = pyx(path, {cls.__name__: cls, 'np': np})
        if fn not in ns:
            raise Unsupported(f'{path}: no function {fn}')
        out.append(ns[fn])
    return out


# ------------------------------------------------------------------ compiled Cython modules
PKGS = {'cni': ('cpp-numintegrator', 'num_integrator', 'libcpp_num_integrator'),
        'ldf': ('cpp-ld-funcs', 'ld_funcs', 'libcpp_ld_funcs'),
        'di': ('cpp-disc-integrator', 'disc_integrator', 'libcpp_disc_integration')}


def compiled():
    """the real extension modules, built from the current tree with Cython and g++ -fopenmp"""
    if 'ext' in _state:
        if isinstance(_state['ext'], str):
            raise Unsupported(_state['ext'])
        return _state['ext']
    import importlib.util
    import sys
    import sysconfig
    d = native.scratch()
    inc = [f'-I{REPO}/cpp-numintegrator/num_integrator', f'-I{REPO}/cpp-ld-funcs/ld_funcs',
           f'-I{REPO}/cpp-disc-integrator/disc_integrator', f'-I{sysconfig.get_paths()["include"]}',
           f'-I{np.get_include()}']
    src = {'cni': ['num_integration'], 'ldf': ['ld_functions'],
           'di': ['num_integration', 'ld_functions', 'disc_integrals']}
    where = {'num_integration': f'{REPO}/cpp-numintegrator/num_integrator/num_integration.cpp',
             'ld_functions': f'{REPO}/cpp-ld-funcs/ld_funcs/ld_functions.cpp',
             'disc_integrals': f'{REPO}/cpp-disc-integrator/disc_integrator/disc_integrals.cpp'}
    ps = []
    for key, (root, pkg, mod) in PKGS.items():
        shutil.copytree(f'{REPO}/{root}/{pkg}', f'{d}/cy/{pkg}', ignore=shutil.ignore_patterns(
            '*.so', f'{mod}.cpp', '__pycache__'))
    for key, (root, pkg, mod) in PKGS.items():
        sh = (f'"{sys.executable}" -W ignore -m cython -3 --cplus -I {d}/cy '
              f'{d}/cy/{pkg}/{mod}.pyx -o {d}/{mod}.cpp && '
              f'g++ -std=c++17 -O1 -w -fopenmp -fPIC -shared {" ".join(inc)} {d}/{mod}.cpp '
              f'{" ".join(where[s] for s in src[key])} -o {d}/{mod}.so')
        ps.append(subprocess.Popen(sh, shell=True, stdout=subprocess.PIPE, cwd=d,
                                   stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in ps]
    if any(p.returncode for p in ps):
        _state['ext'] = 'Cython modules do not build: ' + ''.join(outs)[-500:]
        raise Unsupported(_state['ext'])
    r = {}
    for key, (root, pkg, mod) in PKGS.items():
        spec = importlib.util.spec_from_file_location(f'{pkg}.{mod}', f'{d}/{mod}.so')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        r[key] = m
    _state['ext'] = r
    return r
