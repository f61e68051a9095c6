"""numpy interpreted on symbolic operands.

`OArr` is an ndarray (dtype object) holding Sym/SymC/number elements; numpy's
ufuncs, reductions and structural functions applied to it are given their
documented elementwise meaning here.  `NP` replaces the module-global `np` of
the modules under verification while they are executed symbolically.
"""
import functools
import math
import types
import numpy as np
from fractions import Fraction
from . import term as tm
from .term import Sym, SymC, Unsupported, as_sym, lift, num, wrap, s_sqrt, const


class UninitRead(Exception):
    """An element of np.empty(..) was used before being written."""


class _Uninit:
    _inst = None

    def __new__(cls):
        if cls._inst is None:
            cls._inst = super().__new__(cls)
        return cls._inst

    def _bad(self, *a, **k):
        raise UninitRead('read of uninitialised array element')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __float__ = __abs__ = _bad
    __bool__ = __int__ = __index__ = _bad

    def __repr__(self):
        return '<uninitialised>'


UNINIT = _Uninit()


class OArr(np.ndarray):
    __array_priority__ = 2000

    def __new__(cls, a):
        r = np.asarray(a, dtype=object)
        return r.view(cls)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kw):
        return function_dispatch(func, args, kw)

    @property
    def real(self):
        return emap(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        b = base(self)
        v = np.broadcast_to(base(_oa(v)), b.shape)
        for i in np.ndindex(b.shape):
            b[i] = SymC(v[i], _half() if b[i] is UNINIT else b[i].imag)

    @property
    def imag(self):
        return emap(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        b = base(self)
        v = np.broadcast_to(base(_oa(v)), b.shape)
        for i in np.ndindex(b.shape):
            b[i] = SymC(_half() if b[i] is UNINIT else b[i].real, v[i])

    def __array_finalize__(self, obj):
        self._dvk = getattr(obj, '_dvk', None)

    def conj(self):
        return emap(lambda x: x.conjugate(), self)

    conjugate = conj

    def astype(self, dt, *a, **k):
        if np.dtype(dt).kind in 'fcO':
            return self.copy()
        if np.dtype(dt).kind in 'iu' and all(
                lift(x) is not None and num(lift(x)).sort == 'I' for x in base(self).flat):
            return self.copy()
        if np.dtype(dt).kind == 'i':          # the C conversion: towards zero
            return emap(lambda x: _floor(x) if as_sym(x) >= 0 else -_floor(-as_sym(x)), self)
        if np.dtype(dt).kind == 'b':
            return emap(lambda x: as_sym(x) != 0 if as_sym(x).t.sort != 'B' else x, self)
        raise Unsupported(f'astype {dt}')

    def sum(self, axis=None, dtype=None, out=None, **k):
        return f_sum(self, axis, **k)

    def prod(self, axis=None, dtype=None, **k):
        if dtype is not None and np.dtype(dtype).kind == 'b':
            return f_all(self, axis)
        return f_prod(self, axis, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        s = self.sum(axis=axis, **k)
        n = self.size if axis is None else int(np.prod([self.shape[x] for x in (
            axis if isinstance(axis, tuple) else (axis,))]))
        return s / n

    def any(self, axis=None, **k):
        return f_any(self, axis)

    def all(self, axis=None, **k):
        return f_all(self, axis)

    def max(self, axis=None, **k):
        return function_dispatch(np.max, (self,), {'axis': axis, **k})

    def min(self, axis=None, **k):
        return function_dispatch(np.min, (self,), {'axis': axis, **k})

    def dot(self, o):
        return f_dot(self, o)

    def cumsum(self, axis=None, **k):
        return f_cumsum(self, axis)

    def clip(self, *a, **k):
        return f_clip(self, *a, **k)

    def std(self, *a, **k):
        return function_dispatch(np.std, (self, *a), k)

    def var(self, *a, **k):
        return f_var(self, *a, **k)

    def round(self, decimals=0, **k):
        return f_round(self, decimals)

    def ptp(self, axis=None, **k):
        return f_max(self, axis) - f_min(self, axis)

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).reshape(-1)[0])
        raise ValueError('truth value of an array is ambiguous')

    def __getitem__(self, i):
        i = conc_index(i)
        return super().__getitem__(i)

    def __setitem__(self, i, v):
        i = conc_index(i)
        if self._dvk:
            v = _store(v, self._dvk)
        super().__setitem__(i, base(v) if isinstance(v, np.ndarray) else v)


_HALF = [0]


def _half():
    """the part of a complex number that has not been written yet"""
    _HALF[0] += 1
    return Sym(tm.var(f'uninitialised#{_HALF[0]}', 'R'))


def _store(v, kind):
    """what numpy does when v is written into an array of that kind"""
    if isinstance(v, (list, tuple)):
        v = np_array(v)
    if isinstance(v, np.ndarray):
        return emap(lambda x: _store(x, kind), v) if v.dtype == object else v
    if v is UNINIT or v is None and kind != 'f':
        return v
    if kind == 'f':
        if v is None:
            return float('nan')
        if isinstance(v, SymC) and not (v.im.t.op == 'const' and v.im.t.val == 0):
            raise TypeError('complex value stored in a real array')
        return v
    if kind == 'b' and isinstance(v, Sym) and v.t.sort != 'B':
        return v != 0
    if kind == 'i' and isinstance(v, Sym) and v.t.sort == 'R':
        raise Unsupported('real value stored in an integer array')
    if kind == 'i' and isinstance(v, float):
        return int(v)
    return v


def conc_index(i):
    if isinstance(i, tuple):
        return tuple(conc_index(x) for x in i)
    if isinstance(i, OArr):
        b = base(i)
        vals = [bool(x) if isinstance(x, (bool, np.bool_)) or (isinstance(x, Sym) and x.t.sort == 'B')
                else int(x) for x in b.flat]
        kind = bool if vals and isinstance(vals[0], bool) else int
        return np.array(vals, dtype=kind).reshape(b.shape)
    if isinstance(i, Sym):
        if i.t.sort == 'B':
            return bool(i)
        return i.__index__()
    if isinstance(i, slice):
        return slice(*[x.__index__() if isinstance(x, Sym) else x
                       for x in (i.start, i.stop, i.step)])
    return i


def base(a):
    if isinstance(a, OArr):
        return a.view(np.ndarray)
    return a


def is_sym(x):
    return isinstance(x, (Sym, SymC))


def has_sym(x):
    if isinstance(x, (Sym, SymC, OArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def emap(f, *arrs):
    bs = np.broadcast_arrays(*[np.asarray(base(a), dtype=object) if isinstance(a, np.ndarray)
                               else _box(a) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    flat = [b.reshape(-1) for b in bs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[b[i] for b in flat])
    if out.ndim == 0:
        return out.item()
    return out.view(OArr)


def _box(x):
    b = np.empty((), dtype=object)
    b[()] = x
    return b


# ------------------------------------------------------- scalar functions --
def _chk(x):
    if x is UNINIT:
        raise UninitRead('read of uninitialised array element')
    return x


def _u(name):
    def f(x):
        x = as_sym(x)
        if isinstance(x, SymC):
            raise Unsupported(f'{name} of complex')
        return wrap(tm.uf(name, num(x.t)))
    return f


def _sin(x):
    x = as_sym(x)
    t = num(x.t)
    if t.op == 'neg':
        return wrap(tm.neg(tm.uf('sin', t.args[0])))
    return wrap(tm.uf('sin', t))


def _cos(x):
    t = num(as_sym(x).t)
    if t.op == 'neg':
        t = t.args[0]
    return wrap(tm.uf('cos', t))


def _arctan(x):
    t = num(as_sym(x).t)
    if t.op == 'neg':
        return wrap(tm.neg(tm.uf('arctan', t.args[0])))
    return wrap(tm.uf('arctan', t))


def _log(x):
    x = as_sym(x)
    e = tm._engine[0]
    if e is not None:
        e.assume_defined(tm.cmp('lt', const(0), num(x.t)))
    return wrap(tm.uf('log', num(x.t)))


def _log10(x):
    x = as_sym(x)
    e = tm._engine[0]
    if e is not None:
        e.assume_defined(tm.cmp('lt', const(0), num(x.t)))
    return wrap(tm.uf('log10', num(x.t)))


def _exp(x):
    x = as_sym(x)
    if isinstance(x, SymC):
        r = _exp(x.re)
        return SymC(r * _cos(x.im), r * _sin(x.im))
    return wrap(tm.uf('exp', num(x.t)))


def _sqrt(x):
    return s_sqrt(as_sym(x))


def _sign(x):
    t = num(as_sym(x).t)
    z = const(0, t.sort)
    return wrap(tm.ite(tm.cmp('lt', z, t), const(1, t.sort),
                       tm.ite(tm.cmp('lt', t, z), const(-1, t.sort), z)))


def _isnan(x):
    if isinstance(x, SymC):
        return False
    t = as_sym(x).t
    if t.op == 'special' and t.val == 'nan':
        return True
    return False


def _isfinite(x):
    t = as_sym(x).t if not isinstance(x, SymC) else None
    return not (t is not None and t.op == 'special')


def _max(a, b):
    a, b = as_sym(a), as_sym(b)
    return wrap(tm.ite(tm.known(tm.cmp('le', num(b.t), num(a.t))), num(a.t), num(b.t)))


def _min(a, b):
    a, b = as_sym(a), as_sym(b)
    return wrap(tm.ite(tm.known(tm.cmp('le', num(a.t), num(b.t))), num(a.t), num(b.t)))


def _clip(a, lo, hi):
    a = a if lo is None else _max(a, lo)
    return a if hi is None else _min(a, hi)


def _tob(x):
    """truth value as a boolean operand, without forking"""
    if isinstance(x, SymC):
        return ~(x == 0)
    t = as_sym(x).t
    if t.sort != 'B':
        t = tm.cmp('ne', t, const(0))
    return wrap(t)


def _abs(x):
    return abs(x)


def _trunc(a):
    t = num(as_sym(a).t)
    return wrap(tm.ite(tm.cmp('le', const(0), t), tm.floor(t), tm.neg(tm.floor(tm.neg(t)))))


def _floor(x):
    return wrap(tm.floor(num(as_sym(x).t)))


def _ceil(x):
    return wrap(tm.neg(tm.floor(tm.neg(num(as_sym(x).t)))))


def _inv(x):
    if isinstance(x, Sym):
        return ~x
    if isinstance(x, (bool, np.bool_)):
        return not x
    raise Unsupported('invert')


SC = {
    'add': lambda a, b: as_sym(a) + b, 'subtract': lambda a, b: as_sym(a) - b,
    'multiply': lambda a, b: as_sym(a) * b,
    'true_divide': lambda a, b: as_sym(a) / b, 'divide': lambda a, b: as_sym(a) / b,
    'floor_divide': lambda a, b: as_sym(a) // b,
    'remainder': lambda a, b: as_sym(a) % b, 'mod': lambda a, b: as_sym(a) % b,
    'power': lambda a, b: as_sym(a) ** b, 'float_power': lambda a, b: as_sym(a) ** b,
    'negative': lambda a: -as_sym(a), 'positive': lambda a: as_sym(a),
    'absolute': _abs, 'fabs': _abs, 'square': lambda a: as_sym(a) * a,
    'reciprocal': lambda a: 1 / as_sym(a), 'sqrt': _sqrt,
    'sin': _sin, 'cos': _cos, 'tan': _u('tan'), 'arctan': _arctan,
    'arcsin': _u('arcsin'), 'arccos': _u('arccos'), 'exp': _exp, 'log': _log,
    'log10': _log10, 'log2': _u('log2'), 'sign': _sign, 'cbrt': _u('cbrt'),
    'less': lambda a, b: as_sym(a) < b, 'less_equal': lambda a, b: as_sym(a) <= b,
    'greater': lambda a, b: as_sym(a) > b, 'greater_equal': lambda a, b: as_sym(a) >= b,
    'equal': lambda a, b: as_sym(a) == b, 'not_equal': lambda a, b: as_sym(a) != b,
    'logical_and': lambda a, b: _tob(a) & _tob(b), 'logical_or': lambda a, b: _tob(a) | _tob(b),
    'logical_not': lambda a: ~_tob(a), 'logical_xor': lambda a, b: _tob(a) ^ _tob(b),
    'bitwise_and': lambda a, b: as_sym(a) & b, 'bitwise_or': lambda a, b: as_sym(a) | b,
    'invert': _inv, 'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': lambda x: False,
    'conjugate': lambda a: a.conjugate(), 'floor': _floor, 'ceil': _ceil,
    'rint': lambda a: round(as_sym(a)), 'trunc': _trunc,
    'hypot': lambda a, b: s_sqrt(as_sym(a) * a + as_sym(b) * b),
    'arctan2': lambda a, b: wrap(tm.uf('arctan2', num(lift(a)), num(lift(b)))),
    'deg2rad': lambda a: as_sym(a) * (math.pi / 180),
    'radians': lambda a: as_sym(a) * (math.pi / 180),
    'rad2deg': lambda a: as_sym(a) * (180 / math.pi),
    'degrees': lambda a: as_sym(a) * (180 / math.pi),
    'bitwise_xor': lambda a, b: _tob(a) ^ _tob(b),
    'sinh': lambda a: (_exp(a) - _exp(-as_sym(a))) / 2,
    'cosh': lambda a: (_exp(a) + _exp(-as_sym(a))) / 2,
    'tanh': lambda a: (_exp(2 * as_sym(a)) - 1) / (_exp(2 * as_sym(a)) + 1),
    'log1p': lambda a: _log(as_sym(a) + 1), 'expm1': lambda a: _exp(a) - 1,
    'exp2': lambda a: as_sym(2) ** a,
    'fmod': lambda a, b: as_sym(a) - as_sym(b) * _trunc(as_sym(a) / b),
    'signbit': lambda a: as_sym(a) < 0,
    'copysign': lambda a, b: f_where(as_sym(b) < 0, -abs(as_sym(a)), abs(as_sym(a))),
    'heaviside': lambda a, h: f_where(as_sym(a) < 0, 0., f_where(as_sym(a) == 0, h, 1.)),
    'clip': lambda a, lo, hi: _clip(a, lo, hi),
    'divmod': lambda a, b: (as_sym(a) // b, as_sym(a) % b),
}
RED_ID = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False,
          'bitwise_and': True, 'bitwise_or': False}


def scalar(name, *args):
    for a in args:
        _chk(a)
    f = SC.get(name)
    if f is None:
        raise Unsupported(f'numpy ufunc {name}')
    r = f(*args)
    if r is NotImplemented:
        raise Unsupported(f'numpy ufunc {name} on {[type(a) for a in args]}')
    return r


_GARR = [None]


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if _GARR[0] is not None and any(isinstance(i, _GARR[0]) for i in inputs):
        return _GARR[0].ufunc(ufunc, method, inputs, kw)
    kw = dict(kw)
    out = kw.pop('out', None)
    kw.pop('dtype', None), kw.pop('casting', None)
    keep = kw.pop('keepdims', False)
    keep = keep is True or keep == 1
    where = kw.pop('where', True)
    if where is not True and method == 'reduce':
        ini = kw.get('initial', RED_ID.get(name))
        if ini is None:
            raise Unsupported('reduce where= without a neutral element')
        inputs = (_oa(f_where(where, inputs[0], ini)),)
        where = True
    if where is not True:
        if out is None and method == '__call__':
            o = np.empty(np.broadcast_shapes(*[np.shape(i) for i in (*inputs, where)]),
                         dtype=object)
            o[...] = UNINIT
            out = o.view(OArr)
        if method != '__call__' or out is None or len(inputs) == 0:
            raise Unsupported('ufunc where= without out=')
        o = out[0] if isinstance(out, tuple) else out
        bs = np.broadcast_arrays(*[np.asarray(base(i) if isinstance(i, np.ndarray) else _box(i))
                                   for i in inputs])
        w = np.broadcast_to(np.asarray(conc_index(_oa(where)) if isinstance(where, np.ndarray)
                                       else bool(where)), bs[0].shape)
        for ix in np.ndindex(*bs[0].shape):
            if w[ix]:
                o[ix] = scalar(name, *[b[ix] for b in bs])
        return o
    if name == 'matmul':
        r = f_dot(*inputs)
    elif method == '__call__':
        inputs = [OArr(np.array(i, dtype=object)) if isinstance(i, (list, tuple)) else i
                  for i in inputs]
        r = emap(lambda *a: scalar(name, *a), *inputs)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        a = base(inputs[0])
        ini = kw.get('initial', RED_ID.get(name))
        if kw.get('initial') is not None:
            ini = _Start(ini)
        if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
            r = _fold(name, list(a.reshape(-1)), ini)
        else:
            if isinstance(axis, tuple):
                axis = sorted(x % a.ndim for x in axis)
                rest = [x for x in range(a.ndim) if x not in axis]
                a = np.transpose(a, axis + rest)
                a = a.reshape((-1,) + a.shape[len(axis):])
                axis = 0
            b = np.moveaxis(a, axis, 0)
            if b.ndim == 1:
                r = _fold(name, list(b), ini)
            else:
                o = np.empty(b.shape[1:], dtype=object)
                for ix in np.ndindex(*b.shape[1:]):
                    o[ix] = _fold(name, [b[(k,) + ix] for k in range(b.shape[0])], ini)
                r = o.view(OArr)
        if keep:
            a, axis = base(inputs[0]), kw.get('axis', 0)
            axis = range(a.ndim) if axis is None else \
                [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
            o = np.empty([1 if k in axis else n for k, n in enumerate(a.shape)], dtype=object)
            o[...] = base(r).reshape(o.shape) if isinstance(r, np.ndarray) else r
            r = o.view(OArr)
    elif method == 'outer':
        a, b = np.asarray(base(inputs[0])), np.asarray(base(inputs[1]))
        r = emap(lambda x, y: scalar(name, x, y), a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'accumulate':
        a = base(inputs[0])
        if a.ndim != 1:
            axis = kw.get('axis', 0)
            o = np.empty(a.shape, dtype=object)
            b, ob = np.moveaxis(a, axis, 0), np.moveaxis(o, axis, 0)
            for ix in np.ndindex(*b.shape[1:]):
                acc = None
                for k in range(b.shape[0]):
                    x = b[(k,) + ix]
                    acc = x if acc is None else scalar(name, acc, x)
                    ob[(k,) + ix] = acc
            return o.view(OArr)
        o, acc = [], None
        for x in a:
            acc = x if acc is None else scalar(name, acc, x)
            o.append(acc)
        r = mkarr(o)
    elif method == 'at':
        a, ix = inputs[0], conc_index(inputs[1])
        ix = np.arange(len(a))[ix] if a.ndim == 1 else ix
        v = inputs[2] if len(inputs) > 2 else None
        if a.ndim != 1 or v is None:
            raise Unsupported('ufunc.at')
        v = np.broadcast_to(np.asarray(base(v), dtype=object) if isinstance(v, np.ndarray)
                            else _box(v), np.shape(ix))
        for k in np.ndindex(*np.shape(ix)):
            a[int(ix[k])] = scalar(name, base(a)[int(ix[k])], v[k])
        return None
    else:
        raise Unsupported(f'ufunc method {method}')
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
        if out is not None:
            out[...] = r
            return out
    return r


class _Start:
    """an `initial` the caller asked for: it takes part in every reduction"""

    def __init__(self, v):
        self.v = v


def _fold(name, xs, ini):
    if isinstance(ini, _Start):
        xs, ini = [ini.v] + list(xs), None
    if not xs:
        if ini is None:
            raise ValueError('zero-size reduction')
        return ini
    acc = _chk(xs[0])
    for x in xs[1:]:
        acc = scalar(name, acc, x)
    return acc


def mkarr(lst):
    o = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        o[i] = x
    return o.view(OArr)


# ------------------------------------------------------ array functions ----
def f_dot(a, b):
    a, b = np.asarray(base(a), dtype=object), np.asarray(base(b), dtype=object)
    if a.ndim == 0 or b.ndim == 0:
        return emap(lambda x, y: scalar('multiply', x, y), a, b)

    def dot1(u, v):
        if len(u) != len(v):
            raise ValueError('shapes not aligned')
        return _fold('add', [scalar('multiply', x, y) for x, y in zip(u, v)], 0)
    if a.ndim == 1 and b.ndim == 1:
        return dot1(a, b)
    if a.ndim == 2 and b.ndim == 1:
        return mkarr([dot1(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return mkarr([dot1(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        o = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                o[i, j] = dot1(a[i], b[:, j])
        return o.view(OArr)
    raise Unsupported('dot of nd arrays')


def f_any(a, axis=None, **k):
    return ufunc_dispatch(np.logical_or, 'reduce', (_oa(a),), {'axis': axis, 'initial': False}) \
        if np.size(a) else False


def f_all(a, axis=None, **k):
    return ufunc_dispatch(np.logical_and, 'reduce', (_oa(a),), {'axis': axis, 'initial': True}) \
        if np.size(a) else True


def _oa(a):
    if isinstance(a, OArr):
        return a
    if is_sym(a):
        return mkarr([a])
    if isinstance(a, (list, tuple)):
        return np_array(a)
    return OArr(a)


def f_where(c, *ab):
    if not ab:
        cc = conc_index(_oa(c))
        return np.where(np.asarray(cc))
    a, b = ab

    def sel(c, x, y):
        ct = _tob(c).t
        if ct.op == 'bconst':
            return x if ct.val else y
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            x, y = SymC.of(x), SymC.of(y)
            return SymC(sel(c, x.re, y.re), sel(c, x.im, y.im))
        return wrap(tm.ite(ct, lift(_chk(x)), lift(_chk(y))))
    return emap(sel, c, a, b)


def f_det(m):
    m = base(m)
    n = m.shape[0]

    def det(rows, cols):
        if len(rows) == 1:
            return as_sym(m[rows[0], cols[0]])
        s = as_sym(0)
        for j, c in enumerate(cols):
            x = m[rows[0], c]
            lx = lift(x) if not isinstance(x, SymC) else None
            if lx is not None and lx.op == 'const' and lx.val == 0:
                continue
            t = as_sym(x) * det(rows[1:], cols[:j] + cols[j + 1:])
            s = s + t if j % 2 == 0 else s - t
        return s
    return det(list(range(n)), list(range(n)))


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def ic(x, y):
        x, y = as_sym(x), as_sym(y)
        return abs(x - y) <= atol + rtol * abs(y)
    return emap(ic, a, b)


def f_trapz(y, x=None, dx=1.0, axis=-1):
    y = base(y)
    if y.ndim != 1:
        raise Unsupported('nd trapz')
    s = 0
    for i in range(len(y) - 1):
        d = (x[i + 1] - x[i]) if x is not None else dx
        s = s + d * (as_sym(y[i + 1]) + y[i]) / 2
    return s


def f_gradient(y, *xs, axis=None, edge_order=1):
    """numpy.gradient of a one-dimensional array (documented second-order formulas)"""
    y = base(_oa(y))
    n = len(y)
    if y.ndim != 1 or len(xs) > 1 or n < edge_order + 1:
        raise Unsupported('np.gradient')
    if xs and np.ndim(xs[0]) == 1:
        x = list(base(_oa(xs[0])))
        h = [as_sym(x[i + 1]) - x[i] for i in range(n - 1)]
    else:
        h = [as_sym(xs[0] if xs else 1)] * (n - 1)
    o = []
    for i in range(n):
        if 0 < i < n - 1:
            a, b = h[i - 1], h[i]
            o.append((a * a * y[i + 1] + (b * b - a * a) * y[i] - b * b * y[i - 1])
                     / (a * b * (a + b)))
        elif edge_order == 1:
            j = max(i, 1)
            o.append((as_sym(y[j]) - y[j - 1]) / h[j - 1])
        else:
            if i == 0:
                a, b, (p, q, r) = h[0], h[1], y[:3]
                o.append(-(2 * a + b) / (a * (a + b)) * p + (a + b) / (a * b) * q
                         - a / (b * (a + b)) * r)
            else:
                a, b, (p, q, r) = h[-2], h[-1], y[-3:]
                o.append(b / (a * (a + b)) * p - (a + b) / (a * b) * q
                         + (2 * b + a) / (b * (a + b)) * r)
    return mkarr(o)


def f_prod(a, axis=None, dtype=None, out=None, **k):
    if dtype is not None and np.dtype(dtype).kind == 'b':
        return f_all(a, axis)
    return ufunc_dispatch(np.multiply, 'reduce', (_oa(a),), {'axis': axis, 'out': out, **k})


def f_sum(a, axis=None, dtype=None, out=None, **k):
    return ufunc_dispatch(np.add, 'reduce', (_oa(a),), {'axis': axis, 'out': out, **k})


def f_max(a, axis=None, out=None, **k):
    return ufunc_dispatch(np.maximum, 'reduce', (_oa(a),), {'axis': axis, 'out': out, **k})


def f_min(a, axis=None, out=None, **k):
    return ufunc_dispatch(np.minimum, 'reduce', (_oa(a),), {'axis': axis, 'out': out, **k})


def f_diff(a, n=1, axis=-1, **k):
    if k:
        raise Unsupported('np.diff(prepend, append)')
    a = _oa(a)
    for _ in range(n):
        b = np.moveaxis(base(a), axis, 0)
        a = _oa(np.moveaxis(base(b[1:].view(OArr) - b[:-1].view(OArr)), 0, axis))
    return a


def f_clip(a, lo=None, hi=None, out=None, **k):
    lo, hi = k.get('min', k.get('a_min', lo)), k.get('max', k.get('a_max', hi))
    r = emap(lambda x, u, v: _clip(x, None if u is None else u, None if v is None else v),
             a if isinstance(a, np.ndarray) or is_sym(a) else _oa(a),
             *(np.array(x, dtype=object) if not isinstance(x, np.ndarray) else x
               for x in (lo, hi)))
    if out is not None:
        out[...] = r
        return out
    return r


def f_var(a, axis=None, ddof=0, **k):
    if k.get('keepdims'):
        raise Unsupported('var(keepdims)')
    a = _oa(a)
    n = a.size if axis is None else a.shape[axis]
    m = f_sum(a, axis=axis, keepdims=True) / n
    d = a - m
    return f_sum(d * d, axis=axis) / (n - ddof)


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return _oa(a).mean(axis=axis)
    return f_sum(_oa(a) * weights, axis=axis) / f_sum(_oa(weights), axis=axis)


def f_median(a, axis=None, **k):
    a = _oa(a)
    if axis not in (None, 0, -1) or axis is not None and a.ndim != 1:
        raise Unsupported('median along an axis')
    v = sorted(base(a).flat)
    n = len(v)
    return as_sym(v[n // 2]) if n % 2 else (as_sym(v[n // 2 - 1]) + v[n // 2]) / 2


def f_tensordot(a, b, axes=2):
    a, b = base(_oa(a)), base(_oa(b))
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax = tuple([x] if isinstance(x, int) else list(x) for x in axes)
    fa = [i for i in range(a.ndim) if i not in [x % a.ndim for x in ax[0]]]
    fb = [i for i in range(b.ndim) if i not in [x % b.ndim for x in ax[1]]]
    n = int(np.prod([a.shape[i] for i in ax[0]], dtype=int))
    u = a.transpose(fa + list(ax[0])).reshape(-1, n)
    v = b.transpose(list(ax[1]) + fb).reshape(n, -1)
    r = f_dot(u, v)
    sh = tuple(a.shape[i] for i in fa) + tuple(b.shape[i] for i in fb)
    return base(r).reshape(sh).view(OArr) if sh else base(r).reshape(-1)[0]


def f_inner(a, b):
    a, b = base(_oa(a)), base(_oa(b))
    if a.ndim > 1 or b.ndim > 1:
        return f_tensordot(a, b, (-1, -1))
    return f_dot(a, b)


def f_cross(a, b, **k):
    a, b = base(_oa(a)), base(_oa(b))
    if k or a.shape != (3,) or b.shape != (3,):
        raise Unsupported('np.cross')
    m = SC['multiply']
    return mkarr([m(a[i], b[j]) - m(a[j], b[i]) for i, j in ((1, 2), (2, 0), (0, 1))])


def f_convolve(a, v, mode='full'):
    a, v = list(base(_oa(a))), list(base(_oa(v)))
    full = [_fold('add', [scalar('multiply', a[i], v[k - i]) for i in range(len(a))
                          if 0 <= k - i < len(v)], 0) for k in range(len(a) + len(v) - 1)]
    if mode == 'full':
        return mkarr(full)
    n, m = max(len(a), len(v)), min(len(a), len(v))
    if mode == 'valid':
        return mkarr(full[m - 1:n])
    return mkarr(full[(m - 1) // 2:(m - 1) // 2 + n])


def f_digitize(x, bins, right=False):
    bins = list(base(_oa(bins)) if isinstance(bins, np.ndarray) else bins)
    up = len(bins) < 2 or bool(as_sym(bins[0]) <= bins[-1])

    def one(v):
        v = as_sym(v)
        r = as_sym(0)
        for b in bins:
            c = (v > b if right else v >= b) if up else (v <= b if right else v < b)
            r = r + wrap(num(_tob(c).t))
        return int(r) if not isinstance(r, Sym) else r.__index__()
    r = emap(one, x)
    return np.array(r, dtype=int) if isinstance(r, np.ndarray) else r


def f_round(a, decimals=0, out=None):
    f = 10 ** decimals
    return emap(lambda x: round(as_sym(x) * f) / f if decimals else round(as_sym(x)), a)


def f_nanred(name):
    def f(a, axis=None, **k):
        ini = RED_ID.get(name)
        a = _oa(a)
        if any(_isnan(x) for x in base(a).flat if not isinstance(x, complex)):
            if ini is None:
                raise Unsupported(f'nan{name} with NaN values')
            a = f_nan_to_num(a, nan=ini)
        return ufunc_dispatch(getattr(np, name), 'reduce', (a,), {'axis': axis, **k})
    return f


def f_piecewise(x, conds, funcs, *a, **k):
    x = _oa(x)
    r = None
    if len(funcs) == len(conds) + 1:
        r = funcs[-1]
        r = r(x, *a, **k) if callable(r) else r
    r = 0. if r is None else r
    for c, f in reversed(list(zip(conds, funcs))):
        r = f_where(c, f(x, *a, **k) if callable(f) else f, r)
    return r if isinstance(r, np.ndarray) else emap(lambda _: r, x)


def f_apply_along_axis(f, axis, a, *r, **k):
    b = np.moveaxis(base(_oa(a)), axis, -1)
    o = [f(b[ix].view(OArr), *r, **k) for ix in np.ndindex(*b.shape[:-1])]
    if any(isinstance(x, np.ndarray) and x.ndim for x in o):
        o = np.array([base(x) for x in o], dtype=object).reshape(b.shape[:-1] + o[0].shape)
        return np.moveaxis(o, -1, axis).view(OArr)
    return np.array(o, dtype=object).reshape(b.shape[:-1]).view(OArr)


def f_stack_cols(cols):
    o = np.empty((len(cols[0]), len(cols)), dtype=object)
    for k, c in enumerate(cols):
        o[:, k] = base(c)
    return o.view(OArr)


def f_quantile(a, q, axis=None, **k):
    if axis is not None or k or is_sym(q) or np.ndim(q):
        raise Unsupported('quantile')
    xs = base(np_array(np.sort(np_array(a).reshape(-1))))
    v = q * (len(xs) - 1)
    lo = int(v)
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (v - lo) * (as_sym(xs[hi]) - xs[lo])


def f_solve(a, b):
    a, b = _oa(a), _oa(b)
    n = a.shape[0]
    if n > 4 or a.shape != (n, n) or b.ndim > 2:
        raise Unsupported('linear solve')
    if b.ndim == 2:
        return f_stack_cols([f_solve(a, b[:, k]) for k in range(b.shape[1])])
    d = f_det(a)
    out = []
    for j in range(n):
        m = np.array(base(a), dtype=object)
        m[:, j] = base(b)
        out.append(f_det(m) / d)
    return mkarr(out)


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = _oa(x)
    if ord in (None, 2, 'fro') and not (ord == 2 and axis is None and x.ndim > 1):
        a = f_abs(x)
        r = f_sum(a * a, axis=axis, keepdims=keepdims)
        return emap(_sqrt, r)
    if ord == 1 and (x.ndim == 1 or isinstance(axis, int)):
        return f_sum(f_abs(x), axis=axis, keepdims=keepdims)
    if ord == np.inf and (x.ndim == 1 or isinstance(axis, int)):
        return f_max(f_abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported('np.linalg.norm')


def f_abs(x):
    return emap(lambda v: scalar('absolute', v), x)


class Vectorize:
    """np.vectorize without its conversion to a numeric dtype"""

    def __init__(self, f, otypes=None, **k):
        self.f, self.o, self.k = f, otypes, k
        self.__name__ = getattr(f, '__name__', 'vectorized')

    def __call__(self, *a, **k):
        if self.k.get('signature') or not any(has_sym(x) for x in (*a, *k.values())):
            return np.vectorize(self.f, self.o, **self.k)(*a, **k)
        r = emap(lambda *v: self.f(*v, **k), *[_oa(x) if isinstance(x, (list, tuple)) else x
                                               for x in a])
        if isinstance(r, np.ndarray) and r.size and isinstance(base(r).flat[0], tuple):
            return tuple(emap(lambda v, j=j: v[j], r) for j in range(len(base(r).flat[0])))
        return r


def f_real(a):
    if isinstance(a, OArr) or is_sym(a):
        return a.real
    return emap(lambda x: as_sym(x).real, a)


def f_imag(a):
    if isinstance(a, OArr) or is_sym(a):
        return a.imag
    return emap(lambda x: as_sym(x).imag, a)


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def g(v):
        if isinstance(v, SymC):
            return v
        t = as_sym(v).t
        if t.op == 'special' and t.val == 'nan':
            return nan
        return v
    r = emap(g, x)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def f_isreal(a):
    def g(x):
        return (x.im == 0) if isinstance(x, SymC) else True
    return emap(g, a)


def f_iscomplexobj(a):
    if isinstance(a, SymC):
        return True
    if isinstance(a, OArr):
        return any(isinstance(x, (SymC, complex)) for x in base(a).flat)
    return np.iscomplexobj(a)


def f_isscalar(a):
    return is_sym(a) or np.isscalar(a)


def f_count_nonzero(a, axis=None, **k):
    return f_sum(emap(lambda x: wrap(num(_tob(x).t)), _oa(a)), axis)


def f_array_equal(a, b, *r, **k):
    a, b = _oa(a), _oa(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol))


def f_outer(a, b, out=None):
    return ufunc_dispatch(np.multiply, 'outer', (np.ravel(base(_oa(a))), np.ravel(base(_oa(b)))), {})


def f_cumsum(a, axis=None, **k):
    a = _oa(a)
    return ufunc_dispatch(np.add, 'accumulate', (a.ravel() if axis is None else a,),
                          {} if axis is None else {'axis': axis})


def f_polyval(p, x):
    y = 0
    for c in p:
        y = y * x + c
    return y


def f_interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise-linear interpolation (xp increasing), constant outside"""
    if period is not None:
        raise Unsupported('np.interp(period=)')
    if getattr(getattr(fp, 'dtype', None), 'names', None):
        raise TypeError('Cannot cast array data from a structured type')
    xs, ps, vs = (list(np.asarray(base(_oa(v)), dtype=object).reshape(-1)) for v in (x, xp, fp))
    if len(ps) != len(vs):
        raise ValueError('fp and xp are not of the same length.')
    if not ps:
        raise ValueError('array of sample points is empty')
    lo, hi = vs[0] if left is None else left, vs[-1] if right is None else right
    key = {}
    for i, p in enumerate(ps):
        key[num(lift(p))] = i

    def one(t):
        i = key.get(num(lift(t)))
        if i is not None:
            return vs[i]
        r = hi
        for i in range(len(ps) - 1, 0, -1):
            a, b = ps[i - 1], ps[i]
            seg = vs[i - 1] + (vs[i] - vs[i - 1]) * (t - a) / (b - a)
            r = f_where(as_sym(t) <= b if i < len(ps) - 1 else as_sym(t) < b, seg, r)
        return f_where(as_sym(t) < ps[0], lo, r)
    out = [one(t) for t in xs]
    return mkarr(out) if np.ndim(base(_oa(x))) else out[0]


def f_einsum(sub, *ops, **k):
    """explicit-output einsum over small arrays"""
    import itertools
    ins, _, out = sub.replace(' ', '').partition('->')
    ins = ins.split(',')
    arrs = [np.asarray(base(_oa(o)), dtype=object) for o in ops]
    dim = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError('einsum operand')
        for ch, n in zip(s, a.shape):
            if dim.setdefault(ch, n) != n:
                raise ValueError('einsum dimension')
    if '->' not in sub:
        out = ''.join(sorted(c for c in dim if ''.join(ins).count(c) == 1))
    res = np.empty(tuple(dim[c] for c in out), dtype=object)
    inner = [c for c in dim if c not in out]
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        acc = 0
        for jx in itertools.product(*(range(dim[c]) for c in inner)):
            env.update(zip(inner, jx))
            p = 1
            for s, a in zip(ins, arrs):
                p = p * a[tuple(env[c] for c in s)]
            acc = acc + p
        res[ix] = acc
    return res.view(OArr) if res.ndim else res[()]


def f_like(v):
    def f(a, dtype=None, *r, **k):
        if is_sym(a):
            return v if v is not None else UNINIT
        o = np.empty(np.shape(base(a)), dtype=object)
        k = getattr(a, '_dvk', None) if dtype is None else np.dtype(dtype).kind
        if dtype is None and isinstance(a, np.ndarray) and a.dtype != object:
            k = a.dtype.kind
        o[...] = UNINIT if v is None else int(v) if k == 'i' else bool(v) if k == 'b' else v
        o = o.view(OArr)
        o._dvk = k if k in ('f', 'i', 'b') else None
        return o
    return f


def f_full_like(a, v, *r, **k):
    o = np.empty(np.shape(base(a)), dtype=object)
    o[...] = v
    return o.view(OArr)


def f_isin(a, vals, **k):
    vs = list(np.asarray(base(vals) if isinstance(vals, np.ndarray) else vals, dtype=object).flat)
    if k.get('invert'):
        raise Unsupported('isin(invert)')

    def one(x):
        r = False
        for v in vs:
            e = x == v
            r = e if r is False else True if r is True else e | r
            if r is True or isinstance(r, np.bool_) and r:
                return True
        return r
    return emap(one, _oa(a))


def f_argpartition(a, kth, axis=-1, **k):
    """any admissible answer will do: the unspecified parts are in descending order"""
    b = base(a)
    n = b.shape[0]
    if b.ndim != 1:
        raise Unsupported('argpartition of a matrix')
    kth = int(kth)
    if not -n <= kth < n:
        raise ValueError(f'kth(={kth}) out of bounds ({n})')
    kth %= n
    o = [int(i) for i in np.argsort(b, kind='stable')]
    return np.array(o[:kth][::-1] + [o[kth]] + o[kth + 1:][::-1], dtype=int)


def f_angle(z, deg=False):
    if deg:
        raise Unsupported('angle in degrees')

    def an(v):
        v = as_sym(v)
        if isinstance(v, SymC):
            if lift(v.im).op != 'const' or lift(v.im).val != 0:
                return SC['arctan2'](v.im, v.re)
            v = v.re
        t = num(lift(v))
        if t.op in ('sqrt', 'abs'):
            return 0.0
        return wrap(tm.ite(tm.cmp('le', const(0), t), const(0), num(lift(math.pi))))
    return emap(an, _oa(z)) if isinstance(z, np.ndarray) else an(z)


def f_bincount(a, weights=None, minlength=0):
    ks = [int(v) for v in np.asarray(base(a)).ravel()]
    if any(k < 0 for k in ks):
        raise ValueError("'list' argument must have no negative elements")
    if weights is not None:
        o = [0.] * max([int(minlength)] + [k + 1 for k in ks])
        for k, w in zip(ks, np.asarray(base(weights) if isinstance(weights, np.ndarray)
                                       else weights, dtype=object)):
            o[k] = o[k] + w
        return mkarr(o)
    return np.bincount(np.array(ks, dtype=int), minlength=int(minlength))


def f_vander(a, N=None, increasing=False):
    xs = list(base(a))
    N = len(xs) if N is None else int(N)
    o = np.empty((len(xs), N), dtype=object)
    for i, x in enumerate(xs):
        v = as_sym(1.)
        for k in range(N):
            o[i, k if increasing else N - 1 - k] = v
            v = v * x
    return o.view(OArr)


FN = {
    np.angle: f_angle, np.argpartition: f_argpartition, np.isin: f_isin, np.in1d: f_isin,
    np.where: f_where, np.sum: f_sum, np.prod: f_prod, np.any: f_any, np.all: f_all,
    np.max: f_max, np.min: f_min, np.amax: f_max, np.amin: f_min, np.dot: f_dot,
    np.linalg.det: f_det, np.isclose: f_isclose, np.trapz: f_trapz, np.diff: f_diff,
    np.bincount: f_bincount, np.quantile: f_quantile,
    np.percentile: lambda a, q, axis=None, **k: f_quantile(a, q / 100., axis, **k),
    np.vander: f_vander, np.asfarray: lambda a, *k: np_array(a),
    np.ptp: lambda a, axis=None, **k: f_max(a) - f_min(a),
    np.real: f_real, np.imag: f_imag, np.nan_to_num: f_nan_to_num, np.isreal: f_isreal,
    np.iscomplexobj: f_iscomplexobj, np.count_nonzero: f_count_nonzero,
    np.array_equal: f_array_equal, np.allclose: f_allclose, np.outer: f_outer,
    np.cumsum: f_cumsum, np.polyval: f_polyval, np.interp: f_interp, np.einsum: f_einsum,
    np.zeros_like: f_like(0.0), np.ones_like: f_like(1.0), np.empty_like: f_like(None),
    np.full_like: f_full_like, np.gradient: f_gradient,
    np.mean: lambda a, axis=None, **k: _oa(a).mean(axis=axis, **k),
    np.average: f_average, np.clip: f_clip, np.var: f_var, np.median: f_median,
    np.std: lambda a, *r, **k: emap(_sqrt, f_var(a, *r, **k)),
    np.tensordot: f_tensordot, np.inner: f_inner, np.cross: f_cross, np.convolve: f_convolve,
    np.vdot: lambda a, b: f_dot(np.ravel(base(_oa(a).conj())), np.ravel(base(_oa(b)))),
    np.digitize: f_digitize, np.round: f_round, np.around: f_round,
    np.nansum: f_nanred('add'), np.nanprod: f_nanred('multiply'),
    np.nanmax: f_nanred('maximum'), np.nanmin: f_nanred('minimum'),
    np.cumprod: lambda a, axis=None, **k: ufunc_dispatch(
        np.multiply, 'accumulate', (_oa(a).ravel() if axis is None else _oa(a),),
        {} if axis is None else {'axis': axis}),
    np.piecewise: f_piecewise, np.apply_along_axis: f_apply_along_axis,
    np.linalg.solve: f_solve, np.linalg.norm: f_norm, np.select: lambda *a, **k: f_select(*a, **k),
    np.iscomplex: lambda a: emap(lambda x: ~(x.im == 0) if isinstance(x, SymC) else False, a),
    np.isrealobj: lambda a: not f_iscomplexobj(a), np.array_equiv: lambda a, b: f_all(_oa(a) == b),
    np.ediff1d: lambda a, **k: f_diff(_oa(a).ravel(), **k),
    np.fix: lambda a, **k: emap(_trunc, a), np.isposinf: lambda a, **k: emap(lambda x: False, a),
    np.isneginf: lambda a, **k: emap(lambda x: False, a),
    np.sinc: lambda a: emap(lambda x: f_where(as_sym(x) == 0, 1., _sin(
        as_sym(x) * math.pi) / (as_sym(x) * math.pi)), a),
}


def f_select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = f_where(c, x, r)
    return r

STRUCT = {np.concatenate, np.stack, np.vstack, np.hstack, np.column_stack, np.dstack,
          np.reshape, np.ravel, np.transpose, np.moveaxis, np.swapaxes, np.tile,
          np.repeat, np.append, np.insert, np.delete, np.take, np.flip, np.fliplr,
          np.flipud, np.squeeze, np.expand_dims, np.atleast_1d, np.atleast_2d,
          np.roll, np.diag, np.meshgrid, np.broadcast_to, np.broadcast_arrays,
          np.split, np.array_split, np.shape, np.ndim, np.size, np.copy, np.rot90,
          np.compress, np.extract, np.diagonal, np.trace, np.kron, np.block, np.ix_,
          np.lib.stride_tricks.sliding_window_view, np.resize, np.pad,
          np.fill_diagonal, np.copyto, np.triu, np.tril, np.array_split, np.argsort,
          np.sort, np.argmax, np.argmin, np.lexsort, np.searchsorted, np.choose,
          np.put, np.place, np.nonzero, np.flatnonzero, np.argwhere,
          np.unique, np.result_type, np.common_type, np.may_share_memory,
          np.shares_memory, np.array2string, np.array_repr, np.array_str,
          np.min_scalar_type, np.can_cast}

STACKS = {np.stack, np.vstack, np.hstack, np.column_stack, np.dstack}


def _unview(x):
    if isinstance(x, OArr):
        return base(x)
    if is_sym(x):
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(_unview(y) for y in x) if not hasattr(x, '_fields') else x
    return x


def _review(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(OArr)
    if isinstance(x, list):
        return [_review(y) for y in x]
    if isinstance(x, tuple):
        return tuple(_review(y) for y in x)
    return x


def function_dispatch(func, args, kw):
    if _GARR[0] is not None:
        r = _GARR[0].func(func, args, kw)
        if r is not NotImplemented:
            return r
    f = FN.get(func)
    if f is not None:
        return f(*args, **kw)
    if func in STRUCT:
        args = [_box(x) if is_sym(x) else x for x in args]
        if func in STACKS and args and isinstance(args[0], (list, tuple, np.ndarray)):
            args[0] = [_box(x) if is_sym(x) else x for x in args[0]]
        return _review(func(*_unview(tuple(args)), **{k: _unview(v) for k, v in kw.items()}))
    raise Unsupported(f'numpy function {getattr(func, "__name__", func)}')


# ------------------------------------------------------ creation ------------
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def np_array(x, dtype=None, copy=True, **k):
    if is_sym(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o.view(OArr)
    if has_sym(x):
        if isinstance(x, (list, tuple)):
            x = _unview(x)
        r = np.array(x, dtype=object)
        return r.view(OArr)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    return np.array(x, dtype=dtype, **k)


def _kinded(a, dtype):
    k = np.dtype(dtype if dtype is not None else float).kind
    a._dvk = k if k in 'fib' else None
    return a


def _symlist(x):
    """list of scalars (or of such lists), one of them symbolic"""
    return isinstance(x, (list, tuple)) and not any(isinstance(y, np.ndarray) for y in x) and \
        any(is_sym(y) or _symlist(y) for y in x)


def _fix(x):
    return np_array(x) if _symlist(x) else x


def _fixed(f):
    @functools.wraps(f)
    def g(*a, **k):
        return f(*[_fix(x) for x in a], **{n: _fix(x) for n, x in k.items()})
    return g


class UF:
    """a ufunc that also takes lists with symbolic elements"""

    def __init__(self, f):
        self._f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        return self._f(*[_fix(x) for x in a], **k)

    def __getattr__(self, n):
        v = getattr(self._f, n)
        return _fixed(v) if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat') else v


class NPType:
    """callable numpy scalar type usable as dtype: passes Sym through"""


class NP:
    """replacement for the module-global `np`"""

    def __init__(self):
        self.linalg = LinAlg()

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return UF(v)
        if isinstance(v, types.FunctionType) or type(v).__name__ == '_ArrayFunctionDispatcher':
            return _fixed(v)
        return v

    vectorize = Vectorize

    @staticmethod
    def frompyfunc(f, nin, nout, **k):
        return Vectorize(f)

    @staticmethod
    def array(x, dtype=None, **k):
        return np_array(x, dtype, **k)

    @staticmethod
    def asarray(x, dtype=None, **k):
        if isinstance(x, OArr):
            return x
        return np_array(x, dtype)

    @staticmethod
    def empty(shape, dtype=float, **k):
        if dtype not in (float, complex, int, bool, object, None) and \
                np.dtype(dtype).kind not in 'fcibO':
            return np.empty(shape, dtype)
        o = np.empty(_shape(shape), dtype=object)
        o[...] = UNINIT
        return _kinded(o.view(OArr), dtype)

    @staticmethod
    def zeros(shape, dtype=float, **k):
        o = np.empty(_shape(shape), dtype=object)
        o[...] = 0.0 if np.dtype(dtype).kind not in 'ib' else np.dtype(dtype).type(0).item()
        return _kinded(o.view(OArr), dtype)

    @staticmethod
    def ones(shape, dtype=float, **k):
        o = np.empty(_shape(shape), dtype=object)
        o[...] = 1.0 if np.dtype(dtype).kind not in 'ib' else np.dtype(dtype).type(1).item()
        return _kinded(o.view(OArr), dtype)

    @staticmethod
    def full(shape, v, *a, **k):
        o = np.empty(_shape(shape), dtype=object)
        o[...] = v
        return o.view(OArr)

    @staticmethod
    def linspace(a, b, num=50, **k):
        if is_sym(a) or is_sym(b):
            n = int(num)
            if k.get('endpoint', True) is False or k.get('retstep'):
                raise Unsupported('linspace options')
            return mkarr([as_sym(a) + (as_sym(b) - a) * i / (n - 1) for i in range(n)])
        return np.linspace(a, b, int(num), **k)

    @staticmethod
    def arange(*a, **k):
        a = [int(x) if is_sym(x) else x for x in a]
        return np.arange(*a, **k)

    @staticmethod
    def isscalar(x):
        return f_isscalar(x)

    @staticmethod
    def where(c, *ab):
        if has_sym(c) or any(has_sym(x) for x in ab):
            return f_where(c, *ab)
        return np.where(c, *ab)

    @staticmethod
    def fromiter(it, dtype=None, count=-1, **k):
        l = list(it)
        if has_sym(l):
            return mkarr(l)
        return np.fromiter(l, dtype, count)

    @staticmethod
    def sum(a, *r, **k):
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = np_array(a)
        return np.sum(a, *r, **k)

    @staticmethod
    def iscomplexobj(a):
        return f_iscomplexobj(a)

    @staticmethod
    def errstate(*a, **k):
        return np.errstate(*a, **k)


def _listfix(name):
    f = getattr(np, name)

    def g(*a, **k):
        a = tuple(np_array(x) if isinstance(x, (list, tuple)) and has_sym(x) else x for x in a)
        return f(*a, **k)
    g.__name__ = name
    return staticmethod(g)


for _n in ('all', 'any', 'prod', 'max', 'min', 'dot', 'cumsum', 'mean', 'sqrt', 'abs', 'amax',
           'amin', 'diff', 'isclose', 'allclose'):
    setattr(NP, _n, _listfix(_n))


class LinAlg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if any(has_sym(x) for x in a):
                if n in ('norm', 'solve'):
                    return {'norm': f_norm, 'solve': f_solve}[n](*a, **k)
                if n == 'det':
                    return f_det(np_array(a[0]))
                if n == 'inv':
                    q = np_array(a[0])
                    return f_solve(q, np.eye(len(q)))
                if n == 'multi_dot':
                    return functools.reduce(f_dot, a[0])
                raise Unsupported(f'np.linalg.{n} on symbolic matrix')
            return f(*a, **k)
        return g


class MathShim:
    def __getattr__(self, n):
        f = getattr(math, n)
        m = {'fabs': 'absolute', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos',
             'pow': 'power', 'atan2': 'arctan2'}.get(n, n)
        if not callable(f):
            return f

        def g(*a, **kw):
            if n == 'sqrt' and not is_sym(a[0]):
                return _np_sqrt(a[0])
            if n in ('fsum', 'prod', 'dist') or n == 'hypot' and len(a) != 2:
                v = [list(x) if not is_sym(x) and np.ndim(x) else x for x in a]
                if has_sym(v):
                    if n in ('fsum', 'prod'):
                        return _fold('add' if n == 'fsum' else 'multiply', v[0], as_sym(n == 'prod'))
                    if n == 'dist':
                        v = [as_sym(x) - y for x, y in zip(*v)]
                    return _sqrt(_fold('add', [as_sym(x) * x for x in v], 0))
                return f(*v)
            if n == 'isclose' and any(is_sym(x) for x in a):
                d = abs(as_sym(a[0]) - a[1])
                return (d <= _max(abs(as_sym(a[0])), abs(as_sym(a[1]))) * kw.get('rel_tol', 1e-9)) | \
                    (d <= kw.get('abs_tol', 0.))
            if any(is_sym(x) for x in a):
                if m in SC:
                    return scalar(m, *a)
                raise Unsupported(f'math.{n}')
            return f(*a, **kw)
        return g


def _np_sqrt(x, *a, **k):
    if tm._engine[0] is not None and isinstance(x, (int, float)) and not a and not k and x > 0 \
            and math.sqrt(x) ** 2 != x:
        return s_sqrt(as_sym(x))        # exact irrational, not its float approximation
    return np.sqrt(np_array(x) if isinstance(x, (list, tuple)) and has_sym(x) else x, *a, **k)


NP.sqrt = staticmethod(_np_sqrt)
NPI = NP()
MATHI = MathShim()


# ------------------------------------------------------ builtins -------------
def sh_isinstance(x, cls):
    if hasattr(x, '_dv_isinstance') and x._dv_isinstance(cls):
        return True
    if not is_sym(x):
        return isinstance(x, cls)
    cl = cls if isinstance(cls, tuple) else (cls,)
    flat = []
    for c in cl:
        if isinstance(c, tuple):
            flat += c
        else:
            flat.append(c)
    for c in flat:
        if isinstance(c, type) and issubclass(type(x), c):
            return True
        if isinstance(x, SymC):
            if c in (complex, np.complex128) or c is np.complexfloating:
                return True
            continue
        s = x.t.sort
        import numbers
        if s == 'R' and c in (float, np.float64, np.floating, numbers.Real, numbers.Number):
            return True
        if s == 'I' and c in (int, np.int64, np.integer, numbers.Integral, numbers.Number,
                              numbers.Real):
            return True
        if s == 'B' and c in (bool, np.bool_, int):
            return True
    return False


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


def sh_float(x=0.0):
    if isinstance(x, Sym):
        return x if x.t.sort == 'R' else wrap(tm.add(num(x.t), const(0))) if False else x
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return sh_float(x.reshape(-1)[0])
    return float(x)


def sh_int(x=0, *a):
    if isinstance(x, Sym):
        t = num(x.t)
        if t.sort == 'I':
            return wrap(t)
        # truncation toward zero
        return wrap(tm.ite(tm.cmp('le', const(0), t), tm.floor(t),
                           tm.neg(tm.floor(tm.neg(t)))))
    return int(x, *a)


def sh_complex(x=0, y=0):
    if is_sym(x) or is_sym(y):
        if isinstance(x, SymC) and not is_sym(y) and y == 0:
            return x
        return SymC(x, y)
    return complex(x, y)


def sh_round(x, n=None):
    if is_sym(x):
        return round(as_sym(x) * 10 ** n) / 10 ** n if n else round(x)
    return round(x, n) if n is not None else round(x)


def sh_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in xs) and not k:
        return _fold('maximum', xs, None)
    return max(*a, **k)


def sh_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in xs) and not k:
        return _fold('minimum', xs, None)
    return min(*a, **k)


BUILTIN_SHIMS = {'isinstance': sh_isinstance, 'int': sh_int, 'float': sh_float,
                 'complex': sh_complex, 'round': sh_round, 'max': sh_max, 'min': sh_min}
