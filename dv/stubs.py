"""Opaque stand-ins (symbolic mode only) for library calls."""
import numpy as np

from .term import Sym, SymC, mk, lift, num


def splrep(x, y, *a, **k):
    return (x, y)


def splev(x, tck, *a, **k):
    xs, ys = tck
    args = [num(lift(x))] + [num(lift(v)) for v in list(xs)] + [num(lift(v)) for v in list(ys)]
    return Sym(mk('uf', tuple(args), 'spline', 'R'))


SPLINE = {'splrep': splrep, 'splev': splev}


class SVoid:
    """one element of a structured array"""

    def __init__(self, d):
        self.d = d

    def _dv_isinstance(self, cls):
        return cls is np.void or isinstance(cls, tuple) and np.void in cls

    def __getitem__(self, k):
        return self.d[k]


class SStruct:
    """a structured ('re', 'im') array with symbolic entries"""

    def __init__(self, d):
        self.d = d

    @property
    def shape(self):
        return self.d['re'].shape

    @property
    def dtype(self):
        return np.dtype([('re', float), ('im', float)])

    def __len__(self):
        return len(self.d['re'])

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.d[i]
        d = {k: v[i] for k, v in self.d.items()}
        return SStruct(d) if isinstance(d['re'], np.ndarray) else SVoid(d)

    def copy(self):
        return SStruct({k: v.copy() for k, v in self.d.items()})


def struct(c, re, im):
    """structured complex array as read from a GYRE file"""
    if c.sym:
        return SStruct({'re': c.arr(re), 'im': c.arr(im)})
    a = np.empty(len(re), dtype=[('re', float), ('im', float)])
    a['re'], a['im'] = re, im
    return a


class Required(dict):
    """results of the code under contract by name: one that is not there breaks the contract"""

    def __init__(self, c, d, what):
        super().__init__({k: Required(c, v, f'{what}/{k}') if isinstance(v, dict) else v
                          for k, v in d.items()})
        self._c, self._what = c, what

    def __missing__(self, k):
        if not self._c.sym:
            self._c.fail('present', f'{self._what}: no {k}')
        raise KeyError(f'{self._what}: no {k}')
