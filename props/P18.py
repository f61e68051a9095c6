"""Pairing functions: bijections between pairs of radial orders and integers."""
import numpy as np
from dv import loader
from dv.runner import Contract

PF = 'pairing_functions.'
D = 'py-combinations/pairing_functions/'
MODS = [PF + m for m in ('cantor_pairing', 'symmetric_pairing', 'xie_pairing')]


def load():
    for m in MODS:
        loader.repo(m)


def same(c, name, got, want):
    got = list(got)
    c.prove(name + ':pair', len(got) == 2)
    for i in range(2):
        c.eq(f'{name}[{i}]', got[i], want[i])


def arr(c, a, b):
    return c.arr([a, b]) if c.sym else np.array([a, b])


def big(r):
    return r.choice([r.randint(0, 12), r.randint(0, 2000), r.randint(0, 10 ** 6)])


def cantor(c):
    m = loader.repo(MODS[0])
    lo = c.int('lowest', rand=lambda r: r.choice([0, 0, 1, 5, -3]))
    x, y = c.int('x', lo=0, rand=big), c.int('y', lo=0, rand=big)
    c.hint(x + y)
    z = m.cantor_pair(arr(c, x + lo, y + lo), lo)
    s = x + y
    c.eq('triangular-number', 2 * (z - y), s * (s + 1))
    same(c, 'inverse', m.invert_cantor_pair(z, lo), (x + lo, y + lo))
    d = c.choice('default', [0, 1])
    if d:
        z = m.cantor_pair(arr(c, x, y))
        same(c, 'inverse-default', m.invert_cantor_pair(z), (x, y))


def symm(c):
    m = loader.repo(MODS[1])
    lo = c.int('lowest', rand=lambda r: r.choice([0, 0, 1, 5, -3]))
    a = c.int('a', lo=0, rand=big)
    case = c.choice('case', ['equal', 'distinct'])
    b = a if case == 'equal' else a + c.int('d', lo=1, rand=lambda r: 1 + big(r))
    c.hint(b, -b, b + 1, -b - 1, b - 1)
    z = m.symmetric_pair(arr(c, a + lo, b + lo), lo)
    z2 = m.symmetric_pair(arr(c, b + lo, a + lo), lo)
    c.eq('symmetric', z, z2)
    c.eq('number', 2 * z, 2 * (a + 1) + (b + 1) * b)
    same(c, 'inverse', m.invert_symmetric_pair(z, lo), (a + lo, b + lo))
    if not c.sym:
        c.prove('tuple-argument', m.symmetric_pair((a + lo, b + lo), lo) == z)
        same(c, 'inverse-default', m.invert_symmetric_pair(m.symmetric_pair((a, b))), (a, b))


def xie(c):
    m = loader.repo(MODS[2])
    lo = c.int('lowest', rand=lambda r: r.choice([0, 0, 1, 5, -3]))
    b = c.int('b', lo=1, rand=lambda r: 1 + big(r))         # smaller (1-based) member
    k = c.int('k', lo=0, rand=big)
    par = c.choice('parity', [0, 1])
    diff = 2 * k + par
    if par == 0:
        case = c.choice('case', ['equal', 'more'])
        if case == 'equal':
            c.assume(k == 0)
            diff = 0
        else:
            c.assume(k >= 1)
    a = b + diff                                            # larger
    s = a + b - 1
    h = b + k                                               # ceil(s/2) or so
    c.hint(b, h, h - 1, h + 1, 0 * h, 0 * h + 1, 0 * h - 1)
    z = m.xie_symmetric_pair(arr(c, a - 1 + lo, b - 1 + lo), lo)
    z2 = m.xie_symmetric_pair(arr(c, b - 1 + lo, a - 1 + lo), lo)
    c.eq('symmetric', z, z2)
    odd = 1 - par
    c.eq('number', 4 * (z - b), s * s - odd)
    same(c, 'inverse', m.invert_xie_symmetric_pair(z, lo), (a - 1 + lo, b - 1 + lo))


def unique(c):
    """bounded: all pairs of a square get distinct, gap-free integers"""
    n = c.int('n', lo=2, hi=40)
    lo = c.int('lowest', lo=-3, hi=6)
    for name, f, sym, first in (('cantor', loader.repo(MODS[0]).cantor_pair, False, 0),
                                ('symmetric', loader.repo(MODS[1]).symmetric_pair, True, 1),
                                ('xie', loader.repo(MODS[2]).xie_symmetric_pair, True, 1)):
        seen = {}
        for a in range(n):
            for b in range(n):
                z = int(f(np.array([a + lo, b + lo]), lo))
                key = (min(a, b), max(a, b)) if sym else (a, b)
                c.prove(f'{name}:one-number-per-pair', seen.setdefault(z, key) == key)
        full = n * (n + 1) // 2 if name != 'xie' else n * n // 4
        c.prove(f'{name}:no-gaps', all(first + i in seen for i in range(full)))


B = ('isinstance', 'max', 'min', 'int')
CONTRACTS = [
    Contract('cantor', cantor, modules=MODS, load=load, builtins=B, rand=120,
             functions=[D + 'cantor_pairing.py:cantor_pair', D + 'cantor_pairing.py:invert_cantor_pair']),
    Contract('symmetric', symm, modules=MODS, load=load, builtins=B, rand=120,
             functions=[D + 'symmetric_pairing.py:symmetric_pair',
                        D + 'symmetric_pairing.py:invert_symmetric_pair']),
    Contract('xie', xie, modules=MODS, load=load, builtins=B, rand=120,
             functions=[D + 'xie_pairing.py:xie_symmetric_pair',
                        D + 'xie_pairing.py:invert_xie_symmetric_pair',
                        D + 'xie_pairing.py:sgn_accent']),
    Contract('unique-numbers', unique, modules=MODS, load=load, sym=False, rand=6,
             note='bounded: squares of up to 40x40 pairs'),
]
