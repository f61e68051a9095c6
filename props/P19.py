"""Enumeration of radial-order combinations."""
import itertools
import types

import numpy as np
from dv import loader
from dv.runner import Contract
from dv.term import as_sym

SP, SS, CC = (f'py_combinations.{m}' for m in
              ('symmetric_product', 'single_set_combinations', 'cartesian_combinations'))
IG = 'aesolver.mode_input_generator.input_generator'
D = 'py-combinations/py_combinations/'
IGF = 'aesolver/aesolver/mode_input_generator/input_generator.py'


def load():
    for m in (SP, SS, CC, IG):
        loader.repo(m)


# ---------------------------------------------------------- generic integer sets
# Two arbitrary finite integer sets A, B split the integers into the regions A only, B only and
# both.  Whether a pair (x, y), x < y, belongs to a set built from A and B by set operations and
# `combinations` depends only on the regions of x and y: the code is executed on region sets.
REG = ('A', 'B', 'AB')


class SSet:
    def __init__(self, regs, card):
        self.r, self.card = frozenset(regs), card

    def __or__(self, o):
        return SSet(self.r | o.r, self.card)

    def __and__(self, o):
        return SSet(self.r & o.r, self.card)

    def __sub__(self, o):
        return SSet(self.r - o.r, self.card)

    def __xor__(self, o):
        return SSet(self.r ^ o.r, self.card)

    union, intersection, difference, symmetric_difference = __or__, __and__, __sub__, __xor__

    def __iter__(self):
        return iter([Elem(self)])

    def size(self):
        s = 0
        for r in self.r:
            s = s + self.card[r]
        return s


class Elem:
    """a generic element of a set"""

    def __init__(self, s):
        self.s = s


class Pairs:
    """set of increasing pairs (x, y), described by the regions of x and y; plus pairs (d, d)"""

    def __init__(self, p, diag=()):
        self.p, self.diag = frozenset(p), frozenset(diag)

    def __or__(self, o):
        return Pairs(self.p | o.p)

    def __and__(self, o):
        return Pairs(self.p & o.p)

    def __sub__(self, o):
        return Pairs(self.p - o.p)

    union, intersection, difference = __or__, __and__, __sub__

    def __add__(self, lst):
        d = set(self.diag)
        for a, b in lst:
            if a is not b:
                raise TypeError('pair of different generic elements')
            d |= a.s.r
        return Pairs(self.p, d)

    __iadd__ = __add__

    def extend(self, lst):
        n = self + lst
        self.diag = n.diag


def s_set(x=()):
    return x if isinstance(x, (SSet, Pairs)) else set(x)


def s_list(x=()):
    return x if isinstance(x, (SSet, Pairs)) else list(x)


def s_sorted(x, **k):
    return x if isinstance(x, SSet) else sorted(x, **k)


def s_len(x):
    return x.size() if isinstance(x, SSet) else len(x)


def s_comb(s, n):
    if not isinstance(s, SSet):
        return itertools.combinations(s, n)
    if n != 2:
        raise TypeError('combinations of more than two')
    return Pairs((a, b) for a in s.r for b in s.r)


def n_comb(n, k):
    import math
    if k == 2 and hasattr(n, 't'):
        return n * (n - 1) // 2
    return math.comb(n, k)


def asc(*ss):
    return all(list(s) == sorted(s) for s in ss)


def symmetric(c):
    m = loader.repo(SP)
    diag = c.choice('include_diagonal', [False, True])
    if c.sym:
        card = {r: c.int('n' + r, lo=0) for r in REG}
        A, B = SSet(('A', 'AB'), card), SSet(('B', 'AB'), card)
        o = m.SymmetricProductCombos(A, B, include_diagonal=diag)
        inA, inB = A.r, B.r
        v = o.l
        for x in REG:
            for y in REG:
                want = (x in inA and y in inB) or (x in inB and y in inA)
                c.prove(f'pair-iff-one-from-each[{x},{y}]', ((x, y) in v.p) == want)
            c.prove(f'diagonal-iff-common[{x}]', (x in v.diag) == (diag and x == 'AB'))
        a, b, ab = (card[r] for r in REG)
        n = a * b + a * ab + b * ab
        c.eq('cardinality', 2 * o.c, 2 * n + ab * (ab - 1) + (2 * ab if diag else 0))
        return
    a, b = c.int('a', lo=-4, hi=40), c.int('b', lo=-4, hi=40)
    na, nb = c.int('na', lo=0, hi=9), c.int('nb', lo=0, hi=9)
    sa, sb = c.int('step_a', lo=1, hi=2), c.int('step_b', lo=1, hi=2)
    A, B = range(a, a + na * sa, sa), range(b, b + nb * sb, sb)
    SA, SB = set(A), set(B)
    c.assume(asc(SA, SB, SA | SB, SA - SB, SB - SA))        # see the known finding otherwise
    kind = c.choice('kind', ['range', 'list', 'array'])
    f = {'range': lambda r: r, 'list': list, 'array': lambda r: np.array(r, dtype=int)}[kind]
    o = m.SymmetricProductCombos(f(A), f(B), include_diagonal=diag)
    got = [tuple(int(v) for v in p) for p in o.l]
    want = {tuple(sorted((x, y))) for x in A for y in B if diag or x != y}
    c.prove('pairs', {tuple(sorted(p)) for p in got} == want)
    c.prove('each-pair-once', len(got) == len(want))
    c.prove('cardinality', int(o.c) == len(want))


def known_duplicates(c):
    """set iteration order of the orders 30..35 is not increasing"""
    m = loader.repo(SP)
    o = m.SymmetricProductCombos(range(30, 36), range(30, 36), include_diagonal=True)
    c.prove('each-pair-once', len(o.l) == 21)


def others(c):
    n, k = c.int('n', lo=0, hi=7), c.int('k', lo=0, hi=7)
    kind = c.choice('kind', ['list', 'range', 'array'])
    xs = [c.int(f'x{i}', lo=-99, hi=99) for i in range(n)]
    ys = [c.int(f'y{i}', lo=-99, hi=99) for i in range(k)]
    xs, ys = list(dict.fromkeys(xs)), list(dict.fromkeys(ys))
    if kind == 'range':
        xs, ys = range(n, n + len(xs)), range(k - 3, k - 3 + len(ys))
    if kind == 'array':
        xs, ys = np.array(xs, int), np.array(ys, int)
    s = loader.repo(SS).SingleSetCombos(xs)
    L = list(xs)
    want = [(L[i], L[j]) for i in range(len(L)) for j in range(i + 1, len(L))]
    c.prove('single-set:pairs', [tuple(p) for p in s.l] == want)
    c.prove('single-set:cardinality', s.c == len(want))
    s = loader.repo(CC).CartesianCombos(xs, ys)
    want = [(x, y) for x in xs for y in ys]
    c.prove('cartesian:pairs', [tuple(p) for p in s.l] == want)
    c.prove('cartesian:cardinality', s.c == len(want))


# ------------------------------------------------------------------ triads
class SRange:
    """range(lo, hi) with symbolic bounds: iterating yields one arbitrary element"""

    def __init__(self, c, a, b=None, step=1):
        if step != 1:
            raise TypeError('step')
        self.c, self.lo, self.hi = c, (0 if b is None else a), (a if b is None else b)

    def __iter__(self):
        c = self.c
        if 'element' not in c.inputs:
            d = c.int('element')
            c.assume((d >= self.lo) & (d < self.hi))
            c.el = d
        return iter([c.el])


CTX = [None]


def generator(c):
    m = loader.repo(IG)
    two = c.choice('two_ranges', [True, False])
    if not c.sym:
        return generator_concrete(c, m, two)
    CTX[0] = c
    names = ('driven_n_low', 'driven_n_high', 'damped_n_low1', 'damped_n_high1', 'damped_n_low2',
             'damped_n_high2')
    v = {k: c.int(k) for k in names[:6 if two else 4]}
    a, b = c.int('first'), c.int('second')
    calls = []

    class Sym2:
        c = 1

        def __init__(self, A, B, include_diagonal=False):
            calls.append((A, B, include_diagonal))
            self.l = [(a, b)]

    class Sing:
        c = 1

        def __init__(self, my_set):
            calls.append((my_set,))
            self.l = [(a, b)]
    old = m.SymmetricProductCombos, m.SingleSetCombos
    m.SymmetricProductCombos, m.SingleSetCombos = Sym2, Sing
    try:
        g = m.AdNadModeInfoInputGenerator([2, 1, 1], [2, 1, -1], **v)
    finally:
        m.SymmetricProductCombos, m.SingleSetCombos = old
    c.prove('angular-numbers', g.mode_l == [2, 1, 1] and g.mode_m == [2, 1, -1])
    c.prove('one-damped-enumeration-per-driven-order', len(calls) == 1)
    call = calls[0]
    c.prove('kind-of-enumeration', len(call) == (3 if two else 1))
    if len(call) != (3 if two else 1):
        return
    c.eq('damped-1-low', call[0].lo, v['damped_n_low1'])
    c.eq('damped-1-high', call[0].hi, v['damped_n_high1'] + 1)
    if two:
        c.eq('damped-2-low', call[1].lo, v['damped_n_low2'])
        c.eq('damped-2-high', call[1].hi, v['damped_n_high2'] + 1)
        c.prove('equal-orders-included', call[2] is True)
    d = c.el
    # the generic driven order ranges over exactly [low, high]
    probe = c.int('order')
    c.prove('driven-range', _range_of(g, probe, v))
    co = g.combinations_radial_orders
    c.prove('triads', len(co) == 1 and len(co[0]) == 3)
    for got, want in zip(co[0], (d, a, b)):
        c.eq('triad', got, want)
    c.eq('average', g.average_radial_orders[0] * 3, d + a + b)
    from dv.npshim import scalar
    c.eq('wu', g.wu_difference_statistics[0], d - scalar('absolute', a - b))


def _range_of(g, x, v):
    r = g._driven_rad_order_range
    a = (x >= r.lo) & (x < r.hi)
    b = (x >= v['driven_n_low']) & (x <= v['driven_n_high'])
    return (a & b) | (~a & ~b)


def generator_concrete(c, m, two):
    lo, n = c.int('driven_n_low', lo=0, hi=20), c.int('driven_count', lo=1, hi=4)
    a, na = c.int('damped_n_low1', lo=0, hi=15), c.int('count1', lo=1, hi=6)
    kw = {}
    if two:
        b, nb = c.int('damped_n_low2', lo=0, hi=15), c.int('count2', lo=1, hi=6)
        A, B = set(range(a, a + na)), set(range(b, b + nb))
        c.assume(asc(A, B, A | B, A - B, B - A))
        kw = {'damped_n_low2': b, 'damped_n_high2': b + nb - 1}
        pairs = {tuple(sorted((x, y))) for x in A for y in B}
    else:
        pairs = {(x, y) for x in range(a, a + na) for y in range(x + 1, a + na)}
    g = m.AdNadModeInfoInputGenerator([2, 1, 1], [2, 1, 1], lo, lo + n - 1, a, a + na - 1, **kw)
    want = sorted((d, *p) for d in range(lo, lo + n) for p in pairs)
    co = g.combinations_radial_orders
    c.prove('triads', sorted((t[0], *sorted(t[1:])) for t in co) == want)
    c.prove('angular-numbers', g.mode_l == [2, 1, 1] and g.mode_m == [2, 1, 1])
    c.prove('average', len(co) == len(g.average_radial_orders) and
            all(abs(s - sum(t) / 3) < 1e-9 for s, t in zip(g.average_radial_orders, co)))
    c.prove('wu', [int(s) for s in g.wu_difference_statistics] ==
            [t[0] - abs(t[1] - t[2]) for t in co])


def mean(xs):
    s = as_sym(0)
    for x in xs:
        s = s + x
    return s / len(xs)


SETS = {(SP, 'set'): s_set, (SP, 'list'): s_list, (SP, 'len'): s_len, (SP, 'sorted'): s_sorted,
        (SP, 'combinations'): s_comb, (SP, 'comb'): n_comb}
CONTRACTS = [
    Contract('symmetric-product', symmetric, modules=[SP], load=load, extra=SETS, rand=300,
             functions=[D + 'symmetric_product.py:SymmetricProductCombos.*'],
             note='arbitrary finite integer sets whose iteration order is increasing'),
    Contract('known-duplicates', known_duplicates, load=load, sym=False, rand=1),
    Contract('single-set-and-cartesian', others, load=load, sym=False, rand=150,
             functions=[D + 'single_set_combinations.py:SingleSetCombos.*',
                        D + 'cartesian_combinations.py:CartesianCombos.*'],
             note='bounded: up to 7 elements'),
    Contract('triads', generator, modules=[IG], load=load, rand=150,
             extra={(IG, 'range'): lambda *a: SRange(CTX[0], *a),
                    (IG, 'statistics'): types.SimpleNamespace(mean=mean, fmean=mean)},
             functions=[f'{IGF}:AdNadModeInfoInputGenerator.*']),
]
