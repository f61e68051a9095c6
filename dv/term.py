"""Hash-consed logical terms and the symbolic operands (`Sym`, `SymC`) on which
the real Python code of /repo is executed by the VC generator.

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean).
Floating-point arithmetic is interpreted as real arithmetic (an assumption that
every evidence file states).
"""
from fractions import Fraction
import cmath
import itertools
import math
import numbers
import numpy as np


class Unsupported(Exception):
    """The code used a construct outside the verifier's reach (=> undecided)."""


class PathAbort(BaseException):
    """Current path is infeasible / abandoned (BaseException: code under
    verification must not swallow it with `except Exception`)."""


# ---------------------------------------------------------------- terms ----
class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id')

    def __repr__(self):
        return show(self)


_table = {}
_counter = [0]


def reset_terms():
    _table.clear()
    _counter[0] = 0


def mk(op, args=(), sort='R', val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
        _counter[0] += 1
        t.id = _counter[0]
        _table[key] = t
    return t


def const(v, sort='R'):
    return mk('const', (), sort, Fraction(v))


def bconst(b):
    return mk('bconst', (), 'B', bool(b))


def var(name, sort='R'):
    return mk('var', (), sort, name)


def _pi():
    return mk('pi', (), 'R', 'pi')


_PI_MULT = [Fraction(a, b) for b in (1, 2, 3, 4, 6, 8, 16, 180, 360, 16384)
            for a in (1, 2, 3, 4, 5, 6, 8, 16, 32)]


def float_term(x, _memo={}):
    if x not in _memo:
        if len(_memo) > 20000:
            _memo.clear()
        _memo[x] = _float_term(x)
    return _memo[x]


def _float_term(x):
    """Interpret a float constant of the code as the exact real it denotes."""
    if x != x or x in (math.inf, -math.inf):
        return mk('special', (), 'R', repr(x))
    if x == int(x) and abs(x) < 1e15:
        return const(int(x))
    for q in _PI_MULT:
        fq = float(q) * math.pi
        if x == fq or x == -fq:
            t = mul(const(q), _pi())
            return t if x > 0 else neg(t)
    for q in (1, 2, 4, Fraction(1, 2)):
        if x == math.pi * math.pi * float(q):
            return mul(const(q), mul(_pi(), _pi()))
    if x in (1. / (2. * math.pi), 1. / (math.pi * 2.)):
        return div(const(Fraction(1, 2)), _pi())
    f = Fraction(x).limit_denominator(2000)
    if f != 0 and float(f) == x:
        return const(f)
    for q in _PI_MULT:
        for y in (float(q) / math.pi, 1. / (math.pi / float(q))):
            if abs(x) == y:
                t = div(const(q), _pi())
                return t if x > 0 else neg(t)
    for n in (2, 3, 5, 6, 7, 10):
        for q in (1, 2, Fraction(1, 2)):
            if abs(x) == math.sqrt(n) * float(q):
                t = mul(const(q), mk('sqrt', (const(n),)))
                return t if x > 0 else neg(t)
    return const(Fraction(repr(float(x))))


def is_const(t):
    return t.op == 'const'


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val + b.val, _js(a, b))
    if a.op == 'const' and a.val == 0 and not (a.sort == 'R' and b.sort == 'I'):
        return b
    if b.op == 'const' and b.val == 0 and not (b.sort == 'R' and a.sort == 'I'):
        return a
    if a.op == 'special' or b.op == 'special':
        return mk('special', (), 'R', 'nan')
    if a.op == 'neg' and a.args[0] is b or b.op == 'neg' and b.args[0] is a:
        return const(0, _js(a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('add', (a, b), _js(a, b))


def neg(a):
    if a.op == 'const':
        return const(-a.val, a.sort)
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'special':
        return a
    return mk('neg', (a,), a.sort)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val * b.val, _js(a, b))
    if a.op == 'special' or b.op == 'special':
        return mk('special', (), 'R', 'nan')
    s = _js(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.val == 0:
                return const(0, s)
            if x.val == 1 and y.sort == s:
                return y
            if x.val == -1 and y.sort == s:
                return neg(y)
    if a.op == 'neg':
        return neg(mul(a.args[0], b))
    if b.op == 'neg':
        return neg(mul(a, b.args[0]))
    if a is b and a.op == 'sqrt':
        return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), s)


def div(a, b):
    if b.op == 'special' or a.op == 'special':
        if b.op == 'special' and b.val in ('inf', '-inf') and a.op != 'special':
            return const(0)
        return mk('special', (), 'R', 'nan')
    if b.op == 'const':
        if b.val == 0:
            return mk('special', (), 'R', 'nan')
        if a.op == 'const':
            return const(a.val / b.val)
        return mul(const(1 / b.val), a)
    if a.op == 'const' and a.val == 0:
        return const(0)
    if a is b:
        return const(1)
    if a.op == 'mul' and b.sort == 'R':
        for k, x in (a.args, a.args[::-1]):
            if k.op == 'const' and x is b:
                return const(k.val)
    if a.op == 'neg':
        return neg(div(a.args[0], b))
    if b.op == 'neg':
        return neg(div(a, b.args[0]))
    return mk('div', (a, b), 'R')


def ipow(a, n):
    """integer power n (python int)."""
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return div(const(1), ipow(a, -n))
    if a.op == 'const':
        return const(a.val ** n, a.sort)
    r = None
    base = a
    while n:
        if n & 1:
            r = base if r is None else mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def sqrt(a):
    if a.op == 'const':
        if a.val < 0:
            return mk('special', (), 'R', 'nan')
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(Fraction(rn, rd))
    if a.op == 'special':
        return a
    return mk('sqrt', (a,))


def power(a, e):
    if e.op == 'const':
        v = e.val
        if v.denominator == 1:
            if a.op == 'special':
                return a
            return ipow(a, int(v))
        if v.denominator == 2:
            return ipow(sqrt(a), int(v.numerator))
        if v.denominator == 3:
            return ipow(uf('cbrt', a), int(v.numerator))
        return mk('pow', (a, e))
    # split exponent into rest + integer constant
    c, rest = split_const(e)
    ci = math.floor(c)
    rest2 = add(rest, const(c - ci))
    p = mk('pow', (a, rest2))
    return p if ci == 0 else mul(p, ipow(a, ci))


def split_const(e):
    """e == c + rest with constant c extracted from sums."""
    if e.op == 'const':
        return e.val, const(0)
    if e.op == 'add':
        c1, r1 = split_const(e.args[0])
        c2, r2 = split_const(e.args[1])
        return c1 + c2, add(r1, r2)
    if e.op == 'neg':
        c, r = split_const(e.args[0])
        return -c, neg(r)
    if e.op == 'mul' and e.args[0].op == 'const':
        c, r = split_const(e.args[1])
        return c * e.args[0].val, mul(e.args[0], r)
    if e.op == 'mul' and e.args[1].op == 'const':
        c, r = split_const(e.args[0])
        return c * e.args[1].val, mul(e.args[1], r)
    return Fraction(0), e


def uf(name, *args):
    """interpreted-by-name unary function (sin, cos, arctan, exp, ...)"""
    if any(a.op == 'special' for a in args):
        return mk('special', (), 'R', 'nan')
    if len(args) == 1 and args[0].op == 'const' and args[0].val == 0 and \
            name in ('sin', 'arctan', 'tan', 'arcsin', 'sinh', 'tanh'):
        return const(0)
    if len(args) == 1 and args[0].op == 'const' and args[0].val == 0 and \
            name in ('cos', 'exp', 'cosh'):
        return const(1)
    return mk('uf', args, 'R', name)


def tabs(a):
    if a.op == 'const':
        return const(abs(a.val), a.sort)
    if a.op == 'neg':
        return tabs(a.args[0])
    if a.op in ('abs', 'sqrt', 'special'):
        return a
    return mk('abs', (a,), a.sort)


def ite(c, a, b):
    if c.op == 'bconst':
        return a if c.val else b
    if a is b:
        return a
    if a.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    return mk('ite', (c, a, b), _js(a, b))


def cmp(op, a, b):
    if a.sort == 'B' and b.sort == 'B':
        if op == 'eq':
            return iff(a, b)
        if op == 'ne':
            return bnot(iff(a, b))
        if op == 'lt':          # False < True
            return band(bnot(a), b)
        if op == 'le':
            return bor(bnot(a), b)
        raise Unsupported('ordering of booleans')
    if a.op == 'special' or b.op == 'special':
        va, vb = _specialval(a), _specialval(b)
        if va is not None and vb is not None:
            return bconst({'eq': va == vb, 'ne': va != vb, 'lt': va < vb,
                           'le': va <= vb}[op])
        if 'nan' in (getattr(a, 'val', None), getattr(b, 'val', None)):
            return bconst(op == 'ne')
        # finite vs infinite
        if a.op == 'special':
            big = a.val == 'inf'
            return bconst({'eq': False, 'ne': True, 'lt': not big, 'le': not big}[op])
        big = b.val == 'inf'
        return bconst({'eq': False, 'ne': True, 'lt': big, 'le': big}[op])
    if a.op == 'const' and b.op == 'const':
        return bconst({'eq': a.val == b.val, 'ne': a.val != b.val,
                       'lt': a.val < b.val, 'le': a.val <= b.val}[op])
    if a is b:
        return bconst(op in ('eq', 'le'))
    if op in ('lt', 'le') and a.sort == 'R':
        r = _same_base(op, a, b)
        if r is not None:
            return r
    if op == 'ne':
        return bnot(cmp('eq', a, b))
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return mk(op, (a, b), 'B')


def _scaled(t):
    """t = k * base"""
    if t.op == 'neg':
        k, b = _scaled(t.args[0])
        return -k, b
    if t.op == 'mul' and t.args[0].op == 'const':
        return t.args[0].val, t.args[1]
    if t.op == 'mul' and t.args[1].op == 'const':
        return t.args[1].val, t.args[0]
    return 1, t


def _same_base(op, a, b):
    """ordering of two multiples of a variable that the path knows to be positive"""
    e = _engine[0]
    pc = getattr(e, 'pc', None)
    if not pc:
        return None
    (p, x), (q, y) = _scaled(a), _scaled(b)
    if x is not y or x.op != 'var':
        return None
    for h in pc:
        if h.op == 'lt' and h.args[1] is x and h.args[0].op == 'const' and h.args[0].val >= 0:
            return bconst(p < q if op == 'lt' else p <= q)
    return None


def known(t):
    """`t`, or its value where the path condition already holds it (or its opposite)"""
    pc = getattr(_engine[0], 'pc', None)
    if not pc or t.op not in ('lt', 'le'):
        return t
    a, b = t.args
    o = mk('le' if t.op == 'lt' else 'lt', (b, a), 'B')
    n, m = mk('not', (t,), 'B'), mk('not', (o,), 'B')
    w = mk('lt', (a, b), 'B') if t.op == 'le' else t
    for h in pc:
        if h is t or h is m or h is w:
            return bconst(True)
        if h is o or h is n:
            return bconst(False)
    return t


def _specialval(t):
    if t.op == 'special':
        return float(t.val)
    if t.op == 'const':
        return float(t.val)
    return None


def bnot(a):
    if a.op == 'bconst':
        return bconst(not a.val)
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'B')


def band(a, b):
    if a.op == 'bconst':
        return b if a.val else a
    if b.op == 'bconst':
        return a if b.val else b
    if a is b:
        return a
    if a is bnot(b):
        return bconst(False)
    return mk('and', (a, b), 'B')


def bor(a, b):
    if a.op == 'bconst':
        return a if a.val else b
    if b.op == 'bconst':
        return b if b.val else a
    if a is b:
        return a
    if a is bnot(b):
        return bconst(True)
    return mk('or', (a, b), 'B')


def iff(a, b):
    if a.op == 'bconst':
        return b if a.val else bnot(b)
    if b.op == 'bconst':
        return a if b.val else bnot(a)
    if a is b:
        return bconst(True)
    return mk('iff', (a, b), 'B')


def _js(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def floordiv(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val // b.val, 'I' if _js(a, b) == 'I' else 'R')
    if _js(a, b) == 'I' and b.op == 'const' and b.val != 0:
        p = int_valued(div(a, b))
        if p is not None:
            return p
    if _js(a, b) == 'I':
        return mk('idiv', (a, b), 'I')
    return mk('floor', (div(a, b),), 'I')


def floor(a):
    if a.sort == 'I':
        return a
    if a.op == 'const':
        return const(math.floor(a.val), 'I')
    p = int_valued(a)
    if p is not None:
        return p
    e = _engine[0]
    for h in getattr(e, 'hints', ()):
        if e.floor_is(a, h):
            return h
    return mk('floor', (a,), 'I')


def _poly(t, deg, vs):
    """degree of t if it is a polynomial in integer variables with rational coefficients"""
    if t.id in deg:
        return deg[t.id]
    if t.op == 'const':
        r = 0
    elif t.op == 'var' and t.sort == 'I':
        vs[t.val] = t
        r = 1
    elif t.op == 'add':
        ds = [_poly(x, deg, vs) for x in t.args]
        r = None if None in ds else max(ds)
    elif t.op in ('neg', 'toint'):
        r = _poly(t.args[0], deg, vs)
    elif t.op == 'mul':
        ds = [_poly(x, deg, vs) for x in t.args]
        r = None if None in ds else sum(ds)
    elif t.op == 'div' and t.args[1].op == 'const':
        r = _poly(t.args[0], deg, vs)
    else:
        r = None
    deg[t.id] = r
    return r


def _pval(t, env):
    o = t.op
    if o == 'const':
        return Fraction(t.val)
    if o == 'var':
        return Fraction(env[t.val])
    a = [_pval(x, env) for x in t.args]
    if o == 'toint':
        return a[0]
    return {'add': lambda: a[0] + a[1], 'mul': lambda: a[0] * a[1], 'neg': lambda: -a[0],
            'div': lambda: a[0] / a[1]}[o]()


def int_valued(t):
    """t as an integer term, if it is a polynomial that is an integer at all integers
    (decided on the grid 0..degree of every variable, which is exact)"""
    vs = {}
    d = _poly(t, {}, vs)
    if d is None or d > 6 or (d + 1) ** len(vs) > 4000:
        return None
    names = sorted(vs)
    for ix in itertools.product(range(d + 1), repeat=len(names)):
        if _pval(t, dict(zip(names, ix))).denominator != 1:
            return None
    return t if t.sort == 'I' else mk('toint', (t,), 'I')


def mod(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.val % b.val, _js(a, b))
    if _js(a, b) == 'I' and b.op == 'const' and b.val > 0:
        vs = {}
        if _poly(a, {}, vs) is not None:
            r = const(_pval(a, dict.fromkeys(vs, 0)) % b.val, 'I')
            if int_valued(div(sub(a, r), b)) is not None:
                return r
    if _js(a, b) == 'I':
        return mk('imod', (a, b), 'I')
    return sub(a, mul(b, floordiv(a, b)))


def show(t, depth=8):
    if depth == 0:
        return '…'
    o = t.op
    if o == 'const':
        return str(t.val)
    if o in ('var', 'pi', 'special'):
        return str(t.val)
    if o == 'bconst':
        return str(t.val)
    a = [show(x, depth - 1) for x in t.args]
    if o == 'uf':
        return f'{t.val}({", ".join(a)})'
    sym = {'add': '+', 'mul': '*', 'div': '/', 'lt': '<', 'le': '<=', 'eq': '==',
           'and': '&', 'or': '|', 'iff': '<->'}
    if o in sym:
        return f'({a[0]} {sym[o]} {a[1]})'
    if o == 'neg':
        return f'-{a[0]}'
    return f'{o}({", ".join(a)})'


def free_vars(t, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            acc[x.val] = x
        stack.extend(x.args)
    return acc


# ---------------------------------------------------------------- Sym ------
_engine = [None]      # current exploration engine (for branching)


def set_engine(e):
    _engine[0] = e


def lift(x):
    """python/numpy scalar or Sym -> term (None when not liftable)."""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return bconst(bool(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x), 'I')
    if isinstance(x, (float, np.floating)):
        return float_term(float(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def num(t):
    """coerce boolean term to int term"""
    if t.sort == 'B':
        return ite(t, const(1, 'I'), const(0, 'I'))
    return t


def wrap(t):
    return Sym(t)


def is_arr(x):
    return isinstance(x, np.ndarray) and x.ndim > 0


class Sym:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # -- arithmetic
    def _bin(self, other, f, ref=False):
        if isinstance(other, SymC) or isinstance(other, (complex, np.complexfloating)):
            return NotImplemented
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = num(self.t), num(o)
        return wrap(f(b, a)) if ref else wrap(f(a, b))

    def __add__(self, o):
        r = self._cx(o, '__add__')
        return r if r is not None else self._bin(o, add)

    def __radd__(self, o):
        r = self._cx(o, '__radd__')
        return r if r is not None else self._bin(o, add, True)

    def __sub__(self, o):
        r = self._cx(o, '__sub__')
        return r if r is not None else self._bin(o, sub)

    def __rsub__(self, o):
        r = self._cx(o, '__rsub__')
        return r if r is not None else self._bin(o, sub, True)

    def __mul__(self, o):
        if self.t.sort == 'B' and isinstance(o, Sym) and o.t.sort == 'B':
            return wrap(band(self.t, o.t))     # as numpy: the product of truth values is one
        r = self._cx(o, '__mul__')
        return r if r is not None else self._bin(o, mul)

    def __rmul__(self, o):
        r = self._cx(o, '__rmul__')
        return r if r is not None else self._bin(o, mul, True)

    def __truediv__(self, o):
        r = self._cx(o, '__truediv__')
        if r is not None:
            return r
        return self._bin(o, _div_side)

    def __rtruediv__(self, o):
        r = self._cx(o, '__rtruediv__')
        if r is not None:
            return r
        return self._bin(o, _div_side, True)

    def _cx(self, o, name):
        """complex operand: promote self"""
        if isinstance(o, (complex, np.complexfloating)):
            return getattr(SymC(self, 0), name)(o)
        if isinstance(o, SymC):
            return getattr(SymC(self, 0), name)(o)
        return None

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, mod)

    def __rmod__(self, o):
        return self._bin(o, mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self._bin(o, power_side)

    def __rpow__(self, o):
        return self._bin(o, power_side, True)

    def __neg__(self):
        return wrap(neg(num(self.t)))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(tabs(num(self.t)))

    # -- comparisons
    def _cmp(self, o, f):
        if isinstance(o, SymC) or isinstance(o, complex):
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.t
        if not (a.sort == 'B' and b.sort == 'B'):
            a, b = num(a), num(b)
        return wrap(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: cmp('lt', a, b))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: cmp('le', a, b))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: cmp('lt', b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: cmp('le', b, a))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: cmp('eq', a, b))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: cmp('ne', a, b))

    __hash__ = None

    # -- booleans
    def __and__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        if self.t.sort != 'B' or b.sort != 'B':
            raise Unsupported('bitwise and on non-booleans')
        return wrap(band(self.t, b))

    __rand__ = __and__

    def __or__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        if self.t.sort != 'B' or b.sort != 'B':
            raise Unsupported('bitwise or on non-booleans')
        return wrap(bor(self.t, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return wrap(bnot(iff(self.t, b)))

    __rxor__ = __xor__

    def __invert__(self):
        if self.t.sort != 'B':
            raise Unsupported('bitwise not on non-boolean')
        return wrap(bnot(self.t))

    def __bool__(self):
        t = self.t
        if t.op == 'bconst':
            return t.val
        if t.sort != 'B':
            t = cmp('ne', t, const(0))
            if t.op == 'bconst':
                return t.val
        e = _engine[0]
        if e is None:
            raise Unsupported('branch on symbolic value outside exploration')
        return e.branch(t)

    # -- conversions
    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.val)
        if self.t.op == 'special':
            return float(self.t.val)
        raise Unsupported('float() of symbolic value')

    def __int__(self):
        if self.t.op == 'const':
            return int(self.t.val)
        e = _engine[0]
        if e is not None and self.t.sort == 'I':
            return e.concretise(self.t)
        raise Unsupported('int() of symbolic value')

    def __index__(self):
        if self.t.op == 'const' and self.t.val.denominator == 1:
            return int(self.t.val)
        e = _engine[0]
        if e is not None and self.t.sort == 'I':
            return e.concretise(self.t)
        raise Unsupported('index by symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of symbolic value')

    def __round__(self, n=None):
        if self.t.sort == 'I':
            return self
        raise Unsupported('round of symbolic value')

    def __format__(self, spec):
        return f'<{show(self.t, 3)}>'

    def __repr__(self):
        return f'Sym({show(self.t, 6)})'

    # -- numpy scalar/array-like protocol
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return wrap(const(0))

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def is_integer(self):
        return self.t.sort == 'I'

    def sqrt(self):
        return s_sqrt(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.function_dispatch(func, args, kw)


def _div_side(a, b):
    e = _engine[0]
    if e is not None and b.op != 'const':
        e.assume_defined(cmp('ne', b, const(0)))
    return div(a, b)


def power_side(a, b):
    e = _engine[0]
    if b.op == 'const' and b.val < 0 and a.op != 'const' and e is not None:
        e.assume_defined(cmp('ne', a, const(0)))
    elif b.op != 'const' and e is not None:
        e.assume_defined(cmp('lt', const(0), a))
    r = power(a, b)
    if a.sort == 'I' and b.op == 'const' and b.sort == 'I' and b.val >= 0:
        return r
    return r


def s_sqrt(x):
    if isinstance(x, SymC):
        raise Unsupported('sqrt of complex')
    t = lift(x)
    e = _engine[0]
    if e is not None and t.op != 'const':
        e.assume_defined(cmp('le', const(0), t))
    return wrap(sqrt(num(t)))


def as_sym(x):
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return SymC(float(x.real), float(x.imag))
    t = lift(x)
    if t is None:
        raise Unsupported(f'cannot lift {type(x)}')
    return Sym(t)


class SymC:
    """complex number with symbolic parts"""
    __slots__ = ('re', 'im')
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re = as_sym(re)
        self.im = as_sym(im)

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(float(x.real), float(x.imag))
        t = lift(x)
        if t is None:
            return None
        return SymC(Sym(num(t)), Sym(const(0)))

    def _b(self, o, f):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._b(o, lambda a, b: SymC(a.re + b.re, a.im + b.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SymC(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SymC(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._b(o, lambda a, b: SymC(a.re * b.re - a.im * b.im,
                                            a.re * b.im + a.im * b.re))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, _cdiv)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: _cdiv(b, a))

    def __neg__(self):
        return SymC(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, Sym) and n.t.op == 'const':
            n = n.t.val
        if isinstance(n, (int, float, Fraction, np.integer, np.floating)) and n == int(n):
            n = int(n)
            if n < 0:
                return 1 / (self ** (-n))
            r = SymC(1, 0)
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported('complex power')

    def __abs__(self):
        return s_sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return (self.re == o.re) & (self.im == o.im)

    def __ne__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return ~((self.re == o.re) & (self.im == o.im))

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymC(self.re, -self.im)

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def __repr__(self):
        return f'SymC({self.re!r}, {self.im!r})'

    def __format__(self, spec):
        return repr(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import npshim
        return npshim.function_dispatch(func, args, kw)


def _cdiv(a, b):
    if b.im.t.op == 'const' and b.im.t.val == 0:
        return SymC(a.re / b.re, a.im / b.re)
    d = b.re * b.re + b.im * b.im
    return SymC((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
