"""Unbounded verification of the loops of the C++ kernels.

The functions are taken from clang's AST of the current source (OpenMP pragmas dropped). Sizes are
integer symbols. A loop with constant steps is replaced by what it does, for any number of
iterations: an accumulation becomes a sum S(g, T) (its only laws: S(g, 0) = 0 and
S(g, T + 1) = S(g, T) + g(T)), a write a[i] = e(i) a piece of the array, a guarded push_back a
filtered array, an early return an existential.  Equalities of results are proved by induction over
the size (base cases by executing the loops), all other obligations directly.  Reals are exact.

Constructs outside this fragment raise Unsupported; the caller then falls back to bounded sizes."""
import json
import os
import subprocess
from fractions import Fraction as Fr

from . import native
from .loader import REPO
from .term import Unsupported


# ------------------------------------------------------------------ polynomials over atoms
class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    @property
    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items(), key=repr))
        return self._h

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return ' + '.join(f'{v}' + ''.join('*' + show(a) for a in m)
                          for m, v in self.key) or '0'

    def __add__(self, o):
        o = poly(o)
        t = dict(self.t)
        for m, v in o.t.items():
            w = t.get(m, 0) + v
            if w:
                t[m] = w
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -v for m, v in self.t.items()})

    def __sub__(self, o):
        return self + (-poly(o))

    def __radd__(self, o):
        return self + o

    def __rsub__(self, o):
        return poly(o) - self

    def __mul__(self, o):
        o = poly(o)
        t = {}
        for m, v in self.t.items():
            for n, w in o.t.items():
                k = tuple(sorted(m + n, key=repr))
                x = t.get(k, 0) + v * w
                if x:
                    t[k] = x
                else:
                    t.pop(k, None)
        return Poly(t)

    __rmul__ = __mul__

    def const(self):
        if not self.t:
            return Fr(0)
        if list(self.t) == [()]:
            return self.t[()]
        return None

    def over(self, o):
        c = poly(o).const()
        if not c:
            raise Unsupported(f'division by {o!r}')
        return self * (1 / c)

    def atoms(self):
        return {a for m in self.t for a in m}


def show(a):
    if a[0] in 'ir':
        return str(a[1])
    return f'{a[0]}({", ".join(map(repr, a[1:]))})'


def poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly({(): Fr(int(x))}) if x else Poly()
    if isinstance(x, (int, Fr)):
        return Poly({(): Fr(x)}) if x else Poly()
    raise Unsupported(f'not a number: {x!r}')


def atom(*a):
    return Poly({(a,): Fr(1)})


def sym(n):
    return atom('i', n)


def deep(p):
    """all atoms, also those in indices"""
    out = set()
    for a in p.atoms():
        out.add(a)
        for x in a[1:]:
            if isinstance(x, Poly):
                out |= deep(x)
    return out


def subst(p, mp, rebuild=None):
    """replace atoms (mp: atom -> Poly), also in indices; `rebuild` reinterprets each atom"""
    out = Poly()
    for m, v in p.t.items():
        q = Poly({(): v})
        for a in m:
            if a in mp:
                q = q * mp[a]
                continue
            b = tuple(subst(x, mp, rebuild) if isinstance(x, Poly) else x for x in a)
            q = q * (rebuild(b) if rebuild else atom(*b))
        out = out + q
    return out


class Cond:
    """real comparison p > 0 ('>'), p >= 0 or a boolean combination"""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def eval(self, f):
        """f: Poly -> number"""
        if self.op in ('>', '>='):
            v = f(self.a[0])
            return v > 0 if self.op == '>' else v >= 0
        if self.op == 'not':
            return not ev(self.a[0], f)
        if self.op == 'and':
            return all(ev(x, f) for x in self.a)
        if self.op == 'or':
            return any(ev(x, f) for x in self.a)
        raise Unsupported(self.op)

    def polys(self):
        if self.op in ('>', '>='):
            return [self.a[0]]
        return [q for x in self.a if isinstance(x, Cond) for q in x.polys()]

    def map(self, g):
        if self.op in ('>', '>='):
            return Cond(self.op, g(self.a[0]))
        return Cond(self.op, *[x.map(g) if isinstance(x, Cond) else x for x in self.a])

    def key(self):
        return (self.op,) + tuple(x.key() if isinstance(x, Cond) else
                                  x.key if isinstance(x, Poly) else x for x in self.a)


def ev(c, f):
    return c if isinstance(c, bool) else c.eval(f)


def neg(c):
    return not c if isinstance(c, bool) else Cond('not', c)


class Exists:
    """some k in [0, T) fulfils the condition (bound symbol `k`)"""

    def __init__(self, k, T, cond):
        self.k, self.T, self.cond = k, T, cond


class Arr:
    """array: pieces written so far on top of an unknown content"""

    def __init__(self, name, size):
        self.name, self.size = name, size
        self.pieces = []        # (lo, hi, fn), the latest last
        self.known = True       # unknown content may be read
        self.push = None

    def base(self, q):
        if not self.known:
            raise Unsupported(f'{self.name}: content not known at {q!r}')
        return atom('el', self.name, q)


class Ref:
    """address of element `off` of an array"""

    def __init__(self, arr, off):
        self.arr, self.off = arr, off


class Obj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Scope:
    def __init__(self, env):
        self.env, self.names = env, set(env)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in set(self.env) - self.names:
            del self.env[n]
        return False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ clang AST
_asts = {}


def dump(path, flt):
    k = (path, flt)
    if k in _asts:
        return _asts[k]
    d = native.scratch() + '/ompstub'
    os.makedirs(d, exist_ok=True)
    open(d + '/omp.h', 'w').close()
    inc = [f'-I{d}'] + [f'-I{REPO}/{p}' for p in (
        'cpp-numintegrator/num_integrator', 'cpp-ld-funcs/ld_funcs',
        'cpp-disc-integrator/disc_integrator')]
    try:
        r = subprocess.run(['clang++', '-std=c++17', '-fsyntax-only', '-w', *inc, '-Xclang',
                            '-ast-dump=json', '-Xclang', f'-ast-dump-filter={flt}',
                            f'{REPO}/{path}'], capture_output=True, text=True, timeout=60)
    except (OSError, subprocess.SubprocessError) as e:
        raise Unsupported(f'clang: {e}')
    if r.returncode:
        raise Unsupported('clang: ' + r.stderr[-300:])
    out, i, s = [], 0, r.stdout
    dec = json.JSONDecoder()
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            break
        o, i = dec.raw_decode(s, i)
        out.append(o)
    _asts[k] = out
    return out


def walk(o):
    yield o
    for x in o.get('inner', []):
        yield from walk(x)


SKIP = ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'ConstantExpr', 'CStyleCastExpr',
        'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr',
        'CXXBindTemporaryExpr', 'FullExpr')


WIDE = ('int', 'long', 'unsigned int', 'unsigned long', 'long long', 'unsigned long long', 'bool')


def ctype(o):
    t = o.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', '')).replace('const ', '').rstrip(' &')


def inner(o):
    return [x for x in o.get('inner', []) if x.get('kind') and not x['kind'].endswith('Comment')]


class Machine:
    def __init__(self, path, lows, ranges=None, contracts=None):
        """lows: base integer symbols and their least values"""
        self.path, self.lows = path, dict(lows)
        self.ks = {}                    # bound symbols: name -> (lo, hi) inclusive
        self.contracts = contracts or {}
        self.obl = []                   # (name, ok, detail)
        self.depth = 0
        self.steps = 0
        self.inloop = []                # active symbolic loops
        self.facts = ranges or {}
        self.exists = None
        self.filter = None
        self.tentative = 0              # number of iterations not known yet: results are not used

    # -- integers
    def low(self, p):
        """least value of a linear integer expression, None if unbounded below"""
        p = poly(p)
        for _ in range(12):
            ks = [a for a in p.atoms() if a[0] == 'i' and a[1] in self.ks]
            sel = [a for a in p.atoms() if a[0] == 'sel']
            if not ks and not sel:
                break
            if any(len(m) > 1 for m in p.t):
                return None
            if sel:
                a = sel[0]
                lo, hi = Poly(), a[3] - 1
            else:
                a = max(ks, key=lambda z: int(z[1][1:]))
                lo, hi = self.ks[a[1]]
            p = subst(p, {a: lo if p.t[(a,)] > 0 else hi})
        v = Fr(0)
        for m, w in p.t.items():
            if not m:
                v += w
            elif len(m) == 1 and m[0][0] == 'i' and m[0][1] in self.lows and w > 0:
                v += w * self.lows[m[0][1]]
            else:
                return None
        return v

    def isint(self, p):
        return all(a[0] in ('i', 'sel') for a in poly(p).atoms())

    def nonneg(self, p):
        v = self.low(p)
        return v is not None and v >= 0

    def decide(self, p):
        """p >= 0 for integers: True, False or None"""
        if self.nonneg(p):
            return True
        if self.nonneg(-poly(p) - 1):
            return False
        return None

    def compare(self, op, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str):
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
            raise Unsupported('comparison')
        a, b = poly(a), poly(b)
        if op in ('==', '!='):
            d = a - b
            if d.const() is not None:
                r = d.const() == 0
            elif self.isint(d) and (self.nonneg(d - 1) or self.nonneg(-d - 1)):
                r = False
            elif self.isint(d):
                raise Unsupported(f'undecided: {a!r} == {b!r}')
            else:
                r = Cond('and', Cond('>=', d), Cond('>=', -d))
            return r if op == '==' else neg(r)
        if op in ('<', '<='):
            a, b, op = b, a, {'<': '>', '<=': '>='}[op]
        d = a - b
        if d.const() is not None:
            return d.const() > 0 if op == '>' else d.const() >= 0
        if self.isint(d):
            r = self.decide(d - 1 if op == '>' else d)
            if r is None:
                raise Unsupported(f'undecided: {d!r} {op} 0')
            return r
        return Cond(op, d)

    def idiv(self, a, b, mod):
        a, n = poly(a), poly(b).const()
        if not n or n < 0 or n.denominator != 1:
            raise Unsupported('integer division')
        if not self.nonneg(a):
            raise Unsupported('division of a possibly negative integer')
        q, r = Poly(), Fr(0)
        for m, v in a.t.items():
            if not m:
                q, r = q + v // n, r + v % n
            elif v % n == 0:
                q = q + Poly({m: v / n})
            else:
                raise Unsupported(f'parity of {a!r}')
        return poly(r) if mod else q

    # -- arrays
    def read(self, arr, q):
        q = poly(q)
        if not isinstance(arr, Arr):
            raise Unsupported('index into no array')
        self.bounds(arr, q, 'read')
        for lo, hi, fn in reversed(arr.pieces):
            if lo == q and hi == q + 1:
                return fn(q)
            a, b = self.decide(q - lo), self.decide(hi - 1 - q)
            if a and b:
                return fn(q)
            if a is False or b is False:
                continue
            if self.tentative:
                return fn(q)
            raise Unsupported(f'{arr.name}[{q!r}]: not known which write is read')
        return arr.base(q)

    def bounds(self, arr, q, what):
        ok = self.nonneg(q) and self.nonneg(arr.size - 1 - q)
        self.obl.append((f'{what}-in-bounds', ok, f'{arr.name}[{q!r}] of {arr.size!r}'))

    def write(self, arr, q, v):
        q = poly(q)
        self.bounds(arr, q, 'write')
        arr.pieces.append((q, q + 1, lambda z, v=v: v))
        if self.inloop:
            self.inloop[-1]['writes'].append((arr, q, v))

    # -- expressions
    def lval(self, o, env):
        k = o['kind']
        if k in SKIP:
            return self.lval(inner(o)[0], env)
        if k == 'DeclRefExpr':
            return ('var', env, o['referencedDecl']['name'])
        if k == 'MemberExpr':
            b = inner(o)[0]
            ob = env['this'] if b['kind'] == 'CXXThisExpr' or inner(b) and \
                inner(b)[0]['kind'] == 'CXXThisExpr' else self.rval(b, env)
            if not isinstance(ob, Obj):
                raise Unsupported('member of no object')
            return ('var', ob.f, o['name'])
        if k == 'ArraySubscriptExpr':
            a, i = inner(o)
            a, i = self.rval(a, env), self.rval(i, env)
            return self.elem(a, i)
        if k == 'CXXOperatorCallExpr':
            f, *args = inner(o)
            n = next(x['referencedDecl']['name'] for x in walk(f) if 'referencedDecl' in x)
            if n == 'operator[]':
                a = self.rval(args[0], env)
                return self.elem(a, self.rval(args[1], env))
        if k == 'CXXMemberCallExpr' and inner(o)[0].get('name') == 'at':
            return self.elem(self.rval(inner(inner(o)[0])[0], env), self.rval(inner(o)[1], env))
        if k == 'UnaryOperator' and o['opcode'] == '*':
            return self.elem(self.rval(inner(o)[0], env), Poly())
        raise Unsupported(f'assignment to {k}')

    def elem(self, a, i):
        if isinstance(a, Ref):
            return ('el', a.arr, a.off + i)
        if isinstance(a, Arr):
            return ('el', a, poly(i))
        if isinstance(a, dict):
            return ('map', a, i)
        raise Unsupported('index')

    def get(self, lv):
        if lv[0] == 'el':
            return self.read(lv[1], lv[2])
        if lv[0] == 'map':
            return lv[1].get(lv[2], Poly())
        if lv[2] not in lv[1]:
            raise Unsupported(f'unknown value {lv[2]}')
        v = lv[1][lv[2]]
        if v is None:
            raise Unsupported(f'{lv[2]} is not known here')
        return v

    def put(self, lv, v):
        if lv[0] == 'el':
            self.write(lv[1], lv[2], v)
        elif lv[0] == 'var':
            lv[1][lv[2]] = v
        else:
            raise Unsupported('assignment')

    def arith(self, op, a, b, isint):
        if isinstance(a, (Ref, Arr)):
            a = a if isinstance(a, Ref) else Ref(a, Poly())
            if op in '+-' and isinstance(b, Poly):
                return Ref(a.arr, a.off + b if op == '+' else a.off - b)
            raise Unsupported('pointer arithmetic')
        if isinstance(a, bool):
            a = poly(a)
        if isinstance(b, bool):
            b = poly(b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            raise Unsupported(f'operands of {op}')
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            return self.idiv(a, b, False) if isint else a.over(b)
        if op == '%':
            return self.idiv(a, b, True)
        raise Unsupported(op)

    def isinttype(self, o):
        t = o['type'].get('desugaredQualType', o['type']['qualType'])
        return not any(x in t for x in ('double', 'float'))

    def truth(self, v):
        if isinstance(v, (bool, Cond)):
            return v
        if isinstance(v, Exists):
            raise Unsupported('branch on an existential')
        return self.compare('!=', v, Poly())

    def rval(self, o, env):
        k = o['kind']
        if k in SKIP:
            x = inner(o)[0]
            v = self.rval(x, env)
            ck = o.get('castKind', '')
            if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                return self.truth(v)
            if ck in ('IntegralCast', 'IntegralToFloating') and isinstance(v, bool):
                return poly(v)
            t = ctype(o)
            if ck == 'FloatingToIntegral' or ck == 'FloatingCast' and t == 'float':
                raise Unsupported('rounding')
            if ck in ('IntegralCast', 'FloatingToIntegral') and t not in WIDE and \
                    poly(v).const() is None:
                raise Unsupported('narrow integer')
            if ck == 'IntegralCast' and 'unsigned' in t and not self.nonneg(v):
                raise Unsupported('sign lost')
            return v
        if k == 'IntegerLiteral':
            return poly(int(o['value']))
        if k == 'FloatingLiteral':
            return poly(Fr(o['value']))
        if k == 'StringLiteral':
            return json.loads(o['value'])
        if k == 'CXXBoolLiteralExpr':
            return bool(o['value'])
        if k == 'CXXThisExpr':
            return env['this']
        if k == 'DeclRefExpr':
            r = o['referencedDecl']
            if r['kind'] == 'EnumConstantDecl':
                return poly(self.enum(r))
            if r['name'] not in env and r['kind'] == 'VarDecl':
                return self.glob(r['name'])
            return self.get(('var', env, r['name']))
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.get(self.lval(o, env))
        if k == 'UnaryOperator':
            op, x = o['opcode'], inner(o)[0]
            if op in ('++', '--'):
                lv = self.lval(x, env)
                v = self.get(lv)
                w = self.arith(op[0], v, poly(1), True)
                self.put(lv, w)
                return v if o.get('isPostfix') else w
            if op == '&':
                lv = self.lval(x, env)
                if lv[0] == 'el':
                    return Ref(lv[1], lv[2])
                raise Unsupported('address')
            if op == '*':
                return self.get(self.lval(o, env))
            v = self.rval(x, env)
            if op == '-':
                return -poly(v)
            if op == '+':
                return v
            if op == '!':
                return neg(self.truth(v))
            raise Unsupported(op)
        if k == 'BinaryOperator':
            op = o['opcode']
            a, b = inner(o)
            if op == '=':
                v = self.rval(b, env)
                self.put(self.lval(a, env), v)
                return v
            if op == ',':
                self.rval(a, env)
                return self.rval(b, env)
            if op in ('&&', '||'):
                x = self.truth(self.rval(a, env))
                if isinstance(x, bool) and x == (op == '||'):
                    return x
                y = self.truth(self.rval(b, env))
                if isinstance(x, bool):
                    return y
                if isinstance(y, bool):
                    return x if y == (op == '&&') else y
                return Cond('and' if op == '&&' else 'or', x, y)
            x, y = self.rval(a, env), self.rval(b, env)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return self.compare(op, x, y)
            v = self.arith(op, x, y, self.isinttype(o))
            if 'unsigned' in ctype(o) and not self.nonneg(v):
                raise Unsupported('unsigned difference')
            return v
        if k == 'CompoundAssignOperator':
            a, b = inner(o)
            if ctype(a) not in WIDE + ('double',) or self.isinttype(a) and not self.isinttype(b):
                raise Unsupported('conversion in an assignment')
            y = self.rval(b, env)
            lv = self.lval(a, env)
            v = self.arith(o['opcode'][:-1], self.get(lv), y, self.isinttype(o))
            self.put(lv, v)
            return v
        if k == 'ConditionalOperator':
            c, a, b = inner(o)
            t = self.truth(self.rval(c, env))
            if isinstance(t, bool):
                return self.rval(a if t else b, env)
            raise Unsupported('conditional value')
        if k == 'CXXMemberCallExpr':
            return self.method(o, env)
        if k == 'CallExpr':
            return self.call(o, env)
        if k == 'CXXOperatorCallExpr':
            return self.oper(o, env)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            a = [x for x in inner(o) if x['kind'] != 'CXXDefaultArgExpr']
            if len(a) == 1:
                return self.rval(a[0], env)
            raise Unsupported('constructor ' + o['type']['qualType'])
        raise Unsupported(f'C++ construct {k}')

    def oper(self, o, env):
        f, *args = inner(o)
        n = next(x['referencedDecl']['name'] for x in walk(f) if 'referencedDecl' in x)
        if n == 'operator[]':
            return self.get(self.lval(o, env))
        if n == 'operator=':
            v = self.rval(args[1], env)
            if isinstance(v, Arr):
                raise Unsupported('array copy')
            self.put(self.lval(args[0], env), v)
            return v
        raise Unsupported(n)

    def enum(self, r):
        for d in dump(self.path, r['type']['qualType']):
            if d['kind'] == 'EnumDecl':
                n = 0
                for e in inner(d):
                    c = [x for x in walk(e) if x['kind'] == 'ConstantExpr' and 'value' in x]
                    n = int(c[0]['value']) if c else n
                    if e['name'] == r['name']:
                        return n
                    n += 1
        raise Unsupported('enumerator ' + r['name'])

    def glob(self, name):
        for d in dump(self.path, name):
            if d['kind'] == 'VarDecl' and d.get('name') == name:
                if 'map' in d['type']['qualType']:
                    out, key = {}, None
                    for x in walk(d):
                        if x['kind'] == 'StringLiteral':
                            key = json.loads(x['value'])
                        elif x['kind'] == 'DeclRefExpr' and \
                                x['referencedDecl']['kind'] == 'EnumConstantDecl' and key is not None:
                            out[key] = poly(self.enum(x['referencedDecl']))
                            key = None
                    return out
                if 'const' in d['type']['qualType'] and inner(d):
                    return self.rval(inner(d)[0], {})
        raise Unsupported(f'global {name}')

    # -- calls
    def method(self, o, env):
        f, *args = inner(o)
        while f['kind'] in SKIP:
            f = inner(f)[0]
        n = f['name']
        b = inner(f)[0]
        ob = env['this'] if b['kind'] == 'CXXThisExpr' else self.rval(b, env)
        if isinstance(ob, Arr):
            if n == 'size':
                return ob.size
            if n == 'data':
                return Ref(ob, Poly())
            if n == 'push_back':
                v = self.rval(args[0], env)
                if not self.inloop:
                    raise Unsupported('push_back outside a loop')
                self.inloop[-1]['push'].append((ob, v))
                return None
            if n in ('reserve', 'shrink_to_fit'):
                return None
            if n == 'resize':
                if ob.pieces or ob.size != Poly():
                    raise Unsupported('resize')
                ob.size = poly(self.rval(args[0], env))
                ob.base = lambda q: Poly()
                return None
            if n == 'at':
                return self.get(self.lval(o, env))
            raise Unsupported(f'vector.{n}')
        if not isinstance(ob, Obj):
            raise Unsupported(f'method {n} of no object')
        args = [self.rval(a, env) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if (ob.cls, n) in self.contracts:
            return self.contracts[ob.cls, n](self, ob, *args)
        return self.invoke(ob, n, args)

    def find(self, name, cls, nargs):
        for d in dump(self.path, cls or name):
            for x in ([d] if d['kind'] != 'CXXRecordDecl' else inner(d)):
                if x['kind'] in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl') and \
                        x.get('name') == name:
                    ps = [y for y in inner(x) if y['kind'] == 'ParmVarDecl']
                    body = [y for y in inner(x) if y['kind'] == 'CompoundStmt']
                    if body and len(ps) >= nargs:
                        return x, ps, body[0]
        raise Unsupported(f'no definition of {cls or ""}::{name}')

    def invoke(self, ob, name, args):
        """call of a function or method, inlined"""
        x, ps, body = self.find(name, ob.cls if ob else None, len(args))
        if len(ps) != len(args):
            raise Unsupported('default arguments')
        if x['kind'] == 'CXXConstructorDecl':
            for y in inner(x):
                if y['kind'] == 'CXXCtorInitializer' and 'anyInit' in y:
                    i = inner(y)[0]
                    if i['kind'] == 'CXXConstructExpr' and not inner(i):
                        continue
                    ob.f[y['anyInit']['name']] = self.rval(
                        i, {'this': ob, **{p['name']: a for p, a in zip(ps, args)}})
        self.depth += 1
        if self.depth > 20:
            raise Unsupported('recursion')
        env = {p.get('name', f'_{i}'): a for i, (p, a) in enumerate(zip(ps, args))}
        env['this'] = ob
        old, self.exists = self.exists, None
        try:
            self.run(body, env)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        if self.exists is not None:
            r = ('exists', *self.exists, r)
        self.exists = old
        return r

    def construct(self, cls, args):
        ob = Obj(cls)
        for d in dump(self.path, cls):
            if d['kind'] == 'CXXRecordDecl':
                for x in inner(d):
                    if x['kind'] == 'FieldDecl' and 'vector' in x['type']['qualType']:
                        ob.f[x['name']] = self.vector(x['name'])
        self.invoke(ob, cls, args)
        return ob

    def vector(self, name, size=None):
        a = Arr(name, poly(size) if size is not None else Poly())
        if size is not None:
            a.base = lambda q: Poly()
        return a

    def call(self, o, env):
        f, *args = inner(o)
        n = next(x['referencedDecl']['name'] for x in walk(f) if 'referencedDecl' in x)
        a = [self.rval(x, env) for x in args if x['kind'] != 'CXXDefaultArgExpr']
        if n == 'pow':
            e = poly(a[1]).const()
            if e is None or e.denominator != 1 or not 0 <= e < 9:
                raise Unsupported('power')
            r = poly(1)
            for _ in range(int(e)):
                r = r * a[0]
            return r
        if n in ('fabs', 'abs') and isinstance(a[0], Poly):
            p = a[0]
            if p.const() is not None:
                return poly(abs(p.const()))
            if self.isint(p):
                raise Unsupported('abs of an integer')
            return atom('abs', p if repr(p) <= repr(-p) else -p)
        return self.invoke(None, n, a)

    # -- statements
    def run(self, o, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('too many steps')
        k = o['kind']
        if k == 'CompoundStmt':
            with Scope(env):
                for x in inner(o):
                    self.run(x, env)
        elif k == 'DeclStmt':
            for d in inner(o):
                self.decl(d, env)
        elif k == 'IfStmt':
            self.branch(o, env)
        elif k == 'ReturnStmt':
            i = inner(o)
            raise Ret(self.rval(i[0], env) if i else None)
        elif k == 'ForStmt':
            parts = o['inner']              # init, (condition variable), condition, step, body
            with Scope(env):
                if parts[0].get('kind'):
                    self.run(parts[0], env)
                self.loop(parts[2] if parts[2].get('kind') else None,
                          parts[3] if parts[3].get('kind') else None, parts[4], env)
        elif k == 'WhileStmt':
            c, b = inner(o)
            self.loop(c, None, b, env)
        elif k == 'SwitchStmt':
            self.switch(o, env)
        elif k == 'BreakStmt':
            raise Brk()
        elif k == 'ContinueStmt':
            raise Cont()
        elif k == 'NullStmt':
            pass
        elif k == 'CXXForRangeStmt':
            raise Unsupported('range loop')
        else:
            self.rval(o, env)

    def decl(self, d, env):
        if d['kind'] != 'VarDecl':
            return
        t, n = d['type']['qualType'], d['name']
        if n in env:
            raise Unsupported(f'{n} hides another variable')
        i = inner(d)
        while i and i[0]['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            i = inner(i[0])
        if 'vector<' in t and '&' not in t and '*' not in t:
            e = i[0] if i else None
            while e is not None and e['kind'] in SKIP:
                e = inner(e)[0]
            a = [x for x in inner(e) if x['kind'] != 'CXXDefaultArgExpr'] if e else []
            if len(a) > 1 or a and not self.isinttype(a[0]):
                raise Unsupported('vector constructor')
            v = self.rval(a[0], env) if a else None
            if isinstance(v, Arr):
                raise Unsupported('array copy')
            env[n] = self.vector(n, v)
            return
        if i and i[0]['kind'] == 'CXXConstructExpr' and t in [c for c, _ in self.contracts]:
            ob = Obj(t)
            ob.args = [self.rval(x, env) for x in inner(i[0]) if x['kind'] != 'CXXDefaultArgExpr']
            env[n] = ob
            return
        if '&' in t and i:
            v = self.rval(i[0], env)
            if isinstance(v, Poly) and 'const' not in t:
                raise Unsupported('reference to a number')
            env[n] = v
            return
        env[n] = self.rval(i[0], env) if i else None

    def branch(self, o, env):
        i = inner(o)
        t = self.truth(self.rval(i[0], env))
        if isinstance(t, bool):
            if t:
                self.run(i[1], env)
            elif len(i) > 2:
                self.run(i[2], env)
            return
        if not self.inloop or len(i) > 2:
            raise Unsupported('branch on data')
        L = self.inloop[-1]
        if L['guards']:
            raise Unsupported('nested branch on data')
        n, before = len(L['push']), snapshot(env)
        w = len(L['writes'])
        try:
            self.run(i[1], env)
        except Ret as e:
            L['ret'].append((t, e.v))
            return
        except Cont:
            raise Unsupported('continue on data')
        if snapshot(env) != before or len(L['writes']) != w or len(L['push']) == n:
            raise Unsupported('assignment under a condition on data')
        L['push'][n:] = [(a, v, t) for a, v in L['push'][n:]]

    def switch(self, o, env):
        v, body = inner(o)
        v = self.rval(v, env)
        items, hit, dflt = [], None, None
        for s in inner(body):
            while s['kind'] in ('CaseStmt', 'DefaultStmt'):
                j = inner(s)
                if s['kind'] == 'CaseStmt':
                    if self.compare('==', v, self.rval(j[0], env)) is True and hit is None:
                        hit = len(items)
                    s = j[-1]
                else:
                    dflt = len(items)
                    s = j[0]
            items.append(s)
        at = hit if hit is not None else dflt
        if at is None:
            return
        try:
            for s in items[at:]:
                self.run(s, env)
        except Brk:
            pass

    # -- loops
    def loop(self, cond, step, body, env):
        self.inner_loop(cond, step, body, env)

    def once(self, step, body, env):
        try:
            self.run(body, env)
        except Cont:
            pass
        if step:
            self.rval(step, env)

    def inner_loop(self, cond, step, body, env):
        if cond is None:
            raise Unsupported('loop without condition')
        if not any(a[0] == 'i' for v in self.scalars(env).values() for a in v.atoms()
                   if self.isint(v)):
            for _ in range(5000):           # all integers are known: execute
                t = self.truth(self.rval(cond, env))
                if not isinstance(t, bool):
                    raise Unsupported('loop on data')
                if not t:
                    return
                try:
                    self.once(step, body, env)
                except Brk:
                    return
            raise Unsupported('loop does not end')
        k = f'k{len(self.ks)}'
        K = sym(k)
        start = self.scalars(env)
        changed = {}
        T = None
        env0, ob = dict(env), env.get('this')
        f0 = dict(ob.f) if ob else {}

        def restore():
            env.clear()
            env.update(env0)
            if ob:
                ob.f.clear()
                ob.f.update(f0)
        for attempt in range(6):
            restore()
            for n, (s, c) in changed.items():
                self.set(env, n, start[n] + c * K if c is not None else s)
            # what the loop's condition says
            t = self.trips(cond, env, K, k)
            if T is not None and t != T:
                raise Unsupported('number of iterations')
            self.ks[k] = (Poly(), (t if t is not None else poly(1)) - 1)
            L = {'writes': [], 'push': [], 'guards': [], 'ret': []}
            self.inloop.append(L)
            marks = len(self.obl)
            saved = self.pieces(env)
            self.tentative += t is None
            try:
                self.once(step, body, env)
            except (Brk, Ret):
                raise Unsupported('loop left early')
            finally:
                self.inloop.pop()
                self.tentative -= t is None
            for a, p in saved:
                del a.pieces[p:]
            out = self.scalars(env)
            new = dict(changed)
            for n in start:
                have = start[n] + changed[n][1] * K if n in changed and changed[n][1] is not None \
                    else changed[n][0] if n in changed else start[n]
                d = out[n] - have
                if not d.t:
                    continue
                if n not in changed:
                    c = d.const()
                    new[n] = (atom('r', f'?{n}'), c if c is not None and self.isint(start[n])
                              and c.denominator == 1 else None)
                elif changed[n][1] is not None and d.const() != changed[n][1]:
                    new[n] = (changed[n][0], None)
            del self.obl[marks:]
            if new.keys() == changed.keys() and all(new[n] == changed[n] for n in new) and \
                    t is not None:
                break
            if new.keys() == changed.keys() and all(new[n] == changed[n] for n in new):
                raise Unsupported('loop without end')
            changed = new
        else:
            raise Unsupported('loop variables')
        # once more, for the obligations
        T = t
        restore()
        for n, (s, c) in changed.items():
            self.set(env, n, start[n] + c * K if c is not None else s)
        L = {'writes': [], 'push': [], 'guards': [], 'ret': []}
        self.inloop.append(L)
        saved = self.pieces(env)
        try:
            if T != Poly():
                self.once(step, body, env)
        finally:
            self.inloop.pop()
        for a, p in saved:
            del a.pieces[p:]
        out = self.scalars(env)
        restore()
        del self.ks[k]
        hav = {('r', f'?{n}') for n in changed}
        last = {('i', k): T - 1}
        some = self.nonneg(T - 1)
        for n, (s, c) in changed.items():
            if T == Poly():
                v = start[n]
            elif c is not None:
                v = start[n] + c * T
            else:
                g = out[n] - s
                if not deep(g) & hav:
                    v = start[n] + self.total(g, k, T)
                elif not deep(out[n]) & hav and some:
                    v = subst(out[n], last)
                else:
                    v = None
            self.set(env, n, v)
        for n in out:
            if n not in start:
                self.set(env, n, None)
        if T == Poly():
            return
        if self.inloop and (L['push'] or L['ret']):
            raise Unsupported('nested loops on data')
        for arr, q, v in L['writes']:
            self.piece(arr, q, v, k, T, hav, L)
        self.pushes(L, k, T, hav)
        if L['ret']:
            if len(L['ret']) > 1:
                raise Unsupported('several returns in a loop')
            (c, v), = L['ret']
            if not isinstance(v, bool):
                raise Unsupported('returns a value from a loop')
            if self.exists is not None:
                raise Unsupported('several existentials')
            self.exists = (Exists(k, T, c), v)

    def scalars(self, env):
        out = {n: v for n, v in env.items() if isinstance(v, Poly)}
        if isinstance(env.get('this'), Obj):
            out.update({'this.' + n: v for n, v in env['this'].f.items() if isinstance(v, Poly)})
        return out

    def set(self, env, n, v):
        if n.startswith('this.'):
            env['this'].f[n[5:]] = v
        else:
            env[n] = v

    def pieces(self, env):
        seen = []
        for v in list(env.values()) + list(env['this'].f.values() if env.get('this') else []):
            a = v.arr if isinstance(v, Ref) else v
            if isinstance(a, Arr) and all(a is not b for b, _ in seen):
                seen.append((a, len(a.pieces)))
        return seen

    def trips(self, cond, env, K, k):
        """number of iterations, from the condition with the induction variables in place"""
        while cond['kind'] in SKIP:
            cond = inner(cond)[0]
        if cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '>', '<=', '>=', '!='):
            raise Unsupported('loop condition')
        a, b = (poly(self.rval(x, env)) for x in inner(cond))
        op = cond['opcode']
        if op in ('<', '<='):
            a, b, op = b, a, {'<': '>', '<=': '>='}[op]
        p = a - b
        if not self.isint(p) or any(x[0] == 'r' for x in p.atoms()):
            raise Unsupported('loop condition')
        kk = (('i', k),)
        B = -p.t.get(kk, Fr(0))
        A = p + poly(B) * K
        if ('i', k) in deep(A):
            raise Unsupported('loop condition')
        if B == 0:
            return None
        if op == '!=':
            if B < 0:
                A, B = -A, -B
            if not self.nonneg(A):
                raise Unsupported('loop that may not end')
            q, r = self.idiv(A, B, False), self.idiv(A, B, True)
            if r != Poly():
                raise Unsupported('loop that may not end')
            return q
        if B < 0:
            raise Unsupported('loop that may not end')
        if op == '>=':
            A = A + 1               # A - B k >= 1
        t = self.decide(A - 1)
        if t is False:
            return Poly()
        if not self.nonneg(A):
            raise Unsupported(f'number of iterations: {A!r}')
        if B == 1:
            return A
        if t is None:
            raise Unsupported(f'number of iterations: {A!r}')
        return self.idiv(A - 1, poly(B), False) + 1

    def total(self, g, k, T):
        """sum of g over k in [0, T)"""
        if not g.t:
            return Poly()
        if T.const() is not None:
            out = Poly()
            for j in range(int(T.const())):
                out = out + subst(g, {('i', k): poly(j)})
            return out
        base = {('i', n) for n in self.lows}
        dep = lambda h: bool(deep(h) & base)
        b = f'b{1 + max([int(a[1][1:]) for a in deep(g) if a[0] == "S"], default=0)}'
        out = Poly()
        for m, v in g.t.items():
            h = Poly({m: v})
            if dep(h):
                h = subst(h, {('i', k): T - 1 - sym(k)})
                if dep(h):
                    raise Unsupported(f'summand depends on the size: {h!r}')
            h = subst(h, {('i', k): sym(b)})
            for m2, c in h.t.items():
                out = out + c * atom('S', b, Poly({m2: Fr(1)}), T)
        return out

    def piece(self, arr, q, v, k, T, hav, L):
        if self.inloop:
            raise Unsupported('array written in a nested loop')
        c = q.t.get((('i', k),), Fr(0))
        if c not in (1, -1) or ('i', k) in deep(q - c * sym(k)) or len(
                [1 for a, _, _ in L['writes'] if a is arr]) > 1:
            raise Unsupported(f'{arr.name}[{q!r}] written in a loop')
        v = poly(v)
        if deep(v) & hav:
            raise Unsupported('writes a running value')
        if any(a[0] == 'el' and a[1] == arr.name for a in deep(v)):
            raise Unsupported('in-place update')
        off = q - c * sym(k)
        lo = off if c == 1 else off - T + 1
        fn = lambda z: subst(v, {('i', k): (z - off) if c == 1 else (off - z)})
        arr.pieces.append((lo, lo + T, fn))

    def pushes(self, L, k, T, hav):
        if not L['push']:
            return
        if any(len(p) != 3 for p in L['push']) or len({id(p[0]) for p in L['push']}) != len(
                L['push']):
            raise Unsupported('push_back')
        keys = {p[2].key() for p in L['push']}
        if len(keys) != 1:
            raise Unsupported('arrays filtered by different conditions')
        if T.const() is not None:
            raise Unsupported('filter of known length')
        cond = L['push'][0][2]
        if any(deep(p) & hav for p in cond.polys()):
            raise Unsupported('running condition')
        self.filter = (k, T, cond)
        N = sym('N')
        self.lows['N'] = self.facts.get('N', 0)
        for arr, v, _ in L['push']:
            v = poly(v)
            if arr.pieces or arr.size != Poly() or deep(v) & hav:
                raise Unsupported('push_back')
            arr.size = N
            arr.pieces.append((Poly(), N, lambda z, v=v: subst(
                v, {('i', k): atom('sel', 0, z, T)})))


def snapshot(env):
    s = [(n, repr(v)) for n, v in env.items() if isinstance(v, (Poly, bool)) or v is None]
    if isinstance(env.get('this'), Obj):
        s += [('this.' + n, repr(v)) for n, v in env['this'].f.items()
              if isinstance(v, (Poly, bool)) or v is None]
    return s


# ------------------------------------------------------------------ induction
def unroll(p, shift):
    """replace m by m + 1 and expand the sums accordingly"""
    def step(p):
        mp = {('i', 'm'): sym('m') + 1}
        out = Poly()
        for mono, v in p.t.items():
            q = Poly({(): v})
            for a in mono:
                if a[0] == 'S':
                    _, k, g, T = a
                    if ('i', 'm') in deep(g):
                        raise Unsupported('summand depends on the size')
                    d = (subst(T, mp) - T).const()
                    if d is None or d.denominator != 1 or d < 0:
                        raise Unsupported('number of iterations')
                    r = atom(*a)
                    for j in range(int(d)):
                        r = r + subst(g, {('i', k): T + j})
                    q = q * r
                else:
                    q = q * subst(atom(*a), mp)
            out = out + q
        return out
    return step(p)


def equal_grid(name='x'):
    """x[k] = a + h k"""
    def rebuild(a):
        if a[0] == 'el' and a[1] == name:
            return atom('r', 'a') + atom('r', 'h') * a[2]
        return atom(*a)
    return rebuild
