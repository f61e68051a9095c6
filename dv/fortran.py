"""A small Fortran 90 interpreter for the numerical kernels of /repo, used to
execute the real source text on symbolic operands.

Supported: modules with parameters, subroutines, integer/real/dimension
declarations, assignments, DO loops, block and one-line IF, CALL with sequence
association (passing `a(i)` as the start of an array), array sections, and the
intrinsics dot_product, sum, mod, min, max, dfloat, dble, real, abs, size.
Anything else raises Unsupported.  DO loops whose bounds are symbolic are
executed once for an arbitrary iteration (the context decides).
"""
import itertools
import re

from .term import Unsupported


# ------------------------------------------------------------------ lexing
TOK = re.compile(r"""\s*(?:(\d+\.(?![A-Za-z]{2,}\.)\d*(?:[dDeE][+-]?\d+)?|\.\d+(?:[dDeE][+-]?\d+)?|\d+(?:[dDeE][+-]?\d+)?)
  |([A-Za-z_]\w*)|('[^']*'|"[^"]*")|(\*\*|==|\(/(?!=)|/\)|/=|<=|>=|=>|\.[A-Za-z]+\.|::|[-+*/(),:=<>%\[\]]))""", re.X)


def lex(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported(f'Fortran token: {s[i:i + 20]}')
        num, name, st, op = m.groups()
        out.append(('n', num) if num else ('id', name.lower()) if name else
                   ('s', st) if st else ('op', op.lower()))
        i = m.end()
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def eat(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise Unsupported(f'Fortran: expected {v}, got {x}')
        self.i += 1
        return x

    def at(self, *vs):
        return self.peek()[0] == 'op' and self.peek()[1] in vs

    def expr(self, lvl=0):
        ops = [('.or.',), ('.and.',), ('.not.',), ('==', '/=', '<', '<=', '>', '>=', '.eq.', '.ne.',
                                                  '.lt.', '.le.', '.gt.', '.ge.'),
               ('+', '-'), ('*', '/')]
        if lvl == 2:
            if self.at('.not.'):
                self.eat()
                return ('not', self.expr(2))
            return self.expr(3)
        if lvl == 6:
            return self.power()
        if lvl == 4 and self.at('-', '+'):
            o = self.eat()[1]
            a = self.expr(5)
            a = ('neg', a) if o == '-' else a
        else:
            a = self.expr(lvl + 1)
        while self.at(*ops[lvl]):
            o = self.eat()[1]
            a = ('bin', o, a, self.expr(lvl + 1))
        return a

    def power(self):
        a = self.prim()
        if self.at('**'):
            self.eat()
            if self.at('-'):
                self.eat()
                return ('bin', '**', a, ('neg', self.power()))
            return ('bin', '**', a, self.power())
        return a

    def prim(self):
        k, v = self.eat()
        if k == 'n':
            v = v.lower()
            if self.peek()[0] == 'id' and str(self.peek()[1]).startswith('_'):
                self.eat()          # kind
            if re.fullmatch(r'\d+', v):
                return ('int', int(v))
            return ('real', v.replace('d', 'e'))
        if k == 's':
            return ('str', v[1:-1])
        if k == 'id':
            if self.at('('):
                self.eat()
                args = []
                while not self.at(')'):
                    args.append(self.arg())
                    if self.at(','):
                        self.eat()
                self.eat(')')
                return ('ref', v, args)
            return ('var', v)
        if v == '(':
            e = self.expr()
            self.eat(')')
            return e
        if v in ('[', '(/'):
            items = []
            while not self.at(']', '/)'):
                items.append(self.implied())
                if self.at(','):
                    self.eat()
            self.eat()
            return ('arr', items)
        if v in ('-', '+'):
            e = self.expr(5)
            return ('neg', e) if v == '-' else e
        if v in ('.true.', '.false.'):
            return ('bool', v == '.true.')
        raise Unsupported(f'Fortran primary {v}')

    def implied(self):
        """an item of an array constructor, possibly an implied DO"""
        i = self.i
        if self.at('('):
            self.eat()
            xs = [self.expr()]
            while self.at(',') and not (self.peek(1)[0] == 'id' and self.peek(2)[1] == '='):
                self.eat()
                xs.append(self.expr())
            if self.at(','):
                self.eat()
                v = self.eat()[1]
                self.eat('=')
                b = [self.expr()]
                while self.at(','):
                    self.eat()
                    b.append(self.expr())
                self.eat(')')
                return ('ido', xs, v, b)
            self.i = i
        return self.expr()

    def arg(self):
        if self.peek()[0] == 'id' and self.peek(1)[1] == '=':
            k = self.eat()[1]
            self.eat()
            return ('kw', k, self.expr())
        lo = None if self.at(':') else self.expr()
        if self.at(':'):
            self.eat()
            hi = None if self.at(',', ')', ':') else self.expr()
            if self.at(':'):
                self.eat()
                return ('sec', lo, hi, self.expr())
            return ('sec', lo, hi)
        return lo


def logical_lines(src):
    out, cur = [], ''
    for line in src.split('\n'):
        # strip comments outside strings
        q, o = None, ''
        for ch in line:
            if q:
                q = None if ch == q else q
            elif ch in '\'"':
                q = ch
            elif ch == '!':
                break
            o += ch
        o = o.strip()
        if not o:
            continue
        if o.startswith('&'):
            o = o[1:].strip()
        if o.endswith('&'):
            cur += o[:-1] + ' '
            continue
        out += [x.strip() for x in (cur + o).split(';') if x.strip()]
        cur = ''
    return out


class Sub:
    def __init__(self, name, args):
        self.name, self.args = name, args
        self.result = None
        self.decl = {}      # name -> (type, dims|None, intent|None)
        self.body = []


def parse(src):
    """-> (module parameters, {name: Sub})"""
    lines = logical_lines(src)
    params, subs = {}, {}
    i = 0
    cur = None
    stack = []
    while i < len(lines):
        L = lines[i]
        low = L.lower()
        i += 1
        m = re.match(r'(?:pure\s+|elemental\s+|recursive\s+)*subroutine\s+(\w+)\s*(?:\((.*)\))?$', low)
        f = re.match(r'((?:(?:pure|elemental|recursive|integer|logical|real|double\s+precision)'
                     r'\s*(?:\([^()]*\))?\s+|real\s*\([^()]*\)\s*)*)function\s+(\w+)\s*\(([^()]*)\)\s*'
                     r'(?:result\s*\(\s*(\w+)\s*\))?$', low)
        if m or f:
            if f:
                cur = Sub(f[2], [a.strip() for a in f[3].split(',') if a.strip()])
                cur.result = f[4] or f[2]
                t = re.search(r'integer|logical|real|double', f[1])
                if t:
                    cur.decl[cur.result] = (t[0], None, None, None)
                m = {1: f[2]}
            else:
                cur = Sub(m[1], [a.strip() for a in (m[2] or '').split(',') if a.strip()])
            subs[m[1]] = cur
            stack = [cur.body]
            continue
        if re.match(r'(module|program)\s+\w+$|contains$|implicit\s+none|private$|public|use\b|save$',
                    low):
            continue
        if re.match(r'end\s*(module|program)', low):
            continue
        if re.match(r'end\s*(subroutine|function)|end$', low):
            if len(stack) != 1 and cur is not None:
                raise Unsupported('Fortran nesting')
            cur = None
            continue
        old = re.match(r'((?:integer|logical|real|double\s+precision)\s*(?:\(\s*(?:kind\s*=\s*)?\w+\s*\)|\*\s*\d+)?)'
                       r'\s+([a-z]\w*\b\s*(?![\s(]*=).*)$', low) if '::' not in L else None
        if old and 'function' not in low:
            L = low = old[1] + ' :: ' + old[2]
        if '::' in re.sub(r'\(.*?\)|\[.*?\]', '', L) and not re.match(r'\w+\s*=', low):
            head, tail = low.split('::', 1)
            toks = P(lex(head))
            typ = toks.eat()[1]
            dims = intent = None
            par = False
            while toks.peek()[0]:
                t = toks.eat()[1]
                if t == '(':
                    d = 1
                    while d:
                        x = toks.eat()[1]
                        d += (x == '(') - (x == ')')
                elif t == 'parameter':
                    par = True
                elif t == 'dimension':
                    toks.eat('(')
                    dims = []
                    while not toks.at(')'):
                        dims.append(toks.arg())
                        if toks.at(','):
                            toks.eat()
                    toks.eat(')')
                elif t == 'intent':
                    toks.eat('(')
                    intent = toks.eat()[1]
                    toks.eat(')')
            p = P(lex(tail))
            while p.peek()[0]:
                n = p.eat()[1]
                dd = dims
                if p.at('('):
                    p.eat()
                    dd = []
                    while not p.at(')'):
                        dd.append(p.arg())
                        if p.at(','):
                            p.eat()
                    p.eat(')')
                val = None
                if p.at('='):
                    p.eat()
                    val = p.expr()
                if cur is None:
                    params[n] = (typ, val)
                else:
                    cur.decl[n] = (typ, dd, intent, val if par else None)
                    if val is not None and not par:
                        raise Unsupported('initialised local')
                if p.at(','):
                    p.eat()
            continue
        if cur is None:
            raise Unsupported(f'Fortran statement outside a subroutine: {L[:40]}')
        body = stack[-1]
        m = re.match(r'(?:(\w+)\s*:\s*)?do\s+(\w+)\s*=\s*(.*)$', low)
        if m:
            p = P(lex(m[3]))
            lo = p.expr()
            p.eat(',')
            hi = p.expr()
            st = None
            if p.at(','):
                p.eat()
                st = p.expr()
            b = []
            body.append(('do', m[2], lo, hi, st, b, m[1]))
            stack.append(b)
            continue
        m = re.match(r'(?:(\w+)\s*:\s*)?do(?:\s+while\s*\((.*)\))?$', low)
        if m:
            b = []
            body.append(('while', P(lex(m[2])).expr() if m[2] else ('bool', True), b, m[1]))
            stack.append(b)
            continue
        m = re.match(r'select\s*case\s*\((.*)\)$', low)
        if m:
            body.append(('select', P(lex(m[1])).expr(), []))
            stack.append(None)
            continue
        m = re.match(r'case\s*(?:\((.*)\)|default)$', low)
        if m:
            stack.pop()
            b = []
            stack[-1][-1][2].append((P(lex('x(' + m[1] + ')')).prim()[2] if m[1] else None, b))
            stack.append(b)
            continue
        if re.match(r'end\s*select', low):
            stack.pop()
            continue
        if re.match(r'end\s*do', low) or re.match(r'end\s*if', low):
            stack.pop()
            continue
        m = re.match(r'else\s*if\s*\((.*)\)\s*then$', low)
        if m:
            stack.pop()
            node = stack[-1][-1]
            while node[0] == 'if' and node[3] and node[3][-1][0] == 'if' and node[3][-1][-1] == 'elif':
                node = node[3][-1]
            b, e = [], []
            node[3].append(('if', P(lex(m[1])).expr(), b, e, 'elif'))
            stack.append(b)
            continue
        if low == 'else':
            stack.pop()
            node = stack[-1][-1]
            while node[3] and node[3][-1][0] == 'if' and node[3][-1][-1] == 'elif':
                node = node[3][-1]
            stack.append(node[3])
            continue
        m = re.match(r'if\s*\((.*)\)\s*then$', low)
        if m:
            b, e = [], []
            body.append(('if', P(lex(m[1])).expr(), b, e, ''))
            stack.append(b)
            continue
        if re.match(r'if\s*\(', low):
            # one-line if: find the matching parenthesis
            d, k = 0, low.index('(')
            for j in range(k, len(low)):
                d += (low[j] == '(') - (low[j] == ')')
                if d == 0:
                    break
            body.append(('if', P(lex(low[k + 1:j])).expr(), [stmt(low[j + 1:].strip())], [], ''))
            continue
        body.append(stmt(low))
    return params, subs


def stmt(low):
    if low.startswith('call '):
        p = P(lex(low[5:]))
        e = p.prim()
        return ('call', e[1], e[2] if e[0] == 'ref' else [])
    if low.startswith('stop') or low.startswith('error stop'):
        return ('stop', low)
    if low == 'return':
        return (low,)
    m = re.match(r'(exit|cycle)(?:\s+(\w+))?$', low)
    if m:
        return (m[1], m[2])
    if low == 'continue':
        return ('nop',)
    p = P(lex(low))
    lhs = p.prim()
    p.eat('=')
    rhs = p.expr()
    if p.peek()[0]:
        raise Unsupported(f'Fortran statement {low[:50]}')
    return ('=', lhs, rhs)


class Stop(Exception):
    pass


class _Return(Exception):
    pass


class _Loop(Exception):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class Arr:
    """dense Fortran array (1-based), elements default to `fill`"""
    readonly = False

    def __init__(self, dims, fill=None):
        self.dims = dims
        self.d = {}
        self.fill = fill

    def check(self, ix, ctx):
        for k, (x, n) in enumerate(zip(ix, self.dims)):
            if isinstance(x, int) and (n is None or isinstance(n, int)):
                if x < 1 or n is not None and x > n:
                    ctx.bad(f'array index {x} outside 1..{n}')
            else:
                ctx.index(x, n)

    def get(self, ix, ctx):
        if len(ix) != len(self.dims):
            raise Unsupported('rank')
        self.check(ix, ctx)
        v = self.d.get(ix, self.fill)
        if v is None:
            ctx.bad('read of an undefined array element')
            raise Stop('undefined')
        return v

    def set(self, ix, v, ctx):
        if self.readonly:
            raise Unsupported('write to an array section argument')
        if len(ix) != len(self.dims):
            raise Unsupported('rank')
        self.check(ix, ctx)
        self.d[ix] = v


class Sub1:
    """sequence association: a rank-1 dummy starting at element `off` of another array"""

    def __init__(self, a, off, n):
        self.a, self.off, self.dims = a, off, [n]

    def get(self, ix, ctx):
        Arr.check(self, ix, ctx)
        return self.a.get((ix[0] + self.off - 1,), ctx)

    def set(self, ix, v, ctx):
        Arr.check(self, ix, ctx)
        self.a.set((ix[0] + self.off - 1,), v, ctx)


ARRS = (Arr, Sub1)


class Ctx:
    """how the interpreter talks to the verifier; overridden in contracts"""

    def bad(self, what):
        raise IndexError(what)

    def index(self, x, n):
        """x (possibly symbolic) must lie in 1..n"""
        if not (1 <= x <= n):
            raise IndexError(f'{x} outside 1..{n}')

    def cond(self, v):
        return bool(v)

    def real(self, s):
        return float(s)

    def dosym(self, lo, hi, st):
        raise Unsupported('symbolic DO bounds')


class Interp:
    def __init__(self, src, ctx=None):
        self.params, self.subs = parse(src)
        self.ctx = ctx or Ctx()
        self.glob = {}
        for n, (t, e) in self.params.items():
            self.glob[n] = self.ev(e, self.glob, None)
        self.steps = 0

    def call(self, name, args):
        s = self.subs.get(name)
        if s is None:
            raise Unsupported(f'Fortran: no subroutine {name}')
        if len(args) != len(s.args):
            raise Unsupported('argument count')
        env = dict(self.glob)
        for n, v in zip(s.args, args):
            env[n] = v
        for n, (typ, dims, intent, par) in s.decl.items():
            if par is not None:
                env[n] = self.ev(par, env, s)
        for n, (typ, dims, intent, par) in s.decl.items():
            if par is not None:
                continue
            if dims is None:
                if n not in s.args:
                    env[n] = None
                continue
            ds = [self.ev(d, env, s) if d[0] != 'sec' else None for d in dims]
            if n not in s.args:
                env[n] = Arr(ds)
            else:
                v = env[n]
                if isinstance(v, tuple) and v[0] == 'ptr':
                    env[n] = Sub1(v[1], v[2], ds[0])
                elif isinstance(v, ARRS) and len(ds) == len(v.dims):
                    if len(ds) == 1:
                        env[n] = Sub1(v, 1, ds[0] if ds[0] is not None else v.dims[0])
        try:
            self.run(s.body, env, s)
        except _Return:
            pass
        return env

    def run(self, body, env, s):
        for st in body:
            self.steps += 1
            if self.steps > 2000000:
                raise Unsupported('Fortran step budget')
            k = st[0]
            if k == '=':
                self.assign(st[1], st[2], env, s)
            elif k == 'do':
                lo, hi = self.ev(st[2], env, s), self.ev(st[3], env, s)
                step = self.ev(st[4], env, s) if st[4] is not None else 1
                ints = all(isinstance(x, int) for x in (lo, hi, step))
                vs = range(lo, hi + (1 if step > 0 else -1), step) if ints else \
                    self.ctx.dosym(lo, hi, step)
                for v in vs:
                    env[st[1]] = v
                    if not self.iteration(st[5], env, s, st[6]):
                        if not ints:
                            raise Unsupported('exit from a loop with symbolic bounds')
                        break
                else:
                    env[st[1]] = lo + max(0, len(vs)) * step if ints else None
            elif k == 'while':
                while self.ctx.cond(self.ev(st[1], env, s)):
                    self.steps += 1
                    if self.steps > 2000000:
                        raise Unsupported('Fortran step budget')
                    if not self.iteration(st[2], env, s, st[3]):
                        break
            elif k == 'select':
                v = self.ev(st[1], env, s)
                hit = None
                for items, b in st[2]:
                    for it in items or ():
                        if it[0] == 'sec':
                            ok = (it[1] is None or self.ctx.cond(self.ev(it[1], env, s) <= v)) and \
                                (it[2] is None or self.ctx.cond(v <= self.ev(it[2], env, s)))
                        else:
                            ok = self.ctx.cond(v == self.ev(it, env, s))
                        if ok and hit is None:
                            hit = b
                if hit is None:
                    hit = next((b for items, b in st[2] if items is None), [])
                self.run(hit, env, s)
            elif k in ('exit', 'cycle'):
                raise _Loop(k, st[1])
            elif k == 'if':
                c = self.ev(st[1], env, s)
                self.run(st[2] if self.ctx.cond(c) else st[3], env, s)
            elif k == 'call':
                sub = self.subs.get(st[1])
                if sub is None:
                    raise Unsupported(f'call {st[1]}')
                args = [None] * len(sub.args)
                for j, a in enumerate(st[2]):
                    k = sub.args.index(a[1]) if a[0] == 'kw' else j
                    d = sub.decl.get(sub.args[k])
                    args[k] = self.actual(a[2] if a[0] == 'kw' else a, env, s,
                                          bool(d and d[1] is not None))
                out = self.call(st[1], args)
                # scalars with intent(out)/(inout) are copied back
                for j, a in enumerate(st[2]):
                    n = sub.args[j] if a[0] != 'kw' else a[1]
                    a = a[2] if a[0] == 'kw' else a
                    d = sub.decl.get(n)
                    if d and d[1] is None and d[2] in ('out', 'inout'):
                        self.store(a, out[n], env, s)
            elif k == 'stop':
                raise Stop(st[1])
            elif k == 'return':
                raise _Return
            elif k == 'nop':
                pass
            else:
                raise Unsupported(f'Fortran {k}')

    def iteration(self, body, env, s, name):
        """-> False if the loop is left"""
        try:
            self.run(body, env, s)
        except _Loop as e:
            if e.name is not None and e.name != name:
                raise
            return e.kind == 'cycle'
        return True

    def actual(self, a, env, s, array):
        if not array:
            if a[0] == 'var' and env.get(a[1], 0) is None:
                return None
            return self.ev(a, env, s)
        if a[0] == 'ref' and a[1] in env and isinstance(env[a[1]], ARRS) \
                and len(a[2]) == 1 and a[2][0][0] != 'sec':
            return ('ptr', env[a[1]], self.ev(a[2][0], env, s))
        if a[0] == 'ref' and isinstance(env.get(a[1]), ARRS) and len(a[2]) == 1 \
                and len(a[2][0]) == 3 and a[2][0][0] == 'sec':
            lo = self.ev(a[2][0][1], env, s) if a[2][0][1] is not None else 1
            return ('ptr', env[a[1]], lo)
        if a[0] == 'var' and isinstance(env.get(a[1]), ARRS):
            return env[a[1]]
        v = self.ev(a, env, s)
        if isinstance(v, list):             # a section or an expression: a copy
            r = Arr([len(v)])
            for i, x in enumerate(v):
                r.d[(i + 1,)] = x
            # (writes through a section are outside the subset: see 'readonly')
            r.readonly = True
            return r
        if isinstance(v, tuple) and v[0] == 'ptr':
            raise Unsupported('array expression argument')
        return v

    def assign(self, lhs, rhs, env, s):
        v = self.ev(rhs, env, s)
        self.store(lhs, v, env, s)

    def store(self, lhs, v, env, s):
        if lhs[0] == 'var':
            t = env.get(lhs[1])
            if isinstance(t, ARRS):
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        t.set((i + 1,), x, self.ctx)
                elif isinstance(t, Arr) and not t.readonly and \
                        all(isinstance(x, int) for x in t.dims):
                    t.d.clear()
                    t.fill = v
                else:
                    raise Unsupported('whole-array assignment')
                return
            d = s.decl.get(lhs[1])
            if d and d[0] == 'integer' and isinstance(v, float):
                v = int(v)
            env[lhs[1]] = v
            return
        a = env.get(lhs[1])
        if lhs[0] != 'ref' or not isinstance(a, ARRS):
            raise Unsupported('assignment target')
        if any(x[0] == 'sec' for x in lhs[2]):
            ixs = self.indices(lhs[2], a, env, s)
            vs = v if isinstance(v, list) else [v] * len(ixs)
            if len(vs) != len(ixs):
                self.ctx.bad(f'{len(vs)} values assigned to a section of {len(ixs)}')
            for ix, x in zip(ixs, vs):
                a.set(ix, x, self.ctx)
            return
        a.set(tuple(self.ev(x, env, s) for x in lhs[2]), v, self.ctx)

    def section(self, sec, dim, env, s):
        lo = self.ev(sec[1], env, s) if sec[1] is not None else 1
        hi = self.ev(sec[2], env, s) if sec[2] is not None else dim
        st = self.ev(sec[3], env, s) if len(sec) > 3 else 1
        n = hi - lo
        if not isinstance(n, int):
            n = self.ctx.constant(n)
        if not isinstance(st, int):
            raise Unsupported('symbolic stride')
        return [lo + st * k for k in range(max(0, n // st + 1))]

    def indices(self, subs, a, env, s):
        """index tuples of an array section, first subscript fastest"""
        if len(subs) != len(a.dims):
            raise Unsupported('section')
        parts = [self.section(x, a.dims[j], env, s) if x[0] == 'sec' else [self.ev(x, env, s)]
                 for j, x in enumerate(subs)]
        return [tuple(reversed(ix)) for ix in itertools.product(*reversed(parts))]

    def ev(self, e, env, s):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'real':
            return self.ctx.real(e[1])
        if k == 'bool':
            return e[1]
        if k == 'str':
            return e[1]
        if k == 'var':
            if e[1] not in env:
                raise Unsupported(f'Fortran variable {e[1]}')
            v = env[e[1]]
            if isinstance(v, ARRS):
                n = v.dims[0]
                if len(v.dims) != 1 or not isinstance(n, int):
                    raise Unsupported('whole array')
                return [v.get((i + 1,), self.ctx) for i in range(n)]
            if v is None:
                self.ctx.bad(f'read of undefined variable {e[1]}')
                raise Stop('undefined')
            return v
        if k == 'neg':
            v = self.ev(e[1], env, s)
            return [-x for x in v] if isinstance(v, list) else -v
        if k == 'not':
            return not self.ctx.cond(self.ev(e[1], env, s))
        if k == 'bin':
            return self.binop(e[1], self.ev(e[2], env, s), self.ev(e[3], env, s))
        if k == 'arr':
            r = []
            for it in e[1]:
                if it[0] == 'ido':
                    b = [self.ev(x, env, s) for x in it[3]]
                    if not all(isinstance(x, int) for x in b):
                        raise Unsupported('implied DO')
                    for v in range(b[0], b[1] + (1 if (b[2:] or [1])[0] > 0 else -1), *b[2:]):
                        r += [self.ev(x, {**env, it[2]: v}, s) for x in it[1]]
                else:
                    v = self.ev(it, env, s)
                    r += v if isinstance(v, list) else [v]
            return r
        if k == 'ref':
            a = env.get(e[1])
            if isinstance(a, ARRS):
                if any(x[0] == 'sec' for x in e[2]):
                    return [a.get(ix, self.ctx) for ix in self.indices(e[2], a, env, s)]
                return a.get(tuple(self.ev(x, env, s) for x in e[2]), self.ctx)
            sub = self.subs.get(e[1])
            if sub is not None and sub.result:
                args = [None] * len(sub.args)
                for j, x in enumerate(e[2]):
                    q = sub.args.index(x[1]) if x[0] == 'kw' else j
                    d = sub.decl.get(sub.args[q])
                    args[q] = self.actual(x[2] if x[0] == 'kw' else x, env, s,
                                          bool(d and d[1] is not None))
                out = self.call(e[1], args)
                v = out.get(sub.result)
                if isinstance(v, ARRS):
                    return [v.get((i + 1,), self.ctx) for i in range(v.dims[0])]
                if v is None:
                    self.ctx.bad(f'undefined result of {e[1]}')
                    raise Stop('undefined')
                return v
            if e[1] == 'size' and e[2][0][0] == 'var' and isinstance(env.get(e[2][0][1]), ARRS):
                d = env[e[2][0][1]].dims
                if len(d) == 1 and d[0] is not None:
                    return d[0]
            e = (e[0], e[1], [x[2] if x[0] == 'kw' and x[1] in ('kind', 'mask') else x
                              for x in e[2]])
            vs = [self.ev(x, env, s) for x in e[2]]
            return self.intrinsic(e[1], vs)
        raise Unsupported(f'Fortran expression {k}')

    def binop(self, o, a, b):
        if isinstance(a, list) or isinstance(b, list):
            n = len(a) if isinstance(a, list) else len(b)
            a = a if isinstance(a, list) else [a] * n
            b = b if isinstance(b, list) else [b] * n
            return [self.binop(o, x, y) for x, y in zip(a, b)]
        o = {'.eq.': '==', '.ne.': '/=', '.lt.': '<', '.le.': '<=', '.gt.': '>', '.ge.': '>='}.get(o, o)
        if o == '.and.':
            return self.ctx.cond(a) and self.ctx.cond(b)
        if o == '.or.':
            return self.ctx.cond(a) or self.ctx.cond(b)
        if o == '/':
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return a / b
        if o == '**':
            return a ** b
        return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '==': lambda: a == b,
                '/=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                '>=': lambda: a >= b}[o]()

    def intrinsic(self, f, v):
        if f == 'dot_product':
            r = 0
            if len(v[0]) != len(v[1]):
                self.ctx.bad('dot_product of different lengths')
            for x, y in zip(*v):
                r = r + x * y
            return r
        if f == 'sum':
            r = 0
            for x in v[0]:
                r = r + x
            return r
        if f in ('min', 'max') and all(isinstance(x, (int, float)) for x in v):
            return min(v) if f == 'min' else max(v)
        if f == 'mod' and all(isinstance(x, int) for x in v):
            r = abs(v[0]) % abs(v[1])
            return r if v[0] >= 0 else -r
        if f == 'product':
            r = 1
            for x in v[0]:
                r = r * x
            return r
        if f == 'merge':
            one = lambda a, b, m: a if self.ctx.cond(m) else b      # noqa: E731
            if any(isinstance(x, list) for x in v):
                n = next(len(x) for x in v if isinstance(x, list))
                return [one(*(x[i] if isinstance(x, list) else x for x in v)) for i in range(n)]
            return one(*v)
        if f == 'size' and isinstance(v[0], list):
            return len(v[0])
        if f == 'kind':
            return 8
        if f in ('dfloat', 'dble', 'real', 'float') and isinstance(v[0], list):
            return [self.intrinsic(f, [x]) for x in v[0]]
        if f in ('modulo', 'iand') and all(isinstance(x, int) for x in v):
            return v[0] % v[1] if f == 'modulo' else v[0] & v[1]
        if f in ('dfloat', 'dble', 'real', 'float'):
            return float(v[0]) if isinstance(v[0], int) else v[0]
        if f == 'abs':
            return abs(v[0])
        if f == 'int' and isinstance(v[0], (int, float)):
            return int(v[0])
        raise Unsupported(f'Fortran intrinsic {f}')
