"""Back ends that discharge or refute obligations.

1. `pit`     - identity testing of algebraic equalities over F_p, p = 2^61-1
               (Schwartz-Zippel; one-sided error, see PIT_TRIALS)
2. `z3`      - z3 (NRA/LIA + uninterpreted functions)
3. `cvc5`    - fallback for what z3 leaves open
4. `refute`  - numeric falsification: evaluates the obligation on floats
"""
import cmath
import math
import os
import random
import select
import signal
import time
from fractions import Fraction
from . import term as tm
from .term import T, mk, const, cmp, band, bnot, bor

# a safe prime: the squares of the field are a cyclic group of the prime order Q, so real powers of
# positive reals have an exact counterpart (exponents are evaluated modulo Q);
# the primes up to 19 are squares
P = (1 << 61) - 150993
Q = (P - 1) // 2
PIT_TRIALS = 8
STATS = {'pit': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'time': 0.0, 'unknown': 0}


# ------------------------------------------------------------ PIT ----------
class _Retry(Exception):
    pass


class NotAlg(Exception):
    pass


class PitEval:
    def __init__(self, rng, signs, fixed=None, pos=()):
        self.pos = pos
        self.rng = rng
        self.memo = {}
        self.vars = {}
        self.sq = {}
        self.ufs = {}
        self.pows = {}
        self.signs = signs        # dict node-id -> +-1 / ite choice, filled on demand
        self.fixed = fixed or {}

    def rand(self):
        return self.rng.randrange(1, P)

    def ev(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            todo = [a for a in t.args if a.id not in memo and a.sort != 'B']
            if t.op == 'ite':
                # follow a fixed choice
                ch = self.signs.setdefault(('ite', t.args[0].id), 0)
                nxt = t.args[1 + ch]
                todo = [] if nxt.id in memo else [nxt]
                if not todo:
                    memo[t.id] = memo[nxt.id]
                    stack.pop()
                    continue
                stack.append(nxt)
                continue
            if todo:
                stack.extend(todo)
                continue
            memo[t.id] = self.op(t, [memo[a.id] for a in t.args if a.sort != 'B'])
            stack.pop()
        return memo[root.id]

    def op(self, t, a):
        o = t.op
        if o == 'const':
            return t.val.numerator * pow(t.val.denominator, -1, P) % P
        if o == 'var':
            if t.sort == 'B':
                raise NotAlg('boolean in arithmetic')
            v = self.vars.get(t.val)
            if v is None:
                v = self.fixed.get(t.val)
                if v is None:
                    v = self.rand()
                    if t.val in self.pos:      # a positive real is a square
                        v = v * v % P
                else:
                    v = v % P
                self.vars[t.val] = v
            return v
        if o == 'pi':
            return self.vars.setdefault('$pi', pow(self.rand(), 2, P))
        if o == 'add':
            return (a[0] + a[1]) % P
        if o == 'neg':
            return -a[0] % P
        if o == 'mul':
            return a[0] * a[1] % P
        if o == 'div':
            if a[1] == 0:
                raise _Retry
            return a[0] * pow(a[1], -1, P) % P
        if o == 'sqrt':
            return self.root(a[0])
        if o == 'abs':
            # |x| = +-x : sign fixed per trial through the sign table
            s = self.signs.setdefault(('abs', min(t.args[0].id, 1 << 60)), 0)
            return a[0] if s == 0 else -a[0] % P
        if o == 'uf':
            n = t.val
            if n in ('sin', 'cos'):
                key = min(a[0], P - a[0])
                flip = key != a[0]
                sc = self.ufs.get(('sc', key))
                if sc is None:
                    u = self.rand()
                    d = (1 + u * u) % P
                    if d == 0:
                        raise _Retry
                    i = pow(d, -1, P)
                    sc = (2 * u * i % P, (1 - u * u) * i % P)
                    self.ufs[('sc', key)] = sc
                if n == 'sin':
                    return -sc[0] % P if flip else sc[0]
                return sc[1]
            if n in ('arctan', 'arcsin', 'tan', 'sinh', 'tanh'):
                key = min(a[0], P - a[0])
                v = self.ufs.setdefault((n, key), self.rand())
                return v if key == a[0] else -v % P
            if n == 'cbrt':
                v = self.ufs.get((n, a[0]))
                if v is None:
                    raise NotAlg('cbrt')
            k = (n,) + tuple(a)
            if k not in self.ufs:
                self.ufs[k] = self.rand()
            return self.ufs[k]
        if o == 'pow':
            if pow(a[0], Q, P) != 1:
                raise _Retry
            return pow(a[0], self.exponent(t.args[1]), P)
        if o == 'special':
            raise NotAlg('special')
        if o == 'toint':
            return a[0]
        if o in ('idiv', 'imod', 'floor'):
            k = (o,) + tuple(a)
            return self.ufs.setdefault(k, self.rand())
        raise NotAlg(o)

    def exponent(self, t):
        """value of an exponent in the ring of exponents"""
        if t in self.pows:
            return self.pows[t]
        o = t.op
        a = [self.exponent(x) for x in t.args] if o in ('add', 'neg', 'mul', 'div') else ()
        if o == 'const':
            r = t.val.numerator * pow(t.val.denominator, -1, Q) % Q
        elif o == 'var' and t.sort != 'B' and t.val not in self.fixed:
            r = self.rng.randrange(1, Q)
        elif o == 'var' and t.val in self.fixed:
            r = self.fixed[t.val] % Q
        elif o == 'add':
            r = (a[0] + a[1]) % Q
        elif o == 'neg':
            r = -a[0] % Q
        elif o == 'mul':
            r = a[0] * a[1] % Q
        elif o == 'div':
            if a[1] == 0:
                raise _Retry
            r = a[0] * pow(a[1], -1, Q) % Q
        else:
            raise NotAlg('exponent ' + o)
        self.pows[t] = r
        return r

    def root(self, v):
        if v in self.sq:
            return self.sq[v]
        if v == 0:
            return 0
        if pow(v, (P - 1) // 2, P) != 1:
            raise _Retry
        # p = 3 (mod 4): this is the one root that is itself a square, so roots are
        # multiplicative like positive real roots; sqrt(x^2) = chi(x) x takes both
        # signs over the trials, like |x|
        r = pow(v, (P + 1) // 4, P)
        self.sq[v] = r
        return r


def positives(hyps):
    """variables that a hypothesis says are positive"""
    out = set()
    for f in hyps:
        g, neg = (f.args[0], True) if f.op == 'not' else (f, False)
        if g.op not in ('lt', 'le'):
            continue
        a, b = g.args
        if neg:
            a, b = b, a
        strict = (g.op == 'lt') != neg
        if b.op == 'var' and a.op == 'const' and (a.val > 0 or (strict and a.val == 0)):
            out.add(b.val)
    return out


def pit_equal(a, b, rng=None, hyps=()):
    """True: a == b identically (as algebraic functions, for positive values of the variables
    that the hypotheses make positive).  False: not shown."""
    pos = positives(hyps)
    rng = rng or random.Random(12345)
    d = tm.sub(a, b)
    if d.op == 'const':
        return d.val == 0
    # discover choice points
    choice_keys = []
    try:
        probe = _probe_choices(d)
    except NotAlg:
        return False
    if len(probe) > 6:
        return False
    combos = 1 << len(probe)
    roots = _roots(d)
    for c in range(combos):
        signs = {k: (c >> i) & 1 for i, k in enumerate(probe)}
        ok = 0
        tries = 0
        while ok < max(2, PIT_TRIALS // combos):
            tries += 1
            if tries > (4000 if len(roots) < 3 else 400):
                return False
            try:
                e = _staged(rng, signs, roots, pos)
                v = e.ev(d)
            except _Retry:
                continue
            except NotAlg:
                return False
            if v != 0:
                return False
            ok += 1
    return True


def _roots(d):
    """the square roots of d, operands before the roots that use them"""
    out, seen, st = [], set(), [(d, False)]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen or t.sort == 'B':
            continue
        seen.add(t.id)
        if t.op == 'sqrt':
            st.append((t, True))
        st.extend((a, False) for a in t.args)
    return out


def _staged(rng, signs, roots, pos=()):
    """a random point at which every root exists: one root at a time, drawing again only the
    variables that this root is the first to use"""
    e = PitEval(rng, dict(signs), pos=pos)
    if len(roots) < 3:
        return e
    for q in roots:
        keep = [dict(x) for x in (e.memo, e.vars, e.sq, e.ufs, e.pows)]
        for k in range(40):
            try:
                e.ev(q)
                break
            except _Retry:
                if len(e.vars) == len(keep[1]) and len(e.ufs) == len(keep[3]):
                    raise
                e.memo, e.vars, e.sq, e.ufs, e.pows = (dict(x) for x in keep)
        else:
            raise _Retry
    return e


def _probe_choices(d):
    keys = []
    seen = set()
    st = [d]
    while st:
        t = st.pop()
        if t.id in seen or t.sort == 'B':
            continue
        seen.add(t.id)
        if t.op == 'ite':
            k = ('ite', t.args[0].id)
            if k not in keys:
                keys.append(k)
        elif t.op == 'abs':
            k = ('abs', t.args[0].id)
            if k not in keys:
                keys.append(k)
        st.extend(t.args)
    return keys


# ------------------------------------------------------------ z3 -----------
class Z3T:
    """translate a term DAG to z3, collecting definitional side facts"""

    def __init__(self, z3=None):
        import z3 as _z
        self.z3 = _z
        self.memo = {}
        self.side = []
        self.vars = {}
        self.n = 0

    def fresh(self, p='k'):
        self.n += 1
        return self.z3.Real(f'{p}!{self.n}')

    def tr(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            t = stack[-1]
            if t.id in memo:
                stack.pop()
                continue
            todo = [a for a in t.args if a.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[t.id] = self.op(t, [memo[a.id] for a in t.args])
            stack.pop()
        return memo[root.id]

    def op(self, t, a):
        z = self.z3
        o = t.op
        if o == 'const':
            if t.sort == 'I':
                return z.IntVal(int(t.val))
            return z.RealVal(str(t.val))
        if o == 'bconst':
            return z.BoolVal(t.val)
        if o == 'var':
            v = {'R': z.Real, 'I': z.Int, 'B': z.Bool}[t.sort](t.val)
            self.vars[t.val] = v
            return v
        if o == 'pi':
            v = z.Real('$pi')
            if '$pi' not in self.vars:
                self.vars['$pi'] = v
                self.side += [v > z.Q(314159, 100000), v < z.Q(314160, 100000)]
            return v
        if t.sort == 'R':
            a = [z.ToReal(x) if z.is_int(x) else x for x in a]
        if o == 'add':
            return a[0] + a[1]
        if o == 'neg':
            return -a[0]
        if o == 'mul':
            return a[0] * a[1]
        if o == 'div':
            # q*b == a  (b != 0 is in the path condition)
            if z.is_rational_value(a[1]):
                return a[0] / a[1]
            q = self.fresh('q')
            self.side.append(z.Implies(a[1] != 0, q * a[1] == a[0]))
            return q
        if o == 'sqrt':
            s = self.fresh('s')
            self.side += [z.Implies(a[0] >= 0, z.And(s >= 0, s * s == a[0]))]
            return s
        if o == 'abs':
            return z.If(a[0] >= 0, a[0], -a[0])
        if o == 'ite':
            x, y = a[1], a[2]
            if z.is_int(x) != z.is_int(y):
                x, y = [z.ToReal(w) if z.is_int(w) else w for w in (x, y)]
            return z.If(a[0], x, y)
        if o in ('lt', 'le', 'eq'):
            x, y = a
            if z.is_int(x) != z.is_int(y):
                x, y = [z.ToReal(w) if z.is_int(w) else w for w in (x, y)]
            return x < y if o == 'lt' else x <= y if o == 'le' else x == y
        if o == 'not':
            return z.Not(a[0])
        if o == 'and':
            return z.And(*a)
        if o == 'or':
            return z.Or(*a)
        if o == 'iff':
            return a[0] == a[1]
        if o == 'idiv':
            # python floor division
            x, y = a
            q = z.Int(f'fd!{t.id}')
            self.side.append(z.Implies(y > 0, z.And(q * y <= x, x < q * y + y)))
            self.side.append(z.Implies(y < 0, z.And(q * y >= x, x > q * y + y)))
            return q
        if o == 'imod':
            x, y = a
            q = z.Int(f'fdm!{t.id}')
            self.side.append(z.Implies(y > 0, z.And(q * y <= x, x < q * y + y)))
            self.side.append(z.Implies(y < 0, z.And(q * y >= x, x > q * y + y)))
            return x - q * y
        if o == 'toint':
            if z.is_int(a[0]):
                return a[0]
            q = z.Int(f'ti!{t.id}')
            self.side.append(z.ToReal(q) == a[0])
            return q
        if o == 'floor':
            if z.is_int(a[0]):
                return a[0]
            return z.ToInt(a[0])
        if o == 'uf':
            f = z.Function('f_' + t.val, *([z.RealSort()] * (len(a) + 1)))
            a = [z.ToReal(x) if z.is_int(x) else x for x in a]
            r = f(*a)
            if t.val in ('sin', 'cos'):
                s_, c_ = z.Function('f_sin', z.RealSort(), z.RealSort())(a[0]), \
                    z.Function('f_cos', z.RealSort(), z.RealSort())(a[0])
                self.side.append(s_ * s_ + c_ * c_ == 1)
            if t.val == 'exp':
                self.side.append(r > 0)
            if t.val == 'arctan':
                self.side += [z.Implies(a[0] > 0, r > 0), z.Implies(a[0] < 0, r < 0)]
            return r
        if o == 'pow':
            a = [z.ToReal(x) if z.is_int(x) else x for x in a]
            f = z.Function('f_pow', z.RealSort(), z.RealSort(), z.RealSort())
            r = f(*a)
            self.side.append(z.Implies(a[0] > 0, r > 0))
            return r
        if o == 'special':
            return self.fresh('nan')
        raise tm.Unsupported(f'z3 translation of {o}')


def z3_sat(facts, timeout_ms=2000, want_model=False):
    """satisfiability of a list of boolean terms -> 'sat'/'unsat'/'unknown', model"""
    import z3
    tr = Z3T()
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for f in facts:
        s.add(tr.tr(f))
    for f in tr.side:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['time'] += time.time() - t0
    if r == z3.sat:
        m = s.model()
        if not want_model:
            return 'sat', None
        vals = {}
        for n, v in tr.vars.items():
            x = m.eval(v, model_completion=True)
            vals[n] = _z3val(x)
        return 'sat', vals
    return ('unsat', None) if r == z3.unsat else ('unknown', None)


def _z3val(x):
    import z3
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    try:
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
    except OverflowError:
        pass
    return None


def cvc5_unsat(facts, timeout_ms=10000):
    """decide through cvc5 on the SMT-LIB text z3 prints, in a child process: cvc5 does not
    look at its time limit while it preprocesses a large term"""
    import z3
    tr = Z3T()
    s = z3.Solver()
    for f in facts:
        s.add(tr.tr(f))
    for f in tr.side:
        s.add(f)
    text = s.to_smt2()
    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = 'unknown'
        try:
            signal.alarm(0)
            os.close(r)
            out = _cvc5(text, timeout_ms)
        finally:
            os.write(w, out.encode())
            os._exit(0)
    os.close(w)
    try:
        ready, _, _ = select.select([r], [], [], timeout_ms / 1000 + 3)
        return (os.read(r, 64).decode() if ready else '') or 'unknown'
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        STATS['time'] += time.time() - t0


def _cvc5(text, timeout_ms):
    try:
        import cvc5
        tmg = cvc5.TermManager()
        slv = cvc5.Solver(tmg)
        slv.setOption('tlimit-per', str(int(timeout_ms)))
        slv.setOption('nl-ext-tplanes', 'true')
        slv.setLogic('ALL')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = parser.getSymbolManager()
        res = None
        while True:
            c = parser.nextCommand()
            if c.isNull():
                break
            if 'set-logic' in str(c) or 'set-info' in str(c):
                continue
            out = c.invoke(slv, sm)
            if 'check-sat' in str(c):
                res = str(out).strip()
        return res or 'unknown'
    except Exception as e:      # noqa - a back-end failure is 'unknown'
        return 'unknown'


# ------------------------------------------------------------ numeric ------
def feval(t, env, memo=None):
    """float evaluation; raises ArithmeticError outside the domain"""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[x.id] = _fop(x, [memo[a.id] for a in x.args], env)
        stack.pop()
    return memo[t.id]


def _fop(t, a, env):
    o = t.op
    if o == 'const':
        return float(t.val) if t.sort == 'R' else int(t.val)
    if o == 'bconst':
        return t.val
    if o == 'var':
        return env[t.val]
    if o == 'pi':
        return math.pi
    if o == 'add':
        return a[0] + a[1]
    if o == 'neg':
        return -a[0]
    if o == 'mul':
        return a[0] * a[1]
    if o == 'div':
        return a[0] / a[1]
    if o == 'sqrt':
        if a[0] < 0:
            raise ArithmeticError
        return math.sqrt(a[0])
    if o == 'abs':
        return abs(a[0])
    if o == 'ite':
        return a[1] if a[0] else a[2]
    if o == 'lt':
        return a[0] < a[1]
    if o == 'le':
        return a[0] <= a[1]
    if o == 'eq':
        return a[0] == a[1]
    if o == 'not':
        return not a[0]
    if o == 'and':
        return a[0] and a[1]
    if o == 'or':
        return a[0] or a[1]
    if o == 'iff':
        return bool(a[0]) == bool(a[1])
    if o == 'idiv':
        return a[0] // a[1]
    if o == 'imod':
        return a[0] % a[1]
    if o == 'toint':
        return round(a[0])
    if o == 'floor':
        return math.floor(a[0])
    if o == 'uf':
        f = {'arctan': math.atan, 'arcsin': math.asin, 'arccos': math.acos,
             'arctan2': math.atan2,
             'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x)}.get(t.val) or \
            getattr(math, t.val, None)
        if f is None:
            # opaque function symbol: deterministic pseudo-value
            h = random.Random(hash((t.val,) + tuple(round(x, 9) for x in a)))
            return h.uniform(-2, 2)
        try:
            return f(*a)
        except ValueError:
            raise ArithmeticError
    if o == 'pow':
        if a[0] <= 0:
            raise ArithmeticError
        return a[0] ** a[1]
    raise ArithmeticError


# ------------------------------------------------------------ driver -------
def flatten_and(t):
    if t.op == 'and':
        return flatten_and(t.args[0]) + flatten_and(t.args[1])
    return [t]


def prove(pc, goal, timeout_ms=8000, use_cvc5=True, hint=None):
    """-> (status, backend, model);  status in proved/refuted/unknown"""
    t0 = time.time()
    try:
        goal_parts = flatten_and(goal)
        bk = set()
        for g in goal_parts:
            st, b, m = _prove1(pc, g, timeout_ms, use_cvc5)
            if st != 'proved':
                return st, b, m
            bk.add(b)
        return 'proved', '+'.join(sorted(bk)), None
    finally:
        pass


def _prove1(pc, g, timeout_ms, use_cvc5, depth=0):
    if g.op == 'bconst':
        if g.val:
            STATS['trivial'] += 1
            return 'proved', 'trivial', None
    if g in pc:
        STATS['trivial'] += 1
        return 'proved', 'trivial', None
    if g.op == 'eq':
        if pit_equal(g.args[0], g.args[1], hyps=pc):
            STATS['pit'] += 1
            return 'proved', 'pit', None
    if g.op == 'iff':
        ok = _iff_struct(g.args[0], g.args[1])
        if ok:
            STATS['pit'] += 1
            return 'proved', 'pit', None
    if g.op == 'iff' and depth < 2:
        a, b = g.args
        r1 = _imp(pc, a, b, timeout_ms, use_cvc5, depth)
        if r1[0] == 'proved':
            r1 = _imp(pc, b, a, timeout_ms, use_cvc5, depth)
        if r1[0] != 'unknown':
            return r1
        return r1
    if _scaled(pc, g):
        STATS['pit'] += 1
        return 'proved', 'pit+sign', None
    facts = relevant(pc, g) + [bnot(g)]
    try:
        r, m = z3_sat(facts, timeout_ms, True)
    except tm.Unsupported:
        return 'unknown', 'z3', None
    if r == 'unsat':
        STATS['z3'] += 1
        return 'proved', 'z3', None
    if r == 'sat':
        if len(facts) - 1 < len(pc):
            # full context before believing a model
            r2, m2 = z3_sat(list(pc) + [bnot(g)], timeout_ms, True)
            if r2 == 'unsat':
                STATS['z3'] += 1
                return 'proved', 'z3', None
            if r2 == 'sat':
                return 'refuted', 'z3', m2
            return 'unknown', 'z3', m
        return 'refuted', 'z3', m
    if use_cvc5:
        if cvc5_unsat(list(pc) + [bnot(g)], timeout_ms) == 'unsat':
            STATS['cvc5'] += 1
            return 'proved', 'cvc5', None
    STATS['unknown'] += 1
    # one retry with a longer limit
    if timeout_ms < 30000 and STATS.get('retries', 0) < 12:
        STATS['retries'] = STATS.get('retries', 0) + 1
        if z3_sat(list(pc) + [bnot(g)], timeout_ms * 4)[0] == 'unsat':
            return 'proved', 'z3', None
    return 'unknown', 'z3+cvc5', None


def _imp(pc, a, b, timeout_ms, use_cvc5, depth):
    if a.op == 'bconst' and not a.val:
        return 'proved', 'trivial', None
    pc2 = list(pc) + [x for x in flatten_and(a) if not (x.op == 'bconst' and x.val)]
    out = ('proved', 'trivial', None)
    for g in flatten_and(b):
        st = _prove1(pc2, g, timeout_ms, use_cvc5, depth + 1)
        if st[0] != 'proved':
            return st
        out = st
    return out


def _atom(t):
    """comparison -> (d, strict) meaning d > 0 / d >= 0, or None"""
    neg = False
    if t.op == 'not':
        neg, t = True, t.args[0]
    if t.op not in ('lt', 'le'):
        return None
    a, b = t.args
    if neg:
        return tm.sub(a, b), t.op == 'le'
    return tm.sub(b, a), t.op == 'lt'


def _mono(d1, d2):
    """K, a monomial (with constant) in the free variables with d1 == K d2, or None"""
    vs = sorted(set(tm.free_vars(d1)) | set(tm.free_vars(d2)))
    if not vs or len(vs) > 12:
        return None
    rng = random.Random(7)
    rows, ys, sg = [], [], []
    import numpy as np
    for _ in range(400):
        env = {v: rng.choice([-1, 1]) * math.exp(rng.uniform(-1, 1)) for v in vs}
        try:
            x, y = feval(d1, env), feval(d2, env)
        except (ArithmeticError, ValueError, TypeError, KeyError):
            continue
        if not (math.isfinite(x) and math.isfinite(y)) or abs(x) < 1e-9 or abs(y) < 1e-9:
            continue
        rows.append([math.log(abs(env[v])) for v in vs] + [1.])
        ys.append(math.log(abs(x / y)))
        sg.append((env, x / y))
        if len(rows) >= len(vs) + 5:
            break
    else:
        return None
    A, b = np.array(rows), np.array(ys)
    sol, *_ = np.linalg.lstsq(A, b, rcond=None)
    ex = [round(v) for v in sol[:-1]]
    if np.max(np.abs(sol[:-1] - ex)) > 1e-4:
        return None
    cf = Fraction(math.exp(sol[-1])).limit_denominator(4096)
    k0 = float(cf)
    for v, e in zip(vs, ex):
        k0 *= sg[0][0][v] ** e
    if sg[0][1] / k0 < 0:
        cf = -cf
    K = const(cf)
    for v, e in zip(vs, ex):
        for _ in range(abs(e)):
            K = tm.mul(K, tm.var(v, 'R')) if e > 0 else tm.div(K, tm.var(v, 'R'))
    if pit_equal(d1, tm.mul(K, d2)):
        return K
    return None


def _scaled(pc, g):
    """g follows from one hypothesis: d_g = K d_h with K a monomial of known sign"""
    at = _atom(g)
    if at is None:
        return False
    d, strict = at
    gv = set(tm.free_vars(d))
    if len(gv) < 2:
        return False
    n = 0
    for h in reversed(list(pc)):
        ah = _atom(h)
        if ah is None or len(set(tm.free_vars(ah[0])) & gv) < 2:
            continue
        if strict and not ah[1]:
            continue
        n += 1
        if n > 8:
            break
        K = _mono(d, ah[0])
        if K is None:
            continue
        z = cmp('lt', const(0), K) if strict else cmp('le', const(0), K)
        if K.op == 'const':
            if K.val > 0:
                return True
            continue
        rel = relevant(pc, z)
        # bounds of single variables first: they decide the sign of most monomials
        for facts in ([f for f in rel if len(tm.free_vars(f)) == 1], rel):
            r, _ = z3_sat(facts + [bnot(z)], 2000)
            if r == 'unsat':
                return True
    return False


def _iff_struct(a, b):
    """structural equivalence of booleans modulo PIT of their atoms"""
    if a is b:
        return True
    if a.op != b.op:
        return False
    if a.op == 'not':
        return _iff_struct(a.args[0], b.args[0])
    if a.op in ('and', 'or'):
        return (_iff_struct(a.args[0], b.args[0]) and _iff_struct(a.args[1], b.args[1])) or \
            (_iff_struct(a.args[0], b.args[1]) and _iff_struct(a.args[1], b.args[0]))
    if a.op in ('lt', 'le'):
        return pit_equal(tm.sub(a.args[0], a.args[1]), tm.sub(b.args[0], b.args[1]))
    if a.op == 'eq':
        d1, d2 = tm.sub(*a.args), tm.sub(*b.args)
        return pit_equal(d1, d2) or pit_equal(d1, tm.neg(d2))
    return False


def relevant(pc, g):
    """hypotheses connected to the goal through shared variables (cone)"""
    vs = set(tm.free_vars(g))
    rest = [(f, set(tm.free_vars(f))) for f in pc]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f, fv in rest:
            if fv & vs or not fv:
                out.append(f)
                if not fv <= vs:
                    vs |= fv
                    changed = True
            else:
                keep.append((f, fv))
        rest = keep
    return out
