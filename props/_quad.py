"""P15 and P16 for every number of nodes: loops of the C++ kernels by induction (dv/cxxloop.py)."""
import os
import time
import traceback
from fractions import Fraction as Fr

from dv import cxxloop as cx
from dv import engine as en
from dv.cxxloop import Arr, Cond, Machine, Poly, Ref, atom, deep, poly, subst, sym
from dv.term import Unsupported

NI = 'cpp-numintegrator/num_integrator/num_integration.cpp'
LD = 'cpp-ld-funcs/ld_funcs/ld_functions.cpp'
DI = 'cpp-disc-integrator/disc_integrator/disc_integrals.cpp'
M0 = 2


class Sink:
    def __init__(self, res):
        self.res = res
        self.left = []

    def ob(self, name, ok, detail=''):
        self.res.total += 1
        self.res.backends['induction'] = self.res.backends.get('induction', 0) + bool(ok)
        if ok:
            self.res.proved += 1
            if len(self.res.samples) < 3 and 'bounds' not in name:
                self.res.samples.append(f'{name} {detail}'[:200] + ' [induction]')
        else:
            self.left.append((name, str(detail)[:400]))
            self.res.obls.append({'obligation': name, 'status': 'unproved', 'backend': 'induction',
                                  'goal': str(detail)[:600]})

    def bounds(self, mach):
        for n, ok, d in mach.obl:
            self.ob(n, ok, d)


class Unbounded:
    """contract whose array sizes are symbolic"""

    def __init__(self, name, body, functions, replay=None, note=''):
        self.name, self.body, self.functions = name, body, functions
        self.replay, self.note = replay, note

    def run(self, seed, tier):
        res = en.Result(self.name)
        t0 = time.time()
        s = Sink(res)
        try:
            self.body(s)
        except Unsupported as e:
            res.undecided.append(f'outside the unbounded fragment (bounded contracts decide): {e}')
        except Exception as e:
            res.undecided.append(f'unbounded run stopped: {type(e).__name__}: {e}')
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
        for n, d in s.left[:8]:
            res.undecided.append(f'obligation {n}: not proved for all sizes: {d}')
        # a false goal must not be provable
        res.canary_ok = not (sym('m') + 1 - sym('m')).t == {}
        res.wall = time.time() - t0
        return res


def total(mach, g, T):
    """specification: sum of g(k), k in [0, T)"""
    return mach.total(g(sym('k99')), 'k99', T)


def rule(mach, method, equal, odd, n):
    f, x = (lambda i: atom('el', 'f', poly(i))), (lambda i: atom('el', 'x', poly(i)))
    if method == 'simpson' and equal and odd:
        p = sym('m') if n.const() is None else poly((n.const() - 1) / 2)
        w = x(1) - x(0)
        return w * Fr(1, 3) * total(mach, lambda k: f(2 * k) + 4 * f(2 * k + 1) + f(2 * k + 2), p)
    return total(mach, lambda k: (x(k + 1) - x(k)) * (f(k) + f(k + 1)) * Fr(1, 2), n - 1)


def code(mach, method, equal, par, n):
    f, x = Arr('f', n), Arr('x', n)
    ob = mach.construct('NumericalDoubleInputIntegrator',
                        [n, Ref(f, Poly()), Ref(x, Poly()), equal, method, poly(4), par])
    r = mach.invoke(ob, 'integrate', [])
    if f.pieces or x.pieces:
        raise Unsupported('writes its input')
    return r


def quadrature(s):
    for method in ('trapz', 'simpson', 'other'):
        for equal in (True, False):
            for par in (False, True):
                for odd in (True, False):
                    tag = f'{method}-{"equal" if equal else "general"}-' \
                          f'{"parallel-" if par else ""}n={"2m+1" if odd else "2m+2"}'
                    sz = lambda m: 2 * m + (1 if odd else 2)
                    grid = cx.equal_grid() if equal else None
                    for m in range(1 if odd else 0, M0 + 1):
                        mach = Machine(NI, {})
                        n = poly(sz(m))
                        d = code(mach, method, equal, par, n) - rule(mach, method, equal, odd, n)
                        d = subst(d, {}, grid) if grid else d
                        s.ob(f'rule[{tag}]: base m={m}', not d.t, repr(d))
                        s.bounds(mach)
                    mach = Machine(NI, {'m': M0})
                    n = sz(sym('m'))
                    d = code(mach, method, equal, par, n) - rule(mach, method, equal, odd, n)
                    s.bounds(mach)
                    e = cx.unroll(d, 1) - d
                    e = subst(e, {}, grid) if grid else e
                    s.ob(f'rule[{tag}]: step', not e.t, repr(e))


def few(s):
    for method in ('trapz', 'simpson'):
        for equal in (True, False):
            for n in (0, 1):
                mach = Machine(NI, {})
                d = code(mach, method, equal, False, poly(n))
                s.ob(f'short[{method} n={n}]', not poly(d).t, repr(d))
                s.bounds(mach)


# ------------------------------------------------------------------ limb darkening, disc factors
def darkening(u):
    return 1 + Fr(3, 2) * u


def at(mach, arr, size):
    """element j of the array, j arbitrary in [0, size)"""
    mach.ks['k98'] = (Poly(), size - 1)
    r = mach.read(arr, sym('k98'))
    del mach.ks['k98']
    return r


def limb(s):
    for name in ('eddington', 'other'):
        for par in (False, True):
            mach = Machine(LD, {'m': 0})
            n = sym('m')
            mu, out = Arr('mu', n), Arr('h', n)
            ob = mach.construct('LimbDarkeningFunctions',
                                [n, Ref(mu, Poly()), Ref(out, Poly()), name, poly(4), par])
            mach.invoke(ob, 'compute', [])
            s.ob('input-unchanged', not mu.pieces)
            d = at(mach, out, n) - darkening(atom('el', 'mu', sym('k98')))
            s.ob(f'eddington[{name}{" parallel" if par else ""}]', not d.t, repr(d))
            s.bounds(mach)


def same_condition(c, a, spec):
    """c is `spec(v)` for all values v of the atom a (both piecewise constant)"""
    pts = {Fr(-1), Fr(0), Fr(1), Fr(2)}
    for p in c.polys():
        if p.atoms() - {a} or any(len(m) > 1 for m in p.t):
            raise Unsupported('condition of the filter')
        k = p.t.get((a,), Fr(0))
        if k:
            pts.add(-p.t.get((), Fr(0)) / k)
    pts = sorted(pts)
    pts += [(p + q) / 2 for p, q in zip(pts, pts[1:])] + [pts[0] - 1, pts[-1] + 1]
    return all(c.eval(lambda p: subst(p, {a: poly(v)}).const()) == spec(v) for v in pts)


def disc(s):
    for method in ('trapz', 'simpson'):
        for par in (False, True):
            disc_one(s, method, par)


def disc_one(s, method, par):
    calls = []

    def ld_compute(mach, ob):
        n, mu, out, name = ob.args[:4]
        s.ob('limb-darkening-arguments', isinstance(mu, Ref) and isinstance(out, Ref) and
             name == 'eddington' and mach.nonneg(mu.arr.size - mu.off - n) and
             mach.nonneg(out.arr.size - out.off - n) and not out.off.t)
        out.arr.pieces.append((out.off, out.off + n, lambda z: darkening(
            mach.read(mu.arr, z - out.off + mu.off))))

    def integrate(mach, ob):
        n, f, x, equal, how = ob.args[:5]
        calls.append((n, f, x, equal, how))
        return atom('r', f'integral{len(calls)}')
    mach = Machine(DI, {'m': 0}, {'N': 2}, {
        ('LimbDarkeningFunctions', 'compute'): ld_compute,
        ('NumericalDoubleInputIntegrator', 'integrate'): integrate})
    n = sym('m')
    A = [Arr(k, n) for k in ('mu', 'f', 'd', 'e')]
    ob = mach.construct('DiscIntegration', [n] + [Ref(a, Poly()) for a in A] +
                        ['eddington', method, poly(3), par])
    tag = f'{method}{" parallel" if par else ""}'
    k, T, cond = mach.filter or (None, None, None)
    if k is None:
        raise Unsupported('no filter')
    s.ob(f'visible-nodes[{tag}]', T == n and same_condition(
        cond, ('el', 'mu', sym(k)), lambda v: 0 <= v <= 1), repr(cond.key()))
    for w, name in enumerate(('compute_first_disc_integral', 'compute_second_disc_integral')):
        r = mach.invoke(ob, name, [])
        s.ob(f'returns-integral[{tag}]', len(calls) == w + 1 and
             r == atom('r', f'integral{w + 1}'), repr(r))
        size, f, x, equal, how = calls[-1]
        N = sym('N')
        s.ob(f'size[{tag}]', size == N and how == method, f'{size!r} {how}')
        i = atom('sel', 0, sym('k98'), n)
        u, g, d, e = (atom('el', q, i) for q in ('mu', 'f', 'd', 'e'))
        want = u * g * darkening(u) if w == 0 else \
            u * darkening(u) * (2 * u * d + (u * u - 1) * e)
        s.ob(f'integrand-{w + 1}[{tag}]', f.off == Poly() and at(mach, f.arr, N) == want,
             repr(at(mach, f.arr, N)))
        s.ob(f'nodes[{tag}]', x.off == Poly() and at(mach, x.arr, N) == u)
        spacing(s, mach, equal, N, tag)
    s.bounds(mach)


def spacing(s, mach, equal, N, tag):
    """equally spaced nodes are integrated as such; others (beyond the tolerance) are not"""
    if not isinstance(equal, tuple):
        raise Unsupported('spacing flag')
    _, ex, v, other = equal
    X = lambda j: atom('el', 'mu', atom('sel', 0, poly(j), sym('m')))

    def grid(a):
        if a[0] == 'el' and a[1] == 'mu' and list(a[2].t) and (q := next(iter(a[2].atoms())))[0] == 'sel':
            return atom('r', 'a') + atom('r', 'h') * q[2]
        if a[0] == 'abs' and a[1].const() is not None:
            return poly(abs(a[1].const()))
        return atom(*a)
    s.ob(f'spacing-verdicts[{tag}]', v is False and other is True)
    p = ex.cond.polys()
    z = [subst(q, {}, grid) for q in p]
    s.ob(f'equal-spacing-recognised[{tag}]', ex.cond.op == '>' and all(
        c <= 0 and all(a[0] == 'abs' for a in m) for q in z for m, c in q.t.items()), repr(z))
    kk = sym(ex.k)

    def mag(q):
        return atom('abs', q if repr(q) <= repr(-q) else -q)
    h = X(1) - X(0)
    d = X(kk + 2) - X(kk + 1) - h
    s.ob(f'unequal-spacing-recognised[{tag}]', ex.T == N - 2 and
         ex.cond.op == '>' and ex.cond.a[0] == mag(d) - Fr(1, 10 ** 8) * mag(h), repr(ex.cond.key()))


C = 'NumericalDoubleInputIntegrator'
P15 = [Unbounded('rule-any-size', quadrature, [f'{NI}:{C}::{k}' for k in (
    C, 'integrate', 'trapz', 'simpson')], note='every number of nodes, by induction'),
       Unbounded('short-any', few, [f'{NI}:{C}::integrate'])]
P16 = [Unbounded('limb-darkening-any-size', limb, [f'{LD}:LimbDarkeningFunctions::{k}' for k in (
    'LimbDarkeningFunctions', 'compute', 'eddington', 'eddington_parallel')],
    note='every number of nodes'),
    Unbounded('disc-integrals-any-size', disc, [f'{DI}:DiscIntegration::{k}' for k in (
        'DiscIntegration', 'adjust_data_to_integration_length', 'compute_ld_function',
        'perform_integration', 'compute_first_disc_integral', 'serial_first', 'parallel_first',
        'compute_second_disc_integral', 'serial_second', 'parallel_second',
        'equally_spaced_mus')],
        note='every number of nodes (two or more of them visible); the integrator and the limb '
             'darkening by their contracts')]
