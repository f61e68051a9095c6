"""Selection rules, resonance classification, pre-check verdicts."""
from dv import loader
from dv.runner import Contract
from dv.term import Sym, SymC, iff
from . import _freq as fq, _pre

GEN = 'aesolver.pre_checks.generic.generic_quadratic_checks'


def same(c, name, a, b):
    if c.sym:
        c.prove(name, Sym(iff(c._b(a), c._b(b))))
    else:
        c.prove(name, bool(a) == bool(b))


def _modes(c, n):
    ls, ms = [], []
    for i in range(n):
        l, m = c.int(f'l{i}', 0, 6 if not c.sym else None), c.int(f'm{i}')
        ls.append(l)
        ms.append(m)
    return ls, ms


def _ab(c, x):
    if c.sym:
        from dv.npshim import scalar
        return scalar('absolute', x)
    return abs(x)


def rules(c):
    """azimuthal and meridional selection rules, every triad of the list on its own"""
    mod = loader.repo(GEN)
    nt = c.choice('triads', [[(1, 2, 3)], [(2, 1, 3)], [(1, 2, 3), (4, 5, 6)],
                             [(1, 2, 3), (1, 4, 4)], None])
    conj = c.choice('conj', [None, (True, False, False), (False, True, True), (False, False, False),
                             (False, False, True), 'bool'])
    al = c.choice('all', [True, False])
    n = 3 if nt is None else max(max(t) for t in nt)
    ls, ms = _modes(c, n)
    if not c.sym and c.rng.random() < .6 and n >= 3:
        ms[0] = ms[1] + ms[2]
    dicts = [{'l': l, 'm': m} for l, m in zip(ls, ms)]
    trs = [(1, 2, 3)] if nt is None else nt
    if conj is None:
        arg, eff = None, [(True, False, False)] * len(trs)
    elif conj == 'bool':
        arg, eff = [True], [(True, False, False)] * len(trs)
    else:
        arg, eff = [conj] * len(trs), [conj] * len(trs)
    o = mod.PreCheckQuadratic(dicts, triads=nt, conjugation=arg, all_fulfilled=al)
    got = o.generic_check()
    want = []
    for t, cj in zip(trs, eff):
        L = [ls[i - 1] for i in t]
        M = [ms[i - 1] for i in t]
        az = sum(-m if f else m for m, f in zip(M, cj)) == 0
        k = [l - _ab(c, m) for l, m in zip(L, M)]
        ev = (k[0] + k[1] + k[2]) % 2 == 0
        want.append((az & ev) if c.sym else (az and ev))
    for i, t in enumerate(trs):
        for j, mode in enumerate(t):
            c.eq(f'k{i}{j}', o.k_list[i][j], ls[mode - 1] - _ab(c, ms[mode - 1]))
            c.eq(f'm{i}{j}', o.m_list[i][j], ms[mode - 1])
            c.eq(f'l{i}{j}', o.l_list[i][j], ls[mode - 1])
    if al:
        w = want[0]
        for x in want[1:]:
            w = (w & x) if c.sym else (w and x)
        same(c, 'all-rules', got, w)
    else:
        c.prove('one-verdict-per-triad', len(got) == len(trs))
        for i, (a, b) in enumerate(zip(got, want)):
            same(c, f'rule{i}', a, b)


def classify(c):
    """parametric / direct / driven classification from the driving rates"""
    mod = loader.repo(_pre.PRE)
    g = [c.real(f'g{i}') for i in range(3)]
    d = {'linear driving rates': c.arr(g)}
    par, dr, dv = mod.check_parametric(d), mod.check_direct(d), mod.check_driven(d)
    P = [x > 0 for x in g]
    N = [x < 0 for x in g]
    if c.sym:
        same(c, 'parametric', par, P[0] & N[1] & N[2])
        same(c, 'direct', dr, N[0] & P[1] & P[2])
        same(c, 'driven', dv, P[0] & P[1] & P[2])
        # mutually exclusive
        b = [Sym(c._b(x)) for x in (par, dr, dv)]
        c.prove('exclusive', ~((b[0] & b[1]) | (b[0] & b[2]) | (b[1] & b[2])))
    else:
        same(c, 'parametric', par, P[0] and N[1] and N[2])
        same(c, 'direct', dr, N[0] and P[1] and P[2])
        same(c, 'driven', dv, all(P))


def methods(c):
    """the pre-check object classifies from the triad's own driving rates and combines the rules"""
    w = [c.real(f'w{i}', pos=True) for i in range(3)]
    g = [c.real(f'g{i}', nonzero=True) for i in range(3)]
    c.assume(g[0] + g[1] + g[2] != 0)
    ls, ms = _modes(c, 3)
    from dv.engine import Skip
    if not c.sym:
        if c.rng.random() < .7:
            ms[0] = ms[1] + ms[2]
        if c.rng.random() < .7:
            g = [abs(g[0]), -abs(g[1]), -abs(g[2])]
        unit = 2. ** -int(c.rng.random() * 50)      # stellar rates are far below 1 rad/s
        g, w = [x * unit for x in g], [x * unit for x in w]
    dicts = _pre.dicts_of(c, w, g, list(zip(ls, ms)))
    fh = _pre.fh_of(dicts, c, g)
    o = loader.repo(_pre.PRE).PreCheckThreeModesQuadratic(dicts, fh, triads=[(1, 2, 3)])
    P = [x > 0 for x in g]
    N = [x < 0 for x in g]
    par, dr, dv = o._check_parametric(), o._check_direct(), o._check_driven()
    allp = (P[0] & P[1] & P[2]) if c.sym else all(P)
    parw = (P[0] & N[1] & N[2]) if c.sym else P[0] and N[1] and N[2]
    dirw = (N[0] & P[1] & P[2]) if c.sym else N[0] and P[1] and P[2]
    same(c, 'is-parametric', par, parw)
    same(c, 'is-direct', dr, dirw)
    same(c, 'is-driven', dv, allp)
    v = o.check()
    az = ms[0] == ms[1] + ms[2]
    k = [l - _ab(c, m) for l, m in zip(ls, ms)]
    ev = (k[0] + k[1] + k[2]) % 2 == 0
    rules_ = (az & ev) if c.sym else (az and ev)
    lin = o._check_linearly_stable_fp()
    same(c, 'verdict=rules-and-stability', v, (Sym(c._b(rules_)) & Sym(c._b(lin))) if c.sym
         else (rules_ and lin))
    if c.sym:
        c.prove('direct-never-passes', Sym(c._b(~Sym(c._b(dirw)) | ~Sym(c._b(v)))))
    else:
        c.prove('direct-never-passes', not (dirw and v))


CONTRACTS = [
    Contract('selection-rules', rules, modules=[GEN], functions=[
        f'{_pre.GFILE}:PreCheckQuadratic.__init__',
        f'{_pre.GFILE}:PreCheckQuadratic._azimuthal_selection_rule',
        f'{_pre.GFILE}:PreCheckQuadratic._meridional_selection_rule',
        f'{_pre.GFILE}:PreCheckQuadratic._compute_meridional_orders',
        f'{_pre.GFILE}:PreCheckQuadratic.generic_check']),
    Contract('classification', classify, modules=[_pre.PRE], functions=[
        f'{_pre.PFILE}:check_parametric', f'{_pre.PFILE}:check_direct',
        f'{_pre.PFILE}:check_driven']),
    Contract('pre-check-verdict', methods, modules=[_pre.PRE, GEN] + fq.mods(), functions=[
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic.check',
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic._check_parametric',
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic._check_direct',
        f'{_pre.PFILE}:PreCheckThreeModesQuadratic._check_driven']),
]
