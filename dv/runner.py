"""Decides one property: runs its contracts, writes evidence and replay files."""
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from . import backends as bk
from . import engine as en
from . import loader
from . import term as tm
from .term import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


CRASH = (ZeroDivisionError, IndexError, ValueError, NameError, OverflowError,
         FloatingPointError, AssertionError, SystemExit)


class Contract:
    def __init__(self, name, spec, functions=(), modules=(), load=None, budget=40, rand=60,
                 builtins=('isinstance', 'max', 'min'), extra=None, sym=True, tol=1e-8,
                 prove_ms=6000, max_paths=4000, note=None, known=None, replay_search=400,
                 crash=None, strict=True):
        self.name, self.spec = name, spec
        self.functions = list(functions)
        self.modules = list(modules)
        self.load = load
        self.budget, self.rand = budget, rand
        self.builtins, self.extra = builtins, extra
        self.sym, self.tol = sym, tol
        self.prove_ms, self.max_paths = prove_ms, max_paths
        self.note = note
        self.replay_search = replay_search
        self.strict = strict
        self.crash = crash


def _concrete(ct, values, tag):
    """one run of the contract on the real code; 'values' fixes inputs, all other draws come from
    the generator seeded with 'tag', so a run is repeated by repeating both"""
    c = en.ConcCtx('conc' if values is not None else 'rand', values, random.Random(tag), ct.tol)
    c.tag, c.given = tag, None if values is None else dict(values)
    np.random.seed(2 ** 31 - 1 if tag == 1 else abs(zlib.crc32(str(tag).encode())))
    try:
        ct.spec(c)
        return 'pass', c, None
    except en.Skip:
        return 'skip', c, None
    except en.Fail as f:
        return 'fail', c, f
    except (tm.PathAbort,):
        return 'skip', c, None
    except Unsupported as e:
        return 'unsup', c, e
    except (Exception, SystemExit) as e:      # the real code raised where the contract allows no exception
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(fr.filename.startswith(loader.REPO + '/') for fr in tb)
        # a stub that is too poor for the code (missing attribute, other signature) is a limit
        # of the harness, not a violation
        kinds = CRASH if ct.crash is None else Exception if ct.crash == 'all' else ct.crash
        inrepo = inrepo and isinstance(e, kinds)
        f = en.Fail('no-exception' if inrepo else 'harness',
                    f'{type(e).__name__}: {e} at ' + (f'{tb[-1].filename}:{tb[-1].lineno}'))
        f.harness = not inrepo
        f.tb = ''.join(traceback.format_exception(e)[-6:])
        return 'fail', c, f


def run_contract(ct, seed, tier):
    """-> engine.Result"""
    res = en.Result(ct.name)
    t0 = time.time()
    try:
        if ct.load:
            ct.load()
        mods = [loader.repo(m) if isinstance(m, str) else m for m in ct.modules]
        # helpers the functions under contract may call live in other modules of /repo
        for m in loader.mods_of(''):
            if m not in mods:
                mods.append(m)
    except Exception as e:
        res.undecided.append(f'cannot load code under contract: {type(e).__name__}: {e}')
        not_accepted(res, ct)
        res.wall = time.time() - t0
        return res
    np.random.seed(seed % (2 ** 31))
    obls = []
    sym_exc = None
    if ct.sym:
        ex = en.Explorer(budget_s=ct.budget * (4 if tier == 'thorough' else 1),
                         max_paths=ct.max_paths)
        try:
            with en.shimmed(mods, ct.builtins, ct.extra):
                obls = ex.run(ct.spec)
            res.paths = ex.paths
            res.defined = ex.defined
            if not ex.completed:
                res.undecided.append('vacuous: no feasible path')
            if not obls:
                res.undecided.append('vacuous: no obligation generated')
        except Unsupported as e:
            res.undecided.append(f'construct outside the verifier: {e}')
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
        except (Exception, SystemExit) as e:
            sym_exc = e
            tbs = traceback.extract_tb(e.__traceback__)
            loc = next((f'{f.filename}:{f.lineno}' for f in reversed(tbs)
                        if f.filename.startswith(loader.REPO)), f'{tbs[-1].filename}:{tbs[-1].lineno}')
            res.undecided.append(f'symbolic execution stopped: {type(e).__name__}: {e} ({loc})')
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
    # ---- bounded conformance run on the real code
    n = ct.rand * (20 if tier == 'thorough' else 1)
    tlim = time.time() + (120 if tier == 'thorough' else 12)
    k = 0
    seen_viol = {}
    harness_err = None
    distinct = set()
    while k < n and time.time() < tlim:
        s, c, f = _concrete(ct, None, f'{seed}/{ct.name}/{k}')
        k += 1
        if s == 'skip':
            res.rand_skips += 1
        elif s == 'pass':
            res.rand_runs += 1
            res.rand_checks += c.n_checks
            if c.n_checks:
                distinct.add((repr(sorted(map(str, c.inputs.items()))), c.rng.random()))
        elif s == 'unsup':
            harness_err = harness_err or str(f)
            n = min(n, k + 40)          # other inputs may still show a violation
        elif s == 'fail':
            if getattr(f, 'harness', False):
                harness_err = harness_err or f.detail + '\n' + f.tb
                n = min(n, k + 40)
                continue
            seen_viol.setdefault(f.name.split('[')[0], {
                'obligation': f.name, 'failed_check': f.name, 'detail': f.detail,
                'how': 'runtime check of the contract on the real code (bounded)',
                'inputs': dict(c.inputs), 'confirmed': True, 'run': [c.tag, c.given]})
            if len(seen_viol) > 3:
                break
    FOUND.update(seen_viol)
    # ---- discharge
    deadline = time.time() + ct.budget * (4 if tier == 'thorough' else 1) * 2
    if seen_viol:       # decided already: the obligations are only wanted for the report
        deadline = min(deadline, time.time() + 20)
    merged = {}
    failed = []
    for o in obls:
        key = (o.goal.id, tuple(sorted(t.id for t in o.pc)))
        if key in merged:
            continue
        t_ob = time.time()
        if time.time() > deadline:
            merged[key] = ('unknown', 'time budget', None)
        elif len(failed) >= 60:
            merged[key] = ('unknown', 'budget of 60 open obligations reached', None)
        else:
            try:
                merged[key] = bk.prove(o.pc, o.goal,
                                       ct.prove_ms * (4 if tier == 'thorough' else 1) if
                                       not seen_viol else min(ct.prove_ms, 2000),
                                       use_cvc5=not seen_viol)
            except (ArithmeticError, ValueError, RecursionError) as e:
                merged[key] = ('unknown', f'back end failed: {type(e).__name__}', None)
        st, b, m = merged[key]
        if os.environ.get('DV_SLOW') and time.time() - t_ob > 1:
            print(f'    {time.time() - t_ob:.1f}s {o.name} {st} {b} {tm.show(o.goal, 4)[:150]}')
        res.total += 1
        res.backends[b] = res.backends.get(b, 0) + 1
        if st == 'proved':
            res.proved += 1
            if len(res.samples) < 3 and b != 'trivial':
                res.samples.append(f'{o.name}: {tm.show(o.goal, 5)[:200]} [{b}]')
        else:
            failed.append((o, st, b, m))
            res.obls.append({'obligation': o.name, 'status': st, 'backend': b,
                             'goal': tm.show(o.goal, 6)[:600]})
    # ---- canary: a false goal must not be provable on any (sampled) path
    if obls:
        seen = set()
        bad = 0
        n = 0
        for o in obls:
            k = tuple(t.id for t in o.pc)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if n > 12:
                break
            r, _ = bk.z3_sat(list(o.pc), 1500)
            if r == 'unsat':
                bad += 1
        eqs = [o for o in obls if o.goal.op == 'eq'][:5]
        for o in eqs:
            if bk.pit_equal(o.goal.args[0], tm.add(o.goal.args[1], tm.const(1))):
                bad += 1000
        res.canary_ok = bad < n
        if not res.canary_ok:
            res.undecided.append('vacuity guard: a false goal was provable')
    # ---- replay of failed obligations on the real code
    viol = {}
    rlim = time.time() + (300 if tier == 'thorough' else 20 if seen_viol else 60)
    for o, st, b, m in failed:
        if len(viol) >= 4:
            break
        if 'budget' in b or (viol or seen_viol) and time.time() > rlim:
            res.undecided.append(f'obligation {o.name}: {st} ({b})')
            continue
        got = None
        if m:
            vals = {k: m[k] for k in m if m[k] is not None}
            for n, d in o.inputs.items():
                if d[0] == 'C':
                    vals[n] = d[1]
            s, c, f = _concrete(ct, vals, 1)
            if s == 'fail' and not getattr(f, 'harness', False):
                got = (f, c, 'solver counterexample replayed on the real code')
        if got is None:
            fixed = {n: d[1] for n, d in o.inputs.items() if d[0] == 'C'}
            tlim = min(time.time() + 6, rlim)
            for k in range(ct.replay_search):
                if time.time() > tlim:
                    break
                s, c, f = _concrete(ct, dict(fixed), f'{seed}/{o.name}/{k}')
                if s == 'fail' and not getattr(f, 'harness', False):
                    got = (f, c, 'random search on the real code after the obligation failed')
                    break
        base = o.name.split('[')[0]
        if got:
            f, c, how = got
            viol.setdefault(f.name.split('[')[0], {
                'obligation': o.name, 'failed_check': f.name, 'detail': f.detail, 'how': how,
                'inputs': {k: v for k, v in c.inputs.items()}, 'confirmed': True,
                'run': [c.tag, c.given],
                'goal': tm.show(o.goal, 6)[:800], 'solver': b})
        elif st == 'refuted' and ct.strict:
            viol.setdefault('~' + base, {
                'obligation': o.name, 'failed_check': o.name, 'confirmed': False,
                'detail': 'obligation refuted by the verifier; no failing input found',
                'how': 'verifier refutation', 'inputs': {k: str(v) for k, v in (m or {}).items()},
                'goal': tm.show(o.goal, 6)[:800], 'solver': b,
                'path_condition': [tm.show(t, 4)[:200] for t in o.pc][:30]})
        else:
            res.undecided.append(f'obligation {o.name}: {st} ({b})')
    if any(v['confirmed'] for v in viol.values()):
        viol = {k: v for k, v in viol.items() if v['confirmed']}
    for name, v in seen_viol.items():
        viol.setdefault(name, v)
    res.rand_distinct = len(distinct)
    if harness_err:
        res.undecided.append('concrete run: harness error: ' + harness_err)
        if os.environ.get('DV_DEBUG'):
            print(harness_err)
    if ct.rand and not res.rand_runs and not viol and not harness_err:
        res.undecided.append('no concrete witness of the precondition found')
    if sym_exc is not None and not viol:
        pass
    if viol and any(v['confirmed'] for v in viol.values()):
        viol = {k: v for k, v in viol.items() if v['confirmed']}
    res.violations = list(viol.values())
    not_accepted(res, ct)
    res.wall = time.time() - t0
    return res


def not_accepted(res, ct):
    """The verifier did not accept every obligation and nothing concrete was found: that is
    reported (no-failing-input-found).  Exhausted time budgets are only recorded."""
    if res.violations:
        return
    if not getattr(ct, 'strict', True) and (res.proved or res.rand_runs):
        return          # decided by what could be examined; the rest is listed as undecided
    hard = [u for u in res.undecided if 'budget' not in u]
    if hard:
        res.violations.append({
            'obligation': hard[0][:200], 'failed_check': 'verifier-acceptance',
            'confirmed': False, 'inputs': {}, 'how': 'obligation not discharged',
            'detail': 'not accepted by the verifier: ' + hard[0], 'verifier_output': hard[:20],
            'open_obligations': res.obls[:20]})


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def known_findings(pid):
    p = f'{VERIF}/known_findings.json'
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get('findings', []) if f['property'] == pid]


class OutOfTime(BaseException):
    pass


FOUND = {}      # confirmed violations of the contract being decided, kept if its time runs out


def _alarm(*_):
    raise OutOfTime('time budget of the check exhausted')


def main(pid, tier, seed):
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    loader.setup()
    import importlib
    mod = importlib.import_module(f'props.{pid}')
    only = os.environ.get('DV_ONLY')
    results = []
    for ct in mod.CONTRACTS:
        if only and only not in ct.name:
            continue
        try:
            if tier != 'thorough':
                # one contract may use half of what is left while others wait
                left = t0 + 780 - time.time()
                signal.alarm(max(8, int(left if ct is mod.CONTRACTS[-1] else left / 2)))
            FOUND.clear()
            if hasattr(ct, 'run'):
                r = ct.run(seed, tier)
            else:
                r = run_contract(ct, seed, tier)
            signal.alarm(0)
        except BaseException as e:
            signal.alarm(0)
            if isinstance(e, KeyboardInterrupt):
                raise
            r = en.Result(ct.name)
            r.undecided.append(f'checker failure: {type(e).__name__}: {e}')
            r.violations = list(FOUND.values())
            not_accepted(r, ct)
            if os.environ.get('DV_DEBUG'):
                traceback.print_exc()
        results.append((ct, r))
        if os.environ.get('DV_VERBOSE'):
            print(f'  {ct.name}: proved {r.proved}/{r.total} paths {r.paths} rand {r.rand_runs}'
                  f' (skip {r.rand_skips}) viol {len(r.violations)} undecided {r.undecided[:3]} '
                  f'{r.backends} {r.wall:.1f}s')
    kf = known_findings(pid)
    viols, known_hit = [], set()
    for ct, r in results:
        for v in r.violations:
            v['contract'] = ct.name
            hit = None
            for f in kf:
                if f['contract'] == ct.name and f.get('check') in (None, v['failed_check']) and \
                        f.get('detail_contains', '') in v['detail']:
                    hit = f
            if hit:
                known_hit.add(hit['id'])
            else:
                viols.append(v)
    for f in kf:
        print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    total = sum(r.total for _, r in results)
    proved = sum(r.proved for _, r in results)
    undec = [f'{ct.name}: {u}' for ct, r in results for u in r.undecided]
    back = {}
    for _, r in results:
        for b, n in r.backends.items():
            back[b] = back.get(b, 0) + n
    level = getattr(mod, 'LEVEL', 'proof')
    funcs = sorted({f for ct, _ in results for f in ct.functions})
    replay_paths = []
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
    for i, v in enumerate(viols):
        path = f'{VERIF}/evidence/replay/{pid}_{i}.json'
        json.dump(jsonable({'property': pid, 'seed': seed, 'tier': tier,
                            'replay_cmd': f'python3 /verif/check.py {pid} --replay {path}', **v}),
                  open(path, 'w'), indent=1)
        replay_paths.append(path)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': total, 'discharged': proved,
            'checker_cmd': f'VERIF_SEED={seed} VERIF_TIER={tier} python3 /verif/check.py {pid}',
            'trusted_base': TRUSTED + list(getattr(mod, 'TRUSTED', [])),
            'functions_under_contract': funcs,
            'back_ends': back,
            'solver_seconds': round(bk.STATS['time'], 2),
            'paths': sum(r.paths for _, r in results),
            'definedness_assumptions': sum(r.defined for _, r in results),
            'undecided': undec[:40],
            'evaluations': sum(r.rand_runs for _, r in results),
            'distinct_nontrivial': sum(getattr(r, 'rand_distinct', 0) for _, r in results),
            'rule': 'bounded part: the same contracts evaluated on the real code with random '
                    'inputs drawn from the precondition; rejected samples not counted; a run is '
                    'non-trivial if it evaluated at least one clause, and distinct by its inputs '
                    'and draws',
            'samples': [s for _, r in results for s in r.samples][:12] or ['none'],
            'contracts': [{'name': ct.name, 'obligations': r.total, 'discharged': r.proved,
                           'paths': r.paths, 'back_ends': r.backends,
                           'vacuity_guard': r.canary_ok,
                           'bounded_runs': r.rand_runs, 'bounded_checks': r.rand_checks,
                           'bounded_skipped': r.rand_skips,
                           'verdict': ('violated' if r.violations else 'proved' if r.total and
                                       r.proved == r.total and not r.undecided else
                                       'bounded only' if not r.total else 'undecided'),
                           'note': getattr(ct, 'note', None) or '',
                           'wall_s': round(r.wall, 2)} for ct, r in results],
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': ASSUME + list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(viols),
    }
    json.dump(jsonable(ev), open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid}: {proved}/{total} obligations discharged, '
          f'{ev["coverage"]["evaluations"]} bounded runs, {len(undec)} undecided, '
          f'{len(viols)} violations, {ev["wall_s"]}s')
    for u in undec[:10]:
        print('  undecided:', u[:300])
    if viols:
        # confirmed first
        order = sorted(range(len(viols)), key=lambda i: not viols[i]['confirmed'])
        anyc = any(v['confirmed'] for v in viols)
        for i in order:
            v = viols[i]
            if anyc and not v['confirmed']:
                continue
            print(f'  [{v["contract"]}] {v["failed_check"]}: {v["detail"][:300]}')
            tail = '' if v['confirmed'] else ' no-failing-input-found'
            print(f'VIOLATION property={pid} replay={replay_paths[i]}{tail}')
        return 1
    return 0


TRUSTED = [
    'the dv VC generator (/verif/dv: term construction, numpy/builtins interpretation, path '
    'exploration)', 'CPython executing the real functions with symbolic operands',
    'Schwartz-Zippel identity testing over F_(2^61-1), 8 trials per identity', 'z3', 'cvc5']
ASSUME = [
    'floating-point arithmetic treated as exact real arithmetic',
    'divisors, radicands and logarithm arguments are assumed to be in their domain unless the '
    'contract proves it',
    'numpy ufuncs and reductions have their documented elementwise meaning']
