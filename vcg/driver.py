"""Verifies functions against their contracts in worker processes."""
import os, sys, time, json, importlib, multiprocessing, traceback, pickle, tempfile, shutil, signal
from . import cxx, exec as X, solve, lemma as LM
from .term import *
from .exec import Unsupported, fkey, Ex
from .loops import Detached

MODULES = ['poisson', 'common', 'fftw', 'ecdf2', 'ecdf1_new', 'mns', 'clients', 'mc', 'io', 'cli']
def load(repo):
    P = cxx.Program(repo)
    mods = [importlib.import_module('specs.' + m) for m in MODULES]
    cons = {}; objs = []; problems = []
    for m in mods:
        for C in m.CONTRACTS:
            try:
                c = C(); fs = c.find(P)
            except Unsupported as e: problems.append((C.name, repr(e))); continue
            except Exception as e: problems.append((C.name, repr(e))); continue
            if not fs: problems.append((C.name, 'no such function'))
            for f in fs: cons[fkey(f)] = c; objs.append((c, f))
    return P, cons, objs, problems

def short_formula(f, n=400):
    try: return short(f, n)
    except Exception: return '?'
def value_claim(g):
    """is the goal (under its guards and quantifiers) an equality between real numbers?"""
    while True:
        if z3.is_quantifier(g): g = g.body()
        elif z3.is_implies(g): g = g.arg(1)
        elif z3.is_or(g) and g.num_args(): g = g.arg(g.num_args() - 1)
        else: break
    if z3.is_and(g): return all(value_claim(c) for c in g.children())
    return z3.is_eq(g) and g.arg(0).sort() == R
def is_false_provable(o, t=3):
    """do the hypotheses of this obligation contradict each other?"""
    s = z3.Solver(); s.set('timeout', t * 1000)
    for h in o.hyps:
        if not has_quant(h): s.add(h)
    return s.check() == z3.unsat

def verify_one(P, cons, c, f, deadline, workers, quick=10, slow=45):
    """runs in a child process"""
    t0 = time.time()
    res = {'contract': c.name, 'function': fkey(f), 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': None, 'kind': None, 'trusted': [], 'paths': 0}
    LM.USED.clear()
    ex = Ex(P, cons)
    try:
        r = c.verify(ex, f)
        res['paths'] = len(r)
    except Detached as e: res['kind'] = 'detached'; res['error'] = str(e)
    except Unsupported as e: res['kind'] = 'unsupported'; res['error'] = str(e)
    except RecursionError as e: res['kind'] = 'unsupported'; res['error'] = 'recursion limit'
    except Exception as e: res['kind'] = 'unsupported'; res['error'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip(); res['trace'] = traceback.format_exc()[-1500:]
    res['uses'] = sorted(ex.used_contracts); res['inlined'] = sorted(ex.inlined); res['specs'] = sorted(ex.specs_used); res['trusted'] = sorted(ex.trusted)
    res['gen_s'] = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='vcg')
    try:
        if res['kind'] is None:
            pool = solve.Pool(tmp=tmp, workers=workers, timeout=quick); pool.deadline = deadline
            pool.discharge(ex.obls)
            left = [o for o in ex.obls if o.status != 'proved']
            if left and time.time() < deadline:
                pool.timeout = slow; pool.discharge([o for o in left if o.status != 'refuted'])
            res['cpu'] = dict(pool.cpu)
            # vacuity: some path to a postcondition must be satisfiable as far as the solver can tell
            posts = [o for o in ex.obls if o.kind == 'postcondition'] or ex.obls
            seen = set(); sat = False
            for o in posts:
                k = tuple(h.get_id() for h in o.hyps)
                if k in seen: continue
                seen.add(k)
                if not is_false_provable(o): sat = True; break
            res['vacuous'] = (bool(ex.obls) and not sat) or not res['paths']
    except Exception as e: res['kind'] = 'unsupported'; res['error'] = 'solver: ' + repr(e); res['trace'] = traceback.format_exc()[-1500:]
    finally: shutil.rmtree(tmp, ignore_errors=True)
    for o in ex.obls: res['obls'].append({'name': o.name, 'kind': o.kind, 'func': o.func, 'line': o.line, 'status': o.status or 'not attempted', 'value': value_claim(o.goal), 'backend': o.backend, 'time': round(o.time, 3),
                                          'detail': o.detail if o.status != 'proved' else '', 'goal': short_formula(o.goal) if o.status != 'proved' else ''})
    unused = [l.name for l in getattr(c, 'loops', []) if l.name not in ex.specs_used]
    if len(unused) < len(getattr(c, 'loops', [])) and getattr(c, 'loops_any', False): unused = []
    if res['kind'] is None and unused and any(o.status != 'proved' for o in ex.obls):
        res['kind'] = 'detached'; res['error'] = 'no loop of the function fits the annotation "%s"' % unused[0]
    if res['kind'] is None and ex.specs_loose and any(o.status != 'proved' for o in ex.obls):
        res['kind'] = 'detached'; res['error'] = 'annotation "%s" was tried on a loop in a helper and does not hold there' % sorted(ex.specs_loose)[0]
    res['lemmas'] = sorted(set(LM.USED) | set(ex.lemmas_used & set(LM.REG)))
    res['wall'] = time.time() - t0
    return res

def child(P, cons, c, f, deadline, workers, out):
    os.setpgid(0, 0)
    try:
        if getattr(c, 'external', None): r = {'contract': c.name, 'function': fkey(f), 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': None, 'kind': None, 'trusted': [], 'external': c.external, 'wall': 0.0}
        else: r = verify_one(P, cons, c, f, deadline, workers)
    except BaseException as e: r = {'contract': c.name, 'function': fkey(f), 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': repr(e), 'kind': 'unsupported', 'trusted': []}
    with open(out, 'wb') as h: pickle.dump(r, h)
    os._exit(0)

def run(P, cons, objs, roots, deadline, parallel=3, workers=4, log=None, elsewhere={}):
    """verify the roots and every contract they rely on"""
    byname = {}
    for c, f in objs: byname.setdefault(c.name, []).append((c, f))
    bykey = {fkey(f): (c, f) for c, f in objs}
    todo = []; done = {}; seen = set(); missing = []
    for r in roots:
        if r not in byname and not any(c.name == r and c.absent_ok(P) for c in cons): missing.append(r)
        for c, f in byname.get(r, []):
            if fkey(f) not in seen: seen.add(fkey(f)); todo.append((c, f))
    # guess the closure early (contracts named as dependencies) to use the cores
    active = {}
    tmp = tempfile.mkdtemp(prefix='vcgrun'); n = 0
    ctx = multiprocessing.get_context('fork')
    try:
        while todo or active:
            while todo and len(active) < parallel:
                todo.sort(key=lambda x: -getattr(x[0], 'cost', 1))
                c, f = todo.pop(0); n += 1
                out = os.path.join(tmp, '%d.pkl' % n)
                p = ctx.Process(target=child, args=(P, cons, c, f, deadline, workers, out)); p.start()
                active[p.pid] = (p, c, f, out)
            time.sleep(0.05)
            for pid in list(active):
                p, c, f, out = active[pid]
                over = time.time() > deadline + 45
                if p.is_alive() and not over: continue
                if p.is_alive():
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError: p.kill()
                p.join(); del active[pid]
                try:
                    with open(out, 'rb') as h: r = pickle.load(h)
                except Exception: r = {'contract': c.name, 'function': fkey(f), 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': 'the verifier ran out of time or memory', 'kind': 'unsupported', 'trusted': []}
                done[fkey(f)] = r
                if log: log(r)
                for k in r['uses']:
                    if k in bykey and k not in seen:
                        seen.add(k); c2, f2 = bykey[k]
                        if c2.name in elsewhere: done[k] = {'contract': c2.name, 'function': k, 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': None, 'kind': None, 'trusted': [], 'external': elsewhere[c2.name], 'wall': 0.0}
                        else: todo.append(bykey[k])
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return done, missing
