#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: contract-based deductive verification of the real code, plus a bounded
conformance run that looks for a failing input.  Exit 0, or exit 1 with a VIOLATION line."""
import os, sys, time, json, tempfile, shutil, threading, traceback, re
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT); os.chdir(ROOT)
sys.setrecursionlimit(20000)
T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REPO = os.environ.get('VREPO', '/repo')
from props import PROPS, TRUSTED, RELEVANT
CFG = PROPS[PROP]
HARD = 840
DEADLINE = T0 + (480 if TIER == 'quick' else 560)

def conformance(tmp, depth, seed, cfgs, deadline=None):
    """(evaluations, nontrivial, failures, samples, notes)"""
    from replay import conf
    R = conf.Run(tmp, seed, depth); n = nt = 0; bad = []; samples = []; notes = []
    for name, args in cfgs:
        if deadline and time.time() > deadline: break
        kw = {}
        if name.endswith(':san'): name = name[:-4]; kw['san'] = True
        try:
            a, b, f, s = getattr(conf, name)(R, *args, **kw)
            n += a; nt += b; bad += f; samples += s
        except conf.BuildError as e: notes.append('%s: the driver does not build against this tree: %s' % (name, str(e)[-300:]))
        except Exception as e: notes.append('%s: %r %s' % (name, e, traceback.format_exc()[-500:]))
    return n, nt, bad, samples, notes + sorted(set(R.notes))

def main():
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vc_' + PROP + '_')
    try: return go(tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def go(tmp):
    say = lambda *a: print(*a, flush=True)
    depth = {'quick': CFG.get('depth', 4), 'thorough': CFG.get('depth', 4) * 12}[TIER]
    # concrete side, in the background
    cres = {}
    def cgo():
        cres['r'] = conformance(tmp, depth, SEED, CFG['conf'])
    # Lean side, in the background
    lres = {}
    from vcg import leancheck
    def lgo():
        try: lres['r'] = leancheck.check(CFG['lean'], lres['prep']) if CFG['lean'] else ({}, [])
        except Exception as e: lres['r'] = ({}, [repr(e)])
    bad0 = []; results = {}; missing = []; problems = []; extract = None; more = []
    try:
        from vcg import driver
        P = None
        if CFG['roots']: P, cons, objs, problems = driver.load(REPO)
    except Exception as e:
        extract = '%s: %s' % (type(e).__name__, str(e)[:600])
    if CFG['lean']: lres['prep'] = leancheck.prepare(CFG['lean'])
    th = [threading.Thread(target=cgo)]; th[0].start()
    if CFG['lean']: th.append(threading.Thread(target=lgo))
    for t in th[1:]: t.start()
    def log(r):
        k = sum(o['status'] == 'proved' for o in r['obls'])
        say('  %-46s %4d obligations, %4d proved  %.1f s%s' % (r['contract'], len(r['obls']), k, r.get('wall', 0), '' if not r['error'] else '   [%s: %s]' % (r['kind'], r['error'][:160])))
    if P is not None and extract is None:
        try: results, missing = driver.run(P, cons, objs, CFG['roots'], DEADLINE, log=log, elsewhere=CFG.get('elsewhere', {}))
        except Exception as e: extract = 'the verifier failed: %r' % e; traceback.print_exc()
    if CFG.get('extra'):
        import importlib
        try:
            m = importlib.import_module('extra.' + CFG['extra'])
            more = m.run(REPO, tmp, TIER, DEADLINE)       # list of results of the same shape
        except Exception as e: extract = '%s the %s part failed: %r' % (extract or '', CFG['extra'], e); traceback.print_exc()
        for r in more: log(r); results[r['function'] if r['function'] not in results else 'extra:' + r['function']] = r; bad0 = bad0 + r.get('concrete', [])
    for t in th: t.join()
    n, nt, bad, samples, notes = cres['r']
    proved_lemmas, lmsg = lres.get('r', ({}, []))
    # ---- evaluate
    rel = RELEVANT.get(PROP)
    obls = [(r, o) for r in results.values() for o in r['obls'] if r['kind'] is None and not r.get('bounded') and (rel is None or rel(r, o))]
    bounded = [(r, o) for r in results.values() for o in r['obls'] if r['kind'] is None and r.get('bounded')]
    open_ = [(r, o) for r, o in obls + bounded if o['status'] != 'proved']
    unver = [r for r in results.values() if r['kind'] is not None]
    vac = [r for r in results.values() if r['kind'] is None and r.get('vacuous')]
    used = sorted({l for r in results.values() for l in r['lemmas']} | set(CFG.get('theorems', [])))
    nolean = [l for l in used if l not in proved_lemmas]
    undecided = []
    if extract: undecided.append('extraction: ' + extract)
    for m in missing: undecided.append('no function for contract %s' % m)
    for r in unver: undecided.append('%s: %s (%s)' % (r['contract'], r['error'], r['kind']))
    for r in vac: undecided.append('%s: contradictory assumptions' % r['contract'])
    for l in nolean: undecided.append('lemma %s not proved' % l)
    late = [(r, o) for r, o in open_ if o['status'] == 'not attempted' or 'deadline' in (o.get('detail') or '')]
    if late:      # never given to a solver for lack of time: no answer, not an alarm
        open_ = [x for x in open_ if not any(x[1] is y[1] for y in late)]
        undecided.append('%d obligations not attempted before the deadline' % len(late))
    concrete = bad0 + bad
    if (open_ or undecided) and not concrete:
        say('  %d obligations not discharged, %d items undecided; searching for a failing input' % (len(open_), len(undecided)))
        lim = min(time.time() + 150, T0 + HARD - 150)
        k = 0; d = depth
        while time.time() < lim and not concrete:
            k += 1; d = min(d * 3, depth * 12)
            a, b2, concrete, s2, n2 = conformance(tmp, d, '%s.%d' % (SEED, k), CFG['conf'], lim)
            n += a; nt += b2; notes += n2
            if a == 0: break
    for m in sorted(set(notes)): say('  note:', m)
    for m in lmsg: say('  lean', m)
    for u in undecided: say('  undecided:', u)
    wall = time.time() - T0
    total = len(obls) + len(used); disch = sum(o['status'] == 'proved' for _, o in obls) + len(used) - len(nolean)
    backends = {}
    for r, o in obls:
        if o['status'] == 'proved': backends[o['backend']] = backends.get(o['backend'], 0) + 1
    kinds = {}
    for r, o in obls: kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    cpu = {}
    for r in results.values():
        for k, v in (r.get('cpu') or {}).items(): cpu[k] = round(cpu.get(k, 0) + v, 1)
    full = not undecided and not open_ and total > 0
    violated = bool(concrete) or bool(open_)
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'proof' if not undecided else 'other',
          'coverage': {'obligations': total, 'discharged': disch, 'checker_cmd': 'python3-vt check.py %s %s' % (PROP, TIER), 'trusted_base': TRUSTED(PROP),
                       'functions_under_contract': [{'function': r['contract'], 'obligations': len(r['obls']), 'discharged': sum(o['status'] == 'proved' for o in r['obls']), 'inlined': r['inlined'], 'loop_annotations': r['specs'], 'wall_s': round(r.get('wall', 0), 1), 'verified': r['kind'] is None} for r in results.values() if not r.get('bounded') and not r.get('external')],
                       'contracts_decided_elsewhere': [{'function': r['contract'], 'by': r['external']} for r in results.values() if r.get('external')],
                       'obligations_by_kind': kinds, 'discharged_by_backend': backends, 'solver_cpu_s': cpu,
                       'lemmas': {l: ('Lean 4 + Mathlib (lean/%s.lean)' % proved_lemmas[l] if l in proved_lemmas else 'NOT PROVED') for l in used}, 'lean': lmsg,
                       'trusted_calls': sorted({t for r in results.values() for t in r['trusted']}),
                       'slowest_obligations': [[o['name'], o['time']] for r, o in sorted(obls, key=lambda x: -x[1]['time'])[:5]],
                       'bounded_stand_ins': [{'function': r['contract'], 'checks': len(r['obls']), 'label': 'bounded, not counted as proved'} for r in results.values() if r.get('bounded')],
                       'undecided': undecided, 'contracts_not_attached': [p for p in problems],
                       'bounded_conformance_run': {'label': 'bounded, not counted as proved', 'evaluations': n, 'nontrivial': nt, 'failures': len(concrete), 'samples': samples[:4], 'notes': sorted(set(notes))},
                       'evaluations': n, 'distinct_nontrivial': nt, 'rule': 'seeded random cases run on the real code and compared with an independent reference; bounded',
                       'explanation': 'all obligations discharged' if full else ('some functions could not be verified; for these only the bounded conformance run applies' if undecided else 'obligations failed')},
          'assumptions': TRUSTED(PROP), 'wall_s': round(wall, 1), 'violations': int(violated)}
    with open(os.path.join(ROOT, 'evidence', PROP + '.json'), 'w') as h: json.dump(ev, h, indent=1)
    say('%s: %d/%d obligations discharged (%d functions, %d lemmas), %d concrete cases (%d failing), %.0f s' % (PROP, disch, total, len(results), len(used), n, len(concrete), wall))
    if not violated: return 0
    rp = os.path.join('evidence', PROP + '.replay.txt')
    with open(os.path.join(ROOT, rp), 'w') as h:
        h.write('property %s violated on %s\n\n' % (PROP, REPO))
        if concrete:
            h.write('Failing inputs (run on the real code by replay/; reproduce with: VERIF_SEED=%s python3-vt check.py %s %s):\n' % (SEED, PROP, TIER))
            for f in sorted(concrete, key=lambda f: len(f.repro))[:20]: h.write('  %s\n      %s\n' % (f.what, f.repro))
        for r, o in open_[:40]:
            h.write('\nfailed obligation %s\n  kind %s, in %s line %s, while verifying the contract of %s\n  goal: %s\n  solvers: %s %s\n' % (o['name'], o['kind'], o['func'], o['line'], r['contract'], o['goal'], o['status'], o['detail']))
    if concrete:
        f = min(concrete, key=lambda f: len(f.repro)); say('  failing input: %s   [%s]' % (f.repro[:600], f.what[:300]))
    for r, o in open_[:8]: say('  failed obligation: %s  (%s:%s)' % (o['name'], o['func'], o['line']))
    say('VIOLATION property=%s replay=%s%s' % (PROP, rp, '' if concrete else ' no-failing-input-found'))
    return 1

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
