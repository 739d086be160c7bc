"""C12: contracts of src/tinymt64.{h,cc} enforced by CBMC (goto-instrument --dfcc) on the functions compiled from the
current sources.  Every word and every double is bit-precise; nothing is treated as a mathematical number."""
import os, json, time, signal, subprocess, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SIGS = {'next_state': ('void', 'tinymt64_t *r', 'r'), 'temper': ('uint64_t', 'tinymt64_t *r', 'r'), 'generate_uint64': ('uint64_t', 'tinymt64_t *r', 'r'),
        'generate_double': ('double', 'tinymt64_t *r', 'r'), 'generate_double01': ('double', 'tinymt64_t *r', 'r'), 'generate_double12': ('double', 'tinymt64_t *r', 'r'),
        'generate_doubleOC': ('double', 'tinymt64_t *r', 'r'), 'generate_doubleOO': ('double', 'tinymt64_t *r', 'r'),
        'init': ('void', 'tinymt64_t *r, uint64_t seed', 'r, seed'), 'init_by_array': ('void', 'tinymt64_t *r, const uint64_t *key, int n', 'r, key, n')}
UNWIND = '26'

def sh(cmd, cwd, t):
    try: p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 'timeout', ''

def prepare(repo, d, name, keys, tag):
    """the goto program of one contract check, or an error text.  First the sources are read as C (they are C with a
    .cc name); if that fails as C++, with a one-line extern "C" wrapper around each function"""
    src = os.path.join(repo, 'src'); defs = ['-DKEYS=%d' % keys] if keys is not None else []
    err = ''
    for lang in ('c', 'c++'):
        o = os.path.join(d, '%s.%s.goto' % (tag, lang)); con = os.path.join(HERE, 'tinymt_contracts.h')
        if lang == 'c':
            with open(os.path.join(src, 'tinymt64.cc')) as h: text = h.read()
            with open(os.path.join(d, 'tinymt64_as_c.c'), 'w') as h: h.write(text)
            with open(os.path.join(d, tag + '.c'), 'w') as h: h.write('#define F(n) tinymt64_##n\n#include "tinymt64_as_c.c"\n#include "%s"\n' % con)
            r, out = sh(['goto-cc', '--function', 'h_' + name, '-I' + src, '-I' + d] + defs + ['-o', o, tag + '.c'], d, 60)
            fn = 'tinymt64_' + name
        else:
            with open(os.path.join(d, tag + '_r.cc'), 'w') as h:
                h.write('#include "%s"\nextern "C" {\n%s}\n' % (os.path.join(src, 'tinymt64.cc'), ''.join('%s w_%s(%s) { %stinymt64_%s(%s); }\n' % (t, n, p, '' if t == 'void' else 'return ', n, a) for n, (t, p, a) in SIGS.items())))
            with open(os.path.join(d, tag + '_s.c'), 'w') as h:
                h.write('#define F(n) w_##n\n#include <stdint.h>\ntypedef struct TINYMT64_T { uint64_t status[2]; uint32_t mat1; uint32_t mat2; uint64_t tmat; } tinymt64_t;\n%s#include "%s"\n' % (''.join('%s w_%s(%s);\n' % (t, n, p) for n, (t, p, a) in SIGS.items()), con))
            r, out = sh(['goto-cc', '-c', '-I' + src, '-o', tag + '_r.o', tag + '_r.cc'], d, 60)
            if r == 0: r, out = sh(['goto-cc', '-c', '-I' + src] + defs + ['-o', tag + '_s.o', tag + '_s.c'], d, 60)
            if r == 0: r, out = sh(['goto-cc', '--function', 'h_' + name, '-o', o, tag + '_r.o', tag + '_s.o'], d, 60)
            fn = 'w_' + name
        if r != 0: err += '%s: %s; ' % (lang, out.strip()[-300:]); continue
        if name == 'lemma_nonzero': return o, lang, ''
        q = o + '2'
        r, out = sh(['goto-instrument', '--dfcc', 'h_' + name, '--enforce-contract', '%s/c_%s' % (fn, name), o, q], d, 60)
        if r == 0: return q, lang, ''
        err += '%s: goto-instrument: %s; ' % (lang, out.strip()[-300:])
    return None, None, err

def solve(q, d, limit):
    """run SAT and z3 side by side; the first answer counts"""
    base = ['cbmc', q, '--unwind', UNWIND, '--unwinding-assertions', '--json-ui']
    procs = [(n, subprocess.Popen(base + x, cwd=d, stdout=open('%s.%s.out' % (q, n), 'w'), stderr=subprocess.DEVNULL, start_new_session=True, env=dict(os.environ, TMPDIR=d))) for n, x in (('cbmc SAT (MiniSat)', ['--trace']), ('cbmc + z3', ['--z3']))]
    t0 = time.time(); ans = None
    live = dict(procs)
    while live and ans is None:
        for n in list(live):
            if live[n].poll() is None: continue
            del live[n]
            try: js = json.load(open('%s.%s.out' % (q, n)))
            except ValueError: continue
            res = [r for x in js if 'result' in x for r in x['result']]
            st = [x['cProverStatus'] for x in js if 'cProverStatus' in x]
            if st and st[0] in ('success', 'failure') and res and all(r['status'] in ('SUCCESS', 'FAILURE') for r in res):
                if st[0] == 'failure' and 'z3' in n and live: continue      # prefer the trace of the SAT run
                ans = (n, res); break
        if time.time() - t0 > limit: break
        time.sleep(.05)
    for n, p in procs:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    subprocess.run(['pkill', '-9', '-f', d + '/'])       # cbmc runs z3 in a process group of its own, on a file in d
    return ans, time.time() - t0

def witness(res):
    w = {}
    for t in res.get('trace', []):
        if t.get('stepType') == 'assignment' and t.get('lhs', '').startswith('w_'):
            b = t.get('value', {}).get('binary')
            if b: w[t['lhs']] = int(b, 2)
    return w

def one(repo, tmp, name, keys, limit):
    t0 = time.time(); tag = name if keys is None else '%s_%d' % (name, keys)
    d = os.path.join(tmp, 'cbmc_' + tag); os.makedirs(d, exist_ok=True)
    title = 'lemma: the all-zero state is not reached' if name == 'lemma_nonzero' else 'tinymt64_' + name + ('' if keys is None else ' (bounded: %d keys)' % keys)
    r = {'contract': title, 'function': 'tinymt64:' + tag, 'obls': [], 'uses': [], 'inlined': [], 'specs': [], 'lemmas': [], 'error': None, 'kind': None, 'trusted': [], 'paths': 1, 'witness': None, 'bounded': keys is not None}
    q, lang, err = prepare(repo, d, name, keys, tag)
    if q is None: r['kind'] = 'unsupported'; r['error'] = 'does not compile with goto-cc: ' + err
    else:
        ans, dt = solve(q, d, limit)
        if ans is None: r['kind'] = 'unsupported'; r['error'] = 'no solver finished within %d s' % limit
        else:
            for x in ans[1]:
                ok = x['status'] == 'SUCCESS'; loc = x.get('sourceLocation', {})
                kind = 'postcondition' if 'postcondition' in x['property'] else 'frame' if 'assigns' in x['property'] else 'lemma' if name == 'lemma_nonzero' else 'memory and arithmetic safety'
                r['obls'].append({'name': '%s: %s %s' % (title, x['property'], x['description'][:90]), 'kind': kind, 'func': 'tinymt64_' + name, 'line': loc.get('line', 0), 'status': 'proved' if ok else 'refuted', 'backend': ans[0], 'time': round(dt, 2), 'detail': '' if ok else 'counterexample %s' % witness(x), 'goal': x['description'], 'value': False})
                if not ok and r['witness'] is None and witness(x): r['witness'] = witness(x)
    r['wall'] = time.time() - t0; r['cpu'] = {}
    return r

CONTRACT = """void c_init_by_array(tinymt64_t *r, const uint64_t *key, int n)
    __CPROVER_requires(0 <= n && n <= 1048576)
    __CPROVER_requires(__CPROVER_is_fresh(r, sizeof(*r))) __CPROVER_requires(__CPROVER_is_fresh(key, n * sizeof(*key)))
    __CPROVER_assigns(r->status[0], r->status[1], __CPROVER_object_whole(g_st), __CPROVER_object_whole(g_f), g_j)
    __CPROVER_ensures(g_j == CNT(n)) __CPROVER_ensures(r->status[0] == g_f[0]) __CPROVER_ensures(r->status[1] == g_f[1])
    __CPROVER_ensures((r->status[0] & 0x7fffffffffffffffULL) != 0 || r->status[1] != 0);
void h(void) { tinymt64_t *r; const uint64_t *k; int n; tinymt64_init_by_array(r, k, n); }
"""
def any_keys(repo, tmp, deadline):
    """tinymt64_init_by_array for every number of keys: loops cut at their invariants; None if that does not go through"""
    import importlib.util
    sp = importlib.util.spec_from_file_location('tinymt_array', os.path.join(HERE, 'tinymt_array.py')); A = importlib.util.module_from_spec(sp); sp.loader.exec_module(A)
    t0 = time.time(); src = os.path.join(repo, 'src', 'tinymt64.cc')
    r = {'contract': 'tinymt64_init_by_array (any number of keys)', 'function': 'tinymt64:init_by_array', 'obls': [], 'uses': [], 'inlined': [], 'specs': ['loops over the keys: the four words equal those of the reference algorithm after j keys'], 'lemmas': [], 'error': None, 'kind': None, 'trusted': [], 'paths': 1, 'witness': None, 'bounded': False}
    try: cuts = A.transform(src, 0, 0)[1]
    except Exception: return None
    bad = []
    def go(pk):
        v = None if bad else step(pk)
        if v is None: bad.append(pk)
        return v
    def step(pk):
        place, k = pk; d = os.path.join(tmp, 'cbmc_array_%d_%d' % pk); os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'a.c'), 'w') as h: h.write('#include "%s"\n%s\n%s' % (os.path.join(HERE, 'tinymt_array.h'), A.transform(src, place, k)[0], CONTRACT))
        if sh(['goto-cc', '--function', 'h', '-I' + os.path.join(repo, 'src'), '-o', 'a.goto', 'a.c'], d, 60)[0] != 0: return None
        if sh(['goto-instrument', '--dfcc', 'h', '--enforce-contract', 'tinymt64_init_by_array/c_init_by_array', 'a.goto', 'b.goto'], d, 60)[0] != 0: return None
        ans, dt = solve(os.path.join(d, 'b.goto'), d, max(20, min(150, deadline - time.time())))
        if ans is None or not all(x['status'] == 'SUCCESS' for x in ans[1]): return None
        return place, k, ans, dt
    with cf.ThreadPoolExecutor(3) as ex: rs = list(ex.map(go, [(p, k) for p in range(cuts, -1, -1) for k in (2, 3, 1, 0)]))
    if any(x is None for x in rs): return None
    for place, k, (back, res), dt in rs:
        for x in res:
            if x.get('sourceLocation', {}).get('file', '').startswith('<builtin'): continue
            kind = 'postcondition' if 'postcondition' in x['property'] else 'frame' if 'assigns' in x['property'] else 'loop-invariant' if x['description'].startswith(('invariant', 'loop')) else 'memory and arithmetic safety'
            r['obls'].append({'name': 'tinymt64_init_by_array (%s, word %d): %s %s' % ('loop %d' % (place + 1) if place < cuts else 'end', k, x['property'], x['description'][:90]), 'kind': kind, 'func': 'tinymt64_init_by_array', 'line': 0, 'status': 'proved', 'backend': back, 'time': round(dt / max(1, len(res)), 3), 'detail': '', 'goal': x['description'], 'value': False})
    r['wall'] = time.time() - t0; r['cpu'] = {}
    return r

def replay(repo, tmp, r):
    """run the verifier's counterexample on the real code"""
    import sys; sys.path.insert(0, VERIF)
    from replay import conf
    w = r['witness']
    R = conf.Run(tmp, 1, 1); ls = []
    p = '%x %x %x' % (w.get('w_m1', 0), w.get('w_m2', 0), w.get('w_t', 0))
    if 'init' in r['function']: ls.append('0 seed %s 1 %x' % (p, w.get('w_seed', 0)))
    for k in range(6): ls.append('%d range %s 2 %x %x' % (k + 1, p, w.get('w_s0', 0), w.get('w_s1', 0)))
    return conf.lines_conf(R, 'tiny', [os.path.join(conf.HERE, 'drv_tiny.cc')] + conf.src('tinymt64.cc'), ls, "the verifier's counterexample for %s: generator (op, mat1 mat2 tmat, count, values), hexadecimal" % r['contract'])

def run(repo, tmp, tier, deadline):
    keys = [0, 1, 2, 3, 5, 8] if tier == 'quick' else list(range(0, 21))
    jobs = [(n, None) for n in SIGS if n != 'init_by_array'] + [('lemma_nonzero', None)] + [('init_by_array', k) for k in keys]
    jobs.sort(key=lambda j: (j[0] != 'init', 'double' not in j[0]))
    full = max(30, min(300, deadline - time.time()))
    with cf.ThreadPoolExecutor(1) as bg:
        fut = bg.submit(any_keys, repo, tmp, deadline)
        with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda j: one(repo, tmp, j[0], j[1], full), [j for j in jobs if j[1] is None]))
        try: whole = fut.result()
        except Exception: whole = None
    if whole is not None: rs.append(whole)
    else:       # bounded stand-ins
        with cf.ThreadPoolExecutor(4) as ex: rs += list(ex.map(lambda j: one(repo, tmp, j[0], j[1], 30), [j for j in jobs if j[1] is not None]))
    out = []
    for r in rs:
        # a bounded stand-in that no solver decides is left out, not counted
        if r['bounded'] and r['kind'] is not None: continue
        if r['witness']:
            try: r['concrete'] = replay(repo, tmp, r)
            except Exception as e: r['error2'] = repr(e)
        out.append(r)
    return out
