"""Back end: turns obligations into SMT-LIB problems (with the axioms of Sum
instantiated) and has z3 and cvc5 discharge them, in parallel."""
import os, subprocess, tempfile, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
from .term import *

_sk = [0]
def skolem(sort):
    _sk[0] += 1
    return z3.Const('#w%d' % _sk[0], sort)

def strip_goal(g, hyps):
    """skolemise the goal: forall / implication prefixes"""
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            cs = [skolem(g.var_sort(k)) for k in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(cs)); continue
        if z3.is_implies(g):
            hyps.append(g.arg(0)); g = g.arg(1); continue
        return g

def split_goal(g):
    """conjunctions become several problems"""
    hyps = []
    g = strip_goal(g, hyps)
    if z3.is_and(g):
        out = []
        for c in g.children():
            for h, x in split_goal(c): out.append((hyps + h, x))
        return out
    return [(hyps, g)]

def sum_axioms(fs, rounds=2, cap=26):
    out = []
    done = set(); pairs = set()
    allsums = {}
    for r in range(rounds):
        new = {}
        for f in fs + out: apps_of(f, SUMS.is_sum, new)
        new = {k: v for k, v in new.items() if k not in allsums}
        if not new: break
        allsums.update(new)
        L = sorted(allsums.values(), key=lambda e: e.get_id())
        if len(L) > cap: L = L[:cap]
        for a in L:
            if a.get_id() not in done:
                done.add(a.get_id())
                out.append(imp(SUMS.hi(a) <= 0, a == 0))
        for i, a in enumerate(L):
            for b in L[i + 1:]:
                if (a.get_id(), b.get_id()) in pairs or a.sort() != b.sort(): continue
                pairs.add((a.get_id(), b.get_id()))
                w = skolem(I); u = skolem(I)
                h = SUMS.hi(a)
                fa, fb = z3.simplify(SUMS.body(a, w)), z3.simplify(SUMS.body(b, w))
                if not z3.is_false(z3.simplify(h == SUMS.hi(b))):
                    out.append(imp(z3.And(h == SUMS.hi(b), imp(z3.And(0 <= w, w < h), fa == fb)), a == b))
                    if ival(h) is None:
                        fb2 = z3.simplify(SUMS.body(b, z3.simplify(h - 1 - u)))
                        out.append(imp(z3.And(h == SUMS.hi(b), imp(z3.And(0 <= u, u < h), z3.simplify(SUMS.body(a, u)) == fb2)), a == b))
                else:
                    # one term split off at either end (in either order of summation)
                    for p, q in ((a, b), (b, a)):
                        hp, hq = SUMS.hi(p), SUMS.hi(q)
                        if ival(z3.simplify(hq - hp)) != 1 or ival(hp) is not None: continue
                        for at, idx in ((iv(0), lambda s: s + 1), (iv(0), lambda s: hp - s), (hp, lambda s: s), (hp, lambda s: hp - 1 - s)):
                            s = skolem(I)
                            x, y = z3.simplify(SUMS.body(p, s)), z3.simplify(SUMS.body(q, z3.simplify(idx(s))))
                            out.append(imp(z3.And(hp >= 0, imp(z3.And(0 <= s, s < hp), x == y)), q == p + SUMS.body(q, at)))
                if a.decl().eq(b.decl()):
                    args = land(*[x == y for x, y in zip(a.children()[:-1], b.children()[:-1])])
                    for p, q in ((a, b), (b, a)):
                        hp, hq = SUMS.hi(p), SUMS.hi(q)
                        out.append(imp(land(args, hq == hp + 1, hp >= 0), q == p + SUMS.body(p, hp)))
        # explicit unfoldings for small constants
        for a in L:
            n = ival(SUMS.hi(a))
            if n is not None and 0 < n <= 3: 
                out.append(a == z3.Sum([SUMS.body(a, iv(k)) for k in range(n)]))
    pw = {}
    for f in fs + out: apps_of(f, lambda e: e.decl().name() == 'ipow' and ival(z3.simplify(e.arg(1))) in (0, 1), pw)
    for e in pw.values(): out.append(e == (e.arg(0) if ival(z3.simplify(e.arg(1))) == 1 else rvl(1)))
    return out

NLM = {R: z3.Function('nlmul', R, R, R), I: z3.Function('nlmul_i', I, I, I)}
NLD = z3.Function('nldiv', R, R, R)
def nl_abstract(fs):
    """replace non-linear products and quotients by commutative uninterpreted functions
    (an over-approximation: unsat stays unsat)"""
    cache = {}; apps = {}
    def is_num(x): return z3.is_int_value(x) or z3.is_rational_value(x)
    def go(x):
        k = x.get_id()
        if k in cache: return cache[k]
        if z3.is_quantifier(x):
            vs = [z3.Const('%s#q%d' % (x.var_name(i), k), x.var_sort(i)) for i in range(x.num_vars())]
            body = go(z3.substitute_vars(x.body(), *reversed(vs)))
            pats = []
            for i in range(x.num_patterns()):
                p = z3.substitute_vars(x.pattern(i), *reversed(vs))
                pats.append(z3.MultiPattern(*[go(c) for c in p.children()]))
            r = z3.ForAll(vs, body, patterns=pats) if x.is_forall() else z3.Exists(vs, body)
        elif not z3.is_app(x) or x.num_args() == 0: r = x
        else:
            ch = [go(c) for c in x.children()]
            kind = x.decl().kind()
            if kind == z3.Z3_OP_MUL:
                nums = [c for c in ch if is_num(c)]; oth = [c for c in ch if not is_num(c)]
                flat = []
                for c in oth: flat.append(c)
                flat.sort(key=lambda c: c.sexpr())
                if len(flat) <= 1: r = rebuild(x, ch)
                else:
                    f = NLM[x.sort()]
                    r = flat[-1]
                    for c in reversed(flat[:-1]):
                        r = f(c, r); apps[r.get_id()] = r
                    for n in nums: r = n * r
            elif kind == z3.Z3_OP_DIV and not is_num(ch[1]):
                r = NLD(ch[0], ch[1])
            else: r = rebuild(x, ch)
        cache[k] = r
        keep.append(x); keep.append(r)
        return r
    keep = []
    out = [go(z3.simplify(f, som=True) if not has_quant(f) else f) for f in fs]
    for a in list(apps.values()):
        if consts_bound(a): continue
        f = NLM[a.sort()]; x, y = a.arg(0), a.arg(1)
        one = iv(1) if a.sort() == I else rvl(1)
        out.append(f(x, y) == f(y, x))
        out.append(z3.Implies(x == 0, a == 0)); out.append(z3.Implies(y == 0, a == 0))
        out.append(z3.Implies(x == one, a == y)); out.append(z3.Implies(y == one, a == x))
    return out
def consts_bound(a):
    return any('#q' in n for n in consts_of(a))

class CtxSimp:
    """resolves conditionals, and reads of named array snapshots, that the hypotheses decide"""
    def __init__(s, hyps):
        s.sl = z3.SimpleSolver(); s.sl.set('timeout', 150)
        for h in hyps:
            if not has_quant(h): s.sl.add(h)
        s.calls = 0; s.defs = {}
        # oriented unit equalities f(..) == t
        s.eqs = []
        for h in hyps:
            if z3.is_eq(h) and z3.is_app(h.arg(0)) and h.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and h.arg(0).num_args() > 0 and h.arg(0).sort() == I:
                s.eqs.append((h.arg(0), h.arg(1)))
    def decide(s, c):
        if s.calls > 1500: return None
        s.calls += 1
        s.sl.push(); s.sl.add(lnot(c)); r = s.sl.check(); s.sl.pop()
        if r == z3.unsat: return True
        s.sl.push(); s.sl.add(c); r = s.sl.check(); s.sl.pop()
        if r == z3.unsat: return False
        return None
    def run(s, e): return s.go(e, {})
    def go(s, x, cache):
        k = x.get_id()
        if k in cache: return cache[k][0]
        if z3.is_quantifier(x) or not z3.is_app(x) or x.num_args() == 0: r = x
        elif z3.is_implies(x):
            a = s.go(x.arg(0), cache)
            s.sl.push()
            if not has_quant(a): s.sl.add(a)
            b = s.go(x.arg(1), {})
            s.sl.pop()
            r = imp(a, b)
        elif x.decl().kind() == z3.Z3_OP_ITE:
            c = s.go(x.arg(0), cache)
            d = s.decide(c) if not has_quant(c) else None
            if d is True: r = s.go(x.arg(1), cache)
            elif d is False: r = s.go(x.arg(2), cache)
            else: r = z3.If(c, s.go(x.arg(1), cache), s.go(x.arg(2), cache))
        else:
            ch = x.children()
            n = [s.go(c, cache) for c in ch]
            r = x if all(a.eq(b) for a, b in zip(ch, n)) else rebuild(x, n)
            if z3.is_select(r) and z3.is_const(r.arg(0)):
                d = SNAPS.get(r.arg(0).decl().name())
                if d is not None:
                    lo, hi, rd = d
                    if s.decide(z3.And(lo <= r.arg(1), r.arg(1) < hi)) is True: r = s.go(rd(r.arg(1)), {})
        cache[k] = (r, x)
        return r

def problem(hyps, goal, hints):
    if hints and (apps_of(goal, lambda x: x.decl().kind() == z3.Z3_OP_ITE) or SNAPS):
        cs = CtxSimp(hyps)
        hints = [cs.run(h) for h in hints]
        goal = cs.run(goal)
    fs = [h for h in hyps] + list(hints) + [lnot(goal)]
    ax = sum_axioms(fs)
    allf = []
    seen = set()
    for f in fs + ax:
        if z3.is_true(f) or f.get_id() in seen: continue
        seen.add(f.get_id()); allf.append(f)
    def text(L):
        s = z3.Solver()
        for f in L: s.add(f)
        return s.to_smt2()
    out = {'N': text(allf)}
    ab = nl_abstract(allf)
    out['A'] = text(ab)
    if any(has_quant(f) for f in ab): out['G'] = text([f for f in ab if not has_quant(f)])
    return out

def cone(hyps, goal, hints, rounds=3):
    """relevance filter: hypotheses connected to the goal by shared uninterpreted symbols"""
    def syms(f):
        S = set()
        stack = [f]; seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stack.append(x.body()); continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: S.add(x.decl().name())
                stack.extend(x.children())
        return S
    cur = syms(goal)
    for h in hints: cur |= syms(h)
    hs = [(h, syms(h)) for h in hyps]
    keep = set()
    for r in range(rounds):
        grow = set()
        for k, (h, S) in enumerate(hs):
            if k not in keep and S & cur: keep.add(k); grow |= S
        if not grow: break
        cur |= grow
    return [h for k, (h, _) in enumerate(hs) if k in keep]

def nonlinear_abstract(e):
    return e

SOLVERS = [
    ('z3', lambda f, t: ['z3-new', '-T:%d' % t, f]),
    ('cvc5', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--lang=smt2', f]),
    ('z3-4.8', lambda f, t: ['z3', '-T:%d' % t, f]),
    ('cvc5-nl', lambda f, t: ['cvc5', '--tlimit=%d' % (t * 1000), '--nl-ext-tplanes', '--full-saturate-quant', '--lang=smt2', f]),
]
def run1(cmd, t):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 5)
        for l in p.stdout.splitlines():
            l = l.strip()
            if l in ('unsat', 'sat', 'unknown', 'timeout'): return l, p.stdout
        return 'unknown', p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''

class Pool:
    def __init__(s, tmp=None, workers=8, timeout=20):
        s.dir = tmp or tempfile.mkdtemp(prefix='vcg'); s.workers = workers; s.timeout = timeout
        s.cpu = {}
        s.lock = threading.Lock()
        s.deadline = None
    def attempt(s, nm, fn, t, stop):
        cmd = dict(SOLVERS)[nm](fn, t)
        t0 = time.time()
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except OSError as e: return 'unknown', str(e), 0
        while p.poll() is None:
            if stop.is_set() or time.time() - t0 > t + 3:
                p.kill(); p.wait(); break
            time.sleep(0.004 if time.time() - t0 < 0.3 else 0.02)
        out = p.stdout.read(); p.stdout.close()
        dt = time.time() - t0
        with s.lock: s.cpu[nm] = s.cpu.get(nm, 0) + dt
        for l in out.splitlines():
            l = l.strip()
            if l in ('unsat', 'sat', 'unknown'): return l, out, dt
        return 'timeout', out, dt
    def solve_text(s, name, texts, timeout):
        files = {}
        for k, text in texts.items():
            h = hashlib.md5(text.encode()).hexdigest()[:16]
            fn = os.path.join(s.dir, h + '.smt2')
            with open(fn, 'w') as f: f.write('(set-logic ALL)\n' + text if '(set-logic' not in text else text)
            files[k] = fn
        g = 'G' in files
        stages = []
        if g: stages.append([('z3', 'G', 2)])
        stages.append([('z3', 'A', 3), ('cvc5', 'A', 3)])
        stages.append([('z3', 'N', timeout), ('z3-4.8', 'N', timeout), ('cvc5-nl', 'N', timeout), ('z3-4.8', 'A', timeout), ('cvc5-nl', 'A', timeout)])
        det = ''
        res = None
        for st in stages:
            if s.deadline and time.time() > s.deadline: det += 'deadline '; break
            stop = threading.Event()
            results = []
            def go(x):
                r, out, dt = s.attempt(x[0], files[x[1]], x[2], stop)
                results.append((x, r, dt))
                if r == 'unsat' or (r == 'sat' and x[1] == 'N'): stop.set()
            ths = [threading.Thread(target=go, args=(x,)) for x in st]
            for t in ths: t.start()
            for t in ths: t.join()
            for x, r, dt in results:
                det += '%s/%s: %s (%.1fs); ' % (x[0], x[1], r, dt)
            if any(r == 'unsat' for _, r, _ in results):
                res = ('proved', '+'.join(sorted({x[0] for x, r, _ in results if r == 'unsat'}))); break
            if any(r == 'sat' and x[1] == 'N' for x, r, _ in results):
                res = ('refuted', [x[0] for x, r, _ in results if r == 'sat'][0]); break
        if res is None: res = ('unknown', '')
        if res[0] == 'proved':
            for f in set(files.values()):
                try: os.unlink(f)
                except OSError: pass
        return res + (det, files['N'])
    def discharge(s, obls):
        """fills status/backend/detail of every obligation"""
        jobs = []
        for o in obls:
            if o.status == 'proved': continue
            if z3.is_false(z3.simplify(o.goal)) and not o.hyps:
                o.status = 'unknown'; o.detail = 'goal is false'; continue
            parts = split_goal(o.goal)
            texts = []
            for h, g in parts:
                if z3.is_true(z3.simplify(g)): continue
                if any(x.eq(g) for x in o.hyps): continue
                texts.append(problem(o.hyps + h, g, o.hints))
            jobs.append((o, texts))
        def work(job):
            o, texts = job
            t0 = time.time()
            st = 'proved'; be = set(); det = ''; files = []
            for t in texts:
                r, b, d, fn = s.solve_text(o.name, t, s.timeout)
                det += d
                if b: be.add(b)
                if r != 'proved':
                    st = r; files.append(fn); break
            o.status = st; o.backend = '+'.join(sorted(be)) or 'syntactic'; o.time = time.time() - t0
            o.detail = det + (' file: %s' % files[0] if files else '')
        with ThreadPoolExecutor(s.workers) as ex: list(ex.map(work, jobs))
        return s
