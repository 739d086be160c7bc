"""Compiles the Lean proofs of the lemmas (statements generated from the same formulas the SMT problems use)."""
import os, re, subprocess, tempfile, shutil, time, concurrent.futures as cf
from . import lemma as LM
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
OK_AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}

def groups():
    """group -> (lemmas it proves, groups it builds on)"""
    g = {}
    for f in sorted(os.listdir(ROOT)):
        if not f.endswith('.lean') or f == 'defs.lean': continue
        t = open(os.path.join(ROOT, f)).read()
        names = re.findall(r'^theorem (\w+) : S_\1\b', t, re.M)
        m = re.match(r'-- requires:(.*)', t)
        g[f[:-5]] = (names, m.group(1).split() if m else [])
    return g
def text(grp, G):
    order = []
    def add(x):
        for y in G[x][1]: add(y)
        if x not in order: order.append(x)
    add(grp)
    names = [n for x in order for n in G[x][0]]
    t = open(os.path.join(ROOT, 'defs.lean')).read()
    for n in names:
        if n not in LM.REG: continue          # a theorem about the definitions; states itself
        t += 'def S_%s : Prop :=\n  %s\n\n' % (n, LM.REG[n].lean())
    for x in order: t += open(os.path.join(ROOT, x + '.lean')).read() + '\n'
    for n in G[grp][0]: t += '#print axioms %s\n' % n
    return t
def check_group(grp, G, src, tmp, timeout):
    """(proved lemma names, message)"""
    fn = os.path.join(tmp, grp + '.lean')
    if isinstance(src, Exception): return [], 'statement of group %s: %r' % (grp, src)
    for bad in ('sorry', 'admit', 'axiom ', 'native_decide', 'unsafe ', 'implemented_by'):
        for l in src.splitlines():
            if bad in l and not l.startswith('#print axioms') and not l.strip().startswith('--'): return [], 'group %s: forbidden %r' % (grp, bad)
    with open(fn, 'w') as h: h.write(src)
    t0 = time.time()
    try: p = subprocess.run(['lean', fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return [], 'group %s: time limit' % grp
    if p.returncode != 0 or 'error' in p.stdout: return [], 'group %s: %s' % (grp, p.stdout[:1500])
    ok = []
    flat = re.sub(r'\s+', ' ', p.stdout)
    for n in G[grp][0]:
        if "'%s' does not depend on any axioms" % n in flat: ok.append(n); continue
        m = re.search(r"'%s' depends on axioms: \[([^\]]*)\]" % n, flat)
        if m and {x.strip() for x in m.group(1).split(',')} <= OK_AXIOMS: ok.append(n)
    return ok, '%s: %d lemmas, %.1f s' % (grp, len(ok), time.time() - t0)
def prepare(grps):
    """statements (uses z3; not thread safe)"""
    G = groups(); T = {}
    for g in grps:
        try: T[g] = text(g, G)
        except Exception as e: T[g] = e
    return G, T
def check(grps, prep, timeout=500):
    G, T = prep; tmp = tempfile.mkdtemp(prefix='lean'); proved = {}; msgs = []
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            for g, (ok, m) in zip(grps, ex.map(lambda g: check_group(g, G, T[g], tmp, timeout), grps)):
                msgs.append(m)
                for n in ok: proved[n] = g
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return proved, msgs
