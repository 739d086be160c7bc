"""Loops: an invariant is assembled from inferred closed forms (checked by
induction) and from the supplied loop annotations (vcg specs), every part of
which is an initialisation + preservation obligation.  Nothing is unrolled."""
import os, re, json, difflib, z3
from .term import *
from .values import *
from . import exec as X
from .exec import *

class ExitX(Exception): pass

def newest(e, n0, seen=None):
    """does e mention a symbol created after fresh counter n0?"""
    if isinstance(e, FArr): return newest(e.read(scratch(I)), n0)
    if not isinstance(e, z3.AstRef): return False
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stack.append(x.body()); continue
        if z3.is_app(x):
            nm = x.decl().name()
            k = nm.rfind('!')
            if k >= 0:
                m = re.match(r'^(\d+)', nm[k + 1:])
                if m and int(m.group(1)) > n0: return True
            if SUMS.is_sum(x): stack.append(SUMS.defs[nm][3])
            stack.extend(x.children())
    return False

def delta(e, h):
    """e - h, pushed through ite"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = delta(e.arg(1), h), delta(e.arg(2), h)
        return ite(e.arg(0), a, b)
    d = z3.simplify(e - h, som=True)
    return d

def chain_writes(d, H):
    if isinstance(d, FBase): return [] if d.a.eq(H) else None
    if isinstance(d, FStore):
        w = chain_writes(d.prev, H)
        if w is None: return None
        return w + [(TRUE, d.i, None, (lambda x, v=d.v: v))]
    if isinstance(d, FRange):
        w = chain_writes(d.prev, H)
        if w is None: return None
        if ival(z3.simplify(d.hi - d.lo)) == 1: return w + [(TRUE, d.lo, None, (lambda x, d=d: d.fn(d.lo)))]
        return w + [(TRUE, d.lo, d.hi, d.fn)]
    if isinstance(d, FIte):
        a, b = chain_writes(d.a, H), chain_writes(d.b, H)
        if a is None or b is None: return None
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]: n += 1
        return a[:n] + [(land(d.c, g), l, h, f) for g, l, h, f in a[n:]] + [(land(lnot(d.c), g), l, h, f) for g, l, h, f in b[n:]]
    return None

class NoClosed(Exception): pass

class Leaf:
    """a modified leaf: (oid, path)"""
    def __init__(s, oid, path, x0): s.oid, s.path, s.x0 = oid, path, x0; s.sym = None; s.closed = None; s.kind = None
    def key(s): return (s.oid, s.path)

_BASE = None
def BASE():
    """the names and types of the locals of the annotated functions when the annotations were written"""
    global _BASE
    if _BASE is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs', 'locals.json')) as h: _BASE = json.load(h)
    return _BASE
def locals_of(P, f):
    c = getattr(P, 'locals_cache', None)
    if c is None: c = P.locals_cache = {}
    if id(f) in c: return c[id(f)]
    out = []
    def ty(n):
        try: return re.sub(r'\s+', ' ', re.sub(r'\bconst\b|&|\bstd::', '', repr(P.ty(n)))).strip()
        except Exception: return '?'
    for p in f.params: out.append((p.get('name'), ty(p)))
    def walk(x):
        if not isinstance(x, dict): return
        if x.get('kind') == 'VarDecl' and x.get('name') and not x['name'].startswith('__'): out.append((x['name'], ty(x)))
        for k in x.get('inner', []) or []: walk(k)
    for k in f.node.get('inner', []) or []: walk(k)
    c[id(f)] = out
    return out
def chain_aliases(P, frames):
    """aliases for the innermost annotated function, whose code may be spread over helpers"""
    fs = []
    for fr in reversed(frames):
        f = fr.get('__f__')
        if f is None or fr['__stub__']: continue
        fs.append(f)
        if f.qual.split('::')[-1] in BASE(): return aliases(P, f, tuple(fs[:-1]))
    return {}
def aliases(P, f, helpers=()):
    """renamed locals: annotation name -> present name (same type, same order; a wrong guess only makes the proof fail)"""
    c = getattr(P, 'alias_cache', None)
    if c is None: c = P.alias_cache = {}
    key = (id(f),) + tuple(id(h) for h in helpers)
    if key in c: return c[key]
    c[key] = out = {}
    base = BASE().get(f.qual.split('::')[-1])
    if base is None: return out
    cur = list(locals_of(P, f))
    for h in helpers: cur += [x for x in locals_of(P, h) if x[0] not in {y[0] for y in cur}]
    missing = [b for b in base if b[0] not in {x[0] for x in cur}]
    extra = [x for x in cur if x[0] not in {b[0] for b in base}]
    def cls(t): return 'integer' if re.match(r'^(unsigned |signed )?(int|long|short|char|long long|unsigned|size_t|ssize_t|ptrdiff_t)( int)?$', t) else 'real' if t in ('float', 'double', 'long double') else t
    for t in dict.fromkeys(cls(b[1]) for b in missing):
        ms = list(dict.fromkeys(b[0] for b in missing if cls(b[1]) == t)); es = list(dict.fromkeys(x[0] for x in extra if cls(x[1]) == t))
        n, m = len(ms), len(es)
        best = {}
        def go(i, j):
            if i == n or j == m: return (0, ())
            if (i, j) not in best:
                sc = difflib.SequenceMatcher(None, ms[i].lower(), es[j].lower()).ratio() + 0.01
                a = go(i + 1, j + 1); best[i, j] = max([(a[0] + sc, ((ms[i], es[j]),) + a[1]), go(i + 1, j), go(i, j + 1)], key=lambda z: z[0])
            return best[i, j]
        if n == m: pairs = zip(ms, es)
        else: pairs = go(0, 0)[1]
        out.update(pairs)
    return out

class View:
    """names of the source program at some state"""
    def __init__(s, ex, st, kappa, L=None): s.ex, s.st, s.kappa, s.L = ex, st, kappa, L
    def ref(s, name):
        al = chain_aliases(s.ex.P, s.st.frames).get(name)
        for fr in reversed(s.st.frames):
            r = fr['__names__'].get(name)
            if r is None and al is not None: r = fr['__names__'].get(al)
            if r is not None: return r
        raise Detached('no variable %s' % name)
    def buffer(s, name, which):
        """a pair of work arrays: an object with accessors for the two, or two vectors"""
        try: r = s.ref(name)
        except Detached: r = None
        if r is not None:
            v = s.run(lambda: s.ex.load(r))
            c = s.ex.P.classes.get(v.cname) if isinstance(v, Struct) else None
            if c is None: raise Detached('%s is not an object' % name)
            if any(m.name == which for m in c.methods): return s.method(name, which)
            ms = []
            for m in c.methods:
                d = s.ex.P.resolve(m.tu, m.node['id'])
                t = m.node['type']['qualType']
                if d is not None and not d.params and 'const' not in t and re.match(r'^.*\bvector\b.*&\s*\(\)|^.*& ?\(\)', t): ms.append(m.name)
            ms = list(dict.fromkeys(ms))
            if len(ms) != 2: raise Detached('%s has no two buffers' % name)
            return s.method(name, ms[which != 'get_src'])
        for fr in reversed(s.st.frames):
            f = fr.get('__f__')
            if f is None or not fr['__names__']: continue
            base = BASE().get(f.qual.split('::')[-1])
            if base is None: continue
            objs = [b[0] for b in base if 'DoubleBuffer' in b[1]]
            missing = [o for o in objs if o not in {x[0] for x in locals_of(s.ex.P, f)}]
            if name not in missing: continue
            old = {b[0] for b in base}
            vs = [x[0] for x in locals_of(s.ex.P, f) if x[0] not in old and x[1] == 'vector<double>']
            if len(vs) != 2 * len(missing): raise Detached('no variable %s' % name)
            i = missing.index(name); pair = vs[2 * i:2 * i + 2]
            if re.search('src|source|cur|prev|from|old', pair[1], re.I) and not re.search('src|source|cur|prev|from|old', pair[0], re.I): pair.reverse()
            return s.ref(pair[which != 'get_src'])
        raise Detached('no variable %s' % name)
    def run(s, fn):
        sv = s.ex.st; s.ex.st = s.st.copy()
        try: return fn()
        finally:
            s.st.fresh = max(s.st.fresh, s.ex.st.fresh); s.st.pc = list(s.ex.st.pc)
            s.ex.st = sv
    def __call__(s, name):
        v = s.run(lambda: s.ex.load(s.ref(name)))
        return v
    def field(s, ref, *path):
        return s.run(lambda: s.ex.load(ref.ext(*path)))
    def method(s, obj, name, *args):
        """result of calling a side-effect free method"""
        def go():
            r = s.ref(obj) if isinstance(obj, str) else obj
            v = s.ex.load(r)
            c = s.ex.P.classes.get(v.cname) if isinstance(v, Struct) else None
            if c is None: raise Detached('%s is not an object' % obj)
            for m in c.methods:
                if m.name == name:
                    d = s.ex.P.resolve(m.tu, m.node['id'])
                    return s.ex.inline(d, r, list(args))
            raise Detached('no method %s' % name)
        return s.run(go)
    def load(s, ref): return s.run(lambda: s.ex.load(ref))

class Detached(Unsupported):
    """an annotation refers to something the code no longer has"""

def run_loop(s, n, cond, inc, body, post, pre):
    key = (s.oracle.xid, tuple(s.oracle.trace), n['id'], len(s.st.frames), s.st.fresh, s.mode)
    if key in s.cache: res = s.cache[key]
    else:
        res = summarize(s, n, cond, inc, body, post, pre)
        s.cache[key] = res
    if not res: raise Infeasible()
    k = s.choose(len(res))
    out, st = res[k]
    dec = s.st.ghost.get('dec', ())
    s.st = st.copy()
    s.st.ghost['dec'] = dec
    if out[0] in ('exit', 'break'): return
    if out[0] == 'return': raise ReturnX(out[1])
    if out[0] == 'throw': raise out[1]
    raise Unsupported('loop outcome %s' % out[0])

def iteration(s, cond, inc, body, post, pre):
    """one pass; returns 'back' or 'exit'"""
    fr = s.st.frames[-1]
    names = fr['__names__']
    if not post and cond:
        c = s.to_bool(s.rv(cond))
        if not s.branch(c): return 'exit'
    try:
        def run():
            if pre: s.stmt(pre)
            s.stmt(body)
        s.scope(None, run)
    except ContinueX: pass
    if inc: s.ev(inc)
    if post and cond:
        c = s.to_bool(s.rv(cond))
        if not s.branch(c): return 'exit'
    return 'back'

def entry_leaves(st):
    return {o: leaves(v) for o, v in st.store.items()}

def diff(base, ent, st):
    """leaves of base objects that differ in st"""
    mods = {}
    for o, lv in ent.items():
        v = st.store.get(o)
        if v is base.store[o]: continue
        nl = leaves(v)
        if set(nl) != set(lv):
            # shape change (e.g. raw block typed, pointer retargeted)
            raise Unsupported('loop changes the shape of %s' % o)
        for p in lv:
            if not same_leaf(lv[p], nl[p]): mods[(o, p)] = (lv[p], nl[p])
    return mods

def havoc_leaf(s, x0, tag, path):
    if isinstance(x0, z3.ExprRef): return s.fresh(x0.sort(), tag)
    if isinstance(x0, FArr):
        r = x0.read(scratch(I))
        if isinstance(r, FArr):
            rr = r.read(scratch(I))
            return FBase(s.fresh(z3.ArraySort(I, z3.ArraySort(I, rr.sort())), tag))
        return FBase(s.fresh(z3.ArraySort(I, r.sort()), tag))
    if x0 is UNDEF: return UNDEF
    if isinstance(x0, Opaque): return x0
    raise Unsupported('loop-modified value %r' % (x0,))

def range_of_leaf(s, st, oid, path):
    """type range fact is only known through the declared type; recovered from the frame names"""
    return None

def summarize(s, n, cond, inc, body, post, pre):
    S0 = s.st
    outer_mode = s.mode
    line0 = s.line
    def it(): return iteration(s, cond, inc, body, post, pre)
    # ---------------------------------------------------------------- small constant loops are not special
    # ---------------------------------------------------------------- 1. what does the body modify
    ent = entry_leaves(S0)
    mods = {}
    s.mode = 'mods'
    outgrow = False
    try:
        for rnd in range(12):
            s.st = S0.copy()
            head, syms = build_head(s, S0, mods, None, None)
            s.st = head
            res = s.explore(it)
            new = dict(mods)
            for out, st in res:
                if out[0] == 'normal' and out[1] == 'back':
                    if len(st.out) > len(head.out): outgrow = True
                    fz = [o for o in st.freed if o in S0.store and o not in S0.freed]
                    if fz: raise Unsupported('loop frees an outer object')
                    for k, (a, b) in diff(head, entry_leaves_of(head, ent), st).items():
                        new.setdefault(k, ent[k[0]][k[1]])
            if set(new) == set(mods): break
            mods = new
        else: raise Unsupported('modified set does not converge')
    finally:
        s.mode = outer_mode; s.line = line0
    spec = find_spec(s, n, S0, mods)
    if outer_mode == 'mods':
        # cheap summary for the caller's own modification analysis
        s.st = S0.copy()
        head, syms = build_head(s, S0, mods, None, None, outgrow)
        s.st = head
        s.mode = 'mods'
        res = s.explore(it)
        s.mode = outer_mode
        s.st = S0
        return exits(res)
    if spec is not None:
        s.st = S0
        spec.enter(View(s, S0, iv(0)))
    # ---------------------------------------------------------------- 2. inference
    s.mode = 'probe'
    banned = set()
    closed = {}
    hist = None
    accs = []
    extra = []
    for attempt in range(6):
        s.st = S0.copy()
        kappa = s.fresh(I, 'k')
        n0 = None
        head, syms = build_head(s, S0, mods, None, kappa, outgrow)
        s.st = head
        s.assume(kappa >= 0)
        spec_facts(s, spec, kappa, syms, S0)
        n0 = s.st.fresh
        head = s.st
        res = s.explore(it)
        backs = [st for out, st in res if out[0] == 'normal' and out[1] == 'back']
        closed, hist, accs = infer(s, S0, head, syms, backs, kappa, n0, mods, banned)
        # -------- 3. head with closed forms, and check them
        s.st = S0.copy()
        kappa = s.fresh(I, 'k')
        head, syms2 = build_head(s, S0, mods, closed, kappa, outgrow)
        s.st = head
        s.assume(kappa >= 0)
        hist_facts(s, hist, kappa)
        acc_facts(s, accs, kappa, syms2)
        spec_facts(s, spec, kappa, syms2, S0)
        head = s.st.copy()
        res = s.explore(it)
        backs = [st for out, st in res if out[0] == 'normal' and out[1] == 'back']
        bad = check_closed(s, S0, closed, kappa, backs, emit=False) | check_accs(s, accs, kappa, syms2, backs, emit=False)
        if not bad: break
        banned |= bad
    else: raise Unsupported('loop inference does not stabilise')
    extra, step = generic_candidates(s, S0, head, mods, closed, backs, kappa, it, spec, syms2)
    # ---------------------------------------------------------------- 4. final pass
    s.mode = outer_mode
    s.st = S0.copy()
    if outer_mode == 'final':
        check_spec(s, spec, S0, iv(0), S0, 'initially')
    kappa = s.fresh(I, 'k')
    head, syms3 = build_head(s, S0, mods, closed, kappa, outgrow)
    s.st = head
    s.assume(kappa >= 0)
    hist_facts(s, hist, kappa)
    acc_facts(s, accs, kappa, syms3)
    spec_facts(s, spec, kappa, syms3, S0)
    if outer_mode == 'final':
        s.st = S0.copy()
        for e in extra: s.oblige('loop-invariant', step.init(e), 'bounds initially')
        s.st = head
    for e in extra: s.assume(e)
    head = s.st.copy()
    s.line = line0
    res = s.explore(it)
    backs = [st for out, st in res if out[0] == 'normal' and out[1] == 'back']
    if outer_mode == 'final':
        check_closed(s, S0, closed, kappa, backs, emit=True)
        check_accs(s, accs, kappa, syms3, backs, emit=True)
        for st in backs:
            s.st = st.copy(); s.line = line0
            check_spec(s, spec, s.st, z3.simplify(kappa + 1), S0, 'preserved', head)
            for e in extra: s.oblige('loop-invariant', step.next(e, st), 'bounds preserved')
        s.st = head.copy(); s.line = line0
        check_variant(s, S0, head, syms3, backs, res, kappa)
        s.loopinfo.append({'function': s.funcstack[-1] if s.funcstack else '?', 'line': line0, 'modified': len(mods), 'closed': len(closed), 'spec': spec is not None})
    for out, st in res:
        if (out[0] == 'normal' and out[1] == 'exit') or out[0] == 'break': solve_exit(s, st, kappa, len(head.pc), mods)
    s.st = S0; s.line = line0
    return exits(res)

def solve_exit(s, st, kappa, npc, mods):
    """where the exit condition determines the number of iterations, eliminate it"""
    sv = s.st
    s.st = st
    try:
        cands = []; seen = set()
        for c in st.pc[npc:]:
            if has_quant(c): continue
            for a in int_atoms(c):
                d = z3.simplify(a.arg(0) - a.arg(1))
                k = ival(z3.simplify(z3.substitute(d, (kappa, kappa + 1)) - d))
                if k not in (1, -1): continue
                e0 = z3.simplify(kappa - k * d)
                if mentions(e0, {kappa.decl().name()}): continue
                for dl in (0, 1, -1):
                    e = z3.simplify(e0 + dl)
                    if e.get_id() in seen: continue
                    seen.add(e.get_id()); s.keep.append(e); cands.append(e)
        sol = None
        for e in cands:
            if s.proves(kappa == e): sol = e; break
        if sol is None:
            for e in cands:
                m = z3.If(e > 0, e, iv(0))
                if s.proves(kappa == m): sol = m; break
        if sol is None: return
        st.pc.append(kappa == sol)
        pairs = [(kappa, sol)]
        for o in {o for o, p in mods}:
            v = st.store.get(o)
            if v is None: continue
            for p, x in leaves(v).items():
                if (o, p) not in mods: continue
                if isinstance(x, z3.ExprRef):
                    y = z3.substitute(x, *pairs)
                    if not y.eq(x): v = set_leaf(v, p, z3.simplify(y))
                elif isinstance(x, FArr) and not isinstance(x, FBase):
                    if mentions(x, {kappa.decl().name()}): v = set_leaf(v, p, fsubst(x, pairs))
            st.store[o] = v
    finally: s.st = sv

def fsubst(x, pairs):
    def sb(e): return z3.simplify(z3.substitute(e, *pairs)) if isinstance(e, z3.ExprRef) else e
    if isinstance(x, FBase) or x is None: return x
    if isinstance(x, FRange): return FRange(fsubst(x.prev, pairs), sb(x.lo), sb(x.hi), lambda i, f=x.fn: fsub1(f, i, pairs))
    if isinstance(x, FStore): return FStore(fsubst(x.prev, pairs), sb(x.i), sb(x.v))
    if isinstance(x, FIte): return ite(sb(x.c), fsubst(x.a, pairs), fsubst(x.b, pairs))
    return FFn(lambda i, f=x.read: fsub1(f, i, pairs))
def fsub1(f, i, pairs):
    x = scratch(I)
    e = f(x)
    if isinstance(e, FArr): return fsubst(e, pairs)
    return z3.substitute(z3.substitute(e, *pairs), (x, zint(i)))

def exits(res):
    o = []
    for out, st in res:
        if out[0] == 'normal':
            if out[1] == 'exit': o.append((('exit', None), st))
        elif out[0] == 'continue': pass
        else: o.append((out, st))
    return o

def entry_leaves_of(head, ent):
    return {o: leaves(head.store[o]) for o in ent}

def build_head(s, S0, mods, closed, kappa, outgrow=False):
    """state at the head of an arbitrary iteration.  closed: {key: fn(kappa, x0)} -> value"""
    st = s.st
    syms = {}
    objs = {}
    for (o, p), x0 in mods.items(): objs.setdefault(o, []).append((p, x0))
    for o, ps in objs.items():
        v = st.store[o]
        for p, x0 in ps:
            if p and p[-1] == '#bid':
                nv = s.bid()
            elif p and p[-1] == '#alts':
                raise Unsupported('loop retargets a pointer')
            elif closed and (o, p) in closed:
                nv = closed[(o, p)](kappa)
            else:
                nv = havoc_leaf(s, x0, 'h', p)
                if isinstance(nv, z3.ExprRef):
                    t = leaf_type(s, S0, o, p)
                    if t is not None and t.kind == 'int': s.assume(s.range_fact(t, nv))
                    if p and p[-1] in ('#len',): s.assume(z3.And(nv >= 0, nv <= 2 ** 40))
                if isinstance(nv, FBase):
                    pass
            syms[(o, p)] = nv
            v = set_leaf(v, p, nv)
        st.store[o] = v
    if outgrow: st.out = st.out + [('?', 'many', None)]
    st.ghost['dec'] = ()
    return st, syms

def leaf_type(s, S0, oid, path):
    """declared type of a scalar leaf of a named variable (for range facts)"""
    for fr in S0.frames:
        f = fr.get('__types__')
        if f and oid in f:
            t = f[oid]
            return walk_type(s, t, path)
    return None
def walk_type(s, t, path):
    for k in path:
        if t.kind == 'ref': t = t.sub
        if t.kind == 'cls' and isinstance(k, str) and not k.startswith('#'):
            c = s.P.classes.get(repr(t))
            if c is None: return None
            for nm, fd, _, _ in c.fields:
                if nm == k: t = s.P.ty(fd); break
            else: return None
        else: return None
    return t

# ---------------------------------------------------------------- inference
def unwrap(e):
    """integer conversions that may wrap, taken not to"""
    if not isinstance(e, z3.ExprRef): return e
    def hit(x):
        if x.decl().kind() != z3.Z3_OP_ITE or x.sort() != I: return False
        v, m = x.arg(1), x.arg(2)
        return m.decl().kind() == z3.Z3_OP_MOD and m.arg(0).eq(v) and ival(m.arg(1)) in (2 ** 32, 2 ** 64)
    for _ in range(40):
        ws = apps_of(e, hit)
        if not ws: return e
        x = min(ws.values(), key=lambda y: len(y.sexpr()))
        e = z3.substitute(e, (x, x.arg(1)))
    return e

def infer(s, S0, head, syms, backs, kappa, n0, mods, banned):
    closed = {}      # key -> fn(kappa)
    if not backs: return closed, None, []
    consts = {}      # unresolved scalar heads: name -> key
    arrs = {}
    for k, v in syms.items():
        if isinstance(v, z3.ExprRef): consts[v.decl().name()] = k
        elif isinstance(v, FBase): arrs[v.a.decl().name()] = k
    unresolved = dict(consts); unresolved.update(arrs)
    ent0 = {k: x0 for k, x0 in mods.items()}
    decs = [land(*st.ghost.get('dec', ())) for st in backs]
    def leafv(st, key):
        return leaves(st.store[key[0]])[key[1]]
    nexts = {k: [leafv(st, k) for st in backs] for k in syms}
    spairs = []      # (head sym, expr in kappa)
    arepl = []       # (H, closed fn)
    def sub_all(e):
        if spairs: e = z3.substitute(e, *spairs)
        for H, fn in arepl:
            if mentions(e, {H.decl().name()}): e = rewrite_selects(e, H, lambda j, fn=fn: fn(kappa).read(j))
        return e
    exact = sub_all
    def sub_all(e): return unwrap(exact(e))      # a guess: the closed forms are checked afterwards
    def ok(e, allow=()):
        names = set(unresolved) - set(allow)
        if names and mentions(e, names): return False
        return not newest(e, n0)
    def merged(vals):
        r = vals[-1]
        for d, v in list(zip(decs, vals))[-2::-1]: 
            r = v if (isinstance(v, z3.ExprRef) and v.eq(r)) else ite(d, v, r)
        return r
    progress = True
    while progress:
        progress = False
        for k in list(syms):
            if k in closed or k in banned: continue
            h = syms[k]; x0 = ent0[k]
            if isinstance(h, z3.ExprRef):
                vals = [z3.simplify(sub_all(v)) if v is not UNDEF else None for v in nexts[k]]
                if any(v is None for v in vals): continue
                e = merged(vals)
                hn = h.decl().name()
                if h.sort() in (I, R):
                    d = delta(e, h)
                    if ok(d):
                        if not mentions(d, {kappa.decl().name()}):
                            if z3.is_int_value(d) or z3.is_rational_value(d) or h.sort() == I or True:
                                kk = (lambda t, srt=h.sort(): t if srt == I else z3.ToReal(t))
                                if is_num(d): cl = lambda t, x0=x0, d=d, kk=kk: add(x0, z3.simplify(d * kk(t)))
                                else: cl = lambda t, x0=x0, d=d: add(x0, Sum(lambda u: d, t))
                        else:
                            cl = lambda t, x0=x0, d=d: add(x0, Sum(lambda u: z3.substitute(d, (kappa, u)), t))
                        closed[k] = cl; progress = True
                        spairs.append((h, cl(kappa))); unresolved.pop(hn, None)
                        continue
                if ok(e):
                    cl = lambda t, x0=x0, e=e: ite(z3.simplify(t == 0), x0, z3.simplify(z3.substitute(e, (kappa, z3.simplify(t - 1)))))
                    closed[k] = cl; progress = True
                    spairs.append((h, cl(kappa))); unresolved.pop(hn, None)
            elif isinstance(h, FBase) and not z3.is_array(z3.Select(h.a, iv(0))):
                r = infer_array(s, h, x0, nexts[k], decs, kappa, sub_all, ok)
                if r is not None:
                    closed[k] = r; progress = True
                    arepl.append((h.a, r)); unresolved.pop(h.a.decl().name(), None)
    # flags
    accs = []
    for k, h in syms.items():
        if k in closed or k in banned or not isinstance(h, z3.ExprRef) or h.sort() != z3.BoolSort(): continue
        vals = [v if v is UNDEF else z3.simplify(sub_all(v)) for v in nexts[k]]
        if any(v is UNDEF for v in vals): continue
        r = vals[-1]
        for d, v in list(zip(decs, vals))[-2::-1]: r = ite(sub_all(d), v, r)
        e0, e1 = [z3.simplify(z3.substitute(r, (h, b))) for b in (FALSE, TRUE)]
        for conj, c, z, zv in ((True, e1, e0, FALSE), (False, e0, e1, TRUE)):
            if ok(c) and z.eq(zv): accs.append(Acc(k, conj, c, kappa, ent0[k])); break
    # history: what held on the back path of each earlier iteration
    hist = []
    good = []
    for st in backs:
        cs = []
        for c in st.ghost.get('dec', ()):
            c2 = z3.simplify(exact(c))
            if ok(c2): cs.append(c2)
        good.append(cs)
    P = TRUE
    if all(good):
        flat = [{c.get_id(): c for g in gs for c in (g.children() if z3.is_and(g) else [g])} for gs in good]
        common = [c for k, c in flat[0].items() if all(k in f for f in flat[1:])]
        ids = {c.get_id() for c in common}
        rest = lor(*[land(*[c for k, c in f.items() if k not in ids]) for f in flat])
        sv = z3.Solver(); sv.set('timeout', 200)
        if not z3.is_true(rest):
            sv.add(z3.Not(rest))
            if sv.check() == z3.unsat: rest = TRUE
        P = land(*(common + [rest]))
    # conjuncts common to all back paths (forced branches too)
    P = z3.simplify(P)
    if z3.is_true(P): return closed, None, accs
    return closed, (P, kappa), accs

def hist_facts(s, hist, kappa):
    if hist is None: return
    P, k0 = hist
    def at(t): return z3.substitute(P, (k0, t))
    s.assume(imp(kappa > 0, at(z3.simplify(kappa - 1))))
    for c in (P.children() if z3.is_and(P) else [P]): forall_iter(s, c, k0, kappa)

def forall_iter(s, c, k0, kappa, guard=TRUE):
    """assume: guard implies c(0), ..., c(kappa-1), with instantiation patterns"""
    if not mentions(c, {k0.decl().name()}):
        s.assume(imp(land(guard, kappa > 0), c)); return
    sel = apps_of(c, lambda x: (z3.is_select(x) or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0)) and mentions(x, {k0.decl().name()}))
    x = z3.Int('#h')
    # re-parametrise so that an index is the bound variable itself
    for t in sel.values():
        for a in t.children():
            if a.sort() != I: continue
            d = z3.simplify(a - k0)
            if mentions(d, {k0.decl().name()}): continue
            body = z3.simplify(z3.substitute(c, (k0, z3.simplify(x - d))))
            tt = z3.substitute(t, (a, x)) if not a.eq(k0) else z3.substitute(t, (k0, x))
            if mentions(tt, {k0.decl().name()}): continue
            s.assume(imp(guard, z3.ForAll([x], z3.Implies(z3.And(d <= x, x < d + kappa), body), patterns=[tt])))
            return
    s.assume(imp(guard, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < kappa), z3.substitute(c, (k0, x))))))

class Acc:
    """a flag: next(h) = h && c(kappa)  (or h || c(kappa))"""
    def __init__(s, key, conj, c, k0, x0): s.key, s.conj, s.c, s.k0, s.x0 = key, conj, c, k0, x0
    def at(s, t): return z3.substitute(s.c, (s.k0, t))
    def next(s, h, t): return land(h, s.at(t)) if s.conj else lor(h, s.at(t))

def acc_facts(s, accs, kappa, syms):
    """what the flag says about the earlier iterations (induction on the checked step equation)"""
    for a in accs:
        h = syms[a.key]
        g = h if a.conj else lnot(h)                    # no earlier iteration cleared (set) the flag
        c = a.c if a.conj else lnot(a.c)
        x0 = a.x0 if a.conj else lnot(a.x0)
        s.assume(imp(g, x0))
        forall_iter(s, c, a.k0, kappa, g)
        w = s.fresh(I, 'w')
        s.assume(imp(land(lnot(g), x0), z3.And(0 <= w, w < kappa, lnot(z3.substitute(c, (a.k0, w))))))

def assume_in(v, g):
    """v, simplified under the guard g"""
    if z3.is_true(g) or not isinstance(v, z3.ExprRef): return v
    ps = []
    for c in (g.children() if z3.is_and(g) else [g]):
        if z3.is_not(c): ps.append((c.arg(0), FALSE))
        else: ps.append((c, TRUE))
    return z3.simplify(z3.substitute(v, *ps))
def infer_array(s, h, x0, nexts, decs, kappa, sub_all, ok):
    H = h.a; hname = H.decl().name()
    per = []
    idx = None
    ranges = []
    for nx in nexts:
        w = chain_writes(nx, H)
        if w is None: return None
        # drop exact overwrites of the same index
        if len(w) == 0: per.append(None); continue
        if any(hi is not None for _, _, hi, _ in w): 
            ranges.append(w); per.append(None); continue
        i0 = z3.simplify(sub_all(w[0][1]))
        for g, i, _, f in w[1:]:
            if not z3.simplify(sub_all(i)).eq(i0): return None
        if idx is None: idx = i0
        elif not idx.eq(i0): return None
        per.append(w)
    if ranges:
        return infer_range(s, h, x0, nexts, decs, kappa, sub_all, ok)
    if idx is None or not ok(idx): return None
    c = z3.simplify(z3.substitute(idx, (kappa, kappa + 1)) - idx)
    c = ival(c)
    if c == 0: return infer_cell(idx, H, x0, per, decs, kappa, sub_all, ok)
    if c not in (1, -1): return None
    a = z3.simplify(z3.substitute(idx, (kappa, iv(0))))
    def fix(e):
        """reads of the array itself: not yet overwritten -> entry value"""
        e = sub_all(e)
        if not mentions(e, {hname}): return e
        def rd(j):
            d = z3.simplify(j - idx)
            v = ival(d)
            if v is None: raise NoClosed()
            if c * v >= 0: return x0.read(j)
            raise NoClosed()
        return rewrite_selects(e, H, rd)
    try:
        vals = []
        for w in per:
            cur = z3.Select(H, idx)
            if w is not None:
                for g, i, _, f in w:
                    cur = ite(g, assume_in(f(i), g), cur)
            vals.append(z3.simplify(fix(cur)))
        dd = [fix(d) for d in decs]
    except NoClosed: return None
    v = vals[-1]
    for d, x in list(zip(dd, vals))[-2::-1]: v = x if x.eq(v) else ite(d, x, v)
    if not ok(v): return None
    def at(x):
        t = z3.simplify(x - a) if c == 1 else z3.simplify(a - x)
        return z3.substitute(v, (kappa, t))
    if c == 1: return lambda t: FRange(x0, a, z3.simplify(a + t), at)
    return lambda t: FRange(x0, z3.simplify(a - t + 1), z3.simplify(a + 1), at)

def infer_cell(idx, H, x0, per, decs, kappa, sub_all, ok):
    """every iteration overwrites, or adds to, the same element"""
    hname = H.decl().name(); cell = z3.Select(H, idx); vals = []
    for w in per:
        cur = cell
        for g, i, _, f in w or ():
            cur = ite(sub_all(g), assume_in(sub_all(f(i)), g), cur)
        vals.append(z3.simplify(sub_all(cur)))
    v = vals[-1]
    for d, x in list(zip(decs, vals))[-2::-1]: v = x if x.eq(v) else ite(sub_all(d), x, v)
    end = z3.simplify(idx + 1)
    if not mentions(v, {hname}):
        if not ok(v): return None
        return lambda t: FIte(z3.simplify(t > 0), FRange(x0, idx, end, lambda j: z3.substitute(v, (kappa, z3.simplify(t - 1)))), x0)
    if cell.sort() not in (I, R): return None
    d = delta(v, cell)
    if not ok(d) or mentions(d, {hname}): return None
    return lambda t: FRange(x0, idx, end, lambda j: x0.read(idx) + Sum(lambda u: z3.substitute(d, (kappa, u)), t))

def infer_range(s, h, x0, nexts, decs, kappa, sub_all, ok):
    """every iteration overwrites, or adds to, the same index range"""
    H = h.a; hname = H.decl().name()
    if len(nexts) != 1: return None
    w = chain_writes(nexts[0], H)
    if len(w) != 1: return None
    g, lo, hi, fn = w[0]
    if not z3.is_true(g): return None
    lo, hi = z3.simplify(sub_all(lo)), z3.simplify(sub_all(hi))
    if not ok(lo) or not ok(hi) or mentions(lo, {kappa.decl().name()}) or mentions(hi, {kappa.decl().name()}): return None
    x = scratch(I)
    v = sub_all(fn(x))
    if not mentions(v, {hname}):
        if not ok(v): return None
        return lambda t: FIte(z3.simplify(t > 0), FRange(x0, lo, hi, lambda j: z3.substitute(v, (kappa, z3.simplify(t - 1)), (x, zint(j)))), x0)
    d = delta(v, z3.Select(H, x))
    if ok(d) and not mentions(d, {hname}):
        return lambda t: FRange(x0, lo, hi, lambda j: x0.read(j) + Sum(lambda u: z3.substitute(d, (kappa, u), (x, zint(j))), t))
    return None

def check_closed(s, S0, closed, kappa, backs, emit):
    bad = set()
    k1 = z3.simplify(kappa + 1)
    for key, fn in closed.items():
        o, p = key
        want0 = fn(iv(0)); want = fn(k1)
        x0 = leaves(S0.store[o])[p]
        if not emit:
            pass
        for st in backs:
            s.st = st.copy()
            got = leaves(st.store[o])[p]
            if isinstance(got, FArr):
                x = s.fresh(I, 'sk'); goal = got.read(x) == want.read(x)
                for tm in (got.read(x), want.read(x)): pass
            else: goal = got == want
            # Sum unfolding by definition
            hints = sum_unfold(goal, kappa)
            if emit: s.oblige('loop-invariant', goal, 'closed form preserved', hints=hints)
            else:
                g = z3.simplify(goal)
                if z3.is_true(g): continue
                n = len(s.st.pc)
                for hh in hints: s.assume(hh)
                if not s.proves(g) and not proves_sums(s, g): bad.add(key); break
    return bad

def check_accs(s, accs, kappa, syms, backs, emit):
    bad = set()
    for a in accs:
        h = syms[a.key]
        for st in backs:
            s.st = st.copy()
            goal = leaves(st.store[a.key[0]])[a.key[1]] == a.next(h, kappa)
            if emit: s.oblige('loop-invariant', goal, 'flag step')
            elif not z3.is_true(z3.simplify(goal)) and not s.proves(goal): bad.add(a.key); break
    return bad

def proves_sums(s, g):
    """with the extensionality of sums"""
    from . import solve
    ax = solve.sum_axioms([lnot(g)], rounds=1, cap=8)
    if not ax: return False
    return s.check_sat(land(lnot(g), *ax)) == z3.unsat

def sum_unfold(goal, kappa):
    """Sum(F,k+1) = Sum(F,k) + F(k), Sum(F,0)=0 for the sums in the goal"""
    out = []
    for a in apps_of(goal, lambda x: SUMS.is_sum(x)).values():
        hi = SUMS.hi(a)
        zero = 0
        if ival(hi) == 0: out.append(a == 0); continue
        d = z3.simplify(hi - kappa)
        if ival(d) == 1:
            prev = a.decl()(*(a.children()[:-1] + [kappa]))
            out.append(imp(kappa >= 0, a == prev + SUMS.body(a, kappa)))
    return out

# ---------------------------------------------------------------- annotations
def find_spec(s, n, S0, mods):
    if not s.loop_specs: return None
    L = LoopCtx(s, n, S0, mods)
    for sp in s.loop_specs:
        if sp.func is not None and not any(f.split('::')[-1] == sp.func or f == sp.func for f in s.funcstack[-1:]): continue
        if sp.match(L): 
            s.specs_used.add(sp.name)
            return sp
    # a loop moved into a helper of the annotated function
    own = [k for k, fr in enumerate(S0.frames) if fr.get('__f__') is not None and not fr['__stub__']]
    for sp in s.loop_specs:
        if sp.func is None: continue
        ks = [k for k in own[:-1] if S0.frames[k]['__f__'].qual.split('::')[-1] == sp.func or S0.frames[k]['__f__'].qual == sp.func]
        if not ks: continue
        L = LoopCtx(s, n, S0, mods, ks[-1])
        if sp.match(L):
            s.specs_used.add(sp.name); s.specs_loose.add(sp.name)
            return sp
    return None

class LoopCtx:
    def __init__(s, ex, n, S0, mods, base=-1):
        s.ex, s.n, s.S0, s.mods = ex, n, S0, mods
        s.names = {}; seen = set()
        for fr in S0.frames[base:]:
            for nm, r in fr['__names__'].items():
                key = tuple((a[1], a[2]) for a in r.alts)
                if key in seen and nm not in s.names: continue      # another name for the same object
                seen.add(key); s.names[nm] = r
        s.base = S0.frames[base].get('__f__')
    def modified_names(s):
        out = set()
        oids = {o for o, p in s.mods}
        for nm, r in s.names.items():
            if any(a[1] in oids for a in r.alts): out.add(nm)
        return out
    def mod_roles(s):
        """modified variables by the names the annotations use"""
        m = s.modified_names()
        out = set(m)
        V = View(s.ex, s.S0, None, s)
        if s.base is None: return out
        for a, b in chain_aliases(s.ex.P, s.S0.frames).items():
            if b in m: out.add(a)
        oids = {o for o, p in s.mods}
        for b in BASE().get(s.base.qual.split('::')[-1], []):
            if 'DoubleBuffer' in b[1] and b[0] not in out:
                try:
                    if any(any(a[1] in oids for a in V.buffer(b[0], w).alts) for w in ('get_src', 'get_dest')): out.add(b[0])
                except Unsupported: pass
        return out
    def has_inner_loop(s):
        def walk(x):
            if not isinstance(x, dict): return False
            for c in x.get('inner', []) or []:
                if c and (c.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') or walk(c)): return True
            return False
        return walk(s.n)

def spec_facts(s, spec, kappa, syms, S0):
    if spec is None: return
    V = View(s, s.st, kappa)
    V.entry = View(s, S0, iv(0))
    for ref, lo, hi, E in spec.arrays(V):
        sq = s.load(ref)
        s.store(ref, sq.with_(data=FRange(sq.data, lo, hi, E)))
    V = View(s, s.st, kappa); V.entry = View(s, S0, iv(0))
    for nm, f in spec.facts(V): s.assume(f)
    for nm, f in spec.lemmas(V): s.lemma(nm, f)

def check_spec(s, spec, st, kappa, S0, when, head=None):
    if spec is None: return
    V = View(s, s.st, kappa); V.entry = View(s, S0, iv(0)); V.head = View(s, head, None) if head is not None else None
    hints = spec.check_lemmas(V, when)
    for nm, f in hints: s.lemma_used(nm)
    hf = [f for _, f in hints]
    for nm, f in spec.facts(V): s.oblige('loop-invariant', f, '%s (%s)' % (nm, when), hints=hf, quick=not hf)
    for ref, lo, hi, E in spec.arrays(V):
        x = s.fresh(I, 'sk')
        sq = s.load(ref)
        s.oblige('loop-invariant', z3.Implies(z3.And(lo <= x, x < hi), sq.data.read(x) == E(x)), 'array contents (%s)' % when, hints=hf + spec.elem_lemmas(V, when, x), quick=not hf)

class LoopSpec:
    name = ''; func = None
    def match(s, L): return False
    def enter(s, V): pass
    def arrays(s, V): return []
    def facts(s, V): return []
    def lemmas(s, V): return []
    def check_lemmas(s, V, when): return []
    def elem_lemmas(s, V, when, x): return []

# ---------------------------------------------------------------- simple bounds by Houdini
def lval(st, k): return leaves(st.store[k[0]])[k[1]]

def int_atoms(c):
    if z3.is_not(c): yield from int_atoms(c.arg(0)); return
    if z3.is_and(c) or z3.is_or(c):
        for x in c.children(): yield from int_atoms(x)
        return
    if z3.is_app(c) and c.num_args() == 2 and c.arg(0).sort() == I and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ): yield c

class Step:
    """substitution head -> next of a back path, head -> entry"""
    def __init__(s, S0, head, syms, kappa):
        s.kappa = kappa
        s.S0 = S0
        s.hv = []
        for k, v in syms.items():
            h = lval(head, k)
            if isinstance(h, z3.ExprRef) and z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED and h.eq(v): s.hv.append((k, h))
    def next(s, f, st):
        return z3.substitute(f, *([(h, lval(st, k)) for k, h in s.hv if isinstance(lval(st, k), z3.ExprRef)] + [(s.kappa, s.kappa + 1)]))
    def init(s, f):
        return z3.substitute(f, *([(h, lval(s.S0, k)) for k, h in s.hv] + [(s.kappa, iv(0))]))

def generic_candidates(s, S0, head, mods, closed, backs, kappa, it, spec, syms):
    """bounds of integers without a closed form, and orderings suggested by the guards"""
    step = Step(S0, head, syms, kappa)
    cands = []; seen = set()
    def addc(f):
        f = z3.simplify(f)
        if z3.is_true(f) or z3.is_false(f) or f.get_id() in seen: return
        seen.add(f.get_id()); s.keep.append(f); cands.append(f)
    n0 = len(head.pc); fr = head.fresh
    for st in backs:
        for c in st.ghost.get('dec', ()):
            for a in int_atoms(c):
                if newest(a, fr): continue
                addc(a.arg(0) <= a.arg(1)); addc(a.arg(0) >= a.arg(1))
    if spec is None:
        opens = [h for k, h in step.hv if h.sort() == I]
        for k, h in step.hv:
            if h.sort() == I: addc(h >= lval(S0, k)); addc(h <= lval(S0, k))
        allv = opens + [lval(head, k) for k in closed if isinstance(lval(head, k), z3.ExprRef) and lval(head, k).sort() == I]
        for a in opens:
            for b in allv:
                if not a.eq(b): addc(a <= b); addc(b <= a)
    cur = []
    s.st = S0.copy()
    for f in cands:
        if s.proves(step.init(f)): cur.append(f)
    # those that hold anyway need not be carried
    s.st = head.copy()
    cur = [f for f in cur if not s.proves(f)]
    for rnd in range(8):
        if not cur: return [], step
        s.st = head.copy()
        for f in cur: s.assume(f)
        res = s.explore(it)
        bs = [st for out, st in res if out[0] == 'normal' and out[1] == 'back']
        nxt = []
        for f in cur:
            good = True
            for st in bs:
                s.st = st.copy()
                if not s.proves(step.next(f, st)): good = False; break
            if good: nxt.append(f)
        if len(nxt) == len(cur): return cur, step
        cur = nxt
    return [], step

# ---------------------------------------------------------------- termination
def check_variant(s, S0, head, syms, backs, res, kappa):
    if not backs: return
    step = Step(S0, head, syms, kappa)
    exs = [st for out, st in res if not (out[0] == 'normal' and out[1] == 'back')]
    meas = []; seen = set(); n0 = len(head.pc)
    def addm(m):
        m = z3.simplify(m)
        if m.get_id() in seen or newest(m, head.fresh): return
        seen.add(m.get_id()); s.keep.append(m); meas.append(m)
    for st in exs + backs:
        for c in st.pc[n0:]:
            if has_quant(c): continue
            for a in int_atoms(c):
                addm(a.arg(1) - a.arg(0)); addm(a.arg(0) - a.arg(1))
    for m in meas:
        good = True
        for st in backs:
            s.st = st.copy()
            if not s.proves(z3.And(m >= -1, step.next(m, st) < m)): good = False; break
        if good:
            for st in backs:
                s.st = st.copy()
                s.oblige('terminates', z3.And(m >= -1, step.next(m, st) < m), 'variant %s' % short(m))
            return
    s.oblige('terminates', FALSE, 'no variant found')
