"""Function contracts: one declarative Spec serves both sides - the callee's
body is checked against it, callers use it instead of the body."""
import z3
from .term import *
from .values import *
from .cxx import T, PRIM
from . import exec as X
from .exec import *
from .loops import Detached

class SetRange:
    """ptr[lo..hi) := E(m) (m relative to the pointer); everything else in the block unchanged"""
    def __init__(s, ptr, lo, hi, E, hints=None, rest='same'): s.ptr, s.lo, s.hi, s.E, s.hints, s.rest = ptr, zint(lo), zint(hi), E, hints, rest
class Set:
    def __init__(s, ref, val): s.ref, s.val = ref, val
class Any:
    def __init__(s, ref): s.ref = ref
class AnyRange:
    """ptr[lo..hi) arbitrary"""
    def __init__(s, ptr, lo, hi): s.ptr, s.lo, s.hi = ptr, zint(lo), zint(hi)
class AnySeq:
    """all elements arbitrary (length unchanged)"""
    def __init__(s, ptr): s.ptr = ptr

class Spec:
    def __init__(s): 
        s.requires = []; s.throws = []; s.mods = []; s.result = None; s.result_make = None; s.result_facts = None; s.hints = []; s.result_hints = None
        s.separate = []; s.frees = None; s.out = None; s.raises_any = []; s.post = None; s.result_arr = None

class Ctx:
    def __init__(s, ex, f, this, av): s.ex, s.f, s.this, s.av = ex, f, this, av
    def val(s, i):
        v = s.av[i]
        return s.ex.load(v) if isinstance(v, Ref) else v
    def ref(s, i): return s.av[i]
    def field(s, *path): 
        try: return s.ex.load(s.this.ext(*path))
        except Unsupported as e: raise Detached(str(e))
    def fref(s, *path): return s.this.ext(*path)

class Contract:
    name = ''; qual = ''; nparams = None; types = None
    lemmas = ()
    loops = ()
    enabled = True
    def absent_ok(s, P): return False      # may the function be missing from the source?
    inline_only = False     # body is inlined at call sites; the contract is still verified
    def find(s, P):
        """the function(s) this contract is attached to"""
        cand = []
        nm = s.qual.split('::')[-1]; cls = s.qual.rsplit('::', 1)[0] if '::' in s.qual else None
        for f in P.find(nm, s.nparams):
            if (f.cls or None) == cls and (s.types is None or [repr(P.ty(p)) for p in f.params] == list(s.types)): cand.append(f)
        return cand
    def setup(s, ex, f): return None, default_args(ex, f)
    def spec(s, C): raise NotImplementedError
    # ------------------------------------------------------------ call side
    def apply_call(s, ex, f, this, av):
        C = Ctx(ex, f, this, av)
        sp = s.spec(C)
        for nm, fm in sp.requires: ex.oblige('precondition', fm, '%s: %s' % (s.name, nm))
        for a, b in sp.separate: separate(ex, a, b, s.name)
        for cls, c in sp.throws:
            if z3.is_quantifier(c) or has_quant(c):
                # decide by an uninterpreted flag
                b = ex.fresh(B, 'throws_' + s.name)
                ex.assume(b == c)
                if ex.branch(b): raise ThrowX(cls, Opaque('exc:' + cls))
                ex.assume(lnot(c))
            elif ex.branch(c): raise ThrowX(cls, Opaque('exc:' + cls))
        for cls in sp.raises_any:
            if ex.branch(ex.fresh(B, 'mayraise')): raise ThrowX(cls, Opaque('exc:' + cls))
        apply_mods(ex, sp.mods)
        if sp.frees:
            for p in sp.frees: ex.free(p)
        if sp.out:
            for o in sp.out: ex.st.out.append(o)
        if sp.post: sp.post(C)
        return s.make_result(ex, f, sp)
    def make_result(s, ex, f, sp):
        if sp.result is not None: return sp.result
        if sp.result_make is not None:
            r = sp.result_make()
            for nm, fm in (sp.result_facts(r) if sp.result_facts else []): ex.assume(fm)
            return r
        if sp.result_arr is not None:
            ln, et, lo, hi, E = sp.result_arr
            r = Seq(ln, FRange(ex.fresh_lift(et, 'res'), lo, hi, E), et, ex.bid(), 'vec')
            for nm, fm in (sp.result_facts(r) if sp.result_facts else []): ex.assume(fm)
            return r
        return None
    # ------------------------------------------------------------ callee side
    def verify(s, ex, f):
        ex.verifying = s
        ex.loop_specs = list(s.loops)
        ex.mode = 'final'
        npaths = [0]
        def go():
            ex.funcstack = []
            this, av = s.setup(ex, f)
            C = Ctx(ex, f, this, av)
            fr = {'__tu__': f.tu, '__func__': f.qual, '__stub__': False, '__names__': {}, '__up__': None, '__f__': f}
            ex.st.frames = [fr]
            if this is not None: fr['__this__'] = this
            ent0 = ex.st
            sp = s.spec(C)
            for nm, fm in sp.requires: ex.assume(fm)
            s.extra_assume(ex, C, sp)
            ent = ex.st.copy()
            line = X.func_line(f)
            try:
                rv = ex.inline(f, this, av)
            except ThrowX as t:
                ex.funcstack = [f.qual]; ex.line = line
                s.check_throw(ex, C, sp, t, ent); npaths[0] += 1
                return 'throw'
            ex.funcstack = [f.qual]; ex.line = line
            s.check_return(ex, C, sp, rv, ent); npaths[0] += 1
            return 'return'
        r = ex.explore(go)
        if not r: ex.obls.append(Obl('%s:vacuous' % f.qual, 'reachability', f.qual, 0, [], FALSE))
        ex.verifying = None
        return [o for o, _ in r]
    def extra_assume(s, ex, C, sp): pass
    def check_throw(s, ex, C, sp, t, ent):
        prev = []
        conds = []
        for cls, c in sp.throws:
            if exc_matches(ex.P, t.cls, cls): conds.append(land(*([c] + [lnot(p) for p in prev])))
            prev.append(c)
        if any(exc_matches(ex.P, t.cls, k) for k in sp.raises_any): return
        s.post(ex, 'throws %s only when specified' % t.cls, lor(*conds), sp)
    def check_return(s, ex, C, sp, rv, ent):
        s.rv = rv
        for cls, c in sp.throws:
            s.post(ex, 'returns normally only when no error is specified', lnot(c), sp)
        if sp.result is not None:
            if isinstance(sp.result, z3.ExprRef):
                s.post(ex, 'result', rv == sp.result, sp, sp.result_hints(rv) if sp.result_hints else ())
            elif isinstance(sp.result, Ptr):
                s.post(ex, 'result pointer', ex.ptr_eq(rv, sp.result) if not ex.same_base(rv, sp.result) else rv.off == sp.result.off, sp)
            elif isinstance(sp.result, Seq):
                s.post(ex, 'result length', rv.len == sp.result.len, sp)
                x = ex.fresh(I, 'sk')
                la, lb = ldleaves(rv.data), ldleaves(sp.result.data)
                for p in lb: s.post(ex, 'result contents', z3.Implies(z3.And(x >= 0, x < sp.result.len), la[p].read(x) == lb[p].read(x)), sp, sp.result_hints(x) if sp.result_hints else ())
            elif isinstance(sp.result, Struct):
                la, lb = leaves(rv), leaves(sp.result)
                for p in lb:
                    if isinstance(lb[p], z3.ExprRef): s.post(ex, 'result %s' % (p,), la[p] == lb[p], sp)
            else: raise Unsupported('result kind')
        if sp.result_arr is not None:
            ln, et, lo, hi, E = sp.result_arr
            s.post(ex, 'result length', rv.len == ln, sp)
            x = ex.fresh(I, 'sk')
            s.post(ex, 'result contents', z3.Implies(z3.And(x >= lo, x < hi), rv.data.read(x) == E(x)), sp, sp.result_hints(x) if sp.result_hints else ())
        if sp.result_facts is not None:
            for nm, fm in sp.result_facts(rv): s.post(ex, nm, fm, sp, sp.result_hints(rv) if sp.result_hints and sp.result_arr is None else ())
        s.check_frame(ex, C, sp, ent)
        s.check_more(ex, C, sp, rv, ent)
    def check_more(s, ex, C, sp, rv, ent): pass
    def post(s, ex, msg, fm, sp=None, hints=()):
        h = list(sp.hints if sp else []) + list(hints)
        ex.oblige('postcondition', fm, msg, hints=h, quick=not h)
    def check_frame(s, ex, C, sp, ent):
        """every object that existed at entry has its specified value"""
        actual = ex.st
        exp = ent.copy()
        # constants touched later share the expected state's names
        sv = ex.st; ex.st = exp
        anys = []
        hints = {}
        try:
            apply_mods(ex, sp.mods, check=True, anys=anys, hints=hints)
        finally: ex.st = sv
        freed = actual.freed
        tofree = set()
        for p in (sp.frees or []):
            for g, t in p.alts:
                if t: tofree.add(t[0])
        for o in ent.store:
            if o in tofree:
                s.post(ex, 'releases %s' % o, TRUE if o in freed else FALSE, sp); continue
            if o in freed:
                s.post(ex, 'does not release %s' % o, FALSE, sp); continue
            if any(g is o for g in ()): continue
            a, b = actual.store.get(o), exp.store.get(o)
            if a is b: continue
            if ('obj', o, ()) in anys: continue
            la, lb = leaves(a), leaves(b)
            if set(la) != set(lb): raise Unsupported('shape of %s' % o)
            for p in la:
                if p and p[-1] == '#bid': continue
                if any(k[0] != 'range' and k[1] == o and p[:len(k[2])] == k[2] for k in anys): continue
                x, y = la[p], lb[p]
                if same_leaf(x, y): continue
                if isinstance(x, FArr):
                    sk = ex.fresh(I, 'sk')
                    ln = None
                    for k in range(len(p)):
                        q = p[:k] + ('#len',)
                        if q in la: ln = la[q]
                    g = x.read(sk) == y.read(sk)
                    if ln is not None: g = z3.Implies(z3.And(sk >= 0, sk < ln), g)
                    for k in anys:
                        if k[0] == 'range' and k[1] == o and p[:len(k[2])] == k[2]: g = z3.Implies(lnot(z3.And(k[3] <= sk, sk < k[4])), g)
                    hh = []
                    for key, hf in hints.items():
                        if key[0] == o: hh += hf(sk)
                    s.post(ex, 'contents of %s' % short_oid(o, C), g, sp, hh)
                elif isinstance(x, Ptr) or isinstance(y, Ptr):
                    if not same_leaf(x, y): s.post(ex, 'pointer %s%s unchanged' % (short_oid(o, C), p), FALSE, sp)
                elif isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    s.post(ex, 'value of %s%s' % (short_oid(o, C), ''.join('.' + str(q) for q in p)), x == y, sp)
                elif isinstance(x, Opaque) or isinstance(y, Opaque): pass
                else: s.post(ex, 'value of %s%s' % (short_oid(o, C), p), FALSE, sp)

def short_oid(o, C): return o
def ldleaves(d):
    out = {}
    ldata(d, (), out)
    return out

def separate(ex, a, b, who):
    for g, t in a.alts:
        for h, u in b.alts:
            if t is not None and u is not None and t[0] == u[0] and t[1] == u[1]:
                ex.oblige('precondition', lnot(land(g, h)), '%s: arguments do not overlap' % who)

def apply_mods(ex, mods, check=False, anys=None, hints=None):
    from . import lib
    for m in mods:
        if isinstance(m, Set): ex.store(m.ref, m.val)
        elif isinstance(m, Any):
            for g, o, p in m.ref.alts:
                if anys is not None: anys.append(('obj', o, p))
                else:
                    v = ex.get_path(ex.st.store[o], p)
                    ex.st.store[o] = ex.set_path(ex.st.store[o], p, havoc_tree(ex, v))
        elif isinstance(m, AnySeq):
            for g, t in m.ptr.alts:
                if t is None: continue
                if anys is not None: anys.append(('data', t[0], t[1] + ('#data',)))
                else:
                    r = Ref([(TRUE, t[0], t[1])]); q = ex.load(r)
                    ex.store(r, q.with_(data=ex.fresh_lift(q.et, 'any')))
        elif isinstance(m, AnyRange):
            if anys is not None:
                for g, t in m.ptr.alts:
                    if t is not None: anys.append(('range', t[0], t[1] + ('#data',), m.ptr.off + m.lo, m.ptr.off + m.hi))
            else:
                for g, t in m.ptr.alts[:1]:
                    q = ex.get_path(ex.obj(t[0]), t[1], check=False)
                    d = ex.fresh_lift(q.et, 'any')
                lib.write_range(ex, Ptr(m.ptr.alts, add(m.ptr.off, m.lo)), sub(m.hi, m.lo), lambda x: d.read(x))
        elif isinstance(m, SetRange):
            if check:
                for g, t in m.ptr.alts:
                    if t is None: continue
                    r = Ref([(TRUE, t[0], t[1])]); q = ex.load(r)
                    off = m.ptr.off
                    if m.rest == 'any':
                        # only the specified part is compared
                        act = None
                        q = q.with_(data=map_any(ex, q.data))
                    nd = FRange(q.data, off + m.lo, off + m.hi, lambda x, off=off, m=m: m.E(sub(x, off)))
                    ex.st.store[t[0]] = ex.set_path(ex.st.store[t[0]], t[1], q.with_(data=nd), check=False)
                    if m.hints: hints[(t[0], len(hints))] = lambda x, off=off, m=m: m.hints(sub(x, off))
            else:
                if m.rest == 'any':
                    apply_mods(ex, [AnySeq(m.ptr)])
                lo = m.lo
                p2 = Ptr(m.ptr.alts, add(m.ptr.off, lo))
                lib.write_range(ex, p2, sub(m.hi, lo), lambda x, m=m, lo=lo: m.E(add(x, lo)))
        else: raise Unsupported('modification')
def map_any(ex, d): return d

def havoc_tree(ex, v):
    if isinstance(v, Struct): return Struct(v.cname, {k: havoc_tree(ex, x) for k, x in v.f.items()})
    if isinstance(v, Seq): return v.with_(len=ex.fresh(I, 'len'), data=ex.fresh_lift(v.et, 'any'), bid=ex.bid())
    if isinstance(v, z3.ExprRef): return ex.fresh(v.sort(), 'any')
    return v

# ---------------------------------------------------------------- default arguments
def default_args(ex, f):
    av = []
    for p in f.params:
        t = ex.P.ty(p); nm = p.get('name', 'arg')
        av.append(default_arg(ex, t, nm))
    return av
def default_arg(ex, t, nm):
    if t.kind == 'ref':
        v = ex.fresh_value(t.sub, nm)
        return Ref([(TRUE, ex.new_obj(v, nm), ())])
    if t.kind == 'ptr' and not ex.is_handle(t):
        return block(ex, t.sub, nm)
    return ex.fresh_value(t, nm)
def block(ex, t, nm, n=None):
    if n is None:
        n = ex.fresh(I, nm + '_len'); ex.assume(z3.And(n >= 0, n <= 2 ** 31))
    o = ex.new_obj(Seq(n, ex.fresh_lift(t, nm), t, ex.bid(), 'heap'), nm, heap='heap')
    return ex.seq_ptr(Ref([(TRUE, o, ())]))
# a class keeps its work arrays in blocks of its own (pointer members) or in vectors
def is_buf(P, fd):
    t = P.ty(fd)
    return t.kind == 'ptr' or (t.kind == 'cls' and t.name == 'vector')
def vec_members(P, cls):
    c = P.classes.get(cls)
    return c is not None and c.fields and not any(P.ty(fd).kind == 'ptr' for _, fd, _, _ in c.fields)
def elem_type(t): return t.sub if t.kind == 'ptr' else t.args[0]
def member_buf(ex, this, name):
    """pointer to the first element of the array in a member"""
    v = ex.load(this.ext(name))
    if isinstance(v, Ptr): return v
    if isinstance(v, Seq): return ex.seq_ptr(this.ext(name))
    raise Detached('member %s is no array' % name)
def new_buf(ex, t, nm, n, fill=None):
    """value of an array member of type t with n elements (fill(lo data) -> data)"""
    if t.kind == 'ptr':
        p = block(ex, t.sub, nm, n)
        if fill is not None:
            ref = Ref([(TRUE, p.alts[0][1][0], ())]); q = ex.load(ref)
            ex.store(ref, q.with_(data=fill(q.data)))
        return p
    d = ex.fresh_lift(t.args[0], nm)
    return Seq(n, fill(d) if fill is not None else d, t.args[0], ex.bid(), 'vec')
def own_buf(s, ex, sp, nm, this, name, ent):
    """the member holds memory of its own, allocated by this call"""
    v = ex.load(this.ext(name))
    p = member_buf(ex, this, name)
    if isinstance(v, Ptr):
        ok = len(p.alts) == 1 and p.alts[0][1] is not None and p.alts[0][1][0] not in ent.store
        s.post(ex, '%s is a fresh block' % nm, (p.off == 0) if ok else FALSE, sp)
    return p
def disjoint(ex, a, b):
    """the two pointers do not designate the same array"""
    return land(*[lnot(land(g, h)) for g, t in a.alts for h, u in b.alts if t is not None and u is not None and t[0] == u[0] and t[1] == u[1]])
def blen(ex, p):
    """elements available from pointer p (guarded)"""
    res = None
    for g, t in reversed(p.alts):
        if t is None: continue
        q = ex.get_path(ex.obj(t[0]), t[1], check=False)
        if not isinstance(q, Seq): raise Detached('buffer is %r' % (q,))
        ln = sub(q.len, p.off)
        res = ln if res is None else ite(g, ln, res)
    return res
def reader(ex, p):
    """entry contents m -> p[m]"""
    data = []
    for g, t in p.alts:
        if t is None: continue
        q = ex.get_path(ex.obj(t[0]), t[1], check=False)
        data.append((g, q.data))
    off = p.off
    def rd(m):
        v = None
        for g, d in reversed(data):
            x = d.read(add(off, m)); v = x if v is None else ite(g, x, v)
        return v
    return rd
