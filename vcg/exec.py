"""Symbolic executor: walks clang's AST of the real sources, function by function."""
import z3, re
from .term import *
from .values import *
from .cxx import T, PRIM, Program, Func, tystr

INT, DBL, BOOL, LONG, ULONG = PRIM['int'], PRIM['double'], PRIM['bool'], PRIM['long'], PRIM['unsigned long']
NMAX = 2 ** 20

class Infeasible(Exception): pass
class PathLimit(Unsupported): pass
class ReturnX(Exception):
    def __init__(s, v): s.v = v
class BreakX(Exception): pass
class ContinueX(Exception): pass
class ThrowX(Exception):
    def __init__(s, cls, obj=None): s.cls, s.obj = cls, obj

class State:
    __slots__ = ('store', 'pc', 'out', 'freed', 'frames', 'fresh', 'ghost', 'heap')
    def __init__(s):
        s.store = {}; s.pc = []; s.out = []; s.freed = frozenset(); s.frames = []; s.fresh = 0; s.ghost = {}; s.heap = {}
    def copy(s):
        n = State()
        n.store = dict(s.store); n.pc = list(s.pc); n.out = list(s.out); n.freed = s.freed
        n.frames = [dict(f) for f in s.frames]; n.fresh = s.fresh; n.ghost = dict(s.ghost); n.heap = dict(s.heap)
        return n

class Obl:
    __slots__ = ('name', 'kind', 'func', 'line', 'hyps', 'goal', 'hints', 'status', 'backend', 'time', 'detail', 'nfacts')
    def __init__(s, name, kind, func, line, hyps, goal, hints=()):
        s.name, s.kind, s.func, s.line, s.hyps, s.goal, s.hints = name, kind, func, line, hyps, goal, list(hints)
        s.status = None; s.backend = ''; s.time = 0.0; s.detail = ''

class Oracle:
    def __init__(s, prefix, xid): s.prefix, s.pos, s.trace, s.xid = prefix, 0, [], xid
    def choose(s, n):
        if s.pos < len(s.prefix): c = s.prefix[s.pos][0]
        else: c = 0
        s.trace.append((c, n)); s.pos += 1
        return c
    def next(s):
        t = list(s.trace)
        while t:
            c, n = t.pop()
            if c + 1 < n: return t + [(c + 1, n)]
        return None

def lin_only_solver(timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    return s

class Ex:
    MAXPATHS = 400
    def __init__(s, prog, contracts=None):
        s.P = prog
        s.contracts = contracts or {}
        s.st = State()
        from . import lib as _l
        s.st.pc = [_l.INF > 2 ** 1024]      # infinity exceeds every finite double
        s.oracle = None
        s.obls = []
        s.seen = set()
        s.mode = 'final'          # 'mods' | 'probe' | 'final'
        s.xids = 0
        s.cache = {}
        s.funcstack = []; s.specs_loose = set()
        s.line = 0
        s.spec = None             # active FunctionSpec (gives loop candidates)
        s.used_contracts = set(); s.inlined = set(); s.trusted = set()
        s._slv = None; s._slv_pc = []; s._slv_ids = []
        s.loopinfo = []
        s.solver_calls = 0; s.solver_time = 0.0
        s.final_depth = 0
        s.lits = {}
        s.keep = []
        s.loop_specs = []; s.specs_used = set(); s.lemmas_used = set()

    # ------------------------------------------------------------ naming
    def name(s, tag):
        s.st.fresh += 1
        return '%s!%d' % (tag, s.st.fresh)
    def fresh(s, sort, tag='v'):
        return z3.Const(s.name(tag), sort)
    def new_obj(s, v, tag='o', heap=False):
        o = s.name(tag)
        s.st.store[o] = v
        if heap: s.st.heap[o] = heap
        return o
    def bid(s): return s.name('bid')

    # ------------------------------------------------------------ facts
    def assume(s, f):
        if z3.is_true(f): return
        if z3.is_and(f):
            for c in f.children(): s.assume(c)
            return
        s.st.pc.append(f)
    def lemma(s, name, f):
        s.lemmas_used.add(name); s.assume(f)
    def lemma_used(s, name): s.lemmas_used.add(name)
    def solver(s):
        """incremental solver holding the quantifier-free part of the path condition"""
        pc = s.st.pc
        ids = [f.get_id() for f in pc]
        k = len(s._slv_ids)
        if s._slv is None or k > len(ids) or ids[:k] != s._slv_ids:
            s._slv = z3.SimpleSolver(); s._slv.set('timeout', 400)
            s._slv.set('arith.nl', False)
            s._slv_ids = []; k = 0
        for f in pc[k:]:
            if not has_quant(f): s._slv.add(f)
        s._slv_ids = ids
        s.keep.extend(pc[k:])
        return s._slv
    def check_sat(s, c):
        import time
        t0 = time.time()
        sl = s.solver()
        sl.push(); sl.add(c)
        r = sl.check()
        sl.pop()
        s.solver_calls += 1; s.solver_time += time.time() - t0
        return r
    def proves(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return s.check_sat(lnot(c)) == z3.unsat
    def proves_full(s, c, timeout=2000):
        """with the quantified facts as well"""
        if s.proves(c): return True
        import time
        t0 = time.time()
        sl = z3.Solver(); sl.set('timeout', timeout)
        for f in s.st.pc: sl.add(f)
        sl.add(lnot(c))
        r = sl.check()
        s.solver_calls += 1; s.solver_time += time.time() - t0
        return r == z3.unsat
    def branch(s, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        ft = s.check_sat(c) != z3.unsat
        ff = s.check_sat(lnot(c)) != z3.unsat
        if ft and not ff: s.assume(c); s.st.ghost['dec'] = s.st.ghost.get('dec', ()) + (c,); return True
        if ff and not ft: s.assume(lnot(c)); s.st.ghost['dec'] = s.st.ghost.get('dec', ()) + (lnot(c),); return False
        if not ft and not ff: raise Infeasible()
        if s.oracle.choose(2) == 0:
            s.assume(c); s.st.ghost['dec'] = s.st.ghost.get('dec', ()) + (c,); return True
        s.assume(lnot(c)); s.st.ghost['dec'] = s.st.ghost.get('dec', ()) + (lnot(c),); return False
    def choose(s, n):
        return s.oracle.choose(n) if n > 1 else 0
    def oblige(s, kind, cond, msg='', hints=(), quick=True):
        c = z3.simplify(cond)
        if z3.is_true(c):
            if s.mode == 'final' and kind in ('postcondition', 'precondition'):     # so simple that no solver is needed, but on record
                fn = s.funcstack[-1] if s.funcstack else '?'
                name = '%s:%s:%s%s' % (fn, s.line, kind, (' ' + msg) if msg else '')
                key = (name, tuple(f.get_id() for f in s.st.pc))
                if key not in s.seen:
                    s.seen.add(key); s.keep.extend(s.st.pc)
                    o = Obl(name, kind, fn, s.line, list(s.st.pc), c, ()); o.status = 'proved'; o.backend = 'simplifier'; s.obls.append(o)
            return True
        if s.mode == 'final':
            fn = s.funcstack[-1] if s.funcstack else '?'
            name = '%s:%s:%s%s' % (fn, s.line, kind, (' ' + msg) if msg else '')
            key = (name, c.get_id(), tuple(f.get_id() for f in s.st.pc))
            if key not in s.seen:
                s.seen.add(key); s.keep.append(c); s.keep.extend(s.st.pc)
                o = Obl(name, kind, fn, s.line, list(s.st.pc), cond, hints)
                if quick and not hints and s.proves(c):
                    o.status = 'proved'; o.backend = 'z3 (in-process)'
                s.obls.append(o)
        s.assume(cond)
        return True

    # ------------------------------------------------------------ exploration
    def explore(s, fn, limit=None):
        s.xids += 1
        xid = s.xids
        results = []
        snap = s.st.copy(); saved = s.oracle; fs = list(s.funcstack)
        prefix = []
        cnt = 0
        while True:
            s.st = snap.copy(); orc = Oracle(prefix, xid); s.oracle = orc; s.funcstack = list(fs)
            out = None
            try:
                v = fn(); out = ('normal', v)
            except Infeasible: out = None
            except ReturnX as r: out = ('return', r.v)
            except BreakX: out = ('break', None)
            except ContinueX: out = ('continue', None)
            except ThrowX as t: out = ('throw', t)
            if out is not None: results.append((out, s.st))
            prefix = orc.next()
            cnt += 1
            if cnt > (limit or s.MAXPATHS): raise PathLimit('too many paths')
            if prefix is None: break
        s.st = snap; s.oracle = saved; s.funcstack = fs
        return results

    # ------------------------------------------------------------ types and fresh values
    def sort_of(s, t):
        if t.kind == 'real': return R
        if t.kind == 'int': return I
        if t.kind == 'bool': return B
        if t.kind == 'cls' and t.name == 'string': return I
        if s.is_handle(t): return I
        return None
    def is_handle(s, t):
        return t.kind == 'ptr' and t.sub.kind == 'cls' and t.sub.name == 'fftw_plan_s'
    def range_fact(s, t, v):
        if t.kind == 'int':
            if t.signed: return z3.And(v >= -(2 ** (t.bits - 1)), v <= 2 ** (t.bits - 1) - 1)
            return z3.And(v >= 0, v <= 2 ** t.bits - 1)
        return TRUE
    def fresh_value(s, t, tag='v'):
        so = s.sort_of(t)
        if so is not None:
            v = s.fresh(so, tag)
            if t.kind == 'int': s.assume(s.range_fact(t, v))
            return v
        if t.kind == 'cls':
            if t.name == 'vector':
                n = s.fresh(I, tag + '.len'); s.assume(z3.And(n >= 0, n <= NMAX))
                return Seq(n, s.fresh_lift(t.args[0], tag), t.args[0], s.bid(), 'vec')
            c = s.P.classes.get(repr(t))
            if c is None: raise Unsupported('class %r' % t)
            return Struct(repr(t), {nm: s.fresh_value(s.P.ty(fd), tag + '.' + nm) for nm, fd, _, _ in c.fields})
        if t.kind == 'arr':
            return Seq(t.n, s.fresh_lift(t.sub, tag), t.sub, s.bid(), 'arr')
        raise Unsupported('symbolic value of type %r' % t)
    def fresh_lift(s, t, tag='a', wrap=0):
        so = s.sort_of(t)
        def arr(sort):
            x = z3.ArraySort(I, sort)
            for _ in range(wrap): x = z3.ArraySort(I, x)
            return FBase(s.fresh(x, tag))
        if so is not None: return arr(so)
        if t.kind == 'cls' and t.name == 'vector':
            return LSeq(arr(I), s.fresh_lift(t.args[0], tag, wrap + 1), t.args[0])
        if t.kind == 'cls':
            c = s.P.classes.get(repr(t))
            if c is None: raise Unsupported('class %r' % t)
            return LStruct(repr(t), {nm: s.fresh_lift(s.P.ty(fd), tag + '.' + nm, wrap) for nm, fd, _, _ in c.fields})
        if t.kind == 'arr' or t.kind == 'ptr':
            raise Unsupported('array of %r' % t)
        raise Unsupported('array of %r' % t)
    def default_value(s, t):
        """default-initialised object"""
        if t.kind in ('real', 'int', 'bool', 'ptr'): return UNDEF
        if t.kind == 'cls':
            if t.name == 'string': return s.lit_str('')
            if t.name == 'vector': return Seq(0, s.fresh_lift(t.args[0]), t.args[0], s.bid(), 'vec')
            c = s.P.classes.get(repr(t))
            if c is None: raise Unsupported('class %r' % t)
            if c.is_stub_opaque if hasattr(c, 'is_stub_opaque') else False: return Opaque(t.name)
            return Struct(repr(t), {nm: s.default_value(s.P.ty(fd)) for nm, fd, _, _ in c.fields})
        if t.kind == 'arr':
            return Seq(t.n, s.fresh_lift(t.sub, 'uninit'), t.sub, s.bid(), 'arr')
        raise Unsupported('default value of %r' % t)
    def zero_value(s, t):
        if t.kind == 'real': return rvl(0)
        if t.kind == 'int': return iv(0)
        if t.kind == 'bool': return FALSE
        if s.is_handle(t): return iv(0)
        if t.kind == 'ptr': return NULLP
        if t.kind == 'cls':
            if t.name == 'string': return s.lit_str('')
            if t.name == 'vector': return s.default_value(t)
            c = s.P.classes.get(repr(t))
            if c: return Struct(repr(t), {nm: s.zero_value(s.P.ty(fd)) for nm, fd, _, _ in c.fields})
        raise Unsupported('zero of %r' % t)
    def lit_str(s, text):
        """string contents are identified by an Int 'content id'"""
        b = text.encode('latin-1') if isinstance(text, str) else text
        if b not in s.lits:
            c = z3.Const('lit_%s' % b.hex(), I)
            s.lits[b] = c
        c = s.lits[b]
        k = ('lit', b)
        if k not in s.st.ghost:
            s.st.ghost[k] = True
            s.assume(SLEN(c) == len(b))
            for i, ch in enumerate(b[:40]):
                s.assume(SCHAR(c, iv(i)) == (ch if ch < 128 else ch - 256))
        return c

    # ------------------------------------------------------------ memory
    def get_path(s, v, path, check=True):
        for k, p in enumerate(path):
            if isinstance(p, str):
                if not isinstance(v, Struct): raise Unsupported('field %s of %r' % (p, v))
                if p not in v.f: raise Unsupported('no field %s in %s' % (p, v.cname))
                v = v.f[p]
            else:
                if isinstance(v, Seq):
                    if check: s.oblige('in-bounds', z3.And(p >= 0, p < v.len), 'index %s' % short(p))
                    v = unlift(v.data, p)
                elif isinstance(v, z3.ExprRef) and v.sort() == I:
                    # character of a string value
                    if check: s.oblige('in-bounds', z3.And(p >= 0, p <= SLEN(v)), 'string index %s' % short(p))
                    v = ite(p == SLEN(v), iv(0), SCHAR(v, p))
                    s.assume(z3.And(v >= -128, v <= 127))
                elif check and z3.is_int_value(p) and p.as_long() == 0:
                    pass
                else: raise Unsupported('index into %r' % (v,))
        return v
    def set_path(s, v, path, x, check=True):
        if not path: return x
        p = path[0]
        if isinstance(p, str):
            if not isinstance(v, Struct): raise Unsupported('field store')
            return v.with_(p, s.set_path(v.f[p], path[1:], x, check))
        if isinstance(v, Seq):
            if check: s.oblige('in-bounds', z3.And(p >= 0, p < v.len), 'index %s' % short(p))
            if v.kind == 'cstr' or v.kind == 'const': raise Unsupported('write to constant')
            return v.with_(data=lstore(v.data, p, path[1:], x))
        if z3.is_int_value(p) and p.as_long() == 0:
            return s.set_path(v, path[1:], x, check)
        raise Unsupported('indexed store into %r' % (v,))
    def obj(s, oid):
        if oid in s.st.freed:
            s.oblige('use-after-free', FALSE, oid)
            raise Infeasible()
        if oid not in s.st.store: raise Unsupported('dead object %s' % oid)
        return s.st.store[oid]
    def load(s, ref):
        res = None
        alts = ref.alts
        if len(alts) == 1:
            g, o, p = alts[0]
            v = s.get_path(s.obj(o), p)
        else:
            v = None
            for g, o, p in reversed(alts):
                x = s.guarded(g, lambda: s.get_path(s.obj(o), p))
                v = x if v is None else vite(g, x, v)
        return v
    def guarded(s, g, fn):
        """evaluate fn under the extra assumption g, without forking"""
        if z3.is_true(g): return fn()
        n = len(s.st.pc)
        s.st.pc.append(g)
        r = fn()
        new = s.st.pc[n + 1:]
        s.st.pc = s.st.pc[:n] + [imp(g, f) for f in new]
        return r
    def store(s, ref, v):
        for g, o, p in ref.alts:
            cur = s.obj(o)
            if s.st.heap.get(o) == 'const': s.oblige('write-to-const', FALSE, o)
            if z3.is_true(g) or len(ref.alts) == 1:
                s.st.store[o] = s.set_path(cur, p, v)
            else:
                def go():
                    return s.set_path(cur, p, v)
                nv = s.guarded(g, go)
                s.st.store[o] = vite_tree(g, nv, cur)
    def scalar(s, v, what=''):
        if v is UNDEF:
            s.oblige('uninitialised-read', FALSE, what)
            raise Infeasible()
        return v

    def ptr_ref(s, p, idx=None):
        """lvalue for p[idx]"""
        if not isinstance(p, Ptr): raise Unsupported('deref of %r' % (p,))
        off = p.off if idx is None else add(p.off, idx)
        alts = []
        nulls = [g for g, t in p.alts if t is None]
        if nulls: s.oblige('null-deref', lnot(lor(*nulls)))
        for g, t in p.alts:
            if t is None: continue
            oid, path, seq, bid = t
            if seq:
                if bid is not None:
                    cur = s.get_path(s.obj(oid), path, check=False)
                    if isinstance(cur, Seq) and cur.bid != bid:
                        s.oblige('dangling-pointer', FALSE, oid)
                        raise Infeasible()
                alts.append((g, oid, path + (off,)))
            else:
                if not s.proves(off == 0): s.oblige('in-bounds', off == 0, 'pointer to single object')
                alts.append((g, oid, path))
        if not alts: raise Infeasible()
        if len(alts) == 1: alts = [(TRUE,) + alts[0][1:]]
        return Ref(alts)
    def addr_of(s, ref):
        last = ref.alts[0][2][-1] if ref.alts[0][2] else None
        if last is not None and not isinstance(last, str):
            if all(a[2] and not isinstance(a[2][-1], str) and a[2][-1].eq(last) for a in ref.alts):
                alts = []
                for g, o, p in ref.alts:
                    q = s.get_path(s.obj(o), p[:-1], check=False)
                    alts.append((g, (o, p[:-1], True, q.bid if isinstance(q, Seq) else None)))
                return Ptr(alts, last)
            raise Unsupported('address of guarded element with differing offsets')
        return Ptr([(g, (o, p, False, None)) for g, o, p in ref.alts], 0)
    def seq_ptr(s, ref, off=0):
        """pointer to the first element of the sequence designated by ref"""
        alts = []
        for g, o, p in ref.alts:
            q = s.get_path(s.obj(o), p, check=False)
            alts.append((g, (o, p, True, q.bid if isinstance(q, Seq) else None)))
        return Ptr(alts, off)
    def ptr_eq(s, a, b):
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
            a = iv(0) if isinstance(a, Ptr) else a
            b = iv(0) if isinstance(b, Ptr) else b
            return a == b
        cs = []
        for g1, t1 in a.alts:
            for g2, t2 in b.alts:
                if t1 is None and t2 is None: cs.append(land(g1, g2))
                elif t1 is None or t2 is None: continue
                elif t1[0] == t2[0] and t1[1] == t2[1]: cs.append(land(g1, g2, a.off == b.off))
                elif t1[0] == t2[0]: raise Unsupported('pointer comparison inside one object')
        return lor(*cs)
    def same_base(s, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1:
            return a.alts[0][1] is not None and b.alts[0][1] is not None and a.alts[0][1][:2] == b.alts[0][1][:2]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return same_leaf(Ptr(a.alts, 0), Ptr(b.alts, 0))
        return False

    # ------------------------------------------------------------ numeric
    def wrap(s, t, v):
        """result of an integer operation of type t"""
        if z3.is_int_value(v):
            x = v.as_long()
            if t.signed and -(2 ** (t.bits - 1)) <= x < 2 ** (t.bits - 1): return v
            if not t.signed: return iv(x % 2 ** t.bits)
        if t.signed:
            s.oblige('no-overflow', s.range_fact(t, v), short(v))
            return v
        rng = s.range_fact(t, v)
        if s.proves(rng): return v
        return z3.If(rng, v, v % (2 ** t.bits))
    def conv(s, v, ft, tt):
        if v is UNDEF: return s.scalar(v)
        if tt.kind == 'bool':
            if ft.kind == 'bool': return v
            if isinstance(v, Ptr): return lnot(s.ptr_eq(v, NULLP))
            return v != 0
        if tt.kind == 'int':
            if isinstance(v, Ptr): raise Unsupported('pointer to integer')
            if v.sort() == B: return z3.If(v, iv(1), iv(0)) if not (z3.is_true(v) or z3.is_false(v)) else iv(1 if z3.is_true(v) else 0)
            if v.sort() == R:
                if z3.is_rational_value(v):
                    f = v.as_fraction(); import math
                    return iv(math.trunc(f))
                t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                s.oblige('float-to-int-range', z3.And(v > -(2 ** (tt.bits - 1)) - 1, v < 2 ** (tt.bits - 1)) if tt.signed else z3.And(v > -1, v < 2 ** tt.bits), short(v))
                r = s.fresh(I, 'trunc')
                s.assume(z3.And(imp(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1)), imp(v < 0, z3.And(z3.ToReal(r) >= v, v > z3.ToReal(r) - 1))))
                return r
            if ft is not None and ft.kind == 'int' and ft.bits <= tt.bits and (ft.signed == tt.signed or (not ft.signed and ft.bits < tt.bits)): return v
            if z3.is_int_value(v):
                x = v.as_long() % 2 ** tt.bits
                if tt.signed and x >= 2 ** (tt.bits - 1): x -= 2 ** tt.bits
                return iv(x)
            rng = s.range_fact(tt, v)
            if s.proves(rng): return v
            if tt.signed:
                s.oblige('lossless-conversion', rng, '%s -> %s' % (short(v), tt.name))
                return v
            return z3.If(rng, v, v % (2 ** tt.bits))
        if tt.kind == 'real':
            if v.sort() == B: return z3.If(v, rvl(1), rvl(0))
            if v.sort() == I:
                if z3.is_int_value(v): return rvl(v.as_long())
                return z3.ToReal(v)
            return v
        return v
    def to_bool(s, v, t=None):
        if v is UNDEF: s.scalar(v)
        if isinstance(v, Ptr): return lnot(s.ptr_eq(v, NULLP))
        if v.sort() == B: return v
        return v != 0

    # ------------------------------------------------------------ expressions
    def ty(s, n): return s.P.ty(n)
    def tu(s): return s.st.frames[-1]['__tu__']
    def ev(s, n):
        k = n['kind']
        r = n.get('range', {}).get('begin', {})
        l = r.get('line') or (r.get('expansionLoc') or {}).get('line')
        if l and not s.st.frames[-1].get('__stub__'): s.line = l
        m = getattr(s, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(n)
    def rv(s, n):
        v = s.ev(n)
        if isinstance(v, Ref): v = s.load(v)
        return v
    def lv(s, n):
        v = s.ev(n)
        if isinstance(v, Ref): return v
        o = s.new_obj(v, 'tmp')
        return Ref([(TRUE, o, ())])
    def num(s, n):
        return s.scalar(s.rv(n), short_node(n))

    def passthru(s, n): return s.ev(n['inner'][0])
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_FullExpr = e_SubstNonTypeTemplateParmExpr = passthru
    e_CXXDefaultInitExpr = passthru
    def e_CXXDefaultArgExpr(s, n):
        raise Unsupported('default argument')
    def e_IntegerLiteral(s, n): return iv(int(n['value']))
    def e_CharacterLiteral(s, n): return iv(int(n['value']))
    def e_FloatingLiteral(s, n): 
        from fractions import Fraction
        t = n['value']
        if s.ty(n).name == 'long double': return rvl(Fraction(t))
        return rvl(Fraction(float(t)))
    def e_CXXBoolLiteralExpr(s, n): return TRUE if n['value'] in (True, 'true') else FALSE
    def e_GNUNullExpr(s, n): return iv(0)
    def e_CXXNullPtrLiteralExpr(s, n): return NULLP
    def e_StringLiteral(s, n):
        t = n['value']
        import json as _j
        try: txt = eval('b' + t)   # clang prints a C string literal
        except Exception: txt = t.encode('utf-8')
        k = ('strobj', txt)
        if k not in s.st.ghost:
            c = s.lit_str(txt)
            s.st.ghost[k] = s.new_obj(c, 'lit')
            s.st.heap[s.st.ghost[k]] = 'const'
        return Ref([(TRUE, s.st.ghost[k], ())])
    def e_CXXThisExpr(s, n):
        r = s.st.frames[-1]['__this__']
        return s.addr_of(r)
    def find_var(s, key):
        f = s.st.frames[-1]
        if key in f: return f[key]
        up = f.get('__up__')
        while up is not None:
            ff = s.st.frames[up]
            if key in ff: return ff[key]
            up = ff.get('__up__')
        return None
    def e_DeclRefExpr(s, n):
        d = n['referencedDecl']
        key = (s.tu(), d['id'])
        if d['kind'] == 'EnumConstantDecl':
            if key not in s.P.enumconst: raise Unsupported('enum constant %s' % d.get('name'))
            return iv(s.P.enumconst[key])
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            f = s.P.resolve(s.tu(), d['id'])
            return Fn(func=f or d)
        r = s.find_var(key)
        if r is not None: return r
        g = s.P.vars.get(key)
        if g is not None: return s.global_ref(key, g)
        raise Unsupported('variable %s' % d.get('name'))
    def global_ref(s, key, g):
        nm = g.get('name')
        if nm in ('cout', 'cerr', 'clog', 'cin') and g.get('_ctx', [None])[-1:] == ['std']:
            k = ('stream', nm)
            if k not in s.st.ghost: s.st.ghost[k] = s.new_obj(Opaque(nm), nm)
            return Ref([(TRUE, s.st.ghost[k], ())])
        k = ('global', key[0] if g.get('storageClass') == 'static' or True else None, nm, g['id'])
        if k not in s.st.ghost:
            t = s.P.ty(g)
            isconst = (g['type'].get('qualType', '')).startswith('const ') or g.get('constexpr')
            init = [c for c in g.get('inner', []) or [] if c and c.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            if isconst and init:
                v = s.rv(init[0]); v = s.coerce(v, t)
            else:
                # mutable global: arbitrary at entry of the function
                v = s.fresh_value(t, nm)
            s.st.ghost[k] = s.new_obj(v, nm)
            s.st.heap[s.st.ghost[k]] = 'const' if isconst else 'global'
        return Ref([(TRUE, s.st.ghost[k], ())])
    def coerce(s, v, t):
        if isinstance(v, z3.ExprRef):
            if t.kind == 'real' and v.sort() != R: return s.conv(v, None, t)
            if t.kind == 'int' and v.sort() == R: return s.conv(v, None, t)
            if t.kind == 'bool' and v.sort() != B: return v != 0
            if t.kind == 'int' and v.sort() == B: return s.conv(v, None, t)
            if t.kind == 'ptr' and not s.is_handle(t) and z3.is_int_value(v): return NULLP
        if isinstance(v, Ptr) and s.is_handle(t): return iv(0)
        return v

    def e_ImplicitCastExpr(s, n):
        ck = n['castKind']; sub = n['inner'][0]
        if ck == 'LValueToRValue':
            v = s.ev(sub)
            if isinstance(v, Ref): 
                v = s.load(v)
                if v is UNDEF: s.scalar(v, short_node(sub))
            return v
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast', 'BaseToDerived'):
            return s.ev(sub)
        if ck == 'ArrayToPointerDecay':
            v = s.ev(sub)
            return s.seq_ptr(v)
        if ck == 'NullToPointer':
            return iv(0) if s.is_handle(s.ty(n)) else NULLP
        if ck == 'BitCast': return s.bitcast(n, s.rv(sub))
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            v = s.rv(sub)
            return s.conv(v, s.ty(sub), s.ty(n))
        if ck == 'ToVoid':
            s.ev(sub); return None
        if ck == 'IntegralToPointer':
            raise Unsupported('int to pointer')
        raise Unsupported('cast %s' % ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    def bitcast(s, n, v):
        """pointer casts: give an untyped heap block its element type; complex<double>* <-> double(*)[2]"""
        t = s.ty(n)
        if isinstance(v, Ptr) and t.kind == 'ptr' and len(v.alts) == 1 and v.alts[0][1] is not None:
            oid, path, seq, bid = v.alts[0][1]
            cur = s.st.store.get(oid)
            if isinstance(cur, Opaque) and isinstance(cur.tag, tuple) and cur.tag[0] == 'raw' and t.sub.kind != 'void':
                size = cur.tag[1]
                es = s.sizeof(t.sub)
                cnt = exact_div(size, es)
                if cnt is None: raise Unsupported('allocation of %s bytes for %r' % (size, t.sub))
                s.st.store[oid] = Seq(cnt, s.fresh_lift(t.sub, 'uninit'), t.sub, bid, 'heap')
                if cur.tag[2] is not None:   # calloc
                    s.st.store[oid] = s.st.store[oid].with_(data=lconst(s.zero_value(t.sub)))
        return v
    def sizeof(s, t):
        if t.kind == 'real': return {'double': 8, 'float': 4, 'long double': 16}[t.name]
        if t.kind in ('int', 'bool'): return t.bits // 8
        if t.kind == 'ptr': return 8
        if t.kind == 'arr': return t.n * s.sizeof(t.sub)
        if t.kind == 'cls':
            if t.name == 'complex': return 2 * s.sizeof(t.args[0])
            c = s.P.classes.get(repr(t))
            if c and not t.name in ('string', 'vector'):
                off = 0; al = 1
                for nm, fd, _, _ in c.fields:
                    z = s.sizeof(s.P.ty(fd)); a = min(z, 16); off = (off + a - 1) // a * a + z; al = max(al, a)
                return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % t)
    def e_UnaryExprOrTypeTraitExpr(s, n):
        if n.get('name') != 'sizeof': raise Unsupported(n.get('name'))
        if 'argType' in n: t = s.P.tp.parse(n['argType'].get('desugaredQualType') or n['argType']['qualType'])
        else: t = s.ty(n['inner'][0])
        return iv(s.sizeof(t))

    def e_MemberExpr(s, n):
        sub = n['inner'][0]
        if n.get('isArrow'):
            p = s.rv(sub)
            base = s.ptr_ref(p)
        else:
            v = s.ev(sub)
            if not isinstance(v, Ref):
                if isinstance(v, Struct): return v.f[n['name']]
                raise Unsupported('member of rvalue')
            base = v
        key = (s.tu(), n.get('referencedMemberDecl'))
        g = s.P.vars.get(key)
        if g is not None and g['kind'] == 'VarDecl': return s.global_ref(key, g)
        fr = base.ext(n['name'])
        ft = s.P.ty(g) if g is not None else None
        if ft is not None and ft.kind == 'ref':
            v = s.load(fr)
            return s.ptr_ref(v)
        return fr
    def e_ArraySubscriptExpr(s, n):
        p = s.rv(n['inner'][0]); i = s.num(n['inner'][1])
        if isinstance(i, Ptr): p, i = i, p
        return s.ptr_ref(p, i)
    def e_UnaryOperator(s, n):
        op = n['opcode']; sub = n['inner'][0]
        if op == '*':
            return s.ptr_ref(s.rv(sub))
        if op == '&':
            v = s.ev(sub)
            if isinstance(v, Fn): return v
            if not isinstance(v, Ref): raise Unsupported('address of rvalue')
            return s.addr_of(v)
        if op in ('++', '--'):
            r = s.lv(sub); old = s.scalar(s.load(r), short_node(sub)); t = s.ty(sub)
            new = s.bump(old, 1 if op == '++' else -1, t)
            s.store(r, new)
            return old if n.get('isPostfix') else r
        v = s.num(sub)
        t = s.ty(n)
        if op == '-':
            if v.sort() == R: return z3.simplify(-v) if is_num(v) else -v
            return s.wrap(t, z3.simplify(-v))
        if op == '+': return v
        if op == '!': return lnot(s.to_bool(v))
        if op == '~' : return s.wrap(t, -1 - v)
        raise Unsupported('unary %s' % op)
    def bump(s, old, d, t):
        if isinstance(old, Ptr): return Ptr(old.alts, add(old.off, d))
        if old.sort() == R: return old + d
        return s.wrap(t, add(old, d))
    def e_BinaryOperator(s, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            # C++11: no ordering guaranteed; clang/gcc evaluate the right operand first for class types
            v = s.rv(b)
            r = s.lv(a)
            s.store(r, s.coerce(v, s.ty(a)))
            return r
        if op in ('&&', '||'):
            x = s.to_bool(s.rv(a))
            x = z3.simplify(x) if not z3.is_quantifier(x) else x
            if op == '&&' and z3.is_false(x): return FALSE
            if op == '||' and z3.is_true(x): return TRUE
            g = x if op == '&&' else lnot(x)
            y = s.try_guarded(g, lambda: s.to_bool(s.rv(b)))
            if y is None:
                if s.branch(g): y = s.to_bool(s.rv(b)); return y
                return FALSE if op == '&&' else TRUE
            return land(x, y) if op == '&&' else lor(x, y)
        if op == ',':
            s.ev(a); return s.ev(b)
        x = s.rv(a); y = s.rv(b)
        if x is UNDEF: s.scalar(x, short_node(a))
        if y is UNDEF: s.scalar(y, short_node(b))
        return s.arith(op, x, y, s.ty(n), s.ty(a))
    def try_guarded(s, g, fn):
        """evaluate fn under g without forking; None if it has side effects or branches"""
        st0 = s.st; 
        s.st = st0.copy()
        sv = s.oracle
        class NoBranch(Exception): pass
        class O:
            xid = -1; trace = ()
            def choose(self, n): raise NoBranch()
        s.oracle = O()
        n = len(s.st.pc)
        s.st.pc.append(g)
        nobl = len(s.obls)
        try:
            r = fn()
        except (NoBranch, ThrowX, Infeasible):
            s.st = st0; s.oracle = sv
            del s.obls[nobl:]
            s.seen = set(k for k in s.seen)  # keys of dropped obligations may be re-emitted
            for o in (): pass
            s._drop_seen = True
            return None
        s.oracle = sv
        ns = s.st
        # side effects on existing objects?
        for o, v in st0.store.items():
            if ns.store.get(o) is not v:
                s.st = st0; del s.obls[nobl:]; return None
        if len(ns.out) != len(st0.out) or ns.freed != st0.freed or any(ns.ghost.get(k) is not st0.ghost.get(k) for k in ('calls', 'mc_calls', 'crossings', 'dfts', 'lastsort')):
            s.st = st0; del s.obls[nobl:]; return None
        new = ns.pc[n + 1:]
        ns.pc = ns.pc[:n] + [imp(g, f) for f in new]
        return r
    def arith(s, op, x, y, t, ta=None):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return s.ptr_arith(op, x, y)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if x.sort() == B and y.sort() == B:
                if op == '==': return x == y
                if op == '!=': return z3.Xor(x, y)
            if x.sort() == B: x = z3.If(x, iv(1), iv(0))
            if y.sort() == B: y = z3.If(y, iv(1), iv(0))
            r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
            return r
        if t.kind == 'real':
            if x.sort() == I: x = s.conv(x, None, t)
            if y.sort() == I: y = s.conv(y, None, t)
            if op == '+': return add(x, y)
            if op == '-': return sub(x, y)
            if op == '*': return mul(x, y)
            if op == '/':
                if is_num(y) and not z3.simplify(y == 0).eq(TRUE): return z3.simplify(x / y) if is_num(x) else x / y
                s.oblige('nonzero-divisor', y != 0, short(y))
                return RDIV(x, y)
            raise Unsupported('real %s' % op)
        if x.sort() == B: x = s.conv(x, None, INT)
        if y.sort() == B: y = s.conv(y, None, INT)
        if op == '+': return s.wrap(t, add(x, y))
        if op == '-': return s.wrap(t, sub(x, y))
        if op == '*': return s.wrap(t, mul(x, y))
        if op in ('/', '%'):
            s.oblige('nonzero-divisor', y != 0, short(y))
            pos = s.proves(z3.And(x >= 0, y > 0))
            if pos:
                q = x / y
                return z3.simplify(q if op == '/' else x % y)
            q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
            if op == '/': return s.wrap(t, q)
            return x - q * y
        if op == '<<':
            k = ival(y)
            if k is None: raise Unsupported('shift by a variable')
            if t.signed: s.oblige('shift-of-negative', x >= 0)
            return s.wrap(t, mul(x, iv(2 ** k)))
        if op == '>>':
            k = ival(y)
            if k is None: raise Unsupported('shift by a variable')
            return z3.simplify(x / iv(2 ** k))
        if op in ('|', '&', '^'):
            a, b = ival(x), ival(y)
            if a is not None and b is not None: return iv(a | b if op == '|' else a & b if op == '&' else a ^ b)
            if op == '&' and b is not None and b > 0 and (b & (b + 1)) == 0 and s.proves(x >= 0): return z3.simplify(x % iv(b + 1))
            f = {'|': BITOR, '&': BITAND, '^': BITXOR}[op]
            return f(x, y)
        raise Unsupported('int %s' % op)
    def ptr_arith(s, op, x, y):
        if op == '+':
            if isinstance(y, Ptr): x, y = y, x
            return Ptr(x.alts, add(x.off, y))
        if op == '-':
            if isinstance(y, Ptr):
                if not s.same_base(x, y): raise Unsupported('difference of unrelated pointers')
                return sub(x.off, y.off)
            return Ptr(x.alts, sub(x.off, y))
        if op == '==': return s.ptr_cmp(x, y)
        if op == '!=': return lnot(s.ptr_cmp(x, y))
        if s.same_base(x, y):
            return {'<': x.off < y.off, '<=': x.off <= y.off, '>': x.off > y.off, '>=': x.off >= y.off}[op]
        raise Unsupported('pointer comparison')
    def ptr_cmp(s, x, y):
        if s.same_base(x, y): return x.off == y.off
        return s.ptr_eq(x, y)
    def e_CompoundAssignOperator(s, n):
        op = n['opcode'][:-1]; a, b = n['inner']
        y = s.num(b)
        r = s.lv(a); x = s.scalar(s.load(r), short_node(a))
        t = s.ty(a)
        ct = n.get('computeResultType') or {}
        ctt = s.P.tp.parse(ct.get('desugaredQualType') or ct.get('qualType') or tystr(n))
        if isinstance(x, Ptr): v = s.ptr_arith(op, x, y)
        else:
            if ctt.kind == 'real' and x.sort() == I: x = s.conv(x, t, ctt)
            v = s.arith(op, x, y, ctt)
            v = s.conv(v, ctt, t)
        s.store(r, v)
        return r
    def e_ConditionalOperator(s, n):
        c, a, b = n['inner']
        g = s.to_bool(s.rv(c))
        g = z3.simplify(g)
        if z3.is_true(g): return s.ev(a)
        if z3.is_false(g): return s.ev(b)
        x = s.try_guarded(g, lambda: s.ev(a))
        y = s.try_guarded(lnot(g), lambda: s.ev(b)) if x is not None else None
        if x is not None and y is not None:
            if isinstance(x, Ref) and isinstance(y, Ref):
                return Ref([(land(g, h), o, p) for h, o, p in x.alts] + [(land(lnot(g), h), o, p) for h, o, p in y.alts])
            if isinstance(x, Ref): x = s.load(x)
            if isinstance(y, Ref): y = s.load(y)
            t = s.ty(n)
            if isinstance(x, (z3.ExprRef, Ptr)) and isinstance(y, (z3.ExprRef, Ptr)):
                x, y = s.coerce(x, t), s.coerce(y, t)
                return vite(g, x, y)
        if s.branch(g): return s.ev(a)
        return s.ev(b)
    def e_CXXThrowExpr(s, n):
        if not n.get('inner'):
            cur = s.st.ghost.get('current_exc')
            if cur is None: raise Unsupported('rethrow')
            raise ThrowX(cur.cls, cur.obj)
        sub = n['inner'][0]
        v = s.rv(sub)
        t = s.ty(sub)
        raise ThrowX(t.name, v)
    def e_LambdaExpr(s, n):
        rec = n['inner'][0]
        call = None
        for c in rec.get('inner', []):
            if c and c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': call = c
        if call is None: raise Unsupported('lambda')
        f = s.P.funcs_by_id.get((s.tu(), call['id']))
        if f is None or f.body is None: raise Unsupported('lambda body')
        return Fn(func=f, frame=len(s.st.frames) - 1)
    def e_InitListExpr(s, n):
        t = s.ty(n)
        inner = [c for c in n.get('inner', []) or [] if c]
        if t.kind == 'cls':
            c = s.P.classes.get(repr(t))
            if c is None: raise Unsupported('init list for %r' % t)
            f = {}
            for k, (nm, fd, _, _) in enumerate(c.fields):
                f[nm] = s.coerce(s.rv(inner[k]), s.P.ty(fd)) if k < len(inner) else s.zero_value(s.P.ty(fd))
            return Struct(repr(t), f)
        if t.kind == 'arr':
            vals = [s.coerce(s.rv(x), t.sub) for x in inner]
            d = lconst(s.zero_value(t.sub))
            for i, v in enumerate(vals): d = lstore(d, iv(i), (), v)
            return Seq(t.n, d, t.sub, s.bid(), 'arr')
        if len(inner) == 1: return s.coerce(s.rv(inner[0]), t)
        if not inner: return s.zero_value(t)
        raise Unsupported('init list')
    def e_ImplicitValueInitExpr(s, n): return s.zero_value(s.ty(n))
    def e_CXXScalarValueInitExpr(s, n): return s.zero_value(s.ty(n))
    def e_CXXStdInitializerListExpr(s, n):
        raise Unsupported('initializer_list')
    def e_CXXNewExpr(s, n):
        t = s.ty(n).sub
        if not n.get('isArray'): raise Unsupported('new of a single object')
        inner = [c for c in n['inner'] if c]
        cnt = s.num(inner[0])
        s.oblige('allocation-size', z3.And(cnt >= 0, cnt <= 2 ** 40))
        d = s.fresh_lift(t, 'uninit')
        if len(inner) > 1: d = lconst(s.zero_value(t))
        o = s.new_obj(Seq(cnt, d, t, s.bid(), 'heap'), 'new', heap='heap')
        return s.seq_ptr(Ref([(TRUE, o, ())]))
    def e_CXXDeleteExpr(s, n):
        s.free(s.rv(n['inner'][0])); return None
    def free(s, p):
        if isinstance(p, z3.ExprRef): return
        if len(p.alts) != 1: raise Unsupported('free of guarded pointer')
        t = p.alts[0][1]
        if t is None: return
        if t[0] in s.st.freed: s.oblige('double-free', FALSE, t[0]); return
        if s.st.heap.get(t[0]) not in ('heap',) or t[1] != (): s.oblige('free-of-non-heap', FALSE, t[0]); return
        s.oblige('free-of-block-start', p.off == 0)
        s.st.freed = s.st.freed | {t[0]}

    # ------------------------------------------------------------ calls
    def e_CallExpr(s, n):
        fn = s.rv(n['inner'][0])
        args = n['inner'][1:]
        return s.call_fn(fn, args, n)
    def call_fn(s, fn, argn, n):
        if not isinstance(fn, Fn): raise Unsupported('indirect call')
        f = fn.func
        if isinstance(f, dict): raise Unsupported('call to %s' % f.get('name'))
        av = s.args_for(f, argn)
        return s.invoke(f, None, av, n, up=fn.frame)
    def args_for(s, f, argn):
        av = []
        for i, a in enumerate(argn):
            if a['kind'] == 'CXXDefaultArgExpr':
                p = f.params[i]; init = [c for c in p.get('inner', []) if c]
                if not init:
                    # look at another declaration
                    raise Unsupported('default argument')
                a = init[-1]
            pt = s.P.ty(f.params[i]) if i < len(f.params) else None
            if pt is not None and pt.kind == 'ref':
                v = s.ev(a)
                if not isinstance(v, Ref): v = Ref([(TRUE, s.new_obj(v, 'tmp'), ())])
                av.append(v)
            else:
                v = s.rv(a)
                if v is UNDEF: s.scalar(v, short_node(a))
                if pt is not None: v = s.coerce(v, pt)
                av.append(v)
        return av
    def e_CXXMemberCallExpr(s, n):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'): me = me['inner'][0]
        if me['kind'] != 'MemberExpr': raise Unsupported('member call through %s' % me['kind'])
        sub = me['inner'][0]
        if me.get('isArrow'): this = s.ptr_ref(s.rv(sub))
        else: this = s.lv(sub)
        f = s.P.resolve(s.tu(), me.get('referencedMemberDecl'))
        if f is None: raise Unsupported('method %s' % me.get('name'))
        av = s.args_for(f, n['inner'][1:])
        return s.invoke(f, this, av, n, this_ty=s.this_type(sub, me))
    def this_type(s, sub, me):
        t = s.ty(sub)
        return t.sub if t.kind in ('ptr', 'ref') else t
    def e_CXXOperatorCallExpr(s, n):
        fn = s.rv(n['inner'][0])
        args = n['inner'][1:]
        f = fn.func
        if isinstance(f, dict): raise Unsupported('operator %s' % f.get('name'))
        if f.kind == 'CXXMethodDecl':
            if args[0] is not None and f.name == 'operator()' and f.body is not None:
                c = s.ev(args[0])
                if isinstance(c, Ref): c = s.load(c)
                if isinstance(c, Fn):
                    return s.invoke(f, None, s.args_for(f, args[1:]), n, up=c.frame)
            if f.name == 'operator=':
                # right operand first
                av = s.args_for(f, args[1:])
                this = s.lv(args[0])
            else:
                this = s.lv(args[0])
                av = s.args_for(f, args[1:])
            return s.invoke(f, this, av, n, this_ty=s.this_type(args[0], None))
        av = s.args_for(f, args)
        return s.invoke(f, None, av, n)

    def invoke(s, f, this, av, n, this_ty=None, up=None):
        from . import lib
        if f.body is None or lib.is_builtin(f):
            return lib.call(s, f, this, av, n, this_ty)
        con = s.contracts.get(fkey(f))
        if con is not None and con.enabled and con is not getattr(s, 'verifying', None):
            s.used_contracts.add(fkey(f))
            s.st.ghost['calls'] = s.st.ghost.get('calls', ()) + ((con.name, tuple(av)),)
            return con.apply_call(s, f, this, av)
        if con is not None and con is getattr(s, 'verifying', None) and len(s.funcstack) > 1:
            raise Unsupported('recursion')
        return s.inline(f, this, av, up)
    def inline(s, f, this, av, up=None):
        if len(s.st.frames) > 24: raise Unsupported('call depth')
        if not f.is_stub: s.inlined.add(fkey(f))
        fr = {'__tu__': f.tu, '__func__': f.qual, '__stub__': f.is_stub, '__names__': {}, '__up__': up, '__f__': f}
        if this is not None: fr['__this__'] = this
        line = s.line
        s.st.frames.append(fr)
        if not f.is_stub: s.funcstack.append(f.qual)
        depth = len(s.st.frames)
        try:
            for p, v in zip(f.params, av):
                t = s.P.ty(p)
                if t.kind == 'ref': s.bind(p, v)
                else:
                    if isinstance(v, Ref): v = s.load(v)
                    s.bind(p, Ref([(TRUE, s.new_obj(v, p.get('name', 'arg')), ())]))
            try:
                s.run_body(f)
                rv = None
            except ReturnX as r:
                rv = r.v
        finally:
            del s.st.frames[depth - 1:]
            if not f.is_stub: s.funcstack.pop()
            s.line = line
        return rv
    def run_body(s, f):
        if f.kind == 'CXXConstructorDecl': s.ctor_inits(f)
        s.stmt(f.body)
        if f.kind == 'CXXDestructorDecl': pass
    def bind(s, decl, ref):
        fr = s.st.frames[-1]
        fr[(fr['__tu__'], decl['id'])] = ref
        if len(ref.alts) == 1 and ref.alts[0][2] == ():
            tt = dict(fr.get('__types__', {})); tt[ref.alts[0][1]] = s.P.ty(decl); fr['__types__'] = tt
        nm = decl.get('name')
        if nm:
            nn = dict(fr['__names__']); nn[nm] = ref
            fr['__names__'] = nn
    def ctor_inits(s, f):
        this = s.st.frames[-1]['__this__']
        c = s.P.classes.get(f.cls)
        done = set()
        inits = {}
        for i in f.inits:
            ai = i.get('anyInit')
            if ai is None: continue
            inits[ai['name']] = i
        for nm, fd, dinit, tu in c.fields:
            t = s.P.ty(fd)
            if nm in inits:
                e = inits[nm]['inner'][0]
                if e['kind'] == 'CXXDefaultInitExpr' and not e.get('inner'):
                    e = dinit
                if t.kind == 'ref':
                    v = s.addr_of(s.lv(e))
                elif e['kind'] == 'ParenListExpr':
                    v = s.construct_list(t, e['inner'])
                else: v = s.rv(e)
                s.store(this.ext(nm), s.coerce(v, t))
            elif dinit is not None:
                s.store(this.ext(nm), s.coerce(s.rv(dinit), t))
            elif t.kind == 'cls' and t.name not in ('vector', 'string'):
                cc = s.P.classes.get(repr(t))
                for k in (cc.ctors if cc else []):
                    if not k.params and k.body is not None and not k.node.get('isImplicit'):
                        s.inline(k, this.ext(nm), [])
                        break
    def construct_list(s, t, args):
        if t.kind == 'cls':
            return s.construct(t, args, None)
        return s.rv(args[0])
    def e_CXXConstructExpr(s, n):
        t = s.ty(n)
        args = [c for c in n.get('inner', []) or [] if c]
        ct = (n.get('ctorType') or {}).get('qualType', '')
        return s.construct(t, args, ct)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def construct(s, t, args, ct):
        from . import lib
        if t.kind == 'arr':
            return s.default_value(t)
        if t.kind == 'cls' and t.name.startswith('(lambda') and len(args) == 1: return s.rv(args[0])
        if t.kind != 'cls': raise Unsupported('construct %r' % t)
        r = lib.construct(s, t, args, ct)
        if r is not NotImplemented: return r
        c = s.P.classes.get(repr(t))
        if c is None: raise Unsupported('class %r' % t)
        cands = [k for k in c.ctors if len(k.params) == len(args)]
        if ct:
            ps = split_params(ct)
            exact = [k for k in cands if [s.P.tp.parse(x) for x in ps] == [s.P.ty(p) for p in k.params]]
            if exact: cands = exact
        if len(args) == 1 and s.ty(args[0]) == t and not any(k.body is not None and not k.node.get('isImplicit') for k in cands):
            return s.rv(args[0])      # implicit copy / move
        if not cands:
            if not args: return s.default_value(t)
            raise Unsupported('constructor of %r' % t)
        k = cands[0]
        d = s.P.resolve(k.tu, k.node['id'])
        if d.body is None or (k.node.get('isImplicit') and not d.inits):
            if not args: return s.default_value(t)
            if len(args) == 1 and s.ty(args[0]) == t: return s.rv(args[0])
            if d.body is None: raise Unsupported('constructor of %r has no body' % t)
        v0 = s.default_value(t)
        o = s.new_obj(v0, t.name)
        ref = Ref([(TRUE, o, ())])
        con = s.contracts.get(fkey(d))
        av = s.args_for(d, args)
        if con is not None and con.enabled and con is not getattr(s, 'verifying', None):
            s.used_contracts.add(fkey(d))
            con.apply_call(s, d, ref, av)
        else:
            s.inline(d, ref, av)
        return s.load(ref)

    # ------------------------------------------------------------ statements
    def stmt(s, n):
        k = n['kind']
        r = n.get('range', {}).get('begin', {})
        l = r.get('line') or (r.get('expansionLoc') or {}).get('line')
        if l and not s.st.frames[-1].get('__stub__'): s.line = l
        m = getattr(s, 's_' + k, None)
        if m is not None: return m(n)
        s.ev(n)
    def s_NullStmt(s, n): pass
    def s_CompoundStmt(s, n):
        s.scope([c for c in n.get('inner', []) or [] if c])
    def scope(s, stmts, run=None):
        """run statements; destroy the class objects declared in this scope"""
        fr = s.st.frames[-1]
        mark = fr.get('__dtors__', ())
        s.st.frames[-1]['__dtors__'] = mark
        try:
            if run: run()
            else:
                for c in stmts: s.stmt(c)
        except (ReturnX, BreakX, ContinueX, ThrowX):
            s.run_dtors(mark)
            raise
        s.run_dtors(mark)
    def run_dtors(s, mark):
        fr = s.st.frames[-1]
        cur = fr.get('__dtors__', ())
        line = s.line
        for ref, t in reversed(cur[len(mark):]):
            s.destroy(ref, t)
        s.line = line
        s.st.frames[-1]['__dtors__'] = mark
    def destroy(s, ref, t):
        c = s.P.classes.get(repr(t))
        if c is None: return
        d = c.dtor
        if d is not None:
            d = s.P.resolve(d.tu, d.node['id'])
            if d is not None and d.body is not None and not d.is_stub:
                con = s.contracts.get(fkey(d))
                if con is not None and con.enabled and con is not getattr(s, 'verifying', None):
                    s.used_contracts.add(fkey(d)); con.apply_call(s, d, ref, [])
                else: s.inline(d, ref, [])
        for nm, fd, _, _ in reversed(c.fields):
            ft = s.P.ty(fd)
            if ft.kind == 'cls' and not ft.name in ('vector', 'string'): s.destroy(ref.ext(nm), ft)
    def needs_dtor(s, t):
        if t.kind != 'cls' or t.name in ('vector', 'string'): return False
        c = s.P.classes.get(repr(t))
        if c is None: return False
        if c.dtor is not None:
            d = s.P.resolve(c.dtor.tu, c.dtor.node['id'])
            if d is not None and d.body is not None and not d.is_stub and not d.node.get('isImplicit'): return True
        return any(s.needs_dtor(s.P.ty(fd)) for _, fd, _, _ in c.fields)
    def s_DeclStmt(s, n):
        for d in n.get('inner', []) or []:
            if d and d['kind'] == 'VarDecl': s.vardecl(d)
    def vardecl(s, d):
        t = s.P.ty(d)
        init = [c for c in d.get('inner', []) or [] if c and not c['kind'].endswith('Attr')]
        if d.get('storageClass') == 'static':
            isconst = d['type'].get('qualType', '').startswith('const ')
            k = ('static', s.tu(), d['id'])
            if k not in s.st.ghost:
                if isconst and init: v = s.coerce(s.rv(init[0]), t)
                else: v = s.fresh_value(t, 'static_' + d.get('name', ''))   # arbitrary: set by an earlier call
                s.st.ghost[k] = s.new_obj(v, d.get('name', 'static'))
            s.bind(d, Ref([(TRUE, s.st.ghost[k], ())]))
            return
        if t.kind == 'ref':
            v = s.ev(init[0])
            if not isinstance(v, Ref): v = Ref([(TRUE, s.new_obj(v, d.get('name', 'tmp')), ())])
            s.bind(d, v)
            return
        if t.kind == 'cls' and t.name.startswith('(lambda') or (init and strip(init[0])['kind'] == 'LambdaExpr'):
            v = s.rv(init[0]); s.bind(d, Ref([(TRUE, s.new_obj(v, d.get('name')), ())])); return
        if init:
            if init[0]['kind'] == 'ParenListExpr': v = s.construct_list(t, init[0]['inner'])
            else: v = s.rv(init[0])
            v = s.coerce(v, t)
        else: v = s.default_value(t)
        if isinstance(v, Struct) and s.needs_dtor(t): pass
        ref = Ref([(TRUE, s.new_obj(v, d.get('name', 'var')), ())])
        s.bind(d, ref)
        if s.needs_dtor(t):
            fr = s.st.frames[-1]
            fr['__dtors__'] = fr.get('__dtors__', ()) + ((ref, t),)
    def s_ReturnStmt(s, n):
        inner = [c for c in n.get('inner', []) or [] if c]
        if not inner: raise ReturnX(None)
        f = s.st.frames[-1]['__f__']
        ret = ret_type(s, f)
        if ret is not None and ret.kind == 'ref':
            v = s.ev(inner[0])
            if not isinstance(v, Ref): v = Ref([(TRUE, s.new_obj(v, 'tmp'), ())])
            raise ReturnX(v)
        v = s.rv(inner[0])
        if v is UNDEF: s.scalar(v, 'return value')
        if ret is not None and v is not None: v = s.coerce(v, ret)
        raise ReturnX(v)
    def s_IfStmt(s, n):
        inner = [c for c in n['inner']]
        if n.get('hasInit') or n.get('hasVar'):
            pre = inner.pop(0); s.stmt(pre)
        c = s.to_bool(s.rv(inner[0]))
        if s.branch(c): s.stmt(inner[1])
        elif len(inner) > 2 and inner[2]: s.stmt(inner[2])
    def s_BreakStmt(s, n): raise BreakX()
    def s_ContinueStmt(s, n): raise ContinueX()
    def s_ForStmt(s, n):
        init, var, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        def run():
            if init: s.stmt(init)
            s.loop(n, cond, inc, body, False)
        s.scope(None, run)
    def s_WhileStmt(s, n):
        inner = n['inner']
        s.loop(n, inner[-2], None, inner[-1], False)
    def s_DoStmt(s, n):
        s.loop(n, n['inner'][1], None, n['inner'][0], True)
    def s_CXXForRangeStmt(s, n):
        inner = n['inner']
        # init, range, begin, end, cond, inc, loopvar, body
        rng, beg, end, cond, inc, lvd, body = inner[-7:]
        def run():
            for x in (rng, beg, end):
                if x: s.stmt(x)
            s.loop(n, cond, inc, body, False, pre=lvd)
        s.scope(None, run)
    def s_SwitchStmt(s, n):
        inner = [c for c in n['inner'] if c]
        v = s.num(inner[0]); body = inner[-1]
        items = []
        for c in body.get('inner', []):
            while c and c['kind'] in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    items.append(('case', s.P._constval(c['inner'][0]))); c = c['inner'][-1]
                else: items.append(('default', None)); c = c['inner'][-1]
            if c: items.append(('stmt', c))
        start = None
        for k, (a, b) in enumerate(items):
            if a == 'case' and s.branch(v == b): start = k; break
        if start is None:
            for k, (a, b) in enumerate(items):
                if a == 'default': start = k
        if start is None: return
        try:
            def run():
                for a, b in items[start:]:
                    if a == 'stmt': s.stmt(b)
            s.scope(None, run)
        except BreakX: pass
    def s_CXXTryStmt(s, n):
        inner = n['inner']
        depth = len(s.st.frames)
        try:
            s.stmt(inner[0])
        except ThrowX as t:
            assert len(s.st.frames) == depth
            if t.cls == '#exit': raise
            for h in inner[1:]:
                ch = [c for c in h.get('inner', [])]
                var = ch[0] if ch and ch[0] and ch[0].get('kind') == 'VarDecl' else None
                body = [c for c in ch if c and c.get('kind') == 'CompoundStmt'][0]
                if var is None or exc_matches(s.P, t.cls, base_name(s.P.ty(var))):
                    if var is not None:
                        s.bind(var, Ref([(TRUE, s.new_obj(t.obj if t.obj is not None else Opaque('exc'), 'exc'), ())]))
                    old = s.st.ghost.get('current_exc')
                    s.st.ghost['current_exc'] = t
                    s.stmt(body)
                    s.st.ghost['current_exc'] = old
                    return
            raise

    def loop(s, n, cond, inc, body, post, pre=None):
        from . import loops
        return loops.run_loop(s, n, cond, inc, body, post, pre)

def strip(n):
    while n.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXConstructExpr') and n.get('inner'):
        n = n['inner'][0]
    return n
def base_name(t):
    if t.kind == 'ref': t = t.sub
    return t.name
def exc_matches(P, c, want):
    if c == want: return True
    k = P.classes.get(c)
    if k is None: return False
    return any(exc_matches(P, b.name, want) for b in k.bases)
def split_params(ct):
    i = ct.index('('); 
    d = 0
    for j in range(i, len(ct)):
        if ct[j] == '(': d += 1
        if ct[j] == ')':
            d -= 1
            if d == 0: break
    inner = ct[i + 1:j].strip()
    from .cxx import split_top
    return [x.strip() for x in split_top(inner)] if inner and inner != 'void' else []
_ret_cache = {}
def ret_type(s, f):
    k = id(f)
    if k in _ret_cache: return _ret_cache[k]
    r = None
    if f.kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'):
        q = f.ret
        # 'R (params) quals'
        d = 0
        for j in range(len(q) - 1, -1, -1):
            if q[j] == ')': d += 1
            if q[j] == '(':
                d -= 1
                if d == 0: break
        txt = q[:j].strip()
        if txt.startswith('auto') :
            r = None
        else: r = s.P.tp.parse(txt)
    _ret_cache[k] = r
    return r
def fkey(f):
    return '%s(%s)%s' % (f.qual, ','.join(re.sub(r'\s+', '', repr(p)) for p in [ptype(f, q) for q in f.params]), '@' + f.tu if getattr(f, 'dup', False) else '')
_PP = {}
def func_line(f):
    return (f.node.get('range', {}).get('begin', {}) or {}).get('line') or f.loc
def ptype(f, q):
    return q.get('_ty') or (q['type'].get('desugaredQualType') or q['type']['qualType'])
def short(e, n=60):
    t = str(e).replace('\n', ' ')
    t = re.sub(r'\s+', ' ', t)
    return t if len(t) <= n else t[:n] + '...'
def short_node(n):
    x = strip(n)
    if x.get('kind') == 'DeclRefExpr': return x['referencedDecl'].get('name', '')
    if x.get('kind') == 'MemberExpr': return x.get('name', '')
    return x.get('kind', '')
def exact_div(e, k):
    e = z3.simplify(zint(e))
    if z3.is_int_value(e):
        return iv(e.as_long() // k) if e.as_long() % k == 0 else None
    # k*x + c with every coefficient divisible by k
    def coeffs(t):
        if z3.is_add(t):
            out = []
            for c in t.children():
                r = coeffs(c)
                if r is None: return None
                out += r
            return out
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            return [(t.arg(0).as_long(), t.arg(1) if t.num_args() == 2 else z3.Product(*t.children()[1:]))]
        if z3.is_int_value(t): return [(t.as_long(), None)]
        return [(1, t)]
    cs = coeffs(e)
    if cs is None or any(c % k for c, _ in cs): return None
    r = iv(0)
    for c, t in cs:
        r = add(r, iv(c // k) if t is None else mul(iv(c // k), t))
    return r
def vite_tree(g, a, b): return vite(g, a, b)

# ---------------------------------------------------------------- uninterpreted symbols
SLEN = z3.Function('slen', I, I)
SCHAR = z3.Function('schar', I, I, I)
RDIV_F = z3.Function('rdiv', R, R, R)
def RDIV(x, y): return x / y if False else RDIV_F(x, y)
BITOR = z3.Function('bitor', I, I, I); BITAND = z3.Function('bitand', I, I, I); BITXOR = z3.Function('bitxor', I, I, I)
