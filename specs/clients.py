"""C14: facts a caller can rely on, derived from the contracts alone.

Each client is a straight-line 'program' that calls the contracts of the real functions on arbitrary valid lists and
asserts the relation; the contracts themselves are discharged against the real bodies in the same run."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.contracts import *
from vcg.loops import Detached
from . import ncp
from .ncp import *
from .common import valid

class Fn:
    def __init__(s, nm): s.qual = nm; s.name = nm; s.tu = None; s.params = []; s.cls = None; s.line = 0
class Client(Contract):
    def find(s, P): return [Fn('client:' + s.name)]
    def call(s, ex, name, *args):
        for k, c in ex.contracts.items():
            if c.name == name:
                f = [f for f in c.find(ex.P)][0]
                ex.used_contracts.add(k)
                try: return c.apply_call(ex, f, None, list(args))
                except ThrowX as t:
                    ex.oblige('client', FALSE, '%s: %s does not refuse a valid list' % (s.name, name))
                    raise
        raise Detached('no contract %s' % name)
    def vec(s, ex, nm, n=None, fn=None):
        v = ex.fresh_value(T('vec', 'vector', DBL) if False else s.vt(ex), nm)
        if n is None: ex.assume(z3.And(v.len >= 0, v.len <= NMAX))
        else: v = v.with_(len=n)
        if fn is not None: v = v.with_(data=FBase(arr_of(ex, fn)))
        ref = Ref([(TRUE, ex.new_obj(v, nm), ())])
        return ref, v
    def vt(s, ex):
        f = ex.P.find('ecdf1_new_b', 1)[0]
        t = ex.P.ty(f.params[0])
        return t.sub if t.kind == 'ref' else t
    def assume_valid(s, ex, v): ex.assume(valid(v.data.read, v.len))
    def verify(s, ex, f):
        ex.verifying = s; ex.loop_specs = []; ex.mode = 'final'
        def go():
            ex.funcstack = [f.qual]; ex.st.frames = [{'__tu__': None, '__func__': f.qual, '__stub__': False, '__names__': {}, '__up__': None}]
            try: s.body(ex)
            except ThrowX as t: return 'throw'
            return 'return'
        r = ex.explore(go)
        ex.verifying = None
        return [o for o, _ in r]
    def claim(s, ex, msg, fm, hints):
        ex.oblige('client', fm, '%s: %s' % (s.name, msg), hints=[h for _, h in hints])
        for nm, _ in hints: ex.lemma_used(nm)
def arr_of(ex, fn):
    a = ex.fresh(AR, 'arr'); x = z3.Int('#i')
    ex.assume(z3.ForAll([x], a[x] == fn(x), patterns=[a[x]]))
    return a
A = lambda v: v.data.a

class AgreeLower(Client):
    name = 'lower boundary: all algorithms agree'
    def body(s, ex):
        rb, b = s.vec(ex, 'b'); s.assume_valid(ex, b)
        ro, o = s.vec(ex, 'ones', b.len, lambda i: rvl(1))
        flag = ex.fresh(B, 'use_fft')
        r1 = s.call(ex, 'ecdf1_new_b', rb); r2 = s.call(ex, 'ecdf1_mns2016_b', rb); r3 = s.call(ex, 'ecdf2', rb, ro, flag)
        h = [('ncp_ext', ncp_ext(A(b), A(o), A(b), ONES, b.len)), ('ncp_range', ncp_range(A(b), ONES, b.len))]
        s.claim(ex, 'both one-sided algorithms', r1 == r2, h); s.claim(ex, 'one- and two-sided', r1 == r3, h)
        s.claim(ex, 'in [0,1]', z3.And(0 <= r1, r1 <= 1), h)
class AgreeUpper(Client):
    name = 'upper boundary: all algorithms agree'
    def body(s, ex):
        rB, B_ = s.vec(ex, 'B'); s.assume_valid(ex, B_)
        rz, z = s.vec(ex, 'zeros', B_.len, lambda i: rvl(0))
        flag = ex.fresh(B, 'use_fft')
        r1 = s.call(ex, 'ecdf1_new_B', rB); r2 = s.call(ex, 'ecdf1_mns2016_B', rB); r3 = s.call(ex, 'ecdf2', rz, rB, flag)
        h = [('ncp_ext', ncp_ext(A(z), A(B_), ZEROS, A(B_), B_.len)), ('ncp_range', ncp_range(ZEROS, A(B_), B_.len))]
        s.claim(ex, 'both one-sided algorithms', r1 == r2, h); s.claim(ex, 'one- and two-sided', r1 == r3, h)
        s.claim(ex, 'in [0,1]', z3.And(0 <= r1, r1 <= 1), h)
class Mirror(Client):
    name = 'a lower boundary and its mirror image'
    def body(s, ex):
        rb, b = s.vec(ex, 'b'); s.assume_valid(ex, b)
        rB, B_ = s.vec(ex, 'mirror', b.len, lambda i: 1 - A(b)[b.len - 1 - i]); s.assume_valid(ex, B_)
        r1 = s.call(ex, 'ecdf1_new_b', rb); r2 = s.call(ex, 'ecdf1_new_B', rB)
        s.claim(ex, 'same probability', r1 == r2, [('reflect', reflect(A(b), ONES, ZEROS, A(B_), b.len))])
class TwoSided(Client):
    name = 'two-sided: range, FFT and direct agree'
    def body(s, ex):
        rb, b = s.vec(ex, 'b'); s.assume_valid(ex, b)
        rB, B_ = s.vec(ex, 'B', b.len); s.assume_valid(ex, B_)
        r1 = s.call(ex, 'ecdf2', rb, rB, TRUE); r2 = s.call(ex, 'ecdf2', rb, rB, FALSE)
        s.claim(ex, 'same probability', r1 == r2, [])
        s.claim(ex, 'in [0,1]', z3.And(0 <= r1, r1 <= 1), [('ncp_range', ncp_range(A(b), A(B_), b.len))])
class Monotone(Client):
    name = 'monotone in both boundaries'
    def body(s, ex):
        rb, b = s.vec(ex, 'b'); s.assume_valid(ex, b)
        rB, B_ = s.vec(ex, 'B', b.len); s.assume_valid(ex, B_)
        rc, c = s.vec(ex, 'c', b.len); s.assume_valid(ex, c)
        rC, C = s.vec(ex, 'C', b.len); s.assume_valid(ex, C)
        i = z3.Int('#i')
        ex.assume(z3.ForAll([i], imp(z3.And(0 <= i, i < b.len), z3.And(A(b)[i] <= A(c)[i], A(C)[i] <= A(B_)[i])), patterns=[A(b)[i], A(c)[i], A(C)[i], A(B_)[i]]))
        r = [s.call(ex, 'ecdf2', x, y, ex.fresh(B, 'use_fft')) for x, y in ((rb, rB), (rc, rC))]
        s.claim(ex, 'two-sided', r[1] <= r[0], [('ncp_mono', ncp_mono(A(b), A(B_), A(c), A(C), b.len))])
        for nm in ('ecdf1_new_b', 'ecdf1_mns2016_b'):
            r = [s.call(ex, nm, x) for x in (rb, rc)]
            s.claim(ex, nm, r[1] <= r[0], [('ncp_mono', ncp_mono(A(b), ONES, A(c), ONES, b.len))])
        for nm in ('ecdf1_new_B', 'ecdf1_mns2016_B'):
            r = [s.call(ex, nm, x) for x in (rB, rC)]
            s.claim(ex, nm, r[1] <= r[0], [('ncp_mono', ncp_mono(ZEROS, A(B_), ZEROS, A(C), b.len))])
CONTRACTS = [AgreeLower, AgreeUpper, Mirror, TwoSided, Monotone]
