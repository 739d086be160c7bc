"""Contracts: the Monte-Carlo simulator (src/crossprob_mc.cc) and the generator it uses.

A generator is the tuple g = (status0, status1, mat1, mat2, tmat).
  NS(g)            the next state;  DOC(s0,s1,tmat) the (0,1] output of a state   (decided bit-precisely by CBMC, extra/tinymt.py)
  IT(g,k)          the state after k steps;     DRAW(g,k) the k-th uniform number drawn from state g
  ES(g,beta,k)     sum of the first k exponential variables -beta log(DRAW(g,.))
  CROSSF(A,n,b,B)  the crossing predicate of C10 for the n jump points A
  ECX(g,n,b,B)     CROSSF of the normalised partial sums ES(g,1,i)/ES(g,1,n+1)
  PCX(g,beta,b,B)  crossing of the counting process whose points are the partial sums ES(g,beta,i) <= 1
  PN(g,beta,m)     number of draws until the partial sum exceeds 1, at most m+1"""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.exec import ret_type
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from vcg.lemma import lemma, lean_name, AR, AI, FR, FI, fun
from .ncp import rng, arr_const
from .ecdf2 import vec_args

G5 = [I, I, I, I, I]
def uf(nm, *so, lean=None):
    f = z3.Function(nm, *so); lean_name(f, lean or nm); return f
NS0 = uf('NS0', I, I, I, I, I); NS1 = uf('NS1', I, I, I, I, I)
DOC = uf('DOC', I, I, I, R); D01 = uf('D01', I, I, I, R)
INIT0 = uf('INIT0', I, I, I, I, I); INIT1 = uf('INIT1', I, I, I, I, I)
IT0 = uf('IT0', *G5, I, I); IT1 = uf('IT1', *G5, I, I)
DRAW = uf('DRAW', *G5, I, R)
ES = uf('ES', *G5, R, I, R)
BD = [AR, I, AR, I]
CROSSF = uf('CROSSF', AR, I, *BD, B)
ECX = uf('ECX', *G5, I, *BD, B)
PCX = uf('PCX', *G5, R, *BD, B)
PN = uf('PN', *G5, R, I, I)
RIT0 = uf('RIT0', *G5, I, I, I); RIT1 = uf('RIT1', *G5, I, I, I)
PIT0 = uf('PIT0', *G5, R, I, I, I); PIT1 = uf('PIT1', *G5, R, I, I, I)
ECNT = uf('ECNT', *G5, I, *BD, I, I)
PCNT = uf('PCNT', *G5, R, I, *BD, I, I)
REF = (0xfa051f40, 0xffd0fff4, 0x58d02ffeffbfffbc)

GP = [('s0', I), ('s1', I), ('m1', I), ('m2', I), ('tm', I)]
BP = [('b', AR), ('bn', I), ('B', AR), ('Bn', I)]
def it(g, k): return (IT0(*g, k), IT1(*g, k)) + tuple(g[2:])
def rit(g, st, k): return (RIT0(*g, st, k), RIT1(*g, st, k)) + tuple(g[2:])
def pit(g, beta, m, k): return (PIT0(*g, beta, m, k), PIT1(*g, beta, m, k)) + tuple(g[2:])
@lemma('it_zero', GP)
def it_zero(H, *g): return [], land(IT0(*g, iv(0)) == g[0], IT1(*g, iv(0)) == g[1])
@lemma('it_step', GP + [('k', I)])
def it_step(H, *a):
    g, k = a[:5], a[5]; s = it(g, k)
    return [k >= 0], land(IT0(*g, k + 1) == NS0(*s[:4]), IT1(*g, k + 1) == NS1(*s[:4]))
@lemma('draw_def', GP + [('k', I)])
def draw_def(H, *a): g, k = a[:5], a[5]; return [], DRAW(*g, k) == DOC(IT0(*g, k + 1), IT1(*g, k + 1), g[4])
@lemma('es_zero', GP + [('beta', R)])
def es_zero(H, *a): return [], ES(*a, iv(0)) == 0
@lemma('es_step', GP + [('beta', R), ('k', I)])
def es_step(H, *a): g, beta, k = a[:5], a[5], a[6]; return [k >= 0], ES(*g, beta, k + 1) == ES(*g, beta, k) - beta * lib.LOG(DRAW(*g, k))
@lemma('es_pos', GP + [('beta', R), ('k', I)])
def es_nonneg(H, *a):
    g, beta, k = a[:5], a[5], a[6]
    return [beta >= 0, H.all(lambda j: imp(j >= 0, z3.And(0 < DRAW(*g, j), DRAW(*g, j) <= 1)))], H.each(lambda i: imp(i >= 0, ES(*g, beta, i) >= 0), pat=lambda i: ES(*g, beta, i))
def ex_i(fn):
    i = z3.Int('#e')
    return z3.Exists([i], fn(i))
@lemma('cross_def', [('A', AR), ('n', I)] + BP)
def cross_def(H, A, n, b, bn, B_, Bn):
    return [], CROSSF(A, n, b, bn, B_, Bn) == z3.Or(n < Bn, z3.And(bn > 0, n > bn), ex_i(lambda i: z3.And(0 <= i, i < n, i < Bn, A[i] > B_[i])), ex_i(lambda i: z3.And(0 <= i, i < n, i < bn, A[i] < b[i])))
@lemma('ecx_def', GP + [('A', AR), ('n', I)] + BP)
def ecx_def(H, *a):
    """the sample is the list of normalised partial sums"""
    g, A, n, bd = a[:5], a[5], a[6], a[7:]
    return [n >= 0, H.all(lambda i: imp(rng(0, i, n), A[i] == RDIV_F(ES(*g, rvl(1), i + 1), ES(*g, rvl(1), n + 1))))], CROSSF(A, n, *bd) == ECX(*g, n, *bd)
def draws_ok(H, g): return H.all(lambda j: imp(j >= 0, z3.And(0 < DRAW(*g, j), DRAW(*g, j) <= 1)))
def draws_all(H, g):
    """every number of every state reached"""
    w = z3.Int('#s0'); return H.all(lambda a: H.all(lambda c: H.all(lambda j: imp(j >= 0, z3.And(0 < DRAW(a, c, *g[2:], j), DRAW(a, c, *g[2:], j) <= 1)))))
def last_le1(g, beta, k): return z3.Or(k == 0, ES(*g, beta, k) <= 1)
@lemma('pcx_end', GP + [('beta', R), ('A', AR), ('k', I)] + BP)
def pcx_end(H, *a):
    """k points lie in [0,1]; they are in A"""
    g, beta, A, k, (b, bn, B_, Bn) = a[:5], a[5], a[6], a[7], a[8:]
    return [beta >= 0, draws_ok(H, g), k >= 0, bn >= 0, Bn >= 0, H.all(lambda i: imp(rng(0, i, k), A[i] == ES(*g, beta, i + 1))), last_le1(g, beta, k), ES(*g, beta, k + 1) > 1], CROSSF(A, k, b, bn, B_, Bn) == PCX(*g, beta, b, bn, B_, Bn)
@lemma('pcx_full', GP + [('beta', R), ('A', AR)] + BP)
def pcx_full(H, *a):
    """no lower list, and more points than the upper list has elements"""
    g, beta, A, (b, bn, B_, Bn) = a[:5], a[5], a[6], a[7:]
    return [beta >= 0, draws_ok(H, g), bn == 0, Bn >= 0, H.all(lambda i: imp(rng(0, i, Bn), A[i] == ES(*g, beta, i + 1))), ES(*g, beta, Bn + 1) <= 1], CROSSF(A, Bn, b, bn, B_, Bn) == PCX(*g, beta, b, bn, B_, Bn)
@lemma('pcx_over', GP + [('beta', R)] + BP)
def pcx_over(H, *a):
    """more points than the lower list has elements"""
    g, beta, (b, bn, B_, Bn) = a[:5], a[5], a[6:]
    return [bn > 0, ES(*g, beta, bn + 1) <= 1], PCX(*g, beta, b, bn, B_, Bn)
@lemma('pn_def', GP + [('beta', R), ('m', I), ('k', I)])
def pn_def(H, *a):
    g, beta, m, k = a[:5], a[5], a[6], a[7]
    return [beta >= 0, draws_ok(H, g), 0 <= k, k <= m, last_le1(g, beta, k), z3.Or(k == m, ES(*g, beta, k + 1) > 1)], PN(*g, beta, m) == k + 1
@lemma('pcx_impossible', GP + [('beta', R)] + BP)
def pcx_impossible(H, *a):
    """an upper list longer than the non-empty lower list cannot be satisfied"""
    g, beta, (b, bn, B_, Bn) = a[:5], a[5], a[6:]
    return [beta >= 0, draws_ok(H, g), bn > 0, bn < Bn], PCX(*g, beta, b, bn, B_, Bn)
@lemma('ecx_impossible', GP + [('n', I)] + BP)
def ecx_impossible(H, *a):
    g, n, (b, bn, B_, Bn) = a[:5], a[5], a[6:]
    return [z3.Or(Bn > n, z3.And(bn > 0, bn < n))], ECX(*g, n, b, bn, B_, Bn)
@lemma('rit_zero', GP + [('st', I)])
def rit_zero(H, *a): return [], land(RIT0(*a, iv(0)) == a[0], RIT1(*a, iv(0)) == a[1])
@lemma('rit_step', GP + [('st', I), ('k', I)])
def rit_step(H, *a): g, st, k = a[:5], a[5], a[6]; n = it(rit(g, st, k), st); return [k >= 0], land(RIT0(*g, st, k + 1) == n[0], RIT1(*g, st, k + 1) == n[1])
@lemma('pit_zero', GP + [('beta', R), ('m', I)])
def pit_zero(H, *a): return [], land(PIT0(*a, iv(0)) == a[0], PIT1(*a, iv(0)) == a[1])
@lemma('pit_step', GP + [('beta', R), ('m', I), ('k', I)])
def pit_step(H, *a):
    g, beta, m, k = a[:5], a[5], a[6], a[7]; p = pit(g, beta, m, k); n = it(p, PN(*p, beta, m))
    return [k >= 0], land(PIT0(*g, beta, m, k + 1) == n[0], PIT1(*g, beta, m, k + 1) == n[1])
@lemma('ecnt_zero', GP + [('n', I)] + BP)
def ecnt_zero(H, *a): return [], ECNT(*a, iv(0)) == 0
@lemma('ecnt_step', GP + [('n', I)] + BP + [('k', I)])
def ecnt_step(H, *a):
    g, n, bd, k = a[:5], a[5], a[6:10], a[10]
    return [k >= 0], ECNT(*g, n, *bd, k + 1) == ECNT(*g, n, *bd, k) + z3.If(ECX(*rit(g, n + 1, k), n, *bd), iv(1), iv(0))
@lemma('pcnt_zero', GP + [('beta', R), ('m', I)] + BP)
def pcnt_zero(H, *a): return [], PCNT(*a, iv(0)) == 0
@lemma('pcnt_step', GP + [('beta', R), ('m', I)] + BP + [('k', I)])
def pcnt_step(H, *a):
    g, beta, m, bd, k = a[:5], a[5], a[6], a[7:11], a[11]
    return [k >= 0], PCNT(*g, beta, m, *bd, k + 1) == PCNT(*g, beta, m, *bd, k) + z3.If(PCX(*pit(g, beta, m, k), beta, *bd), iv(1), iv(0))

@lemma('ecnt_range', GP + [('n', I)] + BP + [('k', I)])
def ecnt_range(H, *a): return [a[-1] >= 0], land(0 <= ECNT(*a), ECNT(*a) <= a[-1])
@lemma('pcnt_range', GP + [('beta', R), ('m', I)] + BP + [('k', I)])
def pcnt_range(H, *a): return [a[-1] >= 0], land(0 <= PCNT(*a), PCNT(*a) <= a[-1])
@lemma('ecnt_impossible', GP + [('n', I)] + BP + [('k', I)])
def ecnt_impossible(H, *a):
    g, n, (b, bn, B_, Bn), k = a[:5], a[5], a[6:10], a[10]
    return [k >= 0, z3.Or(Bn > n, z3.And(bn > 0, bn < n))], ECNT(*a) == k
@lemma('pcnt_impossible', GP + [('beta', R), ('m', I)] + BP + [('k', I)])
def pcnt_impossible(H, *a):
    """if the lists cannot both be satisfied, every simulation crosses"""
    g, beta, m, (b, bn, B_, Bn), k = a[:5], a[5], a[6], a[7:11], a[11]
    return [k >= 0, beta >= 0, draws_all(H, g), bn > 0, bn < Bn], PCNT(*a) == k

# ---------------------------------------------------------------- the generator object
GEN = 'TINYMT64_T'
FIELDS = {'status', 'mat1', 'mat2', 'tmat'}
def gen_path(v):
    """path from an object to the TinyMT state inside it"""
    if isinstance(v, Struct):
        if FIELDS <= set(v.f): return ()
        for k, x in v.f.items():
            p = gen_path(x)
            if p is not None: return (k,) + p
    return None
def gen_ref(ex, ref):
    p = gen_path(ex.load(ref))
    if p is None: raise Detached('no generator state')
    return ref.ext(*p)
def gen_of(ex, ref):
    v = ex.load(gen_ref(ex, ref))
    st = v.f['status']
    return tuple(ex.scalar(x, 'generator parameter') for x in (st.data.read(iv(0)), st.data.read(iv(1)), v.f['mat1'], v.f['mat2'], v.f['tmat']))
def set_state(ex, ref, s0, s1):
    """modification: the two state words"""
    r = gen_ref(ex, ref)
    return [Set(r.ext('status', iv(0)), s0), Set(r.ext('status', iv(1)), s1)]

class External(Contract):
    """decided by CBMC on the same sources (extra/tinymt.py), not here"""
    external = 'CBMC (extra/tinymt.py)'
    def g(s, C):
        ref = C.ex.ptr_ref(C.val(0)); return ref, gen_of(C.ex, ref)
class TInit(External):
    name = 'tinymt64_init'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); ref, g = s.g(C); a = (C.val(1),) + g[2:]
        sp.mods = set_state(C.ex, ref, INIT0(*a), INIT1(*a)); return sp
class TNext(External):
    F = None; lo = hi = None
    def spec(s, C):
        sp = Spec(); ref, g = s.g(C); n = (NS0(*g[:4]), NS1(*g[:4]))
        sp.mods = set_state(C.ex, ref, *n)
        if s.F is not None:
            r = s.F(n[0], n[1], g[4])
            C.ex.assume(s.range(r)); sp.result = r
        return sp
class TNextState(TNext): name = 'tinymt64_next_state'; qual = name; nparams = 1
class TDoubleOC(TNext):
    name = 'tinymt64_generate_doubleOC'; qual = name; nparams = 1; F = staticmethod(DOC)
    def range(s, r): return z3.And(0 < r, r <= 1)
class TDouble01(TNext):
    name = 'tinymt64_generate_double01'; qual = name; nparams = 1; F = staticmethod(D01)
    def range(s, r): return z3.And(0 <= r, r < 1)
def tn(nm, lo, hi, los, his):
    F = z3.Function('D_' + nm, I, I, I, R)
    class X(TNext):
        name = 'tinymt64_generate_' + nm; qual = name; nparams = 1
        def range(s, r): return z3.And(r > lo if los else r >= lo, r < hi if his else r <= hi)
    X.F = staticmethod(F); X.__name__ = 'T_' + nm
    return X
TOthers = [tn('double', 0, 1, False, True), tn('double12', 1, 2, False, True), tn('doubleOO', 0, 1, True, True)]

def this_obj(ex, cls, nm, fresh=True):
    t = T('cls', cls)
    return Ref([(TRUE, ex.new_obj(ex.fresh_value(t, nm) if fresh else ex.default_value(t), nm), ())])
def fresh_state(ex, ref):
    """an arbitrary generator: words within their types"""
    r = gen_ref(ex, ref); v = ex.load(r)
    for k in (0, 1):
        w = v.f['status'].data.read(iv(k)); ex.assume(z3.And(0 <= w, w < 2 ** 64))

class RngCtor(Contract):
    name = 'RandomNumberGenerator::RandomNumberGenerator'; qual = name
    def find(s, P): return [f for f in P.find('RandomNumberGenerator', 1, 'RandomNumberGenerator') if P.ty(f.params[0]).kind == 'int' and not f.node.get('isImplicit')]
    def setup(s, ex, f): return this_obj(ex, 'RandomNumberGenerator', 'rng', False), default_args(ex, f)
    def spec(s, C):
        sp = Spec(); ex = C.ex; seed = C.val(0); ps = [iv(x) for x in REF]
        r = gen_ref(ex, C.this); v = ex.load(r); a = (seed,) + tuple(ps); q = v.f['status']
        d = FStore(FStore(q.data, iv(0), INIT0(*a)), iv(1), INIT1(*a))
        sp.mods = [Set(r, Struct(v.cname, dict(v.f, status=q.with_(data=d), mat1=ps[0], mat2=ps[1], tmat=ps[2])))]
        return sp
    def check_frame(s, ex, C, sp, ent):
        got = ex.load(gen_ref(ex, C.this)); ps = [iv(x) for x in REF]; a = (C.val(0),) + tuple(ps)
        for nm, w in zip(('mat1', 'mat2', 'tmat'), ps): s.post(ex, 'parameter %s is the reference value' % nm, ex.scalar(got.f[nm], nm) == w, sp)
        for k, F in ((0, INIT0), (1, INIT1)): s.post(ex, 'status[%d] is set from the seed' % k, got.f['status'].data.read(iv(k)) == F(*a), sp)
class Method(Contract):
    def setup(s, ex, f):
        this = this_obj(ex, f.cls, 'rng'); fresh_state(ex, this)
        return this, default_args(ex, f)
class Uniform01(Method):
    name = 'RandomNumberGenerator::generate_uniform01'; qual = name; nparams = 0
    def spec(s, C):
        sp = Spec(); g = gen_of(C.ex, C.this); n = (NS0(*g[:4]), NS1(*g[:4]))
        sp.mods = set_state(C.ex, C.this, *n)
        sp.result_make = lambda: C.ex.fresh(R, 'u01')
        sp.result_facts = lambda r: [('in [0,1]', z3.And(0 <= r, r <= 1))]
        return sp
class Exponential(Method):
    name = 'RandomNumberGenerator::generate_exponential'; qual = name; nparams = 1
    def beta(s, C): return C.val(0)
    def spec(s, C):
        sp = Spec(); g = gen_of(C.ex, C.this); n = (NS0(*g[:4]), NS1(*g[:4]))
        sp.mods = set_state(C.ex, C.this, *n)
        sp.result = -s.beta(C) * lib.LOG(DOC(n[0], n[1], g[4]))
        return sp
def real_field(ex, ref):
    v = ex.load(ref); ks = [k for k, x in v.f.items() if isinstance(x, z3.ExprRef) and x.sort() == R]
    if len(ks) != 1: raise Detached('mean of the exponential generator')
    return v.f[ks[0]]
class ExpGenerate(Exponential):
    name = 'ExponentialRNG::generate'; qual = name; nparams = 0
    def beta(s, C): return real_field(C.ex, C.this)
class ExpCtor(Contract):
    name = 'ExponentialRNG::ExponentialRNG'; qual = name
    def find(s, P): return [f for f in P.find('ExponentialRNG', 2, 'ExponentialRNG') if [P.ty(p).kind for p in f.params] == ['int', 'real']]
    def setup(s, ex, f): return this_obj(ex, 'ExponentialRNG', 'exprng', False), default_args(ex, f)
    def spec(s, C):
        sp = Spec(); ex = C.ex; o = Ctx(ex, C.f, C.this, [C.val(0)])
        sp.mods = RngCtor().spec(o).mods
        v = ex.load(C.this); c = ex.P.classes[v.cname]
        ks = [nm for nm, fd, _, _ in c.fields if ex.P.ty(fd).kind == 'real']
        if len(ks) != 1: raise Detached('mean of the exponential generator')
        sp.mods = sp.mods + [Set(C.this.ext(ks[0]), C.val(1))]
        return sp
    def check_frame(s, ex, C, sp, ent):
        RngCtor.check_frame(s, ex, C, sp, ent)
        s.post(ex, 'mean stored', real_field(ex, C.this) == C.val(1), sp)

# ---------------------------------------------------------------- crossing
def bounds(C, i, j):
    b, B_ = vec_args(C, i, j)
    return arr_const(C.ex, b.data), b.len, arr_const(C.ex, B_.data), B_.len
class Cross(Contract):
    name = 'does_integer_step_function_cross'; qual = name; nparams = 4
    def spec(s, C):
        sp = Spec(); ex = C.ex; p, n = C.val(0), C.val(1)
        if not isinstance(p, Ptr): raise Detached('arguments of does_integer_step_function_cross')
        bd = bounds(C, 2, 3); rd = reader(ex, p)
        A = ex.fresh(AR, 'steps'); x = z3.Int('#i')
        ex.assume(z3.ForAll([x], A[x] == rd(x), patterns=[A[x]] + ([rd(x)] if z3.is_select(rd(x)) else [])))
        sp.requires = [('array holds the steps', imp(n > 0, z3.And(p.off >= 0, blen(ex, p) >= n)))]
        sp.result = CROSSF(A, n, *bd); sp.hints = [cross_def(A, n, *bd)]
        ex.st.ghost['crossings'] = ex.st.ghost.get('crossings', ()) + ((A, n) + bd,)
        return sp
def rtype(C, b): 
    t = ret_type(C.ex, C.f)
    if t is not None and t.kind == 'bool': return b
    if t is not None and t.kind == 'int': return z3.If(b, iv(1), iv(0))
    return z3.If(b, rvl(1), rvl(0))
def param(L_or_f, P, pred):
    for p in L_or_f.params:
        t = P.ty(p); t = t.sub if t.kind == 'ref' else t
        if pred(t): return p.get('name')
    return None
def reals(L):
    """modified local real variables"""
    out = []
    for nm, r in L.names.items():
        if nm in L.modified_names() and len(r.alts) == 1 and r.alts[0][2] == ():
            v = L.S0.store.get(r.alts[0][1])
            if isinstance(v, z3.ExprRef) and v.sort() == R: out.append(nm)
    return out
def gen_facts(V, g, ref):
    q = V.run(lambda: gen_of(V.ex, ref))
    return q

class EcdfDraw(LoopSpec):
    name = 'empirical CDF: partial sums of exponential variables'; func = 'does_random_ecdf_cross'
    def match(s, L):
        m = L.modified_names()
        if s.rng not in m or s.buf not in m: return False
        r = reals(L)
        if len(r) != 1: return False
        s.acc = r[0]; return True
    def g(s, V): return V.ex.st.ghost['ecdf_g']
    def facts(s, V):
        g = s.g(V); k = V.kappa; q = V.run(lambda: gen_of(V.ex, V.ref(s.rng))); n = it(g, k)
        buf = V(s.buf); n0 = V.ex.st.ghost['ecdf_n']
        return [('generator state', z3.And(q[0] == n[0], q[1] == n[1])), ('partial sum', V(s.acc) == ES(*g, rvl(1), k)), ('position', z3.And(0 <= k, k <= n0))]
    def arrays(s, V):
        g = s.g(V); return [(V.ref(s.buf), iv(0), z3.simplify(V.kappa), lambda m: ES(*g, rvl(1), m + 1))]
    def check_lemmas(s, V, when):
        g = s.g(V)
        if when == 'initially': return [('it_zero', it_zero(*g)), ('es_zero', es_zero(*g, rvl(1)))]
        k = z3.simplify(V.kappa - 1)
        return [('it_step', it_step(*g, k)), ('draw_def', draw_def(*g, k)), ('es_step', es_step(*g, rvl(1), k))]
    def elem_lemmas(s, V, when, x): return []

class EcdfCross(Contract):
    name = 'does_random_ecdf_cross'; qual = name; nparams = 4
    def __init__(s): s.L = EcdfDraw(); s.loops = (s.L,)
    def find(s, P):
        fs = Contract.find(s, P)
        for f in fs:
            s.ri = [i for i, p in enumerate(f.params) if P.ty(p).kind == 'ref' and P.ty(p).sub.name == 'RandomNumberGenerator']
            s.bi = [i for i, p in enumerate(f.params) if P.ty(p).kind == 'ref' and P.ty(p).sub.name == 'vector']
            if len(s.ri) != 1 or len(s.bi) != 3: raise Detached('parameters of does_random_ecdf_cross')
            s.L.rng, s.L.buf = f.params[s.ri[0]].get('name'), f.params[s.bi[2]].get('name')
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex
        g = gen_of(ex, C.ref(s.ri[0])); buf = C.val(s.bi[2]); n = buf.len; bd = bounds(C, s.bi[0], s.bi[1])
        sp.requires = [('buffer size', z3.And(n >= 0, n <= NMAX))]
        k = z3.simplify(n + 1)
        sp.mods = set_state(ex, C.ref(s.ri[0]), *it(g, k)[:2]) + [AnySeq(ex.seq_ptr(C.ref(s.bi[2])))]
        sp.result = rtype(C, ECX(*g, n, *bd))
        s.ent = (g, n, bd)
        sp.hints = [it_step(*g, n), draw_def(*g, n), es_step(*g, rvl(1), n), es_nonneg(*g, rvl(1), n)]
        sp.result_hints = lambda rv: [ecx_def(*g, *c[:2], *c[2:]) for c in ex.st.ghost.get('crossings', ())[-2:]]
        return sp
    def extra_assume(s, ex, C, sp):
        g, n, bd = s.ent
        ex.st.ghost['ecdf_g'] = g; ex.st.ghost['ecdf_n'] = n; fresh_state(ex, C.ref(s.ri[0]))
        for l in (it_step, draw_def): ex.assume(l(*g, n))
        ex.assume(es_step(*g, rvl(1), n))
        draws(ex, g); divisor(ex, g, n)
def draws(ex, g):
    """every draw lies in (0,1]: postcondition of tinymt64_generate_doubleOC for every state (CBMC)"""
    j = z3.Int('#i'); ex.trusted.add('DRAW in (0,1] for every state: decided by CBMC (extra/tinymt.py)')
    ex.assume(z3.ForAll([j], z3.And(0 < DRAW(*g, j), DRAW(*g, j) <= 1), patterns=[DRAW(*g, j)]))
def divisor(ex, g, n):
    """the sum of the n+1 exponential variables is not 0 (it is 0 only if all n+1 draws equal 1)"""
    ex.trusted.add('the n+1 uniform numbers of one simulation are not all equal to 1 (probability 2^-52(n+1))')
    ex.assume(ES(*g, rvl(1), n + 1) != 0)

class PoissonDraw(LoopSpec):
    name = 'Poisson process: partial sums of exponential variables up to 1'; func = 'does_random_poisson_process_cross'
    def match(s, L):
        m = L.modified_names()
        if s.rng not in m or s.buf not in m: return False
        r = reals(L)
        if len(r) != 1: return False
        s.acc = r[0]; return True
    def d(s, V):
        """1 if the loop is entered with a variable already drawn"""
        v = (getattr(V, 'entry', None) or V)(s.acc)
        if v is UNDEF: raise Detached('partial sum')
        return 0 if z3.is_rational_value(z3.simplify(v)) else 1
    def g(s, V): return V.ex.st.ghost['poi']
    def facts(s, V):
        g, beta, m = s.g(V); k = V.kappa; q = V.run(lambda: gen_of(V.ex, V.ref(s.rng))); d = s.d(V); n = it(g, z3.simplify(k + d))
        return [('generator state', z3.And(q[0] == n[0], q[1] == n[1])), ('partial sum', V(s.acc) == ES(*g, beta, z3.simplify(k + d))), ('position', z3.And(0 <= k, k <= m)), ('so far at most 1', last_le1(g, beta, k)),
                ('mean', V.run(lambda: real_field(V.ex, V.ref(s.rng))) == beta)]
    def arrays(s, V):
        g, beta, m = s.g(V); return [(V.ref(s.buf), iv(0), z3.simplify(V.kappa), lambda i: ES(*g, beta, i + 1))]
    def lemmas(s, V):
        g, beta, m = s.g(V); k = z3.simplify(V.kappa)
        ks = [z3.simplify(k + e) for e in range(s.d(V) + 1)]
        return s.step(g, beta, ks) + [('pn_def', pn_def(*g, beta, m, k))]
    def step(s, g, beta, ks): return [x for k in ks for x in (('it_step', it_step(*g, k)), ('draw_def', draw_def(*g, k)), ('es_step', es_step(*g, beta, k)))]
    def check_lemmas(s, V, when):
        g, beta, m = s.g(V)
        if when == 'initially': return [('it_zero', it_zero(*g)), ('es_zero', es_zero(*g, beta))] + (s.step(g, beta, [iv(0)]) if s.d(V) else [])
        k = z3.simplify(V.kappa - 1)
        return s.step(g, beta, [z3.simplify(k + e) for e in range(s.d(V) + 1)])
    def elem_lemmas(s, V, when, x): return []

class PoissonCross(Contract):
    name = 'does_random_poisson_process_cross'; qual = name; nparams = 4
    def __init__(s): s.L = PoissonDraw(); s.loops = (s.L,)
    def find(s, P):
        fs = Contract.find(s, P)
        for f in fs:
            s.ri = [i for i, p in enumerate(f.params) if P.ty(p).kind == 'ref' and P.ty(p).sub.name == 'ExponentialRNG']
            s.bi = [i for i, p in enumerate(f.params) if P.ty(p).kind == 'ref' and P.ty(p).sub.name == 'vector']
            if len(s.ri) != 1 or len(s.bi) != 3: raise Detached('parameters of does_random_poisson_process_cross')
            s.L.rng, s.L.buf = f.params[s.ri[0]].get('name'), f.params[s.bi[2]].get('name')
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex; r = C.ref(s.ri[0])
        g = gen_of(ex, r); beta = real_field(ex, r); buf = C.val(s.bi[2]); bd = bounds(C, s.bi[0], s.bi[1]); bn, Bn = bd[1], bd[3]
        m = z3.If(bn > 0, bn, Bn)
        sp.requires = [('mean is positive', beta > 0), ('sizes', z3.And(bn <= NMAX, Bn <= NMAX)), ('buffer size', z3.And(buf.len >= m, buf.len <= 2 * NMAX))]
        if ex.verifying is s:
            mm = ex.fresh(I, 'max'); ex.assume(mm == m); m = mm
        sp.mods = set_state(ex, r, *it(g, PN(*g, beta, m))[:2]) + [AnySeq(ex.seq_ptr(C.ref(s.bi[2])))]
        sp.result = rtype(C, PCX(*g, beta, *bd))
        s.ent = (g, beta, m, bd)
        if ex.verifying is s:
            def hints():
                cs = ex.st.ghost.get('crossings', ())
                return [pcx_over(*g, beta, *bd)] + [pcx_end(*g, beta, *c[:2], *c[2:]) for c in cs[-1:]] + [pcx_full(*g, beta, c[0], *c[2:]) for c in cs[-1:]]
            sp.result_hints = lambda rv: hints()
        return sp
    def extra_assume(s, ex, C, sp):
        g, beta, m, bd = s.ent
        ex.st.ghost['poi'] = (g, beta, m); fresh_state(ex, C.ref(s.ri[0])); draws(ex, g)

class Frequency(LoopSpec):
    name = 'simulations: generator state and number of crossings'
    def match(s, L):
        m = L.modified_names(); fr = L.names; s.gen = []
        ints = []
        for nm in m:
            r = fr[nm]
            if len(r.alts) != 1: continue
            v = L.S0.store.get(r.alts[0][1])
            if gen_path(v) is not None: s.gen.append(nm)
            elif isinstance(v, z3.ExprRef) and v.sort() == I: ints.append(nm)
        if len(s.gen) != 1: return False
        s.ints = ints; s.call = L.ex; return True
    def enter(s, V):
        ex = V.ex; g = gen_of(ex, V.ref(s.gen[0])); fresh_state(ex, V.ref(s.gen[0]))
        ex.st.ghost['mcg'] = g
    def facts(s, V):
        g, (s0, s1), cnt = s.con.loop(V.ex, V.kappa)
        q = V.run(lambda: gen_of(V.ex, V.ref(s.gen[0])))
        out = [('generator state', z3.And(q[0] == s0, q[1] == s1))] + ([('mean', V.run(lambda: real_field(V.ex, V.ref(s.gen[0]))) == s.con.beta(V.ex))] if s.con.has_mean else [])
        return out + [('number of crossings', V(nm) == cnt) for nm in s.cnt(V)]
    def cnt(s, V):
        """the returned quotient's numerator"""
        nm = s.con.counter
        if nm not in s.ints: raise Detached('counter of crossings')
        return [nm]
    def lemmas(s, V): return s.con.loop_lemmas(V.ex, z3.simplify(V.kappa))
    def check_lemmas(s, V, when): return s.con.loop_init(V.ex) if when == 'initially' else []

def names_in(n):
    out = []
    def walk(x):
        if isinstance(x, dict):
            if x.get('kind') == 'DeclRefExpr': out.append((x.get('referencedDecl') or {}).get('name'))
            for c in x.get('inner', []) or []: walk(c)
    walk(n); return out
def compound_targets(body):
    """variables that are changed by something other than ++ (the loop counter is)"""
    out = []
    def walk(x):
        if isinstance(x, dict):
            if x.get('kind') in ('CompoundAssignOperator', 'BinaryOperator') and x.get('opcode') in ('+=', '=', '-='):
                n = names_in(x['inner'][0])
                if len(n) == 1: out.append(n[0])
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '++':
                n = names_in(x['inner'][0])
                if len(n) == 1: out.append(n[0])
            for c in x.get('inner', []) or []: walk(c)
    walk(body); return out
class MonteCarlo(Contract):
    has_mean = 0
    def __init__(s): s.L = Frequency(); s.L.con = s; s.loops = (s.L,)
    def find(s, P):
        fs = Contract.find(s, P)
        for f in fs:
            s.L.func = f.name; rs = []
            def walk(x, loop):
                if isinstance(x, dict):
                    k = x.get('kind')
                    if k == 'ReturnStmt': rs.extend(names_in(x))
                    for c in x.get('inner', []) or []: walk(c, loop)
            walk(f.body, False)
            ch = compound_targets(f.body)
            c = [r for r in rs if r in ch and r not in [p.get('name') for p in f.params]]
            s.counter = c[0] if c else None
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex; s.bd = bounds(C, 1, 2); s.num = C.val(3); s.C = C
        sp.requires = [('sizes', z3.And(s.bd[1] <= NMAX, s.bd[3] <= NMAX)), ('number of simulations', s.num >= 0)] + s.reqs(C)
        if ex.verifying is not s:
            r = ex.fresh(R, 'frequency'); sp.result = r
            ex.st.ghost['mc_calls'] = ex.st.ghost.get('mc_calls', ()) + ((s.name, C.val(0)) + s.bd + (s.num, r),)
        return sp
    def extra_assume(s, ex, C, sp):
        ex.trusted.add('0 simulations requested: 0/0, excluded'); ex.assume(s.num >= 1); s.more(ex, C)
    def more(s, ex, C): pass
    def check_more(s, ex, C, sp, rv, ent):
        one = rv == 1
        if 'mcg' not in ex.st.ghost: s.post(ex, 'without simulation only when the lengths are impossible', land(s.impossible(), one), sp); return
        g, st, cnt = s.loop(ex, s.num)
        s.post(ex, 'crossing simulations divided by simulations', rv == z3.ToReal(cnt) / z3.ToReal(s.num), sp, [RDIV_F(z3.ToReal(cnt), z3.ToReal(s.num)) * z3.ToReal(s.num) == z3.ToReal(cnt)])
        s.post(ex, '1 when the lengths are impossible', imp(s.impossible(), one), sp, s.imp_lemma(ex) + [RDIV_F(z3.ToReal(cnt), z3.ToReal(s.num)) * z3.ToReal(s.num) == z3.ToReal(cnt)])
class EcdfMC(MonteCarlo):
    name = 'ecdf_crossing_probability_montecarlo'; qual = name; nparams = 4
    def reqs(s, C): s.n = C.val(0); return [('sample size', z3.And(0 <= s.n, s.n <= NMAX))]
    def impossible(s): return z3.Or(s.bd[3] > s.n, z3.And(s.bd[1] > 0, s.bd[1] < s.n))
    def loop(s, ex, k):
        g = ex.st.ghost['mcg']; return g, rit(g, s.n + 1, k)[:2], ECNT(*g, s.n, *s.bd, k)
    def loop_lemmas(s, ex, k):
        g = ex.st.ghost['mcg']; a = (*g, s.n, *s.bd)
        return [('rit_step', rit_step(*g, s.n + 1, k)), ('ecnt_step', ecnt_step(*a, k)), ('ecnt_range', ecnt_range(*a, k))]
    def loop_init(s, ex): g = ex.st.ghost['mcg']; return [('rit_zero', rit_zero(*g, s.n + 1)), ('ecnt_zero', ecnt_zero(*g, s.n, *s.bd))]
    def imp_lemma(s, ex): return [ecnt_impossible(*ex.st.ghost['mcg'], s.n, *s.bd, s.num)]
class PoissonMC(MonteCarlo):
    name = 'poisson_process_crossing_probability_montecarlo'; qual = name; nparams = 4; has_mean = 1
    def reqs(s, C): s.lam = C.val(0); return [('intensity', z3.And(0 <= s.lam, s.lam <= 2 ** 21))]
    def more(s, ex, C): ex.trusted.add('both lists empty (intensity 0): 1/0 is infinite, excluded'); ex.assume(s.lam > 0)
    def impossible(s): return z3.And(s.bd[1] > 0, s.bd[1] < s.bd[3])
    def beta(s, ex): return RDIV_F(rvl(1), s.lam)
    def m(s): return z3.If(s.bd[1] > 0, s.bd[1], s.bd[3])
    def loop(s, ex, k):
        g = ex.st.ghost['mcg']; b = s.beta(ex); return g, pit(g, b, s.m(), k)[:2], PCNT(*g, b, s.m(), *s.bd, k)
    def loop_lemmas(s, ex, k):
        g = ex.st.ghost['mcg']; b = s.beta(ex); a = (*g, b, s.m(), *s.bd)
        return [('pit_step', pit_step(*g, b, s.m(), k)), ('pcnt_step', pcnt_step(*a, k)), ('pcnt_range', pcnt_range(*a, k)), ('mean', z3.And(b * s.lam == 1, b > 0))]
    def loop_init(s, ex): g = ex.st.ghost['mcg']; b = s.beta(ex); return [('pit_zero', pit_zero(*g, b, s.m())), ('pcnt_zero', pcnt_zero(*g, b, s.m(), *s.bd))]
    def imp_lemma(s, ex):
        a, c, j = z3.Ints('#a #c #j'); g = ex.st.ghost['mcg']; d = DRAW(a, c, *g[2:], j)
        return [z3.ForAll([a, c, j], z3.And(0 < d, d <= 1), patterns=[d]), RDIV_F(rvl(1), s.lam) * s.lam == 1] + s.imp_lemma1(ex)
    def imp_lemma1(s, ex): return [pcnt_impossible(*ex.st.ghost['mcg'], s.beta(ex), s.m(), *s.bd, s.num)]
CONTRACTS = [TInit, TNextState, TDoubleOC, TDouble01] + TOthers + [RngCtor, Uniform01, Exponential, ExpGenerate, ExpCtor, Cross, EcdfCross, PoissonCross, EcdfMC, PoissonMC]
