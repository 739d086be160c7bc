"""Contracts: FFTWConvolver (src/fftwconvolver.cc, .hh)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from .common import conv_at
from . import ncp

CLS = 'FFTWConvolver'
class Roles:
    """fields, found by the way the planning calls use them"""
    def __init__(s, P):
        c = P.classes.get(CLS)
        if c is None: raise Detached('no class FFTWConvolver')
        s.c = c
        kinds = {nm: P.ty(fd) for nm, fd, _, _ in c.fields}
        ints = [n for n, t in kinds.items() if t.kind == 'int']
        vecs = [n for n, t in kinds.items() if t.kind == 'cls' and t.name == 'vector']
        ptrs = [n for n, t in kinds.items() if t.kind == 'ptr']
        if len(ints) != 1 or len(vecs) != 2 or len(ptrs) + 3 != len(kinds): raise Detached('fields of FFTWConvolver')
        s.cap = ints[0]; s.ptrs = ptrs; s.vecs = vecs
        s.use = {}
        def members(n, out):
            if isinstance(n, dict):
                if n.get('kind') == 'MemberExpr' and n.get('name') in kinds: out.append(n['name'])
                for x in n.get('inner', []) or []: members(x, out)
        def walk(n):
            if not isinstance(n, dict): return
            if n.get('kind') in ('BinaryOperator', 'CXXOperatorCallExpr'):
                inner = [x for x in n.get('inner', []) or [] if x]
                if len(inner) >= 2:
                    rhs, lhs = inner[-1], inner[-2]
                    call = strip_call(rhs)
                    if call:
                        nm, args = call
                        if nm in ('fftw_plan_dft_r2c_1d', 'fftw_plan_dft_c2r_1d') and len(args) == 4:
                            L, A, B = [], [], []
                            members(lhs, L); members(args[1], A); members(args[2], B)
                            L = [x for x in L if x in vecs]; 
                            if len(L) == 1 and len(A) == 1 and len(B) == 1: s.use.setdefault(nm, set()).add((L[0], A[0], B[0]))
            for x in n.get('inner', []) or []: walk(x)
        for m in c.methods:
            d = P.resolve(m.tu, m.node['id'])
            if d is not None and d.body is not None: walk(d.body)
        r = s.use.get('fftw_plan_dft_r2c_1d', set()); q = s.use.get('fftw_plan_dft_c2r_1d', set())
        if len(r) != 1: r = s.guess(P, 'fftw_plan_dft_r2c_1d', kinds)
        if len(q) != 1: q = s.guess(P, 'fftw_plan_dft_c2r_1d', kinds)
        if len(r) != 1 or len(q) != 1: raise Detached('planning calls')
        s.rv, s.ri, s.ro = list(r)[0]; s.cv, s.ci, s.co = list(q)[0]
        if s.rv == s.cv: raise Detached('plan tables')
        if len({s.ri, s.ro, s.ci, s.co}) != 4: raise Detached('plan buffers')
        s.G = granularity(P, s)
    def guess(s, P, nm, kinds):
        """the plan goes to the only plan table its method mentions (through a reference, say)"""
        out = set()
        for m in s.c.methods:
            d = P.resolve(m.tu, m.node['id'])
            if d is None or d.body is None: continue
            seen = []; calls = []
            def walk(n):
                if not isinstance(n, dict): return
                if n.get('kind') == 'MemberExpr' and n.get('name') in kinds: seen.append(n['name'])
                c = strip_call(n) if n.get('kind') == 'CallExpr' else None
                if c and c[0] == nm: calls.append(c[1])
                for x in n.get('inner', []) or []: walk(x)
            walk(d.body)
            tabs = {x for x in seen if x in s.vecs}
            for args in calls:
                if len(args) != 4 or len(tabs) != 1: return set()
                ab = []
                for a in args[1:3]:
                    l = []
                    def mem(n):
                        if isinstance(n, dict):
                            if n.get('kind') == 'MemberExpr' and n.get('name') in s.ptrs: l.append(n['name'])
                            for x in n.get('inner', []) or []: mem(x)
                    mem(a)
                    if len(l) != 1: return set()
                    ab.append(l[0])
                out.add((list(tabs)[0], ab[0], ab[1]))
        return out
_G = {}
def granularity(P, r):
    """slot size of the plan tables: run the constructor for one large capacity"""
    if id(P) in _G: return _G[id(P)]
    fs = [f for f in P.find(CLS, 1, CLS) if P.ty(f.params[0]).kind == 'int']
    if len(fs) != 1: raise Detached('constructor of FFTWConvolver')
    ex = Ex(P); ex.mode = 'mods'
    out = []
    def go():
        o = ex.new_obj(ex.default_value(T('cls', CLS)), 'conv')
        ex.st.frames = [{'__tu__': fs[0].tu, '__func__': '', '__stub__': False, '__names__': {}, '__up__': None, '__f__': fs[0]}]
        ex.inline(fs[0], Ref([(TRUE, o, ())]), [iv(1 << 20)])
        g = ex.st.store[o]
        out.append((ival(z3.simplify(blen(ex, g.f[r.ri]))), ival(z3.simplify(g.f[r.rv].len))))
    ex.explore(go)
    if len(out) != 1 or None in out[0] or out[0][1] <= 0 or out[0][0] % out[0][1]: raise Detached('plan tables')
    _G[id(P)] = out[0][0] // out[0][1]
    return _G[id(P)]
def strip_call(n):
    while isinstance(n, dict) and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'CXXStaticCastExpr'):
        n = n['inner'][0]
    if isinstance(n, dict) and n.get('kind') == 'CallExpr':
        f = n['inner'][0]
        while f.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): f = f['inner'][0]
        return f.get('referencedDecl', {}).get('name'), n['inner'][1:]
    return None

def padded(N, G): return ((2 * N + G - 1) / G) * G
def plans_fact(ex, vec, ln, G, kind, ia, ob):
    """every plan that exists is for its slot's size, kind and buffers"""
    j = z3.Int('#j'); h = vec.data.read(j)
    return z3.ForAll([j], imp(z3.And(0 <= j, j < ln, h != 0), z3.And(lib.PLAN_N(h) == (j + 1) * G, lib.PLAN_KIND(h) == kind, lib.PLAN_IN(h) == lib.addr(ex, ia), lib.PLAN_OUT(h) == lib.addr(ex, ob))), patterns=[h] if z3.is_select(h) else [])

CPLX = T('cls', 'complex', args=[DBL])
def fields(P):
    c = P.classes[CLS]
    return {nm: P.ty(fd) for nm, fd, _, _ in c.fields}
def make_object(ex, N, r):
    """an arbitrary object satisfying the class invariant"""
    ks = fields(ex.P); M = padded(N, r.G)
    f = {r.cap: N}
    oid = {}
    for p in r.ptrs:
        q = block(ex, ks[p].sub, p, M); f[p] = q; oid[p] = q.alts[0][1][0]
    for v in r.vecs:
        f[v] = Seq(M / r.G, ex.fresh_lift(ks[v].args[0], v), ks[v].args[0], ex.bid(), 'vec')
    ex.assume(plans_fact(ex, f[r.rv], M / r.G, r.G, lib.R2C, oid[r.ri], oid[r.ro]))
    ex.assume(plans_fact(ex, f[r.cv], M / r.G, r.G, lib.C2R, oid[r.ci], oid[r.co]))
    return Struct(CLS, {n: f[n] for n in ks})
CAPMAX = NMAX + 8
class Method(Contract):
    def setup(s, ex, f):
        r = Roles(ex.P)
        N = ex.fresh(I, 'capacity'); ex.assume(z3.And(N >= 0, N <= CAPMAX))
        o = ex.new_obj(make_object(ex, N, r), 'conv')
        return Ref([(TRUE, o, ())]), default_args(ex, f)
def check_inv(s, ex, this, sp, N):
    r = Roles(ex.P); g = ex.load(this); M = padded(N, r.G)
    s.post(ex, 'capacity stored', ex.scalar(g.f[r.cap]) == N, sp)
    oid = {}
    for p in r.ptrs:
        q = g.f[p]
        ok = isinstance(q, Ptr) and len(q.alts) == 1 and q.alts[0][1] is not None and q.alts[0][1][0] not in ex.st.freed
        s.post(ex, '%s is a live block' % p, (q.off == 0) if ok else FALSE, sp)
        if not ok: raise Infeasible()
        oid[p] = q.alts[0][1][0]
        s.post(ex, 'size of %s' % p, blen(ex, q) >= M, sp)
    s.post(ex, 'buffers are distinct', TRUE if len(set(oid.values())) == len(r.ptrs) else FALSE, sp)
    for v, kind, a, b in ((r.rv, lib.R2C, r.ri, r.ro), (r.cv, lib.C2R, r.ci, r.co)):
        s.post(ex, 'length of %s' % v, g.f[v].len * r.G >= M, sp)
        s.post(ex, 'plans in %s' % v, plans_fact(ex, g.f[v], g.f[v].len, r.G, kind, oid[a], oid[b]), sp)

class Ctor(Contract):
    name = 'FFTWConvolver::FFTWConvolver'; qual = name; nparams = 1
    def find(s, P): return [f for f in P.find(CLS, 1, CLS) if P.ty(f.params[0]).kind == 'int']
    def setup(s, ex, f):
        o = ex.new_obj(ex.default_value(T('cls', CLS)), 'conv')
        return Ref([(TRUE, o, ())]), default_args(ex, f)
    def spec(s, C):
        sp = Spec(); N = C.val(0); r = Roles(C.ex.P)
        sp.requires = [('capacity >= 0', N >= 0), ('capacity <= 2^20+8', N <= CAPMAX)]
        sp.mods = [Any(C.this)]
        def post(C): C.ex.store(C.this, make_object(C.ex, N, r))
        sp.post = post
        return sp
    def check_more(s, ex, C, sp, rv, ent): check_inv(s, ex, C.this, sp, C.val(0))
class Dtor(Method):
    name = 'FFTWConvolver::~FFTWConvolver'; qual = name; nparams = 0
    def find(s, P): return P.find('~' + CLS, 0, CLS)
    def spec(s, C):
        sp = Spec(); r = Roles(C.ex.P)
        sp.frees = [C.field(p) for p in r.ptrs]
        return sp

def unscaled(X):
    """the array given to the inverse transform is formed without a division"""
    lo, hi, rd = lib.SNAPS[X.decl().name()]
    return not apps_of(rd(z3.Int('#k')), lambda e: e.decl().eq(RDIV_F))
def fft_hints(ex, size):
    d = ex.st.ghost.get('dfts', ())
    def hints(m):
        out = []
        fw = [x for x in d if x[0] == 'r2c']; bw = [x for x in d if x[0] == 'c2r']
        for _, XR, XI, nn in bw:
            for a in range(len(fw)):
                for b in range(a, len(fw)):
                    for p, q in {(a, b), (b, a)}:
                        out.append(ncp.fft(fw[p][1], fw[q][1], XR, XI, nn, size, m)); ex.lemma_used('fft')
                        if unscaled(XR): out.append(ncp.fft1(fw[p][1], fw[q][1], XR, XI, nn, size, m)); ex.lemma_used('fft1')
        return out
    return hints

class Convolve(Method):
    name = 'FFTWConvolver::convolve_same_size'; qual = name; nparams = 4
    lemmas = ('fft',)
    def spec(s, C):
        sp = Spec(); ex = C.ex; r = Roles(ex.P)
        N = C.field(r.cap)
        size, a, b, d = [C.val(k) for k in range(4)]
        ra, rb = reader(ex, a), reader(ex, b)
        pos = land(size > 0, size <= N)
        sp.requires = [('size of first input', imp(pos, blen(ex, a) >= size)), ('size of second input', imp(pos, blen(ex, b) >= size)), ('size of output', imp(pos, blen(ex, d) >= size)),
                       ('offsets', z3.And(a.off >= 0, b.off >= 0, d.off >= 0))]
        sp.separate = [(a, d), (b, d)]
        sp.throws = [('runtime_error', size > N)]
        def hints(m): return fft_hints(ex, size)(m)
        sp.mods = [SetRange(d, 0, z3.If(size > 0, size, iv(0)), lambda m: conv_at(ra, rb, m), hints=hints)]
        if getattr(ex, 'verifying', None) is s:
            sp.mods += [Any(C.this)] + [AnySeq(C.field(p)) for p in r.ptrs]
        return sp
    def check_more(s, ex, C, sp, rv, ent):
        r = Roles(ex.P)
        check_inv(s, ex, C.this, sp, leaves(ent.store[C.this.alts[0][1]])[(r.cap,)])
    def check_throw(s, ex, C, sp, t, ent):
        Contract.check_throw(s, ex, C, sp, t, ent)
        r = Roles(ex.P)
        sp.mods = [m for m in sp.mods if not isinstance(m, SetRange)]
        s.check_frame(ex, C, sp, ent)
        check_inv(s, ex, C.this, sp, leaves(ent.store[C.this.alts[0][1]])[(r.cap,)])
CONTRACTS = [Ctor, Dtor, Convolve]
