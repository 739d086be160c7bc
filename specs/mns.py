"""Contracts: one-sided probability, polynomial algorithm (src/ecdf1_mns2016.cc)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from . import ncp
from .ncp import *
from .common import valid, finite
from .ecdf2 import vec_args
from .ecdf1_new import mirror_hints

LDBL = PRIM['long double']
CLS = 'PolynomialTranslatedMonomials'
class Roles:
    """the two coefficient arrays, told apart by what the accessors touch"""
    def __init__(s, P):
        c = P.classes.get(CLS)
        if c is None: raise Detached('no class ' + CLS)
        ints = [nm for nm, fd, _, _ in c.fields if P.ty(fd).kind == 'int']
        ptrs = [nm for nm, fd, _, _ in c.fields if is_buf(P, fd)]
        s.ty = {nm: P.ty(fd) for nm, fd, _, _ in c.fields}
        if len(ints) != 1 or len(ptrs) != 2 or len(c.fields) != 3: raise Detached('fields of ' + CLS)
        def touched(mname):
            ms = [m for m in c.methods if m.name == mname]
            names = []
            def walk(n):
                if isinstance(n, dict):
                    if n.get('kind') == 'MemberExpr': names.append(n.get('name'))
                    for x in n.get('inner', []) or []: walk(x)
            for m in ms:
                d = P.resolve(m.tu, m.node['id'])
                walk(d.body)
            return {n for n in names if n in ptrs}
        t = touched('get_multiplicative_coefficient') or touched('set_multiplicative_coefficient')
        if len(t) != 1: raise Detached('multiplicative coefficients')
        s.deg, s.mul = ints[0], t.pop()
        s.add = [p for p in ptrs if p != s.mul][0]

class PolyMethod(Contract):
    nparams = None
    def setup(s, ex, f): return s.poly(ex), default_args(ex, f)
    def poly(s, ex):
        r = Roles(ex.P)
        d = ex.fresh(I, 'degree'); cap = ex.fresh(I, 'capacity')
        ex.assume(z3.And(d >= 0, d < cap, cap <= NMAX + 2))
        m = new_buf(ex, r.ty[r.mul], 'mul', cap); a = new_buf(ex, r.ty[r.add], 'add', cap)
        o = ex.new_obj(Struct(CLS, {r.deg: d, r.mul: m, r.add: a}), 'poly')
        return Ref([(TRUE, o, ())])
    def inv(s, C):
        r = Roles(C.ex.P)
        return C.field(r.deg), member_buf(C.ex, C.this, r.mul), member_buf(C.ex, C.this, r.add), r
    def reqs(s, C, room=1):
        d, m, a, r = s.inv(C)
        ex = C.ex
        return [('degree', z3.And(d >= 0, d <= NMAX + 1)), ('room for multiplicative coefficients', blen(ex, m) >= d + room), ('room for additive coefficients', blen(ex, a) >= d + room)]
def coeffs(ex, p):
    """constant array equal to the contents of a buffer"""
    if len(p.alts) == 1 and p.alts[0][1] is not None and ival(p.off) == 0:
        g, t = p.alts[0]
        return arr_const(ex, ex.get_path(ex.obj(t[0]), t[1], check=False).data)
    rd = reader(ex, p)
    a = ex.fresh(z3.ArraySort(I, R), 'arr'); x = z3.Int('#i')
    ex.assume(z3.ForAll([x], a[x] == rd(x), patterns=[a[x]]))
    return a

class Ctor(PolyMethod):
    name = CLS + '::' + CLS; qual = name; nparams = 1
    def find(s, P): return [f for f in P.find(CLS, 1, CLS) if P.ty(f.params[0]).kind == 'int']
    def setup(s, ex, f):
        o = ex.new_obj(ex.default_value(T('cls', CLS)), 'poly')
        return Ref([(TRUE, o, ())]), default_args(ex, f)
    def spec(s, C):
        sp = Spec(); ex = C.ex; r = Roles(ex.P)
        md = C.val(0)
        sp.requires = [('max_degree >= 0', md >= 0), ('max_degree <= 2^20+1', md <= NMAX + 1)]
        def post(C):
            ps = []
            for nm in (r.mul, r.add): ps.append(new_buf(ex, r.ty[nm], nm, md + 1, lambda d: FRange(d, 0, md + 1, lambda i: rvl(0))))
            ex.store(C.this, Struct(CLS, {r.deg: iv(0), r.mul: ps[0], r.add: ps[1]}))
        sp.post = post
        sp.mods = [Any(C.this)]
        return sp
    def check_more(s, ex, C, sp, rv, ent):
        r = Roles(ex.P); md = C.val(0)
        g = ex.load(C.this)
        s.post(ex, 'degree is 0', ex.scalar(g.f[r.deg]) == 0, sp)
        ps = []
        for nm, m in (('multiplicative coefficients', r.mul), ('additive coefficients', r.add)):
            p = own_buf(s, ex, sp, nm, C.this, m, ent); ps.append(p)
            s.post(ex, '%s: size' % nm, blen(ex, p) >= md + 1, sp)
            x = ex.fresh(I, 'sk')
            s.post(ex, '%s: all zero' % nm, z3.Implies(z3.And(0 <= x, x < md + 1), reader(ex, p)(x) == 0), sp)
        s.post(ex, 'blocks are distinct', disjoint(ex, *ps), sp)
class Dtor(PolyMethod):
    name = CLS + '::~' + CLS; qual = name; nparams = 0
    def find(s, P): return [f for f in P.find('~' + CLS, 0, CLS)]
    def absent_ok(s, P): return vec_members(P, CLS)
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C)
        sp.separate = [(m, a)]; sp.frees = [x for x in (C.field(r.mul), C.field(r.add)) if isinstance(x, Ptr)]
        return sp
class Get(PolyMethod):
    name = CLS + '::get_multiplicative_coefficient'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C); k = C.val(0)
        sp.requires = s.reqs(C) + [('degree in range', z3.And(0 <= k, k <= d))]
        sp.result = reader(C.ex, m)(k)
        return sp
class SetMul(PolyMethod):
    name = CLS + '::set_multiplicative_coefficient'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C); k, v = C.val(0), C.val(1)
        sp.requires = s.reqs(C) + [('degree in range', z3.And(0 <= k, k <= d))]
        sp.separate = [(m, a)]
        sp.mods = [SetRange(m, k, k + 1, lambda x: v)]
        return sp
class SetAdd(PolyMethod):
    name = CLS + '::set_additive_coefficient'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C); k, v = C.val(0), C.val(1)
        sp.requires = s.reqs(C) + [('degree in range', z3.And(0 <= k, k <= d))]
        sp.separate = [(m, a)]
        sp.mods = [SetRange(a, k, k + 1, lambda x: v)]
        return sp
class Evaluate(PolyMethod):
    name = CLS + '::evaluate'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C); x = C.val(0)
        sp.requires = s.reqs(C)
        mA, aA = coeffs(C.ex, m), coeffs(C.ex, a)
        sp.result = POLY(mA, aA, d, x)
        sp.hints = [poly_def(mA, aA, d, x)]
        C.ex.lemma_used('poly_def')
        return sp
class Integrate(PolyMethod):
    name = CLS + '::integrate'; qual = name; nparams = 0
    def setup(s, ex, f):
        this, av = PolyMethod.setup(s, ex, f)
        return this, av
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C)
        sp.requires = s.reqs(C, 2)
        sp.separate = [(m, a)]
        rm, ra = reader(C.ex, m), reader(C.ex, a)
        sp.mods = [SetRange(m, 0, d + 2, lambda k: z3.If(k == 0, rvl(0), RDIV_F(rm(k - 1), z3.ToReal(k)))), SetRange(a, 2, d + 2, lambda k: ra(k - 1)), AnyRange(a, 0, 2), Set(C.fref(r.deg), d + 1)]
        return sp
class Scale(PolyMethod):
    name = CLS + '::ldexp_all_multiplicative_coefficients'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); d, m, a, r = s.inv(C); e = C.val(0)
        sp.requires = s.reqs(C)
        sp.separate = [(m, a)]
        rm = reader(C.ex, m)
        sp.mods = [SetRange(m, 0, d + 1, lambda k: rm(k) * lib.POW2(e))]
        return sp
class Maximum(Contract):
    name = 'maximum_multiplicative_coefficient'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex; r = Roles(ex.P)
        p = C.val(0)
        if not isinstance(p, Struct) or p.cname != CLS or not isinstance(C.av[0], Ref): raise Detached('argument of ' + s.name)
        d, m, a = p.f[r.deg], member_buf(ex, C.av[0], r.mul), member_buf(ex, C.av[0], r.add)
        sp.requires = [('degree', z3.And(d >= 1, d <= NMAX + 1)), ('room for multiplicative coefficients', blen(ex, m) >= d + 1), ('room for additive coefficients', blen(ex, a) >= d + 1)]
        sp.result_make = lambda: ex.fresh(R, 'max')     # any value: the scaling does not depend on it
        return sp
    def setup(s, ex, f):
        return None, [PolyMethod().poly(ex)]
class Exponent(Contract):
    name = 'extract_exponent'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        sp.result_make = lambda: ex.fresh(I, 'exponent')
        sp.result_facts = lambda r: [('exponent of an 80-bit number', z3.And(-16445 <= r, r <= 16384))]
        return sp

class Steps(LoopSpec):
    name = 'polynomial algorithm: one integration per boundary element'; func = 'ecdf1_mns2016_b'
    def match(s, L): return 'total_exponent_delta' in L.mod_roles()
    def parts(s, V):
        if not hasattr(V, 'mns'): V.mns = s.parts1(V)
        return V.mns
    def parts1(s, V):
        ex = V.ex; r = Roles(ex.P)
        p = V('p')
        if not isinstance(p, Struct) or p.cname != CLS: raise Detached('the polynomial')
        ref = V.ref('p')
        def go():
            m, a = member_buf(ex, ref, r.mul), member_buf(ex, ref, r.add)
            return p.f[r.deg], coeffs(ex, m), coeffs(ex, a), reader(ex, m)
        return V.run(go) + (r, p)
    def b(s, V):
        v = V.ex.load(V.ref(s.pb))
        return arr_const(V.ex, v.data), v.len
    def facts(s, V):
        d, m, a, rd, r, p = s.parts(V)
        b, n = s.b(V); k = V.kappa; e = V('total_exponent_delta'); x = z3.Real('#x')
        return [('degree', d == k), ('number of steps', z3.And(0 <= k, k <= n)), ('total exponent', z3.And(0 <= e, e <= 16445 * ((k + 15) / 16))),
                ('scale', lib.POW2(e) > 0),
                ('polynomial', z3.ForAll([x], POLY(m, a, d, x) == lib.POW2(e) * QM(b, k, x), patterns=[POLY(m, a, d, x)]))]
    def check_lemmas(s, V, when):
        d, m2, a2, rd, r, p = s.parts(V)
        b, n = s.b(V)
        if when == 'initially': return [('mns_start', mns_start(m2, a2, b)), ('pow2_zero', pow2_zero()), ('pow2_pos', pow2_pos(iv(0)))]
        d0, m, a, _, _, _ = s.parts(V.head)
        E = lib.POW2(V.head('total_exponent_delta'))
        v0 = z3.simplify(rd(iv(0)))
        pol = [e for e in apps_of(v0, lambda e: e.decl().eq(POLY)).values()]
        p2 = [e for e in apps_of(v0, lambda e: e.decl().eq(lib.POW2)).values()]
        out = [('pow2_pos', pow2_pos(V('total_exponent_delta')))]
        P = p2[0] if len(p2) == 1 else rvl(1)
        for q in pol: out.append(('mns_step', mns_step(b, m, a, q.arg(0), q.arg(1), m2, a2, d0, E, P)))
        for q in p2: out += [('pow2_add', pow2_add(q.arg(0), V.head('total_exponent_delta'))), ('pow2_pos', pow2_pos(q.arg(0)))]
        return out
class MnsLower(Contract):
    name = 'ecdf1_mns2016_b'; qual = name; nparams = 1
    cost = 3
    def __init__(s): s.L = Steps(); s.loops = (s.L,)
    def find(s, P):
        fs = [f for f in P.find(s.qual, 1) if not f.cls]
        for f in fs: s.L.pb = f.params[0].get('name')
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex
        b, = vec_args(C, 0); rb = b.data.read; bA = arr_const(ex, b.data)
        sp.requires = [('b: numbers', finite(rb, b.len)), ('size', b.len <= NMAX)]
        sp.throws = [('runtime_error', lnot(valid(rb, b.len)))]
        sp.result = NCP(bA, ONES, b.len)
        def hints(rv):
            out = []
            for nm in ('mns_final',): ex.lemma_used(nm)
            es = []
            for c in ex.st.pc:
                es += apps_of(c, lambda e: e.decl().eq(lib.POW2)).values()
            rs = []
            for c in ex.st.pc + [rv]:
                rs += [q for q in apps_of(c, lambda e: e.decl().eq(POLY)).values() if z3.is_rational_value(q.arg(3))]
            seen = set()
            for q in rs:
                for e in es:
                    k = (q.get_id(), e.arg(0).get_id())
                    if k in seen: continue
                    seen.add(k); out.append(mns_final(bA, b.len, e.arg(0), q))
            return out
        sp.result_hints = hints
        return sp
class MnsUpper(Contract):
    name = 'ecdf1_mns2016_B'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        B, = vec_args(C, 0); rB = B.data.read; BA = arr_const(ex, B.data)
        sp.requires = [('B: numbers', finite(rB, B.len)), ('size', B.len <= NMAX)]
        sp.throws = [('runtime_error', lnot(valid(rB, B.len)))]
        sp.result = NCP(ZEROS, BA, B.len)
        def hints(rv):
            out = []
            for e in apps_of(rv, lambda e: e.decl().eq(NCP)).values():
                ex.lemma_used('reflect')
                out.append(reflect(e.arg(0), e.arg(1), ZEROS, BA, B.len))
            return out
        sp.result_hints = hints
        return sp
CONTRACTS = [Maximum, Exponent, MnsLower, MnsUpper, Ctor, Dtor, Get, SetMul, SetAdd, Evaluate, Integrate, Scale]
