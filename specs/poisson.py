"""Contracts: Poisson probabilities (src/poisson_pmf.hh, src/poisson_pmf.cc)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib

from .ncp import POIS, pois_def, pois_pos

class Roles:
    """fields of the generator, found by their types and by what the accessor returns"""
    def __init__(s, P):
        c = P.classes.get('PoissonPMFGenerator')
        if c is None: raise Detached('no class PoissonPMFGenerator')
        ints = [nm for nm, fd, _, _ in c.fields if P.ty(fd).kind == 'int']
        ptrs = [nm for nm, fd, _, _ in c.fields if is_buf(P, fd)]
        s.ty = {nm: P.ty(fd) for nm, fd, _, _ in c.fields}
        acc = [m for m in c.methods if m.name == 'get_array']
        if len(ints) != 1 or len(ptrs) != 2 or len(c.fields) != 3 or len(acc) != 1: raise Detached('fields of PoissonPMFGenerator')
        names = []
        def walk(n):
            if isinstance(n, dict):
                if n.get('kind') == 'MemberExpr': names.append(n.get('name'))
                for x in n.get('inner', []) or []: walk(x)
        d = P.resolve(acc[0].tu, acc[0].node['id'])
        walk(d.body)
        pm = [n for n in names if n in ptrs]
        if len(pm) != 1: raise Detached('get_array')
        s.maxk, s.pmf = ints[0], pm[0]
        s.lut = [p for p in ptrs if p != s.pmf][0]

def lut_fact(ex, ptr, maxk):
    rd = reader(ex, ptr)
    x = z3.Int('#i')
    return z3.ForAll([x], imp(z3.And(0 <= x, x < maxk + 2), rd(x) == lib.LGAMMA(z3.ToReal(x))))

class GenMethod(Contract):
    nparams = None
    def setup(s, ex, f):
        r = Roles(ex.P)
        mk = ex.fresh(I, 'max_k'); ex.assume(z3.And(mk > 0, mk <= NMAX + 8))
        lut = new_buf(ex, r.ty[r.lut], 'lut', mk + 2, lambda d: FRange(d, 0, mk + 2, lambda i: lib.LGAMMA(z3.ToReal(i))))
        pmf = new_buf(ex, r.ty[r.pmf], 'pmf', mk + 1)
        o = ex.new_obj(Struct('PoissonPMFGenerator', {r.maxk: mk, r.lut: lut, r.pmf: pmf}), 'gen')
        return Ref([(TRUE, o, ())]), default_args(ex, f)
    def inv(s, C):
        r = Roles(C.ex.P)
        return C.field(r.maxk), member_buf(C.ex, C.this, r.lut), member_buf(C.ex, C.this, r.pmf)

class Evaluate(GenMethod):
    name = 'PoissonPMFGenerator::evaluate_pmf'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); mk, lut, pmf = s.inv(C)
        l, k = C.val(0), C.val(1)
        sp.requires = [('lambda >= 0', l >= 0), ('k >= 0', k >= 0), ('k <= max_k', k <= mk), ('table holds max_k+2 entries', blen(C.ex, lut) >= mk + 2),
                       ('table of log-gamma', lut_fact(C.ex, lut, mk))]
        sp.result = POIS(l, k); sp.hints = [pois_def(l, k)]
        return sp
class Compute(GenMethod):
    name = 'PoissonPMFGenerator::compute_array'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); mk, lut, pmf = s.inv(C)
        k, l = C.val(0), C.val(1)
        sp.requires = [('k >= 0', k >= 0), ('k <= max_k', k <= mk), ('table holds max_k+2 entries', blen(C.ex, lut) >= mk + 2),
                       ('pmf buffer holds max_k+1 entries', blen(C.ex, pmf) >= mk + 1), ('table of log-gamma', lut_fact(C.ex, lut, mk))]
        sp.separate = [(lut, pmf)]
        sp.throws = [('runtime_error', l < 0)]
        sp.mods = [SetRange(pmf, 0, k + 1, lambda m: POIS(l, m), hints=lambda m: [pois_def(l, m)])]
        return sp
class GetArray(GenMethod):
    name = 'PoissonPMFGenerator::get_array'; qual = name; nparams = 0
    def spec(s, C):
        sp = Spec(); mk, lut, pmf = s.inv(C)
        sp.result = pmf
        return sp
class Ctor(Contract):
    name = 'PoissonPMFGenerator::PoissonPMFGenerator'; qual = name; nparams = 1
    def find(s, P):
        return [f for f in P.find('PoissonPMFGenerator', 1, 'PoissonPMFGenerator') if P.ty(f.params[0]).kind == 'int']
    def setup(s, ex, f):
        o = ex.new_obj(ex.default_value(T('cls', 'PoissonPMFGenerator')), 'gen')
        return Ref([(TRUE, o, ())]), default_args(ex, f)
    def spec(s, C):
        sp = Spec(); ex = C.ex; r = Roles(ex.P)
        mk = C.val(0)
        sp.requires = [('max_k > 0', mk > 0), ('max_k <= 2^20+8', mk <= NMAX + 8)]
        def post(C):
            lut = new_buf(ex, r.ty[r.lut], 'lut', mk + 2, lambda d: FRange(d, 0, mk + 2, lambda i: lib.LGAMMA(z3.ToReal(i))))
            pmf = new_buf(ex, r.ty[r.pmf], 'pmf', mk + 1)
            ex.store(C.this, Struct('PoissonPMFGenerator', {r.maxk: mk, r.lut: lut, r.pmf: pmf}))
        sp.post = post
        sp.mods = [Any(C.this)]
        return sp
    def apply_mods(s): pass
    def check_more(s, ex, C, sp, rv, ent):
        r = Roles(ex.P); mk = C.val(0)
        g = ex.load(C.this)
        s.post(ex, 'max_k stored', ex.scalar(g.f[r.maxk]) == mk, sp)
        lut, pmf = [own_buf(s, ex, sp, nm, C.this, m, ent) for nm, m in (('log-gamma table', r.lut), ('pmf buffer', r.pmf))]
        s.post(ex, 'blocks are distinct', disjoint(ex, lut, pmf), sp)
        s.post(ex, 'size of the log-gamma table', blen(ex, lut) >= mk + 2, sp)
        s.post(ex, 'size of the pmf buffer', blen(ex, pmf) >= mk + 1, sp)
        s.post(ex, 'log-gamma table', lut_fact(ex, lut, mk), sp)
class Dtor(GenMethod):
    name = 'PoissonPMFGenerator::~PoissonPMFGenerator'; qual = name; nparams = 0
    def find(s, P): return [f for f in P.find('~PoissonPMFGenerator', 0, 'PoissonPMFGenerator')]
    def absent_ok(s, P): return vec_members(P, 'PoissonPMFGenerator')
    def spec(s, C):
        sp = Spec(); mk, lut, pmf = s.inv(C)
        sp.separate = [(lut, pmf)]
        sp.frees = [m for m in (C.field(Roles(C.ex.P).lut), C.field(Roles(C.ex.P).pmf)) if isinstance(m, Ptr)]
        return sp
class PoissonPmf(Contract):
    name = 'poisson_pmf'; qual = name; nparams = 2
    def spec(s, C):
        sp = Spec(); l, k = C.val(0), C.val(1)
        sp.requires = [('lambda >= 0', l >= 0), ('k >= 0', k >= 0), ('k < INT_MAX', k < 2 ** 31 - 1)]
        sp.result = POIS(l, k); sp.hints = [pois_def(l, k)]
        return sp

CONTRACTS = [PoissonPmf, Ctor, Dtor, Evaluate, Compute, GetArray]
