"""Contracts: one-sided boundary crossing, new O(n^2) algorithm (src/ecdf1_new.cc)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from . import ncp
from .ncp import *
from .common import valid, finite
from .ecdf2 import vec_args

FN = 'poisson_B_noncrossing_probability_n2'

class Base(LoopSpec):
    func = FN
    def setup(s, V):
        """names of the parameters"""
        ex = V.ex
        n, lam, Bv = V(s.pn), V(s.pl), V.load(V.ref(s.pB))
        key = ('n2', s.pB)
        if key not in ex.st.ghost: ex.st.ghost[key] = arr_const(ex, Bv.data)
        return n, lam, ex.st.ghost[key], Bv.len
def witnesses(st):
    return [y for y in apps_of(st, lambda e: z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('#w')).values()]

class Outer(Base):
    name = 'new algorithm: blocks of steps'
    def match(s, L): return {'I_prev', 'I_prev_location', 'buffers', 'minibuffers'} <= L.mod_roles()
    def facts(s, V):
        n, lam, B, ns = s.setup(V)
        a, loc, j = V('I_prev'), V('I_prev_location'), V(s.pj)
        try: i = None if (getattr(V, 'entry', None) or V)('I') is UNDEF else V('I')
        except Detached: i = None
        src = V.load(V.buffer('buffers', 'get_src')); dst = V.load(V.buffer('buffers', 'get_dest'))
        ms = V.load(V.buffer('minibuffers', 'get_src')); md = V.load(V.buffer('minibuffers', 'get_dest'))
        # the end of the block may be chosen before the loop and at its end, or at its start
        blk = z3.And(-1 <= a, a < ns - 1) if i is None else z3.And(-1 <= a, a < i, i <= ns - 1, i <= a + j)
        return [('block', blk), ('location', loc == z3.If(a < 0, rvl(0), B[a])),
                ('source length', src.len == n + 1), ('dest length', dst.len == n + 1), ('small source length', ms.len == j), ('small dest length', md.len == j)]
    def arrays(s, V):
        n, lam, B, ns = s.setup(V)
        a, loc = V('I_prev'), V('I_prev_location')
        return [(V.buffer('buffers', 'get_src'), z3.simplify(a + 1), z3.simplify(n + 1), lambda m: RW(ZEROS, B, lam, loc, m))]
    def elem_lemmas(s, V, when, x):
        n, lam, B, ns = s.setup(V); ex = V.ex
        if when == 'initially':
            for nm in ('rw_start', 'rw_zero'): ex.lemma_used(nm)
            return [rw_start(ZEROS, B, lam), rw_zero(ZEROS, B, lam, rvl(0), x - 1)]
        a, i = V.head('I_prev'), V('I_prev'); loc = V.head('I_prev_location')
        t = z3.If(i == a + 1, loc, B[i - 1])
        ex.lemma_used('dw_final')
        return [dw_final(ZEROS, B, lam, n, i, t, B[i], x)]

class Inner(Base):
    name = 'new algorithm: steps of a block'
    def match(s, L): return {'minibuffers', 'i_prev_location', 'buffers'} <= L.mod_roles() and not {'I_prev', 'I_prev_location'} & L.mod_roles()
    def facts(s, V):
        n, lam, B, ns = s.setup(V)
        k = V.kappa; a, I_, loc, j = V('I_prev'), V('I'), V('I_prev_location'), V(s.pj)
        dst = V.load(V.buffer('buffers', 'get_dest'))
        ms = V.load(V.buffer('minibuffers', 'get_src')); md = V.load(V.buffer('minibuffers', 'get_dest'))
        i = k + a + 1
        return [('steps', z3.And(k >= 0, i <= I_)), ('location', V('i_prev_location') == z3.If(k == 0, loc, B[i - 1])),
                ('dest length', dst.len == n + 1), ('small source length', ms.len == j), ('small dest length', md.len == j)]
    def arrays(s, V):
        n, lam, B, ns = s.setup(V)
        k = V.kappa; a, I_ = V('I_prev'), V('I'); i = z3.simplify(k + a + 1); t = V('i_prev_location')
        return [(V.buffer('buffers', 'get_dest'), z3.simplify(I_ + 1), z3.simplify(n + 1), lambda m: DW(ZEROS, B, lam, i, t, B[I_], m)),
                (V.buffer('minibuffers', 'get_src'), k, z3.simplify(I_ - a), lambda m: RW(ZEROS, B, lam, t, m + a + 1))]
    def elem_lemmas(s, V, when, x):
        n, lam, B, ns = s.setup(V); ex = V.ex
        a, I_ = V('I_prev'), V('I')
        if when == 'initially':
            ex.lemma_used('dw_start')
            return [dw_start(ZEROS, B, lam, a + 1, V('I_prev_location'), B[I_], x)]
        k = V.head.kappa if V.head.kappa is not None else z3.simplify(V.kappa - 1)
        i = z3.simplify(k + a + 1); t = V.head('i_prev_location')
        for nm in ('dw_step', 'rw_step'): ex.lemma_used(nm)
        return [dw_step(ZEROS, B, lam, n, i, t, B[i], B[I_], x), rw_step(ZEROS, B, lam, n, t, B[i], i, x + a + 1), rw_step(ZEROS, B, lam, n, t, B[i], i, i)]

class BlockAlgorithm(Contract):
    name = FN; qual = name; nparams = 4
    cost = 3
    def __init__(s): s.loops = (Outer(), Inner())
    def find(s, P):
        fs = [f for f in P.find(s.qual, 4) if not f.cls]
        for f in fs:
            for L in s.loops: L.pn, L.pl, L.pB, L.pj = [p.get('name') for p in f.params]
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex
        n, lam, j = C.val(0), C.val(1), C.val(3)
        B, = vec_args(C, 2); rB = B.data.read; BA = arr_const(ex, B.data)
        sp.requires = [('n is the number of boundary elements', z3.And(n == B.len, n >= 1, n <= NMAX)), ('intensity', lam >= 0), ('jump size', z3.And(1 <= j, j <= n)),
                       ('B is valid', valid(rB, n))]
        sp.result_arr = (n + 1, DBL, n, n + 1, lambda m: RW(ZEROS, BA, lam, rvl(1), n))
        ex.lemma_used('rw_step')
        ex.lemma_used('dw_final')
        def hints(x):
            v = s.rv.data.read(x); dws = {}; stack = [v]; seen = set()
            while stack:      # also inside sums: which block the last convolution has read
                e = stack.pop()
                for d in apps_of(e, lambda y: y.decl().eq(DW)).values(): dws[tuple(c.get_id() for c in d.children()[3:6])] = d
                for k, a in apps_of(e, SUMS.is_sum).items():
                    if k not in seen and len(seen) < 40: seen.add(k); stack.append(SUMS.body(a, iv(0)))
            dws = dws.values()
            return [rw_step(ZEROS, BA, lam, n, rB(n - 1), rvl(1), n, n)] + [dw_final(*(d.children()[:3] + [n] + d.children()[3:6] + [n])) for d in dws]
        sp.result_hints = hints
        return sp

class NewB(Contract):
    name = 'ecdf1_new_B'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        B, = vec_args(C, 0); rB = B.data.read; BA = arr_const(ex, B.data)
        sp.requires = [('B: numbers', finite(rB, B.len)), ('size', B.len <= NMAX)]
        sp.throws = [('runtime_error', lnot(valid(rB, B.len)))]
        sp.result = NCP(ZEROS, BA, B.len)
        sp.result_hints = lambda rv: [rw_final(ZEROS, BA, B.len), ncp_zero(ZEROS, BA)]
        ex.lemma_used('rw_final'); ex.lemma_used('ncp_zero')
        return sp
    def extra_assume(s, ex, C, sp): ex.lemma('pois_nn_pos', pois_nn_pos(C.val(0).len))
class NewLower(Contract):
    name = 'ecdf1_new_b'; qual = name; nparams = 1
    def spec(s, C):
        sp = Spec(); ex = C.ex
        b, = vec_args(C, 0); rb = b.data.read; bA = arr_const(ex, b.data)
        sp.requires = [('b: numbers', finite(rb, b.len)), ('size', b.len <= NMAX)]
        sp.throws = [('runtime_error', lnot(valid(rb, b.len)))]
        sp.result = NCP(bA, ONES, b.len)
        def hints(rv):
            return mirror_hints(ex, rv, bA, b.len)
        sp.result_hints = hints
        return sp
def mirror_hints(ex, rv, bA, n):
    """the value returned is the probability for some upper boundary array: relate it to the mirror image"""
    out = []
    for e in apps_of(rv, lambda e: e.decl().eq(NCP)).values():
        ex.lemma_used('reflect')
        out.append(reflect(bA, ONES, e.arg(0), e.arg(1), n))
    return out
CONTRACTS = [BlockAlgorithm, NewB, NewLower]
