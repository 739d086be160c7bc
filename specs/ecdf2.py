"""Contracts: two-sided boundary crossing (src/ecdf2.cc)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib
from . import ncp
from .ncp import *
from .common import valid, finite

def vec_args(C, *ks):
    out = []
    for k in ks:
        v = C.val(k)
        if not isinstance(v, Seq): raise Detached('argument %d is not a vector' % k)
        out.append(v)
    return out

class MainLoop(LoopSpec):
    name = 'poisson_process: boundary sweep'; func = 'poisson_process_noncrossing_probability'
    def match(s, L): return {'b_step_count', 'B_step_count', 'prev_location', 'buffers'} <= L.mod_roles()
    def enter(s, V):
        ex = V.ex
        if not ex.st.ghost.get('lastsort'): raise Detached('boundaries are not sorted')
        p, q, lo, hi, old = ex.st.ghost['lastsort']
        bd = V('bounds')
        if not isinstance(bd, Seq) or not isinstance(bd.data, LStruct): raise Detached('bounds')
        ks = list(bd.data.f)
        if len(ks) != 2: raise Detached('bounds')
        loc, tag = [bd.data.f[k].read for k in ks]
        b, B = [ex.load(V.ref(x.get('name'))) for x in s.params]
        rb, rB = b.data.read, B.data.read
        n = b.len
        # the lemma is stated for b followed by B; other orders before the sort are other numberings of the same elements
        t0 = old.f[ks[1]].read if isinstance(old, LStruct) else None
        if t0 is not None and not ex.proves(imp(n > 1, z3.And(t0(iv(0)) == 0, t0(iv(1)) == 0))):
            p0, q0 = p, q
            if ex.proves(imp(n > 1, z3.And(t0(iv(0)) == 1, t0(iv(1)) == 1))):
                p = lambda k: z3.If(p0(k) < n, p0(k) + n, p0(k) - n)
                q = lambda k: q0(z3.If(k < n, k + n, k - n))
            elif ex.proves(imp(n > 0, z3.And(t0(iv(0)) == 0, t0(iv(1)) == 1))):
                p = lambda k: z3.If(p0(k) % 2 == 0, p0(k) / 2, p0(k) / 2 + n)
                q = lambda k: q0(z3.If(k < n, 2 * k, 2 * (k - n) + 1))
            elif ex.proves(imp(n > 0, z3.And(t0(iv(0)) == 1, t0(iv(1)) == 0))):
                p = lambda k: z3.If(p0(k) % 2 == 1, p0(k) / 2, p0(k) / 2 + n)
                q = lambda k: q0(z3.If(k < n, 2 * k + 1, 2 * (k - n)))
        c = z3.Function(ex.name('cb'), I, I); d = z3.Function(ex.name('cB'), I, I)
        args = (n, rb, rB, loc, tag, p, q)
        ex.oblige('lemma', land(lo == 0, hi == 2 * n), 'merge: whole range sorted')
        names = ['n >= 0', 'permutation', 'inverse permutation', 'lower elements', 'upper elements', 'sorted', 'b sorted', 'B sorted']
        for nm, h in zip(names, ncp.merge.hyps(*args, c, d)): ex.oblige('lemma', h, 'merge: %s' % nm)
        ex.lemma('merge', ncp.merge.concl(*args, c, d))
        ex.st.ghost['merge'] = (n, rb, rB, loc, tag, c, d, arr_const(ex, b.data), arr_const(ex, B.data))
    def g(s, V): return V.ex.st.ghost['merge']
    def prev(s, loc, k): return z3.If(k > 0, loc(k - 1), rvl(0))
    def lam(s, V): return V.ex.load(V.ref(s.pint)) if isinstance(V.ref(s.pint), Ref) else V(s.pint)
    def facts(s, V):
        n, rb, rB, loc, tag, c, d, bA, BA = s.g(V)
        k = V.kappa
        src = V.load(V.buffer('buffers', 'get_src')); dst = V.load(V.buffer('buffers', 'get_dest'))
        return [('position', z3.And(0 <= k, k <= 2 * n + 1)),
                ('lower steps', imp(k <= 2 * n, V('b_step_count') == c(k))), ('upper steps', imp(k <= 2 * n, V('B_step_count') == d(k))),
                ('after the end', imp(k > 2 * n, z3.And(V('b_step_count') == n, V('B_step_count') == n))),
                ('location', V('prev_location') == s.prev(loc, k)), ('source length', src.len == n + 1), ('dest length', dst.len == n + 1)]
    def arrays(s, V):
        n, rb, rB, loc, tag, c, d, bA, BA = s.g(V)
        return [(V.buffer('buffers', 'get_src'), V('B_step_count'), z3.simplify(V('b_step_count') + 1), lambda m: RW(bA, BA, s.lam(V), V('prev_location'), m))]
    def lemmas(s, V):
        n, rb, rB, loc, tag, c, d, bA, BA = s.g(V)
        k = V.kappa
        return [('merge', merge_at(n, rb, rB, loc, c, d, k, c(k)))]
    def check_lemmas(s, V, when):
        n, rb, rB, loc, tag, c, d, bA, BA = s.g(V)
        if when == 'initially': return [('rw_start', rw_start(bA, BA, s.lam(V)))]
        return []
    def elem_lemmas(s, V, when, x):
        n, rb, rB, loc, tag, c, d, bA, BA = s.g(V)
        if when == 'initially': return [rw_start(bA, BA, s.lam(V))]
        ex = V.ex; k = V.head.kappa if V.head.kappa is not None else z3.simplify(V.kappa - 1)
        t, sl, a = V.head('prev_location'), V('prev_location'), V.head('B_step_count')
        lam = s.lam(V)
        for nm in ('rw_same', 'rw_step', 'rw_zero', 'merge'): ex.lemma_used(nm)
        out = [rw_same(bA, BA, lam, t, sl, x), rw_zero(bA, BA, lam, sl, x - 1)]
        st = rw_step(bA, BA, lam, n, t, sl, a, x)
        ws = [y for y in apps_of(st, lambda e: z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('#w')).values()]
        out.append(st)
        for w in ws: out.append(merge_at(n, rb, rB, loc, c, d, k, w))
        return out

class PoissonProcess(Contract):
    name = 'poisson_process_noncrossing_probability'; qual = name; nparams = 5
    def __init__(s):
        L = MainLoop(); s.loops = (L,); s.L = L
    def find(s, P):
        fs = [f for f in P.find(s.qual, 5) if not f.cls]
        for f in fs: s.L.params = [f.params[2], f.params[3]]; s.L.pint = f.params[1].get('name')
        return fs
    def spec(s, C):
        sp = Spec(); ex = C.ex
        n, lam = C.val(0), C.val(1)
        b, B = vec_args(C, 2, 3)
        rb, rB = b.data.read, B.data.read
        bA, BA = arr_const(ex, b.data), arr_const(ex, B.data)
        i = z3.Int('#i')
        sp.requires = [('n is the number of boundary elements', z3.And(n == b.len, n == B.len, n >= 0, n <= NMAX)), ('intensity', lam >= 0),
                       ('b is valid', valid(rb, n)), ('B is valid', valid(rB, n)),
                       ('b <= B', z3.ForAll([i], imp(rng(0, i, n), rb(i) <= rB(i)), **({'patterns': [rb(i), rB(i)]} if z3.is_select(rb(i)) and z3.is_select(rB(i)) else {})))]
        sp.result_arr = (n + 1, DBL, n, n + 1, lambda m: RW(bA, BA, lam, rvl(1), n))
        return sp

class Ecdf2(Contract):
    name = 'ecdf2'; qual = name; nparams = 3
    def spec(s, C):
        sp = Spec(); ex = C.ex
        b, B = vec_args(C, 0, 1)
        rb, rB = b.data.read, B.data.read
        bA, BA = arr_const(ex, b.data), arr_const(ex, B.data)
        sp.requires = [('b: numbers', finite(rb, b.len)), ('B: numbers', finite(rB, B.len)), ('sizes', z3.And(b.len <= NMAX, B.len <= NMAX))]
        sp.throws = [('runtime_error', lor(b.len != B.len, lnot(valid(rb, b.len)), lnot(valid(rB, B.len))))]
        sp.result = NCP(bA, BA, b.len)
        sp.result_hints = lambda rv: [ncp_incompatible(bA, BA, b.len), rw_final(bA, BA, b.len)]
        return sp
    def extra_assume(s, ex, C, sp): ex.lemma('pois_nn_pos', pois_nn_pos(C.val(0).len))
CONTRACTS = [PoissonProcess, Ecdf2]
