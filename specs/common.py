"""Contracts: src/common.cc (boundary validation, direct convolution)."""
import z3
from vcg.term import *
from vcg.values import *
from vcg.exec import *
from vcg.loops import Detached, LoopSpec
from vcg.contracts import *
from vcg import lib

i_, j_ = z3.Int('#i'), z3.Int('#j')

def monotone(rd, n):
    vi, vj = rd(i_), rd(j_)
    return z3.ForAll([i_, j_], imp(z3.And(0 <= i_, i_ <= j_, j_ < n), vi <= vj), patterns=[z3.MultiPattern(vi, vj)]) if z3.is_select(vi) else \
           z3.ForAll([i_, j_], imp(z3.And(0 <= i_, i_ <= j_, j_ < n), vi <= vj))
def in_unit(rd, n):
    return z3.ForAll([i_], imp(z3.And(0 <= i_, i_ < n), z3.And(0 <= rd(i_), rd(i_) <= 1)), **({'patterns': [rd(i_)]} if z3.is_select(rd(i_)) else {}))
def finite(rd, n):
    return z3.ForAll([i_], imp(z3.And(0 <= i_, i_ < n), z3.And(-lib.INF <= rd(i_), rd(i_) <= lib.INF)), **({'patterns': [rd(i_)]} if z3.is_select(rd(i_)) else {}))
def valid(rd, n): return z3.And(monotone(rd, n), in_unit(rd, n))
from .ncp import mono_lemma

class CheckBoundary(Contract):
    name = 'check_boundary_vector'; qual = name; nparams = 3
    lemmas = ('mono',)
    def spec(s, C):
        sp = Spec(); v = C.val(2); n = C.val(1)
        if not isinstance(v, Seq): raise Detached('arguments of check_boundary_vector')
        rd = v.data.read
        sp.requires = [('boundary elements are numbers', finite(rd, v.len)), ('length fits an int', v.len <= NMAX)]
        sp.throws = [('runtime_error', lor(v.len != n, lnot(valid(rd, v.len))))]
        sp.hints = [mono_lemma(rd, v.len)]
        return sp

def conv_at(a, b, m): return Sum(lambda t: a(t) * b(m - t), m + 1)

class ConvolveDirect(Contract):
    name = 'convolve_same_size'; qual = name; nparams = 4
    def find(s, P): return [f for f in P.find(s.qual, 4) if not f.cls]
    def spec(s, C):
        sp = Spec(); ex = C.ex
        size, a, b, d = [C.val(k) for k in range(4)]
        ra, rb = reader(ex, a), reader(ex, b)
        sp.requires = [('size of first input', imp(size > 0, blen(ex, a) >= size)), ('size of second input', imp(size > 0, blen(ex, b) >= size)), ('size of output', imp(size > 0, blen(ex, d) >= size)),
                       ('offsets', z3.And(a.off >= 0, b.off >= 0, d.off >= 0))]
        sp.separate = [(a, d), (b, d)]
        sp.mods = [SetRange(d, 0, z3.If(size > 0, size, iv(0)), lambda m: conv_at(ra, rb, m))]
        return sp
class ConvolveNaive(ConvolveDirect):
    name = 'convolve_same_size_naive'; qual = name

CONTRACTS = [CheckBoundary, ConvolveDirect, ConvolveNaive]
