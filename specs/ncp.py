"""Mathematics of the non-crossing probability: the functions and lemmas the contracts use.

  POIS(l,k)         e^-l l^k / k!                       (0^0 = 1)
  P(b,B,m,t)        volume of { x_1 <= .. <= x_m <= t : b_i <= x_i <= B_i }   (iterated integrals)
  RW(b,B,lam,t,m)   e^(-lam t) lam^m P(b,B,m,t)
  NCP(b,B,n)        n! P(b,B,n,1) = Pr[ b_i <= X_(i) <= B_i for all i ],  X uniform on [0,1]

Every @lemma below is printed as a Lean statement and proved in lean/ (definitions there)."""
import z3
from vcg.term import *
from vcg import lib
from vcg.exec import RDIV_F
from vcg.lemma import lemma, lean_name, AR, AI, FR, FI, fun
from vcg.values import *

POIS = z3.Function('POIS', R, I, R)
RW = z3.Function('RW', AR, AR, R, R, I, R)
NCP = z3.Function('NCP', AR, AR, I, R)
for d, n in ((POIS, 'pois'), (RW, 'RW'), (NCP, 'NCP')): lean_name(d, n)
def rng(lo, x, hi): return z3.And(lo <= x, x < hi)

@lemma('pois_def', [('l', R), ('k', I)])
def pois_def(H, l, k):
    kr = z3.ToReal(k)
    return [k >= 0, l >= 0], POIS(l, k) == z3.If(l == 0, z3.If(k == 0, rvl(1), rvl(0)), lib.EXP(-l + kr * lib.LOG(l) - lib.LGAMMA(kr + 1)))
@lemma('pois_pos', [('l', R), ('k', I)])
def pois_pos(H, l, k): return [k >= 0, l > 0], POIS(l, k) > 0
@lemma('pois_nonneg', [('l', R), ('k', I)])
def pois_nonneg(H, l, k): return [k >= 0, l >= 0], POIS(l, k) >= 0
@lemma('pois_nn_pos', [('n', I)])
def pois_nn_pos(H, n): return [n >= 0], POIS(z3.ToReal(n), n) > 0

def mono(H, a, n): return H.all(lambda i: H.all(lambda j: imp(z3.And(0 <= i, i <= j, j < n), a(i) <= a(j))))
@lemma('mono', [('a', FR), ('n', I)])
def mono_lemma(H, a, n):
    return [H.all(lambda w: imp(z3.And(0 <= w, w + 1 < n), a(w) <= a(w + 1)))], \
           H.each(lambda i: H.each(lambda j: imp(z3.And(0 <= i, i <= j, j < n), a(i) <= a(j))))

@lemma('merge', [('n', I), ('b', FR), ('B', FR), ('loc', FR), ('tag', FI), ('p', FI), ('q', FI)], outs=[('c', FI), ('d', FI)])
def merge(H, n, b, B, loc, tag, p, q, c, d):
    """counts of lower (c) and upper (d) boundary elements among the first k elements of the sorted union"""
    h = [n >= 0,
         H.all(lambda k: imp(rng(0, k, 2 * n), z3.And(0 <= p(k), p(k) < 2 * n, q(p(k)) == k))),
         H.all(lambda k: imp(rng(0, k, 2 * n), z3.And(0 <= q(k), q(k) < 2 * n, p(q(k)) == k))),
         H.all(lambda k: imp(z3.And(rng(0, k, 2 * n), p(k) < n), z3.And(loc(k) == b(p(k)), tag(k) == 0))),
         H.all(lambda k: imp(z3.And(rng(0, k, 2 * n), p(k) >= n), z3.And(loc(k) == B(p(k) - n), tag(k) == 1))),
         mono(H, loc, 2 * n), mono(H, b, n), mono(H, B, n)]
    cn = [c(0) == 0, d(0) == 0, c(2 * n) == n, d(2 * n) == n,
          H.each(lambda k: imp(z3.And(0 <= k, k <= 2 * n), z3.And(0 <= c(k), c(k) <= n, 0 <= d(k), d(k) <= n, c(k) + d(k) == k)), pat=lambda k: [c(k), d(k)]),
          H.each(lambda k: imp(z3.And(0 <= k, k < 2 * n), z3.Or(z3.And(tag(k) == 0, c(k) < n, c(k + 1) == c(k) + 1, d(k + 1) == d(k), loc(k) == b(c(k))),
                                                               z3.And(tag(k) == 1, d(k) < n, c(k + 1) == c(k), d(k + 1) == d(k) + 1, loc(k) == B(d(k))))), pat=lambda k: [c(k), d(k)]),
          H.each(lambda k: H.each(lambda i: imp(z3.And(0 <= k, k <= 2 * n, 0 <= i, i < n), z3.And(imp(i < c(k), b(i) <= loc(k - 1)), imp(z3.And(i >= c(k), k < 2 * n), b(i) >= loc(k)),
                                                                                           imp(i < d(k), B(i) <= loc(k - 1)), imp(z3.And(i >= d(k), k < 2 * n), B(i) >= loc(k))))))]
    return h, land(*cn)
def merge_at(n, b, B, loc, c, d, k, i):
    """the last conclusion at given points (an instance)"""
    return imp(z3.And(0 <= k, k <= 2 * n, 0 <= i, i < n), z3.And(imp(i < c(k), b(i) <= loc(k - 1)), imp(z3.And(i >= c(k), k < 2 * n), b(i) >= loc(k)),
                                                                 imp(i < d(k), B(i) <= loc(k - 1)), imp(z3.And(i >= d(k), k < 2 * n), B(i) >= loc(k))))

ARGS = [('b', AR), ('B', AR), ('lam', R)]
@lemma('rw_start', ARGS)
def rw_start(H, b, B, lam): return [], RW(b, B, lam, rvl(0), iv(0)) == 1
@lemma('rw_same', ARGS + [('t', R), ('s', R), ('m', I)])
def rw_same(H, b, B, lam, t, s, m): return [m >= 0, lam * (s - t) == 0], RW(b, B, lam, s, m) == RW(b, B, lam, t, m)
@lemma('rw_step', ARGS + [('n', I), ('t', R), ('s', R), ('a', I), ('m', I)])
def rw_step(H, b, B, lam, n, t, s, a, m):
    return [0 <= a, a <= m, m <= n, t <= s, lam >= 0,
            H.all(lambda i: imp(rng(0, i, a), B[i] <= t)), H.all(lambda i: imp(rng(a, i, n), B[i] >= s)), H.all(lambda i: imp(rng(0, i, m), b[i] <= t))], \
           Sum(lambda l: POIS(lam * (s - t), l) * RW(b, B, lam, t, m - l), m - a + 1) == RW(b, B, lam, s, m)
@lemma('rw_zero', ARGS + [('s', R), ('m', I)])
def rw_zero(H, b, B, lam, s, m): return [m >= 0, z3.Or(lam == 0, b[m] >= s)], RW(b, B, lam, s, m + 1) == 0
@lemma('rw_final', [('b', AR), ('B', AR), ('n', I)])
def rw_final(H, b, B, n): return [n >= 0], RDIV_F(RW(b, B, z3.ToReal(n), rvl(1), n), POIS(z3.ToReal(n), n)) == NCP(b, B, n)
@lemma('ncp_incompatible', [('b', AR), ('B', AR), ('n', I)])
def ncp_incompatible(H, b, B, n):
    """some b_i >= B_i: the event has probability 0"""
    return [], H.each(lambda i: imp(z3.And(rng(0, i, n), b[i] >= B[i]), NCP(b, B, n) == 0), pat=lambda i: [b[i], B[i]])
@lemma('ncp_ext', [('b', AR), ('B', AR), ('c', AR), ('C', AR), ('n', I)])
def ncp_ext(H, b, B, c, C, n):
    return [H.all(lambda i: imp(rng(0, i, n), z3.And(b[i] == c[i], B[i] == C[i])))], NCP(b, B, n) == NCP(c, C, n)

@lemma('fft', [('A', AR), ('B', AR), ('XR', AR), ('XI', AR), ('nn', I), ('size', I), ('m', I)])
def fft(H, A, B, XR, XI, nn, size, m):
    """the product of the transforms, scaled by 1/nn and transformed back, is the linear convolution"""
    nr = z3.ToReal(nn); inv = RDIV_F(rvl(1), nr)
    def prod(k):
        ar, ai, br, bi = lib.DFTRE(A, nn, k), lib.DFTIM(A, nn, k), lib.DFTRE(B, nn, k), lib.DFTIM(B, nn, k)
        return imp(z3.And(0 <= k, k <= nn / 2), z3.And(XR[k] == inv * ar * br - inv * ai * bi, XI[k] == inv * ar * bi + inv * ai * br))
    return [size >= 1, nn >= 2 * size - 1, 0 <= m, m < size, H.all(prod),
            H.all(lambda z: imp(z3.And(size <= z, z < nn), A[z] == 0)), H.all(lambda z: imp(z3.And(size <= z, z < nn), B[z] == 0))], \
           lib.IDFT(XR, XI, nn, m) == Sum(lambda t: A[t] * B[m - t], m + 1)

@lemma('fft1', [('A', AR), ('B', AR), ('XR', AR), ('XI', AR), ('nn', I), ('size', I), ('m', I)])
def fft1(H, A, B, XR, XI, nn, size, m):
    """without the scaling the result has to be divided by nn"""
    def prod(k):
        ar, ai, br, bi = lib.DFTRE(A, nn, k), lib.DFTIM(A, nn, k), lib.DFTRE(B, nn, k), lib.DFTIM(B, nn, k)
        return imp(z3.And(0 <= k, k <= nn / 2), z3.And(XR[k] == ar * br - ai * bi, XI[k] == ar * bi + ai * br))
    return [size >= 1, nn >= 2 * size - 1, 0 <= m, m < size, H.all(prod),
            H.all(lambda z: imp(z3.And(size <= z, z < nn), A[z] == 0)), H.all(lambda z: imp(z3.And(size <= z, z < nn), B[z] == 0))], \
           z3.And(RDIV_F(lib.IDFT(XR, XI, nn, m), z3.ToReal(nn)) == Sum(lambda t: A[t] * B[m - t], m + 1), RDIV_F(rvl(1), z3.ToReal(nn)) * lib.IDFT(XR, XI, nn, m) == Sum(lambda t: A[t] * B[m - t], m + 1))

def arr_const(ex, d):
    """a constant array equal to the contents (on the whole index range)"""
    if isinstance(d, FBase): return d.a
    a = ex.fresh(AR, 'arr')
    x = z3.Int('#i')
    ex.assume(z3.ForAll([x], a[x] == d.read(x), patterns=[a[x]]))
    return a

# ---------------------------------------------------------------- one-sided boundaries
ZEROS = z3.K(I, rvl(0)); ONES = z3.K(I, rvl(1))
DW = z3.Function('DW', AR, AR, R, I, R, R, I, R); lean_name(DW, 'DW')
@lemma('dw_start', ARGS + [('a', I), ('t', R), ('s', R), ('j', I)])
def dw_start(H, b, B, lam, a, t, s, j):
    return [0 <= a, a <= j], Sum(lambda l: POIS(lam * (s - t), l) * RW(b, B, lam, t, j - l), j - a + 1) == DW(b, B, lam, a, t, s, j)
def _below(H, b, B, n, a, t, s, j):
    return [0 <= a, a <= j, j <= n, t <= s, H.all(lambda i: imp(rng(0, i, a), B[i] <= t)), H.all(lambda i: imp(rng(a, i, n), B[i] >= s)), H.all(lambda i: imp(rng(0, i, j), b[i] <= t))]
@lemma('dw_step', ARGS + [('n', I), ('a', I), ('t', R), ('u', R), ('s', R), ('j', I)])
def dw_step(H, b, B, lam, n, a, t, u, s, j):
    """continue from time u >= t, and leave out the paths that stand at height a then"""
    return _below(H, b, B, n, a, t, u, j) + [lam >= 0, u <= s], \
           DW(b, B, lam, a + 1, u, s, j) == DW(b, B, lam, a, t, s, j) - RW(b, B, lam, u, a) * POIS(lam * (s - u), j - a)
@lemma('dw_final', ARGS + [('n', I), ('a', I), ('t', R), ('s', R), ('j', I)])
def dw_final(H, b, B, lam, n, a, t, s, j): return _below(H, b, B, n, a, t, s, j) + [lam >= 0], DW(b, B, lam, a, t, s, j) == RW(b, B, lam, s, j)
@lemma('ncp_zero', [('b', AR), ('B', AR)])
def ncp_zero(H, b, B): return [], NCP(b, B, iv(0)) == 1
@lemma('reflect', [('b', AR), ('B', AR), ('c', AR), ('C', AR), ('n', I)])
def reflect(H, b, B, c, C, n):
    return [H.all(lambda i: imp(rng(0, i, n), z3.And(c[i] == 1 - B[n - 1 - i], C[i] == 1 - b[n - 1 - i], b[i] >= 0, B[i] <= 1)))], NCP(b, B, n) == NCP(c, C, n)

# ---------------------------------------------------------------- the polynomial algorithm
POLY = z3.Function('POLY', AR, AR, I, R, R); lean_name(POLY, 'POLY')       # sum_{k<=d} m_k (x+a_k)^k
QM = z3.Function('QM', AR, I, R, R); lean_name(QM, 'QM')                   # q_0 = 1, q_{i+1}(x) = integral of q_i from b_i to x
@lemma('poly_def', [('m', AR), ('a', AR), ('d', I), ('x', R)])
def poly_def(H, m, a, d, x): return [d >= 0], POLY(m, a, d, x) == Sum(lambda k: m[k] * lib.IPOW(x + a[k], k), d + 1)
@lemma('pow2_add', [('i', I), ('j', I)])
def pow2_add(H, i, j): return [], lib.POW2(i) * lib.POW2(j) == lib.POW2(i + j)
@lemma('pow2_pos', [('i', I)])
def pow2_pos(H, i): return [], lib.POW2(i) > 0
@lemma('pow2_zero', [])
def pow2_zero(H): return [], lib.POW2(iv(0)) == 1
@lemma('mns_start', [('m', AR), ('a', AR), ('b', AR)])
def mns_start(H, m, a, b): return [m[iv(0)] == 1], H.each(lambda x: POLY(m, a, iv(0), x) == QM(b, iv(0), x), sort=R, pat=lambda x: POLY(m, a, iv(0), x))
@lemma('mns_step', [('b', AR), ('m', AR), ('a', AR), ('m1', AR), ('a1', AR), ('m2', AR), ('a2', AR), ('d', I), ('E', R), ('P', R)])
def mns_step(H, b, m, a, m1, a1, m2, a2, d, E, P):
    """integrate, subtract the value at b_d (m1 is the antiderivative, m2 the result, scaled by P)"""
    return [d >= 0, H.all(lambda y: POLY(m, a, d, y) == E * QM(b, d, y), sort=R),
            m1[iv(0)] == 0, H.all(lambda k: imp(rng(1, k, d + 2), m1[k] == RDIV_F(m[k - 1], z3.ToReal(k)))), H.all(lambda k: imp(rng(2, k, d + 2), a1[k] == a[k - 1])),
            m2[iv(0)] == -P * POLY(m1, a1, d + 1, b[d]), H.all(lambda k: imp(rng(1, k, d + 2), m2[k] == P * m1[k])), H.all(lambda k: imp(rng(1, k, d + 2), a2[k] == a1[k]))], \
           H.each(lambda x: POLY(m2, a2, d + 1, x) == P * E * QM(b, d + 1, x), sort=R, pat=lambda x: POLY(m2, a2, d + 1, x))
@lemma('mns_final', [('b', AR), ('n', I), ('e', I), ('r', R)])
def mns_final(H, b, n, e, r):
    return [n >= 0, mono(H, fun(b), n), H.all(lambda k: imp(rng(0, k, n), b[k] <= 1)), r == lib.POW2(e) * QM(b, n, rvl(1))], \
           land(imp(r <= 0, NCP(b, ONES, n) == 0), imp(r > 0, lib.EXP(lib.LGAMMA(z3.ToReal(n + 1)) + lib.LOG(r) - z3.ToReal(e) * lib.LOG(rvl(2))) == NCP(b, ONES, n)))

# ---------------------------------------------------------------- consequences for clients
@lemma('ncp_range', [('b', AR), ('B', AR), ('n', I)])
def ncp_range(H, b, B, n):
    return [n >= 0, H.all(lambda i: imp(rng(0, i, n), b[i] >= 0))], z3.And(0 <= NCP(b, B, n), NCP(b, B, n) <= 1)
@lemma('ncp_mono', [('b', AR), ('B', AR), ('c', AR), ('C', AR), ('n', I)])
def ncp_mono(H, b, B, c, C, n):
    return [n >= 0, H.all(lambda i: imp(rng(0, i, n), z3.And(b[i] <= c[i], C[i] <= B[i])))], NCP(c, C, n) <= NCP(b, B, n)
