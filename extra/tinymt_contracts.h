/* Contracts of src/tinymt64.h and src/tinymt64.cc, enforced by goto-instrument --dfcc on the real functions
   (compiled from the current sources); F(name) is the function under contract.  Included after the sources. */
typedef unsigned long long U;
U w_s0, w_s1, w_t, w_seed; unsigned w_m1, w_m2;      /* witnesses: the values at entry (unconstrained) */

/* the published TinyMT64 recurrence and output function */
static U spec_x(U s0, U s1) { U x = (s0 & 0x7fffffffffffffffULL) ^ s1; x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11; return x; }
static U spec_next0(U s0, U s1, unsigned m1) { return (spec_x(s0, s1) & 1) ? s1 ^ m1 : s1; }
static U spec_next1(U s0, U s1, unsigned m2) { U x = spec_x(s0, s1); return (x & 1) ? x ^ ((U)m2 << 32) : x; }
static U spec_temper(U s0, U s1, U t) { U x = s0 + s1; x ^= s0 >> 8; return (x & 1) ? x ^ t : x; }
static U spec_out(U s0, U s1, unsigned m1, unsigned m2, U t) { return spec_temper(spec_next0(s0, s1, m1), spec_next1(s0, s1, m2), t); }
static _Bool all_zero(U s0, U s1) { return (s0 & 0x7fffffffffffffffULL) == 0 && s1 == 0; }
static U spec_init(U seed, unsigned m1, unsigned m2, U t, int which) {
    U s[2]; s[0] = seed ^ ((U)m1 << 32); s[1] = (U)m2 ^ t;
    for (int i = 1; i < 8; ++i) { U p = s[(i - 1) & 1]; s[i & 1] ^= i + 6364136223846793005ULL * (p ^ (p >> 62)); }
    if (all_zero(s[0], s[1])) { s[0] = 84; s[1] = 77; }
    return s[which];
}
static U spec_f1(U x) { return (x ^ (x >> 59)) * 2173292883993ULL; }
static U spec_f2(U x) { return (x ^ (x >> 59)) * 58885565329898161ULL; }
static U spec_array(const U *k, int n, unsigned m1, unsigned m2, U t, int which) {
    U st[4], r; int i = 1, cnt = n + 1 > 8 ? n + 1 : 8; st[0] = 0; st[1] = m1; st[2] = m2; st[3] = t;
    r = spec_f1(st[0] ^ st[1] ^ st[3]); st[1] += r; r += n; st[2] += r; st[0] = r;
    for (int j = 0; j < cnt - 1; ++j) { r = spec_f1(st[i] ^ st[(i + 1) & 3] ^ st[(i + 3) & 3]); st[(i + 1) & 3] += r; if (j < n) r += k[j] + i; else r += i; st[(i + 2) & 3] += r; st[i] = r; i = (i + 1) & 3; }
    for (int j = 0; j < 4; ++j) { r = spec_f2(st[i] + st[(i + 1) & 3] + st[(i + 3) & 3]); st[(i + 1) & 3] ^= r; r -= i; st[(i + 2) & 3] ^= r; st[i] = r; i = (i + 1) & 3; }
    U s0 = st[0] ^ st[1], s1 = st[2] ^ st[3];
    if (all_zero(s0, s1)) { s0 = 84; s1 = 77; }
    return which ? s1 : s0;
}
/* d is u / 2^64 up to the last of 52 bits */
static _Bool near(double d, U u) { double e = d - (double)(u >> 11) * (1.0 / 9007199254740992.0); return -4.5e-16 <= e && e <= 4.5e-16; }

#define PRE(r) __CPROVER_requires(__CPROVER_is_fresh(r, sizeof(*r))) \
    __CPROVER_requires(r->status[0] == w_s0 && r->status[1] == w_s1 && r->mat1 == w_m1 && r->mat2 == w_m2 && r->tmat == w_t)
#define STEP(r) __CPROVER_assigns(r->status[0], r->status[1]) \
    __CPROVER_ensures(r->status[0] == spec_next0(w_s0, w_s1, w_m1)) __CPROVER_ensures(r->status[1] == spec_next1(w_s0, w_s1, w_m2))
#define OUT spec_out(w_s0, w_s1, w_m1, w_m2, w_t)
#define RET __CPROVER_return_value
void c_next_state(tinymt64_t *r) PRE(r) STEP(r);
uint64_t c_temper(tinymt64_t *r) PRE(r) __CPROVER_assigns() __CPROVER_ensures(RET == spec_temper(w_s0, w_s1, w_t));
uint64_t c_generate_uint64(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(RET == OUT);
double c_generate_double(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(0.0 <= RET && RET < 1.0) __CPROVER_ensures(near(RET, OUT));
double c_generate_double01(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(0.0 <= RET && RET < 1.0) __CPROVER_ensures(near(RET, OUT));
double c_generate_double12(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(1.0 <= RET && RET < 2.0) __CPROVER_ensures(near(RET - 1.0, OUT));
double c_generate_doubleOC(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(0.0 < RET && RET <= 1.0) __CPROVER_ensures(near(1.0 - RET, OUT));
double c_generate_doubleOO(tinymt64_t *r) PRE(r) STEP(r) __CPROVER_ensures(0.0 < RET && RET < 1.0) __CPROVER_ensures(near(RET, OUT));
void c_init(tinymt64_t *r, uint64_t seed)
    __CPROVER_requires(__CPROVER_is_fresh(r, sizeof(*r))) __CPROVER_requires(r->mat1 == w_m1 && r->mat2 == w_m2 && r->tmat == w_t && seed == w_seed)
    __CPROVER_assigns(r->status[0], r->status[1])
    __CPROVER_ensures(r->status[0] == spec_init(seed, r->mat1, r->mat2, r->tmat, 0)) __CPROVER_ensures(r->status[1] == spec_init(seed, r->mat1, r->mat2, r->tmat, 1))
    __CPROVER_ensures(!all_zero(r->status[0], r->status[1]));
#ifdef KEYS
void c_init_by_array(tinymt64_t *r, const uint64_t *key, int n)
    __CPROVER_requires(n == KEYS)
    __CPROVER_requires(__CPROVER_is_fresh(r, sizeof(*r))) __CPROVER_requires(r->mat1 == w_m1 && r->mat2 == w_m2 && r->tmat == w_t)
#if KEYS
    __CPROVER_requires(__CPROVER_is_fresh(key, KEYS * sizeof(*key)))
#endif
    __CPROVER_assigns(r->status[0], r->status[1])
    __CPROVER_ensures(r->status[0] == spec_array(key, KEYS, r->mat1, r->mat2, r->tmat, 0)) __CPROVER_ensures(r->status[1] == spec_array(key, KEYS, r->mat1, r->mat2, r->tmat, 1))
    __CPROVER_ensures(!all_zero(r->status[0], r->status[1]));
void h_init_by_array(void) { tinymt64_t *r; const uint64_t *k; F(init_by_array)(r, k, KEYS); }
#endif
void h_next_state(void) { tinymt64_t *r; F(next_state)(r); }
void h_temper(void) { tinymt64_t *r; F(temper)(r); }
void h_generate_uint64(void) { tinymt64_t *r; F(generate_uint64)(r); }
void h_generate_double(void) { tinymt64_t *r; F(generate_double)(r); }
void h_generate_double01(void) { tinymt64_t *r; F(generate_double01)(r); }
void h_generate_double12(void) { tinymt64_t *r; F(generate_double12)(r); }
void h_generate_doubleOC(void) { tinymt64_t *r; F(generate_doubleOC)(r); }
void h_generate_doubleOO(void) { tinymt64_t *r; F(generate_doubleOO)(r); }
void h_init(void) { tinymt64_t *r; uint64_t s; F(init)(r, s); }
/* lemma: with the reference parameters a state that is not all zero is never followed by the all-zero state */
void h_lemma_nonzero(void) { U a, b; __CPROVER_assume(!all_zero(a, b)); __CPROVER_assert(!all_zero(spec_next0(a, b, 0xfa051f40u), spec_next1(a, b, 0xffd0fff4u)), "the all-zero state is not reached"); }
