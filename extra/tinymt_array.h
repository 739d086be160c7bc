/* the published initialisation by an array, advanced one key at a time in ghost state */
#include <stdint.h>
typedef unsigned long long U;
U g_st[4], g_f[2]; int g_j;
U nondet_U(void); int nondet_int(void);
#define CNT(n) ((n) + 1 > 8 ? (n) : 7)
#define SF1(x) (((x) ^ ((x) >> 59)) * 2173292883993ULL)
#define SF2(x) (((x) ^ ((x) >> 59)) * 58885565329898161ULL)
#define GHOST(k, n, ii) do { U rr = SF1(g_st[ii] ^ g_st[(ii + 1) & 3] ^ g_st[(ii + 3) & 3]); g_st[(ii + 1) & 3] += rr; \
    if (g_j < n) rr += k[g_j] + ii; else rr += ii; g_st[(ii + 2) & 3] += rr; g_st[ii] = rr; ++g_j; } while (0)
static void g_havoc(void) { g_st[0] = nondet_U(); g_st[1] = nondet_U(); g_st[2] = nondet_U(); g_st[3] = nondet_U(); g_j = nondet_int(); }
static void g_start(int n, unsigned m1, unsigned m2, U t) {
    g_st[0] = 0; g_st[1] = m1; g_st[2] = m2; g_st[3] = t; g_j = 0;
    U rr = SF1(g_st[0] ^ g_st[1] ^ g_st[3]); g_st[1] += rr; rr += n; g_st[2] += rr; g_st[0] = rr;
}
#define FST rr = SF2(q[ii] + q[(ii + 1) & 3] + q[(ii + 3) & 3]); q[(ii + 1) & 3] ^= rr; rr -= ii; q[(ii + 2) & 3] ^= rr; q[ii] = rr; ii = (ii + 1) & 3;
static void g_final(int ii) {
    U rr, q[4]; q[0] = g_st[0]; q[1] = g_st[1]; q[2] = g_st[2]; q[3] = g_st[3];
    FST FST FST FST
    g_f[0] = q[0] ^ q[1]; g_f[1] = q[2] ^ q[3];
    if ((g_f[0] & 0x7fffffffffffffffULL) == 0 && g_f[1] == 0) { g_f[0] = 84; g_f[1] = 77; }
}
