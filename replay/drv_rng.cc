// The generator classes of src/crossprob_mc.cc (with the real TinyMT64) against an independent implementation of the
// reference generator.  "id kind seed mean"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <new>
#define main crossprob_mc_main
#include "crossprob_mc.cc"
#undef main
typedef unsigned long long U;
struct Ref { U s0, s1;
    static const unsigned m1 = 0xfa051f40, m2 = 0xffd0fff4; static const U t = 0x58d02ffeffbfffbcULL;
    void init(U seed) { U s[2] = { seed ^ ((U)m1 << 32), (U)m2 ^ t };
        for (U i = 1; i <= 7; ++i) { U p = s[(i+1) % 2]; s[i % 2] ^= i + 6364136223846793005ULL * (p ^ (p >> 62)); }
        s0 = s[0]; s1 = s[1]; if ((s0 << 1) == 0 && s1 == 0) { s0 = 84; s1 = 77; } }
    void next() { U a = s0 & 0x7fffffffffffffffULL, x = a ^ s1; x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11;
        s0 = s1; s1 = x; if (x & 1) { s0 ^= m1; s1 ^= (U)m2 << 32; } }
    U out() { U x = s0 + s1; x ^= s0 >> 8; if (x & 1) x ^= t; return x; }
    double c01() { next(); return ldexp((double)(out() >> 12), -52); }
};
static bool close_(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }
int main() {
    string id, kind; U seed; double mean;
    while (cin >> id >> kind >> seed >> mean) {
        char buf[300]; string bad; Ref r; r.init(seed);
        if (kind == "x") {
            unsigned char* m = (unsigned char*)malloc(sizeof(ExponentialRNG)); memset(m, 0xA5, sizeof(ExponentialRNG));
            ExponentialRNG* g = new (m) ExponentialRNG(seed, mean);
            for (int i = 0; i < 40 && bad.empty(); ++i) { double v = g->generate(), u = 1 - r.c01(), e = -mean * log(u);
                if (!close_(v, e)) { snprintf(buf, 300, "number %d: %.17g instead of %.17g", i, v, e); bad = buf; } }
            free(m);
        } else {
            unsigned char* m = (unsigned char*)malloc(sizeof(RandomNumberGenerator)); memset(m, 0xA5, sizeof(RandomNumberGenerator));
            RandomNumberGenerator* g = new (m) RandomNumberGenerator(seed);
            for (int i = 0; i < 40 && bad.empty(); ++i) {
                double v, e;
                if (kind == "u") { v = g->generate_uniform01(); e = r.c01(); } else { v = g->generate_exponential(mean); e = -mean * log(1 - r.c01()); }
                if (!close_(v, e)) { snprintf(buf, 300, "number %d: %.17g instead of %.17g", i, v, e); bad = buf; } }
            free(m);
        }
        printf("%s %s %s\n", id.c_str(), bad.empty() ? "ok" : "bad", bad.c_str()); fflush(stdout);
    }
}
