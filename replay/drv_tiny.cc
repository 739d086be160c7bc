// The real generator (src/tinymt64.{h,cc}) against an independent implementation of the published recurrence.
// "id op a b c d..." all numbers hexadecimal: seed s | array n k.. | state s0 s1 steps | range s0 s1
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <iostream>
#include "tinymt64.h"
typedef unsigned long long U;
struct Ref { U s0, s1; unsigned m1, m2; U t;
    void cert() { if ((s0 << 1) == 0 && s1 == 0) { s0 = 84; s1 = 77; } }
    void init(U seed) { U s[2] = { seed ^ ((U)m1 << 32), (U)m2 ^ t };
        for (U i = 1; i <= 7; ++i) { U p = s[(i+1) % 2]; s[i % 2] ^= i + 6364136223846793005ULL * (p ^ (p >> 62)); }
        s0 = s[0]; s1 = s[1]; cert(); }
    static U f1(U x) { return (x ^ (x >> 59)) * 2173292883993ULL; }
    static U f2(U x) { return (x ^ (x >> 59)) * 58885565329898161ULL; }
    void init(const std::vector<U>& k) { int n = k.size(); U st[4] = {0, m1, m2, t}; int cnt = n + 1 > 8 ? n + 1 : 8;
        U r = f1(st[0] ^ st[1] ^ st[3]); st[1] += r; r += n; st[2] += r; st[0] = r; cnt--;
        int i = 1; for (int j = 0; j < cnt; ++j) { r = f1(st[i] ^ st[(i+1)&3] ^ st[(i+3)&3]); st[(i+1)&3] += r; r += (j < n ? k[j] : 0) + i; st[(i+2)&3] += r; st[i] = r; i = (i+1)&3; }
        for (int j = 0; j < 4; ++j) { r = f2(st[i] + st[(i+1)&3] + st[(i+3)&3]); st[(i+1)&3] ^= r; r -= i; st[(i+2)&3] ^= r; st[i] = r; i = (i+1)&3; }
        s0 = st[0] ^ st[1]; s1 = st[2] ^ st[3]; cert(); }
    void next() { U a = s0 & 0x7fffffffffffffffULL, x = a ^ s1; x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11;
        s0 = s1; s1 = x; if (x & 1) { s0 ^= m1; s1 ^= (U)m2 << 32; } }
    U out() { U x = s0 + s1; x ^= s0 >> 8; if (x & 1) x ^= t; return x; }
};
static std::string same(const tinymt64_t& a, const Ref& r) { char b[300]; if (a.status[0] == r.s0 && a.status[1] == r.s1 && a.mat1 == r.m1 && a.mat2 == r.m2 && a.tmat == r.t) return "";
    snprintf(b, 300, "state %016llx %016llx instead of %016llx %016llx", (U)a.status[0], (U)a.status[1], r.s0, r.s1); return b; }
int main() {
    std::string id, op; std::cin >> std::hex;
    while (std::cin >> id >> op) {
        std::string bad; char buf[300]; tinymt64_t g; memset(&g, 0xA5, sizeof g); Ref r;
        U p[3]; for (auto& x : p) std::cin >> x;
        g.mat1 = r.m1 = (unsigned)p[0]; g.mat2 = r.m2 = (unsigned)p[1]; g.tmat = r.t = p[2];
        int n; std::cin >> n; std::vector<U> v(n); for (auto& x : v) std::cin >> x;
        if (op == "seed") { tinymt64_init(&g, v[0]); r.init(v[0]); }
        else if (op == "array") { std::vector<uint64_t> k(v.begin(), v.end()); tinymt64_init_by_array(&g, k.data(), n); r.init(v); }
        else { g.status[0] = r.s0 = v[0]; g.status[1] = r.s1 = v[1]; }
        bad = same(g, r);
        for (int i = 0; i < 24 && bad.empty(); ++i) {
            double d; U u; r.next(); u = r.out(); double c12 = 1.0 + ldexp((double)(u >> 12), -52);
            switch (i % 6) {
            case 0: { U w = tinymt64_generate_uint64(&g); if (w != u) { snprintf(buf, 300, "output %d: %016llx instead of %016llx", i, w, u); bad = buf; } break; }
            case 1: d = tinymt64_generate_double(&g); if (!(d >= 0 && d < 1) || fabs(d - ldexp((double)u, -64)) > 1e-15) { snprintf(buf, 300, "generate_double: %.17g for output %016llx", d, u); bad = buf; } break;
            case 2: d = tinymt64_generate_double01(&g); if (!(d >= 0 && d < 1) || d != c12 - 1) { snprintf(buf, 300, "generate_double01: %.17g for output %016llx", d, u); bad = buf; } break;
            case 3: d = tinymt64_generate_double12(&g); if (!(d >= 1 && d < 2) || d != c12) { snprintf(buf, 300, "generate_double12: %.17g for output %016llx", d, u); bad = buf; } break;
            case 4: d = tinymt64_generate_doubleOC(&g); if (!(d > 0 && d <= 1) || fabs(d - (2 - c12)) > 1e-15) { snprintf(buf, 300, "generate_doubleOC: %.17g for output %016llx", d, u); bad = buf; } break;
            case 5: d = tinymt64_generate_doubleOO(&g); if (!(d > 0 && d < 1) || fabs(d - (c12 - 1)) > 1e-15) { snprintf(buf, 300, "generate_doubleOO: %.17g for output %016llx", d, u); bad = buf; } break;
            }
            if (bad.empty()) bad = same(g, r);
            if (op == "range") { // the interval has to hold for the extreme outputs, reached with chosen states
                g.status[0] = r.s0 = v[0]; g.status[1] = r.s1 = v[1];
            }
        }
        printf("%s %s %s\n", id.c_str(), bad.empty() ? "ok" : "bad", bad.c_str()); fflush(stdout);
    }
}
