// Histories of calls on one FFTWConvolver (and the direct convolution): input "id N k (size kind seed)*k".
// Prints "id ok", "id bad <description>", per history.  size > N must throw.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <iostream>
#include <stdexcept>
#include <random>
#include "common.hh"
#include "fftwconvolver.hh"
static double* block(int n) { return (double*)malloc(n > 0 ? n * sizeof(double) : 1); }
static void gen(double* p, int n, int kind, std::mt19937& g) {
    for (int i = 0; i < n; ++i) {
        double u = g() / 4294967296.0;
        switch (kind) {
        case 0: p[i] = u; break;
        case 1: p[i] = 2*u - 1; break;
        case 2: p[i] = (i == int(u*0)) ? 1.0 : 0.0; break;
        case 3: p[i] = (g() % 17 == 0) ? u : 0.0; break;
        case 4: p[i] = exp(-0.03*i) * (0.5 + u); break;
        default: p[i] = 1.0;
        }
    }
}
int main() {
    std::string id; int N, k; const int PAD = 16; const double MARK = -12345.678;
    while (std::cin >> id >> N >> k) {
        std::string bad; std::vector<int> sz(k), kd(k), sd(k);
        for (int c = 0; c < k; ++c) std::cin >> sz[c] >> kd[c] >> sd[c];
        char buf[300];
        try {
            FFTWConvolver* cv = N >= 0 ? new FFTWConvolver(N) : 0;
            for (int c = 0; c < k && bad.empty(); ++c) {
                int s = sz[c], m = s > 0 ? s : 0; std::mt19937 g(sd[c]);
                double *a = block(m), *b = block(m), *o = block(m + 2*PAD), *a0 = block(m), *b0 = block(m);
                gen(a, m, kd[c] % 6, g); gen(b, m, kd[c] / 6, g);
                if (m) { memcpy(a0, a, m*sizeof(double)); memcpy(b0, b, m*sizeof(double)); }
                for (int i = 0; i < m + 2*PAD; ++i) o[i] = MARK;
                bool threw = false;
                if (cv) { try { cv->convolve_same_size(s, a, b, o + PAD); } catch (std::runtime_error&) { threw = true; } }
                else convolve_same_size(s, a, b, o + PAD);
                if (threw != (cv && s > N)) { snprintf(buf, 300, "call %d: size %d of at most %d: %s", c, s, N, threw ? "refused" : "accepted"); bad = buf; }
                if (m && (memcmp(a, a0, m*sizeof(double)) || memcmp(b, b0, m*sizeof(double)))) { snprintf(buf, 300, "call %d: size %d: input changed", c, s); bad = buf; }
                for (int i = 0; i < PAD; ++i) if (o[i] != MARK || o[PAD+m+i] != MARK) { snprintf(buf, 300, "call %d: size %d: wrote outside the output", c, s); bad = buf; }
                double na = 0, nb = 0;
                for (int i = 0; i < m; ++i) { na += a[i]*a[i]; nb += b[i]*b[i]; }
                double tol = 1e-11 * (sqrt(na*nb) + 1e-300);
                if (!threw) for (int j = 0; j < m && bad.empty(); j += (m > 600 && j > 20 && j < m - 20) ? 1 + int(g() % 7) : 1) {
                    long double e = 0; for (int i = 0; i <= j; ++i) e += (long double)a[i]*b[j-i];
                    double v = o[PAD+j];
                    if (!(v - (double)e <= tol && (double)e - v <= tol)) { snprintf(buf, 300, "call %d: size %d of at most %d: output[%d] = %.17g instead of %.17g", c, s, N, j, v, (double)e); bad = buf; }
                }
                free(a); free(b); free(o); free(a0); free(b0);
            }
            delete cv;
        } catch (std::exception& e) { bad = std::string("exception ") + e.what(); }
        printf("%s %s %s\n", id.c_str(), bad.empty() ? "ok" : "bad", bad.c_str()); fflush(stdout);
    }
}
