// Histories of requests on one PoissonPMFGenerator: "id max_k n (k lambda)*n"; also poisson_pmf(lambda,k) and evaluate_pmf
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <iostream>
#include <stdexcept>
#include "poisson_pmf.hh"
static long double ref(double l, int k) { if (l == 0) return k == 0; return expl(-(long double)l + k*logl((long double)l) - lgammal(k+1.0L)); }
static bool close(double v, long double e, double l, int k) {
    double tol = 1e-15 + (double)e * (1e-13 * (10 + l + k*(1 + fabs(log(l > 0 ? l : 1))) + k*log(k + 2.0)));
    if ((double)e < 1e-290) return v >= 0 && v < 1e-280;
    return v - (double)e <= tol && (double)e - v <= tol && v >= 0;
}
int main() {
    std::string id, t; int M, n; char buf[300];
    while (std::cin >> id >> M >> n) {
        std::string bad; std::vector<int> ks(n); std::vector<double> ls(n);
        for (int i = 0; i < n; ++i) { std::cin >> ks[i] >> t; ls[i] = strtod(t.c_str(), 0); }
        try {
            PoissonPMFGenerator g(M);
            for (int c = 0; c < n && bad.empty(); ++c) {
                int k = ks[c]; double l = ls[c];
                std::vector<double> before(g.get_array(), g.get_array() + M + 1);
                bool threw = false;
                try { g.compute_array(k, l); } catch (std::runtime_error&) { threw = true; }
                if (threw != (l < 0)) { snprintf(buf, 300, "request %d: intensity %.17g %s", c, l, threw ? "refused" : "accepted"); bad = buf; break; }
                const double* a = g.get_array();
                for (int i = 0; i <= M && bad.empty(); ++i) {
                    if (i <= k && l >= 0) { if (!close(a[i], ref(l, i), l, i)) { snprintf(buf, 300, "request %d: table(%d, %.17g)[%d] = %.17g instead of %.17Lg", c, k, l, i, a[i], ref(l, i)); bad = buf; } }
                    else if (a[i] != before[i]) { snprintf(buf, 300, "request %d: table(%d, %.17g) changed entry %d", c, k, l, i); bad = buf; }
                }
                if (l >= 0) for (int i = 0; i <= k && bad.empty(); i += 1 + i/3) {
                    if (!close(g.evaluate_pmf(l, i), ref(l, i), l, i)) { snprintf(buf, 300, "evaluate_pmf(%.17g, %d) = %.17g instead of %.17Lg", l, i, g.evaluate_pmf(l, i), ref(l, i)); bad = buf; }
                    if (!close(poisson_pmf(l, i), ref(l, i), l, i)) { snprintf(buf, 300, "poisson_pmf(%.17g, %d) = %.17g instead of %.17Lg", l, i, poisson_pmf(l, i), ref(l, i)); bad = buf; }
                }
            }
        } catch (std::exception& e) { bad = std::string("exception ") + e.what(); }
        printf("%s %s %s\n", id.c_str(), bad.empty() ? "ok" : "bad", bad.c_str()); fflush(stdout);
    }
}
