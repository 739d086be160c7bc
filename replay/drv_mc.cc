// The real simulator (crossprob_mc.cc, copied next to a scripted tinymt64.h) on chosen random numbers.
// "id cross ns steps.. nb b.. nB B.."         -> crossing decision of the realisation
// "id ecdf n nb b.. nB B.. sims seed ext"     -> frequency, checked against the realisations built from the numbers consumed
// "id poi lam nb b.. nB B.. sims seed ext"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <cassert>
#include <ctime>
#include <random>
#include <typeinfo>
std::vector<double> fake_log; long fake_inits = 0;
static std::mt19937 fake_gen; static int fake_ext = 0; static size_t fake_limit = 0;
struct TooMany {};
double fake_next() {
    if (fake_log.size() > fake_limit) throw TooMany();
    double u = (fake_gen() + 1.0) / 4294967296.0;
    if (fake_ext && fake_gen() % fake_ext == 0) u = (fake_gen() & 1) ? 1.0 : 1.0 / 4503599627370496.0;
    fake_log.push_back(u); return u;
}
#define main crossprob_mc_main
#include "crossprob_mc.cc"
#undef main
typedef long double L;
static bool ref_cross(const std::vector<L>& x, const std::vector<double>& b, const std::vector<double>& B, bool& near_tie) {
    bool c = false; size_t k = x.size(); near_tie = false;
    if (k < B.size()) c = true;
    if (!b.empty() && k > b.size()) c = true;
    for (size_t i = 0; i < k; ++i) {
        if (i < B.size()) { if (x[i] > B[i]) c = true; if (fabsl(x[i] - B[i]) < 1e-12L) near_tie = true; }
        if (i < b.size()) { if (x[i] < b[i]) c = true; if (fabsl(x[i] - b[i]) < 1e-12L) near_tie = true; }
    }
    return c;
}
static std::vector<double> vec() { int n; std::cin >> n; std::vector<double> v(n); std::string t; for (auto& x : v) { std::cin >> t; x = strtod(t.c_str(), 0); } return v; }
int main() {
    std::string id, op; char buf[400];
    while (std::cin >> id >> op) {
        std::string bad;
        if (op == "cross") {
            std::vector<double> s = vec(), b = vec(), B = vec(); std::vector<double> s0(s);
            bool t, e = ref_cross(std::vector<L>(s.begin(), s.end()), b, B, t), r = does_integer_step_function_cross(s.data(), s.size(), b, B);
            if (r != e) bad = r ? "counted as crossing" : "counted as non-crossing";
        } else {
            bool poi = op == "poi"; double lam = 0; long n = 0; std::string w; std::cin >> w; if (poi) lam = strtod(w.c_str(), 0); else n = atol(w.c_str());
            std::vector<double> b = vec(), B = vec(); long sims; unsigned seed; int ext; std::cin >> sims >> seed >> ext;
            fake_gen.seed(seed); fake_ext = ext; fake_log.clear(); fake_inits = 0;
            fake_limit = poi ? (size_t)(sims * (50 + 20*lam + 3*(b.size() + B.size()))) : (size_t)(sims*(n+1)) + 100;
            double r = -1; bool ran = true;
            try { r = poi ? poisson_process_crossing_probability_montecarlo(lam, b, B, sims) : ecdf_crossing_probability_montecarlo(n, b, B, sims); }
            catch (TooMany&) { bad = "does not stop consuming random numbers"; ran = false; }
            long cnt = 0, ties = 0; size_t pos = 0;
            bool impossible = poi ? (!b.empty() && b.size() < B.size()) : ((long)B.size() > n || (!b.empty() && (long)b.size() < n));
            if (ran && impossible) { if (r != 1.0) { snprintf(buf, 400, "frequency %.17g although the lengths make non-crossing impossible", r); bad = buf; } }
            else if (ran) {
                std::string first;
                // which jumps a simulation samples is its own business as long as the decision is right: the
                // numbers drawn are interpreted with every stopping rule, one of them has to fit
                for (int policy = 0; policy < (poi ? 6 : 1); ++policy) {
                bad = ""; pos = 0; cnt = ties = 0;
                for (long k = 0; k < sims && bad.empty(); ++k) {
                    std::vector<L> x; L last = 0; bool t = false, c;
                    if (!poi) {
                        if (pos + n + 1 > fake_log.size()) { snprintf(buf, 400, "only %zu random numbers used for %ld simulations of %ld points", fake_log.size(), sims, n); bad = buf; break; }
                        for (long i = 0; i <= n; ++i) { last += -logl((L)fake_log[pos++]); x.push_back(last); }
                        x.pop_back(); for (auto& y : x) y /= last;
                        if (last == 0) { ++ties; continue; }
                        c = ref_cross(x, b, B, t);
                    } else {
                        size_t most = b.empty() ? B.size() : b.size();
                        while (true) {
                            if (pos >= fake_log.size()) { snprintf(buf, 400, "random numbers reused: only %zu drawn for %ld simulations", fake_log.size(), sims); bad = buf; break; }
                            last += -logl((L)fake_log[pos++]) / lam;
                            if (fabsl(last - 1) < 1e-12L) t = true;
                            if (last > 1) break;
                            x.push_back(last); size_t m = x.size();
                            if (policy % 3 == 0 && m > most) break;
                            if (policy % 3 == 1 && m > (b.empty() ? most - 1 : most)) break;
                            if (policy >= 3 && ((m <= B.size() && x[m-1] > B[m-1]) || (m <= b.size() && x[m-1] < b[m-1]))) break;
                        }
                        c = ref_cross(x, b, B, t);
                    }
                    ties += t; cnt += c;
                }
                if (bad.empty() && pos != fake_log.size()) { snprintf(buf, 400, "%zu random numbers drawn, %zu expected", fake_log.size(), pos); bad = buf; }
                if (bad.empty() && sims > 0 && fabs(r * sims - cnt) > ties + 1e-6 * sims) { snprintf(buf, 400, "frequency %.17g instead of %ld/%ld", r, cnt, sims); bad = buf; }
                if (bad.empty()) break;
                if (first.empty()) first = bad;
                }
                if (!bad.empty()) bad = first;
            }
        }
        printf("%s %s %s\n", id.c_str(), bad.empty() ? "ok" : "bad", bad.c_str()); fflush(stdout);
    }
}
