// Independent oracle: Pr[b_i <= X_(i) <= B_i for all i] for n uniform points, by conditioning on the counts
// at the distinct boundary locations (all terms positive, long double).
#include <cstdio>
#include <cmath>
#include <vector>
#include <algorithm>
#include <string>
#include <iostream>
typedef long double L;
static L pmf(L lam, int k) { if (lam == 0) return k == 0 ? 1 : 0; return expl(-lam + k*logl(lam) - lgammal(k+1.0L)); }
L ncp(const std::vector<double>& b, const std::vector<double>& B) {
    int n = b.size();
    std::vector<double> pts(b); pts.insert(pts.end(), B.begin(), B.end()); pts.push_back(1.0);
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    for (int i = 0; i < n; ++i) if (b[i] > B[i]) return 0;
    std::vector<L> q(n+1, 0), r(n+1), w(n+1); q[0] = 1; double t = 0;
    int lo0 = 0, hi0 = 0;
    for (double s : pts) {
        int lo = std::upper_bound(B.begin(), B.end(), s) - B.begin();   // at least this many points <= s
        int hi = std::lower_bound(b.begin(), b.end(), s) - b.begin();   // at most this many points <= s (b_i < s)
        if (s >= 1) { lo = std::max(lo, n); hi = std::max(hi, 0); }
        L lam = (L)n * ((L)s - (L)t);
        for (int k = 0; k <= n; ++k) w[k] = pmf(lam, k);
        std::fill(r.begin(), r.end(), 0);
        for (int m = lo; m <= hi; ++m) { L a = 0; for (int k = std::min(m, hi0); k >= lo0; --k) a += q[k] * w[m-k]; r[m] = a; }
        q.swap(r); t = s; lo0 = lo; hi0 = hi;
        if (lo > hi) return 0;
    }
    return q[n] / pmf(n, n);
}
int main() {
    std::ios::sync_with_stdio(false);
    std::string id, al; int nb, nB;
    while (std::cin >> id >> al >> nb) {
        std::vector<double> b(nb); std::string t; for (auto& x : b) { std::cin >> t; x = strtod(t.c_str(), 0); }
        std::cin >> nB; std::vector<double> B(nB); for (auto& x : B) { std::cin >> t; x = strtod(t.c_str(), 0); }
        if (al[0] != 't') { if (nB == 0 && nb > 0) B.assign(nb, 1.0); else if (nb == 0 && nB > 0) b.assign(nB, 0.0); }
        printf("%s %.21Lg\n", id.c_str(), ncp(b, B));
    }
}
