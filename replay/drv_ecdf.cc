// runs the probability functions on the cases read from stdin
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <iostream>
#include <stdexcept>
#include <typeinfo>
#include "ecdf2.hh"
#include "ecdf1_new.hh"
#include "ecdf1_mns2016.hh"
int main() {
    std::string id, al; int nb, nB;
    while (std::cin >> id >> al >> nb) {
        std::vector<double> b(nb); std::string t; for (auto& x : b) { std::cin >> t; x = strtod(t.c_str(), 0); }
        std::cin >> nB; std::vector<double> B(nB); for (auto& x : B) { std::cin >> t; x = strtod(t.c_str(), 0); }
        std::vector<double> b0(b), B0(B);
        try {
            double r;
            if (al == "two-direct") r = ecdf2(b, B, false);
            else if (al == "two-fft") r = ecdf2(b, B, true);
            else if (al == "new-b") r = ecdf1_new_b(b);
            else if (al == "new-B") r = ecdf1_new_B(B);
            else if (al == "mns-b") r = ecdf1_mns2016_b(b);
            else if (al == "mns-B") r = ecdf1_mns2016_B(B);
            else return 9;
            printf("%s ok %.21g%s\n", id.c_str(), r, (b == b0 && B == B0) ? "" : " input-changed");
        } catch (std::runtime_error& e) { printf("%s err runtime_error\n", id.c_str());
        } catch (std::exception& e) { printf("%s err %s\n", id.c_str(), typeid(e).name()); }
        fflush(stdout);
    }
}
