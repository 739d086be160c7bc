// string and file parsing: "id op hex" -> values.  ops: dbl long split list file
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include "string_utils.hh"
#include "read_boundaries_file.hh"
using namespace std;
static string unhex(const string& h) { string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static string hex(const string& s) { string r = "x"; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static string num(const vector<double>& v) { string r = to_string(v.size()); char b[40]; for (double x : v) { snprintf(b, 40, " %.17g", x); r += b; } return r; }
int main() {
    string id, op, h;
    while (cin >> id >> op >> h) {
        string s = unhex(h), out; char b[64];
        try {
            if (op == "dbl") { snprintf(b, 64, "%.17g", string_to_double(s)); out = b; }
            else if (op == "long") { snprintf(b, 64, "%ld", string_to_long(s)); out = b; }
            else if (op == "split") { vector<string> p = split(s, ','); out = to_string(p.size()); for (auto& x : p) out += " " + hex(x); }
            else if (op == "list") out = num(read_comma_delimited_doubles(s));
            else if (op == "file") { auto p = read_and_check_boundaries_file(s); out = num(p.first) + " | " + num(p.second); }
            else return 9;
            out = "ok " + out;
        } catch (ifstream::failure&) { out = "err failure";
        } catch (runtime_error&) { out = "err runtime_error";
        } catch (exception& e) { out = string("err other"); }
        printf("%s %s\n", id.c_str(), out.c_str()); fflush(stdout);
    }
}
