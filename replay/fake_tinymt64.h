// Stand-in for tinymt64.h: the uniform numbers come from a script.  Every floating-point variant is a
// function of one uniform u in (0,1], such that -log(OC) = -log(1-double01) = -log(u).
#ifndef TINYMT64_H
#define TINYMT64_H
#include <stdint.h>
#include <inttypes.h>
#include <vector>
struct TINYMT64_T { uint64_t status[2]; uint32_t mat1; uint32_t mat2; uint64_t tmat; };
typedef struct TINYMT64_T tinymt64_t;
extern std::vector<double> fake_log; extern long fake_inits; double fake_next();
inline void tinymt64_init(tinymt64_t* r, uint64_t s) { ++fake_inits; r->status[0] = s; r->status[1] = 1; }
inline void tinymt64_init_by_array(tinymt64_t* r, const uint64_t* k, int n) { ++fake_inits; r->status[0] = n ? k[0] : 0; r->status[1] = 1; }
inline double tinymt64_generate_doubleOC(tinymt64_t*) { return fake_next(); }
inline double tinymt64_generate_doubleOO(tinymt64_t*) { return fake_next(); }
inline double tinymt64_generate_double01(tinymt64_t*) { return 1.0 - fake_next(); }
inline double tinymt64_generate_double12(tinymt64_t*) { return 2.0 - fake_next(); }
inline double tinymt64_generate_double(tinymt64_t*) { return 1.0 - fake_next(); }
inline uint64_t tinymt64_generate_uint64(tinymt64_t*) { return (uint64_t)((1.0 - fake_next()) * 18446744073709551615.0); }
#endif
