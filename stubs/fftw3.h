
#ifndef V_FFTW
#define V_FFTW
#include "__vcore.h"
typedef double fftw_complex[2];
struct fftw_plan_s; typedef struct fftw_plan_s* fftw_plan;
extern "C" {
fftw_plan fftw_plan_dft_r2c_1d(int, double*, fftw_complex*, unsigned); fftw_plan fftw_plan_dft_c2r_1d(int, fftw_complex*, double*, unsigned);
void fftw_execute(const fftw_plan); void fftw_execute_dft_r2c(const fftw_plan, double*, fftw_complex*); void fftw_execute_dft_c2r(const fftw_plan, fftw_complex*, double*);
void fftw_destroy_plan(fftw_plan); double* fftw_alloc_real(size_t); fftw_complex* fftw_alloc_complex(size_t); void* fftw_malloc(size_t); void fftw_free(void*);
}
#define FFTW_MEASURE (0U)
#define FFTW_DESTROY_INPUT (1U << 0)
#define FFTW_UNALIGNED (1U << 1)
#define FFTW_EXHAUSTIVE (1U << 3)
#define FFTW_PRESERVE_INPUT (1U << 4)
#define FFTW_PATIENT (1U << 5)
#define FFTW_ESTIMATE (1U << 6)
#endif
