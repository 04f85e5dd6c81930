#ifndef KV_FFTW3
#define KV_FFTW3
#include <kv_base>
struct fftw_plan_s; typedef fftw_plan_s *fftw_plan;
typedef int fftw_r2r_kind;
enum { FFTW_R2HC=0, FFTW_HC2R=1, FFTW_DHT=2, FFTW_REDFT00=3, FFTW_REDFT01=4, FFTW_REDFT10=5, FFTW_REDFT11=6, FFTW_RODFT00=7, FFTW_RODFT01=8, FFTW_RODFT10=9, FFTW_RODFT11=10 };
#define FFTW_MEASURE (0U)
#define FFTW_DESTROY_INPUT (1U << 0)
#define FFTW_UNALIGNED (1U << 1)
#define FFTW_PRESERVE_INPUT (1U << 4)
#define FFTW_PATIENT (1U << 5)
#define FFTW_EXHAUSTIVE (1U << 3)
#define FFTW_ESTIMATE (1U << 6)
extern "C" {
fftw_plan fftw_plan_r2r_1d(int n, double *in, double *out, int kind, unsigned flags);
void fftw_execute_r2r(const fftw_plan p, double *in, double *out);
void fftw_execute(const fftw_plan p);
void fftw_destroy_plan(fftw_plan p);
void fftw_cleanup(void);
void *fftw_malloc(size_t n);
double *fftw_alloc_real(size_t n);
void fftw_free(void *p);
}
#endif
