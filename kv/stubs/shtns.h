#ifndef KV_SHTNS
#define KV_SHTNS
#include <complex>
#include <algorithm>
typedef std::complex<double> cplx;
struct shtns_info { unsigned int nlm; unsigned short lmax; unsigned short mmax; unsigned short mres; unsigned short nlat_2; unsigned int nlat; unsigned int nphi; unsigned int nspat; double *ct; double *st; };
typedef struct shtns_info *shtns_cfg;
enum shtns_type { sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly };
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt };
#define SHT_NATIVE_LAYOUT 0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS (256*2)
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)
size_t kv_LM(shtns_cfg s, size_t l, size_t m);
#define LM(shtns,l,m) kv_LM(shtns,l,m)
#define LiM(shtns,l,m) kv_LM(shtns,l,m)
size_t kv_NSPAT_ALLOC(shtns_cfg s);
#define NSPAT_ALLOC(shtns) kv_NSPAT_ALLOC(shtns)
extern "C" {
void shtns_verbose(int); int shtns_use_threads(int);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void shtns_unset_grid(shtns_cfg); void shtns_reset();
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
#endif
