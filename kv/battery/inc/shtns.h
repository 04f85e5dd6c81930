/* Stand-in for the SHTns interface used by /repo (SHTns is not installed here): naive Gauss-Legendre transforms with
 * the same data layout, normalisation (orthonormal, Condon-Shortley) and flags. */
#ifndef KV_SHTNS_STANDIN
#define KV_SHTNS_STANDIN
#include <complex>
#include <algorithm>
#include <cmath>
#include <cstddef>
typedef std::complex<double> cplx;
struct shtns_info { unsigned int nlm; unsigned short lmax; unsigned short mmax; unsigned short mres; unsigned short nlat_2; unsigned int nlat; unsigned int nphi; unsigned int nspat; double *ct; double *st; void *impl; };
typedef struct shtns_info *shtns_cfg;
enum shtns_type { sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly };
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt };
#define SHT_NATIVE_LAYOUT 0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS (256*2)
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)
#define LiM(shtns,l,im) ( (((unsigned)(im))*(2*((unsigned)(shtns)->lmax)+1-((unsigned)(im))))/2 + (l) )
#define LM(shtns,l,m) LiM(shtns,l,m)
#define NSPAT_ALLOC(shtns) ((shtns)->nspat)
extern "C" {
void shtns_verbose(int); int shtns_use_threads(int);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void shtns_unset_grid(shtns_cfg); void shtns_reset(void);
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
/* bookkeeping read by the battery */
extern "C" { extern long kv_cfg_live, kv_cfg_bad; }
#endif
