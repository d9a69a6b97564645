/* Interface of SHTns as far as this code base can use it. */
#ifndef VP_SHTNS_H
#define VP_SHTNS_H
#include <complex>
#include <stddef.h>
typedef std::complex<double> cplx;
typedef struct shtns_info *shtns_cfg;
#ifndef VP_INIT
#define VP_INIT
#endif
struct shtns_info {
   const unsigned int nlm VP_INIT;
   const unsigned short lmax VP_INIT;
   const unsigned short mmax VP_INIT;
   const unsigned short mres VP_INIT;
   const unsigned short nlat_2 VP_INIT;
   const unsigned int nlat VP_INIT;
   const unsigned int nphi VP_INIT;
   const unsigned int nspat VP_INIT;
   const unsigned short *const li VP_INIT;
   const unsigned short *const mi VP_INIT;
   const double *const ct VP_INIT;
   const double *const st VP_INIT;
   const unsigned int nlat_padded VP_INIT;
   const unsigned int nlm_cplx VP_INIT;
};
enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt };
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)
enum shtns_type { sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly };
#define SHT_NATIVE_LAYOUT 0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS (256*2)
#define SHT_SCALAR_ONLY (256*16)
#define SHT_SOUTH_POLE_FIRST (256*32)
#define NSPAT_ALLOC(shtns) (shtns->nspat)
#define LiM(shtns, l,im) ( (((unsigned)(im))*(2*(shtns)->lmax + 2 - ((im)+1)*(shtns)->mres))/2 + (l) )
#define LM(shtns, l,m) ( (((((unsigned)(m))/(shtns)->mres))*(2*(shtns)->lmax + 2 - ((m)+(shtns)->mres)))/2 + (l) )
#define LM_cplx(shtns, l, m) ( ((l) <= (shtns)->mmax) ? ((l)*((l)+1) + (m)) : ((shtns)->mmax*(2*(l) - (shtns)->mmax) + (l)+(m)) )
#ifdef __cplusplus
extern "C" {
#endif
void shtns_verbose(int);
int  shtns_use_threads(int);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int  shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void shtns_reset(void);
void *shtns_malloc(size_t bytes);
void shtns_free(void *p);
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
#ifdef __cplusplus
}
#endif
#endif
