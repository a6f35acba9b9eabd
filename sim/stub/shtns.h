/* Stand-in for the SHTns header: only what scalar-field-kerr's sources may use.
 * SHTns itself is not available offline; the implementation is shtns_stub.cpp.
 * Names, conventions and layouts follow SHTns 3.x:
 *  - orthonormal Y_lm with the Condon-Shortley phase;
 *  - a real field is stored by its m>=0 coefficients, index LM(l,m);
 *  - Gauss-Legendre colatitudes, north to south, phi_j = 2 pi j/(nphi*mres);
 *  - complex transforms: index l(l+1)+m, (lmax+1)^2 entries. */
#ifndef SIM_SHTNS_H
#define SIM_SHTNS_H
#include <complex>
#include <cstddef>
typedef std::complex<double> cplx;

struct shtns_info {
   unsigned int nlm;
   unsigned short lmax, mmax, mres, nlat_2;
   unsigned int nlat, nphi, nspat;
   unsigned short *li, *mi;
   double *ct, *st;
   unsigned int nlat_padded, nlm_cplx;
   void *priv;
};
typedef struct shtns_info *shtns_cfg;

enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt, sht_for_rotations };
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM   (256*8)
enum shtns_type { sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init,
                  sht_reg_poles, sht_gauss_fly };
#define SHT_NATIVE_LAYOUT    0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS   (256*2)
#define SHT_SOUTH_POLE_FIRST (256*32)

#define NSPAT_ALLOC(s) ((s)->nspat)
#define LM(s, l, m) ( ((((unsigned int)(m))*(2u*(s)->lmax + 2u - ((m)+1u)))>>1) + (unsigned int)(l) )
#define LiM(s, l, im) LM(s, l, im)

extern "C" {
void shtns_verbose(int);
void shtns_print_version(void);
int  shtns_use_threads(int);
void shtns_reset(void);
long nlm_calc(long lmax, long mmax, long mres);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm);
int  shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
shtns_cfg shtns_init(enum shtns_type flags, int lmax, int mmax, int mres, int nlat, int nphi);
void shtns_unset_grid(shtns_cfg);
void shtns_destroy(shtns_cfg);
void *shtns_malloc(size_t);
void shtns_free(void*);
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_to_SH_l(shtns_cfg, double *Vr, cplx *Qlm, int ltr);
void SH_to_spat_l(shtns_cfg, cplx *Qlm, double *Vr, int ltr);
double SH_to_point(shtns_cfg, cplx *Qlm, double cost, double phi);
double sh00_1(shtns_cfg);
double sh10_ct(shtns_cfg);
double sh11_st(shtns_cfg);
int  shtns_set_grid_auto(shtns_cfg, enum shtns_type flags, double eps, int nl_order, int *nlat, int *nphi);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
#endif
