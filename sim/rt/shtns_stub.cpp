// Stand-in for SHTns: direct Gauss-Legendre/Fourier sums in double, with the library's contracts checked.
#include "../stub/shtns.h"
#include "rt_int.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>
using namespace rt;
namespace {
struct Priv { bool alive, grid, phi_contig; double *P, *w, *cosp, *sinp; };
enum { MAXCFG = 1024 };
shtns_info cfgs[MAXCFG]; Priv privs[MAXCFG]; int ncfg;
uint64_t lib_state[2];
void bad(const char *s) { violation("shtns","%s",s); stop(); }
void lib_call() { strong_point(); range(&lib_state[0],8,true); lib_state[0]++; }
Priv *valid(shtns_cfg c, bool need_grid) {
   if (!c || c<cfgs || c>=cfgs+ncfg || ((char*)c-(char*)cfgs)%sizeof(shtns_info)) bad("use of an invalid configuration");
   Priv *p=(Priv*)c->priv;
   if (!p->alive) bad("use of a destroyed configuration");
   if (need_grid && !p->grid) bad("transform before shtns_set_grid");
   return p;
}
const long double PI=3.14159265358979323846264338327950288L;
void gauss(int n, double *ct, double *st, double *w) {
   for (int i=0;i<n;i++) {
      long double x=cosl(PI*(i+0.75L)/(n+0.5L)), dp=1;
      for (int it=0;it<50;it++) {
         long double p0=1,p1=x;
         for (int k=2;k<=n;k++) { long double p2=((2*k-1)*x*p1-(k-1)*p0)/k; p0=p1; p1=p2; }
         if (n==1) p0=1;
         dp=n*(x*p1-p0)/(x*x-1);
         long double dx=p1/dp; x-=dx; if (fabsl(dx)<1e-20L) break;
      }
      ct[i]=double(x); st[i]=double(sqrtl((1-x)*(1+x))); w[i]=double(2/((1-x*x)*dp*dp));
   }
}
void buf(const void *p, size_t n, const char *what) {
   if (((uintptr_t)p)%32) bad("transform buffer is not SIMD-aligned (not from fftw_malloc)");
   if (buffer_len(p)<n) bad(what);
}
inline size_t at(shtns_cfg c, const Priv *p, int it, int ip) { return p->phi_contig ? size_t(it)*c->nphi+ip : size_t(ip)*c->nlat+it; }
inline double plm(shtns_cfg c, const Priv *p, int l, int m, int it) { return p->P[size_t(LM(c,l,m))*c->nlat+it]; }
void *piece_read(const void *src, size_t n) {
   char *loc=(char*)malloc(n?n:1); size_t h=(n/2)&~size_t(15);
   range(src,h,false); memcpy(loc,src,h); point();
   range((const char*)src+h,n-h,false); memcpy(loc+h,(const char*)src+h,n-h);
   return loc;
}
void piece_write(void *dst, void *loc, size_t n) {
   size_t h=(n/2)&~size_t(15);
   range(dst,h,true); memcpy(dst,loc,h); point();
   range((char*)dst+h,n-h,true); memcpy((char*)dst+h,(char*)loc+h,n-h);
   free(loc);
}
}
extern "C" {
void shtns_verbose(int) {}
void shtns_print_version(void) {}
int  shtns_use_threads(int) { lib_call(); return 1; }
void shtns_reset(void) { lib_call(); for (int i=0;i<ncfg;i++) privs[i].alive=false; }
long nlm_calc(long lmax, long mmax, long mres) {
   long n=0; for (long m=0;m<=mmax;m++) if (m*mres<=lmax) n+=lmax+1-m*mres; return n;
}
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm) {
   lib_call();
   if (lmax<1 || mmax<0 || mres!=1 || mmax*mres>lmax) bad("shtns_create: lmax/mmax/mres out of range");
   if (ncfg==MAXCFG) { violation("limit","too many shtns configurations"); stop(); }
   int k=ncfg++; shtns_cfg c=&cfgs[k]; Priv *p=&privs[k];
   memset((void*)c,0,sizeof *c); memset((void*)p,0,sizeof *p);
   c->priv=p; p->alive=true; c->lmax=(unsigned short)lmax; c->mmax=(unsigned short)mmax; c->mres=(unsigned short)mres;
   c->nlm=(unsigned)nlm_calc(lmax,mmax,mres); c->nlm_cplx=unsigned((lmax+1)*(lmax+1));
   c->li=(unsigned short*)malloc(c->nlm*2); c->mi=(unsigned short*)malloc(c->nlm*2);
   for (int m=0;m<=mmax;m++) for (int l=m;l<=lmax;l++) { c->li[LM(c,l,m)]=(unsigned short)l; c->mi[LM(c,l,m)]=(unsigned short)m; }
   return c;
}
int shtns_set_grid(shtns_cfg c, enum shtns_type flags, double, int nlat, int nphi) {
   lib_call();
   Priv *p=valid(c,false);
   if ((int(flags)&0xff)!=sht_gauss && (int(flags)&0xff)!=sht_quick_init && (int(flags)&0xff)!=sht_gauss_fly) bad("only Gauss grids are simulated");
   if (nlat<=c->lmax) bad("shtns_set_grid: nlat must exceed lmax");
   if (nphi<=2*c->mmax) bad("shtns_set_grid: nphi must exceed 2 mmax");
   p->phi_contig = int(flags)&SHT_PHI_CONTIGUOUS;
   c->nlat=unsigned(nlat); c->nlat_padded=unsigned(nlat); c->nphi=unsigned(nphi); c->nlat_2=(unsigned short)((nlat+1)/2); c->nspat=unsigned(nlat*nphi);
   c->ct=(double*)malloc(8*size_t(nlat)); c->st=(double*)malloc(8*size_t(nlat)); p->w=(double*)malloc(8*size_t(nlat));
   gauss(nlat,c->ct,c->st,p->w);
   p->P=(double*)malloc(8*size_t(nlat)*c->nlm);
   for (int it=0;it<nlat;it++) {
      long double x=c->ct[it], s=c->st[it], pmm=sqrtl(1/(4*PI));
      for (int m=0;m<=c->mmax;m++) {
         if (m>0) pmm*=-sqrtl((2*m+1)/(2.0L*m))*s;
         long double a=pmm,b=0;
         for (int l=m;l<=c->lmax;l++) {
            if (l>m) {
               long double A=sqrtl((4.0L*l*l-1)/((long double)l*l-(long double)m*m));
               long double B= l-1>m ? sqrtl(((long double)(l-1)*(l-1)-(long double)m*m)/(4.0L*(l-1)*(l-1)-1)) : 0;
               long double n=A*(x*a-B*b); b=a; a=n;
            }
            p->P[size_t(LM(c,l,m))*nlat+it]=double(a);
         }
      }
   }
   p->cosp=(double*)malloc(8*size_t(nphi)); p->sinp=(double*)malloc(8*size_t(nphi));
   for (int j=0;j<nphi;j++) { p->cosp[j]=double(cosl(2*PI*j/nphi)); p->sinp[j]=double(sinl(2*PI*j/nphi)); }
   p->grid=true;
   return int(c->nspat);
}
shtns_cfg shtns_init(enum shtns_type fl, int lmax, int mmax, int mres, int nlat, int nphi) { shtns_cfg c=shtns_create(lmax,mmax,mres,sht_orthonormal); shtns_set_grid(c,fl,0,nlat,nphi); return c; }
void shtns_unset_grid(shtns_cfg c) { lib_call(); valid(c,true)->grid=false; }
void shtns_destroy(shtns_cfg c) {
   lib_call(); Priv *p=valid(c,false); p->alive=false;
   free(c->li); free(c->mi); free(c->ct); free(c->st); free(p->w); free(p->P); free(p->cosp); free(p->sinp);
   c->ct=c->st=nullptr; c->li=c->mi=nullptr;
}
void *__sim_fftw_malloc(size_t); void __sim_fftw_free(void*);
void *shtns_malloc(size_t n) { return __sim_fftw_malloc(n); }
void shtns_free(void *q) { __sim_fftw_free(q); }

void spat_to_SH_l(shtns_cfg c, double *V, cplx *Q, int ltr) {
   strong_point(); res->transforms++;
   Priv *p=valid(c,true);
   buf(V,8ul*c->nspat,"spat_to_SH: spatial buffer too small"); buf(Q,16ul*c->nlm,"spat_to_SH: spectral buffer too small");
   double *v=(double*)piece_read(V,8ul*c->nspat);
   cplx *q=(cplx*)malloc(16ul*c->nlm);
   const int np=int(c->nphi), nt=int(c->nlat); const bool rev=g.planner&1;
   double *fr=(double*)malloc(16ul*nt), *fi=fr+nt;
   for (int m=0;m<=c->mmax;m++) {
      for (int it=0;it<nt;it++) {
         double a=0,b=0;
         for (int j=0;j<np;j++) { int jj=rev?np-1-j:j; double x=v[at(c,p,it,jj)]; int k=int((long)jj*m%np); a+=x*p->cosp[k]; b-=x*p->sinp[k]; }
         double s=p->w[it]*2*M_PI/np; fr[it]=a*s; fi[it]=b*s;
      }
      for (int l=m;l<=c->lmax;l++) {
         double a=0,b=0;
         for (int i=0;i<nt;i++) { int it=rev?nt-1-i:i; double P=plm(c,p,l,m,it); a+=P*fr[it]; b+=P*fi[it]; }
         q[LM(c,l,m)]= l<=ltr ? cplx(a,b) : cplx(0,0);
      }
   }
   free(fr); free(v);
   piece_write(Q,q,16ul*c->nlm);
}
void spat_to_SH(shtns_cfg c, double *V, cplx *Q) { spat_to_SH_l(c,V,Q,1<<30); }
void SH_to_spat_l(shtns_cfg c, cplx *Q, double *V, int ltr) {
   strong_point(); res->transforms++;
   Priv *p=valid(c,true);
   buf(V,8ul*c->nspat,"SH_to_spat: spatial buffer too small"); buf(Q,16ul*c->nlm,"SH_to_spat: spectral buffer too small");
   cplx *q=(cplx*)piece_read(Q,16ul*c->nlm);
   const int np=int(c->nphi), nt=int(c->nlat); const bool rev=g.planner&1;
   double *v=(double*)calloc(c->nspat,8);
   for (int it=0;it<nt;it++) for (int mm=0;mm<=c->mmax;mm++) {
      int m=rev?c->mmax-mm:mm;
      double a=0,b=0;
      for (int l=m;l<=c->lmax && l<=ltr;l++) { double P=plm(c,p,l,m,it); a+=P*q[LM(c,l,m)].real(); b+=P*q[LM(c,l,m)].imag(); }
      if (m==0) { for (int j=0;j<np;j++) v[at(c,p,it,j)]+=a; }
      else for (int j=0;j<np;j++) { int k=int((long)j*m%np); v[at(c,p,it,j)]+=2*(a*p->cosp[k]-b*p->sinp[k]); }
   }
   free(q);
   piece_write(V,v,8ul*c->nspat);
}
void SH_to_spat(shtns_cfg c, cplx *Q, double *V) { SH_to_spat_l(c,Q,V,1<<30); }
double SH_to_point(shtns_cfg c, cplx *Q, double cost, double phi) {
   strong_point(); valid(c,false); buffer_len(Q); range(Q,16ul*c->nlm,false);
   long double x=cost, s=sqrtl((1-x)*(1+x)), pmm=sqrtl(1/(4*PI)), r=0;
   for (int m=0;m<=c->mmax;m++) {
      if (m>0) pmm*=-sqrtl((2*m+1)/(2.0L*m))*s;
      long double a=pmm,b=0, cs=cosl(m*(long double)phi), sn=sinl(m*(long double)phi);
      for (int l=m;l<=c->lmax;l++) {
         if (l>m) {
            long double A=sqrtl((4.0L*l*l-1)/((long double)l*l-(long double)m*m));
            long double B= l-1>m ? sqrtl(((long double)(l-1)*(l-1)-(long double)m*m)/(4.0L*(l-1)*(l-1)-1)) : 0;
            long double n=A*(x*a-B*b); b=a; a=n;
         }
         cplx q=Q[LM(c,l,m)];
         r+=a*(m?2*(q.real()*cs-q.imag()*sn):q.real());
      }
   }
   return double(r);
}
double sh00_1(shtns_cfg c) { valid(c,false); return double(sqrtl(4*PI)); }
double sh10_ct(shtns_cfg c) { valid(c,false); return double(sqrtl(4*PI/3)); }
double sh11_st(shtns_cfg c) { valid(c,false); return double(-sqrtl(2*PI/3)); }
int shtns_set_grid_auto(shtns_cfg c, enum shtns_type f, double eps, int, int *nlat, int *nphi) {
   if (*nlat<=0) *nlat=c->lmax+1+((c->lmax+1)&1);
   if (*nphi<=0) *nphi=2*c->mmax+2;
   return shtns_set_grid(c,f,eps,*nlat,*nphi);
}
void spat_cplx_to_SH(shtns_cfg c, cplx *Z, cplx *A) {
   strong_point(); res->transforms++;
   Priv *p=valid(c,true);
   const size_t na=size_t(c->lmax+1)*(c->lmax+1);
   buf(Z,16ul*c->nspat,"spat_cplx_to_SH: spatial buffer too small"); buf(A,16ul*na,"spat_cplx_to_SH: spectral buffer too small");
   cplx *z=(cplx*)piece_read(Z,16ul*c->nspat);
   cplx *al=(cplx*)calloc(na,16);
   const int np=int(c->nphi), nt=int(c->nlat); const bool rev=g.planner&1;
   double *fr=(double*)malloc(16ul*nt), *fi=fr+nt;
   for (int m=-c->mmax;m<=c->mmax;m++) {
      int am=m<0?-m:m; double sg=(m<0&&(am&1))?-1:1;
      for (int it=0;it<nt;it++) {
         double a=0,b=0;
         for (int j=0;j<np;j++) { int jj=rev?np-1-j:j; cplx x=z[at(c,p,it,jj)]; int k=int((((long)jj*m)%np+np)%np);
            a+=x.real()*p->cosp[k]+x.imag()*p->sinp[k]; b+=x.imag()*p->cosp[k]-x.real()*p->sinp[k]; }
         double s=p->w[it]*2*M_PI/np; fr[it]=a*s; fi[it]=b*s;
      }
      for (int l=am;l<=c->lmax;l++) {
         double a=0,b=0;
         for (int i=0;i<nt;i++) { int it=rev?nt-1-i:i; double P=sg*plm(c,p,l,am,it); a+=P*fr[it]; b+=P*fi[it]; }
         al[l*(l+1)+m]=cplx(a,b);
      }
   }
   free(fr); free(z);
   piece_write(A,al,16ul*na);
}
void SH_to_spat_cplx(shtns_cfg c, cplx *A, cplx *Z) {
   strong_point(); res->transforms++;
   Priv *p=valid(c,true);
   const size_t na=size_t(c->lmax+1)*(c->lmax+1);
   buf(Z,16ul*c->nspat,"SH_to_spat_cplx: spatial buffer too small"); buf(A,16ul*na,"SH_to_spat_cplx: spectral buffer too small");
   cplx *al=(cplx*)piece_read(A,16ul*na);
   cplx *z=(cplx*)calloc(c->nspat,16);
   const int np=int(c->nphi), nt=int(c->nlat);
   for (int it=0;it<nt;it++) for (int m=-c->mmax;m<=c->mmax;m++) {
      int am=m<0?-m:m; double sg=(m<0&&(am&1))?-1:1;
      double a=0,b=0;
      for (int l=am;l<=c->lmax;l++) { double P=sg*plm(c,p,l,am,it); a+=P*al[l*(l+1)+m].real(); b+=P*al[l*(l+1)+m].imag(); }
      for (int j=0;j<np;j++) { int k=int((((long)j*m)%np+np)%np); double cs=p->cosp[k], sn=p->sinp[k];
         z[at(c,p,it,j)]+=cplx(a*cs-b*sn, a*sn+b*cs); }
   }
   free(al);
   piece_write(Z,z,16ul*c->nspat);
}
}
namespace rt { uint64_t live_configs() { uint64_t k=0; for (int i=0;i<ncfg;i++) k+=privs[i].alive; return k; } }
