// FFTW as the repository sees it: contract checks, a preemption point inside every call, and the
// planner's timing-based choice taken from the plan (key planner=) instead of from a clock.
#include "rt_int.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fftw3.h>
using namespace rt;
namespace rt {
struct SimPlan {
   int n; fftw_r2r_kind kind; unsigned flags; bool inplace, alive, orphan;
   unsigned al_in, al_out; double *in, *out;
   fftw_plan real; double *bi, *bo; double *cosv;
};
enum { MAXPLAN = 4096 };
static SimPlan plans[MAXPLAN]; static int nplans;
static uint64_t planner_state[2];
uint64_t live_plans() { uint64_t k=0; for (int i=0;i<nplans;i++) k+=plans[i].alive; return k; }
static void planner_call() {          // everything but execution is documented as not thread-safe
   strong_point();
   range(&planner_state[0],8,true); planner_state[0]++;
}
static void bad(const char *what) { violation("fftw","%s",what); stop(); }
static SimPlan *valid(void *p) {
   SimPlan *s=(SimPlan*)p;
   if (s<plans || s>=plans+nplans || ((char*)s-(char*)plans)%sizeof(SimPlan)) bad("use of an invalid plan");
   if (!s->alive) bad("use of a destroyed plan");
   if (s->orphan) bad("use of a plan after fftw_cleanup");
   return s;
}
static void *make(int n, double *in, double *out, fftw_r2r_kind kind, unsigned flags) {
   planner_call(); res->plan_calls++;
   if (n<1) return nullptr;
   if (nplans==MAXPLAN) { violation("limit","too many plans"); stop(); }
   if (buffer_len(in)<size_t(n)*8 || buffer_len(out)<size_t(n)*8) bad("plan made for a buffer that is too small");
   if (!(flags & FFTW_ESTIMATE)) {   // measuring overwrites the arrays
      range(in,size_t(n)*8,true); range(out,size_t(n)*8,true);
      for (int i=0;i<n;i++) { in[i]=0.25*i-1; out[i]=-3.5*i; }
   }
   SimPlan *s=&plans[nplans++];
   s->n=n; s->kind=kind; s->flags=flags; s->inplace=in==out; s->alive=true; s->orphan=false;
   s->al_in=unsigned((uintptr_t)in%16); s->al_out=unsigned((uintptr_t)out%16); s->in=in; s->out=out;
   s->bi=(double*)aligned_alloc(64,size_t(n)*8+64); s->bo=(double*)aligned_alloc(64,size_t(n)*8+64);
   bool was=g.active; g.active=false;
   unsigned fl = FFTW_ESTIMATE | ((g.planner&2)?FFTW_UNALIGNED:0);
   s->real=fftw_plan_r2r_1d(n,s->bi,s->bo,kind,fl);
   s->cosv=nullptr;
   if (kind==FFTW_REDFT00 && n>1) {
      s->cosv=(double*)malloc(sizeof(double)*2*size_t(n-1));
      for (int m=0;m<2*(n-1);m++) s->cosv[m]=double(cosl(3.14159265358979323846264338327950288L*m/(n-1)));
   }
   g.active=was;
   if (!s->real) { s->alive=false; return nullptr; }
   return s;
}
static void exec(SimPlan *s, double *in, double *out) {
   res->execs++;
   size_t b=size_t(s->n)*8;
   if (buffer_len(in)<b || buffer_len(out)<b) bad("transform of a buffer that is too small");
   if ((in==out)!=s->inplace) bad("in-place/out-of-place execution differs from the plan");
   if (!(s->flags & FFTW_UNALIGNED) && ((uintptr_t)in%16!=s->al_in || (uintptr_t)out%16!=s->al_out)) bad("alignment differs from the plan");
   if (!s->inplace) { uintptr_t x=(uintptr_t)in,y=(uintptr_t)out; if (x<y+b && y<x+b) bad("partially overlapping buffers"); }
   // the library reads its input piecewise: another thread may run between the pieces
   size_t h=size_t(s->n)/2; double *loc=(double*)malloc(b);
   range(in,h*8,false); memcpy(loc,in,h*8); point();
   range(in+h,b-h*8,false); memcpy(loc+h,in+h,b-h*8);
   const int n=s->n;
   if ((g.planner&3)!=0 && (g.planner&3)!=2 && s->cosv) {
      double *y=s->bo; const int p=2*(n-1);
      for (int k=0;k<n;k++) {
         double a = 0;
         if (g.planner&4) { for (int j=n-2;j>=1;j--) a+=2*loc[j]*s->cosv[(long)j*k%p]; a+=((k&1)?-loc[n-1]:loc[n-1])+loc[0]; }
         else { a=loc[0]+((k&1)?-loc[n-1]:loc[n-1]); for (int j=1;j<n-1;j++) a+=2*loc[j]*s->cosv[(long)j*k%p]; }
         y[k]=a;
      }
   } else { memcpy(s->bi,loc,b); fftw_execute_r2r(s->real,s->bi,s->bo); }
   memcpy(loc,s->bo,b);
   if ((s->flags & FFTW_DESTROY_INPUT) && !s->inplace) { range(in,b,true); for (int i=0;i<n;i++) in[i]=1e9+i; }
   range(out,h*8,true); memcpy(out,loc,h*8); point();
   range(out+h,b-h*8,true); memcpy(out+h,loc+h,b-h*8);
   free(loc);
}
}
extern "C" {
void *__sim_fftw_malloc(size_t n) { if (g.active) strong_alloc_point(); g.alloc_pc=__builtin_return_address(0); return sim_alloc(n,true); }
double *__sim_fftw_alloc_real(size_t n) { return (double*)__sim_fftw_malloc(n*8); }
void *__sim_fftw_alloc_complex(size_t n) { return __sim_fftw_malloc(n*16); }
void __sim_fftw_free(void *p) { if (g.active) point(); sim_free(p,1); }
int __sim_fftw_alignment_of(double *p) { return int((uintptr_t)p%16); }
void *__sim_fftw_plan_r2r_1d(int n, double *in, double *out, fftw_r2r_kind k, unsigned f) { return make(n,in,out,k,f); }
void *__sim_fftw_plan_r2r(int rank, const int *n, double *in, double *out, const fftw_r2r_kind *k, unsigned f) { if (rank!=1) { violation("limit","fftw rank"); stop(); } return make(n[0],in,out,k[0],f); }
void __sim_fftw_execute_r2r(void *p, double *in, double *out) { strong_point(); exec(valid(p),in,out); }
void __sim_fftw_execute(void *p) { strong_point(); SimPlan *s=valid(p); if (!s->in||!s->out) bad("execute"); exec(s,s->in,s->out); }
void __sim_fftw_destroy_plan(void *p) {
   planner_call();
   if (!p) return;
   SimPlan *s=valid(p); s->alive=false;
   fftw_destroy_plan(s->real); free(s->bi); free(s->bo); free(s->cosv);
}
void __sim_fftw_cleanup() { planner_call(); for (int i=0;i<nplans;i++) if (plans[i].alive) plans[i].orphan=true; }
void __sim_fftw_cleanup_threads() { __sim_fftw_cleanup(); }
int  __sim_fftw_init_threads() { return 1; }
void __sim_fftw_plan_with_nthreads(int) {}
void __sim_fftw_make_planner_thread_safe() {}
void __sim_fftw_set_timelimit(double) {}
void __sim_fftw_forget_wisdom() { planner_call(); }
char *__sim_fftw_export_wisdom_to_string() { planner_call(); return (char*)calloc(1,1); }
int  __sim_fftw_import_wisdom_from_string(const char *) { planner_call(); return 0; }
int  __sim_fftw_import_system_wisdom() { planner_call(); return 0; }
int  __sim_fftw_import_wisdom_from_filename(const char *) { planner_call(); return 0; }
double __sim_fftw_cost(void *p) { SimPlan *s=valid(p); return double(s->n)*(s->n+4.0); }
double __sim_fftw_estimate_cost(void *p) { return __sim_fftw_cost(p); }
void __sim_fftw_flops(void *p, double *a, double *m, double *f) { SimPlan *s=valid(p); *a=*m=double(s->n)*s->n; *f=0; }
void __sim_fftw_print_plan(void *p) { valid(p); }
}
