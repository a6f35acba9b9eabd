// Parts of the program driven through their public interfaces, checked against the reference model.
#include "scen.hpp"
#include "params.hpp"
#include "grid.hpp"
#include "field.hpp"
#include "scalar_eom.hpp"
#include "initial_data.hpp"
#include "io.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace rt { void arm_alloc_faults(); void reach_leaks(uint64_t from, char *b, size_t n, uint64_t *cnt); uint64_t live_plans(); uint64_t live_configs(); }
using namespace rt;
using ref::T; using ref::V;
typedef std::vector<double> D;

struct World { ref::Par p; ref::Model *m; Params *params; Grid *grid; Scalar_eom *eom; Field *f, *q; };
static World W;                       // static: everything alive is reachable from here
static void make_code() {
   const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi;
   W.params=new Params("params.txt");
   W.grid=new Grid(p.cl,p.Rmin,p.Rmax,p.nx,p.nl,p.nm,p.nlat,p.nphi);
   W.f=new Field("f",N,0.0); W.q=new Field("p",N,0.0);
   W.eom=new Scalar_eom(*W.grid,*W.params);
}
static void drop_code() { delete W.eom; delete W.q; delete W.f; delete W.grid; delete W.params; W.eom=nullptr; W.q=W.f=nullptr; W.grid=nullptr; W.params=nullptr; }
static void make_world() { W.p=par_from_plan(); W.m=new ref::Model(W.p,IS_CHEB,IS_CONTIG); make_code(); }

static double sym() { return 2*wl_unit()-1; }
/* random fields.  0 rough everywhere; 1 band-limited in angle, radially smooth; 2 band-limited in angle,
 * radially rough; 3 one harmonic, radially rough; 4 mostly zero with a few spikes */
static D random_field(int kind, double amp, size_t mlim) {
   const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi; D v(N,0.0);
   if (kind==0) { for (size_t i=0;i<N;i++) v[i]=amp*sym(); return v; }
   if (kind==5) { double c=amp*sym(); for (double &x: v) x=c; return v; }                    // constant
   if (kind==6) { size_t lo=wl_rand()%p.nx, hi=lo+wl_rand()%(p.nx-lo+1); for (size_t i=lo*p.nlat*p.nphi;i<hi*p.nlat*p.nphi;i++) v[i]=amp*sym(); return v; }   // zero outside a shell
   if (kind==4) { for (int k=0;k<3;k++) v[wl_rand()%N]=amp*sym(); return v; }
   const ref::Sph &s=W.m->sph; V re((p.nl+1)*(p.nl+2),0), im(re), row(p.nlat*p.nphi);
   V all(N,0);
   const int modes = kind==3 ? 1 : 1+int(wl_rand()%4);
   std::vector<V> ang; std::vector<V> rad;
   for (int k=0;k<modes;k++) {
      std::fill(re.begin(),re.end(),0); std::fill(im.begin(),im.end(),0);
      if (kind==3) { size_t l=wl_rand()%(p.nl+1), m=wl_rand()%(std::min(l,std::min(p.nm,mlim))+1); re[l*(p.nl+2)+m]=sym(); if (m) im[l*(p.nl+2)+m]=sym(); }
      else for (size_t l=0;l<=p.nl;l++) for (size_t m=0;m<=std::min(l,std::min(p.nm,mlim));m++) { re[l*(p.nl+2)+m]=sym(); if (m) im[l*(p.nl+2)+m]=sym(); }
      s.synth(re,im,row.data()); ang.push_back(row);
      V r(p.nx); double a=sym(),b=sym(),c=sym();
      for (size_t i=0;i<p.nx;i++) { double x=double((W.m->R[i]-W.m->R[0])/(W.m->R[p.nx-1]-W.m->R[0])); r[i]= kind==1 ? a+b*x+c*x*x : sym(); }
      rad.push_back(r);
   }
   for (int k=0;k<modes;k++) for (size_t i=0;i<p.nx;i++) for (size_t j=0;j<p.nlat*p.nphi;j++) all[i*p.nlat*p.nphi+j]+=rad[k][i]*ang[k][j];
   T mx=ref::maxabs(all); if (mx<=0) mx=1;
   for (size_t i=0;i<p.nx;i++) for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) v[W.m->code_at(i,t,h)]=double(amp*all[W.m->at(i,t,h)]/mx);
   return v;
}
static double ratio(T e, T tol) { if (e!=e) return 1e300; if (e==0) return 0; double w=double(e/(tol>0?tol:1e-300L)); return w==w ? w : 1e300; }
static bool same(const D &a, const D &b) { return a.size()==b.size() && (a.empty() || !memcmp(a.data(),b.data(),a.size()*8)); }
static double worst(const D &got, const V &want, T tol, size_t *where) { // normalised; NaN counts as infinite
   double w=0; *where=0; const ref::Par &p=W.p;
   if (tol<=0) tol=1e-300L;
   for (size_t i=0;i<p.nx;i++) for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) {
      size_t c=W.m->code_at(i,t,h); T e=fabsl(T(got[c])-want[W.m->at(i,t,h)])/tol; double x=(e==e)?double(e):1e300; if (x>w) { w=x; *where=c; } }
   return w;
}
static void cmp(const char *kind, const char *what, const D &got, const V &want, T tol) {
   size_t at; double w=worst(got,want,tol,&at); note_err(w);
   if (!(w<=1)) {
      const ref::Par &p=W.p; size_t ix=at/(p.nlat*p.nphi), r=at%(p.nlat*p.nphi), it=IS_CONTIG?r%p.nlat:r/p.nphi, ip=IS_CONTIG?r/p.nlat:r%p.nphi;
      violation(kind,"%s wrong at radius %zu theta %zu phi %zu: got %.17g want %.17Lg (error %.3g x tolerance)",what,ix,it,ip,got[at],want[W.m->at(ix,it,ip)],w); stop(); }
}
static uint64_t bits_hash(const D &v) { uint64_t h=1469598103934665603ull; for (double x: v) { uint64_t u; memcpy(&u,&x,8); h=(h^u)*1099511628211ull; h^=h>>31; } return h; }

/* ------------------------------------------------------------------ time steps */
static void sc_step() {
   make_world();
   const int steps=int(pl("steps",2)), kind=int(pl("data",1)), check=int(pl("check",1)), resync=int(pl("resync",1)); const double amp=pd("damp",0.1);
   W.f->n=random_field(kind,amp,W.p.nm); W.q->n=random_field(kind==4?4:int(pl("data2",kind)),amp*pd("qamp",1.0),W.p.nm);
   const double off=pd("off",0); if (off!=0) for (double &x: W.f->n) x+=off;     // a field far from the vacuum
   bool a_ok=true, b_ok=true; double wmax=0;
   for (int s=0;s<steps;s++) {
      D f0=W.f->n, q0=W.q->n;
      if (check && s && !(ref::maxabs(W.m->load(f0))<100*(1+amp) && ref::maxabs(W.m->load(q0))<100*(1+amp))) break;    // an unstable potential: the next stages could leave the range of double
      if (pl("scram",1)) for (D *d: {&W.f->np1,&W.q->np1,&W.f->l,&W.q->l,&W.f->k,&W.q->k}) for (double &x: *d) x=1e3*sym();
      set_active(true);
      W.eom->time_step(*W.grid,*W.f,*W.q);
      set_active(false);
      res->steps++; res->simtime+=W.p.dt;
      if (check) {
         V f=W.m->load(f0), q=W.m->load(q0), fa=W.m->angfilter(f), qa=W.m->angfilter(q), fn, qn; size_t x1,x2,y1,y2;
         W.m->step(fa,qa,fn,qn);
         if (off!=0 && !(W.m->Kmin>0.25L && W.m->Mf<100 && W.m->Mq<100)) { out("not judged: kinetic prefactor %.3Lg ",W.m->Kmin); break; }    // (nearly) singular: any rounding is amplified
         const T cond= off!=0 ? W.m->Kcond*(1+W.m->Mf)*(1+W.m->Mq)*10 : 1;
         const T tf=(W.m->tol_f+W.m->tol_of(6,ref::maxabs(f))*4)*cond, tq=(W.m->tol_q*4+W.m->tol_of(6,ref::maxabs(q))*4)*cond;
         double w=std::max(worst(W.f->np1,fn,tf,&x1),worst(W.q->np1,qn,tq,&x2));
         V fb=W.m->radfilter(fa), qb=W.m->radfilter(qa), fnb, qnb;
         double wb=1e300;
         if (!(w<=1)) { W.m->step(fb,qb,fnb,qnb); wb=std::max(worst(W.f->np1,fnb,tf,&y1),worst(W.q->np1,qnb,tq,&y2)); }
         bool a=w<=1, b=wb<=1;
         if (a) b = b || false;
         note_err(a?w:wb); wmax=std::max(wmax,a?w:wb);
         if (!a && !b) {
            double wf=worst(W.f->np1,fn,tf,&x1), wq=worst(W.q->np1,qn,tq,&x2); bool isf=wf>wq; size_t c=isf?x1:x2;
            violation("step","step %d: %s is not the documented update at point %zu: got %.17g (error %.3g x tolerance)",s+1,isf?"f":"p",c,isf?W.f->np1[c]:W.q->np1[c],isf?wf:wq); stop(); }
         a_ok&=a; b_ok&=b;
      }
      if (pl("hashes",0)) out("%016llx%016llx ",(unsigned long long)bits_hash(W.f->np1),(unsigned long long)bits_hash(W.q->np1));
      D fn1=W.f->np1, qn1=W.q->np1;
      set_active(true);
      W.f->shift(); W.q->shift();
      set_active(false);
      if (!same(W.f->n,fn1) || !same(W.q->n,qn1)) { violation("step","the level shift after step %d did not move the new values to the current level",s+1); stop(); }
      if (resync && kind!=1 && s+1<steps) { W.f->n=random_field(kind,amp,W.p.nm); W.q->n=random_field(kind,amp,W.p.nm); if (off!=0) for (double &x: W.f->n) x+=off; }
   }
   out("variant=%s worst=%.3g",a_ok?"A":b_ok?"B":"mixed",wmax);
   res->finished=1;
}

/* ------------------------------------------------------------------ grid-wide operators */
struct OpJob { int op; D in, out; };
static std::vector<OpJob> jobs;
static const char *const opname[]={"set_partial_R","set_partial_r","set_partial2_r","set_partial_phi","set_spherical_lap","set_sphereX","filter","set_angular_power_spectrum","set_n_l_coef"};
static void run_op(OpJob &j) {
   switch (j.op) {
      case 0: W.grid->set_partial_R(j.in,j.out); break;
      case 1: W.grid->set_partial_r(j.in,j.out); break;
      case 2: W.grid->set_partial2_r(j.in,j.out); break;
      case 3: W.grid->set_partial_phi(j.in,j.out); break;
      case 4: W.grid->set_spherical_lap(j.in,j.out); break;
      case 5: W.grid->set_sphereX(j.in,j.out); break;
      case 6: W.grid->filter(j.out); break;
      case 7: W.grid->set_angular_power_spectrum(j.in,j.out); break;
#if USE_CHEB
      case 8: W.grid->set_n_l_coef(j.in,j.out); break;
#endif
   }
}
static void caller(void *p) { size_t k=size_t(p), n=size_t(pl("callers",1)); for (size_t i=k;i<jobs.size();i+=n) run_op(jobs[i]); }
static void check_op(OpJob &j, const D &before) {
   if (!same(j.in,before)) { violation("op","%s changed its input",opname[j.op]); stop(); }
   const V v=W.m->load(before); const T mx=ref::maxabs(v); res->checks++;
   switch (j.op) {
      case 0: cmp("op",opname[0],j.out,W.m->dR(v),W.m->tol_of(0,mx)); break;
      case 1: cmp("op",opname[1],j.out,W.m->dr(v),W.m->tol_of(1,mx)); break;
      case 2: cmp("op",opname[2],j.out,W.m->d2r(v),W.m->tol_of(2,mx)); break;
      case 3: cmp("op",opname[3],j.out,W.m->dphi(v),W.m->tol_of(3,mx)); break;
      case 4: cmp("op",opname[4],j.out,W.m->lap(v),W.m->tol_of(4,mx)); break;
      case 5: cmp("op",opname[5],j.out,W.m->X(v),W.m->tol_of(5,mx)); break;
      case 6: { size_t at; V a=W.m->angfilter(v); if (worst(j.out,a,W.m->tol_of(6,mx),&at)<=1) { note_err(0); break; }
                V b=W.m->radfilter(a); if (worst(j.out,b,W.m->tol_of(6,mx)*4,&at)<=1) { note_err(0); break; }
                cmp("op",opname[6],j.out,a,W.m->tol_of(6,mx)); break; }
      case 7: case 8: {
         V p=W.m->power(v); const size_t nl=W.p.nl, nx=W.p.nx; T tol=W.m->tol_of(7,mx); V want(p);
         if (j.op==8) { // Chebyshev coefficients, in radius, of the amplitude of each degree
            tol=0;
            for (size_t l=0;l<nl;l++) for (size_t k=0;k<nx;k++) { T s=0; for (size_t i=0;i<nx;i++) { T g=(i==0||i==nx-1)?1:2; s+=g*sqrtl(p[i*nl+l]>0?p[i*nl+l]:0)*cosl(3.14159265358979323846264338327950288L*T((k*i)%(2*(nx-1)))/(nx-1)); } want[k*nl+l]=s/(nx-1)/((k==0||k==nx-1)?2:1); }
            tol=ref::EPSC*mx*10; /* sqrt of a power that is pure rounding */
         }
         for (size_t i=0;i<nx*nl;i++) { T e=fabsl(T(j.out[i])-want[i]); double w=ratio(e,tol); note_err(w);
            if (!(w<=1)) { violation("op","%s wrong at radius %zu degree %zu: got %.17g want %.17Lg",opname[j.op],i/nl,i%nl,j.out[i],want[i]); stop(); } }
         break; }
   }
}
static void sc_ops() {
   make_world();
   const size_t N=W.p.nx*W.p.nlat*W.p.nphi; const int calls=int(pl("calls",8)); const double amp=pd("damp",1.0);
   const long mask=pl("ops",511); std::vector<D> before;
   for (int c=0;c<calls;c++) {
      OpJob j; do j.op=int(wl_rand()%9); while (!(mask>>j.op&1) || (j.op==8 && !IS_CHEB) || (j.op==5 && W.p.nm<W.p.nl));
      int kind=int(wl_rand()%7); size_t mlim=W.p.nm;
      j.in=random_field(kind,amp,mlim);
      if (j.op==6) j.out=j.in; else j.out.assign(j.op>=7?W.p.nx*W.p.nl:N,1e77*sym());
      jobs.push_back(j); before.push_back(j.in);
   }
   const int callers=int(pl("callers",1));
   set_active(true);
   if (callers>1) { for (int k=0;k<callers;k++) spawn(caller,(void*)size_t(k)); join_all(); }
   else for (OpJob &j: jobs) run_op(j);
   set_active(false);
   for (size_t i=0;i<jobs.size();i++) check_op(jobs[i],before[i]);
   res->finished=1;
}

/* row access: exact inverses that touch only their own row */
static void check_row(const char *name, const D &row, const D &back, const D &base, const D &after, const std::vector<size_t> &idx) {
   res->checks++;
   if (!same(row,back)) { violation("row","get_%s after set_%s returns other values",name,name); stop(); }
   D want=base; for (size_t k=0;k<idx.size();k++) want[idx[k]]=row[k];
   if (!same(after,want)) { violation("row","set_%s did not write exactly its row",name); stop(); }
}
static void sc_rows() {
   make_world();
   const Grid &g=*W.grid; const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi;
   auto fill=[](size_t n){ D v(n); for (double &x: v) x=sym(); return v; };
#define ROW(name,len,big,SET,GET,IDX) { D base=fill(big), after=base, row=fill(len), back(len,7.0); set_active(true); SET; GET; set_active(false); std::vector<size_t> ix_; for (size_t k=0;k<len;k++) ix_.push_back(IDX); check_row(name,row,back,base,after,ix_); }
   for (int rep=0;rep<int(pl("calls",4));rep++) {
      size_t a=wl_rand()%p.nx, b=wl_rand()%p.nlat, c=wl_rand()%p.nphi, l=wl_rand()%p.nl;
      ROW("row_R",p.nx,N,g.set_row_R(b,c,row,after),g.get_row_R(b,c,after,back),W.m->code_at(k,b,c))
      ROW("row_th",p.nlat,N,g.set_row_th(a,c,row,after),g.get_row_th(a,c,after,back),W.m->code_at(a,k,c))
      ROW("row_ph",p.nphi,N,g.set_row_ph(a,b,row,after),g.get_row_ph(a,b,after,back),W.m->code_at(a,b,k))
      ROW("row_n",p.nx,p.nx*p.nl,g.set_row_n(l,row,after),g.get_row_n(l,after,back),k*p.nl+l)
      ROW("row_R_th",p.nx*p.nlat,N,g.set_row_R_th(c,row,after),g.get_row_R_th(c,after,back),W.m->code_at(k/p.nlat,k%p.nlat,c))
      ROW("row_R_ph",p.nx*p.nphi,N,g.set_row_R_ph(b,row,after),g.get_row_R_ph(b,after,back),W.m->code_at(k/p.nphi,b,k%p.nphi))
      { const size_t S=p.nlat*p.nphi; ROW("row_th_ph",S,N,g.set_row_th_ph(a,row,after),g.get_row_th_ph(a,after,back),(IS_CONTIG?W.m->code_at(a,k%p.nlat,k/p.nlat):W.m->code_at(a,k/p.nphi,k%p.nphi))) }
      ROW("row_l",p.nl,p.nx*p.nl,g.set_row_l(a,row,after),for (size_t k=0;k<p.nl;k++) back[k]=after[g.indx_r_l(a,k)],a*p.nl+k)
   }
   // coordinates of every grid point
   for (size_t i=0;i<p.nx;i++) for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) {
      D x=g.R_th_ph(i,t,h), y=g.x_y_z(i,t,h); T th=acosl(W.m->sph.ct[t]), ph=2*3.14159265358979323846264338327950288L*h/p.nphi, R=W.m->R[i];
      T e[6]={x[0]-R,x[1]-th,x[2]-ph,y[0]-R*cosl(ph)*sinl(th),y[1]-R*sinl(ph)*sinl(th),y[2]-R*cosl(th)};
      for (T d: e) { double w=double(fabsl(d)/1e-12L); note_err(w); if (!(w<=1)) { violation("row","coordinates of point (%zu,%zu,%zu) are wrong",i,t,h); stop(); } }
      if (g.indx_R_th_ph(i,t,h)!=W.m->code_at(i,t,h)) { violation("row","index of point (%zu,%zu,%zu) is wrong",i,t,h); stop(); }
      const size_t k=W.m->code_at(i,t,h), k2=IS_CONTIG?h*p.nlat+t:t*p.nphi+h;
      D a=g.th_ph(t,h), b=g.th_ph(k2);
      if (!same(g.R_th_ph(k),x) || !same(g.x_y_z(k),y) || a.size()!=2 || !same(a,b) || a[0]!=x[1] || a[1]!=x[2]) { violation("row","the coordinates of point (%zu,%zu,%zu) differ between accessors",i,t,h); stop(); }
      T want=fabsl(x[0]-p.cl)<=1e-16L ? 1e12L : T(x[0])/(1-T(x[0])/p.cl), cond=1/std::max(fabsl(1-T(x[0])/p.cl),1e-18L);
      if (fabsl(x[0]-p.cl)<=1e-16L || fabsl(x[0]-p.cl)>1e-9L) { T got=g.R_to_r(x[0]); if (!(fabsl(got-want)<=1e-14L*(1+cond)*fabsl(want))) { violation("row","R_to_r(%.17g) is %.17Lg instead of %.17Lg",x[0],got,want); stop(); } }
   }
   for (size_t i=0;i<p.nx;i++) for (size_t l=0;l<p.nl;l++) {
      D a=g.R_l(i,l), b=g.R_l(i*p.nl+l);
      if (a.size()!=2 || !same(a,b) || !(fabsl(a[0]-W.m->R[i])<=1e-12L) || a[1]!=double(l)) { violation("row","labels of radius %zu degree %zu are wrong",i,l); stop(); }
#if USE_CHEB
      D c=g.n_l(i,l), d=g.n_l(i*p.nl+l);
      if (c.size()!=2 || !same(c,d) || c[0]!=double(i) || c[1]!=double(l)) { violation("row","labels of coefficient %zu degree %zu are wrong",i,l); stop(); }
#endif
   }
   if (g.nx()!=p.nx || g.nl()!=p.nl || g.nm()!=p.nm || g.nlat()!=p.nlat || g.nphi()!=p.nphi) { violation("row","the grid reports a shape other than its own"); stop(); }
   res->finished=1;
}

/* ------------------------------------------------------------------ diagnostics */
struct Diag { D f0,f1,q,rho; double r,tv; };
static std::vector<Diag> diags;
static void diag_body(void *a) { Diag &d=diags[size_t(a)]; d.r=W.grid->norm_indep_res(W.p.dt,d.f0,d.f1,d.q); d.tv=W.grid->total_variation(d.f1); }
static void sc_diag() {
   make_world();
   const size_t N=W.p.nx*W.p.nlat*W.p.nphi; const int calls=int(pl("calls",3)); const double amp=pd("damp",0.2), off=pd("off",0);
   for (int c=0;c<calls;c++) {
      Diag d; int k=int(wl_rand()%7);
      size_t mlim=W.p.nm;
      d.f0=random_field(k,amp,mlim); d.f1=d.f0; double e=W.p.dt; if (wl_rand()&1) for (double &x: d.f1) x+=e*sym(); else d.f1=random_field(k,amp,mlim);
      if (off!=0) { for (double &x: d.f0) x+=off; for (double &x: d.f1) x+=off; }
      d.q=random_field(k,amp,mlim); d.rho.assign(N,1e30*sym()); d.r=d.tv=1e300; diags.push_back(d);
   }
   std::vector<Diag> b=diags;
   set_active(true);
   if (pl("callers",1)>1) { for (int c=0;c<calls;c++) spawn(diag_body,(void*)size_t(c)); join_all(); } else for (int c=0;c<calls;c++) diag_body((void*)size_t(c));
   for (Diag &d: diags) W.eom->set_rho(*W.grid,d.f1,d.q,d.rho);
   set_active(false);
   for (size_t c=0;c<diags.size();c++) {
      Diag &d=diags[c];
      if (!same(d.f0,b[c].f0)||!same(d.f1,b[c].f1)||!same(d.q,b[c].q)) { violation("diag","a diagnostic changed its input"); stop(); }
      V f0=W.m->load(d.f0), f1=W.m->load(d.f1), q=W.m->load(d.q);
      T want=W.m->residual(f0,f1,q), sc=ref::maxabs(q)+2*std::max(ref::maxabs(f0),ref::maxabs(f1))/W.p.dt;
      const T acc=T(N)*1.2e-16L;                 // a plain sum of N terms may lose N/2 units in the last place, in the same direction when the terms are alike
      double w=ratio(fabsl(d.r-want),ref::EPSC*(sc*0.2L+want)+acc*want); note_err(w);
      if (!(w<=1)) { violation("diag","residual norm: got %.17g want %.17Lg",d.r,want); stop(); }
      want=W.m->tv(f1); w=ratio(fabsl(d.tv-want),ref::EPSC*(want+1e-3L*ref::maxabs(f1))+acc*want); note_err(w);
      if (!(w<=1)) { violation("diag","total variation: got %.17g want %.17Lg",d.tv,want); stop(); }
      if (W.p.nm<W.p.nl) continue;   // see DESIGN: ladder operators need nm=nl
      V rho=W.m->rho(f1,q), f1r=W.m->dr(f1), X=W.m->X(f1); T mf=ref::maxabs(f1), mq=ref::maxabs(q), g=mq+W.m->rad.nD*mf+(W.p.nl+1)*mf, K=fabsl(T(W.p.k0))+fabsl(T(W.p.km1))*2+fabsl(T(W.p.k1))+fabsl(T(W.p.k2));
      T tol=ref::EPSC*( (K+1)*g*(ref::maxabs(f1r)+mq+(W.p.nl+1)*mf) + fabsl(T(W.p.V2))+fabsl(T(W.p.V3))+fabsl(T(W.p.V4)));
      if (off!=0) {
         bool near=false; T cond=1; for (T x: f1) { near|=W.p.km1!=0 && fabsl(1+x)<0.25L; cond=std::max(cond,1+fabsl(x)); }
         if (near) continue;
         tol*=10*powl(cond,4);
      }
      cmp("diag","energy density",d.rho,rho,tol);
   }
   res->finished=1;
}

/* ------------------------------------------------------------------ shared operators, several callers */
struct Shared { Cheb *ch; FD *fd; Sphere *sp; };
static Shared S;
struct Call { int op; size_t in; D x, y, y2; std::vector<cplx> cx, ci; };
static std::vector<D> inputs_r, inputs_s;   // read by every caller
static std::vector<std::vector<Call>> calls;
static const char *const callname[]={"Cheb::to_ch","Cheb::to_po","Cheb::der","Cheb::filter","FD::der","FD::der2","FD::filter","Sphere::laplace_beltrami","Sphere::partial_phi","Sphere::sphereX","Sphere::filter","Sphere::raise","Sphere::lower","Sphere::power_spectrum","Sphere::to_Ylm/to_Sph","Sphere::compute_ylm","Sphere::to_Ylm (complex)","Sphere::to_Sph (complex)","Sphere::to_Ylm"};
static void do_call(Call &c) {
   switch (c.op) {
      case 0: S.ch->to_ch(inputs_r[c.in],c.y); break;
      case 1: S.ch->to_po(c.x,c.y); break;
      case 2: S.ch->der(inputs_r[c.in],c.y); break;
      case 3: S.ch->filter(c.y); break;
      case 4: S.fd->der(inputs_r[c.in],c.y); break;
      case 5: S.fd->der2(inputs_r[c.in],c.y); break;
      case 6: S.fd->filter(c.y); break;
      case 7: S.sp->laplace_beltrami(inputs_s[c.in],c.y); break;
      case 8: S.sp->partial_phi(inputs_s[c.in],c.y); break;
      case 9: S.sp->sphereX(inputs_s[c.in],c.y); break;
      case 10: S.sp->filter(c.y); break;
      case 11: S.sp->raise(inputs_s[c.in],c.cx); break;
      case 12: S.sp->lower(inputs_s[c.in],c.cx); break;
      case 13: S.sp->power_spectrum(inputs_s[c.in],c.y); break;
      case 14: { std::vector<cplx> y(S.sp->nYlm()); S.sp->to_Ylm(inputs_s[c.in],y); S.sp->to_Sph(y,c.y); break; }
      case 15: c.y=S.sp->compute_ylm(c.in/64,c.in%64); break;
      case 16: S.sp->to_Ylm(c.ci,c.cx); break;
      case 17: S.sp->to_Sph(c.ci,c.cx); break;
      case 18: S.sp->to_Ylm(inputs_s[c.in],c.cx); break;
   }
}
static void shared_body(void *a) { for (Call &c: calls[size_t(a)]) do_call(c); }
static void to_ref(const D &v, V &o) { const ref::Par &p=W.p; o.resize(v.size()); for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) o[t*p.nphi+h]=v[IS_CONTIG?h*p.nlat+t:t*p.nphi+h]; }
static void cmp1(const char *what, const D &got, const V &want, T tol) {
   if (tol<=0) tol=1e-300L;
   for (size_t i=0;i<want.size();i++) { T e=fabsl(T(got[i])-want[i])/tol; double w=e==e?double(e):1e300; note_err(w);
      if (!(w<=1)) { violation("shared","%s wrong at %zu: got %.17g want %.17Lg (error %.3g x tolerance)",what,i,got[i],want[i],w); stop(); } }
}
static void cmp_s(const char *what, const D &got, const V &want, T tol) { V g; to_ref(got,g); D d(g.size()); for (size_t i=0;i<g.size();i++) d[i]=double(g[i]); cmp1(what,d,want,tol); }
static void check_call(const Call &c, const D &in, const ref::Radial &rc, const ref::Radial &rf, const ref::Sph &s) {
   V v, o; const T E=ref::EPSC; const size_t n=rc.n; T mx=0;
   if (c.op<7) { v.resize(n); for (size_t i=0;i<n;i++) { v[i]=in[i]; mx=std::max(mx,fabsl(v[i])); } }
   else if (c.op<15 || c.op==18) { to_ref(in,v); mx=ref::maxabs(v); o.resize(v.size()); }
   const T L=T(s.nl+1);
   auto coef=[&](const V &f) { V a(n); for (size_t k=0;k<n;k++) { T t=0; for (size_t j=0;j<n;j++) { T g=(j==0||j==n-1)?1:2; t+=g*f[j]*cosl(3.14159265358979323846264338327950288L*T((k*j)%(2*(n-1)))/(n-1)); } a[k]=t/(n-1)/((k==0||k==n-1)?2:1); } return a; };
   switch (c.op) {
      case 0: cmp1(callname[0],c.y,coef(v),E*mx*T(n)); break;
      case 1: { V w(n,0); for (size_t i=0;i<n;i++) for (size_t k=0;k<n;k++) w[i]+=v[k]*cosl(3.14159265358979323846264338327950288L*T((k*i)%(2*(n-1)))/(n-1)); cmp1(callname[1],c.y,w,E*mx*T(n)); break; }
      case 2: rc.apply(rc.D,v,o); cmp1(callname[2],c.y,o,E*rc.nD*mx); break;
      case 3: rc.apply(rc.F,v,o); cmp1(callname[3],c.y,o,E*mx*10); break;
      case 4: rf.apply(rf.D,v,o); cmp1(callname[4],c.y,o,E*rf.nD*mx); break;
      case 5: rf.apply(rf.D2,v,o); cmp1(callname[5],c.y,o,E*rf.nD2*mx); break;
      case 6: rf.apply(rf.F,v,o); cmp1(callname[6],c.y,o,E*mx*10); break;
      case 7: s.lap(v.data(),o.data()); cmp_s(callname[7],c.y,o,E*L*L*mx); break;
      case 8: s.dphi(v.data(),o.data()); cmp_s(callname[8],c.y,o,E*L*mx); break;
      case 9: s.X(v.data(),o.data()); cmp_s(callname[9],c.y,o,E*L*L*mx*mx); break;
      case 10: s.filter(v.data(),o.data()); cmp_s(callname[10],c.y,o,E*mx); break;
      case 11: case 12: { V re(v.size()),im(v.size()); s.ladder(v.data(),c.op==11?1:-1,re.data(),im.data()); D a(v.size()),b(v.size()); for (size_t i=0;i<v.size();i++) { a[i]=c.cx[i].real(); b[i]=c.cx[i].imag(); }
         cmp_s(callname[c.op],a,re,E*L*mx); cmp_s(callname[c.op],b,im,E*L*mx); break; }
      case 13: { V w(s.nl); s.power(v.data(),w.data()); cmp1(callname[13],c.y,w,E*mx*mx*10); break; }
      case 14: s.project(v.data(),o.data()); cmp_s(callname[14],c.y,o,E*mx*4); break;
      case 15: { V w(s.nlat*s.nphi); for (size_t t=0;t<s.nlat;t++) for (size_t h=0;h<s.nphi;h++) w[t*s.nphi+h]=s.ylm(c.in/64,c.in%64,t,h); cmp_s(callname[15],c.y,w,E*4*L); break; }
      case 16: { // coefficients of a complex function from those of its real and imaginary parts
         D a(c.ci.size()),b(a); for (size_t i=0;i<a.size();i++) { a[i]=c.ci[i].real(); b[i]=c.ci[i].imag(); }
         V va,vb,ra,ia,rb,ib; to_ref(a,va); to_ref(b,vb); s.analyse(va.data(),ra,ia); s.analyse(vb.data(),rb,ib);
         D g; V w; for (size_t l=0;l<=s.nl;l++) for (long m=-long(l);m<=long(l);m++) { size_t k=l*(s.nl+2)+size_t(m<0?-m:m); T sg=m<0?((m&1)?-1:1):1, cj=m<0?-1:1;
            w.push_back(sg*(ra[k]-cj*ib[k])); w.push_back(sg*(cj*ia[k]+rb[k])); cplx z=c.cx[l*(l+1)+size_t(long(0)+m)]; g.push_back(z.real()); g.push_back(z.imag()); }
         cmp1(callname[16],g,w,E*8); break; }
      case 17: { V re(s.nlat*s.nphi,0),im(re); T mxc=0;
         for (size_t l=0;l<=s.nl;l++) for (long m=-long(l);m<=long(l);m++) { cplx z=c.ci[l*(l+1)+size_t(m)]; mxc=std::max(mxc,fabsl(T(z.real()))+fabsl(T(z.imag())));
            for (size_t t=0;t<s.nlat;t++) { T q=s.pl(l,m,t); for (size_t h=0;h<s.nphi;h++) { size_t k=h*size_t(m<0?-m:m)%s.nphi; T cs=s.cs[k], sn=m<0?-s.sn[k]:s.sn[k];
               re[t*s.nphi+h]+=q*(z.real()*cs-z.imag()*sn); im[t*s.nphi+h]+=q*(z.real()*sn+z.imag()*cs); } } }
         D a(c.cx.size()),b(a); for (size_t i=0;i<a.size();i++) { a[i]=c.cx[i].real(); b[i]=c.cx[i].imag(); }
         cmp_s(callname[17],a,re,E*L*L*mxc); cmp_s(callname[17],b,im,E*L*L*mxc); break; }
      case 18: { V re,im; s.analyse(v.data(),re,im); D g; V w;
         for (size_t l=0;l<=s.nl;l++) for (size_t m=0;m<=std::min(l,s.nm);m++) { size_t k=l*(s.nl+2)+m; w.push_back(re[k]); w.push_back(im[k]); cplx z=c.cx[m*(2*s.nl+2-(m+1))/2+l]; g.push_back(z.real()); g.push_back(z.imag()); }
         cmp1(callname[18],g,w,E*mx*8); break; }
   }
}
static void sc_shared() {
   W.p=par_from_plan(); W.m=new ref::Model(W.p,IS_CHEB,IS_CONTIG);
   const ref::Par &p=W.p; const size_t n=p.nx, Sz=p.nlat*p.nphi; const int T_=int(pl("callers",3)), K=int(pl("calls",4)); const long mask=pl("ops",524287);
   ref::Radial rc(n,true,p.Rmin,p.Rmax), rf(n,false,p.Rmin,p.Rmax);
   const bool act=pl("actctor",0); set_active(act);
   S.ch=new Cheb(n,p.Rmin,p.Rmax); S.fd=new FD(n,p.Rmin,p.Rmax); S.sp=new Sphere(p.nl,p.nm,p.nlat,p.nphi);
   set_active(false);
   for (int k=0;k<2;k++) { D v(n); for (double &x: v) x=sym(); inputs_r.push_back(v); }
   const bool narrow=p.nm<p.nl; const size_t mlim=p.nm;
   for (int k=0;k<2;k++) { D g=random_field(k?2:0,1.0,mlim); inputs_s.push_back(D(g.begin(),g.begin()+long(Sz))); }
   calls.resize(size_t(T_)); std::vector<std::vector<D>> owns(calls.size());
   for (int t=0;t<T_;t++) for (int k=0;k<K;k++) {
      Call c; do c.op=int(wl_rand()%19); while (!(mask>>c.op&1) || (narrow && (c.op==9||c.op==11||c.op==12||c.op==16||c.op==17)));
      c.in=wl_rand()&1; D own(c.op<7?n:Sz); for (double &x: own) x=sym();
      c.x=own; c.y=own;
      if (c.op==15) { size_t l=wl_rand()%(p.nl+1), m=wl_rand()%(std::min(l,p.nm)+1); c.in=l*64+m; c.y.clear(); }
      else if (c.op==16||c.op==17) { const size_t n2=(p.nl+1)*(p.nl+1); c.y.clear(); c.ci.resize(c.op==16?Sz:n2); for (cplx &z: c.ci) { double a=sym(); z=cplx(a,sym()); } c.cx.assign(c.op==16?n2:Sz,cplx(1e70,1e70)); }
      else if (c.op==18) { c.y.clear(); c.cx.assign(S.sp->nYlm(),cplx(1e70,1e70)); }
      else if (c.op==13) c.y.assign(p.nl,1e70);
      else if (c.op!=3 && c.op!=6 && c.op!=10) for (double &x: c.y) x=1e70;
      if (c.op==11||c.op==12) c.cx.assign(Sz,cplx(1e70,1e70));
      calls[size_t(t)].push_back(c); owns[size_t(t)].push_back(own);
   }
   std::vector<D> br=inputs_r, bs=inputs_s;
   set_active(true);
   if (T_>1) { for (int t=0;t<T_;t++) spawn(shared_body,(void*)size_t(t)); join_all(); } else shared_body(nullptr);
   set_active(false);
   for (size_t k=0;k<2;k++) if (!same(br[k],inputs_r[k])||!same(bs[k],inputs_s[k])) { violation("shared","an operator changed an input it should only read"); stop(); }
   for (size_t t=0;t<calls.size();t++) for (size_t k=0;k<calls[t].size();k++) {
      const Call &c=calls[t][k]; const bool own=c.op==1||c.op==3||c.op==6||c.op==10;
      check_call(c, own?owns[t][k]:c.op>=15&&c.op<18?D():c.op<7?br[c.in]:bs[c.in], rc, rf, W.m->sph);
   }
   set_active(act); delete S.ch; delete S.fd; delete S.sp; set_active(false);
   res->finished=1;
}

/* ------------------------------------------------------------------ lifetimes */
struct Obj { int kind; ref::Par p; Cheb *ch; FD *fd; Sphere *sp; Grid *gr; };
static std::vector<Obj> objs;

struct Use { size_t who; int op; D in, out, was; };
static std::vector<Use> uses;
static void use_obj(Use &u) {
   Obj &o=objs[u.who];
   switch (o.kind) {
      case 0: if (u.op==1) { u.out=u.in; o.ch->filter(u.out); } else o.ch->der(u.in,u.out); break;
      case 1: if (u.op==1) o.fd->der2(u.in,u.out); else if (u.op==2) { u.out=u.in; o.fd->filter(u.out); } else o.fd->der(u.in,u.out); break;
      case 2: if (u.op==1) o.sp->laplace_beltrami(u.in,u.out); else if (u.op==2) { u.out=u.in; o.sp->filter(u.out); } else o.sp->partial_phi(u.in,u.out); break;
      case 3: if (u.op==1) o.gr->set_partial_r(u.in,u.out); else if (u.op==2) o.gr->set_partial2_r(u.in,u.out); else o.gr->set_spherical_lap(u.in,u.out); break;
   }
}
static void use_body(void *a) { use_obj(uses[size_t(a)]); }
static void check_use(const Use &u) {
   Obj &o=objs[u.who]; const ref::Par &p=o.p; T mx=0; for (double x: u.in) mx=std::max(mx,fabsl(T(x)));
   V v(u.in.size()), w; for (size_t i=0;i<v.size();i++) v[i]=u.in[i];
   World keep=W; W.p=p;
   if (!same(u.in,u.was)) { violation("shared","using an object changed its input"); stop(); }
   auto near=[](T a, T b){ if (!(fabsl(a-b)<=1e-12L*(1+fabsl(b)))) { violation("shared","an object reports coordinate %.17Lg instead of %.17Lg",a,b); stop(); } };
   if (o.kind<=1) { ref::Radial r(p.nx,o.kind==0,p.Rmin,p.Rmax); for (size_t i=0;i<p.nx;i++) near(o.kind==0?o.ch->pt(i):o.fd->pt(i),r.x[i]); }
   else {
      ref::Sph s(p.nl,p.nm,p.nlat,p.nphi); const T tp=2*3.14159265358979323846264338327950288L;
      if (o.kind==2) { for (size_t i=0;i<p.nlat;i++) near(o.sp->theta(i),acosl(s.ct[i])); for (size_t i=0;i<p.nphi;i++) near(o.sp->phi(i),tp*i/p.nphi); }
      else { ref::Radial r(p.nx,IS_CHEB,p.Rmin,p.Rmax); for (size_t i=0;i<p.nx;i++) { size_t t=i%p.nlat, h=i%p.nphi; D x=o.gr->R_th_ph(i,t,h); near(x[0],r.x[i]); near(x[1],acosl(s.ct[t])); near(x[2],tp*h/p.nphi); } }
   }
   if (o.kind<=1) { ref::Radial r(p.nx,o.kind==0,p.Rmin,p.Rmax); const V &M= o.kind==0 ? (u.op==1?r.F:r.D) : (u.op==1?r.D2:u.op==2?r.F:r.D); r.apply(M,v,w); T nrm=0; for (size_t i=0;i<p.nx;i++) { T a=0; for (size_t j=0;j<p.nx;j++) a+=fabsl(M[i*p.nx+j]); nrm=std::max(nrm,a); } cmp1("object use",u.out,w,ref::EPSC*(nrm+10)*mx); }
   else if (o.kind==2) { ref::Sph s(p.nl,p.nm,p.nlat,p.nphi); V x; to_ref(u.in,x); w.resize(x.size()); if (u.op==1) s.lap(x.data(),w.data()); else if (u.op==2) s.filter(x.data(),w.data()); else s.dphi(x.data(),w.data()); cmp_s("object use",u.out,w,ref::EPSC*T(p.nl+1)*T(p.nl+1)*mx); }
   else { ref::Model m(p,IS_CHEB,IS_CONTIG); W.m=&m; V x=m.load(u.in); if (u.op==1) cmp("shared","object use",u.out,m.dr(x),m.tol_of(1,mx)); else if (u.op==2) cmp("shared","object use",u.out,m.d2r(x),m.tol_of(2,mx)); else cmp("shared","object use",u.out,m.lap(x),m.tol_of(4,mx)); }
   W=keep;
}
static void sc_life() {
   W.p=par_from_plan();
   char b[8192]; if (!plan.get("hist",b,sizeof b)) return;    // c<kind><n>, u<who>, t<who><who>.., d<who> separated by '.'
   const bool race=pl("race",0)!=0; (void)race;
   std::vector<long> alive;
   for (char *sv=nullptr,*tok=strtok_r(b,".",&sv); tok; tok=strtok_r(nullptr,".",&sv)) {
      if (tok[0]=='c') {
         Obj o; memset((void*)&o,0,sizeof o); o.kind=tok[1]-'0'; long n=atol(tok+2);
         o.p=W.p; o.p.nx=size_t(n); o.p.nl=2+size_t(wl_rand()%4); o.p.nm=o.p.nl; o.p.nlat=o.p.nl+1+size_t(wl_rand()%3); o.p.nphi=2*o.p.nl+1+size_t(wl_rand()%4);
         { const double w=W.p.Rmax-W.p.Rmin; size_t s=wl_rand()%6; o.p.Rmin+=w*0.1*double(s%3); o.p.Rmax-=w*0.25*double(s/3); }
         objs.push_back(o); Obj &q=objs.back();
         set_active(true);
         switch (q.kind) { case 0: q.ch=new Cheb(q.p.nx,q.p.Rmin,q.p.Rmax); break; case 1: q.fd=new FD(q.p.nx,q.p.Rmin,q.p.Rmax); break;
            case 2: q.sp=new Sphere(q.p.nl,q.p.nm,q.p.nlat,q.p.nphi); break; case 3: q.gr=new Grid(q.p.cl,q.p.Rmin,q.p.Rmax,q.p.nx,q.p.nl,q.p.nm,q.p.nlat,q.p.nphi); break; }
         set_active(false);
         alive.push_back(long(objs.size())-1);
      } else if (tok[0]=='d' && !alive.empty()) {
         size_t k=size_t(atol(tok+1))%alive.size(); Obj &q=objs[size_t(alive[k])]; alive.erase(alive.begin()+long(k));
         set_active(true); delete q.ch; delete q.fd; delete q.sp; delete q.gr; set_active(false);
         q.ch=nullptr; q.fd=nullptr; q.sp=nullptr; q.gr=nullptr;
      } else if ((tok[0]=='u'||tok[0]=='t') && !alive.empty()) {
         uses.clear(); int cnt=tok[0]=='u'?1:1+int(pl("callers",3)); size_t k0=size_t(atol(tok+1));
         for (int c=0;c<cnt;c++) { Use u; u.who=size_t(alive[(k0+size_t(c))%alive.size()]); u.op=int(wl_rand()%3); Obj &q=objs[u.who];
            size_t n = q.kind<=1 ? q.p.nx : q.kind==2 ? q.p.nlat*q.p.nphi : q.p.nx*q.p.nlat*q.p.nphi;
            u.in.resize(n); for (double &x: u.in) x=sym(); u.was=u.in; u.out.assign(n,1e70); uses.push_back(u); }
         set_active(true);
         if (tok[0]=='u') use_obj(uses[0]); else { for (int c=0;c<cnt;c++) spawn(use_body,(void*)size_t(c)); join_all(); }
         set_active(false);
         for (Use &u: uses) { check_use(u); res->checks++; }
      }
   }
   res->finished=1;
}

/* ------------------------------------------------------------------ memory */
static void leaks(const char *after, uint64_t from) {
   char b[256]; uint64_t n=0; reach_leaks(from,b,sizeof b,&n); res->checks++;
   if (n) { violation("leak","%llu block(s) allocated by %s are never released:%s",(unsigned long long)n,after,b); stop(); }
}
static void grows(const char *what, const std::vector<uint64_t> &h) {
   size_t n=h.size(); if (n<4) return;
   if (h[n-1]>h[n-2] && h[n-2]>h[n-3] && h[n-3]>h[n-4]) { violation("leak","%s grow with every cycle (%llu, %llu, %llu, %llu)",what,(unsigned long long)h[n-4],(unsigned long long)h[n-3],(unsigned long long)h[n-2],(unsigned long long)h[n-1]); stop(); }
}
static D mem_rho;
static void sc_mem() {
   W.p=par_from_plan(); W.m=nullptr; const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi;
   static std::vector<uint64_t> bytes, plans, cfgs, sb;    // counted quietly
   bytes.reserve(64); plans.reserve(64); cfgs.reserve(64); sb.reserve(256);
   const int cycles=int(pl("cycles",4)), steps=int(pl("steps",2)); const bool once=cycles==1;
   mem_rho.assign(N,0.0); jobs.reserve(16);
   for (int c=0;c<cycles;c++) {
      uint64_t from=alloc_seq();
      set_active(true);
      make_code();
      set_active(false);
      leaks("construction",from);
      const int md=int(pl("mdata",0)); const size_t S_=p.nlat*p.nphi;
      for (size_t i=0;i<N;i++) { bool z = md==1 ? true : md==2 ? (i/S_)%2!=0 : md==3 ? i/S_>p.nx/2 : false; W.f->n[i]=z?0:0.01*sym(); W.q->n[i]=z?0:0.01*sym(); }
      if (md==4) { uint64_t at=alloc_seq(); set_active(true); ID::compact_pulse(*W.params,*W.grid,W.f->n,W.q->n); set_active(false); leaks("the initial data",at); }
      sb.clear();
      for (int s=0;s<(once?6:steps);s++) {
         uint64_t at=alloc_seq();
         set_active(true); W.eom->time_step(*W.grid,*W.f,*W.q); set_active(false); leaks("a time step",at); at=alloc_seq(); res->steps++;
         set_active(true); W.eom->set_rho(*W.grid,W.f->np1,W.q->np1,mem_rho); W.grid->norm_indep_res(p.dt,W.f->n,W.f->np1,W.q->n); W.grid->total_variation(W.f->n); set_active(false); leaks("a diagnostic",at); at=alloc_seq();
         set_active(true); W.f->shift(); W.q->shift(); set_active(false); leaks("a level shift",at); at=alloc_seq();
         { std::string nm="mem"; set_active(true);
           Csv::write_R_psl(*W.grid,nm,s&1,s,W.f->n); Csv::write_R_psl(*W.grid,nm,true,s,mem_rho);
           if (s==0) { Csv::write(nm,size_t(s),W.f->n); Csv::write_x_y_z(*W.grid,nm,true,s,-1,1e9,-1,1e9,W.f->n); }
#if USE_CHEB
           Csv::write_n_psl(*W.grid,nm,true,s,W.f->n);
#endif
           set_active(false); leaks("a snapshot",at); }
         sb.push_back(live_bytes()); grows("bytes in use",sb);
      }
      set_active(true);
      drop_code();
      set_active(false);
      leaks("one solver lifetime",from);
      bytes.push_back(live_bytes()); plans.push_back(live_plans()); cfgs.push_back(live_configs());
      grows("bytes in use after all objects are gone",bytes); grows("FFTW plans",plans); grows("SHTns configurations",cfgs);
   }
   res->finished=1;
}
/* each public operation of a grid, each under the memory checks */
static void sc_memops() {
   W.p=par_from_plan(); W.m=new ref::Model(W.p,IS_CHEB,IS_CONTIG);
   set_active(true); make_code(); set_active(false);
   const size_t N=W.p.nx*W.p.nlat*W.p.nphi;
   jobs.reserve(64);
   for (int c=0;c<int(pl("calls",9));c++) {
      OpJob j; j.op=c%9; if (j.op==8 && !IS_CHEB) continue;
      static const int kinds[]={0,5,6,4}; const int kd=kinds[wl_rand()%4];
      j.in=random_field(kd,wl_rand()%4?1.0:0.0,W.p.nm); j.out.assign(j.op>=7?W.p.nx*W.p.nl:N,0.0); jobs.clear(); jobs.push_back(j);
      uint64_t from=alloc_seq();
      set_active(true); run_op(jobs[0]); set_active(false);
      leaks(opname[j.op],from);
   }
   { uint64_t from=alloc_seq(); set_active(true); { D y=W.grid->compute_ylm(W.p.nl,W.p.nm); } set_active(false); leaks("compute_ylm",from); }
   { uint64_t from=alloc_seq(); set_active(true); ID::compact_pulse(*W.params,*W.grid,W.f->n,W.q->n); set_active(false); leaks("initial data",from); }
   set_active(true); drop_code(); set_active(false);
   res->finished=1;
}

/* ------------------------------------------------------------------ radial dissipation */
static void sc_dissip() {
   make_world();
   const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi, S_=p.nlat*p.nphi;
   int a=0,b=0;
   // the radial filters themselves, whether or not the step applies them
   for (int which=0;which<2;which++) {
      ref::Radial r(p.nx,which==0,T(p.Rmin),T(p.Rmax)); V vr(p.nx), o; D v(p.nx);
      for (int c=0;c<3;c++) {
         for (size_t i=0;i<p.nx;i++) { double u=(double(wl_rand()>>11)*0x1p-53-0.5)*2; v[i]=c==0?u:c==1?((i&1)?-1.0:1.0)+0.1*u:1.0+0.5*double(i)/double(p.nx); vr[i]=v[i]; }
         set_active(true);
         if (which==0) { Cheb ch(p.nx,p.Rmin,p.Rmax); ch.filter(v); } else { FD fd(p.nx,p.Rmin,p.Rmax); fd.filter(v); }
         set_active(false);
         r.apply(r.F,vr,o); res->checks++;
         for (size_t i=0;i<p.nx;i++) { double e=double(fabsl(T(v[i])-o[i])/(ref::EPSC*20)); note_err(e);
            if (!(e<=1)) { violation("dissip","%s wrong at radial point %zu of %zu: got %.17g want %.17Lg (error %.3g x tolerance)",which?"FD::filter":"Cheb::filter",i,p.nx,v[i],o[i],e); stop(); } }
      }
   }
   for (int c=0;c<int(pl("calls",2));c++) {
      int kind=int(wl_rand()&1)?2:0; bool smooth=(c%3)==2;
      D v=random_field(smooth?1:kind,1.0,p.nm), w=v, ang(N);
      set_active(true); W.grid->filter(w); set_active(false);
      Sphere sp(p.nl,p.nm,p.nlat,p.nphi);        // the angular part, by the code itself
      for (size_t i=0;i<p.nx;i++) { D row(v.begin()+long(i*S_),v.begin()+long((i+1)*S_)); sp.filter(row); std::copy(row.begin(),row.end(),ang.begin()+long(i*S_)); }
      V va=W.m->load(ang), vb=W.m->radfilter(va); size_t at; const T tol=W.m->tol_of(6,1.0L)*4;
      double wa=worst(w,va,tol,&at), wb=worst(w,vb,tol,&at); res->checks++;
      if (wb<=1) { b++; note_err(wb); } else if (wa<=1) { a++; note_err(wa); }
      else { violation("dissip","filter applied neither the documented radial dissipation nor none: error %.3g x tolerance at point %zu",wb,at); stop(); }
   }
   out("none=%d documented=%d",a,b);
   res->finished=1;
}

/* ------------------------------------------------------------------ snapshot writers */
struct WJob { int kind, itm; bool labels; std::string name, file; D v; double lim[4]; };
static std::vector<WJob> wjobs;
static void write_job(const WJob &j) {
   switch (j.kind) {
      case 0: Csv::write(j.name,size_t(j.itm),j.v); break;
      case 1: Csv::write_R_psl(*W.grid,j.name,j.labels,j.itm,j.v); break;
      case 2: Csv::write_x_y_z(*W.grid,j.name,j.labels,j.itm,j.lim[0],j.lim[1],j.lim[2],j.lim[3],j.v); break;
#if USE_CHEB
      case 3: Csv::write_n_psl(*W.grid,j.name,j.labels,j.itm,j.v); break;
#endif
   }
}
struct Lines { std::string s; size_t pos; bool next(std::string &l) { size_t e=s.find('\n',pos); if (e==std::string::npos) return false; l=s.substr(pos,e-pos); pos=e+1; return true; } };
static void bad_csv(const WJob &j, size_t row, const char *what, const std::string &l) { violation("csv","%s, row %zu: %s ('%s')",j.file.c_str(),row,what,l.c_str()); stop(); }
static int cells(const std::string &l, double *x, int n) { const char *b=l.c_str(); char *e; for (int k=0;k<n;k++) { x[k]=strtod(b,&e); if (e==b) return -1; b=e; if (k<n-1) { if (*b!=',') return -1; b++; } } return *b ? -1 : 0; }
static void check_wjob(const WJob &j, Lines &in) {
   const ref::Par &p=W.p; std::string l; double x[4]; res->checks++;
   if (j.labels && j.kind) { const char *want= j.kind==1?"R,l,log(value)":j.kind==2?"x,y,z,value":"n,l,log(value)"; if (!in.next(l)||l!=want) bad_csv(j,0,"wrong or missing labels",l); }
   auto near=[](double a, T b, T rel){ return fabsl(T(a)-b)<=rel*fabsl(b)+1e-300L; };
   if (j.kind==0) { for (size_t i=0;i<j.v.size();i++) { if (!in.next(l)||cells(l,x,1)) bad_csv(j,i,"missing or malformed row",l); if (!near(x[0],j.v[i],6e-16L)) bad_csv(j,i,"wrong value",l); } return; }
   if (j.kind==2) {
      for (size_t c=0;c<j.v.size();c++) {
         const size_t S_=p.nlat*p.nphi; size_t ix=c/S_, r=c%S_, it=IS_CONTIG?r%p.nlat:r/p.nphi, ip=IS_CONTIG?r/p.nlat:r%p.nphi;
         T R=W.m->R[ix]; double a=fabs(j.v[c]);
         if (!(a>j.lim[0] && a<j.lim[1] && R>T(j.lim[2]) && R<T(j.lim[3]))) continue;
         if (!in.next(l)||cells(l,x,4)) bad_csv(j,c,"missing or malformed row",l);
         T st=sqrtl((1-W.m->sph.ct[it])*(1+W.m->sph.ct[it])), ph=2*3.14159265358979323846264338327950288L*ip/p.nphi;
         T e[3]={x[0]-R*cosl(ph)*st,x[1]-R*sinl(ph)*st,x[2]-R*W.m->sph.ct[it]};
         for (T d: e) if (!(fabsl(d)<=1e-12L)) bad_csv(j,c,"wrong place",l);
         if (!near(x[3],j.v[c],6e-16L)) bad_csv(j,c,"wrong value",l);
      }
      return;
   }
   V v=W.m->load(j.v), pw=W.m->power(v); const size_t nl=p.nl, nx=p.nx; const T mx=ref::maxabs(v); T tol=W.m->tol_of(7,mx); V want(pw);
   if (j.kind==3) { tol=ref::EPSC*mx*10;
      for (size_t d=0;d<nl;d++) for (size_t k=0;k<nx;k++) { T s=0; for (size_t i=0;i<nx;i++) { T g=(i==0||i==nx-1)?1:2; s+=g*sqrtl(pw[i*nl+d]>0?pw[i*nl+d]:0)*cosl(3.14159265358979323846264338327950288L*T((k*i)%(2*(nx-1)))/(nx-1)); } want[k*nl+d]=s/(nx-1)/((k==0||k==nx-1)?2:1); } }
   for (size_t i=0;i<nx*nl;i++) {
      if (!in.next(l)||cells(l,x,3)) bad_csv(j,i,"missing or malformed row",l);
      T at= j.kind==1 ? W.m->R[i/nl] : T(i/nl);
      if (!(fabsl(T(x[0])-at)<=1e-13L*(1+fabsl(at))) || x[1]!=double(i%nl)) bad_csv(j,i,"wrong radius or degree",l);
      const T w=want[i]; bool ok; double v0=x[2];
      if (v0!=v0 || v0<-16) ok=false;
      else if (v0==-16) ok = w-tol<=1.0000001e-16L;
      else { T got=powl(10.0L,T(v0)); ok = fabsl(got-w)<=tol+1e-12L*fabsl(w) || (got<=1e-16L*(1+1e-9L) && w<=1e-16L+tol); if (got<1e-16L*(1-1e-9L)) ok=false; }
      note_err(ok?0:2);
      if (!ok) bad_csv(j,i,"wrong value",l);
   }
}
static void sc_csv() {
   make_world();
   const ref::Par &p=W.p; const int calls=int(pl("calls",4)), names=int(pl("names",2));
   for (int c=0;c<calls;c++) {
      WJob j; do j.kind=int(wl_rand()%4); while (j.kind==3 && !IS_CHEB);
      j.itm=int(wl_rand()%3); if (wl_rand()%8==0) j.itm=int(wl_rand()%100000); j.labels=wl_rand()&1;
      char b[32]; snprintf(b,sizeof b,"w%d",int(wl_rand()%uint64_t(names))); j.name=b+std::string(size_t(pl("longname",0)),'n');
      static const char *const tag[]={"","_RPsl","_XYZ","_NPsl"}; j.file=j.name+tag[j.kind]+"_"+std::to_string(j.itm)+".csv";
      j.v=random_field(int(wl_rand()%7),pow(10.0,double(long(wl_rand()%7)-3)),p.nm);
      if (j.kind==0 && wl_rand()%3==0) { j.v.resize(wl_rand()%20); for (double &x: j.v) x=sym()*pow(10.0,double(long(wl_rand()%600)-300)); }
      j.lim[0]=-1; j.lim[1]=1e300; j.lim[2]=-1; j.lim[3]=1e300;
      if (j.kind==2) { double a=0; for (double x: j.v) a=std::max(a,fabs(x)); if (wl_rand()&1) j.lim[0]=a*0.3*wl_unit(); if (wl_rand()&1) j.lim[1]=a*(0.5+0.6*wl_unit()); if (!j.v.empty() && wl_rand()%3==0) j.lim[wl_rand()&1]=fabs(j.v[wl_rand()%j.v.size()]);
         auto mid=[&](size_t i){ return double((W.m->R[i]+W.m->R[i+1])/2); }; size_t i=wl_rand()%(p.nx-1), k=wl_rand()%(p.nx-1); if (i>k) std::swap(i,k); if (wl_rand()&1) j.lim[2]=mid(i); if (wl_rand()&1) j.lim[3]=mid(k); }
      wjobs.push_back(j);
   }
   std::vector<WJob> before=wjobs;
   set_active(true);
   for (WJob &j: wjobs) write_job(j);
   set_active(false);
   for (size_t i=0;i<wjobs.size();i++) if (!same(wjobs[i].v,before[i].v)) { violation("csv","writing a snapshot changed the data"); stop(); }
   if (pl("check",1)) {
      std::vector<std::string> seen;
      for (const WJob &j: wjobs) {
         bool again=false; for (auto &f: seen) again|=f==j.file; if (again) continue; seen.push_back(j.file);
         Lines in; in.pos=0; FILE *f=fopen(j.file.c_str(),"r"); if (!f) { violation("csv","%s was not written",j.file.c_str()); stop(); }
         char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) in.s.append(b,n); fclose(f);
         for (const WJob &k: wjobs) if (k.file==j.file) check_wjob(k,in);
         if (in.pos!=in.s.size()) { violation("csv","%s: rows after the last one",j.file.c_str()); stop(); }
      }
   }
   res->finished=1;
}

/* ------------------------------------------------------------------ which radial method is in this executable? */
static void sc_method() {
   make_world();
   const ref::Par &p=W.p; const size_t N=p.nx*p.nlat*p.nphi; ref::Model other(p,!IS_CHEB,IS_CONTIG);
   const char *mine=IS_CHEB?"Chebyshev":"finite difference", *theirs=IS_CHEB?"finite difference":"Chebyshev";
   T eo=0, em=0;
   for (size_t i=0;i<p.nx;i++) { T R=W.grid->R_th_ph(i,0,0)[0]; em=std::max(em,fabsl(R-W.m->R[i])); eo=std::max(eo,fabsl(R-other.R[i])); }
   res->checks++;
   if (!(em<=1e-12L) && eo<=1e-12L) { violation("method","the program built for the %s method uses the %s points",mine,theirs); stop(); }
   D v=random_field(0,1.0,p.nm), dv(N,0), ddv(N,0); const V x=W.m->load(v);
   set_active(true); W.grid->set_partial_R(v,dv); W.grid->set_partial2_r(v,ddv); set_active(false);
   size_t at; const T mx=ref::maxabs(x);
   // candidates for the derivatives: each method's own on its own points; for the second derivative also the first one applied twice
   const V own=W.m->dR(x), oth=other.dR(x), own2=W.m->d2r(x), twice=W.m->dR(W.m->dR(x)), once=W.m->radial_lines(W.m->rad.D2,x), oth3=other.d2r(x);
   V oth2=own2; for (size_t i=0;i<N;i++) { T j=1-W.m->R[i/(p.nlat*p.nphi)]/p.cl; oth2[i]+=j*j*j*j*(twice[i]-once[i]); }
   double wo=worst(dv,oth,other.tol_of(0,mx),&at), wm=worst(dv,own,W.m->tol_of(0,mx),&at); res->checks+=2;
   if (!(wm<=1) && wo<=1) { violation("method","the program built for the %s method differentiates with the %s method",mine,theirs); stop(); }
   const T t2=W.m->tol_of(2,mx)+other.tol_of(2,mx); wm=worst(ddv,own2,W.m->tol_of(2,mx),&at);
   if (!(wm<=1) && ((!IS_CHEB && worst(ddv,oth2,t2,&at)<=1) || worst(ddv,oth3,t2,&at)<=1)) { violation("method","the program built for the %s method takes second derivatives with the %s method",mine,theirs); stop(); }
   res->finished=1;
}

/* ------------------------------------------------------------------ parameters */
static void sc_params() {
   set_active(true);
   if (pl("two",0)) { Params *Q=new Params("params2.txt"); (void)Q; }
   arm_alloc_faults();
   Params *P=new Params("params.txt");
   set_active(false);
   out("nt=%zu\nnx=%zu\nnl=%zu\nnm=%zu\nnlat=%zu\nnphi=%zu\nt_step_save=%zu\n",P->nt(),P->nx(),P->nl(),P->nm(),P->nlat(),P->nphi(),P->t_step_save());
   out("dt=%.17g\ncompactification_length=%.17g\nRmax=%.17g\nRmin=%.17g\nblack_hole_mass=%.17g\nblack_hole_spin=%.17g\n",P->dt(),P->cl(),P->Rmax(),P->Rmin(),P->bh_mass(),P->bh_spin());
   out("km1=%.17g\nk0=%.17g\nk1=%.17g\nk2=%.17g\nV2=%.17g\nV3=%.17g\nV4=%.17g\n",P->km1(),P->k0(),P->k1(),P->k2(),P->V2(),P->V3(),P->V4());
   out("initial_data_type=%s\ninitial_data_direction=%s\namp=%.17g\nrl=%.17g\nru=%.17g\nl_ang=%d\nm_ang=%d\n",P->id().c_str(),P->initial_data_direction().c_str(),P->amp(),P->rl(),P->ru(),P->l_ang(),P->m_ang());
   res->finished=1;
}
extern const Scen scens[]={{"step",sc_step},{"ops",sc_ops},{"rows",sc_rows},{"diag",sc_diag},{"shared",sc_shared},{"life",sc_life},{"mem",sc_mem},{"memops",sc_memops},{"dissip",sc_dissip},{"params",sc_params},{"csv",sc_csv},{"method",sc_method},{nullptr,nullptr}};
