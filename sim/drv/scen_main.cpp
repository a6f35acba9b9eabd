// The whole program, from main() down, under the simulator.
#include "scen.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>
namespace rt { void arm_alloc_faults(); void site_report(); void sync_stats(); void reach_leaks(uint64_t from, char *b, size_t n, uint64_t *cnt); }
using namespace rt;
using ref::T; using ref::V;
extern int sfk_main(int argc, char **argv);

struct Snap { double time; T res, tv, tres; V pf, pr; T tf, tr; bool wild; };   // expected snapshot
static std::string slurp(const char *p) { std::string s; FILE *f=fopen(p,"r"); if (!f) return s; char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }

// what the documented program writes; `diss` = with the documented radial dissipation
static std::vector<Snap> predict(ref::Model &m, bool diss) {
   const ref::Par &p=m.p; std::vector<Snap> out_; bool wild=false;
   V f,q; m.pulse(f,q);
   // a double stores the state after every step: follow it
   T ef=ref::EPSC*ref::maxabs(f)*(1+T(p.nl)), eq=ref::EPSC*(ref::maxabs(q)+m.rad.nD*0)*(1+T(p.nl));
   const T K=fabsl(T(p.k0))+2*fabsl(T(p.km1))+fabsl(T(p.k1))+fabsl(T(p.k2))+fabsl(T(p.V2))+fabsl(T(p.V3))+fabsl(T(p.V4))+1;
   auto snap=[&](const V &f0, const V &f1, const V &q0, const V &q1, const V &tvf, double time) {
      Snap s; s.time=time; s.res=m.residual(f0,f1,q0); s.tv=m.tv(tvf);
      T mf=ref::maxabs(f1), mq=ref::maxabs(q1), L=T(p.nl)+1;
      s.tres=eq+2*ef/p.dt+ref::EPSC*(ref::maxabs(q0)+2*mf/p.dt);
      s.pf=m.power(f1); s.tf=10*ef+ref::EPSC*mf;
      V r=m.rho(f1,q1), f1r=m.dr(f1); s.pr=m.power(r);
      if (!(ref::maxabs(f0)<100 && ref::maxabs(q0)<100 && mf<1e4L && mq<1e4L)) wild=true;      // an unstable potential: double may overflow from here on
      if (!(ef<1e3L && eq<1e6L)) wild=true;      // the bound on the rounding error has outgrown the field
      s.wild=wild;
      T g=ref::maxabs(f1r)+mq+L*mf; s.tr=10*(K*g*(m.rad.nD*(ef+ref::EPSC*mf)+eq+L*ef)+ref::EPSC*ref::maxabs(r));
      out_.push_back(s);
   };
   snap(f,f,q,q,f,0.0);
   T amp=1;
   for (size_t it=1; it<p.nt; it++) {
      f=m.angfilter(f); q=m.angfilter(q); if (diss) { f=m.radfilter(f); q=m.radfilter(q); }
      V fn,qn; m.step(f,q,fn,qn); res->steps++; res->simtime+=p.dt;
      amp=1+p.dt*(m.rad.nD2*0.1L); T nf=ef+m.tol_f+p.dt*eq, nq=eq+4*m.tol_q+p.dt*(m.rad.nD2+m.rad.nD)*ef; (void)amp; ef=nf; eq=nq;
      if (it%p.save==0) snap(f,fn,q,qn,fn,p.dt*double(it));
      f=fn; q=qn;
   }
   return out_;
}
static char why[300];
static bool file_ok(ref::Model &m, const char *name, const V &pw, T tol, bool wild) {
   const ref::Par &p=m.p; std::string s=slurp(name);
   if (s.empty()) { snprintf(why,sizeof why,"%s is missing or empty",name); return false; }
   size_t pos=s.find('\n'); if (pos==std::string::npos || s.substr(0,pos)!="R,l,log(value)") { snprintf(why,sizeof why,"%s: bad header",name); return false; }
   pos++;
   for (size_t i=0;i<p.nx*p.nl;i++) {
      size_t e=s.find('\n',pos); if (e==std::string::npos) { snprintf(why,sizeof why,"%s: %zu rows instead of %zu",name,i,size_t(p.nx*p.nl)); return false; }
      std::string line=s.substr(pos,e-pos); pos=e+1; char *c; const char *b=line.c_str();
      double R=strtod(b,&c); if (*c!=',') { snprintf(why,sizeof why,"%s row %zu: '%s'",name,i,b); return false; }
      double l=strtod(c+1,&c); if (*c!=',') { snprintf(why,sizeof why,"%s row %zu: '%s'",name,i,b); return false; }
      double v=strtod(c+1,&c); if (*c) { snprintf(why,sizeof why,"%s row %zu: '%s'",name,i,b); return false; }
      if (fabsl(R-m.R[i/p.nl])>1e-13L*(1+fabsl(m.R[i/p.nl])) || l!=double(i%p.nl)) { snprintf(why,sizeof why,"%s row %zu: wrong radius or degree (%s)",name,i,b); return false; }
      T want=pw[i], t=tol*(2*sqrtl(want>0?want:0)+tol)*2+ 1e-12L*want;
      T got= v<=-16 ? 0 : powl(10.0L,T(v));
      bool ok;
      if (wild) ok=true;
      else if (v<-16 || v!=v) ok=false;
      else if (v==-16) { ok = want-t <= 1.0000001e-16L; note_err(ok?0:2); }
      else { T e2=fabsl(got-want); ok = e2<=t || (got<=1e-16L*(1+1e-9L) && want<=1e-16L+t); note_err(double(e2/t)); }
      if (!ok) { snprintf(why,sizeof why,"%s: radius %zu degree %zu holds %.16g, expected %.16Lg (tolerance %.2Lg)",name,i/p.nl,i%p.nl,v,want>1e-16L?log10l(want):-16.0L,t); return false; }
   }
   if (pos!=s.size()) { snprintf(why,sizeof why,"%s: rows after the last one",name); return false; }
   return true;
}
static bool matches(ref::Model &m, const std::vector<Snap> &ex) {
   char n[64];
   for (size_t k=0;k<ex.size();k++) {
      snprintf(n,sizeof n,"f_RPsl_%zu.csv",k);   if (!file_ok(m,n,ex[k].pf,ex[k].tf,ex[k].wild)) return false;
      if (m.p.nm<m.p.nl) continue;   // see DESIGN: ladder operators need nm=nl
      snprintf(n,sizeof n,"rho_RPsl_%zu.csv",k); if (!file_ok(m,n,ex[k].pr,ex[k].tr,ex[k].wild)) return false;
   }
   fflush(stdout);
   char con[600]; if (!plan.get("con",con,sizeof con)) return true;
   std::string s=slurp(con); size_t pos=0, k=0;
   while (pos<s.size()) {
      size_t e=s.find('\n',pos); if (e==std::string::npos) e=s.size(); std::string line=s.substr(pos,e-pos); pos=e+1;
      double t,r,v; int g_; char w[16];
      if (sscanf(line.c_str(),"%lf %15s %d %lf %lf",&t,w,&g_,&r,&v)!=5 || strcmp(w,"Grid")) continue;
      if (k>=ex.size()) { snprintf(why,sizeof why,"console: more than %zu diagnostic lines",ex.size()); return false; }
      const Snap &x=ex[k++]; const T rel=2e-5L;
      // printed to at least six digits
      const T half= x.time>0 ? 0.51L*powl(10.0L,floorl(log10l(T(x.time)))-5) : 0;
      if (fabsl(t-x.time)>half) { snprintf(why,sizeof why,"console: snapshot %zu logged with time %g instead of %g",k-1,t,x.time); return false; }
      if (!x.wild && !(fabsl(r-x.res)<=rel*x.res+x.tres+1e-290L)) { snprintf(why,sizeof why,"console: snapshot %zu logged with residual %g instead of %Lg",k-1,r,x.res); return false; }
      if (!x.wild && !(fabsl(v-x.tv)<=rel*x.tv+x.tf+1e-290L)) { snprintf(why,sizeof why,"console: snapshot %zu logged with total variation %g instead of %Lg",k-1,v,x.tv); return false; }
   }
   if (k!=ex.size()) { snprintf(why,sizeof why,"console: %zu diagnostic lines instead of %zu",k,ex.size()); return false; }
   return true;
}
static void oracle() {
   ref::Par p=par_from_plan(); ref::Model m(p,IS_CHEB,IS_CONTIG);
   std::vector<Snap> a=predict(m,false); char first[300];
   if (matches(m,a)) { out("variant=A"); return; }
   strcpy(first,why);
   std::vector<Snap> b=predict(m,true);
   if (matches(m,b)) { out("variant=B"); return; }
   violation("content","%s",first);
}
static void sc_main() {
   static char a0[]="sfk", a1[]="params.txt", a2[1000]="."; plan.get("out",a2,sizeof a2);
   for (char *q=strchr(a2+1,'/'); ; q=strchr(q+1,'/')) { if (q) *q=0; mkdir(a2,0755); if (!q) break; *q='/'; }
   static char *av[]={a0,a1,a2,nullptr};
   const uint64_t from=alloc_seq();
   set_active(true); arm_alloc_faults();
   int rc=sfk_main(3,av);
   set_active(false);
   if (pl("mem",0) && rc==0) {
      char b[256]; uint64_t n=0; reach_leaks(from,b,sizeof b,&n); res->checks++;
      if (n) violation("leak","%llu block(s) allocated during the run are left when main returns:%s",(unsigned long long)n,b);
   }
   res->main_rc=rc; res->finished=1;
   if (pl("sites",0)) site_report();
   if (pl("oracle",0)) { fflush(stdout); if (chdir(a2)) violation("content","the output directory is gone"); oracle(); sync_stats(); }
   exit(rc);
}
extern const Scen scens[]={{"main",sc_main},{nullptr,nullptr}};
