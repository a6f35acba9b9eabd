#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
namespace ref {
static const T PI = 3.14159265358979323846264338327950288L;
T EPSC = 400*T(std::numeric_limits<double>::epsilon());
T maxabs(const V &v) { T m=0; for (T x: v) { T a=fabsl(x); if (!(a<=m)) m=a; } return m; }

/* Fornberg's weights for derivative k at point z from nodes 0..m-1 */
static V weights(T z, const V &x, int k) {
   const int n=int(x.size())-1; std::vector<V> c(n+1,V(k+1,0));
   T c1=1, c4=x[0]-z; c[0][0]=1;
   for (int i=1;i<=n;i++) {
      int mn=std::min(i,k); T c2=1, c5=c4; c4=x[i]-z;
      for (int j=0;j<i;j++) {
         T c3=x[i]-x[j]; c2*=c3;
         if (j==i-1) { for (int s=mn;s>=1;s--) c[i][s]=c1*(s*c[i-1][s-1]-c5*c[i-1][s])/c2; c[i][0]=-c1*c5*c[i-1][0]/c2; }
         for (int s=mn;s>=1;s--) c[j][s]=(c4*c[j][s]-s*c[j][s-1])/c3;
         c[j][0]=c4*c[j][0]/c3;
      }
      c1=c2;
   }
   V w(n+1); for (int i=0;i<=n;i++) w[i]=c[i][k];
   return w;
}
Radial::Radial(size_t n_, bool ch, T lo_, T up_) : n(n_), cheb(ch), lo(lo_), up(up_), x(n), D(n*n,0), D2(n*n,0), F(n*n,0) {
   const long N=long(n);
   if (cheb) {
      T jac=(up-lo)/2;
      for (long i=0;i<N;i++) x[i]=jac*cosl(PI*i/(N-1))+(up+lo)/2;
      V co(2*(N-1)), fil(n);
      for (long m=0;m<2*(N-1);m++) co[m]=cosl(PI*m/(N-1));
      for (long k=0;k<N;k++) fil[k]=expl(-40.0L*powl(T(k)/N,16));
      // v -> coefficients -> (drop two highest) -> derivative coefficients -> values
      for (long s=0;s<N;s++) {
         V a(n,0), b(n+2,0);
         for (long k=0;k<N;k++) { T g=(s==0||s==N-1)?0.5L:1; T c=2*g*co[(k*s)%(2*(N-1))]/(N-1); if (k==0||k==N-1) c/=2; a[k]=c; }
         V af=a;
         a[N-1]=0; if (N>=2) a[N-2]=0;
         for (long i=N-2;i>=1;i--) b[i-1]=2*i*a[i]+b[i+1];
         b[0]/=2;
         for (long i=0;i<N;i++) { T v=0,f=0;
            for (long k=0;k<N;k++) { T ck=co[(k*i)%(2*(N-1))]; v+=b[k]*ck; f+=af[k]*fil[k]*ck; }
            D[i*n+s]=v/jac; F[i*n+s]=f; }
      }
      for (size_t i=0;i<n;i++) for (size_t k=0;k<n;k++) { T d=D[i*n+k]; for (size_t j=0;j<n;j++) D2[i*n+j]+=d*D[k*n+j]; }
   } else {
      T dx=(up-lo)/(N-1);
      for (long i=0;i<N;i++) x[i]=lo+dx*i;
      auto put=[&](V &M, long i, long first, long cnt, int der) {
         V nodes(cnt); for (long k=0;k<cnt;k++) nodes[k]=first+k-i;
         V w=weights(0,nodes,der); for (long k=0;k<cnt;k++) M[i*N+first+k]=w[k]/powl(dx,der);
      };
      for (long i=0;i<N;i++) {
         put(D,i, i<3?0:(i>N-4?N-7:i-3), 7, 1);
         if (i<3) put(D2,i,0,8,2); else if (i>N-4) put(D2,i,N-8,8,2); else put(D2,i,i-3,7,2);
         F[i*n+i]=1;
         if (i>=4 && i<N-4) { T c=1; for (int k=0;k<=8;k++) { F[i*n+i-4+k]-= ((k&1)?-c:c)/256; c=c*(8-k)/(k+1); } }
      }
   }
   nD=nD2=0;
   for (size_t i=0;i<n;i++) { T a=0,b=0; for (size_t j=0;j<n;j++) { a+=fabsl(D[i*n+j]); b+=fabsl(D2[i*n+j]); } nD=std::max(nD,a); nD2=std::max(nD2,b); }
}
void Radial::apply(const V &M, const V &v, V &o) const {
   o.assign(n,0);
   for (size_t i=0;i<n;i++) { T s=0; for (size_t j=0;j<n;j++) s+=M[i*n+j]*v[j]; o[i]=s; }
}

Sph::Sph(size_t nl_, size_t nm_, size_t nlat_, size_t nphi_) : nl(nl_), nm(nm_), nlat(nlat_), nphi(nphi_), ct(nlat), st(nlat), w(nlat), P((nl+1)*(nl+2)*nlat,0), cs(nphi), sn(nphi) {
   for (size_t i=0;i<nlat;i++) {            // Gauss-Legendre by Newton on the Legendre polynomial
      long n=long(nlat); T z=cosl(PI*(i+0.75L)/(n+0.5L)), d=1;
      for (int it=0;it<60;it++) { T a=1,b=0; for (long k=0;k<n;k++) { T c=b; b=a; a=((2*k+1)*z*b-k*c)/(k+1); } d=n*(z*a-b)/(z*z-1); T dz=a/d; z-=dz; if (fabsl(dz)<1e-20L) break; }
      ct[i]=z; st[i]=sqrtl((1-z)*(1+z)); w[i]=2/((1-z*z)*d*d);
   }
   for (size_t it=0;it<nlat;it++) {
      for (size_t m=0;m<=nl;m++) {
         // unnormalised P_l^m with phase, then the norm
         T pmm=1; for (size_t k=1;k<=m;k++) pmm*=-(2*T(k)-1)*st[it];
         T a=pmm,b=0;
         for (size_t l=m;l<=nl;l++) {
            if (l>m) { T c=((2*T(l)-1)*ct[it]*a-(T(l)+T(m)-1)*b)/(T(l)-T(m)); b=a; a=c; }
            T f=1; for (size_t k=l-m+1;k<=l+m;k++) f/=T(k);
            P[(l*(nl+2)+m)*nlat+it]=a*sqrtl((2*T(l)+1)/(4*PI)*f);
         }
      }
   }
   for (size_t j=0;j<nphi;j++) { cs[j]=cosl(2*PI*j/nphi); sn[j]=sinl(2*PI*j/nphi); }
}
T Sph::pl(size_t l, long m, size_t it) const {
   long am=m<0?-m:m; if (am>long(l)) return 0;
   T v=P[(l*(nl+2)+am)*nlat+it]; return (m<0&&(am&1))?-v:v;
}
void Sph::analyse(const T *v, V &re, V &im) const {
   re.assign((nl+1)*(nl+2),0); im=re;
   for (size_t m=0;m<=nm;m++) {
      V a(nlat,0), b(nlat,0);
      for (size_t it=0;it<nlat;it++) {
         T x=0,y=0; for (size_t j=0;j<nphi;j++) { size_t k=j*m%nphi; x+=v[it*nphi+j]*cs[k]; y-=v[it*nphi+j]*sn[k]; }
         a[it]=x*w[it]*2*PI/nphi; b[it]=y*w[it]*2*PI/nphi;
      }
      for (size_t l=m;l<=nl;l++) { T x=0,y=0; for (size_t it=0;it<nlat;it++) { T q=pl(l,long(m),it); x+=q*a[it]; y+=q*b[it]; } re[l*(nl+2)+m]=x; im[l*(nl+2)+m]=y; }
   }
}
void Sph::synth(const V &re, const V &im, T *o) const {
   for (size_t i=0;i<nlat*nphi;i++) o[i]=0;
   for (size_t it=0;it<nlat;it++) for (size_t m=0;m<=nm;m++) {
      T a=0,b=0; for (size_t l=m;l<=nl;l++) { T q=pl(l,long(m),it); a+=q*re[l*(nl+2)+m]; b+=q*im[l*(nl+2)+m]; }
      T f=m?2:1; for (size_t j=0;j<nphi;j++) { size_t k=j*m%nphi; o[it*nphi+j]+=f*(a*cs[k]-(m?b*sn[k]:0)); }
   }
}
void Sph::project(const T *v, T *o) const { V r,i; analyse(v,r,i); synth(r,i,o); }
void Sph::dphi(const T *v, T *o) const { V r,i; analyse(v,r,i);
   for (size_t l=0;l<=nl;l++) for (size_t m=0;m<=nl;m++) { T x=r[l*(nl+2)+m], y=i[l*(nl+2)+m]; r[l*(nl+2)+m]=-T(m)*y; i[l*(nl+2)+m]=T(m)*x; } synth(r,i,o); }
void Sph::lap(const T *v, T *o) const { V r,i; analyse(v,r,i);
   for (size_t l=0;l<=nl;l++) for (size_t m=0;m<=nl;m++) { r[l*(nl+2)+m]*=-T(l)*(l+1); i[l*(nl+2)+m]*=-T(l)*(l+1); } synth(r,i,o); }
void Sph::filter(const T *v, T *o) const { V r,i; analyse(v,r,i);
   for (size_t l=0;l<=nl;l++) for (size_t m=0;m<=nl;m++) { T f=expl(-40*powl(T(l)/nl,16))*expl(-40*powl(T(m)/nl,16)); r[l*(nl+2)+m]*=f; i[l*(nl+2)+m]*=f; } synth(r,i,o); }
void Sph::dtheta(const T *v, T *o) const {
   V r,i; analyse(v,r,i);
   for (size_t k=0;k<nlat*nphi;k++) o[k]=0;
   for (size_t it=0;it<nlat;it++) for (size_t m=0;m<=nm;m++) {
      T a=0,b=0;
      for (size_t l=m;l<=nl;l++) {
         long L=long(l),M=long(m);
         T q=0.5L*(sqrtl(T((L-M)*(L+M+1)))*pl(l,M+1,it)-sqrtl(T((L+M)*(L-M+1)))*pl(l,M-1,it));
         a+=q*r[l*(nl+2)+m]; b+=q*i[l*(nl+2)+m];
      }
      T f=m?2:1; for (size_t j=0;j<nphi;j++) { size_t k=j*m%nphi; o[it*nphi+j]+=f*(a*cs[k]-(m?b*sn[k]:0)); }
   }
}
void Sph::X(const T *v, T *o) const {
   V a(nlat*nphi), b(nlat*nphi); dtheta(v,a.data()); dphi(v,b.data());
   for (size_t it=0;it<nlat;it++) for (size_t j=0;j<nphi;j++) { size_t k=it*nphi+j; T y=b[k]/st[it]; o[k]=a[k]*a[k]+y*y; }
}
void Sph::power(const T *v, T *o) const {
   V r,i; analyse(v,r,i);
   for (size_t l=0;l<nl;l++) { T s=r[l*(nl+2)]*r[l*(nl+2)]; for (size_t m=1;m<=std::min(l,nm);m++) s+=2*(r[l*(nl+2)+m]*r[l*(nl+2)+m]+i[l*(nl+2)+m]*i[l*(nl+2)+m]); o[l]=s; }
}
void Sph::ladder(const T *v, int dir, T *ore, T *oim) const { // coefficients a_{l,-m} = (-1)^m conj a_{l,m}
   V r,i; analyse(v,r,i);
   for (size_t k=0;k<nlat*nphi;k++) ore[k]=oim[k]=0;
   long NM=long(nm);
   for (size_t l=0;l<=nl;l++) {
      long L=long(l), mm=std::min(L,NM);
      for (long m=-mm;m<=mm;m++) {
         long tm=m+dir; if (tm>mm||tm<-mm) continue;
         T cr,ci; if (m>=0) { cr=r[l*(nl+2)+m]; ci=i[l*(nl+2)+m]; } else { T s=(m&1)?-1:1; cr=s*r[l*(nl+2)-m]; ci=-s*i[l*(nl+2)-m]; }
         T f=sqrtl(T(dir>0?(L-m)*(L+m+1):(L+m)*(L-m+1))); cr*=f; ci*=f;
         for (size_t it=0;it<nlat;it++) { T q=pl(l,tm,it); for (size_t j=0;j<nphi;j++) {
            long k=((long(j)*tm)%long(nphi)+long(nphi))%long(nphi); ore[it*nphi+j]+=q*(cr*cs[k]-ci*sn[k]); oim[it*nphi+j]+=q*(cr*sn[k]+ci*cs[k]); } }
      }
   }
}
T Sph::ylm(size_t l, size_t m, size_t it, size_t ip) const { return (m?2:1)*pl(l,long(m),it)*cs[ip*m%nphi]; }

Model::Model(const Par &q, bool ch, bool cg) : p(q), cheb(ch), contig(cg), rad(q.nx,ch,q.Rmin,q.Rmax), sph(q.nl,q.nm,q.nlat,q.nphi), N(q.nx*q.nlat*q.nphi), inv_r(q.nx), r(q.nx), R(q.nx), ct2(q.nlat) {
   for (size_t i=0;i<p.nx;i++) {
      R[i]=rad.x[i]; T s=1-R[i]/T(p.cl); if (fabsl(s)<1e-13L) s=0;
      inv_r[i]=s/R[i]; r[i]= s>0 ? R[i]/s : std::numeric_limits<T>::infinity();
   }
   for (size_t i=0;i<p.nlat;i++) ct2[i]=sph.ct[i]*sph.ct[i];
   tol_f=tol_q=tol_rho_=0; Mf=Mq=0; Kmin=1; Kcond=1;
}
V Model::load(const std::vector<double> &v) const {
   V o(N); for (size_t a=0;a<p.nx;a++) for (size_t t=0;t<p.nlat;t++) for (size_t f=0;f<p.nphi;f++) o[at(a,t,f)]=v[code_at(a,t,f)]; return o;
}
V Model::radial_lines(const V &M, const V &v) const {
   const size_t S=p.nlat*p.nphi; V o(N,0);
   for (size_t i=0;i<p.nx;i++) for (size_t j=0;j<p.nx;j++) { T c=M[i*p.nx+j]; if (c==0) continue; for (size_t k=0;k<S;k++) o[i*S+k]+=c*v[j*S+k]; }
   return o;
}
V Model::dR(const V &v) const { return radial_lines(rad.D,v); }
V Model::dr(const V &v) const { V o=dR(v); const size_t S=p.nlat*p.nphi; for (size_t i=0;i<p.nx;i++) { T c=powl(1-R[i]/T(p.cl),2); for (size_t k=0;k<S;k++) o[i*S+k]*=c; } return o; }
V Model::d2r(const V &v) const {
   V a=radial_lines(rad.D2,v), b=dR(v); const size_t S=p.nlat*p.nphi;
   for (size_t i=0;i<p.nx;i++) { T s=1-R[i]/T(p.cl); for (size_t k=0;k<S;k++) a[i*S+k]=a[i*S+k]*powl(s,4)+b[i*S+k]*(-2/T(p.cl))*powl(s,3); } return a; }
#define ROWS(name,call) V Model::name(const V &v) const { V o(N); const size_t S=p.nlat*p.nphi; for (size_t i=0;i<p.nx;i++) sph.call(&v[i*S],&o[i*S]); return o; }
ROWS(dphi,dphi) ROWS(lap,lap) ROWS(X,X) ROWS(angfilter,filter)
V Model::radfilter(const V &v) const { V o=radial_lines(rad.F,v); const size_t S=p.nlat*p.nphi; for (size_t k=0;k<S;k++) { o[k]=v[k]; o[(p.nx-1)*S+k]=v[(p.nx-1)*S+k]; } return o; }
V Model::power(const V &v) const { V o(p.nx*p.nl); const size_t S=p.nlat*p.nphi; for (size_t i=0;i<p.nx;i++) sph.power(&v[i*S],&o[i*p.nl]); return o; }

void Model::rhs(const V &f, const V &q, V &fk, V &qk) {
   V f1=dr(f), q1=dr(q), f2=d2r(f), fp=dphi(f), fpr=dr(fp), l=lap(f), x=X(f);
   fk=q; qk.assign(N,0);
   const T M=p.mass, a=p.spin;
   T mkv=0, mvv=0, mx=maxabs(x), mf1=maxabs(f1);
   for (size_t i=0;i<p.nx;i++) for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) {
      const size_t k=at(i,t,h); const T u=inv_r[i];
      const T Sg=1+a*a*u*u*ct2[t];                       // Sigma/r^2
      const T De=1-2*M*u+a*a*u*u;                        // Delta/r^2
      const T H=2*M*u/Sg;                                // 2Mr/Sigma
      const T box = 2*H*q1[k]+De/Sg*f2[k]+2*a*u*u/Sg*fpr[k]+u*u/Sg*l[k]+2*M*u*u/Sg*q[k]+2*(u-M*u*u)/Sg*f1[k];
      const T grad= -(1+H)*q[k]*q[k]+2*H*q[k]*f1[k]+De/Sg*f1[k]*f1[k]+2*a*u*u/Sg*f1[k]*fp[k]+u*u/Sg*x[k];
      const bool pole=p.km1!=0;                          // without the coefficient there is no pole at f=-1
      const T K1=pole ? p.km1/(1+f[k]) : 0, K2=pole ? p.km1/((1+f[k])*(1+f[k])) : 0;
      const T K=p.k0+K1+p.k1*f[k]+p.k2*f[k]*f[k]/2, Kp=-K2+p.k1+p.k2*f[k];
      const T Vp=p.V2*f[k]+p.V3*f[k]*f[k]/2+p.V4*f[k]*f[k]*f[k]/6;
      qk[k]=(box+Kp/K/2*grad-Vp/K)/(1+H);
      mkv=std::max(mkv,fabsl(Kp/K)); mvv=std::max(mvv,fabsl(Vp/K));
      Kmin=std::min(Kmin,fabsl(K)); if (p.km1!=0) Kmin=std::min(Kmin,fabsl(1+f[k]));
      const T c=(fabsl(T(p.k0))+fabsl(K1)+fabsl(p.k1*f[k])+fabsl(p.k2*f[k]*f[k]/2)+fabsl(K2)+fabsl(T(p.k1))+fabsl(p.k2*f[k])
               +fabsl(p.V2*f[k])+fabsl(p.V3*f[k]*f[k]/2)+fabsl(p.V4*f[k]*f[k]*f[k]/6))/fabsl(K);
      Kcond=std::max(Kcond,c);
   }
   const T mf=maxabs(f), mq=maxabs(q), u=*std::max_element(inv_r.begin(),inv_r.end());
   Mf=std::max(Mf,mf); Mq=std::max(Mq,mq);
   const T nl=p.nl+1, lin = rad.nD2*mf + rad.nD*mf*(1+2*fabsl(a)*u*u*nl+2*u) + 2*rad.nD*mq + u*u*nl*nl*mf + mq;
   const T non = mkv*((mq+mf1)*(mq+rad.nD*mf+nl*mf) + u*u*(mx+nl*nl*mf*sqrtl(mx))) + mvv;
   tol_q=std::max(tol_q,EPSC*T(p.dt)*(lin+non));
}
void Model::step(const V &f, const V &q, V &fn, V &qn) {
   const T h=p.dt; V k1,l1,k2,l2,k3,l3,k4,l4,a(N),b(N);
   tol_f=tol_q=0; Mf=Mq=0; Kmin=1; Kcond=1;
   rhs(f,q,k1,l1);
   for (size_t i=0;i<N;i++) { a[i]=f[i]+h/2*k1[i]; b[i]=q[i]+h/2*l1[i]; } rhs(a,b,k2,l2);
   for (size_t i=0;i<N;i++) { a[i]=f[i]+h/2*k2[i]; b[i]=q[i]+h/2*l2[i]; } rhs(a,b,k3,l3);
   for (size_t i=0;i<N;i++) { a[i]=f[i]+h*k3[i]; b[i]=q[i]+h*l3[i]; } rhs(a,b,k4,l4);
   fn.resize(N); qn.resize(N);
   for (size_t i=0;i<N;i++) { fn[i]=f[i]+h/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); qn[i]=q[i]+h/6*(l1[i]+2*l2[i]+2*l3[i]+l4[i]); }
   tol_f = EPSC*(Mf+h*Mq) + h*tol_q;
   tol_q = tol_q + EPSC*Mq;
}
V Model::rho(const V &f, const V &q) const {
   V f1=dr(f), fp=dphi(f), x=X(f), o(N); const T M=p.mass, a=p.spin;
   for (size_t i=0;i<p.nx;i++) for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) {
      const size_t k=at(i,t,h); const T u=inv_r[i], Sg=1+a*a*u*u*ct2[t], H=2*M*u/Sg;
      const T K=p.k0+(p.km1!=0 ? p.km1/(1+f[k]) : 0)+p.k1*f[k]+p.k2*f[k]*f[k]/2;
      o[k]=K/2*((1+H)*q[k]*q[k]+2*H*q[k]*f1[k]+((1+2*M*u+a*a*u*u)/Sg-4*M*u/(2*M*u+Sg))*f1[k]*f1[k]+2*a*u*u/Sg*f1[k]*fp[k]+u*u/Sg*x[k])
           +p.V2*f[k]*f[k]/2+p.V3*f[k]*f[k]*f[k]/6+p.V4*powl(f[k],4)/24;
   }
   return o;
}
T Model::residual(const V &f0, const V &f1, const V &q) const { T s=0; for (size_t i=0;i<N;i++) { T d=q[i]-(f1[i]-f0[i])/T(p.dt); s+=d*d; } return sqrtl(s/N); }
T Model::tv(const V &f) const {
   T s=0; for (size_t i=0;i+1<p.nx;i++) for (size_t t=0;t+1<p.nlat;t++) for (size_t h=0;h+1<p.nphi;h++) {
      T c=f[at(i,t,h)], x=f[at(i+1,t,h)]-c, y=f[at(i,t+1,h)]-c, z=f[at(i,t,h+1)]-c; s+=sqrtl(x*x+y*y+z*z); }
   return s/N;
}
void Model::pulse(V &f, V &q) const {
   f.assign(N,0); q.assign(N,0); T mx=0;
   T wd=fabsl(T(p.ru)-T(p.rl)); if (wd<1e-14L) wd=1e-14L;
   for (size_t i=0;i<p.nx;i++) {
      T x=r[i]; if (!(x<p.ru && x>p.rl)) continue;
      T s=(x-p.rl)/wd, e=(p.ru-x)/wd, B=expl(-1/s)*expl(-2/e), F=powl(s,4)*powl(e,4)*B;
      T dF=(4*powl(s,3)*powl(e,4)-4*powl(s,4)*powl(e,3)+powl(s,2)*powl(e,4)-2*powl(s,4)*powl(e,2))*B/wd;
      for (size_t t=0;t<p.nlat;t++) for (size_t h=0;h<p.nphi;h++) {
         T y=sph.ylm(p.l_ang,p.m_ang,t,h); size_t k=at(i,t,h);
         f[k]=F*y; q[k]=(p.dir==1?dF:p.dir==2?-dF:0)*y; mx=std::max(mx,fabsl(f[k]));
      }
   }
   if (mx>1e-16L) { T c=T(p.amp)/mx; for (size_t k=0;k<N;k++) { f[k]*=c; q[k]*=c; } }
}
T Model::tol_of(int op, T m) const {
   const T nl=p.nl+1;
   switch (op) {
      case 0: case 1: return EPSC*(rad.nD*m+m);
      case 2: return EPSC*((rad.nD2+rad.nD)*m+m);
      case 3: return EPSC*nl*m;
      case 4: return EPSC*nl*nl*m;
      case 5: return EPSC*nl*nl*m*m;
      case 7: return EPSC*m*m*10;
      default: return EPSC*m;
   }
}
}
