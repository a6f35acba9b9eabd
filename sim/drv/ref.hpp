// Reference model: the documented mathematics, in long double, by dense sums.  Shares no code with
// the repository or with the transform stand-ins.
#ifndef SIM_REF_HPP
#define SIM_REF_HPP
#include <cstddef>
#include <vector>
namespace ref {
typedef long double T;
typedef std::vector<T> V;

struct Radial {               // one-dimensional operators on n points of [lo,up]
   size_t n; bool cheb; T lo, up; V x, D, D2, F;   // D, D2, F: dense n*n; F = documented dissipation
   T nD, nD2;                 // infinity norms
   Radial(size_t n, bool cheb, T lo, T up);
   void apply(const V &M, const V &v, V &o) const;
};
struct Sph {                  // (theta,phi) stored [it*nphi+ip]
   size_t nl, nm, nlat, nphi; V ct, st, w, P, cs, sn;   // P: (l,m,it), l<=nl, m<=nl+1
   Sph(size_t nl, size_t nm, size_t nlat, size_t nphi);
   T pl(size_t l, long m, size_t it) const;
   void analyse(const T *v, V &re, V &im) const;        // coefficients, m>=0, index l*(nl+2)+m
   void synth(const V &re, const V &im, T *o) const;
   void project(const T *v, T *o) const;
   void dphi(const T *v, T *o) const;
   void dtheta(const T *v, T *o) const;
   void lap(const T *v, T *o) const;
   void X(const T *v, T *o) const;
   void filter(const T *v, T *o) const;
   void power(const T *v, T *o) const;                  // nl rows
   void ladder(const T *v, int dir, T *re, T *im) const; // L+ (dir=1) / L- (dir=-1)
   T ylm(size_t l, size_t m, size_t it, size_t ip) const; // value of the real field with coefficient 1 at (l,m)
};
struct Par {
   size_t nx,nl,nm,nlat,nphi,nt,save; double dt,cl,Rmax,Rmin,mass,spin,km1,k0,k1,k2,V2,V3,V4,amp,rl,ru; int l_ang,m_ang; int dir; // 0 sym 1 in 2 out
};
struct Model {
   Par p; bool cheb, contig; Radial rad; Sph sph; size_t N;
   V inv_r, r, R;  // per radial point
   V ct2;          // cos^2 theta
   Model(const Par &p, bool cheb, bool contig);
   size_t at(size_t ix, size_t it, size_t ip) const { return (ix*p.nlat+it)*p.nphi+ip; }
   size_t code_at(size_t ix, size_t it, size_t ip) const {
      return contig ? p.nphi*p.nlat*ix+p.nlat*ip+it : p.nlat*p.nphi*ix+p.nphi*it+ip; }
   V load(const std::vector<double> &v) const;
   // operators on the whole grid
   V dR(const V&) const; V dr(const V&) const; V d2r(const V&) const; V dphi(const V&) const; V lap(const V&) const; V X(const V&) const;
   V angfilter(const V&) const; V radfilter(const V&) const; V power(const V&) const;
   void rhs(const V &f, const V &q, V &fk, V &qk);
   void step(const V &f, const V &q, V &fn, V &qn);     // RK4, no filter
   V rho(const V &f, const V &q) const;
   T residual(const V &f0, const V &f1, const V &q) const;
   T tv(const V &f) const;
   void pulse(V &f, V &q) const;
   // tolerances (absolute), set by step()/rho()
   T tol_f, tol_q, tol_rho_; T Mf,Mq,Kmin,Kcond;   // largest field and momentum, smallest and worst conditioned kinetic prefactor met by step()
   T tol_of(int op, T maxv) const;  // 0 dR 1 dr 2 d2r 3 dphi 4 lap 5 X 6 angfilter 7 power 8 project
   V radial_lines(const V &M, const V &v) const;
};
T maxabs(const V&);
extern T EPSC;   // tolerance constant times double epsilon
}
#endif
