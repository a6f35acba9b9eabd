From 0f0fba16d9baef19db2fb463899c10114cded782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 01/11] fix: include the highest degree and order in the
 spherical operators

The Laplacian, d/dphi, ladder operators, low pass filter and power spectrum
skipped the coefficients with l=lmax and m=mmax: those modes came out of each
operator multiplied by one, and the filter never damped them.
---
 Source/sphere.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..f595c1e 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 6a0cf267738b8df827726235f06ed448764648ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 02/11] fix: row accessors along phi use the number of phi
 points

set_row_ph copied nlat instead of nphi values: it read past its input and
wrote outside its row when nlat>nphi and lost values when nlat<nphi.
get_row_R_ph asserted the wrong output size.
---
 Source/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From d1a7096795aebe5e32606650c0b1ac06dc6dd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 03/11] fix: count the factor one half of the energy density
 once

The coefficients of the kinetic part already contain it.
---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From b354f5d9d22fbf4eb437f4e571e5f7a04a34cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 04/11] fix: set the initial pulse at every radial point

The last point was left out as spatial infinity, but on the Chebyshev grid it
is the inner boundary: a pulse reaching the horizon had a hole there.
---
 Source/initial_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..845fb34 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx;   ix++) { /* the pulse is zero at r=infty */
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
-- 
2.43.0


From bfa9e42654f6e0b25b0f51fc3b3605c384a46243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 05/11] fix: destroying one Cheb object leaves the plans of the
 others valid

fftw_cleanup releases the planner data of every plan in the program, after
which the plans of all other objects are undefined.
---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From 0097db200f2ef01035d937cf96b1af57dfe937e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 06/11] fix: a missing parameter ends the program with a
 failure status

---
 Source/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..32f24a5 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -83,7 +83,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(1);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -114,7 +114,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(1);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -144,5 +144,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(1);
 }
-- 
2.43.0


From 3584f1fb520d2680ab81882eb1576892e1b30dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 07/11] fix: reject parameter values that are not entirely a
 number

std::stoi and std::stod accept any text that begins with a number: an nt of
1e4 was read as 1, an l_ang of 2.5 as 2.
---
 Source/params.cpp | 78 +++++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index 32f24a5..4d3a5c6 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <climits>
 #include <iomanip>
 #include <fstream>
 #include <iostream>
@@ -7,50 +8,75 @@
 
 #include "params.hpp"
 
+/*========================================================================*/
+/* The whole of the text has to be the number: std::stoi would read 1e4 as 1. */
+/*========================================================================*/
+namespace
+{
+double to_double(const std::string &text)
+{
+   size_t used = 0;
+   const double val = std::stod(text, &used);
+   if (used!=text.size()) {
+      std::cout<<"ERROR: not a number: "<<text<<std::endl;
+      std::quick_exit(1);
+   }
+   return val;
+}
+int to_int(const std::string &text)
+{
+   const double val = to_double(text);
+   if (val<INT_MIN || val>INT_MAX || val!=int(val)) {
+      std::cout<<"ERROR: not an integer: "<<text<<std::endl;
+      std::quick_exit(1);
+   }
+   return int(val);
+}
+}
 /*========================================================================*/
 Params::Params(const std::string param_file)
 {
    std::cout<<"Initializing Params"<<std::endl;
-   _nt   = std::stoi(_read(param_file,"nt"));
-   _nx   = std::stoi(_read(param_file,"nx"));
-   _nl   = std::stoi(_read(param_file,"nl"));
-   _nm   = std::stoi(_read(param_file,"nm"));
-   _nlat = std::stoi(_read(param_file,"nlat"));
-   _nphi = std::stoi(_read(param_file,"nphi"));
+   _nt   = to_int(_read(param_file,"nt"));
+   _nx   = to_int(_read(param_file,"nx"));
+   _nl   = to_int(_read(param_file,"nl"));
+   _nm   = to_int(_read(param_file,"nm"));
+   _nlat = to_int(_read(param_file,"nlat"));
+   _nphi = to_int(_read(param_file,"nphi"));
 
-   _t_step_save = std::stoi(_read(param_file,"t_step_save"));
+   _t_step_save = to_int(_read(param_file,"t_step_save"));
 
-   _dt = std::stod(_read(param_file,"dt"));
+   _dt = to_double(_read(param_file,"dt"));
 
-   _cl =   std::stod(_read(param_file,"compactification_length"));
+   _cl =   to_double(_read(param_file,"compactification_length"));
 
-   _Rmax =   std::stod(_read(param_file,"Rmax"));
-   _Rmin =   std::stod(_read(param_file,"Rmin"));
+   _Rmax =   to_double(_read(param_file,"Rmax"));
+   _Rmin =   to_double(_read(param_file,"Rmin"));
 
-   _bh_mass = std::stod(_read(param_file,"black_hole_mass"));
-   _bh_spin = std::stod(_read(param_file,"black_hole_spin"));
+   _bh_mass = to_double(_read(param_file,"black_hole_mass"));
+   _bh_spin = to_double(_read(param_file,"black_hole_spin"));
    /*---------------------------------------------------------------------*/
    /* for the potentials */
-   _km1 = std::stod(_read(param_file,"km1"));
-   _k0  = std::stod(_read(param_file,"k0"));
-   _k1  = std::stod(_read(param_file,"k1"));
-   _k2  = std::stod(_read(param_file,"k2"));
-
-   _V2 = std::stod(_read(param_file,"V2"));
-   _V3 = std::stod(_read(param_file,"V3"));
-   _V4 = std::stod(_read(param_file,"V4"));
+   _km1 = to_double(_read(param_file,"km1"));
+   _k0  = to_double(_read(param_file,"k0"));
+   _k1  = to_double(_read(param_file,"k1"));
+   _k2  = to_double(_read(param_file,"k2"));
+
+   _V2 = to_double(_read(param_file,"V2"));
+   _V3 = to_double(_read(param_file,"V3"));
+   _V4 = to_double(_read(param_file,"V4"));
    /*---------------------------------------------------------------------*/
    /* for the initial data */
    _id = _read(param_file,"initial_data_type");
 
    _initial_data_direction = _read(param_file,"initial_data_direction");
 
-   _amp = std::stod(_read(param_file,"amp"));
-   _rl = std::stod(_read(param_file,"rl"));
-   _ru = std::stod(_read(param_file,"ru"));
+   _amp = to_double(_read(param_file,"amp"));
+   _rl = to_double(_read(param_file,"rl"));
+   _ru = to_double(_read(param_file,"ru"));
 
-   _l_ang = std::stoi(_read(param_file,"l_ang"));
-   _m_ang = std::stoi(_read(param_file,"m_ang"));
+   _l_ang = to_int(_read(param_file,"l_ang"));
+   _m_ang = to_int(_read(param_file,"m_ang"));
    std::cout<<"Finished initializing Params"<<std::endl;
 }
 /*========================================================================*/
-- 
2.43.0


From 79f4217874b5920b66c557ebd65e090478f9bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 08/11] fix: report snapshot files that could not be written
 completely

Only a failing open was reported: a full disk or an I/O error left a cut-off
file behind without any notice.
---
 Source/io.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/Source/io.cpp b/Source/io.cpp
index a9c8cce..4653007 100644
--- a/Source/io.cpp
+++ b/Source/io.cpp
@@ -14,6 +14,19 @@ namespace
    std::vector<std::string> _labels_R_l   = {"R",   "l",     "log(value)"};
    std::vector<std::string> _labels_n_l   = {"n",   "l",     "log(value)"};
    std::vector<std::string> _labels_x_y_z = {"x", "y", "z",  "value"};
+/*===========================================================================*/
+/* a full disk or an I/O error only shows in the state of the stream */
+/*===========================================================================*/
+   void close(std::ofstream &out, const std::string &file_name)
+   {
+      const bool opened= out.is_open();
+      out.close();
+      if (opened && out.fail()) {
+         std::cout
+            <<"ERROR(Csv::write): "+file_name+" is incomplete"
+            <<std::endl;
+      }
+   }
 }   
 /*===========================================================================*/
 void write(
@@ -37,7 +50,7 @@ void write(
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
+   close(out, file_name);
 }
 /*===========================================================================*/
 /* f_{n,l}, with l = sqrt(Sum_m f_{l,m}) */
@@ -81,7 +94,7 @@ void write_n_psl(
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
+   close(out, file_name);
 }
 #endif
 /*===========================================================================*/
@@ -123,7 +136,7 @@ void write_R_psl(
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
+   close(out, file_name);
 }
 /*===========================================================================*/
 inline double magnitude(const std::vector<double> &v)
@@ -178,7 +191,7 @@ void write_x_y_z(
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
+   close(out, file_name);
 }
 /*===========================================================================*/
 }; /* Csv */
-- 
2.43.0


From d9ead8fd683337943463d4efa4faa374b4b2681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 09/11] fix: build each executable from objects of its own
 method and flags

config.py compiled the finite difference executable from the objects of the
Chebyshev one, and ignored failures.
---
 .gitignore      |  1 +
 Source/Makefile | 37 ++++++++++++++++++++++++++++++-------
 config.py       |  4 ++--
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/.gitignore b/.gitignore
index a0be7d8..71f574b 100644
--- a/.gitignore
+++ b/.gitignore
@@ -4,3 +4,4 @@
 *.run
 runscript.py
 __pycache__
+.cflags
diff --git a/Source/Makefile b/Source/Makefile
index 695e837..aa907c8 100644
--- a/Source/Makefile
+++ b/Source/Makefile
@@ -22,11 +22,11 @@ CFLAGS += -DNDEBUG
 endif
 
 ifeq ($(use_cheb),true) 
-CFLAGS += -DUSE_CHEB 
-BIN_NAME = default_cheb.run
+METHOD = cheb
 else
-BIN_NAME = default_fd.run
+METHOD = fd
 endif
+BIN_NAME = default_$(METHOD).run
 
 ifeq ($(use_contiguous_longitudes),true) 
 CFLAGS += -DSHTNS_CONTIGUOUS_LONGITUDES
@@ -62,13 +62,36 @@ DEPS = params.hpp \
        initial_data.hpp \
        scalar_eom.hpp
 #=============================================================================
-%.run: $(OBJ) 
-	$(CC) -o $(BIN)/$@ $^ $(SHTNS_INC) $(SHTNS_LIB) $(CFLAGS)
+## The radial method goes with the name of the executable, and each method
+## has object files of its own.
 
-%.o: %.cpp $(DEPS)
+LINK = $(CC) -o $(BIN)/$@ $^ $(SHTNS_INC) $(SHTNS_LIB) $(CFLAGS)
+
+default_cheb.run: $(OBJ:.o=_cheb.o)
+	$(LINK)
+
+default_fd.run: $(OBJ:.o=_fd.o)
+	$(LINK)
+
+%.run: $(OBJ:.o=_$(METHOD).o)
+	$(LINK)
+
+%_cheb.o: %.cpp $(DEPS) .cflags
+	$(CC) $(CFLAGS) -DUSE_CHEB $(SHTNS_INC) $(SHTNS_LIB) -c -o $@ $<
+
+%_fd.o: %.cpp $(DEPS) .cflags
 	$(CC) $(CFLAGS) $(SHTNS_INC) $(SHTNS_LIB) -c -o $@ $<
 
+## Changes only when the flags differ from those of the last build, which makes
+## the objects compiled with other flags out of date.
+
+.cflags: FORCE
+	@echo '$(CC) $(CFLAGS)' | cmp -s - $@ || echo '$(CC) $(CFLAGS)' > $@
+
+.PHONY: FORCE
+FORCE:
+
 #=============================================================================
 .PHONY: clean
 clean:
-	$(RM) *.o
+	$(RM) *.o .cflags
diff --git a/config.py b/config.py
index 6ad5508..f8a1aff 100755
--- a/config.py
+++ b/config.py
@@ -20,14 +20,14 @@ args = parser.parse_args()
 print("=====================================================")
 print("Compiling radial Chebyshev executable")
 print("=====================================================")
-subprocess.call(
+subprocess.check_call(
       'make debug={} profile={} use_cheb=true use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
       )
 print("=====================================================")
 print("Compiling radial finite difference executable")
 print("=====================================================")
-subprocess.call(
+subprocess.check_call(
       'make debug={} profile={} use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
       )
-- 
2.43.0


From 7ad53efdc239a3ca2718105c1efc2a23f7f6649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 10/11] fix: do not launch a run whose recompilation failed

The clean target did not exist either, so nothing was recompiled.
---
 sim_class.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sim_class.py b/sim_class.py
index 19b5c61..42bec4c 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,5 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      subprocess.check_call('make clean_Source',shell=True)
+      subprocess.check_call('make '+self.bin_name,shell=True)
-- 
2.43.0


From df150e195e9f7ceb5e860830069f2a75c0d5f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:05 +0000
Subject: [PATCH 11/11] fix: no pole in the kinetic function when its
 coefficient is zero

With km1=0 the term km1/(f+1) was 0/0 wherever the field is exactly -1
(a pulse of amplitude -1, for instance): the fields and the energy
density became NaN.
---
 Source/scalar_eom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..d3e20e5 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -173,12 +173,12 @@ void Scalar_eom::set_k(
    for (size_t i=0; i<_n; i++) {
       const double inverse_k = 1.0/( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0 : _km1/(f[i]+1))
          +  _k1*f[i]
          +  (_k2/2.0)*pow(f[i],2)
          );
       const double kprime = 
-      -  _km1/pow(f[i]+1,2)
+      -  ((_km1==0) ? 0 : _km1/pow(f[i]+1,2))
       +  _k1
       +  _k2*f[i]
       ;
@@ -332,7 +332,7 @@ void Scalar_eom::set_rho(
    for (size_t i=0; i<_n; i++) {
       const double k = ( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0 : _km1/(f[i]+1))
          +  _k1*f[i]
          +  (_k2/2.)*pow(f[i],2)
          );
-- 
2.43.0

