From 2cd2c1339e969a39ff622a80c87a4726d32ff53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 01/10] fix: Cheb::to_po no longer halves the coefficients it
 is given

---
 Source/cheb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..1e5d374 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -76,11 +76,13 @@ void Cheb::to_po(std::vector<double> &ch, std::vector<double> &po) const
    assert(po.size()==_n);
    /*
     * normalize coefficients for Fourier transform 
+    * (on a copy: the input coefficients are left as they are)
     */
+   std::vector<double> ch_tmp(ch);
    for (size_t i=1; i<_n-1; i++) {
-      ch[i] /= 2.0;
+      ch_tmp[i] /= 2.0;
    }
-   fftw_execute_r2r(_plan_dct, ch.data(), po.data());
+   fftw_execute_r2r(_plan_dct, ch_tmp.data(), po.data());
 }
 /*==========================================================================*/
 /* Compute derivative over interval */
-- 
2.43.0


From e9e329db7701553820019684e6bd8fce24ce83dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 02/10] fix: destroying a Cheb no longer invalidates the FFTW
 plans of other objects

---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index 1e5d374..9afbbab 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From e941f361886526e16a7f83a68a61111ca198c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 03/10] fix: azimuthal grid rows have nphi points

---
 Source/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From de07cdc4775a686052065748e21b633b90c30c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 04/10] fix: Grid::filter applies the radial filter, with the
 boundaries kept

---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From ec678f7634861485d9d6545a06215c6a91fee178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 05/10] fix: energy density is n^mu n^nu T_mu_nu: drop the
 second factor of 1/2, sign of the p*df/dr term

---
 Source/scalar_eom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..737b332 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      =-2. *m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From 5749c62c70c98f7430a9e1f409de135bfbdef3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 06/10] fix: a missing parameter ends the program with a
 failure status

---
 Source/params.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..214f1e9 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iomanip>
 #include <fstream>
 #include <iostream>
@@ -83,7 +84,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -114,7 +115,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -144,5 +145,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
-- 
2.43.0


From 14d2e7e0eddd84a1ee91a67f44421ec097c451cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 07/10] fix: initial pulse covers every radial grid point in
 Chebyshev mode

---
 Source/initial_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..9d8ed3c 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx; ix++) { /* r=infty is outside the pulse, so the bump vanishes there */
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
-- 
2.43.0


From 8f4f0c280cb03714ba19ad0a04ba674515acf761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 08/10] fix: angular operators include the highest l and m the
 transforms resolve

---
 Source/sphere.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..f7f2bdf 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From f44db1fa1b6da1347a689274acc8c7a5dafcbfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 09/10] fix: raising and lowering operators act on all l, with
 the coefficient order SHTns uses

---
 Source/sphere.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index f7f2bdf..06fbbf1 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -265,11 +265,12 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
-      for (int m=int(l); m>-int(l); m--) {
-         Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
+   for (size_t l=0; l<=_lmax; l++) {
+      const int mm = std::min(l,_mmax);
+      for (int m=mm; m>-mm; m--) {
+         Ylm_tmp[LM_cplx(_shtns,l,m)] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[LM_cplx(_shtns,l,m-1)];
       }
-      Ylm_tmp[l*(l+1)+(-l)] = 0;
+      Ylm_tmp[LM_cplx(_shtns,l,-mm)] = 0;
    }
    SH_to_spat_cplx(_shtns, Ylm_tmp, Sph_tmp);
 
@@ -299,11 +300,12 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
-      for (int m=-int(l); m<int(l); m++) {
-         Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
+   for (size_t l=0; l<=_lmax; l++) {
+      const int mm = std::min(l,_mmax);
+      for (int m=-mm; m<mm; m++) {
+         Ylm_tmp[LM_cplx(_shtns,l,m)] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[LM_cplx(_shtns,l,m+1)];
       }
-      Ylm_tmp[l*(l+1)+(l)] = 0;
+      Ylm_tmp[LM_cplx(_shtns,l,mm)] = 0;
    }
    SH_to_spat_cplx(_shtns, Ylm_tmp, Sph_tmp);
 
-- 
2.43.0


From 45a9c4c6030e8b1a8d94d676d633af570875c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:53 +0000
Subject: [PATCH 10/10] fix: complex spherical harmonic coefficients the
 transform does not resolve are zero, not uninitialised

---
 Source/sphere.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 06fbbf1..eb1f924 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -158,6 +158,10 @@ void Sphere::to_Ylm(const std::vector<cplx> &sph, std::vector<cplx> &ylm) const
    for (size_t i=0; i<_nSph; i++) {
       Sph_tmp[i] = sph[i];
    }
+   /* for _mmax<_lmax the transform sets fewer than (_lmax+1)^2 entries */
+   for (size_t i=0; i<pow(_lmax+1,2); i++) {
+      Ylm_tmp[i] = 0; 
+   }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp); 
 
    for (size_t i=0; i<pow(_lmax+1,2); i++) {
-- 
2.43.0

