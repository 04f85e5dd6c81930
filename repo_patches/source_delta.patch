From 7d9153376a12b43d783f2a65e5be21221f9e1b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 01/10] fix: Grid::set_row_ph writes the whole azimuthal line
 (loop over nphi, not nlat)

---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..4f04f12 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
-- 
2.43.0


From e3bc8eaf4fcf9a03d1ea53dcfdb8f7389dc53a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 02/10] fix: Grid::get_row_R_ph asserts the size of the slab it
 writes (nx*nphi)

---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 4f04f12..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From 0e6c8b452d6cd6dd492896ab82cb55c00b3f2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 03/10] fix: Grid::filter applies the radial filter, keeping
 the radial end points

---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From f6d625bef78f91018c9fe6181065f0ad446f597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 04/10] fix: Sphere operators act on the highest retained
 degree and order too

---
 Source/sphere.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..3a9c46c 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;            l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;            l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;            l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
-- 
2.43.0


From 897bd6d14a9102255b567f220f142530ddd51ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 05/10] fix: Sphere::power_spectrum counts the highest retained
 order

---
 Source/sphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 3a9c46c..acd008d 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 4f4f7f99ef5e2806f9b8806c7be07817d5dc7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/10] fix: Scalar_eom::set_rho no longer halves the kinetic
 part twice (the tables carry the 1/2)

---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From c969fd5d821796380e83f233f09bf07baf0dbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 07/10] fix: sign of the (d_v psi)(d_r psi) term in the energy
 density n^mu n^nu T_mu_nu

---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..c5d4c54 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      = -2.*m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
-- 
2.43.0


From 0fb1657fd27fbb50f6b1160b66e76bb4bc9c3f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 08/10] fix: compact_pulse sets every radial point (with
 Chebyshev the last point is the horizon, not infinity)

---
 Source/initial_data.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..1777f66 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,17 +36,20 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx; ix++) {
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
 
       const double r = grid.R_to_r(R_th_ph[0]);
-      double bump = 0.0;
-
-      if ((r<ru) && (r>rl)) {
-         bump = exp(-1.0*width/(r-rl))*exp(-2.0*width/(ru-r));
+      /* zero outside of the support (this includes r=infty) */
+      if (!((r<ru) && (r>rl))) {
+         f[grid.indx_R_th_ph(ix,it,ip)] = 0;
+         p[grid.indx_R_th_ph(ix,it,ip)] = 0;
+         continue;
       }
+      const double bump = exp(-1.0*width/(r-rl))*exp(-2.0*width/(ru-r));
+
       f[grid.indx_R_th_ph(ix,it,ip)] = pow((r-rl)/width,4)*pow((ru-r)/width,4)*bump; 
 
       const double partial_r_f = (
-- 
2.43.0


From 1298bdbb1ba516b269715383a16417835bf95e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 09/10] fix: a missing parameter stops the program with a
 failure status

---
 Source/params.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..2fe3a58 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -83,7 +83,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -114,7 +114,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -144,5 +144,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
-- 
2.43.0


From a30722fc7cb40062d96f7fbcf26ed3b84a5d15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 10/10] fix: destroying one Cheb no longer invalidates the
 plans of the others (no fftw_cleanup)

---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0

