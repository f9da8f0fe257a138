From 4e12daf66ee2ea9eaef62ea70f93ac01f169f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 01/22] fix: do not modify the caller's argument in Fortran
 dcl2-dcl6 and dli4

---
 src/fortran/Cl2.f90 |  8 +++++---
 src/fortran/Cl3.f90 |  8 +++++---
 src/fortran/Cl4.f90 |  8 +++++---
 src/fortran/Cl5.f90 |  8 +++++---
 src/fortran/Cl6.f90 |  8 +++++---
 src/fortran/Li4.f90 | 25 +++++++++++++------------
 6 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..09b3499 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,15 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(theta)
   implicit none
-  double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
+  double precision :: theta, x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
   double precision, parameter :: cp(4) = (/ &
@@ -44,6 +44,8 @@ double precision function dcl2(x)
 
   sgn = 1
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..d217ed6 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,15 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(theta)
   implicit none
-  double precision :: x, y, z, z2, z4, p, q, p0, p1
+  double precision :: theta, x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -43,6 +43,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..48be74d 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,15 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(theta)
   implicit none
-  double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
+  double precision :: theta, x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -45,6 +45,8 @@ double precision function dcl4(x)
 
   sgn = 1
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..be9354e 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,15 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(theta)
   implicit none
-  double precision :: x, y, z, z2, z4, p, q, p0, p1
+  double precision :: theta, x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
   double precision, parameter :: zeta5 = 1.0369277551433699D0
@@ -44,6 +44,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..6da3637 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,15 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(theta)
   implicit none
-  double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
+  double precision :: theta, x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -44,6 +44,8 @@ double precision function dcl6(x)
 
   sgn = 1
 
+  x = theta
+
   if (x .lt. 0) then
      x = -x
      sgn = -1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..cdc0e37 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -109,16 +109,16 @@ end function dli4_one
 !*********************************************************************
 double precision function dli4(x)
   implicit none
-  double precision :: x, app, rest, sgn, l, l2
+  double precision :: x, y, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
-  ! transform x to [-1,1]
+  ! transform x to y in [-1,1]
   if (x .lt. -1) then
      l = log(-x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = -7.0D0/4*zeta4 + l2*(-0.5D0*zeta2 - 1.0D0/24*l2)
      sgn = -1
   elseif (x .eq. -1) then
@@ -128,6 +128,7 @@ double precision function dli4(x)
      dli4 = x
      return
   elseif (x .lt. 1) then
+     y = x
      rest = 0
      sgn = 1
   elseif (x .eq. 1) then
@@ -136,19 +137,19 @@ double precision function dli4(x)
   else ! x > 1
      l = log(x)
      l2 = l**2
-     x = 1/x
+     y = 1/x
      rest = 2*zeta4 + l2*(zeta2 - 1.0D0/24*l2)
      sgn = -1
   endif
 
-  if (x .lt. 0) then
-     app = dli4_neg(x)
-  elseif (x .lt. 0.5D0) then
-     app = dli4_half(x)
-  elseif (x .lt. 0.8D0) then
-     app = dli4_mid(x)
-  else ! x <= 1
-     app = dli4_one(x)
+  if (y .lt. 0) then
+     app = dli4_neg(y)
+  elseif (y .lt. 0.5D0) then
+     app = dli4_half(y)
+  elseif (y .lt. 0.8D0) then
+     app = dli4_mid(y)
+  else ! y <= 1
+     app = dli4_one(y)
   endif
 
   dli4 = rest + sgn*app
-- 
2.43.0


From 51a2f0d2cb2936eeecd3a4ac031e22671ab257bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 02/22] fix: set the result of Fortran cdli2 for NaN on the
 real axis

---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..a825d14 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .gt. 1) then
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     else ! rz <= 1 or rz is NaN
+        cdli2 = dcmplx(dli2(rz), iz)
+     endif
      return
   endif
 
-- 
2.43.0


From b187582ee0dba8eb0d19c73086ed60b22e7921d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 03/22] fix: Li2(-inf) is -inf, not NaN

---
 src/c/Li2.c         | 6 +++---
 src/cpp/Li2.cpp     | 6 +++---
 src/fortran/Li2.f90 | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..16c3092 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -40,7 +40,7 @@ float li2f(float x)
    if (x < -1) {
       const float l = logf(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - logf(-x));
+      r = -PI*PI/6 + l*(logf(1 - 1/x) - 0.5f*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -117,7 +117,7 @@ double li2(double x)
    if (x < -1) {
       const double l = log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - log(-x));
+      r = -PI*PI/6 + l*(log(1 - 1/x) - 0.5*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -245,7 +245,7 @@ long double li2l(long double x)
    if (x < -1) {
       const long double l = logl(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - logl(-x));
+      r = -PI*PI/6 + l*(logl(1 - 1/x) - 0.5L*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..9973eb6 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -35,7 +35,7 @@ float Li2(float x) noexcept
    if (x < -1) {
       const float l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5f*l - std::log(-x));
+      r = -PI*PI/6 + l*(std::log(1 - 1/x) - 0.5f*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -112,7 +112,7 @@ double Li2(double x) noexcept
    if (x < -1) {
       const double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5*l - std::log(-x));
+      r = -PI*PI/6 + l*(std::log(1 - 1/x) - 0.5*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
@@ -239,7 +239,7 @@ long double Li2(long double x) noexcept
    if (x < -1) {
       const long double l = std::log(1 - x);
       y = 1/(1 - x);
-      r = -PI*PI/6 + l*(0.5L*l - std::log(-x));
+      r = -PI*PI/6 + l*(std::log(1 - 1/x) - 0.5L*l);
       s = 1;
    } else if (x == -1) {
       return -PI*PI/12;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index a825d14..6577c26 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -40,7 +40,7 @@ double precision function dli2(x)
    if (x .lt. -1) then
       l = log(1 - x)
       y = 1/(1 - x)
-      r = -PI**2/6 + l*(0.5D0*l - log(-x))
+      r = -PI**2/6 + l*(log(1 - 1/x) - 0.5D0*l)
       s = 1
    elseif (x .eq. -1) then
       dli2 = -PI**2/12
-- 
2.43.0


From e59e12daac6f976efe06163c6e0f0b5532b6fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 04/22] fix: keep the relative accuracy of C and Fortran
 complex Li2-Li6 for tiny |z|

---
 src/c/Li2.c         |  8 ++++----
 src/c/Li3.c         |  8 ++++----
 src/c/Li4.c         |  8 ++++----
 src/c/Li5.c         |  8 ++++----
 src/c/Li6.c         |  8 ++++----
 src/c/log.c         | 16 ++++++++++++++++
 src/c/log.h         |  3 +++
 src/fortran/Li3.f90 |  6 +++---
 src/fortran/Li4.f90 |  6 +++---
 src/fortran/Li5.f90 |  6 +++---
 src/fortran/Li6.f90 |  6 +++---
 11 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 16c3092..20033fe 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index cdc0e37..da8e3d2 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -165,7 +165,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -226,7 +226,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -236,7 +236,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From dc3562f0b5865f8484294ca48b4cc4cf80da519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 05/22] fix: avoid overflow in the region selection of complex
 Li2 for huge arguments

---
 src/c/Li2.c         | 12 ++++++------
 src/cpp/Li2.cpp     | 12 ++++++------
 src/fortran/Li2.f90 |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 20033fe..c248a94 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,11 +341,11 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* 0.5f*nz > rz */
          const float _Complex lz = clogf(-z);
          u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -422,11 +422,11 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* 0.5*nz > rz */
          const double _Complex lz = clog(-z);
          u = -clog1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -527,11 +527,11 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
-      } else { /* nz > 2*rz */
+      } else { /* 0.5L*nz > rz */
          const long double _Complex lz = clogl(-z);
          u = -clog1pl(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 9973eb6..1bd8ef6 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,11 +334,11 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // 0.5f*nz > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
@@ -413,11 +413,11 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // 0.5*nz > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0/z);
          rest = -0.5*lz*lz - PI*PI/6;
@@ -506,11 +506,11 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
-      } else { // nz > 2*rz
+      } else { // 0.5L*nz > rz
          const auto lz = std::log(-z);
          u = -log1p(-1.0L/z);
          rest = -0.5L*lz*lz - PI*PI/6;
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 6577c26..d654997 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -142,11 +142,11 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (0.5D0*nz .le. rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
-     else ! nz > 2*rz
+     else ! 0.5*nz > rz
         u = -cdlog1p(-1/z)
         rest = -0.5D0*log(-z)**2 - PI**2/6
         sgn = -1
-- 
2.43.0


From 762c613944f31e868cff063a8d6bb4e268e2e45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 06/22] fix: Li(n,z) with n <= 0 has a finite limit at infinity

---
 src/cpp/Li.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..9c318e3 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -181,7 +181,7 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    if (std::isnan(std::real(z)) || std::isnan(std::imag(z))) {
       return {nan, nan};
    } else if (std::isinf(std::real(z)) || std::isinf(std::imag(z))) {
-      return {-inf, 0.0};
+      return {n > 0 ? -inf : n == 0 ? -1.0 : 0.0, 0.0};
    } else if (z == 0.0) {
       return z;
    } else if (z == 1.0) {
-- 
2.43.0


From 516ea7a99c5369abcb952cf16705974708317510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 07/22] fix: avoid integer overflow in zeta, neg_eta and
 harmonic for extreme n

---
 src/cpp/eta.cpp      | 2 +-
 src/cpp/harmonic.cpp | 2 +-
 src/cpp/zeta.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..8de3036 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even((1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..c408852 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + digamma(n) + 1.0/n;
    }
 }
 
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..fdcf17b 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even((1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 221a3f38956c3d642e6252282cb0a4e3e4e01766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 08/22] fix: bound the number of terms in the series of Li(n,z)
 around z = 1 for large n

---
 src/cpp/Li.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 9c318e3..ddbd183 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -72,7 +72,10 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         const auto old_sum = sum;
          sum += zeta(n - j)*p;
+         // |lnz| < 4, i.e. the terms decrease for j > 4
+         if (sum == old_sum && j > 4) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
-- 
2.43.0


From 3cb1097d0a5480672f54e40609c5dd38c2c5e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 09/22] fix: avoid overflow and truncation in the inversion of
 Li(n,z) for large n and |z|

---
 src/cpp/Li.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index ddbd183..5540bf5 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -151,19 +151,19 @@ namespace {
    {
       const std::complex<double> lnz = clog(-z);
       const std::complex<double> lnz2 = lnz*lnz;
-      const int64_t kmax = is_even(n) ? n/2 : (n - 1)/2;
-      std::complex<double> p = is_even(n) ? 1.0 : lnz;
-      std::complex<double> sum(0.0, 0.0), old_sum;
-
-      for (int64_t k = kmax; k != 0; --k) {
-         const double ifac = inv_fac(n - 2*k);
-         if (ifac == 0) { return 2.0*sum; }
-         sum += neg_eta(2*k)*ifac*p;
-         p *= lnz2;
-         if (sum == old_sum) { break; }
+      const double alnz = std::abs(lnz);
+      std::complex<double> p = is_even(n) ? 1.0 : lnz; // lnz^j/j!
+      std::complex<double> sum(0.0, 0.0);
+
+      for (int64_t j = is_even(n) ? 0 : 1; j < n; j += 2) {
+         const auto old_sum = sum;
+         sum += neg_eta(n - j)*p;
+         // the terms decrease for j > |lnz|
+         if (sum == old_sum && j > alnz) { return 2.0*sum; }
+         p *= lnz2/((j + 1.0)*(j + 2.0));
       }
 
-      return 2.0*sum - p*inv_fac(n);
+      return 2.0*sum - p;
    }
 
 } // anonymous namespace
-- 
2.43.0


From 2d66e0a3807c1df84f6fd184fa67ed24058ee7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 10/22] fix: keep the precision of Li(n,z) for negative n away
 from z = 0

---
 src/cpp/Li.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 5540bf5..584c41b 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -141,7 +141,7 @@ namespace {
          sum += term;
          lnzk *= lnz2;
          k += 2;
-      } while (sum != sum_old);
+      } while (sum != sum_old || k < -0.7*n); // terms decrease for k > -0.7*n
 
       return sum;
    }
@@ -198,10 +198,13 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       // arXiv:2010.09860
       const double nz = std::norm(z);
       const double nl = std::norm(clog(z));
-      if (4*PI*PI*nz < nl) {
+      const double lnnz = std::log(nz);
+      if (nz < 1 && lnnz*lnnz > -9.0*n) {
          return Li_series(n, z);
-      } else if (nl < 0.512*0.512*4*PI*PI) {
+      } else if (nl < 0.4*0.4*4*PI*PI) {
          return Li_unity_neg(n, z);
+      } else if (nz > 1) {
+         return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
-- 
2.43.0


From a85b6aeaac2989122812191d6f954e319727ea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 11/22] fix: keep the precision of Li(1,z) for small z and
 avoid overflow in Li(-1,z)

---
 src/cpp/Li.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 584c41b..2f98cba 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -13,6 +13,7 @@
 #include "eta.hpp"
 #include "factorial.hpp"
 #include "harmonic.hpp"
+#include "log.hpp"
 #include "zeta.hpp"
 #include <cmath>
 #include <complex>
@@ -209,10 +210,13 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const auto sqrtz = std::sqrt(z);
       return std::exp2(n - 1)*(Li(n, sqrtz) + Li(n, -sqrtz));
    } else if (n == -1) {
-      return z/((1.0 - z)*(1.0 - z));
+      return z/(1.0 - z)/(1.0 - z);
    } else if (n == 0) {
       return z/(1.0 - z);
    } else if (n == 1) {
+      if (std::norm(z) < 0.25) {
+         return -log1p(-z);
+      }
       return -clog(1.0 - z);
    } else if (n == 2) {
       return Li2(z);
-- 
2.43.0


From c8d20cd2ac0755cfb021bf30853a20ccd0e0d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 12/22] fix: Cl1 and Cl(n,x) for subnormal angles

---
 src/cpp/Cl.cpp  | 6 +++---
 src/cpp/Cl1.cpp | 5 +++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cpp/Cl.cpp b/src/cpp/Cl.cpp
index 1605f18..c1c8d36 100644
--- a/src/cpp/Cl.cpp
+++ b/src/cpp/Cl.cpp
@@ -307,9 +307,9 @@ double Cl(int64_t n, double x)
       const double sign1 = is_even((n + 1)/2) ? 1.0 : -1.0;
 
       // first line in Eq.(2.13)
-      const double term1 = x == 0 ? 0
-         : sign1*std::pow(x, n - 1)*inverse_factorial[n - 1] *
-           std::log(2*std::sin(x/2));
+      const double xn = std::pow(x, n - 1);
+      const double term1 = xn == 0 ? 0
+         : sign1*xn*inverse_factorial[n - 1]*std::log(2*std::sin(x/2));
 
       const double sign2 = is_even(n/2) ? 1.0 : -1.0;
 
diff --git a/src/cpp/Cl1.cpp b/src/cpp/Cl1.cpp
index cca4465..e38411e 100644
--- a/src/cpp/Cl1.cpp
+++ b/src/cpp/Cl1.cpp
@@ -39,6 +39,11 @@ double Cl1(double x) noexcept
       return std::numeric_limits<double>::infinity();
    }
 
+   // avoid rounding of 0.5*x for subnormal x
+   if (x < 2*std::numeric_limits<double>::min()) {
+      return -std::log(x);
+   }
+
    return -std::log(2.0*std::sin(0.5*x));
 }
 
-- 
2.43.0


From bfc7d680139c2da90358f3fc4792b8437f7d0608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 13/22] fix: avoid overflow of Gamma(1 - n) in Li(n,z) for n <
 -170

---
 src/cpp/Li.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 2f98cba..db622bb 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -147,6 +147,31 @@ namespace {
       return sum;
    }
 
+   /// Series expansion of Li_n(z) for n << 0, i.e. the sum over k of
+   /// Gamma(1 - n)*(2*k*Pi*I - ln(z))^(n - 1)
+   std::complex<double> Li_poles(int64_t n, const std::complex<double>& z) noexcept
+   {
+      const std::complex<double> lnz = clog(z);
+      const double m = 1.0 - n, m2 = m*m;
+      // Stirling's formula for Gamma(m)*w^(-m)
+      const double pre = std::sqrt(2*PI/m)*
+         std::exp((1.0/12 - (1.0/360 - 1/(1260*m2))/m2)/m);
+      const auto term = [=] (double k) {
+         const std::complex<double> w(-std::real(lnz), 2*k*PI - std::imag(lnz));
+         return pre*std::exp(m*(std::log(m/w) - 1.0));
+      };
+      std::complex<double> sum = term(0), sum_old;
+      double k = 0;
+
+      do {
+         k++;
+         sum_old = sum;
+         sum += term(k) + term(-k);
+      } while (is_finite(sum) && sum != sum_old);
+
+      return sum;
+   }
+
    /// returns remainder from inversion formula
    std::complex<double> Li_rest(int64_t n, const std::complex<double>& z) noexcept
    {
@@ -202,7 +227,9 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const double lnnz = std::log(nz);
       if (nz < 1 && lnnz*lnnz > -9.0*n) {
          return Li_series(n, z);
-      } else if (nl < 0.4*0.4*4*PI*PI) {
+      } else if (n < -170 && nz <= 1) { // tgamma(1 - n) overflows
+         return Li_poles(n, z);
+      } else if (n >= -170 && nl < 0.4*0.4*4*PI*PI) {
          return Li_unity_neg(n, z);
       } else if (nz > 1) {
          return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
-- 
2.43.0


From 96a0995a85d302fb1d182f1b8e0ad90a4e48ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 14/22] fix: avoid overflow of |z| in the complex
 polylogarithms of order n > 2

---
 src/c/Li3.c         | 4 ++--
 src/c/Li4.c         | 4 ++--
 src/c/Li5.c         | 4 ++--
 src/c/Li6.c         | 4 ++--
 src/cpp/Li.cpp      | 4 +++-
 src/cpp/Li3.cpp     | 4 ++--
 src/cpp/Li4.cpp     | 4 ++--
 src/cpp/Li5.cpp     | 4 ++--
 src/cpp/Li6.cpp     | 4 ++--
 src/fortran/Li3.f90 | 2 +-
 src/fortran/Li4.f90 | 2 +-
 src/fortran/Li5.f90 | 2 +-
 src/fortran/Li6.f90 | 2 +-
 13 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..72a8c38 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,7 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -269,7 +269,7 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..b58e041 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,7 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + pz*I; // clog(z)
@@ -329,7 +329,7 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + pz*I; // clog(z)
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..d80ed94 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,7 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -187,7 +187,7 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..9dc4430 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,7 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -192,7 +192,7 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index db622bb..3284f14 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -42,7 +42,9 @@ namespace {
       } else if (std::imag(z) == 0.0) {
          return { std::log(-std::real(z)), PI };
       }
-      return { std::log(std::hypot(std::real(z), std::imag(z))), std::arg(z) };
+      const double nz = std::hypot(std::real(z), std::imag(z));
+      // std::log(z) avoids overflow of |z|
+      return { std::isinf(nz) ? std::real(std::log(z)) : std::log(nz), std::arg(z) };
    }
 
    /// Series expansion of Li_n(z) in terms of powers of z.
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..237eeae 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -145,7 +145,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -276,7 +276,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..6759d8a 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -198,7 +198,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -326,7 +326,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..55a2d1e 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -183,7 +183,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..8e69298 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = std::arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -189,7 +189,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = std::arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..2889c09 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -146,7 +146,7 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index da8e3d2..d0cc816 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -206,7 +206,7 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..0e5e155 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -59,7 +59,7 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..c33030d 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -60,7 +60,7 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
-   lnz = log(nz)
+   lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
-- 
2.43.0


From 5632c762e36a3f91c828174782e0e60ac80cfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 15/22] fix: keep the side of the branch cut if arg(z)
 underflows in Li3-Li6

---
 src/c/Li3.c         | 6 ++++--
 src/c/Li4.c         | 6 ++++--
 src/c/Li5.c         | 6 ++++--
 src/c/Li6.c         | 6 ++++--
 src/cpp/Li3.cpp     | 6 ++++--
 src/cpp/Li4.cpp     | 6 ++++--
 src/cpp/Li5.cpp     | 6 ++++--
 src/cpp/Li6.cpp     | 6 ++++--
 src/fortran/Li3.f90 | 1 +
 src/fortran/Li4.f90 | 1 +
 src/fortran/Li5.f90 | 1 +
 src/fortran/Li6.f90 | 1 +
 12 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index 72a8c38..60ac34d 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -136,7 +136,8 @@ double _Complex cli3(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double az  = atan2(iz, rz);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -268,7 +269,8 @@ long double _Complex cli3l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double az  = atan2l(iz, rz);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li4.c b/src/c/Li4.c
index b58e041..e74fdeb 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -190,7 +190,8 @@ double _Complex cli4(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double az  = atan2(iz, rz);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -328,7 +329,8 @@ long double _Complex cli4l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double az  = atan2l(iz, rz);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li5.c b/src/c/Li5.c
index d80ed94..94f5edf 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -51,7 +51,8 @@ double _Complex cli5(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double az  = atan2(iz, rz);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -186,7 +187,8 @@ long double _Complex cli5l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double az  = atan2l(iz, rz);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 9dc4430..e5f9604 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -51,7 +51,8 @@ double _Complex cli6(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double az  = atan2(iz, rz);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = creal(clog(z));
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -191,7 +192,8 @@ long double _Complex cli6l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double az  = atan2l(iz, rz);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = creall(clogl(z));
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index 237eeae..62dd4cc 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -144,7 +144,8 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double az  = std::arg(z);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -275,7 +276,8 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double az  = std::arg(z);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 6759d8a..b64c1fe 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -197,7 +197,8 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double az  = std::arg(z);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -325,7 +326,8 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double az  = std::arg(z);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 55a2d1e..417b057 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -54,7 +54,8 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double az  = std::arg(z);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -182,7 +183,8 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double az  = std::arg(z);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 8e69298..173df28 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -54,7 +54,8 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double az  = std::arg(z);
+   const double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -188,7 +189,8 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double az  = std::arg(z);
+   const long double pz  = az == 0 ? iz : az; // arg(z) may underflow
    const long double lnz = std::real(std::log(z));
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 2889c09..d4eedde 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -146,6 +146,7 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
+   if (pz .eq. 0) pz = iz ! arg(z) may underflow
    lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index d0cc816..11b8f58 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -206,6 +206,7 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
+   if (pz .eq. 0) pz = iz ! arg(z) may underflow
    lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 0e5e155..95c2f0e 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -59,6 +59,7 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
+   if (pz .eq. 0) pz = iz ! arg(z) may underflow
    lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index c33030d..1cc86d9 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -60,6 +60,7 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = datan2(iz, rz)
+   if (pz .eq. 0) pz = iz ! arg(z) may underflow
    lnz = real(log(z))
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
-- 
2.43.0


From 0e5b379c7e3e0317ea3b054d0da1fb3a9f6e45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 16/22] fix: avoid overflow of a factor in the series of
 Li(n,z) for n << 0

---
 src/cpp/Li.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 3284f14..bf1c1e7 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -58,7 +58,12 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
-         p *= z*std::pow(k/(1.0 + k), n);
+         const double r = std::pow(k/(1.0 + k), n);
+         if (std::isinf(r)) { // p*z*r may still be finite
+            p = std::exp(std::log(p) + std::log(z) - n*std::log1p(1.0/k));
+         } else {
+            p *= z*r;
+         }
          if (!is_finite(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
-- 
2.43.0


From ce8a0013c8a715123231bd4c20239a185d1af914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 17/22] fix: avoid endless recursion of Li(n,z) for n < -1 and
 |z| = 1

---
 src/cpp/Li.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index bf1c1e7..80076cc 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -234,11 +234,11 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
       const double lnnz = std::log(nz);
       if (nz < 1 && lnnz*lnnz > -9.0*n) {
          return Li_series(n, z);
-      } else if (n < -170 && nz <= 1) { // tgamma(1 - n) overflows
+      } else if (n < -170 && nz <= 1.1) { // tgamma(1 - n) overflows
          return Li_poles(n, z);
       } else if (n >= -170 && nl < 0.4*0.4*4*PI*PI) {
          return Li_unity_neg(n, z);
-      } else if (nz > 1) {
+      } else if (nz > 1.1) { // not 1, because |1/z| > 1 is possible for |z| > 1
          return (is_even(n) ? -1.0 : 1.0)*Li(n, 1.0/z);
       }
       const auto sqrtz = std::sqrt(z);
-- 
2.43.0


From 6e42d5199063d240b9ad1cc78d8c345dd80e60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 18/22] fix: terminate the series of Li(n,z) if a part of z is
 tiny

The terms of the series may get stuck at the smallest subnormal number.
---
 src/cpp/Li.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 80076cc..95d27ab 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -34,6 +34,13 @@ namespace {
       return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
    }
 
+   /// returns true if both parts are zero or subnormal
+   bool is_tiny(const std::complex<double>& z) noexcept
+   {
+      constexpr double min = std::numeric_limits<double>::min();
+      return std::fabs(std::real(z)) < min && std::fabs(std::imag(z)) < min;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -65,6 +72,8 @@ namespace {
             p *= z*r;
          }
          if (!is_finite(p)) { break; }
+         // the terms decrease for n > 0, but may never become zero
+         if (n > 0 && is_tiny(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From 43126e2c2d1e30e405d6c18fe8ebf8619bb786d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 19/22] fix: avoid overflow of intermediate terms in Li(n,z)
 for n < -170

---
 src/cpp/Li.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 95d27ab..d33112f 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -172,20 +172,24 @@ namespace {
       // Stirling's formula for Gamma(m)*w^(-m)
       const double pre = std::sqrt(2*PI/m)*
          std::exp((1.0/12 - (1.0/360 - 1/(1260*m2))/m2)/m);
-      const auto term = [=] (double k) {
+      const auto exponent = [=] (double k) {
          const std::complex<double> w(-std::real(lnz), 2*k*PI - std::imag(lnz));
-         return pre*std::exp(m*(std::log(m/w) - 1.0));
+         return m*(std::log(m/w) - 1.0);
       };
-      std::complex<double> sum = term(0), sum_old;
+      // the k = 0 term is the largest one, it may overflow even if the sum is finite
+      const double scale = std::real(exponent(0));
+      std::complex<double> sum = std::exp(exponent(0) - scale), sum_old;
       double k = 0;
 
       do {
          k++;
          sum_old = sum;
-         sum += term(k) + term(-k);
+         sum += std::exp(exponent(k) - scale) + std::exp(exponent(-k) - scale);
       } while (is_finite(sum) && sum != sum_old);
 
-      return sum;
+      const double factor = std::exp(std::fmin(0.5*scale, 709.0));
+
+      return pre*sum*factor*factor;
    }
 
    /// returns remainder from inversion formula
-- 
2.43.0


From f58f43ceacf66b54c94371ae663a32408191a356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 20/22] fix: add the last term of the series of Li(n,z) if its
 parts are subnormal

---
 src/cpp/Li.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index d33112f..17a3d8d 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -65,6 +65,8 @@ namespace {
          k++;
          sum_old = sum;
          sum += p;
+         // the terms decrease for n > 0, but may never become zero
+         if (n > 0 && is_tiny(p)) { break; }
          const double r = std::pow(k/(1.0 + k), n);
          if (std::isinf(r)) { // p*z*r may still be finite
             p = std::exp(std::log(p) + std::log(z) - n*std::log1p(1.0/k));
@@ -72,8 +74,6 @@ namespace {
             p *= z*r;
          }
          if (!is_finite(p)) { break; }
-         // the terms decrease for n > 0, but may never become zero
-         if (n > 0 && is_tiny(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From 3f6ff699b58dfc678c23fa1b3b9bc9ff7a9df2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 21/22] fix: terminate the series of Li(n,z) in every rounding
 mode

---
 src/cpp/Li.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 17a3d8d..87b5ea4 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -41,6 +41,16 @@ namespace {
       return std::fabs(std::real(z)) < min && std::fabs(std::imag(z)) < min;
    }
 
+   /// returns true if the term p does not contribute to sum; in contrast
+   /// to sum + p == sum this does not depend on the rounding mode
+   bool is_negligible(const std::complex<double>& p, const std::complex<double>& sum) noexcept
+   {
+      constexpr double eps = std::numeric_limits<double>::epsilon()/8;
+      constexpr double min = 2*std::numeric_limits<double>::denorm_min();
+      return std::fabs(std::real(p)) <= eps*std::fabs(std::real(sum)) + min &&
+             std::fabs(std::imag(p)) <= eps*std::fabs(std::imag(sum)) + min;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -59,6 +69,7 @@ namespace {
    std::complex<double> Li_series(int64_t n, const std::complex<double>& z) noexcept
    {
       std::complex<double> sum(0.0, 0.0), sum_old(0.0, 0.0), p = z;
+      const double az = std::abs(z);
       int64_t k = 0;
 
       do {
@@ -68,6 +79,7 @@ namespace {
          // the terms decrease for n > 0, but may never become zero
          if (n > 0 && is_tiny(p)) { break; }
          const double r = std::pow(k/(1.0 + k), n);
+         if (r*az < 0.8 && is_negligible(p, sum_old)) { break; }
          if (std::isinf(r)) { // p*z*r may still be finite
             p = std::exp(std::log(p) + std::log(z) - n*std::log1p(1.0/k));
          } else {
@@ -92,7 +104,7 @@ namespace {
          const auto old_sum = sum;
          sum += zeta(n - j)*p;
          // |lnz| < 4, i.e. the terms decrease for j > 4
-         if (sum == old_sum && j > 4) { return sum; }
+         if ((sum == old_sum || is_negligible(p, old_sum)) && j > 4) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
@@ -107,8 +119,9 @@ namespace {
       for (int64_t j = (n + 3); j < std::numeric_limits<int64_t>::max() - 2; j += 2) {
          p *= lnz2/static_cast<double>((j - 1)*j);
          const auto old_sum = sum;
-         sum += zeta(n - j)*p;
-         if (sum == old_sum) { break; }
+         const auto term = zeta(n - j)*p;
+         sum += term;
+         if (sum == old_sum || is_negligible(term, old_sum)) { break; }
       }
 
       return sum;
@@ -178,14 +191,15 @@ namespace {
       };
       // the k = 0 term is the largest one, it may overflow even if the sum is finite
       const double scale = std::real(exponent(0));
-      std::complex<double> sum = std::exp(exponent(0) - scale), sum_old;
+      std::complex<double> sum = std::exp(exponent(0) - scale), sum_old, term;
       double k = 0;
 
       do {
          k++;
          sum_old = sum;
-         sum += std::exp(exponent(k) - scale) + std::exp(exponent(-k) - scale);
-      } while (is_finite(sum) && sum != sum_old);
+         term = std::exp(exponent(k) - scale) + std::exp(exponent(-k) - scale);
+         sum += term;
+      } while (is_finite(sum) && sum != sum_old && !is_negligible(term, sum_old));
 
       const double factor = std::exp(std::fmin(0.5*scale, 709.0));
 
@@ -205,7 +219,7 @@ namespace {
          const auto old_sum = sum;
          sum += neg_eta(n - j)*p;
          // the terms decrease for j > |lnz|
-         if (sum == old_sum && j > alnz) { return 2.0*sum; }
+         if ((sum == old_sum || is_negligible(p, old_sum)) && j > alnz) { return 2.0*sum; }
          p *= lnz2/((j + 1.0)*(j + 2.0));
       }
 
-- 
2.43.0


From 77b7a91f1214f0ff5a59cd3cfbecbc4597a43e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 22/22] fix: accuracy of Fortran dli2 for tiny negative x if
 rounding upward

---
 src/fortran/Li2.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index d654997..1fcf79c 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -47,7 +47,7 @@ double precision function dli2(x)
       return
    elseif (x .lt. 0) then
       y = x/(x - 1)
-      r = -0.5D0*log(1 - x)**2
+      r = -2*atanh(x/(2 - x))**2 ! -log(1 - x)**2/2
       s = -1
    elseif (x .eq. 0) then
       dli2 = x
-- 
2.43.0

