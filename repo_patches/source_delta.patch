From af1e828f773e2dccb43a4f46ac32a1617ceee7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 01/12] fix: Cl1 returned infinity or lost accuracy for
 subnormal angles

---
 src/cpp/Cl1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/Cl1.cpp b/src/cpp/Cl1.cpp
index cca4465..c6e437d 100644
--- a/src/cpp/Cl1.cpp
+++ b/src/cpp/Cl1.cpp
@@ -39,6 +39,10 @@ double Cl1(double x) noexcept
       return std::numeric_limits<double>::infinity();
    }
 
+   if (x < 1e-8) {
+      return -std::log(x); // avoids underflow of 0.5*x
+   }
+
    return -std::log(2.0*std::sin(0.5*x));
 }
 
-- 
2.43.0


From fc1a3d05f105d431e432f076bc5734d7697c174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 02/12] fix: Fortran Clausen functions overwrote their argument

---
 src/fortran/Cl2.f90 | 6 ++++--
 src/fortran/Cl3.f90 | 7 +++++--
 src/fortran/Cl4.f90 | 6 ++++--
 src/fortran/Cl5.f90 | 7 +++++--
 src/fortran/Cl6.f90 | 6 ++++--
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/fortran/Cl2.f90 b/src/fortran/Cl2.f90
index 4d0e3a4..f6a3030 100644
--- a/src/fortran/Cl2.f90
+++ b/src/fortran/Cl2.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_2(\theta) = \operatorname{Im}(\operatorname{Li}_2(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_2(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl2(x)
+double precision function dcl2(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl2(x)
       9.5432542196310670D-6,                &
      -1.8184302880448247D-8                 /)
 
+  x = theta ! the by-reference argument must not be modified
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl3.f90 b/src/fortran/Cl3.f90
index fed7d0e..7794567 100644
--- a/src/fortran/Cl3.f90
+++ b/src/fortran/Cl3.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_3(\theta) = \operatorname{Re}(\operatorname{Li}_3(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_3(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl3(x)
+double precision function dcl3(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,8 @@ double precision function dcl3(x)
       1.0199322763377861D-6,                &
       1.9612106499469264D-9                 /)
 
+  x = theta ! the by-reference argument must not be modified
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl4.f90 b/src/fortran/Cl4.f90
index 3d00a08..394b6e8 100644
--- a/src/fortran/Cl4.f90
+++ b/src/fortran/Cl4.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_4(\theta) = \operatorname{Im}(\operatorname{Li}_4(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_4(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl4(x)
+double precision function dcl4(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -43,6 +44,7 @@ double precision function dcl4(x)
       5.9283675098376635D-7,                &
       9.4127575773361230D-10                /)
 
+  x = theta ! the by-reference argument must not be modified
   sgn = 1
 
   if (x .lt. 0) then
diff --git a/src/fortran/Cl5.f90 b/src/fortran/Cl5.f90
index 0468821..d76b78f 100644
--- a/src/fortran/Cl5.f90
+++ b/src/fortran/Cl5.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_5(\theta) = \operatorname{Re}(\operatorname{Li}_5(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_5(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as a rational function approximation.
 !*********************************************************************
 
-double precision function dcl5(x)
+double precision function dcl5(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -44,6 +45,8 @@ double precision function dcl5(x)
      -7.4383354448335299D-8,                &
      -3.4131758392216437D-10                /)
 
+  x = theta ! the by-reference argument must not be modified
+
   if (x .lt. 0) then
      x = -x
   endif
diff --git a/src/fortran/Cl6.f90 b/src/fortran/Cl6.f90
index d7a5af6..4cdc65f 100644
--- a/src/fortran/Cl6.f90
+++ b/src/fortran/Cl6.f90
@@ -6,14 +6,15 @@
 
 !*********************************************************************
 !> @brief Clausen function \f$\operatorname{Cl}_6(\theta) = \operatorname{Im}(\operatorname{Li}_6(e^{i\theta}))\f$
-!> @param x real angle
+!> @param theta real angle
 !> @return \f$\operatorname{Cl}_6(\theta)\f$
 !> @author Alexander Voigt
 !> Implemented as rational function approximation.
 !*********************************************************************
 
-double precision function dcl6(x)
+double precision function dcl6(theta)
   implicit none
+  double precision, intent(in) :: theta
   double precision :: x, y, z, z2, z4, p, q, p0, p1, sgn
   double precision, parameter :: PI = 3.14159265358979324D0
   double precision, parameter :: PI2 = 2*PI, PIH = PI/2, PI28 = PI*PI/8
@@ -42,6 +43,7 @@ double precision function dcl6(x)
       3.5669441618295266D-8,                &
       2.5315391843409925D-10                /)
 
+  x = theta ! the by-reference argument must not be modified
   sgn = 1
 
   if (x .lt. 0) then
-- 
2.43.0


From 3b949788ba5fa135c8cde0e2e47d0c9ee08efc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 03/12] fix: relative accuracy of C and Fortran complex
 polylogarithms near z = 0 (use log1p)

---
 src/c/Li2.c         |  8 ++++----
 src/c/Li3.c         |  8 ++++----
 src/c/Li4.c         |  8 ++++----
 src/c/Li5.c         |  8 ++++----
 src/c/Li6.c         |  8 ++++----
 src/c/log.c         | 16 ++++++++++++++++
 src/c/log.h         |  3 +++
 src/fortran/Li3.f90 |  6 +++---
 src/fortran/Li4.f90 |  6 +++---
 src/fortran/Li5.f90 |  6 +++---
 src/fortran/Li6.f90 |  6 +++---
 11 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 1e60dd8..87e59fa 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -332,22 +332,22 @@ float _Complex cli2f(float _Complex z)
    if (rz <= 0.5f) {
       if (nz > 1.0f) {
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       } else { /* nz <= 1 */
-         u = -clogf(1.0f - z);
+         u = -clog1pf(-z);
          rest = 0;
          sgn = 1;
       }
    } else { /* rz > 0.5f */
       if (nz <= 2*rz) {
          u = -clogf(z);
-         rest = u*clogf(1.0f - z) + PI*PI/6;
+         rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
       } else { /* nz > 2*rz */
          const float _Complex lz = clogf(-z);
-         u = -clogf(1.0f - 1.0f / z);
+         u = -clog1pf(-1.0f/z);
          rest = -0.5f*lz*lz - PI*PI/6;
          sgn = -1;
       }
diff --git a/src/c/Li3.c b/src/c/Li3.c
index ef1f532..e3862f4 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -165,11 +165,11 @@ double _Complex cli3(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -lmz*(lmz*lmz/6.0 + zeta2);
    }
 
@@ -317,11 +317,11 @@ long double _Complex cli3l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0L ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -lmz*(lmz*lmz/6.0L + zeta2);
    }
 
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 0c7cf7a..210ae83 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -224,12 +224,12 @@ double _Complex cli4(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = 1.0/360.0*(-7*PI4 + lmz2*(-30.0*PI2 - 15.0*lmz2));
       sgn = -1;
    }
@@ -377,12 +377,12 @@ long double _Complex cli4l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = 1.0L/360.0L*(-7*PI4 + lmz2*(-30.0L*PI2 - 15.0L*lmz2));
       sgn = -1;
    }
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 2249583..5a6cf3a 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -84,12 +84,12 @@ double _Complex cli5(double _Complex z)
    double _Complex u = 0.0, rest = 0.0;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       rest = -1.0/360.0*lmz*(7*PI4 + lmz2*(10.0*PI2 + 3.0*lmz2));
    }
 
@@ -236,12 +236,12 @@ long double _Complex cli5l(long double _Complex z)
    long double _Complex u = 0.0L, rest = 0.0L;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       rest = -1.0L/360.0L*lmz*(7*PI4 + lmz2*(10.0L*PI2 + 3.0L*lmz2));
    }
 
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 555e952..2a32ce6 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -86,12 +86,12 @@ double _Complex cli6(double _Complex z)
    double sgn = 1;
 
    if (nz <= 1.0) {
-      u = -pos_clog(1.0 - z);
+      u = -clog1p(-z);
    } else { // nz > 1
       const double arg = pz > 0.0 ? pz - PI : pz + PI;
       const double _Complex lmz = lnz + arg*I; // clog(-z)
       const double _Complex lmz2 = lmz*lmz;
-      u = -pos_clog(1.0 - 1.0/z);
+      u = -clog1p(-1.0/z);
       r = -31.0*PI6/15120.0 + lmz2*(-7.0/720.0*PI4 + lmz2*(-1.0/144.0*PI2 - 1.0/720.0*lmz2));
       sgn = -1;
    }
@@ -247,12 +247,12 @@ long double _Complex cli6l(long double _Complex z)
    long double sgn = 1;
 
    if (nz <= 1.0L) {
-      u = -pos_clogl(1.0L - z);
+      u = -clog1pl(-z);
    } else { // nz > 1
       const long double arg = pz > 0.0 ? pz - PI : pz + PI;
       const long double _Complex lmz = lnz + arg*I; // clog(-z)
       const long double _Complex lmz2 = lmz*lmz;
-      u = -pos_clogl(1.0L - 1.0L/z);
+      u = -clog1pl(-1.0L/z);
       r = -31.0L*PI6/15120.0L
           + lmz2*(-7.0L/720.0L*PI4 +
                   lmz2*(-1.0L/144.0L*PI2 - 1.0L/720.0L*lmz2));
diff --git a/src/c/log.c b/src/c/log.c
index 760c063..7572358 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -8,6 +8,22 @@
 #include <math.h>
 
 
+float _Complex clog1pf(float _Complex z)
+{
+   const float _Complex u = 1.0f + z;
+   const float rz = crealf(u);
+   const float iz = cimagf(u);
+
+   if (rz == 1.0f && iz == 0.0f) {
+      return z;
+   } else if (rz <= 0.0f) {
+      return clogf(u);
+   }
+
+   return clogf(u)*(z/(u - 1.0f));
+}
+
+
 double _Complex clog1p(double _Complex z)
 {
    const double _Complex u = 1.0 + z;
diff --git a/src/c/log.h b/src/c/log.h
index 2a7b0cd..2404ebb 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+/** returns clog(1 + z) with single precision */
+float _Complex clog1pf(float _Complex z);
+
 /** returns clog(1 + z) with double precision */
 double _Complex clog1p(double _Complex z);
 
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 6ce02a8..9f3884e 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -109,7 +109,7 @@ end function dli3
 !*********************************************************************
 double complex function cdli3(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, dli3
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
@@ -165,7 +165,7 @@ double complex function cdli3(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -174,7 +174,7 @@ double complex function cdli3(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(lmz**2/6 + zeta2)
    endif
 
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3e1f257..fafff97 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -164,7 +164,7 @@ end function dli4
 !*********************************************************************
 double complex function cdli4(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -225,7 +225,7 @@ double complex function cdli4(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -235,7 +235,7 @@ double complex function cdli4(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = (-7*PI4 + lmz**2*(-30*PI2 - 15*lmz**2))/360
       sgn = -1
    endif
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 46900f1..4c274d2 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli5(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli5(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       rest = 0
    else ! nz > 1
       if (pz .gt. 0) then
@@ -88,7 +88,7 @@ double complex function cdli5(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       rest = -lmz*(7*PI4 + lmz**2*(10*PI2 + 3*lmz**2))/360
    endif
 
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 4c05c69..bb2c28e 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -13,7 +13,7 @@
 !*********************************************************************
 double complex function cdli6(z)
   implicit none
-  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog
+  double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
   double precision :: rz, iz, nz, pz, lnz, arg, sgn
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
@@ -79,7 +79,7 @@ double complex function cdli6(z)
    endif
 
    if (nz .le. 1) then
-      u = -pos_cdlog(1 - z)
+      u = -cdlog1p(-z)
       r = 0
       sgn = 1
    else ! nz > 1
@@ -89,7 +89,7 @@ double complex function cdli6(z)
          arg = pz + PI
       endif
       lmz = dcmplx(lnz, arg) ! log(-z)
-      u = -pos_cdlog(1 - 1/z)
+      u = -cdlog1p(-1/z)
       r = -31*PI6/15120 + lmz**2*(-7*PI4/720 + lmz**2*(-PI2/144 - lmz**2/720))
       sgn = -1
    endif
-- 
2.43.0


From eb50893c25b04e58b40ba98a7affafc17f57d166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 04/12] fix: branch of Li3..Li6 next to the cut if arg(z)
 underflows

---
 src/c/Li3.c         |  4 ++--
 src/c/Li4.c         |  4 ++--
 src/c/Li5.c         |  4 ++--
 src/c/Li6.c         |  4 ++--
 src/c/log.c         | 25 +++++++++++++++++++++++++
 src/c/log.h         |  6 ++++++
 src/cpp/Li3.cpp     |  4 ++--
 src/cpp/Li4.cpp     |  4 ++--
 src/cpp/Li5.cpp     |  4 ++--
 src/cpp/Li6.cpp     |  4 ++--
 src/cpp/log.hpp     | 16 ++++++++++++++++
 src/fortran/Li3.f90 |  4 ++--
 src/fortran/Li4.f90 |  4 ++--
 src/fortran/Li5.f90 |  4 ++--
 src/fortran/Li6.f90 |  4 ++--
 src/fortran/log.f90 | 20 ++++++++++++++++++++
 16 files changed, 91 insertions(+), 24 deletions(-)

diff --git a/src/c/Li3.c b/src/c/Li3.c
index e3862f4..bf97151 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -136,7 +136,7 @@ double _Complex cli3(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -268,7 +268,7 @@ long double _Complex cli3l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 210ae83..1ea5c38 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -190,7 +190,7 @@ double _Complex cli4(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -328,7 +328,7 @@ long double _Complex cli4l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 5a6cf3a..495159b 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -51,7 +51,7 @@ double _Complex cli5(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -186,7 +186,7 @@ long double _Complex cli5l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2a32ce6..2568391 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -51,7 +51,7 @@ double _Complex cli6(double _Complex z)
    }
 
    const double nz  = hypot(rz, iz);
-   const double pz  = atan2(iz, rz);
+   const double pz  = signed_atan2(iz, rz);
    const double lnz = log(nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
@@ -191,7 +191,7 @@ long double _Complex cli6l(long double _Complex z)
    }
 
    const long double nz  = hypotl(rz, iz);
-   const long double pz  = atan2l(iz, rz);
+   const long double pz  = signed_atan2l(iz, rz);
    const long double lnz = logl(nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
diff --git a/src/c/log.c b/src/c/log.c
index 7572358..bdf9642 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -5,6 +5,7 @@
  * ==================================================================== */
 
 #include <complex.h>
+#include <float.h>
 #include <math.h>
 
 
@@ -98,3 +99,27 @@ long double _Complex pos_clogl(long double _Complex z)
 
    return clogl(z);
 }
+
+
+double signed_atan2(double y, double x)
+{
+   const double phi = atan2(y, x);
+
+   if (phi == 0.0 && y != 0.0) {
+      return copysign(DBL_MIN, y);
+   }
+
+   return phi;
+}
+
+
+long double signed_atan2l(long double y, long double x)
+{
+   const long double phi = atan2l(y, x);
+
+   if (phi == 0.0L && y != 0.0L) {
+      return copysignl(LDBL_MIN, y);
+   }
+
+   return phi;
+}
diff --git a/src/c/log.h b/src/c/log.h
index 2404ebb..73a571d 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -20,3 +20,9 @@ double _Complex pos_clog(double _Complex z);
 
 /** returns clog(z) with long double precision */
 long double _Complex pos_clogl(long double _Complex z);
+
+/** returns atan2(y, x), but not zero if y != 0 (in case of underflow) */
+double signed_atan2(double y, double x);
+
+/** returns atan2(y, x), but not zero if y != 0 (in case of underflow) */
+long double signed_atan2l(long double y, long double x);
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index d7fe2c5..eef8e09 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -144,7 +144,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -275,7 +275,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index df16968..1ed8bee 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -197,7 +197,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -325,7 +325,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index 9706eb5..d747baa 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -182,7 +182,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index aa53d6c..729bbb0 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -54,7 +54,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
    }
 
    const double nz  = std::abs(z);
-   const double pz  = std::arg(z);
+   const double pz  = signed_arg(z);
    const double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
@@ -188,7 +188,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
    }
 
    const long double nz  = std::abs(z);
-   const long double pz  = std::arg(z);
+   const long double pz  = signed_arg(z);
    const long double lnz = std::log(nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index b10ef72..e7c8232 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -8,6 +8,7 @@
 
 #include <cmath>
 #include <complex>
+#include <limits>
 
 namespace polylogarithm {
 
@@ -48,4 +49,19 @@ std::complex<T> pos_log(const std::complex<T>& z) noexcept
 }
 
 
+/// returns arg(z) with the sign of Im(z), non-zero if Im(z) != 0
+/// @note std::arg(z) may underflow to zero
+template <typename T>
+T signed_arg(const std::complex<T>& z) noexcept
+{
+   const T pz = std::arg(z);
+
+   if (pz == T(0) && std::imag(z) != T(0)) {
+      return std::copysign(std::numeric_limits<T>::min(), std::imag(z));
+   }
+
+   return pz;
+}
+
+
 } // namespace polylogarithm
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index 9f3884e..fcb28e0 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -110,7 +110,7 @@ end function dli3
 double complex function cdli3(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, dli3
+  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -145,7 +145,7 @@ double complex function cdli3(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index fafff97..3ed92ab 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -165,7 +165,7 @@ end function dli4
 double complex function cdli4(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -204,7 +204,7 @@ double complex function cdli4(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index 4c274d2..b692886 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -14,7 +14,7 @@
 double complex function cdli5(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg
+  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -58,7 +58,7 @@ double complex function cdli5(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index bb2c28e..82fc057 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -14,7 +14,7 @@
 double complex function cdli6(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -59,7 +59,7 @@ double complex function cdli6(z)
    endif
 
    nz  = hypot(rz, iz)
-   pz  = datan2(iz, rz)
+   pz  = signed_datan2(iz, rz)
    lnz = log(nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 2708420..1e22da2 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -54,3 +54,23 @@ double complex function pos_cdlog(z)
   endif
 
 end function pos_cdlog
+
+
+!*********************************************************************
+!> @brief Implementation of atan2(y, x), but not zero if y is not zero
+!> @param y real argument
+!> @param x real argument
+!> @return atan2(y, x)
+!> @note atan2(y, x) may underflow to zero
+!*********************************************************************
+double precision function signed_datan2(y, x)
+  implicit none
+  double precision, intent(in) :: y, x
+
+  signed_datan2 = datan2(y, x)
+
+  if (signed_datan2 .eq. 0 .and. y .ne. 0) then
+     signed_datan2 = sign(tiny(1D0), y)
+  endif
+
+end function signed_datan2
-- 
2.43.0


From bca1a60efc5c149ebbe5fde889a4c5d820396b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 05/12] fix: complex polylogarithms of arguments whose modulus
 overflows

---
 src/c/Li2.c         |  6 +++---
 src/c/Li3.c         |  4 ++--
 src/c/Li4.c         |  4 ++--
 src/c/Li5.c         |  4 ++--
 src/c/Li6.c         |  4 ++--
 src/c/log.c         | 20 ++++++++++++++++++++
 src/c/log.h         |  6 ++++++
 src/cpp/Li2.cpp     |  6 +++---
 src/cpp/Li3.cpp     |  4 ++--
 src/cpp/Li4.cpp     |  4 ++--
 src/cpp/Li5.cpp     |  4 ++--
 src/cpp/Li6.cpp     |  4 ++--
 src/cpp/log.hpp     | 12 ++++++++++++
 src/fortran/Li2.f90 |  2 +-
 src/fortran/Li3.f90 |  4 ++--
 src/fortran/Li4.f90 |  4 ++--
 src/fortran/Li5.f90 |  4 ++--
 src/fortran/Li6.f90 |  4 ++--
 src/fortran/log.f90 | 20 ++++++++++++++++++++
 19 files changed, 89 insertions(+), 31 deletions(-)

diff --git a/src/c/Li2.c b/src/c/Li2.c
index 87e59fa..70f9dd5 100644
--- a/src/c/Li2.c
+++ b/src/c/Li2.c
@@ -341,7 +341,7 @@ float _Complex cli2f(float _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5f */
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -clogf(z);
          rest = u*clog1pf(-z) + PI*PI/6;
          sgn = -1;
@@ -422,7 +422,7 @@ double _Complex cli2(double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5 */
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -clog(z);
          rest = u*clog1p(-z) + PI*PI/6;
          sgn = -1;
@@ -527,7 +527,7 @@ long double _Complex cli2l(long double _Complex z)
          sgn = 1;
       }
    } else { /* rz > 0.5L */
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -clogl(z);
          rest = u * clog1pl(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/c/Li3.c b/src/c/Li3.c
index bf97151..6c26a39 100644
--- a/src/c/Li3.c
+++ b/src/c/Li3.c
@@ -137,7 +137,7 @@ double _Complex cli3(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_abs(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -269,7 +269,7 @@ long double _Complex cli3l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_absl(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li4.c b/src/c/Li4.c
index 1ea5c38..3a78d2e 100644
--- a/src/c/Li4.c
+++ b/src/c/Li4.c
@@ -191,7 +191,7 @@ double _Complex cli4(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_abs(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u = lnz + pz*I; // clog(z)
@@ -329,7 +329,7 @@ long double _Complex cli4l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_absl(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u = lnz + pz*I; // clog(z)
diff --git a/src/c/Li5.c b/src/c/Li5.c
index 495159b..d81c10b 100644
--- a/src/c/Li5.c
+++ b/src/c/Li5.c
@@ -52,7 +52,7 @@ double _Complex cli5(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_abs(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -187,7 +187,7 @@ long double _Complex cli5l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_absl(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/Li6.c b/src/c/Li6.c
index 2568391..9426c6b 100644
--- a/src/c/Li6.c
+++ b/src/c/Li6.c
@@ -52,7 +52,7 @@ double _Complex cli6(double _Complex z)
 
    const double nz  = hypot(rz, iz);
    const double pz  = signed_atan2(iz, rz);
-   const double lnz = log(nz);
+   const double lnz = log_abs(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0) { // |log(z)| < 1
       const double _Complex u  = lnz + pz*I; // clog(z)
@@ -192,7 +192,7 @@ long double _Complex cli6l(long double _Complex z)
 
    const long double nz  = hypotl(rz, iz);
    const long double pz  = signed_atan2l(iz, rz);
-   const long double lnz = logl(nz);
+   const long double lnz = log_absl(rz, iz, nz);
 
    if (lnz*lnz + pz*pz < 1.0L) { // |log(z)| < 1
       const long double _Complex u  = lnz + pz*I; // clog(z)
diff --git a/src/c/log.c b/src/c/log.c
index bdf9642..0138415 100644
--- a/src/c/log.c
+++ b/src/c/log.c
@@ -123,3 +123,23 @@ long double signed_atan2l(long double y, long double x)
 
    return phi;
 }
+
+
+double log_abs(double x, double y, double nz)
+{
+   if (nz > DBL_MAX) {
+      return log(hypot(0.5*x, 0.5*y)) + log(2.0);
+   }
+
+   return log(nz);
+}
+
+
+long double log_absl(long double x, long double y, long double nz)
+{
+   if (nz > LDBL_MAX) {
+      return logl(hypotl(0.5L*x, 0.5L*y)) + logl(2.0L);
+   }
+
+   return logl(nz);
+}
diff --git a/src/c/log.h b/src/c/log.h
index 73a571d..c3ce127 100644
--- a/src/c/log.h
+++ b/src/c/log.h
@@ -26,3 +26,9 @@ double signed_atan2(double y, double x);
 
 /** returns atan2(y, x), but not zero if y != 0 (in case of underflow) */
 long double signed_atan2l(long double y, long double x);
+
+/** returns log(|x + I*y|), given nz = |x + I*y| (which may have overflowed) */
+double log_abs(double x, double y, double nz);
+
+/** returns log(|x + I*y|), given nz = |x + I*y| (which may have overflowed) */
+long double log_absl(long double x, long double y, long double nz);
diff --git a/src/cpp/Li2.cpp b/src/cpp/Li2.cpp
index 57bf7d1..dcb6cb8 100644
--- a/src/cpp/Li2.cpp
+++ b/src/cpp/Li2.cpp
@@ -334,7 +334,7 @@ std::complex<float> Li2(const std::complex<float>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5f*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -413,7 +413,7 @@ std::complex<double> Li2(const std::complex<double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5
-      if (nz <= 2*rz) {
+      if (0.5*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
@@ -506,7 +506,7 @@ std::complex<long double> Li2(const std::complex<long double>& z) noexcept
          sgn = 1;
       }
    } else { // rz > 0.5L
-      if (nz <= 2*rz) {
+      if (0.5L*nz <= rz) {
          u = -std::log(z);
          rest = u*log1p(-z) + PI*PI/6;
          sgn = -1;
diff --git a/src/cpp/Li3.cpp b/src/cpp/Li3.cpp
index eef8e09..38d285c 100644
--- a/src/cpp/Li3.cpp
+++ b/src/cpp/Li3.cpp
@@ -145,7 +145,7 @@ std::complex<double> Li3(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -276,7 +276,7 @@ std::complex<long double> Li3(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li4.cpp b/src/cpp/Li4.cpp
index 1ed8bee..25c24e3 100644
--- a/src/cpp/Li4.cpp
+++ b/src/cpp/Li4.cpp
@@ -198,7 +198,7 @@ std::complex<double> Li4(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -326,7 +326,7 @@ std::complex<long double> Li4(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li5.cpp b/src/cpp/Li5.cpp
index d747baa..cc1ad8a 100644
--- a/src/cpp/Li5.cpp
+++ b/src/cpp/Li5.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li5(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -183,7 +183,7 @@ std::complex<long double> Li5(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/Li6.cpp b/src/cpp/Li6.cpp
index 729bbb0..ba66c76 100644
--- a/src/cpp/Li6.cpp
+++ b/src/cpp/Li6.cpp
@@ -55,7 +55,7 @@ std::complex<double> Li6(const std::complex<double>& z) noexcept
 
    const double nz  = std::abs(z);
    const double pz  = signed_arg(z);
-   const double lnz = std::log(nz);
+   const double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<double> u(lnz, pz); // log(z)
@@ -189,7 +189,7 @@ std::complex<long double> Li6(const std::complex<long double>& z) noexcept
 
    const long double nz  = std::abs(z);
    const long double pz  = signed_arg(z);
-   const long double lnz = std::log(nz);
+   const long double lnz = log_abs(z, nz);
 
    if (lnz*lnz + pz*pz < 1) { // |log(z)| < 1
       const std::complex<long double> u(lnz, pz); // log(z)
diff --git a/src/cpp/log.hpp b/src/cpp/log.hpp
index e7c8232..1608902 100644
--- a/src/cpp/log.hpp
+++ b/src/cpp/log.hpp
@@ -64,4 +64,16 @@ T signed_arg(const std::complex<T>& z) noexcept
 }
 
 
+/// returns log(|z|), given nz = |z| (which may have overflowed)
+template <typename T>
+T log_abs(const std::complex<T>& z, T nz) noexcept
+{
+   if (nz > std::numeric_limits<T>::max()) {
+      return std::log(std::abs(T(0.5)*z)) + std::log(T(2));
+   }
+
+   return std::log(nz);
+}
+
+
 } // namespace polylogarithm
diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 8eaa847..6c9fefd 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -139,7 +139,7 @@ double complex function cdli2(z)
         sgn = 1
      endif
   else ! rz > 0.5D0
-     if (nz .le. 2*rz) then
+     if (0.5D0*nz .le. rz) then
         u = -log(z)
         rest = u*cdlog1p(-z) + PI**2/6
         sgn = -1
diff --git a/src/fortran/Li3.f90 b/src/fortran/Li3.f90
index fcb28e0..4ddfef3 100644
--- a/src/fortran/Li3.f90
+++ b/src/fortran/Li3.f90
@@ -110,7 +110,7 @@ end function dli3
 double complex function cdli3(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c0, c1, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, dli3, signed_datan2, dlog_abs
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta3 = 1.2020569031595943D0
@@ -146,7 +146,7 @@ double complex function cdli3(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_abs(rz, iz, nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 3ed92ab..45f04d7 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -165,7 +165,7 @@ end function dli4
 double complex function cdli4(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c3, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, dli4, signed_datan2, dlog_abs
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -205,7 +205,7 @@ double complex function cdli4(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_abs(rz, iz, nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li5.f90 b/src/fortran/Li5.f90
index b692886..0f9905d 100644
--- a/src/fortran/Li5.f90
+++ b/src/fortran/Li5.f90
@@ -14,7 +14,7 @@
 double complex function cdli5(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c4, lmz, rest, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, signed_datan2, dlog_abs
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -59,7 +59,7 @@ double complex function cdli5(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_abs(rz, iz, nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/Li6.f90 b/src/fortran/Li6.f90
index 82fc057..1376aec 100644
--- a/src/fortran/Li6.f90
+++ b/src/fortran/Li6.f90
@@ -14,7 +14,7 @@
 double complex function cdli6(z)
   implicit none
   double complex :: z, u, u2, u4, u8, c5, lmz, r, pos_cdlog, cdlog1p
-  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2
+  double precision :: rz, iz, nz, pz, lnz, arg, sgn, signed_datan2, dlog_abs
   double precision, parameter :: PI    = 3.1415926535897932D0
   double precision, parameter :: PI2   = 9.8696044010893586D0
   double precision, parameter :: PI4   = 97.409091034002437D0
@@ -60,7 +60,7 @@ double complex function cdli6(z)
 
    nz  = hypot(rz, iz)
    pz  = signed_datan2(iz, rz)
-   lnz = log(nz)
+   lnz = dlog_abs(rz, iz, nz)
 
    if (lnz**2 + pz**2 .lt. 1) then ! |log(z)| < 1
       u = dcmplx(lnz, pz) ! log(z)
diff --git a/src/fortran/log.f90 b/src/fortran/log.f90
index 1e22da2..1ca8f39 100644
--- a/src/fortran/log.f90
+++ b/src/fortran/log.f90
@@ -74,3 +74,23 @@ double precision function signed_datan2(y, x)
   endif
 
 end function signed_datan2
+
+
+!*********************************************************************
+!> @brief Implementation of log(|x + i*y|)
+!> @param x real argument
+!> @param y real argument
+!> @param nz |x + i*y| (which may have overflowed)
+!> @return log(|x + i*y|)
+!*********************************************************************
+double precision function dlog_abs(x, y, nz)
+  implicit none
+  double precision, intent(in) :: x, y, nz
+
+  if (nz .gt. huge(1D0)) then
+     dlog_abs = log(hypot(0.5D0*x, 0.5D0*y)) + log(2D0)
+  else
+     dlog_abs = log(nz)
+  endif
+
+end function dlog_abs
-- 
2.43.0


From aaa16d170b5dd37976c6447d8cd5bee2d9e48ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 06/12] fix: Fortran dli4 overwrote its argument

dli4(x) replaced its by-reference argument by 1/x for |x| > 1.
---
 src/fortran/Li4.f90 | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fortran/Li4.f90 b/src/fortran/Li4.f90
index 45f04d7..97ad235 100644
--- a/src/fortran/Li4.f90
+++ b/src/fortran/Li4.f90
@@ -103,17 +103,20 @@ end function dli4_one
 
 !*********************************************************************
 !> @brief Real 4-th order polylogarithm \f$\operatorname{Li}_4(x)\f$
-!> @param x real argument
-!> @return \f$\operatorname{Li}_4(x)\f$
+!> @param y real argument
+!> @return \f$\operatorname{Li}_4(y)\f$
 !> @author Alexander Voigt
 !*********************************************************************
-double precision function dli4(x)
+double precision function dli4(y)
   implicit none
+  double precision, intent(in) :: y
   double precision :: x, app, rest, sgn, l, l2
   double precision :: dli4_neg, dli4_half, dli4_mid, dli4_one
   double precision, parameter :: zeta2 = 1.6449340668482264D0
   double precision, parameter :: zeta4 = 1.0823232337111382D0
 
+  x = y ! the by-reference argument must not be modified
+
   ! transform x to [-1,1]
   if (x .lt. -1) then
      l = log(-x)
-- 
2.43.0


From 17ced05092ebd99650791f3a34d34b0ea6480d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:15 +0000
Subject: [PATCH 07/12] fix: Fortran cdli2 left its result undefined for NaN +
 0i

---
 src/fortran/Li2.f90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fortran/Li2.f90 b/src/fortran/Li2.f90
index 6c9fefd..cf1ae32 100644
--- a/src/fortran/Li2.f90
+++ b/src/fortran/Li2.f90
@@ -115,8 +115,11 @@ double complex function cdli2(z)
 
   ! special cases
   if (iz .eq. 0) then
-     if (rz .le. 1) cdli2 = dcmplx(dli2(rz), iz)
-     if (rz .gt. 1) cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     if (rz .le. 1) then
+        cdli2 = dcmplx(dli2(rz), iz)
+     else ! rz > 1 or NaN
+        cdli2 = dcmplx(dli2(rz), -PI*log(rz))
+     endif
      return
   endif
 
-- 
2.43.0


From 5533402a6ff207a93c7e9de22be0d82ea488c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 08/12] fix: avoid signed overflow in zeta(n) and neg_eta(n)
 for n = INT64_MIN + 1

---
 src/cpp/eta.cpp  | 2 +-
 src/cpp/zeta.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp/eta.cpp b/src/cpp/eta.cpp
index c59d618..2a59d28 100644
--- a/src/cpp/eta.cpp
+++ b/src/cpp/eta.cpp
@@ -85,7 +85,7 @@ double neg_eta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(NEG_ETA_NEG_N)/sizeof(NEG_ETA_NEG_N[0]))) {
          return NEG_ETA_NEG_N[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even(-(1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
diff --git a/src/cpp/zeta.cpp b/src/cpp/zeta.cpp
index bd691f4..b4aab24 100644
--- a/src/cpp/zeta.cpp
+++ b/src/cpp/zeta.cpp
@@ -87,7 +87,7 @@ double zeta(int64_t n) noexcept
          return 0.0;
       } else if (-(1 + n)/2 < static_cast<int64_t>(sizeof(ZETAS_NEG)/sizeof(ZETAS_NEG[0]))) {
          return ZETAS_NEG[-(1 + n)/2];
-      } else if (is_even((1 - n)/2)) {
+      } else if (!is_even(-(1 + n)/2)) {
          return std::numeric_limits<double>::infinity();
       } else {
          return -std::numeric_limits<double>::infinity();
-- 
2.43.0


From 3e38e46f3f0aac0b67881d0368f99aa382ab7485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 09/12] fix: avoid signed overflow in harmonic(INT64_MAX),
 which returned NaN

---
 src/cpp/harmonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp/harmonic.cpp b/src/cpp/harmonic.cpp
index 84e3e0d..64caa84 100644
--- a/src/cpp/harmonic.cpp
+++ b/src/cpp/harmonic.cpp
@@ -63,7 +63,7 @@ double harmonic(int64_t n) noexcept
       return sum;
    } else {
       const double eulergamma = 0.57721566490153286;
-      return eulergamma + digamma(n + 1);
+      return eulergamma + (digamma(n) + 1.0/n);
    }
 }
 
-- 
2.43.0


From e55ab783a7bc46c8ec198127b2746bf64e85264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 10/12] fix: terminate Li_series when the terms no longer
 decrease due to underflow

---
 src/cpp/Li.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 773994e..08e5a0e 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -33,6 +33,14 @@ namespace {
       return std::isfinite(std::real(z)) && std::isfinite(std::imag(z));
    }
 
+   /// returns true if z is so close to the underflow threshold that
+   /// rounding may prevent the powers z^k from decreasing any further
+   bool is_tiny(const std::complex<double>& z) noexcept
+   {
+      const double tiny = 64*std::numeric_limits<double>::denorm_min();
+      return std::abs(std::real(z)) < tiny && std::abs(std::imag(z)) < tiny;
+   }
+
    /// complex logarithm, converts -0.0 to 0.0
    std::complex<double> clog(const std::complex<double>& z) noexcept
    {
@@ -56,7 +64,7 @@ namespace {
          sum_old = sum;
          sum += p;
          p *= z*std::pow(k/(1.0 + k), n);
-         if (!is_finite(p)) { break; }
+         if (!is_finite(p) || is_tiny(p)) { break; }
       } while (sum != sum_old &&
                k < std::numeric_limits<int64_t>::max() - 2);
 
-- 
2.43.0


From 6558716ee5194a40d64afdc3759a9ad9ab5222d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 11/12] fix: stop summation in Li_unity_pos when converged,
 avoiding n iterations for large n

---
 src/cpp/Li.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 08e5a0e..30390e5 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -80,7 +80,9 @@ namespace {
 
       for (int64_t j = 1; j < n - 1; ++j) {
          p *= lnz/static_cast<double>(j);
+         const auto old_sum = sum;
          sum += zeta(n - j)*p;
+         if (sum == old_sum) { return sum; }
       }
 
       p *= lnz/static_cast<double>(n - 1);
-- 
2.43.0


From d577e6fb1a6032ca08edff1204510fba28a7dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 12/12] fix: avoid signed overflow in Li(n,z) for n close to
 INT64_MIN

---
 src/cpp/Li.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cpp/Li.cpp b/src/cpp/Li.cpp
index 30390e5..e7ec2cf 100644
--- a/src/cpp/Li.cpp
+++ b/src/cpp/Li.cpp
@@ -202,6 +202,13 @@ std::complex<double> Li(int64_t n, const std::complex<double>& z) noexcept
    } else if (z == -1.0) {
       return {neg_eta(n), std::imag(z)};
    } else if (n < -1) {
+      // avoid overflow of 1 - n, n - k, ... for extreme n, where the
+      // gamma and zeta functions have saturated long since
+      const int64_t nmin = std::numeric_limits<int64_t>::min()/2;
+      if (n < nmin) {
+         n = nmin + n % 4;
+      }
+
       // arXiv:2010.09860
       const double nz = std::norm(z);
       const double nl = std::norm(clog(z));
-- 
2.43.0

