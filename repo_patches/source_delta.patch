From b2ab50d67973f8179eebfea7df150bd049133df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 1/8] fix: EightStep ran worksharing loops outside its own
 parallel region

Called from a caller's parallel region the orphaned 'omp for' loops of
SixStep::part2 bound to the caller's team, so each caller thread computed
only a share of its own transform.
---
 src/otfft_eightstep.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/otfft_eightstep.h b/src/otfft_eightstep.h
index e283a08..3b08490 100644
--- a/src/otfft_eightstep.h
+++ b/src/otfft_eightstep.h
@@ -187,14 +187,14 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     fft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::fwdffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N0, x+N0, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N1, x+N1, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N2, x+N2, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N3, x+N3, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N4, x+N4, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N5, x+N5, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N6, x+N6, Wm, Ws);
+                OTFFT_SixStep::fwdffts<log_N-3,scale_1>()(iv, y+N7, x+N7, Wm, Ws);
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
@@ -329,14 +329,14 @@ constexpr int OMP_THRESHOLD2 = 1<<19;
                 for (int p = 0; p < N1; p += 2) {
                     ifft_and_mult_twiddle_factor_kernel(p, x, y, W);
                 }
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N0, x+N0, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N1, x+N1, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N2, x+N2, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N3, x+N3, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N4, x+N4, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N5, x+N5, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N6, x+N6, Wm, Ws);
-                OTFFT_SixStep::invffts<log_N-3,scale_1>::part2(iv, y+N7, x+N7, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N0, x+N0, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N1, x+N1, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N2, x+N2, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N3, x+N3, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N4, x+N4, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N5, x+N5, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N6, x+N6, Wm, Ws);
+                OTFFT_SixStep::invffts<log_N-3,scale_1>()(iv, y+N7, x+N7, Wm, Ws);
                 #pragma omp parallel for schedule(static) firstprivate(x,y)
                 for (int p = 0; p < N1; p += 2) {
                     transpose_kernel(p, y, x);
-- 
2.43.0


From c45ad4fc916a5d3469cf225c23c8784aeacfb500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 2/8] fix: length-1 complex transform (and RealFFT/DCT of
 length 2) dereferenced a null plan

---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 8c8ef81..27c3b46 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -67,7 +67,7 @@ namespace OTFFT_NAMESPACE
             // see upstream otfft_gen_setup.h
             switch (log_N)
             {
-            case  0: break;
+            case  0: obj = FFT8::instance(); obj->setup(N); break;
             case  1: obj = FFT2::instance(); obj->setup2(log_N); break;
             case  2: obj = FFT1::instance(); obj->setup2(log_N); break;
             case  3: obj = FFT4::instance(); obj->setup2(log_N); break;
-- 
2.43.0


From 112d443592d25d5c6dc689ec8370b7b6e0d46ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 3/8] fix: twiddle index i*j overflowed int for prime factors
 above 46341

---
 src/otfft_mixedradix.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/otfft_mixedradix.h b/src/otfft_mixedradix.h
index 5da234a..72c2f1b 100644
--- a/src/otfft_mixedradix.h
+++ b/src/otfft_mixedradix.h
@@ -11,6 +11,8 @@
 
 #include "otfft_misc.h"
 
+#include <stdint.h>
+
 namespace OTFFT_NAMESPACE {
 
 namespace OTFFT_MixedRadix { //////////////////////////////////////////////////
@@ -512,7 +514,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -532,7 +534,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[ms*((int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[i*sp]);
@@ -1069,7 +1071,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1089,7 +1091,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                         cpx z = zero;
                         for (int j = 0; j < k; j++) {
                             const cpx a   = getpz(x[q_sp+ms*j]);
-                            const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                            const cpx wij = getpz(W[N-ms*((int64_t(i)*j)%k)]);
                             z = z + a*wij;
                         }
                         const cpx wip = getpz(W[N-i*sp]);
@@ -1649,7 +1651,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[s*((i*j)%k)]);
+                        const cpx wij = getpz(W[s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -1674,7 +1676,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[ms*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[i*sp]);
@@ -2233,7 +2235,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q+s*j]);
-                        const cpx wij = getpz(W[N-s*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-s*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     setpz(y[q+s*i], z);
@@ -2258,7 +2260,7 @@ constexpr int OMP_THRESHOLD = 1<<15;
                     cpx z = zero;
                     for (int j = 0; j < k; j++) {
                         const cpx a   = getpz(x[q_sp+ms*j]);
-                        const cpx wij = getpz(W[N-ms*((i*j)%k)]);
+                        const cpx wij = getpz(W[N-ms*((int64_t(i)*j)%k)]);
                         z = z + a*wij;
                     }
                     const cpx wip = getpz(W[N-i*sp]);
-- 
2.43.0


From aa97bc811f5a6206a9f2812f50c7fc8e6714a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 4/8] fix: CPU probing executed XGETBV without checking OSXSAVE

---
 src/otfft.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/otfft.cpp b/src/otfft.cpp
index d9ae73d..ef48f68 100644
--- a/src/otfft.cpp
+++ b/src/otfft.cpp
@@ -117,7 +117,8 @@ namespace
             if (cpu_info_0[0] > 0)
             {
                 const auto cpu_info_1 = CPUID(1);
-                const auto cpu_info_xcr = XGETBV(0);
+                // XGETBV raises #UD unless the OS enabled it (OSXSAVE)
+                const auto cpu_info_xcr = (cpu_info_1[2] & 0x08000000) != 0 ? XGETBV(0) : 0;
 
                 CPU_FEATURE_XSAVE = ((cpu_info_1[2] & 0x04000000) != 0) && ((cpu_info_xcr & 6) == 6);
                 CPU_FEATURE_SSE = (cpu_info_1[3] & 0x02000000) != 0;
-- 
2.43.0


From 4196eb30446ed3d7d03408ec20e797dd3e760cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 5/8] fix: copying a simd_array freed its storage twice

---
 inc/otfft_complex.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index e0eb492..73fe659 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -265,6 +265,10 @@ template <class T> struct simd_array
         if (p == 0) throw std::bad_alloc();
     }
 
+    // owns p: a member-wise copy would free it twice
+    simd_array(const simd_array&) = delete;
+    simd_array& operator=(const simd_array&) = delete;
+
     ~simd_array() { if (p) simd_free(p); }
 
     void setup(int n)
-- 
2.43.0


From 1f58bccac89c908a037fd64ce844885e6e6ff87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 6/8] fix: DCT setup overflowed int (2*N) for the documented
 length 2^30

---
 src/otfft_algo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/otfft_algo.cpp b/src/otfft_algo.cpp
index 27c3b46..cf2e803 100644
--- a/src/otfft_algo.cpp
+++ b/src/otfft_algo.cpp
@@ -516,7 +516,7 @@ namespace OTFFT_NAMESPACE
         N = n;
         rfft.setup(N);
         weight.setup(N+1); V = &weight;
-        const double theta0 = M_PI/(2*N);
+        const double theta0 = M_PI/(2.0*N);
         const int Nh = N/2;
         if (N < 2) {}
         else if (N < OMP_THRESHOLD_W) for (int p = 0; p <= Nh; p++) {
-- 
2.43.0


From e0b686b62887339421a9874dbb485255718fab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 7/8] fix: functions reading through references are pure, not
 const

---
 inc/otfft_complex.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index 73fe659..d81fa28 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -24,7 +24,8 @@
 #endif
 
 #if __GNUC__ >= 3
-#define force_inline  __attribute__((const,always_inline))
+// not "const": most of these functions read memory through references
+#define force_inline  __attribute__((pure,always_inline))
 #define force_inline2 __attribute__((pure,always_inline))
 #define force_inline3 __attribute__((always_inline))
 //#define force_inline  __attribute__((const))
-- 
2.43.0


From bd7fe488e07d40798afcbaeb27247a2b375fbd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:24 +0000
Subject: [PATCH 8/8] fix: scaling a complex number by one of its own
 components

---
 inc/otfft_complex.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/otfft_complex.h b/inc/otfft_complex.h
index d81fa28..4fc6b65 100644
--- a/inc/otfft_complex.h
+++ b/inc/otfft_complex.h
@@ -100,15 +100,17 @@ struct complex_t
 
     complex_t& operator*=(const double& x) NOEXCEPT
     {
-        Re *= x;
-        Im *= x;
+        const double tmp = x; // x may be a component of *this
+        Re *= tmp;
+        Im *= tmp;
         return *this;
     }
 
     complex_t& operator/=(const double& x) NOEXCEPT
     {
-        Re /= x;
-        Im /= x;
+        const double tmp = x; // x may be a component of *this
+        Re /= tmp;
+        Im /= tmp;
         return *this;
     }
 
-- 
2.43.0

