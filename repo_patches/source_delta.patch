From fa7f411f922f9358ccc3b3443894b7823d23a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 01/20] fix: second operand offsets of Fp448 intmul2, intsqr2
 and reduce2

---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 505ecc12e660c6e53b0659fd5317e32ab0e6109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 02/20] fix: Fp448 mula24 writes memory, declare the clobber

---
 src/eltfp448_1w_fullradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..c001ea5 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1178,7 +1178,7 @@ DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
         "%r13", "%r15");
 }
 
@@ -1225,7 +1225,7 @@ DECL(void, mula24_mulq)(argElement_1w c, argElement_1w a) {
       "adcq    $0,%%r13; movq %%r13,48(%0);"
       :
       : "r"(c), "r"(a), "r"(a24)
-      : "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
+      : "memory", "cc", "%rax", "%rcx", "%rdx", "%r8", "%r9", "%r10", "%r11", "%r12",
         "%r13", "%r15");
 }
 
-- 
2.43.0


From a8c7bc8fb18a72581f3847916ed50e93d20dc2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 03/20] fix: four-way negation over GF(2^255-19) is bound to
 the four-way function

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From d9c129adf10495475de2ef94daebc7c2c2e6b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 04/20] fix: Fp25519 reduced-radix cmp returned 0 for some
 different elements

---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..12faa84 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -434,7 +434,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519);
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From edde19dd6f629a407db49b8b1db0e1d251289715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 05/20] fix: Fp448 reduced-radix prime cleared the low bit of
 the wrong digit

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..e783150 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -756,14 +756,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From b2eb5058e55af5e32c4ff80d902dc4d1bd8465b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 06/20] fix: Fp448 reduced-radix ser dropped carries and
 overlapping bits

---
 src/eltfp448_1w_redradix.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index e783150..24715ef 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -402,7 +402,7 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
 	* It only accepts positive coefficients.
 	* In order to remove negative coefficients, compute compress()
 	*/
-  int i;
+  int i, j;
   int64_t *pA = (int64_t*)puA;
   __int128_t a[NUM_DIGITS_FP448];
   __int128_t c[NUM_DIGITS_FP448_X64];
@@ -426,9 +426,20 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[5] = (c[4]>>64) + (a[11]<<(16+BASE_FP448))  + (a[9 ]<<16);
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
-  tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
+  for(j=0;j<2;j++)
+  {
+    tmp = c[NUM_DIGITS_FP448_X64-1]>>64;
+    for(i=0;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] = (uint64_t)c[i];
+    }
+    c[0] += tmp;
+    c[3] += tmp<<(4+BASE_FP448);
+    for(i=1;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] += c[i-1]>>64;
+    }
+  }
 
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
-- 
2.43.0


From c50721b0864b0c98f3683c45e97cfd96d4d5a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 07/20] fix: square root over GF(2^255-19) passes the radicand
 to invsqrt correctly, and the four-way version corrects the sign per lane

---
 src/eltfp25519_1w_fullradix.c |  4 +++-
 src/eltfp25519_1w_redradix.c  |  4 +++-
 src/eltfp25519_4w_redradix.c  | 13 +++++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..b817055 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1516,7 +1516,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_fullradix u, one = {1, 0, 0, 0};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 12faa84..0d8d466 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -801,7 +801,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_redradix u, one = {1};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..b6e82ba 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -883,13 +883,18 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(mul)(uv, uv3, v); /* v*B^2 */
   FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  __m256i is_equal = _mm256_cmpeq_epi64(FN(cmp)(uv, u), ZERO);
+  FN(mul)(uv3, uv_p38, sqrt_minus_one);/* (√-1)*B */
+  int i = 0;
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = _mm256_blendv_epi8(uv_p38[i], uv3[i], is_equal);
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_4w_redradix u, one = {SET164(1)};
+  FN(copy)(u, a);
+  FN(invsqrt)(c, u, one);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 3da152e48a4cf9214e13144d5cf2d03a22f26189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 08/20] fix: Ed25519 verification wrapped a digit when
 subtracting products, the bias is 2^35 p

---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..fed6e36 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1198,16 +1198,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From 6406c9350400e08a0c180526b55d42ec311343a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 09/20] fix: doubling over GF(2^255-19) subtracts two digits
 from 2p, bias with 4p

---
 src/eltfp25519_2w_redradix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..e896fb0 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -710,7 +710,8 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   int i=0;
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
-    __m256i T = SUB(_2P[i],A[i]);
+    /* A+B can exceed 2P in a digit, 4P keeps the difference positive */
+    __m256i T = SUB(ADD(_2P[i],_2P[i]),A[i]);
     C[i] = SUB(T,B[i]);
     D[i] = ADD(T,B[i]);
   }
-- 
2.43.0


From e4278f811cb2abdc65c8c0f36dace2472d17f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 10/20] fix: Ed448 mixed additions subtract products up to
 2^63, the bias is 2^35 p

---
 src/edwards448.c           | 30 +++++++++++++++++++-----------
 src/eltfp448_4w_redradix.c | 20 ++++++++++----------
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..487c3b9 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -501,15 +501,23 @@ static inline void _1way_doubling_2w_H0H8(PointXYZT_2w_H0H8 * P) {
 static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precompute_4w_H0H8 * P) {
   int i;
   EltFp448_4w_redradix ABCD, subYX_addYX_T_Z;
-  const __m256i CONST_2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000), SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000)
+  const __m256i CONST_2_to_35P[NUM_DIGITS_FP448] = {
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff000000000, 0, 0, 0x7ffffff000000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000)
   };
 
   const __m256i CONST_2P_00_00_00[NUM_DIGITS_FP448] = {
@@ -523,7 +531,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
       SET64(0, 0, 0, 0x1ffffffe), SET64(0, 0, 0, 0x1ffffffe)
   };
 
-  argElement_4w _2_to_34P = (argElement_2w) CONST_2_to_34P;
+  argElement_4w _2_to_35P = (argElement_2w) CONST_2_to_35P;
   argElement_4w _2P_00_00_00 = (argElement_2w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -543,7 +551,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP448; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp448._4w_red.arithex.compress(EGHF);
 
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..72a2508 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -236,21 +236,21 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 }
 
 DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
-  const __m256i _2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000),	SET164(0x3ffffffc00000000)
+  const __m256i _2_to_35P[NUM_DIGITS_FP448] = {
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff000000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000),
+      SET164(0x7ffffff800000000),	SET164(0x7ffffff800000000)
   };
   int i=0;
   for(i=0;i<NUM_DIGITS_FP448;i++)
   {
       __m256i add = ADD(A[i],B[i]);
-      __m256i sub = ADD(A[i],SUB(_2_to_34P[i], B[i]));
+      __m256i sub = ADD(A[i],SUB(_2_to_35P[i], B[i]));
       A[i] = add;
       B[i] = sub;
   }
-- 
2.43.0


From 38527b47e9314fd1c5c6909939f4ff54ebcb89ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 11/20] fix: Ed25519 point decoding accepts strings that encode
 no point

point_decoding_ed25519 always reported success: it accepted y-coordinates
with no point on the curve (and returned a point off the curve),
non-canonical y-coordinates, and the sign bit for x = 0. RFC 8032 (5.1.3)
rejects all of them.
---
 src/edwards255.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/edwards255.c b/src/edwards255.c
index fed6e36..73ddb9f 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1102,6 +1102,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  /* The y-coordinate must be encoded canonically */
+  modp_Fp255_1w_fullradix(Y);
+  if (((Y[0] ^ u[0]) | (Y[1] ^ u[1]) | (Y[2] ^ u[2]) | (Y[3] ^ u[3])) != 0) {
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1111,11 +1116,24 @@ static inline int point_decoding_ed25519(
   /*  v = dy^2+1 */
   Fp25519._1w_full.arith.add(v, v, one);
   /*  X = sqrt(u/v) */
+  Fp25519._1w_full.arith.misc.copy(T, u);
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /*  Checking whether v*x^2 == u */
+  Fp25519._1w_full.arith.misc.copy(u, X);
+  Fp25519._1w_full.arith.sqr(u);
+  Fp25519._1w_full.arith.mul(u, u, v);
+  if (Fp25519._1w_full.arith.cmp(T, u) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X == 1 && (X[0] | X[1] | X[2] | X[3]) == 0) {
+    /* x = 0 has no negative */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From 9f8c00413ed762e786354fff82e80b9b2cbe078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 12/20] fix: Ed448 point decoding follows RFC 8032 for every
 string

The sign was read from a digit that is not canonical (wrong point for
small x), y^2-1 and d*y^2-1 could underflow their lowest digit (y = 0 was
rejected), and non-canonical y-coordinates, bits 448 to 454 and the sign
bit for x = 0 were accepted.
---
 src/edwards448.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 487c3b9..a4c9680 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -799,20 +799,31 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
+  EltFp448_1w_redradix one = {0};
+  ALIGN uint8_t enc[SIZE_FP448];
   Ed448_PublicKey buf;
+  uint8_t x_bytes;
+  int i;
 
+  one[0] = 1;
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
   int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
   buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+  /* The y-coordinate must be encoded canonically */
+  Fp448._1w_red.arith.misc.ser(enc, Y);
+  if (memcmp(enc, buf, SIZE_FP448) != 0 || buf[ED448_KEY_SIZE_BYTES_PARAM - 1] != 0) {
+    return -1;
+  }
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
@@ -843,7 +854,15 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  Fp448._1w_red.arith.misc.ser(enc, X);
+  for (i = 0, x_bytes = 0; i < SIZE_FP448; i++) {
+    x_bytes |= enc[i];
+  }
+  if (x_bytes == 0 && bit_X != 0) {
+    /* x = 0 has no negative */
+    return -1;
+  }
+  if (bit_X != (enc[0] & 0x1)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
-- 
2.43.0


From 932f57fd0cd723c5cb51c91291d9624b94203fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 13/20] fix: Ed448 point decoding subtracts x^2 only after a
 carry pass

The one-way squaring returns digits up to 2^29+511; sub adds 2p, whose digits
are 2^29-1, so y^2-x^2 could borrow from digit to digit and decode to a wrong
point for some strings.
---
 src/edwards448.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index a4c9680..fa0f866 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -880,6 +880,7 @@ static int point_decoding_ed448(
   Fp448._1w_red.arith.neg(a);
   Fp448._1w_red.arithex.compressfast(a);
   Fp448._1w_red.arith.sqr(X);
+  new_compressfast_Fp448_1w_redradix(X);
   Fp448._1w_red.arith.sqr(Y);
   Fp448._1w_red.arith.add(b, Y, X);
   new_compressfast_Fp448_1w_redradix(b);
-- 
2.43.0


From 767c58f394c5f2b282af7bf7093a102451b5c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 14/20] fix: word64_multiplier propagates carries to the last
 word

---
 src/bytestring.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..6c1303c 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -77,19 +77,28 @@ static inline void word64_multiplier(
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
-#define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+  uint64_t carry;
+#define mul64x64(Z, K, X, Y)    __asm__ __volatile__ (\
+            "movq 0(%2), %%rax     ;"\
+            "mulq 0(%3)            ;"\
+            "addq %1, %%rax        ;"\
+            "adcq $0x0, %%rdx      ;"\
             "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0, %%rdx      ;"\
+            "movq %%rdx, %1        ;"\
+    :/* out  */ "+&r" ((Z)[0]),"+&r" (K)\
     :/* in   */ "r" (X),"r" (Y)\
     :/* regs */ "memory","cc","%rax","%rdx");
 
   for (i = 0; i < numA; i++) {
+    carry = 0;
     for (j = 0; j < numB; j++) {
-      mul64x64(C + i + j, A + i, B + j);
+      mul64x64(C + i + j, carry, A + i, B + j);
+    }
+    /* the carry of the row goes up to the last word */
+    for (j = i + numB; j < numA + numB; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
     }
   }
 #undef mul64x64
-- 
2.43.0


From 67db629f7a866c8adfe5a43468661b0969d0aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 15/20] fix: reduction modulo the order of Ed448 folds every
 carry and returns the canonical residue

---
 src/edwards448.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index fa0f866..2aa49b2 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -37,8 +37,9 @@
 static inline void modular_reduction_ed448(uint8_t *a) {
 	int i;
 	const uint64_t ellx4[4] = {0x721cf5b5529eec34,0x7a4cf635c8e9c2ab,0xeec492d944a725bf,0x20cd77058};
-	const uint64_t ell[4]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16};
+	const uint64_t ell[7]   = {0xdc873d6d54a7bb0d,0xde933d8d723a70aa,0x3bb124b65129c96f,0x08335dc16,0,0,0};
 	uint64_t *pA = (uint64_t *)a;
+	uint64_t carry, mask;
 
 	ALIGN uint64_t product[15];
 	ALIGN uint64_t high[8];
@@ -69,11 +70,28 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,ellx4,4,high,4);
 
-	high[0] = product[6]>>62;
+	high[0] = (product[7]<<2) | (product[6]>>62);
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	product[7] = 0;
+	word64_multiplier(product,ell,4,high,4);
+
+	/* product < 2^446 + 2^226 : subtract the order if product+ell >= 2^446 */
+	carry = 0;
+	for(i=0;i<7;i++)
+	{
+		high[i]  = product[i] + carry;
+		carry    = high[i] < carry;
+		high[i] += ell[i];
+		carry   += high[i] < ell[i];
+	}
+	mask = -(high[6]>>62);
+	high[6] &= (((uint64_t)1)<<62)-1;
+	for(i=0;i<7;i++)
+	{
+		product[i] = (product[i] & ~mask) | (high[i] & mask);
+	}
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
-- 
2.43.0


From 37b894dee156717b63d4b9a200af3e461dbca0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 16/20] fix: the Keccak state is read as bytes and as lanes,
 Ed448 hashes were wrong when optimised

---
 third_party/sha3.c | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..d6ebe5f 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -37,7 +37,10 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+/* the state is also accessed as bytes */
+typedef uint64_t __attribute__((__may_alias__)) Lane;
+
+static void KeccakF2(Lane *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +402,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((Lane *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +432,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((Lane *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +450,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((Lane *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((Lane *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +509,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const Lane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +521,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const Lane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +530,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +558,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const Lane *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +570,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const Lane *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +579,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From 12bf0872b98abfc0ea58e6763edabb188aab84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 17/20] fix: Ed448 verification rejects a second half that is
 not below the order

---
 src/sign448.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..35dbaa4 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -241,6 +241,27 @@ static int ed448ph_signctx(
   return ed448_sign_all(signature, message, message_length, context, context_length, public_key, private_key, 1);
 }
 
+/**
+ * The second half of a signature must be below the order of the base point.
+ *
+ * @param s
+ * @return 1 if it is, otherwise 0
+ */
+static inline int is_reduced_ed448(const uint8_t *s) {
+  static const uint8_t order[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23, 0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4, 0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f, 0x00};
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -296,6 +317,9 @@ static int ed448_verify_all(
   if (point_decoding_ed448(&A, NULL, (uint8_t *) public_key) != 0) {
     return EDDSA_ERROR_PUBLICKEY;
   }
+  if (!is_reduced_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
 
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
-- 
2.43.0


From 0bf2c24333ee2534511cc16e344c9794a1e6dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 18/20] fix: reduce64bits modulo the order of Ed25519 adds the
 order back to a negative difference

---
 src/sign255.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..35e7c55 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -207,13 +207,27 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  /* the difference may be negative: add the order back */
+  "movq     %%r9, %%rax  \n\t"
+  "sarq      $63, %%rax  \n\t"
+  "movq    %%rax, %%rdx  \n\t"
+  "movq    %%rax, %%r10  \n\t"
+  "andq    0(%1), %%rax  \n\t"
+  "andq    8(%1), %%rdx  \n\t"
+  "shrq      $63, %%r10  \n\t"
+  "shlq      $60, %%r10  \n\t"
+  "addq    %%rax, %%rbx  \n\t"
+  "adcq    %%rdx, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%r10,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From c9820904ad8ab242a9a6632260153a232309892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 19/20] fix: Ed25519 verification rejects a second half that is
 not below the order

---
 src/sign255.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index 35e7c55..e08afea 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -461,6 +461,25 @@ static int ed25519ph_signctx(
                           context, context_length, public_key, private_key, 0, 1);
 }
 
+/**
+ * The second half of a signature must be below the order of the base point.
+ *
+ * @param s
+ * @return 1 if it is, otherwise 0
+ */
+static inline int is_reduced_ed25519(const uint8_t *s) {
+  static const uint8_t order[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10};
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != order[i]) {
+      return s[i] < order[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -501,6 +520,9 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_reduced_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM))
+    return EDDSA_INVALID_SIGNATURE;
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
-- 
2.43.0


From a6882c066da6d1d20426d2afb61776a329fb54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:34 +0000
Subject: [PATCH 20/20] fix: prgn_random_bytes ends the process when the random
 device cannot be opened or read

It printed a message and went on: after a failed open every read fails, the
length is advanced by -1, and the function returned with an untouched buffer,
so keys were made of memory that is not random. An interrupted read is retried
and a short read continues at the right place.
---
 third_party/prng.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..4ce199a 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,24 +9,31 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
-  int c, fd = open("/dev/urandom", O_RDONLY);
+  ssize_t c;
+  int fd = open("/dev/urandom", O_RDONLY);
 
   if (fd == -1) {
     printf("Error opening /dev/urandom\n");
+    abort();
   }
 
   l = 0;
-  do {
+  while (l < num_bytes) {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
+    if (c == -1 && errno == EINTR) {
+      continue;
+    }
+    if (c <= 0) {
       printf("Error reading /dev/urandom\n");
+      abort();
     }
-  } while (l < num_bytes);
+    l += (size_t)c;
+  }
 
   close(fd);
 }
-- 
2.43.0

