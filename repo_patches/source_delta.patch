From a42f78bdd914bd66958b95159c5d9b70e0eeea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 01/13] fix: keep the log-amplitude predictor inside its
 57-entry history

When the previous frame has 56 harmonics the interpolation's upper
neighbour was read at index 57, one past the end of log2Ml (weight 0, but
an out-of-bounds access). Clamp it to the last band in all three decoders.
---
 src/ambe/ambe3600x2400.c | 8 +++++---
 src/ambe/ambe3600x2450.c | 8 +++++---
 src/imbe/imbe7200x4400.c | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index e86aebc..da4c0ab 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -158,7 +158,7 @@ int
 mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_mp) {
 
     int ji, i, j, k, l, L = 0, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], intkh[57];
     int b0, b1, b2, b3, b4, b5, b6, b7, b8;
     float f0, Cik[5][18], flokl[57], deltal[57];
     float Sum42, Sum43, Tl[57] = {0}, Gm[9], Ri[9], sum, c1, c2;
@@ -527,6 +527,8 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        /* Upper neighbour; carries zero weight when intkl is the last band. */
+        intkh[l] = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
@@ -537,7 +539,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkh[l]]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -557,7 +559,7 @@ mbe_decodeAmbe2400Parms(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkh[l]]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/ambe/ambe3600x2450.c b/src/ambe/ambe3600x2450.c
index 6bde721..3c43cbb 100644
--- a/src/ambe/ambe3600x2450.c
+++ b/src/ambe/ambe3600x2450.c
@@ -177,7 +177,7 @@ static int
 mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms* prev_mp, int total_errors) {
 
     int ji, i, j, k, l, L = 0, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], intkh[57];
     int b0, b1, b2, b3, b4, b5, b6, b7, b8;
     float f0, Cik[5][18], flokl[57], deltal[57];
     float Sum42, Sum43, Tl[57] = {0}, Gm[9], Ri[9], sum, c1, c2;
@@ -546,6 +546,8 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
         // eq. 40
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        /* Upper neighbour; carries zero weight when intkl is the last band. */
+        intkh[l] = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef AMBE_DEBUG
         fprintf(stderr, "flok%i: %f, intk%i: %i ", l, flokl[l], l, intkl[l]);
 #endif
@@ -556,7 +558,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
 #endif
         // eq 43
         Sum43 = Sum43
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkh[l]]));
     }
     Sum43 = (((float)0.65 / (float)cur_mp->L) * Sum43);
 #ifdef AMBE_DEBUG
@@ -576,7 +578,7 @@ mbe_decodeAmbe2450ParmsInternal(const char* ambe_d, mbe_parms* cur_mp, mbe_parms
     // Part 3
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = ((float)0.65 * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = ((float)0.65 * deltal[l] * prev_mp->log2Ml[intkh[l]]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum43 + BigGamma;
         // inverse log to generate spectral amplitudes
         if (cur_mp->Vl[l] == 1) {
diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index 87507d7..ac5faba 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -276,7 +276,7 @@ int
 mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_mp) {
 
     int Bm, ji, b, i, j, k, l, L, K, L9, m, am, ak;
-    int intkl[57];
+    int intkl[57], intkh[57];
     int b0, b2, bm;
     float Cik[7][11], rho, flokl[57], deltal[57];
     float Sum77, Tl[57] = {0.0f}, Gm[7], Ri[7], sum, c1, c2;
@@ -495,6 +495,8 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
         // eq. 75
         flokl[l] = ((float)prev_mp->L / (float)cur_mp->L) * (float)l;
         intkl[l] = (int)(flokl[l]);
+        /* Upper neighbour; carries zero weight when intkl is the last band. */
+        intkh[l] = (intkl[l] < 56) ? (intkl[l] + 1) : 56;
 #ifdef IMBE_DEBUG
         fprintf(stderr, "flokl: %e, intkl: %i ", flokl[l], intkl[l]);
 #endif
@@ -505,7 +507,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
 #endif
         // eq 77
         Sum77 = Sum77
-                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkl[l] + 1]));
+                + ((((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]) + (deltal[l] * prev_mp->log2Ml[intkh[l]]));
     }
     Sum77 = ((rho / (float)cur_mp->L) * Sum77);
 
@@ -516,7 +518,7 @@ mbe_decodeImbe4400Parms(const char* imbe_d, mbe_parms* cur_mp, mbe_parms* prev_m
     // Part 2
     for (l = 1; l <= cur_mp->L; l++) {
         c1 = (rho * ((float)1 - deltal[l]) * prev_mp->log2Ml[intkl[l]]);
-        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkl[l] + 1]);
+        c2 = (rho * deltal[l] * prev_mp->log2Ml[intkh[l]]);
         cur_mp->log2Ml[l] = Tl[l] + c1 + c2 - Sum77;
         cur_mp->Ml[l] = exp2f(cur_mp->log2Ml[l]);
 #ifdef IMBE_DEBUG
-- 
2.43.0


From c97d9d6fed433c3bb1f76d8a10dde80a3745bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 02/13] fix: report allocation failure from pffft_new_setup
 instead of dereferencing NULL

mbe_fft_plan_alloc() expects NULL on failure, but both allocations inside
the setup were used unchecked, so the first synthesized frame crashed when
memory was short.
---
 src/external/pffft/pffft.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/external/pffft/pffft.c b/src/external/pffft/pffft.c
index 9fe0fb7..b594aa3 100644
--- a/src/external/pffft/pffft.c
+++ b/src/external/pffft/pffft.c
@@ -1370,6 +1370,9 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     }
     PFFFT_Setup* s = (PFFFT_Setup*)malloc(sizeof(PFFFT_Setup));
     int k, m;
+    if (!s) {
+        return 0;
+    }
     /* unfortunately, the fft size must be a multiple of 16 for complex FFTs
      and 32 for real FFTs -- a lot of stuff would need to be rewritten to
      handle other cases (or maybe just switch to a scalar fft, I don't know..) */
@@ -1385,6 +1388,10 @@ pffft_new_setup(int N, pffft_transform_t transform) {
     /* nb of complex simd vectors */
     s->Ncvec = (transform == PFFFT_REAL ? N / 2 : N) / SIMD_SZ;
     s->data = (v4sf*)pffft_aligned_malloc(2 * s->Ncvec * sizeof(v4sf));
+    if (!s->data) {
+        free(s);
+        return 0;
+    }
     s->e = (float*)s->data;
     s->twiddle = (float*)(s->data + (2 * s->Ncvec * (SIMD_SZ - 1)) / SIMD_SZ);
 
-- 
2.43.0


From 40e171e0506a366276fa7fac74e9f6986c2cfa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 03/13] fix: ignore bits above the 23-bit codeword in
 mbe_checkGolayBlock

The header documents that upper bits are ignored and that 12 data bits are
returned, but they were shifted down into the result.
---
 src/ecc/ecc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecc/ecc.c b/src/ecc/ecc.c
index 5ce7b80..a127d3d 100644
--- a/src/ecc/ecc.c
+++ b/src/ecc/ecc.c
@@ -45,7 +45,7 @@ mbe_checkGolayBlock(long int* block) {
     uint32_t mask;
     uint32_t block_u;
 
-    block_u = (uint32_t)(*block);
+    block_u = (uint32_t)(*block) & 0x7fffffu; /* 23-bit codeword; upper bits ignored */
 
     mask = 0x400000u; /* MSB of 23-bit codeword */
     eccexpected = 0;
-- 
2.43.0


From 9e7aa7c65040ebb98417d9bb03399c4df41c53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 04/13] fix: keep spectral enhancement weights finite for very
 loud frames

Energies above about 2^64 overflowed the squared products, turning the
weights, the amplitudes and the synthesized audio into NaN. The weights do
not depend on the overall level, so compute them from normalized energies
when the frame energy is very large.
---
 src/core/mbelib.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 82f2d8c..2dc31d8 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -369,17 +369,25 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     /* JMBE Algorithm #111 uses pre-enhancement RM0 for local-energy tracking. */
     mbe_setPreEnhRm0(cur_mp, Rm0);
 
-    R2m0 = (Rm0 * Rm0);
-    R2m1 = (Rm1 * Rm1);
+    /* The weights are independent of the overall level, so normalize very large
+     * energies to keep the products below within float range. */
+    float level = 1.0f, e0 = Rm0, e1 = Rm1;
+    if (Rm0 > 1.0e12f) {
+        level = 1.0f / sqrtf(Rm0);
+        e1 = Rm1 / Rm0;
+        e0 = 1.0f;
+    }
+    R2m0 = (e0 * e0);
+    R2m1 = (e1 * e1);
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
     for (l = 1; l <= L; l++) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
-            Wl[l] = sqrtf(cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * Rm0 * Rm1 * cos_w0l)))
-                                  / (cur_mp->w0 * Rm0 * (R2m0 - R2m1))));
+            Wl[l] = sqrtf(level * cur_mp->Ml[l])
+                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * e0 * e1 * cos_w0l)))
+                                  / (cur_mp->w0 * e0 * (R2m0 - R2m1))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From a29431d5c173918c5062aaf1169bb46210d51ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 05/13] fix: skip spectral enhancement when the frame has no
 spectral shape

Repeating an AMBE erasure model (w0 == 0) divided 0 by 0 and left NaN
amplitudes in the decoder state.
---
 src/core/mbelib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 2dc31d8..a87e730 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -379,6 +379,9 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     }
     R2m0 = (e0 * e0);
     R2m1 = (e1 * e1);
+    if (!(cur_mp->w0 * e0 * (R2m0 - R2m1) > 0.0f)) {
+        return; /* no spectral shape to enhance (e.g. an erasure model repeated, w0 == 0) */
+    }
 
     /* Compute spectral weight Wl and apply clipping
      * This loop has complex conditionals that are hard to vectorize effectively */
-- 
2.43.0


From 05d1f02747052895c2f831d0e21dfb663adaf8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 06/13] fix: keep the D-STAR single tone that was just
 synthesized

A valid single-tone frame rendered its tone, but the final fallback then
overwrote the audio with comfort noise and reset the stream state, so
D-STAR tones were never heard.
---
 src/ambe/ambe3600x2400.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index da4c0ab..7cc76a0 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -605,6 +605,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
                          mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhanced, int uvquality) {
 
     int i, bad;
+    int tone_played = 0;
 
     /* AMBE family uses W124 defaults in JMBE; normalize generic init state. */
     mbe_ensureAmbeDefaults_common(cur_mp, prev_mp, prev_mp_enhanced);
@@ -646,6 +647,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
+        tone_played = 1;
     } else if (*errs2 > 3) {
         mbe_useLastMbeParms(cur_mp, prev_mp);
         cur_mp->repeat++;
@@ -673,7 +675,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_moveMbeParms(cur_mp, prev_mp);
         mbe_moveMbeParms(cur_mp, prev_mp_enhanced);
-    } else {
+    } else if (!tone_played) {
         mbe_synthesizeComfortNoisef(aout_buf);
         mbe_initAmbeParms_common(cur_mp, prev_mp, prev_mp_enhanced);
     }
-- 
2.43.0


From e3437b7636f476a2ea589964a6bc2d1771751a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 07/13] fix: play D-STAR tone indices 5 and 6

The decoder reports 5..122 as valid single tones and the tone renderer has
entries for 5 (156.25 Hz) and 6 (187.5 Hz), but the frame path only
accepted 7..122 and replaced the two lowest tones with comfort noise.
---
 src/ambe/ambe3600x2400.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ambe/ambe3600x2400.c b/src/ambe/ambe3600x2400.c
index 7cc76a0..b6882e9 100644
--- a/src/ambe/ambe3600x2400.c
+++ b/src/ambe/ambe3600x2400.c
@@ -643,7 +643,7 @@ mbe_processAmbe2400Dataf(float* aout_buf, const int* errs, const int* errs2, cha
         cur_mp->repeatCount = 0;
     }
     // If we have a plausible single-frequency tone and errors are within margin
-    else if ((bad >= 7) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
+    else if ((bad >= 5) && (bad <= 122) && (*errs < 2) && (*errs2 < 3)) {
         // Synthesize single-frequency tone; 'bad' carries the tone ID value
         mbe_synthesizeTonefdstar(aout_buf, ambe_d, cur_mp, bad);
         mbe_moveMbeParms(cur_mp, prev_mp);
-- 
2.43.0


From edc3d611ef7538d6e98195586e4b1c5798797499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 08/13] fix: saturate the adaptive amplitude threshold instead
 of overflowing int

---
 src/core/mbe_adaptive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 68c3859..142f09f 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -7,6 +7,7 @@
  */
 
 #include <float.h>
+#include <limits.h>
 #include <math.h>
 #include <stdint.h>
 #include <string.h>
@@ -247,6 +248,9 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     int prevThreshold = prev_mp->amplitudeThreshold;
     if (prevThreshold <= 0) {
         prevThreshold = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
+    } else if (prevThreshold > INT_MAX - MBE_AMPLITUDE_BASE) {
+        /* Saturate: long runs of lightly errored frames raise the threshold every frame. */
+        prevThreshold = INT_MAX - MBE_AMPLITUDE_BASE;
     }
 
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
-- 
2.43.0


From 268a1588e614d0e3eeab0260868d38d289f6327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 09/13] fix: keep the IMBE muting threshold on frames repeated
 from AMBE state

---
 src/imbe/imbe7200x4400.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/imbe/imbe7200x4400.c b/src/imbe/imbe7200x4400.c
index ac5faba..e851ca0 100644
--- a/src/imbe/imbe7200x4400.c
+++ b/src/imbe/imbe7200x4400.c
@@ -625,6 +625,7 @@ mbe_processImbe4400Dataf_withC0(float* aout_buf, const int* errs2, char* err_str
             imbe_reset_headroom_defaults(cur_mp);
         } else {
             mbe_useLastMbeParms(cur_mp, prev_mp);
+            cur_mp->mutingThreshold = MBE_MUTING_THRESHOLD_IMBE;
             cur_mp->repeat++;
             cur_mp->repeatCount++;
         }
-- 
2.43.0


From b21ef3c4e9ec89c5e6932415ecc6632a6acfc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 10/13] fix: forget a pending enhancement energy when the
 decoder state is reset

---
 src/ambe/ambe_common.c      | 5 +++++
 src/core/mbe_adaptive.c     | 7 +++++++
 src/core/mbelib.c           | 5 +++++
 src/internal/mbe_adaptive.h | 7 +++++++
 4 files changed, 24 insertions(+)

diff --git a/src/ambe/ambe_common.c b/src/ambe/ambe_common.c
index 6f056e9..cfe5cbf 100644
--- a/src/ambe/ambe_common.c
+++ b/src/ambe/ambe_common.c
@@ -143,6 +143,11 @@ mbe_initAmbeParms_common(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_
 
     *cur_mp = *prev_mp;
     *prev_mp_enhanced = *prev_mp;
+
+    /* A reset also forgets an enhancement that was never synthesized. */
+    mbe_dropPreEnhRm0(cur_mp);
+    mbe_dropPreEnhRm0(prev_mp);
+    mbe_dropPreEnhRm0(prev_mp_enhanced);
 }
 
 void
diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 142f09f..3ed95cc 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -51,6 +51,13 @@ mbe_setPreEnhRm0(const mbe_parms* owner, float rm0) {
     }
 }
 
+void
+mbe_dropPreEnhRm0(const mbe_parms* owner) {
+    if (owner && mbe_pre_enh_owner == owner) {
+        mbe_setPreEnhRm0(NULL, 0.0f);
+    }
+}
+
 /**
  * @brief Java Random-compatible next(bits) generator for comfort noise.
  *
diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index a87e730..86f6772 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -261,6 +261,11 @@ mbe_initMbeParms(mbe_parms* cur_mp, mbe_parms* prev_mp, mbe_parms* prev_mp_enhan
 
     mbe_moveMbeParms(prev_mp, cur_mp);
     mbe_moveMbeParms(prev_mp, prev_mp_enhanced);
+
+    /* A reset also forgets an enhancement that was never synthesized. */
+    mbe_dropPreEnhRm0(cur_mp);
+    mbe_dropPreEnhRm0(prev_mp);
+    mbe_dropPreEnhRm0(prev_mp_enhanced);
 }
 
 /**
diff --git a/src/internal/mbe_adaptive.h b/src/internal/mbe_adaptive.h
index 8d301e2..10d78fb 100644
--- a/src/internal/mbe_adaptive.h
+++ b/src/internal/mbe_adaptive.h
@@ -61,6 +61,13 @@
  */
 void mbe_setPreEnhRm0(const mbe_parms* owner, float rm0);
 
+/**
+ * @brief Drop a pending RM0 handoff when its owner is re-initialized.
+ *
+ * @param owner Parameter set being reset.
+ */
+void mbe_dropPreEnhRm0(const mbe_parms* owner);
+
 /**
  * @brief Seed the comfort-noise RNG used by mbe_synthesizeComfortNoisef().
  *
-- 
2.43.0


From e22e11cf737a43f83d98e8db18922afbdd668667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 11/13] fix: keep enhancement weights real when one harmonic
 dominates

When nearly all energy sits in one harmonic at the band edge, the weight's
numerator rounds slightly below zero and its square root turned the whole
spectrum into NaN. Clamp it at zero; the weight is then limited to 0.5.
---
 src/core/mbelib.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 86f6772..2fad6b9 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -393,9 +393,11 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
     for (l = 1; l <= L; l++) {
         if (cur_mp->Ml[l] != 0.0f) {
             const float cos_w0l = cos_tab[l];
-            Wl[l] = sqrtf(level * cur_mp->Ml[l])
-                    * sqrtf(sqrtf(((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * e0 * e1 * cos_w0l)))
-                                  / (cur_mp->w0 * e0 * (R2m0 - R2m1))));
+            float num = ((float)0.96 * (float)M_PI * ((R2m0 + R2m1) - ((float)2 * e0 * e1 * cos_w0l)));
+            if (num < 0.0f) {
+                num = 0.0f; /* never negative except by rounding, when one harmonic dominates the frame */
+            }
+            Wl[l] = sqrtf(level * cur_mp->Ml[l]) * sqrtf(sqrtf(num / (cur_mp->w0 * e0 * (R2m0 - R2m1))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From cc412d67b8f411b75f7ef16070e8d4a1d51924dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 12/13] fix: weigh negative amplitudes by their magnitude in
 spectral enhancement

---
 src/core/mbelib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/mbelib.c b/src/core/mbelib.c
index 2fad6b9..90661ed 100644
--- a/src/core/mbelib.c
+++ b/src/core/mbelib.c
@@ -397,7 +397,8 @@ mbe_spectralAmpEnhance(mbe_parms* cur_mp) {
             if (num < 0.0f) {
                 num = 0.0f; /* never negative except by rounding, when one harmonic dominates the frame */
             }
-            Wl[l] = sqrtf(level * cur_mp->Ml[l]) * sqrtf(sqrtf(num / (cur_mp->w0 * e0 * (R2m0 - R2m1))));
+            /* The magnitude: adaptive smoothing may leave negative amplitudes behind. */
+            Wl[l] = sqrtf(level * fabsf(cur_mp->Ml[l])) * sqrtf(sqrtf(num / (cur_mp->w0 * e0 * (R2m0 - R2m1))));
 
             if ((8 * l) <= L) {
                 /* no-op for low harmonics */
-- 
2.43.0


From 0d2e9dba42c818e9ddbf63d1c6894de197d63ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 13/13] fix: saturate the adaptive amplitude threshold for
 extreme error counts

---
 src/core/mbe_adaptive.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/mbe_adaptive.c b/src/core/mbe_adaptive.c
index 3ed95cc..19d8a14 100644
--- a/src/core/mbe_adaptive.c
+++ b/src/core/mbe_adaptive.c
@@ -263,7 +263,9 @@ mbe_applyAdaptiveSmoothing(mbe_parms* cur_mp, const mbe_parms* prev_mp) {
     if (errorRate <= MBE_ERROR_THRESHOLD_LOW && errorTotal <= 6) {
         Tm = MBE_DEFAULT_AMPLITUDE_THRESHOLD;
     } else {
-        Tm = MBE_AMPLITUDE_BASE - (MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal) + prevThreshold;
+        /* The error count comes from the caller: saturate instead of overflowing. */
+        const int64_t next = ((int64_t)MBE_AMPLITUDE_BASE - ((int64_t)MBE_AMPLITUDE_PENALTY_PER_ERROR * errorTotal)) + prevThreshold;
+        Tm = (next < INT_MIN) ? INT_MIN : ((next > INT_MAX) ? INT_MAX : (int)next);
     }
     cur_mp->amplitudeThreshold = Tm;
 
-- 
2.43.0

