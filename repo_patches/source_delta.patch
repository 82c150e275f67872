From a62c2d50f91d1fbe3bf5487531f7b08f9360475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 01/51] fix: fnft_nsev modified the options of the caller and
 the shared defaults

---
 src/fnft_nsev.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..6725d24 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -25,7 +25,7 @@
 
 #include "fnft_nsev.h"
 
-static fnft_nsev_opts_t default_opts = {
+static const fnft_nsev_opts_t default_opts = {
     .bound_state_filtering = nsev_bsfilt_FULL,
     .bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE,
     .niter = 100,
@@ -147,8 +147,13 @@ INT fnft_nsev(
         COMPLEX * const bound_states,
         COMPLEX * const normconsts_or_residues,
         const INT kappa,
-        fnft_nsev_opts_t *opts)
+        fnft_nsev_opts_t *user_opts)
 {
+    // Some options are changed below while the individual steps are carried
+    // out. Work on a copy so that neither the options of the caller nor the
+    // (shared) default options are ever modified.
+    fnft_nsev_opts_t opts_copy = (user_opts != NULL) ? *user_opts : default_opts;
+    fnft_nsev_opts_t * const opts = &opts_copy;
     COMPLEX *qsub_preprocessed = NULL;
     COMPLEX *rsub_preprocessed = NULL;
     COMPLEX *q_preprocessed = NULL;
@@ -183,8 +188,6 @@ INT fnft_nsev(
         if (K_ptr == NULL)
             return E_INVALID_ARGUMENT(K_ptr);
     }
-    if (opts == NULL)
-        opts = &default_opts;
 
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From 311971461e5f459a5549552c361526ca114182d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 02/51] fix: fnft_nsev leaked its buffers on several error
 paths

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6725d24..828a272 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -827,7 +827,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -893,7 +893,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1005,13 +1005,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 805903f3e09802b0647924f43e7d00325217eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 03/51] fix: fnft_nsev freed buffers twice if preprocessing
 failed during Richardson extrapolation

---
 src/fnft_nsev.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 828a272..c933618 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -385,10 +385,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 006843a803fbc79dfbac4b5064cbb316c7582f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 04/51] fix: fnft_nsev Richardson extrapolation overran the
 residues array and dereferenced optional outputs

---
 src/fnft_nsev.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index c933618..6ae14ff 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -262,7 +262,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && kappa == +1 && bound_states != NULL
+                && normconsts_or_residues != NULL && *K_ptr > 0){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -320,7 +321,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -410,8 +411,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -438,7 +439,7 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -449,11 +450,10 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if they were kept in the reserve
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr* sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From f88d66600e325081826d244a045735a6f6bc1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 05/51] fix: fnft_nsev divided by zero if opts->Dsub was larger
 than 2*D

---
 src/fnft_nsev.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6ae14ff..498f6ec 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -294,6 +294,8 @@ INT fnft_nsev(
         Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = (UINT) SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
         nskip_per_step = (UINT) ROUND((REAL)D / Dsub);
         Dsub = (UINT) ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From 84db0e715896a0fe4f9c941e25ea333a5d940735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 06/51] fix: fnft_kdvv modified the options of the caller and
 the shared defaults

---
 src/fnft_kdvv.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..b31ddf9 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -25,7 +25,7 @@
 
 #include "fnft_kdvv.h"
 
-static fnft_kdvv_opts_t default_opts = {
+static const fnft_kdvv_opts_t default_opts = {
     .bound_state_localization = kdvv_bsloc_GRIDSEARCH_AND_REFINE,
     .niter = 10,
     .discspec_type = kdvv_dstype_NORMING_CONSTANTS,
@@ -128,8 +128,13 @@ INT fnft_kdvv(
         UINT * const K_ptr,
         COMPLEX * const bound_states,
         COMPLEX * const normconsts_or_residues,
-        fnft_kdvv_opts_t *opts)
+        fnft_kdvv_opts_t *user_opts)
 {
+    // Some options are changed below while the individual steps are carried
+    // out. Work on a copy so that neither the options of the caller nor the
+    // (shared) default options are ever modified.
+    fnft_kdvv_opts_t opts_copy = (user_opts != NULL) ? *user_opts : default_opts;
+    fnft_kdvv_opts_t * const opts = &opts_copy;
     const INT kappa = 1;
     COMPLEX *qsub_preprocessed = NULL;
     COMPLEX *rsub_preprocessed = NULL;
@@ -168,9 +173,6 @@ INT fnft_kdvv(
             return E_INVALID_ARGUMENT(XI);
     }
 
-    if (opts == NULL)
-        opts = &default_opts;
-
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
-- 
2.43.0


From c7906b614576a33b3d93f0d3cfabc26284ee20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 07/51] fix: fnft_kdvv leaked its buffers on several error
 paths

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index b31ddf9..52691f1 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -746,7 +746,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -851,7 +851,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -955,13 +955,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From a6ba70695aff63aae6c37031d4b6f9c9263a5b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 08/51] fix: fnft_kdvv Richardson extrapolation overran the
 residues array and dereferenced optional outputs

---
 src/fnft_kdvv.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 52691f1..8ea6124 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -217,7 +217,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL && *K_ptr > 0){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -240,7 +241,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -325,8 +326,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -353,7 +354,7 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -364,11 +365,10 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if they were kept in the reserve
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues,normconsts_or_residues_reserve+*K_ptr,*K_ptr* sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From 96035c7ea543f15fec6bca15876e907787c6dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 09/51] fix: fnft_kdvv read XI although no continuous spectrum
 was requested

---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 8ea6124..e8608ff 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -167,10 +167,10 @@ INT fnft_kdvv(
     if (contspec != NULL) {
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
-    }
-    for (i=0; i<M; i++){
-        if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
-            return E_INVALID_ARGUMENT(XI);
+        for (i=0; i<M; i++){
+            if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
+                return E_INVALID_ARGUMENT(XI);
+        }
     }
 
     if (bound_states != NULL) {
-- 
2.43.0


From 7eba22dfd0256944783a9e1a1a63c6b48b44ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 10/51] fix: fnft_manakovv modified the options of the caller
 and the shared defaults

---
 src/fnft_manakovv.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..5b80ff4 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -25,7 +25,7 @@
 
 #include "fnft_manakovv.h"
 
-static fnft_manakovv_opts_t default_opts = {
+static const fnft_manakovv_opts_t default_opts = {
 	.bound_state_filtering = manakovv_bsfilt_FULL,
 	.bound_state_localization = manakovv_bsloc_SUBSAMPLE_AND_REFINE,
 	.niter = 10,
@@ -120,8 +120,13 @@ INT fnft_manakovv(
 	COMPLEX* const bound_states,
 	COMPLEX* const normconsts_or_residues,
 	const INT kappa,
-	fnft_manakovv_opts_t* opts)
+	fnft_manakovv_opts_t* user_opts)
 {
+	// Some options are changed below while the individual steps are carried
+	// out. Work on a copy so that neither the options of the caller nor the
+	// (shared) default options are ever modified.
+	fnft_manakovv_opts_t opts_copy = (user_opts != NULL) ? *user_opts : default_opts;
+	fnft_manakovv_opts_t* const opts = &opts_copy;
 	COMPLEX* q1sub_preprocessed = NULL;
 	COMPLEX* q2sub_preprocessed = NULL;
 	COMPLEX* q1_preprocessed = NULL;
@@ -156,8 +161,6 @@ INT fnft_manakovv(
 		if (K_ptr == NULL)
 			return E_INVALID_ARGUMENT(K_ptr);
 	}
-	if (opts == NULL)
-		opts = &default_opts;
 
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
-- 
2.43.0


From b2c9b35022eaf94c3f3ce7f445c43fbdcd902e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 11/51] fix: fnft_manakovv leaked its buffers on several error
 paths

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 5b80ff4..1a087eb 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -559,7 +559,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -626,7 +626,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 832823e34820f6a744882c1df23b27a2cb31b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 12/51] fix: fnft_manakovv freed buffers twice if preprocessing
 failed during Richardson extrapolation

---
 src/fnft_manakovv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 1a087eb..47ffa1a 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -293,10 +293,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 13316e28736ca516d87901e045f6b1fb85b633f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 13/51] fix: fnft_manakovv dereferenced optional outputs and
 leaked during Richardson extrapolation

---
 src/fnft_manakovv.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 47ffa1a..babc7ff 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -136,9 +136,7 @@ INT fnft_manakovv(
 	UINT first_last_index[2] = { 0 };
 	UINT K_sub;
 	COMPLEX* contspec_sub = NULL;
-	COMPLEX* normconsts_or_residues_reserve = NULL;
 	fnft_manakovv_bsloc_t bs_loc_opt = 0;
-	fnft_manakovv_dstype_t ds_type_opt = 0;
 	INT ret_code = SUCCESS;
 	UINT i, j, upsampling_factor;
 
@@ -202,18 +200,6 @@ INT fnft_manakovv(
 	// Determine step size
 	const REAL eps_t = (T[1] - T[0]) / (D - 1);
 
-	if (opts->richardson_extrapolation_flag == 1) {
-		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
-			opts->discspec_type = manakovv_dstype_BOTH;
-			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
-			if (normconsts_or_residues_reserve == NULL) {
-				ret_code = E_NOMEM;
-				goto leave_fun;
-			}
-		}
-	}
-
 	// Some higher-order discretizations require samples on a non-equidistant grid
 	// while others require derivatives. The preprocessing function computes
 	// the required non-equidistant samples using bandlimited interpolation and
@@ -312,13 +298,12 @@ INT fnft_manakovv(
 			NULL, kappa, opts);	// bound_states already calculated. Passing NULL for boundstates to avoid recalculating
 		CHECK_RETCODE(ret_code, leave_fun);
 		opts->bound_state_localization = bs_loc_opt;
-		opts->discspec_type = ds_type_opt;
 
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -334,8 +319,6 @@ leave_fun:
     free(q1sub_preprocessed);
 	free(q2sub_preprocessed);
 	free(contspec_sub);
-	if (normconsts_or_residues_reserve != normconsts_or_residues)
-		free(normconsts_or_residues_reserve);
 	return ret_code;
 }
 
-- 
2.43.0


From cc32637b17462753b57fbc02633e7e6e9ef0bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 14/51] fix: fnft_manakovv computed the bound states twice, the
 first result limiting the capacity of the second

---
 src/fnft_manakovv.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index babc7ff..adb4249 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -213,10 +213,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From af84b7a21bd0c6f53c25e7c9573fc315d3c49fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 15/51] fix: fnft_manakovv divided by zero if opts->Dsub was
 larger than 2*D

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index adb4249..03a8c13 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -225,6 +225,8 @@ INT fnft_manakovv(
 		Dsub = opts->Dsub;
         if (Dsub == 0) // The user wants us to determine Dsub
             Dsub = SQRT(D * LOG2(D) * LOG2(D));
+        if (Dsub > D)
+            Dsub = D;
         UINT nskip_per_step = ROUND((REAL)D / Dsub);
         Dsub = ROUND((REAL)D / nskip_per_step); // actual Dsub
 
-- 
2.43.0


From 1a49a374aca1466a53b90bceab1537a3c77bedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 16/51] fix: fnft_manakovv did not report zero bound states
 when none were computed

---
 src/fnft_manakovv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 03a8c13..b27de13 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -237,6 +237,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 4d45d16bdd380560beae9969323771555e06e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 17/51] fix: manakov preprocessing ignored failed allocations
 and resampling errors and leaked

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..3167d1b 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -113,6 +113,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         UINT * const first_last_index,  manakov_discretization_t discretization){
 
     UINT isub, i, D_effective;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
     COMPLEX *q1_c1 = NULL;
     COMPLEX *q1_c2 = NULL;
     COMPLEX *q2_c1 = NULL;
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL || q1_c1 == NULL
+        || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL || q1_sub == NULL
+        || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -226,6 +234,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From bb0841c45baed7464ca63c416f625e4c8e005c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 18/51] fix: akns preprocessing leaked its outputs on error
 paths

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..8451ffd 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -431,6 +431,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
 
     UINT i, D_effective, isub;
     INT ret_code = SUCCESS;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
     COMPLEX *q_1 = NULL;
     COMPLEX *q_2 = NULL;
     COMPLEX *q_3 = NULL;
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From 278a74e006ec75568dc7f69c6bdc3bea4f1f33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 19/51] fix: fnft_nsep modified the options of the caller and
 the shared defaults

---
 src/fnft_nsep.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..38bd888 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -25,7 +25,7 @@
 
 #include "fnft_nsep.h"
 
-static fnft_nsep_opts_t default_opts = {
+static const fnft_nsep_opts_t default_opts = {
     .localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE,
     .filtering = fnft_nsep_filt_AUTO,
     .max_evals = 50,
@@ -95,8 +95,12 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         REAL const * const T, REAL const phase_shift, UINT * const K_ptr,
         COMPLEX * const main_spec, UINT * const M_ptr,
         COMPLEX * const aux_spec, REAL * const sheet_indices,
-        const INT kappa, fnft_nsep_opts_t * opts_ptr)
+        const INT kappa, fnft_nsep_opts_t * user_opts_ptr)
 {
+    // The bounding box is changed below. Work on a copy so that neither the
+    // options of the caller nor the (shared) default options are modified.
+    fnft_nsep_opts_t opts_copy = (user_opts_ptr != NULL) ? *user_opts_ptr : default_opts;
+    fnft_nsep_opts_t * const opts_ptr = &opts_copy;
     INT ret_code = SUCCESS;
     UINT i, K1, K2, M1, M2;
     INT warn_flags[2] = { 0, 0 }; // 0 = no warning about too many points so
@@ -122,8 +126,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(M_ptr);
     if (sheet_indices != NULL)
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
-    if (opts_ptr == NULL)
-        opts_ptr = &default_opts;
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -225,11 +227,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         aux_spec[i] += Lam_shift;
     }
 
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From d22b0f93f7d779de424db96f595c53a7f869876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 20/51] fix: fnft_nsep leaked its buffers on several error
 paths

---
 src/fnft_nsep.c | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 38bd888..e6b9c97 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -174,8 +174,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -216,7 +218,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -298,8 +301,10 @@ static inline INT gridsearch(const UINT D,
 
     // Will be required later for coordinate transforms
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step == NAN) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     PHI[0] = map_coeff*eps_t*opts_ptr->bounding_box[0];
@@ -517,10 +522,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
@@ -558,8 +565,10 @@ static inline INT subsample_and_refine(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step == NAN) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t_sub, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[3] - opts_ptr->bounding_box[2];
@@ -783,8 +792,10 @@ static inline INT newton(const UINT D,
 
     // Will be required later for coordinate transforms and filtering
     degree1step = nse_discretization_degree(opts_ptr->discretization);
-    if (degree1step == NAN)
-        return E_INVALID_ARGUMENT(opts_ptr->discretization);
+    if (degree1step == NAN) {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->discretization);
+        goto release_mem;
+    }
     map_coeff = 2/degree1step;
     update_bounding_box_if_auto(eps_t, map_coeff, opts_ptr);
     tol_im = opts_ptr->bounding_box[1] - opts_ptr->bounding_box[0];
-- 
2.43.0


From 6bae3f178dd97fb146d48f5d222289fcefe783ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 21/51] fix: fnft_nsep ignored failures while localizing the
 auxiliary spectrum

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index e6b9c97..78dcb33 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -674,7 +674,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
-- 
2.43.0


From 6ba54935ff221c89dd7c6dea4ed5403faf9d6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 22/51] fix: fnft_nsep grid search returned an uninitialized
 count if no main spectrum was requested

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 78dcb33..5fa7df5 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From f5a019e9222984ecdec01e226d5b384059c7d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 23/51] fix: eigenvalue-based root finding terminated the
 process if memory ran out

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 13 +++++++++++--
 src/private/fnft__poly_roots_fasteigen.c       |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index 4d7d2bf..ee93e48 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -3,6 +3,7 @@
 ! Changes:
 !   - Residuals are not computed
 !   - The roots are no longer printed (forgotten printf?)
+!   - Failed allocations are reported to the caller
 !   - Always use QR since it is as good as QZ -> https://arxiv.org/pdf/1611.02435.pdf
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
@@ -34,6 +35,7 @@
 !
 !  INFO            INTEGER
 !                    INFO = 1 implies companion QR algorithm failed
+!                    INFO = 2 implies that not enough memory was available
 !
 !!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!
 subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
@@ -85,8 +87,15 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N))
-  allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N))
+  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=ii)
+  if (ii.EQ.0) then
+     allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),stat=ii)
+  end if
+  if (ii.NE.0) then
+     ! allocated arrays are freed automatically on return
+     INFO = 2
+     return
+  end if
 
   ! initialize INFO
   INFO = 0
diff --git a/src/private/fnft__poly_roots_fasteigen.c b/src/private/fnft__poly_roots_fasteigen.c
index 9aa2683..835bac2 100644
--- a/src/private/fnft__poly_roots_fasteigen.c
+++ b/src/private/fnft__poly_roots_fasteigen.c
@@ -43,6 +43,7 @@ INT poly_roots_fasteigen(const UINT deg,
 
     if (info == 0)
         return SUCCESS;
-    else
-        return E_SUBROUTINE(FNFT_EC_OTHER);
+    if (info == 2)
+        return E_NOMEM;
+    return E_SUBROUTINE(FNFT_EC_OTHER);
 }
-- 
2.43.0


From 89182c75d9789285cccd319b57c3ac8e88865a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 24/51] fix: eigenvalue-based root finding used and advanced
 the global random number generator

---
 src/3rd_party/eiscor/z_upr1fact_startchase.f90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_startchase.f90 b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
index b9538f0..9b85cbd 100644
--- a/src/3rd_party/eiscor/z_upr1fact_startchase.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_startchase.f90
@@ -64,10 +64,12 @@ subroutine z_upr1fact_startchase(VEC,N,P,Q,D,C,B,M,V,ITCNT,G)
   complex(8) :: shift, A(2,2)
   
   ! compute shift
-  ! random shift
+  ! exceptional shift. The pseudo-random shift is computed from ITCNT instead
+  ! of using random_number, such that the result does not depend on the (global)
+  ! state of the random number generator and this state is not changed.
   if ((mod(ITCNT,20).EQ.0).AND.(ITCNT.GT.0)) then
-    call random_number(G(1))
-    call random_number(G(2))
+    G(1) = mod(dble(ITCNT)*0.618033988749895d0,1d0)
+    G(2) = mod(dble(ITCNT)*0.414213562373095d0,1d0)
     shift = cmplx(G(1),G(2),kind=8)
           
   ! wilkinson shift
-- 
2.43.0


From eddb39691ae196106c803a19248f24047789ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 25/51] fix: KISS FFT dereferenced NULL if its temporary
 buffers could not be allocated

---
 include/3rd_party/kiss_fft/kiss_fft.h |  7 +++--
 include/private/fnft__fft_wrapper.h   |  3 +-
 src/3rd_party/kiss_fft/kiss_fft.c     | 43 +++++++++++++++++----------
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/include/3rd_party/kiss_fft/kiss_fft.h b/include/3rd_party/kiss_fft/kiss_fft.h
index 86c187b..2e0d822 100644
--- a/include/3rd_party/kiss_fft/kiss_fft.h
+++ b/include/3rd_party/kiss_fft/kiss_fft.h
@@ -90,13 +90,16 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
  * fout will be   F[0] , F[1] , ... ,F[nfft-1]
  * Note that each element is complex and can be accessed like
     f[k].r and f[k].i
+ *
+ * Returns zero, or -1 if the temporary memory needed by some lengths could
+ * not be allocated.
  * */
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout);
 
 /*
  A more generic version of the above function. It reads its input from every Nth sample.
  * */
-void kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
+int kiss_fft_stride(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT fin_stride);
 
 /* If kiss_fft_alloc allocated a buffer, it is one contiguous 
    buffer and can be simply free()d when no longer needed*/
diff --git a/include/private/fnft__fft_wrapper.h b/include/private/fnft__fft_wrapper.h
index ca32228..2a95982 100644
--- a/include/private/fnft__fft_wrapper.h
+++ b/include/private/fnft__fft_wrapper.h
@@ -134,7 +134,8 @@ static inline FNFT_INT fnft__fft_wrapper_execute_plan(
 #ifdef HAVE_FFTW3
     fftw_execute_dft((fftw_plan)plan, (fftw_complex *)in, (fftw_complex *)out);
 #else    
-    kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out);
+    if (kiss_fft((kiss_fft_cfg)plan, (kiss_fft_cpx *)in, (kiss_fft_cpx *)out) != 0)
+        return FNFT__E_NOMEM;
 #endif
 
     return FNFT_SUCCESS;
diff --git a/src/3rd_party/kiss_fft/kiss_fft.c b/src/3rd_party/kiss_fft/kiss_fft.c
index f051be3..c7e02d7 100644
--- a/src/3rd_party/kiss_fft/kiss_fft.c
+++ b/src/3rd_party/kiss_fft/kiss_fft.c
@@ -197,8 +197,9 @@ static void kf_bfly5(
     }
 }
 
-/* perform the butterfly for one stage of a mixed radix FFT */
-static void kf_bfly_generic(
+/* perform the butterfly for one stage of a mixed radix FFT,
+   returns zero, or -1 if the scratch buffer could not be allocated */
+static int kf_bfly_generic(
         kiss_fft_cpx * Fout,
         const FNFT_UINT fstride,
         const kiss_fft_cfg st,
@@ -212,6 +213,8 @@ static void kf_bfly_generic(
     FNFT_UINT Norig = st->nfft;
 
     kiss_fft_cpx * scratch = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC(sizeof(kiss_fft_cpx)*p);
+    if (scratch == NULL)
+        return -1;
 
     for ( u=0; u<m; ++u ) {
         k=u;
@@ -235,10 +238,11 @@ static void kf_bfly_generic(
         }
     }
     KISS_FFT_TMP_FREE(scratch);
+    return 0;
 }
 
 static
-void kf_work(
+int kf_work(
         kiss_fft_cpx * Fout,
         const kiss_fft_cpx * f,
         const FNFT_UINT fstride,
@@ -258,21 +262,24 @@ void kf_work(
     if (fstride==1 && p<=5)
     {
         FNFT_UINT k;
+        int failed = 0;
 
         // execute the p different work units in different threads
-#       pragma omp parallel for
+#       pragma omp parallel for reduction(|:failed)
         for (k=0;k<p;++k) 
-            kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
+            failed |= kf_work( Fout +k*m, f+ fstride*in_stride*k,fstride*p,in_stride,factors,st);
         // all threads have joined by this point
+        if (failed)
+            return -1;
 
         switch (p) {
             case 2: kf_bfly2(Fout,fstride,st,m); break;
             case 3: kf_bfly3(Fout,fstride,st,m); break; 
             case 4: kf_bfly4(Fout,fstride,st,m); break;
             case 5: kf_bfly5(Fout,fstride,st,m); break; 
-            default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+            default: return kf_bfly_generic(Fout,fstride,st,m,p);
         }
-        return;
+        return 0;
     }
 #endif
 
@@ -287,7 +294,8 @@ void kf_work(
             // DFT of size m*p performed by doing
             // p instances of smaller DFTs of size m, 
             // each one takes a decimated version of the input
-            kf_work( Fout , f, fstride*p, in_stride, factors,st);
+            if (kf_work( Fout , f, fstride*p, in_stride, factors,st) != 0)
+                return -1;
             f += fstride*in_stride;
         }while( (Fout += m) != Fout_end );
     }
@@ -300,8 +308,9 @@ void kf_work(
         case 3: kf_bfly3(Fout,fstride,st,m); break; 
         case 4: kf_bfly4(Fout,fstride,st,m); break;
         case 5: kf_bfly5(Fout,fstride,st,m); break; 
-        default: kf_bfly_generic(Fout,fstride,st,m,p); break;
+        default: return kf_bfly_generic(Fout,fstride,st,m,p);
     }
+    return 0;
 }
 
 /*  facbuf is populated by p1,m1,p2,m2, ...
@@ -371,23 +380,27 @@ kiss_fft_cfg kiss_fft_alloc(FNFT_UINT nfft,FNFT_UINT inverse_fft,void * mem,FNFT
 }
 
 
-void kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
+int kiss_fft_stride(kiss_fft_cfg st,const kiss_fft_cpx *fin,kiss_fft_cpx *fout,FNFT_UINT in_stride)
 {
     if (fin == fout) {
         //NOTE: this is not really an in-place FFT algorithm.
         //It just performs an out-of-place FFT into a temp buffer
         kiss_fft_cpx * tmpbuf = (kiss_fft_cpx*)KISS_FFT_TMP_ALLOC( sizeof(kiss_fft_cpx)*st->nfft);
-        kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
-        memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx)*st->nfft);
+        if (tmpbuf == NULL)
+            return -1;
+        const int ret = kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
+        if (ret == 0)
+            memcpy(fout,tmpbuf,sizeof(kiss_fft_cpx)*st->nfft);
         KISS_FFT_TMP_FREE(tmpbuf);
+        return ret;
     }else{
-        kf_work( fout, fin, 1,in_stride, st->factors,st );
+        return kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
 }
 
-void kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
+int kiss_fft(kiss_fft_cfg cfg,const kiss_fft_cpx *fin,kiss_fft_cpx *fout)
 {
-    kiss_fft_stride(cfg,fin,fout,1);
+    return kiss_fft_stride(cfg,fin,fout,1);
 }
 
 
-- 
2.43.0


From 4caa7a1c8d0695d6b15dd688033a215e6054f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 26/51] fix: bound state scattering wrote through a NULL
 pointer if a scaling buffer could not be allocated

---
 src/private/fnft__akns_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..ee0e49f 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -496,7 +496,7 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 85588146a3fa7968ad50133b1eab70a5424cf9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 27/51] fix: product of a single polynomial (matrix) returned
 an uninitialized return code

---
 src/private/fnft__poly_fmult.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..de59cc1 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,15 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
+
+    // Nothing to multiply if there is only one matrix
+    if (n == 1) {
+        memcpy(result, p, 4*(*d + 1)*sizeof(COMPLEX));
+        if (W_ptr != NULL)
+            *W_ptr = 0;
+        return SUCCESS;
+    }
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -783,7 +791,15 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
+
+    // Nothing to multiply if there is only one matrix
+    if (n == 1) {
+        memcpy(result, p, 9*(*d + 1)*sizeof(COMPLEX));
+        if (W_ptr != NULL)
+            *W_ptr = 0;
+        return SUCCESS;
+    }
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
-- 
2.43.0


From 4d4123bed47ac34eed5cbf4c3d774c063b50f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 28/51] fix: eigenvalue-based root finding read beyond the end
 of the position flags

---
 src/3rd_party/eiscor/z_poly_roots_modified.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/3rd_party/eiscor/z_poly_roots_modified.f90 b/src/3rd_party/eiscor/z_poly_roots_modified.f90
index ee93e48..8e36513 100644
--- a/src/3rd_party/eiscor/z_poly_roots_modified.f90
+++ b/src/3rd_party/eiscor/z_poly_roots_modified.f90
@@ -87,7 +87,8 @@ subroutine z_poly_roots_modified(N,COEFFS,ROOTS,INFO)
   end interface
 
   ! allocate memory
-  allocate(P(N-2),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=ii)
+  ! (P has an additional entry as P(N-1) is read when a 2x2 block is processed)
+  allocate(P(N-1),ITS(N-1),Q(3*(N-1)),D1(2*(N+1)),C1(3*N),B1(3*N),stat=ii)
   if (ii.EQ.0) then
      allocate(V(N),W(N),D2(2*(N+1)),C2(3*N),B2(3*N),stat=ii)
   end if
-- 
2.43.0


From cb66d40341f040108d7faba44c8e2125b50d9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 29/51] fix: unitary-plus-rank-one QR iteration wrote beyond
 ITS if it did not converge

---
 src/3rd_party/eiscor/z_upr1fact_qr.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/3rd_party/eiscor/z_upr1fact_qr.f90 b/src/3rd_party/eiscor/z_upr1fact_qr.f90
index 5224221..3e95ba9 100644
--- a/src/3rd_party/eiscor/z_upr1fact_qr.f90
+++ b/src/3rd_party/eiscor/z_upr1fact_qr.f90
@@ -208,7 +208,7 @@ subroutine z_upr1fact_qr(VEC,ID,FUN,N,P,Q,D,C,B,M,V,ITS,INFO)
     ! if ITMAX hit
     if (kk == ITMAX) then
       INFO = 1
-      ITS(STR+STP-1) = ITCNT
+      ITS(max(STP,1)) = ITCNT
     end if
     
   end do
-- 
2.43.0


From 0d74e957d7c38e1d06b409681208f2a421e1a91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 30/51] fix: eigenvalue-based root finding wrote through NULL
 if a temporary array could not be allocated

---
 .../eiscor/z_upr1utri_decompress.f90          | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/3rd_party/eiscor/z_upr1utri_decompress.f90 b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
index c426ebe..bf42b2d 100644
--- a/src/3rd_party/eiscor/z_upr1utri_decompress.f90
+++ b/src/3rd_party/eiscor/z_upr1utri_decompress.f90
@@ -47,8 +47,8 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
   complex(8), intent(inout) :: T(N,N)
   
   ! compute variables
-  integer :: ii,ind
-  complex(8) :: g, p, temp(2,2)
+  integer :: ii,jj,ind
+  complex(8) :: g, p, temp(2,2), t1, t2
   
   ! diagonals only
   if (DIAG) then
@@ -77,7 +77,14 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(B(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(1:(ii+1),ii:(ii+1)) = matmul(T(1:(ii+1),ii:(ii+1)),temp)
+      ! T(1:(ii+1),ii:(ii+1)) = matmul(T(1:(ii+1),ii:(ii+1)),temp), written
+      ! as a loop since matmul allocates a temporary array
+      do jj=1,(ii+1)
+        t1 = T(jj,ii)
+        t2 = T(jj,ii+1)
+        T(jj,ii) = t1*temp(1,1) + t2*temp(2,1)
+        T(jj,ii+1) = t1*temp(1,2) + t2*temp(2,2)
+      end do
     end do
     T(:,N) = T(:,N)*cmplx(B(3*(N-1)+1),B(3*(N-1)+2),kind=8)
     
@@ -103,7 +110,14 @@ subroutine z_upr1utri_decompress(DIAG,N,D,C,B,T)
       temp(2,1) = cmplx(C(ind+3),0d0,kind=8)
       temp(1,2) = -temp(2,1)
       temp(2,2) = conjg(temp(1,1))
-      T(ii:(ii+1),(ii+1):N) = matmul(temp,T(ii:(ii+1),(ii+1):N))
+      ! T(ii:(ii+1),(ii+1):N) = matmul(temp,T(ii:(ii+1),(ii+1):N)), written
+      ! as a loop since matmul allocates a temporary array
+      do jj=(ii+1),N
+        t1 = T(ii,jj)
+        t2 = T(ii+1,jj)
+        T(ii,jj) = temp(1,1)*t1 + temp(1,2)*t2
+        T(ii+1,jj) = temp(2,1)*t1 + temp(2,2)*t2
+      end do
       T(ii,ii) = temp(1,1)*T(ii,ii) + temp(1,2)*T(ii+1,ii)
       T(ii+1,ii) = cmplx(0d0,0d0,kind=8)
     end do
-- 
2.43.0


From 0e3bf622c9e7758c1a6ca56145a8d1422202eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 31/51] fix: norming constants were uninitialized if no sample
 provided a usable estimate

---
 src/private/fnft__akns_scatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index ee0e49f..4fb7892 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -831,6 +831,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            b_vals[neig] = NAN; // stays if no sample provides a usable estimate
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
-- 
2.43.0


From 54680cac6b87954ae5d52a443185cd4ab220ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 32/51] fix: scaling factors of the initial values were
 uninitialized when computing norming constants

---
 src/private/fnft__akns_scatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 4fb7892..517549f 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -497,6 +497,8 @@ INT akns_scatter_bound_states(UINT const D,
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        WPHI[0] = 0; // the initial values are not scaled
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 0f68685a9ac7ed9ee0867d46debc423c4f76fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 33/51] fix: fnft_nsev_inverse leaked its buffers if a seed
 potential was requested together with a continuous spectrum

---
 src/fnft_nsev_inverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..1e900f2 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -902,7 +902,7 @@ static INT add_discrete_spectrum(
         }
     }
     else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
 
     leave_fun:
         free(t);
-- 
2.43.0


From 2b43ca5ae90b738248ed28a455ae038eb6e5acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 34/51] fix: fnft_kdvv failed instead of warning if there were
 more bound states than *K_ptr

The documentation of bound_states says that a warning is printed and as many
bound states as possible are returned.
---
 src/fnft_kdvv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index e8608ff..7d43313 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -630,15 +630,15 @@ static inline INT kdvv_compute_boundstates(
             for (i = 0; i < M; i++) {
                 if (scatter_coeffs[4*i]==0) {
                     if (K>=*K_ptr) { // Lucky us: Exact bound state found
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     bound_states[K]=xi[i];
                     K++;
                 } else if ( i>0 && CREAL(scatter_coeffs[4*i])*CREAL(scatter_coeffs[4*(i-1)])<0) {
                     if (K>=*K_ptr) { // Bound state between this sample and the previous
-                        ret_code = E_OTHER("More than *K_ptr initial guesses for bound states found. Increase *K_ptr and try again.")
-                        CHECK_RETCODE(ret_code, leave_fun);
+                        WARN("Found more than *K_ptr bound states. Returning as many as possible.");
+                        break;
                     }
                     
                     // Zero crossing estimate with regula falsi:
-- 
2.43.0


From 0cd93730cf7374306e5ee99d1fe99aba6ed42a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 35/51] fix: fnft_kdvv silently skipped the grid search if
 *K_ptr was zero

As documented, passing *K_ptr==0 does not skip the computation of the bound
states; the user is warned that there are more than there is room for.
---
 src/fnft_kdvv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 7d43313..94feab7 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -475,7 +475,8 @@ static inline INT fnft_kdvv_base(
     }
 
     // Compute the discrete spectrum
-    if (bound_states != NULL && *K_ptr!=0) {
+    if (bound_states != NULL && (*K_ptr!=0 ||
+            opts->bound_state_localization == kdvv_bsloc_GRIDSEARCH_AND_REFINE)) {
         // Compute the bound states
         ret_code = kdvv_compute_boundstates(D, q, r, T,
                 eps_t, K_ptr, bound_states, opts);
-- 
2.43.0


From abb1419f3950dd76ee838ab09ecb4b04a4695926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 36/51] fix: mex_fnft_manakovv wrote a second output that was
 not requested

With at most one output, plhs has one element. The bound states were
nevertheless stored in plhs[1] unless 'skip_bs' was given.
---
 matlab/mex_fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matlab/mex_fnft_manakovv.c b/matlab/mex_fnft_manakovv.c
index b009fa9..be8311a 100644
--- a/matlab/mex_fnft_manakovv.c
+++ b/matlab/mex_fnft_manakovv.c
@@ -53,10 +53,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Check number of inputs to avoid computing results that have not been
     requested. We treat nlhs==0 like nlhs==1 because it that case, the result
-    will be stored in Matlabs ans variable. 
-    We do not need this as we are only calculating the contspec anyway
+    will be stored in Matlabs ans variable. */
     if (nlhs < 2)
         skip_bound_states_flag = 1;
+    /*
     if (nlhs < 3)
         skip_normconsts_flag = 1;
     */
-- 
2.43.0


From 3f5497fb92b14726b2d592ee8f6e1e6ae490a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 37/51] fix: mex_fnft_nsep wrote a second output that was not
 requested

With at most one output, plhs has one element.
---
 matlab/mex_fnft_nsep.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index cb35e5c..22a7734 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -44,9 +44,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     fnft_nsep_opts_t opts;
     int ret_code;
 
-    /* To suppress unused parameter warning */
-    (void) nlhs;
-
     /* Check types and dimensions of the first three inputs: q, T, kappa */
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
@@ -292,20 +289,23 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Allocate memory for the outputs */
     plhs[0] = mxCreateDoubleMatrix(1, K, mxCOMPLEX);
-    plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
+    if (nlhs > 1)
+        plhs[1] = mxCreateDoubleMatrix(1, M, mxCOMPLEX);
 
     /* Convert outputs */
     msr = mxGetPr(plhs[0]);
     msi = mxGetPi(plhs[0]);
-    asr = mxGetPr(plhs[1]);
-    asi = mxGetPi(plhs[1]);
     for (i=0; i<K; i++) {
         msr[i] = creal(main_spec[i]);
         msi[i] = cimag(main_spec[i]);
     }
-    for (i=0; i<M; i++) {
-        asr[i] = creal(aux_spec[i]);
-        asi[i] = cimag(aux_spec[i]);
+    if (nlhs > 1) {
+        asr = mxGetPr(plhs[1]);
+        asi = mxGetPi(plhs[1]);
+        for (i=0; i<M; i++) {
+            asr[i] = creal(aux_spec[i]);
+            asi[i] = cimag(aux_spec[i]);
+        }
     }
 
     /* Free memory that is no longer needed */
-- 
2.43.0


From afd2711d4c47aa5de63d184771422d018086853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 38/51] fix: mex_fnft_nsep divided by zero for
 'points_per_spine' 0 with 'loc_newton'

---
 matlab/mex_fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index 22a7734..50331e1 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -258,7 +258,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         main_spec = mxMalloc(K * sizeof(double complex));
         aux_spec = mxMalloc(M * sizeof(double complex));
     } else { /* Newton */
-        if (K%opts.points_per_spine != 0) {
+        if (opts.points_per_spine == 0 || K%opts.points_per_spine != 0) {
             snprintf(msg, sizeof msg, "The lengths of the first initial guess vector for Newton localization has to be a multiple of points_per_spine (=%u).",
                 (unsigned int)opts.points_per_spine);
             goto on_error;
-- 
2.43.0


From ff34e592ad34dd743ddad181e28ce8e277916ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 39/51] fix: MATLAB interface read arrays that are not of class
 double as double

Arrays of class single or of an integer class passed the checks of the
functions in matlab/ (single(q) is complex if q is), but were then
read as if they were of class double, i.e., past their end.
---
 matlab/mex_fnft_kdvv.c         | 4 ++--
 matlab/mex_fnft_manakovv.c     | 4 ++--
 matlab/mex_fnft_nsep.c         | 6 +++---
 matlab/mex_fnft_nsev.c         | 4 ++--
 matlab/mex_fnft_nsev_inverse.c | 8 ++++----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/matlab/mex_fnft_kdvv.c b/matlab/mex_fnft_kdvv.c
index 0751803..d844c91 100644
--- a/matlab/mex_fnft_kdvv.c
+++ b/matlab/mex_fnft_kdvv.c
@@ -59,7 +59,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
-    if ( mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
+    if ( !mxIsDouble(prhs[0]) || mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
         mexErrMsgTxt("First input q should be a real row vector. Try passing complex(q).");
     if ( !mxIsDouble(prhs[1]) || mxGetM(prhs[1]) != 1 || mxGetN(prhs[1]) != 2 )
         mexErrMsgTxt("Second input T should be a double 1x2 vector.");
@@ -122,7 +122,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             opts.bound_state_localization = fnft_kdvv_bsloc_NEWTON;
 
             /* Extract initial guesses for Newtons method */
-            if ( k+1 == nrhs || !mxIsComplex(prhs[k+1])
+            if ( k+1 == nrhs || !mxIsDouble(prhs[k+1]) || !mxIsComplex(prhs[k+1])
             || mxGetM(prhs[k+1]) != 1 || mxGetN(prhs[k+1]) < 1) {
                 snprintf(msg, sizeof msg, "'bsloc_newton' should be followed by a complex row vector of initial guesses for Newton's method. Try passing complex(...).");
                 goto on_error;
diff --git a/matlab/mex_fnft_manakovv.c b/matlab/mex_fnft_manakovv.c
index be8311a..3d8c885 100644
--- a/matlab/mex_fnft_manakovv.c
+++ b/matlab/mex_fnft_manakovv.c
@@ -64,9 +64,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nrhs < 5)
         mexErrMsgTxt("At least five inputs expected.");
-    if ( !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
+    if ( !mxIsDouble(prhs[0]) || !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
         mexErrMsgTxt("First input q1 should be a complex row vector. Try passing complex(q1).");
-    if ( !mxIsComplex(prhs[1]) || mxGetM(prhs[1]) != 1)
+    if ( !mxIsDouble(prhs[1]) || !mxIsComplex(prhs[1]) || mxGetM(prhs[1]) != 1)
         mexErrMsgTxt("Second input q2 should be a complex row vector. Try passing complex(q2).");
     if ( !mxIsDouble(prhs[2]) || mxGetM(prhs[2]) != 1 || mxGetN(prhs[2]) != 2 )
         mexErrMsgTxt("Third input T should be a double 1x2 vector.");
diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index 50331e1..33d72a4 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -47,7 +47,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     /* Check types and dimensions of the first three inputs: q, T, kappa */
     if (nrhs < 3)
         mexErrMsgTxt("At least three inputs expected.");
-    if ( !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
+    if ( !mxIsDouble(prhs[0]) || !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
         mexErrMsgTxt("First input q should be a complex row vector. Try passing complex(q).");
     if ( !mxIsDouble(prhs[1]) || mxGetM(prhs[1]) != 1 || mxGetN(prhs[1]) != 2 )
         mexErrMsgTxt("Second input T should be a double 1x2 vector.");
@@ -149,7 +149,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             /* Extract initial guesses for the main spectrum */
             if (k+1 == nrhs || 
                     (!mxIsEmpty(prhs[k+1]) &&
-                        (!mxIsComplex(prhs[k+1]) || mxGetM(prhs[k+1]) != 1))) {
+                        (!mxIsDouble(prhs[k+1]) || !mxIsComplex(prhs[k+1]) || mxGetM(prhs[k+1]) != 1))) {
                 snprintf(msg, sizeof msg, "'loc_newton' should be followed by two complex row vectors of initial guesses for the main and auxiliary spectrum, respectively. Try passing complex(...).");
                 goto on_error;
             }
@@ -167,7 +167,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             /* Extract initial guesses for the aux spectrum */
             if (k+2 == nrhs || 
                     (!mxIsEmpty(prhs[k+2]) &&
-                        (!mxIsComplex(prhs[k+2]) || mxGetM(prhs[k+2]) != 1))) {
+                        (!mxIsDouble(prhs[k+2]) || !mxIsComplex(prhs[k+2]) || mxGetM(prhs[k+2]) != 1))) {
                 snprintf(msg, sizeof msg, "'loc_newton' should be followed by two complex row vectors of initial guesses for the main and auxiliary spectrum, respectively. Try passing complex(...).");
                 goto on_error;
             }
diff --git a/matlab/mex_fnft_nsev.c b/matlab/mex_fnft_nsev.c
index 425375d..a95b124 100644
--- a/matlab/mex_fnft_nsev.c
+++ b/matlab/mex_fnft_nsev.c
@@ -61,7 +61,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if (nrhs < 4)
         mexErrMsgTxt("At least four inputs expected.");
-    if ( !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
+    if ( !mxIsDouble(prhs[0]) || !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1)
         mexErrMsgTxt("First input q should be a complex row vector. Try passing complex(q).");
     if ( !mxIsDouble(prhs[1]) || mxGetM(prhs[1]) != 1 || mxGetN(prhs[1]) != 2 )
         mexErrMsgTxt("Second input T should be a double 1x2 vector.");
@@ -133,7 +133,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             opts.bound_state_localization = fnft_nsev_bsloc_NEWTON;
             
             /* Extract initial guesses for Newtons method */
-            if ( k+1 == nrhs || !mxIsComplex(prhs[k+1])
+            if ( k+1 == nrhs || !mxIsDouble(prhs[k+1]) || !mxIsComplex(prhs[k+1])
             || mxGetM(prhs[k+1]) != 1 || mxGetN(prhs[k+1]) < 1) {
                 snprintf(msg, sizeof msg, "'bsloc_newton' should be followed by a complex row vector of initial guesses for Newton's method. Try passing complex(...).");
                 goto on_error;
diff --git a/matlab/mex_fnft_nsev_inverse.c b/matlab/mex_fnft_nsev_inverse.c
index 688b8a7..77b62c4 100644
--- a/matlab/mex_fnft_nsev_inverse.c
+++ b/matlab/mex_fnft_nsev_inverse.c
@@ -49,13 +49,13 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     if ( nrhs < 7 )
         mexErrMsgTxt("At least seven inputs expected.");
-    if ( !mxIsEmpty(prhs[0]) && (!mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1) )
+    if ( !mxIsEmpty(prhs[0]) && (!mxIsDouble(prhs[0]) || !mxIsComplex(prhs[0]) || mxGetM(prhs[0]) != 1) )
         mexErrMsgTxt("First input contspec should be a complex row vector or []. Try passing complex(contspec).");
     if ( !mxIsDouble(prhs[1]) || mxGetM(prhs[1]) != 1 || mxGetN(prhs[1]) != 2 )
         mexErrMsgTxt("Second input XI should be a double 1x2 vector.");
-    if ( !mxIsEmpty(prhs[2]) && (!mxIsComplex(prhs[2]) || mxGetM(prhs[2]) != 1) )
+    if ( !mxIsEmpty(prhs[2]) && (!mxIsDouble(prhs[2]) || !mxIsComplex(prhs[2]) || mxGetM(prhs[2]) != 1) )
         mexErrMsgTxt("Third input bound_states should be a complex row vector or []. Try passing complex(bound_states).");
-    if ( !mxIsEmpty(prhs[3]) && (!mxIsComplex(prhs[3]) || mxGetM(prhs[3]) != 1) )
+    if ( !mxIsEmpty(prhs[3]) && (!mxIsDouble(prhs[3]) || !mxIsComplex(prhs[3]) || mxGetM(prhs[3]) != 1) )
         mexErrMsgTxt("Fourth input normconsts_or_residues should be a complex row vector or []. Try passing complex(normconsts_or_residues).");
     if ( !mxIsDouble(prhs[4]) || mxGetNumberOfElements(prhs[4]) != 1 )
         mexErrMsgTxt("Fifth input D should be a scalar.");
@@ -131,7 +131,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
             opts.contspec_inversion_method =
                 fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD ;
             /* Extract initial potential */
-            if ( k+1 == (FNFT_UINT)nrhs || !mxIsComplex(prhs[k+1])
+            if ( k+1 == (FNFT_UINT)nrhs || !mxIsDouble(prhs[k+1]) || !mxIsComplex(prhs[k+1])
                  || mxGetM(prhs[k+1]) != 1 || mxGetN(prhs[k+1]) != D ) {
                 snprintf(msg, sizeof msg, "'csmethod_use_seed_potential_instead' should be followed by a complex 1xD vector. Try passing complex(q0).");
                 goto on_error;
-- 
2.43.0


From 812a1498d45ab1c79f0c44327261bcb3863d4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 40/51] fix: mex_fnft_manakovv did not notice that there was no
 memory for contspec

The function then crashed when it copied the results.
---
 matlab/mex_fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matlab/mex_fnft_manakovv.c b/matlab/mex_fnft_manakovv.c
index 3d8c885..b7c6113 100644
--- a/matlab/mex_fnft_manakovv.c
+++ b/matlab/mex_fnft_manakovv.c
@@ -254,10 +254,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 			contspec = mxMalloc(2 * M * sizeof(COMPLEX));
 		else    // opts.contspec == fnft_manakovv_cstype_BOTH
 			contspec = mxMalloc(5 * M * sizeof(COMPLEX));
-/*        if (contspec == NULL) {
+        if (M > 0 && contspec == NULL) {
             snprintf(msg, sizeof msg, "Out of memory.");
             goto on_error;
-        }*/ // TODO: check this
+        }
     }   
 
     
-- 
2.43.0


From fca0d7fe84f5b8b70f9591818d84b1e95c71376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 41/51] fix: mex_fnft_nsep reported to be out of memory for no
 reason

The number of auxiliary spectrum points was not known yet when the memory
for the sheet indices was allocated. If 'loc_newton' with an empty second
vector was overruled by a later option, nothing was allocated.
---
 matlab/mex_fnft_nsep.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index 33d72a4..0f1f327 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -250,8 +250,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     /* Allocate memory */
     q = mxMalloc(D * sizeof(double complex));
-    if (M > 0)
-        sheet_indices = mxMalloc(M * sizeof(int));
     if (opts.localization != fnft_nsep_loc_NEWTON) { /* Not Newton */
         K = (opts.points_per_spine)*upsampling_factor*D + 1;
         M = upsampling_factor*D;
@@ -265,6 +263,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         }
         K /= opts.points_per_spine;
     }
+    if (M > 0)
+        sheet_indices = mxMalloc(M * sizeof(int));
 
     if ( q == NULL || (K>0 && main_spec == NULL) || (M > 0 && aux_spec == NULL)
          || (M > 0 && sheet_indices == NULL) ) {
-- 
2.43.0


From a536c1f50cdcc845de98f2d2ce36db4c2f39a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 42/51] fix: fnft_kdvv wrote past its buffers if the search
 grid was too large

For very large or infinite q, the number of grid points overflowed when
it was converted to an integer, or the array sizes computed from it did.
The arrays were then too small (or empty).
---
 src/fnft_kdvv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 94feab7..047abd2 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -587,6 +587,12 @@ static inline INT kdvv_compute_boundstates(
             }
             UINT M = 0;
             if (opts->grid_spacing > 0) {
+                // The number of grid points has to fit into M, and the size of
+                // the arrays below into a size_t. Catches infinities and NaNs.
+                if (!(dist/opts->grid_spacing < (UINT)-1/(8*sizeof(COMPLEX)))) {
+                    ret_code = E_NOMEM;
+                    goto leave_fun;
+                }
                 M = CEIL(dist/opts->grid_spacing);
                 if (M<2) {
                     *K_ptr = 0;
-- 
2.43.0


From aea1c7c1dc7c070447c155885dbcef9341b0bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 43/51] fix: refuse oversampling factors whose product with the
 degree overflows in poly_specfact

(deg+1)*oversampling_factor was allowed to wrap around. The FFT buffers were
then smaller than the polynomial that is copied into them.
---
 src/private/fnft__poly_specfact.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/private/fnft__poly_specfact.c b/src/private/fnft__poly_specfact.c
index 7e3fcf7..9f6faac 100644
--- a/src/private/fnft__poly_specfact.c
+++ b/src/private/fnft__poly_specfact.c
@@ -37,6 +37,9 @@ INT poly_specfact(const UINT deg,
         return E_INVALID_ARGUMENT(result);
     if (oversampling_factor == 0)
         return E_INVALID_ARGUMENT(oversampling_factor);
+    // The length of the FFTs below (the product rounded up) has to fit an int
+    if (deg >= INT_MAX/2 || oversampling_factor > INT_MAX/2/(deg+1))
+        return E_INVALID_ARGUMENT(oversampling_factor);
 
     // Prepare buffers and (inverse) FFT's
 
-- 
2.43.0


From 4af44b6fcb30bd31f7dc096d3aca42866097c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:33 +0000
Subject: [PATCH 44/51] fix: count the intermediate samples in fnft_nsev_max_K
 and fnft_manakovv_max_K

The discretizations that use two intermediate samples per given sample have
twice as many roots as these functions promised, so that callers who size
their arrays with them lost bound states.
---
 src/fnft_manakovv.c | 9 +++++----
 src/fnft_nsev.c     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index b27de13..1050314 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -52,10 +52,11 @@ fnft_manakovv_opts_t fnft_manakovv_default_opts()
  */
 UINT fnft_manakovv_max_K(const UINT D, fnft_manakovv_opts_t const* const opts)
 {
-	if (opts != NULL)
-		return manakov_discretization_degree(opts->discretization) * D;
-	else
-		return manakov_discretization_degree(default_opts.discretization) * D;
+	const manakov_discretization_t discretization = (opts != NULL)
+	    ? opts->discretization : default_opts.discretization;
+	// Some discretizations use several intermediate samples per sample
+	return manakov_discretization_degree(discretization)
+	    * manakov_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 498f6ec..d33e961 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -54,10 +54,11 @@ fnft_nsev_opts_t fnft_nsev_default_opts()
  */
 UINT fnft_nsev_max_K(const UINT D, fnft_nsev_opts_t const * const opts)
 {
-    if (opts != NULL)
-        return nse_discretization_degree(opts->discretization) * D;
-    else
-        return nse_discretization_degree(default_opts.discretization) * D;
+    const nse_discretization_t discretization = (opts != NULL)
+        ? opts->discretization : default_opts.discretization;
+    // Some discretizations use several intermediate samples per sample
+    return nse_discretization_degree(discretization)
+        * nse_discretization_upsampling_factor(discretization) * D;
 }
 
 /**
-- 
2.43.0


From 6376be734ae4ffbfbefbc737eafae38c7615ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 45/51] fix: MATLAB gateways left temporary buffers to the
 host's garbage collection

---
 matlab/mex_fnft_kdvv.c         | 1 +
 matlab/mex_fnft_nsep.c         | 4 ++++
 matlab/mex_fnft_nsev.c         | 1 +
 matlab/mex_fnft_nsev_inverse.c | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/matlab/mex_fnft_kdvv.c b/matlab/mex_fnft_kdvv.c
index d844c91..483a2da 100644
--- a/matlab/mex_fnft_kdvv.c
+++ b/matlab/mex_fnft_kdvv.c
@@ -128,6 +128,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 goto on_error;
             }
             K = mxGetN(prhs[k+1]);
+            mxFree(bound_states); /* option might be given twice */
             bound_states = mxMalloc(K * sizeof(FNFT_COMPLEX));
             if (bound_states == NULL) {
                 snprintf(msg, sizeof msg, "Out of memory.");
diff --git a/matlab/mex_fnft_nsep.c b/matlab/mex_fnft_nsep.c
index 0f1f327..25c7d7e 100644
--- a/matlab/mex_fnft_nsep.c
+++ b/matlab/mex_fnft_nsep.c
@@ -154,6 +154,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 goto on_error;
             }
             K = mxGetN(prhs[k+1]);
+            mxFree(main_spec); /* option might be given twice */
             main_spec = mxMalloc(K * sizeof(FNFT_COMPLEX));
             if (K > 0 && main_spec == NULL) {
                 snprintf(msg, sizeof msg, "Out of memory.");
@@ -172,6 +173,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 goto on_error;
             }
             M = mxGetN(prhs[k+2]);
+            mxFree(aux_spec);
             aux_spec = mxMalloc(M * sizeof(FNFT_COMPLEX));
             if (M > 0 && aux_spec == NULL) {
                 snprintf(msg, sizeof msg, "Out of memory.");
@@ -253,6 +255,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     if (opts.localization != fnft_nsep_loc_NEWTON) { /* Not Newton */
         K = (opts.points_per_spine)*upsampling_factor*D + 1;
         M = upsampling_factor*D;
+        mxFree(main_spec); /* initial guesses, if any, are not used */
+        mxFree(aux_spec);
         main_spec = mxMalloc(K * sizeof(double complex));
         aux_spec = mxMalloc(M * sizeof(double complex));
     } else { /* Newton */
diff --git a/matlab/mex_fnft_nsev.c b/matlab/mex_fnft_nsev.c
index a95b124..fe5df4b 100644
--- a/matlab/mex_fnft_nsev.c
+++ b/matlab/mex_fnft_nsev.c
@@ -139,6 +139,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
                 goto on_error;
             }
             K = mxGetN(prhs[k+1]);
+            mxFree(bound_states); /* option might be given twice */
             bound_states = mxMalloc(K * sizeof(FNFT_COMPLEX));
             if (bound_states == NULL) {
                 snprintf(msg, sizeof msg, "Out of memory.");
diff --git a/matlab/mex_fnft_nsev_inverse.c b/matlab/mex_fnft_nsev_inverse.c
index 77b62c4..c6a1dbc 100644
--- a/matlab/mex_fnft_nsev_inverse.c
+++ b/matlab/mex_fnft_nsev_inverse.c
@@ -243,6 +243,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     mxFree(q);
     mxFree(contspec);
+    mxFree(bound_states);
+    mxFree(normconsts_or_residues);
     return;
 
 on_error:
-- 
2.43.0


From 403a15e5fb092ea1bcc7280adade23aa039331c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 46/51] fix: refuse a missing suffix array in fnft_version

---
 src/fnft_version.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_version.c b/src/fnft_version.c
index 04b1c04..bcc5f72 100644
--- a/src/fnft_version.c
+++ b/src/fnft_version.c
@@ -28,7 +28,7 @@ INT fnft_version(UINT * const major,
                  UINT * const patch,
                  char suffix[FNFT_VERSION_SUFFIX_MAXLEN+1])
 {
-    if (major == NULL || minor == NULL || patch == NULL)
+    if (major == NULL || minor == NULL || patch == NULL || suffix == NULL)
         return E_INVALID_ARGUMENT(NULL pointer passed.);
     *major = FNFT_VERSION_MAJOR;
     *minor = FNFT_VERSION_MINOR;
-- 
2.43.0


From e43b3199a4e0d62054f0c55846a33bf44ed29d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:16 +0000
Subject: [PATCH 47/51] fix: continuous spectrum was not a number if only one
 point was requested (M=1)

---
 src/fnft_kdvv.c     | 6 +++---
 src/fnft_manakovv.c | 4 ++--
 src/fnft_nsev.c     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 047abd2..7c9bdbd 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -168,7 +168,7 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
         for (i=0; i<M; i++){
-            if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
+            if (XI[0]+((M > 1) ? i*(XI[1]-XI[0])/(M-1) : 0.0) == 0)
                 return E_INVALID_ARGUMENT(XI);
         }
     }
@@ -327,7 +327,7 @@ INT fnft_kdvv(
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
         if (contspec != NULL && M > 0){
-            REAL const dxi = (XI[1]-XI[0])/(M-1);
+            REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -739,7 +739,7 @@ static inline INT kdvv_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 1050314..f697833 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -304,7 +304,7 @@ INT fnft_manakovv(
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
 		if (contspec != NULL && M > 0) {
-			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
+			REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
@@ -528,7 +528,7 @@ static inline INT manakovv_compute_contspec(
 	}
 	D_given = D / upsampling_factor;
 	const REAL eps_t = (T[1] - T[0]) / (D_given - 1);
-	const REAL eps_xi = (XI[1] - XI[0]) / (M - 1);
+	const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
 
 	// Build xi-grid which is required for applying boundary conditions
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index d33e961..e8f2dd0 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -415,7 +415,7 @@ INT fnft_nsev(
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
         if (contspec != NULL && M > 0){
-            REAL const dxi = (XI[1]-XI[0])/(M-1);
+            REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
@@ -816,7 +816,7 @@ static inline INT nsev_compute_contspec(
     }
     D_given = D/upsampling_factor;
     const REAL eps_t = (T[1] - T[0])/(D_given - 1);
-    const REAL eps_xi = (XI[1] - XI[0])/(M - 1);
+    const REAL eps_xi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 
     // Build xi-grid which is required for applying boundary conditions
     xi = malloc(M * sizeof(COMPLEX));
-- 
2.43.0


From 72aed11bb941c98bbe4c0a3e34ca54807dd92640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:16 +0000
Subject: [PATCH 48/51] fix: Richardson extrapolation divided by zero if there
 were too few samples for subsampling

---
 src/fnft_kdvv.c     | 7 ++++---
 src/fnft_manakovv.c | 5 +++--
 src/fnft_nsev.c     | 7 ++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 7c9bdbd..84a389c 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -323,10 +323,11 @@ INT fnft_kdvv(
         opts->bound_state_localization = bs_loc_opt;
         opts->discspec_type = ds_type_opt;
 
-        // Richardson extrapolation of the continuous spectrum
+        // Richardson extrapolation of the continuous spectrum (impossible if there
+        // are too few samples for subsampling)
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        if (contspec != NULL && M > 0){
+        if (contspec != NULL && M > 0 && Dsub < D){
             REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
@@ -336,7 +337,7 @@ INT fnft_kdvv(
             }
         }
         // Richardson extrapolation of the discrete spectrum
-        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0) {
+        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0 && Dsub < D) {
             UINT loc = K_sub;
             REAL bs_err_thres = eps_t;
             REAL bs_err = eps_t;
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index f697833..be0ec25 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -300,10 +300,11 @@ INT fnft_manakovv(
 		CHECK_RETCODE(ret_code, leave_fun);
 		opts->bound_state_localization = bs_loc_opt;
 
-		// Richardson extrapolation of the continuous spectrum
+		// Richardson extrapolation of the continuous spectrum (impossible if there
+		// are too few samples for subsampling)
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		if (contspec != NULL && M > 0) {
+		if (contspec != NULL && M > 0 && Dsub < D) {
 			REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index e8f2dd0..2689c35 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -411,10 +411,11 @@ INT fnft_nsev(
         opts->bound_state_localization = bs_loc_opt;
         opts->discspec_type = ds_type_opt;
 
-        // Richardson extrapolation of the continuous spectrum
+        // Richardson extrapolation of the continuous spectrum (impossible if there
+        // are too few samples for subsampling)
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        if (contspec != NULL && M > 0){
+        if (contspec != NULL && M > 0 && Dsub < D){
             REAL const dxi = (M > 1) ? (XI[1] - XI[0])/(M - 1) : 0.0;
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
@@ -424,7 +425,7 @@ INT fnft_nsev(
             }
         }
         // Richardson extrapolation of the discrete spectrum
-        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0) {
+        if (kappa == +1 && bound_states != NULL && *K_ptr != 0 && K_sub != 0 && Dsub < D) {
             UINT loc = K_sub;
             REAL bs_err_thres = eps_t;
             REAL bs_err = eps_t;
-- 
2.43.0


From 1b0bc6a20dec24b672af16925509a99048ff6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 49/51] fix: grid search of fnft_kdvv returned not-a-number as
 bound state

---
 src/fnft_kdvv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 84a389c..24ada2a 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -675,6 +675,10 @@ static inline INT kdvv_compute_boundstates(
                         scl2 = POW(2, -s);
                     }
                     bound_states[K] = (xi[i-1] * scl1*CREAL(scatter_coeffs[4*i]) - xi[i] * scl2*CREAL(scatter_coeffs[4*(i-1)])) / CREAL( scl1*scatter_coeffs[4*i] - scl2*scatter_coeffs[4*(i-1)]);
+                    // The estimate is useless if a(xi) is too large on one side
+                    // (a(xi) has a pole at xi=0). Use the midpoint instead.
+                    if (!(CIMAG(bound_states[K]) >= CIMAG(xi[i-1]) && CIMAG(bound_states[K]) <= CIMAG(xi[i])))
+                        bound_states[K] = 0.5*(xi[i-1] + xi[i]);
                     K++;
                 }
             }
-- 
2.43.0


From b51342b2b4bdd2e6ac8d112f569cce5b878df1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:59 +0000
Subject: [PATCH 50/51] fix: Newton refinement of fnft_kdvv replaced a bound
 state by not-a-number

---
 src/fnft_kdvv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 24ada2a..ce5978e 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -1049,6 +1049,8 @@ static inline INT kdvv_refine_bound_states_newton(
             // Perform Newton updates: lam[i] <- lam[i] - a(lam[i])/a'(lam[i])
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = CREAL(a_val) / (I * CIMAG(aprime_val));
+            if (!(CABS(error) < INFINITY)) // no usable step, keep the current estimate
+                break;                     // (a(xi) has a pole at xi=0)
             bound_states[i] -= error;
             iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
-- 
2.43.0


From b0cafecabe5f094459dde5c4b4f5dc2c9597513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:28 +0000
Subject: [PATCH 51/51] fix: documented default options of fnft_nsep and
 fnft_kdvv were not the actual ones

---
 include/fnft_kdvv.h | 4 ++--
 include/fnft_nsep.h | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fnft_kdvv.h b/include/fnft_kdvv.h
index a9aa2b3..c18ee4f 100644
--- a/include/fnft_kdvv.h
+++ b/include/fnft_kdvv.h
@@ -180,14 +180,14 @@ typedef struct {
  * default settings.
  *
  * @returns A \link fnft_kdvv_opts_t \endlink object with the following options.\n
- *  bound_state_filtering = fnft_kdvv_bsfilt_FULL\n
- *  bound_state_localization = fnft_kdvv_bsloc_SUBSAMPLE_AND_REFINE\n
+ *  bound_state_localization = fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE\n
  *  niter = 10\n
  *  discspec_type = fnft_kdvv_dstype_NORMING_CONSTANTS\n
  *  contspec_type = fnft_kdvv_cstype_REFLECTION_COEFFICIENT\n
  *  normalization_flag = 1\n
  *  discretization = fnft_kdv_discretization_2SPLIT4B\n
  *  richardson_extrapolation_flag = 0\n
+ *  grid_spacing = 0
  *
   * @ingroup fnft
  */
diff --git a/include/fnft_nsep.h b/include/fnft_nsep.h
index 292121a..8432014 100644
--- a/include/fnft_nsep.h
+++ b/include/fnft_nsep.h
@@ -161,9 +161,9 @@ typedef struct {
  *
  * @ingroup fnft
  * @returns A \link fnft_nsep_opts_t \endlink object with the following options.\n
- *  localization = fnft_nsep_loc_MIXED\n
+ *  localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE\n
  *  filtering = fnft_nsep_filt_AUTO\n
- *  max_evals = 20\n
+ *  max_evals = 50\n
  *  bounding_box[0] = -FNFT_INF\n
  *  bounding_box[1] = FNFT_INF\n
  *  bounding_box[2] = -FNFT_INF\n
@@ -171,8 +171,9 @@ typedef struct {
  *  normalization_flag = 1\n
  *  discretization = fnft_nse_discretization_2SPLIT2A\n
  *  floquet_range = {-1, 1}\n
- *  floquet_nvals = 2\n
- *  Dsub = 0
+ *  points_per_spine = 2\n
+ *  Dsub = 0\n
+ *  tol = -1
  */
 fnft_nsep_opts_t fnft_nsep_default_opts();
 
-- 
2.43.0

