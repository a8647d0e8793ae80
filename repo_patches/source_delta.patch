From 20af8d7efa3e18e25ed3c69a9e6bffb7a86f34c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 01/35] fix: drop input terms whose coefficient vanishes in the
 coefficient field

A term with coefficient zero, or divisible by the characteristic, made msolve
drop its whole generator (or, for the first term of a generator, compute with a
zero leading coefficient; an explicit 0*y was even read as y).
---
 src/msolve/iofiles.c | 94 +++++++++++++++++++++++++++++---------------
 1 file changed, 62 insertions(+), 32 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 3c5bea0..8b799c9 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -653,6 +653,64 @@ static inline void get_term(const char *line, char **prev_pos,
 }
 
 
+/* returns 1 if the term has no explicit coefficient, i.e. if it starts, up to
+ * its sign, with a variable */
+static inline int has_implicit_coefficient(const char *term){
+  if (*term == '+' || *term == '-') {
+    term++;
+  }
+  return !isdigit((unsigned char)*term);
+}
+
+/* returns the coefficient of the term, reduced to the range 0..field_char-1 */
+static inline int32_t get_coefficient_ff(const char *term, const int32_t field_char){
+  int64_t cf  = (int64_t)strtol(term, NULL, 10);
+  if (cf == 0 && has_implicit_coefficient(term)) {
+    cf = term[0] == '-' ? -1 : 1;
+  }
+  cf  %=  field_char;
+  return (int32_t)(cf < 0 ? cf + field_char : cf);
+}
+
+/* Removes the terms of the i-th generator, stored from position pos on, whose
+ * coefficient is zero: they are not part of the polynomial. The zero polynomial
+ * keeps one term with coefficient zero. */
+static void remove_zero_terms(data_gens_ff_t *gens, const int32_t i, const int32_t pos){
+  const int32_t nv  = gens->nvars;
+  int32_t j, k = 0;
+
+  for (j = 0; j < gens->lens[i]; ++j) {
+    const int64_t src = (int64_t)pos + j;
+    const int64_t dst = (int64_t)pos + k;
+    if (gens->field_char == 0) {
+      if (mpz_sgn(*(gens->mpz_cfs[2*src])) == 0) {
+        continue;
+      }
+      if (src != dst) {
+        mpz_swap(*(gens->mpz_cfs[2*dst]), *(gens->mpz_cfs[2*src]));
+        mpz_swap(*(gens->mpz_cfs[2*dst+1]), *(gens->mpz_cfs[2*src+1]));
+      }
+    } else {
+      if (gens->cfs[src] == 0) {
+        continue;
+      }
+      gens->cfs[dst]  = gens->cfs[src];
+    }
+    if (src != dst) {
+      memcpy(gens->exps + dst*nv, gens->exps + src*nv,
+              (unsigned long)nv * sizeof(int32_t));
+    }
+    k++;
+  }
+  if (k == 0) {
+    k = 1;
+  }
+  /* the following entries are filled by the next generators */
+  memset(gens->exps + ((int64_t)pos+k)*nv, 0,
+          (unsigned long)(gens->lens[i]-k) * nv * sizeof(int32_t));
+  gens->lens[i] = k;
+}
+
 /*assumes that coeffs in file fit in word size */
 static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
                                           int32_t field_char,
@@ -660,46 +718,16 @@ static int get_coefficient_ff_and_term_from_line(char *line, int32_t nterms,
   char *prev_pos = NULL;
   size_t term_size = 50000;
   char *term  = (char *)malloc(term_size * sizeof(char));
-  int64_t cf_tmp  = 0; /** temp for coefficient value, possibly coeff is negative. */
 
   prev_pos = line;
   get_term(line, &prev_pos, &term, &term_size);
   if(term != NULL){
-    int32_t iv_tmp  = (int32_t)strtol(term, NULL, 10);
-    if (iv_tmp == 0) {
-      switch (term[0]) {
-          case '0':
-            iv_tmp = 0;
-            break;
-          case '-':
-            iv_tmp = -1;
-            break;
-          default:
-            iv_tmp = 1;
-            break;
-      }
-    }
-    while (iv_tmp < 0) {
-      iv_tmp  +=  field_char; //MS change int -> long int
-    }
-    gens->cfs[pos]  = (int32_t)iv_tmp;
+    gens->cfs[pos]  = get_coefficient_ff(term, field_char);
     store_exponent(term, gens, pos*gens->nvars);
     for(int j = 1; j < nterms; j++){
       get_term(line, &prev_pos, &term, &term_size);
       if (term != NULL) {
-        cf_tmp  = (int64_t)strtol(term, NULL, 10);
-
-        if (cf_tmp == 0) {
-          if (term[0] == '-') {
-            cf_tmp = -1;
-          } else {
-            cf_tmp = 1;
-          }
-        }
-        while (cf_tmp < 0) {
-          cf_tmp  += field_char;
-        }
-        gens->cfs[pos+j] = (int32_t)(cf_tmp % field_char);
+        gens->cfs[pos+j] = get_coefficient_ff(term, field_char);
         store_exponent(term, gens, (pos+j)*gens->nvars);
       }
       //      store_exponent(term, basis, ht);
@@ -834,6 +862,7 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
             fclose(fh);
             exit(1);
         }
+        remove_zero_terms(gens, i, pos);
         pos += gens->lens[i];
     }
     *linep  = line;
@@ -879,6 +908,7 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
             fclose(fh);
             exit(1);
         }
+        remove_zero_terms(gens, i, pos/2);
         pos += 2 * gens->lens[i];
     }
     *linep  = line;
-- 
2.43.0


From 20059793a3beeb25786220cd6a74eafde4b2b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 02/35] fix: count zero generators only once

validate_input_data() lowered the number of generators by the number of zero
ones and check_and_set_meta_data() subtracted them again: with a zero
generator in front, other generators were silently ignored or msolve did not
terminate.
---
 src/neogb/engine.c | 7 ++++++-
 src/neogb/io.c     | 6 ++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index 4f641e1..b1cb14d 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -60,7 +60,12 @@ int initialize_gba_input_data(
             &reduce_gb, &truncate_lifting, &info_level);
 
     /* not enough elements available for normal form computations resp. saturation */
-    if (nr_gens <= nr_nf) {
+    int32_t nr_valid_gens = nr_gens;
+    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens; ++i) {
+        nr_valid_gens -=  invalid_gens[i];
+    }
+    if (nr_valid_gens <= nr_nf) {
+        free(invalid_gens);
         return 0;
     }
     /* all data is corrupt */
diff --git a/src/neogb/io.c b/src/neogb/io.c
index e20805b..bea7804 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -752,11 +752,9 @@ int validate_input_data(
         return 1;
     }
 
-    *nr_gensp   -=  ctr;
-
     /* recheck number of generators, if the input was only (0) then
      * no more generators are left over. */
-    if (*nr_gensp < 1) {
+    if (ngens - ctr < 1) {
         return -1;
     }
 
@@ -801,7 +799,7 @@ int32_t check_and_set_meta_data(
     }
 
     long ctr    =   0;
-    for (int i = 0; i < nr_gens; ++i) {
+    for (int i = 0; i < nr_gens - nr_nf; ++i) {
         ctr +=  invalid_gens[i];
     }
 
-- 
2.43.0


From 3e0fcbb4ec6bbf8dcaaef34c827167830dd2c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 03/35] fix: print the leading monomial of constants and of
 zero normal forms

Over prime fields the leading ideal of the unit ideal was printed as an empty
list, and a list of leading monomials ending in zero was not terminated.
---
 src/msolve/iofiles.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 8b799c9..96a4fbb 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -226,7 +226,7 @@ static void print_msolve_polynomials_ff(
         for (i = from; i < to; ++i) {
             idx = bs->lmps[i];
             if (bs->hm[idx] == NULL) {
-                fprintf(file, "0,\n");
+                fprintf(file, "0");
             } else {
                 hm  = bs->hm[idx]+OFFSET;
                 len = bs->hm[idx][LENGTH];
@@ -244,12 +244,15 @@ static void print_msolve_polynomials_ff(
                         fprintf(file, "*%s^%u",vnames[k], ht->ev[hm[0]][evi[k]]);
                     }
                 }
-                if (i < to-1) {
-                    fprintf(file, ",\n");
-                } else {
-                    fprintf(file, "]:\n");
+                if (ctr == 0) {
+                    fprintf(file, "1");
                 }
             }
+            if (i < to-1) {
+                fprintf(file, ",\n");
+            } else {
+                fprintf(file, "]:\n");
+            }
         }
     } else {
         fprintf(file, "[");
-- 
2.43.0


From 5180ae6e2e5ee3200f377cf9bd9332c266cb8e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 04/35] fix: trace modular computations only with the linear
 algebra that generates tracer data

---
 src/neogb/f4.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neogb/f4.c b/src/neogb/f4.c
index 2237798..cd783ee 100644
--- a/src/neogb/f4.c
+++ b/src/neogb/f4.c
@@ -360,7 +360,8 @@ static int32_t initialize_f4(
     if (gmd->fc != fc) {
         reset_function_pointers(fc, md->laopt);
         bs = copy_basis_mod_p(gbs, md);
-        if (md->laopt < 40) {
+        /* only the exact sparse linear algebra generates tracer data */
+        if (md->laopt == 2) {
             if (md->trace_level != APPLY_TRACER) {
                 md->trace_level = LEARN_TRACER;
             }
-- 
2.43.0


From 469ad0698637219a04e86c1fe1fa63f7bb0c5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:25 +0000
Subject: [PATCH 05/35] fix: enlarge a completely filled hash table before
 storing tracer multipliers

---
 src/neogb/symbol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neogb/symbol.c b/src/neogb/symbol.c
index 62d069f..d02c946 100644
--- a/src/neogb/symbol.c
+++ b/src/neogb/symbol.c
@@ -121,7 +121,7 @@ static void select_all_spairs(
         /* track trace information ? */
         if (tht != NULL) { 
            rrows[nrr][BINDEX]  = prev;
-            if (tht->eld == tht->esz-1) {
+            if (tht->eld >= tht->esz-1) {
                 enlarge_hash_table(tht);
             }
             rrows[nrr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -157,7 +157,7 @@ static void select_all_spairs(
             /* track trace information ? */
             if (tht != NULL) {
                 trows[ntr][BINDEX]  = prev;
-                if (tht->eld == tht->esz-1) {
+                if (tht->eld >= tht->esz-1) {
                     enlarge_hash_table(tht);
                 }
                 trows[ntr][MULT]    = insert_in_hash_table(etmp, tht);
@@ -326,7 +326,7 @@ static int32_t select_spairs_by_minimal_degree(
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) { 
            rrows[nrr][BINDEX]  = prev;
-            if (bs->ht->eld == bs->ht->esz-1) {
+            if (bs->ht->eld >= bs->ht->esz-1) {
                 enlarge_hash_table(bs->ht);
             }
 #if PARALLEL_HASHING
@@ -361,7 +361,7 @@ static int32_t select_spairs_by_minimal_degree(
             /* track trace information ? */
             if (md->trace_level == LEARN_TRACER) {
                 trows[ntr][BINDEX]  = prev;
-                if (bs->ht->eld == bs->ht->esz-1) {
+                if (bs->ht->eld >= bs->ht->esz-1) {
                     enlarge_hash_table(bs->ht);
                 }
 #if PARALLEL_HASHING
@@ -539,7 +539,7 @@ start:
         /* track trace information ? */
         if (md->trace_level == LEARN_TRACER) {
             rows[rr][BINDEX]  = lmps[i];
-            if (bht->eld == bht->esz-1) {
+            if (bht->eld >= bht->esz-1) {
                 enlarge_hash_table(bht);
             }
 #if PARALLEL_HASHING
-- 
2.43.0


From 3a97dea6936281c6fbfdb3d229b265c64f2886aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:05 +0000
Subject: [PATCH 06/35] fix: accept zero polynomials among those to be reduced
 and refuse bad input before using it

---
 src/msolve/msolve.c | 18 +++++++++---------
 src/neogb/engine.c  |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index f94692e..76d9f82 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -3607,16 +3607,16 @@ restart:
                 exit(1);
             }
 
+            if (!success) {
+                printf("Bad input data, stopped computation.\n");
+                exit(1);
+            }
             st->gfc  = gens->field_char;
             if(info_level){
                 fprintf(stderr,
                         "NOTE: Field characteristic is now corrected to %u\n",
                         st->gfc);
             }
-            if (!success) {
-                printf("Bad input data, stopped computation.\n");
-                exit(1);
-            }
             /* compute a gb for initial generators */
             success = core_sba_schreyer(&bs, &bht, &st);
 
@@ -3776,16 +3776,16 @@ restart:
                     update_ht, la_option, use_signatures, 1 /* reduce_gb */, 0,
                     0 /*truncate_lifting */, info_level);
 
+            if (!success) {
+                printf("Bad input data, stopped computation.\n");
+                exit(1);
+            }
 	    st->gfc  = gens->field_char;
             if(info_level){
                 fprintf(stderr,
                         "NOTE: Field characteristic is now corrected to %u\n",
                         st->gfc);
             }
-            if (!success) {
-                printf("Bad input data, stopped computation.\n");
-                exit(1);
-            }
 
 	    ct0p = cputime();
 	    rt0p = realtime();
@@ -4182,11 +4182,11 @@ restart:
                     update_ht, la_option, use_signatures, 1 /* reduce_gb */, 0,
                     0 /*truncate_lifting */, info_level);
 
-            st->gfc  = gens->field_char;
             if (!success) {
                 printf("Bad input data, stopped computation.\n");
                 exit(1);
             }
+            st->gfc  = gens->field_char;
 
             if (is_gb == 1) {
                 for (len_t k = 0; k < bs->ld; ++k) {
diff --git a/src/neogb/engine.c b/src/neogb/engine.c
index b1cb14d..e37f429 100644
--- a/src/neogb/engine.c
+++ b/src/neogb/engine.c
@@ -60,11 +60,11 @@ int initialize_gba_input_data(
             &reduce_gb, &truncate_lifting, &info_level);
 
     /* not enough elements available for normal form computations resp. saturation */
-    int32_t nr_valid_gens = nr_gens;
-    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens; ++i) {
+    int32_t nr_valid_gens = nr_gens - nr_nf;
+    for (int32_t i = 0; invalid_gens != NULL && i < nr_gens - nr_nf; ++i) {
         nr_valid_gens -=  invalid_gens[i];
     }
-    if (nr_valid_gens <= nr_nf) {
+    if (nr_valid_gens <= 0) {
         free(invalid_gens);
         return 0;
     }
-- 
2.43.0


From e939b81a68ca425cc0eef24650ed1ae7c665a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:24 +0000
Subject: [PATCH 07/35] fix: size the multiplier arrays of the saturation
 kernel by the number of rows

---
 src/neogb/la_ff_32.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neogb/la_ff_32.c b/src/neogb/la_ff_32.c
index 6cbe615..1787689 100644
--- a/src/neogb/la_ff_32.c
+++ b/src/neogb/la_ff_32.c
@@ -2900,9 +2900,9 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
  *     printf("not trivial! "); */
     /* if kernel is not trivial really compute it */
     /* dense row for multipliers */
-    hm_t **mulh     = (hm_t **)calloc((unsigned long)ncols, sizeof(hm_t *));
-    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
-    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)ncols, sizeof(cf32_t *));
+    hm_t **mulh     = (hm_t **)calloc((unsigned long)sat->ld, sizeof(hm_t *));
+    cf32_t **mulcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
+    cf32_t **pivcf  = (cf32_t **)calloc((unsigned long)sat->ld, sizeof(cf32_t *));
     int64_t *drm    = calloc((unsigned long)sat->ld, sizeof(int64_t));
     /* now we do a ususal F4 reduction with updated pivs, but we have
      * to track the reduction steps when reducing each row from upivs */
@@ -2975,7 +2975,7 @@ static void exact_sparse_reduced_echelon_form_sat_ff_32(
         free(pivs[i]);
         pivs[i] = NULL;
     }
-    for (i = 0; i < ncols; ++i) {
+    for (i = 0; i < sat->ld; ++i) {
         free(mulcf[i]);
         mulcf[i]  = NULL;
         free(pivcf[i]);
-- 
2.43.0


From 49f0a5299757d46282a535899fd20c427fef9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:35 +0000
Subject: [PATCH 08/35] fix: test saturatedness with a monic element and
 restore the basis arrays afterwards

---
 src/neogb/f4sat.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index a0216b7..f38d9fc 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -118,8 +118,8 @@ static int is_already_saturated(
     memcpy(lm, bs->lm, (unsigned long)lml * sizeof(sdm_t));
     bl_t *lmps      = (bl_t *)malloc((unsigned long)lml * sizeof(bl_t));
     memcpy(lmps, bs->lmps, (unsigned long)lml * sizeof(bl_t));
-    int8_t *red     = (int8_t *)malloc((unsigned long)bs->sz * sizeof(int8_t));
-    memcpy(red, bs->red, (unsigned long)bs->sz * sizeof(int8_t));
+    int8_t *red     = (int8_t *)malloc((unsigned long)bld * sizeof(int8_t));
+    memcpy(red, bs->red, (unsigned long)bld * sizeof(int8_t));
     
     ps_t *ps = st->ps;
 
@@ -132,6 +132,8 @@ static int is_already_saturated(
     memcpy(hm, sat->hm[0],
             (unsigned long)(sat->hm[0][LENGTH]+OFFSET) * sizeof(hm_t));
 
+    /* basis elements have to be monic */
+    normalize_sparse_matrix_row_ff_32(cf, hm[PRELOOP], hm[LENGTH], st->fc);
     bs->cf_32[bs->ld] = cf;
     hm[COEFFS]        = bs->ld;
     bs->hm[bs->ld]    = hm;
@@ -189,13 +191,15 @@ static int is_already_saturated(
     /* reset infolevel */
     st->info_level  = infolevel;
 
-    free(bs->lm);
-    bs->lm    = lm;
-    free(bs->lmps);
-    bs->lmps  = lmps;
+    /* note that the arrays in bs may have been enlarged meanwhile */
+    memcpy(bs->lm, lm, (unsigned long)lml * sizeof(sdm_t));
+    free(lm);
+    memcpy(bs->lmps, lmps, (unsigned long)lml * sizeof(bl_t));
+    free(lmps);
     bs->lml   = lml;
-    free(bs->red);
-    bs->red   = red;
+    memcpy(bs->red, red, (unsigned long)bld * sizeof(int8_t));
+    free(red);
+    memset(bs->red + bld, 0, (unsigned long)(bs->sz - bld) * sizeof(int8_t));
 
     /* *hcmp = hcm; */
     *bhtp = bht;
-- 
2.43.0


From 1c02b1d6c5931c7ce8955deb6f914e4b60348da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:35 +0000
Subject: [PATCH 09/35] fix: run the saturation step until the complete
 quotient has been tested

---
 src/neogb/f4sat.c | 74 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 11 deletions(-)

diff --git a/src/neogb/f4sat.c b/src/neogb/f4sat.c
index f38d9fc..5c0cc0c 100644
--- a/src/neogb/f4sat.c
+++ b/src/neogb/f4sat.c
@@ -66,25 +66,56 @@ static inline int is_zero_dimensional(
         const ht_t * const ht
         )
 {
-    len_t i;
+    len_t i, j;
 
     len_t ctr = 0;
-    
+
+    const len_t evl = ht->evl;
     const len_t nv  = ht->nv;
     const len_t lml = bs->lml;
 
+    /* different basis elements may have the same lead monomial,
+     * thus count variables instead of pure powers. */
+    int8_t *pp  = (int8_t *)calloc((unsigned long)evl, sizeof(int8_t));
+
     for (i = 0; i < lml; ++i) {
-        if (is_pure_power(ht->ev[bs->hm[bs->lmps[i]][OFFSET]], ht)) {
-            ctr ++;
+        const exp_t * const ev = ht->ev[bs->hm[bs->lmps[i]][OFFSET]];
+        if (is_pure_power(ev, ht)) {
+            for (j = 1; j < evl; ++j) {
+                if (j != ht->ebl && ev[j] != 0 && pp[j] == 0) {
+                    pp[j] = 1;
+                    ctr++;
+                }
+            }
         }
     }
-    
+    free(pp);
+
     if (ctr == nv) {
         return 1;
     }
     return 0;
 }
 
+/* upper bound for the degree of the elements in the quotient basis of a
+ * zero-dimensional ideal */
+static inline deg_t max_quotient_degree(
+        const bs_t * const bs,
+        const ht_t * const ht
+        )
+{
+    len_t i;
+    deg_t deg = 0;
+
+    for (i = 0; i < bs->lml; ++i) {
+        const hm_t lm = bs->hm[bs->lmps[i]][OFFSET];
+        if (is_pure_power(ht->ev[lm], ht)) {
+            deg +=  ht->hd[lm].deg - 1;
+        }
+    }
+    return deg;
+}
+
 static int is_already_saturated(
         bs_t *bs,
         const bs_t * const sat,
@@ -563,8 +594,17 @@ int core_f4sat(
      * are left in the pairset */
     print_round_information_header(stdout, st);
     round = 1;
+    for (i = 0; i < bs->lml; ++i) {
+        if (bht->hd[bs->hm[bs->lmps[i]][OFFSET]].deg == 0) {
+            bs->constant  = 1;
+        }
+    }
 end_sat_step:
-    for (; ps->ld > 0; ++round) {
+    for (; bs->constant == 0; ++round) {
+        /* no spairs left, but saturation may still add elements */
+        if (ps->ld == 0) {
+            goto sat_step;
+        }
         rrt = realtime();
         crt = cputime();
         st->max_bht_size  = st->max_bht_size > bht->esz ?
@@ -607,6 +647,7 @@ end_sat_step:
         clean_hash_table(sht);
         print_round_timings(stdout, st, rrt, crt);
 
+sat_step:
         /* saturation step starts here */
         if ((bs->mltdeg >= sat->hm[0][DEG] && sat_test != 0) || ps->ld == 0) {
         /* if (bs->mltdeg - next_deg == 0 || ps->ld == 0) { */
@@ -617,14 +658,22 @@ end_sat_step:
                     is_already_saturated(
                         bs, sat, mat, &bht, &sht, st)) {
                 /* sat_done  = 1; */
-                goto end_sat_step;
+                break;
             }
             /* check for new elements to be tested for adding saturation
              * information to the intermediate basis */
             if (ps->ld != 0) {
                 sat_deg = 2*bs->mltdeg/3;
+            } else if (is_zero_dimensional(bs, bht)) {
+                /* test the complete quotient basis */
+                sat_deg = max_quotient_degree(bs, bht) + 1;
             } else {
-                sat_deg = bs->mltdeg;
+                sat_deg = bs->mltdeg + 1;
+            }
+            /* the basis may have changed since the last test,
+             * thus test all multipliers again. */
+            if (ps->ld == 0 && next_deg >= sat_deg && sat_deg > 0) {
+                next_deg = sat_deg - 1;
             }
             len_t bld = bs->ld;
 
@@ -638,9 +687,9 @@ end_sat_step:
 
                 symbolic_preprocessing(mat, bs, st);
 
-                /* It may happen that there is no reducer at all for the
-                 * saturation elements, then nothing has to be done. */
-                if (mat->nru > 0) {
+                /* Also without any reducer the saturation elements may
+                 * be linearly dependent. */
+                if (sat->ld > 0) {
                     if (st->info_level > 1) {
                         /* printf("kernel computation "); */
                         printf("%3u  compute kernel", sat_deg);
@@ -726,6 +775,9 @@ end_sat_step:
             }
             next_deg  = sat_deg;
         }
+        if (ps->ld == 0) {
+            break;
+        }
     }
     print_round_information_footer(stdout, st);
     /* remove possible redudant elements */
-- 
2.43.0


From 31e866c8f32b3fd88e1455562bb4d2b74f51040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 10/35] fix: skip a prime whose basis has another number of
 elements instead of reusing the last one

---
 src/msolve/lifting-gb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 07ebb22..fab4cb9 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -742,17 +742,17 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
   /* F4 and FGLM are run using a single thread */
   /* st->nthrds is reset to its original value afterwards */
   /*at the moment multi-threading is not supprted here*/
-  memset(bad_primes, 0, (unsigned long)st->nprimes * sizeof(int));
+  memset(bad_primes, 0, (unsigned long)st->nthrds * sizeof(int));
 
   bs_t *bs = NULL;
   int32_t error = 0;
   bs = core_gba(bs_qq, st, &error, lp->p[0]);
   *stf4 = realtime()-rt;
-  ht_t **bht = &(bs->ht);
   if (bs == NULL) {
       bad_primes[0] = 1;
       return;
   }
+  ht_t **bht = &(bs->ht);
   int32_t lml = bs->lml;
   if (st->nev > 0) {
       int32_t j = 0;
@@ -766,6 +766,7 @@ static void gb_modular_trace_application(gb_modpoly_t modgbs,
       lml = j;
   }
   if (lml != num_gb[0]) {
+      bad_primes[0] = 1;
       if (bs != NULL) {
         free_basis_and_only_local_hash_table_data(&bs);
       }
-- 
2.43.0


From 56aefa27ba68d0a96620a8bb27253000d41e48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:51 +0000
Subject: [PATCH 11/35] fix: avoid a division by zero when computing
 parametrizations in characteristic 2

---
 src/fglm/fglm_core.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index ae04cbe..d79ba1f 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -627,8 +627,8 @@ static inline void generate_sequence(sp_matfglm_t *matrix, fglm_data_t * data,
 #endif
 
   uint32_t preinv = 2^(62) / prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   for(szmat_t i = 1; i < matrix->ncols; i++){
     sparse_mat_fglm_mult_vec(data->vvec, matrix,
@@ -775,8 +775,8 @@ static void generate_sequence_verif(sp_matfglm_t *matrix, fglm_data_t * data,
   RED_64 = (RED_64*2) % prime;
 
   uint32_t preinv = 2^(62) / prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
   int dec= 0;
   for(szmat_t j = 1; j < block_size; j++){
     while (nvars-1-j-dec > 0 && linvars[nvars-1-j-dec] != 0) {
@@ -1875,8 +1875,8 @@ guess_sequence_colon(sp_matfglmcol_t *matrix, fglm_data_t * data,
 #endif
 
   uint32_t preinv = 2^(62) % prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   uint64_t * data_backup = (uint64_t *) malloc (2 * matrix->ncols * sizeof(uint64_t));
 
@@ -1977,8 +1977,8 @@ static inline void generate_sequence_colon(sp_matfglmcol_t *matrix,
 #endif
 
   uint32_t preinv = 2^(62) % prime;
-  uint32_t pi1 = ((uint64_t)pow(2, 32)) / RED_64;
-  uint32_t pi2 = (uint64_t)pow(2, 32) / RED_32;
+  uint32_t pi1 = RED_64 ? ((uint64_t)pow(2, 32)) / RED_64 : 0;
+  uint32_t pi2 = RED_32 ? (uint64_t)pow(2, 32) / RED_32 : 0;
 
   uint64_t acc = 0;
   for(szmat_t j = 0; j < matrix->ncols; j++){
-- 
2.43.0


From 8824f240c2a3f8a072dfc90939087a29593e52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:51 +0000
Subject: [PATCH 12/35] fix: keep the coefficients of the added linear form
 nonzero in the coefficient field and state the form in use

In characteristic at most the number of variables some coefficients became zero,
which removed the added generator and led to the verdict of infinitely many
solutions. A deterministic linear form following a random one was reported with
the coefficients of the random one.
---
 src/msolve/msolve.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 76d9f82..96f0060 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -119,6 +119,19 @@ static inline void mpz_param_clear(mpz_param_t param) {
   param->nsols = 0;
 }
 
+/* coefficient of the k-th variable, k starting from 1, in the linear form
+ * defining the extra variable; it must not vanish in the coefficient field */
+static inline int32_t get_linear_form_coefficient(const data_gens_ff_t *gens,
+                                                  const int32_t k) {
+  if (gens->field_char > 0) {
+    const ulong cf = n_powmod2(k % gens->field_char,
+                               gens->linear_form_base_coef - 1,
+                               gens->field_char);
+    return cf == 0 ? 1 : (int32_t)cf;
+  }
+  return (int32_t)(pow(k, gens->linear_form_base_coef - 1));
+}
+
 static inline void mpz_param_out_str(FILE *file, const data_gens_ff_t *gens,
                                      const long dquot, mpz_param_t param,
                                      param_t *mod_param) {
@@ -158,9 +171,8 @@ static inline void mpz_param_out_str(FILE *file, const data_gens_ff_t *gens,
     }
   } else {
     if (gens->linear_form_base_coef > 0) {
-      const int32_t bcf = gens->linear_form_base_coef;
       for (int i = 0; i < param->nvars - 1; ++i) {
-        fprintf(file, "%d,", (int32_t)(pow(i + 1, bcf - 1)));
+        fprintf(file, "%d,", get_linear_form_coefficient(gens, i + 1));
       }
       fprintf(file, "%d", (int32_t)(1));
     } else {
@@ -583,6 +595,8 @@ static int add_linear_form_to_input_system(data_gens_ff_t *gens,
     }
   }
   gens->linear_form_base_coef++;
+  /* replaces a random linear form, if there was one */
+  gens->rand_linear = 0;
   const int32_t bcf = gens->linear_form_base_coef;
   k = 1;
   if (info_level > 0) {
@@ -594,7 +608,7 @@ static int add_linear_form_to_input_system(data_gens_ff_t *gens,
   }
   if (gens->field_char > 0) {
     for (i = len_old; i < len_new - 1; ++i) {
-      gens->cfs[i] = ((int32_t)(pow(k, bcf - 1)) % gens->field_char);
+      gens->cfs[i] = get_linear_form_coefficient(gens, k);
       k++;
     }
     gens->cfs[len_new - 1] = 1;
-- 
2.43.0


From 13e0c6296dbdea6947332b59433ca8a46fbdef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 13/35] fix: take another linear form when the Hankel matrix
 cannot be inverted

The branch for V1(0) = 0 read past the end of the computed sequence and
returned wrong parametrizations; the tracer application ended the program.
---
 src/fglm/fglm_core.c | 123 +++++--------------------------------------
 1 file changed, 12 insertions(+), 111 deletions(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index d79ba1f..a9e7565 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -248,114 +248,10 @@ static int invert_hankel_matrix(fglm_bms_data_t *data_bms, szmat_t deg){
     nmod_poly_scalar_mul_nmod(data_bms->Z2, data_bms->BMS->V1, inv);
 
   }
-  else{//V1(0) = 0
-    fprintf(stderr, "Warning: this part of the code has not been tested intensively\n");
-    nmod_poly_one(data_bms->BMS->R0);
-    nmod_poly_zero(data_bms->BMS->R1);
-    nmod_poly_zero(data_bms->BMS->V0);
-    nmod_poly_one(data_bms->BMS->V1);
-    data_bms->BMS->npoints = 0;
-
-    data_bms->BMS->points->length = 2 * dim + 1;
-
-    long queue_lo = (data_bms->BMS->npoints);
-    long queue_len = (data_bms->BMS->points->length) - queue_lo;
-    nmod_poly_zero(data_bms->BMS->rt);
-    nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len+1, 1);
-    for (long i = 0; i < queue_len; i++)
-      {
-        nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len - i,
-                               data_bms->BMS->points->coeffs[queue_lo + i]);
-      }
-    nmod_poly_set_coeff_ui(data_bms->BMS->rt, 0, 1);
-
-    nmod_em_gcd_preinstantiated(data_bms->BMS, 0);//B->rt is pre-instantied
-
-    if(data_bms->BMS->R1->length-1 == dim){
-      mp_limb_t inv = n_invmod(data_bms->BMS->R1->coeffs[data_bms->BMS->R1->length-1],
-                               (data_bms->BMS->R1->mod).n);
-      nmod_poly_scalar_mul_nmod(data_bms->Z1, data_bms->BMS->V1, inv);
-
-
-      nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len+1, 1);
-      for (long i = 0; i < queue_len; i++)
-        {
-          nmod_poly_set_coeff_ui(data_bms->BMS->rt, i + 1,
-                                 data_bms->BMS->points->coeffs[queue_lo + i]);
-        }
-      nmod_poly_set_coeff_ui(data_bms->BMS->rt, 0, 1);
-
-      nmod_poly_one(data_bms->BMS->R0); //x^(2dim +1)
-      nmod_poly_zero(data_bms->BMS->R1);
-      nmod_poly_zero(data_bms->BMS->V0);
-      nmod_poly_one(data_bms->BMS->V1);
-      data_bms->BMS->npoints = 0;
-
-      //(R_i, R_{i+1}, V_i, V_{i+1}) = EMGCD(R_0, R_1)
-      nmod_em_gcd_preinstantiated(data_bms->BMS, 0);
-      //Z2 = LC(R_{i+1})^{-1} x (V_{i+1})
-      inv = n_invmod(data_bms->BMS->R1->coeffs[data_bms->BMS->R1->length-1],
-                     (data_bms->BMS->R1->mod).n);
-      nmod_poly_scalar_mul_nmod(data_bms->Z2, data_bms->BMS->V1, inv);
-      fprintf(stderr, "Something should be checked\n");
-      return 1;
-    }
-    else{
-      nmod_poly_one(data_bms->BMS->R0);
-      nmod_poly_zero(data_bms->BMS->R1);
-      nmod_poly_zero(data_bms->BMS->V0);
-      nmod_poly_one(data_bms->BMS->V1);
-      data_bms->BMS->npoints = 0;
-
-      data_bms->BMS->points->length = 2 * dim + 1;
-
-      queue_lo = (data_bms->BMS->npoints);
-      queue_len = (data_bms->BMS->points->length) - queue_lo;
-      nmod_poly_zero(data_bms->BMS->rt);
-      nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len+1, data_bms->BMS->R1->mod.n - 1);
-      for (long i = 0; i < queue_len; i++)
-        {
-          nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len - i,
-                                 data_bms->BMS->points->coeffs[queue_lo + i]);
-        }
-      nmod_poly_set_coeff_ui(data_bms->BMS->rt, 0, 1);
-
-      nmod_em_gcd_preinstantiated(data_bms->BMS, 0);//B->rt is pre-instantied
-
-      if(data_bms->BMS->R1->length-1 == dim){
-        mp_limb_t inv = n_invmod(data_bms->BMS->R1->coeffs[data_bms->BMS->R1->length-1],
-                                 (data_bms->BMS->R1->mod).n);
-        nmod_poly_scalar_mul_nmod(data_bms->Z1, data_bms->BMS->V1, inv);
-
-
-        nmod_poly_set_coeff_ui(data_bms->BMS->rt, queue_len+1, 1);
-        for (long i = 0; i < queue_len; i++)
-          {
-            nmod_poly_set_coeff_ui(data_bms->BMS->rt, i + 1,
-                                   data_bms->BMS->points->coeffs[queue_lo + i]);
-          }
-        nmod_poly_set_coeff_ui(data_bms->BMS->rt, 0, data_bms->BMS->R1->mod.n - 1);
-
-        nmod_poly_one(data_bms->BMS->R0); //x^(2dim +1)
-        nmod_poly_zero(data_bms->BMS->R1);
-        nmod_poly_zero(data_bms->BMS->V0);
-        nmod_poly_one(data_bms->BMS->V1);
-        data_bms->BMS->npoints = 0;
-
-        //(R_i, R_{i+1}, V_i, V_{i+1}) = EMGCD(R_0, R_1)
-        nmod_em_gcd_preinstantiated(data_bms->BMS, 0);
-        //Z2 = LC(R_{i+1})^{-1} x (V_{i+1})
-        inv = n_invmod(data_bms->BMS->R1->coeffs[data_bms->BMS->R1->length-1],
-                       (data_bms->BMS->R1->mod).n);
-        nmod_poly_scalar_mul_nmod(data_bms->Z2, data_bms->BMS->V1, inv);
-        fprintf(stderr, "Something should be checked\n");
-        return 1;
-      }
-      else{
-        fprintf(stderr, "There should be a bug here (invert_hankel)\n");
-        return 0;
-      }
-    }
+  else{
+    /* V1(0) = 0, the inverse is not given by Z1 and Z2. This depends on the
+     * random choice of the sequence, another one has to be taken. */
+    return 0;
   }
   return 1;
 }
@@ -1629,7 +1525,10 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                 nlins, linvars, lineqs,
                                 nvars) == 0){
 
-      fprintf(stderr, "Matrix is not invertible (there should be a bug)\n");
+      if(info_level){
+        fprintf(stderr, "Hankel matrix cannot be inverted\n");
+      }
+      *success = 0;
       return NULL;
 
     }
@@ -1804,8 +1703,10 @@ int nmod_fglm_compute_apply_trace_data(sp_matfglm_t *matrix,
 				nlins, linvars, lineqs,
 				nvars) == 0){
 
-      fprintf(stderr, "Matrix is not invertible (there should be a bug)\n");
-      exit(1);
+      if(info_level){
+        fprintf(stderr, "Hankel matrix cannot be inverted\n");
+      }
+      return 1;
     }
 
   } else {
-- 
2.43.0


From 27e09ff42a679f8aa012275b7f53ebf17755b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 14/35] fix: allocate the two coefficients set in
 parametrizations of degree one

---
 src/fglm/fglm_core.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index a9e7565..63607ae 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1156,8 +1156,9 @@ int compute_parametrizations_non_shape_position_case(param_t *param,
           nmod_poly_neg(param->coords[nvars-2-nc], data_bms->BMS->R1);
         }
         else{
+          /* two coefficients are set below */
           nmod_poly_fit_length(param->coords[nvars-2-nc],
-                               param->elim->length-1 );
+                               param->elim->length > 2 ? param->elim->length-1 : 2);
           param->coords[nvars-2-nc]->length = data_bms->BMS->R1->length ;
           param->coords[nvars-2-nc]->coeffs[0] = 0;
           param->coords[nvars-2-nc]->coeffs[1] = 0;
-- 
2.43.0


From bb49550b50f6e8c375daaf309a4d43bbb4288e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:47 +0000
Subject: [PATCH 15/35] fix: refuse too large primes in the FGLM step instead
 of dereferencing NULL

---
 src/fglm/fglm_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 63607ae..2bd5c37 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -1431,7 +1431,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
   if(prime>=1518500213){
     fprintf(stderr, "Prime %u is too large.\n", prime);
     fprintf(stderr, "One needs to use updated linear algebra fglm functions\n");
-    return NULL;
+    exit(1);
   }
 
   /* to store the terms we need */
-- 
2.43.0


From 87c33d30a4b387d8c15ef50a48e8c55a3e3ef905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:32 +0000
Subject: [PATCH 16/35] fix: enlarge the hash table before normal forms are
 entered

---
 src/neogb/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 0693514..7eae3b7 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -1069,9 +1069,9 @@ static inline void insert_in_basis_hash_table_pivots(
 {
     len_t l;
 
-    /* while (bht->esz - bht->eld < row[LENGTH]) {
+    while (bht->esz - bht->eld < row[LENGTH]) {
         enlarge_hash_table(bht);
-    } */
+    }
 
     const len_t len = row[LENGTH]+OFFSET;
     const len_t evl = bht->evl;
-- 
2.43.0


From 018dea5d834803c2923723c288c98ce30a9a7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 17/35] fix: do not parametrize by a last variable that is
 constant on the solutions

---
 src/msolve/msolve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 96f0060..5d90607 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1625,6 +1625,19 @@ static int32_t *initial_modular_step(
 	    /* 					 leadmons[0], bs->ht->nv, */
 	    /* 					 fc, */
 	    /* 					 md->info_level); */
+	    /* the last variable is constant on the solutions, so it cannot
+	     * parametrize them if there is more than one; this is also not
+	     * supported by the sequences of the FGLM step */
+	    if (linvars[bs->ht->nv - 1] != 0 && dquot > 1) {
+	      if (md->info_level) {
+		fprintf(stderr, "Staircase is not generic\n");
+	      }
+	      *success = 0;
+	      *dim = 0;
+	      *dquot_ori = dquot;
+	      free(lmb);
+	      return NULL;
+	    }
 	    md->fglm_rtime = realtime();
 	    md->fglm_ctime = cputime();
 	    print_fglm_header (stdout,md);
-- 
2.43.0


From 07101d1745e3c59213d335f04346fffba1740a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:14 +0000
Subject: [PATCH 18/35] fix: use random linear forms when the deterministic
 ones fail repeatedly over a finite field

---
 src/msolve/msolve.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 5d90607..2b1953f 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -4133,6 +4133,13 @@ restart:
                 goto restart;
               }
               if (genericity_handling == 2) {
+                /* over finite fields the deterministically chosen linear
+                 * forms repeat, none of them may be suitable */
+                if (gens->field_char > 0 && gens->linear_form_base_coef >= 10) {
+                  if (add_random_linear_form_to_input_system(gens, info_level)) {
+                    goto restart;
+                  }
+                }
                 if (add_linear_form_to_input_system(gens, info_level)) {
                   goto restart;
                 }
-- 
2.43.0


From 62bcd73176d07df2a698db39d7018f50c7b931e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:25 +0000
Subject: [PATCH 19/35] fix: divide out the exact roots before refining another
 root

The intervals of the other roots may have an exact root as an end point. The
refinement took its sign, or reported that end point as the root.
---
 src/msolve/msolve.c    | 30 ++++++++++++++----------------
 src/usolve/libusolve.h |  5 ++++-
 src/usolve/refine.c    |  6 +++---
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 2b1953f..691a56a 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2954,8 +2954,11 @@ int newvalue_denom(mpz_t *denom, long deg, mpz_t r, long k, mpz_t *xdo,
   return (boo || (mpz_sgn(den_do)==0) || (mpz_sgn(den_up)==0));
 }
 
+/* polelim is the eliminating polynomial divided by the linear factors of the
+ * exact roots, its degree is *deg */
 void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
-                                 interval *rt, long nb, interval *pos_root,
+                                 unsigned long int *deg, interval *rt,
+                                 long nb, interval *pos_root,
                                  mpz_t *xdo, mpz_t *xup, mpz_t den_up,
                                  mpz_t den_do, mpz_t c, mpz_t tmp, mpz_t val_do,
                                  mpz_t val_up, mpz_t *tab, real_point_t pt,
@@ -2983,8 +2986,8 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
 
     /* root is positive */
     if (mpz_sgn(rt->numer) >= 0) {
-      get_values_at_bounds(param->elim->coeffs, ns, rt, tab);
-      refine_QIR_positive_root(polelim, &ns, rt, tab, 2 * (rt->k), info_level);
+      get_values_at_bounds(polelim, *deg, rt, tab);
+      refine_QIR_positive_root(polelim, deg, rt, tab, 2 * (rt->k), info_level);
     } else {
       /* root is negative */
       mpz_add_ui(pos_root->numer, rt->numer, 1);
@@ -2992,15 +2995,15 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
       pos_root->k = rt->k;
       pos_root->sign_left = -(rt->sign_left);
       pos_root->isexact = rt->isexact;
-      for (long i = 0; i <= ns; i++) {
+      for (unsigned long int i = 0; i <= *deg; i++) {
         if ((i & 1) == 1) {
           mpz_neg(polelim[i], polelim[i]);
         }
       }
-      get_values_at_bounds(polelim, ns, pos_root, tab);
-      refine_QIR_positive_root(polelim, &ns, pos_root, tab,
+      get_values_at_bounds(polelim, *deg, pos_root, tab);
+      refine_QIR_positive_root(polelim, deg, pos_root, tab,
                                2 * (pos_root->k) + ns, info_level);
-      for (long i = 0; i <= ns; i++) {
+      for (unsigned long int i = 0; i <= *deg; i++) {
         if ((i & 1) == 1) {
           mpz_neg(polelim[i], polelim[i]);
         }
@@ -3020,13 +3023,6 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
       }
     }
 
-    if (ns != param->nsols) {
-      for (long i = 0; i < param->elim->length; i++) {
-        mpz_set(polelim[i], param->elim->coeffs[i]);
-      }
-      ns = param->nsols;
-    }
-
     corr *= 2;
     b *= 2;
 
@@ -3201,6 +3197,8 @@ void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
   for (long i = 0; i < param->elim->length; i++) {
     mpz_init_set(polelim[i], param->elim->coeffs[i]);
   }
+  unsigned long int deg = nsols;
+  remove_exact_roots_by_division(polelim, &deg, roots, nb, 1);
   interval *pos_root = calloc(1, sizeof(interval));
   mpz_init(pos_root->numer);
   mpz_t s;
@@ -3211,8 +3209,8 @@ void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
   for (long nc = 0; nc < nb; nc++) {
     interval *rt = roots + nc;
 
-    lazy_single_real_root_param(param, polelim, rt, nb, pos_root, xdo, xup,
-                                den_up, den_do, c, tmp, val_do, val_up, tab,
+    lazy_single_real_root_param(param, polelim, &deg, rt, nb, pos_root, xdo,
+                                xup, den_up, den_do, c, tmp, val_do, val_up, tab,
                                 pts[nc], prec, nbits, s, info_level);
 
     if (info_level) {
diff --git a/src/usolve/libusolve.h b/src/usolve/libusolve.h
index 02c503d..b0a7441 100644
--- a/src/usolve/libusolve.h
+++ b/src/usolve/libusolve.h
@@ -44,9 +44,12 @@ void mpz_poly_eval_2exp_naive2(mpz_t *,
                               mpz_t, const int,
                               mpz_t, mpz_t);
 
+void remove_exact_roots_by_division(mpz_t *, unsigned long int *, interval *,
+                                    unsigned long int, int);
+
 void get_values_at_bounds(mpz_t *, unsigned long int, interval *, mpz_t *);
 
-void refine_QIR_positive_root(mpz_t *, long int *, interval *,
+void refine_QIR_positive_root(mpz_t *, unsigned long int *, interval *,
                                      mpz_t *, int, int);
 
 int mpz_scalar_product_interval(mpz_t *, unsigned long int, long,
diff --git a/src/usolve/refine.c b/src/usolve/refine.c
index 347f32f..95a45e1 100644
--- a/src/usolve/refine.c
+++ b/src/usolve/refine.c
@@ -703,9 +703,9 @@ static void refine_root_naive(mpz_t *upol, unsigned long int deg,
 }
 
 
-static void remove_exact_roots_by_division(mpz_t *upol, unsigned long int *deg,
-                                           interval *roots,
-                                           unsigned long int nbroots, int nthreads){
+void remove_exact_roots_by_division(mpz_t *upol, unsigned long int *deg,
+                                    interval *roots,
+                                    unsigned long int nbroots, int nthreads){
   for(unsigned long int i = 0; i < nbroots; i++){
     interval *rt = roots + i;
     if(rt->isexact==1){
-- 
2.43.0


From 0007451351c69a20ff28314cd1aca4c9eaefe996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 20/35] fix: refine the boxes of real solutions until they are
 disjoint

Boxes of nearly equal solutions overlapped when their coordinates were
computed with too little precision, in particular when the variable added for
genericity, whose intervals are disjoint, is not returned.
---
 src/msolve/msolve.c | 73 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 691a56a..843d458 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -2962,7 +2962,7 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
                                  mpz_t *xdo, mpz_t *xup, mpz_t den_up,
                                  mpz_t den_do, mpz_t c, mpz_t tmp, mpz_t val_do,
                                  mpz_t val_up, mpz_t *tab, real_point_t pt,
-                                 long prec, long nbits, mpz_t s,
+                                 long prec, long min_k, mpz_t s,
                                  int info_level) {
   long ns = param->nsols;
   /* root is exact */
@@ -2980,9 +2980,10 @@ void lazy_single_real_root_param(mpz_param_t param, mpz_t *polelim,
 
   generate_table_values_full(rt, c, ns, b, corr, xdo, xup);
   while (rt->isexact == 0 && 
-          newvalue_denom(param->denom->coeffs, param->denom->length - 1,
+          (rt->k < min_k ||
+           newvalue_denom(param->denom->coeffs, param->denom->length - 1,
                         rt->numer, rt->k, xdo, xup, tmp, den_do, den_up, corr,
-                        s)) {
+                        s))) {
 
     /* root is positive */
     if (mpz_sgn(rt->numer) >= 0) {
@@ -3169,8 +3170,35 @@ void normalize_points(real_point_t *pts, int64_t nb, int32_t nv) {
   }
 }
 
+/* compares x / 2^kx with y / 2^ky */
+static int cmp_2exp(mpz_t x, int32_t kx, mpz_t y, int32_t ky, mpz_t tmp) {
+  if (kx == ky) {
+    return mpz_cmp(x, y);
+  }
+  if (kx < ky) {
+    mpz_mul_2exp(tmp, x, ky - kx);
+    return mpz_cmp(tmp, y);
+  }
+  mpz_mul_2exp(tmp, y, kx - ky);
+  return mpz_cmp(x, tmp);
+}
+
+/* checks whether two boxes, given by nv coordinates, have a common point */
+static int boxes_intersect(real_point_t a, real_point_t b, long nv, mpz_t tmp) {
+  for (long i = nv - 1; i >= 0; i--) {
+    if (cmp_2exp(a->coords[i]->val_up, a->coords[i]->k_up,
+                 b->coords[i]->val_do, b->coords[i]->k_do, tmp) < 0 ||
+        cmp_2exp(b->coords[i]->val_up, b->coords[i]->k_up,
+                 a->coords[i]->val_do, a->coords[i]->k_do, tmp) < 0) {
+      return 0;
+    }
+  }
+  return 1;
+}
+
+/* nv is the number of coordinates which are returned to the user */
 void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
-                              real_point_t *pts, long prec, long nbits,
+                              real_point_t *pts, long nv, long prec,
                               double step, int info_level) {
   long nsols = param->elim->length - 1;
   mpz_t *xup = malloc(sizeof(mpz_t) * nsols);
@@ -3211,7 +3239,7 @@ void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
 
     lazy_single_real_root_param(param, polelim, &deg, rt, nb, pos_root, xdo,
                                 xup, den_up, den_do, c, tmp, val_do, val_up, tab,
-                                pts[nc], prec, nbits, s, info_level);
+                                pts[nc], prec, 0, s, info_level);
 
     if (info_level) {
       if (realtime() - et >= step) {
@@ -3221,6 +3249,32 @@ void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
     }
   }
 
+  /* the boxes have to isolate the roots: refine those which do not */
+  char *meet = calloc(nb, sizeof(char));
+  for (long nmeet = 1; nmeet > 0;) {
+    nmeet = 0;
+    for (long i = 0; i < nb; i++) {
+      for (long j = i + 1; j < nb; j++) {
+        if (boxes_intersect(pts[i], pts[j], nv, tmp)) {
+          meet[i] = 1;
+          meet[j] = 1;
+          nmeet++;
+        }
+      }
+    }
+    prec = 2 * MAX(prec, 64);
+    for (long i = 0; i < nb; i++) {
+      if (meet[i]) {
+        lazy_single_real_root_param(param, polelim, &deg, roots + i, nb,
+                                    pos_root, xdo, xup, den_up, den_do, c, tmp,
+                                    val_do, val_up, tab, pts[i], prec,
+                                    2 * roots[i].k, s, info_level);
+        meet[i] = 0;
+      }
+    }
+  }
+  free(meet);
+
   for (long i = 0; i < nsols; i++) {
     mpz_clear(xup[i]);
     mpz_clear(xdo[i]);
@@ -3249,7 +3303,7 @@ void extract_real_roots_param(mpz_param_t param, interval *roots, long nb,
 }
 
 real_point_t *isolate_real_roots_param(mpz_param_t param, long *nb_real_roots_ptr,
-                         interval **real_roots_ptr, int32_t precision,
+                         interval **real_roots_ptr, long nv, int32_t precision,
                          int32_t nr_threads, int32_t info_level) {
   mpz_t *pol = malloc(param->elim->length * sizeof(mpz_t));
 
@@ -3290,7 +3344,7 @@ real_point_t *isolate_real_roots_param(mpz_param_t param, long *nb_real_roots_pt
       real_point_init(pts[i], param->nvars);
     }
 
-    extract_real_roots_param(param, roots, nb, pts, precision, maxnbits, step,
+    extract_real_roots_param(param, roots, nb, pts, nv, precision, step,
                              info_level);
     if (info_level) {
       fprintf(stderr, "Elapsed time (real root extraction) = %.2f\n",
@@ -3322,7 +3376,8 @@ void isolate_real_roots_lparam(mpz_param_array_t lparams, long **lnbr_ptr,
   for (int i = 0; i < lparams->nb; i++) {
     lreal_pts[i] =
         isolate_real_roots_param(lparams->params[i], lnbr + i, lreal_roots + i,
-                                 precision, nr_threads, info_level);
+                                 lparams->params[i]->nvars, precision,
+                                 nr_threads, info_level);
   }
   (*lnbr_ptr) = lnbr;
   (*lreal_roots_ptr) = lreal_roots;
@@ -3413,6 +3468,8 @@ int real_msolve_qq(mpz_param_t *mpz_paramp, param_t **nmod_param, int *dim_ptr,
 
     pts =
         isolate_real_roots_param(*mpz_paramp, nb_real_roots_ptr, real_roots_ptr,
+                                 (*mpz_paramp)->nvars -
+                                     (gens->linear_form_base_coef > 0),
                                  precision, nr_threads, info_level);
     int32_t nb = *nb_real_roots_ptr;
     if (nb) {
-- 
2.43.0


From f05f17a6e6ffd7bb46bf02df5b94eb756f487e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:05 +0000
Subject: [PATCH 21/35] fix: separate generators by commata only, polynomials
 may be spread over lines

---
 src/msolve/iofiles.c | 72 +++++++++++++++++---------------------------
 1 file changed, 28 insertions(+), 44 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 96a4fbb..5e28169 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -390,27 +390,35 @@ static int32_t get_nvars(const char *fn)
 }
 
 /**
- * Checks if a null-terminated string is just empty
- * ("only whitespaces" counts as empty)
+ * Reads the next generator, i.e. the text up to the next comma or the end of
+ * the file, and removes its whitespaces and its comma. Whitespaces without
+ * generator are skipped.
  *
- * \return 1 if the line is empty, else 0
+ * \return 1 if there is a generator, else 0
  */
-static inline int is_line_empty(const char *line)
+static int get_next_generator(char **linep, size_t *len, FILE *fh)
 {
-    while (*line != '\0')
-    {
-        if (!isspace(*line))
-            return 0;
-        line++;
+    while (getdelim(linep, len, ',', fh) != -1) {
+        char *line = *linep;
+        size_t j, k = 0;
+        for (j = 0; line[j] != '\0'; ++j) {
+            if (!isspace((unsigned char)line[j]) && line[j] != ',') {
+                line[k++] = line[j];
+            }
+        }
+        line[k] = '\0';
+        if (k > 0) {
+            return 1;
+        }
     }
-    return 1;
+    return 0;
 }
 
 static int32_t get_ngenerators(char *fn)
 {
     int32_t ngens = 0;
     char *line  = NULL;
-    size_t len;
+    size_t len = 0;
     FILE *fh  = fopen(fn,"r");
 
     /* 1st and 2nd lines are ignored; still check all went fine */
@@ -418,11 +426,10 @@ static int32_t get_ngenerators(char *fn)
         || getline(&line, &len, fh) == -1)
         ngens = -1;
 
-    /* go through subsequent lines, not counting empty ones */
+    /* generators are separated by commata, they may be spread over lines */
     else
-        while(getline(&line, &len, fh) != -1)
-            if (! is_line_empty(line))
-                ngens++;
+        while(get_next_generator(&line, &len, fh))
+            ngens++;
 
     free(line);
     fclose(fh);
@@ -556,14 +563,9 @@ static void get_nterms_and_all_nterms(FILE *fh, char **linep,
                                       int32_t *nr_gens, nelts_t *nterms, nelts_t *all_nterms){
 
     char *line  = *linep;
-    int32_t i = 0, j = 0, k = 0;
+    int32_t i = 0;
     size_t len = 0;
-    while(getdelim(&line, &len, ',', fh) != -1) {
-        for (k = 0, j = 0; j < len; ++j) {
-            if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                line[k++] = line[j];
-            }
-        }
+    while(get_next_generator(&line, &len, fh)) {
         *nterms  = get_number_of_terms(line);
         gens->lens[i] = *nterms;
         *all_nterms += *nterms;
@@ -846,18 +848,9 @@ static void get_coeffs_and_exponents_ff32(FILE *fh, char **linep, nelts_t all_nt
 
     gens->cfs = (int32_t *)(malloc(sizeof(int32_t) * all_nterms));
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
+        get_next_generator(&line, &len, fh);
         if(get_coefficient_ff_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
@@ -892,18 +885,9 @@ static void get_coeffs_and_exponents_mpz(FILE *fh, char **linep, nelts_t all_nte
     }
 
     gens->exps = (int32_t *)calloc(all_nterms * gens->nvars, sizeof(int32_t));
-    long i, j, k;
+    long i;
     for(i = 0; i < *nr_gens; i++){
-        if (getdelim(&line, &len, ',', fh) != -1) {
-            for (k = 0, j = 0; j < len; ++j) {
-                if (line[j] != '\r' && line[j] != '\n' && line[j] != ' ') {
-                    line[k++] = line[j];
-                }
-            }
-            if (line[k-1] == ',') {
-                line[k-1] = '\0';
-            }
-        }
+        get_next_generator(&line, &len, fh);
         if(get_coefficient_mpz_and_term_from_line(line, gens->lens[i], gens->field_char,
                     gens, pos)){
             fprintf(stderr, "Error when reading file (exit but things need to be free-ed)\n");
-- 
2.43.0


From efe62ff3b06268c4a6ee533ef50aecd2ea314570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 22/35] fix: accept a leading plus sign

---
 src/msolve/iofiles.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 5e28169..11d3357 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -391,8 +391,8 @@ static int32_t get_nvars(const char *fn)
 
 /**
  * Reads the next generator, i.e. the text up to the next comma or the end of
- * the file, and removes its whitespaces and its comma. Whitespaces without
- * generator are skipped.
+ * the file, and removes its whitespaces, its comma and a leading plus sign.
+ * Whitespaces without generator are skipped.
  *
  * \return 1 if there is a generator, else 0
  */
@@ -402,7 +402,8 @@ static int get_next_generator(char **linep, size_t *len, FILE *fh)
         char *line = *linep;
         size_t j, k = 0;
         for (j = 0; line[j] != '\0'; ++j) {
-            if (!isspace((unsigned char)line[j]) && line[j] != ',') {
+            if (!isspace((unsigned char)line[j]) && line[j] != ','
+                    && (k > 0 || line[j] != '+')) {
                 line[k++] = line[j];
             }
         }
-- 
2.43.0


From 539e53758fbd11c4a25a70c38ccd5154369388a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 23/35] fix: size the buffers for variable names and terms by
 what they hold

---
 src/msolve/iofiles.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index 11d3357..ff1ce4f 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -443,7 +443,7 @@ static inline char *get_variable_name(const char *line, char **prev_pos)
 {
   const char comma_splicer  = ',';
 
-  char *tmp_var   = (char *)malloc(50 * sizeof(char));
+  char *tmp_var   = (char *)malloc((strlen(line)+2) * sizeof(char));
   char *curr_pos  = strchr(*prev_pos, comma_splicer);
   if (curr_pos != NULL) {
     size_t var_diff   = (size_t)(curr_pos - *prev_pos);
@@ -602,7 +602,7 @@ static inline void get_term(const char *line, char **prev_pos,
     /** if "-" is the first char in the line, we have to adjust the
       * if minus is nearer */
     if (term_diff_add > term_diff_minus) {
-      if( term_diff_minus > *term_size){
+      if( term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -612,7 +612,7 @@ static inline void get_term(const char *line, char **prev_pos,
       return;
     /** if plus is nearer */
     } else {
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -624,7 +624,7 @@ static inline void get_term(const char *line, char **prev_pos,
   } else {
     if (curr_pos_add != NULL) {
       size_t term_diff_add   = (size_t)(curr_pos_add - start_pos);
-      if(term_diff_add > *term_size){
+      if(term_diff_add >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -635,7 +635,7 @@ static inline void get_term(const char *line, char **prev_pos,
     }
     if (curr_pos_minus != NULL) {
       size_t term_diff_minus = (size_t)(curr_pos_minus - start_pos);
-      if(term_diff_minus > *term_size){
+      if(term_diff_minus >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
@@ -647,7 +647,7 @@ static inline void get_term(const char *line, char **prev_pos,
     if (curr_pos_add == NULL && curr_pos_minus == NULL) {
       size_t prev_idx  = (size_t)(start_pos - line);
       size_t term_diff = strlen(line) + 1 - prev_idx;
-      if(term_diff > *term_size){
+      if(term_diff >= *term_size){
         fprintf(stderr, "Too large input integers, exit...\n");
         exit(1);
       }
-- 
2.43.0


From 5a6bb264f27929e597d3e6120e974339c5a127a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:58 +0000
Subject: [PATCH 24/35] fix: divide by the denominators of coefficients over
 prime fields

---
 src/msolve/iofiles.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/msolve/iofiles.c b/src/msolve/iofiles.c
index ff1ce4f..0ba9919 100644
--- a/src/msolve/iofiles.c
+++ b/src/msolve/iofiles.c
@@ -670,11 +670,20 @@ static inline int has_implicit_coefficient(const char *term){
 
 /* returns the coefficient of the term, reduced to the range 0..field_char-1 */
 static inline int32_t get_coefficient_ff(const char *term, const int32_t field_char){
-  int64_t cf  = (int64_t)strtol(term, NULL, 10);
+  char *end = NULL;
+  int64_t cf  = (int64_t)strtol(term, &end, 10);
   if (cf == 0 && has_implicit_coefficient(term)) {
     cf = term[0] == '-' ? -1 : 1;
   }
   cf  %=  field_char;
+  if (*end == '/') {
+    const int64_t den = (int64_t)strtol(end+1, NULL, 10) % field_char;
+    if (den == 0) {
+      fprintf(stderr, "A denominator is zero modulo the characteristic, exit...\n");
+      exit(1);
+    }
+    cf  = (cf * (int64_t)mod_p_inverse_32(den, field_char)) % field_char;
+  }
   return (int32_t)(cf < 0 ? cf + field_char : cf);
 }
 
-- 
2.43.0


From 943ddfc7d57a8e4b3922e2a48c85e62cc7310924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 25/35] fix: verify the coordinates whose squares are leading
 monomials

Outside shape position, the parametrization is verified with the squares
of the variables, but only for those squares that are in the monomial
basis. With an added random linear form, coordinates whose squares are
leading monomials were not verified at all, so that a linear form (with
small coefficients) that does not separate the solutions was accepted and
solutions were lost. The normal forms of these squares are elements of the
reduced basis, use them.
---
 src/fglm/fglm.h      |  1 +
 src/fglm/fglm_core.c | 39 ++++++++++++++++++++++++------
 src/msolve/msolve.c  | 57 +++++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 89 insertions(+), 8 deletions(-)

diff --git a/src/fglm/fglm.h b/src/fglm/fglm.h
index d89c530..46dd9f1 100644
--- a/src/fglm/fglm.h
+++ b/src/fglm/fglm.h
@@ -32,6 +32,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *, mod_t, szmat_t,
                                       nvars_t *,
                                       uint32_t *,
                                       nvars_t*,
+                                      CF_t **,
                                       int,
                                       fglm_data_t **,
                                       fglm_bms_data_t **,
diff --git a/src/fglm/fglm_core.c b/src/fglm/fglm_core.c
index 2bd5c37..78d1d67 100644
--- a/src/fglm/fglm_core.c
+++ b/src/fglm/fglm_core.c
@@ -658,9 +658,29 @@ static void generate_matrix_sequence(sp_matfglm_t *matxn, fglm_data_t *data,
 
 }
 
+/* value of the current linear form at the square of the variable of index v;
+ * sqnf, if it is given, holds for the variables whose square is not in the
+ * monomial basis the normal form of the square */
+static inline CF_t value_at_square(const fglm_data_t *data,
+                                   const szmat_t ncols,
+                                   const nvars_t *squvars,
+                                   CF_t **sqnf,
+                                   const nvars_t v,
+                                   const mod_t prime){
+  if (squvars[v] != 0 || sqnf == NULL || sqnf[v] == NULL) {
+    return data->vecinit[squvars[v]];
+  }
+  uint64_t val = 0;
+  for (szmat_t i = 0; i < ncols; i++) {
+    val = (val + (uint64_t)sqnf[v][i] * data->vecinit[i]) % prime;
+  }
+  return (CF_t)val;
+}
+
 static void generate_sequence_verif(sp_matfglm_t *matrix, fglm_data_t * data,
                                     szmat_t block_size, szmat_t dimquot,
                                     nvars_t* squvars,
+                                    CF_t **sqnf,
                                     nvars_t* linvars,
                                     nvars_t nvars,
                                     mod_t prime,
@@ -679,7 +699,8 @@ static void generate_sequence_verif(sp_matfglm_t *matrix, fglm_data_t * data,
       dec++;
     }
     data->res[j+matrix->ncols*block_size]
-      = data->vecinit[squvars[nvars-1-j-dec]];
+      = value_at_square(data, matrix->ncols, squvars, sqnf, nvars-1-j-dec,
+                        prime);
   }
   for(szmat_t i = 1; i < matrix->ncols; i++){
     sparse_mat_fglm_mult_vec(data->vvec, matrix,
@@ -703,7 +724,8 @@ static void generate_sequence_verif(sp_matfglm_t *matrix, fglm_data_t * data,
         dec++;
       }
       data->res[j+(i+matrix->ncols)*block_size]
-        = data->vecinit[squvars[nvars-1-j-dec]];
+        = value_at_square(data, matrix->ncols, squvars, sqnf, nvars-1-j-dec,
+                          prime);
     }
 
 #if DEBUGFGLM > 1
@@ -1133,6 +1155,7 @@ int compute_parametrizations_non_shape_position_case(param_t *param,
                                                      nvars_t *linvars,
                                                      uint32_t *lineqs,
                                                      nvars_t *squvars,
+                                                     CF_t **sqnf,
                                                      long nvars,
                                                      mod_t prime,
                                                      int verif){
@@ -1192,7 +1215,8 @@ int compute_parametrizations_non_shape_position_case(param_t *param,
       for(long nc = 0; nc < nvars - 1 ; nc++){
 
         if(linvars[nvars - 2 - nc] == 0
-           && squvars[nvars - 2 - nc] != 0){
+           && (squvars[nvars - 2 - nc] != 0
+               || (sqnf != NULL && sqnf[nvars - 2 - nc] != NULL))){
 
           uint64_t lambda= 1 + ((uint64_t) rand() % (prime-1));
           /* needed for verification */
@@ -1412,6 +1436,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                       nvars_t *linvars,
                                       uint32_t *lineqs,
                                       nvars_t *squvars,
+                                      CF_t **sqnf,
                                       int info_level,
                                       fglm_data_t **bdata,
                                       fglm_bms_data_t **bdata_bms,
@@ -1472,7 +1497,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
     fflush(stdout);
   }
   generate_sequence_verif(matrix, *bdata, block_size, dimquot,
-                          squvars, linvars, nvars, prime, st);
+                          squvars, sqnf, linvars, nvars, prime, st);
 #endif
 
   if(info_level > 1){
@@ -1560,7 +1585,7 @@ param_t *nmod_fglm_compute_trace_data(sp_matfglm_t *matrix, mod_t prime,
                                                                       block_size,
                                                                       nlins, linvars,
                                                                       lineqs,
-                                                                      squvars,
+                                                                      squvars, sqnf,
                                                                       nvars, prime,
                                                                       1); /* verif */
 
@@ -1671,7 +1696,7 @@ int nmod_fglm_compute_apply_trace_data(sp_matfglm_t *matrix,
 
   /* generate_sequence(matrix, data_fglm, block_size, dimquot, prime, st); */
   generate_sequence_verif(matrix, data_fglm, block_size, dimquot,
-                          squvars, linvars, nvars, prime, st);
+                          squvars, NULL, linvars, nvars, prime, st);
   //////////////////////////////////////////////////////////////////
 
   if(info_level){
@@ -1719,7 +1744,7 @@ int nmod_fglm_compute_apply_trace_data(sp_matfglm_t *matrix,
                                                      block_size,
                                                      nlins, linvars,
                                                      lineqs,
-                                                     squvars,
+                                                     squvars, NULL,
                                                      nvars, prime,
                                                      1);
   }
diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 843d458..9b22331 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -924,6 +924,55 @@ check_and_set_vars_squared_in_monomial_basis(nvars_t *squvars, int32_t *lmb,
   }
 }
 
+/* For each variable, but the last one, whose square is a leading monomial of
+ * the reduced basis, the normal form of that square as a vector in the
+ * monomial basis; NULL for the other variables. */
+static inline CF_t **
+normal_forms_of_squared_vars(const int32_t *lmb, const long dquot,
+                             const int32_t *bexp_lm, const bs_t *bs,
+                             const long nvars, const uint32_t prime) {
+  CF_t **sqnf = (CF_t **)calloc((unsigned long)nvars, sizeof(CF_t *));
+  const ht_t *ht = bs->ht;
+  for (long i = 0; i < bs->lml; i++) {
+    const int32_t *lm = bexp_lm + i * nvars;
+    long deg = 0, v = 0;
+    for (long j = 0; j < nvars; j++) {
+      deg += lm[j];
+      if (lm[j] == 2) {
+        v = j;
+      }
+    }
+    if (deg != 2 || lm[v] != 2 || v == nvars - 1) {
+      continue;
+    }
+    sqnf[v] = (CF_t *)calloc((unsigned long)dquot, sizeof(CF_t));
+    const hm_t *hm = bs->hm[bs->lmps[i]];
+    /* monomials increase in lmb and decrease in the polynomial */
+    long k = (long)hm[LENGTH] - 1;
+    for (long l = 0; l < dquot && k > 0; l++) {
+      const exp_t *e = ht->ev[hm[OFFSET + k]];
+      long j = 0;
+      /* skip the degrees stored in the exponent vector */
+      while (j < nvars && e[j + 1 + (ht->ebl > 0 && j + 1 >= ht->ebl)] == lmb[l * nvars + j]) {
+        j++;
+      }
+      if (j == nvars) {
+        const CF_t c = prime < (1U << 8)    ? bs->cf_8[hm[COEFFS]][k]
+                       : prime < (1U << 16) ? bs->cf_16[hm[COEFFS]][k]
+                                            : bs->cf_32[hm[COEFFS]][k];
+        sqnf[v][l] = c ? prime - c : 0;
+        k--;
+      }
+    }
+    if (k > 0) {
+      /* should not happen with a reduced basis */
+      free(sqnf[v]);
+      sqnf[v] = NULL;
+    }
+  }
+  return sqnf;
+}
+
 static inline void normalize_nmod_param(param_t *nmod_param) {
   if (nmod_param != NULL) {
     uint32_t prime = nmod_param->charac;
@@ -1668,9 +1717,15 @@ static int32_t *initial_modular_step(
 
             check_and_set_vars_squared_in_monomial_basis(squvars, lmb,
                     dquot, gens->nvars);
+            CF_t **sqnf = normal_forms_of_squared_vars(lmb, dquot, leadmons[0],
+                    bs, gens->nvars, fc);
             *bparam = nmod_fglm_compute_trace_data(*bmatrix, fc, bs->ht->nv,
-                    *bsz, *nlins_ptr, linvars, lineqs_ptr[0], squvars,
+                    *bsz, *nlins_ptr, linvars, lineqs_ptr[0], squvars, sqnf,
                     md->info_level, bdata_fglm, bdata_bms, success, md);
+            for (int i = 0; i < gens->nvars; i++) {
+                free(sqnf[i]);
+            }
+            free(sqnf);
         }
         free_basis_without_hash_table(&(bs));
         *dim = 0;
-- 
2.43.0


From f8eeb0c57eeb4eb0a3a08e2fa6629b5d9d0fb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:56 +0000
Subject: [PATCH 26/35] fix: keep the parametrization buffers when a later
 prime is bad

A prime whose computation failed set its buffer to NULL, so that the next
prime dereferenced it; the shared hash table data was freed with the basis,
the FGLM step was run on stale data when the staircases differ, and the
data for rational reconstruction was freed twice when giving up.
---
 src/msolve/msolve.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 9b22331..1a7adc1 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1809,7 +1809,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
                 free(bs[i]);
                 bs[i] = NULL;
             }
-            nmod_params[i] = NULL;
             bad_primes[i] = 1;
             continue;
         }
@@ -1827,9 +1826,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
         }
         if(lml != num_gb[i]){
             if (bs[i] != NULL) {
-                free_basis(&(bs[i]));
+                free_basis_and_only_local_hash_table_data(&(bs[i]));
             }
-            /* nmod_params[i] = NULL; */
             bad_primes[i] = 1;
             continue;
             /* return; */
@@ -1866,7 +1864,9 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
 							     lp->p[i],i);
         }
         else{
+            free_basis_and_only_local_hash_table_data(&(bs[i]));
             bad_primes[i] = 1;
+            continue;
             }
      }
         if(nmod_fglm_compute_apply_trace_data(bmatrix[i], lp->p[i],
@@ -2515,7 +2515,6 @@ int msolve_trace_qq(mpz_param_t *mpz_paramp,
           free_rrec_data(recdata);
           mpz_clear(prod_crt);
           trace_det_clear(trace_det);
-          free_rrec_data(recdata);
           fprintf(stderr, "Many other data should be cleaned\n");
           return -4;
         }
-- 
2.43.0


From 274486697b7ca181f47896a044283dbc0b9c7915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 27/35] fix: export as many exponents of zero polynomials as
 there are variables

---
 src/neogb/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/io.c b/src/neogb/io.c
index bea7804..2e2333e 100644
--- a/src/neogb/io.c
+++ b/src/neogb/io.c
@@ -540,7 +540,7 @@ static int64_t export_data(
             } else {
                 ((int32_t *)cf+cc)[0] = (int32_t)0;
             }
-            for (k = 1; k < evl; ++k) {
+            for (k = 0; k < nv; ++k) {
                 exp[ce++] = (int32_t)0;
             }
             cc += 1;
-- 
2.43.0


From 93c648e0c3d404f007509e13705118966b97d9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 28/35] fix: terminate the copied variable names

---
 src/msolve/msolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 1a7adc1..8ccf7ba 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -5155,7 +5155,7 @@ void msolve_julia(
     /* gens->vnames                = var_names; */
     gens->vnames  = (char **)malloc((unsigned long)nr_vars * sizeof(char *));
     for (i = 0; i < nr_vars; ++i) {
-        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]), sizeof(char));
+        gens->vnames[i] = calloc((unsigned long)strlen(var_names[i]) + 1, sizeof(char));
         memcpy(gens->vnames[i], var_names[i], (unsigned long)strlen(var_names[i]) * sizeof(char));
     }
     /* gens->lens                  = lens; */
-- 
2.43.0


From d96033d03b38eb6298fa4498ea3d05b0062b880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 29/35] fix: sort the terms of input polynomials decreasingly
 for LEX

---
 src/neogb/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/order.c b/src/neogb/order.c
index 0f114bd..0dc8a96 100644
--- a/src/neogb/order.c
+++ b/src/neogb/order.c
@@ -263,7 +263,7 @@ static int initial_gens_cmp_lex(
     while(i < evl-1 && ea[i] == eb[i]) {
         ++i;
     }
-    return ea[i] - eb[i];
+    return eb[i] - ea[i];
 }
 
 static int monomial_cmp_pivots_lex(
-- 
2.43.0


From 64319491e255ea348612050e67f8828af069e5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 30/35] fix: compute the basis for exported normal forms with
 exact linear algebra

---
 src/neogb/nf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neogb/nf.c b/src/neogb/nf.c
index c470579..b1b9c93 100644
--- a/src/neogb/nf.c
+++ b/src/neogb/nf.c
@@ -153,7 +153,7 @@ int64_t export_nf(
     success = initialize_gba_input_data(&bs, &bht, &md,
             bs_lens, bs_exps, bs_cfs, field_char, mon_order, elim_block_len,
             nr_vars, nr_bs_gens, 0, 17,
-            nr_threads, 0, 0, 44, 0,
+            nr_threads, 0, 0, 2, 0,
             1, 0, 0, info_level);
 
     /* all input generators are invalid */
-- 
2.43.0


From a92ea133dae8f0681d799b9b7ecf06c821c45f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 31/35] fix: compute the bit masks of exponents and field sizes
 without undefined shifts

---
 src/neogb/hash.c      | 4 ++--
 src/neogb/meta_data.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neogb/hash.c b/src/neogb/hash.c
index 7eae3b7..9ec9701 100644
--- a/src/neogb/hash.c
+++ b/src/neogb/hash.c
@@ -397,7 +397,7 @@ static inline sdm_t generate_short_divmask(
     )
 {
   len_t i, j;
-  int32_t res = 0;
+  sdm_t res = 0;
   int32_t ctr = 0;
   const len_t ndv         = ht->ndv;
   const len_t * const dv  = ht->dv;
@@ -406,7 +406,7 @@ static inline sdm_t generate_short_divmask(
   for (i = 0; i < ndv; ++i) {
     for (j = 0; j < bpv; ++j) {
       if ((sdm_t)a[dv[i]] >= ht->dm[ctr]) {
-        res |= 1 << ctr;
+        res |= (sdm_t)1 << ctr;
       }
       ctr++;
     }
diff --git a/src/neogb/meta_data.c b/src/neogb/meta_data.c
index 6705081..8adb4bf 100644
--- a/src/neogb/meta_data.c
+++ b/src/neogb/meta_data.c
@@ -39,7 +39,7 @@ md_t *copy_meta_data(
         if (md->fc < (int32_t)(1) << 16) {
             md->ff_bits = 16;
         } else {
-            if (md->fc < (int32_t)(1) << 31) {
+            if (md->fc < (uint32_t)(1) << 31) {
                 md->ff_bits = 32;
             }
         }
-- 
2.43.0


From dbaa89de14c85d697ab94b5ab7024be395bff7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 32/35] fix: do not use the lifting data before it is
 initialized

---
 src/msolve/lifting-gb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index fab4cb9..517ffdb 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -1241,7 +1241,7 @@ gb_modpoly_t *core_groebner_qq(
 
     apply = 1;
 
-    gb_modpoly_realloc((*modgbsp), 1, dlift->S);
+    gb_modpoly_realloc((*modgbsp), 1, 0);
 
 #ifdef DEBUGGBLIFT
     display_gbmodpoly_cf_32(stderr, (*modgbsp));
-- 
2.43.0


From ee9ba002cf4fde12a4071ef6afd3d6aeabadb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 33/35] fix: do not shift by more bits than an integer has when
 refining roots

---
 src/usolve/refine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/usolve/refine.c b/src/usolve/refine.c
index 95a45e1..df44ab0 100644
--- a/src/usolve/refine.c
+++ b/src/usolve/refine.c
@@ -287,7 +287,7 @@ static void refine_root_by_N_positive_k(mpz_t *upol, unsigned long int *deg_ptr,
 
   mpz_set(*vala, *tmpvala);
   mpz_set(*valb, *tmpvalb);
-  int64_t maxindex = (1L<<(Nlog));
+  int64_t maxindex = (Nlog < 63) ? (1L<<(Nlog)) : INT64_MAX;
 
   if(index == -2 || index == 0 || (LOG2(index) > Nlog && index > 0) ){
     if(Nlog == 2) index = 2;
-- 
2.43.0


From 05fba5453ea716c0c2b03970c178bc07d6838839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 34/35] fix: handle empty elimination ideals over the rationals
 without reading before the leading monomials

---
 src/msolve/hilbert.c    | 2 +-
 src/msolve/lifting-gb.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/msolve/hilbert.c b/src/msolve/hilbert.c
index 579b7fe..b9b236a 100644
--- a/src/msolve/hilbert.c
+++ b/src/msolve/hilbert.c
@@ -1310,7 +1310,7 @@ static inline void copy_nf_in_matrix_from_bs_32(sp_matfglm_t* matrix,
 static inline int32_t *monomial_basis_enlarged(long length, long nvars,
                                                int32_t *bexp_lm, long *dquot){
 
-  int32_t maxdeg = sum(bexp_lm+(length-1)*(nvars), nvars);
+  int32_t maxdeg = (length > 0) ? sum(bexp_lm+(length-1)*(nvars), nvars) : 0;
 
   /* basis will contain the monomial basis */
   int32_t *basis = calloc(nvars, sizeof(int32_t));
diff --git a/src/msolve/lifting-gb.c b/src/msolve/lifting-gb.c
index 517ffdb..228d242 100644
--- a/src/msolve/lifting-gb.c
+++ b/src/msolve/lifting-gb.c
@@ -408,7 +408,7 @@ static inline int32_t degree(int32_t *mon, int nv){
 static inline int32_t *array_nbdegrees(int32_t *bexp_lm, int len,
                                      int nv, int * nb){
   *nb = 1;
-  int32_t deg = degree(bexp_lm, nv);
+  int32_t deg = (len > 0) ? degree(bexp_lm, nv) : 0;
 
   for(int32_t i = 1; i < len; i++){
     int32_t newdeg = degree(bexp_lm + i * nv, nv);
@@ -419,7 +419,7 @@ static inline int32_t *array_nbdegrees(int32_t *bexp_lm, int len,
     }
   }
   int32_t *ldeg = calloc(sizeof(int32_t), *nb);
-  deg = degree(bexp_lm, nv);
+  deg = (len > 0) ? degree(bexp_lm, nv) : 0;
   ldeg[0] = 1;
   int32_t i = 0, j = 1;
   while(j < len){
@@ -975,7 +975,7 @@ static inline int verif_coef(mpz_t num, mpz_t den, uint32_t prime, uint32_t coef
 static inline int verif_lifted_basis(gb_modpoly_t modgbs, data_lift_t dl,
                                      int thrds){
   /* verification of the basis is performed at the very end of the computation */
-  if(dl->check1[dl->end-1] == 0){
+  if(dl->end == 0 || dl->check1[dl->end-1] == 0){
       return 1;
   }
   int b = 1;
-- 
2.43.0


From 996223f6ccd23629841325b25f5bedb65d10866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 35/35] fix: give every prime of a parallel multi-modular step
 its own error state

---
 src/msolve/msolve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msolve/msolve.c b/src/msolve/msolve.c
index 8ccf7ba..7720713 100644
--- a/src/msolve/msolve.c
+++ b/src/msolve/msolve.c
@@ -1787,7 +1787,6 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     double rt = realtime();
     /* tracing phase */
     len_t i;
-    int32_t error = 0;
 
     /* F4 and FGLM are run using a single thread */
     /* st->nthrds is reset to its original value afterwards */
@@ -1800,6 +1799,8 @@ static void secondary_modular_steps(sp_matfglm_t **bmatrix,
     private(i) schedule(static)
     for (i = 0; i < st->nprimes; ++i){
       if (trace_det->mat_lifted < 2 || trace_det->lin_lifted < 2) {
+        /* one error state per prime: threads must not see each other's */
+        int32_t error = 0;
         bs[i] = core_gba(bs_qq, st, &error, lp->p[i]);
         *stf4 = realtime()-rt;
         /* printf("F4 trace timing %13.2f\n", *stf4); */
-- 
2.43.0

