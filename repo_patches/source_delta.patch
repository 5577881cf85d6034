From 8c7403c3bcb6e76544eddeb992fd72efe56bb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 01/41] fix: compare all attributes of list elements in both
 directions

---
 src/equal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..ecbef81 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From 2c8cabf516e86a218fa1e8623344264bb3649581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/41] fix: hash complex and raw list elements

---
 src/hash.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index 154c9fb..c9bb042 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -107,7 +107,9 @@ static inline uint32_t list_hash_scalar_na_propagate(SEXP x, R_len_t i) {
 static uint32_t lgl_hash(SEXP x);
 static uint32_t int_hash(SEXP x);
 static uint32_t dbl_hash(SEXP x);
+static uint32_t cpl_hash(SEXP x);
 static uint32_t chr_hash(SEXP x);
+static uint32_t raw_hash(SEXP x);
 static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
 static uint32_t fn_hash(SEXP x);
@@ -141,7 +143,9 @@ static uint32_t sexp_hash(SEXP x) {
   case LGLSXP: return lgl_hash(x);
   case INTSXP: return int_hash(x);
   case REALSXP: return dbl_hash(x);
+  case CPLXSXP: return cpl_hash(x);
   case STRSXP: return chr_hash(x);
+  case RAWSXP: return raw_hash(x);
   case EXPRSXP:
   case VECSXP: return list_hash(x);
   case DOTSXP:
@@ -178,9 +182,15 @@ static uint32_t int_hash(SEXP x) {
 static uint32_t dbl_hash(SEXP x) {
   HASH(double, REAL_RO, dbl_hash_scalar);
 }
+static uint32_t cpl_hash(SEXP x) {
+  HASH(Rcomplex, COMPLEX_RO, cpl_hash_scalar);
+}
 static uint32_t chr_hash(SEXP x) {
   HASH(SEXP, STRING_PTR_RO, chr_hash_scalar);
 }
+static uint32_t raw_hash(SEXP x) {
+  HASH(Rbyte, RAW_RO, raw_hash_scalar);
+}
 
 #undef HASH
 
-- 
2.43.0


From ff3fe1cdce377f2bc888881c07be370f6fc69092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/41] fix: load bit64 before slicing integer64 with missing
 locations

---
 R/slice.R | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/R/slice.R b/R/slice.R
index c05c33e..303ffe4 100644
--- a/R/slice.R
+++ b/R/slice.R
@@ -129,6 +129,13 @@ vec_slice_fallback <- function(x, i) {
 }
 
 vec_slice_fallback_integer64 <- function(x, i) {
+  is_na <- is.na(i)
+
+  if (any(is_na)) {
+    # Make sure bit64 methods are registered before slicing
+    loadNamespace("bit64")
+  }
+
   d <- vec_dim_n(x)
 
   if (d == 2) {
@@ -138,8 +145,6 @@ vec_slice_fallback_integer64 <- function(x, i) {
     out <- eval_bare(expr(x[i, !!!miss_args, drop = FALSE]))
   }
 
-  is_na <- is.na(i)
-
   if (!any(is_na)) {
     return(out)
   }
@@ -157,10 +162,15 @@ vec_slice_fallback_integer64 <- function(x, i) {
 # slicing. This manually replaces the garbage values that are created
 # any time a slice with `NA_integer_` is made.
 vec_slice_dispatch_integer64 <- function(x, i) {
-  out <- x[i]
-
   is_na <- is.na(i)
 
+  if (any(is_na)) {
+    # Make sure bit64 methods are registered before slicing
+    loadNamespace("bit64")
+  }
+
+  out <- x[i]
+
   if (!any(is_na)) {
     return(out)
   }
-- 
2.43.0


From 1ad6c8e3a96a90db4096c8331351855db40d29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 04/41] fix: don't write past the run bounds

---
 src/runs.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..6cd3762 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -58,17 +58,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
 
   r_obj* out = KEEP(r_alloc_integer(n));
   int* v_out = r_int_begin(out);
-  r_ssize j = compute_iter_loc(n, which);
-
-  r_ssize loc = compute_iter_loc(size, which);
-  const r_ssize step = compute_iter_step(which);
+  r_ssize j = 0;
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
-    loc += step;
+    if (v_where[i]) {
+      v_out[j] = i + 1;
+      ++j;
+    }
   }
 
   FREE(2);
-- 
2.43.0


From 4317bac4a1d35106cf211dbaa9b87d4a48b66031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 05/41] fix: leave missing values with nothing to fill from
 untouched

---
 src/fill.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fill.c b/src/fill.c
index 7bc37ca..3ece7dd 100644
--- a/src/fill.c
+++ b/src/fill.c
@@ -73,6 +73,11 @@ void vec_fill_missing_down(const int* p_na, r_ssize size, bool leading, int* p_l
     }
   }
 
+  // Nothing to fill with before the first non-missing value
+  for (; loc < size && p_na[loc]; ++loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   for (r_ssize i = loc; i < size; ++i) {
     if (!p_na[i]) {
       loc = i;
@@ -108,6 +113,11 @@ void vec_fill_missing_down_with_max_fill(const int* p_na, r_ssize size, bool lea
     }
   }
 
+  // Nothing to fill with before the first non-missing value
+  for (; loc < size && p_na[loc]; ++loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i < size; ++i) {
@@ -146,6 +156,11 @@ void vec_fill_missing_up(const int* p_na, r_ssize size, bool leading, int* p_loc
     }
   }
 
+  // Nothing to fill with after the last non-missing value
+  for (; loc >= 0 && p_na[loc]; --loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   for (r_ssize i = loc; i >= 0; --i) {
     if (!p_na[i]) {
       loc = i;
@@ -181,6 +196,11 @@ void vec_fill_missing_up_with_max_fill(const int* p_na, r_ssize size, bool leadi
     }
   }
 
+  // Nothing to fill with after the last non-missing value
+  for (; loc >= 0 && p_na[loc]; --loc) {
+    p_loc[loc] = loc + 1;
+  }
+
   r_ssize n_fill = 0;
 
   for (r_ssize i = loc; i >= 0; --i) {
-- 
2.43.0


From 71ad6f7fbe14f3c7b0bb9333668ebe59ad1d016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 06/41] Verification hook: small algorithm thresholds under
 VCTRS_VERIF

---
 src/dictionary.c       | 4 ++++
 src/order-groups.h     | 4 ++++
 src/order-truelength.h | 4 ++++
 src/order.c            | 8 ++++++++
 4 files changed, 20 insertions(+)

diff --git a/src/dictionary.c b/src/dictionary.c
index 74ab6fa..48ae771 100644
--- a/src/dictionary.c
+++ b/src/dictionary.c
@@ -221,7 +221,11 @@ SEXP vctrs_unique_loc(SEXP x) {
   struct dictionary* d = new_dictionary(x);
   PROTECT_DICT(d, &nprot);
 
+#ifdef VCTRS_VERIF
+  struct growable g = new_growable(INTSXP, 2);
+#else
   struct growable g = new_growable(INTSXP, 256);
+#endif
   PROTECT_GROWABLE(&g, &nprot);
 
   for (int i = 0; i < n; ++i) {
diff --git a/src/order-groups.h b/src/order-groups.h
index c35a6f9..af29213 100644
--- a/src/order-groups.h
+++ b/src/order-groups.h
@@ -20,7 +20,11 @@
 // This seems to be a reasonable default to start with for tracking group sizes
 // and is what base R uses. It is expanded by 2x every time we need to
 // reallocate. It is also capped to the size of `x`.
+#ifdef VCTRS_VERIF
+#define GROUP_DATA_SIZE_DEFAULT 1
+#else
 #define GROUP_DATA_SIZE_DEFAULT 100000
+#endif
 
 // -----------------------------------------------------------------------------
 
diff --git a/src/order-truelength.h b/src/order-truelength.h
index 1b9bb55..bef267b 100644
--- a/src/order-truelength.h
+++ b/src/order-truelength.h
@@ -20,7 +20,11 @@
 // This seems to be a reasonable default to start with for tracking the unique
 // strings, and is what base R uses. It is expanded by 2x every time we need to
 // reallocate.
+#ifdef VCTRS_VERIF
+#define TRUELENGTH_SIZE_ALLOC_DEFAULT 1
+#else
 #define TRUELENGTH_SIZE_ALLOC_DEFAULT 10000
+#endif
 
 // -----------------------------------------------------------------------------
 
diff --git a/src/order.c b/src/order.c
index 51d0615..f4549ec 100644
--- a/src/order.c
+++ b/src/order.c
@@ -158,7 +158,11 @@
  * vs a radix sort. Counting sort is somewhat faster when less than this
  * boundary value.
  */
+#ifdef VCTRS_VERIF
+#define INT_ORDER_COUNTING_RANGE_BOUNDARY 5
+#else
 #define INT_ORDER_COUNTING_RANGE_BOUNDARY 100000
+#endif
 
 /*
  * Size of `x` that determines when an insertion sort should be used. Seems
@@ -166,7 +170,11 @@
  * Somewhat based on this post:
  * https://probablydance.com/2016/12/27/i-wrote-a-faster-sorting-algorithm/
  */
+#ifdef VCTRS_VERIF
+#define ORDER_INSERTION_BOUNDARY 2
+#else
 #define ORDER_INSERTION_BOUNDARY 128
+#endif
 
 /*
  * Adjustments for translating current `pass` into the current `radix` byte
-- 
2.43.0


From 422c435016f58268aa111f43dcad483d173ac911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:58 +0000
Subject: [PATCH 07/41] fix: rerun complex columns once per column when
 ordering data frames

---
 src/order.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index f4549ec..fcc9f25 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3913,9 +3913,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4123,6 +4120,12 @@ void df_order_internal(SEXP x,
     if (chr_ordered && type == VCTRS_TYPE_character) {
       truelength_reset(p_truelength_info);
     }
+
+    // Decrement `i` to rerun the column on the imaginary part. This must only
+    // be done once per column, no matter how many group chunks there are.
+    if (rerun_complex) {
+      --i;
+    }
   }
 }
 
-- 
2.43.0


From 28b5d225b1f22c099044a764104db554c86e40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 08/41] fix: compare argument names of calls, functions and
 pairlists

---
 src/equal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/equal.c b/src/equal.c
index ecbef81..e4fe49d 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -312,6 +312,11 @@ bool equal_object_normalized(SEXP x, SEXP y) {
       return false;
     }
 
+    // Argument names (symbols)
+    if (type != BCODESXP && TAG(x) != TAG(y)) {
+      return false;
+    }
+
     if (!equal_object_normalized(CAR(x), CAR(y))) {
       return false;
     }
-- 
2.43.0


From b539dfa0bb2b78bc93b869971fb97873abe58cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:41 +0000
Subject: [PATCH 09/41] fix: signal incomplete needles that the recursion
 doesn't visit

---
 src/match.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/match.c b/src/match.c
index 61faff2..e2d0b7a 100644
--- a/src/match.c
+++ b/src/match.c
@@ -392,6 +392,24 @@ r_obj* df_locate_matches(r_obj* needles,
   KEEP_N(p_poly_haystack_complete->shelter, &n_prot);
   const struct poly_df_data* p_haystack_complete = (const struct poly_df_data*) p_poly_haystack_complete->p_vec;
 
+  if (incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error) {
+    // Signal incomplete needles up front. The recursion doesn't visit needles
+    // that can't match any of the remaining haystack.
+    int* v_loc_first_match_o_haystack = (int*) r_dyn_begin(p_loc_first_match_o_haystack);
+
+    for (r_ssize col = 0; col < p_needles_complete->n_col; ++col) {
+      const int* v_needles_complete = (const int*) p_needles_complete->v_col_ptr[col];
+
+      for (r_ssize i = 0; i < size_needles; ++i) {
+        if (!v_needles_complete[i]) {
+          v_loc_first_match_o_haystack[i] = SIGNAL_INCOMPLETE;
+        }
+      }
+    }
+  }
+
   if (size_needles > 0) {
     // Recursion requires at least 1 row in needles.
     // In the case of size 0 needles, there is nothing to do, but this avoids
-- 
2.43.0


From 784091641fd5fbea5a7a505ba6ed812e35f7f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 10/41] fix: apply match filters after all conditions

---
 src/match.c | 102 +++++++++++++++++++++++-----------------------------
 1 file changed, 45 insertions(+), 57 deletions(-)

diff --git a/src/match.c b/src/match.c
index e2d0b7a..9e186c3 100644
--- a/src/match.c
+++ b/src/match.c
@@ -524,7 +524,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -715,62 +714,6 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
-    }
-
     if (col < n_col - 1) {
       // For this column, we've bounded the needles locations to the upper/lower
       // duplicates of the current needle, and the haystack locations to the
@@ -802,6 +745,51 @@ void df_locate_matches_recurse(r_ssize col,
       // We just finished locating matches for the last column,
       // and we still have at least 1 hit, so record it
 
+      // Filters apply to the haystack values that match in all columns. Within
+      // these bounds all columns are in increasing order.
+      for (r_ssize i = 0; any_filters && i < n_col; ++i) {
+        const int* v_haystack = (const int*) p_haystack->v_col_ptr[i];
+
+        const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
+        const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
+        const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
+        const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
+
+        if (val_lower_match_haystack == val_upper_match_haystack) {
+          continue;
+        }
+
+        switch (v_filters[i]) {
+        case VCTRS_FILTER_max: {
+          // We want the max values of this group. That's the upper match of the
+          // haystack and its corresponding lower duplicate.
+          loc_lower_match_o_haystack = int_locate_lower_duplicate(
+            val_upper_match_haystack,
+            v_haystack,
+            v_o_haystack,
+            loc_lower_match_o_haystack,
+            loc_upper_match_o_haystack
+          );
+          break;
+        }
+        case VCTRS_FILTER_min: {
+          // We want the min values of this group. That's the lower match of the
+          // haystack and its corresponding upper duplicate.
+          loc_upper_match_o_haystack = int_locate_upper_duplicate(
+            val_lower_match_haystack,
+            v_haystack,
+            v_o_haystack,
+            loc_lower_match_o_haystack,
+            loc_upper_match_o_haystack
+          );
+          break;
+        }
+        case VCTRS_FILTER_none: {
+          break;
+        }
+        }
+      }
+
       for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
         const int loc_needles = v_o_needles[i] - 1;
         const int loc_first_match_o_haystack = r_dyn_int_get(p_loc_first_match_o_haystack, loc_needles);
-- 
2.43.0


From 1d6082cca74d9431d9723ce9f7276e7d39116218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:01 +0000
Subject: [PATCH 11/41] fix: finalise the type of interval complements

---
 src/interval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval.c b/src/interval.c
index ec12044..2ad5fb2 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -324,6 +324,8 @@ r_obj* vec_interval_complement(r_obj* start,
     &_
   );
   KEEP_N(ptype, &n_prot);
+  ptype = vec_ptype_finalise(ptype);
+  KEEP_N(ptype, &n_prot);
 
   start = vec_cast_params(
     start,
-- 
2.43.0


From d53c4b267140acf695735e1b4d6476c9c3fe7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 12/41] fix: signal lossy integer64 casts and keep their shape

---
 R/type-integer64.R | 184 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 165 insertions(+), 19 deletions(-)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 765c856..171001f 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -47,21 +47,31 @@ vec_ptype2.integer64 <- function(x, y, ...) {
 
 #' @method vec_ptype2.integer64 integer64
 #' @export
-vec_ptype2.integer64.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 #' @method vec_ptype2.integer64 integer
 #' @export
-vec_ptype2.integer64.integer <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.integer <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 #' @method vec_ptype2.integer integer64
 #' @export
-vec_ptype2.integer.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 #' @method vec_ptype2.integer64 logical
 #' @export
-vec_ptype2.integer64.logical <- function(x, y, ...) bit64::integer64()
+vec_ptype2.integer64.logical <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 #' @method vec_ptype2.logical integer64
 #' @export
-vec_ptype2.logical.integer64 <- function(x, y, ...) bit64::integer64()
+vec_ptype2.logical.integer64 <- function(x, y, ..., x_arg = "", y_arg = "") {
+  vec_shaped_ptype(bit64::integer64(), x, y, x_arg = x_arg, y_arg = y_arg)
+}
 
 
 # Cast --------------------------------------------------------------------
@@ -76,44 +86,180 @@ vec_cast.integer64 <- function(x, to, ...) {
 
 #' @export
 #' @method vec_cast.integer64 integer64
-vec_cast.integer64.integer64 <- function(x, to, ...) {
-  x
+vec_cast.integer64.integer64 <- function(x,
+                                         to,
+                                         ...,
+                                         x_arg = "",
+                                         to_arg = "",
+                                         call = caller_env()) {
+  out <- x
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy = FALSE,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.integer64 integer
-vec_cast.integer64.integer <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.integer <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- bit64::as.integer64(x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy = FALSE,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.integer integer64
-vec_cast.integer.integer64 <- function(x, to, ...) {
-  as.integer(x)
+vec_cast.integer.integer64 <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- suppressWarnings(as.integer(x))
+  lossy <- is.na(out) & !is.na(x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.integer64 logical
-vec_cast.integer64.logical <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.logical <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- bit64::as.integer64(x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy = FALSE,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.logical integer64
-vec_cast.logical.integer64 <- function(x, to, ...) {
-  as.logical(x)
+vec_cast.logical.integer64 <- function(x,
+                                       to,
+                                       ...,
+                                       x_arg = "",
+                                       to_arg = "",
+                                       call = caller_env()) {
+  out <- as.logical(x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy = FALSE,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.integer64 double
-vec_cast.integer64.double <- function(x, to, ...) {
-  bit64::as.integer64(x)
+vec_cast.integer64.double <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(bit64::as.integer64(x))
+  lossy <- !is.na(x) & (is.na(out) | suppressWarnings(as.double(out)) != x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 #' @export
 #' @method vec_cast.double integer64
-vec_cast.double.integer64 <- function(x, to, ...) {
-  as.double(x)
+vec_cast.double.integer64 <- function(x,
+                                      to,
+                                      ...,
+                                      x_arg = "",
+                                      to_arg = "",
+                                      call = caller_env()) {
+  out <- suppressWarnings(as.double(x))
+  back <- suppressWarnings(bit64::as.integer64(out))
+  lossy <- !is.na(x) & (is.na(back) | back != x)
+  integer64_cast_finish(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
+}
+
+# The bit64 conversions drop names and dimensions
+integer64_cast_finish <- function(out,
+                                  x,
+                                  to,
+                                  lossy,
+                                  x_arg,
+                                  to_arg,
+                                  call) {
+  if (is.null(dim(x))) {
+    names(out) <- names(x)
+  } else {
+    dim(out) <- dim(x)
+    dimnames(out) <- dimnames(x)
+  }
+
+  out <- shape_broadcast(
+    out,
+    to,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
+
+  maybe_lossy_cast(
+    out,
+    x,
+    to,
+    lossy,
+    x_arg = x_arg,
+    to_arg = to_arg,
+    call = call
+  )
 }
 
 # ------------------------------------------------------------------------------
-- 
2.43.0


From c4e3d2ba4579cd0f7f90318dbd61d0a83703ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 13/41] fix: don't keep names in factor levels

---
 src/type-factor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..18746cd 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -194,6 +194,9 @@ static SEXP chr_as_factor_from_self(SEXP x, bool ordered) {
   SEXP levels = PROTECT(vec_unique(x));
   levels = PROTECT(remove_na_levels(levels));
 
+  // Levels never have names, even if `x` does
+  levels = PROTECT(vec_set_names(levels, R_NilValue));
+
   // `NA` values in `x` correctly become `NA` values in the result
   SEXP out = PROTECT(vec_match(x, levels));
 
@@ -203,7 +206,7 @@ static SEXP chr_as_factor_from_self(SEXP x, bool ordered) {
     init_factor(out, levels);
   }
 
-  UNPROTECT(3);
+  UNPROTECT(4);
   return out;
 }
 
-- 
2.43.0


From 858bc3c85cdb83d0aaecde6969d1a056f60d8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 14/41] fix: check that the size given to vec_recycle() is a
 valid size

---
 src/size.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/size.c b/src/size.c
index cc6668b..6175f26 100644
--- a/src/size.c
+++ b/src/size.c
@@ -242,7 +242,8 @@ r_obj* ffi_recycle(r_obj* x,
                            vec_args.empty,
                            vec_args.empty,
                            recycle_call));
-  R_len_t size = r_int_get(size_obj, 0);
+  struct vctrs_arg size_arg = new_wrapper_arg(NULL, "size");
+  R_len_t size = vec_as_short_length(size_obj, &size_arg, recycle_call);
   FREE(1);
 
   struct r_lazy x_arg_ = { .x = syms.x_arg, .env = frame };
-- 
2.43.0


From 224539dcc0d488d67d86ddadca7db253fbc03637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:04 +0000
Subject: [PATCH 15/41] fix: use classed numbers as locations rather than as
 logical indicators

---
 src/subscript.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/subscript.c b/src/subscript.c
index ceb66c7..ef4fc79 100644
--- a/src/subscript.c
+++ b/src/subscript.c
@@ -111,12 +111,20 @@ r_obj* obj_cast_subscript(r_obj* subscript,
     .p_x_arg = opts->subscript_arg
   };
 
-  ptype2_opts.y = cast_opts.to = r_globals.empty_lgl;
+  // Numbers are generally coercible with logicals as well. Make sure
+  // that they are interpreted as locations rather than as indicators.
+  bool numeric =
+    r_typeof(subscript) == R_TYPE_integer ||
+    r_typeof(subscript) == R_TYPE_double;
+
+  r_obj* first = numeric ? r_globals.empty_int : r_globals.empty_lgl;
+  ptype2_opts.y = cast_opts.to = first;
   if (vec_is_coercible(&ptype2_opts, &dir)) {
     return vec_cast_opts(&cast_opts);
   }
 
-  ptype2_opts.y = cast_opts.to = r_globals.empty_int;
+  r_obj* second = numeric ? r_globals.empty_lgl : r_globals.empty_int;
+  ptype2_opts.y = cast_opts.to = second;
   if (vec_is_coercible(&ptype2_opts, &dir)) {
     return vec_cast_opts(&cast_opts);
   }
-- 
2.43.0


From c6c96f5dea4e71729e6dc4630d463b8ec638ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:46 +0000
Subject: [PATCH 16/41] fix: vec_as_location2() returns an integer location of
 size 1 for named zeros and missing names

---
 R/subscript-loc.R | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..7a3301b 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -236,12 +236,13 @@ vec_as_location2_result <- function(i,
         call = call
       ))
     } else {
-      result <- result(i)
+      # `NA_character_` is a missing location too
+      result <- result(set_names(NA_integer_, names(i)))
     }
     return(result)
   }
 
-  if (identical(i, 0L)) {
+  if (typeof(i) == "integer" && i == 0L) {
     return(result(err = new_error_location2_type(
       i = i,
       subscript_arg = arg,
-- 
2.43.0


From 351d2beda7ca267a49559d517de0dc2224620c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 17/41] fix: vec_assign() no longer modifies record vectors in
 place

---
 src/slice-assign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..04c9c9b 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -32,7 +32,9 @@ r_obj* vec_assign_opts(r_obj* x,
   value = KEEP(vec_check_recycle(value, vec_size(index), opts.value_arg, opts.call));
 
   r_obj* proxy = KEEP(vec_proxy(x));
-  const enum vctrs_owned owned = vec_owned(proxy);
+  // The proxy might be a fresh data frame whose columns are shared with `x`
+  // (e.g. record vectors), so we never own it recursively
+  const enum vctrs_owned owned = VCTRS_OWNED_false;
   proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
-- 
2.43.0


From 2a1ca32a6a8f134291c30786a34c4658a37c38d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 18/41] fix: casts between lists and list-ofs check the shape

---
 R/type-list-of.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/type-list-of.R b/R/type-list-of.R
index 72db01c..ad2879c 100644
--- a/R/type-list-of.R
+++ b/R/type-list-of.R
@@ -229,10 +229,11 @@ vec_cast.vctrs_list_of.vctrs_list_of <- function(x, to, ..., call = caller_env()
 
 #' @export
 vec_cast.list.vctrs_list_of <-function(x, to, ...) {
- list_of_unstructure(x)
+  shape_broadcast(list_of_unstructure(x), to, ...)
 }
 #' @export
 vec_cast.vctrs_list_of.list <-function(x, to, ..., call = caller_env()) {
+  x <- shape_broadcast(x, to, ..., call = call)
   list_as_list_of(
     x,
     attr(to, "ptype"),
-- 
2.43.0


From fb121ae27bb96803d40e9d4c103c3b2cd8c6e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:33 +0000
Subject: [PATCH 19/41] fix: casts from integer64 don't depend on bit64 being
 loaded

---
 R/type-integer64.R | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/R/type-integer64.R b/R/type-integer64.R
index 171001f..d583921 100644
--- a/R/type-integer64.R
+++ b/R/type-integer64.R
@@ -132,6 +132,8 @@ vec_cast.integer.integer64 <- function(x,
                                        x_arg = "",
                                        to_arg = "",
                                        call = caller_env()) {
+  # Make sure the bit64 methods are registered
+  x <- bit64::as.integer64(x)
   out <- suppressWarnings(as.integer(x))
   lossy <- is.na(out) & !is.na(x)
   integer64_cast_finish(
@@ -173,6 +175,8 @@ vec_cast.logical.integer64 <- function(x,
                                        x_arg = "",
                                        to_arg = "",
                                        call = caller_env()) {
+  # Make sure the bit64 methods are registered
+  x <- bit64::as.integer64(x)
   out <- as.logical(x)
   integer64_cast_finish(
     out,
@@ -214,6 +218,8 @@ vec_cast.double.integer64 <- function(x,
                                       x_arg = "",
                                       to_arg = "",
                                       call = caller_env()) {
+  # Make sure the bit64 methods are registered
+  x <- bit64::as.integer64(x)
   out <- suppressWarnings(as.double(x))
   back <- suppressWarnings(bit64::as.integer64(out))
   lossy <- !is.na(x) & (is.na(back) | back != x)
-- 
2.43.0


From 0938f05d5946384c10133a4f9aab1c6840b80b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 20/41] fix: list_unchop() keeps track of locations next to
 NULL elements for classes without vctrs methods

---
 src/c-unchop.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..a517d4e 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -256,6 +256,14 @@ r_obj* list_unchop_fallback(r_obj* ptype,
 
   indices = KEEP(list_as_locations(indices, out_size, r_null));
 
+  // `NULL` elements of `xs` are dropped when combining, so their locations are
+  // never selected
+  for (i = 0; i < xs_size; ++i) {
+    if (r_list_get(xs, i) == r_null) {
+      r_list_poke(indices, i, r_globals.empty_int);
+    }
+  }
+
   r_obj* out = r_null;
   if (homogeneous) {
     out = KEEP(vec_c_fallback_invoke(xs, name_spec, error_call));
@@ -279,6 +287,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
   ));
 
   const int* p_indices = r_int_cbegin(indices);
+  const r_ssize n_indices = r_length(indices);
 
   r_obj* locations = KEEP(r_alloc_integer(out_size));
   int* p_locations = r_int_begin(locations);
@@ -288,7 +297,7 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     p_locations[i] = r_globals.na_int;
   }
 
-  for (r_ssize i = 0; i < out_size; ++i) {
+  for (r_ssize i = 0; i < n_indices; ++i) {
     const int index = p_indices[i];
 
     if (index == r_globals.na_int) {
-- 
2.43.0


From 2c651a434466669c499ec9cb1eb18db1c5cc7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 21/41] fix: a named NULL input doesn't add names to the result
 of vec_c()

---
 src/c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c.c b/src/c.c
index 8d20628..2265963 100644
--- a/src/c.c
+++ b/src/c.c
@@ -113,6 +113,10 @@ r_obj* vec_c_opts(r_obj* xs,
     r_obj* x = r_list_get(xs, i);
     r_ssize size = p_sizes[i];
 
+    if (x == r_null) {
+      continue;
+    }
+
     init_compact_seq(p_loc, counter, size, true);
 
     if (assign_names) {
-- 
2.43.0


From 4b5f46d430c4099b036572b2626b32fe31e326a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 22/41] fix: don't evaluate language objects given as
 prototypes

---
 src/c.c            | 6 +++---
 src/cast.c         | 6 +++---
 src/ptype-common.c | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/c.c b/src/c.c
index 2265963..e1846dc 100644
--- a/src/c.c
+++ b/src/c.c
@@ -177,9 +177,9 @@ r_obj* ffi_vec_c(r_obj* ffi_call, r_obj* op, r_obj* args, r_obj* frame) {
   args = r_node_cdr(args);
 
   r_obj* xs = KEEP(rlang_env_dots_list(frame));
-  r_obj* ptype = KEEP(r_eval(r_node_car(args), frame)); args = r_node_cdr(args);
-  r_obj* name_spec = KEEP(r_eval(r_node_car(args), frame)); args = r_node_cdr(args);
-  r_obj* name_repair = KEEP(r_eval(r_node_car(args), frame));
+  r_obj* ptype = KEEP(r_node_car(args)); args = r_node_cdr(args);
+  r_obj* name_spec = KEEP(r_node_car(args)); args = r_node_cdr(args);
+  r_obj* name_repair = KEEP(r_node_car(args));
 
   struct r_lazy error_arg_lazy = { .x = syms.dot_error_arg, .env = frame };
   struct vctrs_arg error_arg = new_lazy_arg(&error_arg_lazy);
diff --git a/src/cast.c b/src/cast.c
index 395cec3..8b72037 100644
--- a/src/cast.c
+++ b/src/cast.c
@@ -312,7 +312,7 @@ r_obj* ffi_cast_common(r_obj* ffi_call, r_obj* op, r_obj* args, r_obj* env) {
   args = r_node_cdr(args);
 
   r_obj* dots = KEEP(rlang_env_dots_list(env));
-  r_obj* to = KEEP(r_eval(r_node_car(args), env));
+  r_obj* to = KEEP(r_node_car(args));
   struct r_lazy call = { .x = syms.dot_call, .env = env };
 
   struct r_lazy arg_lazy = { .x = syms.dot_arg, .env = env };
@@ -329,8 +329,8 @@ r_obj* ffi_cast_common_opts(r_obj* ffi_call, r_obj* op, r_obj* args, r_obj* env)
   args = r_node_cdr(args);
 
   r_obj* dots = KEEP(rlang_env_dots_list(env));
-  r_obj* to = KEEP(r_eval(r_node_car(args), env)); args = r_node_cdr(args);
-  r_obj* ffi_fallback_opts = KEEP(r_eval(r_node_car(args), env));
+  r_obj* to = KEEP(r_node_car(args)); args = r_node_cdr(args);
+  r_obj* ffi_fallback_opts = KEEP(r_node_car(args));
 
   struct r_lazy arg_lazy = { .x = syms.dot_arg, .env = env };
   struct vctrs_arg arg = new_lazy_arg(&arg_lazy);
diff --git a/src/ptype-common.c b/src/ptype-common.c
index 24ac0ab..459f014 100644
--- a/src/ptype-common.c
+++ b/src/ptype-common.c
@@ -6,7 +6,7 @@ r_obj* ffi_ptype_common(r_obj* ffi_call, r_obj* op, r_obj* args, r_obj* env) {
   args = r_node_cdr(args);
 
   r_obj* types = KEEP(rlang_env_dots_list(env));
-  r_obj* ptype = KEEP(r_eval(r_node_car(args), env));
+  r_obj* ptype = KEEP(r_node_car(args));
 
   struct r_lazy call = { .x = syms.dot_call, .env = env };
   struct r_lazy arg_lazy = { .x = syms.dot_arg, .env = env };
@@ -27,8 +27,8 @@ r_obj* ffi_ptype_common_opts(r_obj* call, r_obj* op, r_obj* args, r_obj* env) {
   args = r_node_cdr(args);
 
   r_obj* types = KEEP(rlang_env_dots_list(env));
-  r_obj* ptype = KEEP(r_eval(r_node_car(args), env)); args = r_node_cdr(args);
-  r_obj* opts = KEEP(r_eval(r_node_car(args), env));
+  r_obj* ptype = KEEP(r_node_car(args)); args = r_node_cdr(args);
+  r_obj* opts = KEEP(r_node_car(args));
 
   struct ptype_common_opts ptype_opts = {
     .call = { .x = syms.dot_call, .env = env },
-- 
2.43.0


From ee2381aa384970ced7cef5f43855efb03c102b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:13 +0000
Subject: [PATCH 23/41] fix: vec_rbind() handles empty outer names next to
 inputs without row names

---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..57787b9 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -219,7 +219,7 @@ r_obj* vec_rbind(r_obj* xs,
 
         // If there is no name to assign, skip the assignment since
         // `out_names` already contains empty strings
-        if (inner != chrs_empty) {
+        if (x_nms != chrs_empty) {
           row_names = chr_assign(row_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(row_names, rownames_pi);
         }
-- 
2.43.0


From 0665a268a416e69fafbee400e7383bc97217d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 24/41] fix: missing and unspecified columns of classes without
 vctrs methods are combined as unspecified

---
 R/c.R                           | 10 +++++-----
 src/c.c                         | 31 ++++++++++++++++++++++++++++++-
 src/decl/c-decl.h               |  3 +++
 src/decl/type-data-frame-decl.h |  3 +++
 src/type-data-frame.c           | 31 +++++++++++++++++++++++--------
 5 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/R/c.R b/R/c.R
index 0838809..9e21154 100644
--- a/R/c.R
+++ b/R/c.R
@@ -118,10 +118,10 @@ fallback_is_unspecified <- function(x) {
 }
 
 c_locs <- function(xs) {
-  locs <- reduce(lengths(xs), .init = list(0), function(output, input) {
-    n <- last(last(output))
-    c(output, list(seq(n + 1, n + input)))
-  })
+  sizes <- lengths(xs)
+  starts <- cumsum(sizes) - sizes
 
-  locs[-1]
+  map2(starts, sizes, function(start, size) {
+    start + seq_len(size)
+  })
 }
diff --git a/src/c.c b/src/c.c
index e1846dc..9fa2a5d 100644
--- a/src/c.c
+++ b/src/c.c
@@ -291,6 +291,10 @@ r_obj* vec_c_fallback(r_obj* ptype,
       }
     };
 
+    // Columns missing from an input are initialised by `df_cast()` with
+    // the fallback class. There is no homogeneous fallback for S4.
+    xs = KEEP(fallback_as_unspecified(xs));
+
     // Should cause a common type error, unless another fallback
     // kicks in (for instance, homogeneous class with homogeneous
     // attributes)
@@ -298,7 +302,7 @@ r_obj* vec_c_fallback(r_obj* ptype,
 
     // Suboptimal: Call `vec_c()` again to combine vector with
     // homogeneous class fallback
-    return vec_c_opts(
+    r_obj* out = vec_c_opts(
       xs,
       r_null,
       name_spec,
@@ -307,9 +311,34 @@ r_obj* vec_c_fallback(r_obj* ptype,
       p_error_arg,
       error_call
     );
+
+    FREE(1);
+    return out;
   }
 }
 
+// See `fallback_is_unspecified()` on the R side
+static
+r_obj* fallback_as_unspecified(r_obj* xs) {
+  r_obj* out = KEEP(r_clone(xs));
+  r_ssize n = r_length(xs);
+
+  for (r_ssize i = 0; i < n; ++i) {
+    r_obj* x = r_list_get(xs, i);
+
+    if (IS_S4_OBJECT(x)) {
+      FREE(1);
+      return xs;
+    }
+    if (r_attrib_get(x, r_sym("vctrs:::unspecified")) != r_null) {
+      r_list_poke(out, i, vec_unspecified(r_length(x)));
+    }
+  }
+
+  FREE(1);
+  return out;
+}
+
 r_obj* vec_c_fallback_invoke(r_obj* xs,
                              r_obj* name_spec,
                              struct r_lazy error_call) {
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index 0cde5aa..a24afac 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -9,3 +9,6 @@ void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
 static
 bool df_needs_fallback(r_obj* x);
+
+static
+r_obj* fallback_as_unspecified(r_obj* xs);
diff --git a/src/decl/type-data-frame-decl.h b/src/decl/type-data-frame-decl.h
index 52521b2..09f956d 100644
--- a/src/decl/type-data-frame-decl.h
+++ b/src/decl/type-data-frame-decl.h
@@ -54,3 +54,6 @@ r_ssize df_flatten_loop(r_obj* x,
                         r_obj* out,
                         r_obj* out_names,
                         r_ssize counter);
+
+static
+r_obj* fallback_mark_unspecified(r_obj* col, r_obj* to_col);
diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 1e4c2d8..f33f4be 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -727,14 +727,8 @@ r_obj* df_cast_match(const struct cast_opts* opts,
       r_obj* to_col = r_list_get(to, i);
       col = vec_init(to_col, size);
 
-      // FIXME: Need to initialise the vector because we currently use
-      // `vec_assign()` in `vec_rbind()` before falling back. Attach
-      // an attribute to recognise unspecified vectors in
-      // `base_c_invoke()`.
-      if (opts->fallback.s3 && vec_is_common_class_fallback(to_col)) {
-        KEEP(col);
-        r_attrib_poke(col, r_sym("vctrs:::unspecified"), r_true);
-        FREE(1);
+      if (opts->fallback.s3) {
+        col = fallback_mark_unspecified(col, to_col);
       }
     } else {
       --pos; // 1-based index
@@ -750,6 +744,10 @@ r_obj* df_cast_match(const struct cast_opts* opts,
         .fallback = opts->fallback
       };
       col = vec_cast_opts(&col_opts);
+
+      if (opts->fallback.s3 && vec_is_unspecified(col_opts.x)) {
+        col = fallback_mark_unspecified(col, col_opts.to);
+      }
     }
 
     r_list_poke(out, i, col);
@@ -809,6 +807,10 @@ r_obj* df_cast_loop(const struct cast_opts* opts, r_obj* names) {
     };
     r_obj* col = vec_cast_opts(&col_opts);
 
+    if (opts->fallback.s3 && vec_is_unspecified(col_opts.x)) {
+      col = fallback_mark_unspecified(col, col_opts.to);
+    }
+
     r_list_poke(out, i, col);
   }
 
@@ -821,6 +823,19 @@ r_obj* df_cast_loop(const struct cast_opts* opts, r_obj* names) {
   return out;
 }
 
+// FIXME: Need to initialise the vector because we currently use
+// `vec_assign()` in `vec_rbind()` before falling back. Attach an
+// attribute to recognise unspecified vectors in `base_c_invoke()`.
+static
+r_obj* fallback_mark_unspecified(r_obj* col, r_obj* to_col) {
+  if (vec_is_common_class_fallback(to_col)) {
+    KEEP(col);
+    r_attrib_poke(col, r_sym("vctrs:::unspecified"), r_true);
+    FREE(1);
+  }
+  return col;
+}
+
 // If negative index, value is appended
 r_obj* df_poke(r_obj* x, r_ssize i, r_obj* value) {
   if (i >= 0) {
-- 
2.43.0


From 1fbe8ae4ab57a23476cd9018eb91f5f48d2206f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 25/41] fix: unique repair never returns `...` or `..j` and
 keeps names like `..1a`

---
 src/names.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/names.c b/src/names.c
index 5f08908..7a79627 100644
--- a/src/names.c
+++ b/src/names.c
@@ -297,6 +297,12 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
+
+      // What is left might be `...` or `..j`
+      if (needs_suffix(elt)) {
+        elt = strings_empty;
+      }
+
       r_chr_poke(new_names, i, elt);
       continue;
     }
@@ -370,6 +376,12 @@ bool is_dotdotint(const char* name) {
     name += 2;
   }
 
+  for (const char* ptr = name; *ptr; ++ptr) {
+    if (!isdigit(*ptr)) {
+      return false;
+    }
+  }
+
   return (bool) strtol(name, NULL, 10);
 }
 
-- 
2.43.0


From b70ba65d7fd7665f77af3f502b5916842a1878e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:11 +0000
Subject: [PATCH 26/41] fix: universal repair resolves clashes between numbers
 and positional names

---
 R/names.R | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/R/names.R b/R/names.R
index 6a5755f..fb02005 100644
--- a/R/names.R
+++ b/R/names.R
@@ -325,6 +325,15 @@ as_universal_names <- function(names, quiet = FALSE) {
   needs_suffix <- empty | vec_duplicate_detect(new_names)
   new_names <- append_pos(new_names, needs_suffix = needs_suffix)
 
+  # Numbers are made syntactic with a `...` prefix, e.g. `...1`. Use a
+  # positional name when this clashes with a name repaired by position.
+  while (anyDuplicated(new_names)) {
+    clashes <- !needs_suffix & vec_duplicate_detect(new_names)
+    new_names[clashes] <- ""
+    new_names <- append_pos(new_names, needs_suffix = clashes)
+    needs_suffix <- needs_suffix | clashes
+  }
+
   if (!quiet) {
     describe_repair(names, new_names)
   }
-- 
2.43.0


From 75624887e32f83cdebd34cc61b29b611b8e05ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 27/41] fix: vec_rep() and vec_rep_each() reject scalar objects
 when `times` is 0 or 1

---
 src/rep.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rep.c b/src/rep.c
index 268511b..257c618 100644
--- a/src/rep.c
+++ b/src/rep.c
@@ -10,6 +10,10 @@ r_obj* vec_rep(r_obj* x,
                struct vctrs_arg* p_times_arg) {
   check_rep_times(times, error_call, p_times_arg);
 
+  if (x != r_null) {
+    obj_check_vector(x, p_x_arg, error_call);
+  }
+
   if (times == 1) {
     return x;
   }
@@ -78,6 +82,10 @@ r_obj* vec_rep_each(r_obj* x,
                     struct r_lazy error_call,
                     struct vctrs_arg* p_x_arg,
                     struct vctrs_arg* p_times_arg) {
+  if (x != r_null) {
+    obj_check_vector(x, p_x_arg, error_call);
+  }
+
   times = KEEP(vec_cast(times,
                         r_globals.empty_int,
                         p_times_arg,
@@ -109,7 +117,7 @@ r_obj* vec_rep_each(r_obj* x,
 r_obj* ffi_vec_rep_each(r_obj* x, r_obj* times, r_obj* frame) {
   struct r_lazy error_call = { .x = r_syms.error_call, .env = frame };
 
-  struct r_lazy x_arg_lazy = { .x = syms.times_arg, .env = frame };
+  struct r_lazy x_arg_lazy = { .x = syms.x_arg, .env = frame };
   struct vctrs_arg x_arg = new_lazy_arg(&x_arg_lazy);
 
   struct r_lazy times_arg_lazy = { .x = syms.times_arg, .env = frame };
-- 
2.43.0


From cfb39e9dafc9302e5e5e285d45429d4ba85b5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:17 +0000
Subject: [PATCH 28/41] fix: vec_restore() never sets attributes on `NULL`

---
 src/proxy-restore.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/proxy-restore.c b/src/proxy-restore.c
index b6cd48b..7efa565 100644
--- a/src/proxy-restore.c
+++ b/src/proxy-restore.c
@@ -68,6 +68,14 @@ r_obj* vec_restore_default(r_obj* x, r_obj* to, enum vctrs_owned owned) {
     return x;
   }
 
+  // `NULL` is a global object that can't have attributes
+  if (x == r_null) {
+    if (r_is_object(to)) {
+      r_abort("Can't restore a classed vector from `NULL`.");
+    }
+    return x;
+  }
+
   int n_prot = 0;
 
   attrib = KEEP(r_clone(attrib));
-- 
2.43.0


From 8a4a81bc8758db5eb2621df4cce84123ec45a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:13 +0000
Subject: [PATCH 29/41] fix: vec_locate_matches() doesn't call methods of data
 frame subclasses on internal ranks

---
 src/match.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/match.c b/src/match.c
index 9e186c3..20b94c1 100644
--- a/src/match.c
+++ b/src/match.c
@@ -1220,11 +1220,17 @@ r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* chr_proxy_collate) {
   r_obj* out = KEEP(r_alloc_list(2));
 
-  x = r_clone(x);
-  r_list_poke(out, 0, x);
-
-  y = r_clone(y);
-  r_list_poke(out, 1, y);
+  // The ranks are stored in bare data frames. If `x` and `y` are data frame
+  // subclasses, their methods don't apply to ranks.
+  r_obj* x_out = r_alloc_list(n_cols);
+  r_list_poke(out, 0, x_out);
+  r_attrib_poke_names(x_out, r_names(x));
+  r_init_data_frame(x_out, x_size);
+
+  r_obj* y_out = r_alloc_list(n_cols);
+  r_list_poke(out, 1, y_out);
+  r_attrib_poke_names(y_out, r_names(y));
+  r_init_data_frame(y_out, y_size);
 
   r_obj* const* v_x = r_list_cbegin(x);
   r_obj* const* v_y = r_list_cbegin(y);
@@ -1233,8 +1239,8 @@ r_obj* df_joint_xtfrm_by_col(r_obj* x,
     r_obj* x_col = v_x[col];
     r_obj* y_col = v_y[col];
     r_obj* xtfrms = vec_joint_xtfrm(x_col, y_col, x_size, y_size, nan_distinct, chr_proxy_collate);
-    r_list_poke(x, col, r_list_get(xtfrms, 0));
-    r_list_poke(y, col, r_list_get(xtfrms, 1));
+    r_list_poke(x_out, col, r_list_get(xtfrms, 0));
+    r_list_poke(y_out, col, r_list_get(xtfrms, 1));
   }
 
   FREE(1);
-- 
2.43.0


From 71ec15df8a2b1b6a7d3f5dc7b462d06b302dfa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:58 +0000
Subject: [PATCH 30/41] fix: names<- on vctr classes rejects a zero-length
 value instead of setting missing names

---
 R/type-vctr.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-vctr.R b/R/type-vctr.R
index 57c9643..8881070 100644
--- a/R/type-vctr.R
+++ b/R/type-vctr.R
@@ -277,7 +277,7 @@ diff.vctrs_vctr <- function(x, lag = 1L, differences = 1L, ...) {
 
 #' @export
 `names<-.vctrs_vctr` <- function(x, value) {
-  if (length(value) != 0 && length(value) != length(x)) {
+  if (!is_null(value) && length(value) != length(x)) {
     abort("`names()` must be the same length as x.")
   }
 
-- 
2.43.0


From 39e7bad5443202f026f212084892d2d5c3bad68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:04 +0000
Subject: [PATCH 31/41] fix: `[[<-` on list_of with a recursive index casts the
 updated element to the element type

---
 R/type-list-of.R | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/R/type-list-of.R b/R/type-list-of.R
index ad2879c..3f7eb31 100644
--- a/R/type-list-of.R
+++ b/R/type-list-of.R
@@ -146,6 +146,15 @@ as.character.vctrs_list_of <- function(x, ...) {
 }
 #' @export
 `[[<-.vctrs_list_of` <- function(x, i, value) {
+  if (length(i) > 1L) {
+    # Recursive index. Assign within the element first so that the
+    # updated element as a whole is cast to the element type.
+    elt <- x[[i[[1L]]]]
+    elt[[i[-1L]]] <- vec_cast(value, attr(x, "ptype"))
+    x[[i[[1L]]]] <- elt
+    return(x)
+  }
+
   if (is.null(value)) {
     # Setting to NULL via [[ shortens the list! Example:
     # `[[<-`(list(1), 1, NULL)
-- 
2.43.0


From 363c4d243de9d5a4fdeefe5e6a9ccea95f09d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:41 +0000
Subject: [PATCH 32/41] fix: subtracting date-times recycles with the vctrs
 rules rather than the base ones

---
 R/type-date-time.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 1369b67..7a019b1 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -359,7 +359,7 @@ vec_arith.difftime.default <- function(op, x, y, ...) stop_incompatible_op(op, x
 #' @export
 vec_arith.Date.Date <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "days"),
+    `-` = difftime_recycled(x, y, units = "days"),
     stop_incompatible_op(op, x, y)
   )
 }
@@ -367,7 +367,7 @@ vec_arith.Date.Date <- function(op, x, y, ...) {
 #' @export
 vec_arith.POSIXct.POSIXct <- function(op, x, y, ...) {
   switch(op,
-    `-` = difftime(x, y, units = "secs"),
+    `-` = difftime_recycled(x, y, units = "secs"),
     stop_incompatible_op(op, x, y)
   )
 }
@@ -576,6 +576,12 @@ chr_date_as_posixct <- function(x, tzone) {
   as.POSIXct.POSIXlt(out, tzone)
 }
 
+# `difftime()` uses base recycling
+difftime_recycled <- function(x, y, units) {
+  args <- vec_recycle_common(x, y)
+  difftime(args[[1L]], args[[2L]], units = units)
+}
+
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
   lossy <- x != x_floor
-- 
2.43.0


From 00eb8cd17bc7711cb6a40ae3fa5b7a285f71a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:41 +0000
Subject: [PATCH 33/41] fix: adding a missing duration to a date is not an
 error

---
 R/type-date-time.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-date-time.R b/R/type-date-time.R
index 7a019b1..98b38ec 100644
--- a/R/type-date-time.R
+++ b/R/type-date-time.R
@@ -584,7 +584,7 @@ difftime_recycled <- function(x, y, units) {
 
 lossy_floor <- function(x, to, x_arg = "", to_arg = "") {
   x_floor <- floor(x)
-  lossy <- x != x_floor
+  lossy <- !is.na(x) & x != x_floor
   maybe_lossy_cast(x_floor, x, to, lossy, x_arg = x_arg, to_arg = to_arg)
 }
 
-- 
2.43.0


From 219692952e28f91c591a92f42874a35a77fe5c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:26 +0000
Subject: [PATCH 34/41] fix: out-of-bounds elements of run-length encoded
 strings are missing

---
 src/altrep-rle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/altrep-rle.c b/src/altrep-rle.c
index 1b712db..9409d39 100644
--- a/src/altrep-rle.c
+++ b/src/altrep-rle.c
@@ -86,12 +86,13 @@ SEXP altrep_rle_string_Elt(SEXP vec, R_xlen_t i) {
   return STRING_ELT(nms, idx - 1);
 }
 
+// Returns -1 if `i` is out of bounds
 R_xlen_t find_rle_index(int* rle_data, R_xlen_t i, R_xlen_t size) {
   R_xlen_t idx = 0;
   while (i >= 0 && idx < size) {
     i -= rle_data[idx++];
   }
-  return idx - 1;
+  return i >= 0 ? -1 : idx - 1;
 }
 
 
@@ -127,7 +128,12 @@ SEXP altrep_rle_Extract_subset(SEXP x, SEXP indx, SEXP call) {
     --index_elt;
 
     R_xlen_t rle_idx = find_rle_index(rle_data, index_elt, rle_n);
-    SET_STRING_ELT(out, i, STRING_ELT(nms, rle_idx));
+
+    if (rle_idx < 0) {
+      SET_STRING_ELT(out, i, NA_STRING);
+    } else {
+      SET_STRING_ELT(out, i, STRING_ELT(nms, rle_idx));
+    }
   }
 
   UNPROTECT(2);
-- 
2.43.0


From 7c036d1cbc1b44fd7f7210bcbcb19844321615ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 35/41] fix: lazy character vectors accept ALTREP strings

---
 src/altrep-lazy-character.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/altrep-lazy-character.c b/src/altrep-lazy-character.c
index 7dc5efa..0c2ffb0 100644
--- a/src/altrep-lazy-character.c
+++ b/src/altrep-lazy-character.c
@@ -51,6 +51,18 @@ r_obj* altrep_lazy_character_Materialize(r_obj* vec) {
     r_stop_internal("`fn` must evaluate to a character vector.");
   }
 
+  // Store a standard vector, `STDVEC_DATAPTR()` fails with ALTREP ones
+  if (ALTREP(out)) {
+    KEEP(out);
+    const r_ssize size = r_length(out);
+    r_obj* std = KEEP(r_alloc_character(size));
+    for (r_ssize i = 0; i < size; ++i) {
+      r_chr_poke(std, i, STRING_ELT(out, i));
+    }
+    out = std;
+    FREE(2);
+  }
+
   R_set_altrep_data2(vec, out);
 
   UNPROTECT(1);
-- 
2.43.0


From 351695a650a80d0906f37d112f17ce2cedd3b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:41 +0000
Subject: [PATCH 36/41] fix: elements of lists are compared and hashed
 regardless of the order of their attributes and how row names are stored

---
 src/equal.c | 58 +++++++++++++++++++++++++++++++++++++++++------------
 src/hash.c  | 22 +++++++++++++++++++-
 2 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index e4fe49d..c874512 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -1,4 +1,5 @@
 #include "vctrs.h"
+#include "type-data-frame.h"
 #include <math.h>
 
 // -----------------------------------------------------------------------------
@@ -389,33 +390,64 @@ SEXP vctrs_equal_object(SEXP x, SEXP y) {
   return Rf_ScalarLogical(equal_object(x, y));
 }
 
-// TODO: Sort attributes by tag before comparison
+// Integer row names are stored in several ways, see `.row_names_info()`
+static bool equal_int_row_names(SEXP x, SEXP y) {
+  R_len_t n = rownames_size(x);
+  if (n != rownames_size(y)) {
+    return false;
+  }
+
+  const bool x_compact = rownames_type(x) == ROWNAMES_TYPE_automatic_compact;
+  const bool y_compact = rownames_type(y) == ROWNAMES_TYPE_automatic_compact;
+
+  const int* p_x = INTEGER_RO(x);
+  const int* p_y = INTEGER_RO(y);
+
+  for (R_len_t i = 0; i < n; ++i) {
+    const int x_elt = x_compact ? i + 1 : p_x[i];
+    const int y_elt = y_compact ? i + 1 : p_y[i];
+    if (x_elt != y_elt) {
+      return false;
+    }
+  }
+
+  return true;
+}
 
+static inline bool equal_attrib_value(SEXP tag, SEXP x, SEXP y) {
+  if (tag == R_RowNamesSymbol && TYPEOF(x) == INTSXP && TYPEOF(y) == INTSXP) {
+    return equal_int_row_names(x, y);
+  } else {
+    return equal_object_normalized(x, y);
+  }
+}
+
+// Attributes are a set, their order doesn't matter
 static inline bool vec_equal_attrib(SEXP x, SEXP y) {
   SEXP x_attrs = ATTRIB(x);
   SEXP y_attrs = ATTRIB(y);
 
-  while (x_attrs != R_NilValue) {
-    if (y_attrs == R_NilValue) {
-      return false;
-    }
+  if (Rf_length(x_attrs) != Rf_length(y_attrs)) {
+    return false;
+  }
 
-    SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(y_attrs);
+  for (; x_attrs != R_NilValue; x_attrs = CDR(x_attrs)) {
+    const SEXP tag = TAG(x_attrs);
 
-    if (x_tag != y_tag) {
+    SEXP y_node = y_attrs;
+    while (y_node != R_NilValue && TAG(y_node) != tag) {
+      y_node = CDR(y_node);
+    }
+    if (y_node == R_NilValue) {
       return false;
     }
 
-    if (!equal_object_normalized(CAR(x_attrs), CAR(y_attrs))) {
+    if (!equal_attrib_value(tag, CAR(x_attrs), CAR(y_node))) {
       return false;
     }
-
-    x_attrs = CDR(x_attrs);
-    y_attrs = CDR(y_attrs);
   }
 
-  return y_attrs == R_NilValue;
+  return true;
 }
 
 
diff --git a/src/hash.c b/src/hash.c
index c9bb042..39b3ebf 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1,4 +1,5 @@
 #include "vctrs.h"
+#include "type-data-frame.h"
 
 // boost::hash_combine from https://stackoverflow.com/questions/35985960
 static inline uint32_t hash_combine(uint32_t x, uint32_t y) {
@@ -114,13 +115,32 @@ static uint32_t list_hash(SEXP x);
 static uint32_t node_hash(SEXP x);
 static uint32_t fn_hash(SEXP x);
 static uint32_t sexp_hash(SEXP x);
+static uint32_t attrib_hash(SEXP attrib);
 
 uint32_t hash_object(SEXP x) {
   uint32_t hash = sexp_hash(x);
 
   SEXP attrib = ATTRIB(x);
   if (attrib != R_NilValue) {
-    hash = hash_combine(hash, hash_object(attrib));
+    hash = hash_combine(hash, attrib_hash(attrib));
+  }
+
+  return hash;
+}
+
+// Must not depend on the order of attributes, or on how integer row
+// names are stored
+static uint32_t attrib_hash(SEXP attrib) {
+  uint32_t hash = 0;
+
+  for (; attrib != R_NilValue; attrib = CDR(attrib)) {
+    SEXP value = CAR(attrib);
+
+    if (TAG(attrib) == R_RowNamesSymbol && TYPEOF(value) == INTSXP) {
+      hash += hash_uint32(rownames_size(value));
+    } else {
+      hash += hash_object(value);
+    }
   }
 
   return hash;
-- 
2.43.0


From 66c8ce4801d0cc96284a7135365bdfa3634ffa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:08 +0000
Subject: [PATCH 37/41] fix: non-vectors are rejected with
 `vctrs_error_scalar_type` rather than an internal error

---
 R/order.R        | 1 +
 src/slice-chop.c | 2 +-
 src/utils.c      | 3 ++-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/R/order.R b/R/order.R
index 47c7f16..a086038 100644
--- a/R/order.R
+++ b/R/order.R
@@ -330,6 +330,7 @@ vec_order <- function(x,
     }
     order(proxy, decreasing = decreasing, na.last = na.last)
   } else {
+    obj_check_vector(x)
     abort("Invalid type returned by `vec_proxy_order()`.")
   }
 }
diff --git a/src/slice-chop.c b/src/slice-chop.c
index 1def91a..7ff4a7d 100644
--- a/src/slice-chop.c
+++ b/src/slice-chop.c
@@ -214,7 +214,7 @@ r_obj* vec_chop_base(r_obj* x,
     // Fallback to `[` if the class doesn't implement a proxy. This is
     // to be maximally compatible with existing classes.
     if (info.type == VCTRS_TYPE_scalar) {
-      r_abort_lazy_call(r_lazy_null, "Can't slice a scalar");
+      stop_scalar_type(x, vec_args.empty, r_lazy_null);
     }
 
     if (has_dim(x)) {
diff --git a/src/utils.c b/src/utils.c
index e8b0810..d6eb411 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -617,7 +617,8 @@ SEXP s3_bare_class(SEXP x) {
   case CLOSXP:
   case SPECIALSXP:
   case BUILTINSXP: return chrs_function;
-  default: stop_unimplemented_vctrs_type("base_dispatch_class_str", vec_typeof(x));
+  // Scalars, e.g. symbols and environments
+  default: return Rf_mkString(Rf_type2char(TYPEOF(x)));
   }
 }
 
-- 
2.43.0


From 52a85006c088bda23b6c05bc105065583976740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:08 +0000
Subject: [PATCH 38/41] fix: raw arrays are compared and ordered by row

---
 R/type-bare.R | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..b1781f6 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -379,6 +379,10 @@ vec_proxy_equal.array <- function(x, ...) {
 
 #' @export
 vec_proxy_compare.raw <- function(x, ...) {
+  if (vec_dim_n(x) > 1L) {
+    return(vec_proxy_compare.array(x))
+  }
+
   # because:
   # order(as.raw(1:3))
   # #> Error in order(as.raw(1:3)): unimplemented type 'raw' in 'orderVector1'
-- 
2.43.0


From c82e9ae60661f37d6cc5f4829fe6fa5284ee841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:30 +0000
Subject: [PATCH 39/41] fix: incompatible types and partial types have no
 common type, rather than an infinite recursion

---
 R/conditions.R | 9 +++++++--
 R/type2.R      | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/R/conditions.R b/R/conditions.R
index 9dbe56f..0d3a9e7 100644
--- a/R/conditions.R
+++ b/R/conditions.R
@@ -113,8 +113,13 @@ stop_incompatible_type <- function(x,
                                    message = NULL,
                                    class = NULL,
                                    call = caller_env()) {
-  obj_check_vector(x, arg = x_arg)
-  obj_check_vector(y, arg = y_arg)
+  # Partial types are not vectors but have a common type with some of them
+  if (!is_partial(x)) {
+    obj_check_vector(x, arg = x_arg)
+  }
+  if (!is_partial(y)) {
+    obj_check_vector(y, arg = y_arg)
+  }
 
   action <- arg_match(action)
 
diff --git a/R/type2.R b/R/type2.R
index b694364..00cf68a 100644
--- a/R/type2.R
+++ b/R/type2.R
@@ -149,7 +149,8 @@ vec_default_ptype2 <- function(x,
     return(out)
   }
 
-  if (is_same_type(x, y)) {
+  # `is_same_type()` takes the common type with partial types
+  if (!is_partial(x) && !is_partial(y) && is_same_type(x, y)) {
     return(vec_ptype(x, x_arg = x_arg))
   }
 
-- 
2.43.0


From 312978c011792fa15f068671176dc10a2bf70530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:52 +0000
Subject: [PATCH 40/41] fix: finalising a partial data frame leaves no
 unspecified column

---
 R/partial-frame.R | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/R/partial-frame.R b/R/partial-frame.R
index cb9241f..988cb64 100644
--- a/R/partial-frame.R
+++ b/R/partial-frame.R
@@ -94,7 +94,13 @@ vec_ptype2.data.frame.vctrs_partial_frame <- function(x, y, ...) {
 #' @export
 vec_ptype_finalise.vctrs_partial_frame <- function(x, ...) {
   out <- x$learned
-  out[names(x$partial)] <- x$partial
+  partial <- x$partial
 
-  out
+  # Unspecified columns take on the learned types
+  learned <- map_lgl(partial, is_unspecified) & names(partial) %in% names(out)
+  partial <- partial[!learned]
+
+  out[names(partial)] <- partial
+
+  vec_ptype_finalise(out)
 }
-- 
2.43.0


From e9960cc8d56a31d07ce5eaffa6a768729214e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:37 +0000
Subject: [PATCH 41/41] fix: `NaN` is not a valid field index

---
 src/fields.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields.c b/src/fields.c
index 5ab2547..c584eee 100644
--- a/src/fields.c
+++ b/src/fields.c
@@ -38,7 +38,8 @@ int find_offset(SEXP x, SEXP index) {
   } else if (TYPEOF(index) == REALSXP) {
     double val = REAL(index)[0];
 
-    if (R_IsNA(val))
+    // Including `NaN`
+    if (ISNAN(val))
       Rf_errorcall(R_NilValue, "Invalid index: NA_real_");
 
     val--;
-- 
2.43.0

