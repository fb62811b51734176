From 2b6a8ebab581f6af722789f692a313bbe152646d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 01/31] fix: renf_elem_fmpq_div multiplied by c instead of its
 inverse when a and c differ

---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 6b84a1c967fbac31a5eb22ee4e60c0e30f5675c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 02/31] fix: renf_elem_gen returned the inverse of the
 generator in fields of degree one

---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 35d4da30013864e4322e6c1df4094fd300810eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 03/31] fix: floor and ceil of zero read a stale coefficient in
 fields of degree at least three

---
 libeantic/src/renf_elem/rounding_template.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8585a63 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -52,6 +52,8 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
             FMPZ_DIV(a, LNF_ELEM_NUMREF(b->elem), LNF_ELEM_DENREF(b->elem));
         else if (nf->nf->flag & NF_QUADRATIC)
             FMPZ_DIV(a, QNF_ELEM_NUMREF(b->elem), QNF_ELEM_DENREF(b->elem));
+        else if (NF_ELEM(b->elem)->length == 0)
+            fmpz_zero(a);
         else
             FMPZ_DIV(a, NF_ELEM_NUMREF(b->elem), NF_ELEM_DENREF(b->elem));
         return;
-- 
2.43.0


From 49a3d61852cbcace8384be9b06d1d3d2345ca90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:35 +0000
Subject: [PATCH 04/31] fix: negative condition numbers led to non-positive
 precisions in comparisons

---
 libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
index 3c78cf3..fd295fb 100644
--- a/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/relative_condition_number_2exp.c
@@ -49,7 +49,8 @@ int _fmpz_poly_relative_condition_number_2exp(slong * cond, fmpz * p, slong len,
         fmpz_clear(cond2);
         return 1;
     }
-    *cond = fmpz_get_si(cond2);
+    /* never report a gain of precision: callers add this to a precision */
+    *cond = FLINT_MAX(fmpz_get_si(cond2), 0);
     fmpz_clear(cond2);
     return 0;
 }
-- 
2.43.0


From 644e76d265a5620e5dd7ee68ef9b1ac901f37d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 05/31] fix: renf_elem_get_d rounded subnormal rationals twice

---
 libeantic/src/renf_elem/get_d.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..7dfb592 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -51,19 +51,31 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
 
     if (renf_elem_is_rational(a, nf))
     {
-        /* Delegate conversion of rational numbers to arf. */
+        /* Delegate conversion of rational numbers to arf. To round only
+         * once (subnormal numbers have fewer than DBL_MANT_DIG bits), we
+         * bracket the rational until both ends round to the same double. */
         fmpq_t b;
-        arf_t c;
+        arf_t lower, upper;
+        double d;
 
         fmpq_init(b);
-        arf_init(c);
+        arf_init(lower);
+        arf_init(upper);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
 
-        double d = arf_get_d(c, rnd);
+        prec = DBL_MANT_DIG;
+        do
+        {
+            prec *= 2;
+            arf_set_fmpq(lower, b, prec, ARF_RND_FLOOR);
+            arf_set_fmpq(upper, b, prec, ARF_RND_CEIL);
+            d = arf_get_d(lower, rnd);
+        }
+        while (arf_get_d(upper, rnd) != d);
 
-        arf_clear(c);
+        arf_clear(lower);
+        arf_clear(upper);
         fmpq_clear(b);
 
         return d;
-- 
2.43.0


From f01ad2d9440ad56136455a7fa6c8177f0d88200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 06/31] fix: the bound on positive roots relied on terms that
 are zero or have the wrong sign

---
 .../src/fmpz_poly_extra/positive_root_upper_bound_2exp.c      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..3f9fcf5 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,10 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only the terms that have the sign of the leading term can */
+            /* compensate for p_i                                        */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 7b82b97c2bce259a7fecb74c89298740c5001878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 07/31] fix: Sturm count in the unit interval counted zeros of
 the sequence as sign changes

---
 libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..31caf52 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -50,7 +50,7 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
             t++;
             s0a = s;
         }
-        else if (s != s0a)
+        else if (s != 0 && s != s0a)
         {
             t++;
             s0a = s;
@@ -60,8 +60,12 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
         fmpz_poly_evaluate_at_one(c, p1->coeffs, p1->length);
         s = fmpz_sgn(c);
         if (s0b == 0)
+        {
+            /* the root 1 is not in the interval [0, 1) */
+            t--;
             s0b = s;
-        else if (s != s0b)
+        }
+        else if (s != 0 && s != s0b)
         {
             t--;
             s0b = s;
-- 
2.43.0


From 9875f7fa5aa11e3155ac1cfebb769b5d35000012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:00 +0000
Subject: [PATCH 08/31] fix: renf_elem_get_arb asked for infinite precision in
 fields with an exact embedding

---
 libeantic/src/renf_elem/get_arb.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..5228afc 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,10 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    /* the embedding of a field of degree one can be exact */
+    slong pprec = nf->prec;
+    if (!arb_is_exact(nf->emb))
+        pprec = FLINT_MAX(pprec, arb_rel_accuracy_bits(nf->emb));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
-- 
2.43.0


From 75832032a63ebcf9ba6fc14cc254e5790c44699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:19 +0000
Subject: [PATCH 09/31] fix: renf_elem_fmpq_sub kept a stale coefficient for
 rational elements of quadratic fields

---
 libeantic/src/renf_elem/fmpq_sub.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..50529bc 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,8 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* nf_elem_fmpq_sub leaves a coefficient of a untouched in quadratic fields when b is rational */
+    nf_elem_neg(a->elem, b->elem, nf->nf);
+    nf_elem_add_fmpq(a->elem, a->elem, c, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From f99d5af01595598b3425f56855c26990b7d73cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:19 +0000
Subject: [PATCH 10/31] fix: renf_refine_embedding overflowed on exact
 embeddings and on balls centered at zero

---
 libeantic/src/renf/refine_embedding.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..6904298 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -17,6 +17,14 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/renf.h"
 
+/* The precision for the next step; the accuracy of an exact ball or of a ball
+ * centered at zero does not fit into a precision. */
+static slong step_precision(const arb_t emb, slong cond)
+{
+    slong acc = FLINT_ABS(arb_rel_accuracy_bits(emb));
+    return FLINT_MAX((acc >= ARF_PREC_EXACT ? 0 : 2 * acc) + cond, 2);
+}
+
 void renf_refine_embedding(renf_t nf, slong prec)
 {
     arb_t tmp;
@@ -31,7 +39,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
     cond *= nf->nf->pol->length;
     arb_init(tmp);
 
-    comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
+    comp_prec = step_precision(nf->emb, cond);
     while (arb_rel_accuracy_bits(nf->emb) < prec)
     {
         if(!_fmpz_poly_newton_step_arb(tmp,
@@ -56,7 +64,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond * nf->nf->pol->length;
+        comp_prec = step_precision(nf->emb, cond * nf->nf->pol->length);
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 55d6a67669cb8ebb19f7d9a991e57185e6eb4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:06 +0000
Subject: [PATCH 11/31] fix: refinement looped forever when a bisection step
 could not improve the embedding

---
 libeantic/src/fmpz_poly_extra/bisection_step_arb.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..e33f654 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -54,7 +54,7 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
 
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
+    int sl, sr, improved;
     arb_t b, c, rres;
     arf_t l, r;
 
@@ -96,7 +96,10 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
 
     _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
     arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
+    arb_intersection(rres, rres, a, prec);
+    /* without an improvement, the caller needs to increase the precision */
+    improved = mag_cmp(arb_radref(rres), arb_radref(a)) < 0;
+    arb_swap(res, rres);
 
     arb_clear(b);
     arb_clear(c);
@@ -104,7 +107,7 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     arf_clear(l);
     arf_clear(r);
 
-    return 1;
+    return improved;
 }
 
 int fmpz_poly_bisection_step_arb(arb_t res, const fmpz_poly_t pol, arb_t a, slong prec)
-- 
2.43.0


From 9072bc7a9bdcb90baefc944e9a298228b32d55af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:06 +0000
Subject: [PATCH 12/31] fix: bisection steps rounded the endpoints and could
 converge to a root outside of the ball

---
 libeantic/src/fmpz_poly_extra/bisection_step_arb.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index e33f654..d1e2e3c 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -65,8 +65,9 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     arb_init(rres);
 
     /* set l, r as the left and right endpoint of the ball */
-    /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    /* compute the signs of pol(l) and pol(r); rounding l  */
+    /* and r could let another root enter the interval     */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-- 
2.43.0


From f79ae2048561f24250e32905401fe61f0bc16a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:20 +0000
Subject: [PATCH 13/31] fix: the check for a unique real root accepted roots
 outside of the ball and leaked

---
 .../fmpq_poly_extra/check_unique_real_root.c  | 70 ++++++++++++-------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..f7ba6fa 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -26,6 +26,25 @@ arb_sgn2(arb_t a)
     return 0;
 }
 
+/* sign of pol at the endpoint x */
+static int
+sgn_at(const fmpq_poly_t pol, const arf_t x, slong prec)
+{
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, prec);
+    if (arb_contains_zero(c) && arf_is_finite(x))
+        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, ARF_PREC_EXACT);
+    sgn = arb_sgn2(c);
+    arb_clear(b);
+    arb_clear(c);
+    return sgn;
+}
+
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
 {
     if (pol->length < 2)
@@ -45,7 +64,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
     }
     else
     {
-        arb_t b, c;
+        arb_t b;
         arf_t l, r;
 
         fmpz * der;
@@ -56,37 +75,34 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         /* 1 - cheap test:                    */
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
-        arb_init(b);
-        arb_init(c);
+        /* the endpoints must not be rounded, */
+        /* otherwise roots outside of a count */
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = sgn_at(pol, l, 2*prec);
+        rsign = sgn_at(pol, r, 2*prec);
+
+        if (lsign * rsign != -1)
+        {
+            arf_clear(l);
+            arf_clear(r);
+            return 0;
+        }
 
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        arb_init(b);
+        der = _fmpz_vec_init(pol->length - 1);
+        _fmpz_poly_derivative(der, pol->coeffs, pol->length);
+        _fmpz_poly_evaluate_arb(b, der, pol->length - 1, a, prec);
+        _fmpz_vec_clear(der, pol->length - 1);
 
-        arb_clear(c);
-        if (lsign * rsign == -1)
+        if (!arb_contains_zero(b))
         {
-            der = _fmpz_vec_init(pol->length - 1);
-            _fmpz_poly_derivative(der, pol->coeffs, pol->length);
-            _fmpz_poly_evaluate_arb(b, der, pol->length - 1, a, prec);
-            _fmpz_vec_clear(der, pol->length - 1);
-
-            if (!arb_contains_zero(b))
-            {
-                arf_clear(l);
-                arf_clear(r);
-                arb_clear(b);
-                return 1;
-            }
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
+            return 1;
         }
-        else
-            return 0;
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -108,6 +124,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpz_poly_clear(pol2);
         fmpq_clear(ql);
         fmpq_clear(qr);
+        arf_clear(l);
+        arf_clear(r);
 
         return (n == 1);
     }
-- 
2.43.0


From cff2bebea69800487098032bede9e0cce2716ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:20 +0000
Subject: [PATCH 14/31] fix: renf_set_embeddings_fmpz_poly rounded the centers
 of the isolating balls

---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From b59b46c814fa63cfdac2d1c5e048de56e0891419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:25 +0000
Subject: [PATCH 15/31] fix: bisection steps extended the embedding past the
 ball and could lose the root

---
 .../src/fmpz_poly_extra/bisection_step_arb.c      | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index d1e2e3c..3099711 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -96,8 +96,19 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     sr = arf_sgn(arb_midref(c));
 
     _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(rres, rres, a, prec);
+
+    /* Set rres to a ball that contains [l, r] but not more than a; radii */
+    /* get rounded up so we align the ball with the endpoint that is kept. */
+    arf_sub(arb_midref(b), r, l, ARF_PREC_EXACT, ARF_RND_UP);
+    arf_get_mag(arb_radref(rres), arb_midref(b));
+    mag_mul_2exp_si(arb_radref(rres), arb_radref(rres), -1);
+    arf_set_mag(arb_midref(rres), arb_radref(rres));
+    arb_get_interval_arf(arb_midref(b), arb_midref(c), a, ARF_PREC_EXACT);
+    if (arf_equal(l, arb_midref(b)))
+        arf_add(arb_midref(rres), l, arb_midref(rres), ARF_PREC_EXACT, ARF_RND_UP);
+    else
+        arf_sub(arb_midref(rres), r, arb_midref(rres), ARF_PREC_EXACT, ARF_RND_UP);
+
     /* without an improvement, the caller needs to increase the precision */
     improved = mag_cmp(arb_radref(rres), arb_radref(a)) < 0;
     arb_swap(res, rres);
-- 
2.43.0


From c15360e63102d6c00d9aa4ac60f541189d17e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:55 +0000
Subject: [PATCH 16/31] fix: renf_equal identified fields whose embeddings
 overlap but enclose different roots

---
 libeantic/src/renf/equal.c | 42 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..9256afb 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -12,6 +12,7 @@
 #include "../../e-antic/config.h"
 
 #include "../../e-antic/renf.h"
+#include "../../e-antic/fmpz_poly_extra.h"
 
 static __inline__
 int nf_equal(const nf_t nf1, const nf_t nf2)
@@ -19,7 +20,46 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
     return fmpq_poly_equal(nf1->pol, nf2->pol);
 }
 
+static int sgn_at(const fmpq_poly_t pol, const arf_t x)
+{
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, ARF_PREC_EXACT);
+    sgn = arf_sgn(arb_midref(c));
+    arb_clear(b);
+    arb_clear(c);
+    return sgn;
+}
+
+/* Each of the balls contains exactly one root of pol. It is the same root if */
+/* it is contained in their intersection, i.e., if pol changes sign there.    */
+static int same_root(const fmpq_poly_t pol, const arb_t emb1, const arb_t emb2)
+{
+    arf_t l, r, t, u;
+    int ans;
+
+    if (!arb_overlaps(emb1, emb2))
+        return 0;
+
+    arf_init(l);
+    arf_init(r);
+    arf_init(t);
+    arf_init(u);
+    arb_get_interval_arf(l, r, emb1, ARF_PREC_EXACT);
+    arb_get_interval_arf(t, u, emb2, ARF_PREC_EXACT);
+    ans = sgn_at(pol, arf_cmp(l, t) < 0 ? t : l) * sgn_at(pol, arf_cmp(r, u) < 0 ? r : u) <= 0;
+    arf_clear(l);
+    arf_clear(r);
+    arf_clear(t);
+    arf_clear(u);
+    return ans;
+}
+
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    return nf_equal(nf1->nf, nf2->nf) && same_root(nf1->nf->pol, nf1->emb, nf2->emb);
 }
-- 
2.43.0


From a5b2fa538976f67c0e713e4104d46f83cb3b51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 17/31] fix: floordiv of irrational elements of different
 fields must throw

Both operands were handed to renf_elem_fdiv with the field of the left
operand, so the coefficients of the right operand were read in the wrong
field.
---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..fda36fb 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -948,6 +948,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of non-rational elements in different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 0af5955bd8ea33c539b448b711f2f8406b79a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 18/31] fix: pow with the exponent INT_MIN

Negating the exponent as an int overflowed.
---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index fda36fb..d392353 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -971,7 +971,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), -static_cast<ulong>(exp), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From 5e397865674718293333946eddd2d1d28d3df479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 19/31] fix: coercing constructor must not leak when it throws

The destructor of a partially constructed element does not run, so the
storage of the element was lost. Delegating to the constructor of the zero
element makes the compiler run the destructor.
---
 libeantic/srcxx/renf_elem_class.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index d392353..f54bb45 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -437,9 +437,8 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & value)
-    : nf(&k) {
-    renf_elem_init(a, nf->renf_t());
-
+    : renf_elem_class(k)
+{
     if (value.parent() == parent())
         renf_elem_set(a, value.renf_elem_t(), nf->renf_t());
     else if (value.is_rational())
-- 
2.43.0


From 6d3d19274a2824cd07e205ca2b8255393fa1ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:27 +0000
Subject: [PATCH 20/31] fix: dropping the last reference to a field raced with
 renf_class::make

---
 libeantic/srcxx/renf_class.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..1110c86 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -286,7 +286,21 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // As long as there are other references to this field around, we can just
+    // drop this one.
+    auto count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+    {
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_release, std::memory_order_relaxed))
+            return;
+    }
+
+    // This might be the last reference to this field. It can only be dropped
+    // while the registry is locked: otherwise, renf_class::make() could hand
+    // out another reference to this field before we get to delete it.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -294,8 +308,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From 71c3689901f66ae2dd30cc0c1cbf4508c597ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 21/31] fix: fmpq_poly_set_str_pretty must reject coefficients
 with zero denominator

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..6ab4356 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -58,8 +58,8 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
         ans = fmpq_set_str(coeff, x, 10);
         *y = tmp;
 
-        if (ans)
-            return ans;
+        if (ans || fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
         x = y;
     }
     else
-- 
2.43.0


From 13de0d0eed25e0a93383346e18ea0a4ea2299660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 22/31] fix: fmpq_poly_set_str_pretty must reduce coefficients
 such as 2/4 to lowest terms

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 6ab4356..1ec1b50 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,7 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans || fmpz_is_zero(fmpq_denref(coeff)))
             return -1;
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From d8c9dbe89eb9d1b0df2d3e1a5930d7a16d65f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 23/31] fix: fmpq_poly_set_str_pretty crashed on exponents too
 large for any polynomial

---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 1ec1b50..0aa4371 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -122,7 +122,8 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
     {
         errno = 0;
         *pow = strtol(x, &y, 10);
-        if (errno)
+        /* the polynomial must be representable in memory */
+        if (errno || *pow >= WORD_MAX / (slong) sizeof(fmpz))
             return -1;
 
         while (*y == ' ') y++;
-- 
2.43.0


From 2bb7448cbf41ac34e7885a6f50f38d6f37237839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 24/31] fix: fmpz_poly_set_str_pretty kept higher coefficients
 of the previous value

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..cd3c6d0 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,10 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
-    for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
-    {
-        fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-    }
+    fmpq_poly_get_numerator(p, q);
 
     fmpq_poly_clear(q);
     return 0;
-- 
2.43.0


From ff1a3b86d5bbf1c0910102e83d50ed3f045be87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 25/31] fix: renf_elem_class string constructor leaked when the
 string cannot be parsed

---
 libeantic/srcxx/renf_elem_class.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index f54bb45..661361f 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -424,6 +424,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
 
     fmpq_poly_init(p);
     err = fmpq_poly_set_str_pretty(p, t, nf->gen_name().c_str());
+    flint_free(t);
     if (err)
     {
         fmpq_poly_clear(p);
@@ -432,8 +433,6 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     renf_elem_init(a, nf->renf_t());
     renf_elem_set_fmpq_poly(a, p, nf->renf_t());
     fmpq_poly_clear(p);
-
-    flint_free(t);
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & value)
-- 
2.43.0


From f4846696f5861f30bcd97cfec41461cf7a295790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:10 +0000
Subject: [PATCH 26/31] fix: renf_class::make leaked when the polynomial has no
 unique root in the ball

---
 libeantic/srcxx/renf_class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 1110c86..e27c8b4 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -124,6 +124,9 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
 boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minpoly, const std::string& gen, const std::function<std::string(slong prec)> emb, slong prec) {
     while (true)
     {
+        // This might throw, so nothing must have been allocated yet.
+        const std::string root = emb(prec);
+
         arb_t e;
         fmpq_poly_t p;
 
@@ -135,7 +138,7 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
         }
 
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, root.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From 2cf9638bb66bb6c9786bbce3a69f5619676a420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 27/31] fix: describe a field by a ball that isolates its root

The ball printed by renf_class::construction() could contain several roots
when these are close (or the precision is low) so the field could not be
restored from its description, e.g., from a cereal archive.
---
 libeantic/srcxx/renf_class.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index e27c8b4..d8f8c0a 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -192,10 +192,34 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
+  // Determine a precision at which the printed ball still isolates the root.
+  // We refine a copy, i.e., this also works when this field is immutable.
+  ::renf_t k;
+  renf_init_set(k, renf_t());
+  arb_t e;
+  arb_init(e);
+
+  slong prec = k->prec;
+  char * emb;
+
+  while (true)
+  {
+      emb = arb_get_str(k->emb, arf_bits(arb_midref(k->emb)), 0);
+
+      if (arb_set_str(e, emb, prec) == 0 && fmpq_poly_check_unique_real_root(k->nf->pol, e, prec))
+          break;
+
+      flint_free(emb);
+      prec *= 2;
+      renf_refine_embedding(k, prec);
+  }
+
+  arb_clear(e);
+  renf_clear(k);
+
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
-  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
+  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), prec);
 
   flint_free(pol);
   flint_free(emb);
-- 
2.43.0


From f1cce39d887e134fd369dfe60dce8e9f708d3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 28/31] fix: read elements from streams without swallowing
 white space

Elements separated by white space could not be read one after the other,
white space inside parentheses was dropped so that (1 2) was read as 12, a
stream that contains only white space gave zero and the stream failed after
its last element had been read.
---
 libeantic/srcxx/renf_class.cpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index d8f8c0a..f63fcb6 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -276,27 +276,37 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
-    bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
-    if (paren)
+    // elements might be separated by white space
+    while (isspace(is.peek()))
+        is.get();
+
+    auto c = is.peek();
+
+    if (c == EOF)
+    {
+        is.setstate(std::ios_base::failbit);
+        return is;
+    }
+
+    if (c == std::char_traits<char>::to_int_type('('))
     {
         // read until ")"
         is.get();
-        while (!is.eof() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
+        for (c = is.peek(); c != EOF && c != std::char_traits<char>::to_int_type(')'); c = is.peek())
+        {
+            s += isspace(c) ? ' ' : static_cast<char>(c);
+            is.get();
         }
-        if (is.eof()) throw std::invalid_argument("invalid stream");
+        if (c == EOF) throw std::invalid_argument("invalid stream");
         is.get(); // remove ) from the stream
     }
     else
     {
-        if (paren) is.get();
         // read until space or EOF
-        while (!is.eof() && !isspace(is.peek()) && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
+        for (; c != EOF && !isspace(c); c = is.peek())
+        {
+            s += static_cast<char>(c);
+            is.get();
         }
     }
 
-- 
2.43.0


From 400a0ec37750623007ffa96c838439265cbe303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:34 +0000
Subject: [PATCH 29/31] fix: convert large Python integers exactly

cppyy silently truncates integers that do not fit into an int when it calls
a constructor, e.g., renf_elem(K, 2**40) was zero; arithmetic with such
integers was rejected.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..7f9d960 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -165,6 +165,9 @@ def for_eantic(x):
 
     If no such conversion exists, leave the argument unchanged.
     """
+    if isinstance(x, int) and not -2**31 <= x < 2**31:
+        # cppyy rejects or silently truncates integers that do not fit into an int.
+        return cppyy.gbl.mpz_class(cppyy.gbl.std.string(hex(x)), 0)
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
     if isinstance(x, (tuple, list)):
-- 
2.43.0


From f102db92d88fc6b2172efb4765c7e226b61b224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:34 +0000
Subject: [PATCH 30/31] fix: convert embeddings of realalg fields exactly

The center of the interval was rounded to a float, so for large roots the
ball did not contain the root and the field could not be converted.
---
 pyeantic/src/pyeantic/realalg_conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyeantic/src/pyeantic/realalg_conversion.py b/pyeantic/src/pyeantic/realalg_conversion.py
index 4cc3125..8de05ff 100644
--- a/pyeantic/src/pyeantic/realalg_conversion.py
+++ b/pyeantic/src/pyeantic/realalg_conversion.py
@@ -49,9 +49,10 @@ def realalg_interval_to_arb(i):
     from realalg.interval import Interval
     if not isinstance(i, Interval):
         raise ValueError
-    center = float(i.lower + i.upper) / 2.0 / 10.0 ** (i.precision)
-    rad = float(i.upper - i.lower) / 10.0 ** (i.precision - 1)
-    return '[' + str(center) + ' +/- ' + str(rad) + ']'
+    # The bounds are exact decimal numbers; floats could not represent them.
+    center = '%de-%d' % (5 * (i.lower + i.upper), i.precision + 1)
+    rad = '%de-%d' % (i.upper - i.lower, i.precision - 1)
+    return '[' + center + ' +/- ' + rad + ']'
 
 def realalg_nf_to_eantic(K, name='a'):
     r"""
-- 
2.43.0


From 500546492a586e7be300689485b8ce4d2e2e5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 31/31] fix: keep fields alive in Python after K.gen().parent()

cppyy sets an attribute __lifeline itself when it returns a reference, so the
pointer that kept the field alive was dropped and the field was destroyed.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 7f9d960..e214fbc 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -131,7 +131,9 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # Do not call this __lifeline: cppyy overwrites that attribute when
+    # returning references, e.g., in K.gen().parent().
+    wrapped.__intrusive_ptr = K
 
     return wrapped
 
-- 
2.43.0

