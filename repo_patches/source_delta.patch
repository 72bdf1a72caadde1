From a2ec74f3a32aa7e80e46aac9ef64a74ae55aad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 01/59] fix: magnitude products and Comba squares keep no sign
 of the destination or operands

---
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_mul_toom3.c | 1 +
 src/mpi/mpi_sqr_comba.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..08c0fd0 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -61,6 +61,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         cry_mpi_swap(r, dst);
         cry_mpi_clear(dst);
     }
+    r->sign = 0;
     cry_mpi_adjust(r);
     return 0;
 }
diff --git a/src/mpi/mpi_mul_toom3.c b/src/mpi/mpi_mul_toom3.c
index b6ab707..cad1692 100644
--- a/src/mpi/mpi_mul_toom3.c
+++ b/src/mpi/mpi_mul_toom3.c
@@ -212,6 +212,7 @@ int cry_mpi_mul_toom3(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
     CRY_CHK(res = cry_mpi_add(&t1, &w2, &w3), e);
     CRY_CHK(res = cry_mpi_add(&t1, &w4, &t1), e);
     CRY_CHK(res = cry_mpi_add(r, &t1, r), e);
+    r->sign = 0;
 
 e:  cry_mpi_clear_list(&w0, &w1, &w2, &w3, &w4,
                        &a0, &a1, &a2, &b0, &b1,
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..f0d8f63 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -85,6 +85,7 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         cry_mpi_swap(r, dst);
         cry_mpi_clear(dst);
     }
+    r->sign = 0;
     cry_mpi_adjust(r);
 
     return res;
-- 
2.43.0


From 28ebfa2febebe2a7181d485e040bf14d1d9d8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 02/59] fix: right shift to zero does not leave a negative zero

---
 src/mpi/mpi_shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..8f47692 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0; /* there is no negative zero */
     return 0;
 }
-- 
2.43.0


From 8572bf3b5451facd4a5b7c4b762ba42221e39e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 03/59] fix: signed division: omitted remainder, exact
 quotients, aliasing and remainder sign

---
 src/mpi/mpi_div.c     | 29 ++++++++++++++++++++---------
 src/mpi/mpi_div_abs.c |  4 ++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..5de2cf6 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -3,12 +3,20 @@
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi tr, tb;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
-        return res;
+    if ((a->sign ^ b->sign) == 0)
+        return cry_mpi_div_abs(q, r, a, b);
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
+    /* The outputs can be missing and can alias the operands */
+    CRY_CHK(res = cry_mpi_init(&tr), e0);
+    CRY_CHK(res = cry_mpi_init_copy(&tb, b), e1);
+    CRY_CHK(res = cry_mpi_div_abs(q, &tr, a, b), e2);
+
+    if (q != NULL && !(cry_mpi_is_zero(q) && cry_mpi_is_zero(&tr)))
+        q->sign = 1;
+    if (!cry_mpi_is_zero(&tr)) {
         if (q != NULL) {
             cry_mpi one;
             cry_mpi_digit one_dig = 1;
@@ -16,11 +24,14 @@ int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
             one.sign = 0;
             one.used = one.alloc = 1;
             one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+            CRY_CHK(res = cry_mpi_sub(q, q, &one), e2);
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        CRY_CHK(res = cry_mpi_sub_abs(&tr, &tb, &tr), e2);
     }
-    return res;
+    if (r != NULL)
+        cry_mpi_swap(r, &tr);
+
+e2: cry_mpi_clear(&tb);
+e1: cry_mpi_clear(&tr);
+e0: return res;
 }
diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index d35150f..381e898 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -17,7 +17,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r=a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq)
@@ -88,7 +88,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r = a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr != NULL)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq != NULL)
-- 
2.43.0


From b4268194baa5025a772b55d2f6265417be20a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:03 +0000
Subject: [PATCH 04/59] fix: gcd with a zero or negative operand and failing
 steps

---
 src/mpi/mpi_gcd.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..71c439c 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -30,10 +30,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_copy(&tx, x)) != 0 ||
-        (res = cry_mpi_copy(&ty, y)) != 0)
+    if ((res = cry_mpi_abs(&tx, x)) != 0 ||
+        (res = cry_mpi_abs(&ty, y)) != 0)
         goto e;
 
+    /* gcd(0, y) = |y|, gcd(x, 0) = |x| */
+    if (cry_mpi_is_zero(&tx)) {
+        cry_mpi_swap(r, &ty);
+        goto e;
+    }
+    if (cry_mpi_is_zero(&ty)) {
+        cry_mpi_swap(r, &tx);
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
@@ -46,20 +56,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
-    cry_mpi_swap(r, &ty);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) == 0)
+        cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 4a9f11892c64cba85709f4c79c17705a0522e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:03 +0000
Subject: [PATCH 05/59] fix: lcm of negative numbers and of zeros

---
 src/mpi/mpi_lcm.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_lcm.c b/src/mpi/mpi_lcm.c
index 5a2904e..5e712a9 100644
--- a/src/mpi/mpi_lcm.c
+++ b/src/mpi/mpi_lcm.c
@@ -11,9 +11,14 @@ int cry_mpi_lcm(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&gcm, &prod, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_gcd(&gcm, x, y)) == 0)
-        if ((res = cry_mpi_mul(&prod, x, y)) == 0)
-            res = cry_mpi_div(r, 0, &prod, &gcm);
+    if ((res = cry_mpi_gcd(&gcm, x, y)) == 0) {
+        if ((res = cry_mpi_mul(&prod, x, y)) == 0) {
+            if (cry_mpi_is_zero(&prod))
+                cry_mpi_zero(r); /* lcm(x, 0) = 0 */
+            else
+                res = cry_mpi_div_abs(r, NULL, &prod, &gcm);
+        }
+    }
     cry_mpi_clear_list(&gcm, &prod, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 3f74fa06aa24a38fa5b76971c64e3a19d7a3e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:25 +0000
Subject: [PATCH 06/59] fix: modular power and inverse report failing steps,
 reduce every result and may alias the modulus

---
 src/mpi/mpi_inv.c     | 21 ++++++++++-----------
 src/mpi/mpi_mod_exp.c |  6 +++++-
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..824087a 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -17,19 +17,19 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CRY_CHK(ret = cry_mpi_copy(&r0, a), e);
+    CRY_CHK(ret = cry_mpi_copy(&r1, m), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s0, 1), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s1, 0), e);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CRY_CHK(ret = cry_mpi_div(&q, &r0, &r0, &r1), e);
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CRY_CHK(ret = cry_mpi_mul(&q, &q, &s1), e);
+        CRY_CHK(ret = cry_mpi_sub(&s0, &s0, &q), e);
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +37,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign)
+            CRY_CHK(ret = cry_mpi_mod(&s0, &s0, m), e);
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..ccaea83 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,11 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
+    /* the result is reduced also for a null exponent; refuses a null modulus */
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From 9182a51d5ad28b7ab7d43c1c84a562f58370cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:25 +0000
Subject: [PATCH 07/59] fix: binary modular inverse detects operands that are
 not coprime and reports failing steps

---
 src/mpi/mpi_inv.c | 68 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 25 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index 824087a..dd4c6c5 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -65,50 +65,68 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
 
     if ((res = cry_mpi_mod(&TA, x, m)) != 0)
         goto cleanup;
-    cry_mpi_copy(&TU, &TA);
-    cry_mpi_copy(&TB, m);
-    cry_mpi_copy(&TV, m);
+    if (cry_mpi_is_zero(&TA)) {
+        /* invertible only modulo 1 */
+        if (m->used == 1 && m->data[0] == 1)
+            cry_mpi_swap(r, &TA);
+        else
+            res = -1;
+        goto cleanup;
+    }
+    if (cry_mpi_is_even(&TA) && cry_mpi_is_even(m)) {
+        res = -1; /* not coprime */
+        goto cleanup;
+    }
+    CRY_CHK(res = cry_mpi_copy(&TU, &TA), cleanup);
+    CRY_CHK(res = cry_mpi_copy(&TB, m), cleanup);
+    CRY_CHK(res = cry_mpi_copy(&TV, m), cleanup);
 
-    cry_mpi_set_int(&U1, 1);
-    cry_mpi_set_int(&U2, 0);
-    cry_mpi_set_int(&V1, 0);
-    cry_mpi_set_int(&V2, 1);
+    CRY_CHK(res = cry_mpi_set_int(&U1, 1), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&U2, 0), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&V1, 0), cleanup);
+    CRY_CHK(res = cry_mpi_set_int(&V2, 1), cleanup);
 
     do {
         while (cry_mpi_is_even(&TU)) {
-            cry_mpi_shr(&TU, &TU, 1);
+            CRY_CHK(res = cry_mpi_shr(&TU, &TU, 1), cleanup);
             if (cry_mpi_is_odd(&U1) || cry_mpi_is_odd(&U2)) {
-                cry_mpi_add(&U1, &U1, &TB);
-                cry_mpi_sub(&U2, &U2, &TA);
+                CRY_CHK(res = cry_mpi_add(&U1, &U1, &TB), cleanup);
+                CRY_CHK(res = cry_mpi_sub(&U2, &U2, &TA), cleanup);
             }
-            cry_mpi_shr(&U1, &U1, 1);
-            cry_mpi_shr(&U2, &U2, 1);
+            CRY_CHK(res = cry_mpi_shr(&U1, &U1, 1), cleanup);
+            CRY_CHK(res = cry_mpi_shr(&U2, &U2, 1), cleanup);
         }
         while (cry_mpi_is_even(&TV)) {
-            cry_mpi_shr(&TV, &TV, 1);
+            CRY_CHK(res = cry_mpi_shr(&TV, &TV, 1), cleanup);
             if (cry_mpi_is_odd(&V1) || cry_mpi_is_odd(&V2)) {
-                cry_mpi_add(&V1, &V1, &TB);
-                cry_mpi_sub(&V2, &V2, &TA);
+                CRY_CHK(res = cry_mpi_add(&V1, &V1, &TB), cleanup);
+                CRY_CHK(res = cry_mpi_sub(&V2, &V2, &TA), cleanup);
             }
-            cry_mpi_shr(&V1, &V1, 1);
-            cry_mpi_shr(&V2, &V2, 1);
+            CRY_CHK(res = cry_mpi_shr(&V1, &V1, 1), cleanup);
+            CRY_CHK(res = cry_mpi_shr(&V2, &V2, 1), cleanup);
         }
         if (cry_mpi_cmp(&TU, &TV) >= 0) {
-            cry_mpi_sub(&TU, &TU, &TV);
-            cry_mpi_sub(&U1, &U1, &V1);
-            cry_mpi_sub(&U2, &U2, &V2);
+            CRY_CHK(res = cry_mpi_sub(&TU, &TU, &TV), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&U1, &U1, &V1), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&U2, &U2, &V2), cleanup);
         } else {
-            cry_mpi_sub(&TV, &TV, &TU);
-            cry_mpi_sub(&V1, &V1, &U1);
-            cry_mpi_sub(&V2, &V2, &U2);
+            CRY_CHK(res = cry_mpi_sub(&TV, &TV, &TU), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&V1, &V1, &U1), cleanup);
+            CRY_CHK(res = cry_mpi_sub(&V2, &V2, &U2), cleanup);
         }
     } while (TU.used != 0);
 
+    /* Check that the GCD is 1, necessary condition */
+    if (TV.used != 1 || TV.data[0] != 1) {
+        res = -1;
+        goto cleanup;
+    }
+
     while (V1.used && V1.sign)
-        cry_mpi_add(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_add(&V1, &V1, m), cleanup);
 
     while (cry_mpi_cmp(&V1, m) >= 0)
-        cry_mpi_sub(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_sub(&V1, &V1, m), cleanup);
 
     cry_mpi_swap(r, &V1);
 cleanup:
-- 
2.43.0


From 939dda05ede7d8829609888f30b81f41c94d445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 08/59] fix: loading bytes into a negative big integer keeps no
 sign

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From d1f76d7473bcad6a2bcbaecff46772b545c35bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 09/59] fix: conversion from and to machine integers at the
 limits of long

---
 src/mpi/mpi_core.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..8f63207 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0 - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,11 +100,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (used > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +112,16 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* consider the sign bit */
+    if (a->sign == 0) {
+        if (rval > LONG_MAX)
+            return -1;
+        *val = (long)rval;
+    } else {
+        if (rval > (unsigned long)LONG_MAX + 1)
+            return -1;
+        *val = (rval == 0) ? 0 : -(long)(rval - 1) - 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From ca69cf3fd8d1cd170289c5fbc82e19610e47c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 10/59] fix: loading text rejects characters that are not
 digits of the radix

---
 src/mpi/mpi_str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..0754ce7 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -5,17 +5,22 @@
 #define ASC_TO_RAW_CHAR(c) \
     (('0' <= (c) && (c) <= '9') ?  ((c) - '0') : \
      ('a' <= (c) && (c) <= 'z') ? (((c) - 'a') + 10) : \
-     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0)
+     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0xff)
 
 static int load_str_hex(cry_mpi *a, const char *s)
 {
     int res;
-    size_t i = 0, j = 0;
+    size_t i, j = 0;
     unsigned char *bin;
     char first = 0;
     size_t siz, len;
 
     len = strlen(s);
+    for (i = 0; i < len; i++) {
+        if (ASC_TO_RAW_CHAR(s[i]) > 15)
+            return -1; /* not an hexadecimal digit */
+    }
+    i = 0;
     siz = len >> 1;
     if ((len & 0x01) != 0) {
         len--;
-- 
2.43.0


From 313f3fb951277dfe8c7fe8720fe314d966d463b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:23 +0000
Subject: [PATCH 11/59] fix: buffer size for printing big integers with a radix
 lower than 16

---
 src/mpi/mpi_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..266b4ce 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,7 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    len = cry_mpi_count_bits(a) + 3; /* radix 2 digits, NULL and sign */
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From a5240b9004e8e8205582f0b100e038a2b31df6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:26 +0000
Subject: [PATCH 12/59] fix: random integers have the requested length also
 when the top random bytes are zero

---
 src/mpi/mpi_rand.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..754e7f3 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -8,7 +8,7 @@
 int cry_mpi_rand(cry_mpi *r, size_t bits)
 {
     int res;
-    size_t digs, msb, siz;
+    size_t msb, siz;
     unsigned char *bin;
 
     if (bits == 0) {
@@ -20,14 +20,11 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         return -1;
     if ((res = cry_prng_aes_rand(bin, siz)) != 0)
         goto e;
-    if ((res = cry_mpi_load_bin(r, bin, siz)) != 0)
-        goto e;
 
-    digs = CRY_MPI_BITS_TO_DIGS(bits);
-    msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
-    if (msb < CRY_MPI_DIGIT_BITS)
-        r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-    r->data[digs-1] |= ((cry_mpi_digit)1 << (msb - 1));   /* Set the msb */
+    msb = (bits - 1) & 7;
+    bin[0] &= (unsigned char)((2u << msb) - 1); /* Clear extra bits */
+    bin[0] |= (unsigned char)(1u << msb);       /* Set the msb */
+    res = cry_mpi_load_bin(r, bin, siz);
 
 e:  free(bin);
     return res;
-- 
2.43.0


From 7aa3fb1661b2ff386372dae5fb6363ea1926f6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:44 +0000
Subject: [PATCH 13/59] fix: primality of numbers lower than two, of two and
 with a degenerate random base

---
 src/mpi/mpi_prime.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..c690e1e 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -144,8 +144,16 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
+    /* Initialize a as a random number in [2, p-2] (here p > 4) */
+    if ((res = cry_mpi_set_int(&z, 3)) < 0)
+        goto e;
+    if ((res = cry_mpi_sub(&tmp, p, &z)) < 0)
+        goto e;
+    if ((res = cry_mpi_rand_range(&a, &tmp)) < 0)
+        goto e;
+    if ((res = cry_mpi_add(&a, &a, &one)) < 0)
+        goto e;
+    if ((res = cry_mpi_add(&a, &a, &one)) < 0)
         goto e;
 
     /* z = a^m mod p */
@@ -195,6 +203,13 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    /* Numbers lower than two are not prime, two is the only even prime */
+    if (cry_mpi_is_neg(p) || cry_mpi_is_zero(p) ||
+        (p->used == 1 && p->data[0] == 1))
+        return 0;
+    if (!cry_mpi_is_odd(p))
+        return (p->used == 1 && p->data[0] == 2) ? 1 : 0;
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 6f467cb0604995c87995cf22ff05c4c1293e921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:44 +0000
Subject: [PATCH 14/59] fix: a prime found at the last allowed iteration is a
 success

---
 src/mpi/mpi_prime.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index c690e1e..4e0d296 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -274,9 +274,8 @@ int cry_mpi_prime(cry_mpi *p, size_t bits, unsigned int *iter)
             res = 0;
             break;
         }
+        res = -1; /* Not found yet */
     }
-    if (i == itermax)
-        res = -1;
     if (iter)
         *iter = i;
     return res;
-- 
2.43.0


From d73e1030898a2b3b2d559efc57c65905cf759710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:09 +0000
Subject: [PATCH 15/59] fix: doubling a point of order two gives the point at
 infinity

---
 src/ecp/ecp_dbl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..d12ebf2 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -26,11 +26,16 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
 
     CHK(cry_mpi_set_int(&den, 2));          /* den =  2 */
     CHK(cry_mpi_mul(&den, &den, &p1->y));   /* den =  2 * y1 */
+    CHK(cry_mpi_mod(&den, &den, &grp->p));
+    if (cry_mpi_is_zero(&den)) {            /* Point with order two */
+        cry_ecp_set_zero(pr);
+        goto e;
+    }
     CHK(cry_mpi_inv(&den, &den, &grp->p));  /* den = (2 * y1)^(-1) (mod p) */
     CHK(cry_mpi_mod(&den, &den, &grp->p));
 
     CHK(cry_mpi_mul(&lam, &num, &den));     /* lam = num / den */
-    CHK(cry_mpi_mod(&den, &den, &grp->p));
+    CHK(cry_mpi_mod(&lam, &lam, &grp->p));
 
     CHK(cry_mpi_sqr(&r.x, &lam));           /* x =  lam^2 */
     CHK(cry_mpi_mod(&r.x, &r.x, &grp->p));
-- 
2.43.0


From e9dd5ba6ce11dc8596141f68b86ad3f57fc1bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:09 +0000
Subject: [PATCH 16/59] fix: scalar multiplication reports a failing allocation
 of the window

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From f2055f5e80776df5f4c964a12181cb2b2e7b5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:09 +0000
Subject: [PATCH 17/59] fix: setting a point to infinity does not depend on an
 allocation

---
 include/cry/ecp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cry/ecp.h b/include/cry/ecp.h
index 48cb7cf..4087b6a 100644
--- a/include/cry/ecp.h
+++ b/include/cry/ecp.h
@@ -80,7 +80,7 @@ void cry_ecp_clear_list(cry_ecp *p, ... /* (cry_ecp *)NULL */);
 #define cry_ecp_set_zero(p) do { \
     cry_mpi_set_int(&(p)->x, 1); \
     cry_mpi_set_int(&(p)->y, 1); \
-    cry_mpi_set_int(&(p)->z, 0); \
+    cry_mpi_zero(&(p)->z); \
 } while (0)
 
 #define cry_ecp_swap(a, b) do {     \
-- 
2.43.0


From 6504e8e3b6a2873935b62eca8abf781493e1577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:09 +0000
Subject: [PATCH 18/59] fix: curve parameters are loaded without leading zero
 digits

---
 src/ecp/ecp_curves.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecp/ecp_curves.c b/src/ecp/ecp_curves.c
index 4b754ac..0a6cd2d 100644
--- a/src/ecp/ecp_curves.c
+++ b/src/ecp/ecp_curves.c
@@ -610,6 +610,8 @@ static void ecp_mpi_load(cry_mpi *n, const cry_mpi_digit *d, size_t dlen)
     n->data  = (cry_mpi_digit *)d;
     n->alloc = 0;
     n->used  = dlen / sizeof(cry_mpi_digit);
+    while (n->used > 0 && d[n->used - 1] == 0)
+        n->used--;
     n->sign  = 0;
 }
 
-- 
2.43.0


From c24f4f0f5267856b22f7ed0eda7c2cd7c26f72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 19/59] fix: AES encryption after a decryption with the same
 key

---
 src/crypt/aes.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..696dbd6 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -348,27 +348,35 @@ static const uint32_t mtab[256] = {
 
 static void key_invert(cry_aes_ctx *ctx)
 {
-    unsigned int i, j, k, nr;
+    unsigned int i, j, k, n, nr;
     uint32_t key, newkey, tmp;
 
     nr = ctx->nr & ~DECRYPT_STATE;
+    /*
+     * The inverse MixColumns transformation has order four, thus to go back
+     * to the encryption key schedule it has to be applied three times.
+     */
+    n = (ctx->nr & DECRYPT_STATE) ? 3 : 1;
     for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
         for (k = 0; k < 4; k++)
             CRY_SWAP(ctx->keys[i+k], ctx->keys[j+k]);
     }
 
     for (i = 4; i < 4 * nr; i++) {
-        key = ctx->keys[i];
-        newkey = mtab[key & 0xff];
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 8);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 16);
-        key >>= 8;
-        tmp = mtab[key & 0xff];
-        newkey ^= CRY_ROTL32(tmp, 24);
+        newkey = ctx->keys[i];
+        for (k = 0; k < n; k++) {
+            key = newkey;
+            newkey = mtab[key & 0xff];
+            key >>= 8;
+            tmp = mtab[key & 0xff];
+            newkey ^= CRY_ROTL32(tmp, 8);
+            key >>= 8;
+            tmp = mtab[key & 0xff];
+            newkey ^= CRY_ROTL32(tmp, 16);
+            key >>= 8;
+            tmp = mtab[key & 0xff];
+            newkey ^= CRY_ROTL32(tmp, 24);
+        }
         ctx->keys[i] = newkey;
     }
 }
-- 
2.43.0


From 426f489ec80f2242f07899bfb16b44dd9d775164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 20/59] fix: CBC decryption of an empty message

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From fdef8ba321e877e2a1cba69a426ceac91ecab309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 21/59] fix: in-place CTR with a block shorter than sixteen
 bytes

---
 src/crypt/ctr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..40ad323 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -46,7 +46,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     unsigned char buf[BUF_LEN];
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
-    size_t n;
+    size_t n, buf_len;
     unsigned char *p;
 
     if (src != dst) {
@@ -66,18 +66,19 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
             cry_memxor2(dst + len - n, src + len - n, buf, n);
         }
     } else {
-        while (len >= BUF_LEN) {
+        buf_len = ctx->ctrlen * BUF_BLOCKS;
+        while (len >= buf_len) {
             p = buf;
             for (n = 0; n < BUF_BLOCKS; n++) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
             }
-            encrypt(ciph, buf, buf, BUF_LEN);
-            cry_memxor2(dst, src, buf, BUF_LEN);
-            len -= BUF_LEN;
-            src += BUF_LEN;
-            dst += BUF_LEN;
+            encrypt(ciph, buf, buf, buf_len);
+            cry_memxor2(dst, src, buf, buf_len);
+            len -= buf_len;
+            src += buf_len;
+            dst += buf_len;
         }
 
         if (len != 0) {
-- 
2.43.0


From 8a1b4fd1dc799aa11838ad15819db6668b3d9b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 22/59] fix: CFB decryption chains the ciphertext and a short
 tail reads nothing outside of the buffers

---
 include/cry/cfb.h | 21 +++++++--------------
 src/crypt/cfb.c   | 25 ++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..b600aa9 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -74,17 +74,6 @@ void cry_cfb_key_set(struct cry_cfb_ctx *ctx, const unsigned char *key,
 void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
-/**
- * Encrypt/Decrypt function.
- *
- * @param ctx   CFB context.
- * @param dst   Destination pointer.
- * @param src   Source pointer.
- * @param size  Size of source/destination.
- */
-void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
-                   const unsigned char *src, size_t size);
-
 /**
  * Encryption function.
  *
@@ -93,7 +82,11 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (cleartext).
  * @param size  Size of cleartext.
  */
-#define cry_cfb_encrypt cry_cfb_crypt
+void cry_cfb_encrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
+
+/** Old name of the encryption function. */
+#define cry_cfb_crypt cry_cfb_encrypt
 
 /**
  * Decryption function.
@@ -103,8 +96,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
-
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 /**
  * Encryption function.
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..cb54126 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -37,8 +37,8 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
     memset(ctx->v + ctx->vlen, 0, CRY_CFB_BLOCK_MAX - ctx->vlen);
 }
 
-void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
-                   const unsigned char *src, size_t len)
+void cry_cfb_encrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
 {
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
@@ -55,7 +55,26 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        memcpy(ctx->v, src, n);
+        cry_memxor2(dst, src, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
-- 
2.43.0


From 07f2851e77618320735f43fe926cc97a7867f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:05 +0000
Subject: [PATCH 23/59] fix: CFB-8 decryption keeps the shift register between
 calls

---
 src/crypt/cfb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index cb54126..ff2b198 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -120,8 +120,10 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
-        memcpy(buf, buf + ctx->vlen, ctx->vlen);
-        memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
+        if (len != 0) {
+            memcpy(buf, buf + ctx->vlen, ctx->vlen);
+            memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
+        }
     }
     memcpy(ctx->v, buf + i, ctx->vlen);
 }
-- 
2.43.0


From dd2cd08fb25400ce39a744fc688a7c4f13f69f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:40 +0000
Subject: [PATCH 24/59] fix: GCM authenticates the lengths as 64 bit values

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 7efa242d1db32989247d9d54325500d12c615530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:11 +0000
Subject: [PATCH 25/59] fix: SHA-512 padding of messages that end in the last
 sixteen bytes of a block

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From ac090076f60eb7702573e0a450ddf7838512f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:11 +0000
Subject: [PATCH 26/59] fix: message length of hash updates longer than four
 gigabytes

---
 src/hash/md5.c    | 2 +-
 src/hash/sha1.c   | 1 +
 src/hash/sha512.c | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..0c7fa49 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)((uint64_t)size >> 29); /* carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From e9def27b7a4cc76fdaa333c4b3164e115e89dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 27/59] fix: AES key wrap step counters larger than one byte

---
 src/utils/aes_wrap.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..2bbeb44 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,17 @@
 
 #define INIT_VAL    0xA6
 
+/* Mix the (64 bit big-endian) step counter into the check block */
+static void step_xor(unsigned char *a, size_t t)
+{
+    size_t i;
+
+    for (i = 8; i > 0 && t != 0; i--) {
+        a[i - 1] ^= (unsigned char)t;
+        t >>= 8;
+    }
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -41,7 +52,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            step_xor(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -70,7 +81,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            step_xor(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From d226e24b59091016932defcbeb1ea9902e8dc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 28/59] fix: base64 encoding and decoding of nothing

---
 src/crypt/base64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..0fb3e1a 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,7 +7,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
-    do {
+    while (len != 0) {
         outlen += 4;
 
         i = (in[0] & 0xFC) >> 2;
@@ -36,7 +36,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 
         in += 3;
         len -= 3;
-    } while (len != 0);
+    }
     return outlen;
 }
 
@@ -66,7 +66,7 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
 
-    do {
+    while (len != 0) {
         for (i = 0; i < 4; i++) {
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
@@ -91,6 +91,6 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
         in += 4;
         len -= 4;
-    } while (len != 0);
+    }
     return outlen;
 }
-- 
2.43.0


From 17943708e41b04b2edb58b691839c974476a30f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 29/59] fix: base64 decoding rejects misplaced padding

---
 src/crypt/base64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 0fb3e1a..86e63e3 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -71,6 +71,9 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
                 return -1;
+            /* padding is only allowed at the end of the text */
+            if (in[i] == '=' && (len != 4 || i < 2 || in[3] != '='))
+                return -1;
         }
 
         *out++ = unbase64[(int)in[0]] << 2 |
-- 
2.43.0


From fb3ea8530a21bf0a3f5911fab16e06e77cae711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 30/59] fix: LFSR113 seeding clears exactly the generator state

---
 src/prng/prng_lfsr113.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1ce5682 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,7 +37,7 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
     if (z[0] < 1)
-- 
2.43.0


From 46190b8cf5fa3af115719b993c05c9faea3958c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:44 +0000
Subject: [PATCH 31/59] fix: LFSR113 seeds shall be larger than 1, 7, 15 and
 127

---
 src/prng/prng_lfsr113.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 1ce5682..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -40,13 +40,13 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From bb4cc95fb797c80637d9a4400d17e9e608259ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 32/59] fix: rotation of the result when the destination spans
 both sources of a xor

---
 src/crypt/memxor.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..7ac5ac3 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -2,6 +2,17 @@
 #include <string.h>
 #include <stdlib.h>
 
+static void reverse(unsigned char *buf, size_t n)
+{
+    size_t i;
+    unsigned char t;
+
+    for (i = 0; i < n / 2; i++) {
+        t = buf[i];
+        buf[i] = buf[n - 1 - i];
+        buf[n - 1 - i] = t;
+    }
+}
 
 /* In the four cases below, we assume src1 <= src2.
  * The input pointers are eventually swapped internally.
@@ -53,7 +64,7 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
     size_t i, j;
-    unsigned char *tmp, t;
+    unsigned char *tmp;
     size_t n = size;
 
     if (src2 < src1) {
@@ -80,15 +91,11 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
+        /* Now rotate the dst buffer */
         j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
-            t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
-        }
+        reverse(dst, j);
+        reverse(dst + j, n - j);
+        reverse(dst, n);
     } else {
         /* Case 4 */
         tmp = malloc(n);
-- 
2.43.0


From 1ce2dfa5b5b5098b807633298a823a6654c4b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:11 +0000
Subject: [PATCH 33/59] fix: Affine and Hill refuse an empty key

---
 src/crypt/affine.c | 2 ++
 src/crypt/hill.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..1df1d2c 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -193,6 +193,8 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
     memset(ctx, 0, sizeof(*ctx));
 
     ctx->n = keylen_trim(&keylen);
+    if (ctx->n == 0)
+        return -1;
 
     if (key != NULL)
         memcpy(ctx->key, key, keylen);
-- 
2.43.0


From fbcba9137c72ead44863a9230d935dbe1ab7c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 34/59] fix: RSA decryption of several blocks appends them

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..0df199a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From 477a78dac21467ddb8c1cfd266b4e3c8b10f28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 35/59] fix: RSA empty messages take one block, an empty
 ciphertext or signature is an error

---
 src/crypt/rsa.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0df199a..fa2b2c7 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -183,7 +183,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     mod_siz = cry_mpi_count_bytes(&ctx->n);
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
-    while (inlen) {
+    do {
         if (inlen < block_siz)
             block_siz = inlen;
 
@@ -201,7 +201,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         *outlen += mod_siz;
         inlen -= block_siz;
         in += block_siz;
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
@@ -224,7 +224,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
 
-    while (inlen > 0) {
+    do {
         if (inlen < mod_siz) {
             /* Input must be an even multiple of key modulus */
             res = -1;
@@ -245,7 +245,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         inlen -= mod_siz;
         in += mod_siz;
         res = 0; /* decrypt block returns the number of decrypted bytes */
-    }
+    } while (inlen > 0);
 
     if (res != 0) {
         if (*out != NULL) {
-- 
2.43.0


From 4eb6c099d506abbf389e7a246cc01e58a96b0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 36/59] fix: RSA padding requires a modulus longer than eleven
 bytes

---
 src/crypt/rsa.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index fa2b2c7..9ef5254 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -181,7 +181,12 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
-    block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
+    block_siz = mod_siz;
+    if (ctx->padding != CRY_RSA_PADDING_NONE) {
+        if (mod_siz <= 11)
+            return -1; /* no room for the padding */
+        block_siz -= 11;
+    }
 
     do {
         if (inlen < block_siz)
-- 
2.43.0


From c52e9a12c778ee03dbc3b30939991495370fd8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 37/59] fix: RSA rejects unsupported paddings and paddings
 shorter than eight bytes

---
 src/crypt/rsa.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 9ef5254..47ee211 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -49,6 +49,7 @@ static int padding_add(unsigned char *dst, size_t dlen,
         res = -1;
         break;
     default:
+        res = -1;
         break;
     }
     if (res != 0)
@@ -65,7 +66,8 @@ static int padding_del(unsigned char *dst, size_t dlen,
 {
     size_t i;
 
-    (void)padding; /* unused */
+    if (padding != CRY_RSA_PADDING_PKCS_V15)
+        return -1;
 
     if (src[0] != 0 || (sign != 0 && src[1] != 0x01) ||
         (sign == 0 && src[1] != 0x02))
@@ -80,8 +82,8 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
-        return -1;
+    if (i == slen || i < 10)
+        return -1; /* no data or less than eight padding bytes */
     i++; /* skip zero */
     if (slen - i < dlen)
         dlen = slen - i;
-- 
2.43.0


From 301b8845bc9b35a737266f51599c7bbed763b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 38/59] fix: RSA ciphertexts and signatures not lower than the
 modulus are rejected

---
 src/crypt/rsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 47ee211..94fdb8d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -155,6 +155,11 @@ static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&c, in, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&c, &ctx->n) >= 0) {
+        /* Representative out of range */
+        res = -1;
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&m, &c, key, &ctx->n)) != 0)
         goto e1;
     if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
-- 
2.43.0


From 40d55acb5b557ce39f671c4163b83b02eace6303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 39/59] fix: RSA schoolbook signature of a message is not a
 signature of its prefixes

---
 src/crypt/rsa.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 94fdb8d..0420d48 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -294,15 +294,25 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
 {
     int res;
     unsigned char *out;
-    size_t outlen;
+    size_t i, outlen, mod_siz;
 
     res = decrypt(ctx, &out, &outlen, sig, siglen, 1);
     if (res == 0) {
-        if ((ctx->padding == CRY_RSA_PADDING_NONE && outlen < inlen) ||
-            (ctx->padding != CRY_RSA_PADDING_NONE && outlen != inlen) ||
-            memcmp(out, in, inlen) != 0) {
-            res = -1;
+        if (ctx->padding != CRY_RSA_PADDING_NONE) {
+            if (outlen != inlen)
+                res = -1;
+        } else {
+            /* The message is followed by zeros up to the end of its block */
+            mod_siz = cry_mpi_count_bytes(&ctx->n);
+            if (outlen < inlen || (outlen > mod_siz && outlen - inlen >= mod_siz))
+                res = -1;
+            for (i = inlen; res == 0 && i < outlen; i++) {
+                if (out[i] != 0)
+                    res = -1;
+            }
         }
+        if (res == 0 && memcmp(out, in, inlen) != 0)
+            res = -1;
         free(out);
     }
     return res;
-- 
2.43.0


From e4feff1a93f7cebeeb05d595a00cdee8e3eb2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:24 +0000
Subject: [PATCH 40/59] fix: RSA key generation computes the private exponent
 and reports a failing search

---
 src/crypt/rsa.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0420d48..386e5b1 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -334,6 +334,8 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
     one.data = &one_dig;
 
     if (e != 0) {
+        if (e < 3 || (e & 1) == 0)
+            return -1; /* never a useful exponent */
         if ((res = cry_mpi_set_int(&ctx->e, e)) != 0)
             return res;
     }
@@ -347,7 +349,7 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
         if ((res = cry_mpi_prime(&ctx->p, bits >> 1, &i)) != 0)
             break;
         i = MAX_ITER;
-        if ((res = cry_mpi_prime(&ctx->q, bits >> 1, &i)) != 0)
+        if ((res = cry_mpi_prime(&ctx->q, bits - (bits >> 1), &i)) != 0)
             break;
         if (cry_mpi_cmp(&ctx->q, &ctx->p) == 0)
             continue;
@@ -370,6 +372,13 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    if (res == 0) {
+        if (j < MAX_ITER)
+            res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+        else
+            res = -1; /* no suitable primes found */
+    }
+
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 6121cbd0ed3dfacac1941e2d25997afc02ef09b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 41/59] fix: DSA operations report failing steps

---
 src/crypt/dsa.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..61c6f34 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +166,9 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((res = cry_mpi_is_prime(&ctx->p)) < 0)
+                goto e;
+            if (res != 0)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -186,10 +189,11 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             continue; /* Retry */
         /* Finally compute public and public keys */
         cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
+    if (i == ITER_MAX_OUT)
+        res = -1;
+e:  cry_mpi_clear_list(&p1, &q, &r, &one, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From d77908d6cb5b2040bc66e876233b5f2187368f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 42/59] fix: DSA private key is not zero and lower than q

---
 src/crypt/dsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 61c6f34..125c3bb 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -188,7 +188,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
         CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-- 
2.43.0


From f924780cc607867b3511bd740cd8975b4f2df7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 43/59] fix: DSA verification rejects signatures out of range

---
 src/crypt/dsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 125c3bb..d60f7fd 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -96,6 +96,15 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
     CHK(cry_mpi_load_bin(&z, in, len));
 
+    /* r and s shall be greater than zero and lower than q */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_cmp(&sig->s, &ctx->q) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
     CHK(cry_mpi_inv(&w, &w, &ctx->q));
-- 
2.43.0


From a7158b0ef1bffb5995fdc952de6ee1a27e528c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 44/59] fix: DSA truncates the message to the bit length of q

---
 src/crypt/dsa.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index d60f7fd..9c223b5 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,23 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * The message is truncated to its leftmost bits up to the bit length of q.
+ */
+static int digest_load(cry_mpi *z, const cry_mpi *q,
+                       const unsigned char *in, size_t len)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(q);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,9 +77,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, &ctx->q, in, len));
 
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
@@ -92,9 +107,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, &ctx->q, in, len));
 
     /* r and s shall be greater than zero and lower than q */
     if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
-- 
2.43.0


From aaba920982999fda4648333a038b83962bc5b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 45/59] fix: DSA signing retries when a part of the signature
 is zero

---
 src/crypt/dsa.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 9c223b5..adf8d5d 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,6 +2,9 @@
 #include "../misc.h"
 
 
+#define ITER_MAX_OUT    1024
+#define ITER_MAX_IN     4096
+
 #define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
@@ -72,6 +75,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
 {
     int res;
     cry_mpi k, z;
+    unsigned int i;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
         return res;
@@ -79,19 +83,27 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of q */
     CHK(digest_load(&z, &ctx->q, in, len));
 
-    /* k = c mod (q-1) + 1 */
-    CHK(secret_gen(&k, &ctx->q));
-
-    /* r = (g^k mod p) mod q */
-    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
-    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
-
-    /* s = (inv(k) * (z + d*r)) mod q */
-    CHK(cry_mpi_inv(&k, &k, &ctx->q));
-    CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
-    CHK(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+    for (i = 0; i < ITER_MAX_OUT; i++) {
+        /* k = c mod (q-1) + 1 */
+        CHK(secret_gen(&k, &ctx->q));
+
+        /* r = (g^k mod p) mod q */
+        CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
+        CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
+        if (cry_mpi_is_zero(&sig->r))
+            continue; /* Retry with another secret */
+
+        /* s = (inv(k) * (z + d*r)) mod q */
+        CHK(cry_mpi_inv(&k, &k, &ctx->q));
+        CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
+        CHK(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        if (!cry_mpi_is_zero(&sig->s))
+            break;
+    }
+    if (i == ITER_MAX_OUT)
+        res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
@@ -156,9 +168,6 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
     cry_memset(ctx, 0, sizeof(*ctx));
 }
 
-#define ITER_MAX_OUT    1024
-#define ITER_MAX_IN     4096
-
 /*
  * Assume l=8
  * 1. Generate a random prime q such that 2^150 < q < 2^160
-- 
2.43.0


From 9e9a12671ab1a78bbdb6a632194fe9b46af3ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 46/59] fix: ECDSA reports failing steps and clears only what
 it initialised

---
 src/crypt/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From d6fc5cf3b2db19a1b9c380b6e51209268cb96e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 47/59] fix: ECDSA verification rejects signatures out of range
 and the point at infinity

---
 src/crypt/ecdsa.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..5fc3e61 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -65,6 +65,15 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
     CHK1(cry_mpi_load_bin(&z, in, len));
 
+    /* r and s shall be greater than zero and lower than n */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
+        cry_mpi_is_zero(&sig->s) || cry_mpi_is_neg(&sig->s) ||
+        cry_mpi_cmp(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_cmp(&sig->s, &ctx->grp.n) >= 0) {
+        res = -1;
+        goto e1;
+    }
+
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
     CHK1(cry_mpi_inv(&w, &w, &ctx->grp.n));
@@ -81,6 +90,10 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&G, &ctx->grp.g, &z, &ctx->grp));
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
 
     /* r = x1 mod n */
     CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
-- 
2.43.0


From 7132efb3c6cddc3a3829389962bdfec1309cb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 48/59] fix: ECDSA truncates the message to the bit length of n

---
 src/crypt/ecdsa.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 5fc3e61..ac2d9ff 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,6 +4,23 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * The message is truncated to its leftmost bits up to the bit length of n.
+ */
+static int digest_load(cry_mpi *z, const cry_mpi *n,
+                       const unsigned char *in, size_t len)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -15,10 +32,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init(&X));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(digest_load(&z, &ctx->grp.n, in, len));
 
     /* This should be a random number between 0 and n-1 */
 #if 0
@@ -60,10 +75,8 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(digest_load(&z, &ctx->grp.n, in, len));
 
     /* r and s shall be greater than zero and lower than n */
     if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_neg(&sig->r) ||
-- 
2.43.0


From b6eb4e93ab60f54e50a14b4670379be7c665b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:21 +0000
Subject: [PATCH 49/59] fix: ECDSA secrets and signature parts are never zero
 and r is reduced modulo n

---
 src/crypt/ecdsa.c | 65 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index ac2d9ff..26af3d8 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -1,6 +1,8 @@
 #include <cry/ecdsa.h>
 #include "mpi/mpi_pvt.h"
 
+#define ITER_MAX  1024
+
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
@@ -21,12 +23,30 @@ static int digest_load(cry_mpi *z, const cry_mpi *n,
     return res;
 }
 
+/*
+ * Random secret greater than zero and lower than n.
+ */
+static int secret_gen(cry_mpi *k, const cry_mpi *n)
+{
+    int res;
+    unsigned int i;
+
+    for (i = 0; i < ITER_MAX; i++) {
+        if ((res = cry_mpi_rand_range(k, n)) != 0)
+            return res;
+        if (!cry_mpi_is_zero(k))
+            return 0;
+    }
+    return -1;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
     cry_mpi k, z;
     cry_ecp X;
+    unsigned int i;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
         return res;
@@ -35,29 +55,26 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of n */
     CHK1(digest_load(&z, &ctx->grp.n, in, len));
 
-    /* This should be a random number between 0 and n-1 */
-#if 0
-    unsigned char K[] = {
-        0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
-        0xA4, 0x01, 0x51, 0x0E, 0xE7, 0xAD, 0xA3, 0xDC, 0xC5, 0xDE, 0xE0,
-        0x4B, 0x15, 0x4B, 0xF6, 0x1A, 0xF1, 0xD5, 0xA6, 0xDE, 0xCE
-    };
-    CHK1(cry_mpi_load_bin(&k, K, sizeof(K)));
-#else
-    CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
-#endif
-
-    CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
-
-    /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
-
-    /* s = (inv(k) * (z + r*d)) mod n */
-    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
-    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
-    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+    for (i = 0; i < ITER_MAX; i++) {
+        CHK1(secret_gen(&k, &ctx->grp.n));
+        CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
+
+        /* r = x mod n */
+        CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
+        if (cry_mpi_is_zero(&sig->r))
+            continue; /* Retry with another secret */
+
+        /* s = (inv(k) * (z + r*d)) mod n */
+        CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
+        CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
+        CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+        if (!cry_mpi_is_zero(&sig->s))
+            break;
+    }
+    if (i == ITER_MAX)
+        res = -1;
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
@@ -149,7 +166,7 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
+    if ((res = secret_gen(&ctx->d, &ctx->grp.n)) == 0)
         res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
     return res;
 }
-- 
2.43.0


From 16f2e2202a8cea4626355aa813e92c1bb53c8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:05 +0000
Subject: [PATCH 50/59] fix: ElGamal verification rejects signatures out of
 range

---
 src/crypt/elgamal.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..affb0aa 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -97,14 +97,25 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
                         const unsigned char *in, size_t len)
 {
     int res;
-    cry_mpi r, z;
+    cry_mpi r, z, t;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
-    if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
+    if ((res = cry_mpi_init_list(&r, &z, &t, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* Shall be 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_set_int(&t, 1));
+    CHK(cry_mpi_sub(&t, &ctx->p, &t));
+    if (cry_mpi_is_zero(&sign->r) || cry_mpi_is_neg(&sign->r) ||
+        cry_mpi_is_zero(&sign->s) || cry_mpi_is_neg(&sign->s) ||
+        cry_mpi_cmp(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_cmp(&sign->s, &t) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
@@ -117,7 +128,7 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
     if (res != 0)
         res = -1;
 
-e:  cry_mpi_clear_list(&r, &z, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r, &z, &t, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 45f30c1eafde447541af189d0d7476e1b4f5970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:05 +0000
Subject: [PATCH 51/59] fix: ElGamal signing retries when the second part is
 zero

---
 src/crypt/elgamal.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index affb0aa..4d9889f 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -59,6 +59,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     int res;
     cry_mpi one, k, z, t;
     cry_mpi_digit dig = 1;
+    unsigned int i;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
@@ -74,20 +75,27 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
 
-    /* gcd(k, p-1) = 1 */
-    CHK(secret_gen(&k, &t, &one));
-
-    /* r */
-    CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
-
-    /* s */
     CHK(cry_mpi_load_bin(&z, in, len));
-    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
-    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
-    CHK(cry_mpi_inv(&k, &k, &t));
-    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+
+    for (i = 0; i < MAX_ITER; i++) {
+        /* gcd(k, p-1) = 1 */
+        CHK(secret_gen(&k, &t, &one));
+
+        /* r */
+        CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+
+        /* s */
+        CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
+        CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        CHK(cry_mpi_inv(&k, &k, &t));
+        CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        if (!cry_mpi_is_zero(&sign->s))
+            break; /* otherwise it discloses the secret key */
+    }
+    if (i == MAX_ITER)
+        res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 56a0d2c4d8905366960574f594accca2666b48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:05 +0000
Subject: [PATCH 52/59] fix: ECDH initialisation reports failing allocations

---
 src/crypt/ecdh.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..787cebd 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,19 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) != 0)
+        goto e0;
+    if ((res = cry_ecp_init_list(&ctx->q, &ctx->z, (cry_ecp *)NULL)) != 0)
+        goto e1;
     return 0;
+
+e1: cry_mpi_clear(&ctx->d);
+e0: cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 160467da459d3ceb158bb8e22af2544632b7a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:00 +0000
Subject: [PATCH 53/59] fix: cover the whole range in random integers below a
 bound

The top bit was always set before the reduction, thus the values between
2^n - max and 2^(n-1) were never generated.
---
 src/mpi/mpi_rand.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index 754e7f3..c05b3f2 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -30,15 +30,16 @@ e:  free(bin);
     return res;
 }
 
+/*
+ * Generate a random integer lower than max.
+ * The top bit of the value to reduce is always set, thus some extra random
+ * bits are required to get all the values with about the same probability.
+ */
 int cry_mpi_rand_range(cry_mpi *a, const cry_mpi *max)
 {
     int res;
-    size_t n;
 
-    n = cry_mpi_count_bits(max);
-    if ((res = cry_mpi_rand(a, n)) == 0) {
-        if (cry_mpi_cmp_abs(a, max) >= 0)
-            res = cry_mpi_mod(a, a, max);
-    }
+    if ((res = cry_mpi_rand(a, cry_mpi_count_bits(max) + 64)) == 0)
+        res = cry_mpi_mod(a, a, max);
     return res;
 }
-- 
2.43.0


From dfc2b3b96e82f4fe53d3a52682a24651f2719293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:08 +0000
Subject: [PATCH 54/59] fix: cover the whole range in DSA secrets

The random value always had its top bit set before the reduction.
---
 src/crypt/dsa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index adf8d5d..3c17f9c 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -46,8 +46,7 @@ static int secret_gen(cry_mpi *k, const cry_mpi *q)
 
     CHK(cry_mpi_copy(&t, q));
     CHK(cry_mpi_sub(&t, &t, &one));
-    CHK(cry_mpi_rand(k, cry_mpi_count_bits(q)));
-    CHK(cry_mpi_mod(k, k, &t));
+    CHK(cry_mpi_rand_range(k, &t));
     CHK(cry_mpi_add(k, k, &one));
 e:  cry_mpi_clear(&t);
     return res;
-- 
2.43.0


From fb92d4d9ca6eb061a5efef3fefb7faa20212439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 55/59] fix: do not compute an address before the digits when
 comparing zeros

---
 src/mpi/mpi_cmp_abs.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/mpi/mpi_cmp_abs.c b/src/mpi/mpi_cmp_abs.c
index c3ed1e2..356b35a 100644
--- a/src/mpi/mpi_cmp_abs.c
+++ b/src/mpi/mpi_cmp_abs.c
@@ -6,7 +6,6 @@
 int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b)
 {
     size_t i;
-    cry_mpi_digit *ap, *bp;
 
     if (a->used < b->used)
         return -1;
@@ -14,15 +13,11 @@ int cry_mpi_cmp_abs(const cry_mpi *a, const cry_mpi *b)
         return 1;
 
     i = a->used;
-    ap = &a->data[i - 1];
-    bp = &b->data[i - 1];
     while (i-- > 0) {
-        if (*ap < *bp)
+        if (a->data[i] < b->data[i])
             return -1;
-        if (*ap > *bp)
+        if (a->data[i] > b->data[i])
             return 1;
-        ap--;
-        bp--;
     }
     return 0;
 }
-- 
2.43.0


From c089c2b9406085e7dda5097bd31e3c8b8a3fbdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 56/59] fix: no copy of zero digits to null in Karatsuba with
 single digit operands

---
 src/mpi/mpi_mul_karatsuba.c | 6 ++++--
 src/mpi/mpi_sqr_karatsuba.c | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_mul_karatsuba.c b/src/mpi/mpi_mul_karatsuba.c
index 2a04ecf..eeaf85c 100644
--- a/src/mpi/mpi_mul_karatsuba.c
+++ b/src/mpi/mpi_mul_karatsuba.c
@@ -32,8 +32,10 @@ int cry_mpi_mul_karatsuba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
     x0.used = y0.used = hB;
     x1.used = a->used - hB;
     y1.used = b->used - hB;
-    memcpy(x0.data, a->data, hB * sizeof(cry_mpi_digit));
-    memcpy(y0.data, b->data, hB * sizeof(cry_mpi_digit));
+    if (hB > 0) {
+        memcpy(x0.data, a->data, hB * sizeof(cry_mpi_digit));
+        memcpy(y0.data, b->data, hB * sizeof(cry_mpi_digit));
+    }
     if (a->used > hB)
         memcpy(x1.data, a->data + hB, (a->used - hB) * sizeof(*x1.data));
     if (b->used > hB)
diff --git a/src/mpi/mpi_sqr_karatsuba.c b/src/mpi/mpi_sqr_karatsuba.c
index a1d8a12..33cefb2 100644
--- a/src/mpi/mpi_sqr_karatsuba.c
+++ b/src/mpi/mpi_sqr_karatsuba.c
@@ -27,7 +27,8 @@ int cry_mpi_sqr_karatsuba(cry_mpi *r, const cry_mpi *a)
     /* Manually set "in use" digits */
     x0.used = hB;
     x1.used = a->used - hB;
-    memcpy(x0.data, a->data, hB * sizeof(cry_mpi_digit));
+    if (hB > 0)
+        memcpy(x0.data, a->data, hB * sizeof(cry_mpi_digit));
     memcpy(x1.data, a->data + hB, (a->used - hB) * sizeof(*x1.data));
 
     /*
-- 
2.43.0


From 07212febc486bd71b1816d75607d2f5c3e119674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:16 +0000
Subject: [PATCH 57/59] fix: column-wise multiplication of operands with more
 digits than a digit can count

With 8-bit digits the three-digit column accumulator of the Comba multiplier
and squarer overflows for operands of more than 256 digits, which cry_mpi_mul
also reaches when Karatsuba is not configured.
---
 src/mpi/mpi_mul_comba.c | 6 ++++++
 src/mpi/mpi_sqr_comba.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 08c0fd0..3f00c21 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -13,6 +13,12 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         return 0;
     }
 
+#if CRY_MPI_DIGIT_BYTES <= 2
+    /* The three digits of the column accumulator are not enough */
+    if (CRY_MIN(a->used, b->used) > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_mul_baseline(r, a, b);
+#endif
+
     pa = a->used + b->used;
     if (r == a || r == b) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d8f63..d9c1582 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -14,6 +14,12 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         return 0;
     }
 
+#if CRY_MPI_DIGIT_BYTES <= 2
+    /* The three digits of the column accumulator are not enough */
+    if (a->used > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_sqr_baseline(r, a);
+#endif
+
     pa = a->used + a->used;
     if (r == a) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
-- 
2.43.0


From 2f53858893967b11cd547a1ec9a517e16d6d2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 58/59] fix: windowed point multiplication builds again

The code was left behind by the change that passes the group to the point
operations, thus CRY_ECP_MUL_WIN without CRY_ECP_MUL_SLIDING_WIN did not
compile.
---
 src/ecp/ecp_mul.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 30b573d..6359f81 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -120,8 +120,6 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
     int res, i, j, w, paf = 1;
     struct cry_ecp r, *win = NULL;
     cry_mpi_digit msk;
-    cry_mpi *a = &grp->a;
-    cry_mpi *p = &grp->p;
 
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
@@ -145,20 +143,20 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         }
     }
     CHK(cry_ecp_copy(&win[1], p1));                     /* 1P */
-    CHK(cry_ecp_dbl(&win[2],  &win[1], a, p));          /* 2P */
-    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], p));    /* 3P */
-    CHK(cry_ecp_dbl(&win[4],  &win[2], a, p));          /* 4P */
-    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], p));    /* 5P */
-    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], p));    /* 6P */
-    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], p));    /* 7P */
-    CHK(cry_ecp_dbl(&win[8],  &win[4], a, p));          /* 8P */
-    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], p));    /* 9P */
-    CHK(cry_ecp_add(&win[10], &win[9], &win[1], p));    /* 10P */
-    CHK(cry_ecp_add(&win[11], &win[10], &win[1], p));   /* 11P */
-    CHK(cry_ecp_add(&win[12], &win[11], &win[1], p));   /* 12P */
-    CHK(cry_ecp_add(&win[13], &win[12], &win[1], p));   /* 13P */
-    CHK(cry_ecp_add(&win[14], &win[13], &win[1], p));   /* 14P */
-    CHK(cry_ecp_add(&win[15], &win[14], &win[1], p));   /* 15P */
+    CHK(cry_ecp_dbl(&win[2],  &win[1], grp));           /* 2P */
+    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], grp));  /* 3P */
+    CHK(cry_ecp_dbl(&win[4],  &win[2], grp));           /* 4P */
+    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], grp));  /* 5P */
+    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], grp));  /* 6P */
+    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], grp));  /* 7P */
+    CHK(cry_ecp_dbl(&win[8],  &win[4], grp));           /* 8P */
+    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], grp));  /* 9P */
+    CHK(cry_ecp_add(&win[10], &win[9], &win[1], grp));  /* 10P */
+    CHK(cry_ecp_add(&win[11], &win[10], &win[1], grp)); /* 11P */
+    CHK(cry_ecp_add(&win[12], &win[11], &win[1], grp)); /* 12P */
+    CHK(cry_ecp_add(&win[13], &win[12], &win[1], grp)); /* 13P */
+    CHK(cry_ecp_add(&win[14], &win[13], &win[1], grp)); /* 14P */
+    CHK(cry_ecp_add(&win[15], &win[14], &win[1], grp)); /* 15P */
     /*
      * END window generation
      */
@@ -172,14 +170,14 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         while (j > 0) {
             if (!paf) {
                 for (w = 0; w < WINSIZ; w++)
-                    CHK(cry_ecp_dbl(&r, &r, a, p));
+                    CHK(cry_ecp_dbl(&r, &r, grp));
             }
 
             j -= WINSIZ;
             w = (k->data[i] & msk) >> j;
             if (w > 0) {
                 if (!paf) {
-                    CHK(cry_ecp_add(&r, &r, &win[w], p));
+                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                 } else {
                     paf = 0; /* First addition */
                     CHK(cry_ecp_copy(&r, &win[w]));
-- 
2.43.0


From 5557bc7a4359209503db04983378a9d2a04b62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:57 +0000
Subject: [PATCH 59/59] fix: small division reports a failed allocation of its
 quotient bit

---
 src/mpi/mpi_div_abs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index 381e898..67a48fb 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -28,9 +28,9 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     if ((res = cry_mpi_init_list(&ta, &tb, &tq, &q, NULL)) != 0)
         return res;
 
-    cry_mpi_set_int(&tq, 1);
     n = cry_mpi_count_bits(a) - cry_mpi_count_bits(b);
-    if (((res = cry_mpi_abs(&ta, a)) != 0) ||
+    if (((res = cry_mpi_set_int(&tq, 1)) != 0) ||
+        ((res = cry_mpi_abs(&ta, a)) != 0) ||
         ((res = cry_mpi_abs(&tb, b)) != 0) ||
         ((res = cry_mpi_shl(&tb, &tb, n)) != 0) ||
         ((res = cry_mpi_shl(&tq, &tq, n)) != 0))
-- 
2.43.0

