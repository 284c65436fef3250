From f472280a351b8091472dc86942704dbc9553c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 01/60] fix: mpi comba multiplication and squaring keep the old
 sign of the destination

---
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_sqr_comba.c | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..4848aa9 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -24,6 +24,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         dst = r;
     }
     cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..cef35e9 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,8 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
-- 
2.43.0


From 5a22f155cbdefb78a9dc101cdca0ee65dce1c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 02/60] fix: mpi toom3 yields a signed product where the
 magnitude is expected

---
 src/mpi/mpi_mul_toom3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/mpi_mul_toom3.c b/src/mpi/mpi_mul_toom3.c
index b6ab707..e3f658a 100644
--- a/src/mpi/mpi_mul_toom3.c
+++ b/src/mpi/mpi_mul_toom3.c
@@ -128,6 +128,10 @@ int cry_mpi_mul_toom3(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
     CRY_CHK(res = cry_mpi_copy(&b2, b), e);
     CRY_CHK(res = cry_mpi_shrd(&b2, B*2), e);
 
+    /* As the other algorithms, multiply the magnitudes */
+    a0.sign = a1.sign = a2.sign = 0;
+    b0.sign = b1.sign = b2.sign = 0;
+
     /*
      * Evaluation (using Bodrato's steps)
      */
-- 
2.43.0


From fdcc06838fe5698da0d6a540ed1e7429eadf2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 03/60] fix: mpi right shift of a negative number may yield a
 negative zero

---
 src/mpi/mpi_shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..65556db 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0;
     return 0;
 }
-- 
2.43.0


From 39534a1dae44127c2e41ae4368e49bc1053b61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 04/60] fix: mpi load from binary keeps the old sign of the
 destination

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From 0157a6e5c1f8ea08c89b745c650fd87b34e0bb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 05/60] fix: mpi get_int returns a wrong value for negative
 numbers below LONG_MIN

---
 src/mpi/mpi_core.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..bec0e01 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0UL - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -100,11 +100,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 {
     size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long rval = 0;
 
     used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (used > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
@@ -113,7 +112,10 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 #endif
         rval |= a->data[i];
     }
-    *val = (a->sign == 0) ? rval : -rval;
+    /* consider the sign bit */
+    if (rval > (unsigned long)LONG_MAX + ((a->sign == 0) ? 0 : 1))
+        return -1;
+    *val = (long)((a->sign == 0) ? rval : 0UL - rval);
     return 0;
 }
 
-- 
2.43.0


From ee8a6ae2ab054bb667b1cef05fbef8dd85bc3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 06/60] fix: mpi division with operands of different sign

A NULL remainder was dereferenced, an exact quotient was left positive and a
divisor that is also an output was overwritten before its last use.
---
 src/mpi/mpi_div.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..fd0e215 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -3,24 +3,39 @@
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi rem, den;
+    cry_mpi one;
+    cry_mpi_digit one_dig = 1;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
+    if ((a->sign ^ b->sign) == 0)
+        return cry_mpi_div_abs(q, r, a, b);
+
+    /*
+     * Signs differ: round the quotient toward minus infinity.
+     * The remainder is required anyway and the divisor may be an output.
+     */
+    if ((res = cry_mpi_init_list(&rem, &den, (cry_mpi *)NULL)) != 0)
         return res;
+    if ((res = cry_mpi_copy(&den, b)) != 0 ||
+        (res = cry_mpi_div_abs(q, &rem, a, b)) != 0)
+        goto e;
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
+    if (!cry_mpi_is_zero(&rem)) {
         if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
-
             one.sign = 0;
             one.used = one.alloc = 1;
             one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
+            if ((res = cry_mpi_add_abs(q, q, &one)) != 0)
+                goto e;
         }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+        if ((res = cry_mpi_sub_abs(&rem, &den, &rem)) != 0)
+            goto e;
     }
+    if (q != NULL && !cry_mpi_is_zero(q))
+        q->sign = 1;
+    if (r != NULL)
+        cry_mpi_swap(r, &rem);
+e:  cry_mpi_clear_list(&rem, &den, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 8c59d9dcdf2a326a6a1bd161326508b0a14caf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 07/60] fix: mpi gcd and lcm of zero and of negative numbers

---
 src/mpi/mpi_gcd.c | 18 +++++++++++++-----
 src/mpi/mpi_lcm.c |  7 +++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..f26fa54 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -34,6 +34,14 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
         (res = cry_mpi_copy(&ty, y)) != 0)
         goto e;
 
+    tx.sign = ty.sign = 0;
+
+    /* gcd(x, 0) = |x| */
+    if (cry_mpi_is_zero(&tx) || cry_mpi_is_zero(&ty)) {
+        cry_mpi_swap(r, cry_mpi_is_zero(&tx) ? &ty : &tx);
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
@@ -46,20 +54,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
-    cry_mpi_swap(r, &ty);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) == 0)
+        cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
 }
diff --git a/src/mpi/mpi_lcm.c b/src/mpi/mpi_lcm.c
index 5a2904e..ad50397 100644
--- a/src/mpi/mpi_lcm.c
+++ b/src/mpi/mpi_lcm.c
@@ -11,9 +11,12 @@ int cry_mpi_lcm(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&gcm, &prod, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_gcd(&gcm, x, y)) == 0)
-        if ((res = cry_mpi_mul(&prod, x, y)) == 0)
+    if ((res = cry_mpi_gcd(&gcm, x, y)) == 0) {
+        if (cry_mpi_is_zero(&gcm))
+            cry_mpi_zero(r); /* both are zero */
+        else if ((res = cry_mpi_mul_abs(&prod, x, y)) == 0)
             res = cry_mpi_div(r, 0, &prod, &gcm);
+    }
     cry_mpi_clear_list(&gcm, &prod, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From cdb28e462a4645eff035094aad84059890e41859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 08/60] fix: mpi mod_exp with exponent zero ignores the modulus

---
 src/mpi/mpi_mod_exp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..b3b43dc 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,11 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
+    /* 1 mod m, also refuses a zero modulus */
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From bc2a9444788971f4ad7fa671fb10ce41ba3c2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 09/60] fix: mpi inverse ignores errors, a non-positive modulus
 and a result stored over the modulus

---
 src/mpi/mpi_inv.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..764f3fc 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -13,23 +13,26 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
     int ret = 0;
     cry_mpi r0, r1, s0, s1, q;
 
+    if (cry_mpi_is_neg(m) || cry_mpi_is_zero(m))
+        return -1;
+
     if ((ret = cry_mpi_init_list(&r0, &r1, &s0, &s1, &q,
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CRY_CHK(ret = cry_mpi_copy(&r0, a), e);
+    CRY_CHK(ret = cry_mpi_copy(&r1, m), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s0, 1), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s1, 0), e);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CRY_CHK(ret = cry_mpi_div(&q, &r0, &r0, &r1), e);
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CRY_CHK(ret = cry_mpi_mul(&q, &q, &s1), e);
+        CRY_CHK(ret = cry_mpi_sub(&s0, &s0, &q), e);
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +40,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign)
+            CRY_CHK(ret = cry_mpi_mod(&s0, &s0, m), e);
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
-- 
2.43.0


From bda085cd962395e46c0168c32a6ed2db395634e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 10/60] fix: mpi rand yields garbage digits when the random
 bytes start with zeros

---
 src/mpi/mpi_rand.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..db11083 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -23,7 +23,12 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
     if ((res = cry_mpi_load_bin(r, bin, siz)) != 0)
         goto e;
 
+    /* Leading zero bytes may have been skipped */
     digs = CRY_MPI_BITS_TO_DIGS(bits);
+    if ((res = cry_mpi_grow(r, digs)) != 0)
+        goto e;
+    while (r->used < digs)
+        r->data[r->used++] = 0;
     msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
     if (msb < CRY_MPI_DIGIT_BITS)
         r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-- 
2.43.0


From 4b2c3574a2e839dbac570da095a388b9ba50ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 11/60] fix: mpi prime discards a prime found in the last
 iteration

---
 src/mpi/mpi_prime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..c81ec8d 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -256,11 +256,12 @@ int cry_mpi_prime(cry_mpi *p, size_t bits, unsigned int *iter)
         if ((res = cry_mpi_is_prime(p)) < 0) {
             break;
         } else if (res == 1) {
-            res = 0;
             break;
         }
     }
-    if (i == itermax)
+    if (res == 1)
+        res = 0;
+    else
         res = -1;
     if (iter)
         *iter = i;
-- 
2.43.0


From c91034fcfa4eb72d1ebaa138efabfb39ddfc04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 12/60] fix: mpi is_prime does not terminate for 1, misjudges 2
 and may reject primes

---
 src/mpi/mpi_prime.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index c81ec8d..ac8f775 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -144,9 +144,11 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
-        goto e;
+    /* Initialize a as a random positive number less than p */
+    do {
+        if ((res = cry_mpi_rand_range(&a, p)) < 0)
+            goto e;
+    } while (cry_mpi_is_zero(&a));
 
     /* z = a^m mod p */
     if ((res = cry_mpi_mod_exp(&z, &a, &m, p)) < 0)
@@ -195,6 +197,11 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    if (cry_mpi_is_neg(p) || cry_mpi_count_bits(p) < 2)
+        return 0; /* less than 2 */
+    if (cry_mpi_is_even(p))
+        return (cry_mpi_count_bits(p) == 2) ? 1 : 0; /* 2 is the only one */
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
-- 
2.43.0


From 0ab1d5166302cafccfddd954877d1cc047a9427e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 13/60] fix: mpi print overflows its buffer for radix below 16

---
 src/mpi/mpi_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..d860c69 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,7 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    len = cry_mpi_count_bits(a) + 3; /* radix 2, space for NULL and sign */
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From 76be78b62ce6cec78aa23fa9216b42623b30fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:45 +0000
Subject: [PATCH 14/60] fix: mpi load from string accepts characters that are
 not digits of the radix

---
 src/mpi/mpi_str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..58c6e27 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -5,7 +5,7 @@
 #define ASC_TO_RAW_CHAR(c) \
     (('0' <= (c) && (c) <= '9') ?  ((c) - '0') : \
      ('a' <= (c) && (c) <= 'z') ? (((c) - 'a') + 10) : \
-     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0)
+     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0xff)
 
 static int load_str_hex(cry_mpi *a, const char *s)
 {
@@ -16,6 +16,11 @@ static int load_str_hex(cry_mpi *a, const char *s)
     size_t siz, len;
 
     len = strlen(s);
+    for (i = 0; i < len; i++) {
+        if (ASC_TO_RAW_CHAR(s[i]) >= 16)
+            return -1;
+    }
+    i = 0;
     siz = len >> 1;
     if ((len & 0x01) != 0) {
         len--;
@@ -79,7 +84,7 @@ int cry_mpi_load_str(cry_mpi *a, unsigned int radix, const char *s)
     cry_mpi tmp, base;
 
     /* max base 36 ('z') */
-    if (radix > 36)
+    if (radix < 2 || radix > 36)
         return -1;
 
     cry_mpi_zero(a);
-- 
2.43.0


From a83f934b1e327aa57fd161a5fa831afea96b0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:52 +0000
Subject: [PATCH 15/60] fix: mpi division remainder of a smaller negative
 dividend is negative

---
 src/mpi/mpi_div_abs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index d35150f..381e898 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -17,7 +17,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r=a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq)
@@ -88,7 +88,7 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     /* if a < b then q=0, r = a */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr != NULL)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq != NULL)
-- 
2.43.0


From 06263762ff75a790bd2f682a769ed2f61606e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 16/60] fix: aes encryption after a decryption with the same
 context uses a wrong key schedule

---
 src/crypt/aes.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..0181e39 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -359,6 +359,12 @@ static void key_invert(cry_aes_ctx *ctx)
 
     for (i = 4; i < 4 * nr; i++) {
         key = ctx->keys[i];
+        if ((ctx->nr & DECRYPT_STATE) != 0) {
+            /* Back to encryption, MixColumns undoes InvMixColumns */
+            ctx->keys[i] = ftab[0][rsbox[I0(key)]] ^ ftab[1][rsbox[I1(key)]] ^
+                           ftab[2][rsbox[I2(key)]] ^ ftab[3][rsbox[I3(key)]];
+            continue;
+        }
         newkey = mtab[key & 0xff];
         key >>= 8;
         tmp = mtab[key & 0xff];
-- 
2.43.0


From eb940404a8a3b6e2f8aa9caa5354f48d7727755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 17/60] fix: cbc decryption of no data reads and writes out of
 bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From a06f87c2a046a9100227d8675b994dee0ae1c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 18/60] fix: ctr in-place processing with blocks shorter than
 16 bytes uses uninitialised counters

---
 src/crypt/ctr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..fa060b2 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -46,7 +46,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     unsigned char buf[BUF_LEN];
     void *ciph = ctx->ciph_ctx;
     cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
-    size_t n;
+    size_t n, buflen;
     unsigned char *p;
 
     if (src != dst) {
@@ -66,18 +66,19 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
             cry_memxor2(dst + len - n, src + len - n, buf, n);
         }
     } else {
-        while (len >= BUF_LEN) {
+        buflen = BUF_BLOCKS * ctx->ctrlen;
+        while (len >= buflen) {
             p = buf;
             for (n = 0; n < BUF_BLOCKS; n++) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
             }
-            encrypt(ciph, buf, buf, BUF_LEN);
-            cry_memxor2(dst, src, buf, BUF_LEN);
-            len -= BUF_LEN;
-            src += BUF_LEN;
-            dst += BUF_LEN;
+            encrypt(ciph, buf, buf, buflen);
+            cry_memxor2(dst, src, buf, buflen);
+            len -= buflen;
+            src += buflen;
+            dst += buflen;
         }
 
         if (len != 0) {
-- 
2.43.0


From 32da303cbd55eb5a6e59ee09c623b54b1cf46756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 19/60] fix: cfb decryption feeds back the plaintext, a partial
 block reads beyond the output

---
 include/cry/cfb.h |  3 ++-
 src/crypt/cfb.c   | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..779802c 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..2f165f3 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,27 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        /* The ciphertext is the feedback, save it before an in-place xor */
+        memcpy(ctx->v, src, n);
+        cry_memxor2(dst, ctx->v, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
-- 
2.43.0


From 852aabc22f1a232d9f510e3fe111547912bbfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 20/60] fix: cfb8 decryption leaves a wrong shift register
 behind

---
 src/crypt/cfb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 2f165f3..5ee0e2a 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -121,8 +121,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
+        memcpy(ctx->v, buf + i, ctx->vlen);
         memcpy(buf, buf + ctx->vlen, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-    memcpy(ctx->v, buf + i, ctx->vlen);
 }
-- 
2.43.0


From e9c063ec15e3120fe130e668f894d078101533ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 21/60] fix: gcm truncates data lengths of 512 MB and more

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 4011a4d261edd82a719bf88acfca04e4e6a99b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 22/60] fix: sha512 padding of messages whose last block has
 112 to 127 bytes

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From 73c1ff05c087d48462d3008dfb842f47995ccf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 23/60] fix: sha512 update truncates lengths of 4 GB and more

---
 src/hash/sha512.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From d85294d1e90ee26cb53021a5c154e86ba3f3246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 24/60] fix: aes key wrap uses only the low byte of the step
 counter

---
 src/utils/aes_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..ced3e88 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* XOR the 64-bit big endian step counter */
+static void xor_step(unsigned char *a, size_t t)
+{
+    size_t i;
+
+    for (i = 8; i-- > 0; t >>= 8)
+        a[i] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -41,7 +50,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            xor_step(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -70,7 +79,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            xor_step(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 957655d3a8abe3d71d302dcadc5849ecfba161ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 25/60] fix: aes key wrap accepts data that is not two or more
 whole blocks

---
 src/utils/aes_wrap.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index ced3e88..055df88 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -33,6 +33,10 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     cry_aes_ctx aes;
 
+    /* At least two whole 64 bit blocks */
+    if (len < 16 || (len & 7) != 0)
+        return -1;
+
     a = out;
     r = out + 8;
 
@@ -66,6 +70,10 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
     size_t i, j, blks;
     int res = 0;
 
+    /* At least two whole 64 bit blocks */
+    if (len < 16 || (len & 7) != 0)
+        return -1;
+
     /* Initialize variables */
     memcpy(a, in, 8);
     r = out;
-- 
2.43.0


From ec330ae537ed0c301001e67700901eb40b329b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 26/60] fix: memxor2 rotates the result wrongly when dst
 overlaps both sources

---
 src/crypt/memxor.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..6bfbbbc 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -54,6 +54,7 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
 {
     size_t i, j;
     unsigned char *tmp, t;
+    size_t k;
     size_t n = size;
 
     if (src2 < src1) {
@@ -74,20 +75,27 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
         }
     } else if (src1 + n < src2) {
         /* Case 3 */
-        j = (size_t)((src1 + n) - dst);
+        k = j = (size_t)((src1 + n) - dst);
         for (i = 0; i < n; i++) {
             dst[j++] = src1[i] ^ src2[i];
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
-        j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
-            t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
+        /* Now rotate the dst buffer left by k, via three reversals */
+        for (i = 0, j = k - 1; i < j; i++, j--) {
+            t = dst[i];
+            dst[i] = dst[j];
+            dst[j] = t;
+        }
+        for (i = k, j = n - 1; i < j; i++, j--) {
+            t = dst[i];
+            dst[i] = dst[j];
+            dst[j] = t;
+        }
+        for (i = 0, j = n - 1; i < j; i++, j--) {
+            t = dst[i];
+            dst[i] = dst[j];
+            dst[j] = t;
         }
     } else {
         /* Case 4 */
-- 
2.43.0


From cb96ab2a1557e2a1ea6af85c72a653ae38525b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 27/60] fix: lfsr113 seeding clears as many bytes as the seed
 has instead of its state

---
 src/prng/prng_lfsr113.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1ce5682 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,7 +37,7 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
     if (z[0] < 1)
-- 
2.43.0


From 57dec11418d090ce75797c83d144099b37630a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 28/60] fix: lfsr113 accepts the largest of the degenerate
 seeds

---
 src/prng/prng_lfsr113.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 1ce5682..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -40,13 +40,13 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From f0c5a438325913a90d97c1e248972616e1b5c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 29/60] fix: base64 encoding and decoding of an empty string
 runs out of bounds

---
 src/crypt/base64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..f447b0b 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,6 +7,9 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
+    if (len == 0)
+        return 0;
+
     do {
         outlen += 4;
 
@@ -65,6 +68,8 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
+    if (len == 0)
+        return 0;
 
     do {
         for (i = 0; i < 4; i++) {
-- 
2.43.0


From 1a5d5b808cc606e0a02b722be0a55119a7af4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 30/60] fix: base64 decoding accepts misplaced padding

---
 src/crypt/base64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index f447b0b..a4681c2 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -76,6 +76,9 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
                 return -1;
+            /* padding is allowed only at the very end */
+            if (in[i] == '=' && (len != 4 || i < 2 || in[3] != '='))
+                return -1;
         }
 
         *out++ = unbase64[(int)in[0]] << 2 |
-- 
2.43.0


From d136db8f782be6c4eb70e2e4fe123fd1f67065a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 31/60] fix: affine accepts an empty key and then reads beyond
 its key table

---
 src/crypt/affine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
-- 
2.43.0


From 63cb61639660473e795c5eb51a1b3ae230435ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:34 +0000
Subject: [PATCH 32/60] fix: hill accepts an empty key and then never
 terminates

---
 src/crypt/hill.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..1df1d2c 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -193,6 +193,8 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
     memset(ctx, 0, sizeof(*ctx));
 
     ctx->n = keylen_trim(&keylen);
+    if (ctx->n == 0)
+        return -1;
 
     if (key != NULL)
         memcpy(ctx->key, key, keylen);
-- 
2.43.0


From 2b55a0b3954703866f2166ecfcfdd772b27db13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:54 +0000
Subject: [PATCH 33/60] fix: SHA-1 drops the upper half of the length of an
 update above 4 GiB

---
 src/hash/sha1.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
-- 
2.43.0


From 7211b30429b5e5f3713da5cdcc482c25ffaf51ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:54 +0000
Subject: [PATCH 34/60] fix: MD5 drops the upper half of the length of an
 update above 4 GiB

---
 src/hash/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..0c7fa49 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)((uint64_t)size >> 29); /* carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
-- 
2.43.0


From dca127b470e5edc8245ce51b32fc1a213a169b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 35/60] fix: dsa operations report success when a step of
 theirs fails

The CHK macro left the loop without keeping the error code, so for instance
a signature whose s has no inverse modulo q was accepted.
---
 src/crypt/dsa.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..8237304 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, (cry_mpi *)NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -185,11 +186,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
+    if (i == ITER_MAX_OUT)
+        res = -1;
 e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
     return res;
 }
-- 
2.43.0


From 5b26df5ece4a56259eb73fd2e8a4b431e67e00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 36/60] fix: dsa verification accepts signature components out
 of range

Negative components and components not below q were accepted.
---
 src/crypt/dsa.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 8237304..a077b1d 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -82,12 +82,23 @@ e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
 }
 
+/*
+ * Check that 0 < x < q.
+ */
+static int in_range(const cry_mpi *x, const cry_mpi *q)
+{
+    return !cry_mpi_is_zero(x) && cry_mpi_is_pos(x) && cry_mpi_cmp(x, q) < 0;
+}
+
 int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
     cry_mpi z, w, u1, u2;
 
+    if (!in_range(&sig->r, &ctx->q) || !in_range(&sig->s, &ctx->q))
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
         return res;
 
-- 
2.43.0


From f6509afb8e67f70714955af9afa71d3174640d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 37/60] fix: dsa uses more bits of the digest than the group
 order has

The digest was cut to a whole number of digits of q, so the signature depended
on the digit size and did not interoperate. FIPS 186-4 prescribes the leftmost
bits, as many as q has.
---
 src/crypt/dsa.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index a077b1d..e32acc0 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,23 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * Load the leftmost bits of the input, at most as many as q has.
+ */
+static int hash_load(cry_mpi *z, const unsigned char *in, size_t len,
+                     const cry_mpi *q)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(q);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,9 +77,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(hash_load(&z, in, len, &ctx->q));
 
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
@@ -103,9 +118,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(hash_load(&z, in, len, &ctx->q));
 
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From e38461a6ce9dc1eb75ca5d999248e427dc5c20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 38/60] fix: dsa signing may deliver a signature with a zero
 component

---
 src/crypt/dsa.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index e32acc0..5903d48 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,6 +2,8 @@
 #include "../misc.h"
 
 
+#define ITER_MAX_SIGN   1024
+
 #define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
@@ -71,6 +73,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter = 0;
     cry_mpi k, z;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
@@ -79,6 +82,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of q */
     CHK(hash_load(&z, in, len, &ctx->q));
 
+retry:
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
 
@@ -93,6 +97,13 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
     CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
 
+    /* Another k is required if one of the components is zero */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s)) {
+        if (++iter < ITER_MAX_SIGN)
+            goto retry;
+        res = -1;
+    }
+
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 1728e372a9d51d81f29cf8e0dd18f6f2e263052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 39/60] fix: dsa key generation draws the private key from the
 wrong range

The private key was taken below (p-1)/q instead of from [1, q).
---
 src/crypt/dsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 5903d48..a3b1213 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -221,7 +221,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
         CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-- 
2.43.0


From c5d39fb2858381925f7cddcbbcf21cd08aaf1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 40/60] fix: elgamal verification accepts signature components
 out of range

Without the check 0 < r < p a valid signature can be turned into one for
another message.
---
 src/crypt/elgamal.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..f89339d 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -97,14 +97,28 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
                         const unsigned char *in, size_t len)
 {
     int res;
-    cry_mpi r, z;
+    cry_mpi one, r, z;
+    cry_mpi_digit dig = 1;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
 
+    one.sign = 0;
+    one.used = 1;
+    one.alloc = 1;
+    one.data = &dig;
+
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_sub(&z, &ctx->p, &one));
+    if (cry_mpi_cmp(&sign->r, &one) < 0 || cry_mpi_cmp(&sign->r, &z) > 0 ||
+        cry_mpi_cmp(&sign->s, &one) < 0 || cry_mpi_cmp(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From 5d1afaac7494e6eb234423247a5699746c9b6ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 41/60] fix: elgamal signing may deliver a zero s

---
 src/crypt/elgamal.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index f89339d..bd73cb7 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -57,6 +57,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
                       const unsigned char *in, size_t len)
 {
     int res;
+    size_t iter = 0;
     cry_mpi one, k, z, t;
     cry_mpi_digit dig = 1;
 
@@ -74,6 +75,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
 
+retry:
     /* gcd(k, p-1) = 1 */
     CHK(secret_gen(&k, &t, &one));
 
@@ -89,6 +91,13 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
     CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
 
+    /* Another k is required if s is zero */
+    if (cry_mpi_is_zero(&sign->s)) {
+        if (++iter < MAX_ITER)
+            goto retry;
+        res = -1;
+    }
+
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 8ae56b658712c74390af04c8cd0b605e5c6d8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 42/60] fix: ecdsa signing reports success when a step of it
 fails

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..487cf59 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
-- 
2.43.0


From a29ea64f18f2742a62135e0da627a10d1e8b6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 43/60] fix: ecdsa verification clears uninitialised points
 when it runs out of memory

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 487cf59..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From e289770ab07bceebdc8f4e3bba15d71c3bdb2375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 44/60] fix: ecdsa uses more bits of the digest than the group
 order has

The digest was cut to a whole number of digits of n, so the signature depended
on the digit size and did not interoperate. FIPS 186-4 prescribes the leftmost
bits, as many as n has.
---
 src/crypt/ecdsa.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..249914b 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,6 +4,23 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+/*
+ * Load the leftmost bits of the input, at most as many as n has.
+ */
+static int hash_load(cry_mpi *z, const unsigned char *in, size_t len,
+                     const cry_mpi *n)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -15,10 +32,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init(&X));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(hash_load(&z, in, len, &ctx->grp.n));
 
     /* This should be a random number between 0 and n-1 */
 #if 0
@@ -60,10 +75,8 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(hash_load(&z, in, len, &ctx->grp.n));
 
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From 9ca8c3c7289feb3f36125136a1b5f31f6fbe75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 45/60] fix: ecdsa verification accepts components out of range
 and the point at infinity

---
 src/crypt/ecdsa.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 249914b..4968f97 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -64,6 +64,14 @@ e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
 }
 
+/*
+ * Check that 0 < x < n.
+ */
+static int in_range(const cry_mpi *x, const cry_mpi *n)
+{
+    return !cry_mpi_is_zero(x) && cry_mpi_is_pos(x) && cry_mpi_cmp(x, n) < 0;
+}
+
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
                      const unsigned char *in, size_t len)
 {
@@ -71,6 +79,9 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     cry_mpi z, w;
     cry_ecp G, Q;
 
+    if (!in_range(&sig->r, &ctx->grp.n) || !in_range(&sig->s, &ctx->grp.n))
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
@@ -95,6 +106,11 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
+
     /* r = x1 mod n */
     CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
 
-- 
2.43.0


From ec27827e06fc51f5817dd4514358b72e98429833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 46/60] fix: ecdsa signing may use k = 0, does not reduce r and
 may deliver zero components

---
 src/crypt/ecdsa.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 4968f97..8442cfe 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -1,6 +1,8 @@
 #include <cry/ecdsa.h>
 #include "mpi/mpi_pvt.h"
 
+#define ITER_MAX_SIGN   1024
+
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
@@ -25,6 +27,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
+    unsigned int iter = 0;
     cry_mpi k, z;
     cry_ecp X;
 
@@ -35,7 +38,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of n */
     CHK1(hash_load(&z, in, len, &ctx->grp.n));
 
-    /* This should be a random number between 0 and n-1 */
+retry:
+    /* This should be a random number between 1 and n-1 */
 #if 0
     unsigned char K[] = {
         0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
@@ -46,11 +50,13 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 #else
     CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
 #endif
+    if (cry_mpi_is_zero(&k))
+        goto retry;
 
     CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
 
     /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
+    CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
 
     /* s = (inv(k) * (z + r*d)) mod n */
     CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
@@ -59,6 +65,13 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
     CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
     CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
 
+    /* Another k is required if one of the components is zero */
+    if (cry_mpi_is_zero(&sig->r) || cry_mpi_is_zero(&sig->s)) {
+        if (++iter < ITER_MAX_SIGN)
+            goto retry;
+        res = -1;
+    }
+
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 877fd01c0806a2832e35ec0ec83c6e7bbe49d3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 47/60] fix: ecdsa key generation may deliver the private key 0

---
 src/crypt/ecdsa.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 8442cfe..d7880a9 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -165,7 +165,10 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
+    do {
+        res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n);
+    } while (res == 0 && cry_mpi_is_zero(&ctx->d));
+    if (res == 0)
         res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
     return res;
 }
-- 
2.43.0


From 6b13bf508b3549065779fea1ce854539dc4f4515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 48/60] fix: doubling an elliptic curve point of order two
 fails

---
 src/ecp/ecp_dbl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..80db5e5 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -26,6 +26,11 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
 
     CHK(cry_mpi_set_int(&den, 2));          /* den =  2 */
     CHK(cry_mpi_mul(&den, &den, &p1->y));   /* den =  2 * y1 */
+    CHK(cry_mpi_mod(&den, &den, &grp->p));
+    if (cry_mpi_is_zero(&den)) {            /* p1 is its own inverse */
+        cry_ecp_set_zero(pr);
+        goto e;
+    }
     CHK(cry_mpi_inv(&den, &den, &grp->p));  /* den = (2 * y1)^(-1) (mod p) */
     CHK(cry_mpi_mod(&den, &den, &grp->p));
 
-- 
2.43.0


From d60cf93d5fcbbc69b626f291bf03c439c178e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 49/60] fix: elliptic curve multiplication reports success when
 it runs out of memory

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From d67e0b336163b8bc84520457cb7686aceb83d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 50/60] fix: rsa decryption writes every block over the first
 one

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..0df199a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From 26add1dc33a56c1bd824fc12b906f487517d32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 51/60] fix: rsa operations on empty input return an
 indeterminate value

An empty input is not a block: it is refused.
---
 src/crypt/rsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0df199a..da2ef8b 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -174,7 +174,7 @@ e:  free(buf);
 static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = -1;
     size_t mod_siz, block_siz;
     void *newptr;
 
@@ -216,7 +216,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
 static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = -1;
     size_t mod_siz;
     void *newptr;
 
-- 
2.43.0


From aa773bdba7b9c12cea742632a12ca73e9df7f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 52/60] fix: rsa encryption with padding and a modulus of at
 most 11 bytes runs out of bounds

---
 src/crypt/rsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index da2ef8b..ddd9dfb 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -181,6 +181,8 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *out = NULL;
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
+    if (ctx->padding != CRY_RSA_PADDING_NONE && mod_siz <= 11)
+        return -1; /* No room for the padding */
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
     while (inlen) {
-- 
2.43.0


From 0ff9fb4f7fd79841fa852bb4a69a698d2c542b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 53/60] fix: rsa accepts PKCS#1 v1.5 blocks with fewer than
 eight padding bytes

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index ddd9dfb..f83887a 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -80,7 +80,7 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
+    if (i == slen || i < 10) /* at least eight padding bytes */
         return -1;
     i++; /* skip zero */
     if (slen - i < dlen)
-- 
2.43.0


From e5e8a7c2f0c1ce0890ca03ee14f0609ca41fa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 54/60] fix: rsa processes blocks that are not below the
 modulus

Such a message block was reduced modulo n and could not be decrypted to what
was encrypted; such a ciphertext or signature is to be refused.
---
 src/crypt/rsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index f83887a..1195a4e 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -120,6 +120,10 @@ static int encrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&m, buf, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp(&m, &ctx->n) >= 0) {
+        res = -1; /* Message representative out of range */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&c, &m, key, &ctx->n)) != 0)
         goto e1;
 
@@ -153,6 +157,10 @@ static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&c, in, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp(&c, &ctx->n) >= 0) {
+        res = -1; /* Ciphertext representative out of range */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&m, &c, key, &ctx->n)) != 0)
         goto e1;
     if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
-- 
2.43.0


From b98ff98610b8fc791fda883aa88178201c2e9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 55/60] fix: rsa verification without padding accepts any
 prefix of the signed data

---
 src/crypt/rsa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 1195a4e..517bd96 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -300,6 +300,15 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
             (ctx->padding != CRY_RSA_PADDING_NONE && outlen != inlen) ||
             memcmp(out, in, inlen) != 0) {
             res = -1;
+        } else if (outlen - inlen >= cry_mpi_count_bytes(&ctx->n)) {
+            res = -1; /* More blocks than the data requires */
+        } else {
+            while (outlen > inlen) {
+                if (out[--outlen] != 0) {
+                    res = -1; /* Not the zeros a short block ends with */
+                    break;
+                }
+            }
         }
         free(out);
     }
-- 
2.43.0


From e302a9294a7081c17f20574ed897c389cb961683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 56/60] fix: rsa key generation does not compute the private
 exponent

It also reported success when no suitable primes were found, which was always
the case for an odd number of bits.
---
 src/crypt/rsa.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 517bd96..d78d05d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -344,7 +344,7 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
         if ((res = cry_mpi_prime(&ctx->p, bits >> 1, &i)) != 0)
             break;
         i = MAX_ITER;
-        if ((res = cry_mpi_prime(&ctx->q, bits >> 1, &i)) != 0)
+        if ((res = cry_mpi_prime(&ctx->q, bits - (bits >> 1), &i)) != 0)
             break;
         if (cry_mpi_cmp(&ctx->q, &ctx->p) == 0)
             continue;
@@ -367,6 +367,12 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    if (res == 0) {
+        if (j < MAX_ITER)
+            res = cry_mpi_inv(&ctx->d, &ctx->e, &phi);
+        else
+            res = -1;
+    }
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 7e026849e247e0a8ce04534319dc0f84c6b2a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 57/60] fix: ecdh initialisation ignores allocation failures

---
 src/crypt/ecdh.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..987d86a 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,19 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) != 0)
+        goto e;
+    if ((res = cry_ecp_init_list(&ctx->q, &ctx->z, (cry_ecp *)NULL)) != 0)
+        goto e1;
     return 0;
+
+e1: cry_mpi_clear(&ctx->d);
+e:  cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From 5d5340ceef37f9dc8d452e3632a1499a63c96cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:55 +0000
Subject: [PATCH 58/60] fix: curve constants are loaded with leading zero
 digits

---
 src/ecp/ecp_curves.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecp/ecp_curves.c b/src/ecp/ecp_curves.c
index 4b754ac..547b51e 100644
--- a/src/ecp/ecp_curves.c
+++ b/src/ecp/ecp_curves.c
@@ -611,6 +611,9 @@ static void ecp_mpi_load(cry_mpi *n, const cry_mpi_digit *d, size_t dlen)
     n->alloc = 0;
     n->used  = dlen / sizeof(cry_mpi_digit);
     n->sign  = 0;
+    /* Small digits may leave zeros on the top of the constant */
+    while (n->used > 0 && d[n->used - 1] == 0)
+        n->used--;
 }
 
 static void ecp_grp_load(cry_ecp_grp *grp,
-- 
2.43.0


From 1cf04a685f7da877d2339039fcf4a7f9795acf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:50 +0000
Subject: [PATCH 59/60] fix: dsa keygen takes a failed primality test for a
 prime

---
 src/crypt/dsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index a3b1213..12e80b7 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -201,7 +201,9 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if ((res = cry_mpi_is_prime(&ctx->p)) < 0)
+                goto e;
+            if (res == 1)
                 break;
         }
         if (j == ITER_MAX_IN)
-- 
2.43.0


From 2b5033c1e76be7d335b463a1b1dab9abe5b36f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:26 +0000
Subject: [PATCH 60/60] fix: clearing a big integer leaves its digits in freed
 memory

---
 src/mpi/mpi_core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index bec0e01..b22b970 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -122,8 +122,11 @@ int cry_mpi_get_int(cry_mpi *a, long *val)
 void cry_mpi_clear(cry_mpi *a)
 {
     if (a->data != NULL) {
-        if (a->alloc != 0) /* do not free non malloced data */
+        if (a->alloc != 0) { /* do not free non malloced data */
+            /* may be a secret */
+            cry_memset(a->data, 0, a->alloc * sizeof(cry_mpi_digit));
             free(a->data);
+        }
         a->data = NULL;
     }
     /* reset the members to make debugging easier */
-- 
2.43.0

