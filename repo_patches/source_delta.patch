From 823a58814ae00449961489c6655469a6bcdd3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 01/23] fix: tan no longer misses a pole when the width of the
 argument is close to pi

---
 .../mpfr_bin_ieee754_flavor_elem_func_impl.hpp        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..367b257 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2616,9 +2616,15 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
+    // a pole lies between the bounds
     if (mpfr_cmp(xl(), xu()) > 0)
         return entire();
 
+    // If the width is close to pi the order of the rounded values does not reveal a pole.
+    // Without a pole an interval of this width contains a zero of tan in its interior.
+    if (mpfr_cmp_ui(w(), 2) >= 0 && (mpfr_sgn(xl()) >= 0 || mpfr_sgn(xu()) <= 0))
+        return entire();
+
     return representation(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
 }
 
@@ -2675,9 +2681,14 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
+    // a pole lies between the bounds
     if (mpfr_cmp(xl(), xu()) > 0)
         return representation_dec(entire(), p1788::decoration::decoration::trv);
 
+    // see the bare version
+    if (mpfr_cmp_ui(w(), 2) >= 0 && (mpfr_sgn(xl()) >= 0 || mpfr_sgn(xu()) <= 0))
+        return representation_dec(entire(), p1788::decoration::decoration::trv);
+
     representation bare(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
     p1788::decoration::decoration dec  = std::min(x.second,
                                          is_common_interval(bare) ? p1788::decoration::decoration::com :
-- 
2.43.0


From 58dc41d89fcc60c2d13705d04ca43bf8fc7ab426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 02/23] fix: mixed type mul_rev_to_pair returns early for
 invalid and NaI operands

---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From 1374ed75382b845d2f6ef318a0d27f3e34529d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 03/23] fix: abs_rev compiles for number types other than
 double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..3dd334c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(T(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From 121a624d10e5c09ff1a8e21d3adef01159ea4a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 04/23] fix: mixed type cancel_plus negates in the format of
 the operand, without rounding

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..ca57dac 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +76,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From 3529731c253fd71263c70d8b7adf2698c61645a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 05/23] fix: cancel_minus checks both operands for validity

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index ca57dac..435742c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -86,7 +86,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 7d56218b0dd0c4111d4c83f810adcc6426db6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 06/23] fix: reverse sin, cos and tan look at all pieces next
 to a bound

---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 52 +++++++++----------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 3dd334c..f36e448 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -726,14 +726,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 3; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -742,8 +742,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -774,14 +774,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) > 0)
             ++n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 3; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -790,8 +790,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -973,14 +973,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 3; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -989,8 +989,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1021,14 +1021,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 3; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1037,8 +1037,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1209,12 +1209,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             --n;
 
         // move atan(c)
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 3; i++)
         {
             tmp.set(n + i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             lbox.first = rl.template get<T>(MPFR_RNDD);
             lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1245,12 +1245,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             ++n;
 
         // move atan(c)
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 3; i++)
         {
             tmp.set(n - i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
             rbox.first = rl.template get<T>(MPFR_RNDD);
             rbox.second = ru.template get<T>(MPFR_RNDU);
-- 
2.43.0


From 5d7e2cfe008245c246e5fd5009d58b75986d22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/23] fix: reverse sin, cos and tan keep bounds too large to
 be reduced

---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index f36e448..de360d5 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -719,6 +719,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.first) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox = representation(x.first, x.first);
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -767,6 +772,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.second) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox = representation(x.second, x.second);
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -966,6 +976,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.first) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox = representation(x.first, x.first);
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1014,6 +1029,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.second) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox = representation(x.second, x.second);
+    }
     else
     {
         // Compute max integer n with: n * pi <= upper bound of x
@@ -1201,6 +1221,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.first) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        lbox = representation(x.first, x.first);
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1237,6 +1262,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // a multiple of pi of this size cannot be located in the precision of T => keep the bound of x
+    else if (std::abs(x.second) > std::ldexp(T(1.0), std::numeric_limits<T>::digits - 2))
+    {
+        rbox = representation(x.second, x.second);
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
-- 
2.43.0


From a67078c552b07c81934b6d51b67f77f6b3264b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 08/23] fix: pown_rev with positive exponent drops a bound that
 is only touched by rounding

---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 39 ++++++++++++++-----
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index de360d5..6eafc58 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -455,19 +455,34 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
             {
                 mpfr_var cu(c.second, MPFR_RNDU);
 
-                cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+                int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
 
-                return intersection(x, representation(-cu.template get<T>(MPFR_RNDU), cu.template get<T>(MPFR_RNDU)));
+                representation r = representation(-cu.template get<T>(MPFR_RNDU), cu.template get<T>(MPFR_RNDU));
+
+                if ((r.second == x.first || x.second == r.first) && t_u != 0)
+                    return empty();
+
+                return intersection(x, r);
             }
 
             mpfr_var cl(c.first, MPFR_RNDD);
             mpfr_var cu(c.second, MPFR_RNDU);
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+
+            representation rp = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+            representation rn = neg(rp);
+
+            if ((rp.second == x.first && t_u != 0)
+                    || (x.second == rp.first && t_l != 0))
+                rp = empty();
 
-            return convex_hull(intersection(x, representation(-cu.template get<T>(MPFR_RNDU), -cl.template get<T>(MPFR_RNDD))),
-                               intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU))));
+            if ((rn.second == x.first && t_l != 0)
+                    || (x.second == rn.first && t_u != 0))
+                rn = empty();
+
+            return convex_hull(intersection(rp, x), intersection(rn, x));
         }
     }
     else    // odd
@@ -546,10 +561,16 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
             mpfr_var cl(c.first, MPFR_RNDD);
             mpfr_var cu(c.second, MPFR_RNDU);
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+
+            representation r = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+
+            if ((r.second == x.first && t_u != 0)
+                    || (x.second == r.first && t_l != 0))
+                return empty();
 
-            return intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU)));
+            return intersection(x, r);
         }
     }
 }
-- 
2.43.0


From db8d62629df328ac9a8126cba3fcb51f83bb99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 09/23] fix: pown_rev with the least exponent does not rely on
 overflow of its negation

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 6eafc58..0805471 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -324,7 +324,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())    // -p is representable
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
     }
@@ -360,7 +360,7 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         int p)
 {
     int t1;
-    if (p != -p)
+    if (p != std::numeric_limits<int>::min())    // -p is representable
     {
         t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
     }
-- 
2.43.0


From d50444aac5865f30025f77d7e8f253219e0e1d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 10/23] fix: mixed-type midpoint of a bounded interval is
 finite

---
 .../setbased/mpfr_bin_ieee754_flavor_num_func_impl.hpp       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_num_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_num_func_impl.hpp
index 4a3fc89..f6d895f 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_num_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_num_func_impl.hpp
@@ -260,6 +260,11 @@ mpfr_bin_ieee754_flavor<T>::mid(mpfr_bin_ieee754_flavor<T>::representation_type<
     m.subnormalize(mpfr_check_range(m(), t, MPFR_RNDN), MPFR_RNDN);
 
     T res = m.template get<T>(MPFR_RNDN);
+
+    // the midpoint of a bounded interval is finite even if it is out of the range of T
+    if (std::isinf(res))
+        return res < 0 ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::max();
+
     return res == -0.0 ? +0.0 : res;
 }
 
-- 
2.43.0


From 448a5e3c1fe72ff8ba3fdf1625f528c0e8929b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 11/23] fix: sum_sqr and dot do not overflow or underflow
 before the final rounding

---
 p1788/reduction/reduction.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..abfcfaa 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -91,7 +91,9 @@ public:
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        // widest exponent range, so that no element and no partial result overflows or underflows
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -103,7 +105,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // adjust ranges and subnormalize
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -115,7 +121,9 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        // widest exponent range, so that no element and no partial result overflows or underflows
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -127,7 +135,11 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // adjust ranges and subnormalize
+        mpfr_var::setup();
+        res.subnormalize(mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From 4254b2073529fc928243e7eb2de7c88a4790a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 12/23] fix: exception state and control word are thread local
 as documented

---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0


From cc4737e18cd718ea4aecc24779c367af14939859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 13/23] fix: decoration::is_valid is inline, so that more than
 one translation unit can use the library

---
 p1788/decoration/decoration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 8f18f59..502a9e6 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -64,7 +64,7 @@ enum class decoration : uint8_t
 
 
 
-bool is_valid(decoration dec)
+inline bool is_valid(decoration dec)
 {
     switch(dec)
     {
-- 
2.43.0


From 470546d0fb038a039f07cfb80502498b993b84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 14/23] fix: output manipulators work across translation units

---
 p1788/io/io_manip.hpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index 84327b7..5f2a372 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -34,8 +34,16 @@ namespace p1788
 namespace io
 {
 
+// Unique ID for the manipulator identified by Tag, which is the same in all translation units
+template<typename Tag>
+int manip_id()
+{
+    static int const id = std::ios_base::xalloc();
+    return id;
+}
+
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id =  std::ios_base::xalloc();
+int const text_representation_manip_id = manip_id<struct text_representation_manip>();
 
 enum text_representation_flags
 {
@@ -77,7 +85,7 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id =  std::ios_base::xalloc();
+int const string_width_manip_id = manip_id<struct string_width_manip>();
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -105,7 +113,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id =  std::ios_base::xalloc();
+int const representation_manip_id = manip_id<struct representation_manip>();
 
 enum representation_flags
 {
@@ -170,7 +178,7 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id =  std::ios_base::xalloc();
+int const number_representation_manip_id = manip_id<struct number_representation_manip>();
 
 enum number_representation_flags
 {
@@ -235,7 +243,7 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id =  std::ios_base::xalloc();
+int const width_manip_id = manip_id<struct width_manip>();
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -265,7 +273,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id =  std::ios_base::xalloc();
+int const precision_manip_id = manip_id<struct precision_manip>();
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -294,7 +302,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id =  std::ios_base::xalloc();
+int const special_representation_manip_id = manip_id<struct special_representation_manip>();
 
 enum interval_special_representation_flags
 {
@@ -347,7 +355,7 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id =  std::ios_base::xalloc();
+int const punctuation_manip_id = manip_id<struct punctuation_manip>();
 
 enum interval_punctuation_flags
 {
@@ -389,7 +397,7 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id =  std::ios_base::xalloc();
+int const uncertain_exponent_manip_id = manip_id<struct uncertain_exponent_manip>();
 
 enum uncertain_exponent_flags
 {
@@ -434,7 +442,7 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id =  std::ios_base::xalloc();
+int const dec_manip_id = manip_id<struct dec_manip>();
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -481,7 +489,7 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id =  std::ios_base::xalloc();
+int const overlapping_manip_id = manip_id<struct overlapping_manip>();
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From 63d75dd4ce089347793283fdeb2b57de8404d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 15/23] fix: get_str reserves room for the whole number

---
 p1788/util/mpfr_var_impl.hpp | 72 +-----------------------------------
 1 file changed, 1 insertion(+), 71 deletions(-)

diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..a02bdc6 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,97 +234,27 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
@@ -342,7 +272,7 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
         {
             delete[] data;
         };
-    } buffer(req_string_width);
+    } buffer(mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_));     // required string width
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-- 
2.43.0


From 1bba80d1ee75c71e6501fe7429000d7ae304e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 16/23] fix: uncertain form output works for bounds of any
 magnitude and precision

---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 207 ++++++------------
 1 file changed, 67 insertions(+), 140 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..ce73149 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -152,160 +152,87 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                                            prec,
                                            text_rep);
 
-            // find exponent part
-            int p_l = std::max(static_cast<int>(tmp_l.find('E')), static_cast<int>(tmp_l.find('e')));
-            int p_u = std::max(static_cast<int>(tmp_u.find('E')), static_cast<int>(tmp_u.find('e')));
-
-            std::string exp_str = "";
-
-            long long int ulps = 0;
-
-            // symmetric
-            if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation)
+            // RAII for mpz_t
+            struct mpz_var
             {
-                // midpoint string
-                mpfr_var m(mid(x), MPFR_RNDN);
-                std::string tmp_m = m.get_str(MPFR_RNDN,
-                                              uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
-                                              0,
-                                              prec,
-                                              text_rep);
-
-                // find exponent part
-                int p_m = std::max(static_cast<int>(tmp_m.find('E')), static_cast<int>(tmp_m.find('e')));
-
-                // split number and exponent part if necessary
-                str = p_m >= 0 ? tmp_m.substr(0, p_m) : tmp_m;
-                if (p_m >= 0)
-                {
-                    exp_str = tmp_m.substr(p_m, tmp_m.size() - p_m);
-                    tmp_m = str;
-                }
-
-                // remove seperator
-                tmp_m.erase(tmp_m.size() - prec - 1, 1);
-
-                // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
-                int ulp_l = 0;
-                int ulp_u = 0;
-                if (p_l >= 0)
-                {
-                    int exp_l = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1)) - exp_m;
-                    // remove exponent and seperator
-                    tmp_l.erase(p_l);
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
-
-                    if (exp_l < 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp_l);
-                    }
-                    else if (exp_l > 0)
-                        // add some digits
-                        tmp_l.append(exp_l, '0');
-
-                }
-                else
+                mpz_var() : var_()
                 {
-                    // remove seperator
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
+                    mpz_init(var_);
                 }
 
-                if (p_u >= 0)
-                {
-                    int exp_u = exp_m - std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    // remove exponent and seperator
-                    tmp_u.erase(p_u);
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
-                    if (exp_u > 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp_u);
-                    }
-                    else if (exp_u < 0)
-                        // add some digits
-                        tmp_u.append(-exp_u, '0');
-                }
-                else
+                ~mpz_var()
                 {
-                    // remove seperator
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
+                    mpz_clear(var_);
                 }
 
-                // compute max ulps to lower and upper bound
-                long long int tmp = std::stoll(tmp_m);
+                mpz_t var_;
+            };
 
-                ulps = std::max(-std::stoll(tmp_l) + tmp + ulp_l,
-                                -tmp + std::stoll(tmp_u) + ulp_u);
-            }
-            else // downward or upward
+            // number to print, with its radius in units of its last digit
+            std::string tmp_m;
+            switch (os.iword(p1788::io::representation_manip_id))
             {
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    // split number and exponent part if necessary
-                    str = p_u >= 0 ? tmp_u.substr(0, p_u) : tmp_u;
-                    if (p_u >= 0)
-                        exp_str = tmp_u.substr(p_u, tmp_u.size() - p_u);
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
-                {
-                    // split number and exponent part if necessary
-                    str = p_l >= 0 ? tmp_l.substr(0, p_l) : tmp_l;
-                    if (p_l >= 0)
-                        exp_str = tmp_l.substr(p_l, tmp_l.size() - p_l);
-                }
+            case p1788::io::uncertain_down_representation:
+                tmp_m = tmp_u;
+                break;
+            case p1788::io::uncertain_up_representation:
+                tmp_m = tmp_l;
+                break;
+            default:    // symmetric
+                tmp_m = mpfr_var(mid(x), MPFR_RNDN).get_str(MPFR_RNDN,
+                        uc_exp == p1788::io::show_uncertain_exponent ? p1788::io::scientific_representation : p1788::io::decimal_representation,
+                        0,
+                        prec,
+                        text_rep);
+                break;
+            }
 
-                // compute exponent difference
-                int exp = 0;
-                if (p_l >= 0)
-                {
-                    exp = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1));
-                    tmp_l.erase(p_l);
-                }
-                if (p_u >= 0)
-                {
-                    exp -= std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    tmp_u.erase(p_u);
-                }
+            // split number and exponent part if necessary
+            std::string::size_type p_m = tmp_m.find_first_of("eE");
+            std::string exp_str = p_m != std::string::npos ? tmp_m.substr(p_m) : "";
+            str = tmp_m.substr(0, p_m);
 
-                // remove seperator
-                tmp_l.erase(tmp_l.size() - prec - 1, 1);
-                tmp_u.erase(tmp_u.size() - prec - 1, 1);
+            // digits of the number as an integer, and its exponent
+            auto parse = [](std::string num, mpz_var& digits)
+            {
+                std::string::size_type p = num.find_first_of("eE");
+                int exp = p != std::string::npos ? std::stoi(num.substr(p + 1)) : 0;
+                num.erase(std::min(p, num.size()));
+                num.erase(num.find('.'), 1);
+                mpz_set_str(digits.var_, num.c_str(), 10);
+                return exp;
+            };
+
+            mpz_var l;
+            mpz_var u;
+            mpz_var m;
+            mpz_var scale;
+            int exp_m = parse(tmp_m, m);
+            int exp_l = parse(tmp_l, l) - exp_m;
+            int exp_u = parse(tmp_u, u) - exp_m;
+
+            // bounds in units of the last digit of the number, rounded outward
+            mpz_ui_pow_ui(scale.var_, 10, std::abs(exp_l));
+            if (exp_l < 0)
+                mpz_fdiv_q(l.var_, l.var_, scale.var_);
+            else
+                mpz_mul(l.var_, l.var_, scale.var_);
 
-                // adjust string length to balance exponent difference
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    if (exp < 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp);
-                    }
-                    else if (exp > 0)
-                        // add some digits
-                        tmp_l.append(exp, '0');
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
-                {
-                    if (exp > 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp);
-                    }
-                    else if (exp < 0)
-                        // add some digits
-                        tmp_u.append(-exp, '0');
-                }
+            mpz_ui_pow_ui(scale.var_, 10, std::abs(exp_u));
+            if (exp_u < 0)
+                mpz_cdiv_q(u.var_, u.var_, scale.var_);
+            else
+                mpz_mul(u.var_, u.var_, scale.var_);
 
-                // compute ulps
-                ulps += -std::stoll(tmp_l) +  std::stoll(tmp_u);
-            }
+            // compute max ulps to lower and upper bound
+            mpz_sub(l.var_, m.var_, l.var_);
+            mpz_sub(u.var_, u.var_, m.var_);
+            if (mpz_cmp(l.var_, u.var_) < 0)
+                mpz_swap(l.var_, u.var_);
 
-            str += "?" + std::to_string(ulps);
+            std::string ulps(mpz_sizeinbase(l.var_, 10) + 2, '\0');
+            str += "?";
+            str += mpz_get_str(&ulps[0], 10, l.var_);
 
             // add downward or upward flag
             switch(os.iword(p1788::io::representation_manip_id))
-- 
2.43.0


From df80bfbce69022160ca03dcdac89ad0b372c209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 17/23] fix: interval literals accept numbers with a plus sign

---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index ce73149..982283e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -435,6 +435,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
         mpfr_bin_ieee754_flavor<T>::representation_dec& x)
 {
 
+    // number without a leading plus sign, which is not understood by GMP
+    auto number = [](std::string const& str)
+    {
+        return str[0] == '+' ? str.substr(1) : str;
+    };
+
     // RAII for mpz_t
     struct mpz_var
     {
@@ -594,7 +600,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[2].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[2].str();
+                                std::string n_str = number(match[2].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -652,7 +658,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[4].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[4].str();
+                                std::string n_str = number(match[4].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -711,7 +717,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                int i = mpq_set_str(q.var_, (number(match[6].str()) + "/" + match[7].str()).c_str(), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -754,7 +760,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[12].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[12].str();
+                                std::string n_str = number(match[12].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -801,7 +807,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[14].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[14].str();
+                                std::string n_str = number(match[14].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -846,7 +852,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                int i = mpq_set_str(ql.var_, (number(match[16].str()) + "/" + match[17].str()).c_str(), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -866,7 +872,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[21].length() > 0) // float
                             {
                                 // number string
-                                std::string n_str = match[21].str();
+                                std::string n_str = number(match[21].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -913,7 +919,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             else if (match[23].length() > 0) // hex
                             {
                                 // number string
-                                std::string n_str = match[23].str();
+                                std::string n_str = number(match[23].str());
 
                                 // compute precision and remove point
                                 int p = n_str.find('.');
@@ -958,7 +964,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                int i = mpq_set_str(qu.var_, (number(match[25].str()) + "/" + match[26].str()).c_str(), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1129,7 +1135,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                         mpfr_var u;
 
                         // number string
-                        std::string m_str = match[1].str();
+                        std::string m_str = number(match[1].str());
 
                         // compute precision and remove point
                         int p = m_str.find('.');
-- 
2.43.0


From f0da4ba56124dbf6ac176bb8434ef661a7a0f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:40 +0000
Subject: [PATCH 18/23] fix: interval literals with huge exponents do not
 escape as std::out_of_range

---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 982283e..012c398 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -435,6 +435,22 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
         mpfr_bin_ieee754_flavor<T>::representation_dec& x)
 {
 
+    // exponent of a literal, huge exponents are limited to a value which is far
+    // beyond the range of all number formats
+    auto exponent = [](std::string const& str) -> int
+    {
+        int const limit = 1000000;
+
+        try
+        {
+            return std::max(-limit, std::min(std::stoi(str), limit));
+        }
+        catch (std::out_of_range const&)
+        {
+            return str[0] == '-' ? -limit : limit;
+        }
+    };
+
     // number without a leading plus sign, which is not understood by GMP
     auto number = [](std::string const& str)
     {
@@ -624,7 +640,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[3].length() > 0)
                                     {
-                                        p += std::stoi(match[3].str());
+                                        p += exponent(match[3].str());
                                     }
 
                                     mpz_var e;
@@ -682,7 +698,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[5].str());
+                                    p += exponent(match[5].str());
 
 
                                     mpz_var e;
@@ -783,7 +799,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[13].length() > 0)
                                     {
-                                        p += std::stoi(match[13].str());
+                                        p += exponent(match[13].str());
                                     }
 
                                     mpz_var e;
@@ -830,7 +846,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[15].str());
+                                    p += exponent(match[15].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -895,7 +911,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[22].length() > 0)
                                     {
-                                        p += std::stoi(match[22].str());
+                                        p += exponent(match[22].str());
                                     }
 
                                     mpz_var e;
@@ -942,7 +958,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[24].str());
+                                    p += exponent(match[24].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -1173,7 +1189,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // exponent (and precision)
                             if (match[6].length() > 0)
                             {
-                                p += std::stoi(match[6].str());
+                                p += exponent(match[6].str());
                             }
 
                             mpz_var e;
-- 
2.43.0


From 8842c4c421a380586077b9a42e82851ca63f4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 19/23] fix: field width and number formats of the stream broke
 up the text of decorated intervals

With std::setw the decoration was padded on its own ([1,2]      _com), with
std::hex a numeric decoration was written in hexadecimal, so that the text
could not be read back.
---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 012c398..d5f62b8 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -381,6 +381,8 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     // generate the decoration string
     std::stringstream buf;
     buf.copyfmt(os);
+    buf.width(0);
+    buf.flags(std::ios_base::dec);      // number formats of the stream are not meant for the decoration
     buf << ((os.iword(p1788::io::punctuation_manip_id) == p1788::io::show_no_punctuation) ? " " : "_") << x.second;
 
 
@@ -404,11 +406,14 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
         }
     } swh(os, buf.str().size());
 
-    // generate bare output
-    operator_interval_to_text(os, x.first);
+    // generate bare output, the field width of the stream is meant for the whole text
+    std::stringstream text;
+    text.copyfmt(os);
+    text.width(0);
+    operator_interval_to_text(text, x.first);
 
     // append decoration
-    return os << buf.str();
+    return os << text.str() + buf.str();
 }
 
 
-- 
2.43.0


From 9d160e98db40af7cf6e20a007cb056c027485e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 20/23] fix: numeric decorations of interval literals were read
 in the number base of the stream

With std::hex set, [1,2]_16 was rejected and [1,2]_10 was read as [1,2]_com.
---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp |  2 ++
 p1788/util/io.hpp                                | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index d5f62b8..4061a3a 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -1046,6 +1046,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 is.get();   // remove underscore
 
                                 p1788::decoration::decoration d;
+                                p1788::util::decimal_guard guard(is);
                                 is >> d;
 
                                 if (is && d <= dec && d != p1788::decoration::decoration::ill)
@@ -1333,6 +1334,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     is.get();   // remove underscore
 
                                     p1788::decoration::decoration d;
+                                    p1788::util::decimal_guard guard(is);
                                     is >> d;
 
                                     if (is && d <= dec && d != p1788::decoration::decoration::ill)
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index ce3bf2f..97ec42b 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -45,6 +45,22 @@ inline void remove_ws(std::basic_istream<CharT, Traits>& is)
 }
 
 
+// Lets a stream read numbers in decimal, whatever its number base is, as long as the object exists
+class decimal_guard
+{
+    std::ios_base& s_;
+    std::ios_base::fmtflags const flags_;
+public:
+    explicit decimal_guard(std::ios_base& s) : s_(s), flags_(s.setf(std::ios_base::dec, std::ios_base::basefield))
+    { }
+
+    ~decimal_guard()
+    {
+        s_.setf(flags_, std::ios_base::basefield);
+    }
+};
+
+
 // transform all ASCII characters to lowercase
 inline void ascii_to_lower(std::string& s)
 {
-- 
2.43.0


From 65370959b957737e004a867fa2fa308f19ac3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 21/23] fix: numbers were written with the decimal point of the
 C locale, so intervals printed under a comma locale were misread or could not
 be printed

---
 p1788/util/mpfr_var.hpp      | 2 ++
 p1788/util/mpfr_var_impl.hpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 490d93d..ca931a1 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -29,6 +29,8 @@
 #define MPFR_USE_INTMAX_T
 
 #include <mpfr.h>
+#include <algorithm>
+#include <clocale>
 #include <string>
 
 #include "p1788/io/io_manip.hpp"
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index a02bdc6..18a6a83 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -276,7 +276,14 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-    return buffer.data;
+    std::string str = buffer.data;
+
+    // mpfr writes the decimal point of the C locale
+    char const* point = std::localeconv()->decimal_point;
+    if (point[0] != '\0' && point[1] == '\0')
+        std::replace(str.begin(), str.end(), point[0], '.');
+
+    return str;
 }
 
 // Reference to the underlying mpfr_t
-- 
2.43.0


From 34ffeddbdfc2d7c84013a11a49979fd54b978e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 22/23] fix: interval literals do not depend on the global C++
 locale

---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp     |  4 ++--
 p1788/util/io.hpp                                    | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 4061a3a..04f0486 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -561,7 +561,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     //    [25] :  rational representation: nominator
                     //    [26] :  rational representation: denominator
                     //    [27] :  string if second argument is "+inf" or "+infinity"
-                    static std::regex inf_sup_regex(
+                    static std::regex inf_sup_regex = p1788::util::classic_regex(
                         //one argument or empty
                         "(?:\\[\\s*("
                         "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
@@ -1133,7 +1133,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     // [4]   direction upward
                     // [5]   direction downward
                     // [6]   exponent
-                    static std::regex uncertain_regex(
+                    static std::regex uncertain_regex = p1788::util::classic_regex(
                         "([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))"          // number
                         "\\?"                                                               // ?
                         "(?:(\\?)|([0-9]+))?"                                               // radius
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index 97ec42b..5a53ce8 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -28,6 +28,8 @@
 #include <ctype.h>
 #include <string>
 #include <algorithm>
+#include <locale>
+#include <regex>
 
 namespace p1788
 {
@@ -61,6 +63,16 @@ public:
 };
 
 
+// Regular expression which is matched in the classic locale, whatever the global locale is
+inline std::regex classic_regex(char const* pattern, std::regex::flag_type flags)
+{
+    std::regex re;
+    re.imbue(std::locale::classic());
+    re.assign(pattern, flags);
+    return re;
+}
+
+
 // transform all ASCII characters to lowercase
 inline void ascii_to_lower(std::string& s)
 {
-- 
2.43.0


From d3d79de6182e80d57b83f9b44b9495fdf4108206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:38 +0000
Subject: [PATCH 23/23] fix: a target was changed by an extraction that failed
 because the source broke

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 04f0486..15fdff0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -1027,6 +1027,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     throw;
                             }
 
+                            // the source broke before it was known if a decoration follows
+                            if (is.bad())
+                                return is;
+
                             // default decoration
                             if (!read_decoration)
                             {
-- 
2.43.0

