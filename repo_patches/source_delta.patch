From b708df1618a4483d71760b0afcb0792c0eefd14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:28 +0000
Subject: [PATCH 1/7] fix: detect overflow in interval addition and subtraction

add64 and sub64 tested for overflow after a signed operation that had
already overflowed, which is undefined: gcc -O3 removed the tests and
add/sub returned wrapped bounds. Compute with unsigned arithmetic.
---
 src/intervals.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..cb6c128 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -81,7 +81,7 @@ interval_t *neg(const interval_t *a) {
 static int64_t add64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x + y;
+  z = (int64_t) ((uint64_t) x + (uint64_t) y); // wraps on overflow
   if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
@@ -93,7 +93,7 @@ static int64_t add64(int64_t x, int64_t y) {
 static int64_t sub64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x - y;
+  z = (int64_t) ((uint64_t) x - (uint64_t) y); // wraps on overflow
   if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
@@ -107,9 +107,9 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned subtraction gives the right answer even
+  // if max - min does not fit in 64 bits.
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From d63dd69c4b2d58edbd86f5822b8f63b496a47d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:28 +0000
Subject: [PATCH 2/7] fix: bounds on red(w * x) for w = 0

max_red_mul and min_red_mul (and red_scale) looped forever or divided by
zero when w = 0.
---
 src/red_bounds.c                         | 10 ++++++++++
 verifier/vstte20-benchmarks/red_bounds.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..e988720 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,11 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +176,11 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
diff --git a/verifier/vstte20-benchmarks/red_bounds.c b/verifier/vstte20-benchmarks/red_bounds.c
index 795beb9..e988720 100644
--- a/verifier/vstte20-benchmarks/red_bounds.c
+++ b/verifier/vstte20-benchmarks/red_bounds.c
@@ -107,6 +107,11 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +176,11 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
-- 
2.43.0


From e07b98cbe0e5add4cb6332ffa3a09874078c8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:00 +0000
Subject: [PATCH 3/7] fix: bounds of red(w * x) over intervals that are not
 symmetric

max_red_mul_interval and min_red_mul_interval stopped early on the
assumption |x| <= b, which fails when -a > b, and so could return a bound
that red(w * x) exceeds, for example for x in [-1000000, 0] and w in
[-100, 1]. They also returned 0, with a witness outside the intervals,
when the extremum was on the other side of 0.
---
 src/red_bounds.c                         | 51 +++++++++++++++---------
 verifier/vstte20-benchmarks/red_bounds.c | 51 +++++++++++++++---------
 2 files changed, 64 insertions(+), 38 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index e988720..245b20a 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -215,17 +215,27 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
 
 
 
+/*
+ * Largest |x| for a <= x <= b
+ */
+static int64_t max_abs(int64_t a, int64_t b) {
+  return (-a > b) ? -a : b;
+}
+
 /*
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  c = max_abs(a, b);
+
+  // start with w = 0 if that's allowed, or w = low otherwise
+  x_max = a;
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = red(w_max * x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -233,10 +243,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -254,8 +264,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -277,23 +287,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   c = max_abs(a, b);
+
+   // start with w = 0 if that's allowed, or w = low otherwise
+   x_min = a;
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = red(w_min * x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -306,12 +319,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
diff --git a/verifier/vstte20-benchmarks/red_bounds.c b/verifier/vstte20-benchmarks/red_bounds.c
index e988720..245b20a 100644
--- a/verifier/vstte20-benchmarks/red_bounds.c
+++ b/verifier/vstte20-benchmarks/red_bounds.c
@@ -215,17 +215,27 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
 
 
 
+/*
+ * Largest |x| for a <= x <= b
+ */
+static int64_t max_abs(int64_t a, int64_t b) {
+  return (-a > b) ? -a : b;
+}
+
 /*
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  c = max_abs(a, b);
+
+  // start with w = 0 if that's allowed, or w = low otherwise
+  x_max = a;
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = red(w_max * x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -233,10 +243,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -254,8 +264,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -277,23 +287,26 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   c = max_abs(a, b);
+
+   // start with w = 0 if that's allowed, or w = low otherwise
+   x_min = a;
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = red(w_min * x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -306,12 +319,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From 96890627ba40dc4d75a633ebed178116d1e274be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:07 +0000
Subject: [PATCH 4/7] fix: keep the results of the naive transforms in [0, q-1]

x % q is negative for a negative x, so the naive transforms, and the
products built on them, returned negative coefficients although their
interface promises results in the range [0 .. Q-1].
---
 src/naive_ntt.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..df4b261 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -14,6 +14,16 @@
 #include "naive_ntt.h"
 
 
+/*
+ * Remainder of x modulo q, between 0 and q-1 even if x is negative
+ * (x >> 31 is -1 if x is negative and 0 otherwise)
+ */
+static inline int32_t mod(int32_t x, int32_t q) {
+  x %= q;
+  return x + (q & (x >> 31));
+}
+
+
 /*
  * UTILITIES
  */
@@ -135,7 +145,7 @@ void ntt_ct_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
     // first loop: j=0 so w_t^j = 1
     for (s=0; s<n; s += t + t) {
       x = a[s + t];
-      a[s + t] = (a[s] - x) % q;
+      a[s + t] = mod(a[s] - x, q);
       a[s] = (a[s] + x) % q;
     }
     // general case: j>0
@@ -144,7 +154,7 @@ void ntt_ct_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
       for (s=j; s<n; s += t + t) {
         //	x = (a[s + t] * w) % Q;
         x = a[s + t] * w;
-        a[s + t] = (a[s] - x) % q;
+        a[s + t] = mod(a[s] - x, q);
         a[s] = (a[s] + x) % q;
       }
     }
@@ -179,7 +189,7 @@ void mulntt_ct_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t
       for (s=j; s<n; s += t + t) {
         //	x = (a[s + t] * w) % Q;
         x = a[s + t] * w;
-        a[s + t] = (a[s] - x) % q;
+        a[s + t] = mod(a[s] - x, q);
         a[s] = (a[s] +  x) % q;
       }
     }    
@@ -221,7 +231,7 @@ void ntt_ct_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
     // first loop: j=0, bitrev(j) = 0
     for (s=0; s<d; s ++) {
       x = a[s + d];
-      a[s + d] = (a[s] - x) % q;
+      a[s + d] = mod(a[s] - x, q);
       a[s] = (a[s] + x) % q;
     }
     u = 0;
@@ -230,7 +240,7 @@ void ntt_ct_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
       u += 2 * d;   // u = 2 * d * j
       for (s=u; s<u+d; s++) {
         x = a[s + d] * w;
-        a[s + d] = (a[s] - x) % q;
+        a[s + d] = mod(a[s] - x, q);
         a[s] = (a[s] +  x) % q;
       }
     }
@@ -272,7 +282,7 @@ void mulntt_ct_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t
       w = p[t + j]; // psi_t * w_t^bitrev(j)
       for (s=u; s<u+d; s++) {
         x = a[s + d] * w;
-        a[s + d] = (a[s] - x) % q;
+        a[s + d] = mod(a[s] - x, q);
         a[s] = (a[s] + x) % q;
       }
     }
@@ -309,7 +319,7 @@ void ntt_gs_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
     // first loop for j=0: w_t^rev(j) = 1
     for (s=0; s<d; s++) {
       x = a[s + d];
-      a[s + d] = (a[s] - x) % q; // ((a[s] - x) * w) mod q
+      a[s + d] = mod(a[s] - x, q); // ((a[s] - x) * w) mod q
       a[s] = (a[s] + x) % q;      
     }
     // general case, j>0, u = 2*d*j
@@ -318,7 +328,7 @@ void ntt_gs_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	//        a[s + d] = modq(sub_mod(a[s], x) * w); // ((a[s] - x) * w) mod q
-	a[s + d] = ((a[s] - x) * w) % q;
+	a[s + d] = mod((a[s] - x) * w, q);
         a[s] = (a[s] + x) % q;
       }
     }
@@ -354,7 +364,7 @@ void nttmul_gs_rev2std_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	//        a[s + d] = modq(sub_mod(a[s], x) * w); // ((a[s] - x) * w) mod q
-	a[s + d] = ((a[s] - x) * w) % q;
+	a[s + d] = mod((a[s] - x) * w, q);
         a[s] = (a[s] + x) % q;
       }
     }
@@ -388,7 +398,7 @@ void ntt_gs_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
     // first loop: j=0 so w_t^j = 1
     for (s=0; s<n; s += t + t) {
       x = a[s + t];
-      a[s + t] = (a[s] - x) % q;
+      a[s + t] = mod(a[s] - x, q);
       a[s] = (a[s] + x) % q;
     }
     // rest: j=1 to t-1
@@ -397,7 +407,7 @@ void ntt_gs_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q)
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	//        a[s + t] = modq(sub_mod(a[s], x) * w); // (a[s] - x) * w_t^j mod q
-	a[s + t] = ((a[s] - x) * w) % q;
+	a[s + t] = mod((a[s] - x) * w, q);
         a[s] = (a[s] + x) % q;
       }
     }
@@ -430,7 +440,7 @@ void nttmul_gs_std2rev_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	//        a[s + t] = modq(sub_mod(a[s], x) * w); // (a[s] - x) * w
-	a[s + t] = ((a[s] - x) * w) % q;
+	a[s + t] = mod((a[s] - x) * w, q);
         a[s] = (a[s] + x) % q;
       }
     }
-- 
2.43.0


From 2490ac92f5deace0aa1421f597c0c56c8283c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:25 +0000
Subject: [PATCH 5/7] fix: ignore the upper half of rsi in the assembly
 functions

The array size is a uint32_t and the calling convention leaves the upper
32 bits of its register undefined, but all functions used rsi as a 64bit
size, so a caller that narrows a 64bit size crashed or corrupted memory.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..cb35759 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                // the array size is a 32bit integer
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                // the array size is a 32bit integer
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                // the array size is a 32bit integer
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From a5a6584c5443e9f590089c6174bb59974e0ae780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:09 +0000
Subject: [PATCH 6/7] fix: no signed overflow in mul_red at the top of its
 documented range

---
 src/ntt_red.c                         | 4 +---
 verifier/vstte20-benchmarks/ntt_red.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..3a14fa2 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -40,9 +40,7 @@ static int32_t mul_red(int32_t x, int32_t y) {
   int64_t z;
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  return 3 * (z & 4095) - (z >> 12); // 64 bits: z >> 12 may be 2^31
 }
 
 #if 0
diff --git a/verifier/vstte20-benchmarks/ntt_red.c b/verifier/vstte20-benchmarks/ntt_red.c
index 8cf7c4a..8fba50f 100644
--- a/verifier/vstte20-benchmarks/ntt_red.c
+++ b/verifier/vstte20-benchmarks/ntt_red.c
@@ -54,9 +54,7 @@ static int32_t mul_red(int32_t x, int32_t y) {
 #ifdef USE_CRAB_INTRINSICS
   return __CRAB_intrinsic_red(z);
 #else
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  return 3 * (z & 4095) - (z >> 12); // 64 bits: z >> 12 may be 2^31
 #endif   
 }
 
-- 
2.43.0


From f9b15b1da10750a6844cc42e779e74c0f630dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:30 +0000
Subject: [PATCH 7/7] fix: the table generators exit with a failure status if a
 file cannot be written in full

---
 src/make_bitrev_table.c                         | 17 +++++++++++++++--
 src/make_red_tables.c                           | 17 +++++++++++++++--
 src/make_tables.c                               | 17 +++++++++++++++--
 verifier/vstte20-benchmarks/make_bitrev_table.c | 17 +++++++++++++++--
 verifier/vstte20-benchmarks/make_red_tables.c   | 17 +++++++++++++++--
 verifier/vstte20-benchmarks/make_tables.c       | 17 +++++++++++++++--
 6 files changed, 90 insertions(+), 12 deletions(-)

diff --git a/src/make_bitrev_table.c b/src/make_bitrev_table.c
index 883fb68..f77e96b 100644
--- a/src/make_bitrev_table.c
+++ b/src/make_bitrev_table.c
@@ -122,6 +122,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +167,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +175,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_red_tables.c b/src/make_red_tables.c
index 45e8980..9912089 100644
--- a/src/make_red_tables.c
+++ b/src/make_red_tables.c
@@ -416,6 +416,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -500,7 +513,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -508,7 +521,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_tables.c b/src/make_tables.c
index b567de5..c4aa4f2 100644
--- a/src/make_tables.c
+++ b/src/make_tables.c
@@ -355,6 +355,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +440,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +448,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_bitrev_table.c b/verifier/vstte20-benchmarks/make_bitrev_table.c
index 883fb68..f77e96b 100644
--- a/verifier/vstte20-benchmarks/make_bitrev_table.c
+++ b/verifier/vstte20-benchmarks/make_bitrev_table.c
@@ -122,6 +122,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +167,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +175,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_red_tables.c b/verifier/vstte20-benchmarks/make_red_tables.c
index c500678..bccd5a1 100644
--- a/verifier/vstte20-benchmarks/make_red_tables.c
+++ b/verifier/vstte20-benchmarks/make_red_tables.c
@@ -398,6 +398,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -482,7 +495,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -490,7 +503,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_tables.c b/verifier/vstte20-benchmarks/make_tables.c
index 4aeef4e..aeec2b2 100644
--- a/verifier/vstte20-benchmarks/make_tables.c
+++ b/verifier/vstte20-benchmarks/make_tables.c
@@ -355,6 +355,19 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f: fail if anything could not be written
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +440,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +448,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
-- 
2.43.0

