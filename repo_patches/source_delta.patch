From 37ae4ad043ccb81ed2de4624308b279d93bcf666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 01/96] fix: middle_product overflowed its delayed reduction
 for more than KARX terms

---
 .../lzz_pX_middle_product/src/lzz_pX_middle_product.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..9c8ff92 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -29,6 +29,10 @@ void tPlainMul2(zz_p *b, long sb, const zz_p *a, long sa, const zz_p *c, long sc
     long p = zz_p::modulus();
     mulmod_t pinv = PrepMulMod(p);
 
+    // the caller's choice of use_long assumes at most KARX accumulated terms
+    if (use_long && sa > KARX)
+        use_long = (p < NTL_SP_BOUND/sa && p*sa < NTL_SP_BOUND/p);
+
     if (use_long == 0)
     {
         for (long i = 0; i < sb; i++)
-- 
2.43.0


From f37fb4e83b2dc35604ba4811f5bf98c9978146a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 02/96] fix: add_LeftShift on polynomials for b = 0 and for c
 aliasing b

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..406a54b 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -443,9 +443,21 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 
 /** Computes `c = a + (b << k)`, where the left shift means multiplication by
  * `X^k`. The integer `k` must be nonnegative. The OUT parameter `c` may alias
- * `a` but not `b`. */
+ * `a` or `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+   if (&c == &b)
+   {
+       const zz_pX bb(b);
+       add_LeftShift(c, a, bb, k);
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 8a0ac529e59acc5a762858e4fc71b492f933b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:48 +0000
Subject: [PATCH 03/96] fix: Taylor shift of the zero polynomial read a
 factorial table of length 0

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 406a54b..e0302be 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -367,6 +367,10 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    // nothing to precompute if only the zero polynomial is to be shifted
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From 86983531c05a5c378d0ec8729697a0e6ae1a262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:58 +0000
Subject: [PATCH 04/96] fix: the point of a one-point geometric progression is
 s, not s*r

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From c74a92163d3bc2be597eb26cd429226f17b24c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:58 +0000
Subject: [PATCH 05/96] fix: geometric evaluation at zero points returned
 uninitialised values

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 15b8828..750a821 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -349,12 +349,13 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long nb) const
 {
-    val.SetLength(nb + n);
-
     if (nb == 0) 
     {
+        val.SetLength(0);
         return;
     }
+
+    val.SetLength(nb + n);
     
     long idx = 0;
     Vec<zz_p> tmp;
-- 
2.43.0


From 0f3c0dad8327d123d9beba3f7e468824202a052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:39 +0000
Subject: [PATCH 06/96] fix: matrix and left products of triangular Toeplitz,
 circulant and *_like_* matrices were empty stubs; to_dense kept stale entries

---
 .../src/circulant_column_lzz_p.cpp            | 12 ++------
 .../src/circulant_row_lzz_p.cpp               | 13 ++------
 .../src/hankel_like_minus_lzz_p.cpp           | 25 ++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 21 +++++++++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   | 13 ++------
 .../src/toeplitz_like_minus_lzz_p.cpp         | 21 +++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 21 +++++++++++++
 .../structured_lzz_p/structured_lzz_p.h       | 30 +++++++++++++++++++
 8 files changed, 125 insertions(+), 31 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..1d8691d 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -171,11 +171,7 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         LogicError("Wrong size for circulant_column_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
+    mul_right_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -242,11 +238,7 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         LogicError("Wrong size for circulant_column_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..25de66c 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -152,12 +152,7 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         LogicError("Wrong size for circulant_row_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+    mul_right_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -244,11 +239,7 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         LogicError("Wrong size for circulant_row_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..0085267 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,7 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +121,33 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -132,6 +156,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..44a644a 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,7 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +117,29 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -128,6 +148,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..79e064f 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -62,6 +62,7 @@ long lower_triangular_toeplitz_lzz_p::NumRows() const
 void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
@@ -120,11 +121,7 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         LogicError("Bad size for lower_triangular_toeplitz_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
+    mul_right_columns(res, input);
 }
 
 
@@ -186,11 +183,7 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         LogicError("Bad size for lower_triangular_toeplitz_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..4cb0d86 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,7 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +122,29 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -133,6 +153,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..5c82595 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,7 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_right_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +113,29 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    mul_left_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -124,6 +144,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/structured_lzz_p.h b/ntl-extras/structured_lzz_p/structured_lzz_p.h
index a7ba93b..804f1e1 100644
--- a/ntl-extras/structured_lzz_p/structured_lzz_p.h
+++ b/ntl-extras/structured_lzz_p/structured_lzz_p.h
@@ -77,6 +77,36 @@ public:
         to_dense(dense);
         return dense;
     }
+
+protected:
+    /*------------------------------------------------------------*/
+    /* matrix products, one vector at a time                      */
+    /*------------------------------------------------------------*/
+    inline void mul_right_columns(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        Vec<zz_p> col;
+        res.SetDims(NumRows(), in.NumCols());
+        col.SetLength(in.NumRows());
+        for (long j = 0; j < in.NumCols(); j++)
+        {
+            for (long i = 0; i < in.NumRows(); i++)
+                col[i] = in[i][j];
+            const Vec<zz_p> prod = mul_right(col);
+            for (long i = 0; i < NumRows(); i++)
+                res[i][j] = prod[i];
+        }
+        out.swap(res);
+    }
+
+    inline void mul_left_rows(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        res.SetDims(in.NumRows(), NumCols());
+        for (long i = 0; i < in.NumRows(); i++)
+            res[i] = mul_left(in[i]);
+        out.swap(res);
+    }
 };
 
 
-- 
2.43.0


From 11c2b96a10857d970d5f2583b1406631b0ba8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:39 +0000
Subject: [PATCH 07/96] fix: circulant_column left product wrote past its
 buffer when there are fewer columns than rows

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index 1d8691d..8e84558 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -194,7 +194,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From 5fe82e006532d455a933a6b4cea88eb8f96f153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:43 +0000
Subject: [PATCH 08/96] fix: Sylvester top_right_block_inverse read past the
 end of the cofactors when they have small degree

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..2376898 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -514,13 +514,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From 07e23b241790cf5187851fd4a9873f359c515c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:53 +0000
Subject: [PATCH 09/96] fix: Cauchy-like mul_right_sigma_UL left its output
 untouched

---
 .../structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..55c3d88 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -175,6 +175,9 @@ void cauchy_like_geometric_lzz_p::mul_right_direct(Mat<zz_p>& output, const Mat<
 /*------------------------------------------------------------*/
 void cauchy_like_geometric_lzz_p::mul_right_sigma_UL(Mat<zz_p> & output, const Mat<zz_p> & input) const
 {
+    // todo: the toeplitz_like version below is not available yet
+    mul_right_direct(output, input);
+
     // long m = NumRows();
     // long n = NumCols();
     // long alpha = NumGens();
-- 
2.43.0


From 33f20f80ce54645a00ee52586a729d74b55d4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 10/96] fix: Toeplitz vector products aborted on empty matrices
 (reached by solve_grp on a zero matrix)

---
 ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
index 9e14665..601a55a 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_lzz_p.cpp
@@ -89,6 +89,12 @@ void toeplitz_lzz_p::mul_right(Vec<zz_p>& res, const Vec<zz_p>& input) const
     }
 
     res.SetLength(n);
+    if (n == 0 || m == 0) // empty matrix
+    {
+        clear(res);
+        return;
+    }
+
 
     if (min(n, m) <= (2*NTL_zz_pX_MUL_CROSSOVER)/4)
     {
@@ -219,6 +225,12 @@ void toeplitz_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) const
     }
 
     res.SetLength(m);
+    if (n == 0 || m == 0) // empty matrix
+    {
+        clear(res);
+        return;
+    }
+
     if (min(n, m) <= (2*NTL_zz_pX_MUL_CROSSOVER)/4)
     {
         Vec<zz_p> in_rev;
-- 
2.43.0


From 4377bddbab819cfc3a5cb5cef8643c9e18a361a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:15 +0000
Subject: [PATCH 11/96] fix: mosaic solve read an empty vector when there is no
 solution, and preconditioned with possibly zero diagonal entries

---
 .../structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 14 ++++++++++++--
 .../structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..fb0e5f4 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0); // the diagonal matrix must be invertible
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0); // the diagonal matrix must be invertible
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
@@ -623,6 +627,12 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..78188e6 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0); // the diagonal matrix must be invertible
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0); // the diagonal matrix must be invertible
 
 
     // gens 0 to alpha-1
@@ -641,6 +645,12 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
-- 
2.43.0


From 402b8f67314d415f20568e1c7ef6bc030bebf9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:44 +0000
Subject: [PATCH 12/96] fix: polynomial Sylvester products crashed on zero
 operands (Kronecker step of length 0)

---
 .../src/sylvester_lzz_pX.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..22f3dee 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,8 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);    
+    long dGx = max(deg(in_G), 0L);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +137,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);    
+    long dGx = max(deg(in_G), 0L);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +147,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L);
+    long dTBx = max(deg(truncB), 0L);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +202,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L);
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +270,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L);
+    long dTAx = max(deg(revA_trunc), 0L);
+    long dTBx = max(deg(revB_trunc), 0L);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
-- 
2.43.0


From ac2e097b3d5e01629d34a067189bfc660deedb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:44 +0000
Subject: [PATCH 13/96] fix: to_dense of polynomial triangular Toeplitz and
 Toeplitz-like matrices kept stale entries

---
 .../structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp   | 1 +
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..44dc71a 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -92,6 +92,7 @@ long lower_triangular_toeplitz_lzz_pX::NumRows() const
 void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From c8b0b9c21e0863d758b9144b201143a5f2cd0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:15 +0000
Subject: [PATCH 14/96] fix: zz_pXY shift_y applied the shift twice in place
 and aborted past the degree; random_zz_pXY was not normalized

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..c17d183 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
@@ -355,6 +356,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
@@ -368,7 +370,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(dy + 1 + i, 0L));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From 55efadcda63d3249ed6dfd46d50504d8891a6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 15/96] fix: block-projection resultants returned wrong results
 for unbalanced y-degrees (too few points / too large blocks)

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index c17d183..e52aa79 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -529,7 +529,7 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long d = max(df, dg);
 
     long xtra = 2;
-    long m = (long) cbrt(n);
+    long m = max(1L, min((long) cbrt(n), min(nf, ng)));
     long delta = 2 * 2 * d * ((n + m - 1)/m) + xtra;
 
 
@@ -624,9 +624,12 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long res_deg = f.tdeg() * g.tdeg();
 
     // block projection parameters:
-    // block-size m and expansion length 1 + 2*ceil(d/m)
-    long m = (long) cbrt((nf+ng)/2);  // FIXME allow handpicked exponent
-    long d = 1 + nf+ng + 2 * (res_deg+m-1) / m;
+    // block-size m and expansion length 1 + 2*ceil(d/m), plus an offset
+    // which must account for numerators having degree ng-1 more than denominators
+    // (m at most (ng+1)/2 so that in each entry of the block, the numerator
+    // degree is at least the denominator degree)
+    long m = min((long) cbrt((nf+ng)/2), (ng+1)/2);  // FIXME allow handpicked exponent
+    long d = 1 + max(nf+ng, 2*ng) + 2 * (res_deg+m-1) / m;
 
     /* std::cout << "res deg: " << res_deg << std::endl; */
     /* std::cout << "Sylvester dim: " << nf+ng << std::endl; */
-- 
2.43.0


From ef545a5447533e7c6824765fa550bd34a3cce4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:37 +0000
Subject: [PATCH 16/96] fix: conversion to a coefficient list read past entries
 of smaller degree; truncRow/truncCol left the other entries uninitialised

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..eb3e827 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,14 +255,16 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
         trunc(x[r][c], a[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
         trunc(x[r][c], a[r][c], n);
 }
@@ -571,7 +573,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 39be8fc9404d507c147682a8eb524ec3c73f2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:22 +0000
Subject: [PATCH 17/96] fix: is_col_popov scanned NumRows columns: wrong answer
 or out-of-bounds access for non-square matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From 567d74f98830116e107647594b1b628d0f845d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:13 +0000
Subject: [PATCH 18/96] fix: multiply(is_prime=0) divided by 2 modulo even
 moduli and dropped is_prime when the output aliases an input

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp       | 2 +-
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..6b987aa 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -24,7 +24,7 @@ void multiply(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b, long i
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
-        multiply(c2, a, b);
+        multiply(c2, a, b, is_prime);
         c.swap(c2);
         return;
     }
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
index 157e245..c19e637 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
@@ -11,7 +11,7 @@ void multiply_waksman(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b
 {
     const long n = a.NumCols();
 
-    if (zz_p::modulus() == 2 || n < 2)
+    if (zz_p::modulus() % 2 == 0 || n < 2)
     {
         multiply_naive(c, a, b);
         return;
-- 
2.43.0


From b567956358ca6abaffae6f7f0e130d73220c8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:36 +0000
Subject: [PATCH 19/96] fix: row vector times polynomial matrix always aborted
 (swap with a fixed-length row)

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 6b987aa..0e09e2f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,7 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c = cmat[0]; // (rows of a Mat are fixed-length: they cannot be swapped out)
 }
 
 
-- 
2.43.0


From 86b6e16ed1e59140379964bdeb4018c0ee532eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:57 +0000
Subject: [PATCH 20/96] fix: named matrix multiplication algorithms crashed or
 returned a wrong shape on zero operands

---
 .../src/mat_lzz_pX_multiply_evaluate_FFT.cpp  | 40 +++++++++++++++++++
 .../mat_lzz_pX_multiply_evaluate_dense.cpp    | 16 ++++++++
 ...mat_lzz_pX_multiply_evaluate_geometric.cpp |  2 +-
 .../src/mat_lzz_pX_multiply_transform.cpp     |  8 ++++
 4 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..71ccf3a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -47,6 +47,14 @@ static inline void mul_add(Vec<ll_type>& z, const fftRep& x, const fftRep& y)
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_direct_ll_type(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
 #if defined(NTL_HAVE_LL_TYPE) && defined(NTL_HAVE_SP_LL_ROUTINES) \
      && defined(__GNUC__) && (__GNUC__ >= 4) && !defined(__INTEL_COMPILER)  && !defined(__clang__) \
      && defined (__x86_64__) && NTL_BITS_PER_LONG == 64
@@ -172,6 +180,14 @@ void multiply_evaluate_FFT_direct_ll_type(Mat<zz_pX> & c, const Mat<zz_pX> & a,
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_direct(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
@@ -232,6 +248,14 @@ void multiply_evaluate_FFT_direct(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Ma
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul1(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
@@ -343,6 +367,14 @@ void multiply_evaluate_FFT_matmul1(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
@@ -447,6 +479,14 @@ void multiply_evaluate_FFT_matmul2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
 /*------------------------------------------------------------*/
 void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     // dimensions
     const long s = a.NumRows();
     const long t = a.NumCols();
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index a27cac5..daf946f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -104,6 +104,14 @@ void vandermonde2(
 /*------------------------------------------------------------*/
 void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     const long dA = deg(a);
     const long dB = deg(b);
     const long min_dAdB = std::min<long>(dA,dB);
@@ -258,6 +266,14 @@ void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_
 /*------------------------------------------------------------*/
 void multiply_evaluate_dense2(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b)
 {
+    if (IsZero(a) || IsZero(b))
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     // dimensions and degrees
     const long dA = deg(a);
     const long dB = deg(b);
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
index a93dc6b..e659460 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
@@ -12,6 +12,14 @@ void multiply_transform_naive(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz
     long dA = deg(a);
     long dB = deg(b);
 
+    if (dA < 0 && dB < 0) // the transform below would have length 0
+    {
+        const long m = a.NumRows(), p = b.NumCols();
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
     zz_pX_Transform_naive trs_naive(max(dA, dB) + 1);
 
     Vec<Mat<zz_p>> valA, valB, valC;
-- 
2.43.0


From bf54e0ba4b45aa43261b8994f28f378264938956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:57 +0000
Subject: [PATCH 21/96] fix: multiply_evaluate_FFT_matmul3 dereferenced an
 empty buffer for one inner column

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index 71ccf3a..0475504 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -552,6 +552,7 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
 
     // interpolate c from the values in mat_valA
     c.SetDims(s, u);
+    R.tbl[0].SetLength(n); // may be empty here; will be swapped into RR below
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
         {
-- 
2.43.0


From c48ce8118399d3116eb0cc9cbd124c65c88bd20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:03 +0000
Subject: [PATCH 22/96] fix: middle_product of polynomial matrices ignored
 degrees above its bounds and mishandled a zero left factor

---
 .../src/mat_lzz_pX_middle_product.cpp          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..2c62952 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -20,6 +20,24 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        const long m = a.NumRows(), p = c.NumCols();
+        b.SetDims(m, p);
+        clear(b);
+        return;
+    }
+    // the algorithms below require deg(a) <= dA and deg(c) <= dA+dB
+    if (degA > dA)
+    {
+        middle_product(b, trunc(a, dA+1), c, dA, dB, is_prime);
+        return;
+    }
+    if (deg(c) > dA + dB)
+    {
+        middle_product(b, a, trunc(c, dA+dB+1), dA, dB, is_prime);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 20963e09bc845c59fdc06380ff3f8fc83779e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:03 +0000
Subject: [PATCH 23/96] fix: middle_product_evaluate_FFT_matmul3 dereferenced
 an empty buffer for one inner column

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..cc4d1f2 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -570,6 +570,7 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
     }
 
     b.SetDims(s, u);
+    R.tbl[0].SetLength(len); // may be empty here; will be swapped into RR below
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
         {
-- 
2.43.0


From 2cec4b159b0a13f004f1a8a7fe33db0053b544cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:33 +0000
Subject: [PATCH 24/96] fix: middle_product_3_primes used too few primes when
 dB < dA

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..42fdd3a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // each coefficient of the slice is a sum of up to dA+1 products (dB plays no role)
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From 40ee6172d63a918b242789b56b6d4a260ab8d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 25/96] fix: left multipliers crashed on a zero left factor and
 ignored the field size when choosing dense evaluation

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h          | 4 ++--
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h
index e03ae4b..66af181 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_multiply.h
@@ -407,7 +407,7 @@ public:
      * for right-hand side to be multiplied */
     mat_lzz_pX_lmultiplier(const Mat<zz_pX> & a, long dB) :
         __s(a.NumRows()), __t(a.NumCols()), __dB(dB)
-    { __dA = deg(a); }
+    { __dA = std::max<long>(0, deg(a)); } // the zero matrix is handled as a constant one
 
     /** Computes `c = this * b`. Must be defined in non-abstract derived
      * classes. */
@@ -432,7 +432,7 @@ public:
 
 protected:
     long __s, __t;  /**< number of rows and columns */
-    long __dA;  /**< degree of this */
+    long __dA;  /**< degree of this (0 if this is zero) */
     long __dB;  /**< maximum degree for right-hand side */
 };
 
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..6cd0ad3 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -566,7 +566,7 @@ void mat_lzz_pX_lmultiplier_dense::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
 /* constructor: builds up to 3 FFT multipliers                */
 /*------------------------------------------------------------*/
 mat_lzz_pX_lmultiplier_3_primes::mat_lzz_pX_lmultiplier_3_primes(const Mat<zz_pX> & a, long dB):
-    mat_lzz_pX_lmultiplier(a, dB), primes(a.NumCols(), deg(a), dB) // TODO improve: this computes twice deg(a)...
+    mat_lzz_pX_lmultiplier(a, dB), primes(a.NumCols(), __dA, dB)
 {
     long nb = primes.nb();
     FFT_muls.SetLength(nb);
@@ -646,7 +646,8 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        // dense evaluation requires at least deg(a)+dB+1 points in the field
+        if (std::max<long>(0,dA)+dB < zz_p::modulus() && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From c5f5de53b0b7722c056589ea9b98865f06e1fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 26/96] fix: partial linearization aborted on short entries and
 zero columns; linearized products accumulated into stale or aliased output

---
 .../mat_lzz_pX_linearization.h                |  6 +--
 .../src/mat_lzz_pX_linearization.cpp          | 45 +++++++------------
 2 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 7acfa64..7a66033 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -169,7 +169,7 @@ inline VecLong column_partial_linearization(
                                            )
 {
     long parlin_degree = std::accumulate(target_degree.begin(), target_degree.end(), 0);
-    parlin_degree = 1 + parlin_degree / target_degree.size();
+    parlin_degree = 1 + parlin_degree / (long)target_degree.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, target_degree);
 }
@@ -184,7 +184,7 @@ inline VecLong column_partial_linearization_cdeg(
     VecLong cdeg(pmat.NumCols());
     col_degree(cdeg, pmat);
     long parlin_degree = std::accumulate(cdeg.begin(), cdeg.end(), 0);
-    parlin_degree = 1 + parlin_degree / cdeg.size();
+    parlin_degree = 1 + parlin_degree / (long)cdeg.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, cdeg);
 }
@@ -250,7 +250,7 @@ inline void right_parlin_multiply(
 {
     VecLong cdeg(b.NumCols());
     col_degree(cdeg, b);
-    right_parlin_multiply(c, a, b, deg(a), cdeg);
+    right_parlin_multiply(c, a, b, std::max<long>(0,deg(a)), cdeg);
 }
 
 /* c = trunc( trunc(a, dA+1)*b div x^dA, dB+1 )           */
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..760d365 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -136,10 +136,9 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
-            const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
-            for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
-                parlin[i][jj][dd] = coeff(pmat[i][j], d++);
+            // last expanded column: all remaining coefficients, possibly none
+            if (jj<parlin_cols[j+1])
+                RightShift(parlin[i][jj], pmat[i][j], d);
         }
     }
 
@@ -193,10 +192,9 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
-            const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
-            for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
-                parlin[i][jj][dd] = coeff(pmat[i][j], d++);
+            // last expanded column: all remaining coefficients, possibly none
+            if (jj<parlin_cols[j+1])
+                RightShift(parlin[i][jj], pmat[i][j], d);
         }
     }
 
@@ -225,22 +223,17 @@ void right_parlin_multiply(
 
     // compress the product back into c
     c.SetDims(a.NumRows(), b.NumCols());
-    for (long i=0; i<a.NumRows(); ++i)
-    {
-        long deg_a = deg(a[i]);
-        for (long j=0; j<b.NumCols(); ++j)
+    for (long i=0; i<c_parlin.NumRows(); ++i)
+        for (long j=0; j<c.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                c[i][j] += c_parlin[i][jj] << d_init;
                 d_init += parlin_degree+1;
             }
-            c[i][j].normalize();
         }
-    }
 }
 
 /* returns trunc( a*b div x^dA, dB+1 )           */
@@ -255,7 +248,8 @@ void right_parlin_middle_product(
                                  long dB
                                 )
 {
-    long d_inf = dA-deg(a);
+    const long deg_a = std::max<long>(0,deg(a));
+    long d_inf = dA-deg_a;
     VecLong parlin_degrees(b.NumCols(),parlin_degree);
     // compute the column partial linearization of b
     Mat<zz_pX> b_parlin;
@@ -267,24 +261,19 @@ void right_parlin_middle_product(
 
     // compress the product back into c
     c.SetDims(a.NumRows(), b.NumCols());
-    for (long i=0; i<a.NumRows(); ++i)
-    {
-        long deg_a = deg(a[i]);
-        for (long j=0; j<b.NumCols(); ++j)
+    for (long i=0; i<c_parlin.NumRows(); ++i)
+        for (long j=0; j<c.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            clear(c[i][j]);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-                for (long d=0; d<=deg(c_parlin[i][jj]); ++d)
-                    c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
+                c[i][j] += c_parlin[i][jj] << d_init;
                 d_init += parlin_degree+1;
             }
-            //c[i][j].normalize(); // TODO remove?
-            c[i][j] >>= deg(a);  // precompute deg(a)
+            c[i][j] >>= deg_a;
             trunc(c[i][j], c[i][j], dB+1);
         }
-    }
 }
 
 PML_END_IMPL
-- 
2.43.0


From 06309f70ded29440ebc8b014f0c34af801a9f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:42 +0000
Subject: [PATCH 27/96] fix: Newton truncated inverse read stale coefficients
 of a recycled output, and the geometric variant aborted when starting at
 order 1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..b167c97 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++) // may hold values from a former use of x
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -332,7 +335,7 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        long n = std::max<long>(2*k, 3*k - 2); // at least 2*k, since we evaluate in degree 2*k-1
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
@@ -405,7 +408,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++) // may hold values from a former use of x
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From e62dbbeb9c1333ad5b159d54ef1103fcfd5c8336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:50 +0000
Subject: [PATCH 28/96] fix: linsolve_via_kernel reported no solution for
 solvable systems

The row of the kernel basis giving a solution was looked for by its
shifted pivot index, but the denominator is the pivot entry only when the
transpose of A is row reduced. Any kernel row with nonzero last entry
gives a solution, and there is one exactly when the system is solvable.
---
 .../src/mat_lzz_pX_linsolve.cpp               | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..19ac95b 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -462,37 +462,29 @@ long linsolve_via_kernel(
     // shift = row degree of augmented matrix
     // --> this is the shift which ensures good efficiency for the used kernel
     // algorithm (Zhou-Labahn-Storjohann ISSAC 2012)
-    // --> with this shift, we are sure to obtain a vector in the kernel of
-    // the form [ -- u -- | den ] with den being the pivot entry (hence,
-    // gives an irreducible solution)
     VecLong shift;
     row_degree(shift, pmat);
-    VecLong copy_shift(shift);
 
     // compute kernel
     // TODO via ZLS-approx... for larger dimensions sometimes interp might be better: needs tuning
     Mat<zz_pX> kerbas;
     kernel_basis_zls_via_approximation(kerbas, pmat, shift);
 
-    // compute shifted pivot index of kernel
-    // Note that here copy_shift is a copy of the initial shift while `shift`
-    // is merely used as a temporary variable which will hold the pivot
-    // degrees, which we just ignore (they are not needed)
-    VecLong pivind;
-    row_pivots(pivind, shift, kerbas, copy_shift);
-
-    // find index of row of kerbas with pivot index in the last entry
-    VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
+    // find a row [ -- u -- | den ] of kerbas with den nonzero
+    // (den is not always the pivot entry: the transpose of A may not be row
+    // reduced; when A is square and nonsingular, kerbas has a single row, which
+    // is primitive, hence gives an irreducible solution)
+    long row = 0;
+    while (row < kerbas.NumRows() && IsZero(kerbas[row][n]))
+        ++row;
 
     // if no such row, there is no solution
     // --> may happen if kernel is empty, which itself may happen only if m > n
     // --> may also happen if A is rank-deficient but b is not in the
     // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    if (row == kerbas.NumRows())
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From 1ab49225e1d6e7bbf962efe58b8a1af8b3f76082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:19 +0000
Subject: [PATCH 29/96] fix: linsolve_via_series overwrote its right-hand side
 in the constant case

The output vector may alias b (documented), but for a constant matrix it
was overwritten entry by entry while b was still being read.
---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 19ac95b..ab7cc15 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,8 +314,8 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
         // TODO write function for mul(u, iA, b);
+        Vec<zz_pX> sol(INIT_SIZE, n); // u may alias b
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
         {
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            sol[i].swap(buf1);
         }
+        u.swap(sol);
         set(den);
         return;
     }
-- 
2.43.0


From ab99c205b6e5f27f694ec6bc384cef7722648ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:05 +0000
Subject: [PATCH 30/96] fix: approximant_basis read past the end of its default
 shift

With the default argument the shift is empty: it stands for the uniform
shift, but was indexed as if it had one entry per row.
---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
index cadf63d..cec7ed0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
@@ -33,6 +33,8 @@ void approximant_basis(
     if (row_wise && not generic)
     {
         rdeg = shift;
+        if (rdeg.empty()) // default: uniform shift
+            rdeg.resize(pmat.NumRows(), 0);
         if (form<PolMatForm::POPOV)
         {
             appbas_iterative(appbas,pmat,order,rdeg);
-- 
2.43.0


From 28e020ab9c7a08f56b7f0f138868b22dff75a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 31/96] fix: popov_mbasis_rescomp_generic was not in Popov form
 for uneven degrees

The leading matrix was read at the degree of the whole basis, which is
right only if all rows have the same degree, that is, when the number of
rows divides order * number of columns.
---
 .../src/mat_lzz_pX_pmbasis_generic.cpp            | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..8d55d37 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2370,16 +2370,15 @@ void popov_mbasis_rescomp_generic(
     // (this is the only difference with the "non-generic non-Popov" variant of
     // that algorithm)
     // retrieve -rdeg - leading matrix  (only valid in this generic case!)
-    Mat<zz_p> L = coeffs_appbas[deg_appbas];
-    for (long i = 0; i < pmat.NumRows(); i++)
-        if (L[i][i] == 0)
-            L[i][i] = 1;
+    // `shift` is the row degree, and the pivots are on the diagonal: this is
+    // the matrix whose column j is the coefficient of degree shift[j]
+    Mat<zz_p> L(INIT_SIZE, m, m);
+    for (long i = 0; i < m; i++)
+        for (long j = 0; j < m; j++)
+            L[i][j] = coeffs_appbas[shift[j]][i][j];
     inv(L, L);
-    for (long k = 0; k < deg_appbas; k++)
+    for (long k = 0; k <= deg_appbas; k++)
         mul(coeffs_appbas[k], L, coeffs_appbas[k]);
-    for (long i = 0; i < pmat.NumRows(); i++)
-        for (long j = 0; j < i; j++)
-            coeffs_appbas[deg_appbas][i][j] = 0;
     appbas = conv(coeffs_appbas);
 #ifdef MBASIS_PROFILE
     t_others += GetWallTime()-t_now;
-- 
2.43.0


From ac20a299cf9a4ff2d86acc6243350a882cf08d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:02 +0000
Subject: [PATCH 32/96] fix: matrix_pade_generic_iterative aborted at order 3

For order 3 the last step ran on a kernel and on residual blocks that only
the iterations of larger orders initialize.
---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 8d55d37..3e2e3d0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1752,6 +1752,13 @@ void matrix_pade_generic_iterative(
         }
     }
 
+    if (odd_order && d==1) // order==3: K0 and R_bot have not been initialized yet
+    {
+        K0 = D2[1];
+        R_bot[1].SetDims(n,n);
+        R_bot[2].SetDims(n,n);
+    }
+
     if (odd_order) // order==2d+1: one more iteration
     {
 #ifdef MATRIX_PADE_GEN_PROFILE
-- 
2.43.0


From 71458f6c87c08073ae33dad3294a38e3616dc778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:27 +0000
Subject: [PATCH 33/96] fix: generic approximant and Pade routines returned
 unnormalized polynomials

Entries were filled coefficient by coefficient and never normalized: when
the top coefficient happens to be zero, the entry has a wrong degree.
---
 .../src/mat_lzz_pX_pmbasis_generic.cpp        | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 3e2e3d0..17f56cf 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -644,6 +644,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -652,6 +653,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -662,6 +664,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -669,6 +672,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -695,6 +699,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -702,6 +707,7 @@ void mbasis_generic_2n_n_rescomp(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -713,6 +719,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -721,6 +728,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1224,6 +1232,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1232,6 +1241,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -1242,6 +1252,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1249,6 +1260,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1276,6 +1288,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P00[k][i][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1283,6 +1296,7 @@ void mbasis_generic_2n_n_resupdate(
                 appbas[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     appbas[i][j][k] = P01[k][i][jmn];
+                appbas[i][j].normalize();
             }
         }
         for (long i = n; i < 2*n; ++i)
@@ -1294,6 +1308,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     appbas[i][j][k] = P10[k][imn][j];
+                appbas[i][j].normalize();
             }
             for (long j = n; j < 2*n; ++j)
             {
@@ -1302,6 +1317,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1849,6 +1865,7 @@ void matrix_pade_generic_iterative(
                 clear(den1[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     den1[i][j][k] = D1[k][i][j];
+                den1[i][j].normalize();
             }
         }
 
@@ -1864,6 +1881,7 @@ void matrix_pade_generic_iterative(
                 den2[i][j].SetLength(d+1);
                 for (long k = 0; k < d+1; ++k)
                     den2[i][j][k] = D2[k][i][j];
+                den2[i][j].normalize();
             }
         }
     }
@@ -1882,6 +1900,7 @@ void matrix_pade_generic_iterative(
                 den1[i][j].SetLength(d);
                 for (long k = 0; k < d; ++k)
                     den1[i][j][k] = D1[k][i][j];
+                den1[i][j].normalize();
             }
         // add X^d I
         for (long i = 0; i < n; ++i)
@@ -1895,6 +1914,7 @@ void matrix_pade_generic_iterative(
                 clear(den2[i][j][0]);
                 for (long k = 1; k < d+1; ++k)
                     den2[i][j][k] = D2[k][i][j];
+                den2[i][j].normalize();
             }
     }
 
-- 
2.43.0


From f6b6f01c085be43af75962e89e064ad721bfe776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:02 +0000
Subject: [PATCH 34/96] fix: zls kernel bases returned shifted row degrees off
 by a constant

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..2f943a2 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -491,6 +491,9 @@ void kernel_basis_zls_via_approximation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
+        // restore the constant that was removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            rdeg1[i] += diff_shift;
         shift.swap(rdeg1);
         return;
     }
@@ -538,6 +541,9 @@ void kernel_basis_zls_via_approximation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
+        // restore the constant that was removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            rdeg1[i] += diff_shift;
         shift.swap(rdeg1);
         return;
     }
@@ -733,6 +739,8 @@ void kernel_basis_zls_via_interpolation(
     zz_p r; // defining geometric points r^2, r^4, r^6...
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -741,6 +749,8 @@ void kernel_basis_zls_via_interpolation(
     if (IsZero(r))
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
+        std::transform(shift.begin(), shift.end(), shift.begin(),
+                       [diff_shift](long x) -> long { return x + diff_shift;});
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -803,6 +813,9 @@ void kernel_basis_zls_via_interpolation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
+        // restore the constant that was removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            rdeg1[i] += diff_shift;
         shift.swap(rdeg1);
         return;
     }
@@ -857,6 +870,9 @@ void kernel_basis_zls_via_interpolation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
+        // restore the constant that was removed from the input shift
+        for (long i = 0; i < m1; ++i)
+            rdeg1[i] += diff_shift;
         shift.swap(rdeg1);
         return;
     }
-- 
2.43.0


From a7f725f70a356bf6f47a16daba59706c96bd9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:55 +0000
Subject: [PATCH 35/96] fix: kernel_basis_generic was not a kernel basis when
 the numbers of rows and columns add up to an odd number

---
 .../src/mat_lzz_pX_kernel.cpp                 | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 2f943a2..bd69d40 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -1042,19 +1042,20 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // More precisely, let
         //           nn1  nn1  eps
         //         [ K1    I   0 ]  nn1
-        //         [ K2    0   1 ]  eps
+        //         [ *     0   1 ]  eps
         // be the generic kernel of the constant part [[A1], [A2], [V]].
         // Then the matrix
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [ 0         K2       1]
         // where B = F[nn1:2*nn1, :] == A[nn1:2*nn1, :nn1]
         // and K1i == inverse(K1)
+        // and K2 == -F[2*nn1:, :] * inverse(B)
         // is the Popov left kernel basis for F
         // -> it has the right rank
         // -> it is in Popov form
         // -> it has the right sum(rdeg) == nn1
         // -> K*F == 0:
-        //    --> clear for the row [K2  0  1]
+        //    --> clear for the row [0  K2  1]
         //    --> the other one yields
         //           -B * (X I + A1) + (-B*K1i + X I) * B
         //           == X * (-B + B) + (-B*A1 - B*K1i*B)
@@ -1082,7 +1083,14 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         for (long i = 0; i < nn1; i++)
             VectorCopy(K1[i], K[i], nn1);
         if (eps > 0)
-            VectorCopy(K2[0], K[nn1], nn1);
+        {
+            Mat<zz_p> v;
+            v.SetDims(1, nn1);
+            for (long j = 0; j < nn1; j++)
+                v[0][j].LoopHole() = ConstTerm(pmat[m+n-1][j])._zz_p__rep;
+            inv(K2, mB);
+            mul(K2, v, K2);
+        }
 
         inv(K1, K1);
         mul(K1, mB, K1);
@@ -1091,6 +1099,7 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // kerbas) could be accelerated
         // currently we just build kerbas explicitly now, and multiply later in recursive call
         kerbas.SetDims(nn1+eps, m+n);
+        clear(kerbas);
         for (long i = 0; i < nn1; i++)
         {
             for (long j = 0; j < nn1; j++)
@@ -1105,19 +1114,19 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         if (eps > 0)
         {
             for (long j = 0; j < nn1; j++)
-                SetCoeff(kerbas[nn1][j], 0, K2[0][j]);
+                SetCoeff(kerbas[nn1][nn1+j], 0, K2[0][j]);
             set(kerbas[nn1][m+n-1]); 
         }
 
         // multiply kernel basis with right-hand columns
         //  
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [ 0         K2       1]
         //      G =   [  A3  ]     [ 0 ]
         //            [  A4  ] + X [ L ]
         //            [  v2  ]     [ 0 ]
         //     with L = [[Id nn2 x nn2], [Zero (nn1-nn2) x nn2]], nn1-nn2 == m-eps
-        // - the possible last row is K2 * A3 + v2
+        // - the possible last row is K2 * A4 + v2 + X * K2 * L
         // - the first nn1 rows are mB*A3 + mB*K1i*A4 + X*(A4 + mB*K1i*L) + X**2 * L
         // recall mB*K1i is currently stored in K1
         Mat<zz_pX> F;
@@ -1148,9 +1157,11 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // handle possible last row
         if (eps > 0)
         {
-            mul(K2, K2, A3);
             for (long j = 0; j < nn2; j++)
-                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][j]));
+                SetCoeff(F[nn1][j], 1, K2[0][j]);
+            mul(K2, K2, A4);
+            for (long j = 0; j < nn2; j++)
+                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][nn1+j]));
         }
 
         mul(A3, mB, A3);
-- 
2.43.0


From 09dfa0e897af32056443b6b6cb2aa473debecb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:39 +0000
Subject: [PATCH 36/96] fix: zls kernel bases missed kernel rows whose pivot
 lies in a constant row of the input

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index bd69d40..8e50dd0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -475,13 +475,20 @@ void kernel_basis_zls_via_approximation(
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
     long sum_matdeg = 0;
+    // (this requires that no non-pivot row of pmat is constant: otherwise, such
+    // a row may be the pivot of a missing kernel row of pivot degree zero)
+    bool no_constant_row = true;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_app_notker[i]];
+        if (rdeg[rows_app_notker[i]] <= 0)
+            no_constant_row = false;
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(appbas[rows_app_ker[i]][rows_app_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    const bool early_exit = no_constant_row && (sum_kerdeg == sum_matdeg);
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -797,13 +804,20 @@ void kernel_basis_zls_via_interpolation(
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
     long sum_matdeg = 0;
+    // (this requires that no non-pivot row of pmat is constant: otherwise, such
+    // a row may be the pivot of a missing kernel row of pivot degree zero)
+    bool no_constant_row = true;
     for (long i = 0; i < m2; ++i)
+    {
         sum_matdeg += rdeg[rows_int_notker[i]];
+        if (rdeg[rows_int_notker[i]] <= 0)
+            no_constant_row = false;
+    }
     long sum_kerdeg = 0;
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(intbas[rows_int_ker[i]][rows_int_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    const bool early_exit = no_constant_row && (sum_kerdeg == sum_matdeg);
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
-- 
2.43.0


From 6463f59da608658ef6c727f858503171a075d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:00 +0000
Subject: [PATCH 37/96] fix: kernel_basis_zls_via_interpolation aborted when
 the order did not exceed the degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 8e50dd0..9c54738 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -738,7 +738,8 @@ void kernel_basis_zls_via_interpolation(
     // choosing this order (with factor 2) is sufficient to ensure that the
     // interpolant basis captures the whole kernel when n <= m/2 and pmat is
     // sufficiently generic
-    const long order = 2 * ceil((double)rho / n) + 1;
+    // (the geometric evaluation also requires order > deg(pmat))
+    const long order = std::max<long>(2 * ceil((double)rho / n), deg(pmat)) + 1;
 
     // compute interpolant basis, along with shift-row degree and pivot degree
     // --> it does not necessarily capture the whole kernel; but does in two
-- 
2.43.0


From a14e853c65b15fdf936d18313f845033a2d3fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:12 +0000
Subject: [PATCH 38/96] fix: reduced_form_gjv crashed on constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..773c24a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -13,6 +13,14 @@ long reduced_form_gjv(
     // dimensions
     const long dim = pmat.NumCols();
     const long d = deg(pmat);
+
+    // an invertible constant matrix is already reduced
+    if (d == 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
+
     std::cout << dim << "\t" << d << "\t";
 
     // inv_trunc version
-- 
2.43.0


From 0829879757609ac68cfadcd98f54db7ea6767c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:26 +0000
Subject: [PATCH 39/96] fix: determinant_generic_knowing_degree crashed when
 the left columns vanish

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..0eb2dfe 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -249,6 +249,11 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
     // --> compute approximants at order deg(pmat_l) + D + 1
     // (cf for example Neiger-Rosenkilde-Solomatov ISSAC 2018, Lemma 4.3)
     long deg_pmat_l = deg(pmat_l);
+    if (deg_pmat_l < 0) // zero columns: zero determinant
+    {
+        clear(det);
+        return (degree==deg(det));
+    }
     long deg_ker = ceil( cdim1 * deg_pmat_l / (double)(dim-cdim1) );
     long order = deg_pmat_l + deg_ker + 1;
 
-- 
2.43.0


From 898bda0f149811568927b5ae5f9c1d734de420cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:35 +0000
Subject: [PATCH 40/96] fix: determinants by evaluation did not handle the zero
 matrix

---
 .../src/mat_lzz_pX_determinant.cpp             | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 0eb2dfe..450090b 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -298,6 +298,12 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long nb_points = pmat.NumRows() * deg(pmat) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
@@ -310,6 +316,12 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long d = deg(pmat);
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
@@ -324,6 +336,12 @@ void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_FFT(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     // degree and dimension
     const long d = deg(pmat);
     const long dim = pmat.NumRows();
-- 
2.43.0


From 43628d104a4d6373763967d5c9127520f6fbc46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:49 +0000
Subject: [PATCH 41/96] fix: determinant_generic_knowing_degree reported
 success with a wrong determinant

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 450090b..069b428 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -274,8 +274,13 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
         for (long j = 0; j < dim; ++j)
             kerbas[i][j] = appbas[i+cdim1][j];
 
-    // then compute the product
+    // if these rows are not in the kernel, pmat is not generic enough
     Mat<zz_pX> pmatt;
+    multiply(pmatt, kerbas, pmat_l);
+    if (not IsZero(pmatt))
+        return false;
+
+    // then compute the product
 #ifdef GENERIC_DET_PROFILE
     t = GetWallTime();
 #endif // GENERIC_DET_PROFILE
-- 
2.43.0


From 7673d06e5e68612bfc2d3d53b87ced9c5da357c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:02 +0000
Subject: [PATCH 42/96] fix: gen_sequence and gen_pows left the upper products
 zero for moduli below the FFT crossover

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 525894a..b926ee8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -23,6 +23,7 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
     if (da < 0)
     {
         clear(x);
+        clear(upper);
         return;
     }
 
@@ -31,8 +32,13 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
         zz_pX P1;
         mul(P1, a, B.b);
         rem(x, P1, F);
-        // todo: do this case
-        upper = 0;
+        // upper = coefficients n-1 .. 2n-3 of a * rev(1/rev(F))
+        zz_pX S;
+        reverse(S, F.f, n);
+        InvTrunc(S, S, n-1);
+        reverse(upper, a, n-1);
+        MulTrunc(upper, upper, S, n-1);
+        reverse(upper, upper, n-2);
         return;
     }
 
-- 
2.43.0


From 77b2f83079667d347dafb5b741658ff593cf3449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:13 +0000
Subject: [PATCH 43/96] fix: gen_sequence crashed when the modulus has degree
 at most twice the block size

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index b926ee8..9654d4e 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -265,7 +265,7 @@ static void get_quos (Mat<zz_pX> &quos,
 
     t = GetWallTime();
     const long n = deg(g);
-    const long pad = 2*m - ((n-2*m-1) % (2*m));
+    const long pad = 2*m - ((n-1) % (2*m));
     const long len = ceil((n*1.0) / (2*m));
     Mat<zz_pX> mat1, mat2;
     mat1.SetDims(alphas.length(), len);
-- 
2.43.0


From 4d62d860a7c0492097dc1916b3a2ee8b73803a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:43 +0000
Subject: [PATCH 44/96] fix: gen_sequence aborted when all quotients vanish

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 9654d4e..a9ce2db 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -127,6 +127,15 @@ void mul_special(Mat<zz_pX>& c, Mat<zz_pX>& cs, const Mat<zz_pX>& a, const Mat<z
     long p = b.NumCols();
     long ell;
 
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        clear(c);
+        cs.SetDims(m, p);
+        clear(cs);
+        return;
+    }
+
     Mat<zz_p> tmp_mat(INIT_SIZE, sA, m * n);
     Mat<zz_p> valA, valB, valC, valCs;
     Mat<zz_p> vA, vB, iv;
-- 
2.43.0


From 02568399eac69ae6de75806c54017e9c3766cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:26 +0000
Subject: [PATCH 45/96] fix: minpoly_nondegenerate computed a polynomial that
 does not cancel the sequence

The right-hand side and solution sizes were taken from y-degrees instead of
half the length, the shift of the mod-x Pade problem had a missing entry, odd
precisions were split wrongly, and the solution was not reversed.
---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 61 ++++++++++++------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..a1baba9 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -954,35 +954,32 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     if (bitmap[t]) gens[t] = fs[t];
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
+// finds P of y-degree < n such that the coefficients of y^(n-1), ..., y^(2n-2)
+// in SXY*P are those of rhs, modulo x^d (S0X is SXY mod x)
+void minpoly_DAC(const long d, const long n, const zz_pXY &SXY, const zz_pX &S0X, 
     const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
+    // solutions have y-degrees at most n-1, n-2, 0
     VecLong shift;
     shift.emplace_back(0);
-    shift.emplace_back(0);
+    shift.emplace_back(1);
+    shift.emplace_back(n-1);
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
+    long order = 2*n-1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
 
     // construct rhs mod x
     zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i], 0));
+    LeftShift(rhs_x,rhs_x, n-1);
     pmat[2][0] = -rhs_x;
     pmbasis(appbas, pmat, order, shift);
-    long r_cor = 0;
-    for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
-	r_cor = i;
-	break;
-      }
-    }
+    // the row with pivot on the last entry
+    long r_cor = 2;
     zz_pX px = appbas[r_cor][0]*InvTrunc(appbas[r_cor][2],1);
 
     P = zz_pX{0};
@@ -997,43 +994,45 @@ void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X,
     return;
   }
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  long d0 = d/2;
+  minpoly_DAC(d0, n, trunc_x(SXY,d0), S0X, trunc_x(rhs,d0),P0);
 
   // compute the residue
   zz_pXY r;
   mul(r, SXY, P0);
   r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
+  r = shift_y(r,-(n-1));
+  r = trunc_y(r,n);
   r = rhs - r;
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-d0);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d-d0, n, trunc_x(SXY,d-d0), S0X, r, P1);
+  shift_x(P1,P1,d0);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
   // make bivariate polynomial of S for multiplication
+  long n = S.length()/2;
   zz_pXY SXY;
-  for (long i = 0; i < S.length()-1; i++)
+  for (long i = 0; i < 2*n-1; i++)
     SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
   zz_pX S0X;
-  for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
+  for (long i = 0; i < 2*n-1; i++)
+    SetCoeff(S0X, i, coeff(S[i], 0));
   // construct rhs
   zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
+  for (long i = n; i < 2*n; i++)
+    rhs = rhs + shift_y(zz_pXY{S[i]},(i-n));
   zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
+  minpoly_DAC(d,n,SXY,S0X,trunc_x(zz_pXY{zz_pX{0}}-rhs,d),P_res);
+  // the coefficients of P_res are those of P in reversed order
   P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
-  }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  for (long i = 0; i <= P_res.degY(); i++)
+    P = P + shift_y(zz_pXY{P_res.rep[i]}, n-1-i);
+  P = P + shift_y(zz_pXY{zz_pX{1}}, n);
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
-- 
2.43.0


From 9a3a5734ef4f0c2ca76d6597a856c51b040c5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:26 +0000
Subject: [PATCH 46/96] fix: products of a sequence by a bivariate polynomial
 were always empty

mul and mulTrunc truncated the length to min(0, .), so check_cancel accepted
everything; mulTrunc of a scalar sequence also kept only the last term.
---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index a1baba9..4d6f382 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,8 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +53,8 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +80,12 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From 011368bca13425ce18c412161b435024b359b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 47/96] fix: modified_kurakin read past the end of a zero
 sequence

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 4d6f382..4732e31 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -422,6 +422,9 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
       I_fs[k] = f_xy;
     }
 
+    // nothing more to do if u is zero
+    if (k < 0 || k == u.length()) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
@@ -835,6 +838,9 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
       I[k].emplace_back(p);
     }
 
+    // nothing more to do if u is zero
+    if (k < 0 || k == u.length()) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
-- 
2.43.0


From bb31b0624387c03bf4b398ff56c53195f177ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:14 +0000
Subject: [PATCH 48/96] fix: kurakin on modules stopped after two subiterations
 and missed generators

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 4732e31..f3b0814 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -715,8 +715,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
-- 
2.43.0


From 4714b3e4054a5ed202d71fba45f69f49db436b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:32 +0000
Subject: [PATCH 49/96] fix: modified_kurakin on modules took the valuation of
 zero entries for the smallest one

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index f3b0814..06262f7 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -660,9 +660,11 @@ Vec<zz_pX> solve(const Vec<zz_pX> &l, const Vec<Vec<zz_pX>> &rs, const long d,
   if (ind == -1){
     // check for the minimal valuation on the last column
     long min_val = valuation(appbas[0][n]);
-    for (long r = 1; r < n+1; r++)
-      if (min_val < 0  || valuation(appbas[r][n]) < min_val)
-	min_val = valuation(appbas[r][n]);
+    for (long r = 1; r < n+1; r++){
+      long val = valuation(appbas[r][n]);
+      if (val >= 0 && (min_val < 0  || val < min_val))
+	min_val = val;
+    }
     if (verbose) std::cout << "minval: " << min_val << std::endl;
     tprime = min_val;
     if (verbose) std::cout << "tprime: " << tprime << std::endl;
@@ -796,9 +798,10 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 // if a is zero
 long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
-  long min_val = valuation(a[0]);
-  for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+  long min_val = -1;
+  for(long i = 0; i < a.length(); i++){
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || val < min_val)) min_val = val;
   }
   return min_val;
 }
-- 
2.43.0


From 0469f7d6918c9fa39472084367c2e27b277af703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 50/96] fix: sage_output and magma_output of vectors of
 polynomials ignored the variable

---
 ntl-extras/magma_output/src/magma_output.cpp | 2 +-
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..6acfed8 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..ad51fb3 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From 2aaf6f572d2d004b513cd94fc08b62bbeed7ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:58 +0000
Subject: [PATCH 51/96] fix: sage_init_ZZX and magma_init_ZZX overwrote U and
 left UZ undefined

---
 ntl-extras/magma_output/src/magma_output.cpp | 4 ++--
 ntl-extras/sage_output/src/sage_output.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index 6acfed8..4d0b843 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                    */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index ad51fb3..0b9e26c 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -25,11 +25,11 @@ void sage_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                    */
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
-- 
2.43.0


From c9a8f2bc02557ea6009defb8b679c8cc6fcfee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:51 +0000
Subject: [PATCH 52/96] fix: is_interpolant_basis_geometric aborted on bases of
 degree at least the number of points

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..8e34081 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -88,7 +88,14 @@ bool is_interpolant_basis_geometric(
     // test that the matrix consists of interpolants
     zz_pX_Multipoint_Geometric ev(pt, order);
     Vec<Mat<zz_p>> intbas_evals;
-    ev.evaluate_matrix(intbas_evals, intbas);
+    if (deg(intbas) < order)
+        ev.evaluate_matrix(intbas_evals, intbas);
+    else // degree too large for geometric evaluation at order points
+    {
+        intbas_evals.SetLength(order);
+        for (long i=0; i<order; ++i)
+            eval(intbas_evals[i], intbas, power(pt, 2*i));
+    }
     Mat<zz_p> res;
     for (long pt=0; pt<order; ++pt)
     {
-- 
2.43.0


From 5ffc0e932db08323245716163c3591c84e36b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:06 +0000
Subject: [PATCH 53/96] fix: is_interpolant_basis accepted matrices with
 missing rows

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 8e34081..445b65d 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -26,6 +26,11 @@ bool is_interpolant_basis(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    const long m = shift.size();
+    if (intbas.NumRows() != m || intbas.NumCols() != m)
+        return false;
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
@@ -81,6 +86,11 @@ bool is_interpolant_basis_geometric(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    const long m = shift.size();
+    if (intbas.NumRows() != m || intbas.NumCols() != m)
+        return false;
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
-- 
2.43.0


From 2ec5ffb7c23723f195c81019476e1c53e0f77800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 54/96] fix: InvTruncMul (Newton) does not index normalized
 polynomials beyond their length

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index e0302be..c1c534c 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -201,17 +201,17 @@ static void NewtonInvTruncMul(zz_pX& x, const zz_pX& b, const zz_pX& a, long m)
 
         x.rep.SetLength(l+1);
         for (long i = 0; i < k; ++i)
-            x[i]=P2l[i];
+            x[i] = coeff(P2l, i);
 
         if (deg(b) >= k)
             for (long i = k; i <= l; ++i) 
-                add(x[i], P2l[i], P2h[i-k]);
+                add(x[i], coeff(P2l, i), coeff(P2h, i-k));
         else
             for (long i = k; i <= l; ++i) 
-                x[i] = P2l[i];
+                x[i] = coeff(P2l, i);
 
         for (long i = k; i <= l; ++i) 
-            sub(x[i], x[i], P1[i-k]);
+            sub(x[i], x[i], coeff(P1, i-k));
 
         x.normalize();
     }
-- 
2.43.0


From 139a05ffddab0a7411b0871ed1042e275a143e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 55/96] fix: zz_pX_Multipoint_FFT on one point does not read
 beyond the FFT table

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
index 7302f68..ff55adc 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
@@ -70,7 +70,7 @@ zz_pX_Multipoint_FFT::zz_pX_Multipoint_FFT(long n)
     zz_p pow1 = to_zz_p(1);
     zz_p pow2 = to_zz_p(1);
 
-    zz_p z1 = to_zz_p(wk.tbl[0][1]);
+    zz_p z1 = to_zz_p(n > 1 ? wk.tbl[0][1] : 1);
     zz_p z2 = to_zz_p(wk.tbl[0][n >> 1]);
     do_bit_reverse = 1;
 
-- 
2.43.0


From 68a07427c11caf2a897254ef4a79592daf1be65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 56/96] fix: mirror does not index its vector one past the end

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index eb3e827..ba25ff0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -232,7 +232,7 @@ void mirror(Vec<zz_pX>& mvec, const Vec<zz_pX>& pvec)
     if (&mvec != &pvec)
         mvec = pvec;
 
-    std::reverse(&mvec[0], &mvec[n]);
+    std::reverse(mvec.elts(), mvec.elts() + n);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 6a1c0a21d29050bdf711754fb27c9c86d7c527e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:20 +0000
Subject: [PATCH 57/96] fix: mosaic Hankel/Toeplitz solve no longer always
 fails when (1 .. 1) is in the left kernel

---
 .../structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 14 ++++++++++----
 .../structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index fb0e5f4..f412153 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -482,7 +482,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     Mat<zz_p> X, Y;
     Mat<zz_p> G, H;
     M.phi_plus_generators(G, H);
-    zz_p a, b, c;
+    zz_p a, b, c, s;
     long n = M.NumRows();
     long m = M.NumCols();
 
@@ -494,7 +494,13 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     element_of_order(a, 2 * max(m, n));
     b = a*a;
     find_c(c, b, n, m);
-    X_int = zz_pX_Multipoint_Geometric(a, to_zz_p(1), n);
+    // random first point for X_int: with the fixed point 1, the preconditioned
+    // matrix never has generic rank profile when (1 .. 1) M = 0
+    do
+        s = random_zz_p();
+    while (s == 0);
+    c = s * c;
+    X_int = zz_pX_Multipoint_Geometric(a, s, n);
     Y_int = zz_pX_Multipoint_Geometric(a, c, m);
 
     long alpha = G.NumCols();
@@ -531,7 +537,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         }
     }
 
-    zz_p tmp_z = to_zz_p(1);
+    zz_p tmp_z = s;
     for (long i = 0; i < n; i++)
     {
         X[i][alpha] = e[i]*(power(tmp_z, n)-1);
@@ -593,7 +599,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         tmp_z = tmp_z * b;
     }
 
-    CL = cauchy_like_geometric_lzz_p(X, Y, to_zz_p(1), c, b);
+    CL = cauchy_like_geometric_lzz_p(X, Y, s, c, b);
     return 1;
 }
 
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 78188e6..3304292 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -489,7 +489,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     Mat<zz_p> X, Y;
     Mat<zz_p> G, H;
     M.phi_plus_generators(G, H);
-    zz_p a, b, c;
+    zz_p a, b, c, s;
     long n = M.NumRows();
     long m = M.NumCols();
 
@@ -503,7 +503,13 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     element_of_order(a, 2 * max(m, n));
     b = a*a;
     find_c(c, b, n, m);
-    X_int = zz_pX_Multipoint_Geometric(a, to_zz_p(1), n);
+    // random first point for X_int: with the fixed point 1, the preconditioned
+    // matrix never has generic rank profile when (1 .. 1) M = 0
+    do
+        s = random_zz_p();
+    while (s == 0);
+    c = s * c;
+    X_int = zz_pX_Multipoint_Geometric(a, s, n);
     Y_int = zz_pX_Multipoint_Geometric(a, c, m);
 
     long alpha = G.NumCols();
@@ -563,7 +569,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     }
 
     // gen alpha
-    zz_p tmp_z = to_zz_p(1);
+    zz_p tmp_z = s;
     for (long i = 0; i < n; i++)
     {
         X[i][alpha] = e[i]*(power(tmp_z, n)-1);
@@ -606,7 +612,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         tmp_z = tmp_z * b;
     }
 
-    CL = cauchy_like_geometric_lzz_p(X, Y, to_zz_p(1), c, b);
+    CL = cauchy_like_geometric_lzz_p(X, Y, s, c, b);
 
     // cout << ( CL.to_dense() == 
     //           diagonal_matrix(e) * X_int.to_dense() * M.to_dense() * J_lzz_p(m) * transpose(diagonal_matrix(f) * Y_int.to_dense()) ) << endl;
-- 
2.43.0


From 21fec837c9eabb381a8574061ed58f17b47b6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:17 +0000
Subject: [PATCH 58/96] fix: bit reversal of a single FFT point does not shift
 by a negative amount

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
index ff55adc..84311b6 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
@@ -14,6 +14,9 @@ static long RevInc(long a, long k)
 {
     long j, m;
 
+    if (k == 0)
+        return 0;
+
     j = k; 
     m = 1L << (k-1);
 
-- 
2.43.0


From d595af635f7b056444fc90955703f87a9f7ce6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:21 +0000
Subject: [PATCH 59/96] fix: nmod_poly_mat pivot profile of a zero vector with
 a shift in the upper-row and lower-column orientations

---
 .../src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
index 0fed1c1..3eb6d1e 100644
--- a/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
+++ b/flint-extras/src/nmod_poly_mat_extra/degrees_pivots_leadingmatrix.c
@@ -359,8 +359,8 @@ ulong _nmod_poly_vec_pivot_profile(slong * pivind,
                     max = d+shift[piv];
                 }
             }
-            *pivind = piv;
-            *pivdeg = (piv == -1) ? len : (max - shift[piv]);
+            *pivind = (piv == -1) ? len : piv;
+            *pivdeg = (piv == -1) ? -1 : (max - shift[piv]);
             return (piv >= 0);
         }
     }
-- 
2.43.0


From 343b4ce8df57ac5782866782c588d0c2d397fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:34 +0000
Subject: [PATCH 60/96] fix: nmod_poly_mat_is_form tests for the Hermite form
 when asked to

---
 flint-extras/src/nmod_poly_mat_forms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_forms.h b/flint-extras/src/nmod_poly_mat_forms.h
index 2e90e81..e454c97 100644
--- a/flint-extras/src/nmod_poly_mat_forms.h
+++ b/flint-extras/src/nmod_poly_mat_forms.h
@@ -510,7 +510,7 @@ int nmod_poly_mat_is_form(const nmod_poly_mat_t mat,
     if (form == ECHELON)
         return nmod_poly_mat_is_echelon(mat, orient);
     if (form == HERMITE)
-        return nmod_poly_mat_is_echelon(mat, orient);
+        return nmod_poly_mat_is_hermite(mat, orient);
     flint_throw(FLINT_ERROR, "Exception (nmod_poly_mat_is_form). Requested form not implemented.");
 }
 
-- 
2.43.0


From d71053aa4e39c008356a665808488a9253e1f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:41 +0000
Subject: [PATCH 61/96] fix: nmod_poly_mat_is_popov in the upper row-wise
 orientation

---
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
index 5ea873f..6ef5f3f 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
@@ -139,7 +139,7 @@ int nmod_poly_mat_is_popov(const nmod_poly_mat_t mat,
     slong * pivdeg = flint_malloc(dim * sizeof(slong));
     nmod_poly_mat_pivot_profile(pivind, pivdeg, mat, shift, orient);
 
-    if (orient == ROW_LOWER || orient == ROW_LOWER)
+    if (orient == ROW_LOWER || orient == ROW_UPPER)
     {
         // pivots must be monic
         for (slong i = 0; i < dim; i++)
-- 
2.43.0


From fa9805561c004d3bd3341b2d952182c413176330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:20 +0000
Subject: [PATCH 62/96] fix: the tests for polynomial matrix forms free their
 buffers when they answer no

---
 .../nmod_poly_mat_is_form.c                   | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
index 6ef5f3f..a5faf19 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_form.c
@@ -67,16 +67,16 @@ int nmod_poly_mat_is_weak_popov(const nmod_poly_mat_t mat,
 
     // pivot index must not indicate zero row/col
     if (dim > 0 && pivind[0] == -1)
-        return 0;
+        { flint_free(pivind); return 0; }
 
     // indices of pivots must increase strictly
     for (slong i = 0; i < dim - 1; i++)
         if (pivind[i] >= pivind[i+1])
-            return 0;
+            { flint_free(pivind); return 0; }
 
     // pivot index must not indicate zero row/col
     if (dim > 0 && pivind[dim-1] == zpiv)
-        return 0;
+        { flint_free(pivind); return 0; }
 
     flint_free(pivind);
     return 1;
@@ -101,16 +101,16 @@ int nmod_poly_mat_is_ordered_weak_popov(const nmod_poly_mat_t mat,
 
     // first row/col must be nonzero
     if (dim > 0 && pivind[0] == -1)
-        return 0;
+        { flint_free(pivind); return 0; }
 
     // indices of pivots must increase strictly
     for (slong i = 0; i < dim - 1; i++)
         if (pivind[i] >= pivind[i+1])
-            return 0;
+            { flint_free(pivind); return 0; }
 
     // last row must be nonzero
     if (dim > 0 && pivind[dim-1] == zpiv)
-        return 0;
+        { flint_free(pivind); return 0; }
 
     flint_free(pivind);
     return 1;
@@ -144,26 +144,26 @@ int nmod_poly_mat_is_popov(const nmod_poly_mat_t mat,
         // pivots must be monic
         for (slong i = 0; i < dim; i++)
             if (!nmod_poly_is_monic(nmod_poly_mat_entry(mat, i, pivind[i])))
-                return 0;
+                { flint_free(pivind); flint_free(pivdeg); return 0; }
 
         // pivots must have degree strictly larger than other entries in same column
         for (slong i = 0; i < dim; i++)
             for (slong ii = 0; ii < dim; ii++)
                 if (i != ii && nmod_poly_degree(nmod_poly_mat_entry(mat, ii, pivind[i])) >= pivdeg[i])
-                    return 0;
+                    { flint_free(pivind); flint_free(pivdeg); return 0; }
     }
     else // orient == COL_*
     {
         // pivots must be monic
         for (slong j = 0; j < dim; j++)
             if (!nmod_poly_is_monic(nmod_poly_mat_entry(mat, pivind[j], j)))
-                return 0;
+                { flint_free(pivind); flint_free(pivdeg); return 0; }
 
         // pivots must have degree strictly larger than other entries in same column
         for (slong j = 0; j < dim; j++)
             for (slong jj = 0; jj < dim; jj++)
                 if (j != jj && nmod_poly_degree(nmod_poly_mat_entry(mat, pivind[j], jj)) >= pivdeg[j])
-                    return 0;
+                    { flint_free(pivind); flint_free(pivdeg); return 0; }
     }
 
     flint_free(pivind);
@@ -202,7 +202,7 @@ int nmod_poly_mat_is_echelon(const nmod_poly_mat_t mat,
         while (i+1 < dim)
         {
             if (pivind[i] >= pivind[i+1])
-                return 0;
+                { flint_free(pivind); return 0; }
             // note: the above test includes the case where row i+1 is zero (has index -1),
             // i.e. zero row below a nonzero row
             i++;
@@ -222,7 +222,7 @@ int nmod_poly_mat_is_echelon(const nmod_poly_mat_t mat,
         while (i > 0)
         {
             if (pivind[i-1] >= pivind[i])
-                return 0;
+                { flint_free(pivind); return 0; }
             // note: the above test includes the case where row i-1 is zero (has index other_dim),
             // i.e. zero row above a nonzero row
             i--;
@@ -259,7 +259,7 @@ int nmod_poly_mat_is_hermite(const nmod_poly_mat_t mat, orientation_t orient)
 
     // make sure no zero row/col  (note len(pivind) == dim > 0)
     if (pivind[0] == -1 || pivind[dim-1] == zpiv)
-        return 0;
+        { flint_free(pivind); flint_free(pivdeg); return 0; }
     // this is sufficient since is_echelon already forbids zero rows/cols
     // appearing after nonzero one (or before, depending on orientation)
 
@@ -270,18 +270,18 @@ int nmod_poly_mat_is_hermite(const nmod_poly_mat_t mat, orientation_t orient)
         {
             // pivot entry must be monic
             if (! nmod_poly_is_monic(nmod_poly_mat_entry(mat, i, pivind[i])))
-                return 0;
+                { flint_free(pivind); flint_free(pivdeg); return 0; }
             if (orient == ROW_LOWER) // entries below pivot entry must have lower degree
             {
                 for (slong ii = i+1; ii < dim; ii++)
                     if (nmod_poly_mat_entry(mat, ii, pivind[i])->length > pivdeg[i])
-                        return 0;
+                        { flint_free(pivind); flint_free(pivdeg); return 0; }
             }
             else // ROW_UPPER, entries above pivot entry must have lower degree
             {
                 for (slong ii = 0; ii < i; ii++)
                     if (nmod_poly_mat_entry(mat, ii, pivind[i])->length > pivdeg[i])
-                        return 0;
+                        { flint_free(pivind); flint_free(pivdeg); return 0; }
             }
         }
     }
@@ -291,19 +291,19 @@ int nmod_poly_mat_is_hermite(const nmod_poly_mat_t mat, orientation_t orient)
         {
             // pivot entry must be monic
             if (! nmod_poly_is_monic(nmod_poly_mat_entry(mat, pivind[j], j)))
-                return 0;
+                { flint_free(pivind); flint_free(pivdeg); return 0; }
 
             if (orient == COL_LOWER) // entries to the left of pivot must have lower degree
             {
                 for (slong jj = 0; jj < j; jj++)
                     if (nmod_poly_mat_entry(mat, pivind[j], jj)->length > pivdeg[j])
-                        return 0;
+                        { flint_free(pivind); flint_free(pivdeg); return 0; }
             }
             else // COL_UPPER, entries to the right of pivot entry must have lower degree
             {
                 for (slong jj = j+1; jj < dim; jj++)
                     if (nmod_poly_mat_entry(mat, pivind[j], jj)->length > pivdeg[j])
-                        return 0;
+                        { flint_free(pivind); flint_free(pivdeg); return 0; }
             }
         }
     }
-- 
2.43.0


From f046bdb86d8af19fc11a77de9b2e120736b54a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 63/96] fix: nmod_mat_poly_is_constant accepts nonzero constant
 matrix polynomials

---
 flint-extras/src/nmod_mat_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_poly.h b/flint-extras/src/nmod_mat_poly.h
index 08065d1..bf6a078 100644
--- a/flint-extras/src/nmod_mat_poly.h
+++ b/flint-extras/src/nmod_mat_poly.h
@@ -360,7 +360,7 @@ nmod_mat_poly_set_entry(nmod_mat_poly_t matp,
 NMOD_MAT_POLY_INLINE int
 nmod_mat_poly_is_constant(const nmod_mat_poly_t matp)
 {
-    return matp->length == 0;
+    return matp->length <= 1;
 }
 
 /** Truncates `matp` to the given `order` and normalises it. If `order` is
-- 
2.43.0


From bf3124c1dfb8b7e799dbb56550aa8c3ff24f2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 64/96] fix: nmod_mat_poly_shift_left copies all coefficients
 when the output is not the input

---
 flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
index c67f58d..6358f0f 100644
--- a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
+++ b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_shift.c
@@ -44,9 +44,10 @@ void nmod_mat_poly_shift_left(nmod_mat_poly_t smatp,
         return;
     }
 
-    nmod_mat_poly_fit_length(smatp, matp->length + n);
-    _nmod_mat_poly_set_length(smatp, matp->length + n);
-    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, matp->length - n, n);
+    const slong len = matp->length;
+    nmod_mat_poly_fit_length(smatp, len + n);
+    _nmod_mat_poly_set_length(smatp, len + n);
+    _nmod_mat_poly_shift_left(smatp->coeffs, matp->coeffs, len, n);
 }
 
 //void nmod_mat_poly_shift_right(nmod_mat_poly_t smatp,
-- 
2.43.0


From 4a8cac988e67d12d0ed70ab504e93daf1c8f86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 65/96] fix: nmod_poly_mat_rand fills a window without touching
 the rest of the matrix

---
 flint-extras/src/nmod_poly_mat_extra/randomisation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/randomisation.c b/flint-extras/src/nmod_poly_mat_extra/randomisation.c
index 4c9889d..db34713 100644
--- a/flint-extras/src/nmod_poly_mat_extra/randomisation.c
+++ b/flint-extras/src/nmod_poly_mat_extra/randomisation.c
@@ -27,8 +27,9 @@ void nmod_poly_mat_rand(nmod_poly_mat_t mat,
                         flint_rand_t state,
                         slong len)
 {
-    for (slong i = 0; i < mat->r * mat->c; i++)
-        nmod_poly_rand(mat->entries + i, state, len);
+    for (slong i = 0; i < mat->r; i++)
+        for (slong j = 0; j < mat->c; j++)
+            nmod_poly_rand(nmod_poly_mat_entry(mat, i, j), state, len);
 }
 
 void nmod_poly_mat_rand_row_degree(nmod_poly_mat_t mat,
-- 
2.43.0


From 2ce4bc76e0a8199e6544ccfeacecb71f08ed16b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:04 +0000
Subject: [PATCH 66/96] fix: aliased geometric middle product of polynomial
 matrices when the matrix is a window

---
 flint-extras/src/nmod_poly_mat_extra/mulmid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/mulmid.c b/flint-extras/src/nmod_poly_mat_extra/mulmid.c
index 50584bd..45db2ba 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mulmid.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mulmid.c
@@ -250,7 +250,7 @@ void _nmod_poly_mat_mulmid_geometric_precomp(nmod_poly_mat_t res,
         nmod_poly_mat_t temp;
         nmod_poly_mat_init(temp, pmat1->r, pmat2->c, pmat1->modulus);
         _nmod_poly_mat_mulmid_geometric(temp, pmat1, len1, pmat2, len2, nlo, nhi);
-        nmod_poly_mat_swap(res, temp);
+        nmod_poly_mat_swap_entrywise(res, temp);
         nmod_poly_mat_clear(temp);
         return;
     }
@@ -279,7 +279,7 @@ void _nmod_poly_mat_mulmid_geometric(nmod_poly_mat_t res,
         nmod_poly_mat_t temp;
         nmod_poly_mat_init(temp, pmat1->r, pmat2->c, pmat1->modulus);
         _nmod_poly_mat_mulmid_geometric(temp, pmat1, len1, pmat2, len2, nlo, nhi);
-        nmod_poly_mat_swap(res, temp);
+        nmod_poly_mat_swap_entrywise(res, temp);
         nmod_poly_mat_clear(temp);
         return;
     }
-- 
2.43.0


From d7ab61e8de2dbe0b5b6ee4d4d32461c313b9e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:30 +0000
Subject: [PATCH 67/96] fix: aliased Vandermonde products of polynomial
 matrices used a dimension as the modulus

---
 flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
index 73f6229..5df43dc 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
@@ -93,7 +93,7 @@ void nmod_poly_mat_mul_vandermonde1(nmod_poly_mat_t c, const nmod_poly_mat_t a,
     if (c == a || c == b)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, p);
+        nmod_poly_mat_init(T, m, p, a->modulus);
         nmod_poly_mat_mul_vandermonde1(T, a, b);
         nmod_poly_mat_swap_entrywise(c, T);
         nmod_poly_mat_clear(T);
@@ -292,7 +292,7 @@ void nmod_poly_mat_mul_vandermonde2(nmod_poly_mat_t c, const nmod_poly_mat_t a,
     if (c == a || c == b)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, p);
+        nmod_poly_mat_init(T, m, p, a->modulus);
         nmod_poly_mat_mul_vandermonde2(T, a, b);
         nmod_poly_mat_swap_entrywise(c, T);
         nmod_poly_mat_clear(T);
-- 
2.43.0


From 2dda16b9196664cc1cb87aeca6cd3587b05f9cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:40 +0000
Subject: [PATCH 68/96] fix: aliased Waksman product of polynomial matrices
 when the right factor is not square

---
 flint-extras/src/nmod_poly_mat_extra/mul_waksman.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c b/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
index b8fcc3b..66045e7 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mul_waksman.c
@@ -35,7 +35,7 @@ void nmod_poly_mat_mul_waksman(nmod_poly_mat_t C, const nmod_poly_mat_t A,  cons
     if (C == A || C == B)
     {
         nmod_poly_mat_t T;
-        nmod_poly_mat_init(T, m, n, mod);
+        nmod_poly_mat_init(T, m, p, mod);
         nmod_poly_mat_mul_waksman(T, A, B);
         nmod_poly_mat_swap_entrywise(C, T);
         nmod_poly_mat_clear(T);
-- 
2.43.0


From d4f3e0e821d6f207932fe606096ad116a05cd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 69/96] fix: nmod_poly_mat_is_approximant_basis answers no,
 without multiplying, when the dimensions are wrong

---
 .../src/nmod_poly_mat_extra/verification.c         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index c65e565..a93d85d 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -32,19 +32,19 @@ int nmod_poly_mat_is_approximant_basis(const nmod_poly_mat_t appbas,
     nmod_poly_t pol;
     nmod_mat_t CP0;
 
-    nmod_poly_init(pol, prime);
-    nmod_poly_mat_init(residual, rdim, cdim, prime);
-    nmod_mat_init(CP0, rdim, rdim+cdim, prime);
-
-    int success = 1;
-
     /* check appbas is square with the right dimension */
     if (appbas->r != rdim || appbas->c != rdim)
     {
         printf("basis has wrong row dimension or column dimension\n");
-        success = 0;
+        return 0;
     }
 
+    nmod_poly_init(pol, prime);
+    nmod_poly_mat_init(residual, rdim, cdim, prime);
+    nmod_mat_init(CP0, rdim, rdim+cdim, prime);
+
+    int success = 1;
+
     /* check appbas is shifted reduced */
     if (!nmod_poly_mat_is_ordered_weak_popov(appbas, shift, orient))
     {
-- 
2.43.0


From 2a2a8721ac35cc00e35ed413e8c44eacdc7aa473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 70/96] fix: nmod_poly_mat_is_approximant_basis checks that the
 determinant is a monomial, not only its degree

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index a93d85d..748810d 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -77,7 +77,11 @@ int nmod_poly_mat_is_approximant_basis(const nmod_poly_mat_t appbas,
     for (slong i = 0; i < rdim; i++)
         D += nmod_poly_degree(nmod_poly_mat_entry(appbas, i, i));
     nmod_poly_mat_det(pol, appbas);
-    if (nmod_poly_degree(pol) != D)
+    int is_monomial = (nmod_poly_degree(pol) == D);
+    for (slong k = 0; is_monomial && k < D; k++)
+        if (nmod_poly_get_coeff_ui(pol, k) != 0)
+            is_monomial = 0;
+    if (!is_monomial)
     {
         printf("determinant is not lambda * x**(sum(diag-deg))");
         success = 0;
-- 
2.43.0


From e25b1abe621b87f39a1fb260e4908af6571c0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:27 +0000
Subject: [PATCH 71/96] fix: nmod_poly_mat_is_kernel uses a residual of the
 dimensions of the product

---
 flint-extras/src/nmod_poly_mat_extra/verification.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/verification.c b/flint-extras/src/nmod_poly_mat_extra/verification.c
index 748810d..7e3edb8 100644
--- a/flint-extras/src/nmod_poly_mat_extra/verification.c
+++ b/flint-extras/src/nmod_poly_mat_extra/verification.c
@@ -133,7 +133,6 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         const ulong prime = mat->modulus;
 
         nmod_poly_mat_t residual;
-        nmod_poly_mat_init(residual, rdim, cdim, prime);
 
         int success = 1;
 
@@ -141,9 +140,11 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         if (ker->c != rdim)
         {
             printf("basis has wrong column dimension\n");
-            success = 0;
+            return 0;
         }
 
+        nmod_poly_mat_init(residual, ker->r, cdim, prime);
+
         /* check rank */
         slong rk = nmod_poly_mat_rank(mat);
         if (ker->r != rdim - rk)
@@ -179,7 +180,6 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         const ulong prime = mat->modulus;
 
         nmod_poly_mat_t residual;
-        nmod_poly_mat_init(residual, rdim, cdim, prime);
 
         int success = 1;
 
@@ -187,9 +187,11 @@ int nmod_poly_mat_is_kernel(const nmod_poly_mat_t ker,
         if (ker->r != cdim)
         {
             printf("basis has wrong row dimension\n");
-            success = 0;
+            return 0;
         }
 
+        nmod_poly_mat_init(residual, rdim, ker->c, prime);
+
         /* check rank */
         slong rk = nmod_poly_mat_rank(mat);
         if (ker->c != cdim - rk)
-- 
2.43.0


From cf789ee4732241741240e8bdbf7e877f7f64c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:20 +0000
Subject: [PATCH 72/96] fix: nmod_poly_mat_is_unimodular_randomized compares
 the determinants at both points

---
 .../src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
index 2f5819f..2a9b4b1 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_is_unimodular.c
@@ -53,7 +53,7 @@ int nmod_poly_mat_is_unimodular_randomized(const nmod_poly_mat_t pmat, flint_ran
     nmod_mat_t ev2;
     nmod_mat_init(ev2, pmat->r, pmat->c, pmat->modulus);
     nmod_poly_mat_evaluate_nmod(ev2, pmat, pt2);
-    ulong det2 = nmod_mat_det(ev1);
+    ulong det2 = nmod_mat_det(ev2);
 
     nmod_mat_clear(ev1);
     nmod_mat_clear(ev2);
-- 
2.43.0


From 992ff8698b28ae196d2f6c8e687829c2c297df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:39 +0000
Subject: [PATCH 73/96] fix: Hermite form by Kannan and Bachem's algorithm
 eliminates the rows below the last pivot and reduces all entries above pivots

---
 .../src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
index 6187342..8c744c8 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
@@ -852,6 +852,16 @@ slong nmod_poly_mat_hnf_ur_revlex_xgcd_delayed_zero(nmod_poly_mat_t mat, nmod_po
         }
     }
 
+    // if all columns have been processed before the last row, entries of the
+    // remaining rows in pivot columns have not all been made zero
+    for (ii = i; ii < mat->r; ii++)
+        for (j = 0; j < mat->c; j++)
+            if (! nmod_poly_is_zero(MAT(ii, j)))
+                _pivot_collision_xgcd_uref(mat, tsf, pivot_row[j], ii, j, g, u, v, pivg, nonzg);
+
+    // the updates of pivots may have left some entries above pivots unreduced
+    _normalize_uref(mat, tsf, pivind, i);
+
     flint_free(pivot_row);
 
     nmod_poly_clear(g);
-- 
2.43.0


From f931eaae7794c9fb427c056b131c9329d14ebe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:51 +0000
Subject: [PATCH 74/96] fix: weak Popov form of a submatrix that does not start
 at the first column

---
 .../src/nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c
index c77d013..b3867e1 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_weak_popov.c
@@ -250,7 +250,7 @@ slong _nmod_poly_mat_weak_popov_iter_submat_rowbyrow(nmod_poly_mat_t mat,
             slong pi = pivot_row[pivind[rk]];
             // see who has greatest pivot degree, and swap accordingly
             // (note that this does not disturb the row rank profile)
-            if (pivdeg < nmod_poly_degree(MAT(rstart+pi, pivind[rk])))
+            if (pivdeg < nmod_poly_degree(MAT(rstart+pi, cstart+pivind[rk])))
             {
                 nmod_poly_mat_swap_rows(mat, NULL, rstart+pi, rstart+rk);
                 if (tsf) nmod_poly_mat_swap_rows(tsf, NULL, rstart+pi, rstart+rk);
@@ -259,7 +259,7 @@ slong _nmod_poly_mat_weak_popov_iter_submat_rowbyrow(nmod_poly_mat_t mat,
 
             // perform atomic collision solving:
             //    mat[rstart+rk,:] = mat[rstart+rk,:] + cst * x**exp * mat[rstart+pi,:]
-            _atomic_solve_pivot_collision_rowwise(mat, tsf, rstart+rk, rstart+pi, pivind[rk]);
+            _atomic_solve_pivot_collision_rowwise(mat, tsf, rstart+rk, rstart+pi, cstart+pivind[rk]);
         }
     }
 
-- 
2.43.0


From 6e78b4dd641abe690a97efef7c28aed591545c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:03 +0000
Subject: [PATCH 75/96] fix: nmod_poly_mat_uref_matrixgcd_iter counts the swap
 of the last pivot row in the determinant sign

---
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
index 8c744c8..0aacf0b 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_hermite.c
@@ -991,6 +991,7 @@ slong nmod_poly_mat_uref_matrixgcd_iter(nmod_poly_mat_t mat,
         // swap rows to put the pivot row pi in position rk
         nmod_poly_mat_swap_rows(mat, NULL, rk, pi);
         if (tsf) nmod_poly_mat_swap_rows(tsf, NULL, rk, pi);
+        if (udet && pi != rk) *udet = - *udet;
         rk++;
     }
     // check the rank requirement has not failed yet: mat[rk:,:] should be zero
-- 
2.43.0


From df5303cf94c968c3319cf7a9746dbffc109bb46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:20 +0000
Subject: [PATCH 76/96] fix: nmod_poly_mat_dixon frees its matrix when the
 input is not invertible at 0

---
 flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_dixon.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_dixon.c b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_dixon.c
index e784119..993cfb8 100644
--- a/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_dixon.c
+++ b/flint-extras/src/nmod_poly_mat_extra/nmod_poly_mat_dixon.c
@@ -106,7 +106,10 @@ slong nmod_poly_mat_dixon(nmod_poly_mat_t X,
 
     slong is_inv = nmod_poly_mat_inv_trunc(C, A, order);
     if (!is_inv)
+    {
+        nmod_poly_mat_clear(C);
         return 0;
+    }
 
     // Temporary matrices
     nmod_poly_mat_t S;
-- 
2.43.0


From 9d9d1cd23a54687f66a4b5a97e610f5ff1d2888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 77/96] fix: _nmod_mat_rotate_columns_leftward puts column i at
 position j

---
 flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
index a50d937..6fab894 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
@@ -123,7 +123,7 @@ void _nmod_mat_rotate_columns_leftward(nmod_mat_t mat, slong * vec, slong i, slo
             ulong tmp_mat = nmod_mat_entry(mat, ii, i);
             for (slong jj = i; jj < j; jj++)
                 nmod_mat_entry(mat, ii, jj) = nmod_mat_entry(mat, ii, jj+1);
-            nmod_mat_entry(mat, ii, i) = tmp_mat;
+            nmod_mat_entry(mat, ii, j) = tmp_mat;
         }
     }
 }
-- 
2.43.0


From 3dfc5bcffcdccd383272e7adad3d928573f38b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 78/96] fix: nmod_mat_permute_columns composes permutations of
 the number of columns

---
 flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
index 6fab894..770c83d 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rotations.c
@@ -144,7 +144,7 @@ void nmod_mat_permute_columns(nmod_mat_t mat, const slong * perm_act, slong * pe
 
     /* perm_store[j] <- perm_store[perm_act[j]] */
     if (perm_store)
-        _perm_compose(perm_store, perm_store, perm_act, mat->r);
+        _perm_compose(perm_store, perm_store, perm_act, mat->c);
 
     /* rows[i] <- rows[perm_act[i]]  */
     for (slong i = 0; i < mat->r; i++)
-- 
2.43.0


From 213f4143e0cad77089968e1a5080dd322b526554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:33 +0000
Subject: [PATCH 79/96] fix: _nmod_mat_l_u_from_compactlu_zeroin stores the
 upper triangular factor in U, not in L

---
 flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
index 8a118b6..b793068 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
@@ -71,7 +71,7 @@ void _nmod_mat_l_u_from_compactlu_zeroin(nmod_mat_t L,
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
             _nmod_vec_set(U->rows[i]+i, LU->rows[i]+i, U->c - i);
 #else
-            _nmod_vec_set(nmod_mat_entry_ptr(L, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
+            _nmod_vec_set(nmod_mat_entry_ptr(U, i, i), nmod_mat_entry_ptr(LU, i, i), U->c - i);
 #endif
 }
 
-- 
2.43.0


From 7a356986752ae662208708850a9328510119ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 80/96] fix: nmod_mat_l_u_from_compactlu clears the first row
 of L beyond the diagonal

---
 flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
index b793068..425891b 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_pluq.c
@@ -81,7 +81,7 @@ void nmod_mat_l_u_from_compactlu(nmod_mat_t L,
                                  slong rk)
 {
     // L: set to zero all entries above diagonal or beyond rk-th column
-    for (slong i = 1; i < rk; i++)
+    for (slong i = 0; i < rk; i++)
 #if __FLINT_VERSION < 3 || (__FLINT_VERSION == 3 && __FLINT_VERSION_MINOR < 3)
         _nmod_vec_zero(L->rows[i]+i+1, L->c - i-1);
 #else
-- 
2.43.0


From a2521811a186c585e4ef98901b30eadf7920e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:48 +0000
Subject: [PATCH 81/96] fix: nmod_mat_rand fills windows row by row

---
 flint-extras/src/nmod_mat_extra/nmod_mat_rand.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_extra/nmod_mat_rand.c b/flint-extras/src/nmod_mat_extra/nmod_mat_rand.c
index 5a3b2ce..7029d40 100644
--- a/flint-extras/src/nmod_mat_extra/nmod_mat_rand.c
+++ b/flint-extras/src/nmod_mat_extra/nmod_mat_rand.c
@@ -30,7 +30,9 @@ static int _slong_comparator(const void * a, const void * b)
 // uniform random
 void nmod_mat_rand(nmod_mat_t mat, flint_rand_t state)
 {
-    _nmod_vec_rand(mat->entries, state, mat->r * mat->c, mat->mod);
+    // row by row, since the rows of a window are not contiguous
+    for (slong i = 0; i < mat->r; i++)
+        _nmod_vec_rand(nmod_mat_entry_ptr(mat, i, 0), state, mat->c, mat->mod);
 }
 
 // random dense with specified rank
-- 
2.43.0


From 6c96c2b9f5437ffe928277b5c494f0a63e58aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:21 +0000
Subject: [PATCH 82/96] fix: _nmod32_vec_mdot_msolve_native_avx2 accumulates
 without signed overflow

---
 flint-extras/src/nmod32_vec/mdot_msolve.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flint-extras/src/nmod32_vec/mdot_msolve.c b/flint-extras/src/nmod32_vec/mdot_msolve.c
index 7300b91..a65611b 100644
--- a/flint-extras/src/nmod32_vec/mdot_msolve.c
+++ b/flint-extras/src/nmod32_vec/mdot_msolve.c
@@ -88,28 +88,28 @@ void _nmod32_vec_mdot_msolve_native_avx2(n32_ptr mv, n32_srcptr mat, n32_srcptr
             /* four 32-bits mul, higher parts */
             prod1=AVX2MUL(mat8,vec8);
             prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-            res1 = prod1 + prod2;
+            res1 = AVX2ADD_64(prod1, prod2);
             mat_cp+=8;
             vec_cp+=8;
             mat8=AVX2LOADU(mat_cp);
             vec8=AVX2LOADU(vec_cp);
             prod1=AVX2MUL(mat8,vec8);
             prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-            res1 += prod1 + prod2;
+            res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
             mat_cp+=8;
             vec_cp+=8;
             mat8=AVX2LOADU(mat_cp);
             vec8=AVX2LOADU(vec_cp);
             prod1=AVX2MUL(mat8,vec8);
             prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-            res1 += prod1 + prod2;
+            res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
             mat_cp+=8;
             vec_cp+=8;
             mat8=AVX2LOADU(mat_cp);
             vec8=AVX2LOADU(vec_cp);
             prod1=AVX2MUL(mat8,vec8);
             prod2= AVX2MUL(AVX2SRLI_64(mat8,32),AVX2SRLI_64(vec8,32));
-            res1 += prod1 + prod2;
+            res1 = AVX2ADD_64(res1, AVX2ADD_64(prod1, prod2));
             mat_cp+=8;
             vec_cp+=8;
 
-- 
2.43.0


From 7b7627bf2982002dfb20998bcb0156b5c1e75e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:08 +0000
Subject: [PATCH 83/96] fix: next_power_of_two for arguments above 2^30

---
 flint-extras/src/nmod_extra/nmod_extra.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flint-extras/src/nmod_extra/nmod_extra.c b/flint-extras/src/nmod_extra/nmod_extra.c
index a1b601d..74331d9 100644
--- a/flint-extras/src/nmod_extra/nmod_extra.c
+++ b/flint-extras/src/nmod_extra/nmod_extra.c
@@ -23,12 +23,9 @@
 /*------------------------------------------------------------------------*/
 int next_power_of_two(ulong x)
 {
-    int i = 0, j = 1;
-    while (j < (int) x)
-    {
+    int i = 0;
+    while (i < FLINT_BITS && (UWORD(1) << i) < x)
         i++;
-        j <<= 1;
-    }
     return i;
 }
 
-- 
2.43.0


From 89fbe4f2d970c4da023805a1a6bb01f999960800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:08 +0000
Subject: [PATCH 84/96] fix: inverse_mod_power_of_two for k = FLINT_BITS

---
 flint-extras/src/nmod_extra/nmod_extra.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_extra/nmod_extra.c b/flint-extras/src/nmod_extra/nmod_extra.c
index 74331d9..547699a 100644
--- a/flint-extras/src/nmod_extra/nmod_extra.c
+++ b/flint-extras/src/nmod_extra/nmod_extra.c
@@ -43,5 +43,5 @@ ulong inverse_mod_power_of_two(ulong p, int k)
       ip = (2*ip-p*ip*ip);
   }
   while (ip != old);
-  return ip & ((1L << k)-1);
+  return (k < FLINT_BITS) ? (ip & ((UWORD(1) << k)-1)) : ip;
 }
-- 
2.43.0


From 10dba94ffc8284570052229ae7caa84018bbc500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:07 +0000
Subject: [PATCH 85/96] fix: CRT with four primes takes into account the fourth
 limb

---
 flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
index 9143861..457df00 100644
--- a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
+++ b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
@@ -105,7 +105,11 @@ FLINT_FORCE_INLINE void _crt_4(nn_ptr out,
         _big_addmul_4_3(r, t, data + 2*4, nmod_mul(inv2, residues2[i], mod2));
         _big_addmul_4_3(r, t, data + 3*4, nmod_mul(inv3, residues3[i], mod3));
         _reduce_big_sum_4(r, t, data + 4*4);
-        NMOD_RED3(out[i], r[2], r[1], r[0], mod);
+        // the product of the four primes has more than 3 limbs
+        ulong hi;
+        NMOD_RED(r[3], r[3], mod);
+        NMOD_RED3(hi, r[3], r[2], r[1], mod);
+        NMOD_RED2(out[i], hi, r[0], mod);
     }
 }
 
-- 
2.43.0


From c2bc9f5ce89c652064dfdd852fa0c297cd975203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 86/96] fix: CRT with three primes reduces the top limb before
 NMOD_RED3

---
 flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
index 457df00..3882071 100644
--- a/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
+++ b/flint-extras/src/nmod_extra/nmod_multimod_CRT_CRT.c
@@ -80,6 +80,7 @@ FLINT_FORCE_INLINE void _crt_3(nn_ptr out,
         _big_addmul_3_2(r, t, data + 1*3, nmod_mul(inv1, residues1[i], mod1));
         _big_addmul_3_2(r, t, data + 2*3, nmod_mul(inv2, residues2[i], mod2));
         _reduce_big_sum_3(r, t, data + 3*3);
+        NMOD_RED(r[2], r[2], mod);
         NMOD_RED3(out[i], r[2], r[1], r[0], mod);
     }
 }
-- 
2.43.0


From c41ee623f3758dc48fa7ce8eb8d485aee9d85109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:38 +0000
Subject: [PATCH 87/96] fix: nmod_poly_mat_mul_vandermonde2 over the field with
 two elements

---
 flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
index 5df43dc..9affcf6 100644
--- a/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
+++ b/flint-extras/src/nmod_poly_mat_extra/mul_vandermonde.c
@@ -280,6 +280,12 @@ void nmod_poly_mat_mul_vandermonde2(nmod_poly_mat_t c, const nmod_poly_mat_t a,
         nmod_poly_mat_zero(c);
         return;
     }
+    if (a->modulus == 2) /* constant matrices; there is no 1/2 */
+    {
+        nmod_poly_mat_mul_vandermonde1(c, a, b);
+        return;
+    }
+
     dA = ellA - 1;
     dB = ellB - 1;
     sA = dA / 2 + 1;
-- 
2.43.0


From dd9fb91dac59d69dbb4e60fd42d6ff9740367ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 88/96] fix: slongvec_print_sagemath on the empty list

---
 flint-extras/src/sagemath_extra/sagemath_extras.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flint-extras/src/sagemath_extra/sagemath_extras.c b/flint-extras/src/sagemath_extra/sagemath_extras.c
index ca2b238..e419550 100644
--- a/flint-extras/src/sagemath_extra/sagemath_extras.c
+++ b/flint-extras/src/sagemath_extra/sagemath_extras.c
@@ -17,7 +17,9 @@ void slongvec_print_sagemath(const slong * shift, slong length)
     printf("[");
     for (slong i = 0; i < length - 1; i++)
         printf("%ld,", shift[i]);
-    printf("%ld]\n", shift[length - 1]);
+    if (length > 0)
+        printf("%ld", shift[length - 1]);
+    printf("]\n");
 }
 
 void nmod_mat_print_sagemath(const nmod_mat_t mat)
-- 
2.43.0


From 5fc4b9ea92e5a2437994aea78d7b1b74b853869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:29 +0000
Subject: [PATCH 89/96] fix: nmod_mat_print_sagemath prints entries above 2^63
 as unsigned

---
 flint-extras/src/sagemath_extra/sagemath_extras.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/sagemath_extra/sagemath_extras.c b/flint-extras/src/sagemath_extra/sagemath_extras.c
index e419550..4eccbaa 100644
--- a/flint-extras/src/sagemath_extra/sagemath_extras.c
+++ b/flint-extras/src/sagemath_extra/sagemath_extras.c
@@ -32,9 +32,9 @@ void nmod_mat_print_sagemath(const nmod_mat_t mat)
         for (slong j = 0; j < cdim; j++)
         {
             if (j != cdim - 1)
-                printf("%ld, ",  nmod_mat_get_entry(mat, i, j));
+                printf("%lu, ",  nmod_mat_get_entry(mat, i, j));
             else
-                printf("%ld",  nmod_mat_get_entry(mat, i, j));
+                printf("%lu",  nmod_mat_get_entry(mat, i, j));
 
         }
         if (i != rdim -1)
-- 
2.43.0


From 9ebafae033d1fe6679dc036cd2a588a5cae6758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 90/96] fix: nmod_mat_poly_print_pretty prints a modulus above
 2^63 as unsigned

---
 flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
index 6c0afe5..5a1907c 100644
--- a/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
+++ b/flint-extras/src/nmod_mat_poly_extra/nmod_mat_poly_io.c
@@ -8,7 +8,7 @@ void nmod_mat_poly_print(const nmod_mat_poly_t matp)
 
 void nmod_mat_poly_print_pretty(const nmod_mat_poly_t matp)
 {
-    printf("r: %ld, c: %ld, len: %ld, mod: %ld\n",
+    printf("r: %ld, c: %ld, len: %ld, mod: %lu\n",
            matp->r, matp->c, matp->length, matp->mod.n);
 	for (slong i = 0; i < matp->length; i++)
     {
-- 
2.43.0


From 98898e4aa83636d57c9f0700c95ba331d135856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 91/96] fix: pm_coeffs wrote beyond its array of terms when
 asked for fewer terms than the order of the recurrence

---
 flint-extras/src/mapml/mapml_matpoly_export.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flint-extras/src/mapml/mapml_matpoly_export.c b/flint-extras/src/mapml/mapml_matpoly_export.c
index 04f223d..b1e75ad 100644
--- a/flint-extras/src/mapml/mapml_matpoly_export.c
+++ b/flint-extras/src/mapml/mapml_matpoly_export.c
@@ -77,7 +77,7 @@ ALGEB pm_coeffs(MKernelVector kv, ALGEB *args){
     fmpq_t L[N+1];    
 
 
-    for (i=0; i<m; i++){
+    for (i=0; i<m && i<N+1; i++){  // There may be more initial conditions than terms
 
         fmpq_init(L[i]);
         fmpq_set(L[i],cinit[i]);
-- 
2.43.0


From 32ab1128c5df58a332f62903be4f049f02e44383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:51 +0000
Subject: [PATCH 92/96] fix: pm_coeffs evaluated polynomials into rationals
 that were never initialised

---
 flint-extras/src/mapml/mapml_matpoly_export.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flint-extras/src/mapml/mapml_matpoly_export.c b/flint-extras/src/mapml/mapml_matpoly_export.c
index b1e75ad..039cde2 100644
--- a/flint-extras/src/mapml/mapml_matpoly_export.c
+++ b/flint-extras/src/mapml/mapml_matpoly_export.c
@@ -87,6 +87,9 @@ ALGEB pm_coeffs(MKernelVector kv, ALGEB *args){
 
     fmpq_t evalp[m+1];  // the evaluation of the polynomials 
 
+    for (i=0; i<m+1; i++)
+        fmpq_init(evalp[i]);
+
     // Main loop 
     //----------
 
-- 
2.43.0


From 95d320bcd53198be9d63940034df7e67a7e67662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:30 +0000
Subject: [PATCH 93/96] fix: the Maple interface never gave back the memory of
 its intermediate objects

---
 flint-extras/src/mapml/mapml_conversion.c     |  2 +
 flint-extras/src/mapml/mapml_dummy_export.c   | 18 +++++--
 flint-extras/src/mapml/mapml_matpoly_export.c | 49 ++++++++++++++++---
 3 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/flint-extras/src/mapml/mapml_conversion.c b/flint-extras/src/mapml/mapml_conversion.c
index 3496f47..d7a7ba9 100644
--- a/flint-extras/src/mapml/mapml_conversion.c
+++ b/flint-extras/src/mapml/mapml_conversion.c
@@ -483,6 +483,8 @@ void get_nmod_poly_mat(nmod_poly_mat_t A,   const ulong modulus, MKernelVector k
 
     fmpq_poly_canonicalise(p);
 
+    fmpq_clear(q);
+
 }
 
 /************************************************************
diff --git a/flint-extras/src/mapml/mapml_dummy_export.c b/flint-extras/src/mapml/mapml_dummy_export.c
index 13a64f4..200b751 100644
--- a/flint-extras/src/mapml/mapml_dummy_export.c
+++ b/flint-extras/src/mapml/mapml_dummy_export.c
@@ -45,7 +45,11 @@ ALGEB polynomial_rt(MKernelVector kv, ALGEB *args){
 
     get_nmod_poly(p, modulus, kv, vect);
     
-    return nmod_poly_to_algeb(kv,p);
+    ALGEB res = nmod_poly_to_algeb(kv,p);
+
+    nmod_poly_clear(p);
+
+    return res;
 
 }
 
@@ -75,7 +79,11 @@ ALGEB matpoly_rt(MKernelVector kv, ALGEB *args){
 
     get_nmod_mat_poly(A, modulus, kv, vect_mat);
     
-    return nmod_mat_poly_to_algeb(kv,A);
+    ALGEB res = nmod_mat_poly_to_algeb(kv,A);
+
+    nmod_mat_poly_clear(A);
+
+    return res;
 
 }
 
@@ -105,7 +113,11 @@ ALGEB polymat_rt(MKernelVector kv, ALGEB *args){
 
     get_nmod_poly_mat(A, modulus, kv, vect_mat);
     
-    return nmod_poly_mat_to_algeb(kv,A);
+    ALGEB res = nmod_poly_mat_to_algeb(kv,A);
+
+    nmod_poly_mat_clear(A);
+
+    return res;
 
 }
 
diff --git a/flint-extras/src/mapml/mapml_matpoly_export.c b/flint-extras/src/mapml/mapml_matpoly_export.c
index 039cde2..1291910 100644
--- a/flint-extras/src/mapml/mapml_matpoly_export.c
+++ b/flint-extras/src/mapml/mapml_matpoly_export.c
@@ -107,7 +107,7 @@ ALGEB pm_coeffs(MKernelVector kv, ALGEB *args){
         // Evaluations
         for (i=0; i<m+1; i++){
 
-            fmpz_init_set_si(e,k-m);
+            fmpz_set_si(e,k-m);
 
             fmpq_poly_evaluate_fmpz(evalp[i], vp[i], e);
             
@@ -137,8 +137,25 @@ ALGEB pm_coeffs(MKernelVector kv, ALGEB *args){
         str = fmpq_get_str(NULL, 10, L[k-1]);
 
         MapleListAssign(kv,listcoeff,k, ToMapleString(kv,str));
+
+        flint_free(str);
+    }
+
+    for (i=0; i<m+1; i++) {
+        fmpq_poly_clear(vp[i]);
+        fmpq_clear(evalp[i]);
     }
 
+    for (i=0; i<m; i++)
+        fmpq_clear(cinit[i]);
+
+    for (k=0; k<N+1; k++)
+        fmpq_clear(L[k]);
+
+    fmpq_clear(res);
+    fmpq_clear(tt);
+    fmpz_clear(e);
+
     return listcoeff;
 
 
@@ -196,7 +213,12 @@ ALGEB pm_determinant(MKernelVector kv, ALGEB *args){
 
     nmod_poly_mat_det(p, A);
     
-    return nmod_poly_to_algeb(kv,p);
+    ALGEB res = nmod_poly_to_algeb(kv,p);
+
+    nmod_poly_clear(p);
+    nmod_poly_mat_clear(A);
+
+    return res;
 
 }
 
@@ -230,7 +252,7 @@ ALGEB pm_diff_mbasis(MKernelVector kv, ALGEB *args){
     ulong modulus = MapleToInteger64(kv,args[4]);
 
     nmod_poly_t p;    // The polynomial that will be differentiated 
-    nmod_poly_init(p,modulus);
+    // (initialized by the call below)
     get_nmod_poly(p, modulus, kv, args[2]);
 
 
@@ -290,6 +312,10 @@ ALGEB res= MapleListAlloc(kv,2);
 MapleListAssign(kv,res,1,nmod_poly_mat_to_algeb(kv,M));
 MapleListAssign(kv,res,2,outdct);
 
+nmod_poly_clear(p);
+nmod_poly_mat_clear(Vdiff);
+nmod_poly_mat_clear(M);
+
 return res;
 
 }
@@ -370,6 +396,9 @@ ALGEB res= MapleListAlloc(kv,2);
 MapleListAssign(kv,res,1,nmod_poly_mat_to_algeb(kv,M));
 MapleListAssign(kv,res,2,outdct);
 
+nmod_poly_mat_clear(M);
+nmod_poly_mat_clear(A);
+
 return res;
 
 }
@@ -450,6 +479,9 @@ ALGEB res= MapleListAlloc(kv,2);
 MapleListAssign(kv,res,1,nmod_poly_mat_to_algeb(kv,M));
 MapleListAssign(kv,res,2,outdct);
 
+nmod_poly_mat_clear(M);
+nmod_poly_mat_clear(A);
+
 return res;
 
 }
@@ -554,6 +586,8 @@ ALGEB pm_weakpopov(MKernelVector kv, ALGEB *args){
     ALGEB res= MapleListAlloc(kv,1);
     MapleListAssign(kv,res,1,nmod_poly_mat_to_algeb(kv,A));
 
+    nmod_poly_mat_clear(A);
+
     return res;
 
 }
@@ -634,8 +668,9 @@ ALGEB pm_kernel(MKernelVector kv, ALGEB *args){
     MapleListAssign(kv,res,1,ToMapleInteger(kv,nz));
     MapleListAssign(kv,res,2,nmod_poly_mat_to_algeb(kv,kernz));
 
-    nmod_poly_mat_clear(N);
     nmod_poly_mat_window_clear(kernz);
+    nmod_poly_mat_clear(N);
+    nmod_poly_mat_clear(A);
 
     return res;
 
@@ -682,8 +717,9 @@ ALGEB pm_row_kernel(MKernelVector kv, ALGEB *args){
     MapleListAssign(kv,res,1,ToMapleInteger(kv,nz));
     MapleListAssign(kv,res,2,nmod_poly_mat_to_algeb(kv,kernz));
 
-    nmod_poly_mat_clear(N);
     nmod_poly_mat_window_clear(kernz);
+    nmod_poly_mat_clear(N);
+    nmod_poly_mat_clear(A);
 
     return res;
 
@@ -718,8 +754,9 @@ ALGEB pm_nullspace(MKernelVector kv, ALGEB *args){
     MapleListAssign(kv,res,1,ToMapleInteger(kv,nz));
     MapleListAssign(kv,res,2,nmod_poly_mat_to_algeb(kv,kernz));
 
-    nmod_poly_mat_clear(N);
     nmod_poly_mat_window_clear(kernz);
+    nmod_poly_mat_clear(N);
+    nmod_poly_mat_clear(A);
 
     return res;
 
-- 
2.43.0


From 2c0c228cd93e1e81207649cba490bbff35052850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:11 +0000
Subject: [PATCH 94/96] fix: nmod_poly_mat_rand_popov read degree constraints
 that were never set

---
 flint-extras/src/nmod_poly_mat_extra/randomisation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flint-extras/src/nmod_poly_mat_extra/randomisation.c b/flint-extras/src/nmod_poly_mat_extra/randomisation.c
index db34713..8d98892 100644
--- a/flint-extras/src/nmod_poly_mat_extra/randomisation.c
+++ b/flint-extras/src/nmod_poly_mat_extra/randomisation.c
@@ -85,7 +85,7 @@ void _nmod_poly_mat_rand_popov_row_lower(nmod_poly_mat_t mat,
             dvec[j] = pivdeg[i]+shift[pivind[i]]-shift[j]-1;
         // column-wise constraints for row i
         for (slong ii = 0; ii < mat->r; ii++)
-            if (dvec[pivind[ii]] >= pivdeg[ii])
+            if (ii != i && dvec[pivind[ii]] >= pivdeg[ii])
                 dvec[pivind[ii]] = pivdeg[ii]-1;
         // random filling before pivot
         for (slong j = 0; j < pivind[i]; j++)
@@ -119,7 +119,7 @@ void _nmod_poly_mat_rand_popov_col_upper(nmod_poly_mat_t mat,
             dvec[i] = pivdeg[j]+shift[pivind[j]]-shift[i]-1;
         // row-wise constraints for column j
         for (slong jj = 0; jj < mat->c; jj++)
-            if (dvec[pivind[jj]] >= pivdeg[jj])
+            if (jj != j && dvec[pivind[jj]] >= pivdeg[jj])
                 dvec[pivind[jj]] = pivdeg[jj]-1;
         // random filling before pivot
         for (slong i = 0; i < pivind[j]; i++)
-- 
2.43.0


From eb288d1d8a7b12af9bb393412b1c9c44268117a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:22 +0000
Subject: [PATCH 95/96] fix: split26 dot products lost a carry when combining
 the low parts

---
 flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c | 10 ++++++++--
 .../src/nmod_vec_extra/nmod_vec_dot_product_multi.c    |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
index c2675cf..724a3c4 100644
--- a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
+++ b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product.c
@@ -214,7 +214,10 @@ ulong _nmod_vec_dot_product_split26(nn_srcptr v1, nn_srcptr v2, ulong len, nmod_
 
     // result: ulo + 2**26 umi + 2**52 uhi
     // hi = (umi >> 38) + (uhi >> 12)  ||  lo = (umi << 26) + (uhi << 52) + ulo
-    add_ssaaaa(uhi, ulo, (umi>>38), (umi<<26), (uhi>>12), ((uhi<<52)+ulo));
+    // (two additions: the sum of lows may itself exceed one limb)
+    ulong thi, tlo;
+    add_ssaaaa(thi, tlo, (umi>>38), (umi<<26), (uhi>>12), (uhi<<52));
+    add_ssaaaa(uhi, ulo, thi, tlo, UWORD(0), ulo);
     ulong res;
     NMOD2_RED2(res, uhi, ulo, mod);
     return res;
@@ -260,7 +263,10 @@ ulong _nmod_vec_dot_product_split26_avx(nn_srcptr v1, nn_srcptr v2, ulong len, n
 
     // result: ulo + 2**26 umi + 2**52 uhi
     // hi = (umi >> 38) + (uhi >> 12)  ||  lo = (umi << 26) + (uhi << 52) + ulo
-    add_ssaaaa(dp_hi, dp_lo, (dp_mi>>38), (dp_mi<<26), (dp_hi>>12), ((dp_hi<<52)+dp_lo));
+    // (two additions: the sum of lows may itself exceed one limb)
+    ulong thi, tlo;
+    add_ssaaaa(thi, tlo, (dp_mi>>38), (dp_mi<<26), (dp_hi>>12), (dp_hi<<52));
+    add_ssaaaa(dp_hi, dp_lo, thi, tlo, UWORD(0), dp_lo);
     ulong res;
     NMOD2_RED2(res, dp_hi, dp_lo, mod);
     return res;
diff --git a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
index 778baf9..64db1f7 100644
--- a/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
+++ b/flint-extras/src/nmod_vec_extra/nmod_vec_dot_product_multi.c
@@ -1200,7 +1200,10 @@ void _nmod_vec_dot_product_multi_2_split26(nn_ptr uv, nn_srcptr u, nn_srcptr * v
     {
         // result: uv_lo + 2**26 uv_mi + 2**52 uv_hi
         // hi = (uv_mi >> 38) + (uv_hi >> 12)  ||  lo = (uv_mi << 26) + (uv_hi << 52) + uv_lo
-        add_ssaaaa(uv_hi[j], uv[j], uv_mi[j]>>38, uv_mi[j]<<26, uv_hi[j]>>12, (uv_hi[j]<<52)+uv[j]);
+        // (two additions: the sum of lows may itself exceed one limb)
+        ulong thi, tlo;
+        add_ssaaaa(thi, tlo, uv_mi[j]>>38, uv_mi[j]<<26, uv_hi[j]>>12, uv_hi[j]<<52);
+        add_ssaaaa(uv_hi[j], uv[j], thi, tlo, UWORD(0), uv[j]);
         NMOD2_RED2(uv[j], uv_hi[j], uv[j], mod);
     }
     _nmod_vec_clear(uv_hi);
-- 
2.43.0


From a83bce6b302a181194465914eb7b0a68372654a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 96/96] fix: vandermonde kept stale entries of its output
 matrices in the first row

---
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index daf946f..91f808c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -20,6 +20,9 @@ void vandermonde(Mat<zz_p>& vdm1, Mat<zz_p>& vdm2, Mat<zz_p>& inv_vdm, long d1,
     // row i contains 1, i, i^2, .., i^{sk-1} for k=1,2
     vdm1.SetDims(nb_points, s1);
     vdm2.SetDims(nb_points, s2);
+    // SetDims keeps entries that were there: the first row below relies on zeroes
+    clear(vdm1);
+    clear(vdm2);
 
     // vdm: square Vandermonde matrix with nb_points
     // points chosen as 0, 1, .., nb_points-1
-- 
2.43.0

