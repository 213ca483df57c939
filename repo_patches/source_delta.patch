From 93e8e97d9ecd05c1e02fbc7201f6f01f033d44e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 01/15] fix: ConstHessIt visits every pair when missing
 elements are not skipped

---
 uncertainties/internal/hessgrad.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..a6722a5 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,19 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // Walk all the pairs of diagonal elements; `tri` is
+                        // always at the first element not before the pair.
+                        if (tri != triend && tri->first == IdPair {diagmin->first, diagmax->first}) {
+                            ++tri;
+                        }
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
-- 
2.43.0


From 965616e5ecd25a9fcc0d80042f40ae67f0d162e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 02/15] fix: sign of the derivatives of atan2 of UReal, and
 atan2(0, y)

---
 uncertainties/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..e910220 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,9 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        const Real xxyy = x.n() * x.n() + y.n() * y.n();
+        const Real dx = y.n() / xxyy;
+        const Real dy = -x.n() / xxyy;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From 00a627daefaecd2e6133d60834cddc997882b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 03/15] fix: derivative of cbrt of UReal for negative mean

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index e910220..b7d877c 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real cbrtx = cbrt(x.n());
+        return unary(x, cbrtx, Real(1) / (Real(3) * cbrtx * cbrtx));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From 0d9f27f9f7a6983952496ac2f790078bec716d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 04/15] fix: UReal::grad of an independent variable

---
 uncertainties/ureal.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..ea09266 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -574,7 +574,7 @@ namespace uncertainties {
         \throw std::invalid_argument if `x` is not independent or if it has
         no uncertainty information.
         */
-        Real grad(const UReal<Real> &x) {
+        Real grad(const UReal<Real> &x) const {
             if (not (x.id > 0 or x.sigma.size() == 1)) {
                 std::ostringstream ss;
                 ss << "uncertainties::UReal::grad: ";
@@ -582,9 +582,12 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+            if (this->id > 0 and this->id == xid) {
+                return this->sdev / xg;
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
-                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
                 return it->second / xg;
             } else {
                 return 0;
-- 
2.43.0


From 9783b9dbeb6cd0767f5b8d26a9936868baf35d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 05/15] fix: isfinite and isnormal of UReal2 did not compile

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index b7d877c..8102c89 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -534,7 +534,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -542,7 +542,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 198f5004ad43c01f830dc89ed76b67b977152e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 06/15] fix: ndigits did not compile if math.hpp was included
 before io.hpp

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..f02f906 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -97,13 +97,13 @@ namespace uncertainties {
         
         template<typename Real>
         int ndigits(Real *const x, const float n) {
+            using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 8b61f6f991772fe4572dab7f56b68f93a3dd9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 07/15] fix: scale of the rounded uncertainty in ndigits

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index f02f906..3fd77fd 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -100,7 +100,7 @@ namespace uncertainties {
             using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From a299ca0f1617ce858e591ff593b0b05517de25f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 08/15] fix: tostring dropped the sign of negative values

---
 uncertainties/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 3fd77fd..cf7817b 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -136,6 +136,7 @@ namespace uncertainties {
             const int n = 6;
             int e = exponent(x);
             std::string m = mantissa(x, n, &e);
+            const std::string sign = x < 0 ? "-" : "";
             const bool use_exp = e >= n or e < -1;
             if (use_exp) {
                 insert_dot(&m, n, 0);
@@ -143,7 +144,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return sign + m;
         }
     }
     
-- 
2.43.0


From 12f3367789debe1c9c16a86ddff5a3997d1287b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 09/15] fix: alignment of the mean in format when it gains a
 digit when rounded

---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index cf7817b..029fa9d 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -166,8 +166,14 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int muexp_before_rounding = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp != muexp_before_rounding) {
+            // the mean gained a digit when rounded, keep the last one aligned
+            ++mundig;
+            mumant.push_back('0');
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From d76993be2492ae42c620907cee79018842d9f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 10/15] fix: format rejected errdig == 1, documented as valid

---
 uncertainties/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 029fa9d..6635f49 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -153,8 +153,8 @@ namespace uncertainties {
     std::string format(const Number &x,
                        const float errdig,
                        const std::string &sep) {
-        if (errdig <= 1.0f) {
-            throw std::invalid_argument("uncertainties::format: errdig <= 1.0");
+        if (errdig < 1.0f) {
+            throw std::invalid_argument("uncertainties::format: errdig < 1.0");
         }
         const auto mu = nom(x);
         auto s = sdev(x);
-- 
2.43.0


From 9f5df7421e3b4cdace01baaa9ac015e4bf8c90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 11/15] fix: fmod used ::trunc, converting to double

---
 uncertainties/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 8102c89..461b7a5 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,6 +47,7 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
+        using std::trunc;
         return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
     }
     template<typename Real>
@@ -258,6 +259,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::trunc;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
         return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
-- 
2.43.0


From 32d6bfcdb1a21cc7fdaed7b1d3f43bdfd9ce2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 12/15] fix: derivatives of pow when the mean of the base is
 zero

---
 uncertainties/math.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 461b7a5..c9cc243 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -115,7 +115,9 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        // p * y / x would be undefined for x = 0
+        const Real dx = y.n() == 0 ? Real(0) : Real(y.n() * pow(x.n(), y.n() - 1));
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -349,14 +351,15 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        // x2y / x would be undefined for x = 0
+        const Real x2yix = pow(xn, yn - 1);
+        const Real x2yixy = yn == 0 ? Real(0) : Real(x2yix * yn);
+        const Real ddx = yn == 0 or yn == 1 ? Real(0) : Real(yn * (yn - 1) * pow(xn, yn - 2));
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
                       x2yixy,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      ddx,
                       x2ylogx * logx,
                       x2yix + x2yixy * logx);
     }
-- 
2.43.0


From b2d641e7b473c5425d78897914451b510f97d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 13/15] fix: binary_assign of UReal2 gave wrong derivatives

---
 uncertainties/ureal2.hpp | 77 ++--------------------------------------
 1 file changed, 3 insertions(+), 74 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..9b91f23 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -909,80 +909,9 @@ namespace uncertainties {
             const Real &dfdx, const Real &dfdy,
             const Real &ddfdxdx, const Real &ddfdydy, const Real &ddfdxdy
         ) {
-            // THIS FUNCTION IS NOT FINISHED! It modifies x and then reads
-            // it again... how do I do this?
-            // O(n) fix: the first part walks in order the hessian. It never
-            // happens that a hessian element is required to compute the hessian
-            // element at a different coordinate. So I can save x's gradient
-            // beforehand in an array.
-            
-            x.mu = fxy;
-
-            constexpr Id maxid = std::numeric_limits<Id>::max();
-            const std::pair<Id, Id> pmaxid {maxid, maxid};
-
-            const Real hddfdxdx = ddfdxdx / 2;
-            const Real hddfdydy = ddfdydy / 2;
-            const Real hddfdxdy = ddfdxdy / 2;
-        
-            ConstHessIt itx = x.hg.chbegin(hddfdxdx == 0);
-            const ConstHessIt xend = x.hg.chend();
-            ConstHessIt ity = y.hg.chbegin(hddfdydy == 0);
-            const ConstHessIt yend = y.hg.chend();
-            
-            while (itx != xend or ity != yend) {
-                const std::pair<Id, Id> idx = itx != xend ? std::make_pair(itx.id1(), itx.id2()) : pmaxid;
-                const std::pair<Id, Id> idy = ity != yend ? std::make_pair(ity.id1(), ity.id2()) : pmaxid;
-                
-                Real *hhess;
-                Diag *diag;
-                
-                if (idx <= idy) {
-                    hhess = &x.hg.hhess(idx.first, idx.second);
-                    *hhess += hddfdxdx * itx.diag1().grad * itx.diag2().grad;
-                    *hhess += dfdx * (*itx);
-                    if (idx.first == idx.second) {
-                        diag = &x.hg.diag(idx.first);
-                        diag->mom = itx.diag1().mom;
-                        diag->grad += dfdx * itx.diag1().grad;
-                    }
-                }
-                
-                if (idy <= idx) {
-                    if (idx != idy) {
-                        hhess = &x.hg.hhess(idy.first, idy.second);
-                        if (idy.first == idy.second) {
-                            diag = &x.hg.diag(idy.first);
-                            diag->mom = ity.diag1().mom;
-                        }
-                    }
-                    *hhess += hddfdydy * ity.diag1().grad * ity.diag2().grad;
-                    *hhess += dfdy * (*ity);
-                    if (idy.first == idy.second) {
-                        diag->grad += dfdy * ity.diag1().grad;
-                    }
-                }
-                
-                if (idx <= idy) ++itx;
-                if (idy <= idx) ++ity;
-            }
-            
-            // I shall consider the following code a very inefficient patch.
-            if (hddfdxdy != 0) {
-                const ConstDiagIt end = x.hg.cdend();
-                ConstDiagIt iti, itj;
-                for (iti = x.hg.cdbegin(); iti != end; ++iti) {
-                    for (itj = iti; itj != end; ++itj) {
-                        const Id idi = iti->first;
-                        const Id idj = itj->first;
-                        const Real &dix = x.hg.diag_get(idi).grad;
-                        const Real &djx = x.hg.diag_get(idj).grad;
-                        const Real &diy = y.hg.diag_get(idi).grad;
-                        const Real &djy = y.hg.diag_get(idj).grad;
-                        x.hg.hhess(idi, idj) += hddfdxdy * (dix * djy + djx * diy);
-                    }
-                }
-            }
+            // Computing the result in place is not possible because the old
+            // gradient is needed until the end.
+            x = binary(x, y, fxy, dfdx, dfdy, ddfdxdx, ddfdydy, ddfdxdy);
         }
         
         friend inline const UReal2<Real, prop> &
-- 
2.43.0


From 17cf007f2a82395cc2fefb2989611c4e7124c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:46 +0000
Subject: [PATCH 14/15] fix: mean of a quotient of UReal is the quotient of the
 means

x * (1 / y) is rounded twice (49 / 49 gave 0.99999999999999989) and
overflows when y is subnormal.
---
 uncertainties/ureal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index ea09266..75dd1f3 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -792,7 +792,7 @@ namespace uncertainties {
         }
         friend UReal<Real> operator/(const UReal<Real> &x, const UReal<Real> &y) {
             const Real inv_y = Real(1) / y.mu;
-            const Real mu = x.mu * inv_y;
+            const Real mu = x.mu / y.mu;
             return binary(x, y, mu, inv_y, -mu * inv_y);
         }
         const UReal<Real> &operator+=(const UReal<Real> &x) {
@@ -806,7 +806,7 @@ namespace uncertainties {
         }
         const UReal<Real> &operator/=(const UReal<Real> &x) {
             const Real inv_x = Real(1) / x.mu;
-            const Real mu = this->mu * inv_x;
+            const Real mu = this->mu / x.mu;
             return binary_assign(x, mu, inv_x, -mu * inv_x);
         }
     };
-- 
2.43.0


From 5fceb53aa128c99470de9df8debc9908ac2fd3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 15/15] fix: format of tiny numbers and of means with more
 digits than Real holds

The power of ten overflowed to infinity for numbers below 1e-303, and so did
the scaled mean when the standard deviation is very small; format() then never
returned, or failed an assertion.
---
 uncertainties/io.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 6635f49..aee16bf 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -60,7 +60,14 @@ namespace uncertainties {
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
             using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            using std::isinf;
+            const int p = n - 1 - e;
+            const Real scale = pow(Real(10), p);
+            if (isinf(scale)) {
+                // x is tiny, scale in two steps
+                return round(x * pow(Real(10), p / 2) * pow(Real(10), p - p / 2));
+            }
+            return round(x * scale);
         }
         
         template<typename Real>
@@ -113,8 +120,15 @@ namespace uncertainties {
     
         template<typename Real>
         std::string mantissa(const Real &x, const int n, int *const e) {
-            const Real m = int_mantissa(x, n, *e);
+            using std::isinf;
+            int k = n;
+            Real m = int_mantissa(x, k, *e);
+            while (isinf(m)) {
+                // too many digits to be held by Real, the last ones are zeros
+                m = int_mantissa(x, --k, *e);
+            }
             std::string s = int_mantissa_string(m);
+            s.append(n - k, '0');
             assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
-- 
2.43.0

