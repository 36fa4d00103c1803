From bbedeee695ae824f8b2bfa1d26864998ed60fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 001/122] fix: sample odds ratio confidence interval raised
 TypeError

---
 mpsci/stats/_odds_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 95096c4..1b8f096 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -194,7 +194,7 @@ def _sample_odds_ratio_ci(table, confidence_level,
     oddsratio = _sample_odds_ratio(table)
     log_or = mp.log(oddsratio)
     a, b, c, d = _unpack_table_to_mpf(table)
-    se = mp.sqrt(sum(1/a + 1/b + 1/c + 1/d))
+    se = mp.sqrt(1/a + 1/b + 1/c + 1/d)
     if alternative == 'less':
         z = normal.invcdf(confidence_level)
         loglow = mp.ninf
-- 
2.43.0


From 38fc08a2614604028ea00287892168fb5bd2025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 002/122] fix: betaprime.invsf(0) must be inf

---
 mpsci/distributions/betaprime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index 4656274..cd3d944 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -174,7 +174,7 @@ def invsf(p, a, b, scale):
     a, b, scale = _validate_params(a, b, scale)
     p = _validate_p(p)
     if p == 0:
-        return mp.one
+        return mp.inf
     if p == 1:
         return mp.zero
 
-- 
2.43.0


From a3da7222c34e4782d451ed040d406b4c1650f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 003/122] fix: genexpon.logpdf ignored the scale

---
 mpsci/distributions/genexpon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 5c3a8e0..6dba087 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -55,7 +55,8 @@ def logpdf(x, a, b, c, loc=0, scale=1):
     z = (x - loc) / scale
     s = a + b
     r = b / c
-    return mp.log(a + b*(-mp.expm1(-c*z))) + (-s*z + r*(-mp.expm1(-c*z)))
+    return (mp.log(a + b*(-mp.expm1(-c*z))) + (-s*z + r*(-mp.expm1(-c*z)))
+            - mp.log(scale))
 
 
 @mp.extradps(5)
-- 
2.43.0


From 57be1b454762f5030fb43608b3968aa16a05d9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 004/122] fix: studentt.invcdf returned the wrong sign when the
 bracket collapsed for p > 1/2

---
 mpsci/distributions/studentt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/studentt.py b/mpsci/distributions/studentt.py
index a1fe127..dc1babd 100644
--- a/mpsci/distributions/studentt.py
+++ b/mpsci/distributions/studentt.py
@@ -106,7 +106,7 @@ def invcdf(p, df):
 
     x0, x1 = _find_bracket(lambda x: cdf(x, df), p0, mp.ninf, mp.inf)
     if x0 == x1:
-        return x0
+        return -x0 if p > 0.5 else x0
 
     def _func(x):
         return cdf(x, df) - p0
-- 
2.43.0


From 4a33397cf7aaba7cf6182653c707c2d78009b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 005/122] fix: lognormal.sf raised AttributeError for x <= 0

---
 mpsci/distributions/lognormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/lognormal.py b/mpsci/distributions/lognormal.py
index a8aa39c..e59255e 100644
--- a/mpsci/distributions/lognormal.py
+++ b/mpsci/distributions/lognormal.py
@@ -73,7 +73,7 @@ def sf(x, mu=0, sigma=1):
     mu, sigma = _validate_params(mu, sigma)
     x = mp.mpf(x)
     if x <= 0:
-        return mp.mp.one
+        return mp.one
     lnx = mp.log(x)
     return mp.ncdf(-lnx, -mu, sigma)
 
-- 
2.43.0


From aac3494d74f3032ace22de295f20b457f6ee9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:57 +0000
Subject: [PATCH 006/122] fix: levy.support had a spurious leading parameter

---
 mpsci/distributions/levy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index 0622caa..f87c340 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -95,10 +95,9 @@ def invsf(p, mu=0, sigma=1):
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
-def support(p, mu=0, sigma=1):
+def support(mu=0, sigma=1):
     """
     Support of the Lévy distribution.
     """
-    p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
     return (mu, mp.inf)
-- 
2.43.0


From fb14a03ba23a2051480a0641aea923a9f30b03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 007/122] fix: chi.pdf and chi.logpdf returned nan at x = 0
 when k = 1

---
 mpsci/distributions/chi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi.py b/mpsci/distributions/chi.py
index b634a05..1ec4771 100644
--- a/mpsci/distributions/chi.py
+++ b/mpsci/distributions/chi.py
@@ -6,6 +6,7 @@ Chi distribution
 import re
 from mpmath import mp
 from ._common import _validate_moment_n
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'mode', 'mean', 'var',
@@ -58,7 +59,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = ((k - 1)*mp.log(x) - x**2/2 - ((k/2) - 1)*mp.log(2)
+    p = (xlogy(k - 1, x) - x**2/2 - ((k/2) - 1)*mp.log(2)
             - mp.loggamma(k/2))
     return p
 
-- 
2.43.0


From d83ec1a6c7b318c1fa6243e5bb42e96a3d4b07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 008/122] fix: chi2.pdf and chi2.logpdf at x = 0

---
 mpsci/distributions/chi2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index 3b922a9..b51a314 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -5,6 +5,7 @@ Chi-square distribution
 
 from mpmath import mp
 from ._common import _validate_moment_n, _generic_inv
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf',
@@ -28,6 +29,8 @@ def pdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0 and k < 2:
+        return mp.inf
     p = mp.exp(-x/2) * (x/2)**(k/2 - 1)/2 / mp.gamma(k/2)
     return p
 
@@ -41,7 +44,7 @@ def logpdf(x, k):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
-    p = -x/2 + (k/2 - 1)*mp.log(x/2) - mp.log(2) - mp.loggamma(k/2)
+    p = -x/2 + xlogy(k/2 - 1, x/2) - mp.log(2) - mp.loggamma(k/2)
     return p
 
 
-- 
2.43.0


From c1b8ea1bfdaf6ee6c8489f13718d52a24cbda1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 009/122] fix: gamma.pdf and gamma.logpdf at x = 0

---
 mpsci/distributions/gamma.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index f487988..22dc89c 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -13,7 +13,7 @@ Another common parameterization is shape `k` and the "rate" `lambda`.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       _find_bracket)
-from ..fun import digammainv
+from ..fun import digammainv, xlogy
 from .. import stats
 from . import normal
 
@@ -48,6 +48,8 @@ def pdf(x, k, scale):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0 and k < 1:
+        return mp.inf
     return mp.rgamma(k) / scale**k * x**(k-1) * mp.exp(-x/scale)
 
 
@@ -61,7 +63,7 @@ def logpdf(x, k, scale):
     if x < 0:
         return mp.ninf
     return (-mp.loggamma(k) - k*mp.log(scale) +
-            (k - 1)*mp.log(x) - x/scale)
+            xlogy(k - 1, x) - x/scale)
 
 
 @mp.extradps(5)
-- 
2.43.0


From bee21d7965744644878256dd938570c923e9035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 010/122] fix: exponweib.pdf and exponweib.logpdf at x = 0

---
 mpsci/distributions/exponweib.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 852ff07..1dd989b 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -31,6 +31,11 @@ def pdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.zero
+    if x == 0:
+        # Near x = 0, the PDF behaves like (a*c/scale) * (x/scale)**(a*c - 1).
+        if a*c == 1:
+            return 1/scale
+        return mp.inf if a*c < 1 else mp.zero
     z = x/scale
     p = (a * c / scale * z**(c-1) * (-mp.expm1(-z**c))**(a - 1) *
          mp.exp(-z**c))
@@ -48,6 +53,8 @@ def logpdf(x, a, c, scale=1):
     x = mp.mpf(x)
     if x < 0:
         return mp.ninf
+    if x == 0:
+        return mp.log(pdf(x, a, c, scale))
     z = x/scale
     logp = (mp.log(a)
             + mp.log(c)
-- 
2.43.0


From fb7a33ed85ea8c4fe2648d5dfbe47efe36891901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 011/122] fix: exponweib.sf lost all precision in the right
 tail

---
 mpsci/distributions/exponweib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 1dd989b..d7c614c 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -5,6 +5,7 @@ Exponentiated Weibull probability distribution
 
 from mpmath import mp
 from ._common import _validate_p
+from ..fun import pow1pm1
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
            'support', 'noncentral_moment', 'mean', 'var']
@@ -103,7 +104,10 @@ def sf(x, a, c, scale=1):
     if x < 0:
         return mp.one
     z = x/scale
-    return -mp.powm1(-mp.expm1(-z**c), a)
+    zc = z**c
+    if zc > 1:
+        return -pow1pm1(-mp.exp(-zc), a)
+    return -mp.powm1(-mp.expm1(-zc), a)
 
 
 @mp.extradps(5)
-- 
2.43.0


From f4b1119ebf7742ab8a3907594a0c27cd1ba4165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 012/122] fix: kumaraswamy.logpdf returned nan at the ends of
 the support

---
 mpsci/distributions/kumaraswamy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index c0ba9cc..66abb53 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -21,7 +21,8 @@ https://en.wikipedia.org/wiki/Kumaraswamy_distribution.
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       Initial)
-from ..fun._powm1 import inv_powm1
+from ..fun._powm1 import inv_powm1, pow1pm1
+from ..fun import xlogy
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -64,8 +65,8 @@ def logpdf(x, a, b):
     x = mp.mpf(x)
     if x < 0 or x > 1:
         return mp.ninf
-    return (mp.log(a) + mp.log(b) + (a - 1)*mp.log(x)
-            + (b - 1)*mp.log1p(-x**a))
+    return (mp.log(a) + mp.log(b) + xlogy(a - 1, x)
+            + xlogy(b - 1, -mp.powm1(x, a)))
 
 
 @mp.extradps(5)
-- 
2.43.0


From 052c1e91e164b475333d77c8b9da25f3ed3ce90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 013/122] fix: kumaraswamy.cdf lost all precision near x = 0

---
 mpsci/distributions/kumaraswamy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 66abb53..9445540 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -80,7 +80,10 @@ def cdf(x, a, b):
         return mp.zero
     if x > 1:
         return mp.one
-    return -mp.powm1(-mp.powm1(x, a), b)
+    t = -mp.powm1(x, a)
+    if t > 0.5:
+        return -pow1pm1(-x**a, b)
+    return -mp.powm1(t, b)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 19003bf804440a0ef267e4563559dc3548b8a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 014/122] fix: gamma_gompertz.cdf lost all precision near x = 0

---
 mpsci/distributions/gamma_gompertz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/gamma_gompertz.py b/mpsci/distributions/gamma_gompertz.py
index 4ed4295..b7a4ae3 100644
--- a/mpsci/distributions/gamma_gompertz.py
+++ b/mpsci/distributions/gamma_gompertz.py
@@ -76,7 +76,7 @@ def cdf(x, c, beta, scale):
     z = x/scale
     if beta == 1:
         return -mp.expm1(-c*z)
-    return -mp.powm1(beta / (beta + mp.expm1(z)), c)
+    return -pow1pm1(mp.expm1(z)/beta, -c)
 
 
 @mp.extradps(5)
-- 
2.43.0


From f301e6655a192fb03742a90d45cdd371219313a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 015/122] fix: genpareto: loss of precision for xi near 0, and
 errors at the end of the support

---
 mpsci/distributions/genpareto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/genpareto.py b/mpsci/distributions/genpareto.py
index 9ebe2b7..b74b3c1 100644
--- a/mpsci/distributions/genpareto.py
+++ b/mpsci/distributions/genpareto.py
@@ -6,7 +6,7 @@ Generalized Pareto distribution
 
 from mpmath import mp
 from ._common import _validate_p, _validate_x_bounds
-from ..fun import pow1pm1
+from ..fun import pow1pm1, xlog1py
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -31,7 +31,7 @@ def pdf(x, xi, mu=0, sigma=1):
         p = 0
     else:
         if xi != 0:
-            t = mp.power(1 + z*xi, -(1/xi + 1))
+            t = mp.exp(xlog1py(-(1/xi + 1), xi*z))
         else:
             t = mp.exp(-z)
         p = t / sigma
@@ -50,7 +50,7 @@ def logpdf(x, xi, mu=0, sigma=1):
         p = -mp.inf
     else:
         if xi != 0:
-            logt = -(1/xi + 1)*mp.log(1 + xi*z)
+            logt = xlog1py(-(1/xi + 1), xi*z)
         else:
             logt = -z
         p = logt - mp.log(sigma)
@@ -71,7 +71,7 @@ def cdf(x, xi, mu=0, sigma=1):
         t = mp.one
     else:
         if xi != 0:
-            t = -mp.powm1(1 + xi*z, -1/xi)
+            t = -pow1pm1(xi*z, -1/xi)
         else:
             t = -mp.expm1(-z)
     return t
@@ -115,7 +115,7 @@ def sf(x, xi, mu=0, sigma=1):
         t = mp.zero
     else:
         if xi != 0:
-            t = mp.power(1 + xi*z, -1/xi)
+            t = mp.exp(xlog1py(-1/xi, xi*z))
         else:
             t = mp.exp(-z)
     return t
-- 
2.43.0


From f792f92f2fab9a541e61bd94eff549ea83564b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 016/122] fix: genextreme: loss of precision for xi near 0, and
 pdf at the upper bound

---
 mpsci/distributions/genextreme.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index e908b62..3d8d401 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -43,12 +43,14 @@ def pdf(x, xi, mu=0, sigma=1):
             return mp.zero
         if xi < 0 and x > bound:
             return mp.zero
+        if xi <= -1 and x == bound:
+            return 1/sigma if xi == -1 else mp.inf
 
     # Formula from wikipedia, which has a sign convention for xi that
     # is the opposite of scipy's shape parameter.
     z = (x - mu)/sigma
     if xi != 0:
-        t = mp.power(1 + z*xi, -1/xi)
+        t = mp.exp(-mp.log1p(z*xi)/xi)
     else:
         t = mp.exp(-z)
     p = mp.power(t, xi + 1) * mp.exp(-t) / sigma
@@ -67,14 +69,14 @@ def logpdf(x, xi, mu=0, sigma=1):
         if xi > 0 and x <= bound:
             return mp.ninf
         if xi < 0 and x >= bound:
-            return mp.ninf
+            return mp.log(pdf(x, xi, mu, sigma))
 
     # Formula from wikipedia, which has a sign convention for xi that
     # is the opposite of scipy's shape parameter.
     z = (x - mu)/sigma
     if xi != 0:
-        t = mp.power(1 + z*xi, -1/xi)
         logt = -mp.log1p(z*xi)/xi
+        t = mp.exp(logt)
     else:
         t = mp.exp(-z)
         logt = -z
@@ -105,7 +107,7 @@ def logcdf(x, xi, mu=0, sigma=1):
             return mp.zero
 
     if xi != 0:
-        t = mp.power(1 + ((x - mu)/sigma)*xi, -1/xi)
+        t = mp.exp(-mp.log1p(((x - mu)/sigma)*xi)/xi)
     else:
         t = mp.exp(-(x - mu)/sigma)
     return -t
-- 
2.43.0


From 79be00fadc59711cbba10a45e60d79989d96295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 017/122] fix: f.cdf and f.sf: loss of precision for large x

---
 mpsci/distributions/f.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index 74d2966..e6a84a8 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -75,6 +75,8 @@ def cdf(x, dfn, dfd):
     if x <= 0:
         return mp.zero
     dfnx = dfn * x
+    if dfnx > dfd:
+        return 1 - sf(x, dfn, dfd)
     return mp.betainc(dfn/2, dfd/2, x2=dfnx/(dfnx + dfd),
                       regularized=True)
 
@@ -105,7 +107,9 @@ def sf(x, dfn, dfd):
     if x <= 0:
         return mp.one
     dfnx = dfn * x
-    return mp.betainc(dfn/2, dfd/2, x1=dfnx/(dfnx + dfd),
+    if dfnx <= dfd:
+        return 1 - cdf(x, dfn, dfd)
+    return mp.betainc(dfd/2, dfn/2, x2=dfd/(dfnx + dfd),
                       regularized=True)
 
 
-- 
2.43.0


From 32f1be881257e0b46001c6b796b0c106d72d4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 018/122] fix: burr12.cdf and burr12.logcdf lost all precision
 near x = 0

---
 mpsci/distributions/burr12.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 91c0c48..8ecd673 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -61,8 +61,7 @@ def cdf(x, c, d, scale):
     x = mp.mpf(x)
     if x <= 0:
         return mp.zero
-    # TO DO: See if the use of logsf (as in scipy) is worthwhile.
-    return 1 - sf(x, c, d, scale)
+    return -mp.expm1(logsf(x, c, d, scale))
 
 
 @mp.extradps(5)
@@ -84,7 +83,10 @@ def logcdf(x, c, d, scale):
     x = mp.mpf(x)
     if x <= 0:
         return mp.ninf
-    return mp.log1p(-sf(x, c, d, scale))
+    logs = logsf(x, c, d, scale)
+    if logs > -mp.ln2:
+        return mp.log(-mp.expm1(logs))
+    return mp.log1p(-mp.exp(logs))
 
 
 @mp.extradps(5)
-- 
2.43.0


From 41a8a865dde10b9e8c4458bb551b330138d92979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 019/122] fix: logistic.cdf and logistic.sf lost all precision
 in the tails

---
 mpsci/distributions/logistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/logistic.py b/mpsci/distributions/logistic.py
index da23bd2..f3129ee 100644
--- a/mpsci/distributions/logistic.py
+++ b/mpsci/distributions/logistic.py
@@ -46,7 +46,7 @@ def cdf(x, loc=0, scale=1):
     loc, scale = _validate_loc_scale(loc, scale)
     x = mp.mpf(x)
     z = (x - loc) / scale
-    return (1 + mp.tanh(z/2)) / 2
+    return 1 / (1 + mp.exp(-z))
 
 
 @mp.extradps(5)
@@ -57,7 +57,7 @@ def sf(x, loc=0, scale=1):
     loc, scale = _validate_loc_scale(loc, scale)
     x = mp.mpf(x)
     z = (x - loc) / scale
-    return (1 - mp.tanh(z/2)) / 2
+    return 1 / (1 + mp.exp(z))
 
 
 @mp.extradps(5)
-- 
2.43.0


From d1797fa95b1255ce602efb155bf17a956e29b7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 020/122] fix: cauchy.invcdf and cauchy.invsf at p = 0 and p =
 1

---
 mpsci/distributions/cauchy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/cauchy.py b/mpsci/distributions/cauchy.py
index f19e97d..e86c80b 100644
--- a/mpsci/distributions/cauchy.py
+++ b/mpsci/distributions/cauchy.py
@@ -52,6 +52,10 @@ def invcdf(p, loc=0, scale=1):
     """Quantile function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.ninf
+    if p == 1:
+        return mp.inf
     return loc - scale*mp.cot(mp.pi*p)
 
 
@@ -69,6 +73,10 @@ def invsf(p, loc=0, scale=1):
     """Inverse of the survival function of the Cauchy distribution."""
     p = _validate_p(p)
     loc, scale = _validate_loc_scale(loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.ninf
     return loc + scale*mp.cot(mp.pi*p)
 
 
-- 
2.43.0


From c12eaf4f715d324e9f490310b18a7c0dc841a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 021/122] fix: benini.invcdf(1) and benini.invsf(0) returned
 nan

---
 mpsci/distributions/benini.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benini.py b/mpsci/distributions/benini.py
index ddb1f10..61401ff 100644
--- a/mpsci/distributions/benini.py
+++ b/mpsci/distributions/benini.py
@@ -156,6 +156,8 @@ def invcdf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log1p(-p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
@@ -198,6 +200,8 @@ def invsf(p, alpha, beta, scale):
     """
     alpha, beta, scale = _validate_params(alpha, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = -4*beta/alpha**2 * mp.log(p)
     t = -r/(1 + mp.sqrt(1 + r))
     return scale*mp.exp(-alpha/(2*beta)*t)
-- 
2.43.0


From 86561e0c0054859bb7ea25fbbb25a311beddbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 022/122] fix: benktander2.invcdf(1) and benktander2.invsf(0)
 raised ZeroDivisionError

---
 mpsci/distributions/benktander2.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index 75da718..e90827c 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -91,6 +91,8 @@ def invcdf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 1:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log1p(-p)/a
     else:
@@ -109,6 +111,8 @@ def invsf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_ab(a, b)
+    if p == 0:
+        return mp.inf
     if b == 1:
         return mp.one - mp.log(p)/a
     else:
-- 
2.43.0


From 7089ab0dbde1182ac179e2fcfed800b8ee6c1010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:25 +0000
Subject: [PATCH 023/122] fix: burr12.invcdf(1) and burr12.invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/burr12.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 8ecd673..3aa1401 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -71,6 +71,8 @@ def invcdf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return scale * mp.powm1(1 - p, -1/d)**(1/c)
 
 
@@ -108,6 +110,8 @@ def invsf(p, c, d, scale):
     """
     c, d, scale = _validate_params(c, d, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return scale * mp.powm1(p, -1/d)**(1/c)
 
 
-- 
2.43.0


From 4fd9e20ad4d76e0fa588d832dff811db297e0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 024/122] fix: gamma_gompertz.invsf(0) raised ZeroDivisionError

---
 mpsci/distributions/gamma_gompertz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/gamma_gompertz.py b/mpsci/distributions/gamma_gompertz.py
index b7a4ae3..498813a 100644
--- a/mpsci/distributions/gamma_gompertz.py
+++ b/mpsci/distributions/gamma_gompertz.py
@@ -113,8 +113,9 @@ def invsf(p, c, beta, scale):
     """
     c, beta, scale = _validate_params(c, beta, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     r = mp.powm1(p, -1/c)
-    scale * mp.log1p(beta * r)
     return scale * mp.log1p(beta * r)
 
 
-- 
2.43.0


From 173c79f636860fb957e26ef78d5fecee5021d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 025/122] fix: genextreme.invcdf and genextreme.invsf at p = 0
 and p = 1

---
 mpsci/distributions/genextreme.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index 3d8d401..ec394e8 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -120,6 +120,10 @@ def invcdf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if p == 0:
+        return support(xi, mu, sigma)[0]
+    if p == 1:
+        return support(xi, mu, sigma)[1]
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log(p), -xi)
     else:
@@ -156,6 +160,10 @@ def invsf(p, xi, mu=0, sigma=1):
     """
     p = _validate_p(p)
     xi, mu, sigma = _validate_params(xi, mu, sigma)
+    if p == 0:
+        return support(xi, mu, sigma)[1]
+    if p == 1:
+        return support(xi, mu, sigma)[0]
     if xi != 0:
         x = mu + (sigma/xi)*mp.powm1(-mp.log1p(-p), -xi)
     else:
-- 
2.43.0


From 09750b37827034ab8d018209a4fa538fd39f24f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 026/122] fix: levy.invcdf(1) and levy.invsf(0) raised
 ZeroDivisionError

---
 mpsci/distributions/levy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index f87c340..d137873 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -69,6 +69,8 @@ def invcdf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
+    if p == 1:
+        return mp.inf
     return mu + sigma / (2*_erfcinv(p)**2)
 
 
@@ -92,6 +94,8 @@ def invsf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
+    if p == 0:
+        return mp.inf
     return mu + sigma / (2*mp.erfinv(p)**2)
 
 
-- 
2.43.0


From 2511a758a17eb15e3ac7712e4801838fead76a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 027/122] fix: pareto.invcdf(1) raised ValueError and
 pareto.invsf(0) raised ZeroDivisionError

---
 mpsci/distributions/pareto.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index 16e9812..eed9657 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -82,6 +82,8 @@ def invcdf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*inv_powm1(-p, -b)
 
 
@@ -108,6 +110,8 @@ def invsf(p, b, loc=0, scale=1):
     """
     b, loc, scale = _validate_params(b, loc, scale)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     return loc + scale*mp.power(p, -1/b)
 
 
-- 
2.43.0


From d82410173a88ba0c2dab642f7979195f3ae01951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 028/122] fix: genexpon.invcdf(0) and genexpon.invsf(1) could
 be less than loc

---
 mpsci/distributions/genexpon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 6dba087..6966499 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -92,6 +92,8 @@ def invcdf(p, a, b, c, loc=0, scale=1):
     """
     p = _validate_p(p)
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
+    if p == 0:
+        return loc
     r = b/(a + b)
     s = r/c - mp.log1p(-p)/(a + b)
     x = s + mp.lambertw(-r*mp.exp(-s*c))/c
@@ -105,6 +107,8 @@ def invsf(p, a, b, c, loc=0, scale=1):
     """
     p = _validate_p(p)
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
+    if p == 1:
+        return loc
     r = b/(a + b)
     s = r/c - mp.log(p)/(a + b)
     x = s + mp.lambertw(-r*mp.exp(-s*c))/c
-- 
2.43.0


From 4cb1c944cb2250f599f1ce4d79a47df7081d874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 029/122] fix: maxwell.invcdf and maxwell.invsf ignored loc
 when searching for the root

---
 mpsci/distributions/maxwell.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/maxwell.py b/mpsci/distributions/maxwell.py
index edfe226..612f0a2 100644
--- a/mpsci/distributions/maxwell.py
+++ b/mpsci/distributions/maxwell.py
@@ -82,10 +82,10 @@ def invcdf(p, loc=0, scale=1):
     p = _validate_p(p)
     loc, scale = _validate_params(loc, scale)
     if p == 0:
-        return mp.zero
+        return loc
     if p == 1:
         return mp.inf
-    x0, x1 = _find_bracket(lambda x: cdf(x, loc, scale), p, 0, mp.inf)
+    x0, x1 = _find_bracket(lambda x: cdf(x, loc, scale), p, loc, mp.inf)
     if x0 == x1:
         return x0
     try:
@@ -124,15 +124,15 @@ def invsf(p, loc=0, scale=1):
     if p == 0:
         return mp.inf
     if p == 1:
-        return mp.zero
-    x0, x1 = _find_bracket(lambda x: sf(x, loc, scale), p, 0, mp.inf)
+        return loc
+    x0, x1 = _find_bracket(lambda x: sf(x, loc, scale), p, loc, mp.inf)
     if x0 == x1:
         return x0
     try:
         x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0, x1),
                         solver='secant')
     except Exception:
-        x = mp.findroot(lambda x: cdf(x, loc, scale) - p, x0=(x0 + x1)/2,
+        x = mp.findroot(lambda x: sf(x, loc, scale) - p, x0=(x0 + x1)/2,
                         solver='newton')
     return x
 
-- 
2.43.0


From 8e055b02e9b97af4cfb7481c92444027919f944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 030/122] fix: nakagami.invcdf and nakagami.invsf ignored loc
 when searching for the root

---
 mpsci/distributions/nakagami.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 296aec2..7ffe128 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -87,8 +87,13 @@ def invcdf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if p == 0:
+        return loc
+    if p == 1:
+        return mp.inf
     with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: cdf(x, nu, loc, scale), p, 0, mp.inf)
+        x0, x1 = _find_bracket(lambda x: cdf(x, nu, loc, scale), p, loc,
+                               mp.inf)
         root = mp.findroot(lambda t: cdf(t, nu, loc, scale) - p, x0=(x0, x1))
     return root
 
@@ -116,8 +121,13 @@ def invsf(p, nu, loc=0, scale=1):
     """
     p = _validate_p(p)
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return loc
     with mp.extradps(mp.dps):
-        x0, x1 = _find_bracket(lambda x: sf(x, nu, loc, scale), p, 0, mp.inf)
+        x0, x1 = _find_bracket(lambda x: sf(x, nu, loc, scale), p, loc,
+                               mp.inf)
         root = mp.findroot(lambda t: sf(t, nu, loc, scale) - p, x0=(x0, x1))
     return root
 
-- 
2.43.0


From 05b2ce88770fe0cae4fba242d2a44da972ce854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 031/122] fix: chi2.invcdf and chi2.invsf did not terminate for
 p = 0 or p = 1

---
 mpsci/distributions/chi2.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index b51a314..029da2b 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -4,7 +4,7 @@ Chi-square distribution
 """
 
 from mpmath import mp
-from ._common import _validate_moment_n, _generic_inv
+from ._common import _validate_moment_n, _validate_p, _generic_inv
 from ..fun import xlogy
 
 
@@ -74,6 +74,12 @@ def invcdf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
+    p = _validate_p(p)
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.inf
     return _generic_inv(lambda x: cdf(x, k), p,
                         direction=1, solver=solver, **kwargs)
 
@@ -119,6 +125,12 @@ def invsf(p, k, solver='bisect', **kwargs):
 
     Experimental!
     """
+    k = _validate_k(k)
+    p = _validate_p(p)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.zero
     return _generic_inv(lambda x: sf(x, k), p,
                         direction=-1, solver=solver, **kwargs)
 
-- 
2.43.0


From 2f7b20d709453c5027c8cef42067133b81a9d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 032/122] fix: chi2 inverse functions failed when the root was
 close to 0

---
 mpsci/distributions/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index edf9438..9e9456d 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -257,6 +257,7 @@ def _find_bracket_by_expansion_0_inf(func, p, direction):
     # where not_low_enough(x) will be false.
     x_low = mp.one
     while x_low > 0 and not_low_enough(x_low):
+        x_high = x_low
         x_low *= 0.5
     return (x_low, x_high)
 
-- 
2.43.0


From f88674c51459258da10016c2cb533a22bc24a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 033/122] fix: kumaraswamy.invcdf failed for small p

---
 mpsci/distributions/kumaraswamy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 9445540..015fe80 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -111,7 +111,7 @@ def invcdf(p, a, b):
         return mp.zero
     if p == 1:
         return mp.one
-    return inv_powm1(-inv_powm1(-p, b), a)
+    return mp.power(-pow1pm1(-p, 1/b), 1/a)
 
 
 @mp.extradps(5)
-- 
2.43.0


From daf2f1b14426bd29019e33a0b33a98927ffd0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 034/122] fix: cosine.invcdf(1) did not return an mpf

---
 mpsci/distributions/cosine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/cosine.py b/mpsci/distributions/cosine.py
index 7bf50c9..a5ec045 100644
--- a/mpsci/distributions/cosine.py
+++ b/mpsci/distributions/cosine.py
@@ -148,7 +148,7 @@ def invcdf(p):
     if p == 0:
         return -mp.pi
     if p == 1:
-        return mp.pi
+        return +mp.pi
 
     if p < 0.094:
         x = _poly_approx(mp.cbrt(12*mp.pi*p)) - mp.pi
-- 
2.43.0


From 333873c7ef7d2caac68c6bafa7ad231be6ada2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 035/122] fix: loggamma.invsf failed for small p

---
 mpsci/distributions/loggamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 1d9c665..687dab1 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -125,7 +125,7 @@ def invsf(p, k, theta):
         return mp.ninf
     k, theta = _validate_k_theta(k, theta)
     x0, x1 = _find_bracket(lambda t: sf(t, k, theta), p, -mp.inf, mp.inf)
-    root = mp.findroot(lambda t: sf(t, k, theta) - p, x0)
+    root = mp.findroot(lambda t: sf(t, k, theta) - p, x0=(x0, x1))
     return root
 
 
-- 
2.43.0


From c537982cc25c26be2f6a034f4d4fe65db0d94be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 036/122] fix: invgauss.invcdf and invgauss.invsf could loop
 forever

---
 mpsci/distributions/invgauss.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/invgauss.py b/mpsci/distributions/invgauss.py
index 6413314..acd1a08 100644
--- a/mpsci/distributions/invgauss.py
+++ b/mpsci/distributions/invgauss.py
@@ -129,10 +129,12 @@ def invcdf(p, m, loc=0, scale=1):
     if p == 1:
         return mp.inf
     x0 = mode(m, loc, scale)
-    # FIXME: This loop assumes convergence!
+    sign = mp.sign(p - cdf(x0, m, loc, scale))
     while True:
         x1 = x0 + (p - cdf(x0, m, loc, scale))/pdf(x0, m, loc, scale)
-        if mp.almosteq(x1, x0):
+        # When started at the mode, the Newton iterates are monotonic, so
+        # a step in the wrong direction is just numerical noise.
+        if sign*(x1 - x0) <= 0 or mp.almosteq(x1, x0):
             break
         x0 = x1
     return x1
@@ -180,10 +182,12 @@ def invsf(p, m, loc=0, scale=1):
     if p == 1:
         return loc
     x0 = mode(m, loc, scale)
-    # FIXME: This loop assumes convergence!
+    sign = -mp.sign(p - sf(x0, m, loc, scale))
     while True:
         x1 = x0 - (p - sf(x0, m, loc, scale))/pdf(x0, m, loc, scale)
-        if mp.almosteq(x1, x0):
+        # When started at the mode, the Newton iterates are monotonic, so
+        # a step in the wrong direction is just numerical noise.
+        if sign*(x1 - x0) <= 0 or mp.almosteq(x1, x0):
             break
         x0 = x1
     return x1
-- 
2.43.0


From a04bb32c62a32bfcce1455c03ca977a150c19141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 037/122] fix: f.invcdf and f.invsf: failure at p = 0 or 1, and
 loss of precision

---
 mpsci/distributions/f.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/f.py b/mpsci/distributions/f.py
index e6a84a8..6100f63 100644
--- a/mpsci/distributions/f.py
+++ b/mpsci/distributions/f.py
@@ -90,8 +90,13 @@ def invcdf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     g = betaincinv(dfn/2, dfd/2, p, method='bisect')
-    # XXX Possible loss of precision in (1 - g):
+    if g > 0.5:
+        # Avoid the loss of precision in (1 - g).
+        g = betaincinv(dfd/2, dfn/2, 1 - p, method='bisect')
+        return (dfd/dfn)*(1 - g)/g
     return (dfd/dfn)*g/(1 - g)
 
 
@@ -122,8 +127,13 @@ def invsf(p, dfn, dfd):
     """
     dfn, dfd = _validate_params(dfn, dfd)
     p = _validate_p(p)
+    if p == 0:
+        return mp.inf
     g = betaincinv(dfd/2, dfn/2, p, method='bisect')
-    # XXX Possible loss of precison in (1 - g):
+    if g > 0.5:
+        # Avoid the loss of precision in (1 - g).
+        g = betaincinv(dfn/2, dfd/2, 1 - p, method='bisect')
+        return (dfd/dfn)*g/(1 - g)
     return (dfd/dfn)*(1 - g)/g
 
 
-- 
2.43.0


From faf293cc4efc5954076f1514e98dfd3af65f2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 038/122] fix: truncnorm.invcdf and truncnorm.invsf were wrong
 in the tails of the normal distribution

---
 mpsci/distributions/truncnorm.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/truncnorm.py b/mpsci/distributions/truncnorm.py
index e803ba5..f28c519 100644
--- a/mpsci/distributions/truncnorm.py
+++ b/mpsci/distributions/truncnorm.py
@@ -108,8 +108,16 @@ def invcdf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_params(a, b)
-    p2 = p * _norm_delta_cdf(a, b) + mp.ncdf(a)
-    return normal.invcdf(p2)
+    if p == 0:
+        return a
+    if p == 1:
+        return b
+    if a > 0:
+        # Work with the survival function to avoid loss of precision.
+        x = normal.invsf(mp.ncdf(-a) - p*_norm_delta_cdf(a, b))
+    else:
+        x = normal.invcdf(p*_norm_delta_cdf(a, b) + mp.ncdf(a))
+    return min(max(x, a), b)
 
 
 @mp.extradps(5)
@@ -119,8 +127,16 @@ def invsf(p, a, b):
     """
     p = _validate_p(p)
     a, b = _validate_params(a, b)
-    p2 = -p * _norm_delta_cdf(a, b) + mp.ncdf(b)
-    return normal.invcdf(p2)
+    if p == 0:
+        return b
+    if p == 1:
+        return a
+    if a > 0:
+        # Work with the survival function to avoid loss of precision.
+        x = normal.invsf(mp.ncdf(-b) + p*_norm_delta_cdf(a, b))
+    else:
+        x = normal.invcdf(-p*_norm_delta_cdf(a, b) + mp.ncdf(b))
+    return min(max(x, a), b)
 
 
 @mp.extradps(5)
-- 
2.43.0


From c936dce179885bf4dc0d1f0742f268a506baf2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 039/122] fix: _find_bracket could return a bracket whose end
 is a boundary of the domain

---
 mpsci/distributions/_common.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index 9e9456d..efbb794 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -193,6 +193,20 @@ def _find_bracket(func, p, a, b, nbisect=None):
         else:
             x1 = mid
 
+    # The function might not be differentiable at a, so if the lower end of
+    # the bracket is still a, continue the bisection.
+    while x0 == a:
+        mid = (x0 + x1)/2
+        if mid == x0 or mid == x1:
+            break
+        pmid = func(mid)
+        if pmid == p:
+            return (mid, mid)
+        if mp.sign(p - pmid) == sign:
+            x0 = mid
+        else:
+            x1 = mid
+
     return x0, x1
 
 
-- 
2.43.0


From 528d82f5cec8e9d895911f95cc6131fe7f4597e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:59 +0000
Subject: [PATCH 040/122] fix: ncf.pdf at x = 0

---
 mpsci/distributions/ncf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index 4c512da..d25e6c3 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -40,6 +40,10 @@ def pdf(x, dfn, dfd, nc):
     dfn = mp.mpf(dfn)
     dfd = mp.mpf(dfd)
     nc = mp.mpf(nc)
+    if x == 0:
+        if dfn == 2:
+            return mp.exp(-nc/2)
+        return mp.inf if dfn < 2 else mp.zero
     p = mp.nsum(_pdfk, [0, mp.inf])
     return p
 
-- 
2.43.0


From 1d051e09bf07ffd96ade388fc07b59556713b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 041/122] fix: beta.interval_prob was wrong when the interval
 extends beyond [0, 1]

---
 mpsci/distributions/beta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index 1344daa..a7eec67 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -101,6 +101,8 @@ def interval_prob(x1, x2, a, b):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
+    x1 = min(max(x1, mp.zero), mp.one)
+    x2 = min(max(x2, mp.zero), mp.one)
     return mp.betainc(a, b, x1, x2, regularized=True)
 
 
-- 
2.43.0


From 2d7fabd3736feee009d0cd6e05ca932d38c039f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 042/122] fix: gamma.interval_prob was wrong when the interval
 includes negative values

---
 mpsci/distributions/gamma.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 22dc89c..82aec3d 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -156,6 +156,8 @@ def interval_prob(x1, x2, k, scale):
     x2 = mp.mpf(x2)
     if x1 > x2:
         raise ValueError('x1 must not be greater than x2')
+    x1 = max(x1, mp.zero)
+    x2 = max(x2, mp.zero)
     return mp.gammainc(k, x1/scale, x2/scale, regularized=True)
 
 
-- 
2.43.0


From 8c35c7b3d70c273c8b46d5b513beb04a0d88ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 043/122] fix: hypsecant.invcdf and hypsecant.invsf at p = 1

---
 mpsci/distributions/hypsecant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/hypsecant.py b/mpsci/distributions/hypsecant.py
index f6ac617..84a0f92 100644
--- a/mpsci/distributions/hypsecant.py
+++ b/mpsci/distributions/hypsecant.py
@@ -76,6 +76,8 @@ def invcdf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.inf
     return loc + scale*mp.log(mp.tan(mp.pi*p/2))
 
 
@@ -86,6 +88,8 @@ def invsf(p, loc=0, scale=1):
     """
     loc, scale = _validate_loc_scale(loc, scale)
     p = _validate_p(p)
+    if p == 1:
+        return mp.ninf
     return loc - scale*mp.log(mp.tan(mp.pi*p/2))
 
 
-- 
2.43.0


From b9e6610445090faa3fdde40390a50251fb5f38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 044/122] fix: loss of precision in exponweib.invsf

---
 mpsci/distributions/exponweib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index d7c614c..5be5483 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -117,7 +117,11 @@ def invsf(p, a, c, scale=1):
     """
     a, c, scale = _validate_params(a, c, scale)
     p = _validate_p(p)
-    return scale*(-mp.log(-mp.expm1(mp.log1p(-p)/a)))**(1/c)
+    q = mp.log1p(-p)/a
+    if q < -1:
+        # exp(q) is small; avoid cancellation in 1 - exp(q).
+        return scale*(-mp.log1p(-mp.exp(q)))**(1/c)
+    return scale*(-mp.log(-mp.expm1(q)))**(1/c)
 
 
 def support(a, c, scale=1):
-- 
2.43.0


From 940586da5ad8b069b4822a6512a8a611e6f8ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 045/122] fix: normal.invcdf and normal.invsf returned infinity
 for very small p

---
 mpsci/distributions/normal.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/normal.py b/mpsci/distributions/normal.py
index 99794f3..dc7b826 100644
--- a/mpsci/distributions/normal.py
+++ b/mpsci/distributions/normal.py
@@ -54,6 +54,12 @@ def sf(x, mu=0, sigma=1):
     return mp.ncdf(-x + 2*mu, mu, sigma)
 
 
+def _extra_bits(p):
+    # Number of extra bits needed so that 2*p - 1 does not lose the
+    # information in p when p is very small.
+    return max(0, -mp.mag(p)) if p > 0 else 0
+
+
 def invcdf(p, mu=0, sigma=1):
     """
     Normal distribution inverse CDF.
@@ -64,7 +70,8 @@ def invcdf(p, mu=0, sigma=1):
     with mp.extradps(mp.dps):
         p = _validate_p(p)
         mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
-        a = mp.erfinv(2*p - 1)
+        with mp.extraprec(_extra_bits(p)):
+            a = mp.erfinv(2*p - 1)
         x = mp.sqrt(2)*sigma*a + mu
         return x
 
@@ -76,7 +83,8 @@ def invsf(p, mu=0, sigma=1):
     with mp.extradps(mp.dps):
         p = _validate_p(p)
         mu, sigma = _validate_loc_scale(mu, sigma, scale_name='sigma')
-        a = mp.erfinv(1 - 2*p)
+        with mp.extraprec(_extra_bits(p)):
+            a = mp.erfinv(1 - 2*p)
         x = mp.sqrt(2)*sigma*a + mu
         return x
 
-- 
2.43.0


From a36658494fc86fe22b67cb8826b92e0614671d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 046/122] fix: loss of precision in truncnorm.median

---
 mpsci/distributions/truncnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/truncnorm.py b/mpsci/distributions/truncnorm.py
index f28c519..c8ea49d 100644
--- a/mpsci/distributions/truncnorm.py
+++ b/mpsci/distributions/truncnorm.py
@@ -163,7 +163,7 @@ def median(a, b):
     Median of the truncated standard normal distribution.
     """
     a, b = _validate_params(a, b)
-    return normal.invcdf((normal.cdf(a) + normal.cdf(b))/2)
+    return invcdf(mp.mpf(0.5), a, b)
 
 
 def mode(a, b):
-- 
2.43.0


From 1019f6c17e24574c04f02367642abc5b3a5b8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 047/122] fix: binomial functions outside the support and at p
 = 0 or 1

---
 mpsci/distributions/binomial.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index 44f22e2..3bad7d0 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -8,7 +8,7 @@ from mpmath import mp
 from ..stats import mean as _mean, var as _var
 from ._common import (_validate_p, _validate_x_bounds, _validate_counts,
                       isfixed)
-from ..fun import logbinomial
+from ..fun import logbinomial, xlogy, xlog1py
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf', 'mean', 'mode', 'var',
@@ -63,6 +63,8 @@ def pmf(k, n, p):
     Probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.zero
     return (mp.binomial(n, k) *
             mp.power(p, k) *
             mp.power(1 - p, n - k))
@@ -74,9 +76,11 @@ def logpmf(k, n, p):
     Natural log of the probability mass function of the binomial distribution.
     """
     n, p = _validate_np(n, p)
+    if k < 0 or k > n:
+        return mp.ninf
     return (logbinomial(n, k)
-            + k*mp.log(p)
-            + mp.fsum([n, -k])*mp.log1p(-p))
+            + xlogy(k, p)
+            + xlog1py(mp.fsum([n, -k]), -p))
 
 
 @mp.extradps(5)
@@ -92,16 +96,17 @@ def cdf(k, n, p, method='incbeta'):
     """
     if method not in ['sumpmf', 'incbeta']:
         raise ValueError('method must be "sumpmf" or "incbeta"')
+    n, p = _validate_np(n, p)
+    if k < 0:
+        return mp.zero
+    if k >= n:
+        return mp.one
     if method == 'incbeta':
-        n, p = _validate_np(n, p)
-        if k == n:
-            return mp.one
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
         return mp.betainc(n - k, k + 1, x1=0, x2=1 - p,
                           regularized=True)
     # method is "sumpmf"
-    n, p = _validate_np(n, p)
     c = mp.fsum([mp.exp(logpmf(t, n, p))
                  for t in range(k + 1)])
     return c
@@ -120,14 +125,17 @@ def sf(k, n, p, method='incbeta'):
     """
     if method not in ['sumpmf', 'incbeta']:
         raise ValueError('method must be "sumpmf" or "incbeta"')
+    n, p = _validate_np(n, p)
+    if k < 0:
+        return mp.one
+    if k >= n:
+        return mp.zero
     if method == 'incbeta':
-        n, p = _validate_np(n, p)
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
         return mp.betainc(n - k, k + 1, x1=1-p, x2=1,
                           regularized=True)
     # method is "sumpmf"
-    n, p = _validate_np(n, p)
     c = mp.fsum([mp.exp(logpmf(t, n, p))
                  for t in range(k + 1, n + 1)])
     return c
-- 
2.43.0


From c04f156c465873041ace488c94ae77fb3ce9aa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 048/122] fix: hypergeometric logpmf, cdf and sf outside the
 support

---
 mpsci/distributions/hypergeometric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 64db787..8692877 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -47,6 +47,8 @@ def logpmf(k, ntotal, ngood, nsample):
     """
     _validate(ntotal, ngood, nsample)
     nbad = ntotal - ngood
+    if k not in support(ntotal, ngood, nsample):
+        return mp.ninf
     # numerator terms
     terms = [mp.log(ntotal + 1),
              logbeta(ntotal - nsample + 1, nsample + 1)]
@@ -73,6 +75,11 @@ def sf(k, ntotal, ngood, nsample):
     Survival function of the hypergeometric distribution.
     """
     _validate(ntotal, ngood, nsample)
+    sup = support(ntotal, ngood, nsample)
+    if k < sup[0]:
+        return mp.one
+    if k >= sup[-1]:
+        return mp.zero
     h = mp.hyp3f2(1, k + 1 - ngood, k + 1 - nsample, k + 2,
                   ntotal + k + 2 - ngood - nsample, 1)
     num = (mp.binomial(nsample, k + 1) *
-- 
2.43.0


From 3bbc2cbdacdc5dd8c9e2fb3b70df19166a138885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 049/122] fix: hypergeometric.var with ntotal = 1

---
 mpsci/distributions/hypergeometric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 8692877..4ac6d8f 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -177,5 +177,7 @@ def var(ntotal, ngood, nsample):
     ngood = mp.mpf(ngood)
     nsample = mp.mpf(nsample)
     nbad = ntotal - ngood
+    if ntotal == 1:
+        return mp.zero
     return (nsample * (ngood/ntotal) * (nbad/ntotal)
             * ((ntotal - nsample)/(ntotal - 1)))
-- 
2.43.0


From 9a3420616c739cb18f257f65cc07ae715ead7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 050/122] fix: negative_binomial.logpmf and
 negative_binomial.pmf failed for r < 1

---
 mpsci/distributions/negative_binomial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index ccdfc68..abc0af2 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -11,7 +11,7 @@ a "success".
 
 import itertools
 from mpmath import mp
-from ..fun import logbinomial, xlogy, xlog1py
+from ..fun import logbeta, xlogy, xlog1py
 from ..stats import mean as _mean
 from ._common import Initial, _validate_counts, _validate_int
 
@@ -80,7 +80,10 @@ def logpmf(k, r, p):
     k = _validate_int(k)
     if k < 0:
         return mp.ninf
-    return logbinomial(k + r - 1, k) + xlog1py(r, -p) + xlogy(k, p)
+    # This is log(binomial(k + r - 1, k)), expressed so that it is valid
+    # when r < 1.
+    logbinom = -mp.log(k + r) - logbeta(k + 1, r)
+    return logbinom + xlog1py(r, -p) + xlogy(k, p)
 
 
 @mp.extradps(5)
-- 
2.43.0


From fe0380337381fd73b4d29984a2873af1e9c98f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 051/122] fix: loss of precision in negative_binomial.cdf

---
 mpsci/distributions/negative_binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index abc0af2..e8207d5 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -136,7 +136,7 @@ def cdf(k, r, p):
     k = _validate_int(k)
     if k < 0:
         return mp.zero
-    return mp.betainc(k + 1, r, p, 1, regularized=True)
+    return mp.betainc(r, k + 1, 0, 1 - p, regularized=True)
 
 
 @mp.extradps(5)
-- 
2.43.0


From f70502fb38ae683c6afdd83555dfbbf29eb5db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 052/122] fix: negative_binomial.mode with p = 0

---
 mpsci/distributions/negative_binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index e8207d5..37acacd 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -161,7 +161,7 @@ def mode(r, p):
     Mode of the negative binomial distribution.
     """
     r, p = _validate_params(r, p)
-    if r <= 1:
+    if r <= 1 or p == 0:
         return 0
     return int(mp.ceil((r - 1) * p / (1 - p))) - 1
 
-- 
2.43.0


From a8f0f3f00686bf0dc734428e2335971889d6caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 053/122] fix: negative_hypergeometric.logpmf with untilnbad =
 0

---
 mpsci/distributions/negative_hypergeometric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index 6e6d433..b27c227 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -52,6 +52,10 @@ def logpmf(k, ntotal, ngood, untilnbad):
     if k < 0 or k > ngood:
         return mp.ninf
 
+    if untilnbad == 0:
+        # In this case, the support is just the one point [0].
+        return mp.zero if k == 0 else mp.ninf
+
     t1 = logbinomial(k + untilnbad - 1, k)
     t2 = logbinomial(ntotal - untilnbad - k, ngood - k)
     t3 = logbinomial(ntotal, ngood)
-- 
2.43.0


From db55969a405f7926d6a19555d71a402a92b4a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 054/122] fix: negative_hypergeometric.mode with exactly one
 bad item

---
 mpsci/distributions/negative_hypergeometric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index b27c227..48ff3c9 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -112,6 +112,10 @@ def mode(ntotal, ngood, untilnbad):
     ngood = mp.mpf(ngood)
     untilnbad = mp.mpf(untilnbad)
 
+    if ntotal == ngood + 1:
+        # The PMF is constant.
+        return 0
+
     if ntotal > untilnbad * (ngood + 1):
         # The PMF is decreasing.
         return 0
-- 
2.43.0


From 1ed783a7bee7e9626782f63f6264fe4fb2a02cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:56 +0000
Subject: [PATCH 055/122] fix: loss of precision in binomial.sf

---
 mpsci/distributions/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index 3bad7d0..cd5063f 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -133,7 +133,7 @@ def sf(k, n, p, method='incbeta'):
     if method == 'incbeta':
         # XXX For large values of k and/or n, betainc fails. The failure
         # occurs in one of the hypergeometric functions.
-        return mp.betainc(n - k, k + 1, x1=1-p, x2=1,
+        return mp.betainc(k + 1, n - k, x1=0, x2=p,
                           regularized=True)
     # method is "sumpmf"
     c = mp.fsum([mp.exp(logpmf(t, n, p))
-- 
2.43.0


From 6b05b20b96735d88c943f7e1909848ce3e01e050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:14 +0000
Subject: [PATCH 056/122] fix: nct.mean and nct.var when the moment does not
 exist, and nct.mean with nc <= 0

---
 mpsci/distributions/nct.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mpsci/distributions/nct.py b/mpsci/distributions/nct.py
index 2e62cbe..f02ac1f 100644
--- a/mpsci/distributions/nct.py
+++ b/mpsci/distributions/nct.py
@@ -103,14 +103,12 @@ def mean(df, nc):
     """
     Mean of the noncentral t distribution.
     """
-    # XXX Require df > 1.
     df = mp.mpf(df)
     nc = mp.mpf(nc)
-    logm = (mp.log(nc)
-            + mp.log(df/2)/2
-            + mp.loggamma((df - 1)/2)
-            - mp.loggamma(df/2))
-    return mp.exp(logm)
+    if df <= 1:
+        return mp.nan
+    c = mp.exp(mp.loggamma((df - 1)/2) - mp.loggamma(df/2))
+    return nc * mp.sqrt(df/2) * c
 
 
 @mp.extradps(5)
@@ -118,9 +116,10 @@ def var(df, nc):
     """
     Variance of the noncentral t distribution.
     """
-    # XXX Require df > 2.
     df = mp.mpf(df)
     nc = mp.mpf(nc)
+    if df <= 2:
+        return mp.nan
     c = mp.exp(mp.loggamma((df - 1)/2) - mp.loggamma(df/2))
     return df/(df - 2) * (1 + nc**2) - df/2 * nc**2 * c**2
 
-- 
2.43.0


From 9675e997dbe7c1536f3f2b260d30e147734f3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:14 +0000
Subject: [PATCH 057/122] fix: nakagami.mode with nu < 1/2

---
 mpsci/distributions/nakagami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 7ffe128..7f88d7f 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -158,6 +158,8 @@ def mode(nu, loc=0, scale=1):
     Mode of the Nakagami distribution.
     """
     nu, loc, scale = _validate_params(nu, loc, scale)
+    if nu <= 0.5:
+        return loc
     return loc + scale * mp.sqrt(1 - 1/(2 * nu))
 
 
-- 
2.43.0


From e85095018c9936f469de186cac50283465089a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:02 +0000
Subject: [PATCH 058/122] fix: normal.nll default mu is 0, as in the other
 functions of the module

---
 mpsci/distributions/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/normal.py b/mpsci/distributions/normal.py
index dc7b826..fdf3425 100644
--- a/mpsci/distributions/normal.py
+++ b/mpsci/distributions/normal.py
@@ -138,7 +138,7 @@ def entropy(mu=0, sigma=1):
 
 
 @mp.extradps(5)
-def nll(x, mu=1, sigma=1):
+def nll(x, mu=0, sigma=1):
     """
     Negative log-likelihood for the normal distribution.
     """
-- 
2.43.0


From 4e56daaad347bb45d826587d49eacbb8303ba066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 059/122] fix: weibull_min.mle and weibull_max.mle could return
 a negative k

---
 mpsci/distributions/_weibull_common.py | 13 +++++++++++++
 mpsci/distributions/weibull_max.py     |  7 ++++---
 mpsci/distributions/weibull_min.py     |  7 ++++---
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/mpsci/distributions/_weibull_common.py b/mpsci/distributions/_weibull_common.py
index e7c2888..c9a8e03 100644
--- a/mpsci/distributions/_weibull_common.py
+++ b/mpsci/distributions/_weibull_common.py
@@ -37,3 +37,16 @@ def _mle_k_eqn2(k, x, scale):
     m2 = mp.fsum(xklnx)/n
     lnscale = mp.log(scale)
     return 1/k - lnscale + mp.fsum(lnx)/n + (1/scale**k)*(lnscale*m1 - m2)
+
+
+def _solve_mle_k(func, k0):
+    # Solve func(k) = 0 for k > 0.
+    k = mp.findroot(func, k0)
+    if k > 0:
+        return k
+    # findroot converged to a root that is not in the domain of k.
+    low = high = mp.mpf(k0)
+    while mp.sign(func(low)) == mp.sign(func(high)):
+        low /= 2
+        high *= 2
+    return mp.findroot(func, (low, high), solver='anderson')
diff --git a/mpsci/distributions/weibull_max.py b/mpsci/distributions/weibull_max.py
index c0da867..b9acbf2 100644
--- a/mpsci/distributions/weibull_max.py
+++ b/mpsci/distributions/weibull_max.py
@@ -27,7 +27,8 @@ from mpmath import mp
 from ..stats import pmean
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       _median)
-from ._weibull_common import _validate_params, _mle_k_eqn1, _mle_k_eqn2
+from ._weibull_common import (_validate_params, _mle_k_eqn1, _mle_k_eqn2,
+                              _solve_mle_k)
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -299,7 +300,7 @@ def mle(x, *, k=None, loc=None, scale=None):
     if k is None and scale is None:
         # Solve for k and scale.
         # TO DO: Is there a better guess for k than 1?
-        k_hat = mp.findroot(lambda k: _mle_k_eqn1(k, x), 1.0)
+        k_hat = _solve_mle_k(lambda k: _mle_k_eqn1(k, x), 1.0)
         scale_hat = pmean(x, p=k_hat)
     elif k is not None and scale is None:
         # Solve for scale.
@@ -317,7 +318,7 @@ def mle(x, *, k=None, loc=None, scale=None):
             k0 = 1.0
         else:
             k0 = mp.log(mp.log(2))/lnr
-        k_hat = mp.findroot(lambda k: _mle_k_eqn2(k, x, scale_hat), k0)
+        k_hat = _solve_mle_k(lambda k: _mle_k_eqn2(k, x, scale_hat), k0)
     else:
         # Both k and scale are not None--nothing to do.
         k_hat = mp.mpf(k)
diff --git a/mpsci/distributions/weibull_min.py b/mpsci/distributions/weibull_min.py
index f3d786a..5793dec 100644
--- a/mpsci/distributions/weibull_min.py
+++ b/mpsci/distributions/weibull_min.py
@@ -27,7 +27,8 @@ from mpmath import mp
 from ..stats import pmean
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
                       _median)
-from ._weibull_common import _validate_params, _mle_k_eqn1, _mle_k_eqn2
+from ._weibull_common import (_validate_params, _mle_k_eqn1, _mle_k_eqn2,
+                              _solve_mle_k)
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -301,7 +302,7 @@ def mle(x, *, k=None, loc=None, scale=None):
     if k is None and scale is None:
         # Solve for k and scale.
         # TO DO: Is there a better guess for k than 1?
-        k_hat = mp.findroot(lambda k: _mle_k_eqn1(k, x), 1.0)
+        k_hat = _solve_mle_k(lambda k: _mle_k_eqn1(k, x), 1.0)
         scale_hat = pmean(x, p=k_hat)
     elif k is not None and scale is None:
         # Solve for scale.
@@ -319,7 +320,7 @@ def mle(x, *, k=None, loc=None, scale=None):
             k0 = 1.0
         else:
             k0 = mp.log(mp.log(2))/lnr
-        k_hat = mp.findroot(lambda k: _mle_k_eqn2(k, x, scale_hat), k0)
+        k_hat = _solve_mle_k(lambda k: _mle_k_eqn2(k, x, scale_hat), k0)
     else:
         # Both k and scale are not None--nothing to do.
         k_hat = mp.mpf(k)
-- 
2.43.0


From df64d9cc77b7203714073e96f926ac61d0896c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 060/122] fix: hypsecant.mle could return a negative scale

---
 mpsci/distributions/hypsecant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/hypsecant.py b/mpsci/distributions/hypsecant.py
index 84a0f92..47cd80a 100644
--- a/mpsci/distributions/hypsecant.py
+++ b/mpsci/distributions/hypsecant.py
@@ -178,7 +178,7 @@ def mle(x, *, loc=None, scale=None):
             return eq1, eq2
 
         loc_hat, scale_hat = mp.findroot(mle_eqns, [loc0, scale0])
-        return loc_hat, scale_hat
+        return loc_hat, abs(scale_hat)
 
     if loc is None or isinstance(loc, Initial):
         # Fit loc only; scale is fixed.
@@ -206,7 +206,7 @@ def mle(x, *, loc=None, scale=None):
             return s - n
 
         scale_hat = mp.findroot(mle_scale_eqn, scale0)
-        return loc, scale_hat
+        return loc, abs(scale_hat)
 
     # Both parameters fixed, nothing to do.
     loc, scale = _validate_loc_scale(loc, scale)
-- 
2.43.0


From 67c34c81b0f69dd60afaf90f7e5765060672d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 061/122] fix: pareto.mle ignored the fixed loc when loc and
 scale are fixed

---
 mpsci/distributions/pareto.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index eed9657..3dd406d 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -229,6 +229,14 @@ def mle(x, *, b=None, loc=None, scale=None):
             b_hat = 1/(s1/n - mp.log(scale_hat))
             return b_hat, loc, scale_hat
 
+        if loc_fixed:
+            # b is free, loc and scale are fixed.
+            _, loc, scale = _validate_params(1, loc, scale)
+            x = _validate_x_bounds(x, low=loc + scale, high=mp.inf)
+            s1 = mp.fsum([mp.log(t - loc) for t in x])
+            b_hat = 1/(s1/n - mp.log(scale))
+            return b_hat, loc, scale
+
         # b and loc are free, scale is fixed.
         _, _, scale = _validate_params(1, 1, scale)
         x = _validate_x_bounds(x, low=mp.ninf, high=mp.inf)
-- 
2.43.0


From 737aa487e710d67140bb497df4352d80c805f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 062/122] fix: binomial.mle with fixed p ignored counts, and
 could stop at max(x)

---
 mpsci/distributions/binomial.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/binomial.py b/mpsci/distributions/binomial.py
index cd5063f..9366d10 100644
--- a/mpsci/distributions/binomial.py
+++ b/mpsci/distributions/binomial.py
@@ -193,9 +193,10 @@ def nll(x, n, p, *, counts=None):
                      for t, count in zip(x, counts)])
 
 
-def _p_threshold(k):
+def _p_threshold(k, counts=None):
     kmax = max(k)
-    d = _mean([mp.digamma(kmax + 1) - mp.digamma(kmax - ki + 1) for ki in k])
+    d = _mean([mp.digamma(kmax + 1) - mp.digamma(kmax - ki + 1) for ki in k],
+              weights=counts)
     return -mp.expm1(-d)
 
 
@@ -292,7 +293,7 @@ def mle(x, *, counts=None, n=None, p=None):
     else:
         # n is free, p is fixed.
         _, p = _validate_np(1, p)
-        pt = _p_threshold(x)
+        pt = _p_threshold(x, counts)
         if p >= pt:
             nhat = xmax
             return int(xmax), p
@@ -311,8 +312,11 @@ def mle(x, *, counts=None, n=None, p=None):
             n0 = m/p
             nhat = mp.findroot(mle_n_eqn, n0)
         if nhat < xmax:
-            nhat = xmax
-            return int(nhat), p
+            # p < pt, so there is a solution that is greater than xmax.
+            high = 2*(xmax + 1)
+            while mle_n_eqn(high) > 0:
+                high *= 2
+            nhat = mp.findroot(mle_n_eqn, (xmax, high), solver='anderson')
         # Integer n is required.
         if int(nhat) == nhat:
             return int(nhat), p
-- 
2.43.0


From 438e08255645d622ceeef5abcaeb5cee943a999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:47 +0000
Subject: [PATCH 063/122] fix: negative_binomial.mle with
 allow_noninteger_r=False when r < 1

---
 mpsci/distributions/negative_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index 37acacd..8758352 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -245,7 +245,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, phat
         # Integer r is required.
-        rhat0 = mp.floor(rhat)
+        rhat0 = max(mp.floor(rhat), mp.one)
         rhat1 = mp.ceil(rhat)
         phat0 = m/(rhat0 + m)
         phat1 = m/(rhat1 + m)
@@ -269,7 +269,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, p
         # Integer r is required.
-        rhat0 = mp.floor(rhat)
+        rhat0 = max(mp.floor(rhat), mp.one)
         rhat1 = mp.ceil(rhat)
         nll0 = nll(x, r=rhat0, p=p, counts=counts)
         nll1 = nll(x, r=rhat1, p=p, counts=counts)
-- 
2.43.0


From 802cad2fb62e92f2641c88ad41d53576100689ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:21 +0000
Subject: [PATCH 064/122] fix: mle functions that returned negative or complex
 estimates

---
 mpsci/distributions/_common.py      | 24 ++++++++++++++++++++++++
 mpsci/distributions/betabinomial.py |  6 +++---
 mpsci/distributions/betaprime.py    | 12 ++++++------
 mpsci/distributions/kumaraswamy.py  |  6 +++---
 mpsci/distributions/nakagami.py     |  4 ++--
 mpsci/distributions/pareto.py       |  4 ++--
 6 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index efbb794..5213afd 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -312,3 +312,27 @@ def _generic_inv(func, p, direction, solver='bisect', **kwargs):
             k0 = (k_low + k_high)/2
         return mp.findroot(lambda k: func(k) - p,
                            x0=k0, solver=solver, maxsteps=maxsteps, **kwargs)
+
+
+def _findroot_positive(func, x0):
+    """
+    Solve func(x) = 0 for x > 0, starting at the initial guess x0.
+
+    If `mp.findroot` fails, or if it converges to a solution that is not a
+    positive real number, look for a bracketing interval around `x0`.
+    """
+    x0 = mp.mpf(x0)
+    try:
+        x = mp.findroot(func, x0)
+        if isinstance(x, mp.mpf) and x > 0:
+            return x
+    except (ValueError, TypeError, ZeroDivisionError):
+        pass
+    low = high = x0
+    for _ in range(mp.prec//4):
+        low /= 2
+        high *= 2
+        if mp.sign(func(low)) != mp.sign(func(high)):
+            return mp.findroot(func, (low, high), solver='anderson',
+                               maxsteps=4*mp.prec)
+    raise RuntimeError('failed to find a positive solution')
diff --git a/mpsci/distributions/betabinomial.py b/mpsci/distributions/betabinomial.py
index 52d33ee..572fa86 100644
--- a/mpsci/distributions/betabinomial.py
+++ b/mpsci/distributions/betabinomial.py
@@ -8,7 +8,7 @@ See https://en.wikipedia.org/wiki/Beta-binomial_distribution
 
 from mpmath import mp
 from ..fun import logbinomial, logbeta
-from ._common import _validate_x_bounds, Initial, _validate_counts
+from ._common import _validate_x_bounds, Initial, _validate_counts, _findroot_positive
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'cdf', 'sf',
@@ -329,7 +329,7 @@ def mle(x, *, counts=None, n=None, a=None, b=None):
             return mp.fsum([count*(mp.digamma(t + a) + s)
                             for t, count in zip(x, counts)])
 
-        est = mp.findroot(first_order_eqn, x0=mp.mpf(a.initial))
+        est = _findroot_positive(first_order_eqn, a.initial)
         return n, est, b
 
     elif isinstance(b, Initial):
@@ -340,7 +340,7 @@ def mle(x, *, counts=None, n=None, a=None, b=None):
             return mp.fsum([count*(mp.digamma(n - t + b) + s)
                             for t, count in zip(x, counts)])
 
-        est = mp.findroot(first_order_eqn, x0=mp.mpf(b.initial))
+        est = _findroot_positive(first_order_eqn, b.initial)
         return n, a, est
 
     else:
diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index cd3d944..f92d318 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -29,7 +29,7 @@ the scale to 1.
 import re
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _find_bracket,
-                      _validate_x_bounds, Initial)
+                      _validate_x_bounds, _findroot_positive, Initial)
 from ..stats import mean as _mean
 from .. import fun as _fun
 
@@ -393,7 +393,7 @@ def mle(x, *, a=None, b=None, scale=None):
                 return mp.digamma(b) - mp.digamma(a + b) + meanlog1px
 
             b0 = mp.mpf(1 if b is None else b.initial)
-            bhat = mp.findroot(b_eqn, b0)
+            bhat = _findroot_positive(b_eqn, b0)
             return a, bhat, scale
         else:
             # scale and b are fixed, a is not fixed.
@@ -407,7 +407,7 @@ def mle(x, *, a=None, b=None, scale=None):
                         - meanlogx + meanlog1px + logscale)
 
             a0 = mp.mpf(1 if a is None else a.initial)
-            ahat = mp.findroot(a_eqn, a0)
+            ahat = _findroot_positive(a_eqn, a0)
             return ahat, b, scale
     else:
         # scale is not fixed, but one of a or b is fixed.
@@ -418,7 +418,7 @@ def mle(x, *, a=None, b=None, scale=None):
             def scale_eqn(s):
                 return a - (a + b)*_mean([(xi/s)/(1 + xi/s) for xi in x])
 
-            scalehat = mp.findroot(scale_eqn, scale0)
+            scalehat = _findroot_positive(scale_eqn, scale0)
             return a, b, scalehat
         elif a_fixed and not b_fixed:
             a, _, _ = _validate_params(a, 1, 1)
@@ -432,7 +432,7 @@ def mle(x, *, a=None, b=None, scale=None):
                         - mp.digamma(a/meanxover1px)
                         + meanlog1px)
 
-            scalehat = mp.findroot(scale_eqn, scale0)
+            scalehat = _findroot_positive(scale_eqn, scale0)
             meanxover1px = _mean([(t/scalehat)/(1 + t/scalehat)
                                   for t in x])
             bhat = a * (1/meanxover1px - 1)
@@ -453,7 +453,7 @@ def mle(x, *, a=None, b=None, scale=None):
                         + meanlog1px
                         + mp.log(s))
 
-            scalehat = mp.findroot(scale_eqn, scale0)
+            scalehat = _findroot_positive(scale_eqn, scale0)
             meanxover1px = _mean([(t/scalehat)/(1 + t/scalehat)
                                       for t in x])
             ahat = b * (meanxover1px/(1 - meanxover1px))
diff --git a/mpsci/distributions/kumaraswamy.py b/mpsci/distributions/kumaraswamy.py
index 015fe80..7cb2459 100644
--- a/mpsci/distributions/kumaraswamy.py
+++ b/mpsci/distributions/kumaraswamy.py
@@ -20,7 +20,7 @@ https://en.wikipedia.org/wiki/Kumaraswamy_distribution.
 
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
-                      Initial)
+                      _findroot_positive, Initial)
 from ..fun._powm1 import inv_powm1, pow1pm1
 from ..fun import xlogy
 
@@ -278,7 +278,7 @@ def mle(x, *, a=None, b=None):
             a0 = a.initial
         else:
             a0 = 1
-        a = mp.findroot(lambda t: _mle_a_eqn(t, x, sumlogx), a0)
+        a = _findroot_positive(lambda t: _mle_a_eqn(t, x, sumlogx), a0)
         b = -n / mp.fsum([mp.log1p(-t**a) for t in x])
         return a, b
     if (a is not None and not isinstance(a, Initial)) and b is not None:
@@ -290,7 +290,7 @@ def mle(x, *, a=None, b=None):
             a0 = a.initial
         else:
             a0 = 1
-        a = mp.findroot(lambda t: _mle_a_eqn_b_fixed(t, b, x, sumlogx), a0)
+        a = _findroot_positive(lambda t: _mle_a_eqn_b_fixed(t, b, x, sumlogx), a0)
         return a, b
     # a is fixed, b is not.
     a, _ = _validate_a_b(a, 1)
diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 7f88d7f..9e70fd4 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -20,7 +20,7 @@ infinity as x approaches 0.
 
 from mpmath import mp
 from mpsci import stats
-from ._common import _validate_x_bounds, _validate_p,  _find_bracket
+from ._common import _validate_x_bounds, _validate_p,  _find_bracket, _findroot_positive
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -280,6 +280,6 @@ def mle(x, *, nu=None, loc=None, scale=None):
             R = (stats.mean([(t/scale0)**2 for t in x]) -
                  stats.mean([2*mp.log(t/scale0) for t in x]) - 1)
         nu0 = _estimate_nu(R)
-        nu0 = mp.findroot(lambda nu: _mle_nu_func(nu, R), nu0)
+        nu0 = _findroot_positive(lambda nu: _mle_nu_func(nu, R), nu0)
 
     return nu0, loc0, scale0
diff --git a/mpsci/distributions/pareto.py b/mpsci/distributions/pareto.py
index 3dd406d..aaed1cf 100644
--- a/mpsci/distributions/pareto.py
+++ b/mpsci/distributions/pareto.py
@@ -14,7 +14,7 @@ wikipedia page.
 """
 from mpmath import mp
 from ..fun import inv_powm1
-from ._common import _validate_p, _validate_x_bounds, Initial
+from ._common import _validate_p, _validate_x_bounds, Initial, _findroot_positive
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'invcdf', 'sf', 'invsf',
@@ -258,7 +258,7 @@ def mle(x, *, b=None, loc=None, scale=None):
             return n*b/scale - (b + 1)*s
 
         scale0 = scale.initial if isinstance(scale, Initial) else 1
-        scale_hat = mp.findroot(mle_eqn, scale0)
+        scale_hat = _findroot_positive(mle_eqn, scale0)
         loc_hat = x1 - scale_hat
         return b, loc_hat, scale_hat
 
-- 
2.43.0


From bbb5788367ede7a0698e74abe70edee84cec84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:51 +0000
Subject: [PATCH 065/122] fix: beta.mle with one fixed parameter could return a
 negative estimate

---
 mpsci/distributions/beta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index a7eec67..63f294b 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -8,7 +8,7 @@ This is the "standard" beta distribution, with shape parameters
 
 from mpmath import mp
 from ._common import (_validate_p, _validate_moment_n, _validate_x_bounds,
-                      _find_bracket, isfixed)
+                      _find_bracket, _findroot_positive, isfixed)
 from .. import fun as _fun
 from ..stats import mean as _mean, var as _var
 
@@ -309,7 +309,7 @@ def mle(x, *, a=None, b=None):
     else:
         # a must be an instance of Initial.
         p0 = a.initial
-    p1 = mp.findroot(lambda a: _beta_mle_func(a, b, n, s1), p0)
+    p1 = _findroot_positive(lambda a: _beta_mle_func(a, b, n, s1), p0)
     if swap:
         return b, p1
     else:
-- 
2.43.0


From d3f18b418af739b5a5b3d4ff8e94be920d036660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:13 +0000
Subject: [PATCH 066/122] fix: negative_binomial.mle could return a complex
 estimate

---
 mpsci/distributions/negative_binomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/negative_binomial.py b/mpsci/distributions/negative_binomial.py
index 8758352..feee21d 100644
--- a/mpsci/distributions/negative_binomial.py
+++ b/mpsci/distributions/negative_binomial.py
@@ -13,7 +13,8 @@ import itertools
 from mpmath import mp
 from ..fun import logbeta, xlogy, xlog1py
 from ..stats import mean as _mean
-from ._common import Initial, _validate_counts, _validate_int
+from ._common import (Initial, _validate_counts, _validate_int,
+                      _findroot_positive)
 
 
 __all__ = ['support', 'pmf', 'logpmf', 'sf', 'cdf', 'mean', 'mode', 'var',
@@ -240,7 +241,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
                     - mp.digamma(r) + mp.log1p(-p1))
 
         r0 = 1 if r is None else r.initial
-        rhat = mp.findroot(mle_r_eqn, r0)
+        rhat = _findroot_positive(mle_r_eqn, r0)
         phat = m/(rhat + m)
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, phat
@@ -265,7 +266,7 @@ def mle(x, *, counts=None, r=None, p=None, allow_noninteger_r=True):
                     - mp.digamma(r) + mp.log1p(-p))
 
         r0 = 1 if r is None else r.initial
-        rhat = mp.findroot(mle_r_eqn, r0)
+        rhat = _findroot_positive(mle_r_eqn, r0)
         if allow_noninteger_r or rhat == int(rhat):
             return rhat, p
         # Integer r is required.
-- 
2.43.0


From 53b7d4eab64345dc270a24df901337841dd52ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:01 +0000
Subject: [PATCH 067/122] fix: fishers_noncentral_hypergeometric.support_pmf
 returned the cached list itself

---
 mpsci/distributions/fishers_noncentral_hypergeometric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/fishers_noncentral_hypergeometric.py b/mpsci/distributions/fishers_noncentral_hypergeometric.py
index 2909fff..5111d98 100644
--- a/mpsci/distributions/fishers_noncentral_hypergeometric.py
+++ b/mpsci/distributions/fishers_noncentral_hypergeometric.py
@@ -117,7 +117,8 @@ def support_pmf(nc, ntotal, ngood, nsample):
     _hg._validate(ntotal, ngood, nsample)
     prec = mp.prec
     sup, values = _support_pmf(nc, ntotal, ngood, nsample, prec)
-    return sup, values
+    # Return a copy; the cached list must not be exposed to the caller.
+    return sup, list(values)
 
 
 _c_k_formula = r"""
-- 
2.43.0


From 84304048db00e1a84b4a6cecdaffa950822cb827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:27 +0000
Subject: [PATCH 068/122] fix: chi2.invcdf_k and invsf_k never returned for p
 outside (0, 1) or x <= 0

---
 mpsci/distributions/chi2.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpsci/distributions/chi2.py b/mpsci/distributions/chi2.py
index 029da2b..c11c212 100644
--- a/mpsci/distributions/chi2.py
+++ b/mpsci/distributions/chi2.py
@@ -20,6 +20,12 @@ def _validate_k(k):
     return mp.mpf(k)
 
 
+def _validate_xp_inv_k(x, p):
+    if x <= 0:
+        raise ValueError('x must be positive')
+    return mp.mpf(x), _validate_p(p)
+
+
 @mp.extradps(5)
 def pdf(x, k):
     """
@@ -95,6 +101,11 @@ def invcdf_k(x, p, solver='bisect', **kwargs):
 
     Experimental!
     """
+    x, p = _validate_xp_inv_k(x, p)
+    if p == 0:
+        return mp.inf
+    if p == 1:
+        return mp.zero
     return _generic_inv(lambda k: cdf(x, k), p,
                         direction=-1, solver=solver, **kwargs)
 
@@ -146,6 +157,11 @@ def invsf_k(x, p, solver='bisect', **kwargs):
 
     Experimental!
     """
+    x, p = _validate_xp_inv_k(x, p)
+    if p == 0:
+        return mp.zero
+    if p == 1:
+        return mp.inf
     return _generic_inv(lambda k: sf(x, k), p,
                         direction=1, solver=solver, **kwargs)
 
-- 
2.43.0


From fc7076d9b39544cd5363b258318db172d5701100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:44 +0000
Subject: [PATCH 069/122] fix: tukeylambda.var and noncentral_moment for lam
 near 0, and divergent moments of odd order

---
 mpsci/distributions/tukeylambda.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index 27bd7c9..b816d79 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -213,9 +213,12 @@ def var(lam, loc=0, scale=1):
         return mp.nan
     if lam == 0:
         return (scale*mp.pi)**2/3
-    g1 = mp.gamma(lam + 1)
-    g2 = mp.gamma(2*lam + 2)
-    v0 = (2/lam**2)*(1/(1 + 2*lam) - g1**2/g2)
+    # The difference is O(lam**2); the extra bits compensate for the
+    # cancellation when lam is small.
+    with mp.extraprec(max(0, -2*mp.mag(lam))):
+        g1 = mp.gamma(lam + 1)
+        g2 = mp.gamma(2*lam + 2)
+        v0 = (2/lam**2)*(1/(1 + 2*lam) - g1**2/g2)
     return scale**2 * v0
 
 
@@ -226,14 +229,20 @@ def _standard_noncentral_moment(n, lam):
     """
     if n == 0:
         return mp.one
+    if lam * n <= -1:
+        return mp.nan
     if n % 2 == 1:
         # Moments of odd order are zero.
         return mp.zero
-    if lam * n <= -1:
-        return mp.nan
-    terms = [(-1)**k * mp.binomial(n, k) * mp.beta(lam * k + 1, (n - k) * lam + 1)
-             for k in range(0, n + 1)]
-    m = mp.fsum(terms) / lam**n
+    if lam == 0:
+        # Standard logistic distribution.
+        return 2*mp.factorial(n)*mp.altzeta(n)
+    # The sum is O(lam**n); the extra bits compensate for the
+    # cancellation when lam is small.
+    with mp.extraprec(max(0, -n*mp.mag(lam))):
+        terms = [(-1)**k * mp.binomial(n, k) * mp.beta(lam * k + 1, (n - k) * lam + 1)
+                 for k in range(0, n + 1)]
+        m = mp.fsum(terms) / lam**n
     return m
 
 
-- 
2.43.0


From 93b58e8a0011bc0bf2c6da39644f09fbb31a83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:14 +0000
Subject: [PATCH 070/122] fix: laplace.invcdf and invsf returned complex values
 for p outside [0, 1]

---
 mpsci/distributions/laplace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpsci/distributions/laplace.py b/mpsci/distributions/laplace.py
index 824a9cb..9a4c6cd 100644
--- a/mpsci/distributions/laplace.py
+++ b/mpsci/distributions/laplace.py
@@ -12,7 +12,7 @@ wikipedia article:
 
 from mpmath import mp
 from mpsci.stats import mean as _mean
-from ._common import _seq_to_mp, _validate_loc_scale
+from ._common import _seq_to_mp, _validate_loc_scale, _validate_p
 
 
 __all__ = ['pdf', 'logpdf', 'cdf', 'sf', 'invcdf', 'invsf', 'interval_prob',
@@ -110,7 +110,7 @@ def invcdf(p, loc=0, scale=1):
     point function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p <= 0.5:
         q = loc + scale * mp.log(2*p)
     else:
@@ -124,7 +124,7 @@ def invsf(p, loc=0, scale=1):
     Laplace distribution inverse survival function.
     """
     loc, scale = _validate_loc_scale(loc, scale)
-    p = mp.mpf(p)
+    p = _validate_p(p)
     if p >= 0.5:
         q = loc + scale * mp.log(2 - 2*p)
     else:
-- 
2.43.0


From 7e6332fa2b8001b5868ef815b5a1878f80c3e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 071/122] fix: gamma.mle and nll_grad returned complex values
 for data outside the support

---
 mpsci/distributions/gamma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 82aec3d..5d96436 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -263,6 +263,8 @@ def mle(x, *, k=None, scale=None):
 
     x must be a sequence of values.
     """
+    x = _validate_x_bounds(x, low=0, high=mp.inf, strict_low=True,
+                           strict_high=True)
     meanx = mp.fsum(x) / len(x)
     meanlnx = mp.fsum(mp.log(t) for t in x) / len(x)
 
@@ -325,6 +327,8 @@ def nll_grad(x, k, scale):
     """
     k, scale = _validate_k_scale(k, scale)
 
+    x = _validate_x_bounds(x, low=0, high=mp.inf, strict_low=False,
+                           strict_high=True)
     N = len(x)
     sumx = mp.fsum(x)
     sumlnx = mp.fsum(mp.log(t) for t in x)
-- 
2.43.0


From 3eb12664f5ba40f2cf3137e5c4f984df66c85ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 072/122] fix: poisson.mle accepted data outside the support

---
 mpsci/distributions/poisson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/distributions/poisson.py b/mpsci/distributions/poisson.py
index 8aef8ab..41d42d4 100644
--- a/mpsci/distributions/poisson.py
+++ b/mpsci/distributions/poisson.py
@@ -172,5 +172,6 @@ def mle(x, *, counts=None):
 
     Returns lambda, the estimated parameter of the Poisson distribution.
     """
+    x = _validate_x_bounds(x, low=0, high=None, strict_low=False)
     counts = _validate_counts(x, counts, expand_none=False)
     return _fmean(x, weights=counts)
-- 
2.43.0


From 1640422a5954a8233f7e007b9d83ff001ba3c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 073/122] fix: logseries.mle accepted data outside the support
 and invalid counts

---
 mpsci/distributions/logseries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/logseries.py b/mpsci/distributions/logseries.py
index fd4a1ae..8315fe2 100644
--- a/mpsci/distributions/logseries.py
+++ b/mpsci/distributions/logseries.py
@@ -186,6 +186,9 @@ def mle(x, *, counts=None):
     mpf('0.9207611550739465028229025367922360801454828')
 
     """
+    if not all([mp.isint(t) and t >= 1 for t in x]):
+        raise ValueError('all values in x must be integers greater than 0')
+    counts = _validate_counts(x, counts, expand_none=False)
     with mp.extradps(mp.dps):
         m = _fmean(x, weights=counts)
         if m == 1:
-- 
2.43.0


From 91e5cdb631a755d6e6f3ba77bc052e84e05a8dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:15 +0000
Subject: [PATCH 074/122] fix: the message for an invalid scale did not name
 the parameter

---
 mpsci/distributions/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/_common.py b/mpsci/distributions/_common.py
index 5213afd..df6a1c2 100644
--- a/mpsci/distributions/_common.py
+++ b/mpsci/distributions/_common.py
@@ -23,7 +23,7 @@ def _validate_loc_scale(loc, scale, scale_name='scale'):
     loc = mp.mpf(loc)
     scale = mp.mpf(scale)
     if scale <= 0:
-        raise ValueError('f{scale_name} must be positive.')
+        raise ValueError(f'{scale_name} must be positive.')
     return loc, scale
 
 
-- 
2.43.0


From 6dc4d64c1d3655dd14e5c944a9ad8994cb029560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 075/122] fix: loggamma.invcdf and invsf accepted invalid
 parameters when p is 0 or 1

---
 mpsci/distributions/loggamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/loggamma.py b/mpsci/distributions/loggamma.py
index 687dab1..ed0c51c 100644
--- a/mpsci/distributions/loggamma.py
+++ b/mpsci/distributions/loggamma.py
@@ -86,11 +86,11 @@ def invcdf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.ninf
     if p == 1:
         return mp.inf
-    k, theta = _validate_k_theta(k, theta)
     x0, x1 = _find_bracket(lambda t: cdf(t, k, theta), p, -mp.inf, mp.inf)
     root = mp.findroot(lambda t: cdf(t, k, theta) - p, x0=(x0, x1))
     return root
@@ -119,11 +119,11 @@ def invsf(p, k, theta):
     theta is the scale parameter of the log-gamma distribution.
     """
     p = _validate_p(p)
+    k, theta = _validate_k_theta(k, theta)
     if p == 0:
         return mp.inf
     if p == 1:
         return mp.ninf
-    k, theta = _validate_k_theta(k, theta)
     x0, x1 = _find_bracket(lambda t: sf(t, k, theta), p, -mp.inf, mp.inf)
     root = mp.findroot(lambda t: sf(t, k, theta) - p, x0=(x0, x1))
     return root
-- 
2.43.0


From c6fbf5082e616d0328f2842d8074fbfb3cd48311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:08 +0000
Subject: [PATCH 076/122] fix: hypergeometric and negative_hypergeometric
 accepted parameters that are not integers

---
 mpsci/distributions/hypergeometric.py          | 3 +++
 mpsci/distributions/negative_hypergeometric.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/mpsci/distributions/hypergeometric.py b/mpsci/distributions/hypergeometric.py
index 4ac6d8f..baefe2c 100644
--- a/mpsci/distributions/hypergeometric.py
+++ b/mpsci/distributions/hypergeometric.py
@@ -15,6 +15,9 @@ def _validate(ntotal, ngood, nsample):
     if ntotal < 0 or ngood < 0 or nsample < 0:
         raise ValueError(f'ntotal ({ntotal}), ngood ({ngood}) and nsample '
                          f'({nsample}) must be nonnegative.')
+    if any(t != int(t) for t in (ntotal, ngood, nsample)):
+        raise ValueError(f'ntotal ({ntotal}), ngood ({ngood}) and nsample '
+                         f'({nsample}) must be integers.')
     if ngood > ntotal:
         raise ValueError(f'ngood ({ngood}) must not be greater than '
                          f'ntotal ({ntotal})')
diff --git a/mpsci/distributions/negative_hypergeometric.py b/mpsci/distributions/negative_hypergeometric.py
index 48ff3c9..191533d 100644
--- a/mpsci/distributions/negative_hypergeometric.py
+++ b/mpsci/distributions/negative_hypergeometric.py
@@ -20,6 +20,8 @@ __all__ = ['pmf', 'logpmf', 'cdf', 'sf', 'mean', 'mode', 'var',
 def _validate(ntotal, ngood, untilnbad):
     if ntotal < 0 or ngood < 0 or untilnbad < 0:
         raise ValueError('all distribution parameters must be nonnegative')
+    if any(t != int(t) for t in (ntotal, ngood, untilnbad)):
+        raise ValueError('all distribution parameters must be integers')
     if ngood > ntotal:
         raise ValueError('ngood must not be greater than ntotal')
     if ntotal - ngood < untilnbad:
-- 
2.43.0


From f797d28bed69ec9e7bf294a2f1002a8864021301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 077/122] fix: burr12.invcdf lost precision for small p

---
 mpsci/distributions/burr12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/burr12.py b/mpsci/distributions/burr12.py
index 3aa1401..28ce043 100644
--- a/mpsci/distributions/burr12.py
+++ b/mpsci/distributions/burr12.py
@@ -73,7 +73,7 @@ def invcdf(p, c, d, scale):
     p = _validate_p(p)
     if p == 1:
         return mp.inf
-    return scale * mp.powm1(1 - p, -1/d)**(1/c)
+    return scale*mp.expm1(-mp.log1p(-p)/d)**(1/c)
 
 
 @mp.extradps(5)
-- 
2.43.0


From 846a9d21aaa09540fa02e99580feced0dc675a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 078/122] fix: lognormal.invcdf and invsf lost precision for
 small p

---
 mpsci/distributions/lognormal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/lognormal.py b/mpsci/distributions/lognormal.py
index e59255e..aa97a52 100644
--- a/mpsci/distributions/lognormal.py
+++ b/mpsci/distributions/lognormal.py
@@ -8,6 +8,7 @@ parameters as used in `scipy.stats.lognorm`.
 """
 
 from mpmath import mp
+from . import normal
 from ._common import _validate_p, _validate_moment_n, _validate_x_bounds
 
 
@@ -88,9 +89,7 @@ def invcdf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_params(mu, sigma)
-    a = mp.erfinv(2*p - 1)
-    x = mp.exp(mp.sqrt(2)*sigma*a + mu)
-    return x
+    return mp.exp(normal.invcdf(p, mu, sigma))
 
 
 @mp.extradps(5)
@@ -100,7 +99,7 @@ def invsf(p, mu=0, sigma=1):
     """
     p = _validate_p(p)
     mu, sigma = _validate_params(mu, sigma)
-    return invcdf(1 - p, mu, sigma)
+    return mp.exp(normal.invsf(p, mu, sigma))
 
 
 @mp.extradps(5)
-- 
2.43.0


From c436dfbc2720e0612a2ba16c0b2e684af93b5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 079/122] fix: levy.invcdf lost precision for small p

---
 mpsci/distributions/levy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/levy.py b/mpsci/distributions/levy.py
index d137873..3fa9663 100644
--- a/mpsci/distributions/levy.py
+++ b/mpsci/distributions/levy.py
@@ -23,7 +23,9 @@ __all__ = ['logpdf', 'pdf', 'cdf', 'invcdf', 'sf', 'invsf',
 
 @mp.extradps(5)
 def _erfcinv(y):
-    return mp.erfinv(1 - y)
+    # Use enough bits that 1 - y does not lose the information in y.
+    with mp.extraprec(max(0, -mp.mag(y)) if y > 0 else 0):
+        return mp.erfinv(1 - y)
 
 
 @mp.extradps(5)
-- 
2.43.0


From a71b787c275cfe10b0d50088d9a84569b8d6cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:02 +0000
Subject: [PATCH 080/122] fix: benktander1.pdf and logpdf lost precision near x
 = 1 when b is maximal

---
 mpsci/distributions/benktander1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 7b5e338..9b5b616 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -34,7 +34,7 @@ def pdf(x, a, b):
     if x < 1:
         return mp.zero
     blogx = b*mp.log(x)
-    c = (1 + 2*blogx/a)*(1 + a + 2*blogx) - 2*b/a
+    c = (a*(1 + a) - 2*b + 2*blogx*(1 + 2*a) + 4*blogx**2)/a
     return c * mp.power(x, -(2 + a + blogx))
 
 
@@ -50,7 +50,7 @@ def logpdf(x, a, b):
     if x < 1:
         return mp.ninf
     blogx = b*mp.log(x)
-    c = (1 + 2*blogx/a)*(1 + a + 2*blogx) - 2*b/a
+    c = (a*(1 + a) - 2*b + 2*blogx*(1 + 2*a) + 4*blogx**2)/a
     return mp.log(c) - (2 + a + blogx)*mp.log(x)
 
 
-- 
2.43.0


From de90f74e95eb91efc064bf56cbcf511a336aa93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:12 +0000
Subject: [PATCH 081/122] fix: betaprime.invcdf and invsf were inaccurate when
 the result is tiny

---
 mpsci/distributions/betaprime.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpsci/distributions/betaprime.py b/mpsci/distributions/betaprime.py
index f92d318..1c22182 100644
--- a/mpsci/distributions/betaprime.py
+++ b/mpsci/distributions/betaprime.py
@@ -161,9 +161,10 @@ def invcdf(p, a, b, scale):
     x0, x1 = _find_bracket(lambda x: cdf(x, a, b, scale), p, 0, mp.inf)
     if x0 == x1:
         return x0
-    x = mp.findroot(lambda x: cdf(x, a, b, scale) - p, x0=(x0, x1),
-                    solver='secant')
-    return x
+    # Solve for log(x), so the result has full relative accuracy.
+    logx = mp.findroot(lambda t: cdf(mp.exp(t), a, b, scale) - p,
+                       x0=(mp.log(x0), mp.log(x1)), solver='secant')
+    return mp.exp(logx)
 
 
 @mp.extradps(5)
@@ -181,9 +182,10 @@ def invsf(p, a, b, scale):
     x0, x1 = _find_bracket(lambda x: sf(x, a, b, scale), p, 0, mp.inf)
     if x0 == x1:
         return x0
-    x = mp.findroot(lambda x: sf(x, a, b, scale) - p, x0=(x0, x1),
-                    solver='secant')
-    return x
+    # Solve for log(x), so the result has full relative accuracy.
+    logx = mp.findroot(lambda t: sf(mp.exp(t), a, b, scale) - p,
+                       x0=(mp.log(x0), mp.log(x1)), solver='secant')
+    return mp.exp(logx)
 
 
 def support(a, b, scale):
-- 
2.43.0


From 350e21ca2e3cf6dbd0c981fa2a14ce79b1ce6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 082/122] fix: weighted mean multiplied Python floats in double
 precision

---
 mpsci/stats/_basic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 7d4d9c7..c69a9df 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -52,8 +52,7 @@ def mean(x, weights=None):
             return mp.fsum(x) / len(x)
         if mp.fsum(weights) == 0:
             raise ZeroDivisionError('sum(weights) must be nonzero.')
-        return (mp.fsum(t*w for t, w in zip(x, weights)) /
-                mp.fsum(weights))
+        return mp.fdot(x, weights) / mp.fsum(weights)
 
 
 def var(x, ddof=0):
-- 
2.43.0


From f8a726a2a64ef5a8a475522aeb8b061dbe3d72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 083/122] fix: gmean accepted weights of the wrong length

---
 mpsci/stats/_basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index c69a9df..43c478d 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -123,6 +123,8 @@ def gmean(x, *, weights=None):
                 return mp.zero
             return mp.exp(mean([mp.log(t) for t in x]))
         # Weighted geometric mean
+        if len(weights) != len(x):
+            raise ValueError('x and weights must have the same length.')
         wsum = mp.fsum(weights)
         if wsum == 0:
             raise ValueError('sum of weights must not be 0.')
-- 
2.43.0


From 3772375e7a68854544633403e7ed5c5c16226967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 084/122] fix: pmean lost precision for p close to 0

---
 mpsci/stats/_basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_basic.py b/mpsci/stats/_basic.py
index 43c478d..a926cb7 100644
--- a/mpsci/stats/_basic.py
+++ b/mpsci/stats/_basic.py
@@ -220,8 +220,10 @@ def pmean(x, *, p, weights=None):
                 return max(mp.mpf(t) for t in x)
             return min(mp.mpf(t) for t in x)
 
-    with mp.extraprec(16):
-        p = mp.mpf(p)
+    p = mp.mpf(p)
+    # If p is close to 0, the values x**p are close to 1, so work with enough
+    # extra bits to recover the mean after applying the power 1/p.
+    with mp.extraprec(16 + max(0, -mp.mag(p))):
         return mp.power(mean([mp.mpf(t)**p for t in x], weights=weights), 1/p)
 
 
-- 
2.43.0


From 9added2b2385dc6e8807df950a54240ca36d6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:00 +0000
Subject: [PATCH 085/122] fix: chisquare and gtest accepted sequences with
 different lengths

---
 mpsci/stats/_goftests.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/stats/_goftests.py b/mpsci/stats/_goftests.py
index 0188e78..5109414 100644
--- a/mpsci/stats/_goftests.py
+++ b/mpsci/stats/_goftests.py
@@ -18,6 +18,8 @@ def chisquare(observed, expected, sum_rel_tol=None):
         sum_rel_tol = 10*mp.eps
     observed = [mp.mpf(t) for t in observed]
     expected = [mp.mpf(t) for t in expected]
+    if len(observed) != len(expected):
+        raise ValueError('observed and expected must have the same length.')
     if not mp.almosteq(sum(observed), sum(expected),
                        rel_eps=sum_rel_tol, abs_eps=0):
         raise ValueError('sum(observed) differs from sum(expected)')
@@ -48,6 +50,8 @@ def gtest(observed, expected, sum_rel_tol=None):
         sum_rel_tol = 10*mp.eps
     observed = [mp.mpf(t) for t in observed]
     expected = [mp.mpf(t) for t in expected]
+    if len(observed) != len(expected):
+        raise ValueError('observed and expected must have the same length.')
     if not mp.almosteq(sum(observed), sum(expected),
                        rel_eps=sum_rel_tol, abs_eps=0):
         raise ValueError('sum(observed) differs from sum(expected)')
-- 
2.43.0


From 925413a1b751ebcd0a941df227f57390c565e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:30 +0000
Subject: [PATCH 086/122] fix: pearsonr truncated its input to double precision
 and could return a complex p-value

---
 mpsci/stats/_pearsonr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 9f42e81..753476a 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -53,8 +53,8 @@ def pearsonr(x, y, alternative='two-sided'):
     if len(x) == 2:
         return mp.sign(x[1] - x[0])*mp.sign(y[1] - y[0]), mp.one
 
-    x = [mp.mpf(float(t)) for t in x]
-    y = [mp.mpf(float(t)) for t in y]
+    x = [mp.mpf(t) for t in x]
+    y = [mp.mpf(t) for t in y]
 
     xmean = sum(x) / len(x)
     ymean = sum(y) / len(y)
@@ -64,10 +64,11 @@ def pearsonr(x, y, alternative='two-sided'):
 
     num = sum(s*t for s, t in zip(xm, ym))
     den = mp.sqrt(sum(t**2 for t in xm) * sum(t**2 for t in ym))
-    r = num / den
+    # Rounding errors must not put r outside the interval [-1, 1].
+    r = max(-mp.one, min(mp.one, num / den))
 
     n = len(x)
-    a = mp.mpf(float(n))/2 - 1
+    a = mp.mpf(n)/2 - 1
     if alternative == 'two-sided':
         p = 2*mp.betainc(a, a, x2=0.5*(1-abs(r)))/mp.beta(a, a)
     elif alternative == 'less':
-- 
2.43.0


From 6226e74f3fde1b70f2982616fec63fca0a4c4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:30 +0000
Subject: [PATCH 087/122] fix: pearsonr_ci lost precision for small alpha

---
 mpsci/stats/_pearsonr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpsci/stats/_pearsonr.py b/mpsci/stats/_pearsonr.py
index 753476a..94deb0f 100644
--- a/mpsci/stats/_pearsonr.py
+++ b/mpsci/stats/_pearsonr.py
@@ -125,19 +125,19 @@ def pearsonr_ci(r, n, alpha, alternative='two-sided'):
     alpha = mp.mpf(alpha)
     s = mp.sqrt(1/(n - 3))
     if alternative == 'two-sided':
-        h = normal.invcdf(1 - alpha/2)
+        h = normal.invsf(alpha/2)
         zlo = zr - h*s
         zhi = zr + h*s
         rlo = mp.tanh(zlo)
         rhi = mp.tanh(zhi)
     elif alternative == 'less':
-        h = normal.invcdf(1 - alpha)
+        h = normal.invsf(alpha)
         zhi = zr + h*s
         rhi = mp.tanh(zhi)
         rlo = -mp.one
     else:
         # alternative == 'greater'
-        h = normal.invcdf(1 - alpha)
+        h = normal.invsf(alpha)
         zlo = zr - h*s
         rlo = mp.tanh(zlo)
         rhi = mp.one
-- 
2.43.0


From dfd329e38f1fbf2af7e514d0e669eae81baf512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:30 +0000
Subject: [PATCH 088/122] fix: anova_oneway lost precision when the variance
 within the groups is small

---
 mpsci/stats/_anova.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpsci/stats/_anova.py b/mpsci/stats/_anova.py
index 036c052..eca092d 100644
--- a/mpsci/stats/_anova.py
+++ b/mpsci/stats/_anova.py
@@ -58,11 +58,11 @@ def anova_oneway(*args):
         grand_total += mp.fsum(group)
     grand_mean = grand_total / n
 
-    v = mp.fsum(mp.fsum((g - grand_mean)**2 for g in group)
-                for group in groups)
-    vb = mp.fsum(len(group)*(mean(group) - grand_mean)**2
-                    for group in groups)
-    vw = v - vb
+    group_means = [mean(group) for group in groups]
+    vb = mp.fsum(len(group)*(group_mean - grand_mean)**2
+                 for group, group_mean in zip(groups, group_means))
+    vw = mp.fsum(mp.fsum((x - group_mean)**2 for x in group)
+                 for group, group_mean in zip(groups, group_means))
     F = vb/(num_groups - 1) / (vw/(n - num_groups))
     dof_num = num_groups - 1
     dof_den = n - num_groups
-- 
2.43.0


From 87aca7c95bc82ca46bed7c477d14efb3176899a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:31 +0000
Subject: [PATCH 089/122] fix: sample odds ratio confidence interval lost
 precision at high confidence levels

---
 mpsci/stats/_odds_ratio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 1b8f096..ff9fd11 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -188,6 +188,7 @@ def _conditional_oddsratio_ci(table, confidence_level,
     return lower, upper
 
 
+@mp.extradps(5)
 def _sample_odds_ratio_ci(table, confidence_level,
                           alternative='two-sided'):
     confidence_level = mp.mpf(confidence_level)
-- 
2.43.0


From 5280f6d663875329e83f92163b8c36289e9bff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:31 +0000
Subject: [PATCH 090/122] fix: odds_ratio_ci never returned when the tail
 probability is 0 or 1

---
 mpsci/stats/_odds_ratio.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index ff9fd11..515ef16 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -102,8 +102,10 @@ def _ci_upper(table, alpha):
     """
     Compute the upper end of the confidence interval.
     """
-    if mp.isinf(_sample_odds_ratio(table)):
+    if mp.isinf(_sample_odds_ratio(table)) or alpha == 0:
         return mp.inf
+    if alpha == 1:
+        return mp.zero
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
 
@@ -117,8 +119,10 @@ def _ci_lower(table, alpha):
     """
     Compute the lower end of the confidence interval.
     """
-    if _sample_odds_ratio(table) == 0:
+    if _sample_odds_ratio(table) == 0 or alpha == 0:
         return mp.zero
+    if alpha == 1:
+        return mp.inf
 
     x, total, ngood, nsample = _hypergeom_params_from_table(table)
 
-- 
2.43.0


From 75aa086c2486fd8f12ace58ba87f7596da7fd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:15 +0000
Subject: [PATCH 091/122] fix: inv_boxcox and inv_boxcox1p lost precision when
 lmbda is small

---
 mpsci/stats/_boxcox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/stats/_boxcox.py b/mpsci/stats/_boxcox.py
index eeb33e2..98fdd10 100644
--- a/mpsci/stats/_boxcox.py
+++ b/mpsci/stats/_boxcox.py
@@ -80,6 +80,7 @@ boxcox1p._docstring_re_subs = [
 ]
 
 
+@mp.extradps(5)
 def inv_boxcox(y, lmbda):
     """
     Inverse with respect to x of ``boxcox(x, lmbda)``.
@@ -93,6 +94,7 @@ def inv_boxcox(y, lmbda):
     return inv_powm1(lmbda*y, lmbda)
 
 
+@mp.extradps(5)
 def inv_boxcox1p(y, lmbda):
     """
     Inverse with respect to x of ``boxcox1p(x, lmbda)``.
-- 
2.43.0


From 981b8a82fc890fc9713d894bb54df7313aeaee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:15 +0000
Subject: [PATCH 092/122] fix: boxcox_llf lost precision when lam is close to 0

---
 mpsci/stats/_boxcox_mle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpsci/stats/_boxcox_mle.py b/mpsci/stats/_boxcox_mle.py
index e310ab1..c3aa907 100644
--- a/mpsci/stats/_boxcox_mle.py
+++ b/mpsci/stats/_boxcox_mle.py
@@ -25,8 +25,10 @@ def boxcox_llf(lam, x):
     else:
         # Transform without the constant offset 1/lam.  The offset does
         # not effect the variance, and the subtraction of the offset can
-        # lead to loss of precision.
-        variance = var([t**lam / lam for t in x])
+        # lead to loss of precision.  When lam is close to 0, the values
+        # t**lam are close to 1, and extra precision is needed.
+        with mp.extraprec(max(0, -mp.mag(lam))):
+            variance = var([t**lam / lam for t in x])
 
     return (lam - 1) * sumlogdata - n/2 * mp.log(variance)
 
-- 
2.43.0


From b1a187c67ee77225733e9ae55e918400617d8273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 093/122] fix: marcumq and cmarcumq squared their float
 arguments in double precision

---
 mpsci/fun/_marcumq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/fun/_marcumq.py b/mpsci/fun/_marcumq.py
index 3ffadd5..58b74fa 100644
--- a/mpsci/fun/_marcumq.py
+++ b/mpsci/fun/_marcumq.py
@@ -40,6 +40,7 @@ def marcumq(m, a, b):
     mpf('0.07558718754263240906718640000640082605610073')
 
     """
+    m, a, b = mp.mpf(m), mp.mpf(a), mp.mpf(b)
     if a == 0:
         if m == 1:
             q = mp.exp(-b**2/2)
@@ -78,6 +79,7 @@ def cmarcumq(m, a, b):
 
     *See also:* :func:`marcumq`
     """
+    m, a, b = mp.mpf(m), mp.mpf(a), mp.mpf(b)
     if a == 0:
         if m == 1:
             q = -mp.expm1(-b**2/2)
-- 
2.43.0


From 9db7ee925712a1db7290cfd605b416dbbf5edda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 094/122] fix: logbinomial added 1 to float arguments in double
 precision

---
 mpsci/fun/_logbinomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/fun/_logbinomial.py b/mpsci/fun/_logbinomial.py
index 00e1276..9755f84 100644
--- a/mpsci/fun/_logbinomial.py
+++ b/mpsci/fun/_logbinomial.py
@@ -32,6 +32,8 @@ def logbinomial(n, k):
     if k > n:
         raise ValueError('k must not exceed n')
 
+    n = mp.mpf(n)
+    k = mp.mpf(k)
     return (mp.loggamma(n + 1)
             - mp.loggamma(k + 1)
             - mp.loggamma(mp.fsum([n + 1, -k])))
-- 
2.43.0


From 6697e70e9cfadc6bf38dfdb3d8aa26cd003db2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 095/122] fix: logsumexp subtracted floats in double precision,
 and was nan for infinite logs

---
 mpsci/fun/_logsumexp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/fun/_logsumexp.py b/mpsci/fun/_logsumexp.py
index e8fe211..9da464f 100644
--- a/mpsci/fun/_logsumexp.py
+++ b/mpsci/fun/_logsumexp.py
@@ -41,7 +41,11 @@ def logsumexp(logs, weights=None):
     >>> mp.log(mp.fsum([wi*mp.exp(xi) for xi, wi in zip(x, w)]))
     mpf('1.838387764326144472528490234')
     """
+    logs = [mp.mpf(t) for t in logs]
     log_max = max(logs)
+    if mp.isinf(log_max) and weights is None:
+        # All the exponentials are 0, or at least one of them is infinite.
+        return log_max
     exps = [mp.exp(t - log_max) for t in logs]
     if weights is None:
         result = mp.log(mp.fsum(exps)) + log_max
-- 
2.43.0


From 71d5973b5abd8758d7f71773bca3ccb19f562c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 096/122] fix: spherical Bessel functions had the wrong sign on
 the negative real axis, and failed at 0

---
 mpsci/fun/_spherical_bessel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpsci/fun/_spherical_bessel.py b/mpsci/fun/_spherical_bessel.py
index 451b90b..1847118 100644
--- a/mpsci/fun/_spherical_bessel.py
+++ b/mpsci/fun/_spherical_bessel.py
@@ -11,7 +11,9 @@ def spherical_besselj(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besselj(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
+    return mp.besselj(n + 0.5, z) * (mp.sqrt(mp.pi / 2) / mp.sqrt(z))
 
 
 @mp.extradps(5)
@@ -23,7 +25,7 @@ def spherical_bessely(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.bessely(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    return mp.bessely(n + 0.5, z) * (mp.sqrt(mp.pi / 2) / mp.sqrt(z))
 
 
 @mp.extradps(5)
@@ -35,7 +37,9 @@ def spherical_besseli(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besseli(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    if z == 0 and n >= 0:
+        return mp.one if n == 0 else mp.zero
+    return mp.besseli(n + 0.5, z) * (mp.sqrt(mp.pi / 2) / mp.sqrt(z))
 
 
 @mp.extradps(5)
@@ -47,4 +51,4 @@ def spherical_besselk(n, z):
     """
     n = mp.mpf(n)
     z = mpmath.mpmathify(z)
-    return mp.besselk(n + 0.5, z) * mp.sqrt(mp.pi / (2 * z))
+    return mp.besselk(n + 0.5, z) * (mp.sqrt(mp.pi / 2) / mp.sqrt(z))
-- 
2.43.0


From 569ab55e6a0db0c3395378d6f2fc6682c938bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:05 +0000
Subject: [PATCH 097/122] fix: debye lost precision for small x with method
 quad

---
 mpsci/fun/_debye.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/fun/_debye.py b/mpsci/fun/_debye.py
index 9ef7a59..f7d28b5 100644
--- a/mpsci/fun/_debye.py
+++ b/mpsci/fun/_debye.py
@@ -37,13 +37,14 @@ def debye(x, *, n, method='quad'):
     if method == 'quad':
 
         def integrand(t):
+            # The integrand after the change of variable t -> x*t.
             if t == 0:
                 if n == 1:
                     return mp.one
                 return mp.zero
-            return t**n / mp.expm1(t)
+            return t**n * x / mp.expm1(x*t)
 
-        return n*mp.quad(integrand, [0, x])/x**n
+        return n*mp.quad(integrand, [0, 1])
 
     # method == 'nsum'
 
-- 
2.43.0


From 863bb730fa53131a25335c1b54a91ae98f834c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 098/122] fix: multivariate_hypergeometric.pmf and logpmf were
 wrong or failed for points outside the support

---
 mpsci/distributions/multivariate_hypergeometric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 584c88d..790de80 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -84,6 +84,11 @@ def logpmf(point, colors, nsample):
     mpf('-2.121263036533174590973082873')
     """
     _validate_params(colors, nsample)
+    if len(point) != len(colors):
+        raise ValueError('point and colors must be the same length')
+    if (sum(point) != nsample
+            or any(k < 0 or k > color for color, k in zip(colors, point))):
+        return mp.ninf
     total = sum(colors)
     logdenom = logbinomial(total, nsample)
     lognumer = 0
-- 
2.43.0


From 3c10948464a9c549a09dc35d08de98b76bf452a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 099/122] fix: multivariate_hypergeometric accepted negative
 nsample

---
 mpsci/distributions/multivariate_hypergeometric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 790de80..398e2d5 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -17,6 +17,8 @@ _multivariate = True
 def _validate_params(colors, nsample):
     if any(color < 0 for color in colors):
         raise ValueError("all values in colors must be nonnegative.")
+    if nsample < 0:
+        raise ValueError("nsample must be nonnegative.")
     if nsample > sum(colors):
         raise ValueError("nsample must not exceed sum(colors).")
 
-- 
2.43.0


From 06444e908f32eeb2c2b846787f54269668f2d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:43 +0000
Subject: [PATCH 100/122] fix: multivariate_hypergeometric.cov divided by zero
 when sum(colors) is 1 and nsample is 0

---
 mpsci/distributions/multivariate_hypergeometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/multivariate_hypergeometric.py b/mpsci/distributions/multivariate_hypergeometric.py
index 398e2d5..fa1f0ab 100644
--- a/mpsci/distributions/multivariate_hypergeometric.py
+++ b/mpsci/distributions/multivariate_hypergeometric.py
@@ -204,7 +204,7 @@ def cov(colors, nsample):
     _validate_params(colors, nsample)
     n = len(colors)
     s = mp.fsum(colors)
-    if nsample == s:
+    if nsample == 0 or nsample == s:
         return [[mp.zero]*n for _ in range(n)]
     u = [k / s for k in colors]
     f = nsample * (s - nsample) / (s - 1)
-- 
2.43.0


From f458602197df4d3d888a82f6560f08dce77a3e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:15 +0000
Subject: [PATCH 101/122] fix: tukeylambda.cdf failed when the bisection hit
 the root exactly

---
 mpsci/distributions/tukeylambda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/tukeylambda.py b/mpsci/distributions/tukeylambda.py
index b816d79..1fa6ff9 100644
--- a/mpsci/distributions/tukeylambda.py
+++ b/mpsci/distributions/tukeylambda.py
@@ -130,6 +130,8 @@ def cdf(x, lam, loc=0, scale=1):
 
     pmin, pmax = _cdf_solver_bracket(z, lam)
     pmin, pmax = _refine_bracket(pmin, pmax, z, lam)
+    if pmin == pmax:
+        return pmin
 
     with mp.extradps((mp.dps + 1) // 2):
         p = findroot(lambda t: invcdf(t, lam) - z, [pmin, pmax],
-- 
2.43.0


From ae76a5c1f1f12e9c1c1bcab1043d866d6891eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:35 +0000
Subject: [PATCH 102/122] fix: odds ratio root finding stopped before
 convergence at high precision

---
 mpsci/stats/_odds_ratio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/stats/_odds_ratio.py b/mpsci/stats/_odds_ratio.py
index 515ef16..4f622f9 100644
--- a/mpsci/stats/_odds_ratio.py
+++ b/mpsci/stats/_odds_ratio.py
@@ -75,7 +75,7 @@ def _solve(func):
         hi = nc
 
     # lo and hi bracket the solution for nc.
-    nc = mp.findroot(func, (lo, hi), solver='illinois')
+    nc = mp.findroot(func, (lo, hi), solver='illinois', maxsteps=mp.prec)
     return nc
 
 
-- 
2.43.0


From 36c4f80da6757740a4da2fecd19640a6924d68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 103/122] fix: gumbel_max.mle and gumbel_min.mle were wrong for
 data far from zero

---
 mpsci/distributions/gumbel_max.py | 19 ++++++++++++-------
 mpsci/distributions/gumbel_min.py | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/mpsci/distributions/gumbel_max.py b/mpsci/distributions/gumbel_max.py
index 57288a4..5dc1908 100644
--- a/mpsci/distributions/gumbel_max.py
+++ b/mpsci/distributions/gumbel_max.py
@@ -153,18 +153,23 @@ def _mle_scale_func(scale, x, xbar):
 
 
 def _solve_mle_scale(x):
-    xbar = stats.mean(x)
-
     # Very rough guess of the scale parameter:
     s0 = stats.std(x)
     if s0 == 0:
         # The x values are all the same.
         return s0
 
+    # The estimate of the scale does not depend on the location of the data,
+    # and it is proportional to the spread of the data.  Standardize the data
+    # so the exponentials in _mle_scale_func can not underflow or overflow.
+    x0 = min(x)
+    x = [(xi - x0) / s0 for xi in x]
+    xbar = stats.mean(x)
+
     # Find an interval in which there is a sign change of
     # _mle_scale_func.
-    s1 = s0
-    s2 = s0
+    s1 = mp.one
+    s2 = mp.one
     sign2 = mp.sign(_mle_scale_func(s2, x, xbar))
     while True:
         s1 = 0.9*s1
@@ -179,14 +184,14 @@ def _solve_mle_scale(x):
     # Did we stumble across the root while looking for an interval
     # with a sign change?  Not likely, but check anyway...
     if sign1 == 0:
-        return s1
+        return s0*s1
     if sign2 == 0:
-        return s2
+        return s0*s2
 
     root = mp.findroot(lambda t: _mle_scale_func(t, x, xbar),
                        [s1, s2], solver='anderson')
 
-    return root
+    return s0*root
 
 
 def _mle_scale_with_fixed_loc(scale, x, loc):
diff --git a/mpsci/distributions/gumbel_min.py b/mpsci/distributions/gumbel_min.py
index 6df97bf..664cb90 100644
--- a/mpsci/distributions/gumbel_min.py
+++ b/mpsci/distributions/gumbel_min.py
@@ -144,18 +144,23 @@ def _mle_scale_func(scale, x, xbar):
 
 
 def _solve_mle_scale(x):
-    xbar = stats.mean(x)
-
     # Very rough guess of the scale parameter:
     s0 = stats.std(x)
     if s0 == 0:
         # The x values are all the same.
         return s0
 
+    # The estimate of the scale does not depend on the location of the data,
+    # and it is proportional to the spread of the data.  Standardize the data
+    # so the exponentials in _mle_scale_func can not underflow or overflow.
+    x0 = max(x)
+    x = [(xi - x0) / s0 for xi in x]
+    xbar = stats.mean(x)
+
     # Find an interval in which there is a sign change of
     # _mle_scale_func.
-    s1 = s0
-    s2 = s0
+    s1 = mp.one
+    s2 = mp.one
     sign2 = mp.sign(_mle_scale_func(s2, x, xbar))
     while True:
         s1 = 0.9*s1
@@ -170,14 +175,14 @@ def _solve_mle_scale(x):
     # Did we stumble across the root while looking for an interval
     # with a sign change?  Not likely, but check anyway...
     if sign1 == 0:
-        return s1
+        return s0*s1
     if sign2 == 0:
-        return s2
+        return s0*s2
 
     root = mp.findroot(lambda t: _mle_scale_func(t, x, xbar),
                        [s1, s2], solver='anderson')
 
-    return root
+    return s0*root
 
 
 def _mle_scale_with_fixed_loc(scale, x, loc):
-- 
2.43.0


From 8207f85c047b011f5d391e78624829083e8ac032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 104/122] fix: exponweib.noncentral_moment was garbage for
 large a

---
 mpsci/distributions/exponweib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpsci/distributions/exponweib.py b/mpsci/distributions/exponweib.py
index 5be5483..8eb4b6f 100644
--- a/mpsci/distributions/exponweib.py
+++ b/mpsci/distributions/exponweib.py
@@ -172,7 +172,10 @@ def noncentral_moment(k, a, c, scale=1):
           Weibull Distribution". Metrika. 62 (1): 17-22. doi:10.1007/s001840400351
     """
     a, c, scale = _validate_params(a, c, scale)
-    s = mp.nsum(lambda i: _term(i, k, a, c), [1, mp.inf], steps=[100, 10], method='l')
+    # The signs of the terms alternate, and the largest term is of the order
+    # of 2**a, so about a bits are lost in the summation.
+    with mp.extraprec(int(a)):
+        s = mp.nsum(lambda i: _term(i, k, a, c), [1, mp.inf], steps=[100, 10], method='l')
     return a * mp.power(scale, k) * mp.gamma(k/c + 1) * (1 + s)
 
 
-- 
2.43.0


From 73c20fdbc9d705fcafd308d3365cee7ead7f91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 105/122] fix: gompertz.var was garbage for large c

---
 mpsci/distributions/gompertz.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpsci/distributions/gompertz.py b/mpsci/distributions/gompertz.py
index 70e318e..3157907 100644
--- a/mpsci/distributions/gompertz.py
+++ b/mpsci/distributions/gompertz.py
@@ -177,11 +177,14 @@ def var(c, scale):
     article https://en.wikipedia.org/wiki/Gompertz_distribution.
     """
     c, scale = _validate_c_scale(c, scale)
-    lnc = mp.log(c)
-    expc = mp.exp(c)
-    return scale**2 * expc * (-2*c*mp.hyper([1, 1, 1], [2, 2, 2],-c) + mp.euler**2
-                              + mp.pi**2/6 + 2*mp.euler*lnc + lnc**2
-                              - expc*mp.e1(c)**2)
+    # The sum in the following expression is of the order of exp(-c), so about
+    # c/log(2) bits are lost to cancellation.
+    with mp.extraprec(int(1.5*c) + 10):
+        lnc = mp.log(c)
+        expc = mp.exp(c)
+        return scale**2 * expc * (-2*c*mp.hyper([1, 1, 1], [2, 2, 2],-c) + mp.euler**2
+                                  + mp.pi**2/6 + 2*mp.euler*lnc + lnc**2
+                                  - expc*mp.e1(c)**2)
 
 
 @mp.extradps(5)
-- 
2.43.0


From c54cb71ccb1b8eda37748d68669b234984490a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 106/122] fix: genextreme moments lost all precision for xi
 near 0

---
 mpsci/distributions/genextreme.py | 53 +++++++++++++++++++------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index ec394e8..abebaac 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -194,6 +194,12 @@ def support(xi, mu=0, sigma=1):
     return (mp.ninf, mp.inf)
 
 
+def _cancellation_bits(n, xi):
+    # The n-th moment is a sum of terms of order 1 divided by xi**n.  When xi
+    # is small, the terms cancel and about -n*log2(abs(xi)) bits are lost.
+    return max(0, -n*mp.mag(xi)) if xi != 0 else 0
+
+
 @mp.extradps(5)
 def mean(xi, mu=0, sigma=1):
     """
@@ -203,8 +209,9 @@ def mean(xi, mu=0, sigma=1):
     if xi == 0:
         return mu + sigma * mp.euler
     elif xi < 1:
-        g1 = mp.gamma(mp.one - xi)
-        return mu + sigma * (g1 - mp.one)/xi
+        with mp.extraprec(_cancellation_bits(1, xi)):
+            g1 = mp.gamma(mp.one - xi)
+            return mu + sigma * (g1 - mp.one)/xi
     else:
         return mp.inf
 
@@ -238,9 +245,10 @@ def var(xi, mu=0, sigma=1):
     if xi == 0:
         return sigma**2 * mp.pi**2 / 6
     elif 2*xi < 1:
-        g1 = mp.gamma(mp.one - xi)
-        g2 = mp.gamma(mp.one - 2*xi)
-        return sigma**2 * (g2 - g1**2) / xi**2
+        with mp.extraprec(_cancellation_bits(2, xi)):
+            g1 = mp.gamma(mp.one - xi)
+            g2 = mp.gamma(mp.one - 2*xi)
+            return sigma**2 * (g2 - g1**2) / xi**2
     else:
         return mp.inf
 
@@ -254,12 +262,13 @@ def skewness(xi, mu=0, sigma=1):
     if xi == 0:
         return 12*mp.sqrt(6)*mp.zeta(3) / mp.pi**3
     elif 3*xi < 1:
-        g1 = mp.gamma(mp.one - xi)
-        g2 = mp.gamma(mp.one - 2*xi)
-        g3 = mp.gamma(mp.one - 3*xi)
-        num = g3 - 3*g2*g1 + 2*g1**3
-        den = mp.power(g2 - g1**2, 1.5)
-        return mp.sign(xi)*num/den
+        with mp.extraprec(_cancellation_bits(3, xi)):
+            g1 = mp.gamma(mp.one - xi)
+            g2 = mp.gamma(mp.one - 2*xi)
+            g3 = mp.gamma(mp.one - 3*xi)
+            num = g3 - 3*g2*g1 + 2*g1**3
+            den = mp.power(g2 - g1**2, 1.5)
+            return mp.sign(xi)*num/den
     else:
         return mp.inf
 
@@ -273,13 +282,14 @@ def kurtosis(xi, mu=0, sigma=1):
     if xi == 0:
         return mp.mpf(12)/5
     elif 4*xi < 1:
-        g1 = mp.gamma(mp.one - xi)
-        g2 = mp.gamma(mp.one - 2*xi)
-        g3 = mp.gamma(mp.one - 3*xi)
-        g4 = mp.gamma(mp.one - 4*xi)
-        num = g4 - 4*g3*g1 - 3*g2**2 + 12*g2*g1**2 - 6*g1**4
-        den = (g2 - g1**2)**2
-        return num/den
+        with mp.extraprec(_cancellation_bits(4, xi)):
+            g1 = mp.gamma(mp.one - xi)
+            g2 = mp.gamma(mp.one - 2*xi)
+            g3 = mp.gamma(mp.one - 3*xi)
+            g4 = mp.gamma(mp.one - 4*xi)
+            num = g4 - 4*g3*g1 - 3*g2**2 + 12*g2*g1**2 - 6*g1**4
+            den = (g2 - g1**2)**2
+            return num/den
     else:
         return mp.inf
 
@@ -298,9 +308,10 @@ def _standard_noncentral_moment(n, xi):
     if n == 0:
         return mp.one
     if xi < mp.one/n:
-        v = [mp.binomial(n, k) * (-1)**k * mp.gamma(1 - xi*k)
-             for k in range(n+1)]
-        return mp.fsum(v)/(-xi)**n
+        with mp.extraprec(_cancellation_bits(n, xi)):
+            v = [mp.binomial(n, k) * (-1)**k * mp.gamma(1 - xi*k)
+                 for k in range(n+1)]
+            return mp.fsum(v)/(-xi)**n
     else:
         return mp.nan
 
-- 
2.43.0


From eb1a5b1ce1912c0ce71a6c2597a1de5d0990460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 107/122] fix: genextreme.noncentral_moment divided by zero
 when xi is 0

---
 mpsci/distributions/genextreme.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mpsci/distributions/genextreme.py b/mpsci/distributions/genextreme.py
index abebaac..e692a46 100644
--- a/mpsci/distributions/genextreme.py
+++ b/mpsci/distributions/genextreme.py
@@ -307,6 +307,16 @@ def entropy(xi, mu=0, sigma=1):
 def _standard_noncentral_moment(n, xi):
     if n == 0:
         return mp.one
+    if xi == 0:
+        # Gumbel distribution: compute the moments from the cumulants, which
+        # are euler, zeta(2), 2!*zeta(3), 3!*zeta(4), ...
+        kappa = [mp.euler] + [mp.factorial(k - 1) * mp.zeta(k)
+                              for k in range(2, n + 1)]
+        m = [mp.one]
+        for i in range(1, n + 1):
+            m.append(mp.fsum([mp.binomial(i - 1, k - 1) * kappa[k - 1] * m[i - k]
+                              for k in range(1, i + 1)]))
+        return m[n]
     if xi < mp.one/n:
         with mp.extraprec(_cancellation_bits(n, xi)):
             v = [mp.binomial(n, k) * (-1)**k * mp.gamma(1 - xi*k)
-- 
2.43.0


From 8d63cce3c5d8348e6df316f7a3d6f92932514cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 108/122] fix: gamma.mle accepted fixed parameters that are not
 positive

---
 mpsci/distributions/gamma.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mpsci/distributions/gamma.py b/mpsci/distributions/gamma.py
index 5d96436..21aad0c 100644
--- a/mpsci/distributions/gamma.py
+++ b/mpsci/distributions/gamma.py
@@ -287,18 +287,17 @@ def mle(x, *, k=None, scale=None):
             scale_hat = meanx / k_hat
         else:
             # scale is fixed, only solve for k
-            scale = mp.mpf(scale)
+            _, scale = _validate_k_scale(1, scale)
             k_hat = digammainv(meanlnx - mp.log(scale))
             scale_hat = scale
     else:
         if scale is None:
             # Solve for scale, k is fixed.
-            k_hat = mp.mpf(k)
+            k_hat, _ = _validate_k_scale(k, 1)
             scale_hat = meanx / k_hat
         else:
             # Both k and scale are fixed.
-            k_hat = mp.mpf(k)
-            scale_hat = mp.mpf(scale)
+            k_hat, scale_hat = _validate_k_scale(k, scale)
 
     return k_hat, scale_hat
 
-- 
2.43.0


From 3fdeaca576f3852b3412f67d92727b13d99c7cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 109/122] fix: gumbel_max.mle accepted a fixed scale that is
 not positive

---
 mpsci/distributions/gumbel_max.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/gumbel_max.py b/mpsci/distributions/gumbel_max.py
index 5dc1908..52fb295 100644
--- a/mpsci/distributions/gumbel_max.py
+++ b/mpsci/distributions/gumbel_max.py
@@ -251,7 +251,7 @@ def mle(x, *, loc=None, scale=None):
     if scale is None:
         scale = _solve_mle_scale(x)
     else:
-        scale = mp.mpf(scale)
+        _, scale = _validate_loc_scale(0, scale)
 
     if loc is None:
         ex = [mp.exp(-xi / scale) for xi in x]
-- 
2.43.0


From 65fe8707c2ccc2dd473619822359c3daa8af9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 110/122] fix: gumbel_min.mle accepted a fixed scale that is
 not positive

---
 mpsci/distributions/gumbel_min.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpsci/distributions/gumbel_min.py b/mpsci/distributions/gumbel_min.py
index 664cb90..87a8a3b 100644
--- a/mpsci/distributions/gumbel_min.py
+++ b/mpsci/distributions/gumbel_min.py
@@ -242,7 +242,7 @@ def mle(x, *, loc=None, scale=None):
     if scale is None:
         scale = _solve_mle_scale(x)
     else:
-        scale = mp.mpf(scale)
+        _, scale = _validate_loc_scale(0, scale)
 
     if loc is None:
         ex = [mp.exp(xi / scale) for xi in x]
-- 
2.43.0


From 8bf468bca4ba3e1bff1ff4131e03f6d0366140c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 111/122] fix: nakagami.mle accepted fixed parameters that are
 not positive

---
 mpsci/distributions/nakagami.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/nakagami.py b/mpsci/distributions/nakagami.py
index 9e70fd4..719b4c5 100644
--- a/mpsci/distributions/nakagami.py
+++ b/mpsci/distributions/nakagami.py
@@ -248,6 +248,9 @@ def mle(x, *, nu=None, loc=None, scale=None):
 
     Currently a fixed loc *must* be given.
     """
+    _validate_params(1 if nu is None else nu, 0 if loc is None else loc,
+                     1 if scale is None else scale)
+
     if nu is not None and loc is not None and scale is not None:
         # Nothing to do.
         return nu, loc, scale
-- 
2.43.0


From ad86bab0141ff78ed6c6556bd11aec394144d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 112/122] fix: poisson.mle accepted observations that are not
 integers

---
 mpsci/distributions/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/poisson.py b/mpsci/distributions/poisson.py
index 41d42d4..f9839aa 100644
--- a/mpsci/distributions/poisson.py
+++ b/mpsci/distributions/poisson.py
@@ -173,5 +173,7 @@ def mle(x, *, counts=None):
     Returns lambda, the estimated parameter of the Poisson distribution.
     """
     x = _validate_x_bounds(x, low=0, high=None, strict_low=False)
+    if not all([mp.isint(t) for t in x]):
+        raise ValueError('all values in x must be nonnegative integers')
     counts = _validate_counts(x, counts, expand_none=False)
     return _fmean(x, weights=counts)
-- 
2.43.0


From 49cabb69a01bd3332b6d787796c5fcc0c8f80fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 113/122] fix: beta.interval_prob lost precision for intervals
 in the upper tail

---
 mpsci/distributions/beta.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpsci/distributions/beta.py b/mpsci/distributions/beta.py
index 63f294b..eead7b3 100644
--- a/mpsci/distributions/beta.py
+++ b/mpsci/distributions/beta.py
@@ -103,6 +103,11 @@ def interval_prob(x1, x2, a, b):
         raise ValueError('x1 must not be greater than x2')
     x1 = min(max(x1, mp.zero), mp.one)
     x2 = min(max(x2, mp.zero), mp.one)
+    if x1 > a/(a + b):
+        # Subtracting two CDF values that are close to 1 would lose precision;
+        # use the reflected interval.
+        with mp.extraprec(max(0, -mp.mag(x1))):
+            return mp.betainc(b, a, 1 - x2, 1 - x1, regularized=True)
     return mp.betainc(a, b, x1, x2, regularized=True)
 
 
-- 
2.43.0


From 61a2c2c9a3a8bee9dd9aeaa0abddea78cbc7c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 114/122] fix: benktander1.cdf and benktander1.sf were nan at
 infinity

---
 mpsci/distributions/benktander1.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/benktander1.py b/mpsci/distributions/benktander1.py
index 9b5b616..eeb2dca 100644
--- a/mpsci/distributions/benktander1.py
+++ b/mpsci/distributions/benktander1.py
@@ -65,6 +65,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if mp.isinf(x):
+        return mp.one
     blogx = b*mp.log(x)
     return 1 - (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
@@ -80,6 +82,8 @@ def sf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.one
+    if mp.isinf(x):
+        return mp.zero
     blogx = b*mp.log(x)
     return (1 + 2*blogx/a)*mp.power(x, -(a + 1 + blogx))
 
-- 
2.43.0


From 1448f87dcbc50875d9fee531c8d30c87511e50f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 115/122] fix: benktander2.cdf was nan at infinity

---
 mpsci/distributions/benktander2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/benktander2.py b/mpsci/distributions/benktander2.py
index e90827c..977a67d 100644
--- a/mpsci/distributions/benktander2.py
+++ b/mpsci/distributions/benktander2.py
@@ -64,6 +64,8 @@ def cdf(x, a, b):
     x = mp.mpf(x)
     if x < 1:
         return mp.zero
+    if mp.isinf(x):
+        return mp.one
     p = (b - 1)*mp.log(x) + a/b*-mp.powm1(x, b)
     return -mp.expm1(p)
 
-- 
2.43.0


From 72deb14680e87af7662f48122f1703145a73687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 116/122] fix: invgauss distribution functions were nan at
 infinity

---
 mpsci/distributions/invgauss.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpsci/distributions/invgauss.py b/mpsci/distributions/invgauss.py
index acd1a08..cb36f80 100644
--- a/mpsci/distributions/invgauss.py
+++ b/mpsci/distributions/invgauss.py
@@ -96,6 +96,8 @@ def cdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if mp.isinf(x):
+        return mp.one
     z = (x - loc)/scale
     t1 = mp.ncdf((z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -111,6 +113,8 @@ def logcdf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.ninf
+    if mp.isinf(x):
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf((z/m - 1)/mp.sqrt(z)))
     t2 = (2/m) + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
@@ -149,6 +153,8 @@ def sf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.one
+    if mp.isinf(x):
+        return mp.zero
     z = (x - loc)/scale
     t1 = mp.ncdf(-(z/m - 1)/mp.sqrt(z))
     t2 = mp.exp(2/m)*mp.ncdf(-(z/m + 1)/mp.sqrt(z))
@@ -164,6 +170,8 @@ def logsf(x, m, loc=0, scale=1):
     x = mp.mpf(x)
     if x <= loc:
         return mp.zero
+    if mp.isinf(x):
+        return mp.ninf
     z = (x - loc)/scale
     t1 = mp.log(mp.ncdf(-(z/m - 1)/mp.sqrt(z)))
     t2 = 2/m + mp.log(mp.ncdf(-(z/m + 1)/mp.sqrt(z)))
-- 
2.43.0


From 60eb1de8fee9fe5758843244abb66fd593d77541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 117/122] fix: ncf.cdf was nan at infinity

---
 mpsci/distributions/ncf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/ncf.py b/mpsci/distributions/ncf.py
index d25e6c3..da86e4d 100644
--- a/mpsci/distributions/ncf.py
+++ b/mpsci/distributions/ncf.py
@@ -72,6 +72,8 @@ def cdf(x, dfn, dfd, nc):
         return _cdf_term(k, x, dfn, dfd, nc)
 
     x = mp.mpf(x)
+    if mp.isinf(x):
+        return mp.one
     dfn = mp.mpf(dfn)
     dfd = mp.mpf(dfd)
     nc = mp.mpf(nc)
-- 
2.43.0


From 081f88460b917ee1ccf66c9bb920d28b02b95c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:19 +0000
Subject: [PATCH 118/122] fix: genhyperbolic.cdf and genhyperbolic.sf hung at
 infinity

---
 mpsci/distributions/genhyperbolic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpsci/distributions/genhyperbolic.py b/mpsci/distributions/genhyperbolic.py
index 85c74b1..ff128ec 100644
--- a/mpsci/distributions/genhyperbolic.py
+++ b/mpsci/distributions/genhyperbolic.py
@@ -82,6 +82,8 @@ def cdf(x, p, a, b, loc=0, scale=1):
     """
     p, a, b, loc, scale = _validate_params(p, a, b, loc, scale)
     x = mp.mpf(x)
+    if mp.isinf(x):
+        return mp.one if x > 0 else mp.zero
     return _integrate_pdf(-mp.inf, x, p, a, b, loc, scale)
 
 
@@ -95,6 +97,8 @@ def sf(x, p, a, b, loc=0, scale=1):
     """
     p, a, b, loc, scale = _validate_params(p, a, b, loc, scale)
     x = mp.mpf(x)
+    if mp.isinf(x):
+        return mp.one if x < 0 else mp.zero
     return _integrate_pdf(x, mp.inf, p, a, b, loc, scale)
 
 
-- 
2.43.0


From e9639a9f456a28ffbd3982670a5615334a3d9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 119/122] fix: power_normal.invcdf lost precision for small p

---
 mpsci/distributions/power_normal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpsci/distributions/power_normal.py b/mpsci/distributions/power_normal.py
index 69153e3..95798bd 100644
--- a/mpsci/distributions/power_normal.py
+++ b/mpsci/distributions/power_normal.py
@@ -69,6 +69,9 @@ def invcdf(p, c, loc=0, scale=1):
     """
     c, loc, scale = _validate_params(c, loc, scale)
     p = _validate_p(p)
+    if p < 0.5:
+        q = -mp.expm1(mp.log1p(-p)/c)
+        return loc - scale*normal.invsf(q)
     return loc - scale*normal.invcdf(mp.power(mp.one - p, mp.one/c))
 
 
-- 
2.43.0


From 81aa33b4e3339320516a207c4d3af6bf5b3f2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 120/122] fix: power_normal.cdf lost precision in the left tail

---
 mpsci/distributions/power_normal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpsci/distributions/power_normal.py b/mpsci/distributions/power_normal.py
index 95798bd..96f139d 100644
--- a/mpsci/distributions/power_normal.py
+++ b/mpsci/distributions/power_normal.py
@@ -57,6 +57,8 @@ def cdf(x, c, loc=0, scale=1):
     c, loc, scale = _validate_params(c, loc, scale)
     x = mp.mpf(x)
     z = (x - loc)/scale
+    if z < 0:
+        return -mp.expm1(c*mp.log1p(-mp.ncdf(z)))
     return -mp.expm1(c*mp.log(mp.ncdf(-z)))
 
 
-- 
2.43.0


From c1deceeeec7f85ff5a0833b0d82ff3a0f54e30eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 121/122] fix: truncnorm.invsf lost precision in the right tail
 when a <= 0

---
 mpsci/distributions/truncnorm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpsci/distributions/truncnorm.py b/mpsci/distributions/truncnorm.py
index c8ea49d..5c05ab3 100644
--- a/mpsci/distributions/truncnorm.py
+++ b/mpsci/distributions/truncnorm.py
@@ -131,9 +131,10 @@ def invsf(p, a, b):
         return b
     if p == 1:
         return a
-    if a > 0:
+    q = mp.ncdf(-b) + p*_norm_delta_cdf(a, b)
+    if a > 0 or q < 0.5:
         # Work with the survival function to avoid loss of precision.
-        x = normal.invsf(mp.ncdf(-b) + p*_norm_delta_cdf(a, b))
+        x = normal.invsf(q)
     else:
         x = normal.invcdf(-p*_norm_delta_cdf(a, b) + mp.ncdf(b))
     return min(max(x, a), b)
-- 
2.43.0


From e9af6d6d9c3536294693e7cc00d3344965183582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 122/122] fix: genexpon.invcdf and invsf lost precision near
 loc

---
 mpsci/distributions/genexpon.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mpsci/distributions/genexpon.py b/mpsci/distributions/genexpon.py
index 6966499..5d81bb6 100644
--- a/mpsci/distributions/genexpon.py
+++ b/mpsci/distributions/genexpon.py
@@ -83,6 +83,21 @@ def sf(x, a, b, c, loc=0, scale=1):
     return mp.exp(-s*z + r*(-mp.expm1(-c*z)))
 
 
+def _solve_cumhazard(y, a, b, c):
+    """
+    Find x such that the cumulative hazard function at x is (a + b)*y.
+    """
+    r = b/(a + b)
+    # x is at least y; the terms that are added below have the size of r/c,
+    # and the Lambert W function is evaluated near its branch point when a
+    # is small.
+    bits = max(0, 2*(mp.mag(r/c) - mp.mag(y)))
+    with mp.extraprec(bits):
+        r = b/(a + b)
+        s = r/c + y
+        return s + mp.lambertw(-r*mp.exp(-s*c))/c
+
+
 @mp.extradps(5)
 def invcdf(p, a, b, c, loc=0, scale=1):
     """
@@ -94,10 +109,7 @@ def invcdf(p, a, b, c, loc=0, scale=1):
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
     if p == 0:
         return loc
-    r = b/(a + b)
-    s = r/c - mp.log1p(-p)/(a + b)
-    x = s + mp.lambertw(-r*mp.exp(-s*c))/c
-    return loc + scale*x
+    return loc + scale*_solve_cumhazard(-mp.log1p(-p)/(a + b), a, b, c)
 
 
 @mp.extradps(5)
@@ -109,10 +121,7 @@ def invsf(p, a, b, c, loc=0, scale=1):
     a, b, c, loc, scale = _validate_params(a, b, c, loc, scale)
     if p == 1:
         return loc
-    r = b/(a + b)
-    s = r/c - mp.log(p)/(a + b)
-    x = s + mp.lambertw(-r*mp.exp(-s*c))/c
-    return loc + scale*x
+    return loc + scale*_solve_cumhazard(-mp.log(p)/(a + b), a, b, c)
 
 
 def support(a, b, c, loc=0, scale=1):
-- 
2.43.0

