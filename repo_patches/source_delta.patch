From e716d52182505bd0c8611d680acc458a2775e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 01/52] fix: natural boundary condition at the right end of
 NaturalCubicUnivariateSpline

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index aab3c38..055cf53 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -28,7 +28,7 @@ class NaturalCubicUnivariateSpline(object):
             assert n_data > 3, "Not enough input points for cubic spline."
             zero = jnp.array([0.0])
             one = jnp.array([1.0])
-            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, (-one), zero
+            A00, A01, A02, ANN, AN1, AN2 = one, zero, zero, one, zero, zero
             A = jnp.diag(jnp.concatenate((A00, 2 * (h[:-1] + h[1:]), ANN)))
             upper_diag1 = jnp.diag(jnp.concatenate((A01, h[1:])), k=1)
             upper_diag2 = jnp.diag(jnp.concatenate((A02, jnp.zeros(n_data - 3))), k=2)
-- 
2.43.0


From da6280bfbc801502bf5bb923e90faf8377011b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 02/52] fix: NaturalCubicUnivariateSpline pytree
 flatten/unflatten signatures

---
 gwinferno/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 055cf53..c108e66 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -43,10 +43,10 @@ class NaturalCubicUnivariateSpline(object):
 
     def tree_flatten(self):
         children = (self._x, self._y, self._coefficients)
-        return children
+        return children, None
 
     @classmethod
-    def tree_unflatten(cls, children):
+    def tree_unflatten(cls, aux_data, children):
         x, y, coefs = children
         return cls(x, y, coefs)
 
-- 
2.43.0


From 11d55f26fd6f61ffea6094739e5b86b6c9c5934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 03/52] fix: use the interior_knots given to the basis splines
 instead of uniform ones

---
 gwinferno/interpolation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index c108e66..618cc9c 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -98,8 +98,19 @@ class BasisSpline(object):
         if knots is None:
             if interior_knots is None:
                 interior_knots = np.linspace(xrange[0], xrange[1], n_df - k + 2)
-            dx = interior_knots[1] - interior_knots[0]
-            knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+                dx = interior_knots[1] - interior_knots[0]
+                knots = jnp.linspace(xrange[0] - dx * (k - 1), xrange[1] + dx * (k - 1), len(interior_knots) + (k - 1) * 2)
+            else:
+                interior_knots = np.asarray(interior_knots)
+                dx_low = interior_knots[1] - interior_knots[0]
+                dx_high = interior_knots[-1] - interior_knots[-2]
+                knots = np.concatenate(
+                    [
+                        interior_knots[0] - dx_low * np.arange(1, k)[::-1],
+                        interior_knots,
+                        interior_knots[-1] + dx_high * np.arange(1, k),
+                    ]
+                )
 
         self.knots = knots
         self.interior_knots = interior_knots
-- 
2.43.0


From 9bdf8904f9ca7773894572bc5a5f0c1b78ccb49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 04/52] fix: RectBivariateBasisSpline crash, component ordering
 and normalization axes

---
 gwinferno/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 618cc9c..7757fe0 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -510,7 +510,7 @@ class RectBivariateBasisSpline(object):
         Returns:
             float: the normalization factor given the coefficients
         """
-        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridy), self.gridx) if self.normalize else 1.0
+        n = 1.0 / trapezoid(trapezoid(self._project(self.grid_bases, coefs), self.gridx), self.gridy) if self.normalize else 1.0
         return n
 
     def _reset_bases(self):
@@ -530,10 +530,10 @@ class RectBivariateBasisSpline(object):
         """
         self.x_bases = self.x_interpolator.bases(xs)
         self.y_bases = self.y_interpolator.bases(ys)
-        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for i in range(self.xdf)] for j in range(self.ydf)]).reshape(
+        out = jnp.array([[self.x_bases[i] * self.y_bases[j] for j in range(self.ydf)] for i in range(self.xdf)]).reshape(
             self.xdf, self.ydf, *xs.shape
         )
-        self.reset_bases()
+        self._reset_bases()
         return out
 
     def _project(self, bases, coefs):
-- 
2.43.0


From 55197883a028de72f30384e6a3110b694cbaeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 05/52] fix: smoothing window applied only inside [xmin, xmin +
 dx)

---
 gwinferno/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 40db691..f89782b 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -17,7 +17,7 @@ def smooth(dx, x, xmin):
 
     func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
     s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) | jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
     return s2
 
 
-- 
2.43.0


From d4629d5c780c90d8766d564bdcc9901e9c6289ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 06/52] fix: betadist NaN at the edges of its support when
 alpha or beta is 1

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index f89782b..86558c3 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import xlogy
 
 """
 =============================================
@@ -157,6 +158,6 @@ def betadist(xx, alpha, beta, scale=1.0, floor=0.0):
     Returns:
         array_like: pdf evaluated at xx
     """
-    ln_beta = (alpha - 1) * jnp.log(xx) + (beta - 1) * jnp.log(scale - xx) - (alpha + beta - 1) * jnp.log(scale)
+    ln_beta = xlogy(alpha - 1, xx) + xlogy(beta - 1, scale - xx) - (alpha + beta - 1) * jnp.log(scale)
     ln_beta = ln_beta - betaln(alpha, beta)
     return jnp.where(jnp.less_equal(xx, scale) & jnp.greater_equal(xx, 0), jnp.exp(ln_beta), floor)
-- 
2.43.0


From 7b880a994ea18d37a1c40e100d0ac51120058d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 07/52] fix: Sine and Cosine densities respect their minimum
 and maximum

---
 gwinferno/numpyro_distributions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 7b8a99a..6821e61 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -47,8 +47,9 @@ class Sine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.sin(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.sin(value) / (jnp.cos(self.minimum) - jnp.cos(self.maximum)))
+        outside = jnp.less(value, self.minimum) | jnp.greater(value, self.maximum)
+        return jnp.where(jnp.isnan(lp) | outside, -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.cos(value) - jnp.cos(self.minimum)) / (jnp.cos(self.maximum) - jnp.cos(self.minimum)))
@@ -84,8 +85,9 @@ class Cosine(Distribution):
 
     @validate_sample
     def log_prob(self, value):
-        lp = jnp.log(jnp.cos(value) / 2.0)
-        return jnp.where(jnp.isnan(lp), -jnp.inf, lp)
+        lp = jnp.log(jnp.cos(value) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
+        outside = jnp.less(value, self.minimum) | jnp.greater(value, self.maximum)
+        return jnp.where(jnp.isnan(lp) | outside, -jnp.inf, lp)
 
     def cdf(self, value):
         cdf = jnp.atleast_1d((jnp.sin(value) - jnp.sin(self.minimum)) / (jnp.sin(self.maximum) - jnp.sin(self.minimum)))
-- 
2.43.0


From d250446151549de394e1ea9a289992aa166e63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 08/52] fix: normalization of PowerlawSmoothedPowerlaw

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 6821e61..d366849 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -222,7 +222,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
         super(PowerlawSmoothedPowerlaw, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         gamma = (self.alpha_min + 1) / (self.minimum ** (self.alpha_min + 1) - self.low ** (self.alpha_min + 1))
         self.k1 = -gamma / (
-            1
+            -1
             + gamma
             / (self.alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-- 
2.43.0


From 3e6c262b8ff48c33e3212c3b6328e554692875fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 09/52] fix: off-by-one interval in cumtrapz

---
 gwinferno/numpyro_distributions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index d366849..bc843ac 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -19,9 +19,8 @@ from .models.bsplines.smoothing import apply_difference_prior
 
 def cumtrapz(y, x):
     difs = jnp.diff(x)
-    idxs = jnp.array([i for i in range(1, len(y))])
-    res = jnp.cumsum(vmap(lambda i, d: d * (y[i] + y[i + 1]) / 2.0)(idxs, difs))
-    return jnp.concatenate([jnp.array([0]), res])
+    idxs = jnp.array([i for i in range(len(y) - 1)])
+    return jnp.cumsum(vmap(lambda i, d: d * (y[i] + y[i + 1]) / 2.0)(idxs, difs))
 
 
 class Sine(Distribution):
@@ -175,7 +174,7 @@ class PowerlawRedshift(Distribution):
         self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)
         self.norm = trapezoid(self.pdfs, self.zs)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.zs)
+        self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.zs)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
@@ -276,7 +275,7 @@ class BSplineDistribution(Distribution):
         self.pdfs = jnp.exp(self.lpdfs)
         self.norm = trapezoid(self.pdfs, self.grid)
         self.pdfs /= self.norm
-        self.cdfgrid = cumtrapz(self.pdfs, self.grid)
+        self.cdfgrid = jnp.concatenate([jnp.zeros(1), cumtrapz(self.pdfs, self.grid)])
         self.cdfgrid = self.cdfgrid.at[-1].set(1)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
-- 
2.43.0


From ccf0c102ec8f8bbf405b457046e50a0b778b28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 10/52] fix: BSplineDistribution infinite norm when grid leaves
 the spline support

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index bc843ac..caffd1d 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -271,7 +271,7 @@ class BSplineDistribution(Distribution):
         super(BSplineDistribution, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         self.grid = grid
         # grid_dmat will contain nan's where the grid is outside the support
-        self.lpdfs = jnp.nan_to_num(jnp.einsum("i,i...->...", self.cs, grid_dmat), nan=-jnp.inf)
+        self.lpdfs = jnp.nan_to_num(jnp.einsum("i,i...->...", self.cs, grid_dmat), nan=-jnp.inf, posinf=-jnp.inf)
         self.pdfs = jnp.exp(self.lpdfs)
         self.norm = trapezoid(self.pdfs, self.grid)
         self.pdfs /= self.norm
-- 
2.43.0


From 2375eab073d4aacb7bf54e1ae95e8f207ec3e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 11/52] fix: Cosmology.DL2z beyond the tabulated distances

---
 gwinferno/cosmology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/cosmology.py b/gwinferno/cosmology.py
index b6c9eba..5736de8 100644
--- a/gwinferno/cosmology.py
+++ b/gwinferno/cosmology.py
@@ -124,8 +124,8 @@ class Cosmology(object):
         returns redshifts for each DL specified.
         """
         max_DL = jnp.max(DL)
-        if max_DL > jnp.max(self.DL):  # need to extend the integration
-            self.extend(max_DL=max_DL, dz=dz)
+        while max_DL > jnp.max(self.DL):  # need to extend the integration
+            self.extend(max_z=2 * jnp.max(self.z), dz=dz)
         return jnp.interp(DL, self.DL, self.z)
 
     def z2DL(self, z, dz=DEFAULT_DZ):
-- 
2.43.0


From af0ee45dff126b9d190159b09252ddc595707962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 12/52] fix: isotropic effective spin prior with arrays of mass
 ratios

---
 gwinferno/preprocess/priors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index b53d987..8515b39 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -95,7 +95,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
         Prior density at given effective spin value(s).
     """
     # Ensure that `chi_eff` is an array and take absolute value
-    chi_eff = np.abs(np.atleast_1d(chi_eff))
+    chi_eff, q = np.broadcast_arrays(np.abs(np.atleast_1d(chi_eff)), q)
 
     # Set up various piecewise cases
     # pdfs = np.ones(chi_eff.size, dtype=complex) * (-1.0)
@@ -183,8 +183,8 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
     if np.any(boundaries):
         fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q, a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q, a_max=a_max)
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
         )
 
     pdfs = np.select(
-- 
2.43.0


From 980d978a9684978415f40c5327d893ce70a7fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 13/52] fix: maximum effective precession given effective spin
 for a_max < 1

---
 gwinferno/preprocess/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 8515b39..a44be99 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -317,7 +317,7 @@ def chi_p_prior_given_chi_eff_q(chi_p, chi_eff, q, a_max=1.0, ndraws=10000, bw_m
     if (1.0 + q) * np.abs(chi_eff) / q < a_max:
         max_chi_p = a_max
     else:
-        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q) ** 2.0)
+        max_chi_p = np.sqrt(a_max**2 - ((1.0 + q) * np.abs(chi_eff) - q * a_max) ** 2.0)
 
     # Set up a grid slightly inside (0,max chi_p) and evaluate KDE
     reference_grid = np.linspace(0.05 * max_chi_p, 0.95 * max_chi_p, 50)
-- 
2.43.0


From 29bb035772cd7f61666108aa4245edc2ecb3277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 14/52] fix: alpha_beta_from_mu_var modified the caller's
 arrays in place

---
 gwinferno/preprocess/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/conversions.py b/gwinferno/preprocess/conversions.py
index ca97a57..d86ecb5 100644
--- a/gwinferno/preprocess/conversions.py
+++ b/gwinferno/preprocess/conversions.py
@@ -103,8 +103,8 @@ def alpha_beta_from_mu_var(mu, var, xmax=1):
         Tuple of arrays with shape matching inputs that represent the
         α, β shape parameters corresponding to the desired means and variances.
     """
-    mu /= xmax
-    var /= xmax**2
+    mu = mu / xmax
+    var = var / xmax**2
     alpha = (mu**2 * (1 - mu) - mu * var) / var
     beta = (mu * (1 - mu) ** 2 - (1 - mu) * var) / var
     return alpha, beta
-- 
2.43.0


From 443743152f5e593ec013f743926b3b22a4b77cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 15/52] fix: BSplineRedshift normalization uses the same spline
 as its density

---
 gwinferno/models/bsplines/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index 0a58119..bea31c5 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -464,7 +464,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(jnp.einsum("i...,i->...", self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
             self.zgrid,
         )
 
-- 
2.43.0


From b94f58a844b7609c8002c428e1fc16c35db38d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 16/52] fix: BSplineRedshift has no support outside its
 redshift range

---
 gwinferno/models/bsplines/single.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gwinferno/models/bsplines/single.py b/gwinferno/models/bsplines/single.py
index bea31c5..ad13cfc 100644
--- a/gwinferno/models/bsplines/single.py
+++ b/gwinferno/models/bsplines/single.py
@@ -447,6 +447,7 @@ class BSplineRedshift(Base1DBSplineModel):
         self.zgrid = jnp.linspace(self.zmin, self.zmax, 1000)
         self.dVcdzgrid = Planck15.dVcdz(self.zgrid)
         self.grid_bases = self.interpolator.bases(self.zgrid)
+        self._valid_zgrid = (self.zgrid >= self.xmin) & (self.zgrid <= self.xmax)
         self.differential_comov_vols = [dVdc_inj, dVdc]
         self.zs = [z_inj, z]
 
@@ -464,7 +465,7 @@ class BSplineRedshift(Base1DBSplineModel):
             The redshift normalization constant.
         """
         return trapezoid(
-            self.dVcdzgrid / (1 + self.zgrid) * jnp.exp(self.eval_spline(self.grid_bases, cs)),
+            self.dVcdzgrid / (1 + self.zgrid) * jnp.where(self._valid_zgrid, jnp.exp(self.eval_spline(self.grid_bases, cs)), 0.0),
             self.zgrid,
         )
 
@@ -485,8 +486,9 @@ class BSplineRedshift(Base1DBSplineModel):
         array_like
             Merger-rate per unit redshift in the detector-frame :math:`R`.
         """
-        return (
+        pdf = (
             jnp.exp(self.funcs[1](coefs)) * self.differential_comov_vols[1] / (1 + self.zs[1]) / self.normalization(coefs)
             if pe_samples
             else jnp.exp(self.funcs[0](coefs)) * self.differential_comov_vols[0] / (1 + self.zs[0]) / self.normalization(coefs)
         )
+        return jnp.where(self._valid_xx if pe_samples else self._valid_xx_inj, pdf, 0.0)
-- 
2.43.0


From 3522623d5504e2dd4736a0d8221b25754dcaac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 17/52] fix: PowerlawBasisSplinePrimaryRatio could not be
 constructed

---
 gwinferno/models/spline_perturbation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 7c804e3..80ccd42 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -217,7 +217,6 @@ class PowerlawBasisSplinePrimaryRatio(object):
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
         self.qdmats = [self.qinj_design_matrix, self.qpe_design_matrix]
-        self.qshapes = [(self.qknots, 1), (self.qknots, 1, 1)]
         self.norm_design_matrix = jnp.array(self.interpolator.bases(np.log(self.mm)))
         self.qnorm_design_matrix = jnp.array(self.qinterpolator.bases(self.qq))
 
-- 
2.43.0


From e9e33976bfbe28b3ce0cac5ca3722cbbcf1cdbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 18/52] fix: spline perturbation mass models honour the
 requested spline order

---
 gwinferno/models/spline_perturbation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index 80ccd42..fa8730c 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -54,7 +54,7 @@ class PowerlawBasisSplinePrimaryPowerlawRatio(object):
             ]
         )
         self.knots = knots
-        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=4, **kwargs)
+        self.interpolator = basis(n_splines_m, knots=knots, interior_knots=interior_knots, xrange=(np.log(mmin), np.log(mmax)), k=k, **kwargs)
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
         self.dmats = [self.inj_design_matrix, self.pe_design_matrix]
@@ -202,7 +202,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsm,
             interior_knots=interior_mknots,
             xrange=(np.log(mmin), np.log(mmax)),
-            k=4,
+            k=k,
         )
         self.pe_design_matrix = jnp.array(self.interpolator.bases(np.log(m1pe)))
         self.inj_design_matrix = jnp.array(self.interpolator.bases(np.log(m1inj)))
@@ -212,7 +212,7 @@ class PowerlawBasisSplinePrimaryRatio(object):
             knots=knotsq,
             interior_knots=interior_qknots,
             xrange=(0, 1),
-            k=4,
+            k=k,
         )
         self.qpe_design_matrix = jnp.array(self.qinterpolator.bases(qpe))
         self.qinj_design_matrix = jnp.array(self.qinterpolator.bases(qinj))
-- 
2.43.0


From 6bc207f9631693f37974ffb2f206db730e2204e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 19/52] fix: variance of the log detection efficiency
 subtracted 1/Ninj twice

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 54f1a11..c62e914 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -132,7 +132,7 @@ def detection_efficiency(weights, Ninj, log=False):
         var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
         logmu = jnp.log(mu)
         logn_eff = 2 * logmu - jnp.log(var)
-    variance = 1 / jnp.exp(logn_eff) - 1 / Ninj
+    variance = 1 / jnp.exp(logn_eff)
     return logmu, logn_eff, variance
 
 
-- 
2.43.0


From 3c331af609d5c7e575667b3155eb21f7b344d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 20/52] fix: detection efficiency from log weights without
 leaving log space

---
 gwinferno/pipeline/analysis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index c62e914..3ca53dd 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -124,9 +124,8 @@ def detection_efficiency(weights, Ninj, log=False):
     if log:
         logweights = weights
         logmu = logsumexp(logweights) - jnp.log(Ninj)
-        mu = jnp.exp(logmu)
-        var = jnp.sum(jnp.exp(logweights) ** 2) / Ninj**2 - mu**2 / Ninj
-        logn_eff = 2 * logmu - jnp.log(var)
+        var_over_mu2 = jnp.exp(logsumexp(2 * logweights) - 2 * jnp.log(Ninj) - 2 * logmu) - 1 / Ninj
+        logn_eff = -jnp.log(var_over_mu2)
     else:
         mu = jnp.sum(weights) / Ninj
         var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
-- 
2.43.0


From 274f3db01958dd4ecee55c38cd895a0b1f1a9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 21/52] fix: parameters sharing a population model in the
 config interface

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 3ca53dd..70d599d 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -391,7 +391,7 @@ def construct_hierarchical_model(
                     hps["grid"] = z_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
-                iid_mapping[v] = k
+                iid_mapping[k] = v
             else:
                 raise ValueError(f"Unknown model type: {type(v)}:{v}")
         for shared_param, param in iid_mapping.items():
-- 
2.43.0


From 91eeaa5279491167e34d496e60e5c73179c8a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 22/52] fix: redshift model construction in the config
 interface

---
 gwinferno/pipeline/analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 70d599d..7fadbc1 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -15,6 +15,7 @@ from numpyro.infer import Trace_ELBO
 from numpyro.infer import autoguide
 from numpyro.optim import Adam
 
+from ..cosmology import PLANCK_2015_LVK_Cosmology as Planck15
 from .parser import PopMixtureModel
 from .parser import PopModel
 
@@ -369,6 +370,7 @@ def construct_hierarchical_model(
 
     if "redshift" in pop_models.keys():
         z_grid = jnp.linspace(1e-9, prior_dict["redshift_maximum"], 1000)
+        dVcdz_grid = Planck15.dVcdz(z_grid)
 
     def model(samps, injs, Ninj, Nobs, Tobs):
         for k, v in prior_dict.items():
@@ -388,7 +390,8 @@ def construct_hierarchical_model(
             elif isinstance(v, PopModel):
                 hps = {p: hyper_params[f"{k}_{p}"] for p in v.params}
                 if k == "redshift":
-                    hps["grid"] = z_grid
+                    hps["zgrid"] = z_grid
+                    hps["dVcdz"] = dVcdz_grid
                 pop_models[k] = v.model(**hps)
             elif isinstance(v, str):
                 iid_mapping[k] = v
-- 
2.43.0


From a3142b73b72af60bb417be6977b447ada29d7701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 23/52] fix: load_model_from_python_file loads the file at the
 given path

---
 gwinferno/pipeline/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 62520af..5232a3d 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -5,6 +5,8 @@ a module that stores tools for parsing CLI arguments and config files for analys
 import sys
 from argparse import ArgumentParser
 from importlib import import_module
+from importlib.util import module_from_spec
+from importlib.util import spec_from_file_location
 
 import jax.numpy as jnp
 import yaml
@@ -35,7 +37,10 @@ def load_model_from_python_file(path):
     fn = path.split("/")[-1]
     direct = path.replace(f"/{fn}", "")
     sys.path.append(direct)
-    return getattr(import_module(fn.replace(".py", "")), "model")
+    spec = spec_from_file_location(fn.replace(".py", ""), path)
+    module = module_from_spec(spec)
+    spec.loader.exec_module(module)
+    return getattr(module, "model")
 
 
 def load_dist_from_string(dist):
-- 
2.43.0


From 4d2812116c463365dad91f7f55b7cd787dd6574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 24/52] fix: injection files without in-plane spin components

---
 gwinferno/preprocess/selection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index d2f30ec..14b4f51 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -96,7 +96,6 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if additional_cuts is not None:
             for k in additional_cuts.keys():
                 found = found | (data[k][()] >= additional_cuts[k])
-        n_found = sum(found)
         injs = dict(
             mass_1=data["mass1_source"][()][found],
             mass_2=data["mass2_source"][()][found],
@@ -118,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(n_found))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(n_found))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros(found.shape))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros(found.shape))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From bbc7ab623b707fbbad6d6d2c8394160a5609f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 25/52] fix: number of observations excludes ignored events

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index d0bc56f..173c7a3 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -89,7 +89,7 @@ def load_pe_and_injections_as_dict(file, ignore=None):
 
     total_inj = data.inj_data.attrs["total_generated"]
     obs_time = data.inj_data.attrs["analysis_time"]
-    nObs = data.pe_data.posteriors.shape[0]
+    nObs = data.pe_data.posteriors.shape[0] if ignore is None else int(sel.sum())
 
     constants = {"total_inj": total_inj, "obs_time": obs_time, "nObs": nObs}
 
-- 
2.43.0


From 283502c89bc82e8682b64ade07314c1f11476dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 26/52] fix: number of splines on the command line are integers

---
 gwinferno/pipeline/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 173c7a3..b580d7a 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -26,11 +26,11 @@ def load_base_parser():
     )
     parser.add_argument("--run-label", type=str)
     parser.add_argument("--result-dir", type=str)
-    parser.add_argument("--m-nsplines", type=str, default=50)
-    parser.add_argument("--q-nsplines", type=str, default=30)
-    parser.add_argument("--a-nsplines", type=str, default=16)
-    parser.add_argument("--tilt-nsplines", type=str, default=16)
-    parser.add_argument("--z-nsplines", type=str, default=20)
+    parser.add_argument("--m-nsplines", type=int, default=50)
+    parser.add_argument("--q-nsplines", type=int, default=30)
+    parser.add_argument("--a-nsplines", type=int, default=16)
+    parser.add_argument("--tilt-nsplines", type=int, default=16)
+    parser.add_argument("--z-nsplines", type=int, default=20)
     parser.add_argument("--mmin", type=float, default=3.0)
     parser.add_argument("--mmax", type=float, default=100.0)
     parser.add_argument("--chains", type=int, default=1)
-- 
2.43.0


From 19803f43f8c24b3e0a1faf3a186128d6f1ebc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 27/52] fix: posterior_dict_to_xarray modified the caller's
 dictionary

---
 gwinferno/pipeline/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index b580d7a..ad3e76e 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -218,15 +218,16 @@ def bspline_redshift_prior(z_nsplines=None, z_tau=None, name=None, z_cs_sig=1, z
 
 def posterior_dict_to_xarray(posteriors):
 
+    xr_dict = {}
     for key in posteriors.keys():
         n_samples = posteriors[key].shape[0]
-        posteriors[key] = {"dims": "draw", "data": posteriors[key]}
+        xr_dict[key] = {"dims": "draw", "data": posteriors[key]}
 
-        if posteriors[key]["data"].shape != (n_samples,):
-            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(posteriors[key]["data"].shape) - 1)]
-            posteriors[key]["dims"] = new_dims
+        if xr_dict[key]["data"].shape != (n_samples,):
+            new_dims = ["draw"] + [f"{key}_dim{i + 2}" for i in range(len(xr_dict[key]["data"].shape) - 1)]
+            xr_dict[key]["dims"] = new_dims
 
-    return xr.Dataset.from_dict(posteriors)
+    return xr.Dataset.from_dict(xr_dict)
 
 
 def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
-- 
2.43.0


From 4e7433ee11f397740e4b9a907ee0220a4a2e91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 28/52] fix: pdf_dict_to_xarray dropped the redshift pdfs of
 subpopulation results

---
 gwinferno/pipeline/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index ad3e76e..313e748 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -237,8 +237,8 @@ def pdf_dict_to_xarray(pdf_dict, param_dict, n_samples, subpop_names=None):
         xr_dict = xr_dict | pdfs
     else:
         z = {"redshift_pdfs": (["draw", "redshift"], pdf_dict["redshift"])}
-        xr_dict | z
-        del pdf_dict["redshift"]
+        xr_dict = xr_dict | z
+        pdf_dict = {key: item for key, item in pdf_dict.items() if key != "redshift"}
         for i, nm in enumerate(subpop_names):
             single = {f"{nm}_{key}_pdfs": (["draw", key], item[i]) for key, item in pdf_dict.items()}
             xr_dict = xr_dict | single
-- 
2.43.0


From 14fdfa2ca3473e23cbf212b776b99a1a7a2f429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 29/52] fix: load_posterior_dataset error when neither metadata
 nor key file is given

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 588d3b2..3f8e0fd 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -144,10 +144,10 @@ def append_prior_to_processed_catalog(catalog_dataset, param_names):
 
 def load_posterior_dataset(maximum_mass=100.0, catalog_metadata=None, key_file=None, param_names=["mass_1", "mass_ratio", "redshift"]):
     if catalog_metadata is None:
-        with open(key_file, "r") as f:
-            catalog_metadata = json.load(f)
         if key_file is None:
             raise AssertionError("catalog_metadata or key_file must be specified")
+        with open(key_file, "r") as f:
+            catalog_metadata = json.load(f)
 
     posterior_dict = unprocessed_catalog_dict_from_metadata(catalog_metadata)
     catalog_dataset = processed_catalog_dataset_from_dict(posterior_dict, mmax=maximum_mass)
-- 
2.43.0


From 9f6f61616d7b6a675146a313d2c01bfe26005cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 30/52] fix: shape of the effective precession of posterior
 samples

---
 gwinferno/preprocess/data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 3f8e0fd..232da58 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -339,7 +339,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
         if chip:
             chip_array = xr.DataArray(
-                chi_p.reshape(1, chi_p.shape[0]),
+                chi_p.reshape(chi_p.shape[0], 1, chi_p.shape[1]),
                 dims=["event", "param", "samples"],
                 coords={"event": dat_array.event, "param": ["chi_p"], "samples": dat_array.samples},
             )
-- 
2.43.0


From a77511d23b9cbaf26afbc09b73792f45c484a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:00 +0000
Subject: [PATCH 31/52] fix: prior density of effective spins no longer depends
 on the component spin magnitudes

---
 gwinferno/preprocess/data_collection.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 232da58..3103ee3 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -218,6 +218,9 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
     tilt_2 = dat_array.sel(param="cos_tilt_2").values
     prior = dat_array.sel(param="prior").values
 
+    # density of the uniform and isotropic component spin prior (in a_1, a_2, cos_tilt_1, cos_tilt_2) included in `prior`
+    spin_prior = 1 / 4 if injections or "a_1" in param_names else 1.0
+
     chi_eff = chieff_from_q_component_spins(
         q,
         a_1,
@@ -241,7 +244,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
             if chip:
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / spin_prior
                     * jnp.asarray(
                         joint_prior_from_isotropic_spins(
                             np.array(chi_p[ii]),
@@ -255,7 +258,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
 
                 new_prior[ii] = (
                     prior[ii]
-                    / ((2 * jnp.pi * a_1[ii] ** 2) * (2 * jnp.pi * a_2[ii] ** 2))
+                    / spin_prior
                     * jnp.asarray(
                         chi_effective_prior_from_isotropic_spins(
                             np.asarray(chi_eff[ii]),
@@ -272,7 +275,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 if chip:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / spin_prior
                         * jnp.asarray(
                             joint_prior_from_isotropic_spins(
                                 np.array(chi_p[ii][jj]),
@@ -285,7 +288,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                 else:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-                        / ((2 * jnp.pi * a_1[ii][jj] ** 2) * (2 * jnp.pi * a_2[ii][jj] ** 2))
+                        / spin_prior
                         * jnp.asarray(
                             chi_effective_prior_from_isotropic_spins(
                                 chi_eff[ii][jj],
-- 
2.43.0


From 70601f9bb12b10813bf8335fa4bf0e31e35ff9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:56 +0000
Subject: [PATCH 32/52] fix: integer overflow in detection_efficiency for more
 than 46340 injections

---
 gwinferno/pipeline/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 7fadbc1..5e2f7ec 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -129,7 +129,7 @@ def detection_efficiency(weights, Ninj, log=False):
         logn_eff = -jnp.log(var_over_mu2)
     else:
         mu = jnp.sum(weights) / Ninj
-        var = jnp.sum(weights**2) / Ninj**2 - mu**2 / Ninj
+        var = jnp.sum((weights / Ninj) ** 2) - mu**2 / Ninj
         logmu = jnp.log(mu)
         logn_eff = 2 * logmu - jnp.log(var)
     variance = 1 / jnp.exp(logn_eff)
-- 
2.43.0


From 4d47686a68c71a946225f96070d2f1bd82a127a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:31 +0000
Subject: [PATCH 33/52] fix: NaturalCubicUnivariateSpline can be batched by jax
 transformations

---
 gwinferno/interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 7757fe0..7504250 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -47,8 +47,11 @@ class NaturalCubicUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefs = children
-        return cls(x, y, coefs)
+        # jax rebuilds pytrees with arbitrary leaves (batched arrays, placeholders), so nothing may be computed from them here
+        spline = object.__new__(cls)
+        spline.k = 3
+        spline._x, spline._y, spline._coefficients = children
+        return spline
 
     def __call__(self, x):
         t, a, b, c, d = self._compute_coeffs(x)
-- 
2.43.0


From 6a48fec408e3f05808d4d956de89970dcf9c9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:31 +0000
Subject: [PATCH 34/52] fix: powerlaw_pdf with a python float index of -1

---
 gwinferno/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index 86558c3..d15b6e8 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -110,10 +110,11 @@ def powerlaw_pdf(xx, alpha, low, high, floor=0.0):
         floor (float, optional): lower bound of pdf (Defaults to 0.0)
     """
     prob = jnp.power(xx, alpha)
+    exponent = jnp.where(alpha == -1, 1.0, 1 + alpha)  # the closed form is 0 / 0 at alpha = -1
     norm = jnp.where(
         alpha == -1,
         1 / jnp.log(high / low),
-        (1 + alpha) / (high ** (1 + alpha) - low ** (1 + alpha)),
+        exponent / (high**exponent - low**exponent),
     )
     prob *= norm
 
-- 
2.43.0


From 1202e4f2fbe1ac04c8addc9558fee573920cf938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 35/52] fix: infinite norm of PowerlawBasisSplinePrimaryRatio
 at its minimum mass

---
 gwinferno/models/spline_perturbation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gwinferno/models/spline_perturbation.py b/gwinferno/models/spline_perturbation.py
index fa8730c..31d7d1f 100644
--- a/gwinferno/models/spline_perturbation.py
+++ b/gwinferno/models/spline_perturbation.py
@@ -256,7 +256,9 @@ class PowerlawBasisSplinePrimaryRatio(object):
         """
         p_m = powerlaw_pdf(self.mm, alpha=-alpha, low=mmin, high=mmax)
         perturbation = jnp.exp(self.interpolator.project(self.norm_design_matrix, cs))
-        p_q = powerlaw_pdf(self.qq, alpha=beta, low=mmin / self.mm, high=1)
+        # the mass ratio density is singular where the primary mass equals mmin, which the mass grid contains
+        degenerate = jnp.less_equal(self.mm, mmin)
+        p_q = jnp.where(degenerate, 0.0, powerlaw_pdf(self.qq, alpha=beta, low=jnp.where(degenerate, 0.5, mmin / self.mm), high=1))
         qperturbation = jnp.exp(self.qinterpolator.project(self.qnorm_design_matrix, vs))
         p_mq = p_m * perturbation * p_q * qperturbation
         return trapezoid(trapezoid(p_mq, self.qs, axis=0), self.ms)
-- 
2.43.0


From 361047961d67a793121393e14857ce1220138c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 36/52] fix: normalization of the Powerlaw distribution with
 index -1

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index caffd1d..d1c2fdc 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -129,7 +129,7 @@ class Powerlaw(Distribution):
     def log_prob(self, value):
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
-        logp_neg1 = -jnp.log(value) - jnp.log(self.maximum / self.minimum)
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
-- 
2.43.0


From cb3e4b247a6015f4e3547b8eed3622cb60b7d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:49 +0000
Subject: [PATCH 37/52] fix: Powerlaw distribution with a python float index of
 -1

---
 gwinferno/numpyro_distributions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index d1c2fdc..dd2dc2f 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -127,8 +127,9 @@ class Powerlaw(Distribution):
 
     @validate_sample
     def log_prob(self, value):
+        exponent = jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)  # the closed form is 0 / 0 at alpha = -1
         logp = self.alpha * jnp.log(value)
-        logp = logp + jnp.log((1.0 + self.alpha) / (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha)))
+        logp = logp + jnp.log(exponent / (self.maximum**exponent - self.minimum**exponent))
         logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
@@ -147,9 +148,8 @@ class Powerlaw(Distribution):
         return cdf
 
     def icdf(self, q):
-        icdf = (self.minimum ** (1.0 + self.alpha) + q * (self.maximum ** (1.0 + self.alpha) - self.minimum ** (1.0 + self.alpha))) ** (
-            1.0 / (1.0 + self.alpha)
-        )
+        exponent = jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)
+        icdf = (self.minimum**exponent + q * (self.maximum**exponent - self.minimum**exponent)) ** (1.0 / exponent)
         icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
 
-- 
2.43.0


From cfb3587685a5c6199c3db52ab45bac132624c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:21 +0000
Subject: [PATCH 38/52] fix: Powerlaw distribution with its default minimum of
 zero

---
 gwinferno/numpyro_distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index dd2dc2f..59c0d15 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -130,7 +130,7 @@ class Powerlaw(Distribution):
         exponent = jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)  # the closed form is 0 / 0 at alpha = -1
         logp = self.alpha * jnp.log(value)
         logp = logp + jnp.log(exponent / (self.maximum**exponent - self.minimum**exponent))
-        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum / self.minimum))
+        logp_neg1 = -jnp.log(value) - jnp.log(jnp.log(self.maximum) - jnp.log(self.minimum))
         return jnp.where(
             jnp.less(value, self.minimum) | jnp.greater(value, self.maximum),
             jnp.nan_to_num(-jnp.inf),
@@ -141,7 +141,7 @@ class Powerlaw(Distribution):
         cdf = jnp.atleast_1d(value ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)) / (
             self.maximum ** (self.alpha + 1.0) - self.minimum ** (self.alpha + 1.0)
         )
-        cdf_neg1 = jnp.log(value / self.minimum) / jnp.log(self.maximum / self.minimum)
+        cdf_neg1 = (jnp.log(value) - jnp.log(self.minimum)) / (jnp.log(self.maximum) - jnp.log(self.minimum))
         cdf = jnp.where(jnp.equal(self.alpha, -1.0), cdf_neg1, cdf)
         cdf = jnp.minimum(cdf, 1.0)
         cdf = jnp.maximum(cdf, 0.0)
@@ -150,7 +150,7 @@ class Powerlaw(Distribution):
     def icdf(self, q):
         exponent = jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)
         icdf = (self.minimum**exponent + q * (self.maximum**exponent - self.minimum**exponent)) ** (1.0 / exponent)
-        icdf_neg1 = self.minimum * jnp.exp(q * jnp.log(self.maximum / self.minimum))
+        icdf_neg1 = self.minimum * jnp.exp(q * (jnp.log(self.maximum) - jnp.log(self.minimum)))
         return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
 
 
-- 
2.43.0


From 7d3a5771786404e92ecce84fb4d0dd44761994ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:21 +0000
Subject: [PATCH 39/52] fix: quantiles of steep Powerlaw distributions beyond
 the maximum

---
 gwinferno/numpyro_distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 59c0d15..5084b32 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -151,7 +151,8 @@ class Powerlaw(Distribution):
         exponent = jnp.where(jnp.equal(self.alpha, -1.0), 1.0, 1.0 + self.alpha)
         icdf = (self.minimum**exponent + q * (self.maximum**exponent - self.minimum**exponent)) ** (1.0 / exponent)
         icdf_neg1 = self.minimum * jnp.exp(q * (jnp.log(self.maximum) - jnp.log(self.minimum)))
-        return jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf)
+        # rounding must not carry the quantiles of steep power laws out of the support
+        return jnp.clip(jnp.where(jnp.equal(self.alpha, -1.0), icdf_neg1, icdf), self.minimum, self.maximum)
 
 
 class PowerlawRedshift(Distribution):
-- 
2.43.0


From 879777a9b34d65d1b3ae508a2d405b43e25907a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:47 +0000
Subject: [PATCH 40/52] fix: iid declaration of a mixture model in the config
 interface

---
 gwinferno/pipeline/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/pipeline/parser.py b/gwinferno/pipeline/parser.py
index 5232a3d..3f6ce7f 100644
--- a/gwinferno/pipeline/parser.py
+++ b/gwinferno/pipeline/parser.py
@@ -119,8 +119,9 @@ class ConfigReader(object):
             for hp in subd[name]["hyper_params"]:
                 self.add_prior(f"{param}_component_{i + 1}_{hp}", subd[name]["hyper_params"][hp])
         self.models[param] = PopMixtureModel(model, mix_dist, mix_params, components, component_params)
-        if "iid" in subd[name]:
-            self.add_iid_model(param, subd[name]["iid"]["shared_parameter"])
+        iid = subd.get("iid", subd[name].get("iid"))
+        if iid is not None:
+            self.add_iid_model(param, iid["shared_parameter"])
 
 
 def load_base_parser():
-- 
2.43.0


From f1b4fa9ac2710aeca036c593e0ba3f059523e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:52 +0000
Subject: [PATCH 41/52] fix: integer overflow in resample_injections for more
 than 46340 injections

---
 gwinferno/preprocess/selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index 14b4f51..a9d1e9f 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -150,6 +150,6 @@ def resample_injections(rng_key, model_prob, injdata, Ndraw, param_map, **kwargs
     injdata_new = injdata.at[:, idxs].get()
     p_new = model_prob(injdata_new, **kwargs) / norm
     injdata_new = injdata_new.at[param_map["prior"], :].set(p_new)
-    s2_new = jnp.sum(wts * wts) / (Ndraw * Ndraw) - norm * norm / Ndraw
+    s2_new = jnp.sum((wts / Ndraw) ** 2) - norm * norm / Ndraw
     Neff_new = norm * norm / s2_new
     return (injdata_new, N, Neff_new)
-- 
2.43.0


From 6c9f681dc736a4655e9cc769378371807a33505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:48 +0000
Subject: [PATCH 42/52] fix: isotropic effective spin prior not finite on the
 boundaries of its cases

---
 gwinferno/preprocess/priors.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index a44be99..47b8bf1 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -107,7 +107,7 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
     caseE = (chi_eff > a_max * (1.0 - q) / (1.0 + q)) * (chi_eff > a_max / (1.0 + q)) * (chi_eff < a_max)
     caseF = chi_eff >= a_max
 
-    with np.errstate(invalid="ignore"):
+    with np.errstate(divide="ignore", invalid="ignore"):
         caseZ_pdfs = (1.0 + q) / (2.0 * a_max) * (2.0 - np.log(q))
 
         caseA_pdfs = (
@@ -178,21 +178,19 @@ def chi_effective_prior_from_isotropic_spins(chi_eff, q, a_max=1.0):
 
         caseF_pdfs = 0.0
 
-    # Deal with spins on the boundary between cases
-    fallback = np.zeros_like(chi_eff)
-    boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0)
-    if np.any(boundaries):
-        fallback[boundaries] = 0.5 * (
-            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
-            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
-        )
-
     pdfs = np.select(
         [caseZ, caseA, caseB, caseC, caseD, caseE, caseF],
         [caseZ_pdfs, caseA_pdfs, caseB_pdfs, caseC_pdfs, caseD_pdfs, caseE_pdfs, caseF_pdfs],
-        default=fallback,
     )
 
+    # Deal with spins on the boundary between cases, where the logarithms of some cases diverge
+    boundaries = ~np.any([caseZ, caseA, caseB, caseC, caseD, caseE, caseF], axis=0) | ((q > 0) & ~np.isfinite(pdfs))
+    if np.any(boundaries):
+        pdfs[boundaries] = 0.5 * (
+            chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] + 1e-6, q[boundaries], a_max=a_max)
+            + chi_effective_prior_from_isotropic_spins(chi_eff[boundaries] - 1e-6, q[boundaries], a_max=a_max)
+        )
+
     return np.real(pdfs)
 
 
-- 
2.43.0


From ae3c82c4fb66a2e923a7b96c741c37189034d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:06 +0000
Subject: [PATCH 43/52] fix: effective precession prior not finite on the
 boundary of its cases

---
 gwinferno/preprocess/priors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gwinferno/preprocess/priors.py b/gwinferno/preprocess/priors.py
index 47b8bf1..cec17e3 100644
--- a/gwinferno/preprocess/priors.py
+++ b/gwinferno/preprocess/priors.py
@@ -224,13 +224,13 @@ def chi_p_prior_from_isotropic_spins(chi_p, q, a_max=1.0):
             (1.0 / (a_max**2 * q))
             * ((4.0 + 3.0 * q) / (3.0 + 4.0 * q))
             * (
-                np.arccos((4.0 + 3.0 * q) * chi_p / ((3.0 + 4.0 * q) * q * a_max))
+                np.arccos(np.minimum((4.0 + 3.0 * q) * chi_p / ((3.0 + 4.0 * q) * q * a_max), 1.0))
                 * (a_max - np.sqrt(a_max**2 - chi_p**2) + chi_p * np.arccos(chi_p / a_max))
                 + np.arccos(chi_p / a_max)
                 * (
                     a_max * q * (3.0 + 4.0 * q) / (4.0 + 3.0 * q)
-                    - np.sqrt(a_max**2 * q**2 * ((3.0 + 4.0 * q) / (4.0 + 3.0 * q)) ** 2 - chi_p**2)
-                    + chi_p * np.arccos((4.0 + 3.0 * q) * chi_p / ((3.0 + 4.0 * q) * a_max * q))
+                    - np.sqrt(np.maximum(a_max**2 * q**2 * ((3.0 + 4.0 * q) / (4.0 + 3.0 * q)) ** 2 - chi_p**2, 0.0))
+                    + chi_p * np.arccos(np.minimum((4.0 + 3.0 * q) * chi_p / ((3.0 + 4.0 * q) * a_max * q), 1.0))
                 )
             )
         )
-- 
2.43.0


From 92b4c60a0e9fce574bfd33cc99b60d5eced6a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:37 +0000
Subject: [PATCH 44/52] fix: joint effective spin and precession prior is a
 scalar per sample

---
 gwinferno/preprocess/data_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/data_collection.py b/gwinferno/preprocess/data_collection.py
index 3103ee3..4ab5577 100644
--- a/gwinferno/preprocess/data_collection.py
+++ b/gwinferno/preprocess/data_collection.py
@@ -253,7 +253,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                             a_max=1.0,
                         )
                     )
-                )
+                )[0]
             else:
 
                 new_prior[ii] = (
@@ -284,7 +284,7 @@ def convert_component_spins_to_chieff(dat_array, param_names, injections=False):
                                 a_max=1.0,
                             )
                         )
-                    )
+                    )[0]
                 else:
                     new_prior[ii][jj] = (
                         prior[ii][jj]
-- 
2.43.0


From a07bb12ea1511e1219c72e819ab788e0f57ad4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:29 +0000
Subject: [PATCH 45/52] fix: gradient of the smoothing window not finite for
 samples near its edges

---
 gwinferno/distributions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gwinferno/distributions.py b/gwinferno/distributions.py
index d15b6e8..59a8875 100644
--- a/gwinferno/distributions.py
+++ b/gwinferno/distributions.py
@@ -5,6 +5,7 @@ a module for basic distribution pdf calculations with jax
 import jax.numpy as jnp
 from jax.scipy.special import betaln
 from jax.scipy.special import erf
+from jax.scipy.special import expit
 from jax.scipy.special import xlogy
 
 """
@@ -16,9 +17,11 @@ This file contains some functions copied from https://github.com/ColmTalbot/gwpo
 
 def smooth(dx, x, xmin):
 
-    func = jnp.exp(dx / (x - xmin) + dx / (x - xmin - dx))
-    s1 = jnp.where(jnp.less(x, xmin), 0, 1)
-    s2 = jnp.where(jnp.less(x, xmin + dx) & jnp.greater_equal(x, xmin), (func + 1) ** (-1), s1)
+    dist = x - xmin
+    inside = jnp.greater(dist, 0) & jnp.less(dist, dx)
+    safe = jnp.where(inside, dist, 0.5 * dx)  # keeps the unused branch, and with it the gradient, finite
+    s1 = jnp.where(jnp.less(dist, dx), 0, 1)
+    s2 = jnp.where(inside, expit(-(dx / safe + dx / (safe - dx))), s1)
     return s2
 
 
-- 
2.43.0


From 5e60cb80a8f18647c8183aacb0fac16a48b2211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:26 +0000
Subject: [PATCH 46/52] fix: spline bases of integer-valued samples

---
 gwinferno/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/interpolation.py b/gwinferno/interpolation.py
index 7504250..d755d20 100644
--- a/gwinferno/interpolation.py
+++ b/gwinferno/interpolation.py
@@ -155,7 +155,7 @@ class BasisSpline(object):
         if self.knots[i + k] - self.knots[i] < 1e-6:
             return np.zeros_like(xs)
         elif k == 1:
-            v = np.zeros_like(xs)
+            v = np.zeros(np.shape(xs))
             v[(xs >= self.knots[i]) & (xs < self.knots[i + 1])] = 1 / (self.knots[i + 1] - self.knots[i])
             return v
         else:
-- 
2.43.0


From a9a23a595b706f24837621bf983b39de87ca8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:41 +0000
Subject: [PATCH 47/52] fix: PowerlawRedshift with a grid that reaches beyond
 its maximum

---
 gwinferno/numpyro_distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 5084b32..c7b1ec7 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -170,8 +170,9 @@ class PowerlawRedshift(Distribution):
             jnp.shape(lamb),
         )
         super(PowerlawRedshift, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
-        self.zs = zgrid
-        self.dVdc_ = dVcdz
+        # the grid may reach beyond the maximum: only the part up to it carries probability
+        self.zs = jnp.minimum(zgrid, maximum)
+        self.dVdc_ = jnp.interp(self.zs, zgrid, dVcdz)
         self.pdfs = self.dVdc_ * (1 + self.zs) ** (lamb - 1)
         self.norm = trapezoid(self.pdfs, self.zs)
         self.pdfs /= self.norm
-- 
2.43.0


From 7e2507eedc1db4916046a347d0b85b552f1f2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 48/52] fix: predictive draws from log weights outside the
 range of exp

---
 gwinferno/pipeline/analysis.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gwinferno/pipeline/analysis.py b/gwinferno/pipeline/analysis.py
index 5e2f7ec..b9cbafa 100644
--- a/gwinferno/pipeline/analysis.py
+++ b/gwinferno/pipeline/analysis.py
@@ -320,36 +320,40 @@ def hierarchical_likelihood(
 
     if posterior_predictive_check:
         if param_names is not None and injdata is not None and pedata is not None:
-            if log:
-                pe_weights = jnp.exp(pe_weights)
-                inj_weights = jnp.exp(inj_weights)
+            no_weight = -jnp.inf if log else 0
             cond = jnp.less(pedata["mass_1"], m1min) | jnp.greater(pedata["mass_1"], mmax)
             pe_weights = jnp.where(
                 cond | jnp.less(pedata["mass_1"] * pedata["mass_ratio"], m2min),
-                0,
+                no_weight,
                 pe_weights,
             )
             inj_weights = jnp.where(
                 jnp.less(injdata["mass_1"], m1min)
                 | jnp.greater(injdata["mass_1"], mmax)
                 | jnp.less(injdata["mass_1"] * injdata["mass_ratio"], m2min),
-                0,
+                no_weight,
                 inj_weights,
             )
+            pe_draw_weights, inj_draw_weights = pe_weights, inj_weights
+            if log:
+                # draws need relative weights only, which do not over- or underflow
+                pe_draw_weights = jnp.exp(pe_weights - jnp.max(pe_weights, axis=1, keepdims=True))
+                inj_draw_weights = jnp.exp(inj_weights - jnp.max(inj_weights))
+                pe_weights = jnp.exp(pe_weights)
             for ev in range(Nobs):
                 k = random.PRNGKey(ev)
                 k1, k2 = random.split(k)
                 obs_idx = random.choice(
                     k1,
-                    pe_weights.shape[1],
-                    p=pe_weights[ev, :] / jnp.sum(pe_weights[ev, :]),
+                    pe_draw_weights.shape[1],
+                    p=pe_draw_weights[ev, :] / jnp.sum(pe_draw_weights[ev, :]),
                 )
 
                 if marginal_qs:
                     for i in range(len(indv_weights)):
                         numpyro.deterministic(f"cat_frac_subpop_{i + 1}_event_{ev}", indv_weights[i][ev, obs_idx] / pe_weights[ev, obs_idx])
 
-                pred_idx = random.choice(k2, inj_weights.shape[0], p=inj_weights / jnp.sum(inj_weights))
+                pred_idx = random.choice(k2, inj_draw_weights.shape[0], p=inj_draw_weights / jnp.sum(inj_draw_weights))
                 for p in param_names:
                     numpyro.deterministic(f"{p}_obs_event_{ev}", pedata[p][ev, obs_idx])
                     numpyro.deterministic(f"{p}_pred_event_{ev}", injdata[p][pred_idx])
-- 
2.43.0


From c1bd1bacfc2d1015776f9eb60588d7100767bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 49/52] fix: O3 injections without in-plane spins keep
 |cos_tilt| at most 1

---
 gwinferno/preprocess/selection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gwinferno/preprocess/selection.py b/gwinferno/preprocess/selection.py
index a9d1e9f..03e3522 100644
--- a/gwinferno/preprocess/selection.py
+++ b/gwinferno/preprocess/selection.py
@@ -117,8 +117,8 @@ def get_o3_cumulative_injection_dict(fi, param_names, ifar=1, snr=10, additional
         if ("a_1" in param_names) | ("chi_eff" in param_names):
             for ii in [1, 2]:
                 injs[f"a_{ii}"] = (
-                    data.get(f"spin{ii}x", np.zeros(found.shape))[()][found] ** 2
-                    + data.get(f"spin{ii}y", np.zeros(found.shape))[()][found] ** 2
+                    data.get(f"spin{ii}x", np.zeros_like(data[f"spin{ii}z"][()]))[()][found] ** 2
+                    + data.get(f"spin{ii}y", np.zeros_like(data[f"spin{ii}z"][()]))[()][found] ** 2
                     + data[f"spin{ii}z"][()][found] ** 2
                 ) ** 0.5
                 injs[f"cos_tilt_{ii}"] = data[f"spin{ii}z"][()][found] / injs[f"a_{ii}"]
-- 
2.43.0


From f6d17e4028f3b9ca7007d463672a1003e2594c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 50/52] fix: --save-plots False turns plots off

---
 gwinferno/pipeline/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/pipeline/utils.py b/gwinferno/pipeline/utils.py
index 313e748..3adb60f 100644
--- a/gwinferno/pipeline/utils.py
+++ b/gwinferno/pipeline/utils.py
@@ -39,7 +39,7 @@ def load_base_parser():
     parser.add_argument("--warmup", type=int, default=1000)
     parser.add_argument("--skip-inference", action="store_true", default=False)
     parser.add_argument("--rngkey", type=int, default=1)
-    parser.add_argument("--save-plots", type=bool, default=True)
+    parser.add_argument("--save-plots", type=lambda arg: arg.strip().lower() not in ("false", "no", "0", ""), default=True)
     return parser
 
 
-- 
2.43.0


From 94d72d7c82ccc2f9070a2ea55ef15396cc507518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 51/52] fix: BSplineDistribution counted its coefficients as a
 batch of distributions

---
 gwinferno/numpyro_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index c7b1ec7..24e3ff0 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -269,7 +269,7 @@ class BSplineDistribution(Distribution):
     def __init__(self, minimum, maximum, cs, grid, grid_dmat, validate_args=None):
         self.maximum, self.minimum, self.cs = promote_shapes(maximum, minimum, cs)
         self._support = constraints.interval(minimum, maximum)
-        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(cs))
+        batch_shape = lax.broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(cs)[:-1])
         super(BSplineDistribution, self).__init__(batch_shape=batch_shape, validate_args=validate_args)
         self.grid = grid
         # grid_dmat will contain nan's where the grid is outside the support
-- 
2.43.0


From 2c818654f2bacc8fc4b6a469fc726ca45b452c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 52/52] fix: PowerlawSmoothedPowerlaw refused all parameters
 when validation is on

---
 gwinferno/numpyro_distributions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gwinferno/numpyro_distributions.py b/gwinferno/numpyro_distributions.py
index 24e3ff0..8919fe4 100644
--- a/gwinferno/numpyro_distributions.py
+++ b/gwinferno/numpyro_distributions.py
@@ -216,7 +216,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
 
     def __init__(self, alpha, minimum, maximum, alpha_max, alpha_min, low, high, validate_args=None):
         self.minimum, self.maximum, self.alpha, self.alpha_max, self.alpha_min = promote_shapes(minimum, maximum, alpha, alpha_max, alpha_min)
-        self.alpha_max = -self.alpha_max
+        self.high_alpha = -self.alpha_max
         self._support = constraints.interval(low, high)
         self.low, self.high = low, high
         batch_shape = broadcast_shapes(jnp.shape(maximum), jnp.shape(minimum), jnp.shape(alpha), jnp.shape(alpha_max), jnp.shape(alpha_min))
@@ -229,13 +229,13 @@ class PowerlawSmoothedPowerlaw(Distribution):
             * self.minimum ** (self.alpha_min - self.alpha)
             * (self.minimum ** (self.alpha + 1) - self.maximum ** (self.alpha + 1))
             + gamma
-            / (self.alpha_max + 1)
+            / (self.high_alpha + 1)
             * self.minimum ** (self.alpha_min - self.alpha)
-            * self.maximum ** (self.alpha - self.alpha_max)
-            * (self.maximum ** (self.alpha_max + 1) - self.high ** (self.alpha_max + 1))
+            * self.maximum ** (self.alpha - self.high_alpha)
+            * (self.maximum ** (self.high_alpha + 1) - self.high ** (self.high_alpha + 1))
         )
         self.k2 = self.k1 * self.minimum ** (self.alpha_min - self.alpha)
-        self.k3 = self.k2 * self.maximum ** (self.alpha - self.alpha_max)
+        self.k3 = self.k2 * self.maximum ** (self.alpha - self.high_alpha)
 
     @constraints.dependent_property(is_discrete=False, event_dim=0)
     def support(self):
@@ -249,7 +249,7 @@ class PowerlawSmoothedPowerlaw(Distribution):
     @validate_sample
     def log_prob(self, value):
         low_pl = jnp.where(jnp.less(value, self.minimum), jnp.log(self.k1) + jnp.log(value) * self.alpha_min, 0.0)
-        high_pl = jnp.where(jnp.greater(value, self.maximum), jnp.log(self.k3) + jnp.log(value) * self.alpha_max, 0.0)
+        high_pl = jnp.where(jnp.greater(value, self.maximum), jnp.log(self.k3) + jnp.log(value) * self.high_alpha, 0.0)
         mid_pl = jnp.where(
             jnp.greater_equal(value, self.minimum),
             jnp.where(jnp.less_equal(value, self.maximum), jnp.log(self.k2) + jnp.log(value) * self.alpha, 0.0),
-- 
2.43.0

