From 7132ae927dc01c4fee4667ec39deb5c2b392eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 01/52] fix: recompute the updated density after the observed
 distribution changes

set_observed() kept the previous updated density, so mud_point() and
expected_ratio() went on answering for the old observed distribution.
---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..7373c98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From 1941e53c341757b73527fab0777b121625b1c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 02/52] fix: treat one dimensional DensityProblem samples as
 samples of one parameter

The documented reading of 1D input is repeated samples of a 1D parameter;
it was reshaped to a single sample of an N dimensional parameter.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7373c98..f06ddf6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
-- 
2.43.0


From c82b992d28d7d3c5c0649cb029b3d53bc028d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/52] fix: combine per-feature predicted densities into one
 value per sample

A frozen scipy distribution evaluated on several features gave
n_samples * n_features values, so fit() could not divide by it.
---
 src/mud/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index f06ddf6..e356ab6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -304,6 +304,9 @@ class DensityProblem(object):
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
             pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            if np.ndim(pred_pdf_values) > 1:
+                # One density per feature, joint density is their product
+                pred_pdf_values = np.prod(pred_pdf_values, axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From 8d4b557ad1728c935e6a0aae4e023b2b2f8c6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 04/52] fix: do not pad the bounds passed to fit_domain in
 place

Every DensityProblem.plot_param_space() call widened the problem's domain.
---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..9254d65 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    else:
+        min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From b8eeafd0d95bb6c04d4a0ca49fb727620ed23622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/52] fix: data mismatch functional counted the offset twice
 and needed one output

The residual is A x + b - y, one column per input point; b was added a second
time and y was transposed, so several outputs did not broadcast.
---
 src/mud/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e356ab6..1b6e451 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1093,15 +1093,12 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
-
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip((self.A @ X.T + self.b) - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
-- 
2.43.0


From a692de291655157c4a0c0d82faaba97b7f3464ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 06/52] fix: functionals and solutions disagreed on the meaning
 of alpha

solve() scales the initial covariance by alpha while compute_functionals()
scaled its inverse, so the MAP solution did not minimize the functional
unless alpha was 1.
---
 src/mud/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1b6e451..5a044e2 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1102,15 +1102,16 @@ class LinearGaussianProblem(object):
         if terms == "data":
             return data_term
 
+        # Weight initial covariance according to alpha parameter, as in solve()
+        a_cov_i = self.alpha * self.cov_i
+
         # Tikhonov Regularization Term
-        reg_term = self.alpha * ip((X - self.mean_i.T).T, self.cov_i)
+        reg_term = ip((X - self.mean_i.T).T, a_cov_i)
         if terms == "reg":
             return reg_term
 
         # Data-Consistent Term - "un-regularization" in data-informed directions
-        dc_term = self.alpha * ip(
-            self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T
-        )
+        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
             return dc_term
 
-- 
2.43.0


From ec61f8af869bb20b0d4fa2f3b56cbb962123bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 07/52] fix: draw solution contours through the reference point

The coordinates of the reference point were mixed up, so contours were only
right when both coordinates are equal.
---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5a044e2..a46e088 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1307,8 +1307,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..b387120 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From 0ab4dc316be0c36ac88688a3ba1af23a0f64b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 08/52] fix: default options of
 LinearGaussianProblem.plot_contours are plottable

'fs' is not a line property, so the default call always raised.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a46e088..40a0595 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1284,7 +1284,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
-- 
2.43.0


From 7eece2c83a32f91b1d1bc2c5a89b8d4eb739ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 09/52] fix: plot_sol does not write into the options passed by
 the caller

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 40a0595..ed42118 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1256,10 +1256,9 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
 
         # Plot point
-        ax.scatter(pt[0], pt[1], **pt_opts)
+        ax.scatter(pt[0], pt[1], **{**pt_opts, "label": point})
 
         # Plot line connecting initial value and solution
         if ln_opts is not None and point != "initial":
-- 
2.43.0


From a933234dcbe14a5db77f6c899b605a593bb6a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 10/52] fix: IterativeLinearProblem passed arguments its
 sub-problems do not accept

---
 src/mud/base.py | 13 ++++++-------
 src/mud/funs.py |  7 +++----
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ed42118..e269ae1 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1434,7 +1434,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
         self.cov = np.eye(dim_input) if cov is None else cov
         self.mu_i = np.zeros((dim_input, 1)) if mu_i is None else mu_i.reshape(-1, 1)
         self.b = np.zeros((n_samples, 1)) if b is None else b.reshape(-1, 1)
-        self.y = np.zeros(n_samples) if y is None else y.reshape(-1, 1)
+        self.y = np.zeros((n_samples, 1)) if y is None else y.reshape(-1, 1)
         self.idx_order = range(self.A.shape[0]) if idx_order is None else idx_order
 
         # Verify arguments?
@@ -1466,9 +1466,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[i : i + 1, i : i + 1],
                     )
                 )
 
@@ -1507,9 +1507,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
                 current_point = next_point
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
-        self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
-        )
+        kwargs.setdefault("plot_opts", {"color": color, "ls": ":", "lw": 1})
+        self.plot_contours(ref_param, ax=ax, subset=self.idx_order, **kwargs)
 
     def plot_chain_error(
         self, ref_param, ax=None, alpha=1.0, color="k", label=None, s=100, fontsize=12
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 3ed0817eb25e7a56ccd205d812950f156a487810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 11/52] fix: wme subtracted a column of data along the wrong
 axis

---
 src/mud/funs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..e3877b9 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -38,6 +38,7 @@ def wme(predictions, data, sd=None):
     numpy.ndarray of shape (n_samples, 1)
 
     """
+    data = np.ravel(data)
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
-- 
2.43.0


From 7956d17e982b6fd9b48f4e7b3188de02b92003ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 12/52] fix: load looks fields up under the names it is given

---
 src/mud/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e269ae1..1c34a82 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1800,9 +1800,10 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                if v in ds.keys() and ds[v] is not None:
+                    self.__setattr__(f, ds[v])
+            elif v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
-- 
2.43.0


From ad68366bcdc7791183205ccb1de8167fc9eb1980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 13/52] fix: check the new domain, not the old one, against the
 parameters

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1c34a82..7803fcb 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1632,7 +1632,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
-- 
2.43.0


From cd8aaa76f0183c84165a167c7e1ceaaf70bca77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 14/52] fix: reference parameters were not initialised and
 validate asked for true_lam

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7803fcb..93cbea3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1547,7 +1547,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1835,7 +1835,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 3502c6f9e1fbac341bc3b40a922f43a544848ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 15/52] fix: sub-sampling sensors assumed two coordinates per
 sensor

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 93cbea3..552a6fe 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1869,7 +1869,9 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = np.reshape(
+                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
+            )
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 2f4110b799b69e354caee300b5c4e064f00709cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 16/52] fix: data weights were applied to samples instead of
 data points

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 552a6fe..b70c304 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1998,8 +1998,8 @@ class SpatioTemporalProblem(object):
         sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != self.n_sensors * self.n_ts:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From 6d1ec1d10670b5fc747b6d0945a2dcb097f664ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 17/52] fix: wme map divided by the number of samples instead
 of data points

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b70c304..f97884a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1995,7 +1995,7 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
+        sub_n_data = sub_data.shape[1]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
@@ -2007,7 +2007,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_data)
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
-- 
2.43.0


From dbcdf51f8711429ff05630fccd9ada9b67dd0b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 18/52] fix: raise for an unrecognized QoI map

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f97884a..24d4d10 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2025,7 +2025,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
-- 
2.43.0


From 2b1e2d352e10b4b61c7624be0e69b0261b38e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 19/52] fix: reference solution bypassed the shape checks of
 true_vals

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 24d4d10..5c1969a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1752,7 +1752,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From fa8b4096936d8bca2e840c56bea9923b6aa213fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 20/52] fix: rank decomposition did not add up to the matrix

---
 src/mud/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 9254d65..2c69e3f 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -232,10 +232,9 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A_ranks = []
     rank_1_updates = []
     u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    for i in range(min(A.shape)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates))
 
     return A_ranks
 
-- 
2.43.0


From 04f4b5ecb023856636abeb09cc012e7542798a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 21/52] fix: add_noise keeps the shape of the signal

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 2c69e3f..67a4358 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -221,7 +221,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
         np.random.seed(seed)
 
     # Populate qoi_true with noise
-    noise = np.random.randn(signal.size) * sd
+    noise = np.random.randn(*signal.shape) * sd
 
     return signal + noise
 
-- 
2.43.0


From 70d1d91b7e57ac69358c904596bc091afe87c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 22/52] fix: full_functional failed with its default observed
 mean

---
 src/mud/norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..a57dbaf 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -47,7 +47,7 @@ def norm_input(inputs, initial_mean, initial_cov):
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
         observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+    X = (operator @ inputs.T + data) - np.transpose(observed_mean)
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From f57c809252d4b132dc46d9cf945299b16823a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 23/52] fix: plot_dist plotted the marginal of another
 coordinate

---
 src/mud/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/plot.py b/src/mud/plot.py
index b387120..b724b79 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,7 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain], indexing="ij")
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -220,7 +220,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 961b45eb4693b45d4f3d813e13441e6ece90dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 24/52] fix: BayesProblem.plot_obs_space plotted the marginal
 of another coordinate

---
 src/mud/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5c1969a..a81802d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -945,7 +945,9 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        XXX = np.meshgrid(
+            *[np.linspace(i, j, aff)[:-1] for i, j in y_range], indexing="ij"
+        )
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
@@ -957,7 +959,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
-- 
2.43.0


From 8023fdec928a1a4259db55b49736d917cc9ba47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 25/52] fix: log-posterior values were used as weights in
 BayesProblem plots

---
 src/mud/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index a81802d..e7f9aca 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -833,6 +833,12 @@ class BayesProblem(object):
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
+    def _ps_weights(self):
+        # Posterior density values, up to scale, also if fit on logarithms
+        if self._ps is None:
+            self.fit()
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     def map_point(self):
         if self._ps is None:
             self.fit()
@@ -886,7 +892,7 @@ class BayesProblem(object):
         if ps_opts is not None:
             pso.update(ps_opts)
             self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._ps_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -969,7 +975,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._ps_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From 0aec0dc4bed4f097790642eb3632e70169ddc8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 26/52] fix: plot_params_2d always plotted the first two
 parameters

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e7f9aca..92c1d9b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -687,21 +687,21 @@ class DensityProblem(object):
         if self.n_params < 2:
             raise AttributeError("2D plot requires at least 2 dim param space.")
         if x_1 >= self.n_params or x_2 >= self.n_params:
-            raise ValueError("indices {x_1+1},{x_2+1} > dim {self.n_params}")
+            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")
 
         c = None
         if y >= self.n_features:
-            raise ValueError("index {y+1} > dim {self.n_params}")
+            raise ValueError(f"index {y+1} > dim {self.n_features}")
         c = self.y[:, y]
 
         if ax is None:
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c, **kwargs)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From 680e767a8d1b5106545d9b60d252f8362a97e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 27/52] fix: name of the xarray flag

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 92c1d9b..95b7020 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
-- 
2.43.0


From b307afe4e894971bac1f138d8b59f01ea8a04c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 28/52] fix: scatter onto the axes passed in instead of the
 current axes

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 95b7020..79cc6fd 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1924,7 +1924,7 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
             fig = plt.gcf()
@@ -1965,7 +1965,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index b724b79..a86d083 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From 2f02af4de14ff0f536f3594387dbff521e8382f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 29/52] fix: mask of sensor_contour_plot did not select the
 contour values

---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 79cc6fd..7eeaebc 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1901,7 +1901,8 @@ class SpatioTemporalProblem(object):
             ax = fig.add_subplot(1, 1, 1)
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
-        contours = c_vals if c_vals is not None else self.data[idx, :].ravel()
+        data = self.data[idx, mask] if mask is not None else self.data[idx, :]
+        contours = c_vals if c_vals is not None else data.ravel()
 
         if fill:
             tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
-- 
2.43.0


From 591bfdbf17d81950e69e21f97ad66188e413fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 30/52] fix: default sample_dist of data_prob is not accepted

---
 src/mud/funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index e3877b9..5557ec2 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -217,7 +217,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
-- 
2.43.0


From 5cf0485d5ef0a2444c14feeeaa2004dd61149482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 31/52] fix: DensityProblem plots used an update computed
 before later changes

---
 src/mud/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7eeaebc..98c537d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -511,10 +511,9 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            if self._up is None:
+                self.fit()
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -599,6 +598,8 @@ class DensityProblem(object):
             raise ValueError("Invalid domain dimension")
 
         assert self._ob_dist is not None, "Observed dist empty"
+        if self._up is None:
+            self.fit()
         if ob_opts:
             oo.update(ob_opts)
             plot_dist(
@@ -614,10 +615,7 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From c4ba50a580b097d515bb962f41a2bd49f66ed9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 32/52] fix: get_errors returned the errors of an earlier
 reference parameter

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 98c537d..b0f3007 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1492,8 +1492,7 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From ecc6af024d90f64b9a39bd924d17480c76cf1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 33/52] fix: load set fields before the ones their shape and
 range depend on

---
 src/mud/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b0f3007..e735c73 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1816,6 +1816,8 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
+            "lam": lam,
+            "data": data,
             "lam_ref": "lam_ref",
             "std_dev": "std_dev",
             "true_vals": "true_vals",
@@ -1825,9 +1827,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From d57186ad2d08a40c087b1c3563bea6ff21ce108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 34/52] fix: judge a log posterior by its maximum, not by the
 sum of logarithms

---
 src/mud/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e735c73..b32456d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -823,11 +823,13 @@ class BayesProblem(object):
 
         if self._log:
             ps_pdf = np.add(np.log(self._pr), self._ll)
+            unstable = np.max(ps_pdf) == -np.inf
         else:
             ps_pdf = np.multiply(self._pr, self._ll)
+            unstable = np.sum(ps_pdf) == 0
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if unstable:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From 1acf8ab8b1af08db5b8880ca33c99f7877fe000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 35/52] fix: Bayesian functional failed where the predicted
 covariance is singular

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index b32456d..3acdbef 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1118,6 +1118,10 @@ class LinearGaussianProblem(object):
         if terms == "reg":
             return reg_term
 
+        bayes_fun = data_term + reg_term
+        if terms == "bayes":
+            return bayes_fun
+
         # Data-Consistent Term - "un-regularization" in data-informed directions
         dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
@@ -1128,10 +1132,6 @@ class LinearGaussianProblem(object):
         if terms == "reg_m":
             return reg_m_terms
 
-        bayes_fun = data_term + reg_term
-        if terms == "bayes":
-            return bayes_fun
-
         dc_fun = bayes_fun - dc_term
         if terms == "dc":
             return dc_fun
-- 
2.43.0


From 79d9e427840d42b03d313b1a46c2c10627558507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 36/52] fix: errors to a flat reference parameter were not
 distances

---
 src/mud/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3acdbef..140a4a3 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1494,7 +1494,8 @@ class IterativeLinearProblem(LinearGaussianProblem):
 
         """
         solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        ref = np.reshape(ref_param, (-1, 1))
+        self.errors = [np.linalg.norm(s - ref) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 406711e712c4170b74774c1d1cd30b4544a39600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 37/52] fix: options passed to svd were ignored

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..abb292d 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -167,6 +167,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From f1477529898f7f7ec58404ee8e27c1da9ac2bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 38/52] fix: default curve labels could not be rendered

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 140a4a3..e0e42b0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -483,9 +483,9 @@ class DensityProblem(object):
         -------
         """
         # Default options for plotting figures
-        io = {"color": "b", "linestyle": "--", "label": r"$\pi_\\mathrm{init}$"}
-        uo = {"color": "k", "linestyle": "-.", "label": r"$\pi_\\mathrm{update}$"}
-        wo = {"color": "b", "linestyle": ":", "label": r"$\\tilde{\pi}_\\mathrm{init}$"}
+        io = {"color": "b", "linestyle": "--", "label": r"$\pi_\mathrm{init}$"}
+        uo = {"color": "k", "linestyle": "-.", "label": r"$\pi_\mathrm{update}$"}
+        wo = {"color": "b", "linestyle": ":", "label": r"$\tilde{\pi}_\mathrm{init}$"}
         mo = {"color": "g", "label": r"$\lambda^\mathrm{MUD}$"}
         to = {"color": "r", "linestyle": "-.", "label": r"$\lambda^{\dagger}$"}
 
-- 
2.43.0


From 99af2b57db782c691773af2eb5111b72caf18a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 39/52] fix: plotting over a range given as a list failed

---
 src/mud/base.py | 1 +
 src/mud/plot.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index e0e42b0..51b5130 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -949,6 +949,7 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.array(y_range)
 
         # Build grid of points over range to compute marginals
         XXX = np.meshgrid(
diff --git a/src/mud/plot.py b/src/mud/plot.py
index a86d083..03bfece 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -208,6 +208,8 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    domain = np.array(domain)
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
-- 
2.43.0


From a8981189cc3a4bb654793e46136cc859905f74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 40/52] fix: contours after a zero row were drawn along the
 wrong direction

---
 src/mud/base.py | 4 +++-
 src/mud/plot.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 51b5130..d25d57e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1311,7 +1311,9 @@ class LinearGaussianProblem(object):
         # Build null-space (contour lines) for each subset row of A
         A = self.A[np.array(subset), :]
         numQoI = A.shape[0]
-        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+        AA = np.hstack(
+            [null_space(A[i, :].reshape(1, -1))[:, :1] for i in range(numQoI)]
+        ).T
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 03bfece..9f0222e 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -120,7 +120,9 @@ def plot_contours(
         subset = np.arange(A.shape[0])
     A = A[np.array(subset), :]
     numQoI = A.shape[0]
-    AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+    AA = np.hstack(
+        [null_space(A[i, :].reshape(1, -1))[:, :1] for i in range(numQoI)]
+    ).T
     for i, contour in enumerate(subset):
         xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
         yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
-- 
2.43.0


From 93bb98100e934478be19aae6916f285b2cdc4c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:21 +0000
Subject: [PATCH 41/52] fix: integer data wrapped around in residuals and
 distances

---
 src/mud/base.py | 2 ++
 src/mud/funs.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d25d57e..ff5ac6e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1700,6 +1700,7 @@ class SpatioTemporalProblem(object):
 
     @measurements.setter
     def measurements(self, measurements):
+        measurements = np.asarray(measurements, dtype=float)
         measurements = np.reshape(measurements, (self.n_sensors * self.n_ts, 1))
         self._measurements = measurements
 
@@ -1709,6 +1710,7 @@ class SpatioTemporalProblem(object):
 
     @true_vals.setter
     def true_vals(self, true_vals):
+        true_vals = np.asarray(true_vals, dtype=float)
         true_vals = np.reshape(true_vals, (self.n_sensors * self.n_ts, 1))
         self._true_vals = true_vals
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 5557ec2..02cc771 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -38,7 +38,7 @@ def wme(predictions, data, sd=None):
     numpy.ndarray of shape (n_samples, 1)
 
     """
-    data = np.ravel(data)
+    data = np.ravel(data).astype(float)
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
-- 
2.43.0


From e602a94102bb02757edc6b9d76d32153db56fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 42/52] fix: integers of narrow types wrapped around in linear
 problems

---
 src/mud/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ff5ac6e..04a2134 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1057,18 +1057,24 @@ class LinearGaussianProblem(object):
         alpha=1.0,
     ):
         # Make sure A is 2D array
-        A = np.array(A)
+        A = np.array(A, dtype=float)
         self.A = A if A.ndim == 2 else A.reshape(1, -1)
         ns, di = self.A.shape
 
         # Initialize to defaults - Reshape everything into 2D arrays.
-        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
-        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
+        self.b = (
+            np.zeros((ns, 1)) if b is None else np.array(b, dtype=float).reshape(-1, 1)
+        )
+        self.y = (
+            np.zeros((ns, 1)) if y is None else np.array(y, dtype=float).reshape(-1, 1)
+        )
         self.mean_i = (
-            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
+            np.zeros((di, 1))
+            if mean_i is None
+            else np.array(mean_i, dtype=float).reshape(-1, 1)
         )
-        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)
-        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)
+        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i, dtype=float)
+        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o, dtype=float)
 
         # How much to scale regularization terms
         self.alpha = alpha if alpha is not None else 1.0
-- 
2.43.0


From f263b48b9c6bbe5d13a148bfb75e5e4ddd9fff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 43/52] fix: updated_cov of narrow integers wrapped around

---
 src/mud/base.py | 2 +-
 src/mud/funs.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 04a2134..6666bc5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1232,7 +1232,7 @@ class LinearGaussianProblem(object):
         array([[0.25, 0.  ],
                [0.  , 0.25]])
         """
-        X = A if A is not None else self.A
+        X = np.asarray(A if A is not None else self.A, dtype=float)
         if init_cov is None:
             init_cov = self.cov_i
         else:
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 02cc771..63c1164 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -77,6 +77,7 @@ def updated_cov(X, init_cov=None, data_cov=None):
     array([[0.25, 0.  ],
            [0.  , 0.25]])
     """
+    X = np.asarray(X, dtype=float)
     if init_cov is None:
         init_cov = np.eye(X.shape[1])
     else:
-- 
2.43.0


From 856d5859100bdd35d0d061ee7abb5374ef15989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 44/52] fix: fit_domain cut the padding of whole-numbered
 samples

---
 src/mud/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index 67a4358..9c75a31 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -277,6 +277,8 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+        if pad_ratio % 1 != 0:  # whole samples, but the padding is not
+            min_max_bounds = min_max_bounds.astype(float)
     else:
         min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
-- 
2.43.0


From d516b3d0d17be920a38cf450a1aefd3852aa4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 45/52] fix: data weights were not checked against the selected
 data

mud_problem asked for one weight per datum of the whole problem also when
sensors or times are selected: weights of the selected data were refused,
the full vector failed to broadcast or, for a single selected datum,
silently turned into as many residuals as there are weights.
---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6666bc5..36afc42 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2018,7 +2018,7 @@ class SpatioTemporalProblem(object):
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
-            if data_weights.shape[1] != self.n_sensors * self.n_ts:
+            if data_weights.shape[1] != sub_n_data:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From 44d259451f1b1aeba4a81f83de2bb69acc6b8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 46/52] fix: noise levels given as numpy scalars were refused

The linear forms of the weighted mean error map took only float and int for
one noise level for all measurements, so np.float32(0.1) or np.int64(1)
failed with a TypeError.
---
 src/mud/base.py | 4 ++--
 src/mud/util.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 36afc42..7633048 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1369,7 +1369,7 @@ class LinearWMEProblem(LinearGaussianProblem):
         cov_o=None,
         alpha=1.0,
     ):
-        if isinstance(sigma, (float, int)):
+        if np.isscalar(sigma):
             sigma = [sigma] * len(data)
 
         results = [
@@ -1420,7 +1420,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             assert (
                 operator.shape[0] == num_observations
             ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-            if isinstance(std, (float, int)):
+            if np.isscalar(std):
                 std = np.array([std] * num_observations)
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
diff --git a/src/mud/util.py b/src/mud/util.py
index 9c75a31..f9663f3 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -54,7 +54,7 @@ def transform_linear_map(operator, data, std):
         assert (
             operator.shape[0] == num_observations
         ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-        if isinstance(std, (float, int)):
+        if np.isscalar(std):
             std = np.array([std] * num_observations)
         if isinstance(std, (list, tuple)):
             std = np.array(std)
@@ -73,7 +73,7 @@ def transform_linear_map(operator, data, std):
 
 
 def transform_linear_setup(operator_list, data_list, std_list):
-    if isinstance(std_list, (float, int)):
+    if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
     # repeat process for multiple quantities of interest
     results = [
-- 
2.43.0


From 37df2b998083cd88e01fe5076d51573fec5bce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 47/52] fix: scalar covariances of numpy type were not scaled
 identities

norm_input, norm_data and norm_predicted tried to invert np.float32(2) or
np.int64(2), np.linalg raised.
---
 src/mud/norm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index a57dbaf..ccdfeb1 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -38,21 +38,21 @@ def full_functional(
 
 
 def norm_input(inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.isscalar(initial_cov):
         initial_cov = initial_cov * np.eye(len(initial_mean))
     X = (inputs - initial_mean.T).T
     return inner_product(X, initial_cov)
 
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
-    if isinstance(observed_cov, int) or isinstance(observed_cov, float):
+    if np.isscalar(observed_cov):
         observed_cov = observed_cov * np.eye(len(data))
     X = (operator @ inputs.T + data) - np.transpose(observed_mean)
     return inner_product(X, observed_cov)
 
 
 def norm_predicted(operator, inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.isscalar(initial_cov):
         initial_cov = initial_cov * np.eye(len(initial_mean))
     predicted_cov = operator @ initial_cov @ operator.T
     # if operator is affine, we can factor it (for efficiency) to be same as linear
-- 
2.43.0


From 87035faa256b3fca00c035c5727acecc08b55fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 48/52] fix: linear forms of the weighted mean error map
 dropped outputs

With lists of operators, data and noise levels of different lengths the
outputs beyond the shortest list were left out silently.
---
 src/mud/base.py | 2 ++
 src/mud/util.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7633048..31691dc 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1371,6 +1371,8 @@ class LinearWMEProblem(LinearGaussianProblem):
     ):
         if np.isscalar(sigma):
             sigma = [sigma] * len(data)
+        if not len(operators) == len(data) <= len(sigma):
+            raise ValueError("Number of operators, data and noise levels differ")
 
         results = [
             self._transform_linear_map(o, d, s)
diff --git a/src/mud/util.py b/src/mud/util.py
index f9663f3..4d610dd 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -75,6 +75,8 @@ def transform_linear_map(operator, data, std):
 def transform_linear_setup(operator_list, data_list, std_list):
     if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
+    if not len(operator_list) == len(data_list) <= len(std_list):
+        raise ValueError("Number of operators, data and noise levels differ")
     # repeat process for multiple quantities of interest
     results = [
         transform_linear_map(o, d, s)
-- 
2.43.0


From 3de40713b50bb4cf0013634ca4fffbd8ba059503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 49/52] fix: reference parameters of too few entries were
 accepted

lam_ref with fewer entries than the domain has parameters was stored, one
with more failed with an IndexError.
---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index 31691dc..41b198a 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1636,6 +1636,8 @@ class SpatioTemporalProblem(object):
         if self.domain is None:
             raise AttributeError("domain not yet set.")
         lam_ref = np.reshape(lam_ref, (-1))
+        if len(lam_ref) != self.n_params:
+            raise ValueError("Parameter dimensions do not match domain specified.")
         for idx, lam in enumerate(lam_ref):
             if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                 raise ValueError(
-- 
2.43.0


From c6e8b01039ec5ea4fa1db796ad916f565f00d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 50/52] fix: refused observed distributions were kept for
 plotting

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 41b198a..c1cfd1d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -211,8 +211,8 @@ class DensityProblem(object):
             distribution N(0,1).
 
         """
-        self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._ob_dist = distribution
         self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
-- 
2.43.0


From c1b7a4af319c720609e091c9fd061d769cf3ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 51/52] fix: refused predicted distributions left new weights
 behind

---
 src/mud/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index c1cfd1d..708f2c9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -296,7 +296,14 @@ class DensityProblem(object):
         :meth:`set_initial` or :meth:`fit` first.
         """
         if weights is not None:
+            # Keep everything as it was if the distribution is refused
+            previous = self._weights, self._pr, self._pr_dist, self._up
             self.set_weights(weights)
+            try:
+                return self.set_predicted(distribution, bw_method, **kwargs)
+            except Exception:
+                self._weights, self._pr, self._pr_dist, self._up = previous
+                raise
 
         if distribution is None:
             # Reweight kde of predicted by weights if present
-- 
2.43.0


From aaee653517aba75cab7607e7d26f8cf7a37a478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 52/52] fix: refused likelihoods and priors changed the
 Bayesian problem

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 708f2c9..82fe96c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -795,19 +795,19 @@ class BayesProblem(object):
         return self.y.shape[0]
 
     def set_likelihood(self, distribution, log=False):
-        self._ll_dist = distribution
         if log:
-            self._log = True
             self._ll = distribution.logpdf(self.y).sum(axis=1)
+            self._log = True
             # equivalent evaluation (demonstrating the expected symmetry)
             # std, mean = distribution.std(), distribution.mean()
             # self._ll = dist.norm(self.y, std).logpdf(mean).sum(axis=1)
         else:
-            self._log = False
             self._ll = distribution.pdf(self.y).prod(axis=1)
+            self._log = False
             # equivalent
             # self._ll = dist.norm(self.y).pdf(distribution.mean())/distribution.std()
             # self._ll = self._ll.prod(axis=1)
+        self._ll_dist = distribution
         self._ps = None
 
     def set_prior(self, distribution=None):
@@ -818,8 +818,8 @@ class BayesProblem(object):
                 distribution = dist.uniform(loc=mn, scale=mx - mn)
             else:
                 distribution = dist.norm()
+        self._pr = distribution.pdf(self.X).prod(axis=1)
         self._pr_dist = distribution
-        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
         self._ps = None
 
     def fit(self):
-- 
2.43.0

