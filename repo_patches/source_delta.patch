From e1ff73ef3c1897cdb02a298794696eba4c069dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 01/48] fix: set_observed discards the updated density computed
 with the old observed density

---
 src/mud/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index bc9b719..7373c98 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -213,6 +213,7 @@ class DensityProblem(object):
         """
         self._ob_dist = distribution
         self._ob = distribution.pdf(self.y).prod(axis=1)
+        self._up = None
 
     def set_initial(self, distribution: Optional[rv_continuous] = None):
         """
-- 
2.43.0


From aed5c404447c546e413f93ddbd1840be6456567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 02/48] fix: fit_domain no longer overwrites the bounds passed
 in

---
 src/mud/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/util.py b/src/mud/util.py
index fad2040..60a4318 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -278,6 +278,7 @@ def fit_domain(
         if x is None:
             raise ValueError("Both x and min_max_bounds can't be None")
         min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
+    min_max_bounds = np.array(min_max_bounds)
     pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
     min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
     min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
-- 
2.43.0


From 9a5e017e22dede0b212d3237d1725f50b58ff56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 03/48] fix: density plots show the updated density of the
 current settings

---
 src/mud/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7373c98..b854f78 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -508,10 +508,9 @@ class DensityProblem(object):
             )
         if up_opts is not None:
             uo.update(up_opts)
-            if self._r is not None:
-                up_kde = gkde(self.X.T, weights=self._r * self._weights)
-            else:
-                up_kde = gkde(self.X.T, weights=None)
+            if self._up is None:
+                self.fit()
+            up_kde = gkde(self.X.T, weights=self._r * self._weights)
             plot_dist(
                 up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
             )
@@ -596,6 +595,8 @@ class DensityProblem(object):
             raise ValueError("Invalid domain dimension")
 
         assert self._ob_dist is not None, "Observed dist empty"
+        if self._up is None and (pr_opts or pf_opts):
+            self.fit()
         if ob_opts:
             oo.update(ob_opts)
             plot_dist(
@@ -611,10 +612,7 @@ class DensityProblem(object):
             fo.update(pf_opts)
 
             # Compute PF of updated
-            if self._r is not None:
-                pf_kde = gkde(self.y.T, weights=self._weights * self._r)
-            else:
-                pf_kde = gkde(self.y.T, weights=None)
+            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
             plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
 
         return ax
-- 
2.43.0


From d2fe7d524a90182bd563bcf3feeb24f3e953bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 04/48] fix: a predicted distribution over several features is
 their product

---
 src/mud/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index b854f78..83bbe95 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -304,6 +304,8 @@ class DensityProblem(object):
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
             pred_pdf_values = distribution.pdf(self.y, **kwargs)
+            if pred_pdf_values.ndim > 1:
+                pred_pdf_values = pred_pdf_values.prod(axis=1)
 
         self._pr_dist = distribution
         self._pr = pred_pdf_values.ravel()
-- 
2.43.0


From 70f689f80305a0ea4c7b206a8efb742019d52669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 05/48] fix: samples without mass no longer turn the updated
 density into NaN

---
 src/mud/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 83bbe95..d19bfbd 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -348,7 +348,10 @@ class DensityProblem(object):
 
         # Store ratio of observed/predicted
         # e.g. to comptue E(r) and to pass on to future iterations
-        self._r = np.divide(self._ob, self._pr)
+        # Samples with zero mass carry no ratio, even if their predicted is zero
+        empty = (self._pr == 0) & (self._in * self._weights * self._ob == 0)
+        self._r = np.divide(self._ob, np.where(empty, 1.0, self._pr))
+        self._r[empty] = 0.0
 
         # Multiply by initial to get updated pdf
         up_pdf = np.multiply(self._in * self._weights, self._r)
-- 
2.43.0


From 4bee054132d0e140b9a52bb9aad119e16a3df140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 06/48] fix: one-dimensional samples are repeated samples of a
 single parameter

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d19bfbd..4adc00c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -108,7 +108,7 @@ class DensityProblem(object):
         normalize: bool = False,
         pad_domain: float = 0.1,
     ):
-        self.X = set_shape(np.array(X), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
         self.y = set_shape(np.array(y), (-1, 1))
 
         # These will be updated in set_ and fit() functions
@@ -760,8 +760,8 @@ class BayesProblem(object):
         def set_shape(x, y):
             return x.reshape(y) if x.ndim < 2 else x
 
-        self.X = set_shape(np.array(X), (1, -1))
-        self.y = set_shape(np.array(y), (1, -1))
+        self.X = set_shape(np.array(X), (-1, 1))
+        self.y = set_shape(np.array(y), (-1, 1))
 
         if domain is not None:
             # Assert domain passed in is consistent with data array
-- 
2.43.0


From 18490c12e76e710ace9a74676c59eeb925690e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 07/48] fix: DensityProblem pads an omitted domain by
 pad_domain

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4adc00c..f83467c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
-- 
2.43.0


From 792b9445a4cd4669dec99dccc48a6eb5bdac7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 08/48] fix: BayesProblem detects a vanishing posterior in log
 scale, and only then

---
 src/mud/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f83467c..0959bc9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -824,12 +824,15 @@ class BayesProblem(object):
             self.set_likelihood()
 
         if self._log:
-            ps_pdf = np.add(np.log(self._pr), self._ll)
+            with np.errstate(divide="ignore"):
+                ps_pdf = np.add(np.log(self._pr), self._ll)
+            unstable = np.all(np.isneginf(ps_pdf))
         else:
             ps_pdf = np.multiply(self._pr, self._ll)
+            unstable = np.sum(ps_pdf) == 0
 
         assert ps_pdf.shape[0] == self.X.shape[0]
-        if np.sum(ps_pdf) == 0:
+        if unstable:
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
-- 
2.43.0


From 3cc9d33c66e402964958d2526d0f457041b6a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 09/48] fix: BayesProblem plots the current posterior, also in
 log scale

---
 src/mud/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0959bc9..61ac242 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -836,6 +836,11 @@ class BayesProblem(object):
             raise ValueError("Posterior numerically unstable.")
         self._ps = ps_pdf
 
+    def _posterior_weights(self):
+        if self._ps is None:
+            self.fit()
+        return np.exp(self._ps - np.max(self._ps)) if self._log else self._ps
+
     def map_point(self):
         if self._ps is None:
             self.fit()
@@ -888,8 +893,7 @@ class BayesProblem(object):
             )
         if ps_opts is not None:
             pso.update(ps_opts)
-            self.estimate()
-            ps_kde = gkde(self.X.T, weights=self._ps)
+            ps_kde = gkde(self.X.T, weights=self._posterior_weights())
             plot_dist(
                 ps_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **pso
             )
@@ -970,7 +974,7 @@ class BayesProblem(object):
             po.update(pf_opts)
 
             # Compute PF of posterior
-            pf_kde = gkde(self.y.T, weights=self._ps)
+            pf_kde = gkde(self.y.T, weights=self._posterior_weights())
             pf_p = margins(np.reshape(pf_kde(grid_points).T, XXX[0].shape))[
                 obs_idx
             ].reshape(-1)
-- 
2.43.0


From f551ec3fed81ae3ffbf1ba7330bde8baae256759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 10/48] fix: marginals are taken along the coordinate asked for

---
 src/mud/base.py | 5 +++--
 src/mud/plot.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 61ac242..7584033 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -952,7 +952,8 @@ class BayesProblem(object):
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
 
         # Build grid of points over range to compute marginals
-        XXX = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in y_range])
+        axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
+        XXX = np.meshgrid(*axes, indexing="ij")
         grid_points = np.vstack([x.ravel() for x in XXX])
         y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
 
@@ -964,7 +965,7 @@ class BayesProblem(object):
 
             # Compute observed distribution using stored pdf
             ll_plot = margins(
-                np.reshape(self._ll_dist.pdf(grid_points).T.prod(axis=1), XXX[0].shape)
+                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
             )[obs_idx].reshape(-1)
 
             # Plot pf of initial
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 5970521..b7428bc 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -194,7 +194,8 @@ def build_nd_mesh_grid(domain, aff=100):
 
     """
 
-    mesh = np.meshgrid(*[np.linspace(i, j, aff)[:-1] for i, j in domain])
+    axes = [np.linspace(i, j, aff)[:-1] for i, j in domain]
+    mesh = np.meshgrid(*axes, indexing="ij")
     grid_points = np.vstack([x.ravel() for x in mesh])
 
     return (mesh, grid_points)
@@ -220,7 +221,7 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
         ].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
-        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape).T)[idx].reshape(-1)
+        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
     else:
         raise ValueError("Source must be one of pdf or kde.")
 
-- 
2.43.0


From 783db23b15efdc6fc32536686438500fba03d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 11/48] fix: plot_params_2d shows the two requested parameters

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 7584033..d78033b 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -687,21 +687,21 @@ class DensityProblem(object):
         if self.n_params < 2:
             raise AttributeError("2D plot requires at least 2 dim param space.")
         if x_1 >= self.n_params or x_2 >= self.n_params:
-            raise ValueError("indices {x_1+1},{x_2+1} > dim {self.n_params}")
+            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")
 
         c = None
         if y >= self.n_features:
-            raise ValueError("index {y+1} > dim {self.n_params}")
+            raise ValueError(f"index {y+1} > dim {self.n_features}")
         c = self.y[:, y]
 
         if ax is None:
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, 0], self.X[:, 1], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
 
         if contours:
-            ax.tricontour(self.X[:, 0], self.X[:, 1], c, levels=20)
+            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-- 
2.43.0


From b091f6c8c613fd3c0a1125c2d6645fc698fe20e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 12/48] fix: time series, sensor and vector scatters are drawn
 on the given axes

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d78033b..5284188 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1925,7 +1925,7 @@ class SpatioTemporalProblem(object):
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
 
-        sp = plt.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
+        sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
             fig = plt.gcf()
@@ -1966,7 +1966,7 @@ class SpatioTemporalProblem(object):
             "s": 2,
         }
         def_kwargs.update(meas_kwargs)
-        _ = plt.scatter(times, sub_meas, **def_kwargs)
+        _ = ax.scatter(times, sub_meas, **def_kwargs)
 
         # Plot simulated data time series
         def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
diff --git a/src/mud/plot.py b/src/mud/plot.py
index b7428bc..1779e8d 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -154,7 +154,7 @@ def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):
     for i, v in enumerate(vecs):
         if markers is not None:
             kwargs["marker"] = markers[i]
-        plt.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
+        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
 
     if label:
         ax.set_xlabel("i")
-- 
2.43.0


From bab5fb39d2aebe2b1954fb44193345e5cc10e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 13/48] fix: compute_functionals uses the data misfit A x + b -
 y and the scaled initial covariance of solve

---
 src/mud/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 5284188..ee16693 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1101,27 +1101,25 @@ class LinearGaussianProblem(object):
         individual terms in functionals that are minimized to solve the
         linear gaussian problem.
         """
-        # Compute observed mean
-        mean_o = self.y - self.b
+        # Weight initial covariance according to alpha parameter, as in solve
+        a_cov_i = self.alpha * self.cov_i
 
         # Define inner-producted induced by vector norm
         def ip(X, mat):
             return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
 
         # First compute data mismatch norm
-        data_term = ip((self.A @ X.T + self.b) - mean_o.T, self.cov_o)
+        data_term = ip((self.A @ X.T + self.b) - self.y, self.cov_o)
         if terms == "data":
             return data_term
 
         # Tikhonov Regularization Term
-        reg_term = self.alpha * ip((X - self.mean_i.T).T, self.cov_i)
+        reg_term = ip((X - self.mean_i.T).T, a_cov_i)
         if terms == "reg":
             return reg_term
 
         # Data-Consistent Term - "un-regularization" in data-informed directions
-        dc_term = self.alpha * ip(
-            self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T
-        )
+        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
             return dc_term
 
-- 
2.43.0


From 9074137b4608817bd7009e1543bacd0114c636ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 14/48] fix: norm_data accepts the default observed mean and
 several outputs

---
 src/mud/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index 543badd..cee9d17 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -46,8 +46,9 @@ def norm_input(inputs, initial_mean, initial_cov):
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
     if isinstance(observed_cov, int) or isinstance(observed_cov, float):
-        observed_cov = observed_cov * np.eye(len(data))
-    X = (operator @ inputs.T + data) - observed_mean.T
+        observed_cov = observed_cov * np.eye(len(operator))
+    data = np.reshape(data, (-1, 1))
+    X = (operator @ inputs.T + data) - np.reshape(observed_mean, (-1, 1))
     return inner_product(X, observed_cov)
 
 
-- 
2.43.0


From a80c7e1d7409959b0e0ef50613b0233558c26c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 15/48] fix: the iterative solver passes its settings on to the
 single-row problems

---
 src/mud/base.py | 6 +++---
 src/mud/funs.py | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index ee16693..2832958 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1475,9 +1475,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
                         self.A[i, :],
                         self.b[i],
                         self.y[i],
-                        mean=solutions[-1],
-                        cov=self.cov,
-                        data_cov=self.data_cov,
+                        mean_i=solutions[-1],
+                        cov_i=self.cov,
+                        cov_o=self.data_cov[[i], :][:, [i]],
                     )
                 )
 
diff --git a/src/mud/funs.py b/src/mud/funs.py
index 7b74e74..d030ecf 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -174,10 +174,9 @@ def iter_lin_solve(
         A,
         b=b,
         y=y,
-        mean_i=mean,
-        cov_i=cov,
-        cov_o=data_cov,
-        alpha=1.0,
+        mu_i=mean,
+        cov=cov,
+        data_cov=data_cov,
         idx_order=idx_order,
     )
     res = lin_prob.solve(num_epochs=num_epochs, method=method)
-- 
2.43.0


From 8b5912adff3a52defed7ba3156ee4d9c88809931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 16/48] fix: get_errors measures against the reference asked
 for

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2832958..f20a8d8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1494,9 +1494,9 @@ class IterativeLinearProblem(LinearGaussianProblem):
         Get errors with respect to a reference parameter
 
         """
-        solutions = np.concatenate([x[1:] for x in self.solution_chains])
-        if len(solutions) != len(self.errors):
-            self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
+        ref = np.reshape(ref_param, (-1, 1))
+        solutions = [s for chain in self.solution_chains for s in chain[1:]]
+        self.errors = [np.linalg.norm(s - ref) for s in solutions]
         return self.errors
 
     def plot_chain(self, ref_param, ax=None, color="k", s=100, **kwargs):
-- 
2.43.0


From 2a12f0394ce768461ce83b28e624c21e88b506fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 17/48] fix: contours of linear problems can be plotted with
 the default options

---
 src/mud/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f20a8d8..6d23e2c 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1292,7 +1292,7 @@ class LinearGaussianProblem(object):
         note_loc=None,
         w=1,
         label="{i}",
-        plot_opts={"color": "k", "ls": ":", "lw": 1, "fs": 20},
+        plot_opts={"color": "k", "ls": ":", "lw": 1},
         annotate_opts={"fontsize": 20},
     ):
         """
@@ -1517,7 +1517,11 @@ class IterativeLinearProblem(LinearGaussianProblem):
             ax.scatter(current_point[0], current_point[1], c="g", s=s)
             ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
         self.plot_contours(
-            ref_param, ax=ax, subset=self.idx_order, color=color, s=s, **kwargs
+            ref_param,
+            ax=ax,
+            subset=self.idx_order,
+            plot_opts={"color": color, "ls": ":", "lw": 1},
+            **kwargs,
         )
 
     def plot_chain_error(
-- 
2.43.0


From f0162bcaa8f636ffc516e1bf1fce774523e55c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 18/48] fix: negative standard deviations are rejected per
 observation too

---
 src/mud/base.py | 2 +-
 src/mud/util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6d23e2c..aad2b30 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1417,7 +1417,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
             assert len(std) == num_observations, "Standard deviation shape mismatch"
-            assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+            assert np.all(np.asarray(std) > 1e-14), "Std must be > 1E-14"
             D = np.diag(1.0 / (std * np.sqrt(num_observations)))
             A = np.sum(D @ operator, axis=0)
         else:
diff --git a/src/mud/util.py b/src/mud/util.py
index 60a4318..6b3734d 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -59,7 +59,7 @@ def transform_linear_map(operator, data, std):
         if isinstance(std, (list, tuple)):
             std = np.array(std)
         assert len(std) == num_observations, "Standard deviation shape mismatch"
-        assert 0 not in np.round(std, 14), "Std must be > 1E-14"
+        assert np.all(np.asarray(std) > 1e-14), "Std must be > 1E-14"
         D = np.diag(1.0 / (std * np.sqrt(num_observations)))
         A = np.sum(D @ operator, axis=0)
     else:
-- 
2.43.0


From 9d0f0ce1284c0fef228b30fc58615444eca2d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 19/48] fix: SpatioTemporalProblem.load reads renamed fields
 and values given directly

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index aad2b30..0b6bfd0 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -16,7 +16,7 @@ from mud.util import add_noise, fit_domain, make_2d_unit_mesh, null_space, set_s
 try:
     import xarray as xr  # type: ignore
 
-    xr_avial = True
+    xr_avail = True
 except ModuleNotFoundError:
     xr_avail = False
     pass
@@ -1814,9 +1814,9 @@ class SpatioTemporalProblem(object):
             ds = df
 
         def get_set_val(f, v):
-            if f in ds.keys():
-                self.__setattr__(f, ds[v])
-            elif v is not None and not isinstance(v, str):
+            if isinstance(v, str):
+                v = ds[v] if v in ds.keys() else None
+            if v is not None:
                 self.__setattr__(f, v)
 
         field_names = {
-- 
2.43.0


From cf8168fbffa567f1b406da202fef34c0b1892724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 20/48] fix: SpatioTemporalProblem.load sets fields after those
 they are checked against

---
 src/mud/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0b6bfd0..f977fb8 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1824,6 +1824,8 @@ class SpatioTemporalProblem(object):
             "domain": "domain",
             "sensors": "sensors",
             "times": "times",
+            "lam": lam,
+            "data": data,
             "lam_ref": "lam_ref",
             "std_dev": "std_dev",
             "true_vals": "true_vals",
@@ -1833,9 +1835,6 @@ class SpatioTemporalProblem(object):
         for f, v in field_names.items():
             get_set_val(f, v)
 
-        get_set_val("lam", lam)
-        get_set_val("data", data)
-
         return ds
 
     def validate(
-- 
2.43.0


From d2434dee0de617933ebc2d1e73a402411fe2cacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 21/48] fix: a new domain is checked against the samples, and
 validation knows lam_ref

---
 src/mud/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f977fb8..4e0afae 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1561,7 +1561,7 @@ class SpatioTemporalProblem(object):
         self._lam = None
         self._data = None
         self._measurements = None
-        self._true_lam = None
+        self._lam_ref = None
         self._true_vals = None
         self._sample_dist = None
         self.sensors = None
@@ -1646,7 +1646,7 @@ class SpatioTemporalProblem(object):
     def domain(self, domain):
         domain = np.reshape(domain, (-1, 2))
         if self.lam is not None:
-            if self.domain.shape[0] != self.lam.shape[1]:
+            if domain.shape[0] != self.lam.shape[1]:
                 raise ValueError("Domain and parameter array dimension mismatch.")
             min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
             if not all(
@@ -1847,7 +1847,7 @@ class SpatioTemporalProblem(object):
         if check_meas:
             req_attrs.append("measurements")
         if check_true:
-            req_attrs.append("true_lam")
+            req_attrs.append("lam_ref")
             req_attrs.append("true_vals")
 
         missing = [x for x in req_attrs if self.__getattribute__(x) is None]
-- 
2.43.0


From 43e5e004971848aef075f4ff5f97875fad234545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 22/48] fix: sub-sampling works for any number of sensor
 coordinates and single indices

---
 src/mud/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4e0afae..030e4d5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1869,6 +1869,12 @@ class SpatioTemporalProblem(object):
         else:
             sub_meas = None
 
+        # Treat a single index as a list of one, so that no dimension is dropped
+        samples_mask, times_mask, sensors_mask = (
+            [m] if isinstance(m, (int, np.integer)) else m
+            for m in (samples_mask, times_mask, sensors_mask)
+        )
+
         sub_times = self.times
         sub_sensors = self.sensors
         sub_lam = self.lam
@@ -1881,7 +1887,7 @@ class SpatioTemporalProblem(object):
             if sub_meas is not None:
                 sub_meas = sub_meas[:, times_mask]
         if sensors_mask is not None:
-            sub_sensors = np.reshape(self.sensors[sensors_mask], (-1, 2))
+            sub_sensors = self.sensors[sensors_mask]
             sub_data = sub_data[:, sensors_mask, :]
             if sub_meas is not None:
                 sub_meas = sub_meas[sensors_mask, :]
-- 
2.43.0


From 5005d18b4522ce73fdc0f7496ab863622d09a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 23/48] fix: the mean error map is scaled by the number of
 observations

---
 src/mud/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 030e4d5..2bd0fbc 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2011,7 +2011,6 @@ class SpatioTemporalProblem(object):
             sensors_mask=sensors_mask,
         )
         residuals = (sub_meas - sub_data) / self.std_dev
-        sub_n_samples = sub_data.shape[0]
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (-1, 1))
@@ -2023,7 +2022,7 @@ class SpatioTemporalProblem(object):
             residuals = data_weights * residuals
 
         if method == "wme":
-            qoi = np.sum(residuals, axis=1) / np.sqrt(sub_n_samples)
+            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
         elif method == "pca":
             # Learn qoi to use using PCA
             pca_res, X_train = pca(residuals, n_components=num_components)
@@ -2043,7 +2042,6 @@ class SpatioTemporalProblem(object):
         else:
             ValueError(f"Unrecognized QoI Map type {method}")
 
-        # qoi = qoi.reshape(sub_n_samples, -1)
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
         return d
-- 
2.43.0


From 9dcab115fcf302f8de302d5b9d9e41afb42c59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 24/48] fix: data weights multiply the residuals observation by
 observation

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 2bd0fbc..6d2fed5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2013,8 +2013,8 @@ class SpatioTemporalProblem(object):
         residuals = (sub_meas - sub_data) / self.std_dev
 
         if data_weights is not None:
-            data_weights = np.reshape(data_weights, (-1, 1))
-            if data_weights.shape[0] != self.n_sensors * self.n_ts:
+            data_weights = np.reshape(data_weights, (1, -1))
+            if data_weights.shape[1] != self.n_sensors * self.n_ts:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From cc5fa45eaae7f745d4d19ba85bfd1ae715d94209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 25/48] fix: an unknown QoI map type raises the intended error

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6d2fed5..34d6848 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2040,7 +2040,7 @@ class SpatioTemporalProblem(object):
             self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
             qoi = residuals @ (v[0:num_components, :]).T
         else:
-            ValueError(f"Unrecognized QoI Map type {method}")
+            raise ValueError(f"Unrecognized QoI Map type {method}")
 
         d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)
 
-- 
2.43.0


From 5f0f9bba16fdabb7a51d5e5c9ce6f074f347c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 26/48] fix: a reference of any shape is stored as true values
 before adding noise

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 34d6848..bd6907f 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1766,7 +1766,7 @@ class SpatioTemporalProblem(object):
         Add noise to a reference solution.
         """
         if ref is not None:
-            self._true_vals = ref
+            self.true_vals = ref
         if std_dev is not None:
             self.std_dev = std_dev
         if self.true_vals is None or self.std_dev is None:
-- 
2.43.0


From 0c11a47db7af03e39fdf606e8f2be5a2b9424d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 27/48] fix: wme accepts data given as a column or a row

---
 src/mud/funs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index d030ecf..e3877b9 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -38,6 +38,7 @@ def wme(predictions, data, sd=None):
     numpy.ndarray of shape (n_samples, 1)
 
     """
+    data = np.ravel(data)
     sd = np.std(data) if sd is None else sd
     predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
     N = predictions.shape[1]
-- 
2.43.0


From ba225e768c620b3a6e705a9308c3328fa2ae3e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 28/48] fix: data_prob runs with its default arguments

---
 src/mud/funs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/funs.py b/src/mud/funs.py
index e3877b9..7af4d3c 100644
--- a/src/mud/funs.py
+++ b/src/mud/funs.py
@@ -217,7 +217,7 @@ def data_prob(
     qoi_true=None,
     measurements=None,
     std_dev=None,
-    sample_dist="uniform",
+    sample_dist="u",
     domain=None,
     lam_ref=None,
     times=None,
@@ -246,7 +246,7 @@ def data_prob(
         "sensors": sensors,
     }
     sp_prob = SpatioTemporalProblem()
-    sp_prob.load(data)
+    sp_prob.load({k: v for k, v in data.items() if v is not None})
     D = sp_prob.mud_problem(method=method)
     D.set_initial(init_dist)
     D.set_observed(dists.norm(0, 1))  # always N(0,1) for WME map
-- 
2.43.0


From 28aa5b9c8e2ec8c495e36314a56cb656a178eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 29/48] fix: rank_decomposition sums the leading singular
 triples

---
 src/mud/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 6b3734d..4ed6ed7 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -231,11 +231,10 @@ def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
     A = np.array(A)
     A_ranks = []
     rank_1_updates = []
-    u, s, v = np.linalg.svd(A)
-    A_ranks.append(s[0] * (u[:, 0].reshape(-1, 1)) @ v[:, 0].reshape(1, -1))
-    for i in range(1, A.shape[1]):
-        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ v[:, i].reshape(1, -1))
-        A_ranks.append(sum(rank_1_updates[0:i]))
+    u, s, vh = np.linalg.svd(A)
+    for i in range(len(s)):
+        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
+        A_ranks.append(sum(rank_1_updates))
 
     return A_ranks
 
-- 
2.43.0


From 55e70cd424122b62920841f2fa66fc17c01182bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 30/48] fix: add_noise keeps the shape of the signal

---
 src/mud/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/util.py b/src/mud/util.py
index 4ed6ed7..2bcc744 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -223,7 +223,7 @@ def add_noise(signal: ArrayLike, sd: float = 0.05, seed: Optional[int] = None):
     # Populate qoi_true with noise
     noise = np.random.randn(signal.size) * sd
 
-    return signal + noise
+    return signal + noise.reshape(signal.shape)
 
 
 def rank_decomposition(A: np.typing.ArrayLike) -> List[np.ndarray]:
-- 
2.43.0


From cf0cdbe47a4bc763e9538f66bbaeb136f11ef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 31/48] fix: samples without mass keep a finite ratio where the
 predicted density underflows

---
 src/mud/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bd6907f..37865b6 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -348,10 +348,11 @@ class DensityProblem(object):
 
         # Store ratio of observed/predicted
         # e.g. to comptue E(r) and to pass on to future iterations
-        # Samples with zero mass carry no ratio, even if their predicted is zero
-        empty = (self._pr == 0) & (self._in * self._weights * self._ob == 0)
-        self._r = np.divide(self._ob, np.where(empty, 1.0, self._pr))
-        self._r[empty] = 0.0
+        # Samples with zero mass carry no ratio, even if their predicted vanishes
+        empty = self._in * self._weights * self._ob == 0
+        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
+            self._r = np.divide(self._ob, self._pr)
+        self._r[empty & ~np.isfinite(self._r)] = 0.0
 
         # Multiply by initial to get updated pdf
         up_pdf = np.multiply(self._in * self._weights, self._r)
-- 
2.43.0


From 6ee0665622c45e8135e894e5b53cae00c0e9d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 32/48] fix: omitted domains of integer samples keep their
 fractional padding

---
 src/mud/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 37865b6..4e087c5 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -129,7 +129,7 @@ class DensityProblem(object):
             ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
 
         else:
-            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
+            self.domain = fit_domain(self.X * 1.0, pad_ratio=pad_domain)
 
         # Initialize weights
         self.set_weights(weights, normalize=normalize)
@@ -769,7 +769,7 @@ class BayesProblem(object):
             self.domain = set_shape(np.array(domain), (1, -1))
             assert self.domain.shape[0] == self.n_params
         else:
-            self.domain = fit_domain(self.X)
+            self.domain = fit_domain(self.X * 1.0)
 
         # Initialize ps, predicted, and likelihood values/distributions
         self._ps = None
-- 
2.43.0


From 93b2854cbb40dd17013ec7978ef12d7ba821cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 33/48] fix: the Bayesian functional does not need an
 invertible predicted covariance

---
 src/mud/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 4e087c5..a0412c9 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1119,6 +1119,10 @@ class LinearGaussianProblem(object):
         if terms == "reg":
             return reg_term
 
+        bayes_fun = data_term + reg_term
+        if terms == "bayes":
+            return bayes_fun
+
         # Data-Consistent Term - "un-regularization" in data-informed directions
         dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
         if terms == "dc_term":
@@ -1129,10 +1133,6 @@ class LinearGaussianProblem(object):
         if terms == "reg_m":
             return reg_m_terms
 
-        bayes_fun = data_term + reg_term
-        if terms == "bayes":
-            return bayes_fun
-
         dc_fun = bayes_fun - dc_term
         if terms == "dc":
             return dc_fun
-- 
2.43.0


From 0ec59100ea97dca9cb31f4d292d8d31b1b86c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 34/48] fix: plot ranges may be given as nested lists

---
 src/mud/base.py | 1 +
 src/mud/plot.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/mud/base.py b/src/mud/base.py
index a0412c9..1c41e7e 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -951,6 +951,7 @@ class BayesProblem(object):
         # Default range is (-1,1) over each observable variable
         if y_range is None:
             y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)
+        y_range = np.array(y_range)
 
         # Build grid of points over range to compute marginals
         axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 1779e8d..9fc85cf 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -209,6 +209,9 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # Create plot if one isn't passed in
     _, ax = plt.subplots(1, 1) if ax is None else (None, ax)
 
+    # Ranges may be given as nested lists
+    domain = np.array(domain)
+
     # Mesh is a list of grids over n-dim space the distribution is defined over
     mesh, grid = build_nd_mesh_grid(domain, aff=aff)
     plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]
-- 
2.43.0


From 5fa13ec04c5dfda3566e1a65cf322de72f3dade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 35/48] fix: predicted densities given as objects or with
 arguments can be plotted

---
 src/mud/base.py | 5 ++++-
 src/mud/plot.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 1c41e7e..f533432 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -303,6 +303,9 @@ class DensityProblem(object):
             distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
             pred_pdf_values = distribution.pdf(self.y.T).T
         else:
+            if kwargs and isinstance(distribution, rv_continuous):
+                # Keep the arguments with the distribution, it is plotted later
+                distribution, kwargs = distribution(**kwargs), {}
             pred_pdf_values = distribution.pdf(self.y, **kwargs)
             if pred_pdf_values.ndim > 1:
                 pred_pdf_values = pred_pdf_values.prod(axis=1)
@@ -610,7 +613,7 @@ class DensityProblem(object):
             )
         if pr_opts:
             po.update(pr_opts)
-            source = "pdf" if isinstance(self._pr_dist, type(dist.uniform())) else "kde"
+            source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"
             plot_dist(
                 self._pr_dist, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **po
             )
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 9fc85cf..27976d7 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -219,9 +219,9 @@ def plot_dist(dist, domain, ax=None, idx=0, source="kde", aff=100, **kwargs):
     # TODO: Add check that domain size matches dimension of dist
     if source == "pdf":
         # Compute observed distribution using stored pdf
-        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
-            idx
-        ].reshape(-1)
+        values = dist.pdf(grid.T)
+        values = values.prod(axis=1) if values.ndim > 1 else values
+        plot_y = margins(np.reshape(values, mesh[idx].shape))[idx].reshape(-1)
     elif source == "kde":
         # Compute observed distribution using kernel density estimate
         plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
-- 
2.43.0


From 8dfdf7e9d970352ee107cd9ccdd32727e1f115bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 36/48] fix: plot_params_2d passes its keyword arguments to
 scatter

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index f533432..bb81439 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -702,7 +702,7 @@ class DensityProblem(object):
             fig = plt.figure(figsize=(5, 5))
             ax = fig.add_subplot(1, 1, 1)
 
-        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c)
+        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], c=c, **kwargs)
 
         if contours:
             ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
-- 
2.43.0


From 01c85465949deb83bd03c82831aa80489335b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 37/48] fix: the colour bar of plot_params_2d goes to the
 figure of its axes

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index bb81439..890f3a7 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -709,8 +709,7 @@ class DensityProblem(object):
             ax.set_title(f"$q_{y+1}$")
 
         if colorbar and c is not None:
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         ax.set_xlabel(rf"$\lambda_{x_1+1}$")
         ax.set_ylabel(rf"$\lambda_{x_2+1}$")
-- 
2.43.0


From 622992cfa1d9663af07f631c7b69f2cf6c020433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 38/48] fix: svd passes its keyword arguments to np.linalg.svd

---
 src/mud/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index 64efd10..abb292d 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -167,6 +167,6 @@ def svd(data: ArrayLike, **kwargs) -> Tuple[np.ndarray, np.ndarray, np.ndarray]:
     # Standarize and perform SVD
     sc = StandardScaler()
     X = sc.fit_transform(data)
-    U, S, V = np.linalg.svd(X)
+    U, S, V = np.linalg.svd(X, **kwargs)
 
     return (U, S, V)
-- 
2.43.0


From 22cd7d5dc4cc0d885a6ef9a41ee62ed3377f6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 39/48] fix: contour lines pass through the reference point

---
 src/mud/base.py | 4 ++--
 src/mud/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 890f3a7..c71ce87 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1319,8 +1319,8 @@ class LinearGaussianProblem(object):
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
-            xloc = [ref[0] - w * AA[i, 0], ref[1] + w * AA[i, 0]]
-            yloc = [ref[0] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
+            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
+            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
             ax.plot(xloc, yloc, **plot_opts)
 
             # If annotate is set, then label line with given annotations
diff --git a/src/mud/plot.py b/src/mud/plot.py
index 27976d7..c496a40 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -122,8 +122,8 @@ def plot_contours(
     numQoI = A.shape[0]
     AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
     for i, contour in enumerate(subset):
-        xloc = [ref_param[0] - w * AA[i, 0], ref_param[1] + w * AA[i, 0]]
-        yloc = [ref_param[0] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
+        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
+        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
         plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
         plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
 
-- 
2.43.0


From ed7e9c4861c7688415f438b83f65395f9094c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 40/48] fix: plot_sol leaves the options passed to it as they
 are

---
 src/mud/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index c71ce87..9c10d46 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1268,10 +1268,9 @@ class LinearGaussianProblem(object):
 
         # Get solution point or initial poitn to plot.
         pt = self.mean_i if point == "initial" else self.solve(method=point)
-        pt_opts["label"] = point
 
         # Plot point
-        ax.scatter(pt[0], pt[1], **pt_opts)
+        ax.scatter(pt[0], pt[1], **{**pt_opts, "label": point})
 
         # Plot line connecting initial value and solution
         if ln_opts is not None and point != "initial":
-- 
2.43.0


From 5f6df8217ce1c74758e627fccb5777e5eb2c1229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 41/48] fix: sensor contours of a subset use the data of that
 subset

---
 src/mud/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 9c10d46..6e1f3a2 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1912,7 +1912,10 @@ class SpatioTemporalProblem(object):
             ax = fig.add_subplot(1, 1, 1)
 
         sensors = self.sensors[mask, :] if mask is not None else self.sensors
-        contours = c_vals if c_vals is not None else self.data[idx, :].ravel()
+        contours = c_vals
+        if contours is None:
+            contours = self.data[idx, :].ravel()
+            contours = contours[mask] if mask is not None else contours
 
         if fill:
             tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
-- 
2.43.0


From d77b46fcdaacc77f623d3c1699db6f618aecb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 42/48] fix: sensor plot colour bars go to the figure of their
 axes

---
 src/mud/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 6e1f3a2..3c3f367 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1923,8 +1923,7 @@ class SpatioTemporalProblem(object):
             tc = ax.tricontour(sensors[:, 0], sensors[:, 1], contours, **kwargs)
 
         if colorbar:
-            fig = plt.gcf()
-            fig.colorbar(tc)
+            ax.figure.colorbar(tc, ax=ax)
 
         return ax
 
@@ -1941,8 +1940,7 @@ class SpatioTemporalProblem(object):
         sp = ax.scatter(sensors[:, 0], sensors[:, 1], **kwargs)
 
         if colorbar and "c" in kwargs.keys():
-            fig = plt.gcf()
-            fig.colorbar(sp)
+            ax.figure.colorbar(sp, ax=ax)
 
         return ax
 
-- 
2.43.0


From bf612334181a089ecfc4556d3bebed0640adc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 43/48] fix: pca computes exact components for more than 500
 samples

---
 src/mud/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mud/preprocessing.py b/src/mud/preprocessing.py
index abb292d..d1559d9 100644
--- a/src/mud/preprocessing.py
+++ b/src/mud/preprocessing.py
@@ -98,7 +98,8 @@ def pca(data: ArrayLike, n_components: int = 2, **kwargs) -> Tuple[PCA, np.ndarr
 
     # Standarize and perform linear PCA
     sc = StandardScaler()
-    pca = PCA(n_components=n_components, **kwargs)
+    # The default solver of large data is randomized, i.e. inexact and unseeded
+    pca = PCA(n_components=n_components, **{"svd_solver": "full", **kwargs})
     X_train = pca.fit_transform(sc.fit_transform(data))
 
     return pca, X_train
-- 
2.43.0


From ad6122e845ea6f57d8923876461e43867a98076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:53 +0000
Subject: [PATCH 44/48] fix: data weights are checked against the selected data

---
 src/mud/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 3c3f367..0ac754d 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -2018,7 +2018,7 @@ class SpatioTemporalProblem(object):
 
         if data_weights is not None:
             data_weights = np.reshape(data_weights, (1, -1))
-            if data_weights.shape[1] != self.n_sensors * self.n_ts:
+            if data_weights.shape[1] != residuals.shape[1]:
                 raise ValueError(
                     "Data weights vector and dimension of data space does not match"
                 )
-- 
2.43.0


From c9353de6dc4f057e40a349295925cff543d4e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 45/48] fix: data given as nested lists are flattened in the
 WME transformation

---
 src/mud/base.py | 4 ++--
 src/mud/util.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index 0ac754d..d69ec22 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1406,8 +1406,8 @@ class LinearWMEProblem(LinearGaussianProblem):
         >>> lin_wme_prob.y
         array([[0.]])
         """
-        if isinstance(data, np.ndarray):
-            data = data.ravel()
+        # Data may also be a column or a row given as nested lists
+        data = np.ravel(data)
 
         num_observations = len(data)
 
diff --git a/src/mud/util.py b/src/mud/util.py
index 2bcc744..fead50c 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -45,8 +45,8 @@ def transform_linear_map(operator, data, std):
     ...
     ValueError: For repeated measurements, pass a float for std
     """
-    if isinstance(data, np.ndarray):
-        data = data.ravel()
+    # Data may also be a column or a row given as nested lists
+    data = np.ravel(data)
 
     num_observations = len(data)
 
-- 
2.43.0


From 4547591386dd6f7a668cd3d3b3af8d7d810cb396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:30 +0000
Subject: [PATCH 46/48] fix: numpy scalar deviations are accepted in the WME
 transformation

---
 src/mud/base.py | 4 ++--
 src/mud/util.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index d69ec22..e38c362 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1364,7 +1364,7 @@ class LinearWMEProblem(LinearGaussianProblem):
         cov_o=None,
         alpha=1.0,
     ):
-        if isinstance(sigma, (float, int)):
+        if np.isscalar(sigma):
             sigma = [sigma] * len(data)
 
         results = [
@@ -1415,7 +1415,7 @@ class LinearWMEProblem(LinearGaussianProblem):
             assert (
                 operator.shape[0] == num_observations
             ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-            if isinstance(std, (float, int)):
+            if np.isscalar(std):
                 std = np.array([std] * num_observations)
             if isinstance(std, (list, tuple)):
                 std = np.array(std)
diff --git a/src/mud/util.py b/src/mud/util.py
index fead50c..fa42340 100644
--- a/src/mud/util.py
+++ b/src/mud/util.py
@@ -54,7 +54,7 @@ def transform_linear_map(operator, data, std):
         assert (
             operator.shape[0] == num_observations
         ), f"Operator shape mismatch, op={operator.shape}, obs={num_observations}"
-        if isinstance(std, (float, int)):
+        if np.isscalar(std):
             std = np.array([std] * num_observations)
         if isinstance(std, (list, tuple)):
             std = np.array(std)
@@ -73,7 +73,7 @@ def transform_linear_map(operator, data, std):
 
 
 def transform_linear_setup(operator_list, data_list, std_list):
-    if isinstance(std_list, (float, int)):
+    if np.isscalar(std_list):
         std_list = [std_list] * len(data_list)
     # repeat process for multiple quantities of interest
     results = [
-- 
2.43.0


From abcbdd3ab68b13770950795e486c4496f01b96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:37 +0000
Subject: [PATCH 47/48] fix: numpy scalar covariances are accepted by the norm
 functions

---
 src/mud/norm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mud/norm.py b/src/mud/norm.py
index cee9d17..95c4468 100644
--- a/src/mud/norm.py
+++ b/src/mud/norm.py
@@ -38,14 +38,14 @@ def full_functional(
 
 
 def norm_input(inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.isscalar(initial_cov):
         initial_cov = initial_cov * np.eye(len(initial_mean))
     X = (inputs - initial_mean.T).T
     return inner_product(X, initial_cov)
 
 
 def norm_data(operator, inputs, data, observed_mean, observed_cov):
-    if isinstance(observed_cov, int) or isinstance(observed_cov, float):
+    if np.isscalar(observed_cov):
         observed_cov = observed_cov * np.eye(len(operator))
     data = np.reshape(data, (-1, 1))
     X = (operator @ inputs.T + data) - np.reshape(observed_mean, (-1, 1))
@@ -53,7 +53,7 @@ def norm_data(operator, inputs, data, observed_mean, observed_cov):
 
 
 def norm_predicted(operator, inputs, initial_mean, initial_cov):
-    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
+    if np.isscalar(initial_cov):
         initial_cov = initial_cov * np.eye(len(initial_mean))
     predicted_cov = operator @ initial_cov @ operator.T
     # if operator is affine, we can factor it (for efficiency) to be same as linear
-- 
2.43.0


From 9f560fa1edffb50c1ae3bf7c017ee4c4a6e45f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:48 +0000
Subject: [PATCH 48/48] fix: contour lines after a row of zeros keep their own
 direction

---
 src/mud/base.py | 4 +++-
 src/mud/plot.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mud/base.py b/src/mud/base.py
index e38c362..140ea14 100644
--- a/src/mud/base.py
+++ b/src/mud/base.py
@@ -1314,7 +1314,9 @@ class LinearGaussianProblem(object):
         # Build null-space (contour lines) for each subset row of A
         A = self.A[np.array(subset), :]
         numQoI = A.shape[0]
-        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+        # One direction per row, a row of zeros has more than one
+        dirs = [null_space(A[i, :].reshape(1, -1))[:, :1] for i in range(numQoI)]
+        AA = np.hstack(dirs).T
 
         # Plot each contour line going through ref point
         for i, contour in enumerate(subset):
diff --git a/src/mud/plot.py b/src/mud/plot.py
index c496a40..7e8d3cc 100644
--- a/src/mud/plot.py
+++ b/src/mud/plot.py
@@ -120,7 +120,9 @@ def plot_contours(
         subset = np.arange(A.shape[0])
     A = A[np.array(subset), :]
     numQoI = A.shape[0]
-    AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
+    # One direction per row, a row of zeros has more than one
+    dirs = [null_space(A[i, :].reshape(1, -1))[:, :1] for i in range(numQoI)]
+    AA = np.hstack(dirs).T
     for i, contour in enumerate(subset):
         xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
         yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
-- 
2.43.0

