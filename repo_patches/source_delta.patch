From 78b08c885b7bb6a42b12a89705237e916eb4780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 01/27] fix: keep order of x-values and rows when evaluating on
 flattened grids

---
 src/qp/utils.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..64f06f6 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,15 +204,25 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    xx = np.asarray(x)
+    rr = np.asarray(row)
+    # See if x and row are a (npdf, nx) grid that was flattened in row-major order,
+    # keeping both the x-values and the rows in the order in which they were given.
+    if np.size(xx) == np.size(rr):
+        changes = np.flatnonzero(rr != rr[0])
+        nx = changes[0] if np.size(changes) > 0 else np.size(rr)
+        if np.size(xx) % nx != 0:
+            return CASE_FLAT, x, row
+        rr = rr.reshape(-1, nx)
+    elif np.size(xx) % np.size(rr) == 0:
+        nx = np.size(xx) // np.size(rr)
+        rr = np.expand_dims(rr, -1)
+    else:
         return CASE_FLAT, x, row
-    return CASE_FACTOR, xx, np.expand_dims(rr, -1)
+    xx = xx.reshape(-1, nx)
+    if np.all(xx == xx[0]) and np.all(rr == rr[:, :1]):
+        return CASE_FACTOR, xx[0], rr[:, :1]
+    return CASE_FLAT, x, row
 
 
 def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
-- 
2.43.0


From 63246bd8163f6856d3c90368fc609d920fa05b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 02/27] fix: invert the cdf of the requested row in mixmod ppf,
 for any input shape

---
 src/qp/mixmod_pdf.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..546f25a 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -122,15 +122,7 @@ class mixmod_gen(Pdf_rows_gen):
         min_val = np.min(self._means - 6 * self._stds)
         max_val = np.max(self._means + 6 * self._stds)
         grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
+        cdf_vals = self.cdf(grid, np.expand_dims(np.arange(self._npdf), -1))
         return interpolate_multi_x_y(
             x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
         ).ravel()
-- 
2.43.0


From 9f8b885a6e73208e35d7a553c51313decda326e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 03/27] fix: use every bin width in the moments of histograms
 with unequal bins

---
 src/qp/hist_pdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..13d868d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -140,9 +140,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 63b69e76fae7d70f9f80c75d523691d3e0902e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 04/27] fix: histogram samples whatever the numbers of PDFs and
 of bins

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..3a5ecfb 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -143,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
         return np.histogram(sample, bins=bins)[0]
 
     vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
+        hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
-- 
2.43.0


From a195dea93c46fd48479ee0bd48192548a6dd50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 05/27] fix: compute the Brier score of a single PDF

---
 src/qp/metrics/metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
-- 
2.43.0


From c787975d53cf7cc915457b075db3315021d0cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 06/27] fix: compute the PIT of a single PDF

---
 src/qp/metrics/pit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From 505d9404ee10914b0afdd45043d3a3c5cdcdf5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 07/27] fix: use all the chunks when evaluating a metric from
 an iterator

---
 src/qp/metrics/base_metric_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..305c442 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,10 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
+        centroids = []
         for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+            centroids.append(self.accumulate(estimate, reference))
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From c0fc06325960f523abcb0cb661ac05c587a51527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 08/27] fix: do not return stale values when the user changes a
 cached grid in place

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..d9ea876 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -338,7 +338,7 @@ class Ensemble:
         the cached value
         """
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
+            self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
 
     def write_to(self, filename):
-- 
2.43.0


From c1ebaa4f65fa2ab71fa79b43c9c174cc97d3a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 09/27] fix: allow adding ancillary data to an ensemble which
 has none

---
 src/qp/ensemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d9ea876..ca540d0 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -262,6 +262,8 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
+        if self._ancil is None:
+            self._ancil = {}
         self._ancil.update(to_add)
 
     def append(self, other_ens):
-- 
2.43.0


From 28e9145d464392c3d1b56fd5158b252c912c5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 10/27] fix: keep the ancillary data of each chunk when
 iterating over a file

---
 src/qp/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..01a2d15 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -257,11 +257,12 @@ class Factory(OrderedDict):
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
         data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
         for start, end in ranges:
             for key, val in f.items():
                 data[key] = io.readHdf5DatasetToArray(val, start, end)
+            ancil_data = None
             if ancil_f is not None:
+                ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
             yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-- 
2.43.0


From 204f0b0899faaf0a45676f42a0d8c2a92fc009b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 11/27] fix: integrate the moments of interpolated PDFs over
 the actual grid

---
 src/qp/interp_pdf.py        | 3 +--
 src/qp/packed_interp_pdf.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..6f16a28 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -154,8 +154,7 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..467da49 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -213,10 +213,9 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 4eb2aaf55fdae5ac6e618759fbb845444f704e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:31 +0000
Subject: [PATCH 12/27] fix: return the density of the requested row for all
 the quantile pdf constructors

---
 src/qp/quant_pdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..4bd27a6 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -213,7 +213,13 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # normalization function.
         # See qp issue #147
         row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        vals = self._pdf_constructor.construct_pdf(x, row)
+        if np.ndim(vals) > 1:
+            # Some constructors evaluate every requested PDF at every x-value,
+            # in that case pick the value for the row that goes with each x-value.
+            _, irow = np.unique(row, return_inverse=True)
+            vals = vals[irow, np.arange(np.size(x))]
+        return vals
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From e48aac20c854eeefd0f3a90149671443b95ee716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 13/27] fix: keep the support of the scipy distributions

---
 src/qp/factory.py | 7 +++++--
 src/qp/pdf_gen.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 01a2d15..54a2400 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -54,7 +54,7 @@ class Factory(OrderedDict):
                 data_dict[col] = col_data
         return data_dict
 
-    def _make_scipy_wrapped_class(self, class_name, scipy_class):
+    def _make_scipy_wrapped_class(self, class_name, scipy_class, scipy_defaults=None):
         """Build a qp class from a scipy class"""
         # pylint: disable=protected-access
         override_dict = dict(
@@ -62,6 +62,7 @@ class Factory(OrderedDict):
             version=0,
             freeze=Pdf_gen_wrap._my_freeze,
             _other_init=scipy_class.__init__,
+            _other_defaults=scipy_defaults or {},
         )
         the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
         self.add_class(the_class)
@@ -72,7 +73,9 @@ class Factory(OrderedDict):
         for name in names:
             attr = getattr(sps, name)
             if isinstance(attr, sps.rv_continuous):
-                self._make_scipy_wrapped_class(name, type(attr))
+                # The support belongs to the scipy object, not to its class
+                defaults = dict(a=attr.a, b=attr.b, momtype=attr.moment_type)
+                self._make_scipy_wrapped_class(name, type(attr), defaults)
 
     def add_class(self, the_class):
         """Add a class to the factory
diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 80dfbbf..699a1b2 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -393,7 +393,7 @@ class Pdf_gen_wrap(Pdf_gen):
         """C'tor"""
         # pylint: disable=no-member,protected-access
         super().__init__(*args, **kwargs)
-        self._other_init(*args, **kwargs)
+        self._other_init(*args, **{**self._other_defaults, **kwargs})
 
     def _my_freeze(self, *args, **kwds):
         """Freeze the distribution for the given arguments.
-- 
2.43.0


From e86e29b58949f874d0e02592777d79514b9884c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 14/27] fix: keep the axis of the ancillary data when selecting
 a single PDF

---
 src/qp/ensemble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index ca540d0..5601afc 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -70,6 +70,9 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if isinstance(key, (int, np.integer)):
+                # keep the axis which runs over the distributions
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From f0ff891ec560dcf9ca46da037872940edb28fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 15/27] fix: goodness of fit of many PDFs with a single sample
 each

---
 src/qp/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index ff9a99e..cc8866c 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -457,7 +457,7 @@ def calculate_goodness_of_fit(
 
     return goodness_of_fit_metrics[fit_metric](
         reference,
-        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
+        estimate.rvs(size=num_samples, random_state=_random_state),
     )
 
 
-- 
2.43.0


From 408fd074da742b3cda1d61e4abd8309b1b89f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 16/27] fix: do not return gridded values from before a change
 of the PDF constructor

---
 src/qp/ensemble.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 5601afc..5b6c160 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -41,6 +41,7 @@ class Ensemble:
         self.set_ancil(ancil)
 
         self._gridded = None
+        self._gridded_metadata = None
         self._samples = None
 
     def __getitem__(self, key):
@@ -342,8 +343,15 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
-        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
+        # The common data can be changed, e.g., the PDF constructor of the quantiles
+        metadata = self.metadata()
+        if (
+            self._gridded is None
+            or not np.array_equal(self._gridded[0], grid)
+            or not compare_dicts([self._gridded_metadata, metadata])
+        ):
             self._gridded = (np.array(grid), self.pdf(grid))
+            self._gridded_metadata = metadata
         return self._gridded
 
     def write_to(self, filename):
-- 
2.43.0


From 45fc24ce9a479660a8ac2752f4d578a9a8b0dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 17/27] fix: evaluate PDFs when there are no points, e.g.
 logcdf outside the support

---
 src/qp/spline_pdf.py |  4 ++--
 src/qp/utils.py      | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..b923814 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -251,7 +251,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(pdf_row)
+            vv = np.vectorize(pdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _cdf(self, x, row):
@@ -264,7 +264,7 @@ class spline_gen(Pdf_rows_gen):
             )
 
         with errstate(all="ignore"):
-            vv = np.vectorize(cdf_row)
+            vv = np.vectorize(cdf_row, otypes=[float])
         return vv(x, row).ravel()
 
     def _updated_ctor_param(self):
diff --git a/src/qp/utils.py b/src/qp/utils.py
index 64f06f6..c8331ad 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -202,7 +202,7 @@ def get_eval_case(x, row):
         )
     if nd_row >= 2:
         return CASE_PRODUCT, x, row
-    if np.size(x) == 1 or np.size(row) == 1:
+    if np.size(x) <= 1 or np.size(row) <= 1:
         return CASE_FLAT, x, row
     xx = np.asarray(x)
     rr = np.asarray(row)
@@ -257,7 +257,7 @@ def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no
             return np.where(maskv, vals[rv, idxv], 0)
         return np.where(maskv, vals[rv, idxv] + delta * derivs[rv, idxv], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(idx, mask, row, deltas)
 
 
@@ -396,7 +396,7 @@ def evaluate_hist_multi_x_multi_y_flat(
             return np.where(mask, vals[rv, idx], 0)
         return np.where(mask, vals[rv, idx] + delta * derivs[rv, idx], 0)
 
-    vv = np.vectorize(evaluate_row)
+    vv = np.vectorize(evaluate_row, otypes=[float])
     return vv(x, row)
 
 
@@ -527,7 +527,7 @@ def interpolate_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -636,7 +636,7 @@ def interpolate_multi_x_multi_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
@@ -751,7 +751,7 @@ def interpolate_multi_x_y_flat(x, row, xvals, yvals, **kwargs):
     def single_row(xv, rv):
         return interp1d(xvals[rv], yvals, **kwargs)(xv)
 
-    vv = np.vectorize(single_row)
+    vv = np.vectorize(single_row, otypes=[float])
     return vv(x, row)
 
 
-- 
2.43.0


From 92a6a80e7b5bae9f00b80c3780eed87c27b52c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 18/27] fix: keep the PDF constructor of quantile ensembles in
 hdf5 files

---
 src/qp/quant_pdf.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 4bd27a6..7153803 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -129,9 +129,13 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
             )
         self._locs = locs_2d
 
-        self._pdf_constructor_name = str(
+        pdf_constructor_name = np.asarray(
             kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
-        )
+        ).item()
+        if isinstance(pdf_constructor_name, bytes):
+            # This is how it is stored in the metadata, see below
+            pdf_constructor_name = pdf_constructor_name.decode()
+        self._pdf_constructor_name = str(pdf_constructor_name)
         self._pdf_constructor = None
         self._instantiate_pdf_constructor()
 
@@ -139,7 +143,10 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         super().__init__(*args, **kwargs)
 
         self._addmetadata("quants", self._quants)
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        # Stored as bytes, as unicode strings can not be written to hdf5
+        self._addmetadata(
+            "pdf_constructor_name", self._pdf_constructor_name.encode()
+        )
         self._addmetadata("check_input", self._check_input)
         self._addobjdata("locs", self._locs)
 
@@ -181,13 +188,15 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
                 f"Unknown interpolator provided: '{value}'. Allowed interpolators are {list(PDF_CONSTRUCTORS.keys())}"  # pylint: disable=line-too-long
             )
 
-        if value is self._pdf_constructor_name:
+        if value == self._pdf_constructor_name:
             logging.warning("Already using interpolator: '%s'.", value)
             return
 
         self._pdf_constructor_name = value
         self._instantiate_pdf_constructor()
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata(
+            "pdf_constructor_name", self._pdf_constructor_name.encode()
+        )
 
     @property
     def pdf_constructor(self) -> AbstractQuantilePdfConstructor:
-- 
2.43.0


From 50f30e8ba46bf6a1e6bd3532fd01cd6166ce2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 19/27] fix: draw samples of a single quantile PDF

---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index c8331ad..1e55800 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -580,8 +580,8 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
     def evaluate_row(rv, xv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-    return vv(row, x)
+    vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
+    return vv(np.squeeze(row), x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From bf0e2bb0b369c82a4a8443bb881feae6a7edd81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 20/27] fix: do not corrupt the sparse dictionary from one PDF
 to the next

---
 src/qp/sparse_rep.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..c3c1c97 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -92,6 +92,8 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
     :return: indices, values (2 arrays one with the position and the second with the coefficients)
     """
 
+    # the columns are swapped below, do that on a copy
+    dictionary = np.array(dictionary)
     a_n = np.zeros(dictionary.shape[1])
     machine_eps = np.finfo(dictionary.dtype).eps
     alpha = np.dot(dictionary.T, query_vec)
@@ -287,9 +289,6 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
-        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
-
     if verbose:
         print("done")
     return Sparse_Array, bigD, A
-- 
2.43.0


From 465f469ea3a0cc1f5edef120a8c5f140322ec717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 21/27] fix: code the sparse coefficients relative to the first
 one, as they are decoded

---
 src/qp/sparse_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index c3c1c97..b08c6c8 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -279,7 +279,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         # bigD[k]['sparse'] = [Dind, Dval]
         if max(Dval) > 0:
             dval0 = Dval[0]
-            Dvalm = Dval / np.max(Dval)
+            Dvalm = Dval / dval0
             index = np.array(list(map(round, (Dvalm / Da))), dtype="int")
             index0 = int(round(dval0 / Da))
             index[0] = index0
-- 
2.43.0


From e3ad8a6535d0e705d355eb9d1a3aa8e8eae91df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 22/27] fix: accumulate the PIT of chunks with a single object

---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
-- 
2.43.0


From 7fbdeb9a06c566f3b88ff06352ae2a2ea46d44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 23/27] fix: sum the Gaussian components when a request of a
 single row is only partly in the domain

---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 546f25a..9f77bfd 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -103,7 +103,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).pdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
@@ -115,7 +115,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From cb30bf057c72b103397a5e8ea4803698bfb574d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 24/27] fix: take the quantiles outside the given ones from the
 same distribution

---
 src/qp/quant_pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 7153803..5fe6a94 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -244,8 +244,9 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
+        # Outside the given quantiles use the outermost locations of that same PDF
         return interpolate_x_multi_y(
-            x,
+            np.clip(x, self._quants[0], self._quants[-1]),
             row,
             self._quants,
             self._locs,
-- 
2.43.0


From daf299713a8d7d91931f5337e6cb062dfc12bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:41 +0000
Subject: [PATCH 25/27] fix: keep the quantiles of an irregular distribution on
 its own grid

---
 src/qp/interp_pdf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 6f16a28..0a5213f 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -323,14 +323,18 @@ class interp_irregular_gen(Pdf_rows_gen):
         # pylint: disable=arguments-differ
         if self._ycumul is None:  # pragma: no cover
             self._compute_ycumul()
-        return interpolate_multi_x_multi_y(
+        vals = interpolate_multi_x_multi_y(
             x,
             row,
             self._ycumul,
             self._xvals,
             bounds_error=False,
             fill_value=(self._xmin, self._xmax),
-        ).ravel()
+        )
+        if np.ndim(row) == 1:
+            vals = vals.ravel()
+        # Stay on the grid of each PDF, which can be narrower than the support
+        return np.clip(vals, self._xvals[row, 0], self._xvals[row, -1]).ravel()
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 4f41cfda25fa338afad6604cf9af2ebbcf14bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:47 +0000
Subject: [PATCH 26/27] fix: find the spread of chunks in which all the errors
 are the same

---
 src/qp/metrics/point_estimate_metric_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/metrics/point_estimate_metric_classes.py b/src/qp/metrics/point_estimate_metric_classes.py
index c22dbbc..db52df6 100644
--- a/src/qp/metrics/point_estimate_metric_classes.py
+++ b/src/qp/metrics/point_estimate_metric_classes.py
@@ -272,7 +272,9 @@ class PointSigmaMAD(PointToPointMetricDigester):
         this_max = digest.inverse_cdf(1)
         bins = np.linspace(this_min, this_max, self._num_bins)
         bin_cents = (bins[0:-1] + bins[1:]) / 2.0
-        this_pdf = digest.cdf(bins[1:]) - digest.cdf(bins[0:-1]) # len(this_pdf) = lots_of_bins - 1
+        cdf = digest.cdf(bins)
+        cdf[0], cdf[-1] = 0., 1. # all the objects are between the extremes, those at the extremes included
+        this_pdf = cdf[1:] - cdf[0:-1] # len(this_pdf) = lots_of_bins - 1
         bin_dist = np.fabs(bin_cents - this_median) # get the distance to the center for each bin in the hist
 
         sorted_bins_dist_idx = np.argsort(bin_dist) # sort the bins by dist to median
-- 
2.43.0


From 4846cfaae48677782c1513358f4cc8d46dcad5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 27/27] fix: find the bin of a point whatever the widths of the
 bins

---
 src/qp/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 1e55800..ec6c791 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -80,15 +80,14 @@ def bin_widths(edges):
 def get_bin_indices(bins, x):
     """Return the bin indexes for a set of values
 
-    If the bins are equal width this will use arithmatic,
-    If the bins are not equal width this will use a binary search
+    If the bins are equal width an edge belongs to the bin above it,
+    If the bins are not equal width an edge belongs to the bin below it
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0]):
-        idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
-    else:
-        idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
+    # always search: widths which are only close (e.g. any widths below 1e-8) need not be equal
+    side = "right" if np.allclose(widths, widths[0]) else "left"
+    idx = np.atleast_1d(np.searchsorted(bins, x, side=side) - 1)
     mask = (idx >= 0) * (idx < bins.size - 1)
     np.putmask(idx, 1 - mask, 0)
     xshape = np.shape(x)
-- 
2.43.0

