From 785c61633cc562023e47113fa0f8b717f980103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 01/75] fix: order selected ranges by file offset for every
 particle type

Cells are sorted by the offsets of the first particle type only; with MPI-ordered
snapshots and cells empty of that type, ranges of other types came out unsorted,
so chunked fields were read incorrectly (or crashed) and subset offsets were wrong.
---
 swiftsimio/masks.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..a783b70 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -675,7 +675,11 @@ class SWIFTMask(HandleProvider):
                 counts = self.counts[count_name][self.cell_mask[count_name]]
                 offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
-                this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
+                # cells are sorted by the offsets of one type, others may be out of order
+                file_order = np.lexsort((counts, offsets))
+                this_mask = [
+                    [o, c + o] for c, o in zip(counts[file_order], offsets[file_order])
+                ]
 
                 setattr(self, data_name, np.array(this_mask))
                 setattr(self, f"{data_name}_size", np.sum(counts))
@@ -982,12 +986,13 @@ class SWIFTMask(HandleProvider):
         for part_type in self.counts.keys():
             counts = self.counts[part_type]
             offsets = self.offsets[part_type]
+            # cells are sorted by the offsets of one type, others may be out of order
+            file_order = np.lexsort((counts, offsets))
             if self.range_mask:
                 # figure out what cell each range starts in (cell_ranges[:, 0]) and ends
-                # in (cell_ranges[:, 1])
-                # counts and offsets are sorted by offsets when loaded: searchsorted valid
+                # in (cell_ranges[:, 1]), counting cells in file order
                 cell_ranges = np.searchsorted(
-                    offsets[1:],
+                    offsets[file_order][1:],
                     getattr(self, f"_{part_type}"),
                     side="right",
                 )
@@ -995,7 +1000,7 @@ class SWIFTMask(HandleProvider):
                 for (start_cell, end_cell), mask_range in zip(
                     cell_ranges, getattr(self, f"_{part_type}")
                 ):
-                    for cell in range(start_cell, end_cell + 1):
+                    for cell in file_order[start_cell : end_cell + 1]:
                         masked_counts[part_type][cell] += min(
                             mask_range[1], offsets[cell] + counts[cell]
                         ) - max(mask_range[0], offsets[cell])
@@ -1006,8 +1011,9 @@ class SWIFTMask(HandleProvider):
                         for cell_slice in np.vstack((offsets, offsets + counts)).T
                     ]
                 )
-            masked_offsets[part_type] = np.r_[
-                0, np.cumsum(masked_counts[part_type])[:-1]
-            ]
+            masked_offsets[part_type] = np.zeros_like(masked_counts[part_type])
+            masked_offsets[part_type][file_order[1:]] = np.cumsum(
+                masked_counts[part_type][file_order]
+            )[:-1]
 
         return masked_counts, masked_offsets
-- 
2.43.0


From c20058a15a095913ce68720fe089c49bcac659b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 02/75] fix: union of spatial constraints on a boolean mask
 keeps the second region

After convert_masks_to_bool, constrain_spatial(..., union=True) only ever removed
particles, so the additional region was silently dropped.
---
 swiftsimio/masks.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index a783b70..d0f6d81 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -664,9 +664,8 @@ class SWIFTMask(HandleProvider):
         """
         Update the particle masks using the cell masks.
 
-        We actually overwrite all non-used cells with ``False``, rather than the
-        inverse, as we assume initially that we want to read all particles in,
-        and we want to respect other masks that may have been applied to the data.
+        The masks are rebuilt from the selected cells only. Spatial constraints can only
+        be the first constraint(s) applied, so there are no others to preserve.
         """
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
@@ -685,18 +684,15 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
+                counts = self.counts[count_name][self.cell_mask[count_name]]
+                offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
                 # We must do the whole boolean mask business.
                 this_mask = getattr(self, data_name)
+                this_mask[:] = False
 
                 for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                    this_mask[offset : count + offset] = True
 
         return
 
-- 
2.43.0


From 8985445d50af3e863603aa79f9bdb8fac08c3833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 03/75] fix: masked reads of chunked half-precision and
 non-native-endian fields

The numba helper that picks rows out of the chunks read does not support these
types, so loading such a field through a mask crashed.
---
 swiftsimio/accelerated.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..82ccded 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -418,7 +418,13 @@ def read_ranges_from_file_chunked(
         already_read += size_of_range
 
     if handle.chunks is not None:
-        output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
+        # index outside of numba, it does not support all types (e.g. half-precision
+        # floats or non-native endian data)
+        output = output[
+            extract_ranges_from_chunks(
+                np.arange(chunk_range_size), chunk_ranges, ranges
+            )
+        ]
 
     # Ensure the result is a native endian type
     to_native_byteorder_inplace(output)
-- 
2.43.0


From 27c1ff98240bab3c88392b39da5ef8174d863ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 04/75] fix: subset of fields with one column and of empty data
 sets

---
 swiftsimio/subset_writer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..2951f5a 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -351,13 +351,9 @@ def _write_datasubset(
                 continue
 
             # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From b26354b1af25a0e543d0cf25c42b79dbf9a43654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 05/75] fix: subset writer skips only the groups it means to,
 not fields containing their names

---
 swiftsimio/subset_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 2951f5a..20bceea 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -276,7 +276,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if field not in skip_list:
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -347,7 +347,7 @@ def _write_datasubset(
     skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
+            if name.strip("/").split("/")[0] in skip_list:
                 continue
 
             # get output dtype and size
-- 
2.43.0


From d87fa5fe70250db7803fbe8475b7424298baa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 06/75] fix: convert comoving operands mixed with physical ones
 that have no valid transform

---
 swiftsimio/_array_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..ac03e17 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,7 +934,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in (*args, *kwargs.values()):
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From 3f833a759add27ad3cf4d0abf05943468dc856e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 07/75] fix: compression note of results is the note, not a
 (flag, note) pair

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ac03e17..a3fc617 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From e6dba58746271bf4a5d4519cd745af38627b12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 08/75] fix: writer records the scale-factor exponent 0 of a
 field as 0, not 1

---
 swiftsimio/snapshot_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..8c6d4f0 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -11,7 +11,7 @@ from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import a, cosmo_array
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(field.cosmo_factor.expr.as_coeff_exponent(a)[1])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From 2f02ca066f324c572599609f65b0efa2026cd907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 09/75] fix: histogramdd density bins keep the scale-factor
 exponent of their own dimension

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a3fc617..91465c9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1533,7 +1533,7 @@ def histogramdd(  # noqa: ANN202
         helper_result = _prepare_array_func_args(
             *sample, bins=bins, range=range, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        ret_cfs = [_preserve_cosmo_factor(cf) for cf in helper_result["cfs"]]
         counts, bins = unyt_histogramdd(
             helper_result["args"],
             bins=helper_result["kwargs"]["bins"],
-- 
2.43.0


From bf42bd10b554eab0f2f7a061834df7043a98341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:46 +0000
Subject: [PATCH 10/75] fix: cosmo_factor equality distinguishes exponents when
 the scale factor is 1

---
 swiftsimio/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..5ca9320 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -791,7 +791,11 @@ class cosmo_factor(object):
             # we know they're not both None from previous case
             a_factor_match = False
         elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6):
-            a_factor_match = True
+            # a_factors can coincide (e.g. a=1) for different expressions, so check the
+            # expressions evaluated elsewhere (they may match but differ in form)
+            a_factor_match = self.expr == b.expr or np.isclose(
+                float(self.expr.subs(a, 0.5)), float(b.expr.subs(a, 0.5)), rtol=1e-6
+            )
         else:
             a_factor_match = False
         return scale_factor_match and a_factor_match
-- 
2.43.0


From 0a8995c41a2bd3407abe0493ff3df82160eed399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 11/75] fix: unary plus keeps valid_transform

---
 swiftsimio/objects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 5ca9320..9fcd1ba 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1403,6 +1403,7 @@ class cosmo_array(unyt_array):
     __getitem__ = _propagate_cosmo_array_attributes_to_result(
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
+    __pos__ = _propagate_cosmo_array_attributes_to_result(unyt_array.__pos__)
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
     squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
 
-- 
2.43.0


From 2362601bbd023b26fca20c5c924cab0dcd3e12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 12/75] fix: assigning to elements converts the value to the
 array's comoving or physical state

---
 swiftsimio/objects.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9fcd1ba..d03ef19 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1412,6 +1412,35 @@ class cosmo_array(unyt_array):
     ua = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
     unit_array = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
 
+    def __setitem__(self, item: object, value: object) -> None:
+        """
+        Assign to elements of the array.
+
+        A :class:`~swiftsimio.objects.cosmo_array` that is assigned is first converted to
+        match the comoving or physical state of this array (:mod:`unyt` handles units).
+
+        Parameters
+        ----------
+        item : :obj:`object`
+            The index to assign to.
+
+        value : :obj:`object`
+            The value(s) to assign.
+
+        Raises
+        ------
+        ValueError
+            If the value scales differently with the scale factor.
+        """
+        if (
+            isinstance(value, cosmo_array)
+            and value.comoving is not None
+            and self.comoving is not None
+        ):
+            _preserve_cosmo_factor(self.cosmo_factor, value.cosmo_factor)
+            value = value.to_comoving() if self.comoving else value.to_physical()
+        super().__setitem__(item, value)
+
     def convert_to_comoving(
         self,
         units: unyt.Unit | str | None = None,
-- 
2.43.0


From 3409db1124db3ebe2b8c8e5c046ed1c55c71380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:24 +0000
Subject: [PATCH 13/75] fix: maximum and minimum warn when mixing arguments
 with and without cosmo_factors

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index d03ef19..2e5b013 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1045,8 +1045,8 @@ class cosmo_array(unyt_array):
         logical_or: _comparison_cosmo_factor,
         logical_xor: _comparison_cosmo_factor,
         logical_not: _return_without_cosmo_factor,
-        maximum: _passthrough_cosmo_factor,
-        minimum: _passthrough_cosmo_factor,
+        maximum: _preserve_cosmo_factor,
+        minimum: _preserve_cosmo_factor,
         fmax: _preserve_cosmo_factor,
         fmin: _preserve_cosmo_factor,
         isreal: _return_without_cosmo_factor,
-- 
2.43.0


From 5110c794879284108954d6902aee51ca576c50db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 14/75] fix: powers with array exponents, exponent zero and
 plain bases get a single valid cosmo_factor

---
 swiftsimio/_array_functions.py | 13 +++++++++++--
 swiftsimio/objects.py          | 27 +++++++++++++++++++++++++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 91465c9..724b25b 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -525,8 +525,17 @@ def _power_cosmo_factor(
     if (exp_afactor is not None) and (exp_afactor != 1.0):
         raise ValueError("Exponent has scaling with scale factor != 1.")
     if cf1 is None:
-        return None
-    return np.power(cf1, power)
+        # the exponent (checked above) doesn't scale, so neither does the result
+        return None if cf2 is None else _power_cosmo_factor(cf2, None, power=0)
+    if np.size(power) > 1:
+        # an array result can only have one scaling with the scale factor
+        if np.ptp(power) == 0:
+            power = np.ravel(power)[:1]
+        elif cf1**2 == cf1:
+            return cf1  # no scaling with scale factor
+        else:
+            raise ValueError("Exponents would give mixed cosmo_factors.")
+    return cf1 ** (float(np.squeeze(power)) if isinstance(power, np.ndarray) else power)
 
 
 def _square_cosmo_factor(
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 2e5b013..9916511 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2342,6 +2342,33 @@ class cosmo_array(unyt_array):
             function_to_invoke = func._implementation
         return function_to_invoke(*args, **kwargs)
 
+    def __pow__(
+        self, p: int | float | np.ndarray, mod: object = None, /
+    ) -> "cosmo_array":
+        """
+        Raise this :class:`~swiftsimio.objects.cosmo_array` to a power.
+
+        We delegate to :mod:`unyt`, but it handles the exponent zero without calling the
+        corresponding ufunc, so the ``cosmo_factor`` needs setting in that case.
+
+        Parameters
+        ----------
+        p : :class:`~numpy.ndarray`, :obj:`int` or :obj:`float`
+            The exponent.
+
+        mod : :obj:`object`
+            Modulus, passed on to :mod:`unyt`.
+
+        Returns
+        -------
+        ~swiftsimio.objects.cosmo_array
+            The result of raising to the power.
+        """
+        result = super().__pow__(p, mod)
+        if np.isscalar(p) and p == 0.0:
+            result.cosmo_factor = self.cosmo_factor**0
+        return result
+
     def __mul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From 5c1208bee0983e7aca939195df1c336735b21b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:22 +0000
Subject: [PATCH 15/75] fix: histogram bin edges and ranges are checked against
 the data and never relabelled in place

---
 swiftsimio/_array_functions.py | 105 ++++++++++++++++++++++++---------
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 724b25b..277e58f 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1309,6 +1309,35 @@ implements(np.outer)(_default_binary_wrapper(unyt_outer, _multiply_cosmo_factor)
 implements(np.kron)(_default_binary_wrapper(unyt_kron, _multiply_cosmo_factor))
 
 
+def _bin_edges_cosmo_factor(
+    data_cf: "objects.cosmo_factor", bins: object, bins_cf: "objects.cosmo_factor"
+) -> "objects.cosmo_factor":
+    """
+    Get the :class:`~swiftsimio.objects.cosmo_factor` for the bin edges of a histogram.
+
+    If bin edges are provided check that their ``cosmo_factor`` matches that of the data.
+
+    Parameters
+    ----------
+    data_cf : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` of the data to be binned.
+
+    bins : :obj:`object`
+        The ``bins`` argument, can be bin edges, a number of bins or a method.
+
+    bins_cf : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` of the bins.
+
+    Returns
+    -------
+    ~swiftsimio.objects.cosmo_factor
+        The :class:`~swiftsimio.objects.cosmo_factor` of the bin edges.
+    """
+    if isinstance(bins, str) or np.ndim(bins) == 0:
+        return _preserve_cosmo_factor(data_cf)
+    return _preserve_cosmo_factor(data_cf, bins_cf)
+
+
 @implements(np.histogram_bin_edges)
 def histogram_bin_edges(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1316,15 +1345,21 @@ def histogram_bin_edges(  # noqa: ANN202
     range=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
+    limits = () if range is None else range
+    helper_result = _prepare_array_func_args(a, *limits, bins=bins, weights=weights)
+    ret_cf = _bin_edges_cosmo_factor(
+        helper_result["cfs"][0], bins, helper_result["kw_cfs"]["bins"]
+    )
+    _preserve_cosmo_factor(*helper_result["cfs"])  # check limits
     if not isinstance(bins, str) and np.ndim(bins) == 1:
-        # we got bin edges as input
-        ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
+        # we got bin edges as input, but in case they are returned don't relabel them
+        res = np.array(helper_result["kwargs"]["bins"], subok=True)
     else:
         # bins based on values in a
-        ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
         res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
+            helper_result["args"][0],
+            range=None if range is None else tuple(helper_result["args"][1:]),
+            **helper_result["kwargs"],
         )
     return _return_helper(res, helper_result, ret_cf)
 
@@ -1351,12 +1386,22 @@ def histogram(  # noqa: ANN202
     density=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
+    limits = () if range is None else range
     helper_result = _prepare_array_func_args(
-        a, bins=bins, range=range, density=density, weights=weights
+        a, *limits, bins=bins, density=density, weights=weights
     )
-    ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
-    ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
-    counts, bins = unyt_histogram(*helper_result["args"], **helper_result["kwargs"])
+    ret_cf_bins = _bin_edges_cosmo_factor(
+        helper_result["cfs"][0], bins, helper_result["kw_cfs"]["bins"]
+    )
+    _preserve_cosmo_factor(*helper_result["cfs"])  # check limits
+    ret_cf_dens = _reciprocal_cosmo_factor(ret_cf_bins)
+    counts, bins = unyt_histogram(
+        helper_result["args"][0],
+        range=None if range is None else tuple(helper_result["args"][1:]),
+        **helper_result["kwargs"],
+    )
+    # in case the provided bins are returned, don't relabel them
+    bins = np.array(bins, subok=True)
     if weights is not None:
         ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
         ret_cf_counts = (
@@ -1397,10 +1442,14 @@ def histogram2d(  # noqa: ANN202
         xbins, ybins = bins
     helper_result_x = _prepare_array_func_args(x, bins=xbins, range=xrange)
     helper_result_y = _prepare_array_func_args(y, bins=ybins, range=yrange)
+    ret_cf_x = _bin_edges_cosmo_factor(
+        helper_result_x["cfs"][0], xbins, helper_result_x["kw_cfs"]["bins"]
+    )
+    ret_cf_y = _bin_edges_cosmo_factor(
+        helper_result_y["cfs"][0], ybins, helper_result_y["kw_cfs"]["bins"]
+    )
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
-        ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
-        ret_cf_y = _preserve_cosmo_factor(helper_result_y["cfs"][0])
         if (helper_result_x["kwargs"]["range"] is None) and (
             helper_result_y["kwargs"]["range"] is None
         ):
@@ -1440,8 +1489,6 @@ def histogram2d(  # noqa: ANN202
             yrange=yrange,
             weights=weights,
         )
-        ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
-        ret_cf_y = _preserve_cosmo_factor(helper_result_y["cfs"][0])
         if (helper_result["kwargs"]["xrange"] is None) and (
             helper_result["kwargs"]["yrange"] is None
         ):
@@ -1474,10 +1521,12 @@ def histogram2d(  # noqa: ANN202
             counts.cosmo_factor = ret_cf_counts
             counts.valid_transform = helper_result["valid_transform"]
             counts.compression = helper_result["compression"]
+        helper_result_x = helper_result_y = helper_result
+    # in case the provided bins are returned, don't relabel them
     return (
         counts,
-        _return_helper(xbins, helper_result_x, ret_cf_x),
-        _return_helper(ybins, helper_result_y, ret_cf_y),
+        _return_helper(np.array(xbins, subok=True), helper_result_x, ret_cf_x),
+        _return_helper(np.array(ybins, subok=True), helper_result_y, ret_cf_y),
     )
 
 
@@ -1504,12 +1553,14 @@ def histogramdd(  # noqa: ANN202
         _prepare_array_func_args(s, bins=b, range=r)
         for s, b, r in zip(sample, bins, ranges)
     ]
+    ret_cfs = [
+        _bin_edges_cosmo_factor(
+            helper_result["cfs"][0], b, helper_result["kw_cfs"]["bins"]
+        )
+        for b, helper_result in zip(bins, helper_results)
+    ]
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
-        ret_cfs = [
-            _preserve_cosmo_factor(helper_result["cfs"][0])
-            for helper_result in helper_results
-        ]
         if all(
             [
                 helper_result["kwargs"]["range"] is None
@@ -1540,20 +1591,17 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample, *bins, range=range, weights=weights
         )
-        ret_cfs = [_preserve_cosmo_factor(cf) for cf in helper_result["cfs"]]
+        helper_results = D * [helper_result]
         counts, bins = unyt_histogramdd(
-            helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
+            helper_result["args"][:D],
+            bins=helper_result["args"][D:],
             range=helper_result["kwargs"]["range"],
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-        if len(helper_result["cfs"]) == 1:
-            ret_cf_sample = _preserve_cosmo_factor(helper_result["cfs"][0])
-        else:
-            ret_cf_sample = _multiply_cosmo_factor(*helper_result["cfs"])
+        ret_cf_sample = _multiply_cosmo_factor(*ret_cfs)
         if weights is not None:
             ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
             inv_ret_cf_sample = _reciprocal_cosmo_factor(ret_cf_sample)
@@ -1569,7 +1617,8 @@ def histogramdd(  # noqa: ANN202
     return (
         counts,
         tuple(
-            _return_helper(b, helper_result, ret_cf)
+            # in case the provided bins are returned, don't relabel them
+            _return_helper(np.array(b, subok=True), helper_result, ret_cf)
             for b, helper_result, ret_cf in zip(bins, helper_results, ret_cfs)
         ),
     )
-- 
2.43.0


From b8df87918882601c0971e6b498c55ee71f803f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:40 +0000
Subject: [PATCH 16/75] fix: array functions of cosmo_array and unyt_array
 arguments keep the cosmo labels

---
 swiftsimio/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9916511..cc904f4 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2328,7 +2328,10 @@ class cosmo_array(unyt_array):
             # leaving other arguments a chance to take the lead
             return NotImplemented
 
-        if not all(issubclass(t, cosmo_array) or t is np.ndarray for t in types):
+        if not all(
+            issubclass(t, cosmo_array) or t in (np.ndarray, unyt_array, unyt_quantity)
+            for t in types
+        ):
             # Note: this allows subclasses that don't override
             # __array_function__ to handle cosmo_array objects
             return NotImplemented
-- 
2.43.0


From fcc3b7be491abbc74d0b4e32949cf860d291df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 17/75] fix: joins check the cosmo_factor of every array, not
 only the first

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 277e58f..6fca461 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1272,7 +1272,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From aa461959143e337ae499e51802c8a309c130255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 18/75] fix: functions that assign to elements leave the values
 they copy unchanged; block labels its result

---
 swiftsimio/_array_functions.py | 162 +++++++++++----------------------
 1 file changed, 54 insertions(+), 108 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6fca461..d9ef673 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -14,7 +14,7 @@ are documented to assist in maintenance and development of swiftsimio.
 import warnings
 from functools import reduce
 import numpy as np
-from typing import Callable, Any
+from typing import Callable, Any, Iterator
 import unyt
 from unyt import unyt_quantity, unyt_array
 from swiftsimio import objects
@@ -1641,106 +1641,55 @@ implements(np.stack)(_default_oplist_wrapper(unyt_stack))
 implements(np.around)(_default_unary_wrapper(unyt_around, _preserve_cosmo_factor))
 
 
-def _recursive_to_comoving(lst: list) -> list:
+def _flatten_block_list(lst: object) -> list:
     """
-    Recursively convert to comoving coordinates.
+    Collect the arrays in a (nested) list of array "blocks".
 
     Parameters
     ----------
-    lst : list[cosmo_array]
-        List of arrays (possibly nested lists) to convert.
+    lst : list
+        List of array "blocks".
 
     Returns
     -------
     list
-        Matching (nested) lists in comoving units.
+        The arrays in order.
     """
-    ret_lst = list()
-    for item in lst:
-        if isinstance(item, list):
-            ret_lst.append(_recursive_to_comoving(item))
-        else:
-            ret_lst.append(item.to_comoving())
-    return ret_lst
+    if not isinstance(lst, list):
+        return [lst]
+    return [arr for item in lst for arr in _flatten_block_list(item)]
 
 
-def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
+def _rebuild_block_list(lst: object, arrays: Iterator) -> object:
     """
-    Block accepts only a nested list of array "blocks". We need to recurse on this.
+    Nest arrays in the same way as a (nested) list of array "blocks".
 
     Parameters
     ----------
     lst : list
         List of array "blocks".
 
-    recursing : bool
-        A flag to track whether this is a recursive call.
+    arrays : Iterator
+        The arrays to use in place of those in the list, in order.
 
     Returns
     -------
-    dict
-        The prepared block argument.
+    list
+        A list with the same nesting containing the replacement arrays.
     """
-    helper_results = list()
-    if isinstance(lst, list):
-        for item in lst:
-            if isinstance(item, list):
-                helper_results += _prepare_array_block_args(item, recursing=True)
-            else:
-                helper_results.append(_prepare_array_func_args(item))
-    if recursing:
-        return helper_results
-    cms = [hr["comoving"] for hr in helper_results]
-    vts = [hr["valid_transform"] for hr in helper_results]
-    comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
-    convert_to_cm = False
-    if all(cms):
-        ret_cm = True
-    elif all([cm is None for cm in cms]):
-        ret_cm = None
-    elif any([cm is None for cm in cms]) and not all([cm is None for cm in cms]):
-        raise ValueError(
-            "Some input has comoving=None and others have "
-            "comoving=True|False. Result is undefined!"
-        )
-    elif all([cm is False for cm in cms]):
-        ret_cm = False
-    else:
-        # mix of True and False only
-        ret_cm = True
-        convert_to_cm = True
-    ret_vt = all(vts)
-    if len(set(comps)) == 1:
-        ret_comp = comps[0]
-    else:
-        ret_comp = None
-    ret_cf = cfs[0]
-    for cf in cfs[1:]:
-        if cf != ret_cf:
-            raise ValueError("Mixed cosmo_factor values in input.")
-    if convert_to_cm:
-        ret_lst = _recursive_to_comoving(lst)
-    else:
-        ret_lst = lst
-    return {
-        "args": ret_lst,
-        "kwargs": {},
-        "comoving": ret_cm,
-        "cosmo_factor": ret_cf,
-        "valid_transform": ret_vt,
-        "compression": ret_comp,
-    }
+    if not isinstance(lst, list):
+        return next(arrays)
+    return [_rebuild_block_list(item, arrays) for item in lst]
 
 
 @implements(np.block)
 def block(arrays):  # noqa numpydoc ignore=GL08
     # block is a special case since we need to recurse more than one level
     # down the list of arrays.
-    helper_result_block = _prepare_array_block_args(arrays)
-    ret_cf = helper_result_block["cosmo_factor"]
-    res = unyt_block(helper_result_block["args"])
-    return _return_helper(res, helper_result_block, ret_cf)
+    helper_result = _prepare_array_func_args(*_flatten_block_list(arrays))
+    ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    res = unyt_block(_rebuild_block_list(arrays, iter(helper_result["args"])))
+    return _return_helper(res, helper_result, ret_cf)
 
 
 implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
@@ -1842,6 +1791,32 @@ implements(np.geomspace)(
 )
 
 
+def _match_comoving(src: object, dst: object) -> object:
+    """
+    Convert values that will be assigned to (part of) an array to match that array.
+
+    The input is not modified.
+
+    Parameters
+    ----------
+    src : :obj:`object`
+        The values to be assigned.
+
+    dst : :obj:`object`
+        The array to be assigned to.
+
+    Returns
+    -------
+    :obj:`object`
+        The values, or a converted copy of them if the array that they are assigned to
+        is comoving and they are physical or vice versa.
+    """
+    comoving = getattr(dst, "comoving", None)
+    if comoving is None or getattr(src, "comoving", None) in (None, comoving):
+        return src
+    return src.to_comoving() if comoving else src.to_physical()
+
+
 @implements(np.copyto)
 def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(dst, src, casting=casting, where=where)
@@ -1849,12 +1824,7 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
         # if we're copyting across two
         _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass dst directly here because it's modified in-place
-    if isinstance(src, objects.cosmo_array):
-        comoving = getattr(dst, "comoving", None)
-        if comoving:
-            src.convert_to_comoving()
-        elif comoving is False:
-            src.convert_to_physical()
+    src = _match_comoving(src, dst)
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
 
@@ -2050,11 +2020,7 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
+    val = _match_comoving(val, a)
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
 
@@ -2066,12 +2032,7 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, mask, vals)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(vals, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            vals.convert_to_comoving()
-        elif comoving is False:
-            vals.convert_to_physical()
+    vals = _match_comoving(vals, arr)
     unyt_place(arr, mask, vals)
 
 
@@ -2080,12 +2041,7 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, ind, v, mode=mode)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(v, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            v.convert_to_comoving()
-        elif comoving is False:
-            v.convert_to_physical()
+    v = _match_comoving(v, a)
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
 
@@ -2094,12 +2050,7 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, indices, values, axis)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _match_comoving(values, arr)
     unyt_put_along_axis(arr, indices, values, axis)
 
 
@@ -2108,12 +2059,7 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, mask, values)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _match_comoving(values, a)
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From 87f80dc4b00a53780a9919d1fb7a03ae98697d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 19/75] fix: output arrays of array functions are written even
 if they were physical and inputs comoving or vice versa

---
 swiftsimio/_array_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index d9ef673..09bb32e 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -906,6 +906,8 @@ def _prepare_array_func_args(
     ValueError
         If the input arrays cannot be coerced to a consistent state of ``comoving``.
     """
+    # the previous state of an output array doesn't matter, and it must not be copied
+    passthrough = {"out": kwargs.pop("out")} if "out" in kwargs else {}
     cms = [(hasattr(arg, "comoving"), getattr(arg, "comoving", None)) for arg in args]
     cfs = [getattr(arg, "cosmo_factor", None) for arg in args]
     vts = [getattr(arg, "valid_transform", True) for arg in args]
@@ -977,7 +979,7 @@ def _prepare_array_func_args(
         ret_comp = None
     return {
         "args": args,
-        "kwargs": kwargs,
+        "kwargs": {**kwargs, **passthrough},
         "cfs": cfs,
         "kw_cfs": kw_cfs,
         "comoving": ret_cm,
-- 
2.43.0


From 7bf4363b135643eb7204876acb0bef4ec202978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 20/75] fix: Fourier transforms keep the cosmo_factor of the
 transformed values

---
 swiftsimio/_array_functions.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 09bb32e..efca1f8 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1694,35 +1694,35 @@ def block(arrays):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
-implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _reciprocal_cosmo_factor))
-implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _reciprocal_cosmo_factor))
-implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _reciprocal_cosmo_factor))
+implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _preserve_cosmo_factor))
+implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _preserve_cosmo_factor))
+implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _preserve_cosmo_factor))
+implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _preserve_cosmo_factor))
+implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _preserve_cosmo_factor))
 implements(np.fft.rfft2)(
-    _default_unary_wrapper(unyt_fft_rfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.rfftn)(
-    _default_unary_wrapper(unyt_fft_rfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfftn, _preserve_cosmo_factor)
 )
-implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _reciprocal_cosmo_factor))
+implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _preserve_cosmo_factor))
 implements(np.fft.ifft2)(
-    _default_unary_wrapper(unyt_fft_ifft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifft2, _preserve_cosmo_factor)
 )
 implements(np.fft.ifftn)(
-    _default_unary_wrapper(unyt_fft_ifftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifftn, _preserve_cosmo_factor)
 )
 implements(np.fft.ihfft)(
-    _default_unary_wrapper(unyt_fft_ihfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ihfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft)(
-    _default_unary_wrapper(unyt_fft_irfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft2)(
-    _default_unary_wrapper(unyt_fft_irfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.irfftn)(
-    _default_unary_wrapper(unyt_fft_irfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfftn, _preserve_cosmo_factor)
 )
 implements(np.fft.fftshift)(
     _default_unary_wrapper(unyt_fft_fftshift, _preserve_cosmo_factor)
-- 
2.43.0


From 29332d9a3cbe71e7d53c194537742338c1d7b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 21/75] fix: variance has the square of the cosmo_factor

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index efca1f8..4eeaf68 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1856,7 +1856,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From 3daa438ebf84739d7e61d7774057c4250087ee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 22/75] fix: singular values keep the labels of the decomposed
 matrix

---
 swiftsimio/_array_functions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4eeaf68..db978fb 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1375,9 +1375,19 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+
+
+@implements(np.linalg.svd)
+def linalg_svd(a, full_matrices=True, compute_uv=True, hermitian=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(
+        a, full_matrices=full_matrices, compute_uv=compute_uv, hermitian=hermitian
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    ress = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if compute_uv:
+        # only the singular values have the dimensions of the input
+        return (ress[0], _return_helper(ress[1], helper_result, ret_cf), ress[2])
+    return _return_helper(ress, helper_result, ret_cf)
 
 
 @implements(np.histogram)
-- 
2.43.0


From 81b93ec4e335e788e0c86809a445cab3a093d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:48 +0000
Subject: [PATCH 23/75] fix: einsum multiplies the cosmo_factors of its
 operands

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index db978fb..3ea15d6 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2174,7 +2174,7 @@ def einsum(  # noqa numpydoc ignore=GL08
         optimize=optimize,
     )
     helper_result_operands = _prepare_array_func_args(*operands)
-    ret_cf = _preserve_cosmo_factor(*helper_result_operands["cfs"])
+    ret_cf = _multiply_cosmo_factor(*helper_result_operands["cfs"])
     res = unyt_einsum(
         helper_result["args"][0],
         *helper_result_operands["args"],
-- 
2.43.0


From f7c11ae49550cbc8bfa8e828b52239ec6978c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 24/75] fix: joins label their output array

---
 swiftsimio/_array_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3ea15d6..8714ae9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1280,7 +1280,9 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(res, helper_result_oplist, ret_cf)
+        return _return_helper(
+            res, helper_result_oplist, ret_cf, out=kwargs.get("out")
+        )
 
     return wrapper
 
-- 
2.43.0


From 82dfbb0bf90453f775e0cf7658c6f7ca1d0eed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 25/75] fix: choose and select use and label the converted
 choices

---
 swiftsimio/_array_functions.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 8714ae9..2254f50 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1911,8 +1911,12 @@ def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(
+        helper_result["args"][0],
+        helper_result_choices["args"],
+        **helper_result["kwargs"],
+    )
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
@@ -2084,15 +2088,16 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
+    if np.ndim(default) == 0 and not isinstance(default, objects.cosmo_array):
+        helper_result_choices = _prepare_array_func_args(*choicelist)
+    else:
+        helper_result_choices = _prepare_array_func_args(*choicelist, default)
+        default = helper_result_choices["args"][-1]
+    ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
     res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
+        condlist, helper_result_choices["args"][: len(choicelist)], default=default
     )
-    return _return_helper(res, helper_result, ret_cf)
+    return _return_helper(res, helper_result_choices, ret_cf)
 
 
 implements(np.setdiff1d)(
-- 
2.43.0


From e894517a17126cc2278e43a8f5d44aeb6ecb63eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 26/75] fix: diff, ediff1d and pad check the cosmo_factor of
 values they combine with the data

---
 swiftsimio/_array_functions.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 2254f50..9774355 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1072,7 +1072,9 @@ def _return_helper(
 
 
 def _default_unary_wrapper(
-    unyt_func: Callable, cosmo_factor_handler: Callable
+    unyt_func: Callable,
+    cosmo_factor_handler: Callable,
+    values_kwargs: tuple[str, ...] = (),
 ) -> Callable:
     """
     Wrap unary functions with typical behaviour.
@@ -1091,6 +1093,9 @@ def _default_unary_wrapper(
     cosmo_factor_handler : Callable
         The function that handles the ``cosmo_factor``s, chosen from those defined
         in :mod:`~swiftsimio._array_functions`.
+    values_kwargs : tuple[str, ...]
+        Names of keyword arguments that give additional values that are combined with
+        the data, if they have a ``cosmo_factor`` it must match that of the data.
 
     Returns
     -------
@@ -1116,6 +1121,11 @@ def _default_unary_wrapper(
             The wrapped function.
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
+        for k in values_kwargs:
+            if helper_result["kw_cfs"].get(k) is not None:
+                _preserve_cosmo_factor(
+                    helper_result["cfs"][0], helper_result["kw_cfs"][k]
+                )
         ret_cf = cosmo_factor_handler(helper_result["cfs"][0])
         res = unyt_func(*helper_result["args"], **helper_result["kwargs"])
         if "out" in kwargs:
@@ -1890,8 +1900,14 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-implements(np.diff)(_default_unary_wrapper(unyt_diff, _preserve_cosmo_factor))
-implements(np.ediff1d)(_default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor))
+implements(np.diff)(
+    _default_unary_wrapper(unyt_diff, _preserve_cosmo_factor, ("prepend", "append"))
+)
+implements(np.ediff1d)(
+    _default_unary_wrapper(
+        unyt_ediff1d, _preserve_cosmo_factor, ("to_end", "to_begin")
+    )
+)
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
@@ -1902,6 +1918,10 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
     # the number of options is huge, including user defined functions to handle data
     # let's just preserve the cosmo_factor of the input `array` and trust the user...
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    for kw_cf in helper_result["kw_cfs"].values():
+        # ...unless we got values that don't match
+        if kw_cf is not None:
+            _preserve_cosmo_factor(ret_cf, kw_cf)
     res = unyt_pad(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From 6b0cc1408a0623e33bfee395c8e78fdc57010d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 27/75] fix: interp checks that the points have the
 cosmo_factor of the tabulated ones

---
 swiftsimio/_array_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9774355..4a2b3b2 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2244,6 +2244,7 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
     helper_result = _prepare_array_func_args(
         x, xp, fp, left=left, right=right, period=period
     )
+    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
-- 
2.43.0


From 7d7836a6c9cc4e8b5495fe75718e6e0bbef3624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 28/75] fix: digitize compares data and bins in the same
 comoving or physical state

---
 swiftsimio/_array_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4a2b3b2..71dcf2a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -114,6 +114,7 @@ from unyt._array_functions import (
     array_repr as unyt_array_repr,
     linalg_outer as unyt_linalg_outer,
     trapezoid as unyt_trapezoid,
+    digitize as unyt_digitize,
     isin as unyt_isin,
     take as unyt_take,
 )
@@ -2101,6 +2102,9 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     unyt_putmask(a, mask, values)
 
 
+implements(np.digitize)(
+    _default_binary_wrapper(unyt_digitize, _return_without_cosmo_factor)
+)
 implements(np.searchsorted)(
     _default_binary_wrapper(unyt_searchsorted, _return_without_cosmo_factor)
 )
-- 
2.43.0


From 4497593a294703c6c79211502de19082a8097d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:39 +0000
Subject: [PATCH 29/75] fix: where with only a condition returns the indices

---
 swiftsimio/_array_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 71dcf2a..29b2ffc 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2171,8 +2171,7 @@ def clip(  # noqa numpydoc ignore=GL08
 def where(condition, *args):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condition, *args)
     if len(args) == 0:  # just condition
-        ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return unyt_where(*helper_result["args"], **helper_result["kwargs"])
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From e256cd4c8f41e0b2ab18a31f4bc602b9388886ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:50 +0000
Subject: [PATCH 30/75] fix: average uses the converted weights

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 29b2ffc..80c8917 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2322,9 +2322,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From f802ee479e0f8b9b69ef5cc8439812064da0ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:21 +0000
Subject: [PATCH 31/75] fix: initial values of reductions are checked and
 converted to match the data

---
 swiftsimio/_array_functions.py | 18 +++++++++++++++---
 swiftsimio/objects.py          |  3 +++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 80c8917..3927a39 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2335,8 +2335,16 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
         return _return_helper(res, helper_result, ret_cf_avg)
 
 
-implements(np.max)(_propagate_cosmo_array_attributes_to_result(np.max._implementation))
-implements(np.min)(_propagate_cosmo_array_attributes_to_result(np.min._implementation))
+implements(np.max)(
+    _default_unary_wrapper(
+        np.max._implementation, _preserve_cosmo_factor, ("initial",)
+    )
+)
+implements(np.min)(
+    _default_unary_wrapper(
+        np.min._implementation, _preserve_cosmo_factor, ("initial",)
+    )
+)
 implements(np.mean)(
     _propagate_cosmo_array_attributes_to_result(np.mean._implementation)
 )
@@ -2346,7 +2354,11 @@ implements(np.median)(
 implements(np.sort)(
     _propagate_cosmo_array_attributes_to_result(np.sort._implementation)
 )
-implements(np.sum)(_propagate_cosmo_array_attributes_to_result(np.sum._implementation))
+implements(np.sum)(
+    _default_unary_wrapper(
+        np.sum._implementation, _preserve_cosmo_factor, ("initial",)
+    )
+)
 implements(np.partition)(
     _propagate_cosmo_array_attributes_to_result(np.partition._implementation)
 )
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index cc904f4..9195f07 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2221,6 +2221,9 @@ class cosmo_array(unyt_array):
         """
         helper_result = _prepare_array_func_args(*inputs, **kwargs)
         cfs = helper_result["cfs"]
+        if helper_result["kw_cfs"].get("initial") is not None:
+            # initial value of a reduction needs to match the data
+            _preserve_cosmo_factor(cfs[0], helper_result["kw_cfs"]["initial"])
 
         # make sure we evaluate the cosmo_factor_ufunc_registry function:
         # might raise/warn even if we're not returning a cosmo_array
-- 
2.43.0


From ca9d20e957b35e0aacca949654e76253ec4739c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 32/75] fix: select checks a default with units against the
 choices

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3927a39..bb135cf 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2112,7 +2112,7 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    if np.ndim(default) == 0 and not isinstance(default, objects.cosmo_array):
+    if np.ndim(default) == 0 and not isinstance(default, unyt_array):
         helper_result_choices = _prepare_array_func_args(*choicelist)
     else:
         helper_result_choices = _prepare_array_func_args(*choicelist, default)
-- 
2.43.0


From b3f864e6d0dfa6513d8038663b3813242448c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 33/75] fix: refused frame conversions leave the units
 unchanged; whole numbers can change frame by copy

---
 swiftsimio/objects.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9195f07..399815a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1477,12 +1477,17 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
+        # refuse before changing anything, including the units
+        if not self.comoving and (
+            not self.valid_transform
+            or self.comoving is None
+            or self.cosmo_factor.a_factor is None
+        ):
+            raise InvalidConversionError
         if units is not None:
             self.convert_to_units(units, equivalence=equivalence, **kwargs)
         if self.comoving:
             return
-        if not self.valid_transform or self.comoving is None:
-            raise InvalidConversionError
         # Best to just modify values as otherwise we're just going to have
         # to do a convert_to_units anyway.
         values = self.d
@@ -1525,11 +1530,14 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
+        # refuse before changing anything, including the units
+        if self.comoving is None or (
+            self.comoving and self.cosmo_factor.a_factor is None
+        ):
+            raise InvalidConversionError
         if units is not None:
             self.convert_to_units(units, equivalence=equivalence, **kwargs)
-        if self.comoving is None:
-            raise InvalidConversionError
-        elif not self.comoving:
+        if not self.comoving:
             return
         else:  # self.comoving
             # Best to just modify values as otherwise we're just going to have
@@ -1691,7 +1699,8 @@ class cosmo_array(unyt_array):
         ):
             raise InvalidConversionError
         if units is None:
-            arr_copy = self.copy()
+            # (unit conversions cast integers to floats, so that they can be scaled)
+            arr_copy = self.copy() if comoving is None else self.in_units(self.units)
         else:
             arr_copy = _copy_cosmo_array_attributes_if_present(
                 self,
-- 
2.43.0


From a3c90387e4218e01952ff19e9e1274d4146351b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 34/75] fix: constructing from a cosmo_array leaves it
 unchanged and does not ignore units, dtype and cosmo_factor

---
 swiftsimio/objects.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 399815a..142f4db 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1168,24 +1168,33 @@ class cosmo_array(unyt_array):
             return obj
 
         if isinstance(input_array, cosmo_array):
+            # conversions below must not touch the input, each makes a copy if needed:
+            if dtype is not None:
+                input_array = input_array.astype(dtype, copy=False)
+            if units is not None:
+                new_units = unyt.Unit(units, registry=registry)
+                if new_units != input_array.units:
+                    input_array = input_array.in_units(new_units)
+            if comoving is not None and comoving != input_array.comoving:
+                input_array = input_array.copy()
             obj = input_array.view(cls)
-            if comoving is None:
-                # we could be dealing with unyt creating an object for us so copy the
-                # value across to avoid defaulting to None
-                obj.comoving = input_array.comoving
+            # we could be dealing with unyt creating an object for us so copy the
+            # value across to avoid defaulting to None
+            obj.comoving = input_array.comoving
 
             # let's trust what the input_array tells us about valid_transform.
             # copy explicitly in case unyt is creating an object for us.
             obj.valid_transform = input_array.valid_transform
 
             # do cosmo_factor first since it can be used in comoving/physical conversion:
-            cosmo_factor = (
-                input_array.cosmo_factor
-                if input_array.cosmo_factor != NULL_CF
-                else None
-            )
+            if cosmo_factor is None or cosmo_factor == NULL_CF:
+                cosmo_factor = input_array.cosmo_factor
+            elif input_array.cosmo_factor not in (NULL_CF, cosmo_factor):
+                raise ValueError(
+                    "The `cosmo_factor` provided differs from that of the input array."
+                )
             cosmo_factor = _parse_cosmo_factor_args(
-                cf=cosmo_factor,
+                cf=cosmo_factor if cosmo_factor != NULL_CF else None,
                 scale_factor=scale_factor,
                 scale_exponent=scale_exponent,
             )
-- 
2.43.0


From c43bc9390ae6436b50d121412060e74a08b798b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:32 +0000
Subject: [PATCH 35/75] fix: constructing from arrays without a valid transform
 keeps that attribute

---
 swiftsimio/objects.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 142f4db..e4214fd 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1087,7 +1087,7 @@ class cosmo_array(unyt_array):
         scale_factor: float | None = None,
         scale_exponent: float | None = None,
         comoving: bool = None,
-        valid_transform: bool = True,
+        valid_transform: bool | None = None,
         compression: str | None = None,
     ) -> "cosmo_array":
         """
@@ -1140,7 +1140,8 @@ class cosmo_array(unyt_array):
 
         valid_transform : bool
             Flag to indicate whether this array can be converted to comoving. If
-            ``False``, then ``comoving`` must be ``False`` (or ``None``).
+            ``False``, then ``comoving`` must be ``False`` (or ``None``). Defaults to
+            the value for the input, where it has one, else ``True``.
 
         compression : str
             Description of the compression filters that were applied to that array in the
@@ -1162,7 +1163,7 @@ class cosmo_array(unyt_array):
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
                 obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
-            obj.valid_transform = valid_transform
+            obj.valid_transform = valid_transform is not False
             obj.compression = compression
 
             return obj
@@ -1213,7 +1214,8 @@ class cosmo_array(unyt_array):
 
             # only overwrite valid_transform after transforming so that invalid
             # transformations raise:
-            obj.valid_transform = valid_transform
+            if valid_transform is not None:
+                obj.valid_transform = valid_transform
             _verify_valid_transform_validity(obj)
             obj.compression = (
                 compression if compression is not None else obj.compression
@@ -1231,12 +1233,11 @@ class cosmo_array(unyt_array):
                 scale_factor=scale_factor,
                 scale_exponent=scale_exponent,
             )
-            valid_transform = valid_transform if comoving is not None else False
+            valid_transform = valid_transform is not False and comoving is not None
 
         elif _iterable(input_array):
             # if _prepare_array_func_args finds cosmo_array input it will convert to:
             default_cm = comoving if comoving is not None else True
-            default_vt = comoving is not None
 
             # coerce any cosmo_array inputs to consistency:
             helper_result = _prepare_array_func_args(
@@ -1260,9 +1261,9 @@ class cosmo_array(unyt_array):
             compression = (
                 helper_result["compression"] if compression is None else compression
             )
-            # valid_transform has a non-None default, so we have to decide to always
-            # respect it, unless comoving is None
-            valid_transform = valid_transform if comoving is not None else default_vt
+            if valid_transform is None:
+                valid_transform = helper_result["valid_transform"]
+            valid_transform = valid_transform if comoving is not None else False
         else:
             # if the input isn't even iterable, this is an error
             raise ValueError(
@@ -2497,7 +2498,7 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         scale_factor: float | None = None,
         scale_exponent: float | None = None,
         comoving: bool | None = None,
-        valid_transform: bool = True,
+        valid_transform: bool | None = None,
         compression: str | None = None,
     ) -> "cosmo_quantity":
         """
-- 
2.43.0


From abe6262d851683a8ada77819419d250b362a553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 36/75] fix: constructing from a sequence of cosmo_arrays
 converts it to the requested frame, refuses another cosmo_factor

---
 swiftsimio/objects.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index e4214fd..ab1d28e 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1247,17 +1247,35 @@ class cosmo_array(unyt_array):
             input_array = helper_result["args"]
 
             # default to comoving, cosmo_factor and compression given as kwargs
-            comoving = helper_result["comoving"] if comoving is None else comoving
+            if helper_result["comoving"] is None or comoving is None:
+                comoving = helper_result["comoving"] if comoving is None else comoving
+            elif comoving != helper_result["comoving"]:
+                input_array = [
+                    arg.to(None, comoving=comoving)
+                    if isinstance(arg, cosmo_array)
+                    else arg
+                    for arg in input_array
+                ]
             cosmo_factor = _parse_cosmo_factor_args(
                 cf=cosmo_factor,
                 scale_factor=scale_factor,
                 scale_exponent=scale_exponent,
             )
-            cosmo_factor = (
+            input_cosmo_factor = (
                 _preserve_cosmo_factor(*helper_result["cfs"])
-                if cosmo_factor is None and len(helper_result["cfs"])
-                else cosmo_factor
+                if len(helper_result["cfs"])
+                else None
             )
+            if cosmo_factor is None:
+                cosmo_factor = input_cosmo_factor
+            elif (
+                input_cosmo_factor is not None
+                and input_cosmo_factor != NULL_CF
+                and input_cosmo_factor != cosmo_factor
+            ):
+                raise ValueError(
+                    "The `cosmo_factor` provided differs from that of the input data."
+                )
             compression = (
                 helper_result["compression"] if compression is None else compression
             )
-- 
2.43.0


From a091a0898ad4d942898383b1adc7ae25fd37c927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 37/75] fix: constructing a cosmo_quantity from another
 converts it to the requested frame, refuses another cosmo_factor

---
 swiftsimio/objects.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index ab1d28e..9fc51fb 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2598,6 +2598,19 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         if not isinstance(input_scalar, (numeric_type, np.number, np.ndarray)):
             raise RuntimeError("cosmo_quantity values must be numeric")
 
+        if isinstance(input_scalar, cosmo_array):
+            # convert rather than relabel, and refuse contradictory information
+            if comoving is not None and input_scalar.comoving not in (None, comoving):
+                input_scalar = input_scalar.to(None, comoving=comoving)
+            if (
+                cosmo_factor is not None
+                and input_scalar.cosmo_factor != NULL_CF
+                and cosmo_factor != input_scalar.cosmo_factor
+            ):
+                raise ValueError(
+                    "The `cosmo_factor` provided differs from that of the input scalar."
+                )
+
         # Use values from kwargs, if None use values from input_scalar
         units = getattr(input_scalar, "units", None) if units is None else units
         name = getattr(input_scalar, "name", None) if name is None else name
-- 
2.43.0


From 9bc6f81620be9172f3f7bc3d5b55b026aaafe1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 38/75] fix: from_astropy and from_pint set valid_transform

---
 swiftsimio/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9fc51fb..222622b 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1983,7 +1983,8 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform if comoving is not None else False
+        _verify_valid_transform_validity(obj)
 
         return obj
 
@@ -2045,7 +2046,8 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform if comoving is not None else False
+        _verify_valid_transform_validity(obj)
 
         return obj
 
-- 
2.43.0


From 402fc78e9cee0fb87d29b4888d7ef14f108f81c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:36 +0000
Subject: [PATCH 39/75] fix: scale_factor and scale_exponent are accepted with
 bypass_validation

---
 swiftsimio/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 222622b..90e1079 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1162,7 +1162,7 @@ class cosmo_array(unyt_array):
             obj.comoving = comoving
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                obj.cosmo_factor = type(NULL_CF).create(scale_factor, scale_exponent)
             obj.valid_transform = valid_transform is not False
             obj.compression = compression
 
-- 
2.43.0


From 12ccdcd80a98b9cd441dd42565c3e88bc2a20a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 40/75] fix: units are not ignored when constructing from a
 sequence of quantities

---
 swiftsimio/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 90e1079..310467b 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1311,6 +1311,10 @@ class cosmo_array(unyt_array):
         obj.valid_transform = valid_transform
         _verify_valid_transform_validity(obj)
 
+        if units is not None and obj.units != unyt.Unit(units, registry=registry):
+            # unyt ignores the argument for sequences of items that have units
+            obj = obj.in_units(unyt.Unit(units, registry=registry))
+
         return obj
 
     def __array_finalize__(self, obj: "cosmo_array") -> None:
-- 
2.43.0


From 2d7a62bdb5e922869dffb0457ea7ef74b5d3c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 41/75] fix: constructing a physical array from a comoving
 array of integers

---
 swiftsimio/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 310467b..121ef58 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1177,7 +1177,8 @@ class cosmo_array(unyt_array):
                 if new_units != input_array.units:
                     input_array = input_array.in_units(new_units)
             if comoving is not None and comoving != input_array.comoving:
-                input_array = input_array.copy()
+                # (unit conversions cast integers to floats, so that they can be scaled)
+                input_array = input_array.in_units(input_array.units)
             obj = input_array.view(cls)
             # we could be dealing with unyt creating an object for us so copy the
             # value across to avoid defaulting to None
-- 
2.43.0


From 34bfb1a27306ef4ba089bb76b13289c7e20fd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 42/75] fix: squeezed, flattened, repeated and compressed
 quantities keep their labels

---
 swiftsimio/objects.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 121ef58..62ec109 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1414,11 +1414,19 @@ class cosmo_array(unyt_array):
     astype = _propagate_cosmo_array_attributes_to_result(unyt_array.astype)
     in_units = _propagate_cosmo_array_attributes_to_result(unyt_array.in_units)
     byteswap = _propagate_cosmo_array_attributes_to_result(unyt_array.byteswap)
-    compress = _propagate_cosmo_array_attributes_to_result(unyt_array.compress)
+    compress = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.compress)
+    )
     diagonal = _propagate_cosmo_array_attributes_to_result(unyt_array.diagonal)
-    flatten = _propagate_cosmo_array_attributes_to_result(unyt_array.flatten)
-    ravel = _propagate_cosmo_array_attributes_to_result(unyt_array.ravel)
-    repeat = _propagate_cosmo_array_attributes_to_result(unyt_array.repeat)
+    flatten = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.flatten)
+    )
+    ravel = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.ravel)
+    )
+    repeat = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.repeat)
+    )
     swapaxes = _propagate_cosmo_array_attributes_to_result(unyt_array.swapaxes)
     transpose = _propagate_cosmo_array_attributes_to_result(unyt_array.transpose)
     view = _propagate_cosmo_array_attributes_to_result(unyt_array.view)
@@ -1438,7 +1446,9 @@ class cosmo_array(unyt_array):
     )
     __pos__ = _propagate_cosmo_array_attributes_to_result(unyt_array.__pos__)
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From a0dc9891810aef8376713a08b56100e6fd8bbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:17 +0000
Subject: [PATCH 43/75] fix: valid_transform may be given as a numpy boolean

---
 swiftsimio/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 62ec109..ae7e84a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1163,7 +1163,7 @@ class cosmo_array(unyt_array):
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
                 obj.cosmo_factor = type(NULL_CF).create(scale_factor, scale_exponent)
-            obj.valid_transform = valid_transform is not False
+            obj.valid_transform = True if valid_transform is None else valid_transform
             obj.compression = compression
 
             return obj
@@ -1234,7 +1234,10 @@ class cosmo_array(unyt_array):
                 scale_factor=scale_factor,
                 scale_exponent=scale_exponent,
             )
-            valid_transform = valid_transform is not False and comoving is not None
+            if comoving is None:
+                valid_transform = False
+            elif valid_transform is None:
+                valid_transform = True
 
         elif _iterable(input_array):
             # if _prepare_array_func_args finds cosmo_array input it will convert to:
-- 
2.43.0


From 73f10c7435b2d8e5c04822f16c64f933efcd6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 44/75] fix: wrapping particles for an image leaves the data
 set's coordinates unchanged

---
 swiftsimio/visualisation/_vistools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..cedd7e8 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,8 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        # not in place, these can be the data set's own coordinates
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 1398838c1140f4cf709e68b55a9020fabc14a198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 45/75] fix: projections of non-square regions are divided by
 the area of their pixels

---
 swiftsimio/visualisation/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..67888fa 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,7 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    norm = region_info["max_range"] ** 2  # also the unit for distances passed above
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 9a1ba21a8a060cf0234c36454d34e540402aa55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 46/75] fix: subsampled projections split unresolved particles
 at the right and upper edges of pixels

---
 .../visualisation/projection_backends/subsampled.py       | 8 ++++----
 .../projection_backends/subsampled_extreme.py             | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..d2dd7fb 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
@@ -204,7 +204,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -220,7 +220,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..2be1de7 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
@@ -205,7 +205,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -221,7 +221,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
-- 
2.43.0


From 9c8982cee69e389935fbcd53169fee1021d220fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 47/75] fix: slices and volume renders include the uppermost
 cells that a kernel reaches

---
 swiftsimio/visualisation/slice_backends/sph.py     |  7 +++++--
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From fb539a77a8c6e96ea19f1e37c97189eb8d5769db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 48/75] fix: renormalised projections normalise over all the
 cells that they deposit on

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From 440f20b8e8d7ab54881fbdbe1c638488311f2815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 49/75] fix: rotation matrices for vectors along the axis are
 rotations, not reflections

---
 swiftsimio/visualisation/rotation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..435fa76 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,16 +45,18 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if np.dot(original_direction, normed_vector) < 0:
+            # The vector points in the exact opposite direction, so that any half turn
+            # about a perpendicular axis will do (e.g. flip z and x).
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 2, switch[axis] - 2] = -1.0
 
         return output
     else:
+        cross_product = cross_product / mod_cross_product
         cos_theta = np.dot(original_direction, normed_vector)
         sin_theta = np.sin(np.arccos(cos_theta))
 
-- 
2.43.0


From a5ef995df6ca052415a80d9cac47b6146c73fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 50/75] fix: deposits of particles that round to the upper edge
 stay within the mesh

---
 swiftsimio/visualisation/power_spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..e4e030a 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,10 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position (rounding can place particles on the upper edge)
+        x_pix = min(np.int32(x_pos_scaled * float_res), res - 1)
+        y_pix = min(np.int32(y_pos_scaled * float_res), res - 1)
+        z_pix = min(np.int32(z_pos_scaled * float_res), res - 1)
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 242d632975e6574b212be09adabb17259012d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 51/75] fix: deposits use the box size in the frame of the
 coordinates

---
 swiftsimio/visualisation/power_spectrum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index e4e030a..f3d4cc8 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -235,8 +235,10 @@ def render_to_deposit(
                 "coordinates!"
             )
 
-    # Get the box size
+    # Get the box size (in the frame of the positions)
     boxsize = data.metadata.boxsize
+    if positions.comoving is not None:
+        boxsize = boxsize.to(boxsize.units, comoving=positions.comoving)
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -262,10 +264,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From 416babcc043061268f4dc6eb97ca2b1aac718b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 52/75] fix: smoothing lengths are generated with the box size
 in the frame of the coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..d5301d7 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,11 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # the box must be in the same frame as the coordinates
+    comoving = getattr(coordinates, "comoving", None)
+    if None not in (comoving, getattr(boxsize, "comoving", None)):
+        boxsize = boxsize.to(coordinates.units, comoving=comoving)
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 712ec1cd86078f13eac158a2ac6c5e7bf49ebc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 53/75] fix: smoothing lengths can be generated from a search
 for one neighbour

---
 swiftsimio/visualisation/smoothing_length/generate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index d5301d7..1bd121c 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -113,7 +113,10 @@ def generate_smoothing_lengths(
                 n_jobs=-1,
             )
 
-        smoothing_lengths[starting_index:ending_index] = d[:, -1]
+        # (a search for a single neighbour gives a 1D array)
+        smoothing_lengths[starting_index:ending_index] = (
+            d[:, -1] if neighbours_search > 1 else d
+        )
 
     return type(coordinates)(
         smoothing_lengths
-- 
2.43.0


From 5129bf62eca5c07a790a9f4eac09c56be299f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 54/75] fix: combined power spectra scale with the scale factor
 as a volume

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index f3d4cc8..77fbf49 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -386,7 +386,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 2cb39f4d24067c01cd07c1ccae22262d74e8aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 55/75] fix: images of fields without a comoving or physical
 state keep units and normalisation

---
 swiftsimio/visualisation/_vistools.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index cedd7e8..0705cb4 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -1,6 +1,7 @@
 """Shared utility functions & decorators for the visualisation tools."""
 
 import numpy as np
+import unyt
 from warnings import warn
 from functools import reduce
 from typing import Callable, Any
@@ -214,7 +215,10 @@ def backend_strip_and_restore_cosmo_and_units(
         cosmo_array
             The result with cosmology metadata reattached.
         """
-        comoving = getattr(kwargs["m"], "comoving", None)
+        if not isinstance(kwargs["m"], cosmo_array):
+            # no cosmology metadata, but there can be units to restore
+            kwargs["m"] = cosmo_array(kwargs["m"])
+        comoving = kwargs["m"].comoving
         if comoving is True:
             if kwargs["x"].comoving is False or kwargs["y"].comoving is False:
                 warn(
@@ -246,7 +250,10 @@ def backend_strip_and_restore_cosmo_and_units(
             kwargs["h"].convert_to_physical()
             converted_norm = norm.to_physical()
         else:
-            converted_norm = 1.0
+            # without a frame the image is still per area (or volume)
+            converted_norm = (
+                norm.view(unyt.unyt_array) if isinstance(norm, cosmo_array) else norm
+            )
         stripped_kwargs = {
             k: v.to_value(v.units, comoving=v.comoving)
             if isinstance(v, cosmo_array)
-- 
2.43.0


From a025303d626de92742772bdacf3de679561f2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 56/75] fix: smoothing lengths of no particles are an empty
 array

---
 swiftsimio/visualisation/smoothing_length/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 1bd121c..9245d2a 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -72,7 +72,7 @@ def generate_smoothing_lengths(
     )
 
     smoothing_lengths = np.empty(number_of_parts, dtype=np.float32)
-    smoothing_lengths[-1] = -0.1
+    smoothing_lengths[-1:] = -0.1  # (a slice, there may be no particles)
 
     # Include speedup_fac stuff here:
     neighbours_search = neighbours // speedup_fac
-- 
2.43.0


From d93cd0f4d7f074b212117480b75d8fbad688e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 57/75] fix: assigning arrays to the snapshot writer leaves the
 caller's arrays unchanged

---
 swiftsimio/snapshot_writer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 8c6d4f0..52acbc7 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -401,9 +401,10 @@ def generate_setter(
         if dimensions != 1:
             if isinstance(value, cosmo_array):
                 if value.units.dimensions == dimensions:
-                    value.convert_to_base(unit_system)
-                    value.convert_to_comoving()
-                    setattr(self, f"_{name}", value)
+                    # convert a copy, the array belongs to the caller
+                    converted = value.in_base(unit_system)
+                    converted.convert_to_comoving()
+                    setattr(self, f"_{name}", converted)
                 else:
                     raise unyt.exceptions.InvalidUnitEquivalence(
                         f"Convert to {name}", value.units.dimensions, dimensions
-- 
2.43.0


From b35dbb113dd519533dc136320b5a6587b8e5ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 58/75] fix: the snapshot writer stores a physical box size in
 the comoving frame

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 52acbc7..8804c9e 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -685,6 +685,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if getattr(self.boxsize, "comoving", None) is False:
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From d260b6d361080409507fbee23ca7dd8fac0e46f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 59/75] fix: units and metadata of a loaded data set can be
 loaded again, and no handle stays open

---
 swiftsimio/_handle_provider.py |  2 +-
 swiftsimio/reader.py           | 33 ++++++++++++++++++---------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 6610e9d..5fecac0 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -58,7 +58,7 @@ class HandleProvider:
 
     def _close_handle_if_manager(self) -> None:
         """Close the file handle if this object is the manager of the handle."""
-        if self.handle_manager:
+        if self.handle_manager and self._handle:
             self._handle.close()
 
     @contextmanager
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..09436b5 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -758,7 +758,8 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.units = self.mask.units
         else:
-            self.units = SWIFTUnits(self.filename, handle=self.handle)
+            with self.open_file() as handle:
+                self.units = SWIFTUnits(self.filename, handle=handle)
 
         return
 
@@ -776,9 +777,10 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.metadata = self.mask.metadata
         else:
-            self.metadata = _metadata_discriminator(
-                self.filename, self.units, handle=self.handle
-            )
+            with self.open_file() as handle:
+                self.metadata = _metadata_discriminator(
+                    self.filename, self.units, handle=handle
+                )
 
         return
 
@@ -793,16 +795,17 @@ class SWIFTDataset(HandleProvider):
         if not hasattr(self, "metadata"):
             self.get_metadata()
 
-        for group_name in self.metadata.present_group_names:
-            setattr(
-                self,
-                group_name,
-                _generate_datasets(
-                    self.filename,
-                    getattr(self.metadata, f"{group_name}_properties"),
-                    self.mask,
-                    handle=self.handle,
-                ),
-            )
+        with self.open_file() as handle:
+            for group_name in self.metadata.present_group_names:
+                setattr(
+                    self,
+                    group_name,
+                    _generate_datasets(
+                        self.filename,
+                        getattr(self.metadata, f"{group_name}_properties"),
+                        self.mask,
+                        handle=handle,
+                    ),
+                )
 
         return
-- 
2.43.0


From 8d27411cb25c3627b0217539e30aaa076a86aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 60/75] fix: objects that fail to initialise close the file
 handle they opened

---
 swiftsimio/_handle_provider.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 5fecac0..3bbd54b 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -1,7 +1,8 @@
 """Provide a mixin class for managing file handles."""
 
 from contextlib import contextmanager
-from typing import ContextManager
+from functools import wraps
+from typing import Any, ContextManager
 from pathlib import Path
 import h5py
 
@@ -32,6 +33,33 @@ class HandleProvider:
 
         return
 
+    def __init_subclass__(cls, **kwargs: Any) -> None:
+        """
+        Make sure that a derived class that fails to initialise closes its own handle.
+
+        Parameters
+        ----------
+        **kwargs : dict
+            Passed on to the parent class.
+        """
+        super().__init_subclass__(**kwargs)
+        if "__init__" not in cls.__dict__:
+            return
+        init = cls.__init__
+
+        @wraps(init)
+        def closing_init(self: HandleProvider, *args: tuple, **kwargs: dict) -> None:
+            try:
+                init(self, *args, **kwargs)
+            except BaseException:
+                if getattr(self, "_handle", None) and self.handle_manager:
+                    self._handle.close()
+                raise
+
+        cls.__init__ = closing_init
+
+        return
+
     @property
     def handle(self) -> h5py.File:
         """
-- 
2.43.0


From 35c8b05afb3463139b2ce46e810e8295166907b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 61/75] fix: statistics columns holding nan, inf or bare zeros
 are read as floats, blank lines are not rows

---
 swiftsimio/accelerated.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 82ccded..366903e 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -563,24 +563,27 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     -----
     Currently not suitable for :mod:`numba` acceleration due to mixed datatype usage.
     """
+    rows = [line.split() for line in lines if line.strip()]
+
     # Calculate types and set up arrays.
 
     arrays = []
     dtypes = []
-    number_of_lines = len(lines)
+    number_of_rows = len(rows)
 
-    for item in lines[0].split():
-        if "." in item or "e" in item:
-            dtype = np.float64
-        else:
+    for column in range(len(rows[0]) if rows else 0):
+        # Only integers if the whole column is: floats may be "nan", "inf", "0", "1E5"...
+        if all(row[column].lstrip("+-").isdigit() for row in rows if len(row) > column):
             dtype = np.int64
+        else:
+            dtype = np.float64
 
         dtypes.append(dtype)
 
-        arrays.append(np.zeros(number_of_lines, dtype=dtype))
+        arrays.append(np.zeros(number_of_rows, dtype=dtype))
 
-    for index, line in enumerate(lines):
-        for dtype, (array, value) in zip(dtypes, enumerate(line.split())):
+    for index, row in enumerate(rows):
+        for dtype, (array, value) in zip(dtypes, enumerate(row)):
             arrays[array][index] = dtype(value)
 
     return arrays
-- 
2.43.0


From fd91b323b69f781be84a89c020d096ae5c0633bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 62/75] fix: statistics files without rows are read as empty
 columns

---
 swiftsimio/statistics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index 8ba615c..d2fef35 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -1,5 +1,6 @@
 """Reader for the statistics file."""
 
+import numpy as np
 import unyt
 import re
 
@@ -50,7 +51,7 @@ class SWIFTStatisticsFile(object):
         regex_name = re.compile(r"# \(([0-9]*)\) +([^\.\n]*)")
         regex_unit = re.compile(r"# *Unit = ([^\s]+) ?(.*)")
 
-        while lines[current_line].startswith("#"):
+        while current_line < len(lines) and lines[current_line].startswith("#"):
             # Regex match each line to see if it is a unit
             # or a name
 
@@ -96,6 +97,9 @@ class SWIFTStatisticsFile(object):
     def _process_raw_lines(self) -> None:
         """Process the raw string lines read out of the header."""
         arrays = list_of_strings_to_arrays(lines=self.raw_lines)
+        if not arrays:
+            # No rows (yet), so all columns are empty.
+            arrays = [np.zeros(0) for _ in self.header_snake_case_names]
 
         for array, header_name, header_snake_case_name in zip(
             arrays, self.header_names, self.header_snake_case_names
-- 
2.43.0


From 072e5ca75f35d4f92bcb7cc962156ab5fa8d27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 63/75] fix: a single space before the first column name is not
 part of its name

---
 swiftsimio/statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index d2fef35..9d1fb5f 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -81,9 +81,9 @@ class SWIFTStatisticsFile(object):
 
         # The last line will be the names, so extract those here.
         header_snake_case_names = [
-            x.replace(".", "").replace(" ", "_").replace("\n", "").lower()
+            x.strip().replace(".", "").replace(" ", "_").replace("\n", "").lower()
             for x in re.split(r"\s{2,}", lines[current_line - 1][1:])
-            if x != ""
+            if x.strip() != ""
         ]
 
         self.header_names = header_names
-- 
2.43.0


From 86c01737656080f6201de6cbed726798b941c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 64/75] fix: statistics columns with the same description keep
 their own units

---
 swiftsimio/statistics.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index 9d1fb5f..c0ed7e3 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -45,6 +45,7 @@ class SWIFTStatisticsFile(object):
 
         header_names = []
         header_units = {}
+        column_units = []  # per column, since names need not be unique
         current_name = None
 
         # Regex for matching
@@ -64,6 +65,7 @@ class SWIFTStatisticsFile(object):
                 current_name = name_match.group(2)
                 header_units[current_name] = unyt.dimensionless
                 header_names.append(current_name)
+                column_units.append(unyt.dimensionless)
 
                 continue
 
@@ -77,6 +79,9 @@ class SWIFTStatisticsFile(object):
                 else:
                     header_units[current_name] = unyt.dimensionless
 
+                if column_units:
+                    column_units[-1] = header_units[current_name]
+
                 continue
 
         # The last line will be the names, so extract those here.
@@ -88,6 +93,7 @@ class SWIFTStatisticsFile(object):
 
         self.header_names = header_names
         self.header_units = header_units
+        self._column_units = column_units
         self.header_snake_case_names = header_snake_case_names
 
         self.raw_lines = lines[current_line:]
@@ -101,15 +107,13 @@ class SWIFTStatisticsFile(object):
             # No rows (yet), so all columns are empty.
             arrays = [np.zeros(0) for _ in self.header_snake_case_names]
 
-        for array, header_name, header_snake_case_name in zip(
-            arrays, self.header_names, self.header_snake_case_names
+        for array, header_name, column_units, header_snake_case_name in zip(
+            arrays, self.header_names, self._column_units, self.header_snake_case_names
         ):
             setattr(
                 self,
                 header_snake_case_name,
-                unyt.unyt_array(
-                    array, units=self.header_units[header_name], name=header_name
-                ),
+                unyt.unyt_array(array, units=column_units, name=header_name),
             )
 
         return
-- 
2.43.0


From 252007a1879dbebb34d25a7bebea0e98badfbb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 65/75] fix: only named columns are described as columns, with
 or without a mask

---
 swiftsimio/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 09436b5..1ee6a9e 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -131,6 +131,8 @@ def _generate_getter(
                     unit = _load_field_units(attributes, self.metadata.units)
                     cf = _load_field_cosmo_factor(attributes, self.metadata)
                     description = _load_field_description(attributes)
+                    if use_columns:
+                        description = f"{description} [Column {column_index}, {name}]"
                     compression = _load_field_compression(attributes)
                     physical = _load_field_physical(attributes)
                     valid_transform = _load_field_valid_transform(attributes)
@@ -174,7 +176,7 @@ def _generate_getter(
                                 ),
                                 unit,
                                 cosmo_factor=cf,
-                                name=f"{description} [Column {column_index}, {name}]",
+                                name=description,
                                 compression=compression,
                                 comoving=not physical,
                                 valid_transform=valid_transform,
-- 
2.43.0


From a7ac251f910b588193968ecc16b69af65b09aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 66/75] fix: massive neutrinos without stored degeneracies are
 not dropped from the cosmology

---
 swiftsimio/conversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/conversions.py b/swiftsimio/conversions.py
index c26dd56..487b6ae 100644
--- a/swiftsimio/conversions.py
+++ b/swiftsimio/conversions.py
@@ -127,7 +127,8 @@ if ASTROPY_AVAILABLE:
         try:
             deg_nu = cosmo["deg_nu"]
         except (IndexError, KeyError, AttributeError):
-            deg_nu = 0.0
+            # One of each massive species, if there are any.
+            deg_nu = np.ones_like(M_nu_eV) if "M_nu_eV" in cosmo else 0.0
 
         try:
             N_ur = cosmo["N_ur"]
-- 
2.43.0


From bd169aac9bc7a1cb342a24fc15a0da21304a52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 67/75] fix: constrain_indices selects a repeated row once,
 whatever the mask representation

---
 swiftsimio/masks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index d0f6d81..2d9e8e8 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -938,13 +938,12 @@ class SWIFTMask(HandleProvider):
                 "`constrain_indices` selects indices in order, sorting list of indices "
                 "before masking."
             )
-            sorted_indices = np.sort(indices)
-        else:
-            sorted_indices = np.asarray(indices)
+        # each selected row appears once, even if requested repeatedly
+        sorted_indices = np.unique(np.asarray(indices))
         for mask in self.update_list:
             if self.range_mask:
                 setattr(self, mask, ranges_from_array(sorted_indices))
-                setattr(self, f"{mask}_size", len(indices))
+                setattr(self, f"{mask}_size", sorted_indices.size)
             else:
                 comparison_array = np.zeros(getattr(self, mask).size, dtype=bool)
                 comparison_array[indices] = True
-- 
2.43.0


From 5f94a8c6fb1568d8e686cbae6b0a08c6d86a02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 68/75] fix: masked reads of fields with more than two
 dimensions

---
 swiftsimio/accelerated.py | 2 +-
 swiftsimio/reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 366903e..5f8a758 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -386,7 +386,7 @@ def read_ranges_from_file_chunked(
     chunk_range_size = np.diff(chunk_ranges).sum()
 
     try:
-        output_shape = (chunk_range_size, output_shape[1])
+        output_shape = (chunk_range_size, *output_shape[1:])
     except (TypeError, IndexError):
         # Output shape is just a number, we have a 1D array.
         output_shape = chunk_range_size
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 1ee6a9e..cdd9714 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -139,7 +139,7 @@ def _generate_getter(
                     if mask is not None:
                         output_type = handle[field].dtype
                         output_shape = (
-                            (mask_size, handle[field].shape[1])
+                            (mask_size, *handle[field].shape[1:])
                             if handle[field].ndim > 1 and not use_columns
                             else mask_size
                         )
-- 
2.43.0


From e4c6bec4ee7d223f7b24edc8335c7cdf6722ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 69/75] fix: fill values and period of np.interp need matching
 cosmo factors

---
 swiftsimio/_array_functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index bb135cf..42c4c06 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2249,6 +2249,14 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
     )
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
+    # fill values need to match fp and the period needs to match x
+    for kw, ref_cf in (
+        ("left", ret_cf),
+        ("right", ret_cf),
+        ("period", helper_result["cfs"][0]),
+    ):
+        if helper_result["kw_cfs"].get(kw) is not None:
+            _preserve_cosmo_factor(ref_cf, helper_result["kw_cfs"][kw])
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From bc4e58f27d4be66f7f31502cd6fcd82a611b7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 70/75] fix: counts and mass-table entries of registered
 particle types follow the PartType number

---
 swiftsimio/metadata/objects.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/metadata/objects.py b/swiftsimio/metadata/objects.py
index 4fcdc16..df73aa0 100644
--- a/swiftsimio/metadata/objects.py
+++ b/swiftsimio/metadata/objects.py
@@ -348,9 +348,11 @@ class SWIFTMetadata(HandleProvider, ABC):
             self.reduced_lightspeed = None
 
         # Store these separately as self.n_gas = number of gas particles for example
-        for part_number, (_, part_name) in enumerate(
-            metadata.particle_types.particle_name_underscores.items()
-        ):
+        for (
+            part_type,
+            part_name,
+        ) in metadata.particle_types.particle_name_underscores.items():
+            part_number = int(part_type.removeprefix("PartType"))
             try:
                 setattr(self, f"n_{part_name}", self.num_part[part_number])
             except IndexError:
@@ -469,9 +471,11 @@ class MassTable(object):
     ) -> None:
         # TODO: Extract these names from the files themselves if possible.
 
-        for index, name in enumerate(
-            metadata.particle_types.particle_name_underscores.values()
-        ):
+        for (
+            part_type,
+            name,
+        ) in metadata.particle_types.particle_name_underscores.items():
+            index = int(part_type.removeprefix("PartType"))
             try:
                 setattr(
                     self,
-- 
2.43.0


From 666e669d16118026c252ec8ec1438b466b074bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 71/75] fix: swiftsnap no longer fails on files without policy,
 gravity, hydro or subgrid groups

---
 swiftsimio/swiftsnap.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/swiftsnap.py b/swiftsimio/swiftsnap.py
index 23df95e..8b6f056 100755
--- a/swiftsimio/swiftsnap.py
+++ b/swiftsimio/swiftsnap.py
@@ -127,7 +127,9 @@ def swiftsnap() -> None:
         output_string = f"Written at: {data.snapshot_date}"
         print(f"{output_string}")
         activated_policies = [
-            policy_name for policy_name, active in data.policy.items() if active
+            policy_name
+            for policy_name, active in (data.policy or {}).items()
+            if active
         ]
         policy_strings = wrap(
             f"Active policies: {', '.join(activated_policies)}", SCREEN_WIDTH
@@ -169,13 +171,16 @@ def swiftsnap() -> None:
         print()
 
         # Physics information
-        print(f"Gravity scheme: {decode(data.gravity_scheme.get('Scheme', b'None'))}")
+        # (groups for physics that was not used are absent from the file)
+        gravity_scheme = data.gravity_scheme or {}
+        hydro_scheme = data.hydro_scheme or {}
+        subgrid_scheme = data.subgrid_scheme or {}
 
-        print(
-            f"Hydrodynamics scheme: {decode(data.hydro_scheme.get('Scheme', b'None'))}"
-        )
+        print(f"Gravity scheme: {decode(gravity_scheme.get('Scheme', b'None'))}")
+
+        print(f"Hydrodynamics scheme: {decode(hydro_scheme.get('Scheme', b'None'))}")
 
-        for name, scheme in data.subgrid_scheme.items():
+        for name, scheme in subgrid_scheme.items():
             if name != "NamedColumns":
                 print(f"{name.replace('Model', 'model')}: {decode(scheme)}")
 
-- 
2.43.0


From b24f089d3887e7fd84e2180fdc44073496ae20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 72/75] fix: visualised renders of non-cubic arrays

---
 swiftsimio/visualisation/volume_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render.py b/swiftsimio/visualisation/volume_render.py
index 3e061cc..f7f58cc 100644
--- a/swiftsimio/visualisation/volume_render.py
+++ b/swiftsimio/visualisation/volume_render.py
@@ -245,7 +245,7 @@ def render_voxels_to_array(data: np.array, center: float, width: float) -> np.ar
     np.ndarray
         The 2D image array.
     """
-    output = np.zeros((data.shape[0], data.shape[1]))
+    output = np.zeros((data.shape[1], data.shape[0]))
 
     for i in range(data.shape[0]):
         for j in range(data.shape[1]):
-- 
2.43.0


From f83bf9b6451ce0cc17017dae8739405455eb397d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 73/75] fix: NaN values read outside of a two-dimensional
 colour map's grid

---
 swiftsimio/visualisation/tools/cmaps.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..d54dcfb 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -37,7 +37,7 @@ def ensure_rgba(input_color: Iterable[float]) -> np.ndarray:
     return array_color
 
 
-@jit(nopython=True, fastmath=True)
+@jit(nopython=True)
 def apply_color_map(
     first_values: Iterable[float], second_values: Iterable[float], map_grid: np.ndarray
 ) -> np.ndarray:
@@ -68,7 +68,8 @@ def apply_color_map(
     -------
     np.ndarray
         An (N, 4) array (where N is the length of ``first_value`` and
-        ``second_value``) of RGBA components.
+        ``second_value``) of RGBA components. Fully transparent where either
+        value is NaN.
     """
     number_of_values = len(first_values)
     output_values = np.empty(number_of_values * 4, dtype=np.float32).reshape(
@@ -79,6 +80,10 @@ def apply_color_map(
     norm_y = np.float32(len(map_grid[0]) - 1)
 
     for index in range(number_of_values):
+        if np.isnan(first_values[index]) or np.isnan(second_values[index]):
+            output_values[index] = 0.0
+            continue
+
         horizontal = norm_x * min(max(first_values[index], 0.0), 1.0)
         vertical = norm_y * min(max(second_values[index], 0.0), 1.0)
 
-- 
2.43.0


From 6c0b748cc06d4a0d64df03ecebd1b3f367c294b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 74/75] fix: lists and values of differing shapes given to
 two-dimensional colour maps

---
 swiftsimio/visualisation/tools/cmaps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index d54dcfb..ddd6bd9 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -200,7 +200,10 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
+
+        if horizontal_values.shape != vertical_values.shape:
+            raise ValueError("Both sets of values must be of the same shape.")
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From b2a4f6e830a3bc25bc224ebfec2b1fc1f920cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 75/75] fix: image colour maps from files without an alpha
 channel

---
 swiftsimio/visualisation/tools/cmaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index ddd6bd9..8724965 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -428,7 +428,8 @@ class ImageCmap2D(Cmap2D):
             )
 
         self._color_map_grid = (
-            np.array(Image.open(self.filename)).astype(np.float32) / 255.0
+            np.array(Image.open(self.filename).convert("RGBA")).astype(np.float32)
+            / 255.0
         )
 
         return
-- 
2.43.0

