From 868f49844b9304b6dd571c824d2110b433b8937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 001/175] fix: do not register files that failed to load

A reader that raised IOError left None in the bucket under the name of
the file: every later load_file of that name returned None without
looking at the file, and unload_all_files died on None.unload().
---
 viscid/readers/vfile_bucket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..7eafcf7 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -139,6 +139,10 @@ class VFileBucket(Bucket):
                         # re-raise the last expection
                         raise
 
+                if f is None:
+                    # init failed, there is nothing to add to the bucket
+                    continue
+
                 self.set_item([handle_name], f, index_handle=index_handle,
                               _add_ref=_add_ref)
                 file_lst.append(f)
-- 
2.43.0


From 9c2c9f9334e819c28946bc99fbcda22f87ba4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 002/175] fix: removing a file from the bucket unloads it once

item.unload() releases the file's reference, which removes it from the
bucket, so removing it a second time raised KeyError (and AttributeError
from 'del bucket[name]').
---
 viscid/readers/vfile_bucket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 7eafcf7..da15607 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -155,7 +155,9 @@ class VFileBucket(Bucket):
     def remove_item(self, item, do_unload=True):
         if do_unload:
             item.unload()
-        super(VFileBucket, self).remove_item(item)
+        # unload may already have released the last reference
+        if self.contains_item(item):
+            super(VFileBucket, self).remove_item(item)
 
     def remove_item_by_handle(self, handle, do_unload=True):
         self.remove_item(self[handle], do_unload=do_unload)
-- 
2.43.0


From 302bb33364b5876982bb3d6b439eb754690b7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 003/175] fix: a file that is still in use keeps its contents

Unloading one holder of a shared file (a time series and a direct load
of one of its files, say) emptied the file while the bucket kept handing
it out, unloading a container that is itself the child of a container
raised RuntimeError, and a child that was unloaded explicitly made
unload / reload / clear_cache of its container raise KeyError.
---
 viscid/dataset.py              |  8 ++++++--
 viscid/readers/vfile.py        |  5 ++++-
 viscid/readers/vfile_bucket.py | 24 ++++++++++++++----------
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..885f41e 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -237,7 +237,9 @@ class Dataset(tree.Node):
     def remove_all_items(self):
         for child in self.children:
             self.tear_down_child(child)
-            child.remove_all_items()
+            # files are emptied when their bucket unloads them
+            if getattr(child, 'parent_bucket', None) is None:
+                child.remove_all_items()
         self.children = Bucket(ordered=True)
 
     def activate(self, child_handle):
@@ -497,7 +499,9 @@ class DatasetTemporal(Dataset):
     def remove_all_items(self):
         for child in self.children:
             self.tear_down_child(child[1])
-            child[1].remove_all_items()
+            # files are emptied when their bucket unloads them
+            if getattr(child[1], 'parent_bucket', None) is None:
+                child[1].remove_all_items()
         self.children = []
 
     def clear_cache(self):
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..d9dd34e 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -129,9 +129,12 @@ class VFile(Dataset):
     def unload(self, **kwargs):
         """Really unload a file, don't just clear the cache"""
         self._clear_cache()
-        self.remove_all_items()
         if self.parent_bucket:
             self.parent_bucket.remove_reference(self, **kwargs)
+            if self.parent_bucket.contains_item(self):
+                # somebody else still uses this file
+                return
+        self.remove_all_items()
 
     def __exit__(self, exc_type, value, traceback):
         self.unload()
diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index da15607..a51c73b 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -216,22 +216,26 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
 
     def reload(self):
         for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].reload()
+            if child_handle in self.child_bucket:
+                self.child_bucket[child_handle].reload()
         super(ContainerFile, self).reload()
 
     def unload(self, **kwargs):
-        for child_handle in self._child_ref_count.keys():
-            ref_count = self._child_ref_count[child_handle]
-            if "count" in kwargs:
-                raise RuntimeError()
-            if "_ref_count" in kwargs:
-                raise RuntimeError()
-            self.child_bucket[child_handle].unload(_ref_count=ref_count)
-        super(ContainerFile, self).unload()
+        super(ContainerFile, self).unload(**kwargs)
+        if self.parent_bucket and self.parent_bucket.contains_item(self):
+            # somebody else still uses this file, and so its children
+            return
+        child_ref_count = self._child_ref_count
+        self._child_files = []
+        self._child_ref_count = {}
+        for child_handle, ref_count in child_ref_count.items():
+            if child_handle in self.child_bucket:
+                self.child_bucket[child_handle].unload(_ref_count=ref_count)
 
     def clear_cache(self):
         for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].clear_cache()
+            if child_handle in self.child_bucket:
+                self.child_bucket[child_handle].clear_cache()
         super(ContainerFile, self).clear_cache()
 
 ##
-- 
2.43.0


From 9c794970eb85de0a706a3d72713e249f2e02a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 004/175] fix: reload of a group of files

reload() called load() with the group's collective name, which is not
the name of a file: reloading an athena, openggcm or gkeyll time series
raised and left the file empty.
---
 viscid/readers/vfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index d9dd34e..8105aea 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -124,7 +124,8 @@ class VFile(Dataset):
     def reload(self):
         self._clear_cache()
         self.remove_all_items()
-        self.load(self.fname)
+        # a group of files is known by a collective name, not by a file's name
+        self.load(getattr(self, '_collection', None) or self.fname)
 
     def unload(self, **kwargs):
         """Really unload a file, don't just clear the cache"""
-- 
2.43.0


From 1c4126f8ed6a638bc157a29dc0a37d541dfacbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 005/175] fix: slicing a time axis by a number of seconds

as_timedelta64 takes scalars or 1d sequences, but was given the 2d array
that _unify_sbv_types works with: every selection of a datetime64 or
timedelta64 axis by float ('3.0j', documented to be in tdunit) raised
ValueError.
---
 viscid/sliceutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..d3f4e90 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -621,7 +621,7 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
             uval = std_val
         elif isinstance(crd_arr[0], np.timedelta64):
             if isinstance(std_val[0, 0], np.floating):
-                uval = as_timedelta64(std_val, unit=tdunit)
+                uval = as_timedelta64(std_val[0], unit=tdunit).reshape(1, -1)
             elif isinstance(std_val[0, 0], np.datetime64):
                 if epoch is None:
                     raise NotImplementedError("Can't slice-by-location a timedelta64 "
@@ -631,7 +631,7 @@ def _unify_sbv_types(std_val, crd_arr, tdunit='s', epoch=None):
                     uval = time_diff(std_val, epoch, most_precise=True)
         elif isinstance(crd_arr[0], np.datetime64):
             if isinstance(std_val[0, 0], np.floating):
-                std_val = as_timedelta64(std_val, unit=tdunit)
+                std_val = as_timedelta64(std_val[0], unit=tdunit).reshape(1, -1)
                 uval = crd_arr[0] + std_val
             elif isinstance(std_val[0, 0], np.timedelta64):
                 uval = crd_arr[0] + std_val
-- 
2.43.0


From 8d001700bc700538b656d4a11e9b3001a40fa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 006/175] fix: std_sel2index ignored its tdunit

The unit in which floats are given on time axes (and times on float axes)
was hard coded to seconds.
---
 viscid/sliceutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index d3f4e90..a57bd51 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -506,7 +506,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.start, (np.datetime64, np.timedelta64))):
             ustart = std_sel.start
         else:
-            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit='s',
+            ustart, tol = _unify_sbv_types(std_sel.start, crd_arr, tdunit=tdunit,
                                            epoch=epoch)
             start_val = ustart
             diff = crd_arr - ustart + (tol * sgn)
@@ -534,7 +534,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
             and not isinstance(std_sel.stop, (np.datetime64, np.timedelta64))):
             ustop = std_sel.stop
         else:
-            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit='s',
+            ustop, tol = _unify_sbv_types(std_sel.stop, crd_arr, tdunit=tdunit,
                                           epoch=epoch)
             stop_val = ustop
             diff = crd_arr - ustop - (tol * sgn)
@@ -575,7 +575,7 @@ def std_sel2index(std_sel, crd_arr, val_endpoint=True, interior=False,
 
     else:
         # slice by single value or ndarray of single values (int, float, times)
-        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit='s', epoch=epoch)
+        usel, _ = _unify_sbv_types(std_sel, crd_arr, tdunit=tdunit, epoch=epoch)
         if (isinstance(usel, (int, np.integer, type(None)))
             and not isinstance(usel, (np.datetime64, np.timedelta64))):
             idx = usel
-- 
2.43.0


From e7370ff3109a20a376895534cda6c3f26181e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 007/175] fix: a single time of day is a location, not a slice

'T00:12:00' contains colons, so it was taken for the slice ':T00:12:00':
selecting a single time of day from a time axis returned every element up
to it.
---
 viscid/sliceutil.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index a57bd51..73cd0a6 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -309,8 +309,12 @@ def standardize_sel(sel):
         if sel[0] == '[' and sel[-1] == ']':
             sel = standardize_value(sel, bool_argwhere=True)
         elif ':' in sel:
+            split_sel = _split_slice_str(sel)
+            if len(split_sel) == 1:
+                # all the colons belong to a single time, so it's not a slice
+                return standardize_value(split_sel[0], bool_argwhere=True)
             sel = slice(*[standardize_value(s, bool_argwhere=True)
-                          for s in _split_slice_str(sel)])
+                          for s in split_sel])
             assert isinstance(sel.step, (type(None), int, np.integer))
             assert not isinstance(sel.step, (np.datetime64, np.timedelta64))
         else:
-- 
2.43.0


From 03bc23375a4d34a349ef5c050e5985eb1cc554dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 008/175] fix: loc and iloc of vector fields

Selections of fields only ever name spatial axes (and components by name),
but loc / iloc inserted a slice for the component axis: with flat layout
every selection was applied to the axis after the one it was meant for,
and three locations raised IndexError.
---
 viscid/field.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..405f51b 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -456,9 +456,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
-- 
2.43.0


From 3cdc5707000239dc4f7ae23b73563b5dbd539817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 009/175] fix: coordinates of slices of cell centered fields
 with negative indices or steps

---
 viscid/coordinate.py | 56 ++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..ca27106 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -678,40 +678,30 @@ class StructuredCrds(Coordinates):
                            for s in (slc.start, slc.stop, slc.step)):
                     raise TypeError("bad sss:", slc)
 
-                sliced_clist_item = None
-
-                # if using step on a cell centered field, we need to figure
-                # stuff out, since the data && crd slices can't be the same,
-                # and it's not as simple as just adding 1 b/c of the stride
-                if cc and slc.step not in [None, 1, -1]:
+                if cc:
+                    # the data && crd slices can't be the same since there
+                    # is one more node than there are cells
                     crd_cc = crd_arrs_cc[i][slc]
-                    crd_nc = 0.5 * (crd_cc[1:] + crd_cc[:-1])
-
-                    allslc = slice(slc.start, slc.stop,
-                                   slc.step // np.abs(slc.step))
-                    allnc = crd_arrs_nc[i][allslc]
-                    crd_nc = np.concatenate([[allnc[0]], crd_nc, [allnc[-1]]])
-
-                    sliced_clist_item = [axis, crd_nc, crd_cc]
-
-                elif cc and slc.stop is not None:
-                    if slc.stop >= 0:
-                        if slc.step is None or slc.step > 0:
-                            newstop = slc.stop + 1
-                        else:
-                            newstop = slc.stop - 1
-                    else:  # slc.stop < 0
-                        # this will slice crds nc, so if we're going backward,
-                        # the extra crd will be included
-                        # print("am i used?", slc.step)
-                        newstop = slc.stop
-                    slc = slice(slc.start, newstop, slc.step)
-
-                if sliced_clist_item is None:
-                    cval = crd_arrs_nc[i][slc]
-                    sliced_clist_item = [axis, cval]
-
-                sliced_clist.append(sliced_clist_item)
+                    sss = slc.indices(len(crd_arrs_cc[i]))
+                    cells = list(range(*sss))
+                    if cells:
+                        # nodes that bound the selected cells
+                        crd_nc = crd_arrs_nc[i][min(cells):max(cells) + 2]
+                        if sss[2] < 0:
+                            crd_nc = crd_nc[::-1]
+                    else:
+                        ifirst = max(sss[0], 0)
+                        crd_nc = crd_arrs_nc[i][ifirst:ifirst + 1]
+
+                    if slc.step in [None, 1, -1]:
+                        sliced_clist.append([axis, crd_nc])
+                    else:
+                        crd_mid = crd_cc[:-1] + 0.5 * (crd_cc[1:] - crd_cc[:-1])
+                        crd_nc = np.concatenate([crd_nc[:1], crd_mid,
+                                                 crd_nc[-1:]])
+                        sliced_clist.append([axis, crd_nc, crd_cc])
+                else:
+                    sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif isinstance(slc, np.ndarray):
                 if cc:
-- 
2.43.0


From 3cb0bf5ce871ed00ad988a11404c50cdfa42be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 010/175] fix: selecting a single cell with a list or a mask

---
 viscid/coordinate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index ca27106..e9c9a64 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -706,8 +706,14 @@ class StructuredCrds(Coordinates):
             elif isinstance(slc, np.ndarray):
                 if cc:
                     cval_cc = crd_arrs_cc[i][slc]
-                    cval_nc = (cval_cc[1:] + cval_cc[:-1]) / 2
-                    cval_nc = extend_arr(cval_nc)
+                    if len(cval_cc) == 1:
+                        # a single cell keeps its own edges
+                        icell = np.arange(len(crd_arrs_cc[i]))[slc][0]
+                        cval_nc = crd_arrs_nc[i][icell:icell + 2]
+                    else:
+                        cval_nc = cval_cc[:-1] + 0.5 * (cval_cc[1:] -
+                                                        cval_cc[:-1])
+                        cval_nc = extend_arr(cval_nc)
                     sliced_clist.append([axis, cval_nc, cval_cc])
                 else:
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
-- 
2.43.0


From 7e2a6e32830dd80ea64117bd0ad95132d5f1f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 011/175] fix: strided slices of uniform cell centered fields
 lost their cell centers

---
 viscid/coordinate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index e9c9a64..13903a0 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -750,6 +750,13 @@ class StructuredCrds(Coordinates):
                     any_non_uniform = True
                     break
 
+            # uniform crds can't carry cell centers of their own
+            if len(clist_i) > 2:
+                mid = clist_i[1][:-1] + 0.5 * diff_nc
+                if mid.shape != clist_i[2].shape or not np.allclose(mid, clist_i[2]):
+                    any_non_uniform = True
+                    break
+
         if uniform_type == 'uniform' and any_non_uniform:
             uniform_type = 'nonuniform'
 
-- 
2.43.0


From 8b7f3a0ee94541d2c1db9cc65d7c572e15a9b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 012/175] fix: location recorded for reduced dimensions of cell
 centered fields

---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 13903a0..53b9d28 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -719,7 +719,7 @@ class StructuredCrds(Coordinates):
                     sliced_clist.append([axis, crd_arrs_nc[i][slc]])
 
             elif hasattr(slc, "__index__"):
-                cval = crd_arrs_nc[i][slc]
+                cval = crd_arrs[i][slc]
                 reduced.append([axis, cval])
 
             elif slc == np.newaxis:
-- 
2.43.0


From ce7393fb467f55238909334b5a14d88173ebdce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 013/175] fix: slice_keep of negative indices

---
 viscid/coordinate.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 53b9d28..4323d59 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -827,23 +827,11 @@ class StructuredCrds(Coordinates):
             loc_ind = slices[new_axis_ind]
             crd_nc = self.get_nc(axis)
 
-            if cc:
-                if loc_ind == -1:
-                    crd = crd_nc[-2:]
-                    slc = slice(-1, None)
-                elif loc_ind == -2:
-                    crd = crd_nc[-2:]
-                    slc = slice(-2, -1)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 2]
-                    slc = slice(loc_ind, loc_ind + 1)
-            else:
-                if loc_ind == -1:
-                    crd = crd_nc[-1:]
-                    slc = slice(-1, None)
-                else:
-                    crd = crd_nc[loc_ind:loc_ind + 1]
-                    slc = slice(loc_ind, loc_ind + 1)
+            if loc_ind < 0:
+                loc_ind += len(self.get_cc(axis) if cc else crd_nc)
+
+            crd = crd_nc[loc_ind:loc_ind + (2 if cc else 1)]
+            slc = slice(loc_ind, loc_ind + 1)
 
             slices[new_axis_ind] = slc
             crdlst.insert(new_axis_ind, [axis, crd])
-- 
2.43.0


From 4f0d3779414fac83f6965daae27784685136ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 014/175] fix: slices of strided cell centered fields keep
 their cell centers

---
 viscid/coordinate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 4323d59..c894ff8 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -694,7 +694,10 @@ class StructuredCrds(Coordinates):
                         crd_nc = crd_arrs_nc[i][ifirst:ifirst + 1]
 
                     if slc.step in [None, 1, -1]:
-                        sliced_clist.append([axis, crd_nc])
+                        if axis in self._src_crds_cc:
+                            sliced_clist.append([axis, crd_nc, crd_cc])
+                        else:
+                            sliced_clist.append([axis, crd_nc])
                     else:
                         crd_mid = crd_cc[:-1] + 0.5 * (crd_cc[1:] - crd_cc[:-1])
                         crd_nc = np.concatenate([crd_nc[:1], crd_mid,
@@ -834,7 +837,10 @@ class StructuredCrds(Coordinates):
             slc = slice(loc_ind, loc_ind + 1)
 
             slices[new_axis_ind] = slc
-            crdlst.insert(new_axis_ind, [axis, crd])
+            clist_item = [axis, crd]
+            if cc and axis in self._src_crds_cc:
+                clist_item.append(self.get_cc(axis)[slc])
+            crdlst.insert(new_axis_ind, clist_item)
 
         # should be no more reduced crds
         reduced = []
-- 
2.43.0


From 993f2d5b4d7a4300067e6cbfef36737797744707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 015/175] fix: slicing fields with index arrays together with
 integers

---
 viscid/field.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 405f51b..7ec8717 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1247,8 +1247,18 @@ class Field(tree.Leaf):
                 slices.insert(nr_comp, comp_slc)
             except TypeError:
                 nr_comp = None
-            # use xyz slices cause self.data is guarenteed to be xyz
-            slced_dat = self.data[tuple(slices)]
+            # use xyz slices cause self.data is guarenteed to be xyz; index
+            # arrays go one by one since numpy would pair them with each
+            # other / integers and move the dimension
+            is_arr = [isinstance(s, np.ndarray) for s in slices]
+            slced_dat = self.data[tuple(slice(None) if isarr else s
+                                        for s, isarr in zip(slices, is_arr))]
+            dim = 0
+            for s, isarr in zip(slices, is_arr):
+                if isarr:
+                    slced_dat = slced_dat[(slice(None), ) * dim + (s, )]
+                if isarr or not hasattr(s, "__index__"):
+                    dim += 1
 
         if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
-- 
2.43.0


From d8d5de888ecdc203ca2c6b0f8c097df6136de58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 016/175] fix: layout of vector fields made from fields of
 known layout

---
 viscid/field.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 7ec8717..084b3a8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -497,6 +497,7 @@ class Field(tree.Leaf):
 
     # these get reset when data is set
     _layout = None
+    _ambiguous_layout = None  # layout if the shape alone doesn't settle it
     _nr_comps = None
     _nr_comp = None
     _dtype = None
@@ -1055,6 +1056,8 @@ class Field(tree.Leaf):
 
         if dat_shape == sshape:
             layout = LAYOUT_SCALAR
+        elif self._ambiguous_layout and dat_shape[1:] == dat_shape[:-1] == sshape:
+            layout = self._ambiguous_layout
         elif dat_shape[1:] == sshape:
             layout = LAYOUT_FLAT
         elif dat_shape[:-1] == sshape or dat_shape2[:-1] == sshape2:
@@ -1893,6 +1896,9 @@ class Field(tree.Leaf):
         fld = fldtype(name, crds, arr, time=time, center=center,
                       meta=self.meta, deep_meta=context, parents=[self],
                       zyx_native=False, pretty_name=pretty_name)
+        # arr is laid out like self, even if one can't tell from its shape
+        if self.layout in (LAYOUT_FLAT, LAYOUT_INTERLACED):
+            fld._ambiguous_layout = self.layout
         # if the operation reduced a vector to something with 1 component,
         # then turn the result into a ScalarField
         if fld.nr_comps == 1:
-- 
2.43.0


From 2dc4722d86b1dd4da00f4ed636e3a4a89bfe72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 017/175] fix: slice_reduce when the selection adds axes or
 leaves nothing

---
 viscid/coordinate.py | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index c894ff8..6c75d31 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -783,31 +783,24 @@ class StructuredCrds(Coordinates):
 
     def make_slice_reduce(self, selection, cc=False):
         """make slice, and reduce dims that were not explicitly sliced"""
-        slices, crdlst, reduced, crds_type = self.make_slice(selection, cc=cc)
+        slices, crdlst, reduced, crds_type, full_ax_names = \
+            self._make_slice(selection, cc=cc)
         # augment slices / reduced
 
         reduced_axes = [t[0] for t in reduced]
 
-        for i, axis in enumerate(self.axes):
-            reduce_axis = False
-            if axis not in reduced_axes:
-                if cc and self.shape_cc[i] == 1:
-                    slices[i] = 0
-                    reduced.insert(i, [axis, self.get_cc(axis)[0]])
-                    reduce_axis = True
-                elif not cc and self.shape_nc[i] == 1:
-                    slices[i] = 0
-                    reduced.insert(i, [axis, self.get_nc(axis)[0]])
-                    reduce_axis = True
-                # go find which element of crdlst to take out since there
-                # may already be elements missing
-                if reduce_axis:
-                    for j, crd in enumerate(crdlst):
-                        if crd is not None and crd[0] == axis:
-                            crdlst[j] = None
-                            break
-        # remove the newly reduced crds
-        crdlst = [crd for crd in crdlst if crd is not None]
+        for axis in self.axes:
+            if axis in reduced_axes:
+                continue
+            crd_arr = self.get_cc(axis) if cc else self.get_nc(axis)
+            islc = full_ax_names.index(axis)
+            if len(crd_arr) == 1 and len(crd_arr[slices[islc]]) == 1:
+                slices[islc] = 0
+                reduced.append([axis, crd_arr[0]])
+                # remove the newly reduced crds
+                crdlst = [crd for crd in crdlst if crd[0] != axis]
+
+        reduced.sort(key=lambda item: full_ax_names.index(item[0]))
 
         return slices, crdlst, reduced, crds_type
 
-- 
2.43.0


From 2420c1cdc605d0ad459307d53779a2e862870b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 018/175] fix: slices of uniform fields with cell centers of
 their own

---
 viscid/coordinate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 6c75d31..de90461 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -756,7 +756,8 @@ class StructuredCrds(Coordinates):
             # uniform crds can't carry cell centers of their own
             if len(clist_i) > 2:
                 mid = clist_i[1][:-1] + 0.5 * diff_nc
-                if mid.shape != clist_i[2].shape or not np.allclose(mid, clist_i[2]):
+                if (mid.shape != clist_i[2].shape or
+                    np.any(np.abs(mid - clist_i[2]) > 1e-6 * np.abs(diff_nc))):
                     any_non_uniform = True
                     break
 
-- 
2.43.0


From da119063ade85b570cd6320a4824d09dee3425e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 019/175] fix: make_fwd_slice for backward, empty and reversed
 slices

---
 viscid/sliceutil.py | 50 ++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 39 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 73cd0a6..2151c95 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -916,7 +916,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
-            step = slc.step if slc.step is not None else 1
             start = slc.start if slc.start is not None else 0
             stop = slc.stop if slc.stop is not None else L
             if start < 0:
@@ -933,51 +932,24 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
                 raise IndexError("((start={0}) or (stop={1})) > (L={2})"
                                  "".format(start, stop, L))
 
-            # now do the math of flipping the slice if needed, these branches
-            # change start, stop, and step so they can be used to create a new
-            # slice below
+            # now do the math of flipping the slice if needed
+            inds = list(range(*slc.indices(L)))
             if rev:
-                if step < 0:
-                    step = -step
-                    if slc.start is None:
-                        start = L - 1
-                    if slc.stop is None:
-                        start = L - 1 - start
-                        stop = None
-                    else:
-                        start, stop = L - 1 - start, L - 1 - stop
-                else:
-                    start, stop = L - stop, L - start
-                    start += ((stop - 1 - start) % step)
-                    second_slc[i] = slice(None, None, -1)
-            elif step < 0:
-                step = -step
-                if slc.start is None:
-                    start = L - 1
-
-                if slc.stop is None:
-                    start, stop = 0, start + 1
-                    start = ((stop - 1 - start) % step)
-                else:
-                    start, stop = stop + 1, start + 1
-                    start += ((stop - 1 - start) % step)
+                inds = [L - 1 - ind for ind in inds]
 
+            if not inds:
+                slc = slice(0, 0, 1)
+            elif inds[-1] < inds[0]:
+                slc = slice(inds[-1], inds[0] + 1, inds[0] - inds[1])
                 second_slc[i] = slice(None, None, -1)
-
-            # check that our slice is valid
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or (start >= 0 and start <= L), \
-                "start (={0}) is outside range".format(start)
-            assert start is None or stop is None or start == stop == 0 or \
-                start < stop, "bad slice ordering: {0} !< {1}".format(start, stop)
-            assert step > 0
-            slc = slice(start, stop, step)
+            else:
+                step = inds[1] - inds[0] if len(inds) > 1 else 1
+                slc = slice(inds[0], inds[-1] + 1, step)
 
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
             if rev:
-                slc = (L - 1) - slc
+                slc = (L - 1) - (slc if slc >= 0 else slc + L)
 
         elif slc == np.newaxis:
             second_slc[i] = "NEWAXIS"
-- 
2.43.0


From 56f8575cd8eb4d903f8f8d874d9c216cf04a7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 020/175] fix: slicing data of h5 files that is stored
 transposed

---
 viscid/readers/hdf5.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..870a47d 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -118,6 +118,12 @@ class H5pyDataWrapper(vfile.DataWrapper):
                 arr[...] = fill_arr.T
 
     def __getitem__(self, item):
+        if self.transpose:
+            # the items are in order of self.shape
+            if not isinstance(item, tuple):
+                item = (item, )
+            item += (slice(None), ) * (len(self.shape) - len(item))
+            item = item[::-1]
         item = self._inject_comp_slice(item)
         with h5py.File(self.fname, 'r') as f:
             arr = self._resolve_loc(f)[item]
-- 
2.43.0


From 01d0959d00d8ac8e72b030467225ff059ab31e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 021/175] fix: mhd2gse_field_vector for components of lazily
 sliced vectors

---
 viscid/readers/openggcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..3d2207b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From 84122d9cdcbd56395450e398e2344a907671c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 022/175] fix: make_fwd_slice clips slices that reach out of
 range, like numpy

---
 viscid/sliceutil.py | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 2151c95..335f559 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -851,10 +851,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     of large arrays on disk, which is most useful when the large array
     is coming through sshfs.
 
-    Note:
-        The only restriction on slices is that neither start nor stop
-        can be outide the range [-L, L].
-
     Args:
         shape: shape of the array that is to be sliced
         slices: a tuple of slices to work with
@@ -916,22 +912,6 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
 
     for i, slc, L, rev in izip(count(), slices, shape, reverse):
         if isinstance(slc, slice):
-            start = slc.start if slc.start is not None else 0
-            stop = slc.stop if slc.stop is not None else L
-            if start < 0:
-                start += L
-            if stop < 0:
-                stop += L
-
-            # sanity check the start/stop since we're gunna be playing
-            # fast and loose with them
-            if start < 0 or stop < 0:
-                raise IndexError("((start = {0}) or (stop = {1})) < 0"
-                                 "".format(start, stop))
-            if start > L or stop > L:
-                raise IndexError("((start={0}) or (stop={1})) > (L={2})"
-                                 "".format(start, stop, L))
-
             # now do the math of flipping the slice if needed
             inds = list(range(*slc.indices(L)))
             if rev:
-- 
2.43.0


From 02b0cb5a789fc0b30119be19afd3d7a0be5c85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 023/175] fix: slices of fields that are not loaded yet agree
 with loaded ones

---
 viscid/field.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 084b3a8..478b5c6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1132,6 +1132,11 @@ class Field(tree.Leaf):
         slced_dat = None
 
         hypersliceable = getattr(self._src_data, "_hypersliceable", False)
+        # new axes and index arrays are left to numpy, and so are data that
+        # have yet to be put in another layout
+        if any(s is np.newaxis or isinstance(s, np.ndarray) for s in slices) or \
+           (hypersliceable and self._detect_layout(self._src_data) != self.layout):
+            hypersliceable = False
         single_comp_slc = hasattr(comp_slc, "__index__")
         cc = (self.iscentered("Cell") or self.iscentered("Face") or
               self.iscentered("Edge"))
@@ -1152,6 +1157,10 @@ class Field(tree.Leaf):
                 comps = self._src_data[comp_slc]
                 # using xyz slices because it's calling Field.__getitem__
                 slced_dat = [c[tuple(slices)] for c in comps]
+                # components can be sliced down to single values
+                slced_dat = [c if isinstance(c, Field) else
+                             np.reshape(c, crds.shape_cc if cc else crds.shape_nc)
+                             for c in slced_dat]
         elif self._cache is None and hypersliceable:
             # we have to flip the slice, meaning: if the array looks like
             # ind     : 0    1     2    3    4    5    6
@@ -1173,8 +1182,8 @@ class Field(tree.Leaf):
                 native_first_slc = first_slc[::-1]
                 native_second_slc = second_slc[::-1]
             else:
-                native_first_slc = first_slc
-                native_second_slc = second_slc
+                native_first_slc = list(first_slc)
+                native_second_slc = list(second_slc)
 
             # now put component slice back in
             try:
@@ -1199,10 +1208,15 @@ class Field(tree.Leaf):
                 it = izip_longest(count(), native_first_slc, native_second_slc,
                                   fillvalue=None)
                 for i, a, b in islice(it, None, len(first_slc)):
-                    if self._src_data.shape[j] == self.native_shape[i]:
+                    if (j < len(self._src_data.shape) and
+                            self._src_data.shape[j] == self.native_shape[i]):
                         _first.append(a)
                         _second.append(b)
                         j += 1
+                    elif isinstance(a, slice) and not range(*a.indices(1)):
+                        # nothing is left of a dimension the source lacks
+                        _first = []
+                        break
 
             # ok, now cull out from the second slice
             _second = [s for s in _second if s is not None]
@@ -1230,12 +1244,12 @@ class Field(tree.Leaf):
 
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
-                    if cc:
-                        target_shape = crds.shape_cc
-                    else:
-                        target_shape = crds.shape_nc
-                    if nr_comp is not None:
-                        target_shape.insert(nr_comp, -1)
+                    target_shape = list(crds.shape_cc if cc else crds.shape_nc)
+                    if nr_comp is not None and not single_comp_slc:
+                        if nr_comp == 0:
+                            target_shape.insert(0, -1)
+                        else:
+                            target_shape.append(-1)
                     slced_dat = self.post_reshape_transform_func(
                         self, crds, slced_dat.reshape(target_shape),
                         comp_slc=comp_slc, **self.transform_func_kwargs)
@@ -1263,7 +1277,9 @@ class Field(tree.Leaf):
                 if isarr or not hasattr(s, "__index__"):
                     dim += 1
 
-        if len(reduced) == len(slices) or getattr(slced_dat, 'size', 0) == 1:
+        if np.isscalar(slced_dat):
+            ret = slced_dat
+        elif getattr(slced_dat, 'size', 0) == 1:
             # if we sliced the hell out of the array, just
             # return the value that's left, ndarrays have the same behavior
             ret = slced_dat.item()
-- 
2.43.0


From b1dd9ff5ec4f82b0b86336973501336ed8ceb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 024/175] fix: zyx ordered vectors whose layout is forced

---
 viscid/field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 478b5c6..e3f07ff 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -870,7 +870,11 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        # the component dimension as it is in the source
+                        if self._detect_layout(self._src_data) == LAYOUT_FLAT:
+                            nr_comp = 0
+                        else:
+                            nr_comp = len(spatial_transpose) - 1
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
-- 
2.43.0


From a4bfa077f4f08af58241fd4a7a2c11032b9a540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 025/175] fix: datasets whose active child is deferred

---
 viscid/dataset.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 885f41e..a90707b 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -336,7 +336,7 @@ class Dataset(tree.Node):
     def iter_fields(self, time=None, fld_names=None):
         """ generator for fields in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -347,7 +347,7 @@ class Dataset(tree.Node):
     def iter_field_items(self, time=None, fld_names=None):
         """ generator for (name, field) in the active dataset,
         this will recurse down to a grid """
-        child = self.active_child
+        child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -357,7 +357,7 @@ class Dataset(tree.Node):
 
     def field_dict(self, time=None, fld_names=None, **kwargs):
         """ fields as dict of {name: field} """
-        child = self.active_child
+        child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -388,7 +388,7 @@ class Dataset(tree.Node):
 
     def get_field(self, fldname, time=None, slc=Ellipsis):
         """ recurse down active children to get a field """
-        child = self.active_child
+        child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -398,7 +398,7 @@ class Dataset(tree.Node):
 
     def get_grid(self, time=None):
         """ recurse down active children to get a field """
-        child = self.active_child.resolve()
+        child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -406,6 +406,12 @@ class Dataset(tree.Node):
         else:
             return child.get_grid(time=time)
 
+    def get_active_child(self):
+        """ get the active child, resolved if it is deferred """
+        if self.active_child is None:
+            return None
+        return self.active_child.resolve()
+
     def get_child(self, item):
         """ get a child from this Dataset,  """
         return self.children[item].resolve()
@@ -416,7 +422,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return self.get_child(item)
         elif self.active_child is not None:
-            return self.active_child[item]
+            return self.get_active_child()[item]
         else:
             raise KeyError()
 
@@ -439,7 +445,7 @@ class Dataset(tree.Node):
         if item in self.children:
             return True
         # FIXME: this might cause a bug somewhere someday
-        if item in self.active_child:
+        if item in self.get_active_child():
             return True
         return False
 
@@ -647,7 +653,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -661,7 +667,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -674,7 +680,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -700,7 +706,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child
+            child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -713,7 +719,7 @@ class DatasetTemporal(Dataset):
         if time is not None:
             child = self.get_child(time)
         else:
-            child = self.active_child.resolve()
+            child = self.get_active_child()
 
         if child is None:
             logger.error("Could not get appropriate child...")
@@ -742,7 +748,7 @@ class DatasetTemporal(Dataset):
                     return False
             except ValueError:
                 pass
-        return item in self.active_child
+        return item in self.get_active_child()
 
     def iter_resolved_children(self):
         return (child[1].resolve() for child in self.children)
-- 
2.43.0


From abbecddeedd06c63e048202aa8d6d6f48a26493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 026/175] fix: temporal datasets contain their first index

---
 viscid/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index a90707b..2ad1f6f 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -737,7 +737,7 @@ class DatasetTemporal(Dataset):
         return child
 
     def __contains__(self, item):
-        if isinstance(item, int) and item > 0 and item < len(self.children):
+        if isinstance(item, int) and item >= 0 and item < len(self.children):
             return True
         if isinstance(item, string_types) and item[-1] == 'f':
             try:
-- 
2.43.0


From 54120332e15766004cbf4b7825098e8bbddf77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 027/175] fix: end values of slices without a step

---
 viscid/sliceutil.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 335f559..a2c8f2f 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -779,17 +779,18 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
     std_sel = standardize_sel(sel)
 
     if isinstance(std_sel, slice):
+        step = 1 if std_sel.step is None else std_sel.step
         if std_sel.start is None or hasattr(std_sel.start, '__index__'):
             if arr is None:
-                if std_sel.start is None and std_sel.step > 0:
+                if std_sel.start is None and step > 0:
                     ustart = -np.inf
-                elif std_sel.start is None and std_sel.step < 0:
+                elif std_sel.start is None and step < 0:
                     ustart = np.inf
                 else:
                     ustart = np.nan
             else:
                 if std_sel.start is None:
-                    idx = 0 if std_sel.step > 0 else -1
+                    idx = 0 if step > 0 else -1
                 else:
                     idx = int(std_sel.start)
                 ustart = arr[idx]
@@ -799,15 +800,15 @@ def sel2values(arr, sel, epoch=None, tdunit='s'):
 
         if std_sel.stop is None or hasattr(std_sel.stop, '__index__'):
             if arr is None:
-                if std_sel.stop is None and std_sel.step > 0:
+                if std_sel.stop is None and step > 0:
                     ustop = np.inf
-                elif std_sel.stop is None and std_sel.step < 0:
+                elif std_sel.stop is None and step < 0:
                     ustop = -np.inf
                 else:
                     ustop = np.nan
             else:
                 if std_sel.stop is None:
-                    idx = -1 if std_sel.step > 0 else 0
+                    idx = -1 if step > 0 else 0
                 else:
                     idx = int(std_sel.stop)
                 ustop = arr[idx]
-- 
2.43.0


From 3b37b28659c3f52314c957217164311b37864391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 028/175] fix: get_times of temporal datasets with deferred
 children

---
 viscid/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 2ad1f6f..98d01f1 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -173,6 +173,12 @@ class DeferredChild(object):
             self.parents[0].prepare_child(ret)
         return ret
 
+    def __enter__(self):
+        return self
+
+    def __exit__(self, exc_type, value, traceback):
+        return None
+
     def clear_cache(self):
         pass
 
-- 
2.43.0


From a28aae63cb3aa1cc72afd2abd926d58f5e08edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 029/175] fix: lists of indices in time selections

---
 viscid/sliceutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index a2c8f2f..f4bba73 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -358,6 +358,7 @@ def standardize_value(sel, bool_argwhere=False):
         _warn_deprecated_float(sel)
         sel = 1j * sel
     elif isinstance(sel, (list, np.ndarray)):
+        sel = np.asarray(sel)
         assert len(sel.shape) == 1
         assert isinstance(sel[0], (int, bool, np.integer, np.complex,
                                    np.complexfloating, np.bool_))
-- 
2.43.0


From 3f403d716a86318ea4b3a32b5b279d412b7dab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 030/175] fix: find_attr

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..ff35db4 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From ba79b7e69af9e27d3486a028a1626ee7012ddf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 031/175] fix: setting times of nodes to dates and time
 differences

---
 viscid/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index ff35db4..b2505eb 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -232,11 +232,12 @@ class Node(object):
     @time.setter
     def time(self, val):
         if viscid.is_datetime_like(val):
-            val = viscid.as_timedelta(self.basetime - viscid.as_datetime64(val))
+            val = viscid.as_timedelta(viscid.as_datetime64(val) - self.basetime)
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From b07ecfb75b6bc3dd5098934d1b0501ad7293110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 032/175] fix: extending coordinates that have only one cell

The width of the outermost step is that of width_arr, however many values
are extended; the cell centered version of an axis with two nodes got cells
of the default width.
---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index de90461..782f5c2 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -129,7 +129,7 @@ def extend_arr(x, n=1, cell_fraction=1.0, full_arr=True, default_width=1e-5,
         width_arr = x
 
     if full_arr:
-        if len(x) > 1:
+        if len(width_arr) > 1:
             dxl = cell_fraction * (width_arr[1] - width_arr[0])
             dxh = cell_fraction * (width_arr[-1] - width_arr[-2])
         else:
-- 
2.43.0


From 472ec4fd8879cbc31d883a55101e3fd42cb1fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 033/175] fix: fewer units than axes

---
 viscid/coordinate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 782f5c2..f325a15 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -186,7 +186,7 @@ class Coordinates(object):
             units = self._units
             if not isinstance(units, (list, tuple)):
                 units = [units] * self.nr_dims
-            units += [None] * (len(units) - self.nr_dims)
+            units = list(units) + [None] * (self.nr_dims - len(units))
             units = ["" if u is None else u.strip() for u in units]
             self._units = units
             self._units_validated = True
-- 
2.43.0


From aa02f54e85638edfffb3b1425edd6f1e5ff1bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 034/175] fix: cell centers and widths of uniform coordinates

The ends, lengths and steps of uniform coordinates divided by the number of
nodes rather than the number of cells between them, and an axis with a single
node claimed to have no cell while its cell centers said there was one.
---
 viscid/coordinate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index f325a15..a6df4dd 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -1257,9 +1257,9 @@ class UniformCrds(StructuredCrds):
         self._nc_linspace_args = _nc_linspace_args
         self._cc_linspace_args = []
         for args in _nc_linspace_args:
-            half_dx = 0.5 * (args[1] - args[0]) / max(args[2], 1)
+            half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
-                       max(args[2] - 1, 0)]
+                       args[2] - 1 if args[2] > 1 else args[2]]
             self._cc_linspace_args.append(cc_args)
 
         # node centered things
@@ -1270,7 +1270,7 @@ class UniformCrds(StructuredCrds):
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
         self.L_nc = self.xh_nc - self.xl_nc
-        self.min_dx_nc = self.L_nc / self.shape_nc
+        self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
@@ -1281,7 +1281,7 @@ class UniformCrds(StructuredCrds):
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
         self.L_cc = self.xh_cc - self.xl_cc
-        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc, 1, None)
+        self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
         super(UniformCrds, self).__init__(init_clist, dtype=self.dtype,
@@ -1350,7 +1350,7 @@ class UniformCrds(StructuredCrds):
         """
         axes = self.axes
         xl, xh = self.get_xl(), self.get_xh()
-        dx = (xh - xl) / self.shape_nc
+        dx = (xh - xl) / np.clip(self.shape_nc - 1, 1, None)
         # FIXME: I don't think this will extend datetime64/timedelta64 axes
         dx = np.choose(np.abs(dx) > 0, [default_width, dx])
         xl -= 0.5 * dx
-- 
2.43.0


From bbae18e4f22586288f1350702697acdd93582f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 035/175] fix: cell centered version of an axis with a single
 node

It got two cells for the one value.
---
 viscid/coordinate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index a6df4dd..3efcccc 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -609,8 +609,12 @@ class StructuredCrds(Coordinates):
         crds_nc = self.get_crds_nc()
         crds_cc = self.get_crds_cc()
         for i, x_cc in enumerate(crds_cc):
-            crds_nc[i] = extend_arr(x_cc, default_width=default_width,
-                                    width_arr=crds_nc[i])
+            if len(crds_nc[i]) == 1:
+                crds_nc[i] = np.concatenate([x_cc - 0.5 * default_width,
+                                             x_cc + 0.5 * default_width])
+            else:
+                crds_nc[i] = extend_arr(x_cc, default_width=default_width,
+                                        width_arr=crds_nc[i])
         new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
         return type(self)(new_clist)
 
-- 
2.43.0


From c8cd648530a2cf65ec6954f877499a6f4a8f5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 036/175] fix: coordinates and centerings of axes that are
 still to be reflected

Cell centers given explicitly were not reflected, units were lost, uniform
coordinates gave the ends of the axis before the reflection, and a field that
was not loaded yet lost its reflection when its centering was changed, so
that its data was not mirrored.
---
 viscid/coordinate.py | 69 ++++++++++++++++++++++++++++++++------------
 viscid/field.py      |  2 +-
 2 files changed, 51 insertions(+), 20 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 3efcccc..3dcede2 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -420,11 +420,31 @@ class StructuredCrds(Coordinates):
             Coordinates with reflections applied
         """
         if len(self.reflect_axes) > 0:
-            return type(self)(self.get_clist(), has_cc=self.has_cc,
-                              dtype=self.dtype)
+            clist = [list(item) for item in self.get_clist()]
+            for item in clist:
+                if item[0] in self._src_crds_cc:
+                    item.append(self.get_cc(item[0]))
+            return type(self)(clist, has_cc=self.has_cc, dtype=self.dtype,
+                              units=self.units, **self.meta)
         else:
             return self
 
+    def _recentered(self, clist):
+        """Crds of the same kind with other node positions, given where they
+        are once reflected. Data on these crds is reflected like data on self
+        """
+        new_clist = []
+        for ax, arr in clist:
+            if ax in self.reflect_axes:
+                arr = self._reflect_clist_item(arr)
+            new_clist.append([ax, arr])
+        return type(self)(new_clist, has_cc=self.has_cc, dtype=self._dtype,
+                          reflect_axes=self.reflect_axes, units=self.units,
+                          **self.meta)
+
+    def _reflect_clist_item(self, arr):
+        return self._reflect_axis_arr(arr)
+
     def _reflect_axis_arr(self, arr):  # pylint: disable=no-self-use
         return np.array(-1.0 * arr[::-1])
 
@@ -497,6 +517,8 @@ class StructuredCrds(Coordinates):
             # a = self.axis_name(a)  # validate input
             if a in self._src_crds_cc:
                 ccarr = self._src_crds_cc[a]
+                if a in self.reflect_axes:
+                    ccarr = self._reflect_axis_arr(ccarr)
             else:
                 # doing the cc math this way also works for datetime objects
                 if len(self._Pcrds[a]) == 1:
@@ -616,7 +638,7 @@ class StructuredCrds(Coordinates):
                 crds_nc[i] = extend_arr(x_cc, default_width=default_width,
                                         width_arr=crds_nc[i])
         new_clist = [(ax, nc) for ax, nc in zip(axes, crds_nc)]
-        return type(self)(new_clist)
+        return self._recentered(new_clist)
 
     def _make_slice(self, selection, cc=False):
         """Turns a selection into finalized slices and coordinates
@@ -1194,14 +1216,14 @@ class UniformCrds(StructuredCrds):
     _nc_linspace_args = None
     _cc_linspace_args = None
 
-    xl_nc = None
-    xh_nc = None
+    _xl_nc = None
+    _xh_nc = None
     L_nc = None
     shape_nc = None
     min_dx_nc = None
 
-    xl_cc = None
-    xh_cc = None
+    _xl_cc = None
+    _xh_cc = None
     shape_cc = None
     L_cc = None
     min_dx_cc = None
@@ -1263,28 +1285,28 @@ class UniformCrds(StructuredCrds):
         for args in _nc_linspace_args:
             half_dx = 0.5 * (args[1] - args[0]) / max(args[2] - 1, 1)
             cc_args = [args[0] + half_dx, args[1] - half_dx,
-                       args[2] - 1 if args[2] > 1 else args[2]]
+                       max(args[2] - 1, 0)]
             self._cc_linspace_args.append(cc_args)
 
         # node centered things
-        self.xl_nc = np.array([args[0] for args in self._nc_linspace_args],
+        self._xl_nc = np.array([args[0] for args in self._nc_linspace_args],
                               dtype=self.dtype)
-        self.xh_nc = np.array([args[1] for args in self._nc_linspace_args],
+        self._xh_nc = np.array([args[1] for args in self._nc_linspace_args],
                               dtype=self.dtype)
         self.shape_nc = np.array([args[2] for args in self._nc_linspace_args],
                                  dtype='int')
-        self.L_nc = self.xh_nc - self.xl_nc
+        self.L_nc = self._xh_nc - self._xl_nc
         self.min_dx_nc = self.L_nc / np.clip(self.shape_nc - 1, 1, None)
         self.min_dx_nc = np.ma.masked_values(self.min_dx_nc, 0.0)
 
         # cell centered things
-        self.xl_cc = np.array([args[0] for args in self._cc_linspace_args],
+        self._xl_cc = np.array([args[0] for args in self._cc_linspace_args],
                               dtype=self.dtype)
-        self.xh_cc = np.array([args[1] for args in self._cc_linspace_args],
+        self._xh_cc = np.array([args[1] for args in self._cc_linspace_args],
                               dtype=self.dtype)
         self.shape_cc = np.array([args[2] for args in self._cc_linspace_args],
                                  dtype='int')
-        self.L_cc = self.xh_cc - self.xl_cc
+        self.L_cc = self._xh_cc - self._xl_cc
         self.min_dx_cc = self.L_cc / np.clip(self.shape_cc - 1, 1, None)
 
         init_clist = [(axis, None) for axis, _ in init_clist]
@@ -1318,13 +1340,19 @@ class UniformCrds(StructuredCrds):
                                   center=center)
         return np.ma.masked_values(ret, 0.0)
 
+    def _reflect_ends(self, ends, other_ends):
+        rev = [ax in self.reflect_axes for ax in self._axes]
+        return np.where(rev, -1 * other_ends, ends)
+
     def get_xl(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xl_nc, self.xl_cc], axes,
-                                   center=center)
+        return self._pull_out_axes([self._reflect_ends(self._xl_nc, self._xh_nc),
+                                    self._reflect_ends(self._xl_cc, self._xh_cc)],
+                                   axes, center=center)
 
     def get_xh(self, axes=None, center='node'):
-        return self._pull_out_axes([self.xh_nc, self.xh_cc], axes,
-                                   center=center)
+        return self._pull_out_axes([self._reflect_ends(self._xh_nc, self._xl_nc),
+                                    self._reflect_ends(self._xh_cc, self._xl_cc)],
+                                   axes, center=center)
 
     def get_L(self, axes=None, center='node'):
         """Get lengths"""
@@ -1361,7 +1389,10 @@ class UniformCrds(StructuredCrds):
         xh += 0.5 * dx
         nx = self.shape_nc + 1
         new_clist = [(ax, [xl[i], xh[i], nx[i]]) for i, ax in enumerate(axes)]
-        return type(self)(new_clist)
+        return self._recentered(new_clist)
+
+    def _reflect_clist_item(self, arr):
+        return [-arr[1], -arr[0], arr[2]]
 
     def _newax_cval(self, xl, xh, cc):
         if cc:
diff --git a/viscid/field.py b/viscid/field.py
index e3f07ff..7ae76e6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1672,7 +1672,7 @@ class Field(tree.Leaf):
             # axes = self._src_crds.axes
             # crds_cc = self.get_crds_cc()
             new_clist = self._src_crds.get_clist(center="cell")
-            new_crds = type(self._src_crds)(new_clist)
+            new_crds = self._src_crds._recentered(new_clist)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
-- 
2.43.0


From e6866957855200e56066c0c0264e512b607a4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 037/175] fix: forget_source and new data of fields that
 transform their source

---
 viscid/field.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7ae76e6..8628dc6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -532,7 +532,7 @@ class Field(tree.Leaf):
         super(Field, self).__init__(name, time, info, parents)
         self.center = center
         self._src_crds = crds
-        self.data = data
+        self._src_data = data
 
         self.comp_names = ''
 
@@ -775,12 +775,19 @@ class Field(tree.Leaf):
         self._nr_comp = None
         self._nr_comps = None
         self._dtype = None
-        self._src_data = dat
-        if self.meta and self.meta.get('zyx_native', False):
-            self.meta['zyx_native'] = False
+        self._set_native_src(dat)
         # self._translate_src_data()  # um, what's this for? looks dangerous
         # do some sort of lazy pre-setup _src_data inspection?
 
+    def _set_native_src(self, dat):
+        """Use dat as source; it's in the native order of the field, so there
+        is nothing left to transpose, reflect or transform"""
+        self._src_crds = self.crds
+        self._src_data = dat
+        self.meta['zyx_native'] = False
+        self.post_reshape_transform_func = None
+        self.transform_func_kwargs = {}
+
     @property
     def flat_data(self):
         return self.data.reshape(-1)
@@ -1307,7 +1314,7 @@ class Field(tree.Leaf):
         return ret
 
     def forget_source(self):
-        self._src_data = self.data
+        self._set_native_src(self.data)
         self._cached_xyz_src_view = self.data
 
     def slice(self, selection):
-- 
2.43.0


From 93ff1777a29e2cceabd55de4ef71a68f5af08baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 038/175] fix: component axis of a field after its layout
 changed

---
 viscid/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/field.py b/viscid/field.py
index 8628dc6..12f7172 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -616,6 +616,7 @@ class Field(tree.Leaf):
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
+        self._nr_comp = None
 
     @property
     def nr_dims(self):
-- 
2.43.0


From ce31528c86adec5baeb3204f4abb1be1d61580ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 039/175] fix: read the source once when converting layouts

---
 viscid/field.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 12f7172..8da3c52 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -923,10 +923,11 @@ class Field(tree.Leaf):
                 raise RuntimeError("I should not be here")
 
             nr_comps = self.nr_comps
-            data_dest = np.empty(self.shape, dtype=self.dtype)
+            src = np.asanyarray(self._xyz_src_data)
+            data_dest = np.empty((nr_comps,) + src.shape[:-1], dtype=self.dtype)
             for i in range(nr_comps):
                 # NOTE: I wonder if this is the fastest way to reorder
-                data_dest[i, ...] = self._xyz_src_data[..., i]
+                data_dest[i, ...] = src[..., i]
                 # NOTE: no special case for lists, they are not
                 # interpreted this way
             return self._dat_to_ndarray(data_dest)
@@ -938,9 +939,12 @@ class Field(tree.Leaf):
 
             nr_comps = self.nr_comps
             dtype = self.dtype
+            src = self._xyz_src_data
+            if not isinstance(src, (list, tuple)):
+                src = np.asanyarray(src)
             data_dest = np.empty(self.shape, dtype=dtype)
             for i in range(nr_comps):
-                data_dest[..., i] = self._xyz_src_data[i]
+                data_dest[..., i] = src[i]
 
             self._layout = LAYOUT_INTERLACED
             return self._dat_to_ndarray(data_dest)
-- 
2.43.0


From f6701d41339dd39d6ff4f004ec3e7db1374ddfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 040/175] fix: keep the loaded data of recentered fields in
 sync only with their own source

---
 viscid/field.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 8da3c52..8434e68 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -533,6 +533,7 @@ class Field(tree.Leaf):
         self.center = center
         self._src_crds = crds
         self._src_data = data
+        self._src_token = object()
 
         self.comp_names = ''
 
@@ -613,6 +614,7 @@ class Field(tree.Leaf):
         if self.is_loaded:
             current_layout = self.layout
             if new_layout != current_layout:
+                self._src_token = object()
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
@@ -771,6 +773,7 @@ class Field(tree.Leaf):
     @data.setter
     def data(self, dat):
         # clean up
+        self._src_token = object()
         self.clear_cache()
         self._layout = None
         self._nr_comp = None
@@ -822,18 +825,28 @@ class Field(tree.Leaf):
     def is_loaded(self):
         return self._cache is not None
 
+    @property
+    def _in_sync(self):
+        """do I still have the data of my parent field, or has one of us been
+        given other data / another layout since?"""
+        return (self._parent_field is not None and
+                self._parent_field._src_token is self._src_token)
+
     def clear_cache(self):
         """ does not guarentee that the memory will be freed """
         self._cache = None
         self._cached_xyz_src_view = None
-        if self._parent_field is not None:
+        if self._in_sync:
             self._parent_field._cache = self._cache
             self._parent_field._cached_xyz_src_view = self._cached_xyz_src_view
 
     def _fill_cache(self):
         """ actually load data into the cache """
+        if self._in_sync and self._parent_field._cache is not None:
+            self._cache = self._parent_field._cache
+            return
         self._cache = self._src_data_to_ndarray()
-        if self._parent_field is not None:
+        if self._in_sync:
             self._parent_field._cache = self._cache
             # self._parent_field._cached_xyz_src_view = self._cached_xyz_src_view
 
@@ -1319,6 +1332,8 @@ class Field(tree.Leaf):
         return ret
 
     def forget_source(self):
+        self.data  # with whoever still has the same source
+        self._src_token = object()
         self._set_native_src(self.data)
         self._cached_xyz_src_view = self.data
 
@@ -1652,6 +1667,7 @@ class Field(tree.Leaf):
             # FIME: this is such a hack to try our hardest to keep the
             # reference to the data the same
             f._src_data = self._src_data
+            f._src_token = self._src_token
             f._cache = self._cache
 
             return f
@@ -1698,6 +1714,7 @@ class Field(tree.Leaf):
             # FIXME: this is such a hack to try our hardest to keep the
             # reference to the data the same
             f._src_data = self._src_data
+            f._src_token = self._src_token
             f._cached_xyz_src_view = self._cached_xyz_src_view
             f._cache = self._cache
 
-- 
2.43.0


From e5bf8de5672d7938bd751829a187db80f6269b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 041/175] fix: atleast_3d of fields whose data is not loaded
 yet

---
 viscid/coordinate.py | 5 +++--
 viscid/field.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 3dcede2..0fb5607 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -438,8 +438,9 @@ class StructuredCrds(Coordinates):
             if ax in self.reflect_axes:
                 arr = self._reflect_clist_item(arr)
             new_clist.append([ax, arr])
+        units = self.get_units([ax for ax, _ in new_clist], allow_invalid=True)
         return type(self)(new_clist, has_cc=self.has_cc, dtype=self._dtype,
-                          reflect_axes=self.reflect_axes, units=self.units,
+                          reflect_axes=self.reflect_axes, units=units,
                           **self.meta)
 
     def _reflect_clist_item(self, arr):
@@ -1174,7 +1175,7 @@ class StructuredCrds(Coordinates):
             axes3 = axes3[:3 - len(current_axes)]
             for idx, ax in zip(target_idx, axes3):
                 new_clist.insert(idx, (ax, self._newax_cval(xl, xh, cc)))
-            return type(self)(new_clist)
+            return self._recentered(new_clist)
 
     def print_tree(self):
         c = self.get_clist()
diff --git a/viscid/field.py b/viscid/field.py
index 8434e68..5c3729a 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1081,7 +1081,7 @@ class Field(tree.Leaf):
         # This 2nd part happens when calling atleast_3d() on
         # a field that isn't already in memory
         dat_shape2 = [si for si in dat_shape if si > 1]
-        sshape2 = [si for si in dat_shape if si > 1]
+        sshape2 = [si for si in sshape if si > 1]
 
         if dat_shape == sshape:
             layout = LAYOUT_SCALAR
@@ -1769,7 +1769,8 @@ class Field(tree.Leaf):
 
                 return self.wrap(self.data.reshape(new_shape), context=ctx)
             else:
-                return self.wrap(self._src_data, context=ctx)
+                newcrds = self._src_crds.atleast_3d(xl, xh, cc=_cc)
+                return self.shell_copy(crds=newcrds)
 
     def atmost_nd(self, n):
         axes = list(self.crds.axes)
-- 
2.43.0


From cfab1bb6dbd356135f15ca593f9d4847282fa265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 042/175] fix: atleast_3d of interlaced fields

---
 viscid/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 5c3729a..5fa0c6c 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1765,7 +1765,10 @@ class Field(tree.Leaf):
                     new_shape = newcrds.shape_nc
                 if self.nr_comps:
                     new_shape = list(new_shape)
-                    new_shape.insert(self.nr_comp, self.nr_comps)
+                    if self.layout == LAYOUT_FLAT:
+                        new_shape.insert(0, self.nr_comps)
+                    else:
+                        new_shape.append(self.nr_comps)
 
                 return self.wrap(self.data.reshape(new_shape), context=ctx)
             else:
-- 
2.43.0


From a610dd87e4f4e8afd100a70444d9b9daaa1e12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 043/175] fix: layout changes of fields whose recentered
 version is loaded

---
 viscid/field.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 5fa0c6c..cde7844 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -611,10 +611,9 @@ class Field(tree.Leaf):
     def layout(self, new_layout):
         """ UNTESTED, clear cache if layout changes """
         new_layout = new_layout.lower()
-        if self.is_loaded:
-            current_layout = self.layout
-            if new_layout != current_layout:
-                self._src_token = object()
+        if new_layout != self.layout:
+            self._src_token = object()
+            if self.is_loaded:
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
-- 
2.43.0


From 2574cda46167c331e59e2d44bb0d1c5e46bb18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 044/175] fix: layout conversion of sources with fewer axes
 than the field

---
 viscid/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index cde7844..d00463e 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -954,7 +954,7 @@ class Field(tree.Leaf):
             src = self._xyz_src_data
             if not isinstance(src, (list, tuple)):
                 src = np.asanyarray(src)
-            data_dest = np.empty(self.shape, dtype=dtype)
+            data_dest = np.empty(tuple(src[0].shape) + (nr_comps,), dtype=dtype)
             for i in range(nr_comps):
                 data_dest[..., i] = src[i]
 
-- 
2.43.0


From 6091600f0a96a432df8da1fc146fcbfe83ea56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 045/175] fix: adjust_crds of fields with reflected axes, and
 of the crds it's given

---
 viscid/field.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index d00463e..1eece8f 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1821,7 +1821,8 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
+        reflect_axes = list(self._src_crds.reflect_axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
@@ -1834,16 +1835,21 @@ class Field(tree.Leaf):
                 else:
                     crd_arrs_nc[i] = adj * arr_nc
                     # crd_arrs_cc[i] = adj * arr_cc
+            # the shell will reflect the same axes again
+            if ax in reflect_axes:
+                crd_arrs_nc[i] = -1 * crd_arrs_nc[i][::-1]
 
         if name_map:
             for _a, _b in name_map.items():
                 if _a in axes:
                     axes[axes.index(_a)] = _b
+            reflect_axes = [name_map.get(ax, ax) for ax in reflect_axes]
 
         crd_type = self.crds._TYPE
         crd_type = crd_type.replace('nonuniform', 'AUTO')
         crd_type = crd_type.replace('uniform', 'AUTO')
         new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes)
+        new_crds.reflect_axes = reflect_axes
         ret = self.shell_copy(crds=new_crds)
 
         return ret
-- 
2.43.0


From 5f327e6c8ea2ce708b69723528d62db8f8e9c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 046/175] fix: chunk size was ignored

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..1fb0eb7 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = max(int(ceil(nel / size)), 1)
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From e4108dadccb1529b435836ac075df5ca3844602b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 047/175] fix: pools of processes that are not daemonic

---
 viscid/parallel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 1fb0eb7..2f9c2ff 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -34,7 +34,15 @@ class NoDaemonPool(multiprocessing.pool.Pool):  # pylint: disable=W0223
     """ I am vulnerable to armies of undead worker processes, chances
     are you don't actually want to use me
     """
-    Process = NoDaemonProcess
+    if not hasattr(mp, "get_context"):
+        Process = NoDaemonProcess
+
+    def __init__(self, *args, **kwargs):
+        if hasattr(mp, "get_context"):
+            class _Context(type(mp.get_context())):
+                Process = NoDaemonProcess
+            kwargs['context'] = _Context()
+        super(NoDaemonPool, self).__init__(*args, **kwargs)
 
 
 class _MapThread(threading.Thread):
-- 
2.43.0


From 887d1b87ef41e0cfc5d3a71971dee081bd756a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:35 +0000
Subject: [PATCH 048/175] fix: parallel map with a pool of the caller

---
 viscid/parallel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 2f9c2ff..c674b76 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -231,7 +231,8 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
         ret = r.get(int(timeout))
         # in principle this join should return almost immediately since
         # we already called r.get
-        p.join()
+        if pool is None:
+            p.join()
 
     return ret
 
-- 
2.43.0


From 986882ee5e1c5f74101ce312c88ab591a1457cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 049/175] fix: coordinates of vector fields after reductions

---
 viscid/field.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 1eece8f..79bab87 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1913,12 +1913,15 @@ class Field(tree.Leaf):
         if npkwargs:
             axis = npkwargs.get('axis', None)
             if axis is not None:
-                if self.nr_comps > 0 and axis == self.nr_comp:
+                axes = axis if isinstance(axis, (tuple, list)) else [axis]
+                axes = [int(a) % len(self.shape) for a in axes]
+                if self.nr_comps > 0:
                     # reducing vector -> scalar, no need to play with crds
-                    pass
-                else:
-                    reduce_axis = crds.axes[axis]
-                    crd_slc = "{0}=0".format(reduce_axis)
+                    axes = [a - 1 if a > self.nr_comp else a
+                            for a in axes if a != self.nr_comp]
+                if axes:
+                    crd_slc = ", ".join("{0}=0".format(crds.axes[a])
+                                        for a in axes)
                     default_keepdims = len(self.shape) == len(crds.shape)
                     iscc = self.iscentered('cell')
 
-- 
2.43.0


From 28102d37ba291c672e0d668482baed92f1562ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 050/175] fix: divmod of fields gives two fields

---
 viscid/field.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79bab87..f1270a8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2002,7 +2002,10 @@ class Field(tree.Leaf):
     def __mod__(self, other):
         return self.wrap(self.data.__mod__(self._ow(other)), other=other)
     def __divmod__(self, other):
-        return self.wrap(self.data.__divmod__(self._ow(other)), other=other)
+        ret = self.data.__divmod__(self._ow(other))
+        if ret is NotImplemented:
+            return ret
+        return tuple(self.wrap(arr, other=other) for arr in ret)
     def __pow__(self, other):
         return self.wrap(self.data.__pow__(self._ow(other)), other=other)
     def __lshift__(self, other):
@@ -2031,7 +2034,10 @@ class Field(tree.Leaf):
     def __rmod__(self, other):
         return self.wrap(self.data.__rmod__(self._ow(other)), other=other)
     def __rdivmod__(self, other):
-        return self.wrap(self.data.__rdivmod__(self._ow(other)), other=other)
+        ret = self.data.__rdivmod__(self._ow(other))
+        if ret is NotImplemented:
+            return ret
+        return tuple(self.wrap(arr, other=other) for arr in ret)
     def __rpow__(self, other):
         return self.wrap(self.data.__rpow__(self._ow(other)), other=other)
 
-- 
2.43.0


From 4c442f9cc5bc5ced5285c03a287607a0a448097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 051/175] fix: cumsum, cumprod and argsort of fields

---
 viscid/field.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index f1270a8..e31844f 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2100,7 +2100,7 @@ class Field(tree.Leaf):
         return self.data.argpartition(**kwargs)
     def argsort(self, axis=-1, kind='quicksort', order=None, **kwargs):
         kwargs.update(axis=axis, kind=kind, order=order)
-        return self.wrap(self.data.argsort(**kwargs), npkwargs=kwargs)
+        return self.wrap(self.data.argsort(**kwargs))
     def clip(self, min=None, max=None, out=None, **kwargs):
         kwargs.update(min=min, max=max, out=out)
         return self.wrap(self.data.clip(**kwargs), npkwargs=kwargs)
@@ -2108,12 +2108,12 @@ class Field(tree.Leaf):
         return self.wrap(self.data.conj(**kwargs), npkwargs=kwargs)
     def conjugate(self, **kwargs):
         return self.wrap(self.data.conjugate(**kwargs), npkwargs=kwargs)
-    def cumprod(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumprod(**kwargs), npkwargs=kwargs)
-    def cumsum(self, axis=None, dtype=None, order=None, **kwargs):
-        kwargs.update(axis=axis, dtype=dtype, order=order)
-        return self.wrap(self.data.cumsum(**kwargs), npkwargs=kwargs)
+    def cumprod(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        return self.wrap(self.data.cumprod(**kwargs))
+    def cumsum(self, axis=None, dtype=None, **kwargs):
+        kwargs.update(axis=axis, dtype=dtype)
+        return self.wrap(self.data.cumsum(**kwargs))
     def max(self, **kwargs):
         return self.wrap(self.data.max(**kwargs), npkwargs=kwargs)
     def mean(self, **kwargs):
-- 
2.43.0


From b04008a05a5a8d53eae52fdc94b75ddd493c9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 052/175] fix: trapz and cumtrapz of vector fields, and over
 the last axis

---
 viscid/field.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index e31844f..a8981f6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2154,6 +2154,7 @@ class Field(tree.Leaf):
         if axis in self.crds.axes:
             axis = self.crds.axes.index(axis)
         assert isinstance(axis, (int, np.integer))
+        axis = range(self.nr_sdims)[axis]
         crd_arr = self.get_crd(axis, shaped=True)
 
         try:
@@ -2171,10 +2172,10 @@ class Field(tree.Leaf):
             arr = self.data * fudge_factor(self.data, crd_arr)
 
         if self.nr_sdims > 1:
-            slc = [slice(None) for _ in self.sshape]
-            slc[axis] = 0
-            ret = viscid.empty_like(self[tuple(slc)])
-            ret.data = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
+            crds = self.crds.slice_reduce("{0}=0".format(self.crds.axes[axis]),
+                                          cc=self.iscentered('cell'))
+            ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
+            ret = self.wrap(ret, context=dict(crds=crds))
         else:
             ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
         return ret
@@ -2201,6 +2202,7 @@ class Field(tree.Leaf):
             if axis in self.crds.axes:
                 axis = self.crds.axes.index(axis)
             assert isinstance(axis, (int, np.integer))
+            axis = range(self.nr_sdims)[axis]
             crd_arr = self.get_crd(axis, shaped=True)
 
             try:
@@ -2217,9 +2219,8 @@ class Field(tree.Leaf):
             else:
                 arr = self.data * fudge_factor(self.data, crd_arr)
 
-            ret = viscid.empty_like(self)
-            ret.data = _sp_cumtrapz(arr, crd_arr.reshape(-1), axis=fld_axis,
-                                    initial=initial)
+            ret = self.wrap(_sp_cumtrapz(arr, crd_arr.reshape(-1), axis=fld_axis,
+                                         initial=initial))
         except ImportError:
             viscid.logger.error("Scipy is required to perform cumtrapz")
             raise
-- 
2.43.0


From 4766e15865080e21df23a9f64f580ca1083ffe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 053/175] fix: arithmetic between fields of different layouts

---
 viscid/field.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index a8981f6..e2a3e93 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2377,6 +2377,13 @@ class ScalarField(Field):
         else:
             return self
 
+    def _ow(self, other):
+        # components first so that numpy can broadcast scalar flds w/
+        # interlaced vector flds
+        if isinstance(other, VectorField) and other.layout == LAYOUT_INTERLACED:
+            return np.moveaxis(other.__array__(), -1, 0)
+        return super(ScalarField, self)._ow(other)
+
 
 class VectorField(Field):
     _TYPE = "vector"
@@ -2465,6 +2472,12 @@ class VectorField(Field):
                     return other.__array__()[..., np.newaxis]
                 elif self.layout == 'flat':
                     return other.__array__()[np.newaxis, ...]
+            elif isinstance(other, VectorField):
+                both = (self.layout, other.layout)
+                if both == (LAYOUT_FLAT, LAYOUT_INTERLACED):
+                    return np.moveaxis(other.__array__(), -1, 0)
+                elif both == (LAYOUT_INTERLACED, LAYOUT_FLAT):
+                    return np.moveaxis(other.__array__(), 0, -1)
             return other.__array__()
         except AttributeError:
             return other
-- 
2.43.0


From 84d6fa7fa97b8ac375537245d034db18cfa947a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 054/175] fix: arithmetic with a field that a reduction kept on
 its axes

---
 viscid/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index e2a3e93..9cf8ee6 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1884,7 +1884,8 @@ class Field(tree.Leaf):
         to the constructor. The return is just a number if arr is a
         1 element ndarray, this is for ufuncs that reduce to a scalar """
 
-        if self.defer_wrapping and hasattr(other, "wrap"):
+        if (self.defer_wrapping and hasattr(other, "wrap") and
+                list(np.shape(arr)) != list(self.shape)):
             return other.wrap(arr, context=context, fldtype=fldtype,
                               npkwargs=npkwargs)
 
@@ -1964,6 +1965,7 @@ class Field(tree.Leaf):
         # then turn the result into a ScalarField
         if fld.nr_comps == 1:
             fld = fld.component_fields()[0]
+        fld.defer_wrapping = defer_wrapping
         return fld
 
     def wrap_field(self, data, name="NoName", fldtype=None, **kwargs):
-- 
2.43.0


From 0eb0052cc450b75e91e1ab84399730ee6ff7b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 055/175] fix: reductions of vector fields that have axes of
 length one

---
 viscid/field.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 9cf8ee6..464d6ad 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1930,6 +1930,16 @@ class Field(tree.Leaf):
                         crds = self.crds.slice_keep(crd_slc, cc=iscc)
                     else:
                         crds = self.crds.slice_reduce(crd_slc, cc=iscc)
+                        if self.nr_comps > 0:
+                            # slice_reduce drops all axes of length 1, so
+                            # they have to go from arr too
+                            left = [ax for i, ax in enumerate(self.crds.axes)
+                                    if i not in axes]
+                            if len(arr.shape) > len(left):
+                                left.insert(self.nr_comp, None)
+                            arr = arr.reshape([n for n, ax
+                                               in zip(arr.shape, left)
+                                               if ax is None or ax in crds.axes])
                     defer_wrapping = True
 
         # little hack for broadcasting vectors and scalars together
@@ -2174,10 +2184,8 @@ class Field(tree.Leaf):
             arr = self.data * fudge_factor(self.data, crd_arr)
 
         if self.nr_sdims > 1:
-            crds = self.crds.slice_reduce("{0}=0".format(self.crds.axes[axis]),
-                                          cc=self.iscentered('cell'))
             ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
-            ret = self.wrap(ret, context=dict(crds=crds))
+            ret = self.wrap(ret, npkwargs=dict(axis=fld_axis, keepdims=False))
         else:
             ret = np.trapz(arr, crd_arr.reshape(-1), axis=fld_axis)
         return ret
-- 
2.43.0


From cb84a2b80633a4476e4b43c40c1f7b9b1da805a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 056/175] fix: layout of a vector field that already has it

---
 viscid/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index 464d6ad..6850c52 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2462,6 +2462,8 @@ class VectorField(Field):
                 else:
                     # print("returning self")
                     ret = self
+            else:
+                ret = self
         else:
             ctx = dict(force_layout=to_layout)
             # the data load is going to wrap the array, i think it's
-- 
2.43.0


From bd78207d8421a152d583450780e96d0460bbfda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 057/175] fix: transpose of vector fields when the layout is
 ambiguous

---
 viscid/field.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 6850c52..c2efa97 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2274,7 +2274,14 @@ class Field(tree.Leaf):
 
         context = dict(crds=t_crds)
         # i think the layout should be taken care of automagically
-        return self.wrap(t_data, context=context)
+        ret = self.wrap(t_data, context=context)
+        # ... unless there are as many components as points on every axis
+        if self.nr_comps and isinstance(ret, VectorField):
+            if axes[0] == self.nr_comp:
+                ret._ambiguous_layout = LAYOUT_FLAT
+            elif axes[-1] == self.nr_comp:
+                ret._ambiguous_layout = LAYOUT_INTERLACED
+        return ret
 
     def transpose_crds(self, *axes):
         if axes == (None, ) or len(axes) == 0:
-- 
2.43.0


From e982fc758958847e840a8f82966958281b67737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 058/175] fix: 1d mfield

---
 viscid/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index c2efa97..5a660bf 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -297,6 +297,8 @@ class _mfield_factory(object):
         self.dtype = dtype
 
     def __getitem__(self, slc):
+        if not isinstance(slc, tuple):
+            slc = (slc,)
         crd_arrs = [arr.reshape(-1) for arr in np.ogrid[slc]]
         return zeros(crd_arrs, center=self.center, dtype=self.dtype)
 
-- 
2.43.0


From 77eafd8e34bb985635f3399115a79758c3aa39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 059/175] fix: downsample

---
 viscid/field.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 5a660bf..b6effa9 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -2364,7 +2364,7 @@ class ScalarField(Field):
     def downsample(self):
         """ downsample the spatial dimensions by a factor of 2 """
         # FIXME: this implementation assumes a lot about the field
-        end = np.array(self.sshape) // 2
+        end = 2 * (np.array(self.sshape) // 2)
         dat = self.data
 
         if self.nr_sdims == 1:
@@ -2384,7 +2384,15 @@ class ScalarField(Field):
                                dat[:end[0]:2, 1:end[1]:2, 1:end[2]:2] +
                                dat[1:end[0]:2, 1:end[1]:2, 1:end[2]:2])
 
-        downclist = self._src_crds.get_clist(np.s_[::2])
+        # every other node, or halfway between the nodes that are averaged
+        downclist = []
+        for ax, n in zip(self._src_crds.axes, end):
+            x = self._src_crds.get_nc(ax)
+            if self.iscentered("cell"):
+                x = x[:n + 1:2]
+            else:
+                x = 0.5 * (x[:n:2] + x[1:n:2])
+            downclist.append((ax, x))
         cunits = self._src_crds.get_units((c[0] for c in downclist), allow_invalid=1)
         downcrds = coordinate.wrap_crds("nonuniform_cartesian", downclist,
                                         units=cunits, **self._src_crds.meta)
-- 
2.43.0


From 80d8129686078e8864d46c1831f760b8de1747dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 060/175] fix: dat2field with layout

---
 viscid/field.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index b6effa9..c05a666 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -124,7 +124,13 @@ def dat2field(dat_arr, name="NoName", fldtype="scalar", center=None,
         raise ValueError("Unknown type: {0}".format(fldtype))
 
     crd_arrs = [np.arange(s).astype(dat_arr.dtype) for s in sshape]
-    return arrays2field(crd_arrs, dat_arr, name=name, center=center)
+    crds = coordinate.arrays2crds(crd_arrs)
+    fld = wrap_field(dat_arr, crds, name=name, fldtype=fldtype, center="node",
+                     layout=layout)
+    if fld.nr_comps:
+        # data of shape (2, 3) could be 2 comps at 3 nodes, or the other way
+        fld._ambiguous_layout = layout
+    return fld.as_centered(center)
 
 def full(crds, fill_value, dtype="f8", name="NoName", center="cell",
          layout=LAYOUT_FLAT, nr_comps=0, crd_type=None, crd_names="xyzuvw",
-- 
2.43.0


From 4ba19d8612230a5860af4ad1e08f153a3e9ac1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 061/175] fix: vector made of scalar fields keeps coordinate
 units

---
 viscid/field.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index c05a666..66f7298 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -327,12 +327,10 @@ def scalar_fields_to_vector(fldlist, name="NoName", **kwargs):
     if not name:
         name = fldlist[0].name
     center = fldlist[0].center
-    crds = fldlist[0]._src_crds
+    crds = fldlist[0].crds
     time = fldlist[0].time
     # shape = fldlist[0].data.shape
 
-    _crds = type(crds)(crds.get_clist())
-
     # component fields will already be transposed when filling caches, so
     # the source will already be xyz
     if "zyx_native" not in kwargs:
@@ -340,7 +338,7 @@ def scalar_fields_to_vector(fldlist, name="NoName", **kwargs):
     else:
         logger.warning("did you really want to do another transpose?")
 
-    vfield = VectorField(name, _crds, fldlist, center=center, time=time,
+    vfield = VectorField(name, crds, fldlist, center=center, time=time,
                          meta=fldlist[0].meta, parents=[fldlist[0]],
                          **kwargs)
     return vfield
-- 
2.43.0


From e799be205f96ae9e6672406cb621ccdfc153767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 062/175] fix: equation that is only a name renames the field

---
 viscid/calculator/evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 963d3fa..2189e92 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -171,6 +171,9 @@ def _evaluate_numpy(grid, result_name, eqn, slc=Ellipsis):
     # run eval
     fld = eval(salted_eqn, {"__builtins__": {}}, local_dict)  # pylint: disable=eval-used
     try:
+        if any(fld is f for f in local_dict.values()):
+            # don't rename a field that belongs to the grid
+            fld = fld.wrap(fld.data)
         fld.name = result_name
         fld.pretty_name = result_name
     except AttributeError:
-- 
2.43.0


From aabb01e586b67687f754d894e16b07c696946ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 063/175] fix: coordinates of a grid that only its fields know

---
 viscid/grid.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/viscid/grid.py b/viscid/grid.py
index a2df679..f3fb11e 100755
--- a/viscid/grid.py
+++ b/viscid/grid.py
@@ -65,16 +65,19 @@ class Grid(tree.Node):
     def field_names(self):
         return self._fields.get_primary_handles()
 
-    @property
-    def crds(self):
+    def _find_src_crds(self):
+        """crds of this grid, or else those of its fields"""
         if self._src_crds is None:
             for fld in self._fields.values():
                 fld_crds = fld.crds
                 if fld_crds is not None:
                     self._src_crds = fld_crds
+        return self._src_crds
 
+    @property
+    def crds(self):
         if self._crds is None:
-            self._crds = self._src_crds.apply_reflections()
+            self._crds = self._find_src_crds().apply_reflections()
 
         return self._crds
 
@@ -221,25 +224,25 @@ class Grid(tree.Node):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_nc(axis, shaped=shaped)
+        return self._find_src_crds().get_nc(axis, shaped=shaped)
 
     def get_crd_cc(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_cc(axis, shaped=shaped)
+        return self._find_src_crds().get_cc(axis, shaped=shaped)
 
     def get_crd_ec(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_ec(axis, shaped=shaped)
+        return self._find_src_crds().get_ec(axis, shaped=shaped)
 
     def get_crd_fc(self, axis, shaped=False):
         """ returns a flat ndarray of coordinates along a given axis
         axis can be crd name as string, or index, as in x==2, y==1, z==2
         """
-        return self._src_crds.get_fc(axis, shaped=shaped)
+        return self._find_src_crds().get_fc(axis, shaped=shaped)
 
     ## these return all crd dimensions
     # these are the same as something like self._src_crds.get_crds()
@@ -247,25 +250,25 @@ class Grid(tree.Node):
         """ returns all node centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_nc(axes=axes, shaped=shaped)
+        return self._find_src_crds().get_crds_nc(axes=axes, shaped=shaped)
 
     def get_crds_cc(self, axes=None, shaped=False):
         """ returns all cell centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_cc(axes=axes, shaped=shaped)
+        return self._find_src_crds().get_crds_cc(axes=axes, shaped=shaped)
 
     def get_crds_fc(self, axes=None, shaped=False):
         """ returns all face centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_fc(axes=axes, shaped=shaped)
+        return self._find_src_crds().get_crds_fc(axes=axes, shaped=shaped)
 
     def get_crds_ec(self, axes=None, shaped=False):
         """ returns all edge centered coords as a list of ndarrays, flat if
         shaped==False, or shaped if shaped==True
         """
-        return self._src_crds.get_crds_ec(axes=axes, shaped=shaped)
+        return self._find_src_crds().get_crds_ec(axes=axes, shaped=shaped)
 
     ##
     def get_field(self, fldname, time=None, force_longterm_caches=False,
@@ -316,8 +319,9 @@ class Grid(tree.Node):
         try:
             return self.get_field(item)
         except KeyError:
-            if self._src_crds is not None and item in self._src_crds:
-                return self._src_crds[item]
+            crds = self._find_src_crds()
+            if crds is not None and item in crds:
+                return crds[item]
             else:
                 raise KeyError(item)
 
-- 
2.43.0


From 1cdd9a6be0800e9094b907a95cff99005e8de212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 064/175] fix: equations with scalar and interlaced vector
 fields

---
 viscid/calculator/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 2189e92..8d6cf11 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -70,7 +70,8 @@ def evaluate(grid, result_name, eqn, try_numexpr=True, slc=Ellipsis):
             return _evaluate_numexpr(grid, result_name, eqn, slc=slc)
         except RuntimeError:
             pass
-        except TypeError:
+        except (TypeError, ValueError, AttributeError):
+            # a function it doesn't know, fields of different layouts, ...
             logger.warning("Numexpr couldn't understand a math function you "
                            "tried to use in '{0}', falling back to numpy"
                            "".format(eqn))
-- 
2.43.0


From 4e42f338ee3e5be74584ce5367dcacb185fb2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 065/175] fix: don't let numexpr broadcast fields of different
 kinds or layouts

---
 viscid/calculator/evaluator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viscid/calculator/evaluator.py b/viscid/calculator/evaluator.py
index 8d6cf11..d19a8a5 100644
--- a/viscid/calculator/evaluator.py
+++ b/viscid/calculator/evaluator.py
@@ -112,6 +112,11 @@ def _evaluate_numexpr(grid, result_name, eqn, slc=Ellipsis):
                     flds.append(this_fld)
                 else:
                     raise RuntimeError("reduced to scalar, no need for numexpr")
+            elif (isinstance(this_fld, field.Field) and
+                  (this_fld.layout, this_fld.nr_comps) !=
+                  (flds[0].layout, flds[0].nr_comps)):
+                # only Fields know how to broadcast these
+                raise RuntimeError("scalar / vector / layout mix")
         return salted_symbol
 
     salted_eqn = re.sub(var_re, var_salter, eqn)
-- 
2.43.0


From 3123430e615d75f6c9a5dad3239343b0b03a4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 066/175] fix: tell parents apart by identity, == between
 fields compares values

---
 viscid/tree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index b2505eb..01a98b3 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -36,14 +36,15 @@ class Node(object):
         self._info.update(kwargs)
 
     def prepare_child(self, obj):
-        if self not in obj.parents:
+        # nb: == between fields compares values, hence no 'in' / remove
+        if not any(parent is self for parent in obj.parents):
             obj.parents.append(self)
 
     def tear_down_child(self, obj):
-        try:
-            obj.parents.remove(self)
-        except ValueError:
-            pass
+        for i, parent in enumerate(obj.parents):
+            if parent is self:
+                obj.parents.pop(i)
+                break
 
     def _parent_bfs(self, condition, getvalue=None):
         """Breadth first search of parent
-- 
2.43.0


From 0500b84795b9c48504f3e2242b29ff57c4a3be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 067/175] fix: vector fields in npz files, flat ones need a
 length

---
 viscid/readers/numpy_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 15be125..9305f7a 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -67,8 +67,8 @@ class NPZDataWrapper(vfile.DataWrapper):
     def read_direct(self, *args, **kwargs):
         raise NotImplementedError()
 
-    def len(self):
-        return self.wrap_func("len")
+    def __len__(self):
+        return self.shape[0]
 
     def __getitem__(self, item):
         return self.wrap_func("__getitem__", item)
-- 
2.43.0


From 8c39828bd3912768298b09a9ede746933bca3998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 068/175] fix: escape names of fields in xdmf files, they may
 have a colon too

---
 viscid/readers/hdf5.py | 7 ++++---
 viscid/readers/xdmf.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 870a47d..d9f30d3 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -1,5 +1,6 @@
 from __future__ import print_function
 import os
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -306,7 +307,7 @@ class FileHDF5(vfile.VFile):
             dim_str = " ".join([str(l) for l in crd_shape][::-1])
             f.write(cls._XDMF_TEMPLATE_BEGIN.format(time=time))
             s = cls._XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN.format(
-                grid_name="vgrid", crd_dims=dim_str, h5fname=relh5fname,
+                grid_name="vgrid", crd_dims=dim_str, h5fname=escape(relh5fname),
                 xdim=crd_shape[0], ydim=crd_shape[1], zdim=crd_shape[2],
                 xloc=xloc, yloc=yloc, zloc=zloc)
             f.write(s)
@@ -325,10 +326,10 @@ class FileHDF5(vfile.VFile):
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
                 s = cls._XDMF_TEMPLATE_ATTRIBUTE.format(
-                    fld_name=name,
+                    fld_name=escape(name, {'"': "&quot;"}),
                     fld_type=fld.fldtype, center=fld.center.title(),
                     dtype=dt, precision=precision, fld_dims=fld_dim_str,
-                    h5fname=relh5fname, fld_loc=loc)
+                    h5fname=escape(relh5fname), fld_loc=escape(loc))
                 f.write(s)
 
             f.write(cls._XDMF_TEMPLATE_GRID_END)
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..1111eba 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -440,7 +440,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             return arr, attrs
 
         if fmt == "HDF":
-            fname, loc = item.text.strip().split(':')
+            fname, loc = item.text.strip().split(':', 1)
 
             # FIXME: startswith '/' is unix path name specific
             if self.h5_root_dir is not None:
-- 
2.43.0


From 51e8a8f526e2ce23f0f1d396cf221ddc4f17987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 069/175] fix: layouts of vector fields from files whose shape
 doesn't settle it

---
 viscid/field.py                | 1 +
 viscid/readers/hdf5.py         | 7 ++++---
 viscid/readers/numpy_binary.py | 3 ++-
 viscid/readers/xdmf.py         | 4 ++++
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 66f7298..10989f8 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1632,6 +1632,7 @@ class Field(tree.Leaf):
                        transform_func_kwargs=self.transform_func_kwargs,
                        parents=[self],
                        **kwargs)
+        f._ambiguous_layout = self._ambiguous_layout
         return f
 
     #####################
diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index d9f30d3..859018b 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -274,12 +274,13 @@ class FileHDF5(vfile.VFile):
 
             for name, fld in flds.items():
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
-                # xdmf files use kji ordering
+                # xdmf files use kji ordering, with the components last
+                dat = fld.as_flat().data.T
                 if do_compression:
-                    f.create_dataset(loc, data=fld.data.T, compression=compression,
+                    f.create_dataset(loc, data=dat, compression=compression,
                                      compression_opts=compression_opts)
                 else:
-                    f[loc] = fld.data.T
+                    f[loc] = dat
 
             # big bad openggcm time_str hack to put basetime into hdf5 file
             for fld in flds.values():
diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 9305f7a..7960307 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -185,7 +185,8 @@ class FileNumpyNPZ(vfile.VFile):
 
         for name, fld in flds.items():
             fld_names[fld.center.lower()].append(name)
-            fld_dict[name] = fld.data
+            # flat is what readers assume if the shape doesn't settle it
+            fld_dict[name] = fld.as_flat().data
 
         for center, names_lst in fld_names.items():
             fld_dict[cls._KEY_FLDS[center.lower()]] = np.array(names_lst)
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 1111eba..c419ace 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -14,6 +14,7 @@ from viscid.readers.vfile_bucket import ContainerFile
 from viscid.readers.hdf5 import FileLazyHDF5
 from viscid import amr_grid
 from viscid import coordinate
+from viscid import field
 
 # class XDMFDataItem(data_item.DataItem):
 #     def set_precision():
@@ -414,6 +415,9 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         fldtype = attrs["AttributeType"]
         fld = self._make_field(parent_node, fldtype, name, crds, data,
                                center=center, time=time, zyx_native=True)
+        if fldtype.lower() == "vector":
+            # components go last in xdmf, if the shape doesn't settle it
+            fld._ambiguous_layout = field.LAYOUT_INTERLACED
         self._inject_info(item, fld)
 
         return fld
-- 
2.43.0


From 9f46f845e7a63a23aeb2170c955bccbbb23e8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 070/175] fix: layouts in the numexpr calculator, numbers may
 come first

---
 viscid/calculator/necalc.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 8ce136b..57f1b76 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -25,6 +25,12 @@ def _normalize_scalar_dtype(s, arrs):
     return s
 
 
+def _broadcastable(flds):
+    # can ndarrays of these fields go in the same expression?
+    return all((f.layout, f.nr_comps) == (flds[0].layout, flds[0].nr_comps)
+               for f in flds)
+
+
 class VneCalc(object):
     expr = None
     local_dict = None
@@ -55,8 +61,12 @@ class VneCalc(object):
         #         ldict[name] = ldict[name][slc].data
 
         # print(ldict)
+        flds = [arg for arg in args if isinstance(arg, field.Field)]
+        if not _broadcastable(flds):
+            # only Fields know what to do with different layouts
+            return eval(self.expr, {"abs": abs}, ldict)  # pylint: disable=eval-used
         result = ne.evaluate(self.expr, local_dict=ldict)
-        return args[0].wrap(result, context=self.ret_context,
+        return flds[0].wrap(result, context=self.ret_context,
                             fldtype=self.ret_type)
 
 neg = VneCalc("-a", {'a': 0})
@@ -75,6 +85,8 @@ def scale(a, fld):
 def axpby(a, x, b, y):
     a = _normalize_scalar_dtype(a, [x, y])
     b = _normalize_scalar_dtype(b, [x, y])
+    if not _broadcastable([x, y]):
+        return a * x + b * y
     return x.wrap(ne.evaluate("a * x + b * y"))
 
 def abs_max(fld):
@@ -129,7 +141,8 @@ def project(fld_a, fld_b):
 
 def normalize(fld_a):
     """ normalize a vector field """
-    a = fld_a.as_flat().data
+    fld_a = fld_a.as_flat()
+    a = fld_a.data
     ax, ay, az = fld_a.component_views()  # pylint: disable=W0612
     normed = ne.evaluate("a / sqrt((ax**2) + (ay**2) + (az**2))")
     return fld_a.wrap(normed, fldtype="Vector")
-- 
2.43.0


From 9cbcd3778db65f1522d180de0607cd88686ac28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 071/175] fix: magnitude's native backend, and project with
 fields of two layouts

---
 viscid/calculator/calc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 879708f..85e7010 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -179,7 +179,7 @@ magnitude.add_implementation("numpy", _magnitude_np)
 
 def _project_np(a, b):
     """ project a along b (a dot b / |b|) """
-    return (np.sum(a * b, axis=b.nr_comp) /
+    return (np.sum(a * b, axis=a.nr_comp) /
             np.sqrt(np.sum(b * b, axis=b.nr_comp)))
 project.add_implementation("numpy", _project_np)
 
@@ -354,13 +354,14 @@ def convective_deriv(a, b=None, bnd=True):
 # native versions  NOTE: magnitude_native is really only for benchmarking
 def _magnitude_native(fld):
     vx, vy, vz = fld.component_views()
-    mag = np.empty_like(vx)
+    mag = np.empty(vx.shape, dtype=np.result_type(vx, 'f4'))
     for i in range(mag.shape[0]):
         for j in range(mag.shape[1]):
             for k in range(mag.shape[2]):
                 mag[i, j, k] = np.sqrt(vx[i, j, k]**2 + vy[i, j, k]**2 +
                                        vz[i, j, k]**2)
-    return vx.wrap(mag, context={"name": "{0} magnitude".format(fld.name)})
+    return fld.wrap(mag, context={"name": "{0} magnitude".format(fld.name)},
+                    fldtype="Scalar")
 
 magnitude.add_implementation("native", _magnitude_native)
 
-- 
2.43.0


From 4192066d44891ac2073f85cdf61ec95d147a4413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 072/175] fix: grad without boundaries keeps the centering and
 time of its field

---
 viscid/calculator/calc.py   | 3 ++-
 viscid/calculator/necalc.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 85e7010..2d5d5c6 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -226,7 +226,8 @@ def _grad_np(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]),
+                     center=fld.center, nr_comps=3, time=fld.time)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
diff --git a/viscid/calculator/necalc.py b/viscid/calculator/necalc.py
index 57f1b76..e7808d7 100644
--- a/viscid/calculator/necalc.py
+++ b/viscid/calculator/necalc.py
@@ -167,7 +167,8 @@ def grad(fld, bnd=True):
         raise NotImplementedError("Can only do cell and node centered gradients")
 
     v = fld.data
-    g = viscid.zeros(fld['x=1:-1, y=1:-1, z=1:-1'].crds, nr_comps=3)
+    g = viscid.zeros(fld.crds.slice_keep(np.s_[1:-1, 1:-1, 1:-1]),
+                     center=fld.center, nr_comps=3, time=fld.time)
 
     xp, xm = crdx[2:,  :,  :], crdx[:-2, :  , :  ]  # pylint: disable=bad-whitespace
     yp, ym = crdy[ :, 2:,  :], crdy[:  , :-2, :  ]  # pylint: disable=bad-whitespace
-- 
2.43.0


From 36d90a02fa5872c1c700fce268cfe2f9f68f88b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 073/175] fix: convective_deriv keeps the centering and time of
 its field

---
 viscid/calculator/calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 2d5d5c6..483df12 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -336,7 +336,7 @@ def convective_deriv(a, b=None, bnd=True):
     else:
         if b is None:
             b = a
-        a = a['x=1:-1, y=1:-1, z=1:-1']
+        a = a.slice_and_keep('x=1:-1, y=1:-1, z=1:-1')
 
     if b.nr_comps > 1:
         diBj = [[None, None, None], [None, None, None], [None, None, None]]
@@ -344,7 +344,7 @@ def convective_deriv(a, b=None, bnd=True):
             g = grad(b[jcmp], bnd=False)
             for i, icmp in enumerate('xyz'):
                 diBj[i][j] = g[icmp]
-        dest = viscid.zeros(a.crds, nr_comps=3)
+        dest = viscid.zeros(a.crds, center=a.center, nr_comps=3, time=a.time)
         for i, icmp in enumerate('xyz'):
             for j, jcmp in enumerate('xyz'):
                 dest[jcmp][...] += a[icmp] * diBj[i][j]
-- 
2.43.0


From 59add643f9d698431bbf13b8dec61a258755e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 074/175] fix: resample_lines with fractional factors and
 generators of lines

---
 viscid/calculator/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 483df12..3de9ba9 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -395,9 +395,10 @@ def resample_lines(lines, factor=1, kind="linear"):
     elif factor == 1:
         return lines
 
+    lines = list(lines)
     for i, line in enumerate(lines):
         nr_sdims, nold = line.shape
-        nnew = np.ceil(factor * (nold - 1)) + 1
+        nnew = int(np.ceil(factor * (nold - 1))) + 1
         newline = np.empty((nr_sdims, nnew), dtype=line.dtype)
         sold = np.linspace(0, 1, nold)
         snew = np.linspace(0, 1, nnew)
-- 
2.43.0


From 8bbb4fa4ab72f30d111341b76f452e867e16f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 075/175] fix: integrate_along_lines of magnitudes

---
 viscid/calculator/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 3de9ba9..6e4e54c 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -492,7 +492,7 @@ def integrate_along_lines(lines, fld, reduction="dot", mask_func=None,
                 values = np.sum(values, axis=1)
             elif reduction in ["mag", "magnitude", "norm"]:
                 mag = np.linalg.norm(fld_on_verts[start:stop], axis=1)
-                values = 0.5 * (mag[start:stop - 1] + mag[start + 1:stop])
+                values = 0.5 * (mag[:-1] + mag[1:])
             else:
                 raise ValueError("Unknown reduction: {0}".format(reduction))
         else:
-- 
2.43.0


From c3327ecaf94c473f2c6ce1d8a470fba8715c2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 076/175] fix: jacobian, div and curl at a point

---
 viscid/calculator/calc.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 6e4e54c..807ae62 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -529,21 +529,22 @@ def local_vector_points(B, x, y, z, dx=None, dy=None, dz=None):
     assert has_cython  # if a problem, you need to build Viscid
     assert B.iscentered("Cell")
 
-    x, y, z = [np.array(c).reshape(1, 1) for c in [x, y, z]]
+    x, y, z = [np.array(c, dtype='f8').reshape(1, 1) for c in [x, y, z]]
     crds = B.get_crds("xyz")
     inds = [0] * len(crds)
     dcrd = [0] * len(crds)
     # This makes points in xyz order
     pts = np.tile([x, y, z], 6).reshape(3, -1).T
     for i, crd, loc, d in zip(count(), crds, [x, y, z], [dx, dy, dz]):
-        inds[i] = cycalc.closest_ind(crd, loc)
+        inds[i] = int(np.argmin(np.abs(np.ravel(crd) - loc)))
         if d is None:
+            inds[i] = min(inds[i], len(crd) - 2)
             dcrd[i] = crd[inds[i] + 1] - crd[inds[i]]
         else:
             dcrd[i] = d
         pts[2 * i + 1, i] += dcrd[i]
         pts[2 * i + 0, i] -= dcrd[i]
-    bs = cycalc.interp_trilin(B, seed.Point(pts))
+    bs = cycalc.interp_trilin(B, seed.Point(pts), wrap=False)
     # viscid.interact(banner="in local_vector_points")
     return bs, pts, dcrd
 
@@ -634,10 +635,10 @@ def curl_at_point(A, x, y, z, dx=None, dy=None, dz=None):
     # this is confusing: In As, first index is xyz, 2nd index is xyz
     #             xi+dxi  comp      xi-dxi   comp /   (2 * dxi)
     c[0] = ((As[2 * 1 + 1, 2] - As[2 * 1 + 0, 2]) / (2.0 * dcrd[1]) -
-            (As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[2]))
-    c[1] = ((As[2 * 0 + 1, 0] - As[2 * 0 + 0, 0]) / (2.0 * dcrd[2]) -
-            (As[2 * 2 + 1, 2] - As[2 * 2 + 0, 2]) / (2.0 * dcrd[0]))
-    c[2] = ((As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[0]) -
+            (As[2 * 2 + 1, 1] - As[2 * 2 + 0, 1]) / (2.0 * dcrd[2]))
+    c[1] = ((As[2 * 2 + 1, 0] - As[2 * 2 + 0, 0]) / (2.0 * dcrd[2]) -
+            (As[2 * 0 + 1, 2] - As[2 * 0 + 0, 2]) / (2.0 * dcrd[0]))
+    c[2] = ((As[2 * 0 + 1, 1] - As[2 * 0 + 0, 1]) / (2.0 * dcrd[0]) -
             (As[2 * 1 + 1, 0] - As[2 * 1 + 0, 0]) / (2.0 * dcrd[1]))
     return c
 
-- 
2.43.0


From 129003bac7cb21d400c6b5e1cf1853cafca792ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 077/175] fix: extend_boundaries keeps the units of the
 coordinates

---
 viscid/calculator/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index 807ae62..ab70877 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -809,7 +809,8 @@ def extend_boundaries(fld, nl=1, nh=1, axes='all', nr_comp=None, order=1,
         crdtype = fld.crds.crdtype
         if 'nonuniform' not in crdtype:
             crdtype = crdtype.replace('uniform', 'nonuniform')
-        new_crds = viscid.wrap_crds(crdtype, new_clist)
+        new_crds = viscid.wrap_crds(crdtype, new_clist, units=fld.crds.units,
+                                    **fld.crds.meta)
 
     return fld.wrap(new_dat, context=dict(crds=new_crds))
 
-- 
2.43.0


From 27e6ba8e21fddbbc9ede82ddb2b5e49cfd0cb282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 078/175] fix: face and edge centered fields could not be
 averaged to cell centers

---
 viscid/calculator/ecfc.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/viscid/calculator/ecfc.py b/viscid/calculator/ecfc.py
index b199212..5303169 100644
--- a/viscid/calculator/ecfc.py
+++ b/viscid/calculator/ecfc.py
@@ -121,9 +121,7 @@ def make_ecfc_field_leading(fc, trim_leading=True):
                 raise RuntimeError("I shouldn't be here")
 
         fc.resolve()  # if translating -> gse, do it once, not 4 times
-        s0vec = list(sc)
-        s0vec.insert(fc.nr_comp, slice(None))
-        prepared_fc = viscid.zeros_like(fc[s0vec])
+        prepared_fc = viscid.zeros_like(fc[tuple(sc)])
 
         prepared_fc['x'] = fc['x', sd[0][0], sd[0][1], sd[0][2]]
         prepared_fc['y'] = fc['y', sd[1][0], sd[1][1], sd[1][2]]
@@ -141,9 +139,7 @@ def fc2cc(fc, force_numpy=False, bnd=True):
     fc = make_ecfc_field_leading(fc)
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(None))
-    cc = viscid.zeros_like(fc[s0vec])
+    cc = viscid.zeros_like(fc[tuple(s0)])
     cc.center = "Cell"
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
@@ -181,9 +177,7 @@ def ec2cc(ec, force_numpy=False, bnd=True):
     ec = make_ecfc_field_leading(ec)
     s0, sm, sp = _prep_slices(ec)
 
-    s0vec = list(s0)
-    s0vec.insert(ec.nr_comp, slice(None))
-    cc = viscid.zeros_like(ec[s0vec])
+    cc = viscid.zeros_like(ec[tuple(s0)])
     cc.center = "Cell"
 
     ecx0, ecx1, ecx2, ecx3 = (ec['x', s0[0], sm[1], sm[2]].data,
@@ -230,9 +224,7 @@ def div_fc(fc, force_numpy=False, bnd=True):
     #        just faking it with a 0 order hold before returning
     s0, sm, sp = _prep_slices(fc)
 
-    s0vec = list(s0)
-    s0vec.insert(fc.nr_comp, slice(0, 1))
-    div_cc = viscid.zeros_like(fc[s0vec], center="cell")
+    div_cc = viscid.zeros_like(fc[('x',) + tuple(s0)], center="cell")
 
     x, y, z = fc.get_crds_nc('xyz', shaped=True)
     if True:
@@ -245,6 +237,13 @@ def div_fc(fc, force_numpy=False, bnd=True):
     xm, xp = x[sm[0], :, :], x[sp[0], :, :]
     ym, yp = y[:, sm[1], :], y[:, sp[1], :]
     zm, zp = z[:, :, sm[2]], z[:, :, sp[2]]
+    # nothing varies along axes with a single cell (so fc[xyz]1 == fc[xyz]0)
+    if fc.sshape[0] == 1:
+        xp = xm + 1.0
+    if fc.sshape[1] == 1:
+        yp = ym + 1.0
+    if fc.sshape[2] == 1:
+        zp = zm + 1.0
 
     fcx0, fcx1 = (fc['x', sm[0], s0[1], s0[2]].data,
                   fc['x', sp[0], s0[1], s0[2]].data)
-- 
2.43.0


From c7fac16e65eee28668782d08506e0b7477e5de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 079/175] fix: integer fields can be interpolated and traced

---
 viscid/cython/cyamr.pyx   | 2 +-
 viscid/cython/cyfield.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..2649929 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -117,7 +117,7 @@ cdef make_cyamrfield(vfield):
         amrfld = _init_cyamrfield(AMRField_I4_Crd_F8(), vfield, 'f8')
     elif fld_dtype == np.dtype('i8'):
         amrfld = _init_cyamrfield(AMRField_I8_Crd_F8(), vfield, 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         amrfld = _init_cyamrfield(AMRField_F4_Crd_F4(), vfield, 'f4')
     elif fld_dtype == np.dtype('f8'):
         amrfld = _init_cyamrfield(AMRField_F8_Crd_F8(), vfield, 'f8')
diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index e8ca83a..822635b 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -121,7 +121,7 @@ cdef make_cyfield(vfield):
         fld = _init_cyfield(Field_I4_Crd_F8(), vfield, 'i4', 'f8')
     elif fld_dtype == np.dtype('i8'):
         fld = _init_cyfield(Field_I8_Crd_F8(), vfield, 'i8', 'f8')
-    if fld_dtype == np.dtype('f4'):
+    elif fld_dtype == np.dtype('f4'):
         fld = _init_cyfield(Field_F4_Crd_F4(), vfield, 'f4', 'f4')
     elif fld_dtype == np.dtype('f8'):
         fld = _init_cyfield(Field_F8_Crd_F8(), vfield, 'f8', 'f8')
-- 
2.43.0


From 3af63202379812c01608da38d573ace32d7cc7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 080/175] fix: interpolating onto as many points as components

---
 viscid/cython/cycalc.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..be5d100 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -84,7 +84,8 @@ def interp(vfield, seeds, kind="linear", wrap=True, method=None):
             result = seeds.wrap_field(result, name=vfield.name)
         else:
             result = seeds.wrap_field(result, name=vfield.name,
-                                      fldtype="vector", layout="interlaced")
+                                      fldtype="vector",
+                                      _force_layout="interlaced")
 
     return result
 
-- 
2.43.0


From aee1b2d2b1316408a514e31e053612495968b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 081/175] fix: fields of more than three components are
 interpolated within bounds

---
 viscid/cython/cyfield.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/viscid/cython/cyfield.pyx b/viscid/cython/cyfield.pyx
index 822635b..7ae3a5c 100644
--- a/viscid/cython/cyfield.pyx
+++ b/viscid/cython/cyfield.pyx
@@ -46,23 +46,25 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
     cdef int[3] sshape_cc = vfield.crds.shape_cc
 
     _crd_lst = [[_x, _y, _z] for _x, _y, _z in zip(x, y, z)]
+    # there is one set of coordinates per component, but always at least 3
+    nr_comps = max(3, dat.shape[3])
     _crd_lst_nc = [xnc, ync, znc]
     _crd_lst_cc = [xcc, ycc, zcc]
     sshape_max = max(sshape)
-    fld.crds = np.nan * np.ones((3, 3, sshape_max), dtype=crd_dtype)
+    fld.crds = np.nan * np.ones((nr_comps, 3, sshape_max), dtype=crd_dtype)
     sshape_nc_max = max(sshape_nc)
     fld.crds_nc = np.nan * np.ones((3, sshape_nc_max), dtype=crd_dtype)
     sshape_cc_max = max(sshape_cc)
     fld.crds_cc = np.nan * np.ones((3, sshape_cc_max), dtype=crd_dtype)
 
-    fld.xl = np.nan * np.ones((3, 3), dtype=crd_dtype)
-    fld.xh = np.nan * np.ones((3, 3), dtype=crd_dtype)
-    fld.L = np.nan * np.ones((3, 3), dtype=crd_dtype)
+    fld.xl = np.nan * np.ones((nr_comps, 3), dtype=crd_dtype)
+    fld.xh = np.nan * np.ones((nr_comps, 3), dtype=crd_dtype)
+    fld.L = np.nan * np.ones((nr_comps, 3), dtype=crd_dtype)
 
-    for ic in range(3):
+    for ic in range(nr_comps):
         for i in range(3):
             for j in range(sshape[i]):
-                fld.crds[ic, i, j] = _crd_lst[ic][i][j]
+                fld.crds[ic, i, j] = _crd_lst[ic % 3][i][j]
             # fld.xl[ic, i] = fld.crds[ic, i, 0]
             # fld.xh[ic, i] = fld.crds[ic, i, sshape[i] - 1]
 
@@ -85,7 +87,7 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
         fld.nm1[i] = fld.n[i] - 1
         fld.nm2[i] = fld.n[i] - 2
 
-        for ic in range(3):
+        for ic in range(nr_comps):
             fld.xl[ic, i] = fld.crds[ic, i, 0]
             fld.xh[ic, i] = fld.crds[ic, i, int_max(sshape[i] - 1, 0)]
             fld.L[ic, i] = fld.xh[ic, i] - fld.xl[ic, i]
@@ -97,7 +99,7 @@ cdef _init_cyfield(FusedField fld, vfield, fld_dtype, crd_dtype):
         else:
             fld.dx[i] = np.nan
 
-        for ic in range(3):
+        for ic in range(nr_comps):
             if fld.xh[ic, i] < fld.xl[ic, i]:
                 raise RuntimeError("Forward crds only in cython code")
 
-- 
2.43.0


From a8f97ed1d54fc2c5bfc4017bb2cdadc509ef000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 082/175] fix: a failed call to calc_streamlines does not block
 later ones

---
 viscid/cython/streamline.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..014f26e 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -264,10 +264,12 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
         raise RuntimeError("Another process is doing streamlines in this "
                            "global memory space")
     _global_fld = fld
-    grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
-- 
2.43.0


From 6fb3f2362cf3a418eefa9f8607a281d7701da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 083/175] fix: max_t of a streamline is measured step by step

---
 viscid/cython/streamline.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index 014f26e..7258296 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -560,6 +560,8 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                     s0[1] = s[1]
                     s0[2] = s[2]
 
+                    # the integrators add to dt
+                    dt = 0.0
                     ret = integrate_func(patch, s, &ds, dt_ptr,
                                          max_error, smallest_ds, largest_ds,
                                          vscale, cached_idx3)
-- 
2.43.0


From 0f39e2c5b017b133d755c1619c1777267c66f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 084/175] fix: keep the layout of vectors interpolated onto as
 many points as components

---
 viscid/cython/cycalc.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index be5d100..e7ae3d7 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -84,8 +84,9 @@ def interp(vfield, seeds, kind="linear", wrap=True, method=None):
             result = seeds.wrap_field(result, name=vfield.name)
         else:
             result = seeds.wrap_field(result, name=vfield.name,
-                                      fldtype="vector",
-                                      _force_layout="interlaced")
+                                      fldtype="vector", layout="interlaced")
+            # if there are as many points as there are components
+            result._ambiguous_layout = "interlaced"
 
     return result
 
-- 
2.43.0


From be238433b84847ec482684382f3368b1bad27e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 085/175] fix: an empty selection selects everything, also from
 a vector field

---
 viscid/sliceutil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index f4bba73..189651c 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -48,7 +48,8 @@ def prune_comp_sel(sel_list, comp_names):
     for i, s in enumerate(sel_list):
         try:
             s = s.strip().lower()
-            if s in comp_names:
+            # a string of names is not searched for substrings
+            if s in tuple(comp_names):
                 if comp_idx is not None:
                     raise IndexError("Multiple vector component slices given, {0}"
                                      "".format(tuple(sel_list)))
@@ -102,7 +103,7 @@ def raw_sel2sel_list(sel):
                              "arrays since coordinate arrays become "
                              "ambiguous otherwise.")
         sel = re.sub(_R_IN_BRACKS, lambda x: x.group(0).replace(",", "@"), sel)
-        sel_list = [s for s in sel.split(",")]
+        sel_list = [s for s in sel.split(",")] if sel.strip() else []
         # put the commas back into the arrays
         sel_list = [s.replace('@', ',') for s in sel_list]
         # input_type = 'string'
-- 
2.43.0


From e6ac872c4052e9b267492b6b4a3d2cb0fa839e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 086/175] fix: interpolated slice at a single point

---
 viscid/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 10989f8..f4f8e54 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1409,7 +1409,8 @@ class Field(tree.Leaf):
         seed_pts = seeds.get_points(center=self.center)
         fld_dat = interp_trilin(self, seed_pts, wrap=False)
         new_fld = self.wrap(fld_dat, context=dict(crds=seeds))
-        new_fld = new_fld.slice_reduce("")
+        if isinstance(new_fld, Field):  # and not a single value
+            new_fld = new_fld.slice_reduce("")
         return new_fld
 
     def set_slice(self, selection, value):
-- 
2.43.0


From 960e2d0d7f9acf875843dae6612aaf91831e6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 087/175] fix: interpolated slices leave the coordinates of the
 field alone

---
 viscid/coordinate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 0fb5607..a41d061 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -927,6 +927,8 @@ class StructuredCrds(Coordinates):
             _slc_lims = limits[i]
             if _slc_lims[0] == _slc_lims[1]:
                 val = _slc_lims[0]
+                # the sliced arrays can be views of the crds of self
+                crdlst[i][1:] = [np.array(arr) for arr in crdlst[i][1:]]
                 crdlst[i][1][0] = val
                 if len(crdlst[i][1]) > 1:
                     # i'm not sure what this is for...
-- 
2.43.0


From 1c5c59a9fbd5b76918640dc1b423faa23fe97ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 088/175] fix: interpolated slices of a vector with as many
 points as components

---
 viscid/field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/field.py b/viscid/field.py
index f4f8e54..932adad 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1408,6 +1408,10 @@ class Field(tree.Leaf):
         seeds = self.crds.slice_interp(selection, cc=self.iscentered('cell'))
         seed_pts = seeds.get_points(center=self.center)
         fld_dat = interp_trilin(self, seed_pts, wrap=False)
+        if self.nr_comps:
+            # the points come first here, whatever the layout of self
+            sshape = seeds.shape_cc if self.iscentered('cell') else seeds.shape_nc
+            fld_dat = fld_dat.reshape(tuple(sshape) + (self.nr_comps,))
         new_fld = self.wrap(fld_dat, context=dict(crds=seeds))
         if isinstance(new_fld, Field):  # and not a single value
             new_fld = new_fld.slice_reduce("")
-- 
2.43.0


From 0084fb127479522f1722572f8554499b0db51cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 089/175] fix: coordinates can be shared by threads before
 their first use

---
 viscid/coordinate.py | 66 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index a41d061..53b2e6b 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -482,7 +482,8 @@ class StructuredCrds(Coordinates):
     def _fill_crds_dict(self):
         """ do the math to calc node, cell, face, edge crds from
         the src crds """
-        self._Pcrds = {}
+        # threads may share self, so only crds that are complete are published
+        pcrds = {}
 
         # get node centered crds from the src crds
         sfx = self._CENTER["node"]
@@ -506,11 +507,11 @@ class StructuredCrds(Coordinates):
             # ====================================================================
 
             flatarr, openarr = self._ogrid_single(ind, arr)
-            self._Pcrds[axis.lower()] = flatarr
-            self._Pcrds[axis.upper()] = openarr
+            pcrds[axis.lower()] = flatarr
+            pcrds[axis.upper()] = openarr
             # now with suffix
-            self._Pcrds[axis.lower() + sfx] = flatarr
-            self._Pcrds[axis.upper() + sfx] = openarr
+            pcrds[axis.lower() + sfx] = flatarr
+            pcrds[axis.upper() + sfx] = openarr
 
         # recalculate all cell centers, and refresh face / edges
         sfx = self._CENTER["cell"]
@@ -522,48 +523,48 @@ class StructuredCrds(Coordinates):
                     ccarr = self._reflect_axis_arr(ccarr)
             else:
                 # doing the cc math this way also works for datetime objects
-                if len(self._Pcrds[a]) == 1:
-                    ccarr = self._Pcrds[a]
+                if len(pcrds[a]) == 1:
+                    ccarr = pcrds[a]
                 else:
-                    ccarr = self._Pcrds[a][:-1] + 0.5 * (self._Pcrds[a][1:] -
-                                                         self._Pcrds[a][:-1])
+                    ccarr = pcrds[a][:-1] + 0.5 * (pcrds[a][1:] -
+                                                         pcrds[a][:-1])
             flatarr, openarr = self._ogrid_single(a, ccarr)
-            self._Pcrds[a + sfx] = flatarr
-            self._Pcrds[a.upper() + sfx] = openarr
+            pcrds[a + sfx] = flatarr
+            pcrds[a.upper() + sfx] = openarr
 
-        # ok, so this is a little recursive, but it's ok since we set
-        # _Pcrds above, note however that now we only have nc and cc
-        # crds in _Pcrds
-        crds_nc = self.get_crds_nc()
-        crds_nc_shaped = self.get_crds_nc(shaped=True)
-        crds_cc = self.get_crds_cc()
-        crds_cc_shaped = self.get_crds_cc(shaped=True)
+        nc, cc = self._CENTER["node"], self._CENTER["cell"]
+        crds_nc = [pcrds[a + nc] for a in self.axes]
+        crds_nc_shaped = [pcrds[a.upper() + nc] for a in self.axes]
+        crds_cc = [pcrds[a + cc] for a in self.axes]
+        crds_cc_shaped = [pcrds[a.upper() + cc] for a in self.axes]
 
         # store references to face and edge centers while we're here
         sfx = self._CENTER["face"]
         for i, a in enumerate(self.axes):
-            self._Pcrds[a + sfx] = [None] * len(self.axes)
-            self._Pcrds[a.upper() + sfx] = [None] * len(self.axes)
+            pcrds[a + sfx] = [None] * len(self.axes)
+            pcrds[a.upper() + sfx] = [None] * len(self.axes)
             for j, d in enumerate(self.axes):  # pylint: disable=W0612
                 if i == j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
-                    self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
+                    pcrds[a + sfx][j] = crds_nc[i][:-1]
+                    pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
-                    self._Pcrds[a + sfx][j] = crds_cc[i]
-                    self._Pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
+                    pcrds[a + sfx][j] = crds_cc[i]
+                    pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
 
         # same as face, but swap nc with cc
         sfx = self._CENTER["edge"]
         for i, a in enumerate(self.axes):
-            self._Pcrds[a + sfx] = [None] * 3
-            self._Pcrds[a.upper() + sfx] = [None] * 3
+            pcrds[a + sfx] = [None] * 3
+            pcrds[a.upper() + sfx] = [None] * 3
             for j in range(3):
                 if i != j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
-                    self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
+                    pcrds[a + sfx][j] = crds_nc[i][:-1]
+                    pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
-                    self._Pcrds[a + sfx][j] = crds_cc[i]
-                    self._Pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
+                    pcrds[a + sfx][j] = crds_cc[i]
+                    pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
+
+        self._Pcrds = pcrds
 
     @staticmethod
     def _sm1(a):
@@ -1431,9 +1432,10 @@ class UniformCrds(StructuredCrds):
 
     def _fill_crds_dict(self):
         assert len(self._nc_linspace_args) == len(self._axes)
-        self._src_crds_nc = {}
+        src_crds_nc = {}
         for ax, p in zip(self._axes, self._nc_linspace_args):
-            self._src_crds_nc[ax] = np.linspace(p[0], p[1], p[2]).astype(self.dtype)
+            src_crds_nc[ax] = np.linspace(p[0], p[1], p[2]).astype(self.dtype)
+        self._src_crds_nc = src_crds_nc
         return super(UniformCrds, self)._fill_crds_dict()
 
 
-- 
2.43.0


From a2cc79a924dbff18c06e2aac99a2553810527727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 090/175] fix: rot2wxyz(quick=False) finds the axis of any
 rotation

---
 viscid/rotation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 44f2497..089646e 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1070,7 +1070,9 @@ def rot2wxyz(R, unit='rad', quick=True, bad_matrix='warn'):
     if any(null_mask):
         # calculate eigen vectors for transforms where the quick
         # method failed (or was never calculated)
-        eigval, eigvecs = np.linalg.eigh(R[null_mask])
+        # (the symmetric part of R has the same axis)
+        R_sym = 0.5 * (R[null_mask] + np.swapaxes(R[null_mask], -2, -1))
+        eigval, eigvecs = np.linalg.eigh(R_sym)
         idx_evec = np.argmin(np.abs(eigval - 1.0), axis=1)
         # eigenvector for eigenval closest to 1.0
         u[null_mask, :] = eigvecs[np.arange(len(eigvecs)), :, idx_evec].real
-- 
2.43.0


From bc01b7bab1ca274d3285be6f60a89c42c270af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 091/175] fix: quat2rot reads quaternions of any dtype and
 leaves its input alone

---
 viscid/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 089646e..add21d3 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -776,7 +776,8 @@ def quat2rot(q):
         q = q.reshape(-1)
     else:
         single_val = q.shape == (4,)
-    q = q.view(dtype=np.double).reshape(-1, 4)
+        q = q.astype(np.double)
+    q = np.array(q.view(dtype=np.double)).reshape(-1, 4)
 
     q_norm = np.linalg.norm(q, axis=-1)
     do_renorm = ~np.bitwise_or(np.isclose(q_norm, 0.0), np.isclose(q_norm, 1.0))
-- 
2.43.0


From 00f98e6f74bbccf200263408e59e397e32a25ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 092/175] fix: a2b_rot leaves its vectors alone and takes one
 vector to many

---
 viscid/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index add21d3..ee42430 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1305,8 +1305,9 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
     b = np.atleast_2d(b)
     roll = np.atleast_2d(roll)
 
-    a /= np.linalg.norm(a, axis=1).reshape(-1, 1)
-    b /= np.linalg.norm(b, axis=1).reshape(-1, 1)
+    a = a / np.linalg.norm(a, axis=1).reshape(-1, 1)
+    b = b / np.linalg.norm(b, axis=1).reshape(-1, 1)
+    a, b = np.broadcast_arrays(a, b)
 
     theta_rad = np.arctan2(np.linalg.norm(np.cross(a, b, axis=1), axis=1),
                            np.sum(a * b, axis=1))
-- 
2.43.0


From a1d227e81bef2ca2cf0194fc5f0679e9e7ee8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 093/175] fix: a2b_rot turns the x axis around when new_x is
 opposite

---
 viscid/rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index ee42430..0528c33 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1334,12 +1334,10 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
             current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
             new_x /= new_x_norm
             current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
-            s_roll = np.linalg.norm(np.cross(current_x, new_x, axis=1), axis=1)
+            s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
             c_roll = np.sum(current_x * new_x, axis=1)
             roll[~no_norm] = np.arctan2(s_roll, c_roll)
             roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
-            roll[~no_norm] *= np.sign(np.sum(np.cross(current_x, new_x, axis=1)
-                                             * b, axis=1))
 
     if np.any(roll):
         roll_rad = convert_angle(roll, unit, 'rad')
-- 
2.43.0


From fb045fa1dcb53ac400108fd09da3b557fe2486dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 094/175] fix: angle_between parallel vectors is not nan

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 0528c33..ecb13bb 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1271,7 +1271,7 @@ def angle_between(a, b, unit='rad'):
     b_norm = np.linalg.norm(b, axis=-1)
 
     normdot = np.sum(a * b, axis=-1) / (a_norm * b_norm)
-    angle_rad = np.arccos(normdot)
+    angle_rad = np.arccos(np.clip(normdot, -1.0, 1.0))
 
     if single_val:
         angle_rad = angle_rad[0]
-- 
2.43.0


From 626c97ce8d909b01d1275b63807ebd1e19131a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 095/175] fix: wxyz2quat takes one angle with many axes

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index ecb13bb..46f50f5 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1158,7 +1158,7 @@ def wxyz2quat(angle, vector, unit='rad'):
 
     half_theta_rad = convert_angle(angle, unit, 'rad') / 2
 
-    q = np.zeros([len(half_theta_rad), 4], dtype=np.double)
+    q = np.zeros([max(len(half_theta_rad), len(vector)), 4], dtype=np.double)
 
     q[:, 0:1] = np.cos(half_theta_rad)
     q[:, 1:] = (np.sin(half_theta_rad)
-- 
2.43.0


From 01c14f1caa7af67cee808b25d06dfa46e52795da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 096/175] fix: rot2angle and dcm2angle are exported as
 documented

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 46f50f5..0bdc7fa 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -149,7 +149,7 @@ import numpy as np
 
 __all__ = [# Euler angles <-> rotation matrices
            'angle2rot', 'eul2rot', 'angle2dcm', 'eul2dcm',
-           'rot2angles', 'rot2eul', 'dcm2angles', 'dcm2eul',
+           'rot2angle', 'rot2eul', 'dcm2angle', 'dcm2eul',
            # rotation matrices <-> quaternions
            'rot2quat', 'dcm2quat', 'quat2rot', 'quat2dcm',
            # composing rotations / quaternions and applying them in R3
-- 
2.43.0


From ba2c32e7472b14a6ce732e74877fe340d46116da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:12 +0000
Subject: [PATCH 097/175] fix: a2b_rot takes a stack where new_x is along some
 of the vectors

---
 viscid/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index 0bdc7fa..e3dd76a 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1332,11 +1332,11 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
         roll[no_norm] = 0.0
         if any(~no_norm):
             current_x = np.einsum('mij,mj->mi', R, [[1, 0, 0]])
-            new_x /= new_x_norm
+            new_x /= np.where(no_norm[:, np.newaxis], 1.0, new_x_norm)
             current_x /= np.linalg.norm(current_x, axis=1)[:, np.newaxis]
             s_roll = np.sum(np.cross(current_x, new_x, axis=1) * b, axis=1)
             c_roll = np.sum(current_x * new_x, axis=1)
-            roll[~no_norm] = np.arctan2(s_roll, c_roll)
+            roll[~no_norm] = np.arctan2(s_roll, c_roll)[~no_norm]
             roll[~no_norm] = convert_angle(roll[~no_norm], 'rad', unit)
 
     if np.any(roll):
-- 
2.43.0


From 6edc6b815761366067b75785cca4189f24ee794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 098/175] fix: rot2angle leaves its matrix alone

---
 viscid/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index e3dd76a..ae80586 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -480,7 +480,7 @@ def rot2angle(R, axes='zyx', unit='rad', bad_matrix='warn'):
     See Also:
         * :py:func:`angle2rot` for more details about axes order.
     """
-    R = np.asarray(R, dtype=np.double)
+    R = np.array(R, dtype=np.double)
     if len(R.shape) == 2:
         R = np.reshape(R, [1] + list(R.shape))
         single_val = True
-- 
2.43.0


From 9c5259952ffbd7d0348d5e1f4e2a6f3aba5a92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:14 +0000
Subject: [PATCH 099/175] fix: a2b_rot normalizes its vectors in place as
 before (its self test counts on it)

---
 viscid/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/rotation.py b/viscid/rotation.py
index ae80586..2e2d82e 100644
--- a/viscid/rotation.py
+++ b/viscid/rotation.py
@@ -1305,8 +1305,8 @@ def a2b_rot(a, b, roll=0.0, unit='rad', new_x=None):
     b = np.atleast_2d(b)
     roll = np.atleast_2d(roll)
 
-    a = a / np.linalg.norm(a, axis=1).reshape(-1, 1)
-    b = b / np.linalg.norm(b, axis=1).reshape(-1, 1)
+    a /= np.linalg.norm(a, axis=1).reshape(-1, 1)
+    b /= np.linalg.norm(b, axis=1).reshape(-1, 1)
     a, b = np.broadcast_arrays(a, b)
 
     theta_rad = np.arctan2(np.linalg.norm(np.cross(a, b, axis=1), axis=1),
-- 
2.43.0


From 3de314b95862b64fe4b2637e918edfad4674d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 100/175] fix: the local shape of MeshPoints is that of its
 mesh

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..97d48f4 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -374,7 +374,7 @@ class MeshPoints(SeedGen):
         return (self.nu, self.nv)
 
     def get_local_shape(self, **kwargs):
-        return self.get_local_shape()
+        return self.get_uv_shape(**kwargs)
 
     def uv_to_local(self, pts_uv):
         return pts_uv
-- 
2.43.0


From c5c3a1e3ed37601f8ceddd647d75436b9f6e9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 101/175] fix: uv coordinates of a Line or Spline are along it

---
 viscid/seed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 97d48f4..583cd93 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -456,7 +456,7 @@ class Line(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1]
 
     def to_3d(self, pts_local):
         ds = self.p1 - self.p0
@@ -523,7 +523,7 @@ class Spline(SeedGen):
         return (self.nr_points, )
 
     def uv_to_local(self, pts_uv):
-        return pts_uv[:, :1]
+        return pts_uv[:1]
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-- 
2.43.0


From 940346d9886083833274a39209bf3614609e366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 102/175] fix: the seeds of a Spline are evenly spaced, every
 time they are asked for

---
 viscid/seed.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 583cd93..3c99348 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -527,11 +527,10 @@ class Spline(SeedGen):
 
     def to_3d(self, pts_local, **kwargs):
         import scipy.interpolate as interpolate
-        k = self.splprep_opts.pop("k", self.knots.shape[1] - 1)
-        tck, u = interpolate.splprep(self.knots, k=k, **self.splprep_opts)
-        u = np.linspace(0, 1, self.n + 1, endpoint=True)
-        coords = np.vstack(interpolate.splev(u, tck))
-        coords = coords[:, (pts_local * self.n).astype(int)].astype(self.dtype)
+        opts = dict(self.splprep_opts)
+        k = opts.pop("k", min(self.knots.shape[1] - 1, 5))
+        tck, _ = interpolate.splprep(self.knots, k=k, **opts)
+        coords = np.vstack(interpolate.splev(pts_local, tck)).astype(self.dtype)
         return coords
 
     def to_local(self, pts_3d):
-- 
2.43.0


From cbfdf032bc48d6523f69e399c7e552f63ca33e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:03 +0000
Subject: [PATCH 103/175] fix: SphericalCap uses the theta_endpoint it is given

---
 viscid/seed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 3c99348..6ad6a01 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1216,7 +1216,9 @@ class SphericalCap(Sphere):
             angle (float): cone angle of the cap in degrees
             **kwargs: passed to :py:class:`Sphere` constructor
         """
-        super(SphericalCap, self).__init__(thetalim=(angle0, angle), **kwargs)
+        super(SphericalCap, self).__init__(thetalim=(angle0, angle),
+                                           theta_endpoint=theta_endpoint,
+                                           **kwargs)
 
     @property
     def angle0(self):
-- 
2.43.0


From ee436fc125f36a69d36cf256a3eadd5c30a840e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:42 +0000
Subject: [PATCH 104/175] fix: SphericalPatch can be made with its default
 angles

---
 viscid/seed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 6ad6a01..6b05e10 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1291,7 +1291,7 @@ class SphericalPatch(SeedGen):
         else:
             r = np.linalg.norm(p1)
 
-        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1:
+        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1 + 1e-12:
             raise ValueError("Invalid alpha/beta ranges, if you want "
                              "something with more angular coverage you'll "
                              "need a SphericalCap")
@@ -1321,7 +1321,8 @@ class SphericalPatch(SeedGen):
         arr = np.zeros((3, pts_local.shape[1]), dtype=self.dtype)
         arr[0, :] = self.r * np.sin(pts_local[0, :])
         arr[1, :] = self.r * np.sin(pts_local[1, :])
-        arr[2, :] = np.sqrt(self.r**2 - arr[0, :]**2 - arr[1, :]**2)
+        arr[2, :] = np.sqrt(np.maximum(self.r**2 - arr[0, :]**2 - arr[1, :]**2,
+                                       0.0))
         rot_pts = np.einsum("ij,jk->ik", self.get_rotation(), arr)
         return self.p0.reshape((3, 1)) + rot_pts
 
-- 
2.43.0


From ca94c81354bcb6742edcb5b30424dffb681d225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 105/175] fix: SphericalPatch leaves the direction it is given
 alone

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index 6b05e10..cd47251 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1347,7 +1347,7 @@ class SphericalPatch(SeedGen):
         return self._make_uv_axes()
 
     def get_rotation(self):
-        return viscid.a2b_rot([0, 0, 1], self.p1, roll=self.roll, unit='deg')
+        return viscid.a2b_rot([0, 0, 1], self.p1.tolist(), roll=self.roll, unit='deg')
 
     def as_uv_coordinates(self):
         alpha, beta = self._make_uv_axes()
-- 
2.43.0


From bcf56118e17cb25b8e66ef67294cafc8aa962463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:12 +0000
Subject: [PATCH 106/175] fix: the local_crds of Point can be a list

---
 viscid/seed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index cd47251..9abe5f0 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -340,7 +340,7 @@ class Point(SeedGen):
         if self.local_crds is None:
             return np.arange(self.nr_points)
         else:
-            return self.local_crds
+            return np.asarray(self.local_crds)
 
     def as_local_coordinates(self):
         x = self._make_local_axes()
-- 
2.43.0


From b536d8536e1f19cbde4c85c5436cd1a52acccd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 107/175] fix: xdmf grids can be split from their dimensions by
 any white space

---
 viscid/readers/xdmf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index c419ace..f399f59 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -387,7 +387,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             # crdlist = [['theta', [0.0, 180.0, ntheta]],
             #            ['phi', [0.0, 360.0, nphi]]]
             ######## names on a map
-            ntheta, nphi = [int(s) for s in topoattrs["Dimensions"].split(' ')]
+            ntheta, nphi = [int(s) for s in topoattrs["Dimensions"].split()]
             crdlist = [['phi', [0.0, 360.0, nphi]],
                        ['theta', [0.0, 180.0, ntheta]]]
             crdkwargs["full_arrays"] = False
@@ -428,7 +428,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
 
         dimensions = attrs["Dimensions"]
         if dimensions:
-            dimensions = [int(d) for d in dimensions.split(' ')]
+            dimensions = [int(d) for d in dimensions.split()]
 
         numbertype = attrs["NumberType"]
         precision = attrs["Precision"]
-- 
2.43.0


From 23680bada58cc430a78928a09ccd198f31e846bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 108/175] fix: xdmf origin and spacing can be stored in hdf5

---
 viscid/readers/xdmf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index f399f59..20c99b2 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -334,6 +334,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             # website says it should be XYZ, BUT, the file opens correctly
             # in Paraview with zyx, so... I guess i need to do this [::-1]
             # nonsense here
+            data_o, data_dx = np.array(data_o), np.array(data_dx)
             data_o, data_dx, n = data_o[::-1], data_dx[::-1], n[::-1]
             crdlist = [None] * 3
             for i, crd in enumerate(['x', 'y', 'z']):
-- 
2.43.0


From 05f7880e8143f56d277c3245b4ece3c1543856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 109/175] fix: xdmf information can be a data item

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 20c99b2..9e14a26 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -497,7 +497,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         val = attrs["Value"]
         if val is None:
             _di = information.find(".//DataItem")
-            if _di:
+            if _di is not None:
                 val, _ = self._parse_dataitem(_di)
             else:
                 val = information.text
-- 
2.43.0


From 8885d8ef0d26d12f83a9f436520cd93da261641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 110/175] fix: xdmf grids keep a time of zero, and their own
 time

---
 viscid/readers/xdmf.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 9e14a26..299a300 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -157,12 +157,11 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             crds = parent_node.crds  # this can be None and that's ok
 
         # parse time
-        if time is None:
-            t = el.find("./Time")
-            if t is not None:
-                pt, tattrs = self._parse_time(t)
-                if tattrs["Type"] == "Single":
-                    time = pt
+        t = el.find("./Time")
+        if t is not None:
+            pt, tattrs = self._parse_time(t)
+            if tattrs["Type"] == "Single":
+                time = pt
         # cascade a parent grid's time
         if time is None and parent_node and parent_node.time is not None:
             time = parent_node.time
@@ -202,7 +201,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 for attribute in el.findall("./Attribute"):
                     fld = self._parse_attribute(grd, attribute, crds,
                                                 topoattrs, time)
-                    if time:
+                    if time is not None:
                         fld.time = time
                     grd.add_field(fld)
 
-- 
2.43.0


From 60915bc2713dc7dbd65472b96128d56940a902ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 111/175] fix: the times of an xdmf temporal collection are
 those of its grids

---
 viscid/readers/xdmf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 299a300..02f7345 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -177,6 +177,8 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 ttag = el.find("./Time")
                 if ttag is not None:
                     times, tattrs = self._parse_time(ttag)
+                    if tattrs["Type"] == "Single":
+                        times = None
             elif ct == "Spatial":
                 grd = self._make_dataset(parent_node, name=attrs["Name"])
                 self._inject_info(el, grd)
@@ -186,7 +188,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
-- 
2.43.0


From 1f8745bedff6f5d48274b4349486f6452aef9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 112/175] fix: xdmf grids that are ignored or empty do not
 break the file

---
 viscid/readers/xdmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 02f7345..d5c26fc 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -121,7 +121,8 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         domain_grids = root.findall("./Domain/Grid")
         for dg in domain_grids:
             grd = self._parse_grid(dg, parent_node)
-            grids.append(grd)
+            if grd is not None:
+                grids.append(grd)
         return grids
 
     def _fill_attrs(self, el):
@@ -184,6 +185,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 self._inject_info(el, grd)
             else:
                 logger.warning("Unknown collection type %s, ignoring grid", ct)
+                return None
 
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
@@ -222,7 +224,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         #         fld = self._parse_attribute(a)
         #         grid.add_field(fld)
 
-        if grd:
+        if grd is not None:
             if time is not None:
                 grd.time = time
             if topoattrs is not None:
-- 
2.43.0


From ca2fa665b892e174ba0d44a9963a40f718e31b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 113/175] fix: xdmf grids have the topology and geometry of
 their collection

---
 viscid/readers/xdmf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index d5c26fc..ab47b8f 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -145,7 +145,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         topoattrs = None
         if topology is not None:
             topoattrs = self._fill_attrs(topology)
-        elif parent_node and parent_node.topology_info:
+        elif parent_node is not None and parent_node.topology_info:
             topoattrs = parent_node.topology_info
 
         # parse geometry, or cascade parent grid's geometry
@@ -153,7 +153,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         geoattrs = None
         if geometry is not None:
             crds, geoattrs = self._parse_geometry(geometry, topoattrs)
-        elif parent_node and parent_node.geometry_info:
+        elif parent_node is not None and parent_node.geometry_info:
             geoattrs = parent_node.geometry_info
             crds = parent_node.crds  # this can be None and that's ok
 
@@ -164,7 +164,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             if tattrs["Type"] == "Single":
                 time = pt
         # cascade a parent grid's time
-        if time is None and parent_node and parent_node.time is not None:
+        if time is None and parent_node is not None:
             time = parent_node.time
 
         gt = attrs["GridType"]
@@ -187,6 +187,11 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 logger.warning("Unknown collection type %s, ignoring grid", ct)
                 return None
 
+            # these cascade to the subgrids
+            grd.topology_info = topoattrs
+            grd.geometry_info = geoattrs
+            grd.crds = crds
+
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
@@ -231,7 +236,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 grd.topology_info = topoattrs
             if geoattrs is not None:
                 grd.geometry_info = geoattrs
-            if crds is not None:
+            if crds is not None and gt == "Uniform":
                 grd.set_crds(crds)
 
             # EXPERIMENTAL AMR support, _last_amr_grid shouldn't be an attribute
-- 
2.43.0


From 9afae8ad12a85664ee4bc5ce78eb4a46cb4ddf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 114/175] fix: a file can be included more than once

---
 viscid/compat/_xdmf_include.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/compat/_xdmf_include.py b/viscid/compat/_xdmf_include.py
index 2217ce9..efecd3d 100644
--- a/viscid/compat/_xdmf_include.py
+++ b/viscid/compat/_xdmf_include.py
@@ -101,6 +101,7 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
 
                 # recursively look for xincludes in the included element
                 include(node, loader, href, _parent_hrefs)
+                _parent_hrefs.remove(href)
 
                 if e.tail:
                     node.tail = (node.tail or "") + e.tail
-- 
2.43.0


From ff9db865465b0da600d2150a4ffdb2101a85d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 115/175] fix: included files are found whatever their
 directory is called

---
 viscid/compat/_xdmf_include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viscid/compat/_xdmf_include.py b/viscid/compat/_xdmf_include.py
index efecd3d..c7d2019 100644
--- a/viscid/compat/_xdmf_include.py
+++ b/viscid/compat/_xdmf_include.py
@@ -4,6 +4,7 @@
 # limited support for XPointers.
 
 import copy
+import os
 from xml.etree import ElementTree
 try:
     from urlparse import urljoin  # pylint: disable=E0611
@@ -66,7 +67,12 @@ def include(elem, loader=None, base_url="./", _parent_hrefs=None):
         if e.tag == XINCLUDE_INCLUDE:
             # process xinclude directive
             href = e.get("href")
-            href = urljoin(base_url, href)
+            if "://" in base_url or "://" in href:
+                href = urljoin(base_url, href)
+            else:
+                # these are paths, so '#', '?', etc. have no special meaning
+                href = os.path.normpath(os.path.join(os.path.dirname(base_url),
+                                                     href))
             parse = e.get("parse", "xml")
             pointer = e.get("xpointer", None)
 
-- 
2.43.0


From a2dbab7e5c7a3dd243d620fa62cb926c321a2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 116/175] fix: durations keep the fractions of large numbers

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d2a6cbe..e9efdde 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -173,7 +173,7 @@ def _as_timedelta64_scalar(time, unit=None):
     elif isinstance(time, (int, float, np.integer, np.floating)):
         orig_time, orig_flt_unit = time, flt_unit
         unit_idx = TIME_UNITS.index(flt_unit)
-        while not np.isclose(time, int(np.round(time)), rtol=1e-4, atol=1e-18):
+        while not np.isclose(time, int(np.round(time)), rtol=1e-12, atol=1e-18):
             if unit_idx <= 0:
                 raise ValueError("Floating point time {0} [{1}] is too precise "
                                  "for any time unit?".format(orig_time, orig_flt_unit))
-- 
2.43.0


From 282164fc98830e7c6076bd897e0fbea913f152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 117/175] fix: as_isotime of an array gives the converted times

---
 viscid/npdatetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index e9efdde..4aede0f 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -235,7 +235,7 @@ def as_isotime(time):
         return ret[0]
     else:
         if isinstance(time, np.ndarray):
-            return np.array(time, dtype=time.dtype)
+            return np.array(ret)
         else:
             return ret
 
-- 
2.43.0


From 9f2e88c2a61ee0256db0dabf0cf851d8fb68cc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 118/175] fix: YYYY:MM:DD is a date, as the other forms
 as_isotime knows

---
 viscid/npdatetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 4aede0f..d8b68fb 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -130,14 +130,16 @@ def _is_timeunit(t):
 def _as_datetime64_scalar(time, unit=None):
     unit_args = [unit] if unit else []
 
-    if is_timedelta_like(time):
-        scalar = as_timedelta64(time, unit=unit).astype(_format_unit(None))
-    elif isinstance(time, string_types):
+    if isinstance(time, string_types):
         try:
             time = as_isotime(time)
         except (TypeError, ValueError):
-            pass  # Let ValueErrors happen in numpy constructors below
+            pass  # it may be a duration
 
+    if is_timedelta_like(time):
+        scalar = as_timedelta64(time, unit=unit).astype(_format_unit(None))
+    elif isinstance(time, string_types):
+        # Let ValueErrors happen in numpy constructors below
         if _is_timeunit(np.datetime64(time).dtype) and _NP_TZ:
             has_tz = bool(re.match(r".*([+-][0-9]{2,4}|Z)$", time))
             if not has_tz:
-- 
2.43.0


From e27b435d00ad961ce5a98681de70e9029c1c64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 119/175] fix: format_time 'hms' counts all hours of a duration

---
 viscid/npdatetime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index d8b68fb..19638ab 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -693,12 +693,17 @@ def format_time(time, fmt='.02f', basetime=None):
         if fmt.startswith('d'):
             days = int(as_timedelta64(dttime) / np.timedelta64(1, 'D'))
             if days == 1:
-                days_str = '{0} day'.format(days)
+                days_str = '{0} day '.format(days)
             else:
                 days_str = '{0} days '.format(days)
         else:
             days_str = ''
-        ret = datetime.strftime(dttime, days_str + '%H:%M:%S')
+        hours_str = '%H'
+        if not days_str and not is_datetime_like(time, conservative=True):
+            # durations can be longer than a day
+            hours = int(as_timedelta64(dttime) / np.timedelta64(1, 'h'))
+            hours_str = '{0:02d}'.format(hours)
+        ret = datetime.strftime(dttime, days_str + hours_str + ':%M:%S')
         if fmt.endswith('ss'):
             _tt = time_diff(dttime, basetime) / np.timedelta64(1, 's')
             ret += " ({0:06d})".format(int(_tt))
-- 
2.43.0


From 1ceb77ec602a22bcba16e781537fe77e789e6f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 120/175] fix: format_time carries rounded seconds and leaves
 other digits alone

---
 viscid/npdatetime.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 19638ab..fc1162e 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -714,23 +714,21 @@ def format_time(time, fmt='.02f', basetime=None):
         ret = "{0:{1}}".format(_tt, fmt.strip())
     else:
         if not fmt:
-            msec_fmt = ['1']
-            fmt = "%Y-%m-%d %H:%M:%S.%f"
-        else:
-            msec_fmt = re.findall(r"%\.?([0-9]*)f", fmt)
-            fmt = re.sub(r"%\.?([0-9]*)f", "%f", fmt)
-
-        tstr = datetime.strftime(dttime, fmt)
-
-        # now go back and for any %f -> [0-9]{6}, reformat the precision
-        it = list(izip(msec_fmt, re.finditer("[0-9]{6}", tstr)))
-        for ffmt, m in reversed(it):
-            a, b = m.span()
-            val = float("0." + tstr[a:b])
-            ifmt = int(ffmt) if len(ffmt) > 0 else 6
-            f = "{0:0.{1}f}".format(val, ifmt)[2:]
-            tstr = tstr[:a] + f + tstr[b:]
-        ret = tstr
+            fmt = "%Y-%m-%d %H:%M:%S.%1f"
+
+        # the precision of %f is not something strftime understands, so
+        # round to the most precise one, and put those digits in ourselves
+        _msec_re = r"%\.?([0-9]*)f"
+        digits = [int(n) if n else 6 for n in re.findall(_msec_re, fmt)]
+        if digits:
+            usec = int(round(dttime.microsecond, max(digits) - 6))
+            dttime = dttime.replace(microsecond=0) + timedelta(microseconds=usec)
+
+        def _fraction(m):
+            ifmt = int(m.group(1)) if m.group(1) else 6
+            return "{0:0.{1}f}".format(dttime.microsecond / 1e6, ifmt)[2:]
+
+        ret = datetime.strftime(dttime, re.sub(_msec_re, _fraction, fmt))
     return ret
 
 def _check_like(val, _np_types, _native_types, check_str=None):  # pylint: disable=too-many-return-statements
-- 
2.43.0


From 10ce35fe207a5256f41b69dcea76cba18da51dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 121/175] fix: time_sum and time_diff do not overflow at the
 precision they choose

---
 viscid/npdatetime.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index fc1162e..18696c7 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -545,6 +545,15 @@ def regularize_time(tlst, unit=None, most_precise=False, allow_rounding=True,
         else:
             return ret
 
+def _fits(a, b, op):
+    """True if op(a, b) fits in 64 bits of the unit of a and b"""
+    a, b = np.asarray(a), np.asarray(b)
+    val = op(a.astype('i8').astype('f8'), b.astype('i8').astype('f8'))
+    return np.all(np.isnat(a) | np.isnat(b) | (np.abs(val) < 2.0**63))
+
+def _coarser_unit(t):
+    return ORDERED_UNITS[ORDERED_UNITS.index(_get_unit(t)) + 1]
+
 def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
              allow0=True):
     """Add timedelta64 to datetime64 at highest precision w/o overflow
@@ -579,6 +588,10 @@ def time_sum(t0, tdelta, unit=None, most_precise=False, allow_rounding=True,
                                  most_precise=most_precise,
                                  allow_rounding=allow_rounding,
                                  allow0=allow0)
+    while allow_rounding and not _fits(t0, tdelta, np.add):
+        # each of them fits in this unit, but not their sum
+        t0, tdelta = regularize_time([t0, tdelta], unit=_coarser_unit(t0),
+                                     allow0=allow0)
     return t0 + tdelta
 
 def time_diff(t1, t2, unit=None, most_precise=False):
@@ -603,6 +616,9 @@ def time_diff(t1, t2, unit=None, most_precise=False):
     t1 = as_datetime64(t1)
     t2 = as_datetime64(t2)
     t1, t2 = regularize_time([t1, t2], unit=unit, most_precise=most_precise)
+    while not _fits(t1, t2, np.subtract):
+        # each of them fits in this unit, but not their difference
+        t1, t2 = regularize_time([t1, t2], unit=_coarser_unit(t1))
     return t1 - t2
 
 def is_valid_datetime64(arr, unit=None):
-- 
2.43.0


From 532aab28cb805cececbf1b5311a963d1f88e5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 122/175] fix: a place on the upper edge of an AMR field is in
 the patch that ends there

---
 viscid/amr_field.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 511c0fc..0d913ec 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -128,10 +128,10 @@ class AMRField(object):
                 all_xl_nc[:, idim] = -np.inf
                 all_xh_nc[:, idim] = np.inf
 
-        for i, fld in enumerate(self.patches):
+        for i in range(len(self.patches)):
             # - if xl - atol > the extent of the slice in any direction, then
             #   there's no overlap
-            # - if xh <= the lower corner of the slice in any direction, then
+            # - if xh < the lower corner of the slice in any direction, then
             #   there's no overlap
             # the atol and equals are done to match cases where extent overlaps
             # the lower corner, but not the upper corner
@@ -146,8 +146,10 @@ class AMRField(object):
             np.seterr(invalid='ignore')
             atol = 100 * np.finfo(xl_nc.dtype).eps
             if (not np.any(np.logical_or(xl_nc - atol > extent[1],
-                                         xh_nc <= extent[0]))):
-                if np.any(np.isclose(fld.crds.xh_nc, extent[0], atol=atol)):
+                                         xh_nc < extent[0]))):
+                # tolerances are for round off only, otherwise real hits
+                # close to the upper corner would be ignored
+                if np.any(np.isclose(xh_nc, extent[0], rtol=atol, atol=atol)):
                     maybe.append(i)
                 else:
                     inds.append(i)
-- 
2.43.0


From 3b92ab230a60e2702021d45007fdca4d4b6587fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 123/175] fix: component names select from AMR fields as from
 fields

---
 viscid/amr_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 0d913ec..2d9e452 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -105,7 +105,7 @@ class AMRField(object):
             raise ValueError("AMR field must contain patches to be slicable")
         sel_list, _ = self.patches[0]._prepare_slice(selection)
         try:
-            extent = self.patches[0]._src_crds.get_slice_extent(selection)
+            extent = self.patches[0]._src_crds.get_slice_extent(tuple(sel_list))
         except RuntimeError:
             raise RuntimeError("Slicing by global index is poorly defined "
                                "for AMR fields; selection = '{0}'"
-- 
2.43.0


From 24c9834a7714833428af8cd49a74430e7f411a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 124/175] fix: new axes have no part in the extent of a slice

---
 viscid/coordinate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 53b2e6b..582d174 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -598,6 +598,8 @@ class StructuredCrds(Coordinates):
         full_sel_info = sliceutil.fill_nd_sel_list(sel_list, self.axes)
         full_sel_list, full_ax_names, full_newdim_flags = full_sel_info
         std_sel_list = sliceutil.standardize_sel_list(full_sel_list)
+        std_sel_list = [sel for sel, newdim in zip(std_sel_list, full_newdim_flags)
+                        if not newdim]
 
         # # FIXME: std_sel_list to extent
         # extent = selection2values(None, std_sel_list)
-- 
2.43.0


From 67050fde3188f38c46df5e66dd19a61adccb61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 125/175] fix: mean, std and ptp of an AMR field are over all
 its values

---
 viscid/amr_field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 2d9e452..5db7b33 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -301,7 +301,11 @@ class AMRField(object):
 
         if np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
-            arr = np.array(lst)
+            if attrname in ("mean", "std", "ptp"):
+                # these do not follow from those of the patches
+                arr = np.concatenate([np.ravel(p.data) for p in self.patches])
+            else:
+                arr = np.array(lst)
             return getattr(arr, attrname)(**kwargs)
         else:
             return AMRField(lst, self.skeleton)
-- 
2.43.0


From 6d8f6d4dfe3a7d29c1419c45c3e1aeb5adae2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 126/175] fix: augmented assignment works for AMR fields as for
 fields

---
 viscid/amr_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 5db7b33..67a90b2 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -299,7 +299,9 @@ class AMRField(object):
                     other[j] = arg
             lst[i] = getattr(patch, attrname)(*other, **kwargs)
 
-        if np.asarray(lst[0]).size == 1:
+        if lst[0] is NotImplemented:
+            return NotImplemented
+        elif np.asarray(lst[0]).size == 1:
             # operation reduced to scalar
             if attrname in ("mean", "std", "ptp"):
                 # these do not follow from those of the patches
-- 
2.43.0


From b32e7460cbd357dd629bb3f8c52cb39a54d1330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 127/175] fix: an AMR skeleton is only reused for patches of
 the same extent

---
 viscid/amr_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..32462d4 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -135,11 +135,11 @@ class AMRSkeleton(object):
         for my_patch, grid in zip(self.patches, dset):
             if np.any(my_patch.n != grid.crds.shape_cc):
                 return False
-            if not np.allclose(my_patch.xl, grid.crds.xl_nc):
+            atol = 1e-6 * np.max(my_patch.L)
+            if not np.allclose(my_patch.xl, grid.crds.xl_nc, rtol=0.0, atol=atol):
+                return False
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc, rtol=0.0, atol=atol):
                 return False
-            # if n and xl match... do i need to check xh?
-            # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
-            #     return False
         # t1 = default_timer()
         # print(">> compatable   {0:g} secs".format(t1 - t0))
         return True
-- 
2.43.0


From 8397a820839db452668a3ec721558dfac783dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 128/175] fix: slice_reduce of an AMR field keeps patches at
 their coordinates

---
 viscid/amr_field.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/viscid/amr_field.py b/viscid/amr_field.py
index 67a90b2..722d1f0 100644
--- a/viscid/amr_field.py
+++ b/viscid/amr_field.py
@@ -233,8 +233,17 @@ class AMRField(object):
         fld_lst, _ = self._prepare_amr_slice(selection)
         if not isinstance(fld_lst, list):
             return fld_lst.slice_reduce(selection)
-        fld_lst = [fld.slice_reduce(selection) for fld in fld_lst]
-        return self._finalize_amr_slice(fld_lst)
+        ret = self._finalize_amr_slice([fld.slice(selection) for fld in fld_lst])
+        # only drop axes that are reduced in all patches, the rest would have
+        # to be put back without their coordinates
+        crds_lst = [patch.crds for patch in ret.patches]
+        reduced = [ax for ax in crds_lst[0].axes
+                   if all(len(c.get_crd(ax, center=p.center)) == 1
+                          for c, p in zip(crds_lst, ret.patches))]
+        if reduced:
+            slc = ','.join("{0}=0".format(ax) for ax in reduced)
+            ret = AMRField([patch.slice(slc) for patch in ret.patches], None)
+        return ret
 
     def slice_and_keep(self, selection):
         fld_lst, _ = self._prepare_amr_slice(selection)
-- 
2.43.0


From e1e0a2a855e4c7eddabdc76abc20d20c84d8f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:08 +0000
Subject: [PATCH 129/175] fix: an index remembered from another patch is no
 reason to read outside an array

---
 viscid/cython/cycalc.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index e7ae3d7..9a608e2 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -259,7 +259,9 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
     cdef real_t frac
     cdef int i, ind, found_ind
     cdef int n = fld.n[d]
-    cdef int startidx = cached_idx3[d]  # using fld.cached_ind is not threadsafe
+    # using fld.cached_ind is not threadsafe, also the cached index may come
+    # from a different (larger) patch of an AMR field
+    cdef int startidx = int_min(int_max(cached_idx3[d], 0), fld.nm1[d])
 
     if n == 1:
         ind = 0
-- 
2.43.0


From 4eded42f5741ea86c21a03322cee339ac54c0a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 130/175] fix: the first of January 1967 is the moment without
 dipole tilt

---
 viscid/cotr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 96c388e..883c5e4 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -124,11 +124,16 @@ _IGRF = np.array([[1950.0, -30554.00, -2250.00, 5815.00],
                   [2015.0, -29442.00, -1501.00, 4797.10]], dtype='f8')
 
 
+def _is_notilt1967(time):
+    """True if time is on 1 Jan 1967, OpenGGCM's special no-tilt time"""
+    day = as_datetime64(time).astype('datetime64[D]')
+    return bool(day == np.datetime64('1967-01-01', 'D'))
+
 def _igrf_interpolate(time, notilt1967=True):
     # get time as decimal year, note that epoch is completely arbitrary
     years = datetime64_as_years(time)
 
-    if notilt1967 and np.abs(years - 1967.0) < 0.0006:
+    if notilt1967 and _is_notilt1967(time):
         # OpenGGCM special no-tilt hack
         # g10, g11, h11 = np.linalg.norm(IGRF[0, 1:]), 0.0, 0.0
         g10, g11, h11 = -30554.00, 0.0, 0.0
@@ -442,8 +447,7 @@ class Cotr(object):
         self.h11 = h11
 
         self._disable_mag_crds = dip_tilt is not None or dip_gsm is not None
-        years = datetime64_as_years(time)
-        notilt = notilt1967 and np.abs(years - 1967.0) < 0.0006
+        notilt = notilt1967 and _is_notilt1967(time)
 
         # do i really want the self._disable_mag_crds part of this? what
         # if i want dip_gsm set by the time, and dip_tilt set by hand...
-- 
2.43.0


From 908c77347842d9ca42a2e00dfba5975b7789248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 131/175] fix: heliocentric transforms are refused, or the
 identity, as documented

---
 viscid/cotr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 883c5e4..cf8212e 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -357,7 +357,7 @@ class Cotr(object):
     # verify your favorite transformations and fix them or mark them as tested
     #
     GEOCENTRIC = ['gei', 'geo', 'gse', 'gsm', 'sm', 'mag', 'mhd']
-    HELIOCENTRIC = ['hea', 'hee', 'heeq']
+    HELIOCENTRIC = ['hae', 'hee', 'heeq']
     XFORM_LOOKUP = {"gei->gei": (0, ),  # identity
                     "geo->gei": (-1, ),
                     "gse->gei": (-2, ),
@@ -387,12 +387,12 @@ class Cotr(object):
                     "mhd->mag": (5, 1, -2, 6),
                     "mhd->mhd": (0, ),  # identity
                     # Heliocentric
-                    "hae->hae": (0),  # identity
-                    "hee->hae": (-11),
-                    "heeq->hae": (-12),
-                    "hee->hee": (0),  # identity
+                    "hae->hae": (0, ),  # identity
+                    "hee->hae": (-11, ),
+                    "heeq->hae": (-12, ),
+                    "hee->hee": (0, ),  # identity
                     # "heeq->hee": (0),  # <- unknown transform?
-                    "heeq->heeq": (0),  # identity
+                    "heeq->heeq": (0, ),  # identity
                    }
 
     def __init__(self, time='1967-01-01', dip_tilt=None, dip_gsm=None, rdim=3,
-- 
2.43.0


From 5ea07c0cd7e2a1158cd624907358a7c0dda9fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 132/175] fix: as_cotr turns a mapping into a Cotr

---
 viscid/cotr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index cf8212e..e95c917 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -73,6 +73,10 @@ Copyright (c) 2017 Kristofor Maynard
 # pylint: disable=bad-whitespace
 
 from __future__ import print_function, division
+try:
+    from collections.abc import Mapping
+except ImportError:
+    from collections import Mapping
 import sys
 
 import numpy as np
@@ -793,6 +797,8 @@ def as_cotr(thing=None, default=_NOT_GIVEN):
         cotr = Cotr(dip_tilt=0.0, dip_gsm=0.0)
     elif hasattr(thing, "__cotr__"):
         cotr = thing.__cotr__
+    elif isinstance(thing, Mapping):
+        cotr = Cotr(**thing)
     elif is_datetime_like(thing):
         cotr = Cotr(time=thing)
     else:
-- 
2.43.0


From 631fa3e9a76f6d5d4545a37f58c3e97bd0633fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 133/175] fix: dipole_moment2cotr gives back the moment it was
 made from

---
 viscid/cotr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index e95c917..f34ab97 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -902,7 +902,8 @@ def dipole_moment2cotr(m, crd_system='gse'):
     """
     if as_crd_system(crd_system) not in ('gse', 'mhd'):
         raise ValueError('bad crd_system: {0}'.format(crd_system))
-    m = Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
+    # the dipole moment points southward, and the angles are those of north
+    m = -Cotr(dip_tilt=0.0, dip_gsm=0.0).transform(crd_system, 'gse', m)
     gsm = np.rad2deg(np.arctan2(m[1], m[2]))
     tilt = np.rad2deg(np.arctan2(m[0], np.linalg.norm(m[1:])))
     return Cotr(dip_tilt=tilt, dip_gsm=gsm)
-- 
2.43.0


From 8d82cb915ee1eef862552f340539d14eef5d8003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 134/175] fix: make_rotation refuses a bad axis for a rotation
 by zero

---
 viscid/cotr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index f34ab97..8737bc5 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -206,9 +206,7 @@ def make_rotation(theta, axis='z', rdim=3):
     sinT = np.sin(theta_rad)
     cosT = np.cos(theta_rad)
 
-    if theta == 0.0:
-        mat = np.eye(rdim)
-    elif axis in ('x', 0):
+    if axis in ('x', 0):
         mat = np.array([[  1.0,   0.0,   0.0, 0.0],
                         [  0.0,  cosT,  sinT, 0.0],
                         [  0.0, -sinT,  cosT, 0.0],
-- 
2.43.0


From c431cec21825c45aff0a470c0ee53544e7885417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 135/175] fix: datetime64_as_years works for times close to
 1970

---
 viscid/npdatetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viscid/npdatetime.py b/viscid/npdatetime.py
index 18696c7..b21e0c7 100644
--- a/viscid/npdatetime.py
+++ b/viscid/npdatetime.py
@@ -783,8 +783,9 @@ def datetime64_as_years(time):
     time = as_datetime64(time)
     epoch_year = 1970
     epoch = as_datetime64("{0}-01-01T00:00:00.0".format(epoch_year))
-    tdelta = time_diff(time, epoch, most_precise=True)
-    years = tdelta / np.timedelta64(1, 'D') / 365.242 + epoch_year
+    tdelta = time_diff(time, epoch)
+    days = as_timedelta(tdelta).total_seconds() / (24 * 3600)
+    years = days / 365.242 + epoch_year
     return years
 
 def is_datetime_like(val, conservative=False):  # pylint: disable=unused-argument
-- 
2.43.0


From 10ce92f693247e1806c8d5955d97cf9834397041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:27 +0000
Subject: [PATCH 136/175] fix: rotation angles close to 0 and 180 degrees are
 not nan

---
 viscid/cotr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cotr.py b/viscid/cotr.py
index 8737bc5..dd26af6 100644
--- a/viscid/cotr.py
+++ b/viscid/cotr.py
@@ -290,7 +290,7 @@ def get_rotation_wxyz(mat, check_inverse=True, quick=True):
     # rotate `b1` and then find the angle between result (`b2`) at `b1`
     b2 = np.dot(mat, b1)
     b2 = b2 / np.linalg.norm(b2)  # minimize effect of roundoff error
-    angleB = np.rad2deg(np.arccos(np.dot(b1, b2)))
+    angleB = np.rad2deg(np.arccos(np.clip(np.dot(b1, b2), -1.0, 1.0)))
 
     # fix sign of `u` to make the rotation angle right handed, note that
     # the angle will always be positive due to range or np.arccos
-- 
2.43.0


From a1f4acdae053ca0e1f1293a9eeb6dacec7b6db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 137/175] fix: angles of points are converted in floating
 point, to degrees too

---
 viscid/mapfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 0c5f916..74d6d34 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -339,6 +339,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
     hemisphere = hemisphere.strip().lower()
 
     pts = np.array(pts)
+    if pts.dtype.kind not in 'fc':
+        pts = pts.astype('f8')
     pts_axes = list(pts_axes)
 
     # convert pts to lat/lon
@@ -376,6 +378,8 @@ def pts2polar_mapfield(pts, pts_axes, pts_unit='deg', hemisphere='north'):
 def _as_3xN(arr, d=3):
     """return a copy of arr as a 3xN array"""
     arr = np.array(arr)
+    if arr.dtype.kind not in 'fc':
+        arr = arr.astype('f8')
     was_single_point = arr.shape == (d, )
     arr = arr.reshape((d, -1))
     return arr, was_single_point
@@ -397,7 +401,7 @@ def cart2sph(arr, deg=False):
     ret[1, :] = np.arccos(arr[2, :] / ret[0, :])
     ret[2, :] = np.arctan2(arr[1, :], arr[0, :])
     if deg:
-        arr[1:] *= 180.0 / np.pi
+        ret[1:] *= 180.0 / np.pi
     if was_single_point:
         return ret[:, 0]
     else:
-- 
2.43.0


From 25e3e8f07890fa211e9f84fc2f922185aaf15ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 138/175] fix: converting spherical fields keeps the unit of
 their axes

---
 viscid/mapfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 74d6d34..b22aa97 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -53,7 +53,7 @@ def fld_noop(fld, base, target, unit=''):
 def _prep_units(order, units='', fld=None):
     if not isinstance(units, (list, tuple)):
         units = [units] * len(order)
-    units += [None] * (len(units) - len(order))
+    units = list(units) + [None] * (len(order) - len(units))
     units = ['' if u is None else u.strip() for u in units]
     if fld is not None:
         crds = fld.crds
@@ -111,6 +111,7 @@ def fld_phi2lon(fld, base='phi', target='lon', unit='deg'):
 
 def fld_theta2lat(fld, base='theta', target='lat', unit='deg'):
     _, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: theta2lat(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
@@ -124,6 +125,7 @@ def fld_lon2phi(fld, base='lon', target='phi', unit='deg'):
 
 def fld_lat2theta(fld, base='lat', target='theta', unit='deg'):
     dcrd, ddat = _get_axinds(fld, base)
+    unit = unit if unit else fld.crds.get_unit(base)
     crd_xform = lambda x: lat2theta(x, unit=unit)[::-1]
     dslc = [slice(None)] * fld.nr_dims
     dslc[ddat] = slice(None, None, -1)
-- 
2.43.0


From 109e14e22fea23336f6e4b60d01166c7187f04ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 139/175] fix: converting a flat vector field does not reorder
 its components

---
 viscid/mapfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index b22aa97..78359c7 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -76,7 +76,7 @@ def _make_transform_unit_func(base_unit, target_unit):
 
 def _get_axinds(fld, ax):
     dcrd = fld.crds.ind(ax)
-    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp < dcrd else dcrd
+    ddat = dcrd + 1 if fld.nr_comps and fld.nr_comp <= dcrd else dcrd
     return dcrd, ddat
 
 def _fld_xform_common(fld, base, target, unit, crd_xform, dat_xform, raw=False):
-- 
2.43.0


From 7f2fcfe48399d66630fa5c69062d4e425d37c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 140/175] fix: spherical fields with other axes too can be
 converted

---
 viscid/mapfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 78359c7..cb6b470 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -175,6 +175,10 @@ def convert_coordinates(fld, order, crd_mapping, units=''):
                 raise RuntimeError("no mapping found to go {0} -> {1}"
                                    "".format(base_axes, target))
 
+    for ax in order:
+        if ax not in _mapping:
+            _mapping[ax] = dict(base=ax, base2target=fld_noop)
+
     bases_target_order = [_mapping[ax]['base'] for ax in order]
     transforms = [_mapping[ax]['base2target'] for ax in order]
     units = _prep_units(order, units=units)
-- 
2.43.0


From 2d84b3d0d847dbf6ec6639a893c50c985611d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 141/175] fix: bounding_lat of a polar map is measured from the
 pole

---
 viscid/mapfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index cb6b470..827ff04 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -249,7 +249,7 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     # set a sensible default for bounding_lat... full spheres get cut off
     # at 40 deg, but hemispheres or smaller are shown in full
     if bounding_lat is None:
-        if abs(mfld.xh[1] - mfld.xl[1]) >= 1.01 * np.pi:
+        if abs(mfld.xh[1] - mfld.xl[1]) >= 1.01 * np.pi / 2:
             bounding_lat = 40.0
         else:
             bounding_lat = 90.0
@@ -258,14 +258,14 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
     abs_bounding_lat = abs(bounding_lat)
 
     if hemisphere in ("north", 'n'):
-        if np.all(mfld.get_crd('lat') < abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') < np.pi / 2 - abs_bounding_lat):
             raise ValueError("fld {0} contains no values north of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
         # mfld = mfld["lat=:{0}j:-1".format(abs_bounding_lat)]
         mfld = mfld.loc[:, :np.pi / 2 - abs_bounding_lat:-1]
     elif hemisphere in ("south", 's'):
-        if np.all(mfld.get_crd('lat') > -abs_bounding_lat):
+        if np.all(mfld.get_crd('lat') > -np.pi / 2 + abs_bounding_lat):
             raise ValueError("fld {0} contains no values south of bounding lat "
                              "{1:g} deg"
                              "".format(fld.name, bounding_lat * 180 / np.pi))
-- 
2.43.0


From d9bcd59998aefc71e04723801d3302e99d967cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 142/175] fix: a polar map made periodic repeats its first
 meridian

---
 viscid/mapfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 827ff04..592c718 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -293,7 +293,8 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
 
         if phi_diff < 2 * np.pi - 1e-5:
             if mfld.crds.is_uniform():
-                clist[0][1][1] += phi_diff / clist[0][1][2]
+                clist[0][1][1] += phi_diff / (clist[0][1][2] - 1)
+                clist[0][1][2] += 1
                 if not np.isclose(clist[0][1][1] - clist[0][1][0], 2 * np.pi):
                     viscid.logger.warning("Tried unsuccessfully to make uniform "
                                           "polar mapfield periodic: {0:g}"
@@ -301,7 +302,9 @@ def as_polar_mapfield(fld, bounding_lat=None, hemisphere='north',
             else:
                 clist[0][1] = np.concatenate([clist[0][1],
                                               [clist[0][1][0] + 2 * np.pi]])
-            mfld_dat = np.concatenate([mfld_dat, mfld_dat[0:1, :]], axis=0)
+            _, dlon = _get_axinds(mfld, 'lon')
+            mfld_dat = np.concatenate([mfld_dat, mfld_dat.take([0], axis=dlon)],
+                                      axis=dlon)
 
     crds = wrap_crds(mfld.crds.crdtype, clist, dtype=mfld.crds.dtype)
     ctx = dict(crds=crds)
-- 
2.43.0


From 52d4fe7667febb74ee89f0b012c345d4e48559e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 143/175] fix: great circles between colinear points start and
 end there

---
 viscid/mapfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/mapfield.py b/viscid/mapfield.py
index 592c718..3294fb9 100644
--- a/viscid/mapfield.py
+++ b/viscid/mapfield.py
@@ -517,6 +517,9 @@ def great_circle(p1, p2, origin=(0, 0, 0), n=32):
         pole = np.array([0, -1, 0])
         if np.isclose(np.linalg.norm(np.cross(pole, p1)), 0.0):
             pole = np.array([0, 0, -1])
+        # the pole has to be perpendicular to p1
+        pole = np.cross(np.cross(p1, pole), p1)
+        pole = pole / np.linalg.norm(pole)
 
     matBtoA = viscid.a2b_rot([0, 0, 1], pole, new_x=p1)
 
-- 
2.43.0


From 04c20506335f28d9293dbdb6d9ba1b408cb6ff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:40 +0000
Subject: [PATCH 144/175] fix: calc_dip of several points, and of points given
 as integers

---
 viscid/dipole.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 7bceee6..77bca56 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -165,6 +165,9 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
         ndarray: Nx3 dipole field vectors for N points
     """
     pts = np.asarray(pts, dtype=dtype)
+    if pts.dtype.kind != 'f':
+        pts = pts.astype('f8')
+        dtype = pts.dtype
     if len(pts.shape) == 1:
         pts = pts.reshape(1, 3)
         single_pt = True
@@ -191,12 +194,12 @@ def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
     # Note: this is almost the same as fill_dipole, but all components
     #       are calculated simultaneously, and so this uses more memory
     if _HAS_NUMEXPR:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = pts.T.reshape(3, -1, 1)
         rsq = ne.evaluate("_X**2 + _Y**2 + _Z**2")  # pylint: disable=W0612
         mdotr = ne.evaluate("mx * _X + my * _Y + mz * _Z")  # pylint: disable=W0612
         Bdip = ne.evaluate("((three * pts * mdotr / rsq) - m) / rsq**1.5")
     else:
-        _X, _Y, _Z = pts.T
+        _X, _Y, _Z = pts.T.reshape(3, -1, 1)
         rsq = _X**2 + _Y**2 + _Z**2
         mdotr = mx * _X + my * _Y + mz * _Z
         Bdip = ((three * pts * mdotr / rsq) - m) / rsq**1.5
-- 
2.43.0


From e861768c3e5c789b26e5497b9ee3273713d64e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 145/175] fix: fill_dipole and set_in_region with a mask of a
 vector field

---
 viscid/dipole.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 77bca56..6d712a4 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -18,6 +18,18 @@ except ImportError:
     _HAS_NUMEXPR = False
 
 
+def _choose(mask, fld, outside, inside):
+    """pick from the data of fld's shape by a mask with or without components"""
+    if isinstance(mask, field.Field):
+        if mask.nr_comps:
+            mask = mask.as_centered(fld.center).as_layout(fld.layout).data
+        else:
+            mask = mask.data
+    mask = np.asarray(mask).astype('bool')
+    if fld.nr_comps and len(mask.shape) < len(fld.shape):
+        mask = np.expand_dims(mask, fld.nr_comp)
+    return np.where(mask, inside, outside)
+
 __all__ = ['guess_dipole_moment', 'make_dipole', 'fill_dipole', 'calc_dip',
            'set_in_region', 'make_spherical_mask', 'xyz2lsrlp', 'dipole_map',
            'dipole_map_value']
@@ -99,7 +111,7 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
         Field: B
     """
     # FIXME: should really be taking the curl of a vector field
-    if mask:
+    if mask is not None:
         Bdip = field.empty_like(B)
     else:
         Bdip = B
@@ -141,8 +153,8 @@ def fill_dipole(B, m=(0, 0, -DEFAULT_STRENGTH), strength=None, mask=None):
             mdotr = mx * _X + my * _Y + mz * _Z
             Bdip[cn] = ((three * _XI * mdotr / rsq) - _mi) / rsq**1.5
 
-    if mask:
-        B.data[...] = np.choose(mask.astype('i'), [B, Bdip])
+    if mask is not None:
+        B.data[...] = _choose(mask, B, B.data, Bdip.data)
     return B
 
 def calc_dip(pts, m=(0, 0, -DEFAULT_STRENGTH), strength=None, crd_system='gse',
@@ -229,13 +241,7 @@ def set_in_region(a, b, alpha=1.0, beta=1.0, mask=None, out=None):
     if mask is None:
         out.data[...] = vals
     else:
-        if hasattr(mask, "nr_comps") and mask.nr_comps:
-            mask = mask.as_centered(a.center).as_layout(a.layout)
-        try:
-            out.data[...] = np.choose(mask, [out.data, vals])
-        except ValueError:
-            out.data[...] = np.choose(mask.data.reshape(list(mask.sshape) + [1]),
-                                      [out.data, vals])
+        out.data[...] = _choose(mask, out, out.data, vals)
     return out
 
 def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
-- 
2.43.0


From aa6427942662f4431775a26705953ea165c5f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 146/175] fix: make_spherical_mask of face and edge centered
 fields

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 6d712a4..60c733c 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -258,7 +258,7 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
             rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
-            mask[_slc] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
+            mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
         rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
-- 
2.43.0


From 6b2c65a83f4d10c9ed198b935bbe39239f023989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 147/175] fix: make_spherical_mask of fields that are one cell
 thick

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 60c733c..383e316 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -255,13 +255,13 @@ def make_spherical_mask(fld, rmin=0.0, rmax=None, rsq=None):
         _crd_lst = [[_x, _y, _z] for _x, _y, _z in zip(Xv, Yv, Zv)]
         # csq = [c**2 for c in fld.get_crds_vector(shaped=True)]
         for i in range(3):
-            rsq = np.sum([c**2 for c in _crd_lst[i]], axis=0)
+            rsq = sum(c**2 for c in _crd_lst[i])
             _slc = [slice(None)] * len(fld.shape)
             _slc[fld.nr_comp] = i
             mask[tuple(_slc)] = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         return fld.wrap_field(mask, dtype='bool')
     else:
-        rsq = np.sum([c**2 for c in fld.get_crds(shaped=True)], axis=0)
+        rsq = sum(c**2 for c in fld.get_crds(shaped=True))
         mask = np.bitwise_and(rsq >= rmin**2, rsq < rmax**2)
         if fld.nr_comps:
             fld = fld['x']
-- 
2.43.0


From fb4c51395a5070cd54a80fcb7cb104acf0e94954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 148/175] fix: dipole_map of points on the magnetic equator

---
 viscid/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 383e316..1f73076 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -341,7 +341,7 @@ def dipole_map(pts, r=1.0, cotr=None, crd_system='gse', as_spherical=False):
     rlp_mapped = np.empty_like(lsrlp[1:, :])
     rlp_mapped[0, :] = r
     # root is determined by sign of latitude in sm?
-    root = np.sign(lsrlp[2:3, :])
+    root = np.where(lsrlp[2:3, :] < 0.0, -1.0, 1.0)
     rlp_mapped[1, :] = root * np.arccos(np.sqrt(r / lsrlp[0:1, :]))
     rlp_mapped[2, :] = lsrlp[3:4, :]
     del lsrlp
-- 
2.43.0


From 6a39c041c767a93e544beccf721e6db59f62c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:41 +0000
Subject: [PATCH 149/175] fix: dipole_map_value of fields in cartesian
 coordinates

---
 viscid/dipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/dipole.py b/viscid/dipole.py
index 1f73076..9ff4f3e 100644
--- a/viscid/dipole.py
+++ b/viscid/dipole.py
@@ -375,7 +375,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     if crd_system is None:
         crd_system = viscid.as_crd_system(fld, 'gse')
 
-    if fld.is_spherical:
+    if fld.is_spherical():
         # TODO: verify that crd_system works as expected for ionosphere
         #       fields (ie, meaning of +x and phi = 0)
         fld = viscid.as_spherefield(fld, order=('theta', 'phi'))['r=newaxis, ...']
@@ -385,7 +385,7 @@ def dipole_map_value(fld, pts, r=1.0, fillna=None, cotr=None,
     # pts should be shaped 3xNX*NY*NZ or similar such that the points
     # are in the same order as the flattened c-contiguous array
     mapped_pts = dipole_map(pts, r=r, cotr=cotr, crd_system=crd_system,
-                            as_spherical=fld.is_spherical)
+                            as_spherical=fld.is_spherical())
     ret = viscid.interp(fld, mapped_pts, kind=interp_kind, wrap=False)
     if fillna is not None:
         ret[np.isnan(ret)] = fillna
-- 
2.43.0


From 92bdd01e47545dcb92285ba5a5620299da55f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 150/175] fix: file name slices may leave out the stop and
 still step

---
 viscid/vutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..af75e71 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -556,7 +556,7 @@ def slice_globbed_filenames(glob_pattern):
     dtime_re = sliceutil.RE_DTIME_SLC_GROUP
     number_re = r"[-+]?[0-9]*\.?[0-9]+[fjFJ]?|[-+]?[0-9+]"
     el_re = r"(?:{0}|{1})".format(dtime_re, number_re)
-    slc_re = r"\[({0})?(:({0}))?(:[-+]?[0-9]*)?\]".format(el_re)
+    slc_re = r"\[({0})?(:({0})?)?(:[-+]?[0-9]*)?\]".format(el_re)
     n_slices = len(re.findall(slc_re, glob_pattern))
 
     if n_slices > 1:
-- 
2.43.0


From 9876f30f92dfe6148415429d87e566ea677f09ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 151/175] fix: file name slices with a negative step give the
 files backward

---
 viscid/vutil.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index af75e71..364e6c4 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -600,8 +600,7 @@ def slice_globbed_filenames(glob_pattern):
         slc = slice(None)
 
     idx_whitelist = np.asarray(np.arange(len(fnames))[slc]).reshape(-1)
-    culled_fnames = [s for i, s in enumerate(fnames)
-                     if i in idx_whitelist]
+    culled_fnames = [fnames[i] for i in idx_whitelist]
 
     return culled_fnames
 
-- 
2.43.0


From 2b62017517e79b5faf918bea8a6de5f7e3f6ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 152/175] fix: a file type's own name means that type, not one
 of its subclasses

---
 viscid/readers/vfile.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index 8105aea..d15eea0 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -281,19 +281,18 @@ class VFile(Dataset):
         if _idx >= 0:
             ftype = ftype[:_idx] + ftype[_idx + len('file'):]
 
-        for filetype in reversed(cls.__subclasses__()):  # pylint: disable=E1101
-            td = filetype.resolve_type(ftype)
-            if td:
-                return td
-
-        cls_name = cls.__name__.lower()
-        _idx = cls_name.find('file')
-        if _idx >= 0:
-            cls_name = cls_name[:_idx] + cls_name[_idx + len('file'):]
-
-        if ftype in cls_name:
-            return cls
-        return None
+        partial_match = None
+        for filetype in serialize_subclasses(cls):
+            cls_name = filetype.__name__.replace('_', '').lower()
+            _idx = cls_name.find('file')
+            if _idx >= 0:
+                cls_name = cls_name[:_idx] + cls_name[_idx + len('file'):]
+
+            if ftype == cls_name:
+                return filetype
+            if partial_match is None and ftype in cls_name:
+                partial_match = filetype
+        return partial_match
 
     @classmethod
     def group_fnames(cls, fnames):
-- 
2.43.0


From 0634ca02dc353962f58eb53ed7ce12364a05d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 153/175] fix: ggcm xdmf files whose data is all inline can be
 opened

---
 viscid/readers/ggcm_xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/ggcm_xdmf.py b/viscid/readers/ggcm_xdmf.py
index 669da9e..367a4b1 100644
--- a/viscid/readers/ggcm_xdmf.py
+++ b/viscid/readers/ggcm_xdmf.py
@@ -104,7 +104,7 @@ class GGCMFileXDMF(openggcm.GGCMFile, xdmf.FileXDMF):  # pylint: disable=abstrac
             try:
                 timestr = self._child_files[0].find_item('openggcm*/time_str')
                 basetime, _ = self.parse_timestring(timestr.decode())
-            except (KeyError, ValueError):
+            except (IndexError, KeyError, ValueError):
                 # if no basetime found, then use the special no dip tilt time
                 # this is a selfish hack in that old files that I saved
                 # will usually use this as basetime
-- 
2.43.0


From 48ccfd4163fb58c067bd9f81d7ef64611d667389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 154/175] fix: collections of athena xdmf files have each time
 step once

---
 viscid/readers/athena_xdmf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/athena_xdmf.py b/viscid/readers/athena_xdmf.py
index 7f221fc..5d0182d 100644
--- a/viscid/readers/athena_xdmf.py
+++ b/viscid/readers/athena_xdmf.py
@@ -44,9 +44,8 @@ class AthenaFileXDMF(athena.AthenaFile, xdmf.FileXDMF):  # pylint: disable=abstr
                                                name="AthenaXDMFTemporalCollection")
 
             for fname in self._collection:
-                grids = self._parse_file(fname, data_temporal)
-                for _grid in grids:
-                    data_temporal.add(_grid)
+                # this adds the file's grids to data_temporal
+                self._parse_file(fname, data_temporal)
             data_temporal.activate(0)
             self.add(data_temporal)
             self.activate(0)
-- 
2.43.0


From 0bb645b7f977aea227df9a463b021071fdcc043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 155/175] fix: athena tab files may have axes with one cell

---
 viscid/readers/athena_tab.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index af7f3e4..bca9dce 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -159,10 +159,14 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
             stop = int(np.prod(dims[:i + 1]))
             step = int(np.prod(dims[:i]))
             cc = dat[i][:stop:step]
-            dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
+            if len(cc) > 1:
+                dxmin = np.min([dxmin, np.min(cc[1:] - cc[:-1])])
             assert len(cc) == dim
             cclist.append((axis, cc))
 
+        if not np.isfinite(dxmin):
+            dxmin = 1.0
+
         for axis, cc in cclist:
             if len(cc) > 1:
                 hd = 0.5 * (cc[1:] - cc[:-1])
-- 
2.43.0


From 00eccb02cd4b748974468a0b07c97fdee2c13a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:07 +0000
Subject: [PATCH 156/175] fix: loading some other files of a collection does
 not return the old collection

---
 viscid/readers/vfile_bucket.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index a51c73b..29dd1f1 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -117,6 +117,11 @@ class VFileBucket(Bucket):
 
                 try:
                     f = self[handle_name]
+                    if (isinstance(group, (list, tuple)) and len(group) > 1
+                            and getattr(f, '_collection', None) != group):
+                        # the same collection, but of different files
+                        f = None
+                        raise KeyError(handle_name)
                     if force_reload:
                         f.reload()
                 except KeyError:
-- 
2.43.0


From 9861cc582fc6d17c5aecd1669d7e669fd9098dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 157/175] fix: Gkeyll yy and zz pressures use their own
 momenta, not x

---
 viscid/readers/gkeyll.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index 3a9099b..a567cad 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -104,13 +104,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_e
 
     def _get_Pyy_e(self):
-        Pyy_e = self['pyy_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pyy_e = self['pyy_e'] - self['rhouy_e']*self['rhouy_e'] / self['rho_e']
         Pyy_e.name = 'Pyy_e'
         Pyy_e.pretty_name = r'$P_{yy,e}$'
         return Pyy_e
 
     def _get_Pzz_e(self):
-        Pzz_e = self['pzz_e'] - self['rhoux_e']*self['rhoux_e'] / self['rho_e']
+        Pzz_e = self['pzz_e'] - self['rhouz_e']*self['rhouz_e'] / self['rho_e']
         Pzz_e.name = 'Pzz_e'
         Pzz_e.pretty_name = r'$P_{zz,e}$'
         return Pzz_e
@@ -158,13 +158,13 @@ class GkeyllGrid(grid.Grid):
         return Pxx_i
 
     def _get_Pyy_i(self):
-        Pyy_i = self['pyy_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pyy_i = self['pyy_i'] - self['rhouy_i']*self['rhouy_i'] / self['rho_i']
         Pyy_i.name = 'Pyy_i'
         Pyy_i.pretty_name = r'$P_{yy,i}$'
         return Pyy_i
 
     def _get_Pzz_i(self):
-        Pzz_i = self['pzz_i'] - self['rhoux_i']*self['rhoux_i'] / self['rho_i']
+        Pzz_i = self['pzz_i'] - self['rhouz_i']*self['rhouz_i'] / self['rho_i']
         Pzz_i.name = 'Pzz_i'
         Pzz_i.pretty_name = r'$P_{zz,i}$'
         return Pzz_i
-- 
2.43.0


From 6493c31e0f94d95ee4bd6cb81a1cc87fd9cdf212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 158/175] fix: Athena's vz is called vz, not bz

---
 viscid/readers/athena.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena.py b/viscid/readers/athena.py
index 08684e0..e27829a 100644
--- a/viscid/readers/athena.py
+++ b/viscid/readers/athena.py
@@ -117,7 +117,7 @@ class AthenaGrid(grid.Grid):
             f = self['V3']
         except KeyError:
             f = self['M3'] / self['d']
-        f.name = "bz"
+        f.name = "vz"
         f.pretty_name = "$V_z$"
         return f
 
-- 
2.43.0


From 62981940148f017a60513459ca4b656ee6dbb8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 159/175] fix: ascii tables of one row or one column load

---
 viscid/readers/ascii.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/ascii.py b/viscid/readers/ascii.py
index 474a25d..981c72d 100644
--- a/viscid/readers/ascii.py
+++ b/viscid/readers/ascii.py
@@ -28,7 +28,7 @@ class FileASCII(vfile.VFile):  # pylint: disable=W0223
     def _parse(self):
         g = self._make_grid(self)
 
-        arr = np.loadtxt(self.fname)
+        arr = np.loadtxt(self.fname, ndmin=2)
         crds = coordinate.wrap_crds("nonuniform_cartesian", [['x', arr[:, 0]]])
         g.set_crds(crds)
 
-- 
2.43.0


From 27072345bad65246a378b0ccc419b28ba92eaacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 160/175] fix: nda fields of more than one dimension take their
 grid's shape

---
 viscid/readers/ascii.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/readers/ascii.py b/viscid/readers/ascii.py
index 981c72d..970e858 100644
--- a/viscid/readers/ascii.py
+++ b/viscid/readers/ascii.py
@@ -81,6 +81,7 @@ class FileNDASCII(vfile.VFile):  # pylint: disable=W0223
                 fld_name, fld_dtype = fin.readline().strip().split()
                 fld_dat = np.fromstring(fin.readline().strip(), sep=' ',
                                         dtype=fld_dtype)
+                fld_dat = fld_dat.reshape(crds.shape_nc)
                 fld = self._make_field(g, "Scalar", fld_name, crds,
                                        fld_dat)
                 g.add_field(fld)
-- 
2.43.0


From a2ac41e5cbd81c2c5485f0d1e942d9476df89102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 161/175] fix: times written with an exponent are read whole
 from Athena tables

---
 viscid/readers/athena_tab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index bca9dce..1406039 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -126,7 +126,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                 if line.startswith('Nx'):
                     dims.append(int(line.split('=')[1]))
                 if "Time" in line:
-                    t = re.search(r"Time\s*=\s*([0-9\.]+)", line).groups()[0]
+                    t = re.search(r"Time\s*=\s*([0-9\.]+(?:[eE][-+]?[0-9]+)?)", line).groups()[0]
                 # il y a level & domain for SMR outptut, but i'm ignoring them
 
                 fns = re.split(r"\[[0-9]+\]=", line)
-- 
2.43.0


From 913eec30bc50e68f43fc82e8845bba4a842749b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 162/175] fix: an Athena binary dump of a single cell has a
 finite cell

---
 viscid/readers/athena_bin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 3f9a2a8..f5303f0 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -151,6 +151,8 @@ class AthenaBinFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
             for c in crd_clist:
                 if len(c[1]) > 1:
                     dxmin = np.min([dxmin, np.min(c[1][1:] - c[1][:-1])])
+            if not np.isfinite(dxmin):
+                dxmin = 1.0
             for i, cli in enumerate(crd_clist):
                 cc = cli[1]
                 try:
-- 
2.43.0


From 09686e089532eb70395c38a0d85b4138df5d1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 163/175] fix: asking OpenGGCM data for a vector that was not
 stored is a KeyError, not endless recursion

---
 viscid/readers/openggcm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 3d2207b..c29d99e 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -402,6 +402,10 @@ class GGCMGrid(grid.Grid):
                          forget_source=False, **kwargs):
         opts = dict(forget_source=forget_source, **kwargs)
         # caching behavior depends on self.longterm_field_caches
+        if (base_name in ("b", "v") and not suffix and base_name not in self and
+                not all(base_name + c in self for c in comp_names)):
+            # these components would be taken from the vector being assembled
+            raise KeyError(base_name)
         comps = [self[base_name + c + suffix] for c in comp_names]
         return field.scalar_fields_to_vector(comps, name=base_name, **opts)
 
-- 
2.43.0


From ed0de47ec62c98c65f87c1146b021a07c6733191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 164/175] fix: coordinates already asked for are worked out
 again when they are reflected

---
 viscid/coordinate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 582d174..8589cae 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -373,6 +373,7 @@ class StructuredCrds(Coordinates):
         if not val:
             val = []
         self._reflect_axes = val
+        self._Pcrds = None
 
     @property
     def _crds(self):
-- 
2.43.0


From 8286c4467b1624f908a68c18133f494f7db25548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 165/175] fix: comment marks, quotes and commas inside json
 strings are left alone

---
 viscid/vjson.py | 66 ++++++++++++++++++++++---------------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/viscid/vjson.py b/viscid/vjson.py
index c83678c..8527cc7 100644
--- a/viscid/vjson.py
+++ b/viscid/vjson.py
@@ -73,42 +73,36 @@ def loads(text, **kwargs):
         text: json as a string
         **kwargs: passed to Python's :py:func:`json.loads`
     """
-    lines = text.split('\n')
-
-    last_nonempty = -1
-    for i in range(len(lines)):
-        # remove comments
-        for loc in find_all(lines[i], ('#', '//')):
-            # if there are an odd number of single or double quotes, then
-            # the comment char is part of a string, and should be kept
-            if (lines[i].count('"', 0, loc) % 2 == 0 and
-                lines[i].count("'", 0, loc) % 2 == 0):  # pylint: disable=bad-continuation
-                lines[i] = lines[i][:loc]
-                break
-
-        lines[i] = lines[i].rstrip()
-
-        # trailing comma?
-        if lines[i]:
-            remove_at = []
-            for loc in find_all(lines[i], ('}', ']')):
-                preceeding_txt = lines[i][:loc].rstrip()
-                # if no preceeding_txt on same line, check last_nonwhite
-                if not preceeding_txt:
-                    if last_nonempty > -1:
-                        if lines[last_nonempty][-1] == ',':
-                            lines[last_nonempty] = lines[last_nonempty][:-1]
-                else:
-                    if preceeding_txt[-1] == ',':
-                        remove_at.append(len(preceeding_txt) - 1)
-            for j, loc in enumerate(remove_at):
-                loc -= j
-                lines[i] = lines[i][:loc] + lines[i][loc + 1:]
-
-            if lines[i]:
-                last_nonempty = i
-
-    return _json.loads('\n'.join(lines), **kwargs)
+    out = []
+    comma = -1  # where in out is the last comma, if nothing came after it
+    i = 0
+    while i < len(text):
+        c = text[i]
+        if c == '"':
+            # strings are kept as they are
+            start = i
+            i += 1
+            while i < len(text) and text[i] != '"':
+                i += 2 if text[i] == '\\' else 1
+            i += 1
+            out.append(text[start:i])
+            comma = -1
+        elif c == '#' or text.startswith('//', i):
+            # remove comments
+            while i < len(text) and text[i] != '\n':
+                i += 1
+        else:
+            if c in '}]' and comma >= 0:
+                # trailing comma
+                out[comma] = ''
+            if c == ',':
+                comma = len(out)
+            elif not c.isspace():
+                comma = -1
+            out.append(c)
+            i += 1
+
+    return _json.loads(''.join(out), **kwargs)
 
 def load(f, **kwargs):
     """Read file and pass to :py:func:`loads`
-- 
2.43.0


From a97fd9495db2a91bdb243b6035a225b09456a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 166/175] fix: rfind_all finds adjacent occurrences

---
 viscid/vjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/vjson.py b/viscid/vjson.py
index 8527cc7..c1f1ce8 100644
--- a/viscid/vjson.py
+++ b/viscid/vjson.py
@@ -62,7 +62,7 @@ def rfind_all(s, substrings, start=0, end=None):
         if end == -1:
             return
         yield end
-        end -= (sublen - 1)  # use 0 for overlapping matches
+        # use end += (sublen - 1) to find overlapping matches
 
 def loads(text, **kwargs):
     """Wrap Python's :py:func:`json.loads`
-- 
2.43.0


From 1bbee980f7de02ec4b8078595daa96da22235efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 167/175] fix: a settings file with only comments sets nothing

---
 viscid/_rc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/_rc.py b/viscid/_rc.py
index 76561d1..97d2085 100644
--- a/viscid/_rc.py
+++ b/viscid/_rc.py
@@ -68,7 +68,7 @@ def load_rc_file(fname):
         with open(os.path.expanduser(os.path.expandvars(fname)), 'r') as f:
             try:
                 import yaml
-                rc_obj = yaml.safe_load(f)
+                rc_obj = yaml.safe_load(f) or {}
             except ImportError:
                 try:
                     rc_obj = vjson.load(f)
-- 
2.43.0


From f2bd0848cdc4907814ae2795c0faf87a259267c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 168/175] fix: find_nulls takes single precision fields and
 fields without nulls

---
 viscid/cython/null_tools.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index cd52548..c6977d7 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -102,9 +102,9 @@ def _classify_nulls(b, null_inds, rtol=1e-5, atol=1e-8):
 def _reduce_candidates(fld, ibound=0.0):
     # these crds are same centering as fld
     dat = fld.as_interlaced().data
-    x, y, z = fld.get_crds("xyz")
+    x, y, z = [crd.astype(dat.dtype) for crd in fld.get_crds("xyz")]
     candidate_inds = _py_reduce_candidates(dat, x, y, z, ibound)
-    return np.array(candidate_inds)
+    return np.array(candidate_inds, dtype=np.int_)
 
 def _find_null_cells_from_candidates(fld, inds):
     assert fld.nr_sdims == 3
@@ -113,7 +113,8 @@ def _find_null_cells_from_candidates(fld, inds):
     # iys = np.array(iys, dtype='int32', copy=False)
     # ixs = np.array(ixs, dtype='int32', copy=False)
     dat = fld.as_interlaced().data
-    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds))
+    null_inds = np.array(_py_find_null_cells_from_candidates(dat, inds),
+                         dtype=np.int_)
     x, y, z = fld.get_crds()
     null_pts = np.zeros_like(null_inds).astype(dat.dtype)
     null_pts[0, :] = x[null_inds[0, :]]
-- 
2.43.0


From a014ff1021089ec4978f4f992cb234ecd7db4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 169/175] fix: nulls are found where a component does not vary
 along a face

---
 viscid/cython/null_tools.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index c6977d7..e3e20eb 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -327,7 +327,12 @@ cdef inline find_roots_face(real_t a1, real_t b1, real_t c1, real_t d1,
             roots_x = np.array([])
             # print("::", roots_x)
 
-    roots_y = - (a1 + b1 * roots_x) / (c1 + d1 * roots_x)
+    # if f1 doesn't depend on y at a root, then use f2
+    num, den = a1 + b1 * roots_x, c1 + d1 * roots_x
+    use_f2 = np.abs(c2 + d2 * roots_x) > np.abs(den)
+    num = np.where(use_f2, a2 + b2 * roots_x, num)
+    den = np.where(use_f2, c2 + d2 * roots_x, den)
+    roots_y = - num / den
 
     # remove roots that are outside the box
     keep = ((roots_x >= 0.0) & (roots_x <= 1.0) &
-- 
2.43.0


From 7ce0fbb2b93644f8dc32c905a938a302d7f3d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 170/175] fix: jacobians at the edges of a field don't wrap
 around

---
 viscid/calculator/calc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/calculator/calc.py b/viscid/calculator/calc.py
index ab70877..f80a41a 100644
--- a/viscid/calculator/calc.py
+++ b/viscid/calculator/calc.py
@@ -588,11 +588,15 @@ def jacobian_at_ind(B, ix, iy, iz):
     bx, by, bz = B.component_views()
     x, y, z = B.get_crds("xyz")
     gradb = np.empty((3, 3), dtype=B.dtype)
+    # differences are one sided at the edges
+    xm, xp = max(ix - 1, 0), min(ix + 1, len(x) - 1)
+    ym, yp = max(iy - 1, 0), min(iy + 1, len(y) - 1)
+    zm, zp = max(iz - 1, 0), min(iz + 1, len(z) - 1)
     for i, bi in enumerate([bx, by, bz]):
         # d_x Bi, d_y Bi, d_z Bi
-        gradb[i, 0] = (bi[ix + 1, iy, iz] - bi[ix - 1, iy, iz]) / (x[ix + 1] - x[ix - 1])
-        gradb[i, 1] = (bi[ix, iy + 1, iz] - bi[ix, iy - 1, iz]) / (y[iy + 1] - y[iy - 1])
-        gradb[i, 2] = (bi[ix, iy, iz + 1] - bi[ix, iy, iz - 1]) / (z[iz + 1] - z[iz - 1])
+        gradb[i, 0] = (bi[xp, iy, iz] - bi[xm, iy, iz]) / (x[xp] - x[xm])
+        gradb[i, 1] = (bi[ix, yp, iz] - bi[ix, ym, iz]) / (y[yp] - y[ym])
+        gradb[i, 2] = (bi[ix, iy, zp] - bi[ix, iy, zm]) / (z[zp] - z[zm])
     return gradb
 
 def jacobian_eig_at_point(B, x, y, z, dx=None, dy=None, dz=None):
-- 
2.43.0


From c0f34366f66f2e860504b22719002e81f332afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 171/175] fix: points taken as one cluster are averaged

---
 viscid/calculator/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index dab6824..8c08168 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -121,7 +121,7 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
                 cli.append([[ix], [iy]])
                 clx.append([[x[ix]], [y[iy]]])
     else:
-        clx = [[x[inds[0, :]], y[inds[1, :]]]]
+        clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
     pts -= pdL * np.floor((pts - xl) / (xh - xl))
-- 
2.43.0


From 61fecddbda06c59c7ad58911aff9d2ce3187c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 172/175] fix: topologies that never meet give no points

---
 viscid/calculator/separator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..907dd56 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -190,8 +190,11 @@ def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
         if i + 1 >= min_depth and len(indx):
             break
 
-    pts = viscid.find_clusters(indx, indy, x, y, multiple=multiple,
-                               periodic=periodic)
+    if len(indx):
+        pts = viscid.find_clusters(indx, indy, x, y, multiple=multiple,
+                                   periodic=periodic)
+    else:
+        pts = np.zeros((2, 0))
 
     if plot:
         from viscid.plot import vpyplot as vlt
-- 
2.43.0


From 5231491634d4d319584cce8d55186e2f5837595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 173/175] fix: boundary frames are defined for a wish opposite
 to the normal

---
 viscid/calculator/minvar_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/calculator/minvar_tools.py b/viscid/calculator/minvar_tools.py
index 344ff7b..776c4c6 100644
--- a/viscid/calculator/minvar_tools.py
+++ b/viscid/calculator/minvar_tools.py
@@ -135,7 +135,7 @@ def _minvar_lmn_directions(evec_min, evec_max, l_basis=(0, 0, 1)):
 
     try:
         l_basis = np.array(l_basis).reshape((3,))
-        if np.allclose(n_dir, l_basis / np.linalg.norm(l_basis)):
+        if np.isclose(np.abs(np.dot(n_dir, l_basis)), np.linalg.norm(l_basis)):
             viscid.logger.warning("LMN says l_basis is parallel to normal, using "
                                   "MVAs max eigenvector direction")
             raise ValueError
-- 
2.43.0


From 65e739a5fe3ef55fd8dd06293c950ca74c1fc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 174/175] fix: clusters across both ends of both axes are
 joined, and ordinary axes may have one place

---
 viscid/calculator/cluster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/calculator/cluster.py b/viscid/calculator/cluster.py
index 8c08168..0b6055b 100644
--- a/viscid/calculator/cluster.py
+++ b/viscid/calculator/cluster.py
@@ -80,7 +80,8 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
     if pd[1]:
         alt += [(0, -pdN[1]), (0, pdN[1])]
     if pd[0] and pd[1]:
-        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1])]
+        alt += [(-pdN[0], -pdN[1]), (pdN[0], pdN[1]),
+                (-pdN[0], pdN[1]), (pdN[0], -pdN[1])]
 
     # cli == cluster indices, clx == cluster locations
     clx = []
@@ -124,7 +125,9 @@ def find_clusters(indx, indy, x, y, multiple=True, periodic=(False, False),
         clx = [[crds[0][inds[:, 0]], crds[1][inds[:, 1]]]]
 
     pts = np.array([np.average(clxi, axis=1) for clxi in clx]).reshape((-1, 2))
-    pts -= pdL * np.floor((pts - xl) / (xh - xl))
+    for i in range(2):
+        if pd[i]:
+            pts[:, i] -= pdL[i] * np.floor((pts[:, i] - xl[i]) / pdL[i])
     return pts.T
 
 def _main():
-- 
2.43.0


From fd3ec02236820497829346c4584171d11d97d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:48 +0000
Subject: [PATCH 175/175] fix: the null finder uses the right corner of xy
 faces

---
 viscid/cython/null_tools.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/cython/null_tools.pyx b/viscid/cython/null_tools.pyx
index e3e20eb..7a581ee 100644
--- a/viscid/cython/null_tools.pyx
+++ b/viscid/cython/null_tools.pyx
@@ -209,7 +209,7 @@ def _py_find_null_cells_from_candidates(real_t[:, :, :, ::1] f,
     cdef int* ozc = [0, 1, 1, 1, 0, 0]
 
     cdef int* oxd = [1, 1, 0, 1, 1, 1]
-    cdef int* oyd = [0, 0, 1, 1, 0, 1]
+    cdef int* oyd = [1, 1, 1, 1, 0, 1]
     cdef int* ozd = [0, 1, 1, 1, 1, 1]
     cdef int[:, ::1] permuted_comps = np.array([[0, 1, 2], [1, 2, 0], [2, 0, 1]],
                                                dtype="int32")
-- 
2.43.0

