From 2fcf3458952559fbdb05e3c1c25c2bee232156e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 01/52] fix: close netCDF datasets opened with group indexing

---
 src/ocgis/driver/nc.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/driver/nc.py b/src/ocgis/driver/nc.py
index ddceca1..a6bb1bb 100644
--- a/src/ocgis/driver/nc.py
+++ b/src/ocgis/driver/nc.py
@@ -271,11 +271,24 @@ class DriverNetcdf(AbstractDriver):
             ret = nc.MFDataset(uri, **kwargs)
 
         if group_indexing is not None:
-            for group_name in get_iter(group_indexing):
-                ret = ret.groups[group_name]
+            root = ret
+            try:
+                for group_name in get_iter(group_indexing):
+                    ret = ret.groups[group_name]
+            except Exception:
+                # The caller never receives the dataset if the group does not exist.
+                root.close()
+                raise
 
         return ret
 
+    @staticmethod
+    def _close_(obj):
+        # Only the root dataset may be closed. Groups raise an error if they are closed directly.
+        while isinstance(obj, nc.Group):
+            obj = obj.parent
+        obj.close()
+
 
 @six.add_metaclass(ABCMeta)
 class AbstractDriverNetcdfCF(DriverNetcdf):
-- 
2.43.0


From ad99163d1b4306b6643931b70142240fdc4dae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 02/52] fix: close the merged weight file when merging fails

---
 src/ocgis/spatial/grid_chunker.py | 46 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 5c08f8f..8f433ae 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -368,28 +368,30 @@ class GridChunker(AbstractOcgisObject):
         dst_indices = self.dst_grid._gc_create_global_indices_(dst_global_shape)
 
         out_wds = nc.Dataset(merged_weight_filename, 'a')
-        ocgis_lh(msg="opened output merged weight file in append mode. starting insert loop: {}".format(merged_weight_filename), level=logging.DEBUG, logger=_LOCAL_LOGGER)
-        for ii, wfn in enumerate(map(lambda x: os.path.join(split_weight_file_directory, os.path.split(x)[1]), wv)):
-            if not os.path.exists(wfn):
-                if strict:
-                    raise IOError(wfn)
-                else:
-                    ocgis_lh(msg="weight file not found in append loop, skipping: {}".format(wfn), level=logging.DEBUG, logger=_LOCAL_LOGGER)
-                    continue
-            wdata = RequestDataset(wfn, driver='netcdf').get()
-            for wvn in wf_varnames:
-                odata = wdata[wvn].get_value()
-                try:
-                    split_grids_directory = self.paths['wd']
-                    odata = self._gc_remap_weight_variable_(ii, wvn, odata, src_indices, dst_indices, ifile, gidx,
-                                                            split_grids_directory=split_grids_directory)
-                except IndexError as e:
-                    msg = "Weight filename: '{}'; Weight Variable Name: '{}'. {}".format(wfn, wvn, str(e))
-                    raise IndexError(msg)
-                out_wds[wvn][sidx:sidx + odata.size] = odata
-                out_wds.sync()
-            sidx += odata.size
-        out_wds.close()
+        try:
+            ocgis_lh(msg="opened output merged weight file in append mode. starting insert loop: {}".format(merged_weight_filename), level=logging.DEBUG, logger=_LOCAL_LOGGER)
+            for ii, wfn in enumerate(map(lambda x: os.path.join(split_weight_file_directory, os.path.split(x)[1]), wv)):
+                if not os.path.exists(wfn):
+                    if strict:
+                        raise IOError(wfn)
+                    else:
+                        ocgis_lh(msg="weight file not found in append loop, skipping: {}".format(wfn), level=logging.DEBUG, logger=_LOCAL_LOGGER)
+                        continue
+                wdata = RequestDataset(wfn, driver='netcdf').get()
+                for wvn in wf_varnames:
+                    odata = wdata[wvn].get_value()
+                    try:
+                        split_grids_directory = self.paths['wd']
+                        odata = self._gc_remap_weight_variable_(ii, wvn, odata, src_indices, dst_indices, ifile, gidx,
+                                                                split_grids_directory=split_grids_directory)
+                    except IndexError as e:
+                        msg = "Weight filename: '{}'; Weight Variable Name: '{}'. {}".format(wfn, wvn, str(e))
+                        raise IndexError(msg)
+                    out_wds[wvn][sidx:sidx + odata.size] = odata
+                    out_wds.sync()
+                sidx += odata.size
+        finally:
+            out_wds.close()
 
     @staticmethod
     def insert_weighted(index_path, dst_wd, dst_master_path, data_variables='auto'):
-- 
2.43.0


From ca096d7cf1ba47b80370374dac5250b5bbe8889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 03/52] fix: close zip archives when adding an item fails

---
 src/ocgis/util/zipper.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/ocgis/util/zipper.py b/src/ocgis/util/zipper.py
index a2b165c..b99ff71 100644
--- a/src/ocgis/util/zipper.py
+++ b/src/ocgis/util/zipper.py
@@ -11,17 +11,16 @@ class Zipper(object):
 
     def get_zip_stream(self):
         buffer = io.BytesIO()
-        zip = zipfile.ZipFile(buffer, 'w', zipfile.ZIP_DEFLATED)
-        try:
-            items = os.listdir(self.base_path)
-            path = self.base_path
-        except OSError:
-            path, items = os.path.split(self.base_path)
-            items = [items]
-        for item in items:
-            filepath = os.path.join(path, item)
-            zip.write(filepath, arcname=item)
-        zip.close()
+        with zipfile.ZipFile(buffer, 'w', zipfile.ZIP_DEFLATED) as zip:
+            try:
+                items = os.listdir(self.base_path)
+                path = self.base_path
+            except OSError:
+                path, items = os.path.split(self.base_path)
+                items = [items]
+            for item in items:
+                filepath = os.path.join(path, item)
+                zip.write(filepath, arcname=item)
         buffer.flush()
         zip_stream = buffer.getvalue()
         buffer.close()
@@ -29,11 +28,10 @@ class Zipper(object):
 
     @classmethod
     def compress_path(cls, path, items):
-        zipf = zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED)
-        for item in items:
-            arcname = item.get('arcname')
-            zipf.write(item['filename'], arcname=arcname)
-        zipf.close()
+        with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as zipf:
+            for item in items:
+                arcname = item.get('arcname')
+                zipf.write(item['filename'], arcname=arcname)
         return (path)
 
 
-- 
2.43.0


From 0b2100d2b4de6e052c5fd0747b9cbb769f1adfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 04/52] fix: free the MPI sub-group on every rank

---
 src/ocgis/vmachine/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 2cabba3..9393695 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -539,7 +539,7 @@ def mpi_group_scope(ranks, comm=None):
     finally:
         if new_comm != COMM_NULL:
             new_comm.Free()
-            sub_group.Free()
+        sub_group.Free()
 
 
 def ogather(elements):
-- 
2.43.0


From 10175e67020fba30f618729867df5dd4353657c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 05/52] fix: restore the callback of operations after a tiled
 computation

---
 src/ocgis/util/large_array.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/ocgis/util/large_array.py b/src/ocgis/util/large_array.py
index db2d24c..a091ae2 100644
--- a/src/ocgis/util/large_array.py
+++ b/src/ocgis/util/large_array.py
@@ -40,15 +40,6 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     assert isinstance(ops, OcgOperations)
     assert ops.output_format == constants.OutputFormatName.NETCDF
 
-    # Ensure that progress is not showing 100% at first.
-    if ops.callback is not None:
-        orgcallback = ops.callback
-
-        def zeropercentagecallback(p, m):
-            orgcallback(0., m)
-
-        ops.callback = zeropercentagecallback
-
     tile_dimension = int(tile_dimension)
     if tile_dimension <= 0:
         raise ValueError('"tile_dimension" must be greater than 0')
@@ -66,15 +57,25 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
     else:
         has_multivariate = False
 
-    # work on a copy of the operations to create the template file
-    ops_file_only = deepcopy(ops)
-    # we need the output to be file only for the first request
-    if ops.calc is not None:
-        ops_file_only.file_only = True
     # save the environment flag for calculation optimizations.
     orig_oc = ocgis.env.OPTIMIZE_FOR_CALC
+    # the callback is replaced on the operations while the tiles are computed.
+    orgcallback = ops.callback
 
     try:
+        # Ensure that progress is not showing 100% at first.
+        if ops.callback is not None:
+            def zeropercentagecallback(p, m):
+                orgcallback(0., m)
+
+            ops.callback = zeropercentagecallback
+
+        # work on a copy of the operations to create the template file
+        ops_file_only = deepcopy(ops)
+        # we need the output to be file only for the first request
+        if ops.calc is not None:
+            ops_file_only.file_only = True
+
         # tell the software we are optimizing for calculations   
         ocgis.env.OPTIMIZE_FOR_CALC = True
 
@@ -218,6 +219,7 @@ def compute(ops, tile_dimension, verbose=False, use_optimizations=True):
             fds.close()
     finally:
         ocgis.env.OPTIMIZE_FOR_CALC = orig_oc
+        ops.callback = orgcallback
     if verbose:
         progress.endProgress()
         print('complete.')
-- 
2.43.0


From e2254af7742b9265b9ab97161b4b0b1432789eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 06/52] fix: shift the target of a spatial subset back when the
 subset fails

---
 src/ocgis/spatial/spatial_subset.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/spatial_subset.py b/src/ocgis/spatial/spatial_subset.py
index fb53302..9723d5a 100644
--- a/src/ocgis/spatial/spatial_subset.py
+++ b/src/ocgis/spatial/spatial_subset.py
@@ -110,6 +110,16 @@ class SpatialSubsetOperation(AbstractOcgisObject):
 
         # Prepare the target field.
         self._prepare_target_()
+        try:
+            return self._get_subset_(operation, base_geometry, use_spatial_index, select_nearest, optimized_bbox_subset,
+                                     keep_touches, return_slice, cascade)
+        finally:
+            # Return the target field to its original state.
+            self._finalize_target()
+
+    def _get_subset_(self, operation, base_geometry, use_spatial_index, select_nearest, optimized_bbox_subset,
+                     keep_touches, return_slice, cascade):
+        """Subset the prepared target field. See :meth:`get_spatial_subset`."""
 
         # execute the spatial operation
         slc = None
@@ -166,9 +176,6 @@ class SpatialSubsetOperation(AbstractOcgisObject):
                 if self.should_update_crs:
                     ret.update_crs(self.output_crs)
 
-        # Return the target field to its original state.
-        self._finalize_target()
-
         if return_slice:
             ret = (ret, slc)
 
-- 
2.43.0


From f23e85fa00ff7edccf75d5444227b4fe8af956ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 07/52] fix: do not store the working directory in the default
 chunker paths

---
 src/ocgis/spatial/grid_chunker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 8f433ae..0709064 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -151,7 +151,7 @@ class GridChunker(AbstractOcgisObject):
         # Construct default paths if None are provided.
         defaults = constants.GridChunkerConstants.DEFAULT_PATHS
         if paths is None:
-            paths = defaults
+            paths = defaults.copy()
         else:
             for k, v in defaults.items():
                 if k not in paths:
-- 
2.43.0


From b0f4bf41c7a118e5721e330a6fe39f79f4d69d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 08/52] fix: honour the root rank when gathering and scattering
 variables

---
 src/ocgis/variable/geom.py | 2 +-
 src/ocgis/vmachine/mpi.py  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index ab6972b..e506ecb 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -942,7 +942,7 @@ class GeometryVariable(AbstractSpatialVariable):
 
             # Pull unioned geometries and union again for the final unioned geometry.
             if vm.size > 1:
-                unioned_gathered = vm.gather(unioned)
+                unioned_gathered = vm.gather(unioned, root=root)
                 if vm.rank == root:
                     unioned = cascaded_union(unioned_gathered)
 
diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 9393695..897d8fc 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -782,7 +782,7 @@ def variable_gather(variable, root=0):
 
         for idx, dim in enumerate(variable.dimensions):
             if dim.dist:
-                parts = vm.gather(dim)
+                parts = vm.gather(dim, root=root)
             if vm.rank == root:
                 new_dim = dim.copy()
                 if dim.dist:
@@ -812,7 +812,7 @@ def variable_gather(variable, root=0):
         if vm.rank == root:
             new_variable.set_dimensions(new_dimensions, force=True)
 
-        gathered_variables = vm.gather(variable)
+        gathered_variables = vm.gather(variable, root=root)
 
         if vm.rank == root:
             for idx, gv in enumerate(gathered_variables):
@@ -850,7 +850,7 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
     # processes to more flexibly add undistributed dimensions. Distributed dimensions should be part of the destination
     # distribution already.
     not_in_dist = {}
-    if vm.rank == 0:
+    if vm.rank == root:
         for dest_dimension_name in dimension_names:
             try:
                 _ = dest_dist.get_dimension(dest_dimension_name, group=group)
@@ -859,7 +859,7 @@ def variable_scatter(variable, dest_dist, root=0, strict=False):
                     raise
                 else:
                     not_in_dist[dest_dimension_name] = variable.parent.dimensions[dest_dimension_name]
-    not_in_dist = vm.bcast(not_in_dist)
+    not_in_dist = vm.bcast(not_in_dist, root=root)
 
     # Synchronize the processes with the MPI distribution and the group containing the dimensions.
     dest_dist = vm.bcast(dest_dist, root=root)
-- 
2.43.0


From a5675a62ebb66c8434306a6235dcc4b8bfb425ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 09/52] fix: chunked-rwg removes only a working directory it
 created

---
 src/ocgis/ocli.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/ocgis/ocli.py b/src/ocgis/ocli.py
index 847d514..14a6b78 100644
--- a/src/ocgis/ocli.py
+++ b/src/ocgis/ocli.py
@@ -131,25 +131,28 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
     # Make a temporary working directory is one is not provided by the client. Only do this if we are writing subsets
     # and it is not a merge only operation.
     should_create_wd = (nchunks_dst is None or not all([ii == 1 for ii in nchunks_dst])) or spatial_subset
-    if should_create_wd:
-        if wd is None:
-            if ocgis.vm.rank == 0:
-                wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
-            wd = ocgis.vm.bcast(wd)
-        else:
-            exc = None
-            if ocgis.vm.rank == 0:
+    # Only a working directory created here may be removed following execution.
+    created_wd = False
+    if wd is None:
+        if ocgis.vm.rank == 0:
+            wd = tempfile.mkdtemp(prefix='ocgis_chunked_rwg_')
+            created_wd = True
+        wd = ocgis.vm.bcast(wd)
+    else:
+        exc = None
+        if ocgis.vm.rank == 0:
+            if not os.path.exists(wd):
+                # Make the working directory nesting as needed.
+                os.makedirs(wd)
+                created_wd = True
+            elif should_create_wd and nchunks_dst is not None:
                 # The working directory must not exist to proceed.
-                if nchunks_dst is not None:
-                    if os.path.exists(wd):
-                        exc = ValueError("Working directory {} must not exist.".format(wd))
-                    else:
-                        # Make the working directory nesting as needed.
-                        os.makedirs(wd)
-            exc = ocgis.vm.bcast(exc)
-            if exc is not None:
-                raise exc
+                exc = ValueError("Working directory {} must not exist.".format(wd))
+        exc = ocgis.vm.bcast(exc)
+        if exc is not None:
+            raise exc
 
+    if should_create_wd:
         if merge and not spatial_subset or (spatial_subset and genweights):
             if _is_subdir_(wd, weight):
                 raise ValueError(
@@ -235,7 +238,7 @@ def chunked_rwg(source, destination, weight, nchunks_dst, merge, esmf_src_type,
 
     # Remove the working directory unless the persist flag is provided.
     if not persist:
-        if ocgis.vm.rank == 0:
+        if created_wd:
             msg = "Removing working directory since persist is False."
             ocgis_lh(msg=msg, level=logging.INFO, logger=CRWG_LOG)
             shutil.rmtree(wd)
-- 
2.43.0


From 8089c570b9c9c97f7cf05bd57d3b00d260341bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 10/52] fix: geometry files of a conversion are not overwritten
 unless asked

---
 src/ocgis/conv/base.py | 13 +++++++++----
 src/ocgis/conv/csv_.py |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/conv/base.py b/src/ocgis/conv/base.py
index 5ab9891..062a229 100644
--- a/src/ocgis/conv/base.py
+++ b/src/ocgis/conv/base.py
@@ -76,13 +76,17 @@ class AbstractFileConverter(AbstractConverter):
             self.path = self.outdir
         else:
             self.path = os.path.join(self.outdir, prefix + '.' + self._ext)
-            if os.path.exists(self.path):
-                if not self.overwrite:
-                    msg = messages.M3.format(self.path)
-                    raise IOError(msg)
+            self._check_overwrite_(self.path)
 
         self._log = ocgis_lh.get_logger('conv')
 
+    def _check_overwrite_(self, path):
+        """Raise an exception if the output path exists and it may not be overwritten."""
+        if os.path.exists(path):
+            if not self.overwrite:
+                msg = messages.M3.format(path)
+                raise IOError(msg)
+
 
 @six.add_metaclass(abc.ABCMeta)
 class AbstractCollectionConverter(AbstractFileConverter):
@@ -188,6 +192,7 @@ class AbstractCollectionConverter(AbstractFileConverter):
                             ugeom_fiona_path = os.path.join(self._get_or_create_shp_folder_(), ugid_shp_name)
                         else:
                             ugeom_fiona_path = os.path.join(self.outdir, ugid_shp_name)
+                        self._check_overwrite_(ugeom_fiona_path)
                     else:
                         ugeom_fiona_path = None
 
diff --git a/src/ocgis/conv/csv_.py b/src/ocgis/conv/csv_.py
index 43a8fe7..a35b5bb 100644
--- a/src/ocgis/conv/csv_.py
+++ b/src/ocgis/conv/csv_.py
@@ -58,6 +58,8 @@ class CsvShapefileConverter(CsvConverter):
         CsvConverter.__init__(self, *args, **kwargs)
         if self.ops is None:
             raise ValueError('The argument "ops" may not be "None".')
+        if not self.ops.aggregate:
+            self._check_overwrite_(os.path.join(self.outdir, 'shp', self.prefix + '_gid.shp'))
 
     def _write_coll_(self, f, coll, add_geom_uid=True):
         ocgis_lh(msg='entering _write_coll_ in {}'.format(self.__class__), logger='csv-shp.converter',
-- 
2.43.0


From 12f2d1929daeed22043fd1b218a5411e118dec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 11/52] fix: reading a variable does not replace values held by
 its siblings

---
 src/ocgis/driver/csv_.py   |  3 ++-
 src/ocgis/driver/vector.py | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/driver/csv_.py b/src/ocgis/driver/csv_.py
index 4a8534b..b27f63b 100644
--- a/src/ocgis/driver/csv_.py
+++ b/src/ocgis/driver/csv_.py
@@ -22,7 +22,8 @@ class DriverCSV(AbstractTabularDriver):
         if variable.parent is None:
             to_load = [variable]
         else:
-            to_load = list(variable.parent.values())
+            # Values already held by the other variables are not replaced.
+            to_load = [v for v in variable.parent.values() if v.name == variable.name or not v.has_allocated_value]
 
         with driver_scope(self) as f:
             reader = csv.DictReader(f)
diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 26d5230..1ed1623 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -127,14 +127,16 @@ class DriverVector(AbstractTabularDriver):
                     ret[variable.name][idx] = row['properties'][variable.name]
             else:
                 ret = {}
+                # Values already held by the other variables are not replaced.
+                to_load = [v for v in variable.parent.values() if not isinstance(v, CoordinateReferenceSystem) and
+                           (v.name == variable.name or not v.has_allocated_value)]
                 # Initialize the variable data as zero arrays.
-                for v in list(variable.parent.values()):
-                    if not isinstance(v, CoordinateReferenceSystem):
-                        ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
+                for v in to_load:
+                    ret[v.name] = np.ma.array(np.zeros(v.shape, dtype=v.dtype), mask=False)
                 # Fill those arrays.
                 for idx, row in enumerate(g):
-                    for dv in list(variable.parent.values()):
-                        if isinstance(dv, (CoordinateReferenceSystem, GeometryVariable)):
+                    for dv in to_load:
+                        if isinstance(dv, GeometryVariable):
                             continue
                         dv = dv.name
                         try:
-- 
2.43.0


From 49a7509ce96c165bfdd64663ca66c92d04814e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 12/52] fix: naming an object no longer appends to the caller's
 list of aliases

---
 src/ocgis/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/base.py b/src/ocgis/base.py
index 98dbaf0..9178787 100644
--- a/src/ocgis/base.py
+++ b/src/ocgis/base.py
@@ -102,8 +102,7 @@ class AbstractNamedObject(AbstractInterfaceObject):
         :param aliases: New aliases for the object.
         :type aliases: ``sequence(str, ...)``
         """
-        if aliases is None:
-            aliases = []
+        aliases = [] if aliases is None else list(aliases)
 
         if self._source_name == constants.UNINITIALIZED:
             if self._name is None:
-- 
2.43.0


From 3ecf82ecf129393b834e0e3328487e75fbfd4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 13/52] fix: a lenient field slice no longer removes dimensions
 from the caller's slice dictionary

---
 src/ocgis/collection/field.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 034d41d..66dfb60 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -576,9 +576,7 @@ class Field(VariableCollection):
             # When strict is False, we don't care about extra dimension names in the slice. This is useful for a general
             # slicing operation such as slicing for time with or without the dimension.
             if not strict:
-                to_pop = [dname for dname in list(dslice.keys()) if dname not in self.dimensions]
-                for dname in to_pop:
-                    dslice.pop(dname)
+                dslice = {dname: slc for dname, slc in dslice.items() if dname in self.dimensions}
             if distributed:
                 data_variable = self.data_variables[0]
                 data_variable_dimensions = data_variable.dimensions
-- 
2.43.0


From 265bfd8effa384c2a8ec7fafac9095f81130b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 14/52] fix: dimension map entries no longer write into the
 caller's attribute dictionaries

---
 src/ocgis/driver/dimension_map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocgis/driver/dimension_map.py b/src/ocgis/driver/dimension_map.py
index f64903a..82a8b14 100644
--- a/src/ocgis/driver/dimension_map.py
+++ b/src/ocgis/driver/dimension_map.py
@@ -451,6 +451,8 @@ class DimensionMap(AbstractOcgisObject):
 
         if default_attrs is None:
             default_attrs = deepcopy(DIMENSION_MAP_TEMPLATE[DMK.SPATIAL_MASK][DMK.ATTRS])
+        else:
+            default_attrs = default_attrs.copy()
 
         try:
             vattrs = deepcopy(variable.attrs)
@@ -540,6 +542,8 @@ class DimensionMap(AbstractOcgisObject):
             except KeyError:
                 # Default attributes are empty.
                 attrs = self._storage.__class__()
+        else:
+            attrs = attrs.copy()
 
         # Allow for any variable attributes.
         if hasattr(variable, 'attrs'):
-- 
2.43.0


From 208723bba1d2117d0bbad9c4cf218dc8783f44b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 15/52] fix: geometry dictionaries given to an operation are
 not changed

---
 src/ocgis/ops/parms/definition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index 11c9cf0..d33b974 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -678,6 +678,7 @@ class Geom(base.AbstractParameter):
     def parse(self, value):
         if type(value) in [list, tuple]:
             if all([isinstance(element, dict) for element in value]):
+                value = [element.copy() for element in value]
                 for ii, element in enumerate(value, start=1):
                     if 'geom' not in element:
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
-- 
2.43.0


From 9b13e9568fd37f00ca113d372e3c179c05664ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 16/52] fix: GridChunker no longer fills in the caller's paths
 and esmf_kwargs

---
 src/ocgis/spatial/grid_chunker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 0709064..815e6d4 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -122,10 +122,8 @@ class GridChunker(AbstractOcgisObject):
         self.nc_format = nc_format
         self.debug = debug
 
-        if esmf_kwargs is None:
-            esmf_kwargs = {}
+        esmf_kwargs = {} if esmf_kwargs is None else esmf_kwargs.copy()
         if self.genweights:
-            esmf_kwargs = esmf_kwargs.copy()
             from ocgis.regrid.base import update_esmf_kwargs
             update_esmf_kwargs(esmf_kwargs)
         self.esmf_kwargs = esmf_kwargs
@@ -153,6 +151,7 @@ class GridChunker(AbstractOcgisObject):
         if paths is None:
             paths = defaults.copy()
         else:
+            paths = paths.copy()
             for k, v in defaults.items():
                 if k not in paths:
                     paths[k] = v
-- 
2.43.0


From e4aee9f0830fd9342082663f373be6f9926927ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 17/52] fix: creating a coordinate system no longer changes the
 caller's parameter dictionary

---
 src/ocgis/variable/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index d4f3fe3..33a7759 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -498,6 +498,7 @@ class CoordinateReferenceSystem(AbstractProj4CRS, AbstractInterfaceObject):
                 msg = 'A value dictionary, PROJ.4 string, or EPSG code is required.'
                 raise ValueError(msg)
         else:
+            value = value.copy()
             # Remove unicode to avoid strange issues with proj and fiona.
             for k, v in value.items():
                 if isinstance(v, six.string_types):
-- 
2.43.0


From 809e827633bff71e2aa2246091ffa50a1588b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 18/52] fix: record iteration no longer extends the caller's
 list of repeaters

---
 src/ocgis/variable/iterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/iterator.py b/src/ocgis/variable/iterator.py
index 03039b2..7baea7f 100644
--- a/src/ocgis/variable/iterator.py
+++ b/src/ocgis/variable/iterator.py
@@ -25,7 +25,7 @@ class Iterator(AbstractOcgisObject):
             if repeaters is None:
                 repeaters = variable.repeat_record
             else:
-                repeaters += variable.repeat_record
+                repeaters = repeaters + variable.repeat_record
         self.repeaters = repeaters
 
         self._is_lead = True
-- 
2.43.0


From 1099feee70f761ba2b6ef38086279dbf2b84be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 19/52] fix: looking up a group no longer inserts into the
 caller's list of group names

---
 src/ocgis/vmachine/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/vmachine/mpi.py b/src/ocgis/vmachine/mpi.py
index 897d8fc..cc578cf 100644
--- a/src/ocgis/vmachine/mpi.py
+++ b/src/ocgis/vmachine/mpi.py
@@ -359,7 +359,7 @@ class OcgDist(AbstractOcgisObject):
             group = [group]
         # Always start with None, the root group, when searching for data groups.
         if group[0] is not None:
-            group.insert(0, None)
+            group = [None] + list(group)
 
         ret = self.mapping[rank]
         for ctr, g in enumerate(group):
-- 
2.43.0


From c7aca2ca9e07743995e435cf83fa3d207f2436e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 20/52] fix: spatial subsets no longer write into the mask
 given as a hint

---
 src/ocgis/spatial/geomc.py | 2 +-
 src/ocgis/spatial/grid.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/spatial/geomc.py b/src/ocgis/spatial/geomc.py
index e2850e0..157b8f1 100644
--- a/src/ocgis/spatial/geomc.py
+++ b/src/ocgis/spatial/geomc.py
@@ -573,7 +573,7 @@ class AbstractGeometryCoordinates(AbstractXYZSpatialContainer):
             the_slice = np.invert(original_mask)
             sliced_obj = ret.get_distributed_slice(the_slice)
         else:
-            fill_mask = original_mask
+            fill_mask = original_mask.copy()
             geometry_fill = None
             # If everything is masked, there is no reason to load the grid geometries.
             if not original_mask.all():
diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index a22add9..702868b 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -673,7 +673,7 @@ class Grid(AbstractGrid, AbstractXYZSpatialContainer):
             if not original_grid_has_mask and sliced_grid_mask is not None and not sliced_grid_mask.any():
                 sliced_grid.set_mask(None)
         else:
-            fill_mask = original_mask
+            fill_mask = original_mask.copy()
             geometry_fill = None
             # If everything is masked, there is no reason to load the grid geometries.
             if not original_mask.all():
-- 
2.43.0


From f566ee96030961f67082861f0210c3202b530566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 21/52] fix: iterating a sourced variable with repeaters fails
 on the dataset identifier

---
 src/ocgis/variable/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 18c061c..5f9ccb6 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1644,7 +1644,7 @@ class SourcedVariable(Variable):
             if repeaters is None:
                 ret.repeaters = [did_record]
             else:
-                repeaters.insert(did_record)
+                repeaters.insert(0, did_record)
 
         return ret
 
-- 
2.43.0


From d34002dfe2f6d6068846c970c36278ef56360e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 22/52] fix: ranks outside of a scoped communicator empty their
 variables instead of failing

---
 src/ocgis/driver/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 2d57377..0cbbb38 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -608,11 +608,11 @@ class AbstractDriver(AbstractOcgisObject):
                         to_append = dist.get_dimension(d, group=variable.group, rank=vm.rank)
                     except KeyError:
                         # Rank may not be mapped due to scoped VM.
-                        if vm.is_live:
-                            raise
-                        else:
+                        if vm.is_null:
                             variable.convert_to_empty()
                             break
+                        else:
+                            raise
                     else:
                         new_dimensions.append(to_append)
                 super(SourcedVariable, variable).set_dimensions(new_dimensions)
-- 
2.43.0


From dd0a6fa59ddac45fa65677aa77ae0bc01834a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 23/52] fix: an unknown parameter of a univariate function is
 reported as such

---
 src/ocgis/calc/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 5285ce7..363aeda 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -664,7 +664,7 @@ class AbstractParameterizedFunction(AbstractFunction):
                     ocgis_lh(exc=e, logger='calc.base')
             # likely a required variable for a multivariate calculation
             except KeyError as e:
-                if k in self.required_variables:
+                if k in getattr(self, 'required_variables', ()):
                     formatted = values[k]
                 else:
                     ocgis_lh(exc=e, logger='calc.base')
-- 
2.43.0


From 652ee56c92a8505f27ddc004f927a553a123dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 24/52] fix: calculation targets of multivariate functions may
 be iterated with unit validation

---
 src/ocgis/calc/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 363aeda..8f596e9 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -911,7 +911,7 @@ class AbstractMultivariateFunction(AbstractFunction):
             exc = DefinitionValidationError(Calc, msg.format(cls.__name__, cls.required_variables))
             ocgis_lh(exc=exc, logger='calc.base')
 
-    def validate_units(self):
+    def validate_units(self, *args, **kwargs):
         if self.required_units is not None:
             for required_variable in self.required_variables:
                 alias_variable = self.parms[required_variable]
-- 
2.43.0


From a4c6323de6dd8b278517c6f08138fe29a2a5c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 25/52] fix: raw fields of child groups are created with
 keyword arguments

---
 src/ocgis/driver/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/driver/base.py b/src/ocgis/driver/base.py
index 0cbbb38..855a43c 100644
--- a/src/ocgis/driver/base.py
+++ b/src/ocgis/driver/base.py
@@ -353,7 +353,7 @@ class AbstractDriver(AbstractOcgisObject):
         if parent is not None:
             parent.add_child(field)
         for k, v in group_metadata.get('groups', {}).items():
-            _ = self.create_raw_field(v, name=k, parent=field, group_name=k)
+            _ = self.create_raw_field(group_metadata=v, name=k, parent=field, group_name=k)
         return field
 
     def create_variables(self, group_metadata, parent=None):
-- 
2.43.0


From a17a995966a7ac04c2793e7d639f9a4fb6b27584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 26/52] fix: unparsable month units raise the intended
 ValueError

---
 src/ocgis/variable/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 24471f6..96a35da 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -971,10 +971,10 @@ def get_origin_datetime_from_months_units(units):
             origin = datetime.datetime.strptime(origin, tt)
             converted = True
             break
-        except ValueError as e:
+        except ValueError:
             continue
     if not converted:
-        raise e
+        raise ValueError('Unable to parse the origin of units "{}".'.format(units))
     return origin
 
 
-- 
2.43.0


From 39415dd0cd93b25ebfc70a63cfe3aa3f67e406d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:24 +0000
Subject: [PATCH 27/52] fix: Field.iter and SourcedVariable.get_iter do not
 change the caller's followers and repeaters lists

---
 src/ocgis/collection/field.py | 1 +
 src/ocgis/variable/base.py    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/collection/field.py b/src/ocgis/collection/field.py
index 66dfb60..e394d5f 100644
--- a/src/ocgis/collection/field.py
+++ b/src/ocgis/collection/field.py
@@ -665,6 +665,7 @@ class Field(VariableCollection):
         if followers is None:
             followers = []
         else:
+            followers = list(followers)
             for ii, f in enumerate(followers):
                 if not isinstance(f, Iterator):
                     followers[ii] = get_variables(f, self)[0]
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 5f9ccb6..6c28398 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1644,7 +1644,7 @@ class SourcedVariable(Variable):
             if repeaters is None:
                 ret.repeaters = [did_record]
             else:
-                repeaters.insert(0, did_record)
+                ret.repeaters = [did_record] + list(repeaters)
 
         return ret
 
-- 
2.43.0


From 7650c58392a0380e9a29dcf9de55bfdffdd47165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:19 +0000
Subject: [PATCH 28/52] fix: writing vector files and iterating a collection do
 not change the caller's iter_kwargs and followers

---
 src/ocgis/driver/vector.py | 2 +-
 src/ocgis/variable/base.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/vector.py b/src/ocgis/driver/vector.py
index 1ed1623..a4c4d42 100644
--- a/src/ocgis/driver/vector.py
+++ b/src/ocgis/driver/vector.py
@@ -226,7 +226,7 @@ class DriverVector(AbstractTabularDriver):
         fiona_crs = kwargs.get('crs')
         fiona_schema = kwargs.get('fiona_schema')
         fiona_driver = kwargs.get('fiona_driver', 'ESRI Shapefile')
-        iter_kwargs = kwargs.pop('iter_kwargs', {})
+        iter_kwargs = dict(kwargs.pop('iter_kwargs', {}))
         iter_kwargs[KeywordArgument.DRIVER] = cls
 
         # This finds the geometry variable used in the iterator. Need for the general geometry type that may not be
diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 6c28398..e1e05a2 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2089,6 +2089,7 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
             if not isinstance(variable, Iterator):
                 variable = get_variables(variable, self)[0]
             if followers is not None:
+                followers = list(followers)
                 for ii, f in enumerate(followers):
                     if not isinstance(f, Iterator):
                         followers[ii] = get_variables(f, self)[0]
-- 
2.43.0


From cb9673a0f554580c28c32bfd837ce3ed14565798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 29/52] fix: writing auxiliary weight variables does not change
 the ESMF arguments of later weight files

---
 src/ocgis/spatial/grid_chunker.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/spatial/grid_chunker.py b/src/ocgis/spatial/grid_chunker.py
index 815e6d4..a43c110 100644
--- a/src/ocgis/spatial/grid_chunker.py
+++ b/src/ocgis/spatial/grid_chunker.py
@@ -856,26 +856,27 @@ class GridChunker(AbstractOcgisObject):
         ocgis_lh(msg="creating esmf destination field...", logger=_LOCAL_LOGGER, level=logging.DEBUG)
         dstfield, dstgrid = create_esmf_field(dst_path, dst_grid, self.esmf_kwargs)
         regrid = None
+        regrid_kwargs = self.esmf_kwargs.copy()
 
         # If auxiliary weight file variables are being written, update the ESMF arguments with some additional metadata.
         if filemode == ESMF.FileMode.WITHAUX:
             try:
-                self.esmf_kwargs['src_file'] = get_file_path(self.source)
-                self.esmf_kwargs['dst_file'] = get_file_path(self.destination)
+                regrid_kwargs['src_file'] = get_file_path(self.source)
+                regrid_kwargs['dst_file'] = get_file_path(self.destination)
             except Exception as e:
                 vm.abort(exc=e)
-            self.esmf_kwargs['src_file_type'] = self.src_grid.driver.get_esmf_fileformat()
-            self.esmf_kwargs['dst_file_type'] = self.dst_grid.driver.get_esmf_fileformat()
+            regrid_kwargs['src_file_type'] = self.src_grid.driver.get_esmf_fileformat()
+            regrid_kwargs['dst_file_type'] = self.dst_grid.driver.get_esmf_fileformat()
         try:
             ocgis_lh(msg="creating esmf regrid...", logger=_LOCAL_LOGGER, level=logging.DEBUG)
 
             # Older versions of ESMPy do not support 'filemode'. If it is set to BASIC (the legacy default) then remove
             # the filemode argument.
             if filemode == ESMF.FileMode.BASIC:
-                regrid = create_esmf_regrid(srcfield=srcfield, dstfield=dstfield, filename=wgt_path, **self.esmf_kwargs)
+                regrid = create_esmf_regrid(srcfield=srcfield, dstfield=dstfield, filename=wgt_path, **regrid_kwargs)
             else:
                 regrid = create_esmf_regrid(srcfield=srcfield, dstfield=dstfield, filename=wgt_path, filemode=filemode,
-                                            **self.esmf_kwargs)
+                                            **regrid_kwargs)
         finally:
             to_destroy = [regrid, srcgrid, srcfield, dstgrid, dstfield]
             for t in to_destroy:
-- 
2.43.0


From 5590f1226f5fdc7ac008f11d4a919f7399d8ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 30/52] fix: computing the heat index does not mask values of
 its source variables

---
 src/ocgis/calc/library/index/heat_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/library/index/heat_index.py b/src/ocgis/calc/library/index/heat_index.py
index ea273ca..25b8a5f 100644
--- a/src/ocgis/calc/library/index/heat_index.py
+++ b/src/ocgis/calc/library/index/heat_index.py
@@ -24,9 +24,9 @@ class HeatIndex(base.AbstractMultivariateFunction):
         c9 = -1.99e-6
 
         idx = tas < 80
-        tas.mask = np.logical_or(idx, tas.mask)
+        tas = np.ma.array(tas, mask=np.logical_or(idx, tas.mask))
         idx = rhs < 40
-        rhs.mask = np.logical_or(idx, rhs.mask)
+        rhs = np.ma.array(rhs, mask=np.logical_or(idx, rhs.mask))
 
         tas_sq = np.square(tas)
         rhs_sq = np.square(rhs)
-- 
2.43.0


From fecc2821e10e8279395004cf6dddd5788c871536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 31/52] fix: appending an alias to a copy of an object does not
 change the aliases of the original

---
 src/ocgis/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/base.py b/src/ocgis/base.py
index 9178787..90a9d1b 100644
--- a/src/ocgis/base.py
+++ b/src/ocgis/base.py
@@ -83,7 +83,8 @@ class AbstractNamedObject(AbstractInterfaceObject):
         
         :param str alias: The alias to append. 
         """
-        self._aliases.append(alias)
+        # The list is shared with copies of this object.
+        self._aliases = self._aliases + [alias]
 
     def is_matched_by_alias(self, alias):
         """
-- 
2.43.0


From eead851f033c411682415fdff54e29c1fad85bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 32/52] fix: copies and slices of collections have attributes
 of their own

---
 src/ocgis/variable/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index e1e05a2..84b3144 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -1913,6 +1913,7 @@ class VariableCollection(AbstractCollection, AbstractContainer, Attributes):
 
         ret = AbstractCollection.copy(self)
         ret._tags = deepcopy(self._tags)
+        ret.attrs = ret.attrs.copy()
         ret._dimensions = ret._dimensions.copy()
         for v in list(ret.values()):
             with orphaned(v):
-- 
2.43.0


From 93a6d492944263663b613e0f0331503e295fc5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 33/52] fix: do not use masked values in percentile
 calculations

---
 src/ocgis/calc/library/statistics.py | 34 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 42629ae..c244d2d 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -9,6 +9,29 @@ from ocgis.calc.base import AbstractUnivariateFunction, AbstractParameterizedFun
 from ocgis.exc import DefinitionValidationError
 
 
+def get_masked_percentile(arr, percentile):
+    """
+    Compute a percentile along the first axis. Masked values are not part of the sample. The percentile is masked if
+    there are no unmasked values.
+
+    :param arr: The array to compute the percentile for.
+    :type arr: :class:`numpy.ndarray` | :class:`numpy.ma.MaskedArray`
+    :param float percentile: The percentile to compute. Must be between 0 and 100 inclusive.
+    :rtype: :class:`numpy.ma.MaskedArray`
+    """
+
+    mask = np.ma.getmaskarray(arr)
+    all_masked = mask.all(axis=0)
+    if mask.any():
+        fill = np.ma.filled(arr.astype(float), np.nan)
+        # NumPy warns if there are only NaNs to select from. These elements are masked in the output.
+        fill[:, all_masked] = 0.
+        ret = np.nanpercentile(fill, percentile, axis=0)
+    else:
+        ret = np.percentile(np.ma.getdata(arr), percentile, axis=0)
+    return np.ma.array(ret, mask=all_masked)
+
+
 class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
     key = 'moving_window'
     parms_definition = {'k': int, 'mode': str, 'operation': str}
@@ -166,8 +189,6 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
         month_day_map = {(dt.month, dt.day): ii for ii, dt in enumerate(self.tgd.value_datetime)}
         for key, value in dp.items():
             fill[0, month_day_map[key], 0, :, :] = value
-        for idx in range(fill.shape[1]):
-            fill.mask[0, idx, 0, :, :] = values.mask[0, 0, 0, :, :]
         return fill
 
     @staticmethod
@@ -229,10 +250,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
                 arr_subset = arr[indices_non_masked, :, :]
 
                 # step5: we compute the percentile for current arr_subset
-                ############## WARNING: type(arr_subset) = numpy.ndarray. Numpy.percentile does not work with masked arrays,
-                ############## so if arr_subset has aberrant values like 999999 or 1e+20, the result will be wrong.
-                ############## Check with numpy.nanpercentile (Numpy version 1.9) !!!
-                arr_percentille_current_calday = np.percentile(arr_subset, percentile, axis=0)
+                arr_percentille_current_calday = get_masked_percentile(arr_subset, percentile)
 
                 # step6: we add to the dictionnary...
                 percentile_dict[month, day] = arr_percentille_current_calday
@@ -366,9 +384,7 @@ class FrequencyPercentile(base.AbstractUnivariateSetFunction, base.AbstractParam
         :type percentile: float on the interval [0,100]
         """
 
-        ret = np.percentile(values, percentile, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
-        return ret
+        return get_masked_percentile(values, percentile)
 
 
 class Max(base.AbstractUnivariateSetFunction):
-- 
2.43.0


From 85c4eac9b91df9a8b1e2526c7c1293bdb51fb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 34/52] fix: respect masks in moving window calculations

---
 src/ocgis/calc/library/statistics.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index c244d2d..469b99f 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -66,7 +66,8 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         assert values.ndim == 5
         assert operation in self._potential_operations
 
-        operation = getattr(np, operation)
+        # Use the masked array operations. Not all NumPy operations (median for example) are aware of masks.
+        operation = getattr(np.ma, operation)
 
         fill = values.copy()
 
@@ -87,9 +88,10 @@ class MovingWindow(AbstractUnivariateFunction, AbstractParameterizedFunction):
         if mode == 'valid':
             # slice the field and fill arrays
             # self.field = self.field[:, idx_start:origin + 1, :, :, :]
-            # Mask the invalid regions.
-            fill.mask[:] = True
-            fill.mask[:, idx_start:origin + 1, :, :, :] = False
+            # Mask the invalid regions. Windows with no unmasked values are masked already.
+            invalid = np.ones(fill.shape, dtype=bool)
+            invalid[:, idx_start:origin + 1, :, :, :] = False
+            fill.mask[:] = np.logical_or(np.ma.getmaskarray(fill), invalid)
             # self._finalize_slice = [slice(None), slice(idx_start, origin + 1), slice(None), slice(None), slice(None)]
         elif mode == 'same':
             pass
-- 
2.43.0


From 0ac5850dfb0e44f8d8695ab760b56784b7ae8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 35/52] fix: do not use masked values in convolutions

---
 src/ocgis/calc/library/math.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 310954e..36d4ddd 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -76,13 +76,14 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         shape_fill = list(values.shape)
         # if mode == 'valid':
         #     shape_fill[1] = max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1
-        fill = np.zeros(shape_fill, dtype=self.dtype)
+        fill = np.ma.array(np.zeros(shape_fill, dtype=self.dtype), mask=False)
 
         # perform the convolution on the time axis
         itr = iter_array(values)
         for ie, it, il, ir, ic in itr:
             a = values[ie, :, il, ir, ic]
-            res_convolve = np.convolve(a, v, mode=mode)
+            # The convolution is masked if any of its contributing values are masked.
+            res_convolve = np.ma.convolve(a, v, mode=mode)
             if mode == 'valid':
                 time_slice = slice(0, max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1)
                 # fill[ie, :, il, ir, ic] = res_convolve
@@ -91,19 +92,14 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
             fill[ie, time_slice, il, ir, ic] = res_convolve
 
         if mode == 'valid':
-            # generate the mask for the output data and convert the output to a masked array
-            mask = np.empty(fill.shape, dtype=bool)
-            mask[...] = values.mask[0, 0, 0, :, :]
-            fill = np.ma.array(fill, mask=mask)
-
             # identify where the two arrays completely overlap and collect the indices to subset the field object
             # attached to the calculation object
-            overlap_mask = np.ones(mask.shape, dtype=bool)
+            overlap_mask = np.ones(fill.shape, dtype=bool)
             overlap_mask[:, slice(0, 0 - (v.shape[0] - 1)), :, :, :] = False
             fill.mask[:] = np.logical_or(fill.mask, overlap_mask)
             # self.field = self.field[:, slice(0, 0-(v.shape[0]-1)), :, :, :]
         else:
             # same does not modify the output array size
-            fill = np.ma.array(fill, mask=values.mask)
+            fill.mask[:] = np.logical_or(fill.mask, values.mask)
 
         return fill
-- 
2.43.0


From 34c7887c0cb8e3bd081a6d81208dfc9f4d494420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 36/52] fix: do not use masked values in durations

---
 src/ocgis/calc/library/index/duration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index 0daa662..b83c4c2 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -48,9 +48,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         store.resize(shp_out)
 
-        # update the output mask. this only applies to geometries so pick the
-        # first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # update the output mask. there is no duration if all values are masked
+        store = np.ma.array(store, mask=values.mask.all(axis=0))
 
         return store
 
@@ -69,7 +68,8 @@ class Duration(base.AbstractUnivariateSetFunction, base.AbstractParameterizedFun
 
         # find longest sequence for each geometry across time dimension
         for rowidx, colidx in iter_array(values[0, :, :], use_mask=False):
-            vec = arr[:, rowidx, colidx].reshape(-1)
+            # masked values are not part of a duration
+            vec = np.ma.filled(arr[:, rowidx, colidx], False).reshape(-1)
             # check first if there is a longer series than 1
             if np.any(np.diff(ref[vec]) == 1):
                 # find locations where the values switch
@@ -119,8 +119,8 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
             store[ii] = summary
         store.resize(shp_out)
 
-        # Update the output mask. this only applies to geometries so pick the first masked time field
-        store = np.ma.array(store, mask=values.mask[0, :, :])
+        # Update the output mask. There is no duration if all values are masked.
+        store = np.ma.array(store, mask=values.mask.all(axis=0))
 
         return store
 
-- 
2.43.0


From 368cdf2b7ed10e70ddb6105d86df3780c529253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 37/52] fix: mask sample sizes only if there is no sample

---
 src/ocgis/calc/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 8f596e9..6e9def0 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -282,7 +282,7 @@ class AbstractFunction(AbstractOcgisObject):
 
         to_sum = np.invert(values.mask)
         ret = np.ma.sum(to_sum, axis=0)
-        ret = np.ma.array(ret, mask=values.mask[0, :, :])
+        ret = np.ma.array(ret, mask=values.mask.all(axis=0))
         return ret
 
     @staticmethod
-- 
2.43.0


From f88f33686dd526334ae22978128fd650aefb3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 38/52] fix: keep the mask of spatially aggregated calculations

---
 src/ocgis/calc/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index 6e9def0..fc2c473 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -499,7 +499,8 @@ class AbstractFunction(AbstractOcgisObject):
                     if self.spatial_aggregation:
                         # Weights are not currently conformed so should not be used.
                         res = self.aggregate_spatial(res, None)
-                        carr_fill.data[ir, it, il, :, :] = res
+                        carr_fill.data[ir, it, il, :, :] = np.ma.getdata(res)
+                        carr_fill.mask[ir, it, il, :, :] = np.ma.getmaskarray(res)
                     else:
                         try:
                             carr_fill.data[ir, it, il, :, :] = res.data
-- 
2.43.0


From 5671fd43717ac56acd17e45b0dc263c03afbee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 39/52] fix: keep entirely masked elements masked in
 convolutions

---
 src/ocgis/calc/library/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/calc/library/math.py b/src/ocgis/calc/library/math.py
index 36d4ddd..616e54c 100644
--- a/src/ocgis/calc/library/math.py
+++ b/src/ocgis/calc/library/math.py
@@ -76,7 +76,7 @@ class Convolve1D(base.AbstractUnivariateFunction, base.AbstractParameterizedFunc
         shape_fill = list(values.shape)
         # if mode == 'valid':
         #     shape_fill[1] = max(values.shape[1], v.shape[0]) - min(values.shape[1], v.shape[0]) + 1
-        fill = np.ma.array(np.zeros(shape_fill, dtype=self.dtype), mask=False)
+        fill = np.ma.array(np.zeros(shape_fill, dtype=self.dtype), mask=True)
 
         # perform the convolution on the time axis
         itr = iter_array(values)
-- 
2.43.0


From 7640e3488a807cbb477c9a795f690d7cc2c4af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 40/52] fix: union dimensions when averaging variables with
 different dimensions

---
 src/ocgis/variable/geom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index e506ecb..667a1ff 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -974,14 +974,14 @@ class GeometryVariable(AbstractSpatialVariable):
                 if len(range_to_itr) > 0:
                     # New dimensions for the spatially averaged variable. Unioned dimension is always last. Remove the
                     # dimensions aggregated by the weighted average.
-                    new_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
-                    new_dimensions.append(union_dimension)
+                    target_dimensions = [dim for dim in var_to_weight.dimensions if dim.name not in dimension_names]
+                    target_dimensions.append(union_dimension)
 
                     # Prepare the spatially averaged variable.
                     target = ret.parent[var_to_weight.name]
                     target.set_mask(None)
                     target._value = None
-                    target.set_dimensions(new_dimensions)
+                    target.set_dimensions(target_dimensions)
                     target.allocate_value()
 
                     # Swap weight axes to make sure they align with the target variable.
-- 
2.43.0


From 8d037a72ccc24967238409427897efa47620247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:57 +0000
Subject: [PATCH 41/52] fix: keep spatial averages of masked values masked

---
 src/ocgis/variable/geom.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 667a1ff..7f4e149 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -992,6 +992,7 @@ class GeometryVariable(AbstractSpatialVariable):
                         weights = weights.swapaxes(*sc)
 
                     # The main weighting loop. Can get quite intensive with many, large iteration dimensions.
+                    target_mask = np.zeros(target.shape, dtype=bool)
                     len_names_to_itr = len(names_to_itr)
                     slice_none = slice(None)
                     squeeze_out = [ii for ii, dim in enumerate(var_to_weight.dimensions) if dim.name in names_to_itr]
@@ -1007,7 +1008,12 @@ class GeometryVariable(AbstractSpatialVariable):
                         if should_squeeze:
                             data_to_weight = np_squeeze(data_to_weight, axis=tuple(squeeze_out))
                         weighted_value = np_atleast_1d(np_ma_average(data_to_weight, weights=weights))
-                        target[w_slc].get_value()[:] = weighted_value
+                        target[w_slc].get_value()[:] = np.ma.getdata(weighted_value)
+                        # The average is masked if there are only masked values.
+                        target_slice = tuple(w_slc.get(dn, slice_none) for dn in target.dimension_names)
+                        target_mask[target_slice] = np.ma.getmaskarray(weighted_value)
+                    if target_mask.any():
+                        target.set_mask(target_mask)
                 else:
                     target_to_weight = var_to_weight.get_masked_value()
                     # Sort to minimize floating point sum errors.
@@ -1048,9 +1054,10 @@ class GeometryVariable(AbstractSpatialVariable):
                     dimensions_to_itr = [dim.name for dim in var_to_weight.dimensions if
                                          dim.name != union_dimension.name]
                     slc = {union_dimension.name: 0}
+                    weighted_mask = np.zeros(var_to_weight.shape, dtype=bool)
                     for idx_slc in var_to_weight.iter_dict_slices(dimensions=dimensions_to_itr):
                         idx_slc.update(slc)
-                        to_weight = var_to_weight[idx_slc].get_value().flatten()[0]
+                        to_weight = var_to_weight[idx_slc].get_masked_value().flatten()[0]
                         if vm.rank == root:
                             collected_to_weight = [to_weight]
                         if not vm.rank == root:
@@ -1062,13 +1069,17 @@ class GeometryVariable(AbstractSpatialVariable):
                                     collected_to_weight.append(recv_to_weight)
 
                             # Sort to minimize floating point sum errors.
-                            collected_to_weight = np.array(collected_to_weight)
+                            collected_to_weight = np.ma.array(collected_to_weight)
                             sindices = np.argsort(collected_to_weight)
                             collected_to_weight = collected_to_weight[sindices]
                             rank_weights = rank_weights[sindices]
 
                             weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
-                            var_to_weight[idx_slc].get_value()[:] = weighted
+                            var_to_weight[idx_slc].get_value()[:] = np.ma.getdata(weighted)
+                            mask_slc = tuple(idx_slc[dn] for dn in var_to_weight.dimension_names)
+                            weighted_mask[mask_slc] = np.ma.getmaskarray(weighted)[0]
+                    # There is a value if it is not masked on all ranks.
+                    var_to_weight.set_mask(weighted_mask if weighted_mask.any() else None)
         if vm.rank == root:
             return ret
         else:
-- 
2.43.0


From 83aec4c4e0110b52cf0de1558ffd3b2156e8716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:55 +0000
Subject: [PATCH 42/52] fix: use the weights of each rank for every spatially
 averaged value

---
 src/ocgis/variable/geom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/variable/geom.py b/src/ocgis/variable/geom.py
index 7f4e149..13fe128 100644
--- a/src/ocgis/variable/geom.py
+++ b/src/ocgis/variable/geom.py
@@ -1072,9 +1072,9 @@ class GeometryVariable(AbstractSpatialVariable):
                             collected_to_weight = np.ma.array(collected_to_weight)
                             sindices = np.argsort(collected_to_weight)
                             collected_to_weight = collected_to_weight[sindices]
-                            rank_weights = rank_weights[sindices]
+                            sorted_rank_weights = rank_weights[sindices]
 
-                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=rank_weights))
+                            weighted = np.atleast_1d(np.ma.average(collected_to_weight, weights=sorted_rank_weights))
                             var_to_weight[idx_slc].get_value()[:] = np.ma.getdata(weighted)
                             mask_slc = tuple(idx_slc[dn] for dn in var_to_weight.dimension_names)
                             weighted_mask[mask_slc] = np.ma.getmaskarray(weighted)[0]
-- 
2.43.0


From 58cacc71922323510b7ec2ab6e28ec07de98ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 43/52] fix: remove incomplete time regions from the end of the
 list

---
 src/ocgis/variable/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/variable/temporal.py b/src/ocgis/variable/temporal.py
index 96a35da..192f19a 100644
--- a/src/ocgis/variable/temporal.py
+++ b/src/ocgis/variable/temporal.py
@@ -1073,7 +1073,7 @@ def get_time_regions(seasons, dates, raise_if_incomplete=True):
                 td.get_time_region(sub_time_region)
         except EmptySubsetError:
             remove.append(idx)
-    for xx in remove:
+    for xx in reversed(remove):
         time_regions.pop(xx)
 
     return time_regions
-- 
2.43.0


From 9c242d205feaa00e6c837d28025d03fd0c7367d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 44/52] fix: a collection is empty if any of its children is

---
 src/ocgis/variable/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ocgis/variable/base.py b/src/ocgis/variable/base.py
index 84b3144..988d258 100644
--- a/src/ocgis/variable/base.py
+++ b/src/ocgis/variable/base.py
@@ -2409,8 +2409,7 @@ def get_is_empty_recursive(target):
     if target._is_empty is None:
         ret = any([v.is_empty for v in list(target.values())])
         if not ret:
-            for child in list(target.children.values()):
-                ret = get_is_empty_recursive(child)
+            ret = any([get_is_empty_recursive(child) for child in list(target.children.values())])
     else:
         ret = target._is_empty
     return ret
-- 
2.43.0


From ead59a2d31c8040012e3c3f59121909ff32c6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 45/52] fix: test each column for touching in geometry bounds
 hints

---
 src/ocgis/spatial/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocgis/spatial/grid.py b/src/ocgis/spatial/grid.py
index 702868b..f1ebcdd 100644
--- a/src/ocgis/spatial/grid.py
+++ b/src/ocgis/spatial/grid.py
@@ -1246,7 +1246,7 @@ def get_hint_mask_from_geometry_bounds(grid, bbox, invert=True, no_touching=Fals
             for ii in range(grid.shape[0]):
                 ety[ii, :] = ty[ii]
             for jj in range(grid.shape[1]):
-                etx[:, jj] = tx[ii]
+                etx[:, jj] = tx[jj]
             tx = etx
             ty = ety
         if np.any(np.logical_and(tx, ty)):
-- 
2.43.0


From b596eb7724795ea580f0d8ec5721ae45fde783ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 46/52] fix: evaluate each expression of a request

---
 src/ocgis/calc/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/calc/engine.py b/src/ocgis/calc/engine.py
index 29ee0c7..bd73adb 100644
--- a/src/ocgis/calc/engine.py
+++ b/src/ocgis/calc/engine.py
@@ -104,8 +104,8 @@ class CalculationEngine(object):
                             new_temporal = function.tgd.extract()
                     except KeyError:
                         # Likely an eval function which does not have the name key.
-                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=self.funcs[0]['func'],
-                                                meta_attrs=self.funcs[0].get('meta_attrs'))
+                        function = EvalFunction(field=field, file_only=file_only, vc=out_vc, expr=f['func'],
+                                                meta_attrs=f.get('meta_attrs'))
 
                     ocgis_lh('calculation initialized', logger='calc.engine', level=logging.DEBUG)
 
-- 
2.43.0


From 3e4bc97cea2ac3edc66b46155023f45734ba741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:06 +0000
Subject: [PATCH 47/52] fix: require one new name for each renamed variable

---
 src/ocgis/driver/request/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/driver/request/core.py b/src/ocgis/driver/request/core.py
index 10667d2..442a460 100644
--- a/src/ocgis/driver/request/core.py
+++ b/src/ocgis/driver/request/core.py
@@ -389,7 +389,11 @@ class RequestDataset(AbstractRequestObject):
     @property
     def rename_variable_map(self):
         ret = {}
-        for name, rename in zip(get_iter(self.variable), get_iter(self.rename_variable)):
+        names, renames = get_tuple(self.variable), get_tuple(self.rename_variable)
+        if len(names) != len(renames):
+            msg = 'Must match "variable" element-wise. The sequence lengths differ.'
+            raise RequestValidationError('rename_variable', msg)
+        for name, rename in zip(names, renames):
             ret[name] = rename
         return ret
 
-- 
2.43.0


From 6a530a6bcbe76c7eb3ac818419cac38b76910db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 48/52] fix: do not give geometries the coordinate system of
 another one

---
 src/ocgis/ops/parms/definition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ocgis/ops/parms/definition.py b/src/ocgis/ops/parms/definition.py
index d33b974..1a9b3fc 100644
--- a/src/ocgis/ops/parms/definition.py
+++ b/src/ocgis/ops/parms/definition.py
@@ -684,10 +684,12 @@ class Geom(base.AbstractParameter):
                         ocgis_lh(exc=DefinitionValidationError(self, 'Geometry dictionaries must have a "geom" key.'))
                     if 'properties' not in element:
                         element['properties'] = {self._ugid_key: ii}
-                    crs = element.get('crs', constants.UNINITIALIZED)
                     if 'crs' not in element:
                         ocgis_lh(msg='No CRS in geometry dictionary - assuming WGS84.', level=logging.WARN)
-                ret = Field.from_records(value, crs=crs, uid=self.geom_uid, union=self.union,
+                crs = [element.get('crs', constants.UNINITIALIZED) for element in value]
+                if any([c != crs[0] for c in crs]):
+                    raise DefinitionValidationError(self, 'Geometry dictionaries must have the same CRS.')
+                ret = Field.from_records(value, crs=crs[0], uid=self.geom_uid, union=self.union,
                                          data_model=self.data_model)
             else:
                 if len(value) == 2:
-- 
2.43.0


From 844e4265794a5e0fbf5a13e7d85170cfb8a6a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:51 +0000
Subject: [PATCH 49/52] fix: validate every calculation of a multivariate
 function

---
 src/ocgis/calc/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ocgis/calc/base.py b/src/ocgis/calc/base.py
index fc2c473..e8c2582 100644
--- a/src/ocgis/calc/base.py
+++ b/src/ocgis/calc/base.py
@@ -904,7 +904,6 @@ class AbstractMultivariateFunction(AbstractFunction):
                     to_check = kwds[xx]
                     if to_check not in fnames:
                         should_raise = True
-                break
         if should_raise:
             from ocgis.ops.parms.definition import Calc
 
-- 
2.43.0


From 771a2fd08150f8ac829a945cc7ccc3dc86e99095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:51 +0000
Subject: [PATCH 50/52] fix: take the files of a folder in sorted order

---
 src/ocgis/spatial/geom_cabinet.py | 6 ++++--
 src/ocgis/util/helpers.py         | 3 ++-
 src/ocgis/util/zipper.py          | 5 +++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ocgis/spatial/geom_cabinet.py b/src/ocgis/spatial/geom_cabinet.py
index 86c5390..08f387d 100644
--- a/src/ocgis/spatial/geom_cabinet.py
+++ b/src/ocgis/spatial/geom_cabinet.py
@@ -63,7 +63,8 @@ class GeomCabinet(object):
         """
         ret = []
         for dirpath, dirnames, filenames in os.walk(self.path):
-            for fn in filenames:
+            dirnames.sort()
+            for fn in sorted(filenames):
                 if fn.endswith('shp'):
                     ret.append(os.path.splitext(fn)[0])
         return ret
@@ -87,7 +88,8 @@ class GeomCabinet(object):
     def _get_path_(self, key, ext='shp'):
         ret = None
         for dirpath, dirnames, filenames in os.walk(self.path):
-            for filename in filenames:
+            dirnames.sort()
+            for filename in sorted(filenames):
                 if filename.endswith(ext) and os.path.splitext(filename)[0] == key:
                     ret = os.path.join(dirpath, filename)
                     return ret
diff --git a/src/ocgis/util/helpers.py b/src/ocgis/util/helpers.py
index d5d76b1..819c15a 100644
--- a/src/ocgis/util/helpers.py
+++ b/src/ocgis/util/helpers.py
@@ -908,7 +908,8 @@ def locate(pattern, root=os.curdir, followlinks=True):
     """
 
     for path, dirs, files in os.walk(os.path.abspath(root), followlinks=followlinks):
-        for filename in [x for x in files if x == pattern]:
+        dirs.sort()
+        for filename in [x for x in sorted(files) if x == pattern]:
             yield os.path.join(path, filename)
 
 
diff --git a/src/ocgis/util/zipper.py b/src/ocgis/util/zipper.py
index b99ff71..d164e0c 100644
--- a/src/ocgis/util/zipper.py
+++ b/src/ocgis/util/zipper.py
@@ -13,7 +13,7 @@ class Zipper(object):
         buffer = io.BytesIO()
         with zipfile.ZipFile(buffer, 'w', zipfile.ZIP_DEFLATED) as zip:
             try:
-                items = os.listdir(self.base_path)
+                items = sorted(os.listdir(self.base_path))
                 path = self.base_path
             except OSError:
                 path, items = os.path.split(self.base_path)
@@ -38,7 +38,8 @@ class Zipper(object):
 def get_items(folder):
     items = []
     for dirpath, dirnames, filenames in os.walk(folder):
-        for filename in filenames:
+        dirnames.sort()
+        for filename in sorted(filenames):
             if os.path.split(dirpath)[1] == 'shp':
                 arcname = os.path.join('shp', filename)
             else:
-- 
2.43.0


From 56a6cbe264cbbc70dec3151db53fec11672aa5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:51 +0000
Subject: [PATCH 51/52] fix: choose the wrapped state of all ranks
 independently of the order of a set

---
 src/ocgis/variable/crs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocgis/variable/crs.py b/src/ocgis/variable/crs.py
index 33a7759..a7f70fa 100644
--- a/src/ocgis/variable/crs.py
+++ b/src/ocgis/variable/crs.py
@@ -265,8 +265,10 @@ class AbstractCRS(AbstractInterfaceObject):
                 ret = WrappedState.WRAPPED
             elif WrappedState.UNWRAPPED in rets:
                 ret = WrappedState.UNWRAPPED
+            elif WrappedState.UNKNOWN in rets:
+                ret = WrappedState.UNKNOWN
             else:
-                ret = list(rets)[0]
+                ret = None
         else:
             ret = None
         ret = vm.bcast(ret)
-- 
2.43.0


From 675388f5f95d3e624862d9f5d32b75526b0fcd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:51 +0000
Subject: [PATCH 52/52] fix: sort durations, years and days that are taken from
 sets

---
 src/ocgis/calc/library/index/duration.py | 2 +-
 src/ocgis/calc/library/statistics.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ocgis/calc/library/index/duration.py b/src/ocgis/calc/library/index/duration.py
index b83c4c2..52b4729 100644
--- a/src/ocgis/calc/library/index/duration.py
+++ b/src/ocgis/calc/library/index/duration.py
@@ -145,7 +145,7 @@ class FrequencyDuration(base.AbstractKeyedOutputFunction, Duration):
 
         set_duration = set(duration)
         ret = np.empty(len(set_duration), dtype=self.structure_dtype)
-        for ii, sd in enumerate(set_duration):
+        for ii, sd in enumerate(sorted(set_duration)):
             idx = np.array(duration) == sd
             count = idx.sum()
             ret[ii]['duration'] = sd
diff --git a/src/ocgis/calc/library/statistics.py b/src/ocgis/calc/library/statistics.py
index 469b99f..ab7f491 100644
--- a/src/ocgis/calc/library/statistics.py
+++ b/src/ocgis/calc/library/statistics.py
@@ -279,7 +279,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
             dic[dt.month].append(dt.day)
 
         for key in list(dic.keys()):
-            dic[key] = list(set(dic[key]))
+            dic[key] = sorted(set(dic[key]))
 
         return dic
 
@@ -367,7 +367,7 @@ class DailyPercentile(base.AbstractUnivariateFunction, base.AbstractParameterize
         for dt in dt_arr:
             year_list.append(dt.year)
 
-        year_list = list(set(year_list))
+        year_list = sorted(set(year_list))
 
         return year_list
 
-- 
2.43.0

