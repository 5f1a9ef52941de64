From d3c30b12e70098b029d6527fd6278ca72e0985f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 01/40] fix: use default row group size when 'max_nirgs' is set
 alone in write()

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..a43ded2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -508,6 +508,8 @@ def write(
         if max_nirgs is not None:
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             total_rows_in_irgs = len(data)
             rrg_start_idx_tmp = n_rrgs - 1
             min_row_group_size = int(max_row_group_size * 0.9)
-- 
2.43.0


From 36dfecd7ed73d7a45c88024827d7eac395b0fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 02/40] fix: do not try coalescing in write() when there is no
 incomplete row group

---
 oups/store/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index a43ded2..718d5a0 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -519,7 +519,8 @@ def write(
             rrg_start_idx_tmp += 1
             # Confirm or not coalescing of incomplete row groups.
             n_irgs = n_rrgs - rrg_start_idx_tmp
-            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
+            # Without incomplete row groups, there is nothing to coalesce.
+            if n_irgs and (total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs):
                 if rrg_start_idx and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
-- 
2.43.0


From 3f54e4241836581ff1a61cd89e5ce7a5f7104d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 03/40] fix: account for an overlap starting at first row group
 when coalescing in write()

---
 oups/store/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 718d5a0..989a4f8 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -521,7 +521,7 @@ def write(
             n_irgs = n_rrgs - rrg_start_idx_tmp
             # Without incomplete row groups, there is nothing to coalesce.
             if n_irgs and (total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs):
-                if rrg_start_idx and (
+                if rrg_start_idx is not None and (
                     not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
                 ):
                     # 1st case checked: case 'ordered_on' is used with potential
-- 
2.43.0


From 6c88dda07e5d87eeed6dfdb6b2b031aee0528e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 04/40] fix: insert data at its position in write() when lying
 before or between row groups

---
 oups/store/writer.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 989a4f8..88dc3eb 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -460,6 +460,9 @@ def write(
         rrg_start_idx, rrg_end_idx = None, None
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
+        # Without overlap, index of recorded row group before which is located
+        # new data. By default, new data comes last.
+        insert_idx = n_rrgs
         if duplicates_on is not None:
             if not ordered_on:
                 raise ValueError(
@@ -505,6 +508,11 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
+            else:
+                # No overlap. Number of recorded row groups before new data.
+                insert_idx = len(
+                    filter_row_groups(pf, [[(ordered_on, "<", start)]], as_idx=True),
+                )
         if max_nirgs is not None:
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
@@ -529,9 +537,10 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
-                    # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
+                elif not rrg_end_idx and rrg_start_idx_tmp <= insert_idx:
+                    # 2nd case checked: case 'ordered_on' is not used, or there
+                    # is no overlap. New data is necessarily appended in this
+                    # case, or is located within the incomplete row groups.
                     rrg_start_idx = rrg_start_idx_tmp
         if rrg_start_idx is None:
             # Case 'appending' (no overlap with recorded data identified).
@@ -545,6 +554,13 @@ def write(
                 compression=compression,
                 write_fmd=False,
             )
+            if insert_idx < n_rrgs:
+                # New data lies before or between recorded row groups.
+                # Move new row groups, currently last, to this position.
+                rgs = pf.fmd.row_groups
+                pf.fmd.row_groups = rgs[:insert_idx] + rgs[n_rrgs:] + rgs[insert_idx:n_rrgs]
+                # Rename partition files, and write fmd.
+                pf._sort_part_names(write_fmd=False)
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
-- 
2.43.0


From cc3cabdd42dace6d20d1fada0f3328b239e1b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 05/40] fix: accept empty dataframe when updating an existing
 dataset in write()

---
 oups/store/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 88dc3eb..561c571 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -484,6 +484,10 @@ def write(
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
                 duplicates_on = [duplicates_on, ordered_on]
+        if not len(data):
+            # No data to write, only manage and write metadata.
+            write_metadata(pf=pf, metadata=metadata, md_key=md_key)
+            return
         if ordered_on is not None:
             # Get 'rrg_start_idx' & 'rrg_end_idx'.
             if isinstance(data, pDataFrame):
-- 
2.43.0


From 2014efd66f5bf4639803423cd32795cda3bef535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 06/40] fix: keep null values when merging an all-null column
 with recorded strings in write()

---
 oups/store/writer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 561c571..b40c79c 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -573,7 +573,14 @@ def write(
             recorded = open_many(files)
             if isinstance(data, pDataFrame):
                 # Convert to vaex.
-                data = from_pandas(data)
+                # A column with only null values is not seen as a column of strings
+                # by vaex, which then would turn null values into 'nan' strings.
+                null_cols = [
+                    name
+                    for name in data.columns
+                    if data[name].isna().all() and recorded.is_string(str(name))
+                ]
+                data = from_pandas(data.astype({name: "string" for name in null_cols}))
             # For concatenation of numpy 'timedelta64' to arrow 'time64', check
             # https://github.com/vaexio/vaex/issues/2024
             data = recorded.concat(data)
-- 
2.43.0


From 28abd5b33d64b2a6e82519d73e3a021da8ef10e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 07/40] fix: escape fields separator when building a key from a
 string, for any separator

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..d0aa200 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -194,7 +194,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From 4fe6f1dffe0fdfd703bdd0de9636d3d6075bb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 08/40] fix: manage empty strings as field values in keys

---
 oups/store/indexer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index d0aa200..382fc6b 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -107,6 +107,9 @@ last position.",
                     )
             if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
                 raise TypeError(f"field type {type(field)} not possible.")
+        if fields_[0] == "" and (number_of_fields == 1 or _is_dataclass_instance(fields_[1])):
+            # Name of the directory for this level would be an empty string.
+            raise ValueError("an empty string cannot be the only field value of a level.")
     return
 
 
@@ -138,11 +141,9 @@ def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> st
     to_str = []
     for fields_ in _dataclass_instance_to_lists(toplevel):
         # Relying on the fact that only the tail can be a dataclass instance.
-        to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
-        to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
-    else:
-        to_str[-1] = str(fields_[-1])
+        if _is_dataclass_instance(fields_[-1]):
+            fields_ = fields_[:-1]
+        to_str.append(toplevel.fields_sep.join(map(str, fields_)))
     return levels_sep.join(to_str)
 
 
-- 
2.43.0


From 72558c38662118447b2c3b08cfa0ab61d6456add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 09/40] fix: do not list as keys directories which path is not
 the one of the key

---
 oups/store/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..d153916 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -81,7 +81,9 @@ def get_keys(basepath: str, indexer: Type[dataclass]) -> SortedSet:
             for path, files in paths_files
             if (
                 any((is_parquet_file(file) for file in files))
-                and (key := indexer.from_path(DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                and (key := indexer.from_path(key_path := DIR_SEP.join(path.rsplit(DIR_SEP, depth)[1:])))
+                # Filter out paths that can be parsed, but that are not the path of the key.
+                and key.to_path == key_path
             )
         ],
     )
-- 
2.43.0


From 33d57b2a08d664e96c6582724ad2a453c1b3639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 10/40] fix: never remove base directory when deleting a key,
 however base path is spelled

---
 oups/store/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index d153916..a551ebc 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -276,6 +276,9 @@ class ParquetSet:
             self._keys.remove(key)
             # Remove possibly empty directories.
             upper_dir = strip_path_tail(dirpath)
-            while (upper_dir != basepath) and (not listdir(upper_dir)):
+            # Intermediate levels only, never 'basepath' itself.
+            for _ in range(self._indexer.depth - 1):
+                if listdir(upper_dir):
+                    break
                 rmdir(upper_dir)
                 upper_dir = strip_path_tail(upper_dir)
-- 
2.43.0


From def5485f2bf77ae06a2bcf2df999581ba5f2767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 11/40] fix: do not modify list given for 'duplicates_on' in
 write()

---
 oups/store/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b40c79c..0579485 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -112,7 +112,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -479,7 +479,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From ae52e42f9e0359b2bbe99188e7ae6e2217be8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 12/40] fix: add falsy values of oups-specific metadata, and do
 not record 'None' at first write

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 0579485..29cfd88 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -306,11 +306,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         if metadata:
-- 
2.43.0


From 8a0c619573c9041ad0b4728a59f08e6e9e3c4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 13/40] fix: do not modify metadata dict given to write()

---
 oups/store/writer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 29cfd88..eb2d825 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -315,10 +315,8 @@ def write_metadata(
             }
         del OUPS_METADATA[md_key]
 
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        # Not modifying input 'metadata', which can be used for several datasets.
+        metadata = {**(metadata or {}), OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
     if metadata:
         update_custom_metadata(pf, metadata)
-- 
2.43.0


From 293cc5ab90e7a694f06044ab9248e133c8a9bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 14/40] fix: record aggregation metadata when last seed index
 is 0

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..4225935 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -789,7 +789,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -823,7 +823,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 315ffeccf2c1086710e9d2b14845940a62c95dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 15/40] fix: do not keep aggregation metadata pending when
 writing results fails

---
 oups/aggstream/aggstream.py | 50 +++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 4225935..f29ea04 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -810,28 +810,34 @@ def _post_n_write_agg_chunks(
             },
         }
     # When there is no result, 'main_res' is None.
-    if isinstance(main_res, DataFrame):
-        # Record data (with metadata possibly updated).
-        if agg_res_type is AggResType.BOTH:
-            store[main_key] = (
-                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
-                main_res,
-            )
-            store[snap_key] = (
-                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
-                snap_res,
-            )
-        else:
-            store[main_key] = write_config, main_res
-    elif last_seed_index is not None:
-        # If no result, metadata is possibly to be written, as this is the
-        # flag indicating the last 'aggstream' local iteration.
-        try:
-            write_metadata(pf=store[main_key].pf, md_key=main_key)
-        except FileNotFoundError:
-            # In case no Parquet file exist yet, need to initiate one to start
-            # storing metadata.
-            store[main_key] = DataFrame()
+    try:
+        if isinstance(main_res, DataFrame):
+            # Record data (with metadata possibly updated).
+            if agg_res_type is AggResType.BOTH:
+                store[main_key] = (
+                    write_config
+                    | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
+                    main_res,
+                )
+                store[snap_key] = (
+                    write_config
+                    | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
+                    snap_res,
+                )
+            else:
+                store[main_key] = write_config, main_res
+        elif last_seed_index is not None:
+            # If no result, metadata is possibly to be written, as this is the
+            # flag indicating the last 'aggstream' local iteration.
+            try:
+                write_metadata(pf=store[main_key].pf, md_key=main_key)
+            except FileNotFoundError:
+                # In case no Parquet file exist yet, need to initiate one to start
+                # storing metadata.
+                store[main_key] = DataFrame()
+    finally:
+        # If writing failed, do not let metadata be recorded with a later write.
+        OUPS_METADATA.pop(main_key, None)
     if initial_agg_res:
         # If there have been results, they have been processed (either written
         # directly or through 'post()'). Time to reset aggregation buffers and
-- 
2.43.0


From 16e7b660d4ad80406cb9f7c7689d67236737df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 16/40] fix: write snapshots before bins, so that restart
 metadata do not cover missing snapshots

---
 oups/aggstream/aggstream.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index f29ea04..8c7bce9 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -814,16 +814,18 @@ def _post_n_write_agg_chunks(
         if isinstance(main_res, DataFrame):
             # Record data (with metadata possibly updated).
             if agg_res_type is AggResType.BOTH:
-                store[main_key] = (
-                    write_config
-                    | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
-                    main_res,
-                )
+                # Restart metadata are recorded with 'main_key'. It is written last,
+                # so that they are not recorded if writing snapshots fails.
                 store[snap_key] = (
                     write_config
                     | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
                     snap_res,
                 )
+                store[main_key] = (
+                    write_config
+                    | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
+                    main_res,
+                )
             else:
                 store[main_key] = write_config, main_res
         elif last_seed_index is not None:
-- 
2.43.0


From 89f8a2551a3f016b5b269ea57c46d7a454e31bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 17/40] fix: do not modify 'keys' configuration given to
 AggStream

---
 oups/aggstream/aggstream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 8c7bce9..366a0d8 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -170,10 +170,9 @@ def _init_keys_config(
     consolidated_keys_config = {}
     agg_pd = {}
     for key, key_conf_in in keys_config.items():
-        # Parameters in 'key_conf_in' take precedence over those in
-        # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
-        # the initial 'key_conf_in'.
+        # Copy, so that when parameters are popped, it does not affect the
+        # initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
@@ -183,6 +182,8 @@ def _init_keys_config(
             key_conf_in[KEY_MAX_IN_MEMORY_SIZE_B] = int(
                 key_conf_in.pop(KEY_MAX_IN_MEMORY_SIZE_MB) * MEGABYTES_TO_BYTES,
             )
+        # Parameters in 'key_conf_in' take precedence over those in
+        # 'keys_default'.
         key_conf_in = keys_default | key_conf_in
         # Check parameters in 'key_conf_in' are valid ones.
         for param in key_conf_in:
-- 
2.43.0


From b2d16fc7904b6643a0d0089f734cd93dbfa87d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 18/40] fix: detect a key used twice when within a tuple of
 keys for bins and snapshots

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 366a0d8..2f0e652 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1329,8 +1329,12 @@ class AggStream:
                 _p_jobs[n_jobs] = Parallel(n_jobs=n_jobs, prefer="threads")
             _all_keys.extend(keys[filt_id])
         # Check for duplicates keys between different filter ids.
+        # A key can be used within a tuple (key for bins, key for snapshots).
+        _flat_keys = chain.from_iterable(
+            key if isinstance(key, tuple) else (key,) for key in _all_keys
+        )
         seen = set()
-        dupes = [key for key in _all_keys if key in seen or seen.add(key)]
+        dupes = [key for key in _flat_keys if key in seen or seen.add(key)]
         if dupes:
             raise ValueError(f"not possible to have key(s) {dupes} used for different filter ids.")
         self.p_jobs = _p_jobs
-- 
2.43.0


From 3d5a52972f4583b4ecaad27527a56819f2972026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 19/40] fix: accept 'None' as filter for the no filter id

---
 oups/aggstream/aggstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 2f0e652..d0b38f4 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1267,7 +1267,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
-- 
2.43.0


From 22e866847f553c323d249c04c1741c95522c7cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 20/40] fix: protect set of keys from concurrent additions

---
 oups/store/collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index a551ebc..6a036cc 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -10,6 +10,7 @@ from os import listdir
 from os import path as os_path
 from os import rmdir
 from shutil import rmtree
+from threading import Lock
 from typing import Tuple, Type, Union
 
 from pandas import DataFrame as pDataFrame
@@ -24,6 +25,10 @@ from oups.store.utils import strip_path_tail
 from oups.store.writer import write
 
 
+# 'SortedSet' is not thread-safe, and keys can be written in parallel.
+_KEYS_LOCK = Lock()
+
+
 def is_parquet_file(file: str) -> bool:
     """
     Assess extension to be that of a parquet file.
@@ -202,7 +207,8 @@ class ParquetSet:
         write(dirpath=dirpath, data=data, md_key=key, **kwargs)
         if key not in self:
             # If no trouble from writing, add key.
-            self._keys.add(key)
+            with _KEYS_LOCK:
+                self._keys.add(key)
         return
 
     def __setitem__(
-- 
2.43.0


From a0768cfd9b862088f72a39b601842c0e669a882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 21/40] fix: only open in vaex the files listed in dataset
 metadata

---
 oups/store/router.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 2422a5b..a0cdaed 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -6,13 +6,11 @@ Created on Wed Dec 26 22:30:00 2021.
 
 """
 from functools import cached_property
-from os import scandir
 
 from cloudpickle import loads
 from fastparquet import ParquetFile
 from vaex import open_many
 
-from oups.store.defines import DIR_SEP
 from oups.store.writer import OUPS_METADATA_KEY
 
 
@@ -76,12 +74,10 @@ class ParquetHandle:
         """
         Return handle to data through a vaex dataframe.
         """
-        # To circumvent vaex lexicographic filename sorting to order row
-        # groups, ordering the list of files is required.
-        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
-        files.sort(key=lambda x: int(x[5:-8]))
-        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
-        return open_many(map(prefix_dirpath, files))
+        # Files as listed in metadata, in row group order. A file not listed (left
+        # by an interrupted write for instance) is not part of the dataset.
+        pf = ParquetFile(self._dirpath)
+        return open_many([pf.row_group_filename(rg) for rg in pf.row_groups])
 
     def min_max(self, col: str) -> tuple:
         """
-- 
2.43.0


From f064647900471144cf671267d252f43b17a79a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 22/40] fix: accept empty chunks in seed

---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d0b38f4..acfb1c8 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -550,6 +550,9 @@ def _iter_data(
                 # Stop iteration in case of failing pre.
                 # Aggregation has been run up to the last valid chunk.
                 raise SeedPreException(str(e))
+        if seed_chunk.empty:
+            # No data in this chunk. Go to the next.
+            continue
         # Step 2 / If a previous remainder, concatenate it to give current
         # DataFrame its 'final' length.
         if not (seed_remainder is None or seed_remainder.empty):
-- 
2.43.0


From 39767cd419eaac12df8f73f715307ad94cf46afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 23/40] fix: accept an empty iterator as seed

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index acfb1c8..5a5afb2 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1388,7 +1388,11 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        try:
+            first = next(remainder)
+        except StopIteration:
+            # Nothing to aggregate.
+            return []
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From 9470377e091458c7f756cf25ab2b5d0bd3816d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 24/40] fix: access chunk ends by position in by_scale() when
 restarting with a Series

---
 oups/aggstream/segmentby.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..c024ccc 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -138,6 +138,16 @@ def _next_chunk_starts(
     return next_chunk_starts, n_null_chunks, False
 
 
+def _reset_index(values):
+    """
+    Reset index of a Series, so that its items can be accessed by position.
+
+    Anything else (for instance a DatetimeIndex) is returned as is.
+
+    """
+    return values.reset_index(drop=True) if isinstance(values, pSeries) else values
+
+
 def by_scale(
     on: pSeries,
     by: Union[TimeGrouper, pSeries, Tuple[pSeries]],
@@ -231,6 +241,8 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        chunk_labels = _reset_index(chunk_labels)
+        chunk_ends = _reset_index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
@@ -240,14 +252,14 @@ def by_scale(
                 # the one that was used in last at last iteration, try first to
                 # trim values in 'by' that are earlier than 'restart_key'.
                 n_chunk_ends_init = len(chunk_ends)
-                chunk_ends = chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]
+                chunk_ends = _reset_index(chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]])
                 if buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                     raise ValueError(
                         f"'by' needs to contain value {buffer[KEY_RESTART_KEY]} "
                         "to restart correctly.",
                     )
                 n_first_chunks_to_remove = n_chunk_ends_init - len(chunk_ends)
-                chunk_labels = chunk_labels[n_first_chunks_to_remove:]
+                chunk_labels = _reset_index(chunk_labels[n_first_chunks_to_remove:])
             if KEY_LAST_ON_VALUE in buffer:
                 # In the specific case 'on' has not been traversed completely
                 # at previous iteration, the chunk for the remaining of the
@@ -289,8 +301,8 @@ def by_scale(
                     # Only the 1st chunk is removed, because it was just
                     # checked that 2nd chunk complies correctly with this
                     # condition.
-                    chunk_ends = chunk_ends[1:]
-                    chunk_labels = chunk_labels[1:]
+                    chunk_ends = _reset_index(chunk_ends[1:])
+                    chunk_labels = _reset_index(chunk_labels[1:])
                 del buffer[KEY_LAST_ON_VALUE]
         if chunk_ends.empty:
             if isinstance(buffer, dict):
-- 
2.43.0


From d847ef4b44081429b14a3f4a174169c63efb1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 25/40] fix: keep the origin of time bins when restarting, if
 relative to data

---
 oups/aggstream/segmentby.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index c024ccc..2e09a20 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -30,6 +30,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -46,6 +47,7 @@ KEY_LAST_BIN_LABEL = "last_bin_label"
 KEY_LAST_BIN_END = "last_bin_end"
 KEY_RESTART_KEY = "restart_key"
 KEY_LAST_ON_VALUE = "last_on_value"
+KEY_ORIGIN = "origin"
 # Keys for 'bin_by' when a dict
 KEY_ON_COLS = "on_cols"
 KEY_BIN_BY = "bin_by"
@@ -213,6 +215,12 @@ def by_scale(
     if isinstance(by, TimeGrouper):
         # If 'buffer' is not empty, it necessarily contains 'KEY_RESTART_KEY'.
         first = buffer[KEY_RESTART_KEY] if buffer else on.iloc[0]
+        # In case 'by.origin' is relative to data, origin of the 1st iteration
+        # has to be kept at restart.
+        if buffer and KEY_ORIGIN in buffer:
+            origin, offset = buffer[KEY_ORIGIN], None
+        else:
+            origin, offset = by.origin, by.offset
         # In case 'by' is for snapshotting, and 'closed' is not set, take care
         # to use 'closed' provided.
         if closed is None:
@@ -223,9 +231,18 @@ def by_scale(
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
-            offset=by.offset,
+            origin=origin,
+            offset=offset,
         )
+        if (
+            buffer is not None
+            and isinstance(by.freq, Tick)
+            and (
+                by.origin == "start"
+                or (by.origin == "start_day" and Timedelta("1D") % Timedelta(by.freq))
+            )
+        ):
+            buffer[KEY_ORIGIN] = start
         edges = date_range(start, end, freq=by.freq)
         chunk_ends = edges[1:]
         chunk_labels = chunk_ends if by.label == RIGHT else edges[:-1]
-- 
2.43.0


From 2f70fc307d9d32b81531f7b63c3541f9f6dd091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 26/40] fix: do not leave an incomplete dataset when its
 creation fails in write()

---
 oups/store/writer.py | 50 +++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index eb2d825..dee6a03 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -8,8 +8,10 @@ Created on Wed Dec  6 22:30:00 2021.
 from ast import literal_eval
 from os import listdir as os_listdir
 from os import path as os_path
+from os import remove as os_remove
 from pickle import dumps
 from pickle import loads
+from shutil import rmtree
 from typing import Dict, Hashable, List, Tuple, Union
 
 from fastparquet import ParquetFile
@@ -622,24 +624,34 @@ def write(
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
             check_cmidx(chunk.columns)
-        fp_write(
-            dirpath,
-            chunk,
-            row_group_offsets=max_row_group_size,
-            compression=compression,
-            file_scheme="hive",
-            write_index=False,
-            append=False,
-        )
-        # Re-open to write remaining chunks.
-        pf = ParquetFile(dirpath)
-        # Appending remaining chunks.
-        pf.write_row_groups(
-            data=iter_data,
-            row_group_offsets=None,
-            sort_pnames=False,
-            compression=compression,
-            write_fmd=False,
-        )
+        initial_files = os_listdir(dirpath) if os_path.isdir(dirpath) else None
+        try:
+            fp_write(
+                dirpath,
+                chunk,
+                row_group_offsets=max_row_group_size,
+                compression=compression,
+                file_scheme="hive",
+                write_index=False,
+                append=False,
+            )
+            # Re-open to write remaining chunks.
+            pf = ParquetFile(dirpath)
+            # Appending remaining chunks.
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
+        except BaseException:
+            # Do not leave an incomplete dataset.
+            if initial_files is None:
+                rmtree(dirpath, ignore_errors=True)
+            else:
+                for file in set(os_listdir(dirpath)).difference(initial_files):
+                    os_remove(os_path.join(dirpath, file))
+            raise
     # Manage and write metadata.
     write_metadata(pf=pf, metadata=metadata, md_key=md_key)
-- 
2.43.0


From e2d1f06ecbfc19b269f13050754c88d44d4844df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 27/40] fix: keep metadata recorded with an empty dataframe at
 next write

---
 oups/store/writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index dee6a03..581f1f2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -625,6 +625,14 @@ def write(
         if isinstance(chunk.columns, MultiIndex):
             check_cmidx(chunk.columns)
         initial_files = os_listdir(dirpath) if os_path.isdir(dirpath) else None
+        custom_metadata = None
+        if initial_files and "_metadata" in initial_files:
+            # Dataset initiated without data: keep its metadata.
+            custom_metadata = {
+                key: value
+                for key, value in ParquetFile(dirpath).key_value_metadata.items()
+                if key != "pandas"
+            }
         try:
             fp_write(
                 dirpath,
@@ -634,6 +642,7 @@ def write(
                 file_scheme="hive",
                 write_index=False,
                 append=False,
+                custom_metadata=custom_metadata,
             )
             # Re-open to write remaining chunks.
             pf = ParquetFile(dirpath)
-- 
2.43.0


From 9c4061b09ff14989d070ce4d6b4635048c6818ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 28/40] fix: ignore row groups with only null values in
 ParquetHandle.min_max()

---
 oups/store/router.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index a0cdaed..e394cac 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -95,7 +95,11 @@ class ParquetHandle:
 
         """
         pf_stats = ParquetFile(self._dirpath).statistics
-        return (min(pf_stats["min"][col]), max(pf_stats["max"][col]))
+        # No statistics in a row group with only null values.
+        return (
+            min((val for val in pf_stats["min"][col] if val is not None), default=None),
+            max((val for val in pf_stats["max"][col] if val is not None), default=None),
+        )
 
     @property
     def metadata(self) -> dict:
-- 
2.43.0


From f424a0d5b2e378e471f42e443977bd70c7d17ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 29/40] fix: make keys serializable with 'pickle'

---
 oups/store/indexer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 382fc6b..5c18340 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -241,18 +241,19 @@ def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
     return depth
 
 
-def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
+def _reduce(obj: dataclass) -> Tuple[Callable, Tuple[Type[dataclass], str]]:
     """
     Reduce function for making 'Indexer' serializable.
 
     Returns
     -------
-    Tuple[Callable, Tuple[str]]
+    Tuple[Callable, Tuple[Type[dataclass], str]]
         See '__reduce' standard interface.
         https://docs.python.org/3/library/pickle.html#object.__reduce__
 
     """
-    return obj.from_str, (str(obj),)
+    # Not using class method 'from_str', that 'pickle' does not retrieve by name.
+    return _dataclass_instance_from_str, (type(obj), str(obj))
 
 
 class TopLevel(type):
-- 
2.43.0


From 7d3b468b135aa88e8b81dda2e0c5ce16513414cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 30/40] fix: check metadata before writing, so that an invalid
 one does not damage the dataset

---
 oups/store/writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 581f1f2..00b838c 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -455,6 +455,16 @@ def write(
             all_cols = data.get_column_names()
         if ordered_on not in all_cols:
             raise ValueError(f"column '{ordered_on}' does not exist in input data.")
+    # Metadata is written last. Check it before modifying any file.
+    for md_name, md_value in (metadata or {}).items():
+        if not isinstance(md_name, (str, bytes)) or not isinstance(
+            md_value,
+            (str, bytes, type(None)),
+        ):
+            raise TypeError(
+                f"metadata '{md_name}' has to be a string (or 'None' to remove it), "
+                f"not '{type(md_value)}'.",
+            )
     if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
         # Case updating an existing dataset.
         # Identify overlaps in row groups between new data and recorded data.
-- 
2.43.0


From fa88a0f64d9bfa4c5fa5948b4fa8b2169c20e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 31/40] fix: check oups-specific metadata can be serialized
 before writing data

---
 oups/store/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 00b838c..102f1f2 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -465,6 +465,9 @@ def write(
                 f"metadata '{md_name}' has to be a string (or 'None' to remove it), "
                 f"not '{type(md_value)}'.",
             )
+    if md_key in OUPS_METADATA:
+        # Raise if it cannot be serialized.
+        dumps(OUPS_METADATA[md_key])
     if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
         # Case updating an existing dataset.
         # Identify overlaps in row groups between new data and recorded data.
-- 
2.43.0


From ecdb9392fa374c8808f656db498b8f9f9c0d7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 32/40] fix: turn all labels into strings in conform_cmidx(),
 without modifying a shared column index

---
 oups/store/utils.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/oups/store/utils.py b/oups/store/utils.py
index 5e2b339..15627a0 100644
--- a/oups/store/utils.py
+++ b/oups/store/utils.py
@@ -9,6 +9,7 @@ from os import scandir
 from typing import Iterator, List, Tuple
 
 from pandas import DataFrame
+from pandas import MultiIndex
 
 from oups.store.defines import DIR_SEP
 
@@ -102,19 +103,20 @@ def conform_cmidx(df: DataFrame):
 
     """
     # If a name is 'None', set it to '' instead.
+    # The column index is not modified in-place, as it can be shared with other
+    # DataFrames.
     cmidx = df.columns
     if None in cmidx.names:
-        level_updated_idx = [i for i, name in enumerate(cmidx.names) if name is None]
-        cmidx.set_names([""] * len(level_updated_idx), level=level_updated_idx, inplace=True)
+        df.columns = cmidx.set_names(["" if name is None else name for name in cmidx.names])
     # If an item of the column name is not a string, turn it into a string.
-    # Using 'set_levels()' instead of rconstructing a MultiIndex to preserve
-    # index names directly.
-    level_updated_idx = []
-    level_updated = []
-    for i, level in enumerate(cmidx.levels):
+    # Different labels of a level can have the same string representation (1
+    # and '1'), and null labels are not in levels (code is '-1'). New levels are
+    # consequently obtained from labels.
+    labels = []
+    is_updated = False
+    for level, codes in zip(cmidx.levels, cmidx.codes):
         str_level = [name if isinstance(name, str) else str(name) for name in level]
-        if level.to_list() != str_level:
-            level_updated_idx.append(i)
-            level_updated.append(str_level)
-    if level_updated:
-        df.columns = df.columns.set_levels(level_updated, level=level_updated_idx)
+        labels.append([str_level[code] if code >= 0 else "nan" for code in codes])
+        is_updated = is_updated or -1 in codes or level.to_list() != str_level
+    if is_updated:
+        df.columns = MultiIndex.from_arrays(labels, names=df.columns.names)
-- 
2.43.0


From 9f276353759adc15eaa3105458548df943015b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 33/40] fix: keep plain column names, and list of level names
 given, when expanding into a multi-index

---
 oups/store/writer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 102f1f2..08976f8 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -204,12 +204,14 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
@@ -219,7 +221,8 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        # Not modifying the list given by the user.
+        levels = [*levels, *[f"l{i}" for i in range(len_lev, max_levels)]]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
-- 
2.43.0


From 7732bbc0f9af238f944760c589823842f6267a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 34/40] fix: filter nullable and timezone-aware columns in
 dataframe_filter()

---
 oups/aggstream/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/utils.py b/oups/aggstream/utils.py
index 3676157..055660b 100644
--- a/oups/aggstream/utils.py
+++ b/oups/aggstream/utils.py
@@ -11,6 +11,7 @@ from numpy import ndarray
 from numpy import ones
 from numpy import zeros
 from pandas import DataFrame
+from pandas import Series
 
 
 ops = {
@@ -24,6 +25,15 @@ ops = {
 }
 
 
+def _as_numpy_bool(mask: Series, if_null: bool) -> ndarray:
+    """
+    Return mask as a numpy array, replacing null values, if any, by 'if_null'.
+    """
+    if mask.dtype == "boolean":
+        mask = mask.fillna(if_null).astype(bool)
+    return mask.values
+
+
 def dataframe_filter(df: DataFrame, filters) -> ndarray:
     """
     Produce a column filter of the input dataframe.
@@ -61,9 +71,10 @@ def dataframe_filter(df: DataFrame, filters) -> ndarray:
             elif op == "not in":
                 and_part &= ~df[name].isin(val).values
             elif op in ops:
-                and_part &= ops[op](df[name].values, val)
+                # A null value only complies with '!='.
+                and_part &= _as_numpy_bool(ops[op](df[name], val), op == "!=")
             elif op == "~":
-                and_part &= ~df[name].values
+                and_part &= _as_numpy_bool(~df[name], False)
             else:
                 # Unknown operator.
                 raise ValueError(f"operator '{op}' is not supported.")
-- 
2.43.0


From c1282cfdfc93df4913e29c335aa5437b24b725c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 35/40] fix: check aggregation configuration of all keys again
 if it failed at a first call of agg()

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 5a5afb2..8023c77 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1396,11 +1396,15 @@ class AggStream:
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
+        # Set 'self.agg_cs' only if valid for all keys, so that it is checked again
+        # at next call otherwise.
+        agg_cs = {}
         for key in self.keys_config:
             try:
-                self.agg_cs[key] = setup_cumsegagg(self.agg_pd[key], seed_dtypes)
+                agg_cs[key] = setup_cumsegagg(self.agg_pd[key], seed_dtypes)
             except Exception:
                 raise ValueError(f"exception raised for key '{key}'")
+        self.agg_cs = agg_cs
         return seed
 
     def agg(
-- 
2.43.0


From dc32cd12cffb188998ad9c96894b055f03714860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 36/40] fix: accept several successive pieces without
 observation points

When no observation point was given for two successive pieces of data, the
restart check read the first one of an empty set.
---
 oups/aggstream/segmentby.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 2e09a20..d62f743 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -308,8 +308,9 @@ def by_scale(
                         "2nd chunk end in 'by' has to be larger than value "
                         f"{buffer[KEY_LAST_ON_VALUE]} to restart correctly.",
                     )
-                if (closed == RIGHT and chunk_ends[0] < last_on_value) or (
-                    closed == LEFT and chunk_ends[0] <= last_on_value
+                if len(chunk_ends) and (
+                    (closed == RIGHT and chunk_ends[0] < last_on_value)
+                    or (closed == LEFT and chunk_ends[0] <= last_on_value)
                 ):
                     # At previous iteration, if last value in 'on' is later
                     # than first chunk end, then this chunk should not be
-- 
2.43.0


From a8d9a252237ec43d43ca83ba08f6662bdf36c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 37/40] fix: expand column names of every row group at creation

With 'cmidx_expand', only column names of the first row group were expanded,
so that writing the following ones failed.
---
 oups/store/writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 08976f8..390af2e 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -633,9 +633,14 @@ def write(
     else:
         # Case initiating a new dataset.
         iter_data = iter_dataframe(data, max_row_group_size)
-        chunk = next(iter_data)
         if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+            # Column names are those of all chunks.
+            cmidx = to_midx(
+                data.columns if isinstance(data, pDataFrame) else data.get_column_names(),
+                cmidx_levels,
+            )
+            iter_data = (chunk.set_axis(cmidx, axis=1) for chunk in iter_data)
+        chunk = next(iter_data)
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
-- 
2.43.0


From be0ac0615c413e0711f56b819a461728f7c8108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 38/40] fix: refuse to go on with a stream after a failed
 aggregation

Intermediate results may be partially updated with the seed chunk being aggregated
when an exception is raised. Going on with the same object gave wrong results.
---
 oups/aggstream/aggstream.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 8023c77..b7b1a08 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1005,6 +1005,9 @@ class AggStream:
       - ``self.p_jobs``, dict, containing Parallel objects, as per joblib
         setup. Keys are int, being the number of parallel jobs to run for this
         filter id.
+      - ``self.interrupted``, bool, ``True`` if an exception has been raised
+        while aggregating a seed chunk. The chunk may then be accounted for
+        partially only, and this object cannot be used any longer.
 
     """
 
@@ -1367,6 +1370,8 @@ class AggStream:
         self.agg_cs = {}
         # Store attribute.
         self.store = store
+        # Set if aggregation has been interrupted while processing a seed chunk.
+        self.interrupted = False
 
     def _init_agg_cs(self, seed: Iterable[DataFrame]):
         """
@@ -1490,6 +1495,12 @@ class AggStream:
         # snapshots results will be easily merged.
         # TODO: change default settings:
         #  discard_last = trim_start = final_write = False
+        if self.interrupted:
+            # Intermediate results may be partially updated with last seed chunk.
+            raise RuntimeError(
+                "not possible to go on after a failed aggregation. "
+                "A new 'AggStream' is needed to restart from recorded results.",
+            )
         if isinstance(seed, DataFrame):
             # Make the seed an iterable.
             seed = [seed]
@@ -1509,6 +1520,8 @@ class AggStream:
                     trim_start=trim_start,
                     discard_last=discard_last,
                 ):
+                    # Lowered back once the chunk is processed for all keys.
+                    self.interrupted = True
                     # Retrieve Parallel joblib setup.
                     agg_loop_res = self.p_jobs[self.filter_apps[filter_id].n_jobs](
                         delayed(agg_iter)(
@@ -1529,6 +1542,7 @@ class AggStream:
                     self.seed_config[KEY_RESTART_INDEX] = _last_seed_index
                     # Also keep track of last 'pre_buffer' value.
                     self.seed_config[KEY_PRE_BUFFER] = _pre_buffer
+                    self.interrupted = False
             except SeedPreException as sce:
                 seed_check_exception = True
                 exception_message = str(sce)
-- 
2.43.0


From ae37f389a3d932609946e29d850edeccfeca6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 39/40] fix: keep start of bins at restart with multiples of a
 calendar frequency

With a frequency such as '2MS', left-closed bins restarted from the first
row of previous data when this data was in a single bin, shifting the bins
that follow by one period.
---
 oups/aggstream/segmentby.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index d62f743..30520d2 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -372,8 +372,11 @@ def by_scale(
                     buffer[KEY_RESTART_KEY] = chunk_ends[n_chunks - 2]
                 else:
                     # If there is a single incomplete bin, take first element
-                    # in 'on'.
-                    buffer[KEY_RESTART_KEY] = on.iloc[0]
+                    # in 'on'. If frequency is not a fixed one, bins possibly
+                    # gather several periods. Take then start of the bin.
+                    buffer[KEY_RESTART_KEY] = (
+                        on.iloc[0] if isinstance(by.freq, Tick) else edges[0]
+                    )
             else:
                 # Take last end
                 # - either if 'by' is a TimeGrouper, as it is enough for
-- 
2.43.0


From f5cd190774bbb05dcb34eddf5f898140ed37ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 40/40] fix: null values set by position, as several bins can
 share a label

---
 oups/aggstream/cumsegagg.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/oups/aggstream/cumsegagg.py b/oups/aggstream/cumsegagg.py
index e6afc18..3513fbe 100644
--- a/oups/aggstream/cumsegagg.py
+++ b/oups/aggstream/cumsegagg.py
@@ -530,15 +530,17 @@ def cumsegagg(
         )
     # Set null values.
     if n_max_null_bins != 0:
-        null_bin_labels = bin_labels.iloc[null_bin_indices[~nisin(null_bin_indices, -1)]]
-        if not null_bin_labels.empty:
+        # By position, as several bins can share a same label.
+        null_bin_indices = null_bin_indices[~nisin(null_bin_indices, -1)]
+        if len(null_bin_indices):
             for dtype_, (
                 _,
                 cols_name_in_res,
                 _,
                 _,
             ) in agg.items():
-                bin_res.loc[null_bin_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                cols_idx = bin_res.columns.get_indexer(cols_name_in_res)
+                bin_res.iloc[null_bin_indices, cols_idx] = NULL_DICT[dtype_]
     if snap_by is not None:
         snap_res = pDataFrame(snap_res, index=snap_labels, copy=False)
         snap_res.index.name = ordered_on
@@ -558,15 +560,17 @@ def cumsegagg(
             # TODO: is not necessary to re-create an array without the -1.
             # Only indices above 0 should be used.
             # Alternatively, output number of empty snaps from 'jcumsegagg()'?
-            null_snap_labels = snap_labels[null_snap_indices[~nisin(null_snap_indices, -1)]]
-            if not null_snap_labels.empty:
+            # By position, as several snapshots can share a same label.
+            null_snap_indices = null_snap_indices[~nisin(null_snap_indices, -1)]
+            if len(null_snap_indices):
                 for dtype_, (
                     _,
                     cols_name_in_res,
                     _,
                     _,
                 ) in agg.items():
-                    snap_res.loc[null_snap_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                    cols_idx = snap_res.columns.get_indexer(cols_name_in_res)
+                    snap_res.iloc[null_snap_indices, cols_idx] = NULL_DICT[dtype_]
     if error_on_0:
         if snap_by is not None and snap_res.eq(0).any().any():
             raise ValueError(
-- 
2.43.0

