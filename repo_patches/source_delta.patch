From 3079231fb496dda0edaf3e687fd64c9fe19c9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:32 +0000
Subject: [PATCH 01/19] fix: escape glob metacharacters in file cache paths

A cache directory such as 'run[1]' matched no dataset files, so every new
file was numbered 000000 and overwrote the previous one.
---
 src/valor_lite/cache/persistent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..ef25af7 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -107,7 +107,10 @@ class FileCache:
         if not self._path.exists():
             return []
         return [
-            Path(filepath) for filepath in glob.glob(f"{self._path}/*.parquet")
+            Path(filepath)
+            for filepath in glob.glob(
+                f"{glob.escape(str(self._path))}/*.parquet"
+            )
         ]
 
 
-- 
2.43.0


From dcc74ea864b9ffc41c9427de773481d86d135d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:38 +0000
Subject: [PATCH 02/19] fix: keep write order when a table follows buffered
 rows in memory

MemoryCacheWriter.write_table appended the table ahead of the rows that were
still buffered; the file-based writer flushes first.
---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From b31bfdbd1153298de99556e48e2aa07c46574a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:39 +0000
Subject: [PATCH 03/19] fix: build columnar writes with the cache schema

write_columns inferred its own types and column order, so the same call was
accepted, rejected, or lost at flush time depending on the batch size.
---
 src/valor_lite/cache/ephemeral.py  | 2 +-
 src/valor_lite/cache/persistent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..be996e4 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -204,7 +204,7 @@ class MemoryCacheWriter(MemoryCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self.schema)
         self.write_batch(batch)
 
     def write_batch(
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index ef25af7..c92ee96 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -410,7 +410,7 @@ class FileCacheWriter(FileCache):
         """
         if not columns:
             return
-        batch = pa.RecordBatch.from_pydict(columns)
+        batch = pa.RecordBatch.from_pydict(columns, schema=self._schema)
         self.write_batch(batch)
 
     def write_batch(
-- 
2.43.0


From 5ddaffe32d9b0bc4d52c7bba5603535fa1e1ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 04/19] fix: do not count a correctly predicted ground truth as
 a false negative

With hardmax off, a second label above the threshold added a false negative
for a ground truth that already had its true positive, deflating recall.
---
 src/valor_lite/classification/computation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..7df6824 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -151,6 +151,9 @@ def compute_counts(
         mask_fn = (mask_matching_labels & ~mask_score) | mask_fp
         mask_tn = ~mask_matching_labels & ~mask_score
 
+        # a ground truth that was correctly predicted is not missed
+        mask_fn &= ~np.isin(ids[:, 0], ids[mask_tp, 0])
+
         mask_fn &= mask_valid_gts
         mask_fp &= mask_valid_pds
 
-- 
2.43.0


From e76e9fc06fa2a6128b138800de475bff0b59bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 05/19] fix: evaluate each classification score threshold on
 its own

The score mask accumulated over the loop, so confusion matrices and examples
for a threshold depended on the larger thresholds listed before it.
---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 7df6824..29a5cd9 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -290,9 +290,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 719a0a9042dbf88e99fa92184eea466b6b510e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:42 +0000
Subject: [PATCH 06/19] fix: divide accuracy by the number of filtered datums

compute_precision_recall(datums=...) counted true positives over the filtered
datums but divided by the number of all datums.
---
 src/valor_lite/classification/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..b4ce159 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,8 +593,9 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
-        n_labels = self.info.number_of_labels
+        info = self.get_info(datums=datums)
+        n_datums = info.number_of_datums
+        n_labels = info.number_of_labels
 
         # intermediates
         counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)
-- 
2.43.0


From 72ad9d1ef04dcb680d9cac6a483eb26e3b26311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:53 +0000
Subject: [PATCH 07/19] fix: always start the chunked ROC curve from its
 previous point

The area before the first stored point was dropped when a chunk boundary fell
right after the origin, and for labels whose scores are all zero.
---
 src/valor_lite/classification/computation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 29a5cd9..ed993e9 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,8 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        # resume the curve where the previous chunk, or the origin, left it
+        if fps[0] != prev[label_idx, 0] or tps[0] != prev[label_idx, 1]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 7f9a0ef595a4aef1b50c341d75ab6192550ea416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:53 +0000
Subject: [PATCH 08/19] fix: refuse to finalize an object detection loader
 twice

A second finalize appended every ranked pair again, which doubled the true
and false positives. Classification loaders already raise in this case.
---
 src/valor_lite/object_detection/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..ccf687f 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -183,6 +183,8 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._ranked_writer.count_rows() > 0:
+            raise RuntimeError("data already finalized")
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From b091abd6be610f7f1b3710e305eff59766384fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:10 +0000
Subject: [PATCH 09/19] fix: place recall in its exact 101-point bin

floor(recall * 100.0) rounds down for recalls such as 29/100 (0.29 * 100 <
29), so average precision lost an interpolation point.
---
 src/valor_lite/object_detection/computation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..cdffb37 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -480,14 +480,15 @@ def compute_counts(
         where=running_total_count > 0,
         out=precision,
     )
-    recall = np.zeros_like(running_total_count, dtype=np.float64)
-    np.divide(
-        running_tp_count,
-        running_gt_count,
+    # integer division as floating-point recall can fall short of its bin
+    recall_index = np.zeros_like(running_total_count)
+    np.floor_divide(
+        100 * running_tp_count,
+        running_gt_count.astype(np.uint64),
         where=running_gt_count > 0,
-        out=recall,
+        out=recall_index,
     )
-    recall_index = np.floor(recall * 100.0).astype(np.int32)
+    recall_index = recall_index.astype(np.int32)
 
     # sort precision in descending order
     precision_indices = np.argsort(-precision, axis=1)
-- 
2.43.0


From 87bace47d20c69e1038a6df64c1690c15b7d8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:50 +0000
Subject: [PATCH 10/19] fix: track pixels of masks that were trimmed for
 overlap

The pixels left to an overlapping mask were not recorded as taken, so a third
mask could claim them again and be counted twice.
---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From 691b9b0202c241cba20c4f30ffba2830a6c9f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:16 +0000
Subject: [PATCH 11/19] fix: accumulate pixels of bitmasks that share a label

Assigning through a fancy index kept only the last bitmask of a label, so
pixels of the others vanished from the counts.
---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..5899e09 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # accumulate as a label can be described by more than one bitmask
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix,
+        (0, prediction_labels + 1),
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix,
+        (groundtruth_labels + 1, 0),
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From 8aabe5e4bbcf414ed598f9b03e4b9007b9555316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 12/19] fix: report non-string LLM verdicts as invalid
 responses

A list or object as a verdict raised TypeError (unhashable) instead of
InvalidLLMResponseError, so it was neither retried nor reported.
---
 src/valor_lite/text_generation/llm/validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..2e1311b 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,9 +59,9 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
-        elif (
-            allowed_values is not None
-            and value["verdict"] not in allowed_values
+        elif allowed_values is not None and (
+            not isinstance(value["verdict"], str)
+            or value["verdict"] not in allowed_values
         ):
             raise InvalidLLMResponseError(
                 f"LLM response contains verdicts from outside the allowed set {allowed_values}: {response}"
-- 
2.43.0


From 2a3efa15ea5133382dd23016aae8c537b4a547ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 13/19] fix: context recall of a ground truth without
 statements is 0

An empty list of statements is a valid LLM response and raised
ZeroDivisionError.
---
 src/valor_lite/text_generation/computation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..5382c9b 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -313,6 +313,8 @@ def calculate_context_recall(
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
+            if len(verdicts) > 0
+            else 0.0
         )
 
     return max(scores)
-- 
2.43.0


From 58e5c89d5ce9bbad3e92311d91790a3818a7653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:58 +0000
Subject: [PATCH 14/19] fix: treat undecodable LLM numbers and nesting as
 invalid responses

---
 src/valor_lite/text_generation/llm/utilities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valor_lite/text_generation/llm/utilities.py b/src/valor_lite/text_generation/llm/utilities.py
index 1ffd809..1ad7c06 100644
--- a/src/valor_lite/text_generation/llm/utilities.py
+++ b/src/valor_lite/text_generation/llm/utilities.py
@@ -30,9 +30,9 @@ def trim_and_load_json(text: str) -> dict[str, Any]:
 
     try:
         return json.loads(extracted_text)
-    except json.JSONDecodeError as e:
+    except (ValueError, RecursionError) as e:
         raise InvalidLLMResponseError(
-            f"Evaluation LLM responded with invalid JSON. JSONDecodeError: {str(e)}"
+            f"Evaluation LLM responded with invalid JSON. {type(e).__name__}: {str(e)}"
         )
 
 
@@ -40,4 +40,8 @@ def find_first_signed_integer(text: str) -> int | None:
     match = re.search(r"-?\d+", text)
     if not match:
         return None
-    return int(match.group())
+    try:
+        return int(match.group())
+    except ValueError:
+        # exceeds the maximum number of digits python will convert
+        return None
-- 
2.43.0


From 82462506e5965a95943042070ad5976c4543d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:06 +0000
Subject: [PATCH 15/19] fix: sort file caches merged into an in-memory sink as
 a whole

---
 src/valor_lite/cache/compute.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..4fae778 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -26,6 +26,9 @@ def _merge(
         else:
             sorted_tbl = tbl.sort_by(sorting)
         intermediate_sink.write_table(sorted_tbl)
+    if isinstance(intermediate_sink, MemoryCacheWriter):
+        # fragments share a single table when held in memory
+        intermediate_sink.sort_by(sorting)
     intermediate_source = intermediate_sink.to_reader()
 
     # define merge key
-- 
2.43.0


From e8d2112dfba264c23255df256c79df453da1f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 16/19] fix: validate detection schemas before creating any
 cache file

---
 src/valor_lite/object_detection/evaluator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index ccf687f..337b126 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -116,17 +116,21 @@ class Builder:
         """
         path = Path(path)
 
+        # validate schemas before anything is written
+        detailed_schema = generate_detailed_schema(metadata_fields)
+        ranked_schema = generate_ranked_schema(metadata_fields)
+
         # create caches
         detailed_writer = FileCacheWriter.create(
             path=generate_detailed_cache_path(path),
-            schema=generate_detailed_schema(metadata_fields),
+            schema=detailed_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
         )
         ranked_writer = FileCacheWriter.create(
             path=generate_ranked_cache_path(path),
-            schema=generate_ranked_schema(metadata_fields),
+            schema=ranked_schema,
             batch_size=batch_size,
             rows_per_file=rows_per_file,
             compression=compression,
-- 
2.43.0


From 21a1194ba5fb8f30dfa99127e17fd3d4b98ce437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:59 +0000
Subject: [PATCH 17/19] fix: let tables with arrays be read without selecting
 columns

---
 src/valor_lite/cache/ephemeral.py  | 12 ++++++++----
 src/valor_lite/cache/persistent.py | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index be996e4..9431b86 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -106,14 +106,18 @@ class MemoryCacheReader(MemoryCache):
         Iterator[tuple[pa.Table, np.ndarray]]
 
         """
-        _columns = set(columns) if columns else set()
-        _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        if columns is not None or numeric_columns is not None:
+            # unique column names in the order they were requested
+            columns = list(
+                dict.fromkeys([*(columns or []), *(numeric_columns or [])])
+            )
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index c92ee96..e7de8e1 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -246,14 +246,18 @@ class FileCacheReader(FileCache):
         Iterator[tuple[pa.Table, np.ndarray]]
 
         """
-        _columns = set(columns) if columns else set()
-        _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        if columns is not None or numeric_columns is not None:
+            # unique column names in the order they were requested
+            columns = list(
+                dict.fromkeys([*(columns or []), *(numeric_columns or [])])
+            )
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
-- 
2.43.0


From c8ffe27095064ae4e5991ad4a6023c5c1c9a65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 18/19] fix: compare label indices exactly

---
 src/valor_lite/classification/computation.py   | 4 ++--
 src/valor_lite/object_detection/computation.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index ed993e9..d0c9dcf 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -133,7 +133,7 @@ def compute_counts(
     gt_labels = ids[:, 1]
     pd_labels = ids[:, 2]
 
-    mask_matching_labels = np.isclose(gt_labels, pd_labels)
+    mask_matching_labels = gt_labels == pd_labels
     mask_score_nonzero = ~np.isclose(scores, 0.0)
     mask_hardmax = winners > 0.5
     mask_valid_gts = gt_labels >= 0
@@ -290,7 +290,7 @@ def compute_pair_classifications(
         dtype=np.uint8,
     )
 
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index cdffb37..127e367 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -210,7 +210,7 @@ def rank_pairs(
     indices = np.where(mask_predictions)[0]
 
     # find best fits for prediction
-    mask_label_match = np.isclose(pairs[:, 3], pairs[:, 4])
+    mask_label_match = pairs[:, 3] == pairs[:, 4]
     matched_predictions = np.unique(pairs[mask_label_match, 2])
 
     mask_unmatched_predictions = ~np.isin(pairs[:, 2], matched_predictions)
@@ -401,7 +401,7 @@ def compute_counts(
 
     mask_score_nonzero = scores > EPSILON
     mask_gt_exists = gt_ids >= 0.0
-    mask_labels_match = np.isclose(gt_labels, pd_labels)
+    mask_labels_match = gt_labels == pd_labels
 
     mask_gt_exists_labels_match = mask_gt_exists & mask_labels_match
 
@@ -739,7 +739,7 @@ def compute_pair_classifications(
 
     mask_gt_exists = gt_ids > -0.5
     mask_pd_exists = pd_ids > -0.5
-    mask_label_match = np.isclose(gt_labels, pd_labels)
+    mask_label_match = gt_labels == pd_labels
     mask_score_nonzero = scores > EPSILON
     mask_iou_nonzero = ious > EPSILON
 
-- 
2.43.0


From 32cc61495ebbbddf8b1aabd331423cd9e03799c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 19/19] fix: report a mean IOU of 0 for data without labels

---
 src/valor_lite/semantic_segmentation/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/semantic_segmentation/utilities.py b/src/valor_lite/semantic_segmentation/utilities.py
index b7616fc..168b0ed 100644
--- a/src/valor_lite/semantic_segmentation/utilities.py
+++ b/src/valor_lite/semantic_segmentation/utilities.py
@@ -55,7 +55,7 @@ def unpack_precision_recall_iou_into_metric_lists(
 
     metrics[MetricType.mIOU] = [
         Metric.mean_iou(
-            value=float(ious.diagonal().mean()),
+            value=float(ious.diagonal().mean()) if n_labels > 0 else 0.0,
         )
     ]
 
-- 
2.43.0

