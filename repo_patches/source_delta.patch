From 3b7ef93b5d6aa616b0feac9ffa96cf2b695c9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:08 +0000
Subject: [PATCH 01/68] fix: find IDs that start an address page right after
 the previous page's last ID

PageBounds.uuid_int_end is exclusive, so a key equal to it must be searched for
in later pages instead of being reported as missing.
---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From 9f82b2ecacdd1de1ebd05f3f38acb57f8e8daaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:46 +0000
Subject: [PATCH 02/68] fix: never yield finished or blocked nodes from
 GraphWalker

Nodes may be marked before the iterator has returned them; finishing a
predecessor later put an already-finished successor back in the ready set, and
failing an ancestor left its ready descendants in the ready set.
---
 python/lsst/pipe/base/graph_walker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph_walker.py b/python/lsst/pipe/base/graph_walker.py
index d73a297..512a270 100644
--- a/python/lsst/pipe/base/graph_walker.py
+++ b/python/lsst/pipe/base/graph_walker.py
@@ -90,7 +90,7 @@ class GraphWalker[T]:
             assert successor not in self._active, (
                 "A node downstream of an active one should not have been yielded yet."
             )
-            if all(
+            if successor in self._incomplete and all(
                 predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
             ):
                 self._ready.add(successor)
@@ -118,4 +118,6 @@ class GraphWalker[T]:
         self._xgraph.remove_node(key)
         self._xgraph.remove_nodes_from(descendants)
         self._incomplete.difference_update(descendants)
+        self._active.difference_update(descendants)
+        self._ready.difference_update(descendants)
         return descendants
-- 
2.43.0


From acda0183020df97bbf102e30db56adcb5e32ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:17 +0000
Subject: [PATCH 03/68] fix: pass fail_fast to worker processes in
 MPGraphExecutor

---
 python/lsst/pipe/base/mp_graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..a8df4a3 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -865,7 +865,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
 
             # see if we can start more jobs
             while len(jobs.running) < self._num_proc and jobs.pending:
-                job = jobs.submit(self._quantum_executor, self._start_method)
+                job = jobs.submit(self._quantum_executor, self._start_method, fail_fast=self._fail_fast)
                 _LOG.debug("Submitted %s", job)
 
             # Do cleanup for timed out jobs if necessary.
-- 
2.43.0


From d318c25fa68212273594bb3057cc6f0519f48a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:08 +0000
Subject: [PATCH 04/68] fix: do not mask task-construction errors in
 SingleQuantumExecutor

---
 python/lsst/pipe/base/single_quantum_executor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..61485d6 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,7 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                fullMetadata = task.getFullMetadata() if task is not None else _TASK_FULL_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From acec5614c150336eb954f23db756d4037ae4408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:08 +0000
Subject: [PATCH 05/68] fix: keep previous attempts and previous quanta in
 streamed execution logs

---
 python/lsst/pipe/base/log_capture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index 356e1c7..a4add48 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -235,7 +235,7 @@ class LogCapture:
                             with open(temporary.ospath, "a") as log_stream:
                                 ButlerLogRecords.write_streaming_extra(
                                     log_stream,
-                                    ctx.extra.model_dump_json(exclude_unset=True, exclude_defaults=True),
+                                    ctx.extra.model_dump_json(exclude_defaults=True),
                                 )
                         if ctx.store:
                             temporary.ingest()
-- 
2.43.0


From c17b92f0be8a6792b70dab7b36a5e78348de39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:08 +0000
Subject: [PATCH 06/68] fix: do not store metadata of successful quanta in
 streamed execution logs

---
 python/lsst/pipe/base/log_capture.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index a4add48..cccea6d 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -227,6 +227,13 @@ class LogCapture:
                     try:
                         with ButlerMDC.set_mdc(mdc):
                             yield ctx
+                    except:
+                        raise
+                    else:
+                        # If the quantum succeeded, we don't need to save the
+                        # metadata in the logs, because we'll have saved them
+                        # in the metadata.
+                        ctx.extra.metadata = None
                     finally:
                         # Ensure that the logs are stored in butler.
                         logging.getLogger().removeHandler(log_handler_file)
-- 
2.43.0


From 0c4b31279863634f6b5127115d91c187e248bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:06 +0000
Subject: [PATCH 07/68] fix: keep int, bool and str types when task metadata is
 validated

The before-validator that maps JSON nulls to NaN also applied float() to
every other value, so ints, bools and numeric-looking strings became floats
when metadata was read back.
---
 python/lsst/pipe/base/_task_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index da201ac..72aa1c2 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -127,7 +127,7 @@ class GetSetDictMetadata(SetDictMetadata, GetDictMetadata, Protocol):
 def _convert_null_to_nan(value: Any) -> float:
     if value is None:
         return float("nan")
-    return float(value)
+    return value
 
 
 type _NullToNanFloat = Annotated[StrictFloat, BeforeValidator(_convert_null_to_nan)]
-- 
2.43.0


From 3e04263224c16e1e5a6df81dac4b2a21495401e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:06 +0000
Subject: [PATCH 08/68] fix: let TaskMetadata.add handle empty arrays and fail
 without side effects

Adding to an empty array, or adding an empty sequence, raised IndexError, and
a type mismatch turned an existing scalar into an array.
---
 python/lsst/pipe/base/_task_metadata.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index 72aa1c2..d6756ce 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -263,18 +263,17 @@ class TaskMetadata(BaseModel):
 
             if key0 in self.scalars:
                 # Convert scalar to array.
-                # MyPy should be able to figure out that List[Union[T1, T2]] is
-                # compatible with  Union[List[T1], List[T2]] if the list has
-                # only one element, but it can't.
-                self.arrays[key0] = [self.scalars.pop(key0)]  # type: ignore
+                current: list[Any] = [self.scalars[key0]]
+            else:
+                current = self.arrays.get(key0, [])
 
-            if key0 in self.arrays:
-                # Check that the type is not changing.
-                if (curtype := type(self.arrays[key0][0])) is not (newtype := type(value[0])):
+            # Check that the type is not changing, before modifying anything.
+            if current and value:
+                if (curtype := type(current[0])) is not (newtype := type(value[0])):
                     raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
-                self.arrays[key0].extend(value)
-            else:
-                self.arrays[key0] = value
+            current.extend(value)
+            self.arrays[key0] = current
+            self.scalars.pop(key0, None)
 
             return
 
-- 
2.43.0


From a571f70aa28c5a06be141b4be3593e86400fe97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:16 +0000
Subject: [PATCH 09/68] fix: do not leave a key in two places when a nested
 metadata item is refused

Setting 'a.b' to an unsupported value created an empty child 'a' beside an
existing scalar or array 'a'.
---
 python/lsst/pipe/base/_task_metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index d6756ce..ecc134c 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -517,9 +517,12 @@ class TaskMetadata(BaseModel):
             return
 
         # This must be hierarchical so forward to the child TaskMetadata.
-        if key0 not in self.metadata:
-            self.metadata[key0] = TaskMetadata()
-        self.metadata[key0][".".join(keys)] = item
+        # Only store a new child once the item has been accepted.
+        child = self.metadata.get(key0)
+        if child is None:
+            child = TaskMetadata()
+        child[".".join(keys)] = item
+        self.metadata[key0] = child
 
         # Ensure we have cleared out anything with the same name elsewhere.
         self.scalars.pop(key0, None)
-- 
2.43.0


From 48b6b9509495d99a04e30834c9e48c9fad1d959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:37 +0000
Subject: [PATCH 10/68] fix: look for datasets again after waiting in
 BlockingLimitedButler.stored_many

The wait came after the repeated existence check, so the last wait before the
timeout was pointless and datasets that appeared during it were reported as
missing.
---
 python/lsst/pipe/base/blocking_limited_butler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/blocking_limited_butler.py b/python/lsst/pipe/base/blocking_limited_butler.py
index 3fe1946..e9e874e 100644
--- a/python/lsst/pipe/base/blocking_limited_butler.py
+++ b/python/lsst/pipe/base/blocking_limited_butler.py
@@ -138,8 +138,8 @@ class BlockingLimitedButler(LimitedButler):
                     remaining.append(ref)
             if not remaining:
                 return result
-            result.update(self._wrapped.stored_many(remaining))
             time.sleep(0.5)
+            result.update(self._wrapped.stored_many(remaining))
 
     def isWriteable(self) -> bool:
         return self._wrapped.isWriteable()
-- 
2.43.0


From 460f05ff94ee9d12b22f45335f45cc37ace28f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:37 +0000
Subject: [PATCH 11/68] fix: never wait for datasets with a zero timeout in
 BlockingLimitedButler

If the clock did not advance during the first attempt, a dataset type without
a timeout was waited for and retried.
---
 python/lsst/pipe/base/blocking_limited_butler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/blocking_limited_butler.py b/python/lsst/pipe/base/blocking_limited_butler.py
index e9e874e..e94d77b 100644
--- a/python/lsst/pipe/base/blocking_limited_butler.py
+++ b/python/lsst/pipe/base/blocking_limited_butler.py
@@ -104,7 +104,7 @@ class BlockingLimitedButler(LimitedButler):
             except FileNotFoundError as err:
                 if timeout is not None:
                     elapsed = time.time() - start
-                    if elapsed > timeout:
+                    if elapsed >= timeout:
                         err.add_note(f"Timed out after {elapsed:03f}s.")
                         raise
             _LOG.info(f"Dataset {ref.datasetType} not immediately available for {ref.id}, waiting {timeout}s")
@@ -130,7 +130,7 @@ class BlockingLimitedButler(LimitedButler):
             remaining: list[DatasetRef] = []
             for ref, exists in result.items():
                 timeout = timeouts[ref.id]
-                if not exists and (timeout is None or elapsed <= timeout):
+                if not exists and (timeout is None or elapsed < timeout):
                     _LOG.info(
                         f"Dataset {ref.datasetType} not immediately available for {ref.id}, "
                         f"waiting {timeout}s"
-- 
2.43.0


From fa85d9777e498fe4dd35ea4b5a11619aea07c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:37 +0000
Subject: [PATCH 12/68] fix: do not cache a dataset whose put failed in
 CachingLimitedButler

---
 python/lsst/pipe/base/caching_limited_butler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..5252978 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -168,6 +168,8 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        # Only cache the dataset if it could actually be stored.
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
             self._cache[ref.datasetType.name] = (
                 ref.id,
@@ -179,7 +181,7 @@ class CachingLimitedButler(LimitedButler):
                 ),
             )
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
-- 
2.43.0


From 445ca8dd8c6e7b91a0e180d137a9334766a3fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 13/68] fix: drop cached components of pruned datasets in
 CachingLimitedButler

---
 python/lsst/pipe/base/caching_limited_butler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 5252978..4f4ec2a 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -193,11 +193,11 @@ class CachingLimitedButler(LimitedButler):
         purge: bool = False,
     ) -> None:
         refs = list(refs)
-        for ref in refs:
-            if cached := self._cache.get(ref.datasetType.name):
-                dataset_id, _ = cached
-                if dataset_id == ref.id:
-                    del self._cache[ref.datasetType.name]
+        # Compare IDs only, since components are cached under their own names.
+        dataset_ids = {ref.id for ref in refs}
+        for name, (dataset_id, _) in list(self._cache.items()):
+            if dataset_id in dataset_ids:
+                del self._cache[name]
 
         return self._wrapped.pruneDatasets(
             refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge
-- 
2.43.0


From 57a543b6e1840aa29f1269deeb4f1ad47f95d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:01 +0000
Subject: [PATCH 14/68] fix: keep step definitions when a pipeline is written
 out or compared

---
 python/lsst/pipe/base/pipelineIR.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..d1ad375 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -578,6 +578,10 @@ class StepIR:
     dimensions: list[str]
     """The dimensions to use when sharding this step."""
 
+    def to_primitives(self) -> dict[str, str | list[str]]:
+        """Convert to a representation used in yaml serialization."""
+        return {"label": self.label, "dimensions": self.dimensions}
+
 
 class PipelineIR:
     """Intermediate representation of a pipeline definition.
@@ -1098,6 +1102,8 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [s.to_primitives() for s in self.steps]
         return accumulate
 
     def __str__(self) -> str:
@@ -1116,7 +1122,7 @@ class PipelineIR:
         return (
             all(
                 getattr(self, attr) == getattr(other, attr)
-                for attr in ("tasks", "instrument", "labeled_subsets", "parameters")
+                for attr in ("tasks", "instrument", "labeled_subsets", "parameters", "steps")
             )
             and len(self.contracts) == len(other.contracts)
             and all(c in self.contracts for c in other.contracts)
-- 
2.43.0


From f70cfc05946f5a3c7e4eb8529f961d657f12d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:01 +0000
Subject: [PATCH 15/68] fix: combine include, exclude and rename consistently
 in pipeline imports

---
 python/lsst/pipe/base/pipelineIR.py | 77 ++++++++++++++++-------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index d1ad375..31a8668 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -45,7 +45,7 @@ import warnings
 from collections import Counter
 from collections.abc import Generator, Hashable, Iterable, MutableMapping
 from dataclasses import dataclass, field
-from typing import Any, Literal, cast
+from typing import Any, Literal
 
 import yaml
 
@@ -506,49 +506,36 @@ class ImportIR:
         if self.instrument is not _Tags.KeepInstrument:
             tmp_pipeline.instrument = self.instrument
 
-        included_labels = set()
-        renamed_tasks = {}
-        for label in tmp_pipeline.tasks:
-            is_included = self.include and label in self.include
-            if (
-                is_included
-                or (self.exclude and label not in self.exclude)
-                or (self.include is None and self.exclude is None)
-            ):
-                if (label_new := self.rename.get(label)) is not None:
-                    renamed_tasks[label] = label_new
-                    if is_included:
-                        self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
-                        ]
+        # Expand any labeled subsets in the include or exclude list.
+        def expand(labels: Iterable[str]) -> set[str]:
+            expanded: set[str] = set()
+            for label in labels:
+                if label in tmp_pipeline.labeled_subsets:
+                    expanded.update(tmp_pipeline.labeled_subsets[label].subset)
                 else:
-                    label_new = label
-                included_labels.add(label_new)
+                    expanded.add(label)
+            return expanded
+
+        included_labels = set(tmp_pipeline.tasks)
+        if self.include is not None:
+            included_labels &= expand(self.include)
+        elif self.exclude is not None:
+            included_labels -= expand(self.exclude)
 
         rename_errors = []
-        for label, label_new in renamed_tasks.items():
+        for label, label_new in self.rename.items():
+            if label not in included_labels:
+                continue
             if label_new in tmp_pipeline.tasks:
                 rename_errors.append(f"Can't rename {label=} to existing {label_new=}")
             else:
-                task = tmp_pipeline.tasks.pop(label)
-                task.label = label_new
-                tmp_pipeline.tasks[label_new] = task
+                tmp_pipeline._rename_task(label, label_new)
+                included_labels.remove(label)
+                included_labels.add(label_new)
 
         if rename_errors:
             raise ValueError("; ".join(rename_errors))
 
-        # Handle labeled subsets being specified in the include or exclude
-        # list, adding or removing labels.
-        if self.include is not None:
-            subsets_in_include = tmp_pipeline.labeled_subsets.keys() & self.include
-            for label in subsets_in_include:
-                included_labels.update(tmp_pipeline.labeled_subsets[label].subset)
-
-        elif self.exclude is not None:
-            subsets_in_exclude = tmp_pipeline.labeled_subsets.keys() & self.exclude
-            for label in subsets_in_exclude:
-                included_labels.difference_update(tmp_pipeline.labeled_subsets[label].subset)
-
         if not self.importSteps:
             tmp_pipeline.steps = []
 
@@ -925,6 +912,28 @@ class PipelineIR:
                     )
             self.tasks[label] = TaskIR(label, definition["class"], task_config_ir)
 
+    def _rename_task(self, label: str, label_new: str) -> None:
+        """Change the label of a task everywhere it is used.
+
+        Parameters
+        ----------
+        label : `str`
+            Label of an existing task.
+        label_new : `str`
+            New label for the task.
+        """
+        task = self.tasks.pop(label)
+        task.label = label_new
+        self.tasks[label_new] = task
+        for labeled_subset in self.labeled_subsets.values():
+            if label in labeled_subset.subset:
+                labeled_subset.subset.remove(label)
+                labeled_subset.subset.add(label_new)
+        for contract in self.contracts:
+            contract.contract = re.sub(
+                rf"(?<![A-Za-z0-9_.]){re.escape(label)}(?=[.])", lambda _: label_new, contract.contract
+            )
+
     def _remove_contracts(self, label: str) -> None:
         """Remove any contracts that contain the given label
 
-- 
2.43.0


From f80f29a1580a8d4d9fada4dbff24bbba088614c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:01 +0000
Subject: [PATCH 16/68] fix: do not modify the caller's label set when
 subsetting a pipeline

---
 python/lsst/pipe/base/pipelineIR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 31a8668..66b2671 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -994,8 +994,7 @@ class PipelineIR:
             if label in pipeline.labeled_subsets:
                 toRemove.add(label)
                 toAdd.update(pipeline.labeled_subsets[label].subset)
-        labelSpecifier.difference_update(toRemove)
-        labelSpecifier.update(toAdd)
+        labelSpecifier = (labelSpecifier - toRemove) | toAdd
         # verify all the labels are in the pipeline
         if not labelSpecifier.issubset(pipeline.tasks.keys() | pipeline.labeled_subsets):
             difference = labelSpecifier.difference(pipeline.tasks.keys())
-- 
2.43.0


From ebf22b650052825a551b55edefe5809e2a07487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:01 +0000
Subject: [PATCH 17/68] fix: remove multi-line contracts of tasks dropped from
 a pipeline

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 66b2671..758f29c 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -945,7 +945,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(f"([^A-Za-z0-9_]|^){re.escape(label)}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
-- 
2.43.0


From b4ed61ec71f3beab23e81e6be938e186bd928cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 18/68] fix: do not share or half-apply definitions when
 pipelines are merged

---
 python/lsst/pipe/base/pipelineIR.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 758f29c..58b6092 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -802,13 +802,16 @@ class PipelineIR:
         accumulated_parameters = ParametersIR({})
         accumulated_steps: dict[str, StepIR] = {}
 
-        for tmp_IR in pipelines:
-            if self.instrument is None:
-                self.instrument = tmp_IR.instrument
-            elif self.instrument != tmp_IR.instrument and tmp_IR.instrument is not None:
+        accumulated_contracts: list[ContractIR] = []
+        instrument = self.instrument
+
+        for tmp_IR in copy.deepcopy(list(pipelines)):
+            if instrument is None:
+                instrument = tmp_IR.instrument
+            elif instrument != tmp_IR.instrument and tmp_IR.instrument is not None:
                 msg = (
                     "Only one instrument can be declared in a pipeline or its imports. "
-                    f"Top level pipeline defines {self.instrument} but pipeline to merge "
+                    f"Top level pipeline defines {instrument} but pipeline to merge "
                     f"defines {tmp_IR.instrument}."
                 )
                 raise ValueError(msg)
@@ -819,7 +822,7 @@ class PipelineIR:
                 )
                 raise ValueError(msg)
             accumulate_tasks.update(tmp_IR.tasks)
-            self.contracts.extend(tmp_IR.contracts)
+            accumulated_contracts.extend(tmp_IR.contracts)
             # verify that tmp_IR has unique labels for named subset among
             # existing labeled subsets, and with existing task labels.
             overlapping_subsets = accumulate_labeled_subsets.keys() & tmp_IR.labeled_subsets.keys()
@@ -855,6 +858,8 @@ class PipelineIR:
         # that have been declared
         accumulate_labeled_subsets.update(self.labeled_subsets)
         self.labeled_subsets = accumulate_labeled_subsets
+        self.instrument = instrument
+        self.contracts.extend(accumulated_contracts)
 
         # merge the dict of label:TaskIR objects, preserving any configs in the
         # imported pipeline if the labels point to the same class
-- 
2.43.0


From d19ce3d103eae6463843da7f27f3265c73eb81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:06 +0000
Subject: [PATCH 19/68] fix: use the default name of a task class added without
 label

---
 python/lsst/pipe/base/pipeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 6417e6b..93670a1 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -731,9 +731,8 @@ class Pipeline:
             # in some cases (with command line-generated pipeline) tasks can
             # be defined without label which is not acceptable, use task
             # _DefaultName in that case
-            if isinstance(task, str):
-                task_class = cast(PipelineTask, doImportType(task))
-                label = task_class._DefaultName
+            task_class = cast(PipelineTask, doImportType(task)) if isinstance(task, str) else task
+            label = task_class._DefaultName
         self._pipelineIR.tasks[label] = pipelineIR.TaskIR(label, taskName)
 
     def removeTask(self, label: str) -> None:
-- 
2.43.0


From 717b307ab16bbf2391988c7208df105aad39c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:35 +0000
Subject: [PATCH 20/68] fix: ignore datasets and runs outside the given graphs
 in execution reports

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 8e2bd57..2e4338e 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1504,8 +1504,13 @@ class QuantumProvenanceGraph:
                 continue
             for n, ref in enumerate(refs):
                 dataset_key = DatasetKey(ref.datasetType.name, ref.dataId.required_values)
-                dataset_info = self.get_dataset_info(dataset_key)
-                dataset_run = dataset_info["runs"][output_run]  # dataset run (singular)
+                try:
+                    dataset_info = self.get_dataset_info(dataset_key)
+                    dataset_run = dataset_info["runs"][output_run]  # dataset run (singular)
+                # Ignore datasets that are in this run but were not predicted
+                # by any of the graphs given (e.g. when a run was extended).
+                except KeyError:
+                    continue
                 dataset_run.produced = True
                 status_log.log(
                     "Updated status for %s of %s datasets of %s of %s types.",
@@ -1887,12 +1892,13 @@ class QuantumProvenanceGraph:
                 dataset_key = DatasetKey(ref.datasetType.name, ref.dataId.required_values)
                 try:
                     dataset_info = self.get_dataset_info(dataset_key)
+                    dataset_run = dataset_info["runs"][ref.run]
                 # Ignore if we don't actually have the dataset in any of the
-                # graphs given.
+                # graphs given, or if it is from a run of some other graph.
                 except KeyError:
                     continue
                 # queryable datasets are `visible`.
-                dataset_info["runs"][ref.run].visible = True
+                dataset_run.visible = True
                 status_log.log(
                     "Updated visibility for %s of %s datasets of type %s of %s.",
                     n + 1,
-- 
2.43.0


From 34979fea5007e4a4d39e23cef3efbdc6e42f2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:35 +0000
Subject: [PATCH 21/68] fix: do not mistake regular outputs for metadata or
 logs in execution reports

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 2e4338e..76c0c34 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -74,9 +74,7 @@ from lsst.utils.logging import PeriodicLogger, getLogger
 
 from ._status import ExceptionInfo, QuantumSuccessCaveats
 from .automatic_connection_constants import (
-    LOG_OUTPUT_CONNECTION_NAME,
     LOG_OUTPUT_TEMPLATE,
-    METADATA_OUTPUT_CONNECTION_NAME,
     METADATA_OUTPUT_STORAGE_CLASS,
     METADATA_OUTPUT_TEMPLATE,
     PROVENANCE_DATASET_TYPE_NAME,
@@ -1625,12 +1623,10 @@ class QuantumProvenanceGraph:
             # collection combination.
             dataset_runs[output_run] = DatasetRun(id=ref.id)
             # save metadata and logs for easier status interpretation later
-            if dataset_key.dataset_type_name.endswith(METADATA_OUTPUT_CONNECTION_NAME):
+            if ref == metadata_ref:
                 quantum_info["metadata"] = dataset_key
-                quantum_runs[output_run].metadata_ref = ref
-            if dataset_key.dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME):
+            if ref == log_ref:
                 quantum_info["log"] = dataset_key
-                quantum_runs[output_run].log_ref = ref
         for ref in itertools.chain.from_iterable(node.quantum.inputs.values()):
             dataset_key = DatasetKey(ref.datasetType.nameAndComponent()[0], ref.dataId.required_values)
             if dataset_key in self._xgraph:
@@ -1951,10 +1947,7 @@ class QuantumProvenanceGraph:
                             # Avoiding publishing failed logs is difficult
                             # without using tagged collections, so flag them as
                             # merely unsuccessful unless the user requests it.
-                            if (
-                                dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME)
-                                and not curse_failed_logs
-                            ):
+                            if dataset_key == quantum_info["log"] and not curse_failed_logs:
                                 dataset_info["status"] = DatasetInfoStatus.UNSUCCESSFUL
                             else:
                                 dataset_info["status"] = DatasetInfoStatus.CURSED
-- 
2.43.0


From 44c1fa0913781848b338379d4ca0bec05110ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:29 +0000
Subject: [PATCH 22/68] fix: leave an attempt without log and metadata at
 status UNKNOWN

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e7a23e5..1932e5d 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2410,8 +2410,6 @@ class ProvenanceQuantumScanModels:
                 # at a very unlucky time (in between those two writes), or
                 # something even weirder happened.
                 self.attempts[-1].status = QuantumAttemptStatus.ABORTED_SUCCESS
-            else:
-                self.attempts[-1].status = QuantumAttemptStatus.FAILED
         if len(self.metadata.attempts) < len(self.attempts):
             # Metadata missing usually just means a failure.  In any case, the
             # status will already be correct, either because it was set to a
-- 
2.43.0


From 0f927e05b4559ee019c7da8d6ee2a2a285174635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:41 +0000
Subject: [PATCH 23/68] fix: record the exception when the inputs of a quantum
 cannot be checked

---
 python/lsst/pipe/base/single_quantum_executor.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index 61485d6..a82adf0 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -285,6 +285,20 @@ class SingleQuantumExecutor(QuantumExecutor):
                     adjusted_no_work=True,
                     task_metadata=fullMetadata,
                 )
+            except Exception as e:
+                captureLog.extra.exception = ExceptionInfo(
+                    type_name=get_full_type_name(e),
+                    message=str(e),
+                    metadata={},
+                )
+                quantumMetadata["outputs"] = []
+                logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
+                fullMetadata = _TASK_FULL_METADATA_TYPE()
+                fullMetadata["quantum"] = quantumMetadata
+                if self._job_metadata is not None:
+                    fullMetadata["job"] = self._job_metadata
+                captureLog.extra.metadata = fullMetadata
+                raise
 
             # enable lsstDebug debugging
             if self._enable_lsst_debug:
-- 
2.43.0


From 866a157726b8a607e8dded7718e9b360a1b9ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:41 +0000
Subject: [PATCH 24/68] fix: ignore the IDs of init quanta when reading
 predicted quanta

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f2b3f36..c38c35c 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -2083,7 +2083,14 @@ class PredictedQuantumGraphReader(BaseQuantumGraphReader):
             for quantum_id in quantum_ids:
                 if quantum_id in self.components.quantum_datasets:
                     continue
-                address_row = self.address_reader.find(quantum_id)
+                try:
+                    address_row = self.address_reader.find(quantum_id)
+                except LookupError:
+                    # Init quanta are not part of this file.
+                    self.read_init_quanta()
+                    if any(quantum_id == init.quantum_id for init in self.components.init_quanta.root):
+                        continue
+                    raise
                 quantum_datasets = mb_reader.read_model(
                     address_row.addresses[0], PredictedQuantumDatasetsModel, self.decompressor
                 )
-- 
2.43.0


From daee2f2a92390fc118bbf20b3820fd5a7053b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:53 +0000
Subject: [PATCH 25/68] fix: do not write a predicted graph whose quanta were
 only partially read

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index c38c35c..17c4f65 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1878,6 +1878,10 @@ class PredictedQuantumGraphComponents:
             raise RuntimeError(
                 "Cannot save graph after partial read of quanta: thin graph is inconsistent with header."
             )
+        if len(self.quantum_datasets) != self.header.n_quanta:
+            raise RuntimeError(
+                "Cannot save graph after partial read of quanta: datasets were not read for all of them."
+            )
         # Ensure we record the actual version we're about to write, in case
         # we're rewriting an old graph in a new format.
         self.header.version = FORMAT_VERSION
-- 
2.43.0


From b6dcfeb91a653aa1610936971e34708548db8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 26/68] fix: load the requested quanta and datasets of a
 provenance graph file

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 1932e5d..5d4dbd0 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1204,11 +1204,11 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
             with exit_stack:
                 if quanta is None:
                     reader.read_quanta()
-                elif not quanta:
+                elif quanta:
                     reader.read_quanta(quanta)
                 if datasets is None:
                     reader.read_datasets()
-                elif not datasets:
+                elif datasets:
                     reader.read_datasets(datasets)
                 yield reader.graph, None
 
-- 
2.43.0


From 7a766dcf90ae7e4c86b3988e09411a169cc81aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 27/68] fix: expand caveats that consist of missing outputs
 only

---
 python/lsst/pipe/base/_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_status.py b/python/lsst/pipe/base/_status.py
index 342dfcf..0c21646 100644
--- a/python/lsst/pipe/base/_status.py
+++ b/python/lsst/pipe/base/_status.py
@@ -148,7 +148,7 @@ class QuantumSuccessCaveats(enum.Flag):
             `code`, and `count` keys; or `None` if the string does not
             represent a concise flag.
         """
-        r = re.compile(r"(?P<token>\*|\+)?(?P<code>[A-Z]{1})\((?P<count>[0-9]+)\)")
+        r = re.compile(r"(?P<token>\*|\+)?(?P<code>[A-Z])?\((?P<count>[0-9]+)\)")
         m = re.match(r, concise)
         return m.groupdict() if m is not None else None
 
-- 
2.43.0


From a66fb34aab4d8364c5a841ae0032132c07f27e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 28/68] fix: report successful quanta when caveats are
 requested, as documented

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 5d4dbd0..7e3cff9 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1639,6 +1639,8 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
         if TYPE_CHECKING:
             assert json_obj
 
+        if with_caveats is not None:
+            also = {*ensure_iterable(also), QuantumAttemptStatus.SUCCESSFUL}
         if status_report_file is not None or data_id_table_dir is not None:
             status_report = self.make_status_report(
                 states, also=also, with_caveats=with_caveats, data_id_table_dir=data_id_table_dir
-- 
2.43.0


From 2b104c05ef54f59566158018829f336b230a8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 29/68] fix: keep init quanta out of the quantum-only
 provenance graph

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 7e3cff9..da933f7 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -322,11 +322,13 @@ class ProvenanceDatasetModel(PredictedDatasetModel):
             run=self.run,
             produced=self.produced,
         )
+        producing_edge = graph.pipeline_graph.producing_edge_of(self.dataset_type_name)
+        is_init_output = producing_edge is not None and producing_edge.is_init
         if self.producer is not None:
             graph._bipartite_xgraph.add_edge(self.producer, self.dataset_id)
         for consumer_id in self.consumers:
             graph._bipartite_xgraph.add_edge(self.dataset_id, consumer_id)
-            if self.producer is not None:
+            if self.producer is not None and not is_init_output:
                 graph._quantum_only_xgraph.add_edge(self.producer, consumer_id)
         graph._datasets_by_type[self.dataset_type_name][data_id] = self.dataset_id
 
-- 
2.43.0


From a3b8592f54a75630c9a54c44c154bbfd9c46c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 30/68] fix: do not lose edges and existence of datasets in
 partial provenance reads

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index da933f7..be7938a 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -981,7 +981,7 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
                 dataset_type_name=write_edge.dataset_type_name,
                 pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
                 run=graph.header.output_run,
-                produced=True,
+                produced=graph._bipartite_xgraph.nodes.get(dataset_id, {}).get("produced", True),
             )
             graph._datasets_by_type[write_edge.dataset_type_name][empty_data_id] = dataset_id
             graph._bipartite_xgraph.add_edge(
@@ -1709,6 +1709,9 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
     graph: ProvenanceQuantumGraph = dataclasses.field(init=False)
     """Loaded provenance graph, populated in place as components are read."""
 
+    _nodes_read: set[uuid.UUID] = dataclasses.field(default_factory=set, init=False)
+    """IDs of quanta and datasets whose own entries have been read."""
+
     @classmethod
     @contextmanager
     def open(
@@ -1816,16 +1819,17 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                 int_size=self.header.int_size,
                 page_size=self.page_size,
             ):
-                if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(node.node_id, {}):
+                if node.node_id in self._nodes_read:
                     # Use the old node to reduce memory usage (since it might
                     # also have other outstanding reference holders).
                     continue
                 node._add_to_graph(self.graph)
+                self._nodes_read.add(node.node_id)
         else:
             with MultiblockReader.open_in_zip(self.zf, mb_name, int_size=self.header.int_size) as mb_reader:
                 for node_id_or_index in nodes:
                     address_row = self.address_reader.find(node_id_or_index)
-                    if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {}):
+                    if address_row.key in self._nodes_read:
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
                         continue
@@ -1834,6 +1838,7 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                     )
                     if node is not None:
                         node._add_to_graph(self.graph)
+                        self._nodes_read.add(node.node_id)
 
     def fetch_logs(self, nodes: Iterable[uuid.UUID]) -> dict[uuid.UUID, list[ButlerLogRecords | None]]:
         """Fetch log datasets.
-- 
2.43.0


From 84e51a370df6025a7c6fae06c024614cc67bedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:21 +0000
Subject: [PATCH 31/68] fix: ignore the IDs of init quanta when reading
 provenance quanta

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index be7938a..6f2b2c4 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1828,7 +1828,14 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
         else:
             with MultiblockReader.open_in_zip(self.zf, mb_name, int_size=self.header.int_size) as mb_reader:
                 for node_id_or_index in nodes:
-                    address_row = self.address_reader.find(node_id_or_index)
+                    try:
+                        address_row = self.address_reader.find(node_id_or_index)
+                    except LookupError:
+                        # Init quanta are not part of the address file.
+                        init_quanta = self._read_single_block("init_quanta", ProvenanceInitQuantaModel)
+                        if any(node_id_or_index == init.quantum_id for init in init_quanta.root):
+                            continue
+                        raise
                     if address_row.key in self._nodes_read:
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
-- 
2.43.0


From e2a8dfdfa98929fe99a270af45fb364164e9c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:21 +0000
Subject: [PATCH 32/68] fix: do not duplicate edge information when init quanta
 are read twice

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 6f2b2c4..5df4254 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1759,6 +1759,8 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
         """Read the thin graph, with all edge information and categorization of
         quanta by task label.
         """
+        if self.graph._init_quanta:
+            return
         init_quanta = self._read_single_block("init_quanta", ProvenanceInitQuantaModel)
         for init_quantum in init_quanta.root:
             self.graph._init_quanta[init_quantum.task_label] = init_quantum.quantum_id
-- 
2.43.0


From 1ad3fd7b895f676478661faa9fe097f9c41dd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:39 +0000
Subject: [PATCH 33/68] fix: look for an existing packages dataset only in the
 output run

PipelineGraph.write_packages searched all default collections, so a packages
dataset of an input collection could be compared with, or deleted and
replaced, and none was written to the output run.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..704ae7f 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2027,7 +2027,7 @@ class PipelineGraph:
             with the current packages.
         """
         new_packages = Packages.fromSystem()
-        if (ref := butler.find_dataset(self.packages_dataset_type)) is not None:
+        if (ref := butler.find_dataset(self.packages_dataset_type, collections=butler.run)) is not None:
             packages = butler.get(ref)
             if compare_packages(packages, new_packages):
                 # have to remove existing dataset first; butler has no
-- 
2.43.0


From d82eaa19a573131c08a7f0d0be63861d20c590b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:39 +0000
Subject: [PATCH 34/68] fix: do not let tasks modify the init datasets of other
 tasks

PipelineGraph.instantiate_tasks gave the only consumer of an init-output the
object that is written later, and the first of several consumers of an
overall init-input the object that the others get copies of.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 704ae7f..5a9d939 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1885,12 +1885,15 @@ class PipelineGraph:
                         # Caching what we just got is safe in general only
                         # if there was no storage class conversion, since
                         # a->b and a->c does not imply b->c.
-                        handles[read_edge.dataset_type_name] = InMemoryDatasetHandle(
+                        handle = InMemoryDatasetHandle(
                             obj,
                             storageClass=dataset_type_node.storage_class,
                             dataId=empty_data_id,
                             copy=True,
                         )
+                        handles[read_edge.dataset_type_name] = handle
+                        # Give this task a copy, too, since it might modify it.
+                        obj = handle.get(storageClass=read_edge.storage_class_name)
                 task_init_inputs[read_edge.connection_name] = obj
             task = task_node.task_class(
                 config=task_node.config, initInputs=task_init_inputs, name=task_node.label
@@ -1916,7 +1919,9 @@ class PipelineGraph:
                         dataset_type_node.storage_class.coerce_type(obj),
                         dataId=empty_data_id,
                         storageClass=dataset_type_node.storage_class,
-                        copy=(n_consumers > 1),
+                        # Copy even if there is just one consumer, because the
+                        # original object has yet to be written.
+                        copy=True,
                     )
         return tasks
 
-- 
2.43.0


From 829fc66f0ce92b8e0917416e592514d7155b064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 35/68] fix: complete an output chain that was left empty by an
 interruption

If the aggregator died after registering the output chain and before adding
the input collections to it, later attempts never added them.
---
 .../pipe/base/quantum_graph/aggregator/_ingester.py    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
index 1faf59a..50fc23d 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
@@ -315,9 +315,13 @@ class Ingester(AbstractContextManager):
             self.predicted.header.output,
             self.predicted.header.output_run,
         )
-        if self.butler.collections.register(self.predicted.header.output, CollectionType.CHAINED):
-            # Chain is new; need to add inputs, but we want to flatten them
-            # first.
+        if (
+            self.butler.collections.register(self.predicted.header.output, CollectionType.CHAINED)
+            or not self.butler.collections.get_info(self.predicted.header.output).children
+        ):
+            # Chain is new (or was left empty by an attempt that was
+            # interrupted right here); need to add inputs, but we want to
+            # flatten them first.
             if self.predicted.header.inputs:
                 flattened = self.butler.collections.query(self.predicted.header.inputs, flatten_chains=True)
                 self.butler.collections.extend_chain(self.predicted.header.output, flattened)
-- 
2.43.0


From 2e5ab08d300423d0970ab589f1379ac86cbb46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:19 +0000
Subject: [PATCH 36/68] fix: do not mistake a worker that just finished for one
 that died

The aggregator's supervisor raised if a worker sent its last reports and
exited between the timeout of the supervisor's queue and its check of whether
the worker is alive.
---
 .../aggregator/_communicators.py              | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 7b3617f..ab6d6eb 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -436,15 +436,21 @@ class SupervisorCommunicator:
         while report is None and block:
             # We hit the timeout; make sure all of the workers
             # that should be alive actually are.
-            for name, worker in self.workers.items():
-                if not worker.successful and not worker.is_alive():
-                    # Delete this worker from the list of workers so we don't
-                    # hit this condition again when we try to handle the
-                    # exception we raise.
-                    raise _WorkerCommunicationError(name)
-            # If nothing is dead and we didn't hit the hang timeout, keep
-            # trying.
-            report = self._reports.get(block=block, timeout=self.config.worker_check_timeout)
+            dead = [
+                name
+                for name, worker in self.workers.items()
+                if not worker.successful and not worker.is_alive()
+            ]
+            if dead:
+                # A worker may have finished and sent its last reports after
+                # we hit the timeout, so look for those before giving up.
+                report = self._reports.get(block=False)
+                if report is None:
+                    raise _WorkerCommunicationError(dead[0])
+            else:
+                # If nothing is dead and we didn't hit the hang timeout, keep
+                # trying.
+                report = self._reports.get(block=block, timeout=self.config.worker_check_timeout)
         return report
 
     def _handle_progress_reports(
-- 
2.43.0


From cd575a43d2b0b984dfad3b60bfbb48be5a0f9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:19 +0000
Subject: [PATCH 37/68] fix: shut down all aggregator workers when one fails
 after scanning

An error on the ingester or writer that was reported while the supervisor
was waiting for workers to finish was raised right away, leaving the others
running and the reports queue unread.
---
 .../pipe/base/quantum_graph/aggregator/_communicators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index ab6d6eb..08c6b17 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -361,7 +361,14 @@ class SupervisorCommunicator:
             if exc_type is not FatalWorkerError:
                 self.progress.log.critical("Caught %s; attempting to shut down cleanly.", exc_type)
         try:
-            self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            try:
+                self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            except FatalWorkerError:
+                # A worker failed after scanning had finished; stop the others
+                # before propagating the error.
+                self._cancel_event.set()
+                self._wait_for_workers_to_finish(already_failing=True)
+                raise
         except _WorkerCommunicationError as err:
             self.progress.log.critical(
                 "Worker '%s' was terminated before it could finish (after scanning).", err
-- 
2.43.0


From 32fad04e42afd7779f1e2277e8d2a92667f399f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 38/68] fix: do not fail in ingest_graph when a directory to
 delete does not exist

---
 python/lsst/pipe/base/quantum_graph/ingest_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/ingest_graph.py b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
index 074f216..c5ea03b 100644
--- a/python/lsst/pipe/base/quantum_graph/ingest_graph.py
+++ b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
@@ -146,6 +146,10 @@ def ingest_graph(
             )
             n_deleted: int = 0
             for top in sorted(helper.directories_to_delete):
+                if not os.path.isdir(top):
+                    # No files of this dataset type were ever written here, or
+                    # the directory went away with one we already deleted.
+                    continue
                 nonempty: set[str] = set()
                 for root, dirnames, filenames in os.walk(top, topdown=False):
                     if filenames:
@@ -162,7 +166,7 @@ def ingest_graph(
                         top,
                     )
                 else:
-                    os.rmdir(root)
+                    os.rmdir(top)
                     n_deleted += 1
             _LOG.info("Deleted %d directories.", n_deleted)
 
-- 
2.43.0


From 65d8f08428422a49f365dd3ade2ceb594d991f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:49 +0000
Subject: [PATCH 39/68] fix: only delete directories of the ingested datasets
 in ingest_graph

---
 python/lsst/pipe/base/quantum_graph/ingest_graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/ingest_graph.py b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
index c5ea03b..386aa59 100644
--- a/python/lsst/pipe/base/quantum_graph/ingest_graph.py
+++ b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
@@ -406,12 +406,14 @@ class _GraphIngester:
         )
 
     def find_dataset_type_directory(self, ospath: str, dataset_type: str) -> str | None:
-        dir_components: list[str] = []
-        for component in os.path.dirname(ospath).split(os.path.sep):
-            dir_components.append(component)
+        dir_components = os.path.dirname(ospath).split(os.path.sep)
+        while dir_components:
             # If the full dataset type name is in a single directory path
             # component, we guess that directory can only have datasets of
-            # that type.
-            if dataset_type in component:
+            # that type.  We start with the innermost directory because the
+            # name could also appear in the run name or the path to the
+            # repository, and those directories hold other things.
+            if dataset_type in dir_components[-1]:
                 return os.path.sep.join(dir_components)
+            dir_components.pop()
         return None
-- 
2.43.0


From 93a293811c96ac4d53a29fb8b76388e5ac1c63dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 40/68] fix: notice changes to init-inputs when comparing task
 nodes

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 0428300..4175ecb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -430,7 +430,7 @@ class TaskInitNode:
             ``other``.
         """
         result = []
-        result += _diff_edge_mapping(self.inputs, self.inputs, self.label, "init input")
+        result += _diff_edge_mapping(self.inputs, other.inputs, self.label, "init input")
         result += _diff_edge_mapping(self.outputs, other.outputs, self.label, "init output")
         result += self.config_output.diff(other.config_output, "config init output")
         return result
-- 
2.43.0


From ef8b7d96db0f796c74c05ac21cde7dd95266a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 41/68] fix: export whether a pipeline graph edge is an init
 edge

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -259,7 +259,7 @@ class Edge(ABC):
             "connection_name": self.connection_name,
             "parent_dataset_type_name": self.parent_dataset_type_name,
             "storage_class_name": self.storage_class_name,
-            "is_init": bool,
+            "is_init": self.is_init,
         }
 
     @classmethod
-- 
2.43.0


From 3e775d9401bf2887e6dbf0c0f38d440f8e709f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 42/68] fix: report multiple producers in
 PipelineGraph.producing_edge_of

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 5a9d939..55d7a79 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -400,6 +400,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From e2a1972d7cc6af7183c8a64ed9796e9aaf0eebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 43/68] fix: allow a task to be given twice in
 PipelineGraph.remove_tasks

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 55d7a79..8c5022e 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -967,7 +967,7 @@ class PipelineGraph:
         task_nodes_and_subsets = []
         dataset_types: set[NodeKey] = set()
         nodes_to_remove = set()
-        for label in labels:
+        for label in dict.fromkeys(labels):
             task_node: TaskNode = self._xgraph.nodes[NodeKey(NodeType.TASK, label)]["instance"]
             # Find task subsets that reference this task.
             referencing_subsets = {
-- 
2.43.0


From c491cb57d6af10569e63cee795bf8b2762e65247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 44/68] fix: check labels in PipelineGraph.add_task_subset

---
 .../base/pipeline_graph/_pipeline_graph.py    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 8c5022e..0a10129 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1035,9 +1035,25 @@ class PipelineGraph:
             included in the graph.
         description : `str`, optional
             String description to associate with this label.
-        """
-        subset = TaskSubset(self._xgraph, subset_label, set(task_labels), description, self._step_definitions)
+
+        Raises
+        ------
+        PipelineGraphError
+            Raised if a task is not included in the graph or has the same label
+            as the subset.
+        """
+        task_labels = set(task_labels)
+        if not task_labels <= self.tasks.keys():
+            raise PipelineGraphError(
+                f"Cannot add subset {subset_label!r}: {task_labels - self.tasks.keys()} are not tasks in this "
+                "pipeline graph."
+            )
+        if subset_label in self.tasks:
+            raise PipelineGraphError(f"Cannot add subset {subset_label!r}: a task has the same label.")
+        subset = TaskSubset(self._xgraph, subset_label, task_labels, description, self._step_definitions)
         self._task_subsets[subset_label] = subset
+        if subset_label in self._step_definitions:
+            self._step_definitions._verified = False
 
     def remove_task_subset(self, subset_label: str) -> None:
         """Remove a labeled set of tasks.
-- 
2.43.0


From e4b790283dec59aac823d993101e7f42951a2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:47 +0000
Subject: [PATCH 45/68] fix: leave a pipeline graph unchanged when a task
 cannot be added

---
 .../base/pipeline_graph/_pipeline_graph.py    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 0a10129..44355cb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -748,6 +748,8 @@ class PipelineGraph:
         ValueError
             Raised if configuration validation failed when constructing
             ``connections``.
+        PipelineGraphError
+            Raised if the label is already in use.
         PipelineDataCycleError
             Raised if the graph is cyclic after this addition.
         RuntimeError
@@ -801,6 +803,8 @@ class PipelineGraph:
 
         Raises
         ------
+        PipelineGraphError
+            Raised if a task label is already in use.
         PipelineDataCycleError
             Raised if the graph is cyclic after this addition.
 
@@ -817,6 +821,21 @@ class PipelineGraph:
         """
         node_data: list[tuple[NodeKey, dict[str, Any]]] = []
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]] = []
+        nodes = list(nodes)
+        new_labels: set[str] = set()
+        for task_node in nodes:
+            if task_node.key in self._xgraph or task_node.label in new_labels:
+                raise PipelineGraphError(f"Task label {task_node.label!r} is already used in this pipeline graph.")
+            if task_node.label in self._task_subsets:
+                raise PipelineGraphError(f"Task label {task_node.label!r} is already used for a task subset.")
+            new_labels.add(task_node.label)
+        # Remember everything needed to roll back.
+        old_sorted_keys = self._sorted_keys
+        old_dataset_type_nodes: dict[NodeKey, DatasetTypeNode | None] = {
+            key: state["instance"]
+            for key, state in self._xgraph.nodes.items()
+            if key.node_type is NodeType.DATASET_TYPE
+        }
         for task_node in nodes:
             task_node = task_node._resolved(self._universe)
             node_data.append(
@@ -857,6 +876,10 @@ class PipelineGraph:
             try:
                 self._xgraph.remove_edges_from(edge_data)
                 self._xgraph.remove_nodes_from(key for key, _ in node_data)
+                for key, dataset_type_node in old_dataset_type_nodes.items():
+                    self._xgraph.nodes[key]["instance"] = dataset_type_node
+                if old_sorted_keys is not None:
+                    self._reorder(old_sorted_keys)
             except Exception as err:  # pragma: no cover
                 # There's no known way to get here, but we want to make it
                 # clear it's a big problem if we do.
-- 
2.43.0


From 99e85c1328ecb023a65e726ef8f44907f1d1f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 46/68] fix: find the step of a task in pipeline graphs that
 were read from files

---
 .../lsst/pipe/base/pipeline_graph/_pipeline_graph.py  | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 44355cb..b68d279 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -241,7 +241,10 @@ class PipelineGraph:
         if not self._step_definitions:
             raise InvalidStepsError("No steps have been defined for this pipeline.")
         elif self._step_definitions.verified:
-            return self._xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"]
+            for step_label in self._step_definitions:
+                if task_label in self._task_subsets[step_label]:
+                    return step_label
+            raise KeyError(task_label)
         raise UnresolvedGraphError("Steps have not been verified since the last modification.")
 
     @property
@@ -2467,12 +2470,6 @@ class PipelineGraph:
                 new_step_keys.update(self._xgraph.predecessors(task_key))
                 new_step_keys.update(self._xgraph.successors(task_init_key))
                 new_step_keys.update(self._xgraph.successors(task_key))
-                # Also record the step the task is in as a private xgraph
-                # attribute so we can look up the step given a task (or,
-                # indirectly, dataset type); this has to be used with care
-                # because if the steps haven't been verified it can be wrong.
-                self._xgraph.nodes[task_init_key]["step"] = step_label
-                self._xgraph.nodes[task_key]["step"] = step_label
             # Drop step input keys that were already either inputs or outputs
             # of a previous step, since they'll have already been added to
             # sort_keys.
-- 
2.43.0


From fb2c13076a92028c000b2f0499db1fe278fe1346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 47/68] fix: check init-inputs and init-outputs between
 pipeline steps

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index b68d279..1adcc7a 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2448,11 +2448,11 @@ class PipelineGraph:
             # graph keys for the step so we can make and sort a step sub-graph.
             new_step_keys: set[NodeKey] = set()
             for task_label in task_subset:
-                for input_name in self.inputs_of(task_label):
+                for input_name in (*self.inputs_of(task_label), *self.inputs_of(task_label, init=True)):
                     step_inputs.setdefault(input_name, set()).add(task_label)
                 # Check that none of the outputs of the tasks in this step were
                 # expected as inputs of a previous step's tasks.
-                task_outputs = self.outputs_of(task_label)
+                task_outputs = self.outputs_of(task_label) | self.outputs_of(task_label, init=True)
                 if not inputs_so_far.keys().isdisjoint(task_outputs.keys()):
                     msg: list[str] = []
                     for input_name in inputs_so_far.keys() & task_outputs.keys():
-- 
2.43.0


From 9188c2b102a670f469cf2e01cde5b235fd512e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 48/68] fix: mark pipeline steps as unverified when tasks are
 added

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1adcc7a..a44f9ba 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -892,6 +892,8 @@ class PipelineGraph:
                 ) from err
             # Successfully rolled back; raise the original exception.
             raise
+        # The new tasks are not in any step yet.
+        self._step_definitions._verified = False
 
     def reconfigure_tasks(
         self,
-- 
2.43.0


From 370584f87b6e5b9a86647e9bfdc2668fc808f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 49/68] fix: require every sharding dimension of a pipeline
 step to match

---
 .../lsst/pipe/base/pipeline_graph/_pipeline_graph.py  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index a44f9ba..1c5c53a 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2860,20 +2860,21 @@ def _dimensions_compatible(dimensions: DimensionGroup, object_dimensions: Dimens
     if dimensions.issubset(object_dimensions):
         # Easy typical case.
         return True
-    # Hard case: if any sharding dimensions that are not in the object
+    # Hard case: if all sharding dimensions that are not in the object
     # dimensions are related to something in the object dimensions by a
     # many-to-many join table, this is okay too.  The main use case here is to
     # let {exposure, [detector]} satisfy sharding dimensions of
     # {visit, [detector]}.
     universe = dimensions.universe
-    unmatched_sharding = dimensions.required - object_dimensions.required
+    unmatched_sharding = dimensions.required - object_dimensions.names
     unmatched_object = object_dimensions.required - dimensions.required
     unmatched_union_group = dimensions.union(object_dimensions)
+    related: set[str] = set()
     for element_name in unmatched_union_group.elements:
         if (
             (element := universe[element_name]).defines_relationships
-            and not element.dimensions.isdisjoint(unmatched_sharding)
+            and element_name not in universe.dimensions.names
             and not element.dimensions.isdisjoint(unmatched_object)
         ):
-            return True
-    return False
+            related.update(element.dimensions.names)
+    return related.issuperset(unmatched_sharding)
-- 
2.43.0


From f9c424db25a3ebdbdd29534493197fa5e36b15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:05 +0000
Subject: [PATCH 50/68] fix: compare the order of pipeline steps

---
 python/lsst/pipe/base/pipeline_graph/_task_subsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_task_subsets.py b/python/lsst/pipe/base/pipeline_graph/_task_subsets.py
index 7294cd4..04762b8 100644
--- a/python/lsst/pipe/base/pipeline_graph/_task_subsets.py
+++ b/python/lsst/pipe/base/pipeline_graph/_task_subsets.py
@@ -225,7 +225,7 @@ class StepDefinitions:
 
     def __eq__(self, other: object) -> bool:
         if isinstance(other, StepDefinitions):
-            return self._dimensions_by_label == other._dimensions_by_label
+            return list(self._dimensions_by_label.items()) == list(other._dimensions_by_label.items())
         return NotImplemented
 
     def copy(self) -> StepDefinitions:
-- 
2.43.0


From e964b75b423328938119f07b1a6a895ac162a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:30 +0000
Subject: [PATCH 51/68] fix: do not keep dataset type nodes resolved from other
 edges

---
 .../pipe/base/pipeline_graph/_dataset_types.py  | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index 72f2ead..b94df09 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -128,12 +128,6 @@ class DatasetTypeNode:
         """
         dataset_type = get_registered(key.name) if get_registered is not None else None
         is_registered = dataset_type is not None
-        if previous is not None and previous.dataset_type == dataset_type:
-            # This node was already resolved (with exactly the same edges
-            # contributing, since we clear resolutions when edges are added or
-            # removed).  The only thing that might have changed was the
-            # definition in the registry, and it didn't.
-            return previous
         is_initial_query_constraint = True
         is_prerequisite: bool | None = None
         producer: str | None = None
@@ -177,6 +171,17 @@ class DatasetTypeNode:
             consumers.append(consuming_edge.task_label)
         assert dataset_type is not None, "Graph structure guarantees at least one edge."
         assert is_prerequisite is not None, "Having at least one edge guarantees is_prerequisite is known."
+        if (
+            previous is not None
+            and previous.dataset_type == dataset_type
+            and previous.is_initial_query_constraint == is_initial_query_constraint
+            and previous.is_prerequisite == is_prerequisite
+            and previous.producing_edge is producing_edge
+            and tuple(previous.consuming_edges) == tuple(consuming_edges)
+        ):
+            # This node was already resolved, from the same edges, and nothing
+            # changed.
+            return previous
         return DatasetTypeNode(
             dataset_type=dataset_type,
             is_initial_query_constraint=is_initial_query_constraint,
-- 
2.43.0


From e3175d951c53d7ae323a8e3628b7b07918e726cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:30 +0000
Subject: [PATCH 52/68] fix: never use prerequisite and init-inputs as initial
 query constraints

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index 1a569a6..adb2ec3 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -560,7 +560,12 @@ class ReadEdge(Edge):
                 dimensions = current.dimensions
         else:
             dimensions = universe.conform(self.raw_dimensions)
-        is_initial_query_constraint = is_initial_query_constraint and not self.defer_query_constraint
+        is_initial_query_constraint = (
+            is_initial_query_constraint
+            and not self.defer_query_constraint
+            and not self.is_prerequisite
+            and not self.is_init
+        )
         if is_prerequisite is None:
             is_prerequisite = self.is_prerequisite
         elif is_prerequisite and not self.is_prerequisite:
-- 
2.43.0


From a556e1fdd3e6eb0f900dca3c219141c05d2d7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:31 +0000
Subject: [PATCH 53/68] fix: ignore line breaks in pipeline graph expressions

---
 python/lsst/pipe/base/pipeline_graph/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/expressions.py b/python/lsst/pipe/base/pipeline_graph/expressions.py
index 016eb51..54fc43a 100644
--- a/python/lsst/pipe/base/pipeline_graph/expressions.py
+++ b/python/lsst/pipe/base/pipeline_graph/expressions.py
@@ -88,8 +88,8 @@ class _ParserLex:
         t.type = "IDENTIFIER"
         return t
 
-    # Ignore spaces and tables.
-    t_ignore = " \t"
+    # Ignore spaces, tabs and line breaks.
+    t_ignore = " \t\r\n"
 
     def t_error(self, t: LexToken) -> LexToken:
         raise InvalidExpressionError(
-- 
2.43.0


From 4d45d84fdb7f7e2b23b29c70fc7a8011c4f7ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 54/68] fix: restore the consumers of dataset types when
 reading pipeline graphs

---
 python/lsst/pipe/base/pipeline_graph/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -570,7 +570,7 @@ class SerializedDatasetTypeNode(pydantic.BaseModel):
                     )
                 producer = producing_edge.task_label
             consuming_edges = tuple(
-                consuming_edge for _, _, consuming_edge in xgraph.in_edges(key, data="instance")
+                consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
             )
             return DatasetTypeNode(
                 dataset_type=dataset_type,
-- 
2.43.0


From ef2f846c986b998226a7f60ee867865b81928d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:17 +0000
Subject: [PATCH 55/68] fix: do not convert back datasets that are cached in
 another storage class

---
 python/lsst/pipe/base/caching_limited_butler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 4f4ec2a..dac4ae6 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -120,7 +120,9 @@ class CachingLimitedButler(LimitedButler):
         # check if we have this dataset type in the cache
         if cached := self._cache.get(ref.datasetType.name):
             dataset_id, handle = cached
-            if dataset_id == ref.id:  # if we do, check it's the right object
+            # If we do, check it's the right object, in the right storage class
+            # (conversions are not always reversible).
+            if dataset_id == ref.id and handle.storageClass == storageClass:
                 _LOG.debug("Returning cached dataset %s", ref)
                 return handle.get(parameters=parameters, storageClass=storageClass)
 
-- 
2.43.0


From 117bf73a8f71566e567d470834dea27ef9cf3787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 56/68] fix: take dataset type dimensions from the universe a
 graph is resolved with

DatasetTypeNode objects of a previous resolution were kept although their
dimensions belonged to another dimension universe.
---
 python/lsst/pipe/base/pipeline_graph/_dataset_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index b94df09..7d09e53 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -174,6 +174,7 @@ class DatasetTypeNode:
         if (
             previous is not None
             and previous.dataset_type == dataset_type
+            and previous.dimensions.universe is dimensions
             and previous.is_initial_query_constraint == is_initial_query_constraint
             and previous.is_prerequisite == is_prerequisite
             and previous.producing_edge is producing_edge
-- 
2.43.0


From 1f366c29c81795a029224f73e940ed01e17c462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:56 +0000
Subject: [PATCH 57/68] fix: keep string data ID values in resource usage
 tables

String columns had no length, so numpy truncated every value to an empty
string.
---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 5df4254..0b9793b 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1455,7 +1455,11 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
         if include_data_ids:
             dimensions = self.pipeline_graph.tasks[task_label].dimensions
             for dimension_name in dimensions.data_coordinate_keys:
-                dtype = np.dtype(self.pipeline_graph.universe.dimensions[dimension_name].primary_key.pytype)
+                primary_key = self.pipeline_graph.universe.dimensions[dimension_name].primary_key
+                # Strings need a length, or numpy truncates them to nothing.
+                dtype = np.dtype(
+                    (str, primary_key.length) if primary_key.type == "string" else primary_key.pytype
+                )
                 dtype_terms.append((dimension_name, dtype))
         fields = QuantumResourceUsage.get_numpy_fields()
         dtype_terms.extend(fields.items())
-- 
2.43.0


From 084361f881cd5d7643551be1ccb3f00769d3124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:37 +0000
Subject: [PATCH 58/68] fix: match whole names with retained dataset type
 patterns

globToRegex patterns are only anchored at the end, so searching for one
took e.g. 'src*' to retain 'psf_src' as well, and the quanta that make it
were not forced to rerun.
---
 python/lsst/pipe/base/quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index 88b792f..1001e2f 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -893,7 +893,7 @@ class QuantumGraphBuilder(ABC):
                     self.log.warning("Retained dataset type %r not found in the pipeline.", expression)
                 result.add(expression)
             else:
-                matches = {n for n in all_names if expression.search(n)}
+                matches = {n for n in all_names if expression.fullmatch(n)}
                 if not matches:
                     self.log.warning(
                         "Retained dataset type pattern %r matches no dataset types.",
-- 
2.43.0


From 312adcb13e6c39fa6e5bc3c77e9a44408cbf3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:21 +0000
Subject: [PATCH 59/68] fix: keep node IDs when subsetting a QuantumGraph by a
 one-shot iterable

---
 python/lsst/pipe/base/graph/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 133cbf2..1b42fa4 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -663,6 +663,9 @@ class QuantumGraph:
         """
         if not isinstance(nodes, Iterable):
             nodes = (nodes,)
+        else:
+            # May be a one-shot iterator, and we need to iterate twice.
+            nodes = tuple(nodes)
         quantumSubgraph = self._connectedQuanta.subgraph(nodes).nodes
         quantumMap = defaultdict(set)
 
-- 
2.43.0


From 93bca4f2610d5824e3190da52bc0f66b7b723928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 60/68] fix: keep registry dataset types of component inputs in
 QuantumGraph subsets

---
 python/lsst/pipe/base/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 1b42fa4..89f769f 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -674,7 +674,7 @@ class QuantumGraph:
         for node in quantumSubgraph:
             quantumMap[node.taskDef].add(node.quantum)
             dataset_type_names.update(
-                dstype.name
+                dstype.nameAndComponent()[0]
                 for dstype in chain(
                     node.quantum.inputs.keys(), node.quantum.outputs.keys(), node.quantum.initInputs.keys()
                 )
-- 
2.43.0


From accad5f074932baaab21f4b0edd9ed1d9e9dbea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 61/68] fix: keep init-input and init-output refs in
 QuantumGraph subsets

---
 python/lsst/pipe/base/graph/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 89f769f..9e7bcd3 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -693,13 +693,18 @@ class QuantumGraph:
         quantumDict: dict[TaskDef, set[Quantum]] = dict(quantumMap.items())
         # Create an empty graph, and then populate it with custom mapping
         newInst = type(self)({}, universe=self._universe)
-        # TODO: Do we need to copy initInputs/initOutputs?
         newInst._buildGraphs(
             quantumDict,
             _quantumToNodeId={n.quantum: n.nodeId for n in nodes},
             _buildId=self._buildId,
             metadata=self._metadata,
             universe=self._universe,
+            initInputs={
+                taskDef: refs for taskDef in quantumDict if (refs := self.initInputRefs(taskDef)) is not None
+            },
+            initOutputs={
+                taskDef: refs for taskDef in quantumDict if (refs := self.initOutputRefs(taskDef)) is not None
+            },
             globalInitOutputs=self._globalInitOutputRefs,
             registryDatasetTypes=registryDatasetTypes,
         )
-- 
2.43.0


From 1808b11d2c98368abaa81a6adb4806d1cf8877b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 62/68] fix: restore all attributes of unpickled QuantumGraphs

---
 python/lsst/pipe/base/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 9e7bcd3..ff31028 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1424,6 +1424,10 @@ class QuantumGraph:
         self._connectedQuanta = qgraph._connectedQuanta
         self._initInputRefs = qgraph._initInputRefs
         self._initOutputRefs = qgraph._initOutputRefs
+        self._globalInitOutputRefs = qgraph._globalInitOutputRefs
+        self._registryDatasetTypes = qgraph._registryDatasetTypes
+        self._universe = qgraph._universe
+        self._pipeline_graph = None
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, QuantumGraph):
-- 
2.43.0


From 82fed37851a6225e7c82ca6aec23b461d5954cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 63/68] fix: count datasets rather than quanta in QuantumGraph
 summaries

---
 python/lsst/pipe/base/graph/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index ff31028..2d690f4 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1470,11 +1470,11 @@ class QuantumGraph:
             )
             qts.numQuanta += 1
 
-            for k in q.quantum.inputs.keys():
-                qts.numInputs[k.name] += 1
+            for k, refs in q.quantum.inputs.items():
+                qts.numInputs[k.name] += len(refs)
 
-            for k in q.quantum.outputs.keys():
-                qts.numOutputs[k.name] += 1
+            for k, refs in q.quantum.outputs.items():
+                qts.numOutputs[k.name] += len(refs)
 
         return summary
 
-- 
2.43.0


From 55b3ef7c9acbb1d99b6be42b9fe4558ed5598edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:22 +0000
Subject: [PATCH 64/68] fix: remove all intermediates from
 QuantumGraph.get_refs when asked to

---
 python/lsst/pipe/base/graph/graph.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 2d690f4..eaf925d 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1741,7 +1741,7 @@ class QuantumGraph:
         init_input_refs: set[DatasetRef] = set()
         init_output_refs: set[DatasetRef] = set(self.globalInitOutputRefs())
 
-        if include_intermediates is True:
+        if include_intermediates is not None:
             # Need to enable inputs and outputs even if not explicitly
             # requested.
             request_include_init_inputs = True
@@ -1770,6 +1770,7 @@ class QuantumGraph:
             if request_include_inputs:
                 for other_refs in qnode.quantum.inputs.values():
                     input_refs.update(other_refs)
+            if include_inputs or include_intermediates:
                 # Inputs can come with datastore records.
                 for store_name, records in qnode.quantum.datastore_records.items():
                     datastore_records.setdefault(store_name, DatastoreRecordData()).update(records)
@@ -1777,13 +1778,16 @@ class QuantumGraph:
                 for other_refs in qnode.quantum.outputs.values():
                     output_refs.update(other_refs)
 
-        # Intermediates are the intersection of inputs and outputs. Must do
-        # this analysis before conforming since dataset type changes will
-        # change set membership.
+        # Intermediates are the intersection of inputs and outputs. Must
+        # compare dataset IDs since an input can use a different storage class
+        # than the output or be a component of it.
         inter_msg = ""
         intermediates = set()
         if include_intermediates is not None:
-            intermediates = (input_refs | init_input_refs) & (output_refs | init_output_refs)
+            all_input_refs = input_refs | init_input_refs
+            all_output_refs = output_refs | init_output_refs
+            intermediate_ids = {ref.id for ref in all_input_refs} & {ref.id for ref in all_output_refs}
+            intermediates = {ref for ref in all_input_refs | all_output_refs if ref.id in intermediate_ids}
 
         if include_intermediates is False:
             # Remove intermediates from results.
-- 
2.43.0


From 58af36e6df3f3ca38cd244fe9351c07a82d376a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:26 +0000
Subject: [PATCH 65/68] fix: keep inputs of all connections with one dataset
 type when building quanta

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index 17c4f65..85356f7 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1212,7 +1212,12 @@ class PredictedQuantumGraph(BaseQuantumGraph):
             dataset_type = edge.adapt_dataset_type(
                 self.pipeline_graph.dataset_types[edge.parent_dataset_type_name].dataset_type
             )
-            results[dataset_type] = [self._make_general_ref(dataset_type, d.dataset_id) for d in datasets]
+            # More than one connection may have the same dataset type.
+            refs = {ref.id: ref for ref in results.get(dataset_type, ())}
+            for d in datasets:
+                if d.dataset_id not in refs:
+                    refs[d.dataset_id] = self._make_general_ref(dataset_type, d.dataset_id)
+            results[dataset_type] = list(refs.values())
         return results
 
     def _make_general_ref(self, dataset_type: DatasetType, dataset_id: uuid.UUID) -> DatasetRef:
-- 
2.43.0


From c281154c6344e4459c907b7a452f91b2ea8cfc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:52 +0000
Subject: [PATCH 66/68] fix: accept a single input collection when converting
 old quantum graphs

---
 python/lsst/pipe/base/quantum_graph/_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_common.py b/python/lsst/pipe/base/quantum_graph/_common.py
index aac5572..9e88f6f 100644
--- a/python/lsst/pipe/base/quantum_graph/_common.py
+++ b/python/lsst/pipe/base/quantum_graph/_common.py
@@ -193,8 +193,9 @@ class HeaderModel(pydantic.BaseModel):
             timestamp = datetime.datetime.fromisoformat(time_str)
         else:
             timestamp = datetime.datetime.now()
+        inputs = metadata.pop("input", []) or []  # Guard against explicit None and missing key.
         return cls(
-            inputs=list(metadata.pop("input", []) or []),  # Guard against explicit None and missing key.
+            inputs=[inputs] if isinstance(inputs, str) else list(inputs),
             output=metadata.pop("output", None),
             output_run=metadata.pop("output_run", ""),
             user=metadata.pop("user", ""),
-- 
2.43.0


From ffb3c3678cc9e5a7a077c4cbd70eb209f2db17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:52 +0000
Subject: [PATCH 67/68] fix: defer calibration lookups that have temporal
 bounds connections

AllDimensionsQuantumGraphBuilder checked the spatial bounds connections of
a task, rather than the temporal ones, when deciding whether the bulk
query can be used to find calibration inputs, so the timespans of
temporal bounds connections were ignored.
---
 python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index 4ab15bd..aba19ca 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -395,7 +395,7 @@ class AllDimensionsQuantumGraphBuilder(QuantumGraphBuilder):
                                 )
                                 continue
                         if finder.dataset_has_timespan:
-                            if task_prerequisite_info.bounds.spatial_connections:
+                            if task_prerequisite_info.bounds.temporal_connections:
                                 self.log.verbose(
                                     "Deferring prerequisite input %r of task %r to per-quantum processing "
                                     "(for temporal-bounds-connections handling).",
-- 
2.43.0


From b02fe396f66d91768db1f8b762123abd20d0e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 68/68] fix: generate data IDs in an order that does not depend
 on hashing

DimensionGroup comparisons test for subsets, so sorting by them leaves
the order of unrelated groups to the iteration order of sets, which is
different in every process; with it changed the generators chosen for
skypix dimensions and hence the quanta of the graph.
---
 .../all_dimensions_quantum_graph_builder.py   | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index aba19ca..2a46ca6 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -784,7 +784,7 @@ class _DimensionGroupTree:
             # that each parent branch's data IDs would project to the same set
             # (e.g. a visit-healpix overlap may yield different healpixels than
             # a patch-healpix overlap, even if the visits and patches overlap).
-            for target_dimensions in sorted(branches_not_in_tree):
+            for target_dimensions in sorted(branches_not_in_tree, key=_sort_key):
                 for generator in self.generators:
                     if self._maybe_insert_projection_branch(
                         target_dimensions, generator.dimensions, generator.branch.branches
@@ -894,7 +894,7 @@ class _DimensionGroupTree:
             Dimensions that have not yet been inserted into the tree.  Updated
             in place.
         """
-        for target_dimensions in sorted(branches_not_in_tree):
+        for target_dimensions in sorted(branches_not_in_tree, key=_sort_key):
             if target_dimensions.issubset(self.queryable_dimensions):
                 if self._maybe_insert_projection_branch(
                     target_dimensions, self.queryable_dimensions, self.queryable_branches
@@ -961,7 +961,7 @@ class _DimensionGroupTree:
             Dimensions that have not yet been inserted into the tree.  Updated
             in place.
         """
-        for target_dimensions in sorted(branches_not_in_tree):
+        for target_dimensions in sorted(branches_not_in_tree, key=_sort_key):
             queryable_subset_dimensions = target_dimensions.intersection(self.queryable_dimensions)
             # Make sure we actually have a branch to capture the queryable
             # subset data IDs (i.e. in case we didn't already have one for some
@@ -1111,9 +1111,9 @@ class _DimensionGroupTree:
         appended : `bool`
             Whether a new data ID generator was successfully appended.
         """
-        dimensions_done = sorted(self.branches_by_dimensions.keys() - branches_not_in_tree)
+        dimensions_done = sorted(self.branches_by_dimensions.keys() - branches_not_in_tree, key=_sort_key)
         for source_dimensions in dimensions_done:
-            for target_dimensions in sorted(branches_not_in_tree):
+            for target_dimensions in sorted(branches_not_in_tree, key=_sort_key):
                 if not source_dimensions <= target_dimensions:
                     continue
                 remainder_dimensions = target_dimensions - source_dimensions
@@ -1154,18 +1154,18 @@ class _DimensionGroupTree:
         appended : `bool`
             Whether a new data ID generator was successfully appended.
         """
-        for target_dimensions in sorted(branches_not_in_tree):
-            dimensions_done = sorted(self.branches_by_dimensions.keys() - branches_not_in_tree)
+        for target_dimensions in sorted(branches_not_in_tree, key=_sort_key):
+            dimensions_done = sorted(
+                self.branches_by_dimensions.keys() - branches_not_in_tree, key=_sort_key
+            )
             candidates_by_common: dict[DimensionGroup, tuple[DimensionGroup, DimensionGroup]] = {}
             for operand1, operand2 in itertools.combinations(dimensions_done, 2):
                 if operand1.union(operand2) == target_dimensions:
                     candidates_by_common[operand1.intersection(operand2)] = (operand1, operand2)
             if candidates_by_common:
-                # Because DimensionGroup defines a set-like inequality
-                # operator, 'max' returns the set of dimensions that contains
-                # as many of the other sets of dimensions as possible, which is
-                # a reasonable guess at the most-constrained join.
-                operand1, operand2 = candidates_by_common[max(candidates_by_common)]
+                # Using the largest set of common dimensions is a reasonable
+                # guess at the most-constrained join.
+                operand1, operand2 = candidates_by_common[max(candidates_by_common, key=_sort_key)]
                 generator = JoinDataIdGenerator(
                     self.branches_by_dimensions[target_dimensions],
                     target_dimensions,
@@ -1224,6 +1224,28 @@ class _DimensionGroupTree:
             generator.pprint("  ", printer=printer)
 
 
+def _sort_key(dimensions: DimensionGroup) -> tuple[int, tuple[str, ...]]:
+    """Return a key that sorts dimension groups in a reproducible order in
+    which subsets always precede their supersets.
+
+    Parameters
+    ----------
+    dimensions : `lsst.daf.butler.DimensionGroup`
+        Dimensions to sort.
+
+    Returns
+    -------
+    key : `tuple`
+        Sort key.
+
+    Notes
+    -----
+    The comparison operators of `~lsst.daf.butler.DimensionGroup` test for
+    subsets and supersets, which is not enough to sort by them.
+    """
+    return (len(dimensions), tuple(dimensions.names))
+
+
 def get_single_skypix(dimensions: DimensionGroup) -> SkyPixDimension | None:
     """Try to coerce a dimension group a single skypix dimenison.
 
-- 
2.43.0

