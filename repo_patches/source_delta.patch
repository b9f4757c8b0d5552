From 62641d10b60ea5a137a6446a3ac658e7852b3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/17] fix: let an accumulated optimizer step span a streaming
 epoch boundary

---
 dataset/planner.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/dataset/planner.py b/dataset/planner.py
index 1060ed1..1fa179e 100644
--- a/dataset/planner.py
+++ b/dataset/planner.py
@@ -341,7 +341,9 @@ class DatasetPlanner:
         self._source_exhausted = True
         self._finished = True
 
-    def _initial_digest(self, epoch: int) -> str:
+    def _initial_digest(self, epoch: int, pipeline_blob: bytes | None = None) -> str:
+        if pipeline_blob is None:
+            pipeline_blob = self._committed_pipeline_blob
         return hashlib.sha256(
             canonical_pipeline_state_bytes(
                 {
@@ -351,7 +353,7 @@ class DatasetPlanner:
                     "config": asdict(self.config),
                     "epoch": epoch,
                     "kind": "epoch-start",
-                    "pipeline_state": self._committed_pipeline_blob,
+                    "pipeline_state": pipeline_blob,
                 }
             )
         ).hexdigest()
@@ -870,7 +872,20 @@ class DatasetPlanner:
             if self._committed_state is not None
             else tokens[0].batch_index
         )
+        epoch_complete = (
+            self._committed_state is not None and self._committed_state.finished
+        )
         for token in tokens:
+            if (
+                epoch_complete
+                and (token.epoch, token.batch_index) == (expected_epoch + 1, 0)
+                and token.before_digest
+                == self._initial_digest(token.epoch, pipeline_blob)
+            ):
+                # An accumulated optimizer step may span an epoch boundary.
+                expected_epoch, expected_batch = token.epoch, 0
+                digest = token.before_digest
+                expected_state = token.before_state
             if token.before_digest != digest:
                 raise RuntimeError("non-contiguous planner token digest")
             if (token.epoch, token.batch_index) != (
@@ -898,6 +913,7 @@ class DatasetPlanner:
             expected_batch += 1
             expected_state = token.after_state
             pipeline_blob = token.after_pipeline_blob
+            epoch_complete = token.batch.is_last
         coordination_descriptor = (
             (
                 self.distributed_policy,
@@ -941,16 +957,19 @@ class DatasetPlanner:
     def begin_next_epoch(self) -> None:
         if not self.finished:
             raise RuntimeError("cannot advance an unfinished planner epoch")
-        if self._yield_digest != self._committed_digest:
-            raise RuntimeError("cannot advance with uncommitted planner batches")
+        # Batches of the finished epoch stay uncommitted while the optimizer
+        # step they belong to is still accumulating batches of the next epoch.
+        uncommitted = self._yield_digest != self._committed_digest
         self.start_epoch(self.epoch + 1)
-        self._committed_state = (
+        self._yield_state = (
             self.state() if self.source.capabilities.resumable else None
         )
-        self._yield_state = self._committed_state
-        self._committed_digest = self._initial_digest(self.epoch)
-        self._yield_digest = self._committed_digest
-        self._yield_pipeline_blob = self._committed_pipeline_blob
+        self._yield_digest = self._initial_digest(
+            self.epoch, self._yield_pipeline_blob
+        )
+        if not uncommitted:
+            self._committed_state = self._yield_state
+            self._committed_digest = self._yield_digest
 
     def rollback_uncommitted(self) -> None:
         if not self.source.capabilities.resumable:
-- 
2.43.0


From 45d76273a9546078e21918dc115530e6fed1aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 02/17] fix: a move completing an exact five is never forbidden

---
 dataset/pipeline/forbidden_point_cpp/board.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/pipeline/forbidden_point_cpp/board.cpp b/dataset/pipeline/forbidden_point_cpp/board.cpp
index 4fe412a..7b3fd30 100644
--- a/dataset/pipeline/forbidden_point_cpp/board.cpp
+++ b/dataset/pipeline/forbidden_point_cpp/board.cpp
@@ -21,7 +21,7 @@ ForbiddenType Board::isForbidden(Pos pos)
         return DOUBLE_THREE;
     else if (isDoubleFour(pos, BLACK))
         return DOUBLE_FOUR;
-    else if (isOverline(pos, BLACK))
+    else if (!isFive(pos, BLACK) && isOverline(pos, BLACK))
         return OVERLINE;
     else
         return FORBIDDEN_NONE;
-- 
2.43.0


From c32b2f497810bafe1980d0db6e76b7881208b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 03/17] fix: packed games with an odd opening keep black as the
 first player

---
 dataset/packed_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..8785304 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -438,7 +438,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
         current_result = entry.result
         current_position = entry.init_position.copy()
         current_ply = len(current_position)
-        current_stm_input = -1 if current_ply % 2 == 0 else 1  # (Black = -1, White = 1)
+        current_stm_input = -1  # (Black = -1, White = 1), black plays the first stone
 
         # setup inital board input
         current_board_input = np.zeros((2, boardsize[0], boardsize[1]), dtype=np.int8)
-- 
2.43.0


From e7b677e8ad44c95be0f3d38225195d53b3f2ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 04/17] fix: batch spatial policy targets padded to a fixed
 board size

---
 dataset/core.py   | 9 ++++++---
 dataset/stream.py | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dataset/core.py b/dataset/core.py
index 1f1e5c3..1b8e8f7 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -1656,9 +1656,12 @@ class PipelineStateComposer:
                     )
                 spatial_policy = (
                     len(shape) == 3
-                    and np.all(
-                        board_sizes
-                        == np.asarray(shape[-2:], dtype=np.int64)[None, :]
+                    and (
+                        tuple(shape[-2:]) == tuple(data["board_input"].shape[-2:])
+                        or np.all(
+                            board_sizes
+                            == np.asarray(shape[-2:], dtype=np.int64)[None, :]
+                        )
                     )
                 )
                 logical_policy_sizes = board_sizes[:, 0] * board_sizes[:, 1]
diff --git a/dataset/stream.py b/dataset/stream.py
index 3910fcf..65b393c 100644
--- a/dataset/stream.py
+++ b/dataset/stream.py
@@ -184,7 +184,11 @@ def collate_sample_dicts(
                     )
                     spatial = (
                         array.ndim == 2
-                        and tuple(array.shape) == board_size
+                        and tuple(array.shape)
+                        in {
+                            board_size,
+                            tuple(np.asarray(samples[index]["board_input"]).shape[-2:]),
+                        }
                     )
                     flat = (
                         array.ndim == 1
-- 
2.43.0


From 07a4e750330d30f4f3b333e7f22c70bc565c22b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 05/17] fix: move only the real board when augmenting padded
 samples

---
 dataset/packed_binary.py | 30 ++++++++++++++++--------------
 dataset/simple_binary.py | 18 ++++++++----------
 utils/data_utils.py      | 32 +++++++++++++++++++++++---------
 3 files changed, 47 insertions(+), 33 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 8785304..089318c 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -272,7 +271,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             has_pass_move=self.has_pass_move,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -308,12 +307,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._process_subrecord(entry, subrecord)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry.boardsize, entry.boardsize)
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -322,11 +320,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
-            )
+            return reader._process_subrecord(entry, subrecord, symmetry_index)
 
         self._record_source = InterleavedSequentialSource(
             self.file_list,
@@ -427,7 +421,12 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self,
+        entry: EntryData,
+        selected_subrecord: int,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -484,6 +483,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
                     symmetry_type=self.apply_symmetry,
+                    symmetry_index=symmetry_index,
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +496,8 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self, entry: EntryData, subrecord: int, symmetry_index: int | None = None
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(entry, int(subrecord), symmetry_index)
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..389326d 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -143,7 +142,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             boardsizes=self.boardsizes,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -165,12 +164,11 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._prepare_data_from_entry(*entry)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry[2], entry[2])
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -179,10 +177,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
+            return reader._prepare_data_from_entry(
+                *entry, symmetry_index=symmetry_index
             )
 
         self._record_source = InterleavedSequentialSource(
@@ -237,6 +233,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        symmetry_index: int | None = None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -277,6 +274,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             symmetry_type=self.apply_symmetry,
+            symmetry_index=symmetry_index,
             drop_extra=self.drop_extra,
         )
         return data
diff --git a/utils/data_utils.py b/utils/data_utils.py
index fbfa7c3..ba021de 100644
--- a/utils/data_utils.py
+++ b/utils/data_utils.py
@@ -238,27 +238,41 @@ class SamplePostProcessor:
                 )
             picked_symmetry = symmetries[symmetry_index]
 
+            board_h, board_w = (int(v) for v in data["board_size"])
+
+            def transform_board(array):
+                # Padding stays at the bottom/right: only the real board moves.
+                transformed = np.array(array, copy=True, order="C")
+                transformed[..., :board_h, :board_w] = picked_symmetry.apply_to_array(
+                    array[..., :board_h, :board_w]
+                )
+                return transformed
+
             # Apply symmetry to the board_input, policy_target
-            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
+            plane_shape = tuple(data["board_input"].shape[-2:])
+            data["board_input"] = transform_board(data["board_input"])
             if "sparse_feature_input" in data:
-                data["sparse_feature_input"] = picked_symmetry.apply_to_array(
+                data["sparse_feature_input"] = transform_board(
                     data["sparse_feature_input"]
                 )
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                flat_size = data["policy_target"].shape[0] - 1
+                if flat_size == np.prod(plane_shape):
+                    flat_shape = plane_shape
+                elif flat_size == board_h * board_w:
+                    flat_shape = (board_h, board_w)
+                else:
                     raise ValueError(
                         "flattened policy target does not match board_size"
                     )
-                policy_target_sym = data["policy_target"][:-1].reshape(tuple(data["board_size"]))
-                policy_target_sym = picked_symmetry.apply_to_array(policy_target_sym)
+                policy_target_sym = transform_board(
+                    data["policy_target"][:-1].reshape(flat_shape)
+                )
                 data["policy_target"] = np.concatenate(
                     [policy_target_sym.reshape(-1), data["policy_target"][-1:]]
                 )
             else:
-                data["policy_target"] = picked_symmetry.apply_to_array(data["policy_target"])
+                data["policy_target"] = transform_board(data["policy_target"])
 
             # Apply symmetry to the optional position
             if "position" in data:
-- 
2.43.0


From 6ea3f036482c4b297307b5aadb52a526f8d97972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 06/17] fix: a combined map-style dataset can be evaluated

---
 dataset/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dataset/__init__.py b/dataset/__init__.py
index eac4a77..e5931a0 100644
--- a/dataset/__init__.py
+++ b/dataset/__init__.py
@@ -97,6 +97,16 @@ class MultiDataset(Dataset):
             shuffle=shuffle,
             runtime_context=runtime_context,
         )
+        # Evaluation shards and pads the combined dataset once, so the children
+        # themselves stay random-access.
+        from .stream import EvaluationBatchPlannerDataset
+
+        self.datasets = [
+            dataset.dataset
+            if isinstance(dataset, EvaluationBatchPlannerDataset)
+            else dataset
+            for dataset in self.datasets
+        ]
         # check if all datasets have __len__ and __getitem__ method
         if not all(
             hasattr(dataset, "__len__") and hasattr(dataset, "__getitem__")
-- 
2.43.0


From 405f197ba1fe46bdd19c545ac377297f9cddf2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 07/17] fix: sparse feature files can be read with drop_extra

---
 dataset/sparse_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index b63843f..344d7cf 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -224,6 +224,8 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             symmetry_type=self.apply_symmetry,
             drop_extra=self.drop_extra,
         )
+        if self.drop_extra:
+            return data
         # Convert unsigned feature storage to PyTorch-compatible signed types.
         if data["sparse_feature_dim"].max() > np.iinfo(np.int32).max:
             raise ValueError("sparse feature dimension exceeds int32")
-- 
2.43.0


From 6ee40d18bc2d751a5844b1771c15d159e75768b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 08/17] fix: resuming a streaming run must not consume the
 restored torch RNG

---
 trainer/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..6a6160c 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -678,6 +678,8 @@ class BaseTrainer:
                 world_size=self.accelerator.num_processes,
             )
             train_loader_args["sampler"] = self._resume_sampler
+            loader_shuffle = False
+        if resume_reason is None:
             # DataLoader creates a base seed whenever an iterator is built,
             # even with zero workers.  Keep that bookkeeping off the global
             # torch RNG so rebuilding an iterator after resume is transparent
@@ -685,7 +687,6 @@ class BaseTrainer:
             train_loader_args["generator"] = torch.Generator().manual_seed(
                 self.random_seed
             )
-            loader_shuffle = False
         self.train_loader = build_data_loader(
             self.train_dataset,
             self.batch_size_per_process,
-- 
2.43.0


From 879a1ca8705cae98f99829de8234be3a84d7167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 09/17] fix: judge the last step's finite check before an
 interrupted run is saved

---
 trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 6a6160c..ca382b1 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4106,6 +4106,9 @@ class BaseTrainer:
                 and self._last_state_save_iteration != st.iteration
             ):
                 try:
+                    # The interrupted step's pipelined finite check must land
+                    # before its state can be committed.
+                    self._drain_pending_step_validity(include_current=True)
                     self._save_checkpoint(force_state=True)
                 except BaseException as save_exc:
                     accelerator.print(
-- 
2.43.0


From 51b10d55ba9805ab1485022f8549faa13a1f4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 10/17] fix: give batch-yielding loaders the private generator
 instead of the trainer

---
 trainer/base.py         |  3 +--
 utils/training_utils.py | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/trainer/base.py b/trainer/base.py
index ca382b1..ae0da2e 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -678,8 +678,6 @@ class BaseTrainer:
                 world_size=self.accelerator.num_processes,
             )
             train_loader_args["sampler"] = self._resume_sampler
-            loader_shuffle = False
-        if resume_reason is None:
             # DataLoader creates a base seed whenever an iterator is built,
             # even with zero workers.  Keep that bookkeeping off the global
             # torch RNG so rebuilding an iterator after resume is transparent
@@ -687,6 +685,7 @@ class BaseTrainer:
             train_loader_args["generator"] = torch.Generator().manual_seed(
                 self.random_seed
             )
+            loader_shuffle = False
         self.train_loader = build_data_loader(
             self.train_dataset,
             self.batch_size_per_process,
diff --git a/utils/training_utils.py b/utils/training_utils.py
index 145a5bb..60b2161 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1105,6 +1105,21 @@ def build_data_loader(
             )
         shuffle = False
 
+    # DataLoader draws a base seed whenever an iterator is built, even with zero
+    # workers.  A private generator keeps that bookkeeping off the global torch
+    # RNG, whose restored state must not move when a resumed run builds one.
+    if runtime_context is not None and "generator" not in kwargs:
+        from dataset.core import rng_u64
+
+        generator_seed = rng_u64(
+            runtime_context.seed,
+            "loader_rng",
+            (runtime_context.rank,),
+        )
+        kwargs["generator"] = torch.Generator().manual_seed(
+            generator_seed & ((1 << 63) - 1)
+        )
+
     if bool(getattr(dataset, "yields_batches", getattr(dataset, "YIELDS_BATCHES", False))):
         # Dataset yields whole collated batches and prefetches with internal
         # threads: run it in-process (worker->main IPC costs more per batch
@@ -1119,17 +1134,6 @@ def build_data_loader(
         )
 
     if runtime_context is not None:
-        from dataset.core import rng_u64
-
-        if "generator" not in kwargs:
-            generator_seed = rng_u64(
-                runtime_context.seed,
-                "loader_rng",
-                (runtime_context.rank,),
-            )
-            kwargs["generator"] = torch.Generator().manual_seed(
-                generator_seed & ((1 << 63) - 1)
-            )
         if num_workers > 0 and "worker_init_fn" not in kwargs:
             kwargs["worker_init_fn"] = partial(
                 _seed_dataset_worker,
-- 
2.43.0


From 866c6c76ddcf2ec217393a83177dced3869cced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 11/17] fix: evaluation ranks whose slice of the last batch is
 all padding

---
 utils/training_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 60b2161..24225cb 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1225,10 +1225,10 @@ def cross_entropy_with_softlabel(
 
     if input.ndim > 1:
         # Cross-entropy Loss
-        input = input.view(input.shape[0], -1)
-        target = target.view(target.shape[0], -1)
+        input = torch.flatten(input, start_dim=1)
+        target = torch.flatten(target, start_dim=1)
         if weight is not None:
-            target = target * weight.view(weight.shape[0], -1)
+            target = target * torch.flatten(weight, start_dim=1)
 
         logprobs = F.log_softmax(input, dim=1)
         if focal_gamma > 0.0:
-- 
2.43.0


From d63d03303bc8a5cfb6cd29c018f44b095f89f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 12/17] fix: tracing exports (TorchScript, ONNX) of streaming
 datasets failed because sample batches stayed NumPy arrays

---
 export.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export.py b/export.py
index f5d1a30..0538295 100644
--- a/export.py
+++ b/export.py
@@ -6,6 +6,8 @@ import lz4.frame
 import zlib
 from datetime import datetime
 
+from torch.utils.data import default_convert
+
 from dataset import build_dataset
 from dataset.core import single_process_dataset_context
 from model import build_model
@@ -85,7 +87,8 @@ def _get_sample_data(
     data = next(iter(loader))
     from dataset.stream import BatchEnvelope
     if isinstance(data, BatchEnvelope):
-        data = data.data
+        # streaming datasets deliver NumPy batches, tracing needs tensors
+        data = default_convert(data.data)
     return data
 
 
-- 
2.43.0


From 9300485e714ea99818ef64fb35c3fe80ec82e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:21 +0000
Subject: [PATCH 13/17] fix: mark forbidden points for the board itself, not
 for its padding

---
 dataset/pipeline/forbidden_point.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dataset/pipeline/forbidden_point.py b/dataset/pipeline/forbidden_point.py
index 587ddcd..55c2ae2 100644
--- a/dataset/pipeline/forbidden_point.py
+++ b/dataset/pipeline/forbidden_point.py
@@ -34,11 +34,18 @@ class ForbiddenPointPipeline(BasePipeline):
             if not stm_is_black:
                 board_input = np.flip(board_input, axis=0)
 
-        # allocate space for forbidden point results
-        forbidden_point = np.empty((H, W), dtype=np.int8)  # [H, W]
+        # the rules apply to the board itself, not to the padding below and right of it
+        board_h, board_w = (int(v) for v in data.get("board_size", (H, W)))
 
         # do feature transformation
-        transform_board_to_forbidden_point(board_input, forbidden_point)
+        board_forbidden_point = np.empty((board_h, board_w), dtype=np.int8)
+        transform_board_to_forbidden_point(
+            board_input[:, :board_h, :board_w], board_forbidden_point
+        )
+
+        # no point of the padding is ever forbidden
+        forbidden_point = np.zeros((H, W), dtype=np.int8)  # [H, W]
+        forbidden_point[:board_h, :board_w] = board_forbidden_point
 
         # add forbidden point flags to data
         data = dict(data)
@@ -49,8 +56,9 @@ class ForbiddenPointPipeline(BasePipeline):
         outputs = [
             self.process(
                 {
-                    "board_input": data["board_input"][index],
-                    "stm_input": data["stm_input"][index],
+                    key: data[key][index]
+                    for key in ("board_input", "stm_input", "board_size")
+                    if key in data
                 }
             )["forbidden_point"]
             for index in range(len(data["board_input"]))
-- 
2.43.0


From 7650e42792d656442f2d468c61b0ba965cc9048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 14/17] fix: refuse filter calls that would write into the data

A whitelisted function called with one positional argument too many, such as
abs(vt[:, 0], vt[:, 1]), used the last one as the ufunc's output array: the
filter overwrote the samples it was selecting.
---
 dataset/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..247f737 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -217,6 +217,9 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            if len(node.args) != function.nin:
+                # A further positional argument is a ufunc's output array.
+                raise self._error(node, f"function takes {function.nin} argument(s)")
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From b15c56828e0768adef48899187ff9a04099e7075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:44 +0000
Subject: [PATCH 15/17] fix: pad a pass-move policy whose board is smaller than
 its frame

A fixed board size refused every raw KataGo row with a board smaller than its
frame when has_pass_move is set: the flattened policy has the frame's size, as
the symmetry branch already allows, not the board's.
---
 utils/data_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/utils/data_utils.py b/utils/data_utils.py
index ba021de..433a8fe 100644
--- a/utils/data_utils.py
+++ b/utils/data_utils.py
@@ -299,12 +299,9 @@ class SamplePostProcessor:
                 )
 
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                if data["policy_target"].shape[0] != board_h * board_w + 1:
                     raise ValueError(
-                        "flattened policy target does not match board_size"
+                        "flattened policy target does not match board_input"
                     )
                 policy_target_board = data["policy_target"][:-1].reshape((board_h, board_w))
                 policy_target_board = np.pad(
-- 
2.43.0


From 9f33b0e3a5e2e4521c16c2191164bf05e6d67a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 16/17] fix: let a raw KataGo file contribute no rows to an
 iterative dataset

iterative_katago_numpy refused its whole file list when one file held no row
of the asked board sizes and filters; the other NPZ datasets skip such files.
---
 dataset/katago.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataset/katago.py b/dataset/katago.py
index 88ec305..8c06606 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -69,6 +69,7 @@ def _map_symmetry_index(dataset, index, board_size):
 @DATASETS.register("katago_numpy")
 class KatagoNumpyDataset(Dataset):
     FILE_EXTS = [".npz"]
+    REQUIRES_ROWS = True
 
     def __init__(
         self,
@@ -131,7 +132,7 @@ class KatagoNumpyDataset(Dataset):
         # Validate row counts after board-size filtering.
         length_list = [len(array) for array in self.data_dict.values()]
         self.length = length_list[0]
-        if self.length <= 0:
+        if self.length <= 0 and self.REQUIRES_ROWS:
             raise ValueError(f"no valid data entry in {self.file_list}")
         if length_list.count(self.length) != len(length_list):
             raise ValueError("NPZ fields have unequal row counts")
@@ -258,6 +259,12 @@ class KatagoNumpyDataset(Dataset):
         )
 
 
+class _KatagoNumpyFile(KatagoNumpyDataset):
+    """One file of an iterative dataset: it may have no row of the asked sizes and filters."""
+
+    REQUIRES_ROWS = False
+
+
 @DATASETS.register("iterative_katago_numpy")
 class IterativeKatagoNumpyDataset(PlannedBatchDataset):
     """
@@ -321,7 +328,7 @@ class IterativeKatagoNumpyDataset(PlannedBatchDataset):
         symmetry = options.pop("apply_symmetry", False)
 
         def load(path):
-            dataset = KatagoNumpyDataset(
+            dataset = _KatagoNumpyFile(
                 file_list=[path],
                 boardsizes=self.boardsizes,
                 fixed_side_input=self.fixed_side_input,
-- 
2.43.0


From 869fd93d17ef0064c6037f51a482607a07aacded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 17/17] fix: number lines that are not stored row by row

---
 dataset/pipeline/line_encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/pipeline/line_encoding.py b/dataset/pipeline/line_encoding.py
index d33ecdc..b798cd3 100644
--- a/dataset/pipeline/line_encoding.py
+++ b/dataset/pipeline/line_encoding.py
@@ -110,7 +110,7 @@ def transform_lines_to_line_encoding(lines_input: np.ndarray, line_length: int)
     if np.min(lines_input) < 0 or np.max(lines_input) > 2:
         raise ValueError("lines_input values must be in [0, 2]")
 
-    line_encodings_output = np.zeros_like(lines_input, dtype=np.int32)
+    line_encodings_output = np.zeros(lines_input.shape, dtype=np.int32)
     transform_lines_to_line_encoding(lines_input, line_encodings_output, line_length)
 
     return line_encodings_output
-- 
2.43.0

