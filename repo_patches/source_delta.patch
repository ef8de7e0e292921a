From 7fbb81423edfce3f5e7d5071f8f1138708e4e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 01/57] fix: accept the 'bool' data type of tensors with NumPy
 >= 1.24

np.bool was removed in NumPy 1.24, so that looking up the type via
getattr(np, 'bool') fails and the pulse data module could not be
configured at all.
---
 egenerator/data/handler/base.py | 12 ++++++------
 egenerator/data/tensor.py       |  6 ++++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..196b2d8 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -336,7 +336,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(data[i])
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
 
         return num_events, tuple(data_tensors)
 
@@ -383,7 +383,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(tf.convert_to_tensor(data[i]))
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
         return tuple(data_tensors)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
@@ -929,7 +929,7 @@ class BaseDataHandler(BaseComponent):
                                     indices[:, 0] = size
                                     batch[i].append(indices)
                             else:
-                                batch[i].append(getattr(np, tensor.dtype)())
+                                batch[i].append(np.dtype(tensor.dtype).type())
                                 # batch[i].append(None)
                         size += 1
 
@@ -942,16 +942,16 @@ class BaseDataHandler(BaseComponent):
                                     if tensor.vector_info is None:
                                         batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype).type)
 
                                     else:
                                         batch[i] = np.concatenate(
                                                 batch[i], axis=0).astype(
-                                                    getattr(np, tensor.dtype))
+                                                    np.dtype(tensor.dtype).type)
                                 else:
                                     batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype).type)
 
                             if verbose:
                                 usage = resource.getrusage(
diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index a92da26..435f6da 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -95,8 +95,10 @@ class DataTensor(object):
         if not isinstance(self.dtype, str):
             raise ValueError('{!r} != {!r}'.format(type(self.dtype), str))
 
-        if not hasattr(np, self.dtype):
-            raise ValueError('Invalid dtype str: {!r}'.format(self.type))
+        try:
+            np.dtype(self.dtype)
+        except TypeError:
+            raise ValueError('Invalid dtype str: {!r}'.format(self.dtype))
 
         if self.vector_info is not None:
             if self.vector_info['type'] not in ['index', 'value']:
-- 
2.43.0


From 5da667804431cc5d0a50e7aec429c4e2d0702d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 02/57] fix: terminate the batch generator exactly when all
 data is delivered

Idle workers counted as processed files, the iterator and the consumer
blocked on queues that nobody fills any more, and the last (incomplete)
batch could be dropped, depending on timing. Wait for data with a
timeout, only count actual files and mark the end of the data explicitly.
Incomplete batches get the declared data types as complete ones do.
---
 egenerator/data/handler/base.py | 92 ++++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 196b2d8..330996c 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -1,5 +1,6 @@
 import os
 import time
+import queue
 import multiprocessing
 import numpy as np
 import glob
@@ -677,12 +678,10 @@ class BaseDataHandler(BaseComponent):
         # define shared memory variables
         num_files_processed = multiprocessing.Value('i')
         processed_all_files = multiprocessing.Value('b')
-        data_left_in_queue = multiprocessing.Value('b')
 
         # initialize shared variables
         num_files_processed.value = 0
         processed_all_files.value = False
-        data_left_in_queue.value = True
 
         # create Locks
         file_counter_lock = multiprocessing.Lock()
@@ -700,6 +699,9 @@ class BaseDataHandler(BaseComponent):
                 number_of_files += 1
                 file_list_queue.put(file)
 
+            if number_of_files == 0:
+                processed_all_files.value = True
+
         # create data_batch_queue
         data_batch_queue = multiprocessing.Manager().Queue(
                                                     maxsize=file_capacity)
@@ -738,12 +740,13 @@ class BaseDataHandler(BaseComponent):
                     file = local_random_state.choice(file_list)
                 else:
                     with file_counter_lock:
-                        if not file_list_queue.empty():
-                            file = file_list_queue.get()
-                        else:
-                            file = None
+                        if file_list_queue.empty():
+                            # all files are taken: this worker is done.
+                            # Note that other workers may still be busy.
+                            break
+                        file = file_list_queue.get()
 
-                if file and os.path.exists(file):
+                if os.path.exists(file):
 
                     if verbose:
                         usage = resource.getrusage(resource.RUSAGE_SELF)
@@ -756,7 +759,7 @@ class BaseDataHandler(BaseComponent):
                         self.get_data_from_hdf(file, *args, **kwargs)
 
                     # biased selection
-                    if biased_selection_module is not None:
+                    if data is not None and biased_selection_module is not None:
                         data = biased_selection_module.select(data)
 
                     if data is not None:
@@ -860,41 +863,52 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
+            def get_next_data_batch():
+                """Wait for the data of the next file.
+
+                Returns None if there is no more data to come.
+                """
+                while True:
+                    # The order is important: workers queue their data before
+                    # flagging a file as processed. Hence, if all files were
+                    # processed and the queue is empty, there is no data left.
+                    all_processed = processed_all_files.value
+                    try:
+                        return data_batch_queue.get(timeout=0.1)
+                    except queue.Empty:
+                        if all_processed:
+                            return None
 
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
-            while data_left_in_queue.value:
+            data_item = get_next_data_batch()
+            while data_item is not None:
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
                 # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
+                num_events, data_batch = data_item
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
                 n_files = 0
-                while ((n_files < num_add_files or current_queue_size <
-                        np.sqrt(max(0, num_repetitions - 1)) * batch_size) and
-                       data_left_in_queue.value):
+                while (n_files < num_add_files or current_queue_size <
+                        np.sqrt(max(0, num_repetitions - 1)) * batch_size):
 
-                    # avoid dead lock and delay for a bit
-                    time.sleep(0.1)
+                    data_item = get_next_data_batch()
+                    if data_item is None:
+                        # there are no more files to add
+                        break
 
-                    if (data_batch_queue.qsize() > 1 or
-                            not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
-                        n_files += 1
-                        current_queue_size += num_events
-                        fill_event_list(data_batch, event_list, exists,
-                                        num_events)
+                    num_events, data_batch = data_item
+                    n_files += 1
+                    current_queue_size += num_events
+                    fill_event_list(data_batch, event_list, exists,
+                                    num_events)
 
                 # concatenate into one numpy array:
                 for i, tensor in enumerate(self.tensors.list):
@@ -970,11 +984,9 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
+                # get data of next file, if there is any left
+                if data_item is not None:
+                    data_item = get_next_data_batch()
 
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
@@ -982,14 +994,21 @@ class BaseDataHandler(BaseComponent):
                 for i, tensor in enumerate(self.tensors.list):
                     if exists[i]:
                         if tensor.vector_info is None:
-                            batch[i] = np.asarray(batch[i])
+                            batch[i] = np.asarray(
+                                batch[i], dtype=np.dtype(tensor.dtype).type)
 
                         else:
-                            batch[i] = np.concatenate(batch[i], axis=0)
+                            batch[i] = np.concatenate(
+                                batch[i], axis=0).astype(
+                                    np.dtype(tensor.dtype).type)
                     else:
-                        batch[i] = np.asarray(batch[i])
+                        batch[i] = np.asarray(
+                            batch[i], dtype=np.dtype(tensor.dtype).type)
                 final_batch_queue.put(tuple(batch))
 
+            # tell the batch iterator that there are no more batches
+            final_batch_queue.put(None)
+
         def batch_iterator():
             """Create batch generator
 
@@ -1000,8 +1019,11 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
+            while True:
                 batch = final_batch_queue.get()
+                if batch is None:
+                    # there is no more data left
+                    return
                 yield batch
 
         # create processes
-- 
2.43.0


From 246cce1d87f132e11680cb14a7c53131a97f4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 03/57] fix: keep empty events when joining vector data of
 filtered events

If no event in the selection had any vector entries, event_to_batch_structure
returned empty lists instead of arrays of the correct shape.
---
 egenerator/data/handler/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 330996c..e16f475 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -554,12 +554,12 @@ class BaseDataHandler(BaseComponent):
             # make sure that the batch indices are correct
             assert np.all(indices[i][:, 0] == i)
 
-            values_list.extend(values[i])
-            indices_list.extend(indices[i])
+            values_list.append(values[i])
+            indices_list.append(indices[i])
 
         if len(values_list) > 0:
-            values_list = np.stack(values_list, axis=0)
-            indices_list = np.stack(indices_list, axis=0)
+            values_list = np.concatenate(values_list, axis=0)
+            indices_list = np.concatenate(indices_list, axis=0)
 
         return values_list, indices_list
 
-- 
2.43.0


From 096f7b1cb4e9d69992d8735d0f33d563a1c4031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 04/57] fix: do not return uninitialised rows for skipped
 IceTop pulses

Rows of pulses and time exclusions at DOMs > 60 were skipped while filling
arrays created by np.empty, but the (uninitialised) rows were kept.
---
 egenerator/data/modules/data/pulse_data.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..bcb93cb 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -293,6 +293,9 @@ class PulseDataModule(BaseComponent):
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
 
+        # keep track of rows that are filled (not skipped)
+        pulse_mask = np.ones(num_pulses, dtype=bool)
+
         # create array for time data
         x_time_window = np.empty(
             [size, 2],  dtype=self.data['np_float_precision'])
@@ -308,6 +311,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                pulse_mask[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -335,6 +339,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove rows of skipped pulses
+        x_pulses = x_pulses[pulse_mask]
+        x_pulses_ids = x_pulses_ids[pulse_mask]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
@@ -355,12 +363,16 @@ class PulseDataModule(BaseComponent):
         # get time exclusions
         # -------------------
         if time_exclusions is not None:
+            # keep track of rows that are filled (not skipped)
+            tw_mask = np.ones(len(x_time_exclusions), dtype=bool)
+
             for tw_index, row in enumerate(time_exclusions.itertuples()):
                 string = row[6]
                 dom = row[7]
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    tw_mask[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -372,6 +384,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove rows of skipped time windows
+            x_time_exclusions = x_time_exclusions[tw_mask]
+            x_time_exclusions_ids = x_time_exclusions_ids[tw_mask]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From 4f182b5cedd4c1071c96b7949d5d386591a144e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 05/57] fix: support missing time exclusions and empty pulse
 series

A missing time exclusion table crashed the HDF reader, a missing key in a
frame resulted in lists, and frames without pulses in arrays of wrong rank.
---
 egenerator/data/modules/data/pulse_data.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index bcb93cb..8cbecc2 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,10 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            if time_exclusions is None:
+                num_tws = 0
+            else:
+                num_tws = len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
@@ -564,8 +567,13 @@ class PulseDataModule(BaseComponent):
                 if pulse.time < x_time_window[index, 0]:
                     x_time_window[index, 0] = pulse.time
 
-        x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
-        x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
+        # reshape to make sure that shapes are correct if there are no pulses
+        pulse_dim = 3 if add_charge_quantiles else 2
+        x_pulses = np.array(
+            x_pulses, dtype=self.data['np_float_precision']
+        ).reshape((-1, pulse_dim))
+        x_pulses_ids = np.array(
+            x_pulses_ids, dtype=np.int32).reshape((-1, 3))
 
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
@@ -606,6 +614,7 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
+        if self.data['time_exclusions_exist']:
             if x_time_exclusions:
                 x_time_exclusions = np.array(
                     x_time_exclusions, dtype=self.data['np_float_precision'])
-- 
2.43.0


From 86656673804f48559a20766b91077b83f4f34a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 06/57] fix: discard pulses at default bad DOMs without
 exclusion list

discard_pulses_from_excluded_doms was ignored if the exclusion key was
missing, although the default bad DOMs are marked as excluded.
---
 egenerator/data/modules/data/pulse_data.py | 54 +++++++++++-----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 8cbecc2..2a9cff5 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -405,22 +405,23 @@ class PulseDataModule(BaseComponent):
                 index = event_dict[(row[1:5])]
                 x_dom_exclusions[index, string-1, dom-1, 0] = False
 
-            if self.configuration.config['discard_pulses_from_excluded_doms']:
+        if (self.data['dom_exclusions_exist'] and self.configuration.config[
+                'discard_pulses_from_excluded_doms']):
 
-                # compute flat indices
-                dim1 = x_dom_exclusions.shape[1]
-                dim2 = x_dom_exclusions.shape[2]
-                flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
-                                x_pulses_ids[:, 1]*dim2 +  # string
-                                x_pulses_ids[:, 2])  # DOM
+            # compute flat indices
+            dim1 = x_dom_exclusions.shape[1]
+            dim2 = x_dom_exclusions.shape[2]
+            flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
+                            x_pulses_ids[:, 1]*dim2 +  # string
+                            x_pulses_ids[:, 2])  # DOM
 
-                # flatten dom charges
-                flat_exclusions = x_dom_exclusions.flatten()
+            # flatten dom charges
+            flat_exclusions = x_dom_exclusions.flatten()
 
-                # discard pulses coming from excluded DOMs
-                mask = flat_exclusions[flat_indices]
-                x_pulses = x_pulses[mask]
-                x_pulses_ids = x_pulses_ids[mask]
+            # discard pulses coming from excluded DOMs
+            mask = flat_exclusions[flat_indices]
+            x_pulses = x_pulses[mask]
+            x_pulses_ids = x_pulses_ids[mask]
 
         # put everything together and make sure the order is correct
         data_dict = {
@@ -641,22 +642,23 @@ class PulseDataModule(BaseComponent):
                 index = 0
                 x_dom_exclusions[index, string-1, dom-1, 0] = False
 
-            if self.configuration.config['discard_pulses_from_excluded_doms']:
+        if (self.data['dom_exclusions_exist'] and self.configuration.config[
+                'discard_pulses_from_excluded_doms']):
 
-                # compute flat indices
-                dim1 = x_dom_exclusions.shape[1]
-                dim2 = x_dom_exclusions.shape[2]
-                flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
-                                x_pulses_ids[:, 1]*dim2 +  # string
-                                x_pulses_ids[:, 2])  # DOM
+            # compute flat indices
+            dim1 = x_dom_exclusions.shape[1]
+            dim2 = x_dom_exclusions.shape[2]
+            flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
+                            x_pulses_ids[:, 1]*dim2 +  # string
+                            x_pulses_ids[:, 2])  # DOM
 
-                # flatten dom charges
-                flat_exclusions = x_dom_exclusions.flatten()
+            # flatten dom charges
+            flat_exclusions = x_dom_exclusions.flatten()
 
-                # discard pulses coming from excluded DOMs
-                mask = flat_exclusions[flat_indices]
-                x_pulses = x_pulses[mask]
-                x_pulses_ids = x_pulses_ids[mask]
+            # discard pulses coming from excluded DOMs
+            mask = flat_exclusions[flat_indices]
+            x_pulses = x_pulses[mask]
+            x_pulses_ids = x_pulses_ids[mask]
 
         # put everything together and make sure the order is correct
         data_dict = {
-- 
2.43.0


From 6ed7fc84702f2bdbd1a13abb001b6e9e622e8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 07/57] fix: look up the constraint column (not the key) in
 frame objects

---
 egenerator/data/modules/filters/general_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..0072059 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,10 +184,11 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if (hasattr(value_table, '__contains__') and
+                        column in value_table):
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From 9e22ec6d13feb2ffddd2f2345efd5f771b5c748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 08/57] fix: allow event filtering when tensors do not exist

---
 egenerator/data/handler/modular.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..c3eea44 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -456,6 +456,7 @@ class ModuleDataHandler(BaseDataHandler):
             # check if data exists
             if event_batch[tensor_index] is None:
                 filtered_batch[tensor_index] = None
+                continue
 
             if tensor.vector_info is not None:
                 if tensor.vector_info['type'] == 'value':
-- 
2.43.0


From 62062fc22dc9327975b37ceb42c484d4493fc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 09/57] fix: load several seeds and seeds whose first parameter
 is missing

---
 egenerator/data/modules/misc/seed_loader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..c05e7bc 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -146,9 +146,6 @@ class SeedLoaderMiscModule(BaseComponent):
         if not self.is_configured:
             raise ValueError('Module not configured yet!')
 
-        # open file
-        f = pd.HDFStore(file, 'r')
-
         seeds = []
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
@@ -157,17 +154,19 @@ class SeedLoaderMiscModule(BaseComponent):
             seed_name = tensor.name
 
             seed_parameters = []
+
+            # open file
+            f = pd.HDFStore(file, 'r')
             try:
                 _labels = f[seed_name]
+                num_events = len(_labels)
                 for l in self.configuration.config['seed_parameter_names']:
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
-- 
2.43.0


From 694ce6e09205932b18652680f446f7640b1c2efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 10/57] fix: logarithm settings for all labels of the snowstorm
 label modules

---
 .../data/modules/labels/snowstorm_cascades.py   | 17 ++++++++++-------
 .../modules/labels/snowstorm_track_segment.py   |  4 +++-
 .../data/modules/labels/snowstorm_tracks.py     |  4 +++-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index f128f08..e84af31 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -111,13 +111,6 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             raise TypeError('{!r} is not a boolean value!'.format(
                 shift_cascade_vertex))
 
-        # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * 7
-        else:
-            trafo_log_ext = list(trafo_log)
-        trafo_log_ext.extend([False]*num_snowstorm_params)
-
         # create a list of label names to load
         if additional_labels is None:
             additional_labels = []
@@ -126,6 +119,16 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             'cascade_azimuth', 'cascade_energy', 'cascade_t',
         ] + additional_labels
 
+        # extend trafo log for additional labels and snowstorm parameters
+        if trafo_log is None:
+            trafo_log_ext = [False] * len(label_names)
+        elif isinstance(trafo_log, bool):
+            trafo_log_ext = [trafo_log] * len(label_names)
+        else:
+            trafo_log_ext = list(trafo_log)
+            trafo_log_ext.extend([False]*(len(label_names) - len(trafo_log)))
+        trafo_log_ext.extend([False]*num_snowstorm_params)
+
         data = {'label_names': label_names}
         data['label_tensors'] = DataTensorList([DataTensor(
             name='x_parameters',
diff --git a/egenerator/data/modules/labels/snowstorm_track_segment.py b/egenerator/data/modules/labels/snowstorm_track_segment.py
index 1b8b6be..a3ea78b 100644
--- a/egenerator/data/modules/labels/snowstorm_track_segment.py
+++ b/egenerator/data/modules/labels/snowstorm_track_segment.py
@@ -108,7 +108,9 @@ class SnowstormTrackSegmentGeneratorLabelModule(BaseComponent):
         # define number of parameters
         num_params = 9
 
-        if isinstance(trafo_log, bool):
+        if trafo_log is None:
+            trafo_log_ext = [False] * num_params
+        elif isinstance(trafo_log, bool):
             trafo_log_ext = [trafo_log] * num_params
         else:
             trafo_log_ext = list(trafo_log)
diff --git a/egenerator/data/modules/labels/snowstorm_tracks.py b/egenerator/data/modules/labels/snowstorm_tracks.py
index f482079..bb633ef 100644
--- a/egenerator/data/modules/labels/snowstorm_tracks.py
+++ b/egenerator/data/modules/labels/snowstorm_tracks.py
@@ -149,7 +149,9 @@ class SnowstormTrackGeneratorLabelModule(BaseComponent):
             parameter_dict[parameter_name] = i
 
         # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
+        if trafo_log is None:
+            trafo_log_ext = [False] * num_params
+        elif isinstance(trafo_log, bool):
             trafo_log_ext = [trafo_log] * num_params
         else:
             trafo_log_ext = list(trafo_log)
-- 
2.43.0


From 2109b28ce9378c9f4cc8be838216eca4d475bd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 11/57] fix: make the muon label module usable

---
 egenerator/data/modules/labels/muons.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 37281e8..ab4fcec 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -27,7 +27,7 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         logger = logger or logging.getLogger(__name__)
-        super(CascadeGeneratorLabelModule, self).__init__(logger=logger)
+        super(DummyMuonFixedCascadesLabelModule, self).__init__(logger=logger)
 
     def _configure(self, config_data, trafo_log, float_precision, num_cascades,
                    label_key='LabelsDeepLearning'):
@@ -94,11 +94,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
             Description
         """
 
-        # sanity checks:
-        if not isinstance(shift_cascade_vertex, bool):
-            raise TypeError('{!r} is not a boolean value!'.format(
-                shift_cascade_vertex))
-
         data = {}
         data['label_tensors'] = DataTensorList([DataTensor(
                                         name='x_parameters',
@@ -116,7 +111,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         configuration = Configuration(
             class_string=misc.get_full_class_string_of_object(self),
             settings=dict(config_data=config_data,
-                          shift_cascade_vertex=shift_cascade_vertex,
                           trafo_log=trafo_log,
                           float_precision=float_precision,
                           num_cascades=num_cascades,
-- 
2.43.0


From 6d74edcae05e135f2590c7c4af1e18df08b43626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 12/57] fix: do not cut component directory names at dots

Components saved to 'model_v1.2' and 'model_v1.3' (or sub components with
such names) ended up in the same directory 'model_v1', while the weights of
a model were stored in the directory that was asked for.
---
 egenerator/create_trafo_model.py | 4 ++--
 egenerator/manager/component.py  | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/egenerator/create_trafo_model.py b/egenerator/create_trafo_model.py
index 5a44d0e..88a4fd8 100644
--- a/egenerator/create_trafo_model.py
+++ b/egenerator/create_trafo_model.py
@@ -31,10 +31,10 @@ def main(config_files):
 
     # Check if path already exists
     model_dir = config['data_trafo_settings']['model_dir']
-    if os.path.exists(os.path.splitext(model_dir)[0]):
+    if os.path.exists(model_dir):
         if not click.confirm(
                 'File already exists at destination. Overwrite {!r}?'.format(
-                    os.path.splitext(model_dir)[0]),
+                    model_dir),
                 default=False):
             raise ValueError('Aborting!')
 
diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..8c0b524 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -820,8 +820,6 @@ class BaseComponent(object):
             else:
                 raise AttributeError(msg.format(untracked_attributes))
 
-        # split of possible extension
-        dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
         data_file_path = os.path.join(dir_path, 'data.pickle')
 
@@ -898,8 +896,6 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
-        # split of possible extension
-        dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
         data_file_path = os.path.join(dir_path, 'data.pickle')
 
-- 
2.43.0


From f8e1dd5ce5a3ea739d5c934d37a9afc5423c7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 13/57] fix: warn about a version mismatch instead of crashing

The recorded version is kept in the configuration.
---
 egenerator/manager/component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 8c0b524..d392698 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -184,7 +184,7 @@ class Configuration(object):
 
         self._logger = logger or logging.getLogger(__name__)
         self._dict = {
-            'event_generator_version': egenerator.__version__,
+            'event_generator_version': event_generator_version,
             'event_generator_git_sha': event_generator_git_sha,
             'event_generator_origin': event_generator_origin,
             'event_generator_uncommitted_changes':
@@ -914,7 +914,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From b04b32b211d02009c03e7d0dc188212e7ca56369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 14/57] fix: do not modify the passed modified_sub_components
 when loading

Loading several components (e.g. the members of an ensemble) with the same
dictionary applied the modifications to the first one only.
---
 egenerator/manager/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index d392698..6299cb0 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -896,6 +896,9 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
+        # do not modify the dictionary of the caller (nor the default)
+        modified_sub_components = dict(modified_sub_components)
+
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
         data_file_path = os.path.join(dir_path, 'data.pickle')
 
-- 
2.43.0


From 870f356076a12851e8e4d6064766f529b2dc0e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 15/57] fix: evaluate each source with its own base model in
 eager mode

---
 egenerator/model/multi_source/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..64932d5 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -316,10 +316,9 @@ class MultiSource(Source):
         # -----------------------------------------------
         input_signature = None
 
-        concrete_get_tensors_funcs = {}
-        for base in set(self._untracked_data['sources'].values()):
-            base_source = self.sub_components[base]
-
+        def get_concrete_function(base, base_source):
+            # Note: base and base_source must be bound to the arguments of this
+            # function and not to the loop variables below.
             @tf.function(input_signature=input_signature)
             def concrete_function(data_batch_dict_i):
                 print('Tracing multi-source base: {}'.format(base))
@@ -327,7 +326,12 @@ class MultiSource(Source):
                                 data_batch_dict_i,
                                 is_training=is_training,
                                 parameter_tensor_name='x_parameters')
-            concrete_get_tensors_funcs[base] = concrete_function
+            return concrete_function
+
+        concrete_get_tensors_funcs = {}
+        for base in set(self._untracked_data['sources'].values()):
+            concrete_get_tensors_funcs[base] = get_concrete_function(
+                base, self.sub_components[base])
         # -----------------------------------------------
 
         dom_charges = None
-- 
2.43.0


From 19b5c6e49d4a5c110674bdba4da5d0af4876333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 16/57] fix: do not add the data trafo to the passed base
 sources

---
 egenerator/model/multi_source/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index 64932d5..5aac8dc 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -212,7 +212,7 @@ class MultiSource(Source):
         parameter_names, sources = self.get_parameters_and_mapping(
             config, base_sources)
 
-        sub_components = base_sources
+        sub_components = dict(base_sources)
         if data_trafo is not None:
             sub_components['data_trafo'] = data_trafo
 
-- 
2.43.0


From 91e2187cda892a4ec4412cdcbbcbd1fd516ee21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 17/57] fix: stochastic track model without snowstorm
 parameters

---
 egenerator/model/multi_source/track/stochastic_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/track/stochastic_track.py b/egenerator/model/multi_source/track/stochastic_track.py
index b700a17..eb957f9 100644
--- a/egenerator/model/multi_source/track/stochastic_track.py
+++ b/egenerator/model/multi_source/track/stochastic_track.py
@@ -119,7 +119,8 @@ class StochasticTrackModel(MultiSource):
         d_end = parameters.params['track_distance_end']
 
         num_snowstorm_params = self._untracked_data['num_snowstorm_params']
-        snowstorm_params = parameters[:, -num_snowstorm_params:]
+        snowstorm_params = parameters[
+            :, self.num_parameters - num_snowstorm_params:]
 
         # calculate direction vector
         dir_x = -tf.sin(zenith) * tf.cos(azimuth)
-- 
2.43.0


From 4ff5a8f349d415a1052afa83f0dd630d3a15a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 18/57] fix: noise time PDF in the unit of the other sources

---
 egenerator/model/source/noise/default.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/source/noise/default.py b/egenerator/model/source/noise/default.py
index d64b5b2..de8ee11 100644
--- a/egenerator/model/source/noise/default.py
+++ b/egenerator/model/source/noise/default.py
@@ -161,8 +161,12 @@ class DefaultNoiseModel(Source):
         # shape: [n_batch, 86, 60, 1]
         dom_charges = dom_noise_rates * livetime_exp
 
+        # The time PDFs of all sources are densities per 1000 ns. The PDF
+        # values need to share the same unit to be combined in a multi-source.
+        t_scale = 1e-3
+
         # shape: [n_batch]
-        dom_pdf_constant = 1. / livetime
+        dom_pdf_constant = 1. / (livetime * t_scale)
 
         # ----------------------------
         # Apply time window exclusions
-- 
2.43.0


From 93b042af6fe1d032f9e9e71febe670e271d23fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 19/57] fix: keep the likelihood terms when adding the sorted
 normalization

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 8d65c40..ab103ad 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -341,7 +341,7 @@ class DefaultLossModule(BaseComponent):
             norm_pulses = self.log_faculty(pulse_charges)
             norm_doms = self.log_faculty(dom_charges_true)
             if sort_loss_terms:
-                loss_terms[2] = norm_doms
+                loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
                     loss_terms[2],
                     indices=data_batch_dict['x_pulses_ids'],
-- 
2.43.0


From 89fcd7a10cd0f397f645c2f34dbd6be84274e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 20/57] fix: normalization term of the pulse and DOM charge PDF
 loss

---
 egenerator/loss/default.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index ab103ad..7de13bd 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -527,8 +527,8 @@ class DefaultLossModule(BaseComponent):
         pulse_charges = data_batch_dict['x_pulses'][:, 0]
         pulse_pdf_values = result_tensors['pulse_pdf']
 
-        # shape: [n_batch, 86, 60, 1]
-        hits_true = data_batch_dict['x_dom_charge']
+        # shape: [n_batch, 86, 60]
+        hits_true = tf.squeeze(data_batch_dict['x_dom_charge'], axis=-1)
 
         # get charge likelihood over total charge at a DOM for extendended LLH
         # shape: [n_batch, 86, 60]
@@ -551,6 +551,7 @@ class DefaultLossModule(BaseComponent):
                 tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
                 dtype=dtype)
             llh_charge = llh_charge * mask_valid
+            hits_true = hits_true * mask_valid
 
         # prevent log(zeros) issues
         eps = 1e-7
-- 
2.43.0


From 01a9bba065ed083f773b4190774ee81e3d09af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 21/57] fix: normalize the DOM charge PDF over the valid DOMs
 only

---
 egenerator/loss/default.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 7de13bd..21076de 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -1175,6 +1175,15 @@ class DefaultLossModule(BaseComponent):
         dom_charges_variance = tf.squeeze(
             result_tensors['dom_charges_variance'], axis=-1)
 
+        # mask out dom exclusions
+        if ('x_dom_exclusions' in tensors.names and
+                tensors.list[tensors.get_index('x_dom_exclusions')].exists):
+            mask_valid = tf.cast(
+                tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
+                dtype=dtype)
+            hits_true = hits_true * mask_valid
+            hits_pred = hits_pred * mask_valid
+
         # shape: [n_batch, 1, 1]
         event_total = tf.reduce_sum(hits_pred, axis=[1, 2], keepdims=True)
 
@@ -1191,14 +1200,6 @@ class DefaultLossModule(BaseComponent):
                 'Model must deal with time exclusions!'
             )
 
-        # mask out dom exclusions
-        if ('x_dom_exclusions' in tensors.names and
-                tensors.list[tensors.get_index('x_dom_exclusions')].exists):
-            mask_valid = tf.cast(
-                tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
-                dtype=dtype)
-            llh_dom = llh_dom * mask_valid
-
         if sort_loss_terms:
             loss_terms = [
                 None,
-- 
2.43.0


From dc2786a03bcf5967831ba5ba2366379aabaad61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 22/57] fix: restore untracked settings of loss modules after
 loading

---
 egenerator/loss/default.py   | 13 +++++++++++++
 egenerator/loss/snowstorm.py | 36 ++++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 21076de..f0ad2d8 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -94,6 +94,19 @@ class DefaultLossModule(BaseComponent):
 
         return configuration, {}, {}
 
+    def _load(self, dir_path, **kwargs):
+        """Restore the (untracked) loss function after loading.
+
+        Parameters
+        ----------
+        dir_path : str
+            The path to the directory from which the component is loaded.
+        **kwargs
+            Additional keyword arguments.
+        """
+        self.untracked_data['loss_function'] = getattr(
+            self, self.configuration.config['config']['loss_function_name'])
+
     def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                  parameter_tensor_name='x_parameters',
                  reduce_to_scalar=True,
diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 437799c..8887cc8 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -99,8 +99,35 @@ class SnowstormPriorLossModule(BaseComponent):
             when the component is saved and loaded.
             Return None if no dependent sub components exist.
         """
+        self._define_parameterizations(config)
 
-        # define parameterizations
+        # create configuration object
+        configuration = Configuration(
+            class_string=misc.get_full_class_string_of_object(self),
+            settings=dict(config=config))
+
+        return configuration, {}, {}
+
+    def _load(self, dir_path, **kwargs):
+        """Restore the (untracked) parameterizations after loading.
+
+        Parameters
+        ----------
+        dir_path : str
+            The path to the directory from which the component is loaded.
+        **kwargs
+            Additional keyword arguments.
+        """
+        self._define_parameterizations(self.configuration.config['config'])
+
+    def _define_parameterizations(self, config):
+        """Define the sigmas and ranges of the priors.
+
+        Parameters
+        ----------
+        config : dict
+            Configuration settings of the LossModule object.
+        """
         if 'sigmas' in config:
             self.untracked_data['sigmas'] = config['sigmas']
         else:
@@ -130,13 +157,6 @@ class SnowstormPriorLossModule(BaseComponent):
                 'HoleIceForward_Unified_01': [-0.2, 0.2],
             }
 
-        # create configuration object
-        configuration = Configuration(
-            class_string=misc.get_full_class_string_of_object(self),
-            settings=dict(config=config))
-
-        return configuration, {}, {}
-
     def uniform_log_prior_loss(self, values, low, high, eps=0):
         """Computes a loss for a uniform log prior.
 
-- 
2.43.0


From 17fbc7ec40ef4697eec8418cb3884f1eb9a8aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 23/57] fix: index of the last Fourier mode in the snowstorm
 prior

---
 egenerator/loss/snowstorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 8887cc8..2463cc0 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -273,7 +273,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if num_sigmas > 0:
             start_index = model.get_index('IceWavePlusModes_00')
             end_index = model.get_index('IceWavePlusModes_{:02d}'.format(
-                                                            num_sigmas)) + 1
+                                                        num_sigmas - 1)) + 1
             assert end_index - start_index == num_sigmas
             for i, exp_index in enumerate(range(start_index, end_index)):
                 index = model.get_index('IceWavePlusModes_{:02d}'.format(i))
-- 
2.43.0


From fe3374de663d6e0f8faefb1c988414792aed0e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 24/57] fix: sorted loss terms of the snowstorm prior

---
 egenerator/loss/snowstorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 2463cc0..c8b09de 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -296,7 +296,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if sort_loss_terms:
             event_loss = None
             for loss_term in loss_terms:
-                if (loss_term.shape) > 1:
+                if len(loss_term.shape) > 1:
                     loss_term = tf.reduce_sum(loss_term, axis=1)
                 if event_loss is None:
                     event_loss = loss_term
-- 
2.43.0


From fb1876e6b8dcdaad342eb01d32f62b7645454b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 25/57] fix: checkpoints in directories with special characters

---
 egenerator/model/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..279265f 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -295,7 +295,7 @@ class Model(tf.Module, BaseComponent):
             raise ValueError(msg.format(self.variables,
                                         self._untracked_data['variables']))
 
-        checkpoint_pattern = os.path.join(dir_path, 'model_checkpoint_{:08d}')
+        checkpoint_pattern = 'model_checkpoint_{:08d}'
 
         # Load the model_checkpoints.yaml file if it exists.
         yaml_file = os.path.join(dir_path, 'model_checkpoint.yaml')
@@ -313,7 +313,8 @@ class Model(tf.Module, BaseComponent):
             }
 
         checkpoint_index = meta_data['latest_checkpoint'] + 1
-        checkpoint_file = checkpoint_pattern.format(checkpoint_index)
+        checkpoint_file = os.path.join(
+            dir_path, checkpoint_pattern.format(checkpoint_index))
 
         # check if file already exists
         if os.path.exists(checkpoint_file+'.index'):
@@ -365,7 +366,7 @@ class Model(tf.Module, BaseComponent):
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
                     # remove files
-                    pattern = os.path.join(dir_path,
+                    pattern = os.path.join(glob.escape(dir_path),
                                            info['file_basename'] + '.*')
                     files_to_remove = glob.glob(pattern)
                     msg = 'Removing old checkpoint files: {!r}'
-- 
2.43.0


From 05a2f1a87628c77dca7d9c7812a9f4643242225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 26/57] fix: keep checkpoints loadable when saving is
 interrupted

---
 egenerator/model/base.py | 45 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 279265f..e030966 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -11,6 +11,24 @@ import time
 from egenerator.manager.component import BaseComponent, Configuration
 
 
+def _replace_yaml_file(data, file_path):
+    """Write a yaml file such that an existing file is replaced atomically.
+
+    An interruption leaves either the previous or the new file.
+
+    Parameters
+    ----------
+    data : dict
+        The data to write.
+    file_path : str
+        The path of the file to write.
+    """
+    temporary_file = file_path + '.tmp'
+    with open(temporary_file, 'w') as stream:
+        yaml.dump(data, stream)
+    os.replace(temporary_file, file_path)
+
+
 class Model(tf.Module, BaseComponent):
 
     """Model base class
@@ -355,7 +373,8 @@ class Model(tf.Module, BaseComponent):
         # save checkpoint
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
-        # remove old checkpoints
+        # find old checkpoints
+        files_to_remove = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -365,18 +384,20 @@ class Model(tf.Module, BaseComponent):
                     # remove entry from tracked checkpoints meta data
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
-                    # remove files
+                    # collect files
                     pattern = os.path.join(glob.escape(dir_path),
                                            info['file_basename'] + '.*')
-                    files_to_remove = glob.glob(pattern)
-                    msg = 'Removing old checkpoint files: {!r}'
-                    self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    files_to_remove.extend(glob.glob(pattern))
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        _replace_yaml_file(meta_data, yaml_file)
+
+        # remove old checkpoints once they are not referenced anymore
+        if files_to_remove:
+            msg = 'Removing old checkpoint files: {!r}'
+            self._logger.info(msg.format(files_to_remove))
+            for file in files_to_remove:
+                os.remove(file)
 
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
@@ -408,8 +429,7 @@ class Model(tf.Module, BaseComponent):
             num_training_steps
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        _replace_yaml_file(meta_data, yaml_file)
 
     def save_training_settings(self, dir_path, new_training_settings):
         """Save a new training step with its components and settings.
@@ -489,8 +509,7 @@ class Model(tf.Module, BaseComponent):
             component.save(component_dir)
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
-            yaml.dump(meta_data, stream)
+        _replace_yaml_file(meta_data, yaml_file)
 
     def _save(self, dir_path, max_keep=3, protected=False, description=None,
               new_training_settings=None, num_training_steps=None):
-- 
2.43.0


From 3e39788d1bb1e652a3f3e6ca7dd4e1f08466156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 27/57] fix: keep existing components loadable when overwriting
 is interrupted

---
 egenerator/manager/component.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 6299cb0..69a3f1a 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -838,13 +838,18 @@ class BaseComponent(object):
             self._logger.info('Creating directory: {}'.format(dir_path))
 
         # save configuration settings
-        with open(config_file_path, 'w') as yaml_file:
+        # (write to temporary files first, so that existing files are only
+        #  replaced by complete files)
+        with open(config_file_path + '.tmp', 'w') as yaml_file:
             yaml.dump(self.configuration.dict, yaml_file)
 
         # write data
-        with open(data_file_path, 'wb') as handle:
+        with open(data_file_path + '.tmp', 'wb') as handle:
             pickle.dump(self.data, handle, protocol=2)
 
+        for file in [config_file_path, data_file_path]:
+            os.replace(file + '.tmp', file)
+
         # walk through dependent sub components and save these as well
         for name, sub_component in self.sub_components.items():
             sub_component_dir_path = os.path.join(dir_path, name)
-- 
2.43.0


From 67db5780e2c3f477fad6f23e961a43e56b2ff6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 28/57] fix: deserialize tensors with a spec named 'type' or
 'specs'

---
 egenerator/data/tensor.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index 435f6da..92e80e5 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -302,13 +302,11 @@ class DataTensorList(object):
         for serialized_tensor in serialized_tensor_list:
 
             # rename type to tensor_type and expand specs
-            serialized_tensor['tensor_type'] = serialized_tensor['type']
-            for key, value in serialized_tensor['specs'].items():
+            serialized_tensor['tensor_type'] = serialized_tensor.pop('type')
+            specs = serialized_tensor.pop('specs')
+            for key, value in specs.items():
                 serialized_tensor[key] = value
 
-            del serialized_tensor['type']
-            del serialized_tensor['specs']
-
             # create data tensor object
             tensors.append(DataTensor(**serialized_tensor))
 
-- 
2.43.0


From c590f2d6dd3b5790690f867e4ec5ec8a975360ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:22 +0000
Subject: [PATCH 29/57] fix: expand strings of the configuration independent of
 their order

---
 egenerator/settings/setup_manager.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/egenerator/settings/setup_manager.py b/egenerator/settings/setup_manager.py
index b9088ae..a6587ab 100644
--- a/egenerator/settings/setup_manager.py
+++ b/egenerator/settings/setup_manager.py
@@ -10,6 +10,22 @@ from egenerator import misc
 from egenerator.settings import version_control
 
 
+class _StringExpander(dict):
+    """Mapping whose string values are expanded when they are accessed."""
+
+    def __init__(self, config, root=None):
+        dict.__init__(self, config)
+        self._root = self if root is None else root
+
+    def __getitem__(self, key):
+        value = dict.__getitem__(self, key)
+        if isinstance(value, str):
+            return value.format_map(self._root)
+        if isinstance(value, dict):
+            return _StringExpander(value, root=self._root)
+        return value
+
+
 class SetupManager:
     """Setup Manager for Event-Generator project
 
@@ -144,9 +160,14 @@ class SetupManager:
         dict
             The dictionary with expanded strings.
         """
+        # expand against the unmodified definitions, such that the result does
+        # not depend on the order of the options
+        if not isinstance(expand_config, _StringExpander):
+            expand_config = _StringExpander(deepcopy(expand_config))
+
         for key, value in config.items():
             if isinstance(value, str):
-                config[key] = value.format(**expand_config)
+                config[key] = value.format_map(expand_config)
             elif isinstance(value, dict):
                 config[key] = self.expand_strings(value, expand_config)
         return config
-- 
2.43.0


From 685d362f9a70190a6fc16c6d92d21935e57734b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 30/57] fix: finite predictions for cascades at the position of
 a DOM

---
 egenerator/model/source/cascade/charge_quantiles.py | 3 ++-
 egenerator/model/source/cascade/default.py          | 3 ++-
 egenerator/model/source/cascade/systematic.py       | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/egenerator/model/source/cascade/charge_quantiles.py b/egenerator/model/source/cascade/charge_quantiles.py
index 24ea812..f81ad72 100644
--- a/egenerator/model/source/cascade/charge_quantiles.py
+++ b/egenerator/model/source/cascade/charge_quantiles.py
@@ -236,7 +236,8 @@ class ChargeQuantileCascadeModel(Source):
         dz = tf.expand_dims(dz, axis=-1)
 
         # shape: [-1, 86, 60, 1]
-        distance = tf.sqrt(dx**2 + dy**2 + dz**2)
+        # (at least 1 mm: the vertex may be located at the position of a DOM)
+        distance = tf.sqrt(tf.maximum(dx**2 + dy**2 + dz**2, 1e-6))
 
         # calculte time it takes for unscattered light to propagate to DOM
         c_ice = 0.22103046286329384  # meter / ns
diff --git a/egenerator/model/source/cascade/default.py b/egenerator/model/source/cascade/default.py
index 25c55bd..6818c05 100644
--- a/egenerator/model/source/cascade/default.py
+++ b/egenerator/model/source/cascade/default.py
@@ -210,7 +210,8 @@ class DefaultCascadeModel(Source):
         dy = tf.expand_dims(dy, axis=-1)
         dz = tf.expand_dims(dz, axis=-1)
 
-        distance = tf.sqrt(dx**2 + dy**2 + dz**2)
+        # (at least 1 mm: the vertex may be located at the position of a DOM)
+        distance = tf.sqrt(tf.maximum(dx**2 + dy**2 + dz**2, 1e-6))
 
         # calculate observation angle
         dx_normed = dx / distance
diff --git a/egenerator/model/source/cascade/systematic.py b/egenerator/model/source/cascade/systematic.py
index f2103d3..58477da 100644
--- a/egenerator/model/source/cascade/systematic.py
+++ b/egenerator/model/source/cascade/systematic.py
@@ -233,7 +233,8 @@ class SystematicsCascadeModel(Source):
         dy = tf.expand_dims(dy, axis=-1)
         dz = tf.expand_dims(dz, axis=-1)
 
-        distance = tf.sqrt(dx**2 + dy**2 + dz**2)
+        # (at least 1 mm: the vertex may be located at the position of a DOM)
+        distance = tf.sqrt(tf.maximum(dx**2 + dy**2 + dz**2, 1e-6))
 
         # calculate observation angle
         dx_normed = dx / distance
-- 
2.43.0


From ebdc4082acc75c71243132b03772fc0cf037f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:55 +0000
Subject: [PATCH 31/57] fix: sampled negative binomial charges have the
 requested mean

---
 egenerator/utils/basis_functions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/egenerator/utils/basis_functions.py b/egenerator/utils/basis_functions.py
index f06f2d5..1b3214e 100644
--- a/egenerator/utils/basis_functions.py
+++ b/egenerator/utils/basis_functions.py
@@ -443,12 +443,17 @@ def sample_from_negative_binomial(rng, mu, alpha_or_var, param_is_alpha,
         The sampled points from the negative binomial distribution.
     """
     eps = 1e-6
+    mu = np.maximum(np.asarray(mu, dtype=np.float64), 1e-12)
     if param_is_alpha:
-        var = mu + alpha_or_var*mu**2
+        excess = alpha_or_var*mu**2
     else:
-        var = alpha_or_var
-    p = 1 - (var - mu) / var
-    r = (mu**2) / (var - mu + eps)
+        excess = alpha_or_var - mu
+
+    # the variance in excess of the Poisson variance must be positive; use
+    # the same value for both parameters such that the mean is exactly mu
+    excess = np.maximum(excess, eps)
+    p = mu / (mu + excess)
+    r = (mu**2) / excess
     return rng.negative_binomial(r, p, size=size)
 
 
-- 
2.43.0


From 082b659b2a06a37ff25767a22e702c95e1943ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 32/57] fix: spherical_opt returns the best point found in the
 last iteration

---
 egenerator/utils/spherical_opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 171d146..7c069b6 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -621,6 +621,9 @@ def spherical_opt(
                     n_calls += 1
 
 
+    # the last iteration may have found a better point
+    best_idx = np.argmin(fvals)
+
     opt_meta = {}
     opt_meta['stopping_flag'] = stopping_flag
     opt_meta['n_calls'] = n_calls
-- 
2.43.0


From b3dd57d10988364ed8d3f27cee3b7f00a38defb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:10 +0000
Subject: [PATCH 33/57] fix: spread of points used to stop spherical_opt

The spreads were truncated to integers (stopping far too early),
summed over all pairs of angles, could be nan due to rounding
and were not available for ignored pairs.
---
 egenerator/utils/spherical_opt.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 7c069b6..5d1e387 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -161,7 +161,9 @@ def angular_dist(p1, p2): # theta1, theta2, phi1, phi2):
     """
     calculate the angular distance between two directions in spherical coords
     """
-    return np.arccos(p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az']))
+    cos_dist = p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az'])
+    # rounding may push the cosine slightly out of its range
+    return np.arccos(np.clip(cos_dist, -1, 1))
 
 
 def find_replacements(old_list, new_list, sorted_old_inds=None, sorted_new_inds=None):
@@ -299,8 +301,8 @@ def spherical_opt(
     n_spher = len(spherical_indices)
     n_cart = n_dim - 2 * n_spher
 
-    sstd = np.full(n_spher, fill_value=-1)
-    cstd = np.full(n_cart, fill_value=-1)
+    sstd = np.full(n_spher, fill_value=-1.)
+    cstd = np.full(n_cart, fill_value=-1.)
 
     if meta:
         meta_dict = {}
@@ -415,7 +417,7 @@ def spherical_opt(
                 for sph_pair_idx, stdthresh in enumerate(sstdthresh):
                     if stdthresh > 0:
                         _, cent = centroid(np.empty([0, 0]), s_spher)
-                        deltas = angular_dist(s_spher, cent)
+                        deltas = angular_dist(s_spher, cent)[:, sph_pair_idx]
                         std = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
                         sstd[sph_pair_idx] = std
                         converged = converged and std < stdthresh
@@ -424,7 +426,7 @@ def spherical_opt(
                                 meta_dict['sstdthresh_met_at_iter'][thresh_idx] = iter_num
                         thresh_idx += 1
                     else:
-                        sstd[i] = -1
+                        sstd[sph_pair_idx] = -1
 
             if converged:
                 stopping_flag = 3
@@ -645,7 +647,7 @@ def spherical_opt(
         # Standard deviation of spherical coordinate pairs
         for i in range(n_spher):
             _, cent = centroid(np.empty([0, 0]), s_spher)
-            deltas = angular_dist(s_spher, cent)
+            deltas = angular_dist(s_spher, cent)[:, i]
             sstd[i] = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
 
         # Standard deviation of func return value (e.g., metric)
-- 
2.43.0


From 524c9ffbf0e50d648537faccfcf2c905c0062f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 34/57] fix: SelectBestReconstruction selects the
 reconstruction with the smallest loss

The selected result was always overwritten by the last reconstruction.
---
 egenerator/manager/reconstruction/modules/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..6283ca1 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -341,7 +341,6 @@ class SelectBestReconstruction:
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
                 min_results = reco_results
-        min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -351,7 +350,8 @@ class SelectBestReconstruction:
                 reco_name))
             min_results = reco_results
 
-        # rename runtime key of result
+        # rename runtime key of result (without modifying the original result)
+        min_results = dict(min_results)
         min_results['reco_runtime'] = min_results.pop('runtime')
 
         return min_results
-- 
2.43.0


From 97f7884238b6f390541061c5b32cfd9dc141222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 35/57] fix: reconstruct a subset of the parameters if seeds
 are given as tensors

Tensors cannot be indexed with a list of booleans, so that fits with fixed
parameters failed for data batches of tensors and always for the tfp
interface.
---
 egenerator/manager/source.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..5393495 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -688,7 +688,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.boolean_mask(
+                seed_array_trafo, fit_paramater_list, axis=1)
 
         x0_flat = np.reshape(x0, [-1])
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
@@ -794,7 +795,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.boolean_mask(
+                seed_array_trafo, fit_paramater_list, axis=1)
 
         # get spherical indices
         if minimize_in_trafo_space or not np.all(fit_paramater_list):
@@ -1051,7 +1053,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.boolean_mask(
+                seed_array_trafo, fit_paramater_list, axis=1)
 
         # convert to tensors
         def const_loss_and_gradients_function(x):
-- 
2.43.0


From 970be3ac5732b0645232fce8db4a8d84454754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 36/57] fix: bounds of fits with fixed parameters and of single
 precision fits

Bounds are provided for all parameters, but only those of the fitted ones
may be passed on. Some of the scipy minimizers require double precision.
---
 egenerator/manager/source.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 5393495..02d7c42 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -670,13 +670,11 @@ class SourceManager(BaseModelManager):
             # transform bounds if provided
             if 'bounds' in kwargs:
                 bounds = self.data_trafo.transform(
-                    data=np.array(kwargs['bounds']).T,
+                    data=np.array(kwargs['bounds'], dtype='float64').T,
                     tensor_name=parameter_tensor_name).T
-                for i, bound in enumerate(bounds):
-                    for j in range(2):
-                        if not np.isfinite(bound[j]):
-                            bounds[i, j] = None
-                kwargs['bounds'] = bounds
+                kwargs['bounds'] = [
+                    [b if np.isfinite(b) else None for b in bound]
+                    for bound in bounds]
 
             seed_array_trafo = self.data_trafo.transform(
                 data=seed_array, tensor_name=parameter_tensor_name)
@@ -691,7 +689,14 @@ class SourceManager(BaseModelManager):
             x0 = tf.boolean_mask(
                 seed_array_trafo, fit_paramater_list, axis=1)
 
-        x0_flat = np.reshape(x0, [-1])
+            # bounds are given for all parameters: select the fitted ones
+            if ('bounds' in kwargs and
+                    len(kwargs['bounds']) == len(fit_paramater_list)):
+                kwargs['bounds'] = [
+                    bound for bound, fit in
+                    zip(kwargs['bounds'], fit_paramater_list) if fit]
+
+        x0_flat = np.reshape(x0, [-1]).astype('float64')
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
                                    method=method,
                                    args=(data_batch, seed_array), **kwargs)
-- 
2.43.0


From 2c6d307e7741bf915743853255efdaa3db0e87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:52 +0000
Subject: [PATCH 37/57] fix: spherical_opt interface for any number of fitted
 parameters

The spread of the additional seeds was hard-coded for seven parameters.
---
 egenerator/manager/source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 02d7c42..8ddd4d6 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -818,7 +818,10 @@ class SourceManager(BaseModelManager):
         # HACK TO ADD MORE SEEDS
         # ----------------------
         x0 = np.tile(x0, (batch_size*20, 1))
-        x0[1:] = np.random.normal(x0[1:], scale=[[10, 10, 10, 1, 1, 100, 10]])
+        scale = np.ones(len(fit_paramater_list))
+        scale[:7] = [10, 10, 10, 1, 1, 100, 10][:len(scale)]
+        x0[1:] = np.random.normal(
+            x0[1:], scale=scale[np.array(fit_paramater_list, dtype=bool)])
         # ----------------------
 
         result = spherical_opt(
-- 
2.43.0


From eef480878a5d2af37436148e5ff74cb078235037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 38/57] fix: shgo interface for fits with fixed parameters

Only the fitted parameters may be bounded. Settings that are passed in
(including the mutable defaults) are no longer modified.
---
 egenerator/manager/source.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 8ddd4d6..a6941a3 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -917,6 +917,9 @@ class SourceManager(BaseModelManager):
             raise ValueError(msg.format(param_tensor.shape[1],
                                         len(fit_paramater_list)))
 
+        # do not modify the (default) settings that are passed in
+        minimizer_kwargs = dict(minimizer_kwargs)
+        options = dict(options)
         minimizer_kwargs['jac'] = jac
         options['jac'] = jac
 
@@ -961,7 +964,9 @@ class SourceManager(BaseModelManager):
         # For now: add +- 1 in trafo space
         # ToDo: allow to pass proper boundaries and uncertainties
         assert minimize_in_trafo_space, 'currently only for trafo space'
-        bounds = np.concatenate((seed_array_trafo - 1, seed_array_trafo + 1)).T
+        x0 = tf.boolean_mask(
+            seed_array_trafo, fit_paramater_list, axis=1).numpy()
+        bounds = np.concatenate((x0 - 1, x0 + 1)).T
 
         def callback(xk):
             print(xk)
-- 
2.43.0


From 949a7cb964826cb938d6db7ecccda6e66f904ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 39/57] fix: reconstruct events with the tensorflow probability
 minimizers

The static shapes of the parameters and gradients have to be known to the
optimizers, otherwise their loops cannot be built.
---
 egenerator/manager/source.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index a6941a3..b675e0c 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -686,8 +686,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = tf.boolean_mask(
-                seed_array_trafo, fit_paramater_list, axis=1)
+            x0 = tf.gather(seed_array_trafo,
+                           np.flatnonzero(fit_paramater_list), axis=1)
 
             # bounds are given for all parameters: select the fitted ones
             if ('bounds' in kwargs and
@@ -800,8 +800,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = tf.boolean_mask(
-                seed_array_trafo, fit_paramater_list, axis=1)
+            x0 = tf.gather(seed_array_trafo,
+                           np.flatnonzero(fit_paramater_list), axis=1)
 
         # get spherical indices
         if minimize_in_trafo_space or not np.all(fit_paramater_list):
@@ -964,8 +964,8 @@ class SourceManager(BaseModelManager):
         # For now: add +- 1 in trafo space
         # ToDo: allow to pass proper boundaries and uncertainties
         assert minimize_in_trafo_space, 'currently only for trafo space'
-        x0 = tf.boolean_mask(
-            seed_array_trafo, fit_paramater_list, axis=1).numpy()
+        x0 = tf.gather(seed_array_trafo,
+                       np.flatnonzero(fit_paramater_list), axis=1).numpy()
         bounds = np.concatenate((x0 - 1, x0 + 1)).T
 
         def callback(xk):
@@ -1066,8 +1066,11 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = tf.boolean_mask(
-                seed_array_trafo, fit_paramater_list, axis=1)
+            x0 = tf.gather(seed_array_trafo,
+                           np.flatnonzero(fit_paramater_list), axis=1)
+
+        # the shape (of a single event) must be known to the optimizer
+        x0 = tf.ensure_shape(x0, [1, num_fit_params])
 
         # convert to tensors
         def const_loss_and_gradients_function(x):
@@ -1075,6 +1078,7 @@ class SourceManager(BaseModelManager):
             loss, grad = loss_and_gradients_function(
                 x, data_batch, seed_array)
             loss = tf.reshape(loss, [1])
+            grad = tf.ensure_shape(grad, [1, num_fit_params])
             return loss, grad
 
         if hessian_function is not None:
-- 
2.43.0


From 929604eb8b25ddcb4b14a14bf28bafde65673c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 40/57] fix: keep the matrix shape of the Hessian of a single
 parameter

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index b675e0c..d1cae3d 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -471,7 +471,7 @@ class SourceManager(BaseModelManager):
             # Note: this runs through and works for a batch dimension
             # but it requires some thinking of what the result actually means
             hessian = tf.squeeze(tf.ensure_shape(
-                hessian, [1, parameters_trafo.shape[1]]*2))
+                hessian, [1, parameters_trafo.shape[1]]*2), axis=[0, 2])
 
             return hessian
 
-- 
2.43.0


From b31f52d3cba38e730c87d637dde2d0e4da1ef929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 41/57] fix: covariance matrices of fits in the original
 parameter space

---
 egenerator/manager/reconstruction/modules/covariance.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..25884fc 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,13 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # minimization was performed in original space
+            cov = cov_trafo
+            cov_sand = cov_sand_trafo
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From 6fe81f5ee8e170a43a2adc6a06d27fb6eec42960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 42/57] fix: likelihood scans as part of a reconstruction tray

---
 egenerator/manager/reconstruction/modules/visualization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index cac5614..7dbf59f 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -1,6 +1,8 @@
 import numpy as np
 import tensorflow as tf
 
+from egenerator.utils import basis_functions
+
 
 class Visualize1DLikelihoodScan:
 
@@ -114,7 +116,9 @@ class Visualize1DLikelihoodScan:
             parameter_tensor_name=self.parameter_tensor_name)
 
         self.event_counter += 1
-        return None
+
+        # the tray adds the runtime of the module to its results
+        return {}
 
     def make_1d_llh_scans(self, data_batch, result_trafo, truth_trafo,
                           loss_function,
-- 
2.43.0


From 0ba394f0d0ab2fe30052ce9cbd2fd7aaa5fa023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 43/57] fix: randomized seeds for batches of arrays

---
 egenerator/manager/reconstruction/modules/reconstruction.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index 6283ca1..b837b29 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -234,8 +234,6 @@ class Reconstruction:
         if self.randomize_seed:
             shape = seed_tensor.shape
             x0 = np.array(seed_tensor)
-            x_true = data_batch[self.manager.data_handler.tensors.get_index(
-                self.parameter_tensor_name)].numpy()
 
             x0[:, :3] = np.random.normal(loc=x0[:, :3], scale=5)
             x0[:, 3] = np.random.uniform(low=0., high=np.pi)
@@ -248,9 +246,6 @@ class Reconstruction:
             x0[:, 11] = np.random.uniform(low=-0.19, high=0.19)  # HoleIceForward_Unified_01
             x0[:, 12] = np.random.uniform(low=0.91, high=1.09)  # Scattering
 
-            # # set vertex to MC truth
-            # x0[:, :3] = x_true[:, :3]
-            # x0[:, 6] = x_true[:, 6]
             print('New Seed:', x0)
 
             seed_tensor = x0
-- 
2.43.0


From 11d83ece03dfe7c10f1ae194a4255ea77f70223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 44/57] fix: MCMC results and seeds in the reconstruction of
 test data

---
 egenerator/manager/source.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index d1cae3d..2c81c72 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1529,7 +1529,7 @@ class SourceManager(BaseModelManager):
                 'MarkovChainMonteCarlo',
                 name='mcmc',
                 fit_paramater_list=fit_paramater_list,
-                seed_tensor_name=reco_config['seed'],
+                seed_tensor_name=seed_tensor_names[0],
                 reco_key='reco',
                 minimize_in_trafo_space=minimize_in_trafo_space,
                 parameter_tensor_name=parameter_tensor_name,
@@ -1549,7 +1549,7 @@ class SourceManager(BaseModelManager):
                 'Visualize1DLikelihoodScan',
                 name='visualization',
                 fit_paramater_list=fit_paramater_list,
-                seed_tensor_name=reco_config['seed'],
+                seed_tensor_name=seed_tensor_names[0],
                 plot_file_template=plot_file,
                 reco_key='reco',
                 # covariance_key='covariance',
@@ -1589,9 +1589,10 @@ class SourceManager(BaseModelManager):
 
             # get seed from reconstruction result
             if results['reco']['seed_from_previous_module']:
+                # the seeds of this reconstruction are results of previous
+                # modules, which are based on the provided seed tensors
                 seed_index = self.data_handler.tensors.get_index(
-                    reco_config['seed'][0]) #------------------------------- HACK WRONG!
-                # raise NotImplementedError
+                    seed_tensor_names[0])
             else:
                 seed_index = self.data_handler.tensors.get_index(
                     results['reco']['seed_tensor_name'])
@@ -1689,7 +1690,8 @@ class SourceManager(BaseModelManager):
 
                 if num_accepted > 0:
                     index_max = np.argmax(log_prob_values)
-                    print('\tBest Sample: ' + msg.format(*samples[index_max]))
+                    print('\tBest Sample: ' + ' '.join(
+                        '{:1.2f}'.format(v) for v in samples[index_max]))
                     print('\tmin loss_values: {:3.2f}'.format(
                                                         -max(log_prob_values)))
 
@@ -1700,9 +1702,13 @@ class SourceManager(BaseModelManager):
                     # ---------------------
                     # write samples to file
                     # ---------------------
+                    fitted_names = [
+                        name for name, fit in zip(
+                            self.models[0].parameter_names,
+                            fit_paramater_list) if fit]
                     df = pd.DataFrame()
                     df['log_prob'] = sorted_log_prob_values
-                    for i, name in enumerate(self.models[0].parameter_names):
+                    for i, name in enumerate(fitted_names):
                         df['samples_{}'.format(name)] = sorted_samples[:, i]
 
                     mcmc_file = '{}_mcmc_{:08d}.hdf5'.format(
@@ -1717,7 +1723,9 @@ class SourceManager(BaseModelManager):
                     central_50p = sorted_samples[int(num_accepted*0.5):]
                     central_90p = sorted_samples[int(num_accepted*0.1):]
 
-                    for i, name in enumerate(self.models[0].parameter_names):
+                    cascade_true = np.asarray(
+                        cascade_true_batch[0])[np.array(fit_paramater_list)]
+                    for i, name in enumerate(fitted_names):
                         min_val_90 = min(central_90p[:, i])
                         max_val_90 = max(central_90p[:, i])
                         min_val_50 = min(central_50p[:, i])
-- 
2.43.0


From 0eaea6557592f8b7d82a8c92d0e6c45d86490352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 45/57] fix: random seeds for several seeds in the
 reconstruction of test data

---
 egenerator/manager/source.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 2c81c72..57b4904 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1385,6 +1385,7 @@ class SourceManager(BaseModelManager):
 
         # add reconstruction module
         reco_names = []
+        random_seeds = {}
         for seed_tensor_name in seed_tensor_names:
             reco_name = 'reco_' + seed_tensor_name
             reco_names.append(reco_name)
@@ -1395,6 +1396,8 @@ class SourceManager(BaseModelManager):
             if 'num_random_seeds' in reco_config:
                 reco_random_names = []
                 reco_name_random = 'reco_random_' + seed_tensor_name
+                sel_name_random = 'sel_reco_random_' + seed_tensor_name
+                random_seeds[sel_name_random] = seed_tensor_name
                 for i in range(reco_config['num_random_seeds']):
                     reco_name_random_i = 'reco_random_{:04d}'.format(
                         i) + seed_tensor_name
@@ -1440,14 +1443,14 @@ class SourceManager(BaseModelManager):
                     )
                 # chose best reconstruction
                 reco_tray.add_module(
-                    'SelectBestReconstruction', name='sel_reco_random',
+                    'SelectBestReconstruction', name=sel_name_random,
                     reco_names=reco_random_names,
                 )
                 reco_tray.add_module(
                     'Reconstruction',
                     name=reco_name_random,
                     fit_paramater_list=fit_paramater_list,
-                    seed_tensor_name='sel_reco_random',
+                    seed_tensor_name=sel_name_random,
                     seed_from_previous_module=True,
                     minimize_in_trafo_space=minimize_in_trafo_space,
                     parameter_tensor_name=parameter_tensor_name,
@@ -1592,7 +1595,7 @@ class SourceManager(BaseModelManager):
                 # the seeds of this reconstruction are results of previous
                 # modules, which are based on the provided seed tensors
                 seed_index = self.data_handler.tensors.get_index(
-                    seed_tensor_names[0])
+                    random_seeds[results['reco']['seed_tensor_name']])
             else:
                 seed_index = self.data_handler.tensors.get_index(
                     results['reco']['seed_tensor_name'])
-- 
2.43.0


From 6adac48f7740b497bd7816858bd2efc6eba22166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 46/57] fix: MCMC in transformed space, with fixed parameters,
 and unbiased samples

---
 .../manager/reconstruction/modules/mcmc.py    | 31 +++++++++++++------
 egenerator/manager/source.py                  | 22 +++++++++----
 2 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index 56161bd..5523a49 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -138,7 +138,7 @@ class MarkovChainMonteCarlo:
             Description
         """
 
-        num_params = len(self.fit_paramater_list)
+        fit_mask = np.array(self.fit_paramater_list, dtype=bool)
         result_inv = results[self.reco_key]['result']
 
         assert len(result_inv) == 1
@@ -166,11 +166,20 @@ class MarkovChainMonteCarlo:
         #                             data=initial_position,
         #                             tensor_name=self.parameter_tensor_name)
 
+        # the chains run in the same space as the parameter loss function
+        if self.minimize_in_trafo_space:
+            initial_position = self.manager.data_trafo.transform(
+                data=np.asarray(result_inv)[np.newaxis],
+                tensor_name=self.parameter_tensor_name)[0]
+        else:
+            initial_position = np.asarray(result_inv)
+        initial_position = initial_position[fit_mask]
+
         initial_position = tf.reshape(
             tf.convert_to_tensor(
-                np.tile(result_inv, [self.mcmc_num_chains, 1]),
+                np.tile(initial_position, [self.mcmc_num_chains, 1]),
                 dtype=self.param_dtype),
-            [self.mcmc_num_chains, len(self.fit_paramater_list)])
+            [self.mcmc_num_chains, np.sum(fit_mask)])
         print('initial_position', initial_position)
         print('initial_position.shape', initial_position.shape)
         mcmc_start_t = timeit.default_timer()
@@ -185,20 +194,24 @@ class MarkovChainMonteCarlo:
             step_size = steps[0][0]
             if self.minimize_in_trafo_space:
                 step_size *= self.manager.data_trafo.data[
-                                        self.parameter_tensor_name+'_std']
+                                        self.parameter_tensor_name+'_std'][
+                                            fit_mask]
 
         num_accepted = np.sum(accepted)
         num_samples = samples.shape[0] * samples.shape[1]
-        samples = samples[accepted]
-        log_prob_values = log_prob_values[accepted]
+
+        # Note: if a proposal is rejected, the current state of the chain is
+        # another sample and must be kept, else the samples do not follow
+        # the posterior.
+        samples = np.reshape(samples, [num_samples, -1])
+        log_prob_values = np.reshape(log_prob_values, [num_samples])
         print('MCMC Results took {:3.3f}s:'.format(
             mcmc_end_t - mcmc_start_t))
         print('\tAcceptance Ratio: {:2.1f}%'.format(
             (100. * num_accepted) / num_samples))
-        msg = '{:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f}'
         if len(trace) > 2:
-            print('\tStepsize: ' + msg.format(*step_size))
-        msg = '{:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f}'
+            print('\tStepsize: ' + ' '.join(
+                '{:1.4f}'.format(value) for value in step_size))
 
         # gather results
         results = {
diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 57b4904..f2183da 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1198,15 +1198,18 @@ class SourceManager(BaseModelManager):
         parameter_dtype = getattr(tf, param_tensor.dtype)
 
         if minimize_in_trafo_space:
+            fit_mask = np.array(fit_paramater_list, dtype=bool)
+            fit_indices = np.flatnonzero(fit_mask).astype(np.int32)
             for i, trafo in enumerate(param_tensor.trafo_log):
-                if trafo:
+                if trafo and fit_mask[i]:
                     if i != 5:
                         raise NotImplementedError()
-                    step_size[0][i] = 0.01
-            step_size /= self.data_trafo.data[parameter_tensor_name+'_std']
+                    step_size[0][list(fit_indices).index(i)] = 0.01
+            step_size /= self.data_trafo.data[
+                parameter_tensor_name+'_std'][fit_mask]
 
         step_size = tf.convert_to_tensor(step_size, dtype=parameter_dtype)
-        step_size = tf.reshape(step_size, [1, len(fit_paramater_list)])
+        step_size = tf.reshape(step_size, [1, num_params])
 
         # Define transition kernel
         if method == 'HamiltonianMonteCarlo':
@@ -1263,8 +1266,15 @@ class SourceManager(BaseModelManager):
             samples = tf.reshape(samples,
                                  [num_chains*num_results, num_params])
             if minimize_in_trafo_space:
-                samples = self.data_trafo.inverse_transform(
-                    data=samples, tensor_name=parameter_tensor_name)
+                # the transformation is defined for all parameters
+                samples = tf.gather(
+                    self.data_trafo.inverse_transform(
+                        data=tf.transpose(tf.scatter_nd(
+                            fit_indices[:, np.newaxis],
+                            tf.transpose(samples),
+                            [len(fit_mask), num_chains*num_results])),
+                        tensor_name=parameter_tensor_name),
+                    fit_indices, axis=1)
 
             samples = tf.reshape(samples,
                                  [num_results, num_chains, num_params])
-- 
2.43.0


From 8d86b1c8cd78de7bb84f326a1bab97418b487ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 47/57] fix: MCMC without logarithmic parameters, with a random
 walk or a single parameter

---
 egenerator/manager/source.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index f2183da..30d2dae 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1189,7 +1189,7 @@ class SourceManager(BaseModelManager):
         if method == 'HamiltonianMonteCarlo':
             step_size = [[.1, .1, .1, 0.01, 0.02, 10., 1.]]
 
-        if num_params != len(step_size):
+        if num_params != len(step_size[0]):
             step_size = [[0.1 for p in range(num_params)]]
 
         step_size = np.array(step_size)
@@ -1200,7 +1200,11 @@ class SourceManager(BaseModelManager):
         if minimize_in_trafo_space:
             fit_mask = np.array(fit_paramater_list, dtype=bool)
             fit_indices = np.flatnonzero(fit_mask).astype(np.int32)
-            for i, trafo in enumerate(param_tensor.trafo_log):
+            trafo_log = param_tensor.trafo_log
+            if trafo_log is None:
+                trafo_log = False
+            for i, trafo in enumerate(
+                    np.broadcast_to(trafo_log, fit_mask.shape)):
                 if trafo and fit_mask[i]:
                     if i != 5:
                         raise NotImplementedError()
@@ -1231,8 +1235,7 @@ class SourceManager(BaseModelManager):
         elif method == 'RandomWalkMetropolis':
             adaptive_hmc = tfp.mcmc.RandomWalkMetropolis(
                 target_log_prob_fn=unnormalized_log_prob,
-                new_state_fn=tfp.mcmc.random_walk_normal_fn(scale=step_size),
-                seed=mcmc_seed)
+                new_state_fn=tfp.mcmc.random_walk_normal_fn(scale=step_size))
         else:
             raise ValueError('Unknown method: {!r}'.format(method))
 
@@ -1262,7 +1265,8 @@ class SourceManager(BaseModelManager):
                 current_state=initial_position,
                 kernel=adaptive_hmc,
                 trace_fn=trace_fn,
-                parallel_iterations=num_parallel_iterations)
+                parallel_iterations=num_parallel_iterations,
+                seed=mcmc_seed)
             samples = tf.reshape(samples,
                                  [num_chains*num_results, num_params])
             if minimize_in_trafo_space:
-- 
2.43.0


From e287a062b69b9008b8e77018641cfcd40b238890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 48/57] fix: training with variables the loss does not depend
 on and removal of nan gradients

---
 egenerator/manager/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..160ba26 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -580,8 +580,10 @@ class BaseModelManager(Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            gradients = [
+                None if grad is None else
+                tf.where(tf.math.is_nan(grad), tf.zeros_like(grad), grad)
+                for grad in gradients]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
@@ -596,6 +598,9 @@ class BaseModelManager(Model):
         # Ensure finite values
         asserts = []
         for gradient in capped_gradients:
+            if gradient is None:
+                # the loss does not depend on this variable
+                continue
             assert_finite = tf.Assert(
                 tf.math.is_finite(tf.reduce_mean(gradient)),
                 [tf.reduce_min(gradient),
-- 
2.43.0


From 69a49fc669e3f7c5b23a257d0467493b482bbf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 49/57] fix: strength of the L1 and L2 regularization

---
 egenerator/manager/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 160ba26..da507f9 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -448,10 +448,12 @@ class BaseModelManager(Model):
 
         # apply regularization
         if opt_config['l1_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(tf.abs(v)) for v in variables])
+            reg_loss += opt_config['l1_regularization'] * tf.add_n(
+                [tf.reduce_sum(tf.abs(v)) for v in variables])
 
         if opt_config['l2_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(v**2) for v in variables])
+            reg_loss += opt_config['l2_regularization'] * tf.add_n(
+                [tf.reduce_sum(v**2) for v in variables])
 
         return reg_loss
 
-- 
2.43.0


From ec342ff4614f31afb31b4ed205859da5eeef0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 50/57] fix: number of training steps stored with the training
 settings

---
 egenerator/manager/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index da507f9..4c99db4 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -852,7 +852,7 @@ class BaseModelManager(Model):
             # ----------
             if step % opt_config['save_frequency'] == 0 and step != 0:
                 self.save_weights(dir_path=save_dir,
-                                  num_training_steps=step)
+                                  num_training_steps=step + 1)
 
             # -----------------------
             # Profile steps 90 to 100
@@ -867,6 +867,6 @@ class BaseModelManager(Model):
 
         # save model
         self.save_weights(dir_path=save_dir,
-                          num_training_steps=step,
+                          num_training_steps=step + 1,
                           description='End of training step',
                           protected=True)
-- 
2.43.0


From 1ce476ac29eb2cce8e90da17f338d7e313e39c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 51/57] fix: learning rate schedules with the optimizers of
 keras 3, without boundaries, and plain configuration

---
 egenerator/utils/learning_rate.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/egenerator/utils/learning_rate.py b/egenerator/utils/learning_rate.py
index be4febd..a5e7ab0 100644
--- a/egenerator/utils/learning_rate.py
+++ b/egenerator/utils/learning_rate.py
@@ -53,16 +53,24 @@ class MultiLearningRateScheduler(tf.optimizers.schedules.LearningRateSchedule):
         if name is None:
             name = 'MultiLearningRateScheduler'
 
-        self.boundaries = tf.convert_to_tensor(boundaries)
+        self.boundaries = list(boundaries)
         self.scheduler_settings = scheduler_settings
         self.schedulers = schedulers
         self.name = name
 
-    @tf.function
     def __call__(self, step):
 
-        step = tf.convert_to_tensor(step)
-        boundaries = tf.cast(self.boundaries, step.dtype)
+        # Note: the optimizers pass their own kind of variables, which can
+        # not be an argument of a tf.function.
+        return self._get_learning_rate(tf.convert_to_tensor(step))
+
+    @tf.function
+    def _get_learning_rate(self, step):
+
+        if len(self.schedulers) == 1:
+            return self.schedulers[0](step)
+
+        boundaries = tf.cast(tf.convert_to_tensor(self.boundaries), step.dtype)
 
         # create a list of (boolean, callable) pairs
         pred_fn_pairs = []
-- 
2.43.0


From 7d69f714ed909211efd0dac50f9451edc47bbc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 52/57] fix: evaluate on validation data during the training

---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 4c99db4..94d2b22 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -835,7 +835,7 @@ class BaseModelManager(Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From e48f4b31d32ff5f8e9e535fb9f57e3457e7023ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 53/57] fix: refuse ensemble members with other trafo data
 instead of failing in the message

---
 egenerator/manager/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 94d2b22..27f64a4 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -173,7 +173,8 @@ class BaseModelManager(Model):
             if set(data_trafo.data.keys()) != set(data_trafo_i.data.keys()):
                 msg = 'Data Trafo keys of model {:04d} do not match: {} != {}'
                 raise ValueError(msg.format(
-                    i, set(data_trafo_i.keys()), set(data_trafo.keys())))
+                    i, set(data_trafo_i.data.keys()),
+                    set(data_trafo.data.keys())))
 
             for key in data_trafo.data.keys():
                 if np.any(data_trafo.data[key] != data_trafo_i.data[key]):
-- 
2.43.0


From ac1d092d798e969e9c75840b5e2846a3dc74282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:06 +0000
Subject: [PATCH 54/57] fix: result tensors of models trained with time window
 exclusions

---
 egenerator/manager/source.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 30d2dae..8fd2fe7 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -497,6 +497,8 @@ class SourceManager(BaseModelManager):
         """
         model = self.models[model_index]
 
+        tensors = self.data_trafo.data['tensors']
+
         pulse_dtype = getattr(
             tf, self.data_trafo.data['tensors']['x_pulses'].dtype)
         param_dtype = getattr(
@@ -533,6 +535,14 @@ class SourceManager(BaseModelManager):
                 'x_parameters': tf.convert_to_tensor(
                     parameters, dtype=param_dtype),
             }
+            if ('x_time_exclusions' in tensors.names and
+                    tensors['x_time_exclusions'].exists):
+                # no time windows are excluded
+                data_batch_dict['x_time_exclusions'] = tf.zeros(
+                    [0, 2],
+                    dtype=getattr(tf, tensors['x_time_exclusions'].dtype))
+                data_batch_dict['x_time_exclusions_ids'] = tf.zeros(
+                    [0, 3], dtype=tf.int32)
             result_tensors = model.get_tensors(
                 data_batch_dict,
                 is_training=False,
-- 
2.43.0


From 6f2e72f5400cc767d98024ccc002ec4762e0251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 55/57] fix: simulation of frames: missing data type and frame,
 undefined length of cascades, no sources

---
 egenerator/ic3/simulation.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 0ebde6b..45b16e7 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -167,6 +167,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         #     return result_tensors
         # ---- TO DELETE [END] -----------------
+        self.param_dtype = getattr(
+            tf, self.manager.data_trafo.data['tensors']['x_parameters'].dtype)
         self.get_model_tensors = self.manager.get_model_tensors_function()
 
         # ---------------------------------------------------
@@ -232,19 +234,24 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
             raise NotImplementedError('Tracks not yet supported')
 
         # convert cascade to source hypotheses
-        cascade_sources = self.convert_cascades_to_tensor(cascades)
+        cascade_sources = self.convert_cascades_to_tensor(cascades, frame)
 
         # timer after source collection
         t_1 = timeit.default_timer()
 
         # get result tensors from model
-        result_tensors = self.get_model_tensors(cascade_sources)
+        # Note: there is nothing to evaluate if there aren't any light sources
+        if len(cascades) > 0:
+            result_tensors = self.get_model_tensors(cascade_sources)
 
         # timer after NN evaluation
         t_2 = timeit.default_timer()
 
         # sample pulses
-        pulses = self.sample_pulses(result_tensors, cascade_sources)
+        if len(cascades) > 0:
+            pulses = self.sample_pulses(result_tensors, cascade_sources)
+        else:
+            pulses = dataclasses.I3RecoPulseSeriesMap()
 
         # timer after Sampling
         t_3 = timeit.default_timer()
@@ -373,13 +380,15 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         return pulse_series_map
 
-    def convert_cascades_to_tensor(self, cascades):
+    def convert_cascades_to_tensor(self, cascades, frame):
         """Convert a list of cascades to a source parameter tensor.
 
         Parameters
         ----------
         cascades : list of I3Particles
             The list of cascade I3Particles.
+        frame : I3Frame
+            The current frame, from which default values may be obtained.
 
         Returns
         -------
@@ -433,8 +442,10 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
         """
 
         # Stopping condition for recursion: either found a track or cascade
+        # Note: the length of cascades may not be defined
+        length = parent.length if np.isfinite(parent.length) else 0.
         if (parent.energy < self.min_simulation_energy or
-                parent.pos.magnitude - parent.length
+                parent.pos.magnitude - length
                 > self.max_simulation_distance):
             return [], []
 
-- 
2.43.0


From ddbaf6e31d185155ef6b3155e15498f5d09f7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 56/57] fix: goodness of fit: charge of simulated events, fixed
 parameters, no logarithms, no pulses

---
 .../reconstruction/modules/fit_quality.py     | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b509119..c6c3ebd 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -102,7 +102,9 @@ class GoodnessOfFit:
 
         # get a list of parameters which are transformed in log-space
         param_tensor = self.manager.data_trafo.data['tensors']['x_parameters']
-        self.log_params = np.array(param_tensor.trafo_log)
+        self.log_params = np.zeros(len(fit_paramater_list), dtype=bool)
+        if param_tensor.trafo_log is not None:
+            self.log_params[:] = param_tensor.trafo_log
 
         # specify a random number generator for reproducibility
         self.rng = np.random.RandomState(random_seed)
@@ -284,7 +286,8 @@ class GoodnessOfFit:
         # ---------------------------------
 
         # create empty arrays to store results
-        sample_recos_trafo = np.empty_like(sampled_hypotheses)
+        sample_recos_trafo = np.empty([
+            self.num_samples, np.sum(self.fit_paramater_list, dtype=int)])
         sample_event_llh = np.empty(self.num_samples)
         if self.add_per_dom_calculation:
             sample_dom_llh = np.empty([self.num_samples, 86, 60])
@@ -321,6 +324,10 @@ class GoodnessOfFit:
             data_batch_new = [t for t in data_batch]
             data_batch_new[self.x_pulses_index] = x_pulses
             data_batch_new[self.x_pulses_ids_index] = x_pulses_ids
+            data_batch_new[self.x_dom_charge_index] = np.expand_dims(
+                dom_charges[event_id], axis=0).astype(
+                    self.manager.data_handler.tensors.list[
+                        self.x_dom_charge_index].dtype)
             data_batch_new = tuple(data_batch_new)
             tf_seed_tensor = tf.convert_to_tensor(
                 np.expand_dims(sampled_hypotheses[event_id], axis=0),
@@ -342,6 +349,10 @@ class GoodnessOfFit:
                 else:
                     sample_result_trafo = tf_seed_tensor.numpy()
 
+                # only keep parameters that are fitted
+                sample_result_trafo = sample_result_trafo[
+                    :, np.array(self.fit_paramater_list, dtype=bool)]
+
             assert len(sample_result_trafo) == 1
             sample_recos_trafo[event_id] = sample_result_trafo[0]
             t_3 = timeit.default_timer()
@@ -630,7 +641,13 @@ class GoodnessOfFit:
                 x_pulses.append(pulses)
                 x_pulses_ids.append(pulses_ids)
 
-        x_pulses = np.concatenate(x_pulses)
-        x_pulses_ids = np.concatenate(x_pulses_ids)
+        if len(x_pulses) == 0:
+            # there might not be any pulses for dim sources
+            n_elements = 3 if add_charge_quantiles else 2
+            x_pulses = np.empty([0, n_elements])
+            x_pulses_ids = np.empty([0, 3], dtype=int)
+        else:
+            x_pulses = np.concatenate(x_pulses)
+            x_pulses_ids = np.concatenate(x_pulses_ids)
 
         return x_pulses, x_pulses_ids
-- 
2.43.0


From ee9d4976dc7772bab098f56af2e8623c102b1448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 57/57] fix: circularized angular uncertainty is positive and
 found for any size

---
 .../reconstruction/modules/opening_angle.py   | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/opening_angle.py b/egenerator/manager/reconstruction/modules/opening_angle.py
index bef93ff..2c3c809 100644
--- a/egenerator/manager/reconstruction/modules/opening_angle.py
+++ b/egenerator/manager/reconstruction/modules/opening_angle.py
@@ -346,11 +346,22 @@ class CircularizedAngularUncertainty:
         ts = 2 * delta_loss
         cdf_values = chi2(ddof).cdf(ts)
 
-        def loss_cdf(sigma, delta_psi, cdf_values):
-            loss = (cdf_values -
-                    basis_functions.rayleigh_cdf(delta_psi, sigma))**2
+        # Note: the logarithm of sigma is fitted, since a Rayleigh CDF does
+        # not depend on the sign of sigma and becomes flat for sigmas that
+        # are much smaller or larger than the opening angles.
+        def loss_cdf(log_sigma, delta_psi, cdf_values):
+            loss = (cdf_values - basis_functions.rayleigh_cdf(
+                delta_psi, np.exp(log_sigma)))**2
             return np.sum(loss)
 
+        # start from the best point of a coarse scan
+        log_seeds = np.append(np.log(np.geomspace(1e-2, 1e2, 41)), np.log(x0))
+        seed_losses = [
+            loss_cdf(log_seed, delta_psi, cdf_values)
+            for log_seed in log_seeds
+        ]
+
         result_wilks = optimize.minimize(
-            loss_cdf, x0=x0, args=(delta_psi, cdf_values))
-        return result_wilks.x[0]
+            loss_cdf, x0=log_seeds[np.argmin(seed_losses)],
+            args=(delta_psi, cdf_values))
+        return np.exp(result_wilks.x[0])
-- 
2.43.0

