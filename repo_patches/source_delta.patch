From 59e9101181ce17ed514a718f87ecb5d3bd5cae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 001/270] fix: permissive squeezed reads fail when the first
 key is missing

---
 hyperion/io/data_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..ce17592 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,10 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
-        shape = data[0].shape
+        # missing (empty) items do not tell the shape of the data
+        ref = next((d for d in data if len(d) > 0), data[0])
+        ndim = ref.ndim
+        shape = ref.shape
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From b68a6171e6195fbfd6d6e8db36fad1a9dec4a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 002/270] fix: data writers reject file names without a
 directory

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..ae3dcd1 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From 7c3161ef3dd27904ec0ec10c46fe3b42b78284dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 003/270] fix: read specifiers reject the documented b, t and
 negated options

---
 hyperion/io/rw_specifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..d868f36 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -327,7 +327,8 @@ class RSpecifier(object):
                     spec_type = RSpecType.SCRIPT
                 elif option == 'p':
                     permissive = True
-                elif option in ['o', 's', 'cs', 'bg']:
+                elif option in ['o', 's', 'cs', 'bg', 'b', 't',
+                                'no', 'ns', 'ncs', 'np']:
                     pass
                 else:
                     raise ValueError('Wrong wspecifier options %s'
-- 
2.43.0


From b727ccf2603a35de4a61d404e467da1552e6970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 004/270] fix: sequential ark reader fails with per-utterance
 offsets

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 49ea6fac862f584c0b7c1111fcf4d90c89815d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 005/270] fix: reading with an offset runs past the end of the
 script file range

---
 hyperion/io/data_reader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index ce17592..79d0f9c 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -126,13 +126,14 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
+        if read_range[1] > 0:
+            # rows left in the range after skipping row_offset
+            rows_left = read_range[1] - row_offset
+            assert rows_left > 0 and rows_left >= num_rows
+            if num_rows == 0:
+                num_rows = rows_left
+
         row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
 
         return row_offset, num_rows
 
-- 
2.43.0


From 27e925f4c273a76d23eb38c19fb7daa4f6b6dfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 006/270] fix: script readers fail to report the shapes at the
 end of the dataset

---
 hyperion/io/ark_data_reader.py | 2 +-
 hyperion/io/h5_data_reader.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..4b46109 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -347,7 +347,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..82d15b0 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From e6bccdb6c9bc07478806781c30c43607bf829454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 007/270] fix: SCPList takes the offsets as row ranges when
 these are given as a list

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 377df2a3fd7b1764c27f06ff38c88cc09880cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 008/270] fix: loading an empty script file fails

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..8bd2aa5 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,7 +194,7 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if len(file_offset) > 0 and len(file_offset[0]) == 2:
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
                 raise ValueError('Missing data position for %s' % f[0])
-- 
2.43.0


From 86001fb88af375584fabaeace80100b9c7ec0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 009/270] fix: merging script lists drops row ranges when only
 some lists have them

---
 hyperion/utils/scp_list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 8bd2aa5..8619e5b 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -293,10 +293,14 @@ class SCPList(object):
         else:
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(r is None for r in range_list):
             range_spec = None
         else:
-            range_spec = np.concatenate(tuple(range_list))
+            # (0, 0) is the range of the full matrix
+            range_spec = np.concatenate(tuple(
+                np.zeros((len(item), 2), dtype=np.int64)
+                if item.range_spec is None else item.range_spec
+                for item in scp_lists))
 
         return cls(key, file_path, offset, range_spec)
 
-- 
2.43.0


From d977636be5557e69ff6a24b8368e8ff81bb656e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 010/270] fix: Utt2Info.info drops the first row instead of the
 key column with several attributes

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..17bb774 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:,1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From f2385c3a0aa3597c45c58ad607bc678e64cce641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 011/270] fix: Utt2Info.load turns keys and labels like NA or
 null into missing values

---
 hyperion/utils/utt2info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 17bb774..dba6dbb 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,8 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype,
+                         keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From 71c23ebaf23a0cbfcaa67c995a97c5fb03049866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 012/270] fix: sorting a trial key with conditions permutes the
 wrong axis

---
 hyperion/utils/trial_key.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..16ea4ee 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[(slice(None),) + ix]
         
         
     def save(self, file_path):
-- 
2.43.0


From 30276211f2c842d7cc12d016fd20fde48d8368e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 013/270] fix: filtering or splitting a trial key with trial
 conditions fails

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 16ea4ee..2e8ad15 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 95622d327f148b3f424dedf7d6e848a0023c1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 014/270] fix: merging trial keys with segment or trial
 conditions fails or mixes models and segments

---
 hyperion/utils/trial_key.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 2e8ad15..3b2e40f 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[(slice(None),) + ix_a] = trial_cond[(slice(None),) + ix_b]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[(slice(None),) + ix_a] = key_i.trial_cond[(slice(None),) + ix_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-- 
2.43.0


From 4666d3ff64bf7c1f960fdf5863571ad7af0df367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 015/270] fix: comparing trial keys with trial conditions fails

---
 hyperion/utils/trial_key.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 3b2e40f..002df25 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From 6d2abfd88853b380eb73452e722753683d9d5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 016/270] fix: inverted filter of trial scores looks for the
 segments among the models

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..60fc267 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
-- 
2.43.0


From 35f6d5dbcec0b6edddd3d3e112ff0a166790cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 017/270] fix: creating trial scores without score matrix fails

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 60fc267..8e8e394 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From c9d0f6fca5978e6caae4de7a18d745d897adc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 018/270] fix: SegmentList.create fails

---
 hyperion/utils/segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..c9868a8 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
-- 
2.43.0


From 98f9b0eda21ce3ac909484add3adb96dcfe06987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 019/270] fix: segment list lookups fail for files with one
 segment or return the file of the iterator

---
 hyperion/utils/segment_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index c9868a8..95f9e5f 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From 1b85951f02e3fa8ad19fc0132751d039c488fdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 020/270] fix: SegmentList.load turns numeric or NA identifiers
 into numbers

---
 hyperion/utils/segment_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 95f9e5f..3584ff7 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,9 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 6f29fe59e7cd980415008f8174ac8fe0eef12965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 021/270] fix: SegmentList.to_bin_vad fails by segment and cuts
 recordings whose last segment is not the latest

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 3584ff7..d92d604 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -299,11 +299,11 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames=np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From 6d982d93f5b3b43fc2cfcb2c8c4623dab57e87b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 022/270] fix: RTTM.create without durations fails

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..e03315e 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -52,7 +52,7 @@ class RTTM(object):
         if tbeg is None:
             tbeg = nans
         if tdur is None:
-            tend = nans
+            tdur = nans
         if ortho is None:
             ortho = nans
         if stype is None:
-- 
2.43.0


From e1a1cbaaa805a67661ce3c29129018da1d552f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 023/270] fix: RTTM lookups fail for files with one segment and
 changing the index mode fails

---
 hyperion/utils/rttm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index e03315e..3c64f00 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
-- 
2.43.0


From 002aa32d69c535e2fe0ed335836d6dcb37497664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 024/270] fix: RTTM.split and inverted RTTM.filter fail

---
 hyperion/utils/rttm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3c64f00..b608899 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -304,14 +304,17 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        if self.index_by_file:
+            key, _ = split_list(self.unique_file_id, idx, num_parts)
+        else:
+            key, _ = split_list(self.segments.index, idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From 439beceecddb09612b24262ea8bffa7503d45198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 025/270] fix: RTTM.load turns <NA> fields into missing values
 and identifiers into numbers

---
 hyperion/utils/rttm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index b608899..90307b3 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -296,7 +296,9 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'file_id': str, 'name': str},
+                         keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
-- 
2.43.0


From 1f6eae164d9acf23244151ab59c3a53f68c5ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 026/270] fix: merging RTTM segments cuts a segment that
 contains the next one

---
 hyperion/utils/rttm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 90307b3..1b14157 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -347,7 +347,8 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i].tbeg + segm.iloc[i].tdur,
+                           tbeg + segm.iloc[i-1].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
-- 
2.43.0


From 451cd2326423d71a98a77c6d9d22aea912ab6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 027/270] fix: RTTM.eliminate_overlaps fails or leaves
 undefined durations

---
 hyperion/utils/rttm.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 1b14157..868c58c 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -472,17 +472,13 @@ class RTTM(object):
         index = ((segm.file_id == segm_1.file_id) &
                  (segm.segment_type == segm_1.segment_type) &
                  (tbeg < tend_1))
-        # logging.debug(index)
-        # logging.debug(self.segments.loc[index])
-        # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        # the labels of the rows repeat, we work with positions
+        index = np.asarray(index)
+        tbeg, tend, tavg = np.array(tbeg), np.array(tend), np.asarray(tavg)
+        tbeg[index] = tavg[index]
+        tend[:-1][index[1:]] = tavg[index]
+        self.segments['tbeg'] = tbeg
+        self.segments['tdur'] = tend - tbeg
 
 
 
-- 
2.43.0


From 8dcf21628c9ef6470251905bbff2e9a97aca2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 028/270] fix: RTTM.to_matrix fails and returns nothing

---
 hyperion/utils/rttm.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 868c58c..6e5954f 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -484,19 +484,18 @@ class RTTM(object):
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(np.asarray(segments['tbeg'])/frame_shift).astype(dtype=int)
+        tend = np.round(np.asarray(segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From 547a272bafc4430ce7a19f1cd54532689df86d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 029/270] fix: the length of a fold list fails

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..bb2c4a4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From 2a4ba971e0f485c63691f169ec1e603db466c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 030/270] fix: creating folds and parts from string lists fails

---
 hyperion/utils/fold_list.py           | 1 +
 hyperion/utils/train_val_eval_list.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index bb2c4a4..cd137dc 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -198,6 +198,7 @@ class FoldList(object):
         
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = list2ndarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..10dbc10 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -231,6 +231,7 @@ class TrainValEvalList(object):
         
         if group_by_key is None:
             group_by_key = segment_key
+        group_by_key = list2ndarray(group_by_key)
 
         if balance_by_key is None:
             balance_by_key = np.zeros((len(segment_key),), dtype=int)
-- 
2.43.0


From e05744d829b1d5abdc17e4664dbfbc6cc18105db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 031/270] fix: creating folds and parts fails when the mask
 removes a whole class

---
 hyperion/utils/fold_list.py           | 2 ++
 hyperion/utils/train_val_eval_list.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index cd137dc..44213e4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -214,6 +214,8 @@ class FoldList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 10dbc10..93e1364 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -247,6 +247,8 @@ class TrainValEvalList(object):
         for i in xrange(num_classes):
             
             idx_i = (balance_by_key == i).nonzero()[0]
+            if len(idx_i) == 0:
+                continue
             group_key_i = group_by_key[idx_i]
             _, group_key_i = np.unique(group_key_i, return_inverse=True)
             num_groups_i = np.max(group_key_i) + 1
-- 
2.43.0


From facc5228ac9d846073fa54808fd09445d87c65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 032/270] fix: TrainValEvalList.get_part fails

---
 hyperion/utils/train_val_eval_list.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index 93e1364..fd57a00 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -124,15 +124,14 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        idx = self.get_part_idx(part)
+        return self.key[idx]
 
 
     
@@ -140,11 +139,10 @@ class TrainValEvalList(object):
         """Returns a part keys
 
         Args:
-          part: Part number to return
+          part: Part number or name to return
 
         Returns:
-          train_key: Keys of the elements used for training
-          test_key: Keys of the elements used for test
+          Keys of the elements of the part
         """
 
         return self.get_part(part)
-- 
2.43.0


From f5e74cfa2a62cc33541fcf6779dedb32667ce2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 033/270] fix: train/validation/evaluation lists with part
 names are not saved and loaded right

---
 hyperion/utils/train_val_eval_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index fd57a00..b726e3f 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -161,7 +161,7 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -184,9 +184,9 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
+            part_names = np.asarray([f[2] for f in fields])
             _, part_idx = np.unique(part, return_index=True)
-            part_names = part_names[part_idx]
+            part_names = part_names[part_idx[np.unique(part) >= 0]]
             
         return cls(key, part, part_names=part_names)
 
-- 
2.43.0


From c6b2677ba19a84e732bc5594c63b27fd7db13337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 034/270] fix: saving a fold list fails

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 44213e4..6d8907a 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for fold,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (fold,sep,k))
 
 
     @classmethod
-- 
2.43.0


From 72357760b87009fb821ce770d42d429564f188a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 035/270] fix: filter_roc fails and drops the last point

---
 hyperion/metrics/roc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..a93c085 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From aa22b1937d82217f01ea0b715de9e9e83a95d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 036/270] fix: area under the ROC convex hull reads past the
 last point

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index a93c085..7533ad5 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From 1ea917dfb7b71e7f013012ae8faf2841bd9bfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 037/270] fix: actual detection costs are wrong when a prior is
 repeated

---
 hyperion/metrics/dcf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/dcf.py b/hyperion/metrics/dcf.py
index d6dd9c5..167b6c0 100644
--- a/hyperion/metrics/dcf.py
+++ b/hyperion/metrics/dcf.py
@@ -100,19 +100,19 @@ def compute_act_dcf(tar, non, prior, normalize=True):
     #thresholds
     t = - np.log(prior) + np.log(1-prior)
 
-    ttar = np.concatenate((t, tar))
+    ttar = np.concatenate((t[::-1], tar))
     ii = np.argsort(ttar, kind='mergesort')
     r = np.zeros((num_priors + ntar), dtype='int32')
     r[ii] = np.arange(1, num_priors + ntar + 1)
-    r = r[:num_priors]
+    r = r[:num_priors][::-1]
     n_miss = r - np.arange(num_priors, 0, -1)
 
     
-    tnon = np.concatenate((t, non))
+    tnon = np.concatenate((t[::-1], non))
     ii = np.argsort(tnon, kind='mergesort')
     r = np.zeros((num_priors + nnon), dtype='int32')
     r[ii] = np.arange(1, num_priors + nnon + 1)
-    r = r[:num_priors]
+    r = r[:num_priors][::-1]
     n_fa = nnon - r + np.arange(num_priors, 0, -1)
 
     # n_miss2 = np.zeros((num_priors,), dtype='int32')
-- 
2.43.0


From 7d2c3c406538873fba0588510bc46dd3bfe97b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 038/270] fix: isotonic regression of integers truncates the
 block means

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..588e4c2 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -64,7 +64,7 @@ def pavx(y):
     l = np.zeros(y.shape, dtype=int)
     # An interval of indices is represented by its left endpoint 
     # ("index") and its length "len" 
-    ghat = np.zeros_like(y)
+    ghat = np.zeros(y.shape, dtype=float_cpu())
 
     ci = 0
     index[ci] = 0
-- 
2.43.0


From 754bf9b458e7e2c16aa8ea71f452b952fd7bd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 039/270] fix: Cllr evaluates the non-target scores as if they
 were targets

---
 hyperion/metrics/cllr.py  | 2 +-
 hyperion/metrics/utils.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 588e4c2..cd4e4c3 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,8 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    if method == 'laplace':
+        llr += 1e-6 * np.arange(n)/n
 
     llr[sort_idx] = llr
     tar_llr = llr[:ntar]
-- 
2.43.0


From 205043f0cc4f42c9ab61ebcb1c9948ac9c43d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 040/270] fix: cross-label confusion matrices fail with string
 labels

---
 hyperion/metrics/confusion_matrix.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..3d80e9d 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -67,16 +67,16 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    assert y_true.dtype.kind == y_pred.dtype.kind, 'y_true and y_pred labels does not have the same type'
+    assert labels_train.dtype.kind == labels_test.dtype.kind, 'Train and test labels does not have the same type'
+    assert labels_train.dtype.kind == y_pred.dtype.kind, 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
         y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
+    elif issubclass(y_true.dtype.type, np.str_) or issubclass(
+    y_true.dtype.type, np.bytes_): 
         y_true = np.asarray(['TEST_' + s for s in y_true])
         y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
     else:
@@ -85,8 +85,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
     if issubclass(labels_train.dtype.type, np.integer):
         labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
+    elif issubclass(labels_train.dtype.type, np.str_) or issubclass(
+    labels_train.dtype.type, np.bytes_): 
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
         labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
     else:
-- 
2.43.0


From 560e2fa1086ee667f1ca66e5052d2e7dcc768ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 041/270] fix: cross-label confusion matrices modify the input
 labels and mix up labels that are not 0 to n-1

---
 hyperion/metrics/confusion_matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 3d80e9d..c19b0d7 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -74,7 +74,10 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
+        # moves the train labels away from the test labels
+        offset = (max(np.max(y_true), np.max(labels_test))
+                  - min(np.min(y_pred), np.min(labels_train)) + 1)
+        y_pred = y_pred + offset
     elif issubclass(y_true.dtype.type, np.str_) or issubclass(
     y_true.dtype.type, np.bytes_): 
         y_true = np.asarray(['TEST_' + s for s in y_true])
@@ -84,7 +87,7 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
 
 
     if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
+        labels_train = labels_train + offset
     elif issubclass(labels_train.dtype.type, np.str_) or issubclass(
     labels_train.dtype.type, np.bytes_): 
         labels_test = np.asarray(['TEST_' + s for s in labels_test])
-- 
2.43.0


From 86fbd88c44f2415668a5716ca3bce04b05979e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 042/270] fix: print_confusion_matrix fails

---
 hyperion/metrics/confusion_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index c19b0d7..1660e1d 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
+
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From 90ae7fd9b1cb43afdd758e8aadb9c94395b80f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 043/270] fix: opt_loglr overwrites ratios while it restores
 the order of the scores

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index cd4e4c3..199a4d5 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -152,7 +152,7 @@ def opt_loglr(tar, non, method='laplace'):
     if method == 'laplace':
         llr += 1e-6 * np.arange(n)/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = llr.copy()
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 0ce3d89a01b5d6941c841db93f79c6e1a2fbcadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 044/270] fix: symmetric Povey windows

---
 hyperion/feats/feature_windows.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/feats/feature_windows.py b/hyperion/feats/feature_windows.py
index 091e054..cf3620e 100644
--- a/hyperion/feats/feature_windows.py
+++ b/hyperion/feats/feature_windows.py
@@ -22,8 +22,9 @@ class FeatureWindowFactory(object):
     def create(window_type, N, sym=False):
 
         if window_type == 'povey':
+            period = N - 1 if sym else N
             return np.power(0.5 - 0.5*np.cos(
-                2*np.pi/N*np.arange(N, dtype=float_cpu())), 0.85)
+                2*np.pi/period*np.arange(N, dtype=float_cpu())), 0.85)
         if window_type == 'hamming':
             return hamming(N, sym).astype(float_cpu(), copy=False)
         if window_type == 'hanning':
-- 
2.43.0


From 3bb4dfcbcf0aa0dc1e51de66b7212761aca60f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 045/270] fix: negative high cut-off frequencies are offsets
 from the Nyquist frequency, as documented

---
 hyperion/feats/filter_banks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/feats/filter_banks.py b/hyperion/feats/filter_banks.py
index d74b6cd..5267e9a 100644
--- a/hyperion/feats/filter_banks.py
+++ b/hyperion/feats/filter_banks.py
@@ -49,8 +49,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_kaldi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
             
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
         mel_high_freq = FilterBankFactory.lin2mel(high_freq)
@@ -76,8 +76,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_mel_etsi(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
 
         fs_2 = fs/2
         mel_low_freq = FilterBankFactory.lin2mel(low_freq)
@@ -98,8 +98,8 @@ class FilterBankFactory(object):
     @staticmethod
     def make_linear(num_filters, fft_length, fs, low_freq, high_freq):
 
-        if high_freq == 0:
-            high_freq = fs/2
+        if high_freq <= 0:
+            high_freq = fs/2 + high_freq
         
         fs_2 = fs/2
         fc = np.linspace(low_freq, high_freq, num_filters+2)
-- 
2.43.0


From 8ea14c7ee4321eba263e87507e161e57eb2cf982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 046/270] fix: keep the sign of the log energy when the feature
 pipeline starts from FFTs

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..65134b8 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
-- 
2.43.0


From 8dffda4d85e29a8ee78aea39f24c9f47c0665a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 047/270] fix: feature pipelines starting from log filter banks
 without energy

---
 hyperion/feats/mfcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 65134b8..55c9cd1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From 03e2d07129d4a500b1e97e265dbd60b32d59ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 048/270] fix: do not pad by negative lengths when frames are
 not snipped to the signal edges

---
 hyperion/feats/mfcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 55c9cd1..2715a9d 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -250,7 +250,7 @@ class MFCC(object):
                 dlen_x = len_x - len(x)
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(int(dlen_x - dlen1_x), 0)
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0


From 32d8f64a234ede467662eaa00b16bb2662b99bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 049/270] fix: energy VAD arguments parser needs str2bool

---
 hyperion/feats/energy_vad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..3cd115b 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
-- 
2.43.0


From 0e4e8f68e5f57379eaddc0558767c89a1492c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 050/270] fix: energy VAD with frames context

---
 hyperion/feats/energy_vad.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 3cd115b..5239854 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -117,16 +117,11 @@ class EnergyVAD(object):
             return vad
  
         window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
         h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
-        
+        num_count = np.convolve(vad.astype('float32'), h)
+        den_count = np.convolve(np.ones((len(vad),), dtype='float32'), h)
+        num_count = num_count[context:context+len(vad)]/den_count[context:context+len(vad)]
+
         vad = num_count > self.vad_proportion_threshold
         return vad
         
-- 
2.43.0


From 6440751761b46e755c9d9d5356a99d9e8f1b72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 051/270] fix: energy VAD: return the log energies when asked,
 no debug printing, no negative padding

---
 hyperion/feats/energy_vad.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 5239854..8a586a6 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -85,7 +85,7 @@ class EnergyVAD(object):
                 len_x = (num_frames-1)*self._shift + self._length
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(int(dlen_x - dlen1_x), 0)
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
@@ -106,15 +106,12 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
         if context == 0:
-            return vad
+            return (vad, logE) if return_loge else vad
  
         window = 2*context + 1
         h = np.ones((window,), dtype='float32')
@@ -123,7 +120,7 @@ class EnergyVAD(object):
         num_count = num_count[context:context+len(vad)]/den_count[context:context+len(vad)]
 
         vad = num_count > self.vad_proportion_threshold
-        return vad
+        return (vad, logE) if return_loge else vad
         
     
 
-- 
2.43.0


From 4557b91e046307865d7fdf26e57dd5aba732d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 052/270] fix: frame selector: honour the configured tolerance
 and numeric selectors

---
 hyperion/feats/frame_selector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..7903d04 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -34,6 +34,7 @@ class FrameSelector(object):
         """
         num_frames = x.shape[0]
         num_frames_vad = sel.shape[0]
+        sel = sel.astype('bool', copy=False)
         if num_frames == num_frames_vad:
             return x[sel,:]
         elif num_frames > num_frames_vad:
@@ -66,7 +67,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 95d379f84c07975f0080bd3eb36a8e405aa203f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 053/270] fix: adding sufficient statistics of exponential
 family models, and weighting them without modifying the input

---
 hyperion/pdfs/core/exp_family.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..6eba563 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x*sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
-- 
2.43.0


From 5acf1cb68864bbc7e1024a0f8cc24a62ff5f2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 054/270] fix: normalised statistics of full covariance
 Gaussians are those of the whitened data

---
 hyperion/pdfs/core/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..d0ca162 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
-- 
2.43.0


From 6eaca068516ef8a13aa2e0675c168059146b3a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 055/270] fix: Gaussian covariance updates around a mean that
 is not updated

---
 hyperion/pdfs/core/normal.py          | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index d0ca162..229428d 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S = S - Fmu - Fmu.T + np.outer(self.mu,self.mu)
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..9fb6821 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N - 2*self.mu*F/N + self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
-- 
2.43.0


From 7054a7965ad95a3b131d4f63b86a59106355cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 056/270] fix: generating samples from a model recursed without
 end

---
 hyperion/pdfs/core/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/pdf.py b/hyperion/pdfs/core/pdf.py
index faa2e48..9402de7 100644
--- a/hyperion/pdfs/core/pdf.py
+++ b/hyperion/pdfs/core/pdf.py
@@ -41,5 +41,5 @@ class PDF(HypModel):
 
     
     def generate(self, num_samples, **kwargs):
-        return self.generate(num_samples, **kwargs)
+        return self.sample(num_samples, **kwargs)
 
-- 
2.43.0


From 2878f9a82237864edfb4e4829f22b4d1804b8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 057/270] fix: mixture evaluations used the weights previous to
 the update

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 1 +
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..4e9c671 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -166,6 +166,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..8e8e484 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -99,6 +99,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[N0] = 0
                 S[N0] = 1
             self.pi = N/np.sum(N)
+            self._log_pi = None
             
         self._compute_nat_params()
         
-- 
2.43.0


From d65a68458b83677d988cb70a495e04460d13a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 058/270] fix: mixture components with too few samples

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 11 +++++++----
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 4e9c671..f502f52 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -160,11 +160,14 @@ class GMMDiagCov(ExpFamilyMixture):
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
+            N0 = (N < self.min_N) | (N == 0)
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:, None], 0, self.mu)
+                self.Lambda = np.where(N0[:, None], 1, self.Lambda)
+                self._Sigma = None
+                self._cholLambda = None
+                self._logLambda = None
             self.pi = N/np.sum(N)
             self._log_pi = None
             
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 8e8e484..43957b9 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -84,6 +84,7 @@ class GMMTiedDiagCov(GMMDiagCov):
 
         if self.update_Lambda:
             S = S/N[:,None] - self.mu**2
+            S[N==0] = 0
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
@@ -93,11 +94,10 @@ class GMMTiedDiagCov(GMMDiagCov):
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
+            N0 = (N < self.min_N) | (N == 0)
             if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:, None], 0, self.mu)
             self.pi = N/np.sum(N)
             self._log_pi = None
             
-- 
2.43.0


From aa15b54c9b53af699b075fddbaabdc00853ecf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 059/270] fix: mixture covariance updates around means that are
 not updated

---
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..2b09708 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -178,7 +178,8 @@ class GMM(ExpFamilyMixture):
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
+                C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index f502f52..f68f589 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = (S - 2*self.mu*F)/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 43957b9..7a0dfd4 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = (S - 2*self.mu*F)/N[:,None] + self.mu**2
             S[N==0] = 0
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
-- 
2.43.0


From 8259828adf111775b81d0fe6adc3c11325617543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 060/270] fix: training of full covariance mixtures never
 updated the weights, and overwrote the precisions given by the caller

---
 hyperion/pdfs/mixtures/gmm.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 2b09708..4e6a625 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -180,8 +180,10 @@ class GMM(ExpFamilyMixture):
                 C[k] = vec2symmat(S[k]/N[k])
                 Fmu = np.outer(F[k]/N[k], self.mu[k])
                 C[k] += np.outer(self.mu[k],self.mu[k]) - Fmu - Fmu.T
-            Sfloor = self.var_floor*np.mean(C, axis=0)
+            Sfloor = self.var_floor*np.mean(C[N>self.min_N], axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
+            C[N==0] = np.eye(self.x_dim)
+            self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
                 self.Lambda[k] = invert_pdmat(C[k], return_inv=True)[-1]
@@ -189,6 +191,18 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            N0 = (N < self.min_N) | (N == 0)
+            if np.any(N0):
+                N = np.where(N0, 0, N)
+                self.mu = np.where(N0[:, None], 0, self.mu)
+                self.Lambda = np.where(N0[:, None, None], np.eye(self.x_dim), self.Lambda)
+                self._Sigma = None
+                self._logLambda = None
+                self._cholLambda = None
+            self.pi = N/np.sum(N)
+            self._log_pi = None
+
         self._compute_nat_params()
 
 
-- 
2.43.0


From f66bf3dfb7ca6e4864fb0a775b13d7e8c0d7d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 061/270] fix: normalised statistics of mixtures

---
 hyperion/pdfs/mixtures/gmm.py          | 11 ++++++-----
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 4e6a625..c1317d0 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,13 +153,14 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S = S.copy()
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
                 S[k] = symmat2vec(SS)
         if return_order2:
             return N, self.stack_suff_stats(F_norm, S)
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index f68f589..3b64f7f 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From af197b6da5c5b6bd8591d62fffceb377bd23ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 062/270] fix: full precision for mixtures built from natural
 parameters

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index c1317d0..81d9314 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -388,7 +388,7 @@ class GMM(ExpFamilyMixture):
     def compute_std(eta):
         x_dim = Normal.compute_x_dim_from_eta(eta)
         mu = np.zeros((eta.shape[0], x_dim), dtype=float_cpu())
-        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype='float32')
+        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype=float_cpu())
         for k in xrange(eta.shape[0]):
             mu[k], Lambda[k] = Normal.compute_std(eta[k])
 
-- 
2.43.0


From 05df30d32417254f08c8d1ca95bce0d830adc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 063/270] fix: configuration and component splitting of full
 covariance mixtures

---
 hyperion/pdfs/mixtures/gmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 81d9314..90e6318 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -217,7 +217,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
@@ -266,7 +266,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
-- 
2.43.0


From 3775aaa6e23728c70fd8e46357ba7cbad8c4a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 064/270] fix: adding mixture statistics, and statistics of
 sliding windows of one segment or in batches

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..97a8cc6 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,10 +333,7 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
-
-        num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
+        num_segments_per_batch = max(np.floor((batch_size-frame_length)/frame_shift + 1), 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
         batch_shift = int(num_segments_per_batch*frame_shift)
 
@@ -347,7 +342,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
@@ -407,11 +402,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From c357dc23928b26f11a690d100abda9e4fa78dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 065/270] fix: mixture log-densities from the best components

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 97a8cc6..26a4f05 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -465,10 +465,9 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            llk_k = np.sort(llk_k, axis=-1)[:, -nbest:]
         else:
-            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
+            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A[nbest] + self.log_pi[nbest]
         llk = logsumexp(llk_k)
         return self.log_h(x) + llk
         
-- 
2.43.0


From e317e6c3700de08677f1377d70b69d1c0358b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 066/270] fix: initialisation of tied covariance mixtures with
 one component

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 7a0dfd4..699cb93 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
-- 
2.43.0


From bb5a7f38fb28e934fb1e984b239f04a9a4250ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 067/270] fix: K-means chose the same point as seed of several
 clusters, leaving empty clusters

---
 hyperion/clustering/kmeans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/kmeans.py b/hyperion/clustering/kmeans.py
index ce09a4e..ad97dc8 100644
--- a/hyperion/clustering/kmeans.py
+++ b/hyperion/clustering/kmeans.py
@@ -47,9 +47,9 @@ class KMeans(HypModel):
         mu = np.zeros((self.num_clusters, x.shape[-1]), dtype=float_cpu())
         mu[0] = x[0]
         for i in xrange(1, self.num_clusters):
-            d = np.zeros((x.shape[0],), dtype=float_cpu())
+            d = np.full((x.shape[0],), np.inf, dtype=float_cpu())
             for j in xrange(i):
-                d += np.sum(np.square(x-mu[j]), axis=-1)
+                d = np.minimum(d, np.sum(np.square(x-mu[j]), axis=-1))
             index = np.argmax(d)
             mu[i] = x[index]
         return mu
-- 
2.43.0


From 18914a5dd552879f5dcbb9e348517ccf38daaf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 068/270] fix: keep the single batch of the sliding window
 statistics (rounding)

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 26a4f05..4bacf2a 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -333,7 +333,7 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        num_segments_per_batch = max(np.floor((batch_size-frame_length)/frame_shift + 1), 1)
+        num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
         batch_shift = int(num_segments_per_batch*frame_shift)
 
-- 
2.43.0


From 53df35ce5041c6fdf445d7fbb6b2665a5baa5451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 069/270] fix: reading Kaldi mixtures of one component

---
 hyperion/pdfs/mixtures/gmm.py          | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 90e6318..833a43c 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -314,7 +314,7 @@ class GMM(ExpFamilyMixture):
                         line = f.readline()
                         fields = line.split()
                         if x_dim == 0:
-                            x_dim = len(fields)
+                            x_dim = len([v for v in fields if v != ']'])
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                             eta2 = np.zeros((num_comp, int((x_dim**2+3*x_dim)/2)), dtype=float_cpu())
                         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 3b64f7f..9a78785 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -285,7 +285,7 @@ class GMMDiagCov(ExpFamilyMixture):
                         line = f.readline()
                         fields = line.split()
                         if x_dim == 0:
-                            x_dim = len(fields)
+                            x_dim = len([v for v in fields if v != ']'])
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                             eta2 = np.zeros((num_comp, x_dim), dtype=float_cpu())
                         
-- 
2.43.0


From eb4dcdd1d71728007c992b3c16c60e43ab4afe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 070/270] fix: speaker posteriors of PLDA and SPLDA with more
 than one vector per speaker

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..1509138 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..f72ca1e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From f8332e67905960416cc39c6c93b2bf284e02079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 071/270] fix: within-class covariance update of full-rank PLDA
 ignored the posterior covariance of the speaker variables

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From 1abd49812390d6a631903b39058697651640ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 072/270] fix: PLDA with frozen mean or diagonal within-class
 precision

---
 hyperion/pdfs/plda/frplda.py | 7 +++++--
 hyperion/pdfs/plda/splda.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..ea39b97 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -70,7 +70,10 @@ class FRPLDA(PLDABase):
         iW = C/N_tot
 
         B = invert_pdmat(iB, return_inv=True)[-1]
-        W = invert_pdmat(iW, return_inv=True)[-1]
+        if self.fullcov_W:
+            W = invert_pdmat(iW, return_inv=True)[-1]
+        else:
+            W = np.diag(1/np.diag(iW))
 
         self.mu = mu
         self.B = B
@@ -222,7 +225,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index f72ca1e..35c0ac1 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From 6b02449972aa9d4db7be0c5df3efc15058cad080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 073/270] fix: channel statistics in the PLDA E-step

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1509138..56dd4c2 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From c5543ac68a9b6b25430293f14e59cdd82bf4766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 074/270] fix: PLDA updates of a subset of the parameters

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 56dd4c2..d96c4ee 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F[None,:] - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F[None,:] - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From c6f24be2c8e2c04169f70e834c6c26e86581f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 075/270] fix: minimum divergence steps of PLDA with frozen
 parameters lowered the likelihood, and overwrote the mean given by the caller

---
 hyperion/pdfs/plda/plda.py  | 10 ++++++++--
 hyperion/pdfs/plda/splda.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index d96c4ee..73eb0a3 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -345,6 +345,10 @@ class PLDA(PLDABase):
             
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py, Rz1, Rz, Ryz, Cz = stats
+        if not self.update_mu:
+            # the prior means cannot be absorbed by mu
+            y_acc, Ry1, Rz1 = 0*y_acc, 0*Ry1, 0*Rz1
+
         mu_y = y_acc/M
         Cov_y = Py/M - np.outer(mu_y, mu_y)
         chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
@@ -352,6 +356,8 @@ class PLDA(PLDABase):
         R = Ry - np.outer(Ry1,Ry1)/N
         mult_iR = invert_pdmat(R, right_inv=True)[0]
         H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        if not self.update_V:
+            H = 0*H
         mu_z = (Rz1 - np.dot(Ry1, H.T))/N
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
@@ -359,8 +365,8 @@ class PLDA(PLDABase):
         chol_Cov_z = sla.cholesky(Cov_z, lower=False, overwrite_a=True)
         
         if self.update_mu:
-            self.mu += (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
-                        np.dot(mu_z, self.U))
+            self.mu = self.mu + (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
+                                 np.dot(mu_z, self.U))
 
         if self.update_V:
             self.V = np.dot(chol_Cov_y, self.V + np.dot(H.T, self.U))
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 35c0ac1..b84bd32 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -235,10 +235,13 @@ class SPLDA(PLDABase):
                 
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py = stats
+        if not self.update_mu:
+            # the prior mean cannot be absorbed by mu
+            y_acc = 0*y_acc
         mu_y = y_acc/M
         
         if self.update_mu:
-            self.mu += np.dot(mu_y, self.V)
+            self.mu = self.mu + np.dot(mu_y, self.V)
 
         if self.update_V:
             Cov_y = Py/M - np.outer(mu_y, mu_y)
-- 
2.43.0


From bc0cdbbfe9df71eb1a84de570bd63d57084469ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 076/270] fix: many to many scoring of PLDA and SPLDA returned
 nothing and modified the statistics

---
 hyperion/pdfs/plda/plda.py      | 13 +++++++------
 hyperion/pdfs/plda/plda_base.py |  2 +-
 hyperion/pdfs/plda/splda.py     | 11 ++++++-----
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 73eb0a3..39d2218 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -476,18 +476,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -525,9 +525,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..fb29827 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = scal_factor*p_theta
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index b84bd32..aed050c 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -331,14 +331,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -376,9 +376,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From 586b1ae4eca4f6eab93bf426635ea44834c27ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 077/270] fix: scale of the residual noise when sampling from
 PLDA

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 39d2218..fc86630 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -540,7 +540,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 066be66dc4404ef189c4b3571817cccdf1ee9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 078/270] fix: conditional log-density of PLDA

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index fc86630..1b64236 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -408,7 +408,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 40ecd1355db7216cc010184955c78dbd903850c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 079/270] fix: PLDA kept scoring with the old parameters after
 averaging models

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1b64236..1b2c494 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -579,6 +579,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From f30a163592677bd9403d83cd64174746fc33aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 080/270] fix: whitening with a diagonal transform

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..4959ce5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From 19dbf093d3d430c95871d17a51f4f6e154c48fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 081/270] fix: whitening with uncertainty propagation modified
 its input

---
 hyperion/transforms/cent_whiten_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..4f3ab72 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -28,7 +28,7 @@ class CentWhitenUP(CentWhiten):
     def predict(self, x):
         x_dim = int(x.shape[-1]/2)
         m_x = x[:,:x_dim]
-        s2_x = x[:,x_dim:]
+        s2_x = x[:,x_dim:].copy()
         m_x = super(CentWhitenUP, self).predict(m_x)
         for i in xrange(x.shape[0]):
             s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
-- 
2.43.0


From 84fe8488f1ad3be0e3c71c98c031dda228290d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 082/270] fix: accumulated class scatter statistics were lost

---
 hyperion/transforms/sb_sw.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..9b14e67 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
-- 
2.43.0


From fee376813f0af34739c82c72b021d95f3cad20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 083/270] fix: training of nuisance attribute projection

---
 hyperion/transforms/nap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..4ca90eb 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -27,16 +27,16 @@ class NAP(HypModel):
 
     
     def fit(self, x, U_dim, class_ids):
-        x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        xx = np.zeros_like(x)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
             xx[idx, :] = (x[idx, :] - mu_i)/N
         xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+        _, s, Vt = la.svd(xx, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From 0a717377b441cbfda0fc05aaac300f484e229bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 084/270] fix: Gaussianisation without a maximum number of
 vectors

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From 92f34b5ef02e9172366f95f0a84a381b3f02abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 085/270] fix: CentWhitenUP works without, with diagonal and
 with rank-deficient transforms, like CentWhiten

---
 hyperion/transforms/cent_whiten_up.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 4f3ab72..cd61002 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,8 +30,11 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:].copy()
         m_x = super(CentWhitenUP, self).predict(m_x)
-        for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        if self.T is not None:
+            if self.T.ndim == 1:
+                s2_x = s2_x*self.T**2
+            else:
+                s2_x = np.dot(s2_x, self.T**2)
         return np.hstack((m_x, s2_x))
 
 
-- 
2.43.0


From dcace87b539a598dadaae3ef3078ea3e4b4c2303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 086/270] fix: HypModel.save accepts file names without a
 directory

---
 hyperion/hyp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..03697d6 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
-- 
2.43.0


From 605eddc3a57b24d1702f28eec8559b21175e6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 087/270] fix: models with parameters that are not set can be
 loaded

---
 hyperion/hyp_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 03697d6..36f205f 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -124,6 +124,10 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
+            if p_name not in f:
+                # parameters that are None are not saved
+                param_dict[k] = None
+                continue
             param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
         return param_dict
 
-- 
2.43.0


From 72642412ef74ec8e7818cec76ceb95575bbf9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 088/270] fix: Normal, NormalDiagCov and GMMDiagCov can be
 loaded

---
 hyperion/pdfs/core/normal.py           | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py  | 2 +-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 229428d..f760217 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -208,7 +208,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 9fb6821..82be5bc 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 9a78785..72ab38b 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -253,7 +253,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From a720d37ae565751d72e34de8537bd809b751bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 089/270] fix: loaded CentWhiten, LNorm, PCA and LDA keep their
 update options and dimension

---
 hyperion/transforms/cent_whiten.py | 4 +++-
 hyperion/transforms/lda.py         | 4 +++-
 hyperion/transforms/pca.py         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 4959ce5..5985827 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,9 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
     
     
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..5a0d74c 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,9 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..7968a41 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,9 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'],
+                   name=config['name'])
     
 
     
-- 
2.43.0


From e9c148ee20a952962e90c8d1f19bceefdf8630fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 090/270] fix: SbSw and NSbSw can be loaded

---
 hyperion/transforms/sb_sw.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 9b14e67..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From e409ce393e7763df5caae973e25c3038a1580bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 091/270] fix: loaded TransformList does not add its name again
 to the names of its transforms

---
 hyperion/transforms/transform_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..8c7f5f5 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # the names of the saved transforms already include the name of the list
+        tl = cls(transforms)
+        tl.name = config['name']
+        return tl
             
-- 
2.43.0


From 7ad1be006c64415830d2f2ad66e52553a793f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 092/270] fix: GaussCalibration can be loaded

---
 hyperion/calibration/gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..70f083d 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -75,6 +75,6 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
 
     
-- 
2.43.0


From cbd06a7f8ed392b1561062ed0a75118198c6c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 093/270] fix: the generic model loader can be imported and
 knows the existing classes

---
 hyperion/model_loader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hyperion/model_loader.py b/hyperion/model_loader.py
index 165df87..2a03881 100644
--- a/hyperion/model_loader.py
+++ b/hyperion/model_loader.py
@@ -8,7 +8,9 @@ from __future__ import division
 from six.moves import xrange
 
 from .hyp_model import HypModel
-from .pdfs import *
+from .pdfs.core import Normal, NormalDiagCov
+from .pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov
+from .pdfs.plda import FRPLDA, SPLDA, PLDA
 from .transforms import *
 
 
@@ -16,20 +18,26 @@ class ModelLoader(object):
 
     @staticmethod
     def get_object():
-        obj_dict={ 'DiagNormal': DiagNormal,
+        obj_dict={ 'NormalDiagCov': NormalDiagCov,
                    'Normal': Normal,
-                   'DiagGMM': DiagGMM,
+                   'GMMDiagCov': GMMDiagCov,
+                   'GMMTiedDiagCov': GMMTiedDiagCov,
                    'GMM': GMM,
                    'FRPLDA': FRPLDA,
                    'SPLDA': SPLDA,
+                   'PLDA': PLDA,
                    'CentWhiten': CentWhiten,
+                   'CentWhitenUP': CentWhitenUP,
                    'LNorm': LNorm,
+                   'LNormUP': LNormUP,
                    'PCA': PCA,
                    'LDA': LDA,
+                   'NDA': NDA,
                    'NAP': NAP,
                    'SbSw': SbSw,
                    'MVN': MVN,
-                   'TransformList', TransformList}
+                   'Gaussianizer': Gaussianizer,
+                   'TransformList': TransformList}
         return obj_dict
         
     
-- 
2.43.0


From 784f9fdbec5947dd5c74ef3763734904d9e17954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 094/270] fix: split_comp keeps update_Lambda and min_N

---
 hyperion/pdfs/mixtures/gmm.py          | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 833a43c..33b27a1 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -229,7 +229,8 @@ class GMM(ExpFamilyMixture):
                     mu[K*g+k] += std_dev
 
         config = self.get_config()
-        return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMM(pi=pi, mu=mu, Lambda=Lambda, min_N=self.min_N,
+                   update_Lambda=self.update_Lambda, **config)
     
 
         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 72ab38b..fb9e533 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -193,7 +193,8 @@ class GMMDiagCov(ExpFamilyMixture):
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
+        return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, min_N=self.min_N,
+                   update_Lambda=self.update_Lambda, **config)
         
 
     
-- 
2.43.0


From 296fa81f90d40e48bd70a20705115882167ab8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 095/270] fix: GaussCalibration saves its prior

---
 hyperion/calibration/gauss_calibration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index 70f083d..d07a9b2 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -63,6 +63,12 @@ class GaussCalibration(HypModel):
         return self.a*x+self.b
 
 
+    def get_config(self):
+        config = {'prior': self.prior}
+        base_config = super(GaussCalibration, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
+
     def save_params(self, f):
         params = {'mu1': self.mu1,
                   'mu2': self.mu2,
@@ -75,6 +81,7 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'],
+                   prior=config['prior'], name=config['name'])
 
     
-- 
2.43.0


From e0ec770018cbe273cff1d13c545d26d99e7784d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 096/270] fix: PLDA that is not trained yet keeps the dimension
 of its channel factor when saved

---
 hyperion/pdfs/plda/plda.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1b2c494..de35a28 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -379,7 +379,8 @@ class PLDA(PLDABase):
 
         
     def get_config(self):
-        config = {'update_D': self.update_D,
+        config = {'z_dim': self.z_dim,
+                  'update_D': self.update_D,
                   'update_U': self.update_U,
                   'update_V': self.update_V,
                   'floor_iD': self.floor_iD}
-- 
2.43.0


From a1a6e779f06135318744ad80170b9444bd79d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 097/270] fix: split_comp of GMMTiedDiagCov keeps update_Lambda
 and min_N

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index 699cb93..ff7765b 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -122,7 +122,8 @@ class GMMTiedDiagCov(GMMDiagCov):
                 mu[k::K] += factor*std_dev
 
         config = self.get_config()
-        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
+        return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, min_N=self.min_N,
+                              update_Lambda=self.update_Lambda, **config)
         
 
     
-- 
2.43.0


From 0a9abc9cf9ed47bb1b206bf15e112cb57b5fc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 098/270] fix: normalisation of the predictive Student t of
 LinearGBE

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..8ef2652 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r)
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From a3d5db2e8ab281cb501b17a6608ca1384ed1a432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 099/270] fix: LinearGBEUP splits means and variances with
 integer indexes

---
 hyperion/classifiers/linear_gbe_up.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..edf67c8 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,12 +42,12 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
-#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]/2)
+#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]//2)
             S = invert_pdmat(self.W, return_inv=True)[-1]
             
         logp = np.zeros((len(x), self.num_classes), dtype=float_cpu())
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From 8ca783402165d706662e8e85ec2f0abbaac08698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 100/270] fix: LinearGBEUP floors the covariance above the mean
 uncertainty

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index edf67c8..5917001 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 5e53f40095d1d8968e631981db1c03e7702b1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 101/270] fix: QScoringHomoGBE scales the precision of its
 prior

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From d151548d13aa106cdbf4ddfee8bf77ef16089f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 102/270] fix: LinearSVMC does not apply the bias scaling twice

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..ac67bf9 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
-- 
2.43.0


From 0a4ec199ce743eabc5603a314d047b31cf69b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 103/270] fix: sign of the binary log-posteriors of LinearSVMC

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index ac67bf9..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From 5c193c54697432138e8d17878170016f1351bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 104/270] fix: logistic regression does not apply the bias
 scaling twice

---
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..8e89e64 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -159,10 +159,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(self.priors)
 
 
             
-- 
2.43.0


From ba9b30c839b842f14a4bf6f91a9a150f5a776344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 105/270] fix: logistic regression does not modify the sample
 weights of the caller

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 8e89e64..ea41e97 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -151,7 +151,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 80a5222a1a026f31cb0042a12af3793ae9bd8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 106/270] fix: logistic regression trains and evaluates with
 default, dictionary and list priors, and without bias

---
 hyperion/classifiers/logistic_regression.py | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index ea41e97..0f2f143 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -120,6 +120,17 @@ class LogisticRegression(HypModel):
 
 
     
+    def _get_priors(self, num_classes):
+        if self.priors is None:
+            return 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
+        if isinstance(self.priors, dict):
+            # keys are strings when the model has been loaded from file
+            priors = dict((int(k), v) for k, v in self.priors.items())
+            return np.array([priors[i] for i in xrange(num_classes)], dtype=float_cpu())
+        return np.array(self.priors, dtype=float_cpu())
+
+
+
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +138,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + np.log(self._get_priors(y.shape[1])), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + np.log(self._get_priors(y.shape[1])))
         
         return y
         
@@ -142,10 +153,7 @@ class LogisticRegression(HypModel):
         counts = np.bincount(class_ids)
         assert num_classes == len(counts)
         
-        if self.priors is None:
-            priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
-        else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+        priors = self._get_priors(num_classes)
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -157,12 +165,12 @@ class LogisticRegression(HypModel):
 
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
-            if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+            if self.lr.coef_.shape[0] == 1:
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From b8e3ada417ea7e5ed8d50139cae2008213161a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 107/270] fix: binary logistic regression uses the given
 regularisation and seed

---
 hyperion/classifiers/binary_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 50d21d8fac72f24370d296793dac376d688d59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 108/270] fix: unsupervised Gaussian calibration uses the
 existing mixture class

---
 hyperion/calibration/unsup_gauss_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/calibration/unsup_gauss_calibration.py b/hyperion/calibration/unsup_gauss_calibration.py
index 1c8ccac..2398248 100644
--- a/hyperion/calibration/unsup_gauss_calibration.py
+++ b/hyperion/calibration/unsup_gauss_calibration.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 import sys
 import numpy as np
 
-from ..pdfs.mixtures.diag_gmm_tiedcovs import DiagGMMTiedCovs as GMM
+from ..pdfs.mixtures import GMMTiedDiagCov as GMM
 from .gauss_calibration import GaussCalibration
 
 class UnsupGaussCalibration(GaussCalibration):
@@ -34,7 +34,7 @@ class UnsupGaussCalibration(GaussCalibration):
         else:
             mu1 = np.max(x, axis=0, keepdims=True)
             mu2 = np.mean(x, axis=0, keepdims=True)
-            sigma2 = np.std(x, axis=0, keepdims=True)**2
+            sigma2 = np.std(x, axis=0)**2
             pi = np.array([self.init_prior, 1-self.init_prior])
 
         mu = np.vstack((mu1, mu2))
-- 
2.43.0


From 04b3be2a3e9bf3e1eb0d422eb8ca769b83bc0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 109/270] fix: mixtures can be initialised when K-means finds
 clusters with few points

---
 hyperion/pdfs/mixtures/gmm.py          | 10 ++++++++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  9 ++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 33b27a1..ff22997 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -127,12 +127,18 @@ class GMM(ExpFamilyMixture):
         self.Lambda = np.zeros((self.num_comp, self.x_dim, self.x_dim),
                                dtype=float_cpu())
 
+        S = np.zeros_like(self.Lambda)
         for k in xrange(num_comp):
             r = cluster_index==k
             self.pi[k] = np.sum(r)/x.shape[0]
             delta = x[r] - self.mu[k]
-            S = np.dot(delta.T, delta)/np.sum(r)
-            self.Lambda[k] = invert_pdmat(S, return_inv=True)[-1]
+            S[k] = np.dot(delta.T, delta)/np.sum(r)
+
+        # clusters with few points have singular covariance
+        cholfloor = la.cholesky(self.var_floor*np.mean(S, axis=0))
+        for k in xrange(num_comp):
+            S_k = fullcov_varfloor(S[k], cholfloor, F_is_chol=True)
+            self.Lambda[k] = invert_pdmat(S_k, return_inv=True)[-1]
 
             
     
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index fb9e533..dc94e3c 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -108,12 +108,15 @@ class GMMDiagCov(ExpFamilyMixture):
 
         self.mu = kmeans.mu
         self.pi = np.zeros((self.num_comp,), dtype=float_cpu())
-        self.Lambda = np.zeros((self.num_comp, x.shape[-1]),
-                               dtype=float_cpu())
+        S = np.zeros((self.num_comp, x.shape[-1]), dtype=float_cpu())
         for k in xrange(num_comp):
             r=cluster_index==k
             self.pi[k] = np.sum(r)/x.shape[0]
-            self.Lambda[k] = 1/np.std(x[r], axis=0)**2
+            S[k] = np.std(x[r], axis=0)**2
+
+        # clusters with few points have too small or zero variance
+        S = np.maximum(S, self.var_floor*np.mean(S, axis=0))
+        self.Lambda = 1/S
 
             
     
-- 
2.43.0


From a777e98cf2329dada0158a6a579376855e5f19cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 110/270] fix: score normalisers can be constructed and use
 their options

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..0448449 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..e3f7b05 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 625267fb51efb87f209814890f457f4dbdf7b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 111/270] fix: ZTNorm uses the mask of the cohort scores

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e3f7b05..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From ebc5f4c1ee27735be997c1956ff5bba486f92ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 112/270] fix: score normalisers do not modify the cohort
 scores of the caller

---
 hyperion/score_norm/adapt_s_norm.py | 4 ++--
 hyperion/score_norm/t_norm.py       | 2 +-
 hyperion/score_norm/z_norm.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 0448449..35a7ef8 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,9 +34,9 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            scores_coh_test = np.where(mask_coh_test == False, 0, scores_coh_test)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            scores_enr_coh = np.where(mask_enr_coh == False, 0, scores_enr_coh)
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..2e8e060 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,7 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask==False, 0, scores_coh_test)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
             s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..817b759 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,7 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask==False, 0, scores_enr_coh)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
             s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
-- 
2.43.0


From 7f5c2ede8149118d1cf409b3780f30fa28b770eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 113/270] fix: masked score normalisation is numerically stable

---
 hyperion/score_norm/adapt_s_norm.py | 10 ++++++----
 hyperion/score_norm/t_norm.py       |  3 ++-
 hyperion/score_norm/z_norm.py       |  3 ++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 35a7ef8..643d850 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -53,8 +53,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                delta = np.where(mask_enr_coh[:, best_idx_i] == False, 0,
+                                 scores_enr_coh[:, best_idx_i] - mu_z)
+                s_z = np.sqrt(np.mean(delta**2, axis=1, keepdims=True)/norm)
 
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
@@ -74,8 +75,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                delta = np.where(mask_coh_test[best_idx_i,:] == False, 0,
+                                 scores_coh_test[best_idx_i,:] - mu_z)
+                s_z = np.sqrt(np.mean(delta**2, axis=0, keepdims=True)/norm)
 
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 2e8e060..131dac1 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -24,7 +24,8 @@ class TNorm(ScoreNorm):
             scores_coh_test = np.where(mask==False, 0, scores_coh_test)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s_t = np.sqrt(np.mean(np.where(mask==False, 0, scores_coh_test - mu_t)**2,
+                                  axis=0, keepdims=True)/n_t)
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index 817b759..222e9ee 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -25,7 +25,8 @@ class ZNorm(ScoreNorm):
             scores_enr_coh = np.where(mask==False, 0, scores_enr_coh)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s_z = np.sqrt(np.mean(np.where(mask==False, 0, scores_enr_coh - mu_z)**2,
+                                  axis=1, keepdims=True)/n_z)
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From 9cc888a5bc1e0e347983e2b62e428693ce901717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 114/270] fix: AdaptSNorm floors the standard deviation like
 the other normalisers

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 643d850..87dd5e8 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -57,6 +57,7 @@ class AdaptSNorm(ScoreNorm):
                                  scores_enr_coh[:, best_idx_i] - mu_z)
                 s_z = np.sqrt(np.mean(delta**2, axis=1, keepdims=True)/norm)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -79,6 +80,7 @@ class AdaptSNorm(ScoreNorm):
                                  scores_coh_test[best_idx_i,:] - mu_z)
                 s_z = np.sqrt(np.mean(delta**2, axis=0, keepdims=True)/norm)
 
+            s_z[s_z<self.std_floor] = self.std_floor
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 0c65e10d2fae20de43d5335c9f2c7c95ae5f7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 115/270] fix: AdaptSNorm does not select cohort scores that
 are masked out as if they were zero

---
 hyperion/score_norm/adapt_s_norm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 87dd5e8..419bfcc 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -33,12 +33,17 @@ class AdaptSNorm(ScoreNorm):
         else:
             nbest = self.nbest
 
+        # cohort scores that are masked out are the last ones to be selected
+        rank_coh_test = scores_coh_test
+        rank_enr_coh = scores_enr_coh
         if mask_coh_test is not None:
+            rank_coh_test = np.where(mask_coh_test == False, -np.inf, scores_coh_test)
             scores_coh_test = np.where(mask_coh_test == False, 0, scores_coh_test)
         if mask_enr_coh is not None:
+            rank_enr_coh = np.where(mask_enr_coh == False, -np.inf, scores_enr_coh)
             scores_enr_coh = np.where(mask_enr_coh == False, 0, scores_enr_coh)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.flipud(np.argsort(rank_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
@@ -61,7 +66,7 @@ class AdaptSNorm(ScoreNorm):
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        best_idx = np.fliplr(np.argsort(rank_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
-- 
2.43.0


From 5c5aa6459f33c62cdfd2b928ccd5aebe12d56544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 116/270] fix: AHC.compute_flat_clusters and
 evaluate_impurity_det run, and relabel each partition separately

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From 9309b6e01d9dd4ad1283839fe9ec41d61f100cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 117/270] fix: AHC merges the masked-out pairs last when the
 input is a distance

---
 hyperion/clustering/ahc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 5d7a165..1be4e81 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -32,7 +32,10 @@ class AHC(HypModel):
 
         if mask is not None:
             x = copy(x)
-            x[mask==False] = -1e10
+            if self.metric == 'llr' or self.metric == 'prob':
+                x[mask==False] = -1e10
+            else:
+                x[mask==False] = 1e10
 
         idx = np.triu(np.ones_like(x, dtype=bool), k=1)
         scores = x[idx]
-- 
2.43.0


From 0413ef257b0c7127abbdfbf3796f3178559d73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 118/270] fix: AHC.fit discards the partitions computed for the
 previous data

---
 hyperion/clustering/ahc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 1be4e81..6bd2bb4 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -51,6 +51,7 @@ class AHC(HypModel):
             self.Z[:, 2] = 1 - self.Z[:, 2]
         else:
             self.Z = linkage(scores, method=self.method, metric=self.metric)
+        self.flat_clusters = None
         
 
 
-- 
2.43.0


From 34b4a72318768aa1bc8cae94496c5d4ab931541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 119/270] fix: VectorReader.filter_args selects the vlist_sep
 option

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 7a83ff68f1f3e00e957c839876f7f941b95f3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 120/270] fix: trial data readers split the trial list that
 they loaded

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/tracking_data_reader.py         | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 47db46f..620027e 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -38,7 +38,7 @@ class TrackingDataReader(object):
 
         segments = ExtSegmentList.load(segments_file)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             segments = segments.filter(ndx.seg_set)
         
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 4cb748754ca9efb314e6cd06f2d86dd7bf5b28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 121/270] fix: TrialNdx.parse_eval_set takes the cohort
 segments from the keys of the test list

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From 648f7ba3cc8c35318b3ef78fda8d761e74d234b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 122/270] fix: PLDAFactory.filter_train_args translates the
 negative options

---
 hyperion/helpers/plda_factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..0d346e9 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,9 +65,10 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+        for a,b in zip(neg_args1, neg_args2):
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From e0f4fff36785ab76f00e20c857dd8597f4018d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 123/270] fix: PLDA option diag-W requests a diagonal W

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 0d346e9..3d05efe 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -96,7 +96,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From 044311969c89184aad7dc1305249333d9bd083d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 124/270] fix: PLDA options of filter_eval_args and md-epochs
 honour the optional prefix

---
 hyperion/helpers/plda_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 3d05efe..7363517 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -130,7 +130,7 @@ class PLDAFactory(object):
                             choices=['ml+md', 'ml', 'md'],
                             help=('optimization type'))
 
-        parser.add_argument('--md-epochs', dest='md_epochs', default=None,
+        parser.add_argument(p1+'md-epochs', dest=(p2+'md_epochs'), default=None,
                             type=int, nargs = '+',
                             help=('epochs in which we do MD, if None we do it in all the epochs'))
 
@@ -141,7 +141,7 @@ class PLDAFactory(object):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
-- 
2.43.0


From b22583140d70f97a43ef7a49369c44d4d60f6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 125/270] fix: VectorClassReader reserves room for every
 sub-class when splitting classes

---
 hyperion/helpers/vector_class_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..2aa12bf 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,8 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        max_subclasses = np.ceil(np.maximum(num_spc - max_spc, 0)/shift + 1)
+        new_indx = np.zeros(max_spc*int(np.sum(max_subclasses)), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From 4d67e0cb62fcad70c0e48909867ad180ec010e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 126/270] fix: csplit-mode offers the name of the implemented
 mode random_1part

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 2aa12bf..af44100 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -253,7 +253,7 @@ class VectorClassReader(object):
 
         parser.add_argument(p1+'csplit-mode', dest=(p2+'csplit_mode'), 
                             default='random', type=str.lower,
-                            choices = ['sequential', 'random', 'random_1subclass'],
+                            choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
         parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
                             default=0, help=('overlap between subclasses'))
-- 
2.43.0


From 0561ddf1f8eb6c54e23debddd2c7136f97ccaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 127/270] fix: command line options of class splitting have
 usable types and defaults

---
 hyperion/helpers/vector_class_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index af44100..140c9f0 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -244,7 +244,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -255,7 +255,7 @@ class VectorClassReader(object):
                             default='random', type=str.lower,
                             choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From 35466bee2b24fb89822fe9f271274c94b77f9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 128/270] fix: SequenceReader reads the sequences of exactly
 the minimum length that it counts

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..8252921 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From 52bf20c94af403317366f61ce8ee31bd1f2b56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 129/270] fix: SequenceReader looks for the next subsequences
 over the whole list

---
 hyperion/helpers/sequence_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 8252921..c1432ad 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -210,7 +210,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -274,7 +274,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 43198c4536afa5a720a55fdda858cf8020fb2f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 130/270] fix: SequencePostReader selects sequences and
 subsequences like SequenceReader

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..c2a2e0f 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From fae798b374cae64fcca02c9a5ff8d93487bb9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 131/270] fix: min-seq-length option of SequenceReader has the
 default of the constructor

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index c1432ad..b7fde48 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -343,7 +343,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From bb465926475148b35aa42f8bfc3fb5b86cf5c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 132/270] fix: SequenceBatchGeneratorV1 keeps the lengths of
 the remaining utterances after pruning and class balancing

---
 hyperion/generators/sequence_batch_generator_v1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..c4d801e 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._init_seq_lengths = self._seq_lengths[keep_idx]
+        self._seq_lengths = self._init_seq_lengths
 
 
         
@@ -205,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
-- 
2.43.0


From a401fa667374965c43fc9ae58cedf286e15e87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:34 +0000
Subject: [PATCH 133/270] fix: SequenceBatchGeneratorV1 splits the list in
 parts

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index c4d801e..4ce76cd 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From 3ce707d2cf8ca504168ef9b15030d62fc2625f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 134/270] fix: batch generators seed each epoch with its own
 number

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 4ce76cd..3e12f0b 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -293,8 +293,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..19544b8 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From bc8365a7d3eff5110473c0f133ee66c4d0447f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 135/270] fix: sequential batches stay inside the utterances
 shorter than the minimum length

---
 hyperion/generators/sequence_batch_generator_v1.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 3e12f0b..cb49ce9 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -367,6 +367,7 @@ class SequenceBatchGeneratorV1(object):
             first_frame = self.cur_frame[self.cur_seq]
             full_seq_length = self.seq_lengths[self.cur_seq]
             remainder_seq_length =  full_seq_length - first_frame
+            min_length = min(full_seq_length, self.min_seq_length)
             if self.cur_subseq[self.cur_seq] == self.num_subseqs[self.cur_seq]:
                 self.cur_seq = (self.cur_seq + 1) % self.num_seqs
                 continue
@@ -375,13 +376,13 @@ class SequenceBatchGeneratorV1(object):
                 self.cur_frame[self.cur_seq] = 0
             else:
                 max_seq_length = min(
-                    max(self.min_seq_length,
-                        remainder_seq_length-self.min_seq_length),
+                    max(min_length,
+                        remainder_seq_length-min_length),
                     self.max_seq_length)
-                min_seq_length = min(remainder_seq_length, self.min_seq_length)
+                min_seq_length = min(remainder_seq_length, min_length)
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
                 self.cur_frame[self.cur_seq] = min(
-                    full_seq_length - self.min_seq_length,
+                    full_seq_length - min_length,
                     first_frame + seq_length - self.seq_overlap)
             
             keys.append(key)
-- 
2.43.0


From 55bed2919e02b95f5b67734ab31587b3ece59d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 136/270] fix: unbalanced sequential batches start a new pass
 through the list when it is exhausted

---
 hyperion/generators/sequence_batch_generator_v1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index cb49ce9..e537bfa 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -363,6 +363,9 @@ class SequenceBatchGeneratorV1(object):
         first_frames = []
         count = 0
         while count < self.batch_size:
+            if np.all(self.cur_subseq == self.num_subseqs):
+                # every sub-sequence has been read, new pass through the list
+                self.cur_subseq[:] = 0
             key = self.u2c.key[self.cur_seq]
             first_frame = self.cur_frame[self.cur_seq]
             full_seq_length = self.seq_lengths[self.cur_seq]
-- 
2.43.0


From a3e73b47351d718707300cc8cc6f72cfca786a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 137/270] fix: SequenceBatchGeneratorV2 returns the one-hot
 utterance labels

---
 hyperion/generators/sequence_batch_generator_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 19544b8..777c3b5 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -243,8 +243,8 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            _, utt_ids = np.unique(utt_idx[:len(keys)], return_inverse=True)
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From 5511be71fe6407e59d54aa781a2f40216b4831ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 138/270] fix: SequenceReader counts no negative number of
 subsequences in sequences shorter than the overlap

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index b7fde48..c7cd3b3 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -97,7 +97,7 @@ class SequenceReader(object):
                 num_subseqs = (seq_length >= self.min_seq_length).astype(int)
             else:
                 shift = self.max_seq_length - self.seq_split_overlap
-                num_subseqs = (np.floor((seq_length-self.seq_split_overlap)/shift)).astype(int)
+                num_subseqs = (np.floor(np.maximum(seq_length-self.seq_split_overlap, 0)/shift)).astype(int)
                 remainder = seq_length - num_subseqs*shift
                 num_subseqs += (remainder >= self.min_seq_length).astype(int)
             self._num_subseqs = num_subseqs
-- 
2.43.0


From 3b41d2b078f1730c1ed3cd12d6f736121beac7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 139/270] fix: script files with any field separator can be
 opened through a read specifier

---
 hyperion/io/rw_specifiers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index d868f36..f66ba00 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -9,6 +9,7 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import re
 from enum import Enum
 
 class ArchiveType(Enum):
@@ -339,11 +340,12 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
-                    if len(scp) == 1:
-                        archive_type = ArchiveType.H5
-                    else:
+                    # the entries of ark scripts end with :offset or :offset[range],
+                    # whatever the field separator is
+                    if re.search(r':[0-9]+(\[[^\]]*\])?\s*$', f.readline()):
                         archive_type = ArchiveType.ARK
+                    else:
+                        archive_type = ArchiveType.H5
                 
             if archive_type == ArchiveType.ARK:
                 for option in options:
-- 
2.43.0


From a129077b5133a2b663094c227f80110ec0e70af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 140/270] fix: batches of whole sequences that wrap around the
 end of the list

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index e537bfa..1a7c216 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -322,7 +322,7 @@ class SequenceBatchGeneratorV1(object):
         
         if len(keys) < self.batch_size:
             delta = self.batch_size - len(keys)
-            keys += self.u2c.key[:delta]
+            keys += list(self.u2c.key[:delta])
             self.cur_seq = delta
             assert len(keys) == self.batch_size
 
-- 
2.43.0


From 1dcef68aad78c3e7418de0874d6edaa8679b641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 141/270] fix: SequenceBatchGeneratorV2 does not print the
 utterance lengths

---
 hyperion/generators/sequence_batch_generator_v2.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 777c3b5..7d8c5e4 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -195,10 +195,8 @@ class SequenceBatchGeneratorV2(object):
 
 
     def _compute_iters_auto(self):
-        print(self.seq_lengths)
         avg_total_length = np.mean(self.seq_lengths)
         avg_seq_length = int((self.max_seq_length + self.min_seq_length)/2)
-        print(avg_total_length,avg_seq_length)
         self.iters_per_epoch = np.ceil(avg_total_length/avg_seq_length)
         logging.debug('num iters per epoch: %d' % self.iters_per_epoch)
     
-- 
2.43.0


From 6f48238aacd14cbeb040eab6477da31acb7f757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 142/270] fix: sequential sub-sequences of utterances shorter
 than the overlap start at frame 0

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 1a7c216..689c7c5 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -386,7 +386,7 @@ class SequenceBatchGeneratorV1(object):
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
                 self.cur_frame[self.cur_seq] = min(
                     full_seq_length - min_length,
-                    first_frame + seq_length - self.seq_overlap)
+                    max(0, first_frame + seq_length - self.seq_overlap))
             
             keys.append(key)
             seq_lengths.append(seq_length)
-- 
2.43.0


From c88f1f8577c915e301ed83e0b62bd7c7cf179f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 143/270] fix: audio readers accept SegmentList objects

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..91718a0 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
-- 
2.43.0


From 4ad24f62fc4244f1d57ccea0ea8477f58daf8049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 144/270] fix: sequential audio reader reads all the segments
 by default

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 91718a0..0aeece3 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -220,7 +220,7 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            num_records = (len(self.segments) if self.with_segments else len(self.scp)) - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From 8f3243cc23c4a83877c0204f15f6f70ca10654ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 145/270] fix: message of the error for audio segments out of
 the file

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 0aeece3..914db77 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -131,7 +131,7 @@ class AudioReader(object):
         s_beg = int(t_beg * fs_i)
         if s_beg >= num_samples_i:
             raise Exception('segment %s tbeg=%.2f (num_sample=%d) longer that wav file %s (num_samples=%d)' % (
-                key, tbeg, sbeg, file_id, num_samples_i))
+                segment['segment_id'], t_beg, s_beg, file_id, num_samples_i))
 
         s_end = int(t_end * fs_i)
         if s_end > num_samples_i or t_end < 0:
-- 
2.43.0


From 6668a78c742a465d6a141a896eb6c6c6f6861474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 146/270] fix: w64 audio files

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 914db77..24f31f3 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -20,7 +20,7 @@ from ..hyp_defs import float_cpu
 from ..utils import SCPList, SegmentList
 
 
-valid_ext = ['.wav', '.flac', '.ogg' , '.au', '.avr', '.caf', '.htk', '.iff', '.mat', '.mpc', '.oga', '.pvf', '.rf64', '.sd2', '.sds', '.sf', '.voc', 'w64', '.wve', '.xi']
+valid_ext = ['.wav', '.flac', '.ogg' , '.au', '.avr', '.caf', '.htk', '.iff', '.mat', '.mpc', '.oga', '.pvf', '.rf64', '.sd2', '.sds', '.sf', '.voc', '.w64', '.wve', '.xi']
 
 class AudioReader(object):
     """Class to read audio files from wav, flac or pipe
-- 
2.43.0


From bd0198a81bfd786e7b7d035bcc2c4538598045a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 147/270] fix: wav_scale argument of the audio reader reaches
 the reader

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index 24f31f3..c6d2a28 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -251,7 +251,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('wav_scale', 'part_idx', 'num_parts')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From ce777fecfeb06e5d057e0376a61e38abfdd1e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 148/270] fix: write audio in 8 and 24 bit formats, with data
 types supported by soundfile

---
 hyperion/io/audio_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/audio_writer.py b/hyperion/io/audio_writer.py
index decef14..2677dee 100644
--- a/hyperion/io/audio_writer.py
+++ b/hyperion/io/audio_writer.py
@@ -23,8 +23,8 @@ subtype_to_npdtype = {'PCM_32': 'int32', 'ALAW': 'int16',
                       'IMA_ADPCM': 'int16', 'FLOAT': 'float32',
                       'PCM_16': 'int16', 'DOUBLE': 'float64',
                       'MS_ADPCM': 'int16', 'ULAW': 'int16',
-                      'PCM_U8': 'uint8', 'PCM_S8': 'int8', 'VORBIS': 'float32', 
-                      'GSM610': 'int16', 'G721_32': 'int16', 'PCM_24': 'int24'}
+                      'PCM_U8': 'int16', 'PCM_S8': 'int16', 'VORBIS': 'float32', 
+                      'GSM610': 'int16', 'G721_32': 'int16', 'PCM_24': 'int32'}
 
 class AudioWriter(object):
     """Abstract base class to write audio files.
-- 
2.43.0


From 21d66ff19d26a1d6aacb7bcf7f476c1f87eb76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 149/270] fix: merge hdf5 files without datasets

---
 hyperion/io/h5_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/h5_merger.py b/hyperion/io/h5_merger.py
index cb491fe..6013bc9 100644
--- a/hyperion/io/h5_merger.py
+++ b/hyperion/io/h5_merger.py
@@ -33,7 +33,7 @@ class H5Merger(object):
         hr = HR(input_file)
         datasets = hr.get_datasets()
         if self.chunk_size is None:
-            chunk = len(datasets)
+            chunk = max(1, len(datasets))
         else:
             chunk = self.chunk_size
         
-- 
2.43.0


From f7f3a6754d531cffcfa67fa995106b5cfd2b3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 150/270] fix: Sequential script readers go back to the start
 of an open archive for entries with offset 0

---
 hyperion/io/ark_data_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 4b46109..2077293 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -72,6 +72,8 @@ class SequentialArkDataReader(SequentialDataReader):
             self.close()
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
+        elif offset == 0:
+            self._seek(offset)
 
         if offset > 0:
             self._seek(offset)
-- 
2.43.0


From 1cff4e889a042d75bd9b7ac5c2aa5448718699a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 151/270] fix: centering/whitening and PCA take false for
 --update-mu and --update-t

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5985827..afac64a 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 class CentWhiten(HypModel):
@@ -134,11 +135,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 7968a41..57584dc 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 
@@ -129,10 +130,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From 0cefa6c2f494bdf6fca17429f707322df4d42588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 152/270] fix: the name option of the transforms follows the
 prefix

---
 hyperion/transforms/cent_whiten.py  | 2 +-
 hyperion/transforms/gaussianizer.py | 2 +-
 hyperion/transforms/pca.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index afac64a..af16d16 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -142,4 +142,4 @@ class CentWhiten(HypModel):
                             type=str2bool,
                             help=('updates whitening parameter'))
 
-        parser.add_argument('--name', dest='name', default='lnorm')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='lnorm')
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 58ed0c3..b7e5048 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -120,4 +120,4 @@ class Gaussianizer(HypModel):
                             type=int,
                             help=('maximum number of background vectors'))
 
-        parser.add_argument('--name', dest='name', default='gauss')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='gauss')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 57584dc..942e1d0 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -139,4 +139,4 @@ class PCA(HypModel):
                             type=int,
                             help=('output dimension of PCA'))
 
-        parser.add_argument('--name', dest='name', default='pca')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='pca')
-- 
2.43.0


From 47e8c43e66cc7866f871440a8be1e4b92ff4a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:40 +0000
Subject: [PATCH 153/270] fix: the compression options of the writers follow
 the prefix

---
 hyperion/io/copy_feats.py      | 4 ++--
 hyperion/io/data_rw_factory.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index d76369f..090a016 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -130,6 +130,6 @@ class CopyFeats(object):
         parser.add_argument(p1+'num-parts', dest=(p2+'num_parts'), type=int, default=1,
                             help=('splits the list of files in num-parts and process part_idx'))
 
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..805f8a2 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
-- 
2.43.0


From 734db9500bffa720c5d42d9950b66ec67f6bfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 154/270] fix: CopyFeats.filter_args keeps the compression
 options

---
 hyperion/io/copy_feats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index 090a016..8e045e8 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -97,7 +97,8 @@ class CopyFeats(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts')
+        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts',
+                      'compress', 'compression_method')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 30ecc6c2471e0d3e834b6c4b939accbd2079c733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 155/270] fix: MeanVarianceNorm.filter_args takes dictionaries
 without no_norm_mean

---
 hyperion/feats/feature_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index c78dde5..dfbd2e4 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -230,8 +230,9 @@ class MeanVarianceNorm(object):
         neg_args2 = ('norm_mean',)
 
         for a,b in zip(neg_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From 33c7bbecbf29ae4012cbe19e647db7b3e000f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 156/270] fix: SequencePostReader.add_argparse_eval_args adds
 num-comp without prefix too

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index c2a2e0f..d963756 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -302,9 +302,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0


From 38f7361b1f9f37dbe7204d862bbfdc9da6756021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 157/270] fix: SequenceReader keeps the subsample that it is
 given

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index c7cd3b3..dd6208f 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -43,7 +43,7 @@ class SequenceReader(object):
         self.field = seq_field
         self.batch_size = batch_size
         self.shuffle_seqs = shuffle_seqs
-        self.subsample = 100
+        self.subsample = subsample
         self.min_seq_length = min_seq_length
         self.max_seq_length = max_seq_length
         self.seq_split_mode = seq_split_mode
-- 
2.43.0


From 59ebd5f1f84ea10725d9546bc44b96ede4d271cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 158/270] fix: seq-split-overlap is a number of frames

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index dd6208f..0dc3dca 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -357,7 +357,7 @@ class SequenceReader(object):
                                        'random_slice_1seq', 'random_samples_1seq'],
                             help=('seq splitting mode'))
         parser.add_argument(p1+'seq-split-overlap', dest=(p2+'seq_split_overlap'),
-                            type=float,
+                            type=int,
                             default=0, help=('overlap between subsequences'))
         parser.add_argument(p1+'seqr-seed', dest=(p2+'seqr_seed'), type=int,
                             default=1024, help=('seed for rng in sequence reader'))
-- 
2.43.0


From c8dbf0f97e0a61a1a4c74f25f0a43ba0481c4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 159/270] fix: programs with two docstrings before their
 __future__ imports start again

---
 hyperion/bin/ark2hyp.py                              | 3 +--
 hyperion/bin/arkvad2nist.py                          | 3 +--
 hyperion/bin/compute-gmm-post.py                     | 3 +--
 hyperion/bin/eval-2class-performance.py              | 3 +--
 hyperion/bin/eval-cos-1vs1.py                        | 3 +--
 hyperion/bin/eval-elbo-ubm.py                        | 3 +--
 hyperion/bin/eval-linear-gbe-up.py                   | 3 +--
 hyperion/bin/eval-linear-gbe.py                      | 3 +--
 hyperion/bin/eval-linear-svmc.py                     | 3 +--
 hyperion/bin/eval-logistic-regression.py             | 3 +--
 hyperion/bin/eval-plda-1vs1.py                       | 3 +--
 hyperion/bin/eval-plda-nvs1.py                       | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py              | 3 +--
 hyperion/bin/eval-score-norm.py                      | 3 +--
 hyperion/bin/h5vad2nist.py                           | 3 +--
 hyperion/bin/init-ubm.py                             | 2 --
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 hyperion/bin/merge-h5-files.py                       | 3 +--
 hyperion/bin/plot-vector-hist.py                     | 3 +--
 hyperion/bin/plot-vector-tsne.py                     | 3 +--
 hyperion/bin/train-cw-up.py                          | 3 +--
 hyperion/bin/train-cw.py                             | 3 +--
 hyperion/bin/train-gaussianizer.py                   | 3 +--
 hyperion/bin/train-lda.py                            | 3 +--
 hyperion/bin/train-linear-gbe-up.py                  | 3 +--
 hyperion/bin/train-linear-gbe.py                     | 3 +--
 hyperion/bin/train-linear-svmc.py                    | 3 +--
 hyperion/bin/train-logistic-regression.py            | 3 +--
 hyperion/bin/train-mvn.py                            | 3 +--
 hyperion/bin/train-nda.py                            | 3 +--
 hyperion/bin/train-pca.py                            | 3 +--
 hyperion/bin/train-plda.py                           | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py             | 3 +--
 60 files changed, 59 insertions(+), 120 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..2186efd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..aea9ef6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..5da9200 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..c54ec4f 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..f0e51cf 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..5e0a2a6 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..3b75603 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From 51a3503393134817bdd22d8a762db083036d37df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 160/270] fix: eval-2class-performance writes in the current
 directory

---
 hyperion/bin/eval-2class-performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index aea9ef6..a78fee6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -29,7 +29,7 @@ def eval_2class_performance(score_file, key_file, output_path):
     key = TrialKey.load(key_file)
 
     output_dir = os.path.dirname(output_path)
-    if not(os.path.isdir(output_dir)):
+    if output_dir != '' and not(os.path.isdir(output_dir)):
         os.makedirs(output_dir, exist_ok=True)
     
     tar, non = scr.get_tar_non(key)
-- 
2.43.0


From 4116fe612cb1732a79692f46b7e022095547ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 161/270] fix: eval-plda-nvs1 loads the model of the type given

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 5da9200..8efece9 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -28,7 +28,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, plda_type, pool_method, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From ab5e30bfd51d4a541a02397a91b5f68b7ea39d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 162/270] fix: train-cw starts from the transform of the input
 path

---
 hyperion/bin/train-cw-up.py | 2 +-
 hyperion/bin/train-cw.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index d66976f..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 9128e20..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From b4b8dce3f4b4ecafb5c4799147769a00e12850f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 163/270] fix: train-lda has the verbose option that it uses

---
 hyperion/bin/train-lda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..584b3e4 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,8 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
+
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 59fb29497e5c3343d4ad15a3729d3763837adbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 164/270] fix: train-gaussianizer finds the transform of its
 name in the input list

---
 hyperion/bin/train-gaussianizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..c83848c 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -24,10 +24,10 @@ from hyperion.pdfs.core import Normal
 from hyperion.transforms import TransformList, Gaussianizer
 
 
-def load_model(input_path, **kwargs):
+def load_model(input_path, name, **kwargs):
 
     if input_path is None:
-        return Gaussianizer(**kwargs)
+        return Gaussianizer(name=name, **kwargs)
 
     try:
         return Gaussianizer.load(input_path)
-- 
2.43.0


From 1ef8ee499a4dbea4501488964f0f4520007089b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 165/270] fix: compute-energy-vad uses the names that it
 defines

---
 hyperion/bin/compute-energy-vad.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..40fa527 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -19,12 +19,12 @@ from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
 #from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats.energy_vad import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -56,7 +56,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From 17a1480d373c967bfde7ca3d13d8316405f95a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 166/270] fix: the converters of VAD to NIST format put the
 boundaries at the first frame of each interval

---
 hyperion/bin/arkvad2nist.py | 2 +-
 hyperion/bin/h5vad2nist.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 2186efd..664bbcd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -22,7 +22,7 @@ from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
     delta = np.abs(np.diff(vad))
-    change_points = np.where(delta>0)[0]
+    change_points = np.where(delta>0)[0] + 1
     num_interv = len(change_points)+1
     if vad[0] == 1:
         speech = True
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index f0e51cf..6c64329 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataReader
 
 def bin2intervals(vad):
     delta = np.abs(np.diff(vad))
-    change_points = np.where(delta>0)[0]
+    change_points = np.where(delta>0)[0] + 1
     num_interv = len(change_points)+1
     if vad[0] == 1:
         speech = True
-- 
2.43.0


From b4e6da74a7c613008f47003203782da80b48ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 167/270] fix: rttm-to-bin-vad and segments-to-bin-vad work
 without the numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..0d7eb03 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -41,10 +41,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..47a7d23 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -39,7 +39,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From d56b4bc677c306d8a6336c45537958ddce99ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 168/270] fix: eval-score-norm runs

---
 hyperion/bin/eval-score-norm.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index c54ec4f..7d23171 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -33,13 +33,13 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
@@ -52,24 +52,24 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
+def score_norm(score_file, output_file, norm_type,
                enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
                adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -78,17 +78,18 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
-        norm = SNorm()
+    if norm_type == 's-norm':
+        assert scores_enr_coh is not None and scores_coh_test is not None
+        if adapt_coh is None:
+            norm = SNorm()
+        else:
+            norm = AdaptSNorm(nbest=adapt_coh)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
@@ -114,6 +115,6 @@ if __name__ == "__main__":
     del args.verbose
     logging.debug(args)
     
-    eval_score_norm(**vars(args))
+    score_norm(**vars(args))
 
     
-- 
2.43.0


From f376644235aa53cf8772747741f48ccc7ba313f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 169/270] fix: the plotting programs make their output
 directory

---
 hyperion/bin/plot-vector-hist.py | 4 ++--
 hyperion/bin/plot-vector-tsne.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 981d315..5915a21 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -42,13 +42,13 @@ def plot_vector_hist(iv_file, v_list, preproc_file, output_path, num_bins, norme
     t1 = time.time()
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     for i in xrange(x.shape[1]):
         
         fig_file = '%s/D%04d.pdf' % (output_path, i)
         
-        plt.hist(x[:,i], num_bins, normed=normed)
+        plt.hist(x[:,i], num_bins, density=normed)
         plt.xlabel('Dim %d' % i)
         plt.grid(True)
         plt.show()
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 63bd0ab..8fb5a5a 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -56,7 +56,7 @@ def plot_vector_tsne(iv_file, v_list, preproc_file,
         x = pca.predict(x)
 
     if not os.path.exists(output_path):
-        os.makedirs(ouput_path)
+        os.makedirs(output_path)
 
     tsne_obj = lambda n: TSNE(
         n_components=n,
@@ -75,7 +75,7 @@ def plot_vector_tsne(iv_file, v_list, preproc_file,
         y = tsne.fit_transform(x)
 
         if save_embed:
-            h5_file = '%s/embed_%dd.h5' % (output_path, ouput_dim)
+            h5_file = '%s/embed_%dd.h5' % (output_path, output_dim)
             hw = DWF.create(h5_file)
             hw.write(vcr.u2c.key, y)
 
-- 
2.43.0


From 9843891c5a85da54c0a137978f2934c2ea37485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 170/270] fix: compute-gmm-post runs without keras and takes
 the number of components

---
 hyperion/bin/compute-gmm-post.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 1720b37..5675d70 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -18,8 +18,6 @@ import logging
 
 import numpy as np
 
-from keras import backend as K
-
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.io import HypDataWriter
 from hyperion.helpers import SequenceReader as SR
@@ -74,10 +72,10 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-            logging.degug(np.sort(r[0,:])[-12:])
-            logging.degug(np.sort(r2[0,:])[-12:])
-            logging.degug(np.argsort(r[0,:])[-12:])
-            logging.degug(np.argsort(r2[0,:])[-12:])
+            logging.debug(np.sort(r[0,:])[-12:])
+            logging.debug(np.sort(r2[0,:])[-12:])
+            logging.debug(np.argsort(r[0,:])[-12:])
+            logging.debug(np.argsort(r2[0,:])[-12:])
 
         hw.write([key], '.r', [r_s])
         hw.write([key], '.index', [index])
@@ -98,7 +96,7 @@ if __name__ == "__main__":
     parser.add_argument('--preproc-file', dest='preproc_file', default=None)
     parser.add_argument('--model-file', dest='model_file', required=True)
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=10)
+    parser.add_argument('--num-comp', dest='num_comp', type=int, default=10)
 
     SR.add_argparse_eval_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
-- 
2.43.0


From ae7a80c100d94972dadd28b5dc273cbaf255a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 171/270] fix: arkvad2nist imports the logger that it
 configures

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 664bbcd..a5559b5 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,6 +18,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From da795bcc3e90a0882a90126e7ad7a39f9dd51bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 172/270] fix: the transforms export NSbSw for train-nda

---
 hyperion/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/__init__.py b/hyperion/transforms/__init__.py
index d38753d..3cc1260 100644
--- a/hyperion/transforms/__init__.py
+++ b/hyperion/transforms/__init__.py
@@ -6,7 +6,7 @@ from __future__ import absolute_import
 
 from .cent_whiten import CentWhiten
 from .lnorm import LNorm
-from .sb_sw import SbSw
+from .sb_sw import SbSw, NSbSw
 from .pca import PCA
 from .lda import LDA
 from .nda import NDA
-- 
2.43.0


From bb4b1abc4467fe140e5699c344038df12860eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 173/270] fix: train-linear-svmc and train-logistic-regression
 start: their verbose option overrides that of the classifier

---
 hyperion/bin/train-linear-svmc.py         | 1 +
 hyperion/bin/train-logistic-regression.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index b849fd0..40572f0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -52,6 +52,7 @@ if __name__ == "__main__":
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
         fromfile_prefix_chars='@',
+        conflict_handler='resolve',
         description='Train linear SVM classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 61fecd4..d9355a9 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -52,6 +52,7 @@ if __name__ == "__main__":
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
         fromfile_prefix_chars='@',
+        conflict_handler='resolve',
         description='Train linear logistic regression classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
-- 
2.43.0


From f554b225dd5fb74a792c7abaef12b8826d6cf628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 174/270] fix: train-nda evaluates the scatter with the number
 of neighbours given

---
 hyperion/bin/train-nda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 157e7f3..518b794 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -49,7 +49,7 @@ def train_nda(iv_file, train_list, preproc_file,
     
     x = model.predict(x)
 
-    s_mat = NSbSw()
+    s_mat = NSbSw(K=K, alpha=alpha)
     s_mat.fit(x, class_ids)
     logging.debug(s_mat.Sb[:4,:4])
     logging.debug(s_mat.Sw[:4,:4])
-- 
2.43.0


From 431d3dfc02e289e85f4d7f12fd51532b752c432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 175/270] fix: evaluation without list of trials scores all the
 models on the test list

---
 hyperion/utils/trial_ndx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index 9deacb8..3024964 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -224,6 +224,9 @@ class TrialNdx(object):
           ndx: TrialNdx object
           enroll: SCPList 
         """
+        if ndx is None:
+            # without list of trials, all models are evaluated on all test segments
+            ndx = TrialNdx(np.unique(enroll.info), test.key)
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-- 
2.43.0


From c9ff945c8ad3c10edb2de0dc8954663135c1ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 176/270] fix: eval-score-norm takes the adaptive cohort in the
 same order on both sides

---
 hyperion/bin/eval-score-norm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 7d23171..6ba113c 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -25,7 +25,7 @@ from hyperion.utils.trial_ndx import TrialNdx
 
 
 
-def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
+def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file, adapt_coh=None):
 
     scores = TrialScores.load(score_file)
     scores_enr_coh = None
@@ -39,7 +39,12 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
     if coh_test_file is not None:
         scores_coh_test = TrialScores.load(coh_test_file)
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
+        coh_set = scores_coh_test.model_set
+        if adapt_coh is not None and scores_enr_coh is not None:
+            # the cohort is selected in one side and applied to the other
+            if np.array_equal(np.sort(coh_set), np.sort(scores_enr_coh.seg_set)):
+                coh_set = scores_enr_coh.seg_set
+        ndx = TrialNdx(coh_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
@@ -57,7 +62,7 @@ def score_norm(score_file, output_file, norm_type,
                adapt_coh=None):
 
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
-        score_file, enr_coh_file, coh_test_file, coh_coh_file)
+        score_file, enr_coh_file, coh_test_file, coh_coh_file, adapt_coh)
 
     if norm_type == 't-norm':
         assert scores_coh_test is not None
-- 
2.43.0


From 75432e992645443f760a091d7eda4a2c60a5961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 177/270] fix: KaldiDataReader reads each matrix at its offset
 in the archive

---
 hyperion/io/kaldi_data_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..1ebc039 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,13 +24,17 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
+            file_paths = scp.file_path
+            if scp.offset is not None:
+                  file_paths = ['%s:%d' % (v, o) for (v, o) in
+                                zip(scp.file_path, scp.offset)]
             if input_dir is None:
                   self.scp = OrderedDict((k, v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, file_paths))
             else:
                   input_dir+='/'
                   self.scp = OrderedDict((k, input_dir+v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, file_paths))
 
                   
       def read(self, keys=None, num_records=None, first_record=None, squeeze=False):
-- 
2.43.0


From 72f05d5c2a654ffce86074c599fc1d64f28dc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 178/270] fix: KaldiDataReader does not print the first bytes
 of each matrix

---
 hyperion/io/kaldi_data_reader.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index 1ebc039..6941e65 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -95,9 +95,6 @@ class KaldiDataReader(object):
             # except:
             f = KaldiDataReader._open(f, 'rb')
             binary = f.read(2)
-            print('except')
-            print(binary)
-                  
             if binary == b'\0B' :
                   mat = KaldiDataReader._read_bin_matrix(f)
             else:
-- 
2.43.0


From 74ebe57735c0b8d8d6bcf9ff724b01d3284e12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 179/270] fix: KaldiDataReader is at the end of the file after
 it reads the records left

---
 hyperion/io/kaldi_data_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index 6941e65..27f7cc9 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -44,8 +44,9 @@ class KaldiDataReader(object):
                         self.cur_record = first_record
                         
                   if num_records is None:
+                        final_record = len(keys)
                         keys = keys[self.cur_record:]
-                        self.cur_record = len(keys)
+                        self.cur_record = final_record
                   else:
                         final_record = min(self.cur_record+num_records, len(keys))
                         keys = keys[self.cur_record:final_record]
-- 
2.43.0


From 5ef5721286d3464ae984162a9670898bdcb78b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 180/270] fix: log-posteriors of widely separated classes are
 finite

---
 hyperion/classifiers/linear_gbe.py         | 4 ++--
 hyperion/classifiers/linear_svmc.py        | 6 +++---
 hyperion/classifiers/q_scoring_homo_gbe.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index 8ef2652..5ec2bae 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -14,7 +14,7 @@ from scipy.special import gammaln
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax
+from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax, logsumexp
 
 
 
@@ -148,7 +148,7 @@ class LinearGBE(HypModel):
             raise ValueError('wrong eval method %s' % eval_method)
             
         if normalize:
-            logp = np.log(softmax(logp, axis=1))
+            logp = logp - logsumexp(logp, axis=1)[:, None]
             
         return logp
 
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 5f65d05..7f6f7d3 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -14,7 +14,7 @@ from  sklearn.svm import LinearSVC as SVC
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import softmax
+from ..utils.math import softmax, logsumexp
 
 
 class LinearSVMC(HypModel):
@@ -77,13 +77,13 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return -np.log(1+np.exp(-s))
+            return np.minimum(s, 0) - np.log1p(np.exp(-np.abs(s)))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
             return softmax(s)
         if eval_type == 'cat-logpost':
-            return np.log(softmax(s))
+            return s - logsumexp(s)[..., None]
         
         return s
         
diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index dea7e77..307ee5f 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -14,7 +14,7 @@ from scipy.special import gammaln
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax
+from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax, logsumexp
 
 
 
@@ -151,7 +151,7 @@ class QScoringHomoGBE(HypModel):
         logp = 0.5*(r_et +r_e.T + r_t)
 
         if normalize:
-            logp = np.log(softmax(logp, axis=1))
+            logp = logp - logsumexp(logp, axis=1)[:, None]
             
         return logp
 
-- 
2.43.0


From 91b39a1493d74821b391568cbc741403ad055c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 181/270] fix: the sequence readers apply the transform that
 they are given

---
 hyperion/helpers/sequence_post_reader.py |  4 +++-
 hyperion/helpers/sequence_reader.py      | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index d963756..f811c01 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -70,6 +70,7 @@ class SequencePostReader(SequenceReader):
             x, r, keys = self._read_subseqs_random_1seq()
             
         self.cur_batch +=1
+        x = self._preproc(x)
 
         if return_3d:
             x, sample_weight = to3D_by_seq(x, max_length=max_seq_length)
@@ -83,7 +84,8 @@ class SequencePostReader(SequenceReader):
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        x = self.r.read([key], field=self.field, return_tensor=False)
+        x = self._preproc(x)[0]
         r = self.post_r.read([key], field='.r', return_tensor=False)[0]
         index = self.post_r.read([key], field='.index', return_tensor=False)[0]
         r = self.to_dense(r, index, self.num_comp)
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 0dc3dca..1453dc7 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -150,6 +150,13 @@ class SequenceReader(object):
 
 
     
+    def _preproc(self, x):
+        if self.preproc is None:
+            return x
+        return [self.preproc.predict(x_i) for x_i in x]
+
+
+    
     def read(self, return_3d=False,
              max_seq_length=0, return_sample_weight=True):
         
@@ -167,6 +174,7 @@ class SequenceReader(object):
             x, keys = self._read_subseqs_random_1seq()
             
         self.cur_batch +=1
+        x = self._preproc(x)
 
         if return_3d:
             x, sample_weight = to3D_by_seq(x, max_length=max_seq_length)
@@ -179,7 +187,8 @@ class SequenceReader(object):
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        return self.r.read([key], field=self.field, return_tensor=False)[0], key
+        x = self.r.read([key], field=self.field, return_tensor=False)
+        return self._preproc(x)[0], key
     
 
     
-- 
2.43.0


From 3857c2f454a38643ea2dd13e998ae2ecdd3d8f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 182/270] fix: ark2hyp writes in the current directory

---
 hyperion/bin/ark2hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index 784d0f8..3e789b5 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
-- 
2.43.0


From cfbaf1721db635e883a49ff0432971cbe84a5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 183/270] fix: compute-gmm-post calls the method that computes
 the posteriors

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5675d70..756c4a6 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -68,7 +68,7 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
     for i in xrange(sr.num_seqs):
         x, key = sr.read_next_seq()
         logging.info('Extracting i-vector %d/%d for %s, num_frames: %d' % (i, sr.num_seqs, key, x.shape[0]))
-        r = gmm.compute_z(x)
+        r = gmm.compute_pz(x)
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-- 
2.43.0


From 0d83fc6f4b83ca01b20901f2253b00c57cd740cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:34 +0000
Subject: [PATCH 184/270] fix: the bound of the held-out data is normalised by
 the number of held-out samples

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 4bacf2a..f3aed59 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -84,7 +84,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From 7fb10e8676da8922902e5106845231358660cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 185/270] fix: RTTM.compute_stats failed unless the number of
 histogram bins was given

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 6e5954f..5711abd 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -511,7 +511,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From cff4c7b1b0e61cad95d755813bb01785783dc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 186/270] fix: RTTM.to_segment_list gave the same id to
 segments that begin and end within the same seconds

---
 hyperion/utils/rttm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 5711abd..485e9da 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -528,8 +528,9 @@ class RTTM(object):
 
         segments = self.segments[['file_id','tbeg']].copy()
         segments['tend'] = self.segments['tbeg'] + self.segments['tdur']
-        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
-                                  for file_id, tbeg, tdur in zip(
+        # times in milliseconds, several segments may begin in the same second
+        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, np.round(tbeg*1000), np.round(tend*1000))
+                                  for file_id, tbeg, tend in zip(
                                           segments['file_id'],
                                           segments['tbeg'],
                                           segments['tend'])]
-- 
2.43.0


From 5169f4ee71cd6e57b35427e6bebfc096915f2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 187/270] fix: printing and plotting of confusion matrices with
 weighted counts or empty classes used integer formats

---
 hyperion/metrics/confusion_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 1660e1d..2367c57 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -132,7 +132,7 @@ def plot_confusion_matrix(C, labels_true, labels_pred=None,
     plt.xticks(tick_marks_x, labels_pred, rotation=45)
     plt.yticks(tick_marks_y, labels_true)
 
-    normalized = np.all(C<=1)
+    normalized = np.all(C<=1) or not issubclass(C.dtype.type, np.integer)
     fmt = '.2f' if normalized else 'd'
     thresh = np.max(C) / 2.
     for i in xrange(C.shape[0]):
@@ -163,7 +163,7 @@ def write_confusion_matrix(f, C, labels_true, labels_pred=None):
     assert C.shape[0] == len(labels_true)
     assert C.shape[1] == len(labels_pred)
     
-    normalized = np.all(C<=1)
+    normalized = np.all(C<=1) or not issubclass(C.dtype.type, np.integer)
     fmt = '.2f' if normalized else 'd'
 
     column_width = np.max([len(label) for label in labels_pred] + [6]) + 3
-- 
2.43.0


From fa9439a5243ed7bdac8cb37665b3aacd9a9b9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 188/270] fix: GMM.load_from_kaldi mis-sized the natural
 parameters and tripped on the brackets of the inverse covariances

---
 hyperion/pdfs/mixtures/gmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index ff22997..a3274f5 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -323,7 +323,7 @@ class GMM(ExpFamilyMixture):
                         if x_dim == 0:
                             x_dim = len([v for v in fields if v != ']'])
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
-                            eta2 = np.zeros((num_comp, int((x_dim**2+3*x_dim)/2)), dtype=float_cpu())
+                            eta2 = np.zeros((num_comp, int((x_dim**2+x_dim)/2)), dtype=float_cpu())
                         
                         assert(len(fields) == x_dim or len(fields) == x_dim+1)
                         eta1[k] = [ float(v) for v in fields[:x_dim] ]
@@ -334,6 +334,10 @@ class GMM(ExpFamilyMixture):
                         for j in xrange(x_dim):
                             line = f.readline()
                             fields = line.split()
+                            if fields == ['[']:
+                                # each covariance opens its bracket
+                                line = f.readline()
+                                fields = line.split()
                             if j < x_dim -1:
                                 assert(len(fields) == j+1)
                             else:
-- 
2.43.0


From 0c453118fb2dfcdeb14ef7e2d97df90833b34230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 189/270] fix: ExtSegmentList tables have indexes named as
 their columns, so that they cannot be merged

---
 hyperion/utils/ext_segment_list.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 0e0a19e..f9827d0 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -146,19 +146,19 @@ class ExtSegmentList(object):
     def index_column(self, value):
 
         self._index_column = value
-        self.ext_segments.index = self.ext_segments.ext_segment_id
+        self.ext_segments.index = self.ext_segments.ext_segment_id.values
         if value == 'file_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'segment_id':
-            self.segments.index = self.segments.segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'ext_segment_id':
-            self.segments.index = self.segments.ext_segment_id
-            self.files.index = self.files.file_id
+            self.segments.index = self.segments.ext_segment_id.values
+            self.files.index = self.files.file_id.values
         elif value == 'series_id':
-            self.segments.index = self.segments.file_id
-            self.files.index = self.files.series_id
+            self.segments.index = self.segments.file_id.values
+            self.files.index = self.files.series_id.values
 
 
             
@@ -547,7 +547,7 @@ class ExtSegmentList(object):
         drop_index = (~self.ext_segments.ext_segment_id.isin(self.segments.ext_segment_id))
         drop_index = self.ext_segments.index[drop_index]
         self.ext_segments.drop(drop_index, inplace=True)
-        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id, drop=False)
+        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id.values, drop=False)
         assert len(self.ext_segments.ext_segment_id.unique()) == len(self.ext_segments.ext_segment_id)
         #logging.debug('E',self.ext_segments)
 
@@ -636,7 +636,7 @@ class ExtSegmentList(object):
         # drop_index = (~self.ext_segments.ext_segment_id.isin(self.segments.ext_segment_id))
         # drop_index = self.ext_segments.index[drop_index]
         # self.ext_segments.drop(drop_index, inplace=True)
-        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id, drop=False)
+        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id.values, drop=False)
         #logging.debug(self.ext_segments)
         # assert len(self.ext_segments.ext_segment_id.unique()) == len(self.ext_segments.ext_segment_id)
         # #logging.debug('E',self.ext_segments)
-- 
2.43.0


From 0699376ee051090f16c613474ebfeb5442283bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 190/270] fix: ExtSegmentList cannot be iterated, indexed or
 split because of misspelt names

---
 hyperion/utils/ext_segment_list.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index f9827d0..985699b 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -214,7 +214,7 @@ class ExtSegmentList(object):
     
     @property
     def uniq_file_id(self):
-        return np.asarry(self.files['file_id'])
+        return np.asarray(self.files['file_id'])
         # if self._uniq_file_id is None:
         #     self._uniq_file_id = np.asarray(self.segments['file_id'].unique())
             
@@ -225,7 +225,7 @@ class ExtSegmentList(object):
     @property
     def uniq_series_id(self):
         if self._uniq_series_id is None:
-            self._uniq_series_id = np.asarray(self.ext_segments['series_id'].unique())
+            self._uniq_series_id = np.asarray(self.files['series_id'].unique())
             
         return self._uniq_series_id
 
@@ -290,12 +290,12 @@ class ExtSegmentList(object):
                 raise StopIteration()
         elif self.index_column == 'ext_segment_id':
             if self.iter_idx < len(self.ext_segments):
-                r = self.__getitem__(self.ext_segment['ext_segment_id'].iloc[self.iter_idx])
+                r = self.__getitem__(self.ext_segments['ext_segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
         else:
             if self.iter_idx < len(self.segments):
-                r = self.__getitem__(self.segments['segment_id'].iloc(self.iter_idx))
+                r = self.__getitem__(self.segments['segment_id'].iloc[self.iter_idx])
             else:
                 raise StopIteration()
 
@@ -330,8 +330,8 @@ class ExtSegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_column == 'segment_id':
-            return pd.merge(self.segments.loc[key], self.ext_segments,
-                            sort=False, how='inner')
+            return pd.merge(self.segments.loc[[key]], self.ext_segments,
+                            on='ext_segment_id', sort=False, how='inner')
         else:
             return self.filter([key])
             
@@ -416,7 +416,7 @@ class ExtSegmentList(object):
         elif self.index_column == 'segment_id':
             key, _ = split_list(self.segment_id, idx, num_parts)
         elif self.index_column == 'ext_segment_id':
-            key, _ = split_list(self.uniq_ext_segment_id, idx, num_parts)
+            key, _ = split_list(self.uniq_segment_id, idx, num_parts)
 
         return self.filter(key)
 
-- 
2.43.0


From 94d6f7668e201882c7a8b5c97544a73f48edf168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 191/270] fix: ExtSegmentList.filter lost the scores and
 repeated files and extended segments

---
 hyperion/utils/ext_segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 985699b..d9f5ed0 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -398,11 +398,11 @@ class ExtSegmentList(object):
                     np.asarray(self.segments.index), filter_key)
             segments = self.segments.loc[filter_key]
             files = pd.merge(self.files, segments, on='file_id', how='inner')[
-                ['file_id', 'series_id']]
+                ['file_id', 'series_id']].drop_duplicates()
             
         ext_segments = pd.merge(self.ext_segments, segments,
                                 on='ext_segment_id', how='inner')[
-                                    ['ext_segment_id','name']]
+                                    ['ext_segment_id','name','score']].drop_duplicates()
 
         return ExtSegmentList(segments, ext_segments, files, self.index_column)
 
-- 
2.43.0


From 827949385c8af727f38b627e5171c22faa8c0c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 192/270] fix: ExtSegmentList cannot be created from arrays or
 segment lists with series or names, merged or compared

---
 hyperion/utils/ext_segment_list.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index d9f5ed0..1bd1ea1 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -71,14 +71,14 @@ class ExtSegmentList(object):
                                  'ext_segment_id': ext_segment_id})
         
         if series_id is None:
-            u_file_id = self.segments['file_id'].unique()
+            u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
-        if isinstance(name, string_types):
+        if np.isscalar(name):
             ext_segment_id = segments['ext_segment_id'].unique()
         elif isinstance(name, dict):
             ext_segment_id = [k for k,v in name.items()]
@@ -103,7 +103,7 @@ class ExtSegmentList(object):
             ext_segment_id = segments['segment_id'])
         ext_segment_id = segments.ext_segment_id.unique()
 
-        if not np.isnan(name):
+        if isinstance(name, dict):
             name = [name[k] for k in segments['ext_segment_id'].values]
         ext_segments = pd.DataFrame(
                 {'ext_segment_id': segments['ext_segment_id'].values,
@@ -113,8 +113,8 @@ class ExtSegmentList(object):
             u_file_id = segments['file_id'].unique()
             files = pd.DataFrame({'file_id': u_file_id, 'series_id': u_file_id})
         else:
-            file_id = [f for f in v for k,v in series_id.items()]
-            series_id = [k for f in v for k,v in series_id.items()]
+            file_id = [f for k,v in series_id.items() for f in v]
+            series_id = [k for k,v in series_id.items() for f in v]
             files = pd.DataFrame({'file_id': file_id, 'series_id': series_id})
 
         return cls(segments, ext_segments, files, index_column)
@@ -430,7 +430,7 @@ class ExtSegmentList(object):
         for sl in segment_lists:
             segments.append(sl.segments)
             files.append(sl.files)
-            ext_segments.append(ext_segments)
+            ext_segments.append(sl.ext_segments)
             
         segments = pd.concat(segments).drop_duplicates()
         files = pd.concat(files).drop_duplicates()
@@ -443,7 +443,9 @@ class ExtSegmentList(object):
     def __eq__(self, other):
         """Equal operator"""
         eq = self.segments.equals(other.segments)
-        eq = eq and self.index_by_file == other.index_by_file
+        eq = eq and self.ext_segments.equals(other.ext_segments)
+        eq = eq and self.files.equals(other.files)
+        eq = eq and self.index_column == other.index_column
             
         return eq
 
-- 
2.43.0


From 9cbf42ddd05d04217d48d5ab322ae4a8968dbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 193/270] fix: ExtSegmentList.merge_adjacent_segments left a
 list that cannot be saved or scored

---
 hyperion/utils/ext_segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 1bd1ea1..6ca3e80 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -627,7 +627,7 @@ class ExtSegmentList(object):
         name = [v for k,v in d.items()]
         self.ext_segments = pd.DataFrame(
             {'ext_segment_id': ext_segment_id,
-             'name': name})
+             'name': name, 'score': np.nan})
         #logging.debug('DICT', d)
         # for k,v in d.items():
         #     logging.debug(k)
-- 
2.43.0


From 2e53e7722b60610a55ab6f642605df240cf5eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:48 +0000
Subject: [PATCH 194/270] fix: ExtSegmentList.load turns numeric or NA
 identifiers into numbers

---
 hyperion/utils/ext_segment_list.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 6ca3e80..c4d3f98 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -366,16 +366,22 @@ class ExtSegmentList(object):
           SegmentList object.
         """
         segments = pd.read_csv(file_path + '.segments', sep=sep, header=None,
-                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'])
+                               names=['segment_id','file_id','tbeg','tend', 'ext_segment_id'],
+                               dtype={'segment_id': str, 'file_id': str, 'ext_segment_id': str},
+                               keep_default_na=False)
         if path.isfile(file_path + '.ext_segments'):
             ext_segments = pd.read_csv(file_path + '.ext_segments', sep=sep, header=None,
-                                       names=['ext_segment_id', 'name', 'score'], na_values='NA')
+                                       names=['ext_segment_id', 'name', 'score'],
+                                       dtype={'ext_segment_id': str, 'name': str},
+                                       keep_default_na=False,
+                                       na_values={'name': 'NA', 'score': 'NA'})
         else:
             ext_segments = None
             
         if path.isfile(file_path + '.files'):
             files = pd.read_csv(file_path + '.files', sep=sep, header=None,
-                                names=['file_id', 'series_id'])
+                                names=['file_id', 'series_id'], dtype=str,
+                                keep_default_na=False)
         else:
             files = None
             
-- 
2.43.0


From d6dd3d5546e7b36cfb7cd0ef3167859929af5d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 195/270] fix: ExtSegmentList.filter by segments put the
 segments of a file out of time order and failed

---
 hyperion/utils/ext_segment_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index c4d3f98..b5b445e 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -403,6 +403,9 @@ class ExtSegmentList(object):
                 filter_key = np.setdiff1d(
                     np.asarray(self.segments.index), filter_key)
             segments = self.segments.loc[filter_key]
+            if self.index_column != 'file_id':
+                # in the order of the list, segments of a file have to be in time order
+                segments = self.segments.loc[self.segments.index.isin(filter_key)]
             files = pd.merge(self.files, segments, on='file_id', how='inner')[
                 ['file_id', 'series_id']].drop_duplicates()
             
-- 
2.43.0


From 1f0cda27f12962e586bf1276550a723839ada03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:12 +0000
Subject: [PATCH 196/270] fix: ExtSegmentList.merge_adjacent_segments left the
 segments indexed by the old extended segments

---
 hyperion/utils/ext_segment_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index b5b445e..a8c5345 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -647,7 +647,8 @@ class ExtSegmentList(object):
         # drop_index = (~self.ext_segments.ext_segment_id.isin(self.segments.ext_segment_id))
         # drop_index = self.ext_segments.index[drop_index]
         # self.ext_segments.drop(drop_index, inplace=True)
-        self.ext_segments = self.ext_segments.set_index(self.ext_segments.ext_segment_id.values, drop=False)
+        # renews the indexes of the tables
+        self.index_column = self._index_column
         #logging.debug(self.ext_segments)
         # assert len(self.ext_segments.ext_segment_id.unique()) == len(self.ext_segments.ext_segment_id)
         # #logging.debug('E',self.ext_segments)
-- 
2.43.0


From 8afda0c8cb1642b97cdb3118fdb0559c7793153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 197/270] fix: ExtSegmentList gave the names and scores of
 other segments, inner merges do not keep the order of the rows

---
 hyperion/utils/ext_segment_list.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index a8c5345..5efa029 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -183,7 +183,7 @@ class ExtSegmentList(object):
     @property
     def segment_names(self):
         return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['name'])
+                                   on='ext_segment_id', how='left')['name'])
 
     
     @property
@@ -196,7 +196,7 @@ class ExtSegmentList(object):
     @property
     def segment_score(self):
         return np.asarray(pd.merge(self.segments, self.ext_segments,
-                                   on='ext_segment_id', how='inner')['score'])
+                                   on='ext_segment_id', how='left')['score'])
 
     
     
@@ -396,8 +396,7 @@ class ExtSegmentList(object):
                 filter_key = np.setdiff1d(
                     np.asarray(self.files.index), filter_key)
             files = self.files.loc[filter_key]
-            segments = pd.merge(self.segments, files, on='file_id', how='inner')[
-                ['segment_id', 'file_id', 'tbeg','tend','ext_segment_id']]
+            segments = self.segments.loc[self.segments['file_id'].isin(files['file_id'])]
         else:
             if not keep:
                 filter_key = np.setdiff1d(
@@ -478,7 +477,7 @@ class ExtSegmentList(object):
             max_segments = len(self.segments)
             
         segm = pd.merge(self.segments, self.ext_segments,
-                        on='ext_segment_id', how='inner')
+                        on='ext_segment_id', how='left')
         segm_1 = segm.shift(1)
 
         index = ((segm.file_id == segm_1.file_id) &
@@ -570,7 +569,7 @@ class ExtSegmentList(object):
             max_segments = len(self.segments)
             
         segm = pd.merge(self.segments, self.ext_segments,
-                        on='ext_segment_id', how='inner')
+                        on='ext_segment_id', how='left')
         segm_1 = segm.shift(1)
 
         index = ((segm.file_id == segm_1.file_id) &
-- 
2.43.0


From 49065e82f864bfce2ffd6f74d8b499a8d384d45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 198/270] fix: ExtSegmentList.segment_ids_from_file returned a
 scalar for files of one segment

---
 hyperion/utils/ext_segment_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/ext_segment_list.py b/hyperion/utils/ext_segment_list.py
index 5efa029..379a3cf 100644
--- a/hyperion/utils/ext_segment_list.py
+++ b/hyperion/utils/ext_segment_list.py
@@ -256,7 +256,7 @@ class ExtSegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_column == 'file_id':
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
 
-- 
2.43.0


From 140090d2c1bb459c0c90f9dd00ce2dad6733ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 199/270] fix: TrackingDataReader passed trials and enrolment
 list in the wrong order when reading one file

---
 hyperion/helpers/tracking_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/tracking_data_reader.py b/hyperion/helpers/tracking_data_reader.py
index 620027e..df61373 100644
--- a/hyperion/helpers/tracking_data_reader.py
+++ b/hyperion/helpers/tracking_data_reader.py
@@ -72,7 +72,7 @@ class TrackingDataReader(object):
     def _read_single_utt(self, key):
         ndx = self.ndx.filter(self.ndx.model_set, [key])
         ndx_seg = ndx.apply_segmentation_to_test(self.segments)
-        enroll, ndx_seg = TrialNdx.parse_eval_set(self.enroll, ndx_seg)
+        ndx_seg, enroll = TrialNdx.parse_eval_set(ndx_seg, self.enroll)
         segments = self.segments.filter([key])
         return enroll, ndx_seg, segments
 
-- 
2.43.0


From c20a719ca574b032a027747c7fc81b386e0c979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 200/270] fix: ellipsoids of Gaussians were drawn with
 variances in place of standard deviations

---
 hyperion/utils/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/plotting.py b/hyperion/utils/plotting.py
index 2fad489..ba07156 100644
--- a/hyperion/utils/plotting.py
+++ b/hyperion/utils/plotting.py
@@ -93,7 +93,7 @@ def plot_gaussian_ellipsoid_2D(mu, C, num_sigmas=1, num_pts=100, **kwargs):
     y = np.sin(t)
     xy = np.vstack((x,y))
     d, v  =  la.eigh(C)
-    d *= num_sigmas
+    d = num_sigmas*np.sqrt(d)
     r = np.dot(v*d, xy)+mu[:, None]
     plt.plot(r[0,:], r[1,:], **kwargs)
 
@@ -121,6 +121,7 @@ def plot_gaussian_ellipsoid_3D(mu, C, num_sigmas=1, num_pts=100, ax=None, **kwar
     y = np.sin(u)*np.sin(v)
     z = np.cos(v)
     d, v = la.eigh(C)
+    d = num_sigmas*np.sqrt(d)
     xyz = np.vstack((x.ravel(), y.ravel(), z.ravel()))
     r = np.dot(v*d, xyz)+mu[:, None]
     
-- 
2.43.0


From ea3021af9ebed2ddd3d5a9e3d3f76aaf40c45ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 201/270] fix: 3D plots of Gaussians covered an interval that
 depended on the signs of the eigenvectors and could be empty

---
 hyperion/utils/plotting.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/utils/plotting.py b/hyperion/utils/plotting.py
index ba07156..8f63820 100644
--- a/hyperion/utils/plotting.py
+++ b/hyperion/utils/plotting.py
@@ -56,8 +56,7 @@ def plot_gaussian_3D(mu, C, num_sigmas=3, num_pts=100, ax=None, **kwargs):
     num_pts *= 1j
     invC, _, logC = invert_pdmat(C, return_logdet=True)
     dim = mu.shape[0]
-    d, v = la.eigh(C)
-    delta = num_sigmas*np.sum(v*np.sqrt(d), axis=1)
+    delta = num_sigmas*np.sqrt(np.diag(C))
     low_lim = mu-delta
     high_lim = mu+delta
     X, Y = np.mgrid[low_lim[0]:high_lim[0]:num_pts, low_lim[1]:high_lim[1]:num_pts]
-- 
2.43.0


From 7e0660a059c55df7e9c6605ea7e7e3936f77b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:18 +0000
Subject: [PATCH 202/270] fix: ArkDataWriter.write converts the record before
 it writes the key, a refused record left its key in the archive

---
 hyperion/io/ark_data_writer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_writer.py b/hyperion/io/ark_data_writer.py
index 7ec4cd5..fafeeaf 100644
--- a/hyperion/io/ark_data_writer.py
+++ b/hyperion/io/ark_data_writer.py
@@ -123,11 +123,10 @@ class ArkDataWriter(DataWriter):
             
         for i, key_i in enumerate(keys):
             assert is_token(key_i), 'Token %s not valid' % key_i
+            data_i = self._convert_data(data[i])
             write_token(self.f, self.binary, key_i)
 
             pos = self.f.tell()
-            data_i = self._convert_data(data[i])
-        
             init_kaldi_output_stream(self.f, self.binary)
             data_i.write(self.f, self.binary)
 
-- 
2.43.0


From 07cf40b86b95e4381b489b902611a4182c7d6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 203/270] fix: merging trial scores added the values of the
 masked out trials of one object to the scores of the other

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 8e8e394..5ac0d14 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -223,7 +223,7 @@ class TrialScores(object):
 
             model_set = new_model_set
             seg_set = new_seg_set
-            scores = scores_1 + scores_2
+            scores = scores_1*score_mask_1 + scores_2*score_mask_2
             assert(not(np.any(np.logical_and(score_mask_1, score_mask_2))))
             score_mask= np.logical_or(score_mask_1, score_mask_2)
                             
-- 
2.43.0


From 511cbe94fd7d7a4b5378b1d28deb5b987cfab821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 204/270] fix: remove_short_utts.sh removed utterances of
 exactly the minimum length

---
 hyp_utils/remove_short_utts.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyp_utils/remove_short_utts.sh b/hyp_utils/remove_short_utts.sh
index 3355472..2ebe54c 100755
--- a/hyp_utils/remove_short_utts.sh
+++ b/hyp_utils/remove_short_utts.sh
@@ -21,7 +21,7 @@ fi
 data_dir=$1
 
 mv $data_dir/utt2num_frames $data_dir/utt2num_frames.bak
-awk -v min_len=${min_len} '$2 > min_len {print $1, $2}' $data_dir/utt2num_frames.bak > $data_dir/utt2num_frames
+awk -v min_len=${min_len} '$2 >= min_len {print $1, $2}' $data_dir/utt2num_frames.bak > $data_dir/utt2num_frames
 utils/filter_scp.pl $data_dir/utt2num_frames $data_dir/utt2spk > $data_dir/utt2spk.new
 mv $data_dir/utt2spk.new $data_dir/utt2spk
 utils/fix_data_dir.sh $data_dir
-- 
2.43.0


From c48b3e92314a7913d9f523c48a627b0a464ff606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 205/270] fix: subset_data_dir.sh --per-spk took one utterance
 less than requested from speakers without utterances to spare

---
 hyp_utils/subset_data_dir.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyp_utils/subset_data_dir.sh b/hyp_utils/subset_data_dir.sh
index ffadfa4..c7bf8da 100755
--- a/hyp_utils/subset_data_dir.sh
+++ b/hyp_utils/subset_data_dir.sh
@@ -171,7 +171,7 @@ elif $speakers; then
 elif $perspk; then
   mkdir -p $destdir
   awk '{ n='$numutt'; printf("%s ",$1); skip=1; while(n*(skip+1) <= NF-1) { skip++; }
-         for(x=2; x<=NF && x <= n*skip; x += skip) { printf("%s ", $x); }
+         for(x=2; x<=NF && x <= n*skip+1; x += skip) { printf("%s ", $x); }
          printf("\n"); }' <$srcdir/spk2utt >$destdir/spk2utt
   utils/spk2utt_to_utt2spk.pl < $destdir/spk2utt > $destdir/utt2spk
   do_filtering; # bash function.
-- 
2.43.0


From 095e870aba716104f2d114b25135b97f7e1bd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 206/270] fix: filter_trials.awk did not end when a list does
 not exist

---
 hyp_utils/filter_trials.awk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyp_utils/filter_trials.awk b/hyp_utils/filter_trials.awk
index 9a447d4..6242ec6 100755
--- a/hyp_utils/filter_trials.awk
+++ b/hyp_utils/filter_trials.awk
@@ -6,14 +6,14 @@ BEGIN{
   filter_models=0;
   if(futts != ""){
     filter_utts=1;
-    while(getline < futts)
+    while((getline < futts) > 0)
     {
       utts[$1] = 1
     }
   }
   if(fmodels != ""){
     filter_models=1;
-    while(getline < fmodels)
+    while((getline < fmodels) > 0)
     {
       models[$1] = 1
     }
-- 
2.43.0


From 329050117f29cc32704947c5cccb5a6eead1a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 207/270] fix: fix_data_dir.sh kept partly filtered files in
 the backup in place of the original ones

---
 hyp_utils/fix_data_dir.sh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyp_utils/fix_data_dir.sh b/hyp_utils/fix_data_dir.sh
index b0351d3..8e0c221 100755
--- a/hyp_utils/fix_data_dir.sh
+++ b/hyp_utils/fix_data_dir.sh
@@ -61,6 +61,12 @@ for x in utt2spk spk2utt feats.scp text segments wav.scp cmvn.scp vad.scp \
   fi
 done
 
+for x in $utt_extra_files $spk_extra_files; do
+  if [ -f $data/$x ]; then
+    cp $data/$x $data/.backup/$x
+  fi
+done
+
 
 function filter_file {
   filter=$1
@@ -177,9 +183,9 @@ function filter_utts {
 
   for x in utt2spk utt2uniq feats.scp vad.scp text segments utt2lang utt2dur utt2num_frames $maybe_wav $maybe_reco2dur $utt_extra_files; do
     if [ -f $data/$x ]; then
-      cp $data/$x $data/.backup/$x
       if ! cmp -s $data/$x <( utils/filter_scp.pl $tmpdir/utts $data/$x ) ; then
-        utils/filter_scp.pl $tmpdir/utts $data/.backup/$x > $data/$x
+        utils/filter_scp.pl $tmpdir/utts $data/$x > $tmpdir/filtered
+        cp $tmpdir/filtered $data/$x
       fi
     fi
   done
-- 
2.43.0


From f60e66f47602a63452e68294fa0231c553263442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 208/270] fix: remove_utts_wo_vad.sh compared numbers of lines
 in place of utterances and looked for recordings among the utterances

---
 hyp_utils/remove_utts_wo_vad.sh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyp_utils/remove_utts_wo_vad.sh b/hyp_utils/remove_utts_wo_vad.sh
index e10039b..2a651ff 100755
--- a/hyp_utils/remove_utts_wo_vad.sh
+++ b/hyp_utils/remove_utts_wo_vad.sh
@@ -12,13 +12,15 @@ fi
 
 data_dir=$1
 
+awk -v fvad=$data_dir/vad.scp 'BEGIN{ while((getline < fvad) > 0){ v[$1]=1}}{ if($1 in v){ print $0}}' $data_dir/utt2spk > $data_dir/utt2spk.tmp
 num_utts=$(wc -l $data_dir/utt2spk | awk '{ print $1}')
-num_vad=$(wc -l $data_dir/vad.scp | awk '{ print $1}')
+num_vad=$(wc -l $data_dir/utt2spk.tmp | awk '{ print $1}')
 
 if [ $num_utts -gt $num_vad ];then
     echo "$0 utt $num_utts -> $num_vad"
-    awk -v fvad=$data_dir/vad.scp 'BEGIN{ while(getline < fvad){ v[$1]=1}}{ if($1 in v){ print $0}}' $data_dir/wav.scp > $data_dir/wav.scp.tmp
-    mv $data_dir/wav.scp.tmp $data_dir/wav.scp
+    mv $data_dir/utt2spk.tmp $data_dir/utt2spk
     
     utils/fix_data_dir.sh $data_dir
+else
+    rm $data_dir/utt2spk.tmp
 fi
-- 
2.43.0


From 495748dc3080f3e180d6e6df32a76e4a442d38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 209/270] fix: JFATotal could not be constructed with a factor
 loading matrix, evaluated or trained

---
 hyperion/pdfs/jfa/jfa_total.py | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/hyperion/pdfs/jfa/jfa_total.py b/hyperion/pdfs/jfa/jfa_total.py
index dfc746c..ee0a772 100644
--- a/hyperion/pdfs/jfa/jfa_total.py
+++ b/hyperion/pdfs/jfa/jfa_total.py
@@ -37,7 +37,7 @@ class JFATotal(PDF):
     
         
     @property
-    def is_init():
+    def is_init(self):
         if self._is_init:
             return True
         if self.T is not None:
@@ -46,7 +46,7 @@ class JFATotal(PDF):
 
 
     def initialize(self, N, F):
-        assert N.shape[0] == self.K
+        assert N.shape[1] == self.K
         
         self.T = np.random.randn(self.y_dim, F.shape[1]).astype(
             float_cpu(), copy=False)
@@ -68,7 +68,7 @@ class JFATotal(PDF):
         y = np.zeros((M, y_dim), dtype=float_cpu())
             
         if return_cov:
-            Sy = np.zeros((M, y_dim*(y_dim+1)/2), dtype=float_cpu())
+            Sy = np.zeros((M, y_dim*(y_dim+1)//2), dtype=float_cpu())
         else:
             Sy = None
 
@@ -77,7 +77,7 @@ class JFATotal(PDF):
             
         if return_acc:
             Py = np.zeros((y_dim, y_dim), dtype=float_cpu())
-            Ry = np.zeros((self.K, y_dim*(y_dim+1)/2), dtype=float_cpu())
+            Ry = np.zeros((self.K, y_dim*(y_dim+1)//2), dtype=float_cpu())
 
         
         Li = np.zeros((self.y_dim, self.y_dim), dtype=float_cpu())
@@ -95,12 +95,12 @@ class JFATotal(PDF):
             y[i] = mult_iL(TF[i])
 
             if return_cov:
-                Sy[i] = iL[self.__upptr]
+                Sy[i] = iL[self._upptr]
 
             if return_acc:
                 iL += np.outer(y[i], y[i])
                 Py += iL
-                Ry += iL[self.__uppr]*N[i][:,None]
+                Ry += iL[self._upptr]*N[i][:,None]
             
         if not return_tuple:
             return y
@@ -113,7 +113,7 @@ class JFATotal(PDF):
         if return_elbo:
             if G is not None:
                 elbo += G
-            elbo += 0.5*np.sum(VF*y, axis=-1)
+            elbo += 0.5*np.sum(TF*y, axis=-1)
             r += [elbo]
 
         if return_acc:
@@ -130,7 +130,7 @@ class JFATotal(PDF):
 
         M = y.shape[0]
         y_acc = np.sum(y, axis=0)
-        Cy = np.dot(F, y)
+        Cy = np.dot(F.T, y)
         
         elbo = np.sum(elbo)
 
@@ -143,7 +143,7 @@ class JFATotal(PDF):
         _, M, y_acc, Ry, Cy, _ = stats
         T = np.zeros_like(self.T)
         Ryk = np.zeros((self.y_dim, self.y_dim), dtype=float_cpu())
-        x_dim = T.shape[1]/self.K
+        x_dim = int(T.shape[1]/self.K)
         for k in xrange(self.K):
             idx = k*x_dim
             Ryk[self._upptr] = Ry[k]
@@ -157,9 +157,9 @@ class JFATotal(PDF):
         
     def MstepMD(self, stats):
         _, M, y_acc, Ry, Cy, Py = stats
-        mu_y = y_acc/M
-        Cy = Py/M - np.outer(my_y, mu_y)
-        chol_Cy = la.cholesky(Cy, lower=False, overwrite_a=True)
+        # the means of the statistics are fixed, the prior mean of y stays at 0.
+        Cy = Py/M
+        chol_Cy = sla.cholesky(Cy, lower=False, overwrite_a=True)
         self.T = np.dot(chol_Cy , self.T)
         
         self.reset_aux()
@@ -181,7 +181,7 @@ class JFATotal(PDF):
             stats = self.Estep(N, F, G)
             elbo[epoch] = stats[0]
             if N_val is not None and F_val is not None:
-                _, elbo_val_e=self.compute_py_x(N, F, G, return_elbo=True)
+                _, elbo_val_e=self.compute_py_g_x(N_val, F_val, return_elbo=True)
                 elbo_val[epoch]=np.sum(elbo_val_e)
 
             if use_ml:
@@ -190,7 +190,7 @@ class JFATotal(PDF):
                 self.MstepMD(stats)
 
         elbo_norm= elbo/np.sum(N)
-        if x_val is None:
+        if N_val is None or F_val is None:
             return elbo, elbo_norm
         else:
             elbo_val_norm = elbo_val/np.sum(N_val)
@@ -201,29 +201,28 @@ class JFATotal(PDF):
     @property
     def TT(self):
         if self._TT is None:
-            self._TT = self.compute_TT(self.T, self.K)
+            self._TT = self.compute_TT(self.T, self.K, self._upptr)
         return self._TT
 
     
     @property
     def _upptr(self):
         if self.__upptr is None:
-            I = np.eye(self.y_dim, dtype=float_cpu())
-            self.__upptr = np.triu(I).ravel()
+            self.__upptr = np.triu(np.ones((self.y_dim, self.y_dim), dtype=bool))
         return self.__upptr
 
 
     
     @staticmethod
-    def compute_TT(self, T, K, upptr):
+    def compute_TT(T, K, upptr):
         x_dim = int(T.shape[1]/K)
         y_dim = T.shape[0]
-        TT = np.zeros((K, y_dim*(y_dim+1)/2), dtype=float_cpu())
+        TT = np.zeros((K, y_dim*(y_dim+1)//2), dtype=float_cpu())
         for k in xrange(K):
             idx = k*x_dim
             T_k = T[:,idx:idx+x_dim]
             TT_k = np.dot(T_k, T_k.T)
-            TT[k] = TT_k[self._upptr]
+            TT[k] = TT_k[upptr]
                       
         return TT
 
@@ -231,8 +230,8 @@ class JFATotal(PDF):
     
     @staticmethod
     def compute_L(TT, N, upptr):
-        y_dim = self._upptr.shape[0]
-        I = np.eye(y_dim, dtype=float_cpu())[self._upptr]
+        y_dim = upptr.shape[0]
+        I = np.eye(y_dim, dtype=float_cpu())[upptr]
         return I+np.dot(N, TT)
 
 
-- 
2.43.0


From d9e2a4d099f481dcfeb97feff990520900d9c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 210/270] fix: HMM could not be constructed, and its
 posteriors, training, decoding and sampling did not run or were not those of
 the model

---
 hyperion/pdfs/hmm/hmm.py | 111 +++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 58 deletions(-)

diff --git a/hyperion/pdfs/hmm/hmm.py b/hyperion/pdfs/hmm/hmm.py
index cbbcd90..6c79d33 100644
--- a/hyperion/pdfs/hmm/hmm.py
+++ b/hyperion/pdfs/hmm/hmm.py
@@ -15,12 +15,12 @@ from ..core import PDF
 
 class HMM(PDF):
 
-    def __init__(self, **kwargs):
-        super(HMM, self).__init__(num_states=1, pi=None, trans=None, trans_mask=None,
-                                  update_pi=True, update_trans=True,
-                                  tied_trans = False,
-                                  left_to_right = False,
-                                  **kwargs)
+    def __init__(self, num_states=1, pi=None, trans=None, trans_mask=None,
+                 update_pi=True, update_trans=True,
+                 tied_trans=False,
+                 left_to_right=False,
+                 **kwargs):
+        super(HMM, self).__init__(**kwargs)
         if pi is not None:
             num_states = len(pi)
             
@@ -34,15 +34,15 @@ class HMM(PDF):
         self.tied_trans = tied_trans
         self.left_to_right = left_to_right
         
-        if left_to_rigth and (trans_mask is None):
-            self.trans_mask = np.triu(np.ones_like(self.trans))
+        if left_to_right and (trans_mask is None):
+            self.trans_mask = np.triu(np.ones((num_states, num_states), dtype=float_cpu()))
 
         self._log_pi = None
         self._log_trans = None
 
 
 
-    def reset_aux():
+    def reset_aux(self):
         self._log_pi = None
         self._log_trans = None
 
@@ -91,19 +91,17 @@ class HMM(PDF):
         N_val_tot = 0
         elbo = np.zeros((epochs,), dtype=float_cpu())
         elbo_val = np.zeros((epochs,), dtype=float_cpu())
-        stats = None
         for epoch in xrange(epochs):
-            for i in xrange(x.shape[0]):
-                stats =self.Estep(x[i], stats)
-                pz, Nzz = stats
-                elbo[epoch] += self.elbo(x[i], pz=pz, Nzz=Nzz)
+            stats = None
+            for i in xrange(len(x)):
+                elbo[epoch] += self.elbo(x[i])
+                stats = self.Estep(x[i], stats)
                         
             self.Mstep(stats)
 
             if x_val is not None:
-                for i in xrange(x_val.shape[0]):
-                    pz, Nzz = self.Estep(x_val[i])
-                    elbo_val[epoch] += self.elbo(x[i], pz=pz, Nzz=Nzz)
+                for i in xrange(len(x_val)):
+                    elbo_val[epoch] += self.elbo(x_val[i])
 
         N_tot = np.sum([x_i.shape[0] for x_i in x])
         if x_val is None:
@@ -130,7 +128,7 @@ class HMM(PDF):
 
         N = x.shape[0]
         log_beta = np.zeros((N, self.num_states), dtype=float_cpu())
-        log_beta[-1] = 1
+        log_beta[-1] = 0
         for n in xrange(N-2, -1, -1):
             r = log_beta[n+1] + x[n+1] + self.log_trans
             log_beta[n] = logsumexp(r.T, axis=0)
@@ -142,21 +140,21 @@ class HMM(PDF):
     def compute_pz(self, x, return_Nzz=False, return_log_px=False):
         log_alpha = self.forward(x)
         log_beta = self.backward(x)
-        log_px = np.sum(log_alpha[-1])
+        log_px = logsumexp(log_alpha[-1])
 
         pz = softmax(log_alpha + log_beta, axis=-1)
 
-        if not(return_Nzz or return_elbo or return_log_px):
+        if not(return_Nzz or return_log_px):
             return pz
 
         r = [pz]
-        if return_pzz_acc:
-            x_e = np.expand_dims(axis=1)
-            log_alpha_e = np.expand_dims(axis=-1)
-            log_beta_e = np.expand_dims(axis=1)
-            log_trans_e = np.expand_dims(axis=0)
+        if return_Nzz:
+            x_e = np.expand_dims(x[1:], axis=1)
+            log_alpha_e = np.expand_dims(log_alpha[:-1], axis=-1)
+            log_beta_e = np.expand_dims(log_beta[1:], axis=1)
+            log_trans_e = np.expand_dims(self.log_trans, axis=0)
             zz = log_alpha_e + x_e + log_trans_e + log_beta_e
-            zz = softmax(zz, axis=-1)
+            zz = softmax(zz, axis=(1, 2))
             Nzz = np.sum(zz, axis=0)
             r.append(Nzz)
 
@@ -167,15 +165,9 @@ class HMM(PDF):
 
 
     
-    def elbo(self, x, pz=None, Nzz=None):
-        if pz is None:
-            pz, Nzz = self.compute_pz(x, return_Nzz=True)
-
-        Nz = pz[0]
-        elbo = (np.sum(Nz*self.log_pi) +
-                np.sum(Nzz*self.log_trans) +
-                np.sum(pz*x))
-        return elbo
+    def elbo(self, x):
+        # the posteriors are exact, so the bound is log p(x)
+        return self.compute_pz(x, return_log_px=True)[1]
 
 
 
@@ -187,29 +179,30 @@ class HMM(PDF):
         else:
             Nz, Nzz = stats_0
 
-        pz, Nzz = self.compute_pz(x, return_Nzz=True)
-        Nz += pz[0]
-        Nzz += pzz
-        stats = (Nz, Nzz)
-        
-        return pz, stats
+        pz, pzz = self.compute_pz(x, return_Nzz=True)
+        Nz = Nz + pz[0]
+        Nzz = Nzz + pzz
+        return Nz, Nzz
 
 
     
     def Mstep(self, stats):
         Nz, Nzz = stats
 
-        self.pi = Nz/np.sum(Nz)
-        self.trans = Nzz/np.sum(Nzz, axis=-1, keepdims=True)
+        if self.update_pi:
+            self.pi = Nz/np.sum(Nz)
 
-        if self.tied_trans:
-            p_loop = np.mean(np.diag(self.trans))
-            self.trans[:] = (1-p_loop)/self.num_states
-            self.trans[np.diag_indices(self.num_states)] = p_loop
+        if self.update_trans:
+            self.trans = Nzz/np.sum(Nzz, axis=-1, keepdims=True)
+
+            if self.tied_trans and self.num_states > 1:
+                p_loop = np.mean(np.diag(self.trans))
+                self.trans[:] = (1-p_loop)/(self.num_states-1)
+                self.trans[np.diag_indices(self.num_states)] = p_loop
         
-        if self.trans_mask is not None:
-            self.trans *= self.trans_mask
-            self.trans /= np.sum(self.trans, axis=-1, keepdims=True)
+            if self.trans_mask is not None:
+                self.trans *= self.trans_mask
+                self.trans /= np.sum(self.trans, axis=-1, keepdims=True)
 
         self.reset_aux()
 
@@ -220,7 +213,7 @@ class HMM(PDF):
         assert self.is_init
         
         log_alpha = self.forward(x)[:-1]
-        log_px = np.sum(log_alpha, axis=-1, keepdims=True)
+        log_px = logsumexp(log_alpha, axis=-1)
 
         log_alpha_e = np.expand_dims(log_alpha, axis=-1)
         log_trans_e = np.expand_dims(self.log_trans, axis=0)
@@ -237,13 +230,13 @@ class HMM(PDF):
         idx_aux = np.arange(self.num_states)
         phi = np.zeros((x.shape[0], self.num_states), dtype=int)
         w = self.log_pi + x[0]
-        for i in xrange(x.shape[0]):
+        for i in xrange(1, x.shape[0]):
             u = w[:,None] + self.log_trans
             k_max = np.argmax(u, axis=0)
             w = x[i] + u[k_max,idx_aux]
             phi[i-1] = k_max
 
-        best = np.fliplr(np.argsort(w))[:nbest]
+        best = np.argsort(w)[::-1][:nbest]
         log_pxz = w[best]
         paths = np.zeros((nbest, x.shape[0]), dtype=int)
         for n in xrange(nbest):
@@ -266,10 +259,10 @@ class HMM(PDF):
         for t in xrange(1, num_steps):
             for k in xrange(self.num_states):
                 index = x[:,t-1,k] == 1
-                n_k = num.sum(index)
+                n_k = np.sum(index)
                 if n_k == 0:
                     continue
-                x[index] = rng.multinomial(1, self.trans[k], size=(n_k,))
+                x[index, t] = rng.multinomial(1, self.trans[k], size=(n_k,))
 
         return x
         
@@ -288,13 +281,15 @@ class HMM(PDF):
     
     def save_params(self, f):
         params = {'pi': self.pi,
-                  'trans': self.trans}
+                  'trans': self.trans,
+                  'trans_mask': self.trans_mask}
         self._save_params_from_dict(f, params)
 
 
         
     @classmethod
     def load_params(cls, f, config):
-        param_list = ['pi', 'trans']
+        param_list = ['pi', 'trans', 'trans_mask']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(pi=params['pi'], trans=params['trans'], **config)
+        return cls(pi=params['pi'], trans=params['trans'],
+                   trans_mask=params['trans_mask'], **config)
-- 
2.43.0


From 306ef25ed982da06879b70061903bf859f93d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 211/270] fix: learning rate schedulers without warm-up divided
 by zero at the first batch

---
 hyperion/torch/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/lr_scheduler.py b/hyperion/torch/lr_schedulers/lr_scheduler.py
index ff59dd5..063aadd 100644
--- a/hyperion/torch/lr_schedulers/lr_scheduler.py
+++ b/hyperion/torch/lr_schedulers/lr_scheduler.py
@@ -45,7 +45,7 @@ class LRScheduler(object):
 
     @property
     def in_warmup(self):
-        return self.last_batch <= self.warmup_steps
+        return self.warmup_steps > 0 and self.last_batch <= self.warmup_steps
     
 
     def state_dict(self):
-- 
2.43.0


From ce86d76333d131662234e9665c5a25d032f41373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 212/270] fix: CosineLR started one step before its period and
 its period in batches was not a number of whole epochs

---
 hyperion/torch/lr_schedulers/cos_lr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 7a8aa61..62082fa 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -38,7 +38,7 @@ class CosineLR(LRScheduler):
     """
 
     def __init__(self, optimizer, T, T_mul=1, min_lr=0, warmup_steps=0,
-                 warm_restarts=False, gamma=1, last_restart=1, num_restarts = 0, 
+                 warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
         super(CosineLR, self).__init__(optimizer, min_lr, warmup_steps,
                                        last_epoch, last_batch, update_lr_on_batch)
@@ -79,7 +79,9 @@ class CosineLR(LRScheduler):
     def epoch_end_step(self, metrics=None):
         if self.last_epoch==0 and self.update_lr_on_batch and self.warm_restarts:
             # assures that T period is equal to integer number of epochs
-            self.T = math.ceil(self.T/self.last_batch)*self.last_batch
+            # batches are counted from 0
+            num_batches = self.last_batch + 1
+            self.T = int(math.ceil(self.T/num_batches))*num_batches
             logging.info('readjusting cos_lr T to %d' % (self.T))
 
 
-- 
2.43.0


From c0f7027ff887a4bf86f98821e47fd4f471b31ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 213/270] fix: AdamCosineLR could not be constructed or
 evaluated

---
 hyperion/torch/lr_schedulers/cos_lr.py | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 62082fa..9922dbd 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -90,24 +90,7 @@ class AdamCosineLR(CosineLR):
     def __init__(self, optimizer, T=1, T_mul=2, warmup_steps=0,
                  warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
-        super(AdamCosineLR, super).__init__(optimizer, T, T_mul, 0, warmup_steps,
-                 warm_restarts, last_restart, num_restarts, gamma,
-                 last_epoch, last_batch, update_lr_on_batch)
-
-
-    def get_lr(self, step):
-        x = step - self.last_restart
-        if x > self.T:
-            if self.warm_restarts:
-                self.last_restart = step
-                x = 0
-                self.T *= T_mul
-                self.num_restarts += 1
-            else:
-                return self.min_lrs
-
-        alpha = gamma ** self.num_restarts
-        r = math.pi/self.T
-            
-        return [alpha * base_lr * 0.5 (1 + math.cos(r * x))
-                for base_lr in self.base_lrs]
+        super(AdamCosineLR, self).__init__(
+            optimizer, T, T_mul, 0, warmup_steps,
+            warm_restarts, gamma, last_restart, num_restarts,
+            last_epoch, last_batch, update_lr_on_batch)
-- 
2.43.0


From dc33fde41936cd96917f790586aff983b3ab88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 214/270] fix: LRSchedulerFactory ignored update_lr_on_batch
 for the exponential schedule

---
 hyperion/torch/lr_schedulers/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/factory.py b/hyperion/torch/lr_schedulers/factory.py
index c84a730..bf144a6 100644
--- a/hyperion/torch/lr_schedulers/factory.py
+++ b/hyperion/torch/lr_schedulers/factory.py
@@ -31,7 +31,7 @@ class LRSchedulerFactory(object):
             return ExponentialLR(
                 optimizer, decay_rate, decay_steps, hold_steps,
                 min_lr=min_lr, warmup_steps=warmup_steps, 
-                update_lr_on_batch=False)
+                update_lr_on_batch=update_lr_on_batch)
 
         if lrsch_type == 'cos_lr':
             return CosineLR(optimizer, T, T_mul, min_lr=min_lr,
-- 
2.43.0


From 769edc332fbce4f7b9b038b7938a73bb5bda1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:30 +0000
Subject: [PATCH 215/270] fix: CSVLogger could not append to a log, write in
 the current directory or be used for a second training

---
 hyperion/torch/loggers/csv_logger.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 4ad551a..c1baf18 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -38,11 +38,11 @@ class CSVLogger(Logger):
     def on_train_begin(self, logs=None, **kwargs):
 
         file_dir = os.path.dirname(self.file_path) 
-        if not os.path.exists(file_dir):
+        if file_dir and not os.path.exists(file_dir):
             os.makedirs(file_dir)
         
         if self.append:
-            if os.path.exist(self.file_path):
+            if os.path.exists(self.file_path):
                 with open(self.file_path, 'r') as f:
                     self.append_header = len(f.readline())==0
 
@@ -77,6 +77,6 @@ class CSVLogger(Logger):
         
     def on_train_end(self, logs=None, **kwargs):
         self.csv_file.close()
-        self.writer = None
+        self.csv_writer = None
 
         
-- 
2.43.0


From 46c067033f8788be7ec13daa324becaf4e349979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 216/270] fix: TorchTrainer overwrote the log of the previous
 epochs when training was resumed and never ended its loggers

---
 hyperion/torch/torch_trainer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d89aeaa..d8294fc 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -31,6 +31,7 @@ class TorchTrainer(object):
 
         self.exp_path = exp_path
         
+        self._use_default_loggers = loggers is None
         if loggers is None:
             self.loggers = self._default_loggers()
         elif isinstance(loggers, list):
@@ -51,6 +52,10 @@ class TorchTrainer(object):
         if not os.path.exists(self.exp_path):
             os.makedirs(self.exp_path)
         
+        if self._use_default_loggers and self.cur_epoch > 0:
+            # the training continues, the log of the previous epochs is kept
+            self.loggers = self._default_loggers()
+
         val_logs = {}
         self.loggers.on_train_begin(epochs=self.epochs)
         for epoch in xrange(self.cur_epoch, self.epochs):
@@ -72,7 +77,8 @@ class TorchTrainer(object):
 
             self.save_checkpoint(logs)
 
-            
+        self.loggers.on_train_end()
+
             
     def train_epoch(self, data_loader):
 
-- 
2.43.0


From e488f9dbf7b716ea70ac8b916c97eaccb84029bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 217/270] fix: TorchTrainer without metrics failed at the first
 batch

---
 hyperion/torch/torch_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d8294fc..9588db3 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -41,7 +41,7 @@ class TorchTrainer(object):
 
         self.lr_scheduler = lr_scheduler
         
-        self.metrics = metrics
+        self.metrics = metrics or {}
         if device is None:
             device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
         self.device = device
-- 
2.43.0


From b73a571db950ce22465f84f16523fdbde9021483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 218/270] fix: TorchModel.save did not write the model

---
 hyperion/torch/torch_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index bb3e19e..de5baa6 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import os
+
 import torch
 import torch.nn as nn
 
@@ -22,12 +24,12 @@ class TorchModel(nn.Module):
 
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
-        torch.save({'config': self.get_config(),
-                    'model_state_dict': self.state_dict()})
+        torch.save({'config': config,
+                    'model_state_dict': self.state_dict()}, file_path)
 
 
     def get_reg_loss(self):
-- 
2.43.0


From d174f58ccbd36b9afa51e54c7675e33ad278adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 219/270] fix: MetricAcc depended on later changes of the
 metrics it was given and failed before the first batch

---
 hyperion/torch/utils/metric_acc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/utils/metric_acc.py b/hyperion/torch/utils/metric_acc.py
index 567c4bc..bf53eee 100644
--- a/hyperion/torch/utils/metric_acc.py
+++ b/hyperion/torch/utils/metric_acc.py
@@ -44,7 +44,7 @@ class MetricAcc(object):
                num_samples: number of samples in current batch (batch_size)
         """
         if self.keys is None:
-            self.keys = metrics.keys()
+            self.keys = list(metrics.keys())
             self.acc = np.zeros((len(self.keys),))
 
         self.count += num_samples
@@ -59,6 +59,9 @@ class MetricAcc(object):
         """ Returns metrics dictionary
         """
         logs = ODict()
+        if self.keys is None:
+            return logs
+
         for i,k in enumerate(self.keys):
             logs[k] = self.acc[i]
 
-- 
2.43.0


From 653b5a17e70ea933c8b318c13701a9600deb8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 220/270] fix: ProgLogger divided by zero at the first batch of
 an epoch and wrapped times around at one month

---
 hyperion/torch/loggers/prog_logger.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hyperion/torch/loggers/prog_logger.py b/hyperion/torch/loggers/prog_logger.py
index f2b23e2..e8ac83e 100644
--- a/hyperion/torch/loggers/prog_logger.py
+++ b/hyperion/torch/loggers/prog_logger.py
@@ -111,8 +111,9 @@ class ProgLogger(Logger):
         t1 = time.time()
         et = t1 - self.t0
         if self.batches > 0:
-            total_t = et/self.cur_batch * self.batches
-        elif self.samples > 0 and self:
+            # batches are counted from 0
+            total_t = et/(self.cur_batch+1) * self.batches
+        elif self.samples > 0 and self.cur_sample > 0:
             total_t = et/self.cur_sample * self.samples
         else:
             total_t = -1
@@ -121,22 +122,24 @@ class ProgLogger(Logger):
         if total_t == -1:
             eta = None
         else:
-            eta = self.sec2str(total_t-et)
+            eta = self.sec2str(max(total_t-et, 0))
 
         return etime, eta
             
 
     @staticmethod
     def sec2str(t):
-        t = time.gmtime(t)
-        if t.tm_mday > 1:
-            st = '%d:%d:%d:%d' % (t.tm_mday-1, t.tm_hour, t.tm_min, t.tm_sec)
-        elif t.tm_hour > 0:
-            st = '%d:%d:%d' % (t.tm_hour, t.tm_min, t.tm_sec)
-        elif t.tm_min > 0:
-            st = '%d:%d' % (t.tm_min, t.tm_sec)
+        t_min, t_sec = divmod(int(t), 60)
+        t_hour, t_min = divmod(t_min, 60)
+        t_day, t_hour = divmod(t_hour, 24)
+        if t_day > 0:
+            st = '%d:%d:%d:%d' % (t_day, t_hour, t_min, t_sec)
+        elif t_hour > 0:
+            st = '%d:%d:%d' % (t_hour, t_min, t_sec)
+        elif t_min > 0:
+            st = '%d:%d' % (t_min, t_sec)
         else: 
-            st = '%ds' % (t.tm_sec)
+            st = '%ds' % (t_sec)
             
         return st
         
-- 
2.43.0


From 9d481029fb5b810566f0b19fb6e656e8e8d5adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 221/270] fix: binary_accuracy did not return the mean, and
 BinaryAccuracyWithLogits compared logits with 0.5

---
 hyperion/torch/metrics/accuracy.py            | 2 +-
 hyperion/torch/metrics/accuracy_functional.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/metrics/accuracy.py b/hyperion/torch/metrics/accuracy.py
index e46e674..8780f5a 100644
--- a/hyperion/torch/metrics/accuracy.py
+++ b/hyperion/torch/metrics/accuracy.py
@@ -36,7 +36,7 @@ class BinaryAccuracy(TorchMetric):
 
 class BinaryAccuracyWithLogits(TorchMetric):
 
-    def __init__(self, weight=None, reduction='mean', thr=0.5):
+    def __init__(self, weight=None, reduction='mean', thr=0):
         super(BinaryAccuracyWithLogits, self).__init__(
             weight=weight, reduction=reduction)
         self.thr = thr
diff --git a/hyperion/torch/metrics/accuracy_functional.py b/hyperion/torch/metrics/accuracy_functional.py
index 853f765..770a416 100644
--- a/hyperion/torch/metrics/accuracy_functional.py
+++ b/hyperion/torch/metrics/accuracy_functional.py
@@ -78,7 +78,7 @@ def binary_accuracy(input, target, weight=None, reduction='mean', thr=0.5):
         return ok.sum().item()
 
     acc = ok.mean()/weight_mean
-    return ok.item()
+    return acc.item()
 
 
 def binary_accuracy_with_logits(input, target, weight=None, reduction='mean', thr=0):
-- 
2.43.0


From 4fd199b9bc294352ac30d1e02a3264122740a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 222/270] fix: ActivationFactory could not create activations
 from their configuration

---
 hyperion/torch/helpers/activation_factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/torch/helpers/activation_factory.py b/hyperion/torch/helpers/activation_factory.py
index 3ee401d..7c4df4e 100644
--- a/hyperion/torch/helpers/activation_factory.py
+++ b/hyperion/torch/helpers/activation_factory.py
@@ -44,7 +44,7 @@ class ActivationFactory(object):
         if isinstance(activation, dict):
             name = activation['name']
             kwargs = activation.copy()
-            del kwargs.name
+            del kwargs['name']
             return ActivationFactory.create_from_str(name, **kwargs)
             
         
@@ -99,16 +99,16 @@ class ActivationFactory(object):
                     'alpha': activation.alpha,
                     'inplace': activation.inplace}
         if isinstance(activation, nn.Sigmoid):
-            return {'name': 'simoid'}
+            return {'name': 'sigmoid'}
         if isinstance(activation, nn.Softplus):
             return {'name': 'softplus',
                     'beta': activation.beta,
                     'threshold': activation.threshold}
         if isinstance(activation, nn.Softshrink):
-            return {'name': 'softshrink'}
-        if isinstance(activation, nn.Softsign):
-            return {'name': 'softsign',
+            return {'name': 'softshrink',
                     'lambd': activation.lambd}
+        if isinstance(activation, nn.Softsign):
+            return {'name': 'softsign'}
         if isinstance(activation, nn.Tanh):
             return {'name': 'tanh'}
         if isinstance(activation, nn.Tanhshrink):
-- 
2.43.0


From c3247f34f396f898b3161900178d80da71e534ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:24 +0000
Subject: [PATCH 223/270] fix: FCNetV1 with batch normalization or dropout at
 the output did not run and its configuration did not describe it

---
 hyperion/torch/archs/fcnet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 8fe2007..fed312f 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -119,10 +119,10 @@ class FCNetV1(NetArch):
                 x = self.output_act(x)
 
             if self.output_dropout is not None:
-                x = self.droput_layers[self.num_hid_layers](x)
+                x = self.output_dropout(x)
 
         if self.use_output_batchnorm:
-            x = self.output_dropout(x)
+            x = self.output_batchnorm(x)
 
         return x
 
@@ -138,12 +138,13 @@ class FCNetV1(NetArch):
 
         config = {'num_hid_layers': self.num_hid_layers,
                   'output_units': self.output_units,
-                  'hid_units': self.hidden_units,
+                  'hid_units': self.hid_units,
                   'input_units': self.input_units,
                   'use_batchnorm': self.use_batchnorm,
                   'dropout_rate': self.dropout_rate,
-                  'use_output_batchnorm': self.output_batchnorm,
-                  'use_output_dropout': self.output_dropout,
+                  'without_output_layer': self.without_output_layer,
+                  'use_output_batchnorm': self.use_output_batchnorm,
+                  'use_output_dropout': self.use_output_dropout,
                   'output_act': output_act,
                   'hid_act': hid_act }
         
-- 
2.43.0


From c0ebd17495b9a2a4661830e04616e6f131ba0f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 224/270] fix: Dropout1d looked for dropout2d in the wrong
 module

---
 hyperion/torch/layers/dropout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/layers/dropout.py b/hyperion/torch/layers/dropout.py
index afb53f5..5749a19 100644
--- a/hyperion/torch/layers/dropout.py
+++ b/hyperion/torch/layers/dropout.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 
 import torch
 import torch.nn as nn
-import torch.functional as F
+import torch.nn.functional as F
 from torch.nn import Dropout2d
 
 class Dropout1d(Dropout2d):
-- 
2.43.0


From 5f9094fa5b49b6d556d75102adaad82679a0cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 225/270] fix: open_device asked for one device whatever
 num_gpus

---
 hyperion/torch/utils/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/utils/devices.py b/hyperion/torch/utils/devices.py
index 5798dae..1d3d5cf 100644
--- a/hyperion/torch/utils/devices.py
+++ b/hyperion/torch/utils/devices.py
@@ -12,8 +12,8 @@ def open_device(num_gpus=1, gpu_ids=None):
     os.environ['CUDA_DEVICE_ORDER']='PCI_BUS_ID'
     if gpu_ids is None:
         try:
-            result = subprocess.run('free-gpu', stdout=subprocess.PIPE)
-            gpu_ids = result.stdout.decode('utf-8')
+            result = subprocess.run(['free-gpu', '-n', str(num_gpus)], stdout=subprocess.PIPE)
+            gpu_ids = result.stdout.decode('utf-8').strip()
         except:
             gpu_ids = '0'
 
-- 
2.43.0


From 65e6101258c676ba0800b08b0155a01d6bd4f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 226/270] fix: framing.py did not compile and its padding and
 frames used undefined names

---
 hyperion/utils/framing.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/framing.py b/hyperion/utils/framing.py
index 9dfa2b8..ffefe5e 100644
--- a/hyperion/utils/framing.py
+++ b/hyperion/utils/framing.py
@@ -65,18 +65,18 @@ class Framing(object):
     """
     def __init__(self, frame_length, frame_shift=1,
                  pad_mode=None, pad_side='symmetric', **kwargs):
-        self.frame_length = frame_lenght
+        self.frame_length = frame_length
         self.frame_shift = frame_shift
         self.pad_mode = pad_mode
         self.pad_width = None
         if self.pad_mode is not None:
             self.pad_width = self.create_pad_width(
                 pad_side, frame_length, frame_shift)
-        self.pad_kwargs = **kwargs
+        self.pad_kwargs = kwargs
 
 
         
-    @static
+    @staticmethod
     def create_pad_width(pad_side, frame_length, frame_shift):
         """ Calculates the proper pad_with for left and rigth from the frame lengths and shift.
         
@@ -98,6 +98,8 @@ class Framing(object):
             pad_width=(0, int(overlap))
         else:
             raise Exception('Unknown pad_side=%s' % pad_side)
+
+        return pad_width
         
 
         
@@ -123,15 +125,16 @@ class Framing(object):
             num_samples=x.shape[0]
             in_dim=x.shape[1]
 
-        num_out_frames=int(np.floor((num_samples-frame_length)/frame_shift+1))
+        num_out_frames=max(int(np.floor(
+            (num_samples-self.frame_length)/self.frame_shift+1)), 0)
         
         vec_x=x.ravel()
-        out_dim=frame_length*in_dim
+        out_dim=self.frame_length*in_dim
         X=np.zeros((num_out_frames, out_dim), dtype=float_cpu())
         
         start=0
         stop=out_dim
-        shift=in_dim*frame_shift
+        shift=in_dim*self.frame_shift
         for i in xrange(num_out_frames):
             X[i,:]=vec_x[start:stop]
             start+=shift
-- 
2.43.0


From 1eb47bc7b65beabc6becbd04165499d580a9f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 227/270] fix: splicing.py did not compile and took frame_shift
 frames in place of the whole context

---
 hyperion/utils/splicing.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/splicing.py b/hyperion/utils/splicing.py
index ca8e5ca..4c975ad 100644
--- a/hyperion/utils/splicing.py
+++ b/hyperion/utils/splicing.py
@@ -16,7 +16,7 @@ class Splicing(object):
     Class to do splicing for DNN input
     """
     def __init__(self, left_context=0, right_context=0,
-                 frame_shift=1
+                 frame_shift=1,
                  splice_pattern=None,
                  pad_mode=None, **kwargs):
 
@@ -27,20 +27,21 @@ class Splicing(object):
         if splice_pattern is not None:
             self.left_context = - splice_pattern[0]
             self.right_context = splice_pattern[-1]
-            self.splice_pattern = splice_pattern + self.left_context
+            self.splice_pattern = np.asarray(splice_pattern) + self.left_context
         self.pad_mode = pad_mode
         self.pad_width = ((self.left_context, self.right_context), (0,0))
-        self.pad_kwargs = **kwargs
+        self.pad_kwargs = kwargs
 
         
     def splice(self, x):
         if self.pad_mode is not None:
-            x=np.pad(x, self.pad_width, **self.pad_kwargs)
+            x=np.pad(x, self.pad_width, mode=self.pad_mode, **self.pad_kwargs)
 
         num_in_frames = x.shape[0]
         in_dim = x.shape[1]
         frame_span = self.left_context+self.right_context+1
-        num_out_frames = int(np.floor((num_in_frames-frame_span)/frame_shift+1))
+        num_out_frames = max(int(np.floor(
+            (num_in_frames-frame_span)/self.frame_shift+1)), 0)
 
         if self.splice_pattern is None:
             out_dim = frame_span*in_dim
@@ -52,11 +53,11 @@ class Splicing(object):
         start=0
         for i in xrange(num_out_frames):
             if self.splice_pattern is None:
-                X[i,:]=x[start:start+frame_shift,:].ravel()
+                X[i,:]=x[start:start+frame_span,:].ravel()
             else:
-                splice_pattern = self.splice_pattern + self.start
+                splice_pattern = self.splice_pattern + start
                 X[i,:]=x[splice_pattern,:].ravel()
-            start+=frame_shift
+            start+=self.frame_shift
             
         return X
 
-- 
2.43.0


From 633b20daf38bba92f3f1bf28fddead23fde22601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:48 +0000
Subject: [PATCH 228/270] fix: OrderedQueue could not be started and hid the
 errors of its workers

---
 hyperion/io/queues.py    | 13 ++++++++++---
 hyperion/utils/queues.py | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..0133851 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -10,6 +10,8 @@ import copy
 import time
 import numpy as np
 import multiprocessing
+from multiprocessing.pool import ThreadPool
+import random
 import threading
 import six
 from abc import abstractmethod
@@ -81,6 +83,11 @@ class SequenceQueue(object):
         raise NotImplemented
 
 
+def get_index(sequence, i):
+    """Gets one element of the sequence, it runs in the workers of OrderedQueue"""
+    return sequence[i]
+
+
 class OrderedQueue(SequenceQueue):
     """Builds a Queue from a Sequence.
 
@@ -129,7 +136,7 @@ class OrderedQueue(SequenceQueue):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
-            if self.scheduling is not 'sequential':
+            if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
                 if self.stop_signal.is_set():
@@ -152,9 +159,9 @@ class OrderedQueue(SequenceQueue):
                 inputs = self.queue.get(block=True).get()
                 if inputs is not None:
                     yield inputs
-        except Exception as e:
+        except Exception:
             self.stop()
-            raise StopIteration(e)
+            raise
 
     def stop(self, timeout=None):
         """Stops running threads and wait for them to exit, if necessary.
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..0133851 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -10,6 +10,8 @@ import copy
 import time
 import numpy as np
 import multiprocessing
+from multiprocessing.pool import ThreadPool
+import random
 import threading
 import six
 from abc import abstractmethod
@@ -81,6 +83,11 @@ class SequenceQueue(object):
         raise NotImplemented
 
 
+def get_index(sequence, i):
+    """Gets one element of the sequence, it runs in the workers of OrderedQueue"""
+    return sequence[i]
+
+
 class OrderedQueue(SequenceQueue):
     """Builds a Queue from a Sequence.
 
@@ -129,7 +136,7 @@ class OrderedQueue(SequenceQueue):
         """Function to submit request to the executor and queue the `Future` objects."""
         sequence = list(range(len(self.sequence)))
         while True:
-            if self.scheduling is not 'sequential':
+            if self.scheduling != 'sequential':
                 random.shuffle(sequence)
             for i in sequence:
                 if self.stop_signal.is_set():
@@ -152,9 +159,9 @@ class OrderedQueue(SequenceQueue):
                 inputs = self.queue.get(block=True).get()
                 if inputs is not None:
                     yield inputs
-        except Exception as e:
+        except Exception:
             self.stop()
-            raise StopIteration(e)
+            raise
 
     def stop(self, timeout=None):
         """Stops running threads and wait for them to exit, if necessary.
-- 
2.43.0


From e568dea06dc3bc7f49144f6e16f65f2264302737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 229/270] fix: Keras pooling layers failed or weighted by the
 wrong axis with weights given as (batch, time)

---
 hyperion/keras/layers/pooling.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/layers/pooling.py b/hyperion/keras/layers/pooling.py
index 4659405..3c22c87 100644
--- a/hyperion/keras/layers/pooling.py
+++ b/hyperion/keras/layers/pooling.py
@@ -33,6 +33,9 @@ class GlobalMaskedMaxPooling1D(Layer):
     
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         return K2.max_with_mask(x, weights, axis=1)
 
     
@@ -473,6 +476,9 @@ class GlobalProdRenormDiagNormalStdPrior2(Layer):
     def call(self, xvw, mask=None):
         # input: mu_i/sigma2_i, log sigma2_i
         x, y, weights = xvw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights, axis=1)
         # p = (1+exp(y))/(1+b exp(y))                                                                                                                                                                 
         # p-1 = (1-b)exp(y)/(1+b exp(y)) = (1-b)/(b+exp(-y))
@@ -515,6 +521,9 @@ class GlobalProdRenormDiagNormalStdPrior3(Layer):
     def call(self, xvw, mask=None):
         # input: mu_i/sigma2_i, log sigma2_i
         x, y, weights = xvw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         mu = K.mean(x*weights, axis=1)
         # p = (1+exp(y))/(1+b exp(y))
         # p-1 = (1-b)exp(y)/(1+b exp(y)) = (1-b)/(b+exp(-y))
@@ -542,7 +551,7 @@ class GlobalProdRenormDiagNormalCommonCovStdPrior(Layer):
 
     def __init__(self, **kwargs):
         super(GlobalProdRenormDiagNormalCommonCovStdPrior, self).__init__(**kwargs)
-        self.input_spec = [InputSpec(ndim=3), InputSpec(ndim=2), InputSpec(ndim=2)]
+        self.input_spec = [InputSpec(ndim=3), InputSpec(ndim=2), InputSpec(min_ndim=2)]
         self.supports_masking = True
 
         
@@ -554,6 +563,9 @@ class GlobalProdRenormDiagNormalCommonCovStdPrior(Layer):
     def call(self, xvw, mask=None):
         # input: mu_i/sigma2_i, log sigma2_i
         x, logvar_i, weights = xvw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights,axis=1) 
         N = K.sum(weights, axis=1)
         prec_i = K.exp(-logvar_i)
@@ -744,6 +756,9 @@ class GlobalProdRenormDiagNormalConstCovStdPrior(Layer):
         
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights, axis=1) 
         N = K.sum(weights, axis=1)
         prec_1 = K.exp(-self.logvar)
@@ -810,6 +825,9 @@ class GlobalProdRenormDiagNormalConstCovStdPrior2(Layer):
         
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights, axis=1) 
         N = K.sum(weights, axis=1)
         prec_1 = K.relu(self.prec_1)
@@ -888,6 +906,9 @@ class GlobalProdRenormDiagNormalConstCovStdPrior3(Layer):
         
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights, axis=1) 
         N = K.sum(weights, axis=1)
         prec = 1 + K.relu(N * self.prec_1 + self.bias)
@@ -966,6 +987,9 @@ class GlobalProdRenormDiagNormalConstCovStdPrior4(Layer):
         
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights, axis=1) 
         N = K.sum(weights, axis=1)
         #prec = 1 + K.relu(N * self.prec_1)
@@ -1101,6 +1125,9 @@ class GlobalProdRenormNormalConstCovStdPrior(Layer):
     def call(self, xw, mask=None):
         # input: mu_i/sigma2_i
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
+
         gamma = K.sum(x*weights,axis=1) 
         N = K.sum(weights, axis=1, keepdims=True)
         var_i = K.exp(self.D)
-- 
2.43.0


From b3af74d3bdb88467141702ee3d8c55fd4c245765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 230/270] fix: GlobalMaskedAveragePooling1D failed with a mask
 and without it

---
 hyperion/keras/layers/pooling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/layers/pooling.py b/hyperion/keras/layers/pooling.py
index 3c22c87..1c3e92b 100644
--- a/hyperion/keras/layers/pooling.py
+++ b/hyperion/keras/layers/pooling.py
@@ -53,7 +53,14 @@ class GlobalMaskedAveragePooling1D(_GlobalPooling1D):
 
         
     def call(self, x, mask=None):
-        return K.mean(x[mask.nonzeros(),:], axis=1)
+        if mask is None:
+            return K.mean(x, axis=1)
+        mask = K.expand_dims(K.cast(mask, K.floatx()), axis=-1)
+        return K.sum(x*mask, axis=1)/K.sum(mask, axis=1)
+
+    
+    def compute_mask(self, inputs, mask=None):
+        return None
 
 
     
-- 
2.43.0


From c2e96fda3d146947711cce6b7427adaddf23d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 231/270] fix: MultConstCovStdPrior gave the mean with a
 covariance that was not symmetric and had no output shape or configuration

---
 hyperion/keras/layers/cov.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/layers/cov.py b/hyperion/keras/layers/cov.py
index 4c0a3f0..44a1d50 100644
--- a/hyperion/keras/layers/cov.py
+++ b/hyperion/keras/layers/cov.py
@@ -180,7 +180,7 @@ class MultConstCovStdPrior(Layer):
     def call(self, x, mask=None):
         logvar = - K.log(1+K.exp(self.D))
         var = K.exp(logvar)
-        cov = K.dot(self.chol.T, var*self.chol)
+        cov = K.dot(K.transpose(self.chol)*var, self.chol)
         mu  = K.dot(x, cov)
         tile_shape = list(K.shape(mu))
         tile_shape[-1] = 1
@@ -193,7 +193,7 @@ class MultConstCovStdPrior(Layer):
     def compute_output_shape(self, input_shape):
         assert input_shape and len(input_shape) >= 2
         assert input_shape[-1]
-        output_shape_chol = tuple([self.input_dim]*(len(input_shape)+1))
+        output_shape_chol = tuple(input_shape) + (input_shape[-1],)
         return [input_shape, input_shape, output_shape_chol]
 
     
@@ -206,7 +206,7 @@ class MultConstCovStdPrior(Layer):
                   'D_constraint': constraints.serialize(self.D_constraint)}
         #          'chol_constraint': constraints.serialize(self.chol_constraint)}
         
-        base_config = super(MultConstVarStdPrior, self).get_config()
+        base_config = super(MultConstCovStdPrior, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
     
-- 
2.43.0


From 9ad344f65f32e110fdb1f2201f035a035cc7eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 232/270] fix: ExpTaylor could not be made and summed the wrong
 series

---
 hyperion/keras/layers/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/keras/layers/core.py b/hyperion/keras/layers/core.py
index b51ac9f..4785d32 100644
--- a/hyperion/keras/layers/core.py
+++ b/hyperion/keras/layers/core.py
@@ -226,17 +226,16 @@ class Exp(Layer):
 
 
 class ExpTaylor(Layer):
-    def __init__(self, order=1):
+    def __init__(self, order=1, **kwargs):
+        super(ExpTaylor, self).__init__(**kwargs)
         self.order = order
 
         
     def call(self, inputs, mask=None):
         y = inputs + 1
-        f = 1
         xx = inputs
-        for i in xrange(1, self.order):
-            f = i*f
-            xx = xx*inputs/f
+        for i in range(2, self.order+1):
+            xx = xx*inputs/i
             y = y + xx
         return y
     
-- 
2.43.0


From acbc3053452626bb4169abf59db32e041c312f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 233/270] fix: KLDivNormalVsDiagNormal took two inputs in place
 of four; KLDivNormalVsStdNormal lost time_norm in its configuration

---
 hyperion/keras/layers/losses.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/keras/layers/losses.py b/hyperion/keras/layers/losses.py
index ef02447..3b4c07b 100644
--- a/hyperion/keras/layers/losses.py
+++ b/hyperion/keras/layers/losses.py
@@ -89,7 +89,8 @@ class KLDivNormalVsStdNormal(Layer):
     def get_config(self):
         config = {'in_fmt': '+'.join(self.in_fmt),
                   'min_kl': self.min_kl,
-                  'beta': self.beta}
+                  'beta': self.beta,
+                  'time_norm': self.time_norm}
         base_config =super(KLDivNormalVsStdNormal, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
@@ -104,7 +105,7 @@ class KLDivNormalVsDiagNormal(Layer):
         self.min_kl = min_kl # free bits
         self.beta = beta # annealing
         
-        self.input_spec = [InputSpec(min_ndim=2), InputSpec(min_ndim=2)]
+        self.input_spec = [InputSpec(min_ndim=2) for i in range(4)]
         self.supports_masking = True
     
 
@@ -129,10 +130,8 @@ class KLDivNormalVsDiagNormal(Layer):
 
 
     def compute_output_shape(self, input_shape):
-        assert input_shape and len(input_shape) == 2
-        output_shape = list(input_shape[0])
-        output_shape[-1] = self.units
-        return tuple(output_shape)
+        assert input_shape and len(input_shape) == 4
+        return tuple(input_shape[0][:-1])
 
 
     def get_config(self):
-- 
2.43.0


From 239acd343248d6a692335a9a944d01fad1bbf555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 234/270] fix: CatQScoringDiagNormalPostStdPrior failed with an
 undefined name

---
 hyperion/keras/layers/scoring.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hyperion/keras/layers/scoring.py b/hyperion/keras/layers/scoring.py
index b54bbd3..eefd6bf 100644
--- a/hyperion/keras/layers/scoring.py
+++ b/hyperion/keras/layers/scoring.py
@@ -57,16 +57,18 @@ class CatQScoringDiagNormalPostStdPrior(Layer):
         eta_t = p1_t  # (batch x dim)
         L_t = p2_t  # (batch x dim)
 
-        #### TODO
-        L_et = L_t + Le - 1 # (batch x dim)
+        eta_t = K.expand_dims(eta_t, axis=1) # (batch x 1 x dim)
+        L_t = K.expand_dims(L_t, axis=1)     # (batch x 1 x dim)
 
-        C_et = 1/L_et        # (batch x dim)
-        C_e = C_et - 1/L_e # (batch x dim)
-        C_t = C_et - 1/L_t # (batch x dim)
+        L_et = L_t + L_e - 1 # (batch x num_classes x dim)
 
-        r_e = K.sum(K.log(L_e), axis=1, keepdims=True) + K.dot(C_e, K.transpose(eta_e*eta_e))          # (batch x num_classes)
-        r_t = K.sum(K.log(L_t), axis=1, keepdims=True) + K.sum(C_t*eta_t**2, axis=1, keepdims=True)    # (batch x 1)
-        r_et = -K.sum(K.log(L_et), axis=1, keepdims=True) + 2 * np.dot(eta_t*C_et, K.transpose(eta_e)) # (batch x num_classes)          
+        C_et = 1/L_et        # (batch x num_classes x dim)
+        C_e = C_et - 1/L_e # (batch x num_classes x dim)
+        C_t = C_et - 1/L_t # (batch x num_classes x dim)
+
+        r_e = K.sum(K.log(L_e), axis=-1) + K.sum(C_e*eta_e**2, axis=-1)         # (batch x num_classes)
+        r_t = K.sum(K.log(L_t), axis=-1) + K.sum(C_t*eta_t**2, axis=-1)         # (batch x num_classes)
+        r_et = -K.sum(K.log(L_et), axis=-1) + 2 * K.sum(eta_t*C_et*eta_e, axis=-1) # (batch x num_classes)
         logR = 0.5*(r_et + r_e + r_t)
         return logR
 
-- 
2.43.0


From bb455e79b08770461802a11d672f8d597fa00eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 235/270] fix: the samplers by sequence gave an output shape
 without the number of samples

---
 hyperion/keras/layers/sampling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 8d4ad14..1c53899 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -202,6 +202,8 @@ class TiedNormalDiagCovSampler(NormalDiagCovSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
@@ -314,6 +316,8 @@ class DiagNormalSamplerFromSeqLevel(DiagNormalSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
@@ -443,6 +447,8 @@ class NormalSamplerFromSeqLevel(NormalSampler):
         
     def compute_output_shape(self, input_shape):
         output_shape = list(input_shape[0])
+        if output_shape[0] is not None:
+            output_shape[0] *= self.num_samples
         output_shape.insert(1, self.seq_length)
         return tuple(output_shape)
 
-- 
2.43.0


From a5d0454e801d8db30e469b54c9cbcfd5b412f172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 236/270] fix: the samplers from sequence level could not be
 made again from their configuration

---
 hyperion/keras/layers/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 1c53899..6c97748 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -342,7 +342,7 @@ class DiagNormalSamplerFromSeqLevel(DiagNormalSampler):
         
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(DiagNormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
@@ -475,7 +475,7 @@ class NormalSamplerFromSeqLevel(NormalSampler):
     
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(NormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From e372da5373444806b541e6c732bc4c79b35ec189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 237/270] fix: NormalSampler gave another covariance with var
 and std than with logvar

---
 hyperion/keras/layers/sampling.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 6c97748..2bd6961 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -419,14 +419,12 @@ class NormalSampler(Sampler):
     @staticmethod
     def _g_var_chol(p, epsilon):
         mu, var, chol = p
-        epsilon = K.batch_dot(epsilon, chol, axes=(1, 2))
-        return mu + K.sqrt(K.abs(var)) * epsilon
+        return NormalSampler._g_logvar_chol([mu, K.log(K.abs(var)), chol], epsilon)
 
     @staticmethod
     def _g_std_chol(p, epsilon):
         mu, s, chol = p
-        epsilon = K.batch_dot(epsilon, chol, axes=(1, 2))
-        return mu + K.abs(s) * epsilon
+        return NormalSampler._g_logvar_chol([mu, 2*K.log(K.abs(s)), chol], epsilon)
 
 
 
-- 
2.43.0


From 7ead027c006b3a66fe365495435cbcb52b80515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 238/270] fix: Bernoulli losses took the prediction as the
 target

---
 hyperion/keras/losses.py     | 2 +-
 hyperion/keras/objectives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 0222d2d..77be65a 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -31,7 +31,7 @@ def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
         T = get_seq_length(y_true)
-    return T*K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return T*K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def nllk_normal_diag_cov(y_true, y_pred, time_norm=True):
diff --git a/hyperion/keras/objectives.py b/hyperion/keras/objectives.py
index 9c4f030..467117f 100644
--- a/hyperion/keras/objectives.py
+++ b/hyperion/keras/objectives.py
@@ -16,7 +16,7 @@ one=np.exp(0).astype(float_keras())
 
 
 def bernoulli(y_true, y_pred):
-    return K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def diag_normal(y_true, y_pred):
-- 
2.43.0


From f02acaa322805ddea5b04118066ef3411639827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 239/270] fix: SwishBeta could not be made

---
 hyperion/keras/layers/advanced_activations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/layers/advanced_activations.py b/hyperion/keras/layers/advanced_activations.py
index c4c3264..0bf0d6a 100644
--- a/hyperion/keras/layers/advanced_activations.py
+++ b/hyperion/keras/layers/advanced_activations.py
@@ -6,6 +6,7 @@ import numpy as np
 
 import keras.backend as K
 from keras.engine import InputSpec, Layer
+from keras import activations, initializers, regularizers, constraints
 
 
 class Swish(Layer):
@@ -42,9 +43,9 @@ class SwishBeta(Layer):
     """
 
     def __init__(self, beta=1, **kwargs):
-        super(Swish, self).__init__(**kwargs)
+        super(SwishBeta, self).__init__(**kwargs)
         self.supports_masking = True
-        self.beta_initializer = K.cast_to_floatx(beta)
+        self.beta_initializer = initializers.Constant(beta)
 
     def build(self, input_shape):
         input_dim = input_shape[-1]
@@ -53,7 +54,7 @@ class SwishBeta(Layer):
                                     name='beta')
         self.input_spec = InputSpec(dtype=K.floatx(),
                                     min_ndim=2, axes={-1: input_dim})
-        self.build = True
+        self.built = True
 
         
     def call(self, inputs):
-- 
2.43.0


From 77b4e7616e5a866c39fc9d7432a3d9c4e38287b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 240/270] fix: NIN failed with undefined names

---
 hyperion/keras/layers/advanced_activations.py | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/hyperion/keras/layers/advanced_activations.py b/hyperion/keras/layers/advanced_activations.py
index 0bf0d6a..11d4da0 100644
--- a/hyperion/keras/layers/advanced_activations.py
+++ b/hyperion/keras/layers/advanced_activations.py
@@ -80,19 +80,19 @@ class NIN(Layer):
                  **kwargs):
         if 'input_shape' not in kwargs and 'input_dim' in kwargs:
             kwargs['input_shape'] = (kwargs.pop('input_dim'),)
-            super(NIN, self).__init__(**kwargs)
-            self.output_units = output_units
-            self.hidden_units = hidden_units
-            self.input_units = input_units
-            self.activation = activations.get(activation)
-            self.U1_initializer = initializers.get(U1_initializer)
-            self.U2_initializer = initializers.get(U2_initializer)
-            self.U1_regularizer = regularizers.get(U1_regularizer)
-            self.U2_regularizer = regularizers.get(U2_regularizer)
-            self.U1_constraint = constraints.get(U1_constraint)
-            self.U2_constraint = constraints.get(U2_constraint)
-            self.input_spec = InputSpec(min_ndim=2)
-            self.supports_masking = True
+        super(NIN, self).__init__(**kwargs)
+        self.output_units = output_units
+        self.hidden_units = hidden_units
+        self.input_units = input_units
+        self.activation = activations.get(activation)
+        self.U1_initializer = initializers.get(U1_initializer)
+        self.U2_initializer = initializers.get(U2_initializer)
+        self.U1_regularizer = regularizers.get(U1_regularizer)
+        self.U2_regularizer = regularizers.get(U2_regularizer)
+        self.U1_constraint = constraints.get(U1_constraint)
+        self.U2_constraint = constraints.get(U2_constraint)
+        self.input_spec = InputSpec(min_ndim=2)
+        self.supports_masking = True
 
     def build(self, input_shape):
         assert len(input_shape) >= 2
@@ -123,13 +123,13 @@ class NIN(Layer):
 
         inputs= self.activation(inputs)
         output=[]
-        for i in xrange(self.num_micronets):
-            first = i*self.input_dim
+        for i in range(self.num_micronets):
+            first = i*self.input_units
             output_i = K.dot(self.activation(
-                K.dot(self.inputs[:, first:first+self.input_units], self.U1)),
+                K.dot(inputs[..., first:first+self.input_units], self.U1)),
                              self.U2)
             output.append(output_i)
-        output=K.cocatenate(tuple(output), axis=-1)
+        output=K.concatenate(output, axis=-1)
         return self.activation(output)
 
     
@@ -161,5 +161,5 @@ class NIN(Layer):
             'U1_constraint': constraints.serialize(self.U1_constraint),
             'U2_constraint': constraints.serialize(self.U2_constraint)
         }
-        base_config = super(Dense, self).get_config()
+        base_config = super(NIN, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
-- 
2.43.0


From 1dddf85a0d06ca99606e60fdce8b02e67e63c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 241/270] fix: ExpandDim could not be made, ExpandAndTile
 failed, and the output shape with a negative axis was wrong

---
 hyperion/keras/layers/tensor_manipulation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hyperion/keras/layers/tensor_manipulation.py b/hyperion/keras/layers/tensor_manipulation.py
index 48cedb9..2cd722c 100644
--- a/hyperion/keras/layers/tensor_manipulation.py
+++ b/hyperion/keras/layers/tensor_manipulation.py
@@ -51,14 +51,14 @@ class ExpandAndTile(Layer):
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
-        output_shape[self.axis]*=self.n
+        axis = self.axis if self.axis >= 0 else len(output_shape)+1+self.axis
+        output_shape.insert(axis, self.n)
         return tuple(output_shape)
 
     
     def call(self, inputs, mask=None):
         t=K.expand_dims(inputs, axis=self.axis)
-        tile_shape=[1]*K.ndims()
+        tile_shape=[1]*K.ndim(t)
         tile_shape[self.axis]=self.n
         return K.tile(t, tuple(tile_shape))
 
@@ -75,13 +75,14 @@ class ExpandDim(Layer):
     '''Expand 1 dimension
     '''
     def __init__(self, axis=-1, **kwargs):
-        super(Expand, self).__init__(**kwargs)
+        super(ExpandDim, self).__init__(**kwargs)
         self.axis = axis
     
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
+        axis = self.axis if self.axis >= 0 else len(output_shape)+1+self.axis
+        output_shape.insert(axis, 1)
         return tuple(output_shape)
 
     
@@ -91,7 +92,7 @@ class ExpandDim(Layer):
     
     def get_config(self):
         config = {'axis': self.axis}
-        base_config = super(ExpandAndTile, self).get_config()
+        base_config = super(ExpandDim, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
     
-- 
2.43.0


From cacfa590e8b579f2e3c8570485baae99af32fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:25 +0000
Subject: [PATCH 242/270] fix: TensorFlow addons: max_with_mask gave zero for
 negative maxima, cholesky and diag failed

---
 hyperion/keras/backend_addons/tensorflow_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/backend_addons/tensorflow_backend.py b/hyperion/keras/backend_addons/tensorflow_backend.py
index 67cc666..398005c 100644
--- a/hyperion/keras/backend_addons/tensorflow_backend.py
+++ b/hyperion/keras/backend_addons/tensorflow_backend.py
@@ -6,7 +6,7 @@ import tensorflow as tf
 import keras.backend as K
 
 def diag(x):
-    return tf.diag(x)
+    return tf.diag_part(x)
 
 def matrix_inverse(x):
     return tf.matrix_inverse(x)
@@ -14,7 +14,7 @@ def matrix_inverse(x):
 def cholesky(x, lower=False):
     if lower:
         return tf.cholesky(x)
-    return tf.cholesky(x).T
+    return tf.matrix_transpose(tf.cholesky(x))
 
 def tile(x, n):
     return tf.tile(x, n)
@@ -22,7 +22,7 @@ def tile(x, n):
 
 def max_with_mask(x, mask, axis=None, keepdims=False):
     y = x - 1e10 * (1-mask)
-    return tf.reduce_max(y*mask, axis=axis, keepdims=keepdims)
+    return tf.reduce_max(y, axis=axis, keepdims=keepdims)
 
 
 
-- 
2.43.0


From 77f71ca68cc77af6ea002d202330ad425eb6e007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:44 +0000
Subject: [PATCH 243/270] fix: categorical and Bernoulli losses without time
 normalisation multiplied the frames by the lengths of other sequences

---
 hyperion/keras/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 77be65a..60976d9 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -23,14 +23,14 @@ def get_seq_length(x):
 def nllk_categorical(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.categorical_crossentropy(y_true, y_pred)
 
 
 def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
-- 
2.43.0


From f30eedfbd68fb43a9a4ea9d75da8e9b6d3e2eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 244/270] fix: embeddings of sequences longer than a chunk
 shifted the frames of every chunk but the first by the left context; a short
 last chunk kept frames of the previous one

---
 hyperion/keras/embed/seq_embed.py     |  7 +++++--
 hyperion/keras/embed/seq_embed_lde.py |  7 +++++--
 hyperion/keras/embed/seq_q_embed.py   | 11 +++++++----
 hyperion/keras/vae/tied_dvae_qy.py    | 11 +++++++----
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/hyperion/keras/embed/seq_embed.py b/hyperion/keras/embed/seq_embed.py
index 293f001..37a89be 100644
--- a/hyperion/keras/embed/seq_embed.py
+++ b/hyperion/keras/embed/seq_embed.py
@@ -228,13 +228,16 @@ class SeqEmbed(HypModel):
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the outputs affected by the left edge of the chunk were computed by the previous chunk
+            l_skip = 0 if i==0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_skip, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[l_skip:l_skip+l_out]
 
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index a0c2a04..12de89d 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -243,13 +243,16 @@ class SeqEmbedLDE(HypModel):
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the outputs affected by the left edge of the chunk were computed by the previous chunk
+            l_skip = 0 if i==0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_skip, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[l_skip:l_skip+l_out]
 
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 51f5529..1b70222 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -217,20 +217,23 @@ class SeqQEmbed(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the outputs affected by the left edge of the chunk were computed by the previous chunk
+            l_skip = 0 if i==0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_skip, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.prepool_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,l_skip:l_skip+l_out]
+            p2[j_out:k_out] = p2_i[0,l_skip:l_skip+l_out]
             
             j_in += in_shift
             j_out += pool_shift
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index bd5fb68..f45d054 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -209,20 +209,23 @@ class TiedDVAE_QY(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            # the outputs affected by the left edge of the chunk were computed by the previous chunk
+            l_skip = 0 if i==0 else pool_left_context
+            k_out = min(j_out+pool_seq_length-l_skip, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,l_skip:l_skip+l_out]
+            p2[j_out:k_out] = p2_i[0,l_skip:l_skip+l_out]
             
             j_in += in_shift
             j_out += pool_shift
-- 
2.43.0


From 00123a41bc2d750965fcd817bc7538ec8aa7e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 245/270] fix: fit of SeqQEmbed, SeqMetaEmbed and TiedDVAE_QY
 failed

---
 hyperion/keras/embed/seq_meta_embed.py | 2 +-
 hyperion/keras/embed/seq_q_embed.py    | 2 +-
 hyperion/keras/vae/tied_dvae_qy.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/embed/seq_meta_embed.py b/hyperion/keras/embed/seq_meta_embed.py
index 68a2c99..a6a6596 100644
--- a/hyperion/keras/embed/seq_meta_embed.py
+++ b/hyperion/keras/embed/seq_meta_embed.py
@@ -134,7 +134,7 @@ class SeqMetaEmbed(HypModel):
 
     
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 1b70222..4dcf1a9 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -268,7 +268,7 @@ class SeqQEmbed(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index f45d054..5d1ce58 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -260,7 +260,7 @@ class TiedDVAE_QY(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
-- 
2.43.0


From a0b41314ea28955de6de710267ac886260a1c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 246/270] fix: SeqEmbedLDE lost the order of its encoder when
 saved

---
 hyperion/keras/embed/seq_embed_lde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index 12de89d..b771dbd 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -318,6 +318,7 @@ class SeqEmbedLDE(HypModel):
         config = { 'pooling': self.pooling,
                    'loss': self.loss,
                    'num_comp': self.num_comp,
+                   'lde_order': self.lde_order,
                    'left_context': self.left_context,
                    'right_context': self.right_context,
                    'begin_context': self.begin_context,
-- 
2.43.0


From 44ca7e9f6697779d008037bcba8015ee044f7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 247/270] fix: SeqQEmbed and TiedDVAE_QY gave embeddings
 without the correlation penalty they were trained with

---
 hyperion/keras/embed/seq_q_embed.py | 6 ++++--
 hyperion/keras/vae/tied_dvae_qy.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 4dcf1a9..a004e97 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -184,7 +184,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -254,7 +255,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.score_net(q_embed)
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 5d1ce58..7813838 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -176,7 +176,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -246,7 +247,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalNormalDiagCovPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var, frame_corr_penalty=self.frame_corr_penalty,
+            name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.pt_net(q_embed)
-- 
2.43.0


From bec2a435bd50c3cb2e9fb93ddb95487e0c34a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 248/270] fix: the option of log-variances at the output of the
 pooling was misspelt

---
 hyperion/keras/embed/seq_q_embed.py | 4 ++--
 hyperion/keras/vae/tied_dvae_qy.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index a004e97..16ca310 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -367,9 +367,9 @@ class SeqQEmbed(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='nat+prec',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 7813838..03b1094 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -359,9 +359,9 @@ class TiedDVAE_QY(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='mean+var',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
-- 
2.43.0


From 416d84e0feb9fad72e732e5e938d66455639efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 249/270] fix: TiedDVAE_QY could not be loaded

---
 hyperion/keras/vae/tied_dvae_qy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 03b1094..41d6599 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -313,12 +313,12 @@ class TiedDVAE_QY(HypModel):
         file_model = '%s.pt.h5' % (file_path)
         pt_net = load_model(file_model, custom_objects=get_keras_custom_obj())
 
-        filter_args = ('post_pdf', 'pooling_input', 'pooling_output',
+        filter_args = ('loss', 'post_pdf', 'pooling_input', 'pooling_output',
                        'left_context', 'right_context',
                        'begin_context', 'end_context',
                        'min_var', 'kl_weight', 'frame_corr_penalty', 'name')
         kwargs = {k: config[k] for k in filter_args if k in config }
-        return cls(qy_net, config['num_classes'], pt_net, **kwargs)
+        return cls(qy_net, pt_net, **kwargs)
 
     
     
-- 
2.43.0


From 4a0af788ec03347c42d8cedea71bd9a7eb6d71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 250/270] fix: SeqMetaEmbed could not be built

---
 hyperion/keras/embed/seq_meta_embed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/embed/seq_meta_embed.py b/hyperion/keras/embed/seq_meta_embed.py
index a6a6596..fb2216a 100644
--- a/hyperion/keras/embed/seq_meta_embed.py
+++ b/hyperion/keras/embed/seq_meta_embed.py
@@ -56,8 +56,8 @@ class SeqMetaEmbed(HypModel):
         frame_embed = self.embed_net1(x)
 
         meta_embed = GlobalDiagNormalPostStdPriorPooling1D(
-            input_format=self.pooling_input,
-            output_format=self.pooling_output,
+            in_fmt=self.pooling_input,
+            out_fmt=self.pooling_output,
             min_var=self.min_var, name='pooling')(frame_embed+[mask])
 
         if self.score_net is None:
-- 
2.43.0


From 1017390602d9d1c7fa50032fb069fb6d3b3f13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:04 +0000
Subject: [PATCH 251/270] fix: models with the KL, sampling, activation and
 format layers could not be loaded

---
 hyperion/keras/keras_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hyperion/keras/keras_utils.py b/hyperion/keras/keras_utils.py
index 256bac5..571a413 100644
--- a/hyperion/keras/keras_utils.py
+++ b/hyperion/keras/keras_utils.py
@@ -18,6 +18,8 @@ from .layers.pooling import *
 from .layers.scoring import *
 from .layers.tensor_manipulation import *
 from .layers.feats import *
+from .layers.losses import *
+from .layers.advanced_activations import *
 
 
 def get_keras_custom_obj():
@@ -62,14 +64,24 @@ def get_keras_custom_obj():
         'MultConstDiagCov': MultConstDiagCov,
         'MultConstDiagCovStdPrior': MultConstDiagCovStdPrior,
         'MultConstCovStdPrior': MultConstCovStdPrior,
+        'ConvertNormalDiagCovPostStdPriorFmt': ConvertNormalDiagCovPostStdPriorFmt,
+        'KLDivNormalVsStdNormal': KLDivNormalVsStdNormal,
+        'KLDivNormalVsDiagNormal': KLDivNormalVsDiagNormal,
         'BernoulliSampler': BernoulliSampler,
         'NormalDiagCovSampler': NormalDiagCovSampler,
+        'TiedNormalDiagCovSampler': TiedNormalDiagCovSampler,
         'DiagNormalSampler': DiagNormalSampler,
         'DiagNormalSamplerFromSeqLevel': DiagNormalSamplerFromSeqLevel,
+        'NormalSampler': NormalSampler,
+        'NormalSamplerFromSeqLevel': NormalSamplerFromSeqLevel,
         'CatQScoringDiagNormalPostStdPrior': CatQScoringDiagNormalPostStdPrior,
         'CatQScoringDiagNormalHomoPostStdPrior': CatQScoringDiagNormalHomoPostStdPrior,
         'Repeat': Repeat,
         'ExpandAndTile': ExpandAndTile,
+        'ExpandDim': ExpandDim,
+        'Swish': Swish,
+        'SwishBeta': SwishBeta,
+        'NIN': NIN,
         'Clip': Clip,
         'DCT': DCT,
         'MelFB': MelFB,
-- 
2.43.0


From cc3594d13ae2825dda231ecbf4f8620c0634d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:02 +0000
Subject: [PATCH 252/270] fix: SeqQEmbed and TiedDVAE_QY could not be built
 with an encoder that reduces the number of frames

---
 hyperion/keras/embed/seq_q_embed.py | 2 +-
 hyperion/keras/vae/tied_dvae_qy.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 16ca310..554d6a3 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -12,7 +12,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 41d6599..5cadca9 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -13,7 +13,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
-- 
2.43.0


From f6cf125c2a4db10f755d69464a8c32163dd0e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 253/270] fix: ReduceLROnPlateauIncreaseOnImprovement could not
 be made

---
 hyperion/keras/callbacks/lr_schedulers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/callbacks/lr_schedulers.py b/hyperion/keras/callbacks/lr_schedulers.py
index 1b11d01..3b7efdc 100644
--- a/hyperion/keras/callbacks/lr_schedulers.py
+++ b/hyperion/keras/callbacks/lr_schedulers.py
@@ -5,6 +5,9 @@ from __future__ import division
 from six.moves import xrange
 
 import logging
+import warnings
+
+import numpy as np
 
 import keras.backend as K
 from keras.callbacks import Callback
@@ -70,10 +73,10 @@ class ReduceLROnPlateauIncreaseOnImprovement(Callback):
     def __init__(self, monitor='val_loss', red_factor=0.1, inc_factor=1.1, patience=10,
                  mode='auto', min_delta=1e-4, cooldown=0, min_lr=0,
                  **kwargs):
-        super(ReduceLROnPlateau, self).__init__()
+        super(ReduceLROnPlateauIncreaseOnImprovement, self).__init__()
 
         self.monitor = monitor
-        if factor >= 1.0:
+        if red_factor >= 1.0:
             raise ValueError('ReduceLROnPlateau '
                              'does not support a factor >= 1.0.')
         if 'epsilon' in kwargs:
-- 
2.43.0


From 34092a295365d6ab5af2845201a41cae539bd7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 254/270] fix: HypModelCheckpoint ignored the direction of the
 metric and the period

---
 hyperion/keras/callbacks/checkpointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/callbacks/checkpointers.py b/hyperion/keras/callbacks/checkpointers.py
index 5318333..37ccbca 100644
--- a/hyperion/keras/callbacks/checkpointers.py
+++ b/hyperion/keras/callbacks/checkpointers.py
@@ -16,7 +16,7 @@ class HypModelCheckpoint(ModelCheckpoint):
                  mode='auto', period=1):
         super(HypModelCheckpoint, self).__init__(
             filepath, monitor, verbose,
-            save_best_only, False, mode='auto', period=1)
+            save_best_only, False, mode=mode, period=period)
         self.hyp_model = model
 
     
-- 
2.43.0


From c7323fd03bcb41331bcc48b794022df2a0d8ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 255/270] fix: the option amsgrad of the Keras optimizers was
 lost

---
 hyperion/keras/helpers/optimizer_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/helpers/optimizer_factory.py b/hyperion/keras/helpers/optimizer_factory.py
index 1a72233..fff26f8 100644
--- a/hyperion/keras/helpers/optimizer_factory.py
+++ b/hyperion/keras/helpers/optimizer_factory.py
@@ -43,7 +43,7 @@ class OptimizerFactory(object):
             p = prefix + '_'
         valid_args = ('opt_type', 'lr', 'momentum', 'lr_decay',
                       'rho', 'epsilon', 'beta_1', 'beta_2',
-                      'clipnorm', 'clipvalue')
+                      'clipnorm', 'clipvalue', 'amsgrad')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
     
-- 
2.43.0


From 1cf8daae604553fdaf566323461475a11ddd2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 256/270] fix: the losses by sample of a model with one output
 failed with undefined names

---
 hyperion/keras/keras_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/keras_utils.py b/hyperion/keras/keras_utils.py
index 571a413..94272a2 100644
--- a/hyperion/keras/keras_utils.py
+++ b/hyperion/keras/keras_utils.py
@@ -332,14 +332,14 @@ def _eval_loop(f, ins, batch_size=32):
         batch_outs = f(ins_batch)
         if isinstance(batch_outs, list):
             if batch_index == 0:
-                for batch_out in enumerate(batch_outs):
+                for batch_out in batch_outs:
                     outs.append(np.zeros((num_sample,)))
             for i, batch_out in enumerate(batch_outs):
                 outs[i][batch_ids] = batch_out
         else:
             if batch_index == 0:
                 outs.append(np.zeros((num_sample,)))
-            outs[i][batch_ids] = batch_out
+            outs[0][batch_ids] = batch_outs
 
     if len(outs) == 1:
         return outs[0]
-- 
2.43.0


From bed299cce6a7113919e084b681fa3b3771944fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:00 +0000
Subject: [PATCH 257/270] fix: the programs that extract Q embeddings did not
 accept the format mean+logvar

---
 hyperion/bin/keras-extract-seq-q-embed.py      | 2 +-
 hyperion/bin/keras-extract-tied-vae-embed.py   | 2 +-
 hyperion/bin/keras-train-cat-seq-meta-embed.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index 5e0a2a6..2129c81 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -105,7 +105,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index 3b75603..5b49f08 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -104,7 +104,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index b62d153..fcae01c 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -144,8 +144,8 @@ if __name__ == "__main__":
                         choices=['nat+logitvar', 'nat+logprec-1', 'nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec', 'nat+prec-1',
                                  'mean+logitvar', 'mean+logprec-1', 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec', 'mean+prec-1'])
     parser.add_argument('--pooling-output', dest='pooling_output', default='nat+prec',
-                        choices=['nat+logar', 'nat+logprec', 'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec', 'mean+var', 'mean+prec'])
+                        choices=['nat+logvar', 'nat+logprec', 'nat+var', 'nat+prec',
+                                 'mean+logvar', 'mean+logprec', 'mean+var', 'mean+prec'])
     
     parser.add_argument('--min-var',dest='min_var',default=0.9,type=float,
                         help=('Minimum frame variance (default: %(default)s)'))
-- 
2.43.0


From 5149a1a735e481deff6eb6aa362c0bebbd688e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:03 +0000
Subject: [PATCH 258/270] fix: Keras training programs failed without a
 validation list

---
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 4 +++-
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 4 +++-
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 4 +++-
 hyperion/bin/keras-train-cat-tied-dvae.py            | 4 +++-
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 89fb143..7ac2de4 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -84,6 +84,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list, val_list_adapt,
                     transform=preproc,
@@ -91,6 +92,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -111,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 1c061b5..6e908c1 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -62,6 +62,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list, val_list_adapt,
                     transform=preproc,
@@ -69,6 +70,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -109,7 +111,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 38763c5..8923c0e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -83,6 +83,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -90,6 +91,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 1fe8b59..2390680 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -81,6 +81,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -88,6 +89,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     sys.stdout.flush()
 
@@ -111,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 99b6f7e..6ce5caf 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -84,6 +84,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -91,6 +92,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9e116b9..57dc066 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -63,6 +63,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -70,6 +71,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -115,7 +117,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index b1feefb..38934ce 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -63,6 +63,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -70,6 +71,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -116,7 +118,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index c463522..7cccc43 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -65,6 +65,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -72,6 +73,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -122,7 +124,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
-- 
2.43.0


From 6766ea881b2c421d36954c19d91a5f52013a1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:03 +0000
Subject: [PATCH 259/270] fix: Keras training programs imported the generator
 of sequences from a module without it

---
 hyperion/bin/keras-train-cat-seq-q-embed.py  | 2 +-
 hyperion/bin/keras-train-cat-tied-dvae.py    | 2 +-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 57dc066..c26ab09 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 38934ce..b730dfe 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index 7cccc43..2035a7c 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
-- 
2.43.0


From 2217aef284607f829317c22f6cd07419ef74fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:03 +0000
Subject: [PATCH 260/270] fix: Keras training programs froze layers by methods
 that do not exist

---
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 4 ++--
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 6 +++---
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 ++--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 7ac2de4..e2d9151 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -100,10 +100,10 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
 
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_net_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 8923c0e..3c21b9f 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -99,11 +99,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     logging.info(time.time()-t1)
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 2390680..47e4c1d 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -101,9 +101,9 @@ def train_embed(data_path, train_list, val_list,
     if freeze_enc:
         model.freeze_enc_net()
     if freeze_enc_layers is not None:
-        model.freeze_enc_layers(freeze_enc_layers)
+        model.freeze_enc_net_layers(freeze_enc_layers)
     if freeze_pt_layers is not None:
-        model.freeze_pt_layers(freeze_pt_layers)
+        model.freeze_pt_net_layers(freeze_pt_layers)
     
     model.build(max_length)
     
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 6ce5caf..08739ea 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -100,11 +100,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     
-- 
2.43.0


From 3c81af51d2297a0b1ec5b5421922c54df9c6c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:38 +0000
Subject: [PATCH 261/270] fix: the programs that train tied VAEs froze a
 network that they do not have

---
 hyperion/bin/keras-train-cat-tied-dvae.py    | 2 +-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index b730dfe..637ca91 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -107,7 +107,7 @@ def train_embed(data_path, train_list, val_list,
     t1 = time.time()
     
     if freeze_embed:
-        model.prepool_net.trainable = False
+        model.qy_net.trainable = False
         
     model.build(max_length)
     logging.info(time.time()-t1)
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index 2035a7c..bea8685 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -113,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     t1 = time.time()
     
     if freeze_embed:
-        model.prepool_net.trainable = False
+        model.qy_net.trainable = False
         
     model.build(max_length)
     logging.info(time.time()-t1)
-- 
2.43.0


From 2b4a61239409fcb85f88bfb6818730792bc47a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 262/270] fix: time-delay networks with an output activation
 could not be saved

---
 hyperion/keras/archs/tdnn.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/hyperion/keras/archs/tdnn.py b/hyperion/keras/archs/tdnn.py
index 810bf24..02d21da 100644
--- a/hyperion/keras/archs/tdnn.py
+++ b/hyperion/keras/archs/tdnn.py
@@ -239,7 +239,7 @@ def TDNNV1(num_td_layers, num_fc_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -254,8 +254,6 @@ def TDNNV1(num_td_layers, num_fc_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = TimeDistributed(Dense(output_units, name=('fc-%d' % (num_fc_layers-1)),
                                   activation = output_activation,
                                   kernel_initializer=kernel_initializer,
@@ -435,7 +433,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -450,8 +448,6 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = TimeDistributed(Dense(output_units, name=('fc-%d' % (num_fc_layers-1)),
                                   activation = output_activation,
                                   kernel_initializer=kernel_initializer,
@@ -571,7 +567,7 @@ def TDNNV1WithEmbedInputV1(num_td_layers, num_fc_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -586,8 +582,6 @@ def TDNNV1WithEmbedInputV1(num_td_layers, num_fc_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = TimeDistributed(Dense(output_units, name=('fc-%d' % (num_fc_layers-1)),
                                   activation = output_activation,
                                   kernel_initializer=kernel_initializer,
@@ -695,7 +689,7 @@ def TDNNV1Transpose(num_fc_layers, num_td_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -713,8 +707,6 @@ def TDNNV1Transpose(num_fc_layers, num_td_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = Conv1D(output_units, kernel_size=kernel_size[-1],
                    dilation_rate=dilation_rate[-1],
                    padding=padding,
@@ -825,7 +817,7 @@ def TDNNV2Transpose(num_fc_layers, num_td_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -843,8 +835,6 @@ def TDNNV2Transpose(num_fc_layers, num_td_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = Conv1DTranspose(h_i, output_units, kernel_size=kernel_size[-1],
                             dilation_rate=dilation_rate[-1],
                             padding=padding,
@@ -960,7 +950,7 @@ def TDNNV1TransposeWithEmbedInputV1(num_fc_layers, num_td_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -978,8 +968,6 @@ def TDNNV1TransposeWithEmbedInputV1(num_fc_layers, num_td_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = Conv1D(output_units, kernel_size=kernel_size[-1],
                    dilation_rate=dilation_rate[-1],
                    padding=padding,
@@ -1096,7 +1084,7 @@ def TDNNV2TransposeWithEmbedInputV1(num_fc_layers, num_td_layers,
         elif isinstance(output_activation, list):
             assert len(output_units) == len(output_activation)
         else:
-            output_activation = len(output_units)*[Activation(output_activation)]
+            output_activation = len(output_units)*[output_activation]
             
         y = []
         for i in xrange(len(output_units)):
@@ -1114,8 +1102,6 @@ def TDNNV2TransposeWithEmbedInputV1(num_fc_layers, num_td_layers,
              y.append(y_i)
 
     else:
-        if output_activation is not None:
-            output_activation=Activation(output_activation)
         y = Conv1DTranspose(h_i, output_units, kernel_size=kernel_size[-1],
                             dilation_rate=dilation_rate[-1],
                             padding=padding,
-- 
2.43.0


From 9f728208761d322b683957d222bbec12ac831d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 263/270] fix: the second layer of a block of ResTDNNV1 was not
 connected to the first

---
 hyperion/keras/archs/tdnn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/archs/tdnn.py b/hyperion/keras/archs/tdnn.py
index 02d21da..5544228 100644
--- a/hyperion/keras/archs/tdnn.py
+++ b/hyperion/keras/archs/tdnn.py
@@ -354,7 +354,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
@@ -410,7 +410,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
-- 
2.43.0


From 8971e87a0d5b629fa26fc55ca89eea524360149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 264/270] fix: ConvNetZhang17V1 could not be made

---
 hyperion/keras/archs/convnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/convnet.py b/hyperion/keras/archs/convnet.py
index 36e4ac8..6afdb25 100644
--- a/hyperion/keras/archs/convnet.py
+++ b/hyperion/keras/archs/convnet.py
@@ -65,7 +65,7 @@ def ConvNetZhang17V1(output_units, input_shape,
         if conv_dropout_rate > 0:
             h_i = Dropout(conv_dropout_rate)(h_i)
 
-    h_i = Reshape((seq_length, -1), 'reshape-1d')(h_i)
+    h_i = Reshape((seq_length, -1), name='reshape-1d')(h_i)
 
     for i in xrange(num_fc_layers-1):
         if use_batchnorm:
-- 
2.43.0


From 088bbcdf731437950512b6a2e9875a6068f93ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 265/270] fix: VGGNetV1 used its hidden layer before it was set

---
 hyperion/keras/archs/vgg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/keras/archs/vgg.py b/hyperion/keras/archs/vgg.py
index 24182d3..cfaa0b3 100644
--- a/hyperion/keras/archs/vgg.py
+++ b/hyperion/keras/archs/vgg.py
@@ -50,6 +50,7 @@ def VGGNetV1(output_units, input_shape=(224,224,3),
 
 
     x = Input(shape=input_shape)
+    h_i = x
 
     for block in xrange(num_conv_blocks):
         for i in xrange(num_block_layers[block]):
-- 
2.43.0


From ed446160de2977c396216b4545144df6db9bc85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:35 +0000
Subject: [PATCH 266/270] fix: TDVGGNetV1 repeated the number of layers as many
 times as layers instead of blocks

---
 hyperion/keras/archs/vgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/vgg.py b/hyperion/keras/archs/vgg.py
index cfaa0b3..e6f9992 100644
--- a/hyperion/keras/archs/vgg.py
+++ b/hyperion/keras/archs/vgg.py
@@ -192,7 +192,7 @@ def TDVGGNetV1(output_units, input_shape,
     if isinstance(num_block_layers, list):
         assert len(num_block_layers) == num_conv_blocks
     else:
-        num_block_layers = [num_block_layers for i in xrange(num_block_layers)]
+        num_block_layers = [num_block_layers for i in xrange(num_conv_blocks)]
         
     if isinstance(hidden_fc_units, list):
         assert len(hidden_fc_units) == num_fc_layers-1
-- 
2.43.0


From e43d3bda38c957f4a68fae65362fc00bc221d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:54 +0000
Subject: [PATCH 267/270] fix: the bottleneck block of ResNets used a number of
 filters that is not defined

---
 hyperion/keras/archs/resnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 4017042..409ec4e 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -85,7 +85,7 @@ def conv2d_bn_res_block(x, filters1, filters2,
     if use_batchnorm:
         x = BatchNormalization()(x)
 
-    h_i = Conv2D(filters, kernel_size=(1, 1), strides=strides,
+    h_i = Conv2D(filters1, kernel_size=(1, 1), strides=strides,
                  padding=padding, name=('%s-1' % (name)), 
                  kernel_initializer=kernel_initializer,
                  bias_initializer=bias_initializer,
-- 
2.43.0


From 5e16738363c1eb6db742f21c4385d8e3d3db8422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:54 +0000
Subject: [PATCH 268/270] fix: ResNet blocks that change the size of their
 input added it without a projection

---
 hyperion/keras/archs/resnet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 409ec4e..88186c4 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -253,7 +253,7 @@ def ResNetV1(output_units, input_shape=(224,224,3),
             context += int(dec_ratio*(kernel_size-1)/2)
             
             if bottleneck_blocks:
-                if block>0 and i==0 and conv_filters_bn[block] != conv_filters_bn[block-1]:
+                if strides != 1 or h_i._keras_shape[-1] != conv_filters_bn[block]:
                     proj_shortcut=True
 
                 h_i = conv2d_bn_res_block(
@@ -270,7 +270,7 @@ def ResNetV1(output_units, input_shape=(224,224,3),
                     kernel_constraint=kernel_constraint,
                     bias_constraint=bias_constraint)
             else:
-                if block>0 and i==0 and conv_filters[block] != conv_filters[block-1]:
+                if strides != 1 or h_i._keras_shape[-1] != conv_filters[block]:
                     proj_shortcut=True
                 h_i = conv2d_res_block(
                     h_i, conv_filters[block], 
-- 
2.43.0


From 60a5cb3d2db1442d3d55fe7c119ef81f6cd32b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:54 +0000
Subject: [PATCH 269/270] fix: the context returned with a ResNet did not count
 all its layers

---
 hyperion/keras/archs/resnet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index 88186c4..c67bd48 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -250,7 +250,9 @@ def ResNetV1(output_units, input_shape=(224,224,3),
             proj_shortcut=False 
 
             dec_ratio = x._keras_shape[1]/h_i._keras_shape[1]
-            context += int(dec_ratio*(kernel_size-1)/2)
+            # layers of kernel_size in the block, before and after the strides
+            dec_ratios = dec_ratio*strides if bottleneck_blocks else dec_ratio*(1 + strides)
+            context += int(dec_ratios*(kernel_size-1)/2)
             
             if bottleneck_blocks:
                 if strides != 1 or h_i._keras_shape[-1] != conv_filters_bn[block]:
-- 
2.43.0


From be7322d5789798f00992cd6522219ca81312ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:54 +0000
Subject: [PATCH 270/270] fix: the deep ResNets ignored the shape of their
 input and their numbers of filters

---
 hyperion/keras/archs/resnet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/keras/archs/resnet.py b/hyperion/keras/archs/resnet.py
index c67bd48..22ff230 100644
--- a/hyperion/keras/archs/resnet.py
+++ b/hyperion/keras/archs/resnet.py
@@ -406,9 +406,9 @@ def ResNet34V1(output_units, input_shape=(224,224,3),
                kernel_regularizer=None, bias_regularizer=None,
                kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,6,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -438,9 +438,9 @@ def ResNet50V1(output_units, input_shape=(224,224,3),
                kernel_regularizer=None, bias_regularizer=None,
                kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,6,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -472,9 +472,9 @@ def ResNet101V1(output_units, input_shape=(224,224,3),
                 kernel_regularizer=None, bias_regularizer=None,
                 kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,4,23,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
@@ -505,9 +505,9 @@ def ResNet152V1(output_units, input_shape=(224,224,3),
                 kernel_regularizer=None, bias_regularizer=None,
                 kernel_constraint=None, bias_constraint=None):
 
-    return ResNetV1(output_units, input_shape=(224,224,3),
+    return ResNetV1(output_units, input_shape=input_shape,
                     num_blocks=4, num_subblocks=[3,8,36,3], num_fc_layers=1,
-                    conv_filters=64, conv_filters_factor=2, max_conv_filters=512,
+                    conv_filters=conv_filters, conv_filters_factor=2, max_conv_filters=max_conv_filters,
                     kernel_size=3, padding=padding,
                     interblock_strides=2,
                     input_kernel_size=7, input_strides=2,
-- 
2.43.0

