From d98572f541014f844894f83ac24f8d3518e0bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/73] fix: keep image numbers above 99999 distinct in
 generated file names

---
 algotom/io/loadersaver.py      |  2 +-
 algotom/post/postprocessing.py | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 417d268..a7413bc 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1274,7 +1274,7 @@ def save_image_multiple(list_path, image_stack, axis=0, overwrite=True,
     elif isinstance(list_path, str):
         num_file = image_stack.shape[axis]
         start_idx = int(start_idx)
-        list_path = [(list_path + "/img_" + ("00000" + str(i))[-5:] + ".tif")
+        list_path = [(list_path + f"/img_{i:05}.tif")
                      for i in range(start_idx, start_idx + num_file)]
     else:
         raise ValueError("Input must be a list of file paths or a folder path")
diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index fadca44..07c4c9e 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -494,8 +494,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
             elif out_type == "hdf":
                 data_dsp[num] = mat_dsp.astype(res_type)
             else:
-                out_name = "0000" + str(num)
-                losa.save_image(output + "/img_" + out_name[-5:] + ".tif",
+                losa.save_image(output + f"/img_{num:05}.tif",
                                 mat_dsp.astype(res_type))
             num += 1
     if out_type is None:
@@ -584,8 +583,7 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         elif out_type == "hdf":
             data_res[i - d1] = mat
         else:
-            out_name = "0000" + str(i)
-            losa.save_image(output + "/img_" + out_name[-5:] + ".tif", mat)
+            losa.save_image(output + f"/img_{i:05}.tif", mat)
     if out_type is None:
         data_res = np.asarray(data_res)
     return data_res
@@ -928,8 +926,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                         sys.stdout.write(msg)
                         sys.stdout.flush()
                 mat_chunk = data[:, i: i + chunk, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    i + j))[-5:] + ".tif" for j in range(chunk)]
+                out_files = [output + f"/img_{i + j:05}.tif"
+                             for j in range(chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
@@ -940,8 +938,8 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
             if last_chunk != 0:
                 idx = height1 - last_chunk
                 mat_chunk = data[:, idx: height1, :]
-                out_files = [output + "/img_" + ("0000" + str(
-                    idx + j))[-5:] + ".tif" for j in range(last_chunk)]
+                out_files = [output + f"/img_{idx + j:05}.tif"
+                             for j in range(last_chunk)]
                 if rescaling:
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
-- 
2.43.0


From 6a7b6e88c594eac049557f28e595d5acee5bf756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 02/73] fix: average colour images over the channel axis
 whatever their size

---
 algotom/io/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index a7413bc..ee361dd 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -108,8 +108,7 @@ def load_image(file_path):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From 3032e18dd1d2037e15ec4ca593d13d729d4fb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 03/73] fix: accept metadata keys that only share a prefix with
 the data key

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index ee361dd..b807835 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -457,7 +457,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
         for opt_name in options:
             opts = options[opt_name]
             for key in opts:
-                if key_path in key:
+                if (key.strip("/") + "/").startswith(key_path.strip("/") + "/"):
                     msg = "!!!Selected key-path, '{0}', can not be a child " \
                           "key-path of '{1}'!!!\n!!!Change to make sure " \
                           "they are at the same level!!!".format(key, key_path)
-- 
2.43.0


From 43841117833e08e8250d203e90266a0d664d6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 04/73] fix: open folders of upper-case .TIF files with
 HdfEmulatorFromTif

---
 algotom/io/converter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algotom/io/converter.py b/algotom/io/converter.py
index 61b632b..c9ee71a 100644
--- a/algotom/io/converter.py
+++ b/algotom/io/converter.py
@@ -167,9 +167,10 @@ class HdfEmulatorFromTif:
     >>> image_stack = hdf_emulator[:, 0:4, :]
     """
     def __init__(self, folder_path, ncore=1):
-        self.files = losa.find_file(folder_path + "/*tif*")
-        if len(self.files) == 0:
-            files = losa.find_file(folder_path + "/*TIF*")
+        try:
+            self.files = losa.find_file(folder_path + "/*tif*")
+        except FileNotFoundError:
+            self.files = losa.find_file(folder_path + "/*TIF*")
         if len(self.files) == 0:
             raise ValueError(f"!!! No tif files found in: {folder_path}")
         self.n_jobs = ncore
-- 
2.43.0


From b57d1fe3fef70758ba9a5037c49fdeab36d3da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 05/73] fix: average exactly the flagged flat/dark frames of
 each scan

---
 algotom/io/loadersaver.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index b807835..91c0ec5 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -690,22 +690,19 @@ def __get_ref_sam_stacks_dls(proj_idx, list_data_obj, list_sam_idx,
             dark_ave = dark_field[top: bot, left:right]
     for i in range(num_img):
         if dark_field is None:
-            if len(list_dark_idx) != 0:
-                idx1 = list_dark_idx[i][0]
-                idx2 = list_dark_idx[i][-1] + 1
+            if len(list_dark_idx[i]) != 0:
                 dark_ave = np.mean(
-                    list_data_obj[i][idx1:idx2, top:bot, left:right], axis=0)
+                    list_data_obj[i][list_dark_idx[i], top:bot, left:right],
+                    axis=0)
             else:
                 dark_ave = np.zeros((height1, width1), dtype=np.float32)
         if flat_field is not None:
             flat_dark = flat_ave - dark_ave
             nmean = np.mean(flat_dark)
             flat_dark[flat_dark == 0.0] = nmean
-        if len(list_ref_idx) != 0:
-            idx1 = list_ref_idx[i][0]
-            idx2 = list_ref_idx[i][-1] + 1
-            ref_ave = np.mean(list_data_obj[i][idx1:idx2, top:bot, left:right],
-                              axis=0)
+        if len(list_ref_idx[i]) != 0:
+            ref_ave = np.mean(
+                list_data_obj[i][list_ref_idx[i], top:bot, left:right], axis=0)
             if flat_field is not None:
                 ref_ave = (ref_ave - dark_ave) / flat_dark
             else:
@@ -831,24 +828,19 @@ def get_reference_sample_stacks_dls(proj_idx, list_path, data_key=None,
                         raise ValueError("Number of image-keys is not the same"
                                          " as the number of images {0}!!!"
                                          "".format(num_img))
-            list_tmp = np.where(int_keys == 0.0)[0]
-            if len(list_tmp) != 0:
-                list_idx = np.sort(np.int32(np.squeeze(np.asarray(list_tmp))))
+            list_idx = np.where(int_keys == 0.0)[0]
+            if len(list_idx) != 0:
                 list_sam_idx.append(list_idx)
                 list_start_idx.append(list_idx[0])
                 list_stop_idx.append(list_idx[-1])
-            list_num_proj.append(len(list_tmp))
-            list_tmp = np.where(int_keys == 1.0)[0]
-            if len(list_tmp) != 0:
-                list_ref_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
-            list_tmp = np.where(int_keys == 2.0)[0]
-            if len(list_tmp) != 0:
-                list_dark_idx.append(
-                    np.sort(np.int32(np.squeeze(np.asarray(list_tmp)))))
+            list_num_proj.append(len(list_idx))
+            list_ref_idx.append(np.where(int_keys == 1.0)[0])
+            list_dark_idx.append(np.where(int_keys == 2.0)[0])
         else:
             num_proj = num_img
             list_sam_idx.append(np.arange(num_proj))
+            list_ref_idx.append([])
+            list_dark_idx.append([])
             list_start_idx.append(0)
             list_stop_idx.append(num_proj - 1)
             list_num_proj.append(num_proj)
-- 
2.43.0


From 476dfb1a5338f58e8876ab8f36860accc19b4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 06/73] fix: do not mistake a 3-row flat or dark image for a
 stack

---
 algotom/io/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 91c0ec5..d1165bf 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -871,7 +871,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     Supplementary method for checking dark-field image, flat-field image.
     """
     if flat_field is not None:
-        if len(flat_field) == 3:
+        if flat_field.ndim == 3:
             flat_field = np.mean(flat_field, axis=0)
         (height2, width2) = flat_field.shape
         if height2 != height or width2 != width:
@@ -880,7 +880,7 @@ def __check_dark_flat_field(flat_field, dark_field, height, width):
     else:
         flat_field = np.ones((height, width))
     if dark_field is not None:
-        if len(dark_field) == 3:
+        if dark_field.ndim == 3:
             dark_field = np.mean(dark_field, axis=0)
         (height2, width2) = dark_field.shape
         if height2 != height or width2 != width:
-- 
2.43.0


From d07f59d84bd6764ad6c2cb25f5fb29b02e12ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 07/73] fix: combine means and medians of slices in their own
 place

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 07c4c9e..70182ee 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -288,7 +288,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
     min_percent, max_percent = np.min(list_stat[:, 2]), np.max(list_stat[:, 3])
-    median, mean = np.median(list_stat[:, 4]), np.mean(list_stat[:, 5])
+    mean, median = np.mean(list_stat[:, 4]), np.median(list_stat[:, 5])
     variance = np.mean(list_stat[:, 6])
     return gmin, gmax, min_percent, max_percent, mean, median, variance
 
-- 
2.43.0


From 165ce9badb89241523a25f0f86938c63c78fe4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 08/73] fix: denoise each slice once when getting dataset
 statistics

---
 algotom/post/postprocessing.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 70182ee..960abb2 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -267,23 +267,17 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
         list_stat = []
         for i in range(d1, d2, skip):
             mat = losa.load_image(list_file[i])[h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     elif in_type == "hdf":
         data = losa.load_hdf(input_, key_path)
         list_stat = []
         for i in range(d1, d2, skip):
             mat = data[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     else:
         list_stat = []
         for i in range(d1, d2, skip):
             mat = input_[i, h1:h2, w1:w2]
-            if denoise is True:
-                mat = ndi.gaussian_filter(mat, 2)
             list_stat.append(f_alias(mat, percentile, denoise))
     list_stat = np.asarray(list_stat)
     gmin, gmax = np.min(list_stat[:, 0]), np.max(list_stat[:, 1])
-- 
2.43.0


From f65db450ce9cdcf92696b584b3dfbf54b6bc716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 09/73] fix: handle datasets with a single slice

---
 algotom/post/postprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 960abb2..3c7257e 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -259,7 +259,7 @@ def get_statistical_information_dataset(input_, percentile=(0, 100), skip=5,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     depth1 = results[1][0]
-    skip = int(np.clip(skip, 1, depth1 - 1))
+    skip = int(np.clip(skip, 1, max(1, depth1 - 1)))
     in_type = __get_input_type(input_)
     f_alias = get_statistical_information
     if in_type == "tif":
@@ -595,7 +595,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     results = __get_cropped_shape(input_, crop=crop, key_path=key_path)
     (d1, d2, h1, h2, w1, w2) = results[0]
     (depth1, height1, width1) = results[1]
-    chunk = np.clip(chunk, 1, depth1 - 1)
+    chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
     folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
     file_tmp = folder_tmp + "/file_tmp.hdf"
@@ -838,7 +838,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
     with h5py.File(file_tmp, 'r') as hdf_object:
         data = hdf_object[key_tmp]
         (depth1, height1, width1) = data.shape
-        chunk = np.clip(chunk, 1, height1 - 1)
+        chunk = np.clip(chunk, 1, max(1, height1 - 1))
         last_chunk = height1 - chunk * (height1 // chunk)
         data_type = data.dtype
         res_type = str(data_type)
-- 
2.43.0


From 51337d559bcfd0717bde4220d44c32c9df2b53a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 10/73] fix: apply the depth crop when reslicing hdf data

---
 algotom/post/postprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 3c7257e..0846d4f 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -705,7 +705,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -717,7 +717,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
@@ -741,7 +741,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                         len_msg = len(msg)
                         sys.stdout.write(msg)
                         sys.stdout.flush()
-                    mat_chunk = data[i: i + chunk]
+                    mat_chunk = data[i + d1: i + chunk + d1]
                     mat_tmp = []
                     for j in np.arange(chunk):
                         mat = mat_chunk[j]
@@ -753,7 +753,7 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
                     if show_progress:
                         sys.stdout.write("\r" + " " * len_msg + "\r")
                 if last_chunk != 0:
-                    mat_chunk = data[depth1 - last_chunk: depth1]
+                    mat_chunk = data[depth1 - last_chunk + d1: depth1 + d1]
                     mat_tmp = []
                     for j in np.arange(last_chunk):
                         mat = mat_chunk[j]
-- 
2.43.0


From d5b46e7827b1c5a4e206177e4b1e70bafeb7a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 11/73] fix: avoid integer overflow when rescaling signed
 integer images

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 0846d4f..582f2f3 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -345,7 +345,7 @@ def rescale(mat, nbit=16, minmax=None):
     if nbit != 8 and nbit != 16:
         raise ValueError("Only two options for nbit: 8 or 16 !!!")
     if minmax is None:
-        gmin, gmax = np.min(mat), np.max(mat)
+        gmin, gmax = float(np.min(mat)), float(np.max(mat))
     else:
         (gmin, gmax) = minmax
     mat = np.clip(mat, gmin, gmax)
-- 
2.43.0


From 7e35901b875a551e26e846f83e89b3b0e13df1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 12/73] fix: downsample by the median/mean of the cell, not of
 its row medians

---
 algotom/post/postprocessing.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 582f2f3..a570c86 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -321,7 +321,7 @@ def downsample(mat, cell_size, method="mean"):
     mat = mat[:height_dsp * cell_size[0], :width_dsp * cell_size[1]]
     mat_dsp = mat.reshape(
         height_dsp, cell_size[0], width_dsp, cell_size[1])
-    mat_dsp = dsp_method(dsp_method(mat_dsp, axis=-1), axis=1)
+    mat_dsp = dsp_method(mat_dsp, axis=(1, 3))
     return mat_dsp
 
 
@@ -470,8 +470,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                           :width_dsp * cell_size[2]]
                 mat = mat.reshape(1, cell_size[0], height_dsp,
                                   cell_size[1], width_dsp, cell_size[2])
-                mat_dsp = dsp_method(
-                    dsp_method(dsp_method(mat, axis=-1), axis=1), axis=2)[0]
+                mat_dsp = dsp_method(mat, axis=(1, 3, 5))[0]
             else:
                 mat = data[i:i + cell_size[0],
                            h1:h1 + height_dsp * cell_size[1],
@@ -479,8 +478,7 @@ def downsample_dataset(input_, output, cell_size, method="mean", key_path=None,
                 mat = mat.reshape(1, cell_size[0], height_dsp,
                                   cell_size[1], width_dsp,
                                   cell_size[2])
-                mat_dsp = dsp_method(dsp_method(
-                    dsp_method(mat, axis=-1), axis=1), axis=2)[0]
+                mat_dsp = dsp_method(mat, axis=(1, 3, 5))[0]
             if rescaling:
                 mat_dsp = rescale(mat_dsp, nbit, minmax)
             if out_type is None:
-- 
2.43.0


From 0e32e0b1b4ce9568dc6924157b39d876fe3adec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 13/73] fix: write the rescaled hdf output to the given name
 when overwriting

---
 algotom/post/postprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index a570c86..1f84390 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -544,23 +544,23 @@ def rescale_dataset(input_, output, nbit=16, minmax=None, skip=None,
         data_type = "uint16"
     else:
         data_type = "float32"
+    in_type = __get_input_type(input_)
+    if in_type == "tif":
+        data = losa.find_file(input_ + "/*.tif*")
+    elif in_type == "hdf":
+        data = losa.load_hdf(input_, key_path)
+    else:
+        data = input_
     out_type = __get_output_type(output)
     if out_type == "hdf":
         data_res = losa.open_hdf_stream(output, (depth1, height1, width1),
                                         key_path="entry/data",
                                         data_type=data_type,
-                                        overwrite=False)
+                                        overwrite=True)
     elif out_type is None:
         data_res = []
     else:
         data_res = None
-    in_type = __get_input_type(input_)
-    if in_type == "tif":
-        data = losa.find_file(input_ + "/*.tif*")
-    elif in_type == "hdf":
-        data = losa.load_hdf(input_, key_path)
-    else:
-        data = input_
     for i in range(d1, d2):
         if in_type == "tif":
             mat = losa.load_image(data[i])[h1:h2, w1:w2]
-- 
2.43.0


From eed79e9033f843d97297aabb16619e78bb9554c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 14/73] fix: reslice through a private temporary folder and
 delete only that

---
 algotom/post/postprocessing.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 1f84390..389a940 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -33,9 +33,9 @@ Module of methods in the postprocessing stage:
 
 import os
 import sys
-import shutil
 import timeit
 import glob
+import tempfile
 import h5py
 import numpy as np
 from PIL import Image
@@ -595,9 +595,10 @@ def __save_intermediate_data(input_, output, axis, crop, key_path=None,
     (depth1, height1, width1) = results[1]
     chunk = np.clip(chunk, 1, max(1, depth1 - 1))
     last_chunk = depth1 - chunk * (depth1 // chunk)
-    folder_tmp = os.path.splitext(output)[0] + "/tmp_/"
-    file_tmp = folder_tmp + "/file_tmp.hdf"
-    losa.make_folder(folder_tmp)
+    folder_out = os.path.dirname(os.path.abspath(output))
+    os.makedirs(folder_out, exist_ok=True)
+    folder_tmp = tempfile.TemporaryDirectory(prefix="tmp_", dir=folder_out)
+    file_tmp = folder_tmp.name + "/file_tmp.hdf"
     out_key = "entry/data"
     b_unit = 1024.0 * 1024.0
     with h5py.File(file_tmp, 'w') as ofile:
@@ -936,10 +937,7 @@ def reslice_dataset(input_, output, axis=1, key_path=None, rescaling=False,
                     mat_chunk = rescale(mat_chunk, nbit, minmax)
                 losa.save_image_multiple(out_files, mat_chunk.astype(res_type),
                                          axis=1, ncore=ncore, prefer="threads")
-    if os.path.isdir(folder_tmp):
-        shutil.rmtree(folder_tmp)
-        if out_type == "hdf":
-            shutil.rmtree(os.path.splitext(output)[0])
+    folder_tmp.cleanup()
     if show_progress:
         t1 = timeit.default_timer()
         f_size = __get_dataset_size(output)
-- 
2.43.0


From c4d9697373c23288d56e39f87fcca9ea1f7aaa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 15/73] fix: remove a data race between angles in CPU
 back-projection

Several threads added to the same pixel of the output image, losing updates.
---
 algotom/rec/reconstruction.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7a88823..7c0f7c5 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -330,12 +330,14 @@ def back_projection_cpu(sinogram, angles, center,
     sino_width1 = sino_width - 1
     icenter = 0.5 * sino_width1
     recon = np.zeros((sino_width, sino_width), dtype=np.float32)
-    for i in prange(sino_height):
-        theta = - angles[i]
-        cos_theta = math.cos(theta)
-        sin_theta = math.sin(theta)
-        for y_index in range(sino_width):
-            y_cor = y_index - icenter
+    # Parallelize over rows of the output, not over angles, to avoid having
+    # several threads updating the same pixel.
+    for y_index in prange(sino_width):
+        y_cor = y_index - icenter
+        for i in range(sino_height):
+            theta = - angles[i]
+            cos_theta = math.cos(theta)
+            sin_theta = math.sin(theta)
             for x_index in range(sino_width):
                 x_pos = (x_index - icenter) * cos_theta + y_cor * sin_theta
                 f_pos = x_pos + center
-- 
2.43.0


From 65bb4d8927bb160e6b460673c59fb5878f134782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 16/73] fix: keep rejecting metadata keys that contain the
 whole data key

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index d1165bf..8531e37 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -457,7 +457,7 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
         for opt_name in options:
             opts = options[opt_name]
             for key in opts:
-                if (key.strip("/") + "/").startswith(key_path.strip("/") + "/"):
+                if "/" + key_path.strip("/") + "/" in "/" + key + "/":
                     msg = "!!!Selected key-path, '{0}', can not be a child " \
                           "key-path of '{1}'!!!\n!!!Change to make sure " \
                           "they are at the same level!!!".format(key, key_path)
-- 
2.43.0


From b3f331451e0cd7ed9f7b2d8b27ce6beca4a67dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 17/73] fix: weight grid-scan slices by the overlap of their
 own side

locate_slice_chunk used the overlap of the wrong neighbour when overlaps
differ between rows, and a one-pixel overlap gave NaN weights.
---
 algotom/util/utility.py | 85 ++++++++++++-----------------------------
 1 file changed, 24 insertions(+), 61 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 3d94037..144e44d 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -1207,16 +1207,19 @@ def locate_slice(slice_idx, height, overlap_metadata):
         if pos.size == 1:
             results.append([i, pos, 1.0])
     if len(results) == 2:
-        if side == 1:
+        overlap = overlap_list[results[0][0]]
+        if overlap <= 1:
+            results[0][2] = results[1][2] = 0.5
+        elif side == 1:
             results[0][2] = (1.0 * list_slices[results[0][0]][
-                -1] - slice_idx) / (overlap_list[results[0][0]] - 1.0)
+                -1] - slice_idx) / (overlap - 1.0)
             results[1][2] = (slice_idx - 1.0 * list_slices[results[1][0]][
-                0]) / (overlap_list[results[0][0]] - 1.0)
+                0]) / (overlap - 1.0)
         else:
             results[0][2] = (- slice_idx + 1.0 * list_slices[results[0][0]][
-                0]) / (overlap_list[results[0][0]] - 1.0)
+                0]) / (overlap - 1.0)
             results[1][2] = (-1.0 * list_slices[results[1][0]][
-                -1] + slice_idx) / (overlap_list[results[0][0]] - 1.0)
+                -1] + slice_idx) / (overlap - 1.0)
     return results
 
 
@@ -1265,62 +1268,22 @@ def locate_slice_chunk(slice_start, slice_stop, height, overlap_metadata):
     results = []
     for i, list1 in enumerate(list_slices):
         result1 = []
-        if side == 1:
-            for slice_idx in range(slice_start, slice_stop):
-                pos = np.squeeze(np.where(list1 == slice_idx)[0])
-                if pos.size == 1:
-                    fact = 1.0
-                    if i == 0:
-                        ver_overlap = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap:
-                            fact = dis1 / (ver_overlap - 1)
-                    elif i == (g_nrow - 1):
-                        ver_overlap = overlap_list[i - 1]
-                        if pos < ver_overlap:
-                            fact = pos / (ver_overlap - 1)
-                    else:
-                        ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = pos / (ver_overlap1 - 1)
-                        ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = pos / (ver_overlap2 - 1)
-                    result1.append([i, pos, fact])
-        else:
-            for slice_idx in range(slice_start, slice_stop):
-                pos = np.squeeze(np.where(list1 == slice_idx)[0])
-                if pos.size == 1:
-                    fact = 1.0
-                    if i == 0:
-                        ver_overlap = overlap_list[i]
-                        if pos < ver_overlap:
-                            fact = 1.0 * pos / (ver_overlap - 1)
-                    elif i == (g_nrow - 1):
-                        ver_overlap = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap:
-                            fact = 1.0 * dis1 / (ver_overlap - 1)
-                    else:
-                        ver_overlap1 = overlap_list[i]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap1:
-                            fact = 1.0 * dis1 / (ver_overlap1 - 1)
-                        if pos < ver_overlap1:
-                            fact = 1.0 * pos / (ver_overlap1 - 1)
-                        ver_overlap2 = overlap_list[i - 1]
-                        dis1 = len(list1) - pos - 1
-                        if dis1 < ver_overlap2:
-                            fact = 1.0 * dis1 / (ver_overlap2 - 1)
-                        if pos < ver_overlap2:
-                            fact = 1.0 * pos / (ver_overlap2 - 1)
-                    result1.append([i, pos, fact])
+        # Overlap with the previous row and with the next row.
+        overlap0 = overlap_list[i - 1] if i > 0 else 0
+        overlap1 = overlap_list[i] if i < g_nrow - 1 else 0
+        for slice_idx in range(slice_start, slice_stop):
+            pos = np.squeeze(np.where(list1 == slice_idx)[0])
+            if pos.size == 1:
+                fact = 1.0
+                # Distances to the first and to the last slice of the row.
+                dis0, dis1 = pos, len(list1) - pos - 1
+                if side != 1:
+                    dis0, dis1 = dis1, dis0
+                if dis0 < overlap0:
+                    fact = dis0 / (overlap0 - 1.0) if overlap0 > 1 else 0.5
+                if dis1 < overlap1:
+                    fact = dis1 / (overlap1 - 1.0) if overlap1 > 1 else 0.5
+                result1.append([i, pos, fact])
         if len(result1) > 0:
             results.append(result1)
     return results
-- 
2.43.0


From 6e5215626b7d2ba3df61828d4ad539c737165813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 18/73] fix: keep an exact match from losing against the other
 overlap side

A zero minimum metric was left un-normalized, making its curvature smaller
than that of the wrong side.
---
 algotom/prep/calculation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index af9e15b..277fe28 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -535,8 +535,9 @@ def search_overlap(mat1, mat2, win_width, side, denoise=True, norm=False,
                                            list_mean2) for i in range(nump))
         list_metric = np.asarray(list_metric)
     min_metric = np.min(list_metric)
-    if min_metric != 0.0:
-        list_metric = list_metric / min_metric
+    if min_metric == 0.0:  # Exact match.
+        min_metric = np.finfo(np.float64).eps
+    list_metric = list_metric / min_metric
     return list_metric, offset
 
 
-- 
2.43.0


From 5906fa9ea3ddb0a5aef043e375fe66782b2ec3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 19/73] fix: use the half-width of the window searched with
 when computing the overlap

search_overlap limits the window to less than half an image, find_overlap
to half: the overlap was one pixel off for wide windows.
---
 algotom/prep/calculation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 277fe28..612e22b 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -592,14 +592,14 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = ncol1 - overlap_position + win_width // 2
+        overlap = ncol1 - overlap_position + offset
     elif side == 0:
         (list_metric, offset) = search_overlap(mat1, mat2, win_width, side,
                                                denoise, norm, use_overlap,
                                                ncore)
         (_, overlap_position) = calculate_curvature(list_metric)
         overlap_position = overlap_position + offset
-        overlap = overlap_position + win_width // 2
+        overlap = overlap_position + offset
     else:
         (list_metric1, offset1) = search_overlap(mat1, mat2, win_width, 1,
                                                  norm, denoise, use_overlap,
@@ -614,11 +614,11 @@ def find_overlap(mat1, mat2, win_width, side=None, denoise=True, norm=False,
         if curvature1 > curvature2:
             side = 1
             overlap_position = overlap_position1
-            overlap = ncol1 - overlap_position + win_width // 2
+            overlap = ncol1 - overlap_position + offset1
         else:
             side = 0
             overlap_position = overlap_position2
-            overlap = overlap_position + win_width // 2
+            overlap = overlap_position + offset2
     return overlap, side, overlap_position
 
 
-- 
2.43.0


From 9f8bf9511202b249b70accb9a87589a9fd75d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 20/73] fix: remove a half-pixel bias of find_center_projection

Same geometry, hence same offset, as find_center_360: an overlap of w pixels
at the right side puts the center at ncol - w / 2 - 0.5.
---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 612e22b..5db0031 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -896,9 +896,9 @@ def find_center_projection(mat1, mat2, flip=True, win_width=None,
                                       denoise=denoise, norm=norm,
                                       use_overlap=use_overlap, ncore=ncore)
     if side == 0:
-        cor = overlap / 2.0 - 1.0
+        cor = overlap / 2.0 - 0.5
     else:
-        cor = ncol - overlap / 2.0 - 1.0
+        cor = ncol - overlap / 2.0 - 0.5
     return cor
 
 
-- 
2.43.0


From 519b8e873953c23e376ee415d4d5095be609244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 21/73] fix: DFI reconstruction with descending angles starting
 anywhere

A descending list of angles which does not start at 180 degrees was rolled
in the wrong direction, so features were reconstructed at wrong places.
---
 algotom/rec/reconstruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 7c0f7c5..e42459f 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -735,6 +735,9 @@ def __dfi_handle_angles(sinogram, angles):
     if len(angles) != nrow:
         raise ValueError("!!! Number of angles is not the same as the row "
                          "number of the sinogram !!!")
+    if angles[-1] < angles[0]:
+        sinogram = np.flipud(sinogram)
+        angles = angles[::-1]
     t_ang = np.sum(np.abs(np.diff(angles * 180.0 / np.pi)))
     if abs(t_ang - 360) < 10:
         nrow = nrow // 2 + 1
@@ -743,8 +746,6 @@ def __dfi_handle_angles(sinogram, angles):
     b_ang = angles[0] - (angles[0] // (2 * np.pi)) * (2 * np.pi)
     sino_360 = np.vstack((sinogram[: nrow - 1], np.fliplr(sinogram)))
     sinogram = ndi.shift(sino_360, (b_ang / step, 0), mode='wrap')[:nrow]
-    if angles[-1] < angles[0]:
-        sinogram = np.flipud(np.fliplr(sinogram))
     return sinogram
 
 
-- 
2.43.0


From 1de7a2be1ee7c8123130007cc2109c52f880ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 22/73] fix: do not change the data given by users

Replacing non-positive values before applying the logarithm was done inside
the array passed by the caller; apply_wavelet_reconstruction emptied a level
in the caller's list.
---
 algotom/rec/reconstruction.py | 12 ++++++------
 algotom/rec/vertrec.py        | 24 ++++++++++++++++--------
 algotom/util/utility.py       |  1 +
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index e42459f..f92617e 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -434,7 +434,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -635,7 +635,7 @@ def bpf_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ratio is not None:
         if ratio == 0.0:
@@ -866,7 +866,7 @@ def dfi_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -965,7 +965,7 @@ def gridrec_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if ncore is None:
         ncore = np.clip(mp.cpu_count() - 1, 1, None)
@@ -1140,7 +1140,7 @@ def astra_reconstruction(sinogram, center, angles=None, ratio=1.0,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
     if filter_name is None:
         filter_name = "ram-lak"
@@ -1323,7 +1323,7 @@ def _find_center_based_slice_metric(sinogram, start, stop, step=1,
         if np.any(sinogram <= 0.0):
             warnings.warn("!!!Applying logarithm is enabled but "
                           "there are values <= 0.0 in the data!!!")
-            sinogram[sinogram <= 0.0] = np.float32(1.0)
+            sinogram = np.where(sinogram <= 0.0, np.float32(1.0), sinogram)
         sinogram = -np.log(sinogram)
         apply_log = False
     if not cuda.is_available():
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index a97ad11..2e25b05 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -606,7 +606,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -647,7 +648,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -877,7 +879,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -922,7 +925,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1152,7 +1156,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("!!! Applying logarithm is enabled but "
                                   "there are values <= 0.0 in the data !!!")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1197,7 +1202,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 except RuntimeWarning:
                     warnings.warn("Applying logarithm is enabled but "
                                   "there are values <= 0.0.")
-                    img_chunk[img_chunk <= 0.0] = np.float32(1.0)
+                    img_chunk = np.where(img_chunk <= 0.0, np.float32(1.0),
+                                         img_chunk)
                     img_chunk = -np.log(img_chunk)
         if ramp_filter == "before":
             img_chunk = util.parallel_process_slices(img_chunk,
@@ -1350,7 +1356,8 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
 
     if masking:
@@ -1498,7 +1505,8 @@ def find_center_visual_vertical_slices(projections, output_folder, slice_index,
             except RuntimeWarning:
                 warnings.warn("!!! Applying logarithm is enabled but "
                               "there are values <= 0.0 in the data !!!")
-                projections[projections <= 0.0] = np.float32(1.0)
+                projections = np.where(projections <= 0.0, np.float32(1.0),
+                                       projections)
                 projections = -np.log(projections)
     if ramp_filter is None:
         ramp_filter = "after"
diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 144e44d..ae2308a 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -529,6 +529,7 @@ def apply_wavelet_reconstruction(data, wavelet_name, ignore_level=None):
     if ignore_level is not None:
         level = len(data[1:])
         if level >= ignore_level > 0:
+            data = list(data)
             data[-ignore_level] = tuple(
                 [np.zeros_like(v) for v in data[-ignore_level]])
     return pywt.waverec2(data, wavelet_name)
-- 
2.43.0


From a88a004134c67def62d43912289ceed48df85d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 23/73] fix: fbp_reconstruction of an integer stack with one
 core

The filtered sinograms were truncated to the integer type of the input.
---
 algotom/rec/reconstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index f92617e..37e02ea 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -461,7 +461,7 @@ def fbp_reconstruction(sinogram, center, angles=None, ratio=1.0, ramp_win=None,
             recon = recon * mask
     else:
         if ncore == 1:
-            sino_filtered = np.zeros_like(sinogram)
+            sino_filtered = np.zeros(sinogram.shape, dtype=np.float32)
             for i in range(num_sino):
                 sino_filtered[:, i, :] = apply_ramp_filter(sinogram[:, i, :],
                                                            ramp_win,
-- 
2.43.0


From 76699b94e3871aaaf7b00fef7110c16da86fa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 24/73] fix: vertical reconstruction with unsigned-integer
 flat/dark fields

Subtracting an integer dark-field from integer projections wrapped around
wherever a pixel was below the dark level.
---
 algotom/rec/vertrec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 2e25b05..deadad4 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -567,8 +567,8 @@ def vertical_reconstruction(projections, slice_index, center, alpha=0.0,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -839,8 +839,8 @@ def vertical_reconstruction_multiple(projections, start_index, stop_index,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
@@ -1116,8 +1116,8 @@ def vertical_reconstruction_different_angles(projections, slice_indices,
                 raise ValueError("!!! Shape of dark-field and projection-image"
                                  " is not the same !!!")
     if flat_correction:
-        flat = flat_field[top:bot, left:right]
-        dark = dark_field[top:bot, left:right]
+        flat = np.float32(flat_field[top:bot, left:right])
+        dark = np.float32(dark_field[top:bot, left:right])
         flat_dark = flat - dark
         flat_dark[flat_dark == 0.0] = np.float32(1.0)
         flat_dark = np.float32(flat_dark)
-- 
2.43.0


From 652f98ced25e08a2ea34566faf14a123e6b93cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 25/73] fix: find_center_vertical_slice with integer start,
 stop, and step

The metrics were truncated to integers, so the wrong center was returned.
---
 algotom/rec/vertrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index deadad4..189cf03 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -1341,7 +1341,7 @@ def find_center_vertical_slice(projections, slice_index, start, stop, step=1.0,
     if ramp_filter is None:
         ramp_filter = "after"
     list_center = np.arange(start, stop + step, step)
-    list_metric = np.zeros_like(list_center)
+    list_metric = np.zeros(len(list_center), dtype=np.float64)
     num_metric = len(list_metric)
     (num_proj, height, width) = projections.shape
     if angles is None:
-- 
2.43.0


From 46d74e6f73e3083a10e18ac8d2cc08ffcff7729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 26/73] fix: local shifts with small chunks or on a single-core
 machine

More chunks than rows to process gave empty chunks (IndexError), and the
number of cores selected automatically could be zero.
---
 algotom/util/correlation.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index f1f5233..4689314 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -958,7 +958,7 @@ def _get_1d_shift_multi_rows_3d_input(ref_mat, mat, direction="x", win_size=7,
         raise ValueError("Only two options: 'x' or 'y''")
     (depth, height, width) = ref_mat.shape
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     f_alias = _get_1d_shift_single_row_2d_input
     if direction == "x":
         if ncore == 1:
@@ -1064,7 +1064,9 @@ def _get_1d_shift_full_image_3d_input_cpu(ref_mat, mat, direction="x",
                                   True, ncore, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        rows = np.arange(edge, height - edge)
+        num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+        list_index = np.array_split(rows, num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -1345,7 +1347,9 @@ def _get_2d_shift_full_image_3d_input_cpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    rows = np.arange(edge, height - edge)
+    num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+    list_index = np.array_split(rows, num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input
@@ -1631,7 +1635,9 @@ def _get_1d_shift_full_image_3d_input_gpu(ref_mat, mat, direction="x",
                                   block, True, norm)
             shifts[bindex:eindex] = shift_chunk
     else:
-        list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+        rows = np.arange(edge, height - edge)
+        num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+        list_index = np.array_split(rows, num_chunk)
         for pos in list_index:
             bindex, eindex = pos[0], pos[-1] + 1
             ref_mat1 = ref_mat[:, bindex - edge:eindex + edge, :]
@@ -2026,7 +2032,9 @@ def _get_2d_shift_full_image_2d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    rows = np.arange(edge, height - edge)
+    num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+    list_index = np.array_split(rows, num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_2d_input_gpu
@@ -2221,7 +2229,9 @@ def _get_2d_shift_full_image_3d_input_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    rows = np.arange(edge, height - edge)
+    num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+    list_index = np.array_split(rows, num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_gpu
@@ -2367,7 +2377,7 @@ def _get_2d_shift_multi_rows_3d_input_cpu_gpu(ref_mat, mat, win_size=7,
     f_alias[grid, block](coef_4d, ref_mat1, mat1, np.int32(height1),
                          np.int32(width1), np.int32(radi), np.int32(margin))
     if ncore is None:
-        ncore = mp.cpu_count() - 1
+        ncore = np.clip(mp.cpu_count() - 1, 1, None)
     shifts = np.asarray(Parallel(n_jobs=ncore)(
         delayed(locate_peak)(coef_4d[i, j, :, :], True, method, 2, size)
         for i in range(height1) for j in range(width1)))
@@ -2451,7 +2461,9 @@ def _get_2d_shift_full_image_3d_input_cpu_gpu(ref_mat, mat, chunk_size=None,
         raise ValueError("Height of the inputs {0} are smaller than the "
                          "requested size (win_size + 2*margin + 1) = "
                          "{1} x {1}".format(height, 2 * edge + 1))
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    rows = np.arange(edge, height - edge)
+    num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+    list_index = np.array_split(rows, num_chunk)
     x_shifts = np.zeros((height, width), dtype=np.float32)
     y_shifts = np.zeros((height, width), dtype=np.float32)
     f_alias = _get_2d_shift_multi_rows_3d_input_cpu_gpu
@@ -3351,7 +3363,9 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     y_shifts = np.zeros_like(x_shifts)
     trans = np.ones_like(x_shifts)
     dark = np.ones_like(x_shifts)
-    list_index = np.array_split(np.arange(edge, height - edge), num_chunk)
+    rows = np.arange(edge, height - edge)
+    num_chunk = np.clip(num_chunk, 1, max(1, len(rows)))
+    list_index = np.array_split(rows, num_chunk)
     f_alias1 = __get_2d_shift_multi_rows_3d_input_umpa_gpu
     f_alias2 = __get_2d_shift_multi_rows_3d_input_umpa_cpu
     for pos in list_index:
-- 
2.43.0


From 529799be8ffd9196939450f627481de0c92bfb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 27/73] fix: local shifts from HDF datasets and integer images

find_local_shifts_umpa (and find_local_shifts using norm_global) did arithmetic
on HDF datasets directly, and squares of integer images overflowed.
---
 algotom/util/correlation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 4689314..cb7a4ca 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -55,6 +55,7 @@ def normalize_image(mat):
     array_like
         2D or 3D array. Normalized image.
     """
+    mat = mat[:]
     if len(mat.shape) == 3:
         mat1 = (mat - np.mean(mat)) / np.std(mat)
         mat1 = mat1 - np.min(mat1)
@@ -3349,6 +3350,10 @@ def find_local_shifts_umpa(ref_mat, mat, win_size=7, margin=10,
     win_1d = make_smoothing_window(filter_name, win_size)
     window = np.multiply.outer(win_1d, win_1d)
     window = window / np.sum(window)
+    ref_mat, mat = ref_mat[:], mat[:]
+    if not (np.issubdtype(ref_mat.dtype, np.floating)
+            and np.issubdtype(mat.dtype, np.floating)):
+        ref_mat, mat = np.float32(ref_mat), np.float32(mat)
     S2 = np.sum(mat ** 2, axis=0)
     R2 = np.sum(ref_mat ** 2, axis=0)
     L1 = correlate(S2, window, mode="same")
-- 
2.43.0


From 83ce615403d98282c00497a17d32becaf64321c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 28/73] fix: find_shift_based_correlation_map with a margin too
 large for the images

The check for images of the same size was ignored and zero shifts returned.
---
 algotom/util/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index cb7a4ca..98e019d 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -807,7 +807,7 @@ def find_shift_based_correlation_map(ref_mat, mat, margin=10, axis=None,
         else:
             check2 = False if ((height0 - 2 * margin < height1) and (
                     width0 - 2 * margin < width1)) else True
-    if check2:
+    if check1 and check2:
         match_img = generate_correlation_map(ref_mat, mat, gpu, block)
         (height2, width2) = match_img.shape
         y_mid, x_mid = height2 // 2, width2 // 2
-- 
2.43.0


From a1c68481c07c7a4fe72dbeff57bc0400fe2713a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 29/73] fix: unwarp_sinogram_chunk read too few rows of the
 data

The rows needed by a chunk were taken from the distortion of its first
and last+1 lines, without the row below the last one, so the last rows
were interpolated from outside the extracted block.
---
 algotom/prep/correction.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index babf819..06a1d97 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -266,26 +266,16 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
     if stop_index == -1:
         stop_index = height
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2)))
     yu_list = np.arange(start_index, stop_index) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    yd_min = np.int16(np.floor(np.amin(yd_mat)))
+    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, yd_min:yd_max, :], xd_mat, yd_mat) for i in
          list_idx])
-- 
2.43.0


From 0b11c78238d876de884fcdfbe9f1e51e89319a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 30/73] fix: flat_field_correction with integer ratio and
 unsigned flat/dark fields

An integer ratio kept the unsigned type of the flat field, so that
subtracting the dark field wrapped around where flat < dark.
---
 algotom/prep/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index 06a1d97..b70b81f 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -74,7 +74,7 @@ def flat_field_correction(proj, flat, dark, ratio=1.0, use_dark=True,
     """
     msg = "\n Please use the dictionary format: options={'method':" \
           " 'filter_name', 'para1': parameter_1, 'para2': parameter_2}"
-    flat = ratio * flat
+    flat = 1.0 * ratio * flat
     if use_dark:
         flat_dark = flat - dark
         if 0.0 in flat_dark:
-- 
2.43.0


From 38c54e988134d69e89b9bfd1a5433a29ab276f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 31/73] fix: sub-pixel overlaps when stitching, joining and
 extending

Both images were shifted by the full sub-pixel part of the overlap, so
that they ended up apart by that part again (with the sign reversed);
join_image shifted them the wrong way. Each image has to be shifted by
half of it, which also puts the rotation axis where the returned centre
says.
---
 algotom/prep/conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index e0d91e2..d4d76bc 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -107,7 +107,7 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
@@ -174,7 +174,7 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     (nrow1, ncol1) = mat1.shape
     (nrow2, ncol2) = mat2.shape
     joint_int = int(np.round(joint_width + 1.0e-3))
-    sub_pixel = joint_width - joint_int
+    sub_pixel = 0.5 * (joint_int - joint_width)
     side = int(side)
     if sub_pixel != 0.0:
         if side == 1:
@@ -433,7 +433,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
             overlap = 2 * (ncol - cor) - 1
             side = 1
     overlap_int = int(np.round(overlap + 1.0e-3))
-    sub_pixel = overlap - overlap_int
+    sub_pixel = 0.5 * (overlap - overlap_int)
     if side == 1:
         if sub_pixel != 0.0:
             sino_360 = shift(sino_360, (0, sub_pixel), mode='nearest')
-- 
2.43.0


From c5f276569b7fe2e0b9a569419ad0775937375c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 32/73] fix: stitching and extending integer images

The blending weights had the type of the image, so for integer images
they were truncated to zero inside the overlap; shifted or weighted
integer images were rounded, too.
---
 algotom/prep/conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index d4d76bc..a691bee 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -58,8 +58,8 @@ def make_weight_matrix(mat1, mat2, overlap, side):
         to the right side.
     """
     overlap = int(np.floor(overlap))
-    wei_mat1 = np.ones_like(mat1)
-    wei_mat2 = np.ones_like(mat2)
+    wei_mat1 = np.ones(mat1.shape, dtype=np.float32)
+    wei_mat2 = np.ones(mat2.shape, dtype=np.float32)
     if side == 1:
         list_down = np.linspace(1.0, 0.0, overlap)
         list_up = 1.0 - list_down
@@ -109,6 +109,7 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
     overlap_int = int(np.round(overlap + 1.0e-3))
     sub_pixel = 0.5 * (overlap - overlap_int)
     if sub_pixel != 0.0:
+        mat1, mat2 = np.float32(mat1), np.float32(mat2)
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
             mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
@@ -177,6 +178,7 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
     sub_pixel = 0.5 * (joint_int - joint_width)
     side = int(side)
     if sub_pixel != 0.0:
+        mat1, mat2 = np.float32(mat1), np.float32(mat2)
         if side == 1:
             mat1 = shift(mat1, (0, sub_pixel), mode='nearest')
             mat2 = shift(mat2, (0, -sub_pixel), mode='nearest')
@@ -387,6 +389,7 @@ def convert_sinogram_180_to_360(sino_180, center):
     (nrow, ncol) = sino_180.shape
     xcenter = (ncol - 1.0) / 2.0
     shift_x = xcenter - center
+    sino_180 = 1.0 * sino_180
     sino_flip = shift(np.fliplr(shift(sino_180, (0, shift_x), mode='nearest')),
                       (0, -shift_x), mode='nearest')
     return np.vstack((sino_180, sino_flip[1:]))
@@ -420,7 +423,7 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     if apply_log is True:
         sino_360 = -np.log(sino_360)
     else:
-        sino_360 = np.copy(sino_360)
+        sino_360 = 1.0 * sino_360
     (nrow, ncol) = sino_360.shape
     xcenter = (ncol - 1.0) * 0.5
     if isinstance(cor, tuple):
-- 
2.43.0


From 3b4294cc0a9395ae560471e4131da85062df90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:11 +0000
Subject: [PATCH 33/73] fix: blob removal altered the caller's mask

remove_blob_1d also determined the good pixels before clearing the mask
at the borders, so that blobs near a border raised an error on the first
call and not on the second.
---
 algotom/prep/removal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 2fe56ea..41eef99 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -971,11 +971,12 @@ def remove_blob_1d(sino_1d, mask_1d):
     [1] : https://doi.org/10.1364/OE.418448
     """
     sino_1d = np.copy(sino_1d)
+    mask_1d = np.copy(mask_1d)
+    mask_1d[:2] = 0.0
+    mask_1d[-2:] = 0.0
     xlist = np.where(mask_1d < 1.0)[0]
     ylist = sino_1d[xlist]
     finter = interpolate.interp1d(xlist, ylist)
-    mask_1d[:2] = 0.0
-    mask_1d[-2:] = 0.0
     xlist_miss = np.where(mask_1d > 0.0)[0]
     if len(xlist_miss) > 0:
         sino_1d[xlist_miss] = finter(xlist_miss)
@@ -1003,7 +1004,7 @@ def remove_blob(mat, mask):
         raise ValueError("The image and the mask are not the same shape !!!")
     for i in range(mat.shape[0]):
         array_1d = mat[i]
-        mask_1d = mask[i]
+        mask_1d = np.copy(mask[i])
         mask_1d[:2] = 0.0
         mask_1d[-2:] = 0.0
         xlist = np.where(mask_1d < 1.0)[0]
-- 
2.43.0


From fdc79411a8fa5e98a6ace02f5352ac2ebbe27c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 34/73] fix: zinger size check counted pixels of other zingers

A bounding box can contain pixels of another zinger, which were counted
and selected together with it.
---
 algotom/prep/removal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 41eef99..cd14f44 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -856,12 +856,12 @@ def select_zinger(mat, max_size):
     array_like
         2D binary array.
     """
-    list_zin = ndi.find_objects(ndi.label(mat)[0])
-    zin_sel = [zin for zin in list_zin
-               if check_zinger_size(mat[zin], max_size)]
+    labels = ndi.label(mat)[0]
     mat_out = np.zeros_like(mat)
-    for _, j in enumerate(zin_sel):
-        mat_out[j] = mat[j]
+    for i, zin in enumerate(ndi.find_objects(labels)):
+        zin_mat = np.where(labels[zin] == i + 1, mat[zin], 0)
+        if check_zinger_size(zin_mat, max_size):
+            mat_out[zin] = mat_out[zin] + zin_mat
     return mat_out
 
 
-- 
2.43.0


From 1f3c4139d001c6591bfca8cf94e4cc9fe8d4a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 35/73] fix: generate_full_sinogram_helical_scan refused
 reconstructable slices

The number of projections seeing a slice was taken from the full detector
height instead of the distance between its first and last row, so that the
last projections fell outside the detector.
---
 algotom/prep/conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index a691bee..85d2330 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -653,7 +653,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     else:
         y_e = y_stop - pitch
         y_s = y_start + pitch
-    num_proj_used = int(np.floor(fov / y_step)) - 1
+    num_proj_used = int(np.floor((fov - pixel_size) / y_step))
     y_pos = (index - 1) * pixel_size + y_s
     i0 = int(np.ceil((y_e - y_pos) / y_step))
     if (i0 < 0) or (i0 >= depth0):
@@ -661,11 +661,11 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
             "Sinogram index {0} requests a projection index {1} which "
             "is out of the projection range [0, {2}]".format(
                 index, i0, depth0 - 1))
-    if (i0 + num_proj_used) >= depth0:
+    if (i0 + num_proj_used) > depth0:
         raise ValueError(
             "Sinogram index {0} requests projection-indices in the range of "
             "[{1}, {2}] which is out of the data range [0, {3}]".format(
-                index, i0, i0 + num_proj_used, depth0 - 1))
+                index, i0, i0 + num_proj_used - 1, depth0 - 1))
     sinogram = np.zeros((num_proj_used, width), dtype=np.float32)
     for i in range(i0, i0 + num_proj_used):
         j0 = (y_e + fov - i * y_step - y_pos) / pixel_size - 1
-- 
2.43.0


From be832046c2362bddc7708b2bf9e7d2c7c1c73ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 36/73] fix: helical sinograms with unsigned-integer dark
 fields

Counts below the dark level wrapped around.
---
 algotom/prep/conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 85d2330..1dd715a 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -532,6 +532,7 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    dark = 1.0 * dark
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
@@ -644,6 +645,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
     if angles is None:
         step_angle = 180.0 / (num_proj - 1)
         angles = np.arange(0, depth0) * step_angle
+    dark = 1.0 * dark
     flat_dark = flat - dark
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
-- 
2.43.0


From 7a5e143a6ef32834f72fedd8825e696643be2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 37/73] fix: remove_zinger at image borders and on zero
 background

The neighbours of border pixels were taken from the opposite border, so
that clean pixels were changed, and zingers surrounded by zeros were
replaced by one instead of zero.
---
 algotom/prep/removal.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index cd14f44..1f6e41a 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -893,14 +893,20 @@ def remove_zinger(mat, threshold, size=2, check_size=False):
     """
     step = np.clip(size, 1, None)
     mat = np.copy(mat)
-    mat_ave = []
+    (nrow, ncol) = mat.shape
+    mat_pad = np.pad(mat, size, mode="constant")
+    inside = np.pad(np.ones_like(mat, dtype=np.float32), size, mode="constant")
+    mat_sum, num = 0.0, 0.0
     for i in range(-size, size + 1, step):
         for j in range(-size, size + 1, step):
             if (i != 0) or (j != 0):
-                mat_ave.append(np.roll(np.roll(mat, i, axis=0), j, axis=1))
-    mat_ave = np.mean(np.asarray(mat_ave), axis=0)
-    mat_ave[mat_ave == 0.0] = 1.0
-    mat_nor = mat / mat_ave - 1.0
+                area = (slice(size - i, size - i + nrow),
+                        slice(size - j, size - j + ncol))
+                mat_sum = mat_sum + mat_pad[area]
+                num = num + inside[area]
+    # Only neighbours inside the image are averaged
+    mat_ave = np.where(num > 0.0, mat_sum / np.maximum(num, 1.0), mat)
+    mat_nor = mat / np.where(mat_ave == 0.0, 1.0, mat_ave) - 1.0
     mask = np.asarray(mat_nor > threshold, dtype=np.float32)
     if check_size:
         mask = select_zinger(mask, size)
-- 
2.43.0


From f8a059e871d41babc54ca99a263a9eedf739190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 38/73] fix: remove_stripe_based_fft flipped the sign of
 negative values

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 1f6e41a..4cd08c1 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -626,7 +626,7 @@ def remove_stripe_based_fft(sinogram, u=20, n=8, v=1, sort=False):
     window_2d = util.make_2d_butterworth_window(ncol, nrow, u, v, n)
     sinogram = fft.ifft2(
         np.fft.ifftshift(np.fft.fftshift(fft.fft2(sinogram)) * window_2d))
-    sinogram = np.abs(sinogram[pad:nrow - pad, pad:ncol - pad])
+    sinogram = np.real(sinogram[pad:nrow - pad, pad:ncol - pad])
     if sort is True:
         sinogram = util.sort_backward(sinogram, sino_index, axis=0)
     return sinogram
-- 
2.43.0


From 90fa89704da20c44ffa207f398248d7456ba4d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 39/73] fix: stripe-filter windows off the zero frequency for
 even sizes

---
 algotom/util/utility.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index ae2308a..a677f0f 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -436,12 +436,12 @@ def make_2d_butterworth_window(width, height, u, v, n):
     array_like
         2D array.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
-    ycenter = np.int16(np.ceil(height / 2.0) - 1)
-    xlist = np.arange(width) - xcenter
+    xcenter = width // 2
+    ycenter = height // 2
+    xlist = np.arange(width, dtype=np.float64) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
-    row1 = ycenter - np.int16(v)
-    row2 = ycenter + np.int16(v) + 1
+    row1 = ycenter - int(v)
+    row2 = ycenter + int(v) + 1
     window_2d = np.ones((height, width), dtype=np.float32)
     window_2d[row1:row2] = window
     return window_2d
@@ -468,8 +468,8 @@ def make_2d_damping_window(width, height, size, window_name="gaussian"):
     array_like
         2D array of the window.
     """
-    xcenter = np.ceil(width / 2.0) - 1.0
-    xlist = np.arange(width) - xcenter
+    xcenter = width // 2
+    xlist = np.arange(width, dtype=np.float64) - xcenter
     if window_name == "butter":
         window = 1.0 - 1.0 / (1.0 + np.power(xlist / size, 2))
     else:
-- 
2.43.0


From 5f3b6b96213f0bc1c54feee0097e4e47ff4ac18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 40/73] fix: wavelet-fft stripe removal failed on sinograms too
 small to decompose

---
 algotom/prep/removal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 4cd08c1..5ecc961 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -679,7 +679,7 @@ def remove_stripe_based_wavelet_fft(sinogram, level=5, size=1,
     sinogram = np.pad(sinogram, ((0, 0), (pad, pad)), mode='edge')
     output_data = util.apply_wavelet_decomposition(sinogram, wavelet_name,
                                                    level=level)
-    output_data = [list(data) for data in output_data]
+    output_data = [output_data[0]] + [list(data) for data in output_data[1:]]
     n_level = len(output_data[1:])
     for i in range(1, n_level + 1):
         if len(options) == 0:
-- 
2.43.0


From d9930d19416e9e5a9cf018c3f025bd15a2aff92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 41/73] fix: FC surface reconstruction scaled y-frequencies by
 the image width

---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index c4c80b2..21762f6 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -317,7 +317,7 @@ def _make_window_FC_method(height, width):
     xcenter = width // 2
     ycenter = height // 2
     ulist = (1.0 * np.arange(0, width) - xcenter) / width
-    vlist = (1.0 * np.arange(0, height) - ycenter) / width
+    vlist = (1.0 * np.arange(0, height) - ycenter) / height
     u, v = np.meshgrid(ulist, vlist)
     window = u ** 2 + v ** 2
     window[ycenter, xcenter] = 1.0
-- 
2.43.0


From 8d815122f2def14ae7e09f4ad6f7f4bce1946684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 42/73] fix: FC surface reconstruction mirrored the gradients
 without sign change

---
 algotom/prep/phase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 21762f6..a477a62 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -359,8 +359,14 @@ def reconstruct_surface_from_gradient_FC_method(grad_x, grad_y,
     height, width = grad_x.shape
     if grad_x.shape != grad_y.shape:
         raise ValueError("Input gradients must be the same size!!!")
-    grad2_x = _double_image(grad_x)
-    grad2_y = _double_image(grad_y)
+    # Tilt (mean gradient) is removed, as in the SCS method. Gradients of
+    # the mirrored surface change the sign along the derivative direction.
+    grad_x = grad_x - np.mean(grad_x)
+    grad_y = grad_y - np.mean(grad_y)
+    grad2_x = np.hstack((grad_x, -np.fliplr(grad_x)))
+    grad2_x = np.vstack((np.flipud(grad2_x), grad2_x))
+    grad2_y = np.hstack((grad_y, np.fliplr(grad_y)))
+    grad2_y = np.vstack((-np.flipud(grad2_y), grad2_y))
     height2, width2 = grad2_x.shape
     if window is None:
         u, v, win = _make_window_FC_method(height2, width2)
-- 
2.43.0


From 482f20c12a74dca70cec1aa90934166461a06f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 43/73] fix: transmission and dark-field signals compared wrong
 windows of the stacks

---
 algotom/prep/phase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index a477a62..d8dd487 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -734,8 +734,8 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
             for j in range(start, stop_col):
                 i1 = i + int(np.round(y_shifts[i, j]))
                 j1 = j + int(np.round(x_shifts[i, j]))
-                mat1 = ref_stack[i - radi:i + radi1, j - radi:j + radi1]
-                mat2 = sam_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat1 = ref_stack[i1 - radi:i1 + radi1, j1 - radi:j1 + radi1]
+                mat2 = sam_stack[i - radi:i + radi1, j - radi:j + radi1]
                 (val1, val2) = f_alias(mat1, mat2)
                 i2, j2 = i - start, j - start
                 trans[i2, j2], dark[i2, j2] = val1, val2
@@ -748,9 +748,9 @@ def _get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
                 list1 = []
                 list2 = []
                 for k in range(num_image):
-                    mat1 = ref_stack[k, i - radi:i + radi1, j - radi:j + radi1]
-                    mat2 = sam_stack[k, i1 - radi:i1 + radi1,
+                    mat1 = ref_stack[k, i1 - radi:i1 + radi1,
                                      j1 - radi:j1 + radi1]
+                    mat2 = sam_stack[k, i - radi:i + radi1, j - radi:j + radi1]
                     (val1, val2) = f_alias(mat1, mat2)
                     list1.append(val1)
                     list2.append(val2)
-- 
2.43.0


From fdb02ff5610437b69b7f80560c94444a0ce265e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 44/73] fix: automatic margin of the dark-field signal was
 below the largest shift

---
 algotom/prep/phase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index d8dd487..0f0f1dd 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -799,7 +799,8 @@ def get_transmission_dark_field_signal(ref_stack, sam_stack, x_shifts,
     win_size = 2 * (win_size // 2) + 1
     radi = win_size // 2
     if margin is None:
-        margin = int(max(np.max(np.abs(x_shifts)), np.max(np.abs(y_shifts))))
+        margin = int(np.ceil(max(np.max(np.abs(x_shifts)),
+                                 np.max(np.abs(y_shifts)))))
     pad = radi + margin
     als_size = 2 * pad
     if width <= als_size or height <= als_size:
-- 
2.43.0


From f4291ca742e4f83b3f107e35387c5ee84359042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 45/73] fix: speckle tracking kept a frame of zero shifts for
 windows above 5 pixels

---
 algotom/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/phase.py b/algotom/prep/phase.py
index 0f0f1dd..78fbc14 100644
--- a/algotom/prep/phase.py
+++ b/algotom/prep/phase.py
@@ -974,7 +974,7 @@ def retrieve_phase_based_speckle_tracking(ref_stack, sam_stack,
             f_alias = get_transmission_dark_field_signal
             trans, dark = f_alias(ref_stack, sam_stack, x_shifts, y_shifts,
                                   win_size, margin, ncore=ncore)
-    edge = margin + 2
+    edge = margin + max(2, win_size // 2)
     x_shifts = np.pad(x_shifts[edge:-edge, edge:-edge], edge,
                       mode="reflect")
     y_shifts = np.pad(y_shifts[edge:-edge, edge:-edge], edge,
-- 
2.43.0


From 2d13f2bf99f29e058c2cd9b31cf0f168e6ab776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:29 +0000
Subject: [PATCH 46/73] fix: dots were selected by everything inside their
 bounding box

---
 algotom/util/calibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algotom/util/calibration.py b/algotom/util/calibration.py
index 8708c7a..b319774 100644
--- a/algotom/util/calibration.py
+++ b/algotom/util/calibration.py
@@ -285,11 +285,12 @@ def select_dot_based_size(mat, dot_size, ratio=0.01):
     max_size = np.clip(np.int32(dot_size + ratio * dot_size), 1, None)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        # Bounding boxes of neighbouring dots can overlap.
+        dot = mat[j] * (mat_label[j] == i + 1)
+        if check_dot_size(dot, min_size, max_size):
+            mat1[j] += dot
     return mat1
 
 
-- 
2.43.0


From ad0f7d39429cb8f7cb67ca57633f68cd2e0f904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 47/73] fix: a stripe artifact could not be placed on the last
 column

---
 algotom/util/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/simulation.py b/algotom/util/simulation.py
index 8fe2543..e3c37df 100644
--- a/algotom/util/simulation.py
+++ b/algotom/util/simulation.py
@@ -430,7 +430,7 @@ def add_stripe_artifact(sinogram, size, position, strength_ratio=0.2,
     """
     sinogram = np.copy(sinogram)
     (nrow, ncol) = sinogram.shape
-    position = np.clip(position, 0, ncol - size - 1)
+    position = np.clip(position, 0, ncol - size)
     strength_ratio = np.clip(strength_ratio, 0.0, 1.0)
     stripe = sinogram[:, position: position + size]
     if stripe_type == "partial":
-- 
2.43.0


From 919724f3459ce54878a5c8f36e4529684cba2952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 48/73] fix: regularization coefficients were not the inverse
 of the regularized operator

---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index a677f0f..e43f5c0 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -406,8 +406,8 @@ def calculate_regularization_coefficient(width, alpha):
     matjj, matii = np.meshgrid(jlist, ilist)
     mat1 = np.abs(matii - matjj)
     mat2 = matii + matjj
-    mat1a = np.cosh((width - 1 - mat1) * tau)
-    mat2a = np.cosh((width - mat2) * tau)
+    mat1a = np.cosh((width - mat1) * tau)
+    mat2a = np.cosh((width - 1 - mat2) * tau)
     matcoe = - (np.tanh(
         0.5 * tau) / (alpha * np.sinh(width * tau))) * (mat1a + mat2a)
     return matcoe
-- 
2.43.0


From 17bf81b415224161d8fdc17da8f1c5227861ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:14 +0000
Subject: [PATCH 49/73] fix: Gaussian window was half a sample off the zero
 frequency, which lowered the mean level

---
 algotom/util/utility.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index e43f5c0..cac1a65 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -813,8 +813,9 @@ def make_2d_gaussian_window(height, width, sigma_x, sigma_y):
     array_like
         2D array.
     """
-    xcenter = (width - 1.0) / 2.0
-    ycenter = (height - 1.0) / 2.0
+    # Zero frequency of the shifted Fourier transform.
+    xcenter = width // 2
+    ycenter = height // 2
     y, x = np.ogrid[-ycenter:height - ycenter, -xcenter:width - xcenter]
     window = np.exp(
         -(x ** 2 / (2 * sigma_x ** 2) + y ** 2 / (2 * sigma_y ** 2)))
@@ -862,12 +863,8 @@ def apply_gaussian_filter(mat, sigma_x, sigma_y, pad=None, mode=None):
     mat_pad = np.pad(mat_pad, ((pad, pad), (0, 0)), mode=mode2)
     (nrow, ncol) = mat_pad.shape
     window = make_2d_gaussian_window(nrow, ncol, sigma_x, sigma_y)
-    xlist = np.arange(0, ncol)
-    ylist = np.arange(0, nrow)
-    x, y = np.meshgrid(xlist, ylist)
-    mat_sign = np.power(-1.0, x + y)
     mat_filt = np.real(
-        fft.ifft2(fft.fft2(mat_pad * mat_sign) * window) * mat_sign)
+        fft.ifft2(fft.fft2(mat_pad) * fft.ifftshift(window)))
     return mat_filt[pad:nrow - pad, pad:ncol - pad]
 
 
-- 
2.43.0


From b1f7ca4c1597127e0cd8c4658c73f091a64b529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:17 +0000
Subject: [PATCH 50/73] fix: regularization coefficients overflowed for wide
 images

---
 algotom/util/utility.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index cac1a65..9736b8c 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -406,10 +406,13 @@ def calculate_regularization_coefficient(width, alpha):
     matjj, matii = np.meshgrid(jlist, ilist)
     mat1 = np.abs(matii - matjj)
     mat2 = matii + matjj
-    mat1a = np.cosh((width - mat1) * tau)
-    mat2a = np.cosh((width - 1 - mat2) * tau)
-    matcoe = - (np.tanh(
-        0.5 * tau) / (alpha * np.sinh(width * tau))) * (mat1a + mat2a)
+    # cosh(x * tau) / sinh(width * tau) in a form which can't overflow.
+    mat1a = (width - mat1) * tau
+    mat2a = np.abs(width - 1 - mat2) * tau
+    matcoe = sum(np.exp(mat - width * tau) + np.exp(-mat - width * tau)
+                 for mat in (mat1a, mat2a))
+    matcoe = - np.tanh(0.5 * tau) * matcoe / (
+            alpha * (1.0 - np.exp(-2.0 * width * tau)))
     return matcoe
 
 
-- 
2.43.0


From d2ecbf9489cba8b8970132938ef6eddb71f76a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 51/73] fix: back-transform from polar coordinates enlarged
 radii by one polar column

---
 algotom/util/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 9736b8c..b7c21e7 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -724,8 +724,9 @@ def polar_from_rectangular(width_pol, height_pol, width_reg, height_reg):
     xcenter = (width_reg - 1.0) * 0.5
     ycenter = (height_reg - 1.0) * 0.5
     r_max = np.floor(max(xcenter, ycenter))
-    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * width_pol / r_max
-    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * width_pol / r_max
+    scale = (width_pol - 1) / r_max
+    xlist = (np.flipud(np.arange(width_reg)) - xcenter) * scale
+    ylist = (np.flipud(np.arange(height_reg)) - ycenter) * scale
     x_mat, y_mat = np.meshgrid(xlist, ylist)
     r_mat = np.float32(
         np.clip(np.sqrt(x_mat ** 2 + y_mat ** 2), 0, width_pol - 1))
-- 
2.43.0


From 6ccab3a1d61801418a4b0692af6b2f5ea7db6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 52/73] fix: back-projection of unsigned-integer images wrapped
 around between pixels

---
 algotom/rec/reconstruction.py |  9 ++++++---
 algotom/rec/vertrec.py        | 12 ++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index 37e02ea..f9fd0df 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -176,7 +176,8 @@ def __back_projection_gpu_kernel(recon, sinogram, angles, center, sino_height,
                 if u_pos != d_pos:
                     yd = sinogram[i, d_pos]
                     yu = sinogram[i, u_pos]
-                    val = yd + (yu - yd) * (f_pos - d_pos)
+                    frac = f_pos - d_pos
+                    val = yd * (1.0 - frac) + yu * frac
                 else:
                     val = sinogram[i, d_pos]
                 num += val
@@ -250,7 +251,8 @@ def __back_projection_gpu_chunk_kernel(recons, sinograms, angles, center,
                     if u_pos != d_pos:
                         yd = sinograms[i, j, d_pos]
                         yu = sinograms[i, j, u_pos]
-                        val = yd + (yu - yd) * (f_pos - d_pos)
+                        frac = f_pos - d_pos
+                        val = yd * (1.0 - frac) + yu * frac
                     else:
                         val = sinograms[i, j, d_pos]
                     recons[y_index, j, x_index] += val
@@ -347,7 +349,8 @@ def back_projection_cpu(sinogram, angles, center,
                     if u_pos != d_pos:
                         yd = sinogram[i, d_pos]
                         yu = sinogram[i, u_pos]
-                        val = yd + (yu - yd) * (f_pos - d_pos)
+                        frac = f_pos - d_pos
+                        val = yd * (1.0 - frac) + yu * frac
                     else:
                         val = sinogram[i, d_pos]
                     recon[y_index, x_index] += val
diff --git a/algotom/rec/vertrec.py b/algotom/rec/vertrec.py
index 189cf03..46e57d3 100644
--- a/algotom/rec/vertrec.py
+++ b/algotom/rec/vertrec.py
@@ -95,7 +95,8 @@ def vertical_back_projection_cpu(projections, angles, xlist, ylist, center,
                     if u_pos != d_pos:
                         yd = projections[n, i, d_pos]
                         yu = projections[n, i, u_pos]
-                        val = yd + (yu - yd) * (f_pos - d_pos)
+                        frac = f_pos - d_pos
+                        val = yd * (1.0 - frac) + yu * frac
                     else:
                         val = projections[n, i, d_pos]
                     recon[i, j] += val
@@ -158,7 +159,8 @@ def vertical_back_projection_cpu_chunk(projections, angles, x_mat, y_mat,
                         if u_pos != d_pos:
                             yd = projections[n, i, d_pos]
                             yu = projections[n, i, u_pos]
-                            val = yd + (yu - yd) * (f_pos - d_pos)
+                            frac = f_pos - d_pos
+                            val = yd * (1.0 - frac) + yu * frac
                         else:
                             val = projections[n, i, d_pos]
                         recon[s, i, j] += val
@@ -198,7 +200,8 @@ def __vertical_back_projection_gpu_kernel(recon, projections, angles, xlist,
             if u_pos != d_pos:
                 yd = projections[k, i_index, d_pos]
                 yu = projections[k, i_index, u_pos]
-                val = yd + (yu - yd) * (f_pos - d_pos)
+                frac = f_pos - d_pos
+                val = yd * (1.0 - frac) + yu * frac
             else:
                 val = projections[k, i_index, d_pos]
             val_acc += val
@@ -278,7 +281,8 @@ def __vertical_back_projection_gpu_chunk_kernel(recons, projections, angles,
                 if u_pos != d_pos:
                     yd = projections[n, i_index, d_pos]
                     yu = projections[n, i_index, u_pos]
-                    val = yd + (yu - yd) * (f_pos - d_pos)
+                    frac = f_pos - d_pos
+                    val = yd * (1.0 - frac) + yu * frac
                 else:
                     val = projections[n, i_index, d_pos]
                 val_acc += val
-- 
2.43.0


From 4238c9c77c28d069e2604bcb0f33d53566a1bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 53/73] fix: gradient of unsigned-integer images wrapped around

---
 algotom/prep/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 5db0031..aaa5eb9 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -729,6 +729,7 @@ def complex_gradient(mat):
     """
     Return complex gradient of a 2D array.
     """
+    mat = 1.0 * mat
     mat1a = np.roll(mat, -2, axis=1)
     mat2a = mat1a - mat
     mat2a[:, :2] = 0.0
-- 
2.43.0


From a5d4ce89c0f0c3be87a7dc32991a2514fbe5b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:57 +0000
Subject: [PATCH 54/73] fix: smoothing filters truncated or wrapped around
 integer images

---
 algotom/util/utility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index b7c21e7..617813d 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -291,7 +291,7 @@ def separate_frequency_component(mat, axis=0, window=None):
 
     list_sign = np.power(-1.0, np.arange(ncol + 2 * pad))
     mat_pad = np.pad(mat, ((0, 0), (pad, pad)), mode='reflect')
-    mat_smooth = np.copy(mat)
+    mat_smooth = 1.0 * mat
     for i, line in enumerate(mat_pad):
         mat_smooth[i] = np.real(
             fft.ifft(fft.fft(line * list_sign) * window) *
@@ -878,6 +878,7 @@ def apply_1d_regularizer(list_data, sijmat):
     To apply a regularizer to an 1D-array.
     """
     ncol = len(list_data)
+    list_data = 1.0 * list_data
     list_grad = np.zeros(ncol, dtype=np.float32)
     list_grad[1:-1] = (-1) * np.diff(list_data, 2)
     list_grad[0] = list_data[0] - list_data[1]
-- 
2.43.0


From cb613cf86ccdae8d8db12d97087e6a87955eaee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 55/73] fix: GPU local shifts were never refined along the
 border of the search window

---
 algotom/util/correlation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index 98e019d..d6bfa89 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -1840,9 +1840,15 @@ def __locate_2d_peak_kernel(mat, x0, y0):  # pragma: no cover
     if (x0 == 0 or x0 == width1) and (height1 > y0 > 0):
         d1fy = (mat[y0 + 1, x0] - mat[y0 - 1, x0]) / 2.0
         d2fy = (mat[y0 + 1, x0] + mat[y0 - 1, x0] - 2 * mat[y0, x0])
+        if d2fy != 0.0:
+            y_pos = y0 - d1fy / d2fy
+        return x_pos, y_pos
     if (y0 == 0 or y0 == height1) and (width1 > x0 > 0):
         d1fx = (mat[y0, x0 + 1] - mat[y0, x0 - 1]) / 2.0
         d2fx = (mat[y0, x0 + 1] + mat[y0, x0 - 1] - 2 * mat[y0, x0])
+        if d2fx != 0.0:
+            x_pos = x0 - d1fx / d2fx
+        return x_pos, y_pos
     if (height1 > y0 > 0) and (width1 > x0 > 0):
         d1fx = 0.5 * (mat[y0, x0 + 1] - mat[y0, x0 - 1])
         d1fy = 0.5 * (mat[y0 + 1, x0] - mat[y0 - 1, x0])
-- 
2.43.0


From feadcc56422249d424d2b0eda16d30a448c70969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 56/73] fix: find_local_shifts with gpu=True normalised 2D
 images chunk by chunk

---
 algotom/util/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index d6bfa89..b7f12c0 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -2558,7 +2558,8 @@ def find_local_shifts(ref_mat, mat, dim=1, win_size=7, margin=10,
             f_alias = _get_2d_shift_full_image_2d_input_gpu
             (x_shifts, y_shifts) = f_alias(ref_mat, mat, chunk_size=chunk_size,
                                            win_size=win_size, margin=margin,
-                                           block=block, norm=norm)
+                                           block=block, norm=False,
+                                           norm_global=norm)
     else:
         if gpu is False:
             if dim == 1:
-- 
2.43.0


From a1b1fd9cb069a987196ef32db95085e19f2dc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 57/73] fix: pixels with equal flat and dark field made helical
 sinograms infinite or NaN

---
 algotom/prep/conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 1dd715a..2a7a7d9 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -534,6 +534,7 @@ def generate_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
         angles = np.arange(0, depth0) * step_angle
     dark = 1.0 * dark
     flat_dark = flat - dark
+    flat_dark = np.where(flat_dark == 0.0, 1.0, flat_dark)
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
@@ -647,6 +648,7 @@ def generate_full_sinogram_helical_scan(index, tomo_data, num_proj, pixel_size,
         angles = np.arange(0, depth0) * step_angle
     dark = 1.0 * dark
     flat_dark = flat - dark
+    flat_dark = np.where(flat_dark == 0.0, 1.0, flat_dark)
     fov = pixel_size * height
     y_step = pitch / (2.0 * (num_proj - 1))
     if scan_type == "180":
-- 
2.43.0


From 8207a5ecebbad07c39bbee8f360c12a043aff5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 58/73] fix: normalization by a blank overlap turned
 stitched/joined images into NaN or zeros

---
 algotom/prep/conversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 2a7a7d9..d532c43 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -129,14 +129,16 @@ def stitch_image(mat1, mat2, overlap, side, wei_mat1=None, wei_mat2=None,
         if norm is True:
             factor1 = np.mean(mat1[:, -overlap_int:])
             factor2 = np.mean(mat2[:, :overlap_int])
-            mat2 = mat2 * factor1 / factor2
+            if factor1 != 0.0 and factor2 != 0.0:
+                mat2 = mat2 * factor1 / factor2
         mat_comb[:, 0:ncol1] = mat1 * wei_mat1
         mat_comb[:, (ncol1 - overlap_int):total_width0] += mat2 * wei_mat2
     else:
         if norm is True:
             factor2 = np.mean(mat2[:, -overlap_int:])
             factor1 = np.mean(mat1[:, :overlap_int])
-            mat2 = mat2 * factor1 / factor2
+            if factor1 != 0.0 and factor2 != 0.0:
+                mat2 = mat2 * factor1 / factor2
         mat_comb[:, 0:ncol2] = mat2 * wei_mat2
         mat_comb[:, (ncol2 - overlap_int):total_width0] += mat1 * wei_mat1
     if total_width > total_width0:
@@ -195,7 +197,8 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
         if norm is True:
             factor1 = np.mean(mat1[:, -3:])
             factor2 = np.mean(mat2[:, :3])
-            mat2 = mat2 * factor1 / factor2
+            if factor1 != 0.0 and factor2 != 0.0:
+                mat2 = mat2 * factor1 / factor2
         mat_comb[:, 0:ncol1] = mat1
         mat_comb[:, (ncol1 + joint_int):total_width0] += mat2
         list_mask = np.zeros(total_width0, dtype=np.float32)
@@ -215,7 +218,8 @@ def join_image(mat1, mat2, joint_width, side, norm=True, total_width=None):
         if norm is True:
             factor2 = np.mean(mat2[:, -3:])
             factor1 = np.mean(mat1[:, :3])
-            mat2 = mat2 * factor1 / factor2
+            if factor1 != 0.0 and factor2 != 0.0:
+                mat2 = mat2 * factor1 / factor2
         mat_comb[:, 0:ncol2] = mat2
         mat_comb[:, (ncol2 + joint_int):total_width0] += mat1
         list_mask = np.zeros(total_width0, dtype=np.float32)
-- 
2.43.0


From 08dc91bd07079883312237f0a37bcf5e422ada22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 59/73] fix: extend_sinogram gave infinite/NaN values for
 non-positive pixels

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index d532c43..1f3cc1c 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -425,7 +425,8 @@ def extend_sinogram(sino_360, cor, apply_log=True):
     [1] : https://doi.org/10.1364/OE.418448
     """
     if apply_log is True:
-        sino_360 = -np.log(sino_360)
+        sino_360 = -np.log(np.where(sino_360 <= 0.0, np.float32(1.0),
+                                    sino_360))
     else:
         sino_360 = 1.0 * sino_360
     (nrow, ncol) = sino_360.shape
-- 
2.43.0


From a78011117b2bc9a4904e9867134054057cd47f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 60/73] fix: a single non-positive pixel made fresnel_filter
 return NaN rows or images

---
 algotom/prep/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index 18eae99..a7d088f 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -104,7 +104,7 @@ def fresnel_filter(mat, ratio, dim=1, window=None, pad=150, apply_log=True):
     [2] : https://tinyurl.com/2f8nv875
     """
     if apply_log:
-        mat = -np.log(mat)
+        mat = -np.log(np.where(mat <= 0.0, np.float32(1.0), mat))
     (nrow, ncol) = mat.shape
     if dim == 2:
         if window is None:
-- 
2.43.0


From 47353643940d3373b55f01e3a14a9b72d45263ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 61/73] fix: remove_stripe_based_fitting gave NaN in blank
 columns

---
 algotom/prep/removal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algotom/prep/removal.py b/algotom/prep/removal.py
index 5ecc961..d7a8812 100644
--- a/algotom/prep/removal.py
+++ b/algotom/prep/removal.py
@@ -232,6 +232,7 @@ def remove_stripe_based_fitting(sinogram, order=2, sigma=10, sort=False,
                                      " namespace".format(method))
     sino_filt = np.mean(np.abs(sino_fit)) * sino_filt / np.mean(
         np.abs(sino_filt))
+    sino_fit = np.where(sino_fit == 0.0, 1.0, sino_fit)
     sino_corr = ((sinogram / sino_fit) * sino_filt)
     if sort is True:
         sino_corr = util.sort_backward(sino_corr, sino_index, axis=0)
-- 
2.43.0


From b4b46841f91cc6507e52b81c5c0f48aa503ed178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 62/73] fix: one blank row or column made normalize_image
 return NaN everywhere

---
 algotom/util/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algotom/util/correlation.py b/algotom/util/correlation.py
index b7f12c0..3599c9f 100644
--- a/algotom/util/correlation.py
+++ b/algotom/util/correlation.py
@@ -62,6 +62,8 @@ def normalize_image(mat):
     else:
         rlist = np.sum(mat, axis=0)
         clist = np.transpose([np.sum(mat, axis=1)])
+        rlist = np.where(rlist == 0.0, 1.0, rlist)
+        clist = np.where(clist == 0.0, 1.0, clist)
         mat1 = (mat / rlist) / clist
         mat1 = (mat1 - np.mean(mat1)) / np.std(mat1)
     return mat1
-- 
2.43.0


From 285cee1dcc9104ddab7ea532c9b4b1039da17aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 63/73] fix: a window without contrast turned all overlap
 metrics into NaN (wrong overlap)

---
 algotom/prep/calculation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index aaa5eb9..1c8c8f5 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -426,6 +426,8 @@ def correlation_metric(mat1, mat2):
     mat1_flat = mat1.flatten('F')
     mat2_flat = mat2.flatten('F')
     corr, _ = stats.pearsonr(mat1_flat, mat2_flat)
+    if np.isnan(corr):  # No contrast, no correlation.
+        corr = 0.0
     return np.abs(1.0 - corr)
 
 
@@ -440,6 +442,7 @@ def __calc_overlap_metric(mat1, pos, offset, use_overlap, side, norm, wei_down,
             mat1_roi_wei = mat1_roi * wei_up
     if norm is True:
         list_mean1 = np.mean(np.abs(mat1_roi), axis=1)
+        list_mean1[list_mean1 == 0.0] = 1.0
         list_fact = list_mean2 / list_mean1
         mat_fact = np.transpose(np.tile(list_fact, (win_width, 1)))
         mat1_roi = mat1_roi * mat_fact
-- 
2.43.0


From 3053c2b90cae18b5bfff683109cf4f5daa34c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 64/73] fix: a negative stack index beyond the first image
 returned a wrong image

---
 algotom/io/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/io/loadersaver.py b/algotom/io/loadersaver.py
index 8531e37..72a4034 100644
--- a/algotom/io/loadersaver.py
+++ b/algotom/io/loadersaver.py
@@ -1027,7 +1027,7 @@ def get_tif_stack(file_base, idx=None, crop=(0, 0, 0, 0), flat_field=None,
     if idx is not None:
         if idx < 0:
             idx = num_file + idx
-        if idx > (num_file - 1):
+        if idx < 0 or idx > (num_file - 1):
             raise ValueError("Requested index: {0} is out of "
                              "the range: {1}".format(idx, num_file - 1))
     if num_use is None:
-- 
2.43.0


From c91abfe6d1fea1c4d90cf4f92fb6cef140e686e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 65/73] fix: release the ASTRA projector, and all objects when
 ASTRA refuses the algorithm

---
 algotom/rec/reconstruction.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/algotom/rec/reconstruction.py b/algotom/rec/reconstruction.py
index f9fd0df..e278aae 100644
--- a/algotom/rec/reconstruction.py
+++ b/algotom/rec/reconstruction.py
@@ -1038,15 +1038,21 @@ def __astra_recon_single(sinogram, center, angles, pad, method, filter_name,
         cfg['ProjectorId'] = proj_id
     if (method == "FBP_CUDA") or (method == "FBP"):
         cfg["FilterType"] = filter_name
+    alg_id = None
     try:
-        alg_id = astra.algorithm.create(cfg)
-    except Exception:
-        raise ValueError("Invalid selection of method!!!")
-    astra.algorithm.run(alg_id, num_iter)
-    recon = astra.data2d.get(rec_id)
-    astra.algorithm.delete(alg_id)
-    astra.data2d.delete(sino_id)
-    astra.data2d.delete(rec_id)
+        try:
+            alg_id = astra.algorithm.create(cfg)
+        except Exception:
+            raise ValueError("Invalid selection of method!!!")
+        astra.algorithm.run(alg_id, num_iter)
+        recon = astra.data2d.get(rec_id)
+    finally:
+        if alg_id is not None:
+            astra.algorithm.delete(alg_id)
+        astra.data2d.delete(sino_id)
+        astra.data2d.delete(rec_id)
+        if proj_id is not None:
+            astra.projector.delete(proj_id)
     return recon[pad:ncol - pad, pad:ncol - pad]
 
 
-- 
2.43.0


From d70ab046fa972ef42a8a2973c9f24a484b481d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 66/73] fix: a Butterworth window with a row band beyond the
 image filtered the wrong rows

---
 algotom/util/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 617813d..dd09e35 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -443,7 +443,7 @@ def make_2d_butterworth_window(width, height, u, v, n):
     ycenter = height // 2
     xlist = np.arange(width, dtype=np.float64) - xcenter
     window = 1.0 / (1.0 + np.power(xlist / u, 2 * n))
-    row1 = ycenter - int(v)
+    row1 = max(0, ycenter - int(v))
     row2 = ycenter + int(v) + 1
     window_2d = np.ones((height, width), dtype=np.float32)
     window_2d[row1:row2] = window
-- 
2.43.0


From 7cc4232d37197e6093f56c31dc077b834cd1d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 67/73] fix: filtering a wavelet component acted on the
 mirrored decomposition level

---
 algotom/util/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index dd09e35..27b5a79 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -605,11 +605,11 @@ def apply_filter_to_wavelet_component(data, level=None, order=1, method=None,
     funcs = [f_name for (f_name, item) in globals().items() if callable(item)]
     for i in level:
         if method in dir(ndi):
-            data[i][order] = getattr(ndi, method)(data[i][order], *para)
+            data[-i][order] = getattr(ndi, method)(data[-i][order], *para)
         else:
             if method in funcs:
                 obj = sys.modules[__name__]
-                data[i][order] = getattr(obj, method)(data[i][order], *para)
+                data[-i][order] = getattr(obj, method)(data[-i][order], *para)
             else:
                 raise ValueError("Can't find the method: '{}' in the"
                                  " namespace!".format(method))
-- 
2.43.0


From de037d1c70825206f5ea51c9dad0157c5f58c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:32 +0000
Subject: [PATCH 68/73] fix: dataset tools refused a TIFF folder whose name
 contains a dot

---
 algotom/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/post/postprocessing.py b/algotom/post/postprocessing.py
index 389a940..984510d 100644
--- a/algotom/post/postprocessing.py
+++ b/algotom/post/postprocessing.py
@@ -55,7 +55,7 @@ def __get_input_type(input_):
     else:
         if isinstance(input_, str):
             file_ext = os.path.splitext(input_)[-1]
-            if file_ext == "":
+            if file_ext == "" or os.path.isdir(input_):
                 list_file = losa.find_file(input_ + "/*.tif*")
                 if list_file:
                     in_type = "tif"
-- 
2.43.0


From faf35651ffb48c1e4ac98e32770cc3df2da5e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:43 +0000
Subject: [PATCH 69/73] fix: a keyboard interrupt during the overlap search was
 swallowed and gave a wrong result

---
 algotom/prep/calculation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algotom/prep/calculation.py b/algotom/prep/calculation.py
index 1c8c8f5..6d8085f 100644
--- a/algotom/prep/calculation.py
+++ b/algotom/prep/calculation.py
@@ -392,13 +392,13 @@ def calculate_curvature(list_metric):
     list1 = list_metric[min_pos - radi:min_pos + radi + 1]
     try:
         afact1 = np.polyfit(np.arange(0, 2 * radi + 1), list1, 2)[0]
-    except:
+    except Exception:
         afact1 = 0
     list2 = list_metric[min_pos - 1:min_pos + 2]
     try:
         afact2, bfact2 = np.polyfit(
             np.arange(min_pos - 1, min_pos + 2), list2, 2)[:2]
-    except:
+    except Exception:
         afact2, bfact2 = 0.0, 0.0
     curvature = np.abs(afact1)
     if afact2 != 0.0:
-- 
2.43.0


From bffeecd94e3b391ee7406811608ba040108085c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:11 +0000
Subject: [PATCH 70/73] fix: rows beyond 32767 in distortion and tilt
 correction

The first and last row needed were stored as 16-bit integers: for images of
more than 32767 rows (stitched scans) the wrong rows were taken.
---
 algotom/prep/correction.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/algotom/prep/correction.py b/algotom/prep/correction.py
index b70b81f..9cfd44a 100644
--- a/algotom/prep/correction.py
+++ b/algotom/prep/correction.py
@@ -214,8 +214,8 @@ def unwarp_sinogram(data, index, xcenter, ycenter, list_fact, **option):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     indices = yd_list, xd_list
     sinogram = np.zeros((depth, width), dtype=np.float32)
@@ -273,8 +273,8 @@ def unwarp_sinogram_chunk(data, start_index, stop_index, xcenter, ycenter,
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
     yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    yd_min = np.int16(np.floor(np.amin(yd_mat)))
-    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_min = int(np.floor(np.amin(yd_mat)))
+    yd_max = int(np.ceil(np.amax(yd_mat))) + 1
     yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, yd_min:yd_max, :], xd_mat, yd_mat) for i in
@@ -361,8 +361,8 @@ def generate_tilted_sinogram(data, index, angle, **option):
     yt_list = xlist * np.sin(angle) + y * np.cos(angle)
     xt_list = np.clip(x_cen + xt_list, 0, width - 1)
     yt_list = np.clip(y_cen + yt_list, 0, height - 1)
-    yt_min = np.int16(np.floor(np.amin(yt_list)))
-    yt_max = np.int16(np.ceil(np.amax(yt_list))) + 1
+    yt_min = int(np.floor(np.amin(yt_list)))
+    yt_max = int(np.ceil(np.amax(yt_list))) + 1
     yt_list = yt_list - yt_min
     indices = yt_list, xt_list
     sinogram = np.zeros((depth, width), dtype=np.float32)
@@ -416,8 +416,8 @@ def generate_tilted_sinogram_chunk(data, start_index, stop_index, angle,
     y_mat1 = x_mat * np.sin(angle) + y_mat * np.cos(angle)
     x_mat1 = np.clip(x_cen + x_mat1, 0, width - 1)
     y_mat1 = np.clip(y_cen + y_mat1, 0, height - 1)
-    y_min = np.int16(np.floor(np.amin(y_mat1)))
-    y_max = np.int16(np.ceil(np.amax(y_mat1))) + 1
+    y_min = int(np.floor(np.amin(y_mat1)))
+    y_max = int(np.ceil(np.amax(y_mat1))) + 1
     y_mat1 = y_mat1 - y_min
     sino_chunk = np.asarray(
         [util.mapping(data[i, y_min:y_max, :], x_mat1, y_mat1) for i in
@@ -455,8 +455,8 @@ def generate_tilted_profile_line(mat, index, angle):
     yt_list = xlist * np.sin(angle) + y * np.cos(angle)
     xt_list = np.clip(x_cen + xt_list, 0, width - 1)
     yt_list = np.clip(y_cen + yt_list, 0, height - 1)
-    yt_min = np.int16(np.floor(np.amin(yt_list)))
-    yt_max = np.int16(np.ceil(np.amax(yt_list))) + 1
+    yt_min = int(np.floor(np.amin(yt_list)))
+    yt_max = int(np.ceil(np.amax(yt_list))) + 1
     yt_list = yt_list - yt_min
     indices = yt_list, xt_list
     profile_line = map_coordinates(mat[yt_min:yt_max, :], indices, order=1,
@@ -497,8 +497,8 @@ def generate_tilted_profile_chunk(mat, start_index, stop_index, angle):
     y_mat1 = x_mat * np.sin(angle) + y_mat * np.cos(angle)
     x_mat1 = np.clip(x_cen + x_mat1, 0, width - 1)
     y_mat1 = np.clip(y_cen + y_mat1, 0, height - 1)
-    y_min = np.int16(np.floor(np.amin(y_mat1)))
-    y_max = np.int16(np.ceil(np.amax(y_mat1))) + 1
+    y_min = int(np.floor(np.amin(y_mat1)))
+    y_max = int(np.ceil(np.amax(y_mat1))) + 1
     y_mat1 = y_mat1 - y_min
     profile_chunk = util.mapping(mat[y_min:y_max, :], x_mat1, y_mat1)
     return profile_chunk
-- 
2.43.0


From bed0ecc3507609c47d8dcd1343c3e74249900cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:11 +0000
Subject: [PATCH 71/73] fix: stripe detection for more than 131071 columns

The number of points left out of the fit was stored as a 16-bit integer.
---
 algotom/util/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algotom/util/utility.py b/algotom/util/utility.py
index 27b5a79..5fa3a9f 100644
--- a/algotom/util/utility.py
+++ b/algotom/util/utility.py
@@ -358,7 +358,7 @@ def detect_stripe(list_data, snr):
     npoint = len(list_data)
     list_sort = np.sort(list_data)
     xlist = np.arange(0, npoint, 1.0)
-    ndrop = np.int16(0.25 * npoint)
+    ndrop = int(0.25 * npoint)
     (slope, intercept) = np.polyfit(xlist[ndrop:-ndrop - 1],
                                     list_sort[ndrop:-ndrop - 1], 1)[:2]
     y_end = intercept + slope * xlist[-1]
-- 
2.43.0


From 94c3975014c5df0ede66e6146971257f9aeeae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:22 +0000
Subject: [PATCH 72/73] fix: double-wedge mask of large images and small radius

The half width of the wedge was stored as a 16-bit integer and overflowed
(e.g. 3602x2560, radius 20), which left most of the wedge uncovered.
---
 algotom/prep/filtering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/algotom/prep/filtering.py b/algotom/prep/filtering.py
index a7d088f..83eafd3 100644
--- a/algotom/prep/filtering.py
+++ b/algotom/prep/filtering.py
@@ -152,13 +152,13 @@ def make_double_wedge_mask(height, width, radius):
     du = 1.0 / width
     dv = (height - 1.0) / (height * 2.0 * np.pi)
     ndrop = 1
-    ycenter = np.int16(np.ceil((height - 1) / 2.0))
-    xcenter = np.int16(np.ceil((width - 1) / 2.0))
+    ycenter = int(np.ceil((height - 1) / 2.0))
+    xcenter = int(np.ceil((width - 1) / 2.0))
     mask = np.ones((height, width), dtype=np.float32)
     for i in range(height):
-        num = np.int16(np.ceil(((i - ycenter) * dv / radius) / du))
-        (p1, p2) = np.int16(np.clip(
-            np.sort((-num + xcenter, num + xcenter)), 0, width - 1))
+        num = int(np.ceil(((i - ycenter) * dv / radius) / du))
+        (p1, p2) = np.clip(
+            np.sort((-num + xcenter, num + xcenter)), 0, width - 1)
         mask[i, p1:p2 + 1] = 0.0
     mask[ycenter - ndrop:ycenter + ndrop + 1, :] = 1.0
     return mask
-- 
2.43.0


From 34500badb21bd45c639972b09120c84b4c2e22e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:46 +0000
Subject: [PATCH 73/73] fix: stitch_image_multiple ignored norm=False (passed
 as a weight matrix)

---
 algotom/prep/conversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algotom/prep/conversion.py b/algotom/prep/conversion.py
index 1f3cc1c..f47b123 100644
--- a/algotom/prep/conversion.py
+++ b/algotom/prep/conversion.py
@@ -268,7 +268,8 @@ def stitch_image_multiple(list_mat, list_overlap, norm=True, total_width=None):
     if num_mat > 1:
         for i in range(1, num_mat):
             (overlap, side) = list_overlap[i - 1][0:2]
-            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side, norm)
+            mat_comb = stitch_image(mat_comb, list_mat[i], overlap, side,
+                                    norm=norm)
         width = mat_comb.shape[1]
         if total_width is None:
             total_width = width
-- 
2.43.0

