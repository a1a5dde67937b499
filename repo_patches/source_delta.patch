From e63f787e3b0665346b5d691f5e4ec092f5118500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 01/62] fix: keep block statistics inside non-square images

The row index ran up to the number of columns and vice versa, so every
non-square image was read and written out of bounds.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..6401c5d 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -77,8 +77,8 @@ static PyObject
     cout=pymatrix_to_Carrayptrs(matout);
 
     // For each area of size istride x istride, calculate the standard deviation
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u = i; u < i+iblocksize; u++) {
@@ -108,8 +108,8 @@ static PyObject
     }
 
     // Calculate minimum standard deviation for each area
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
             for (u = i; u < (iblocksize/2); u += (istride+1)) {
@@ -170,8 +170,8 @@ static PyObject
     krt_data=pymatrix_to_Carrayptrs(krtout);
 
     // For each area of size istride x istride, calculate the standard deviation, skewness and kurtosis
-    for (i = 0; i < m-(iblocksize-1); i += istride) {
-        for (j = 0; j < n-(iblocksize-1); j += istride) {
+    for (i = 0; i < n-(iblocksize-1); i += istride) {
+        for (j = 0; j < m-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
             for (u=i; u<i+iblocksize; u++) {
-- 
2.43.0


From 502bc8bbccb0cfd31d9582337fa272990fa0da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 02/62] fix: convert and check the arguments of the block
 statistics

Any array was read as if it were a contiguous 2D array of doubles, so
strided or non-double images gave wrong values and reads out of bounds,
and a stride of zero never returned.
---
 .../fr_metrics/stat_utils/statisticsmodule.c  | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6401c5d..6aab448 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -49,19 +49,36 @@ PyMODINIT_FUNC PyInit_statisticscalc(void) {
     return PyModule_Create(&statisticsModule);
 }
 
+// Check the block parameters and get the image as C-contiguous 2D array of doubles
+static PyArrayObject
+*prepare_image(PyObject *image, int iblocksize, int istride)
+{
+    if (iblocksize <= 0) {
+        PyErr_SetString(PyExc_ValueError, "blocksize must be positive.");
+        return NULL;
+    }
+    if (istride <= 0 || istride > iblocksize) {
+        PyErr_SetString(PyExc_ValueError, "stride must be positive and not larger than blocksize.");
+        return NULL;
+    }
+    return (PyArrayObject *) PyArray_FROMANY(image, NPY_DOUBLE, 2, 2, NPY_ARRAY_CARRAY_RO);
+}
+
 static PyObject
 *minstd(PyObject *self, PyObject *args)
 {
     // Declare variables
+    PyObject *image;
     PyArrayObject *matin, *matout, *tmp;
     double **cin, **cout, **tmp_data, mean, stdev, val;
     int iblocksize, istride, i, j, u, v, n, m;
     npy_intp dims[2];
 
     // Parse input arguments
-    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
+    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &image, &iblocksize, &istride)) {
         return NULL;
     }
+    matin = prepare_image(image, iblocksize, istride);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     n = dims[0] = matin->dimensions[0];
@@ -134,6 +151,7 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(matin);
 
     // Return output array
     return PyArray_Return(matout);
@@ -143,15 +161,17 @@ static PyObject
 *getstatistics(PyObject *self, PyObject *args)
 {
     // Declare variables
+    PyObject *image;
     PyArrayObject *matin, *stdevout, *skwout, *krtout;
     double **cin, **stdev_data, **skw_data, **krt_data, tmp, stmp, mean, stdev, krt, skw;
     int iblocksize, istride, i, j, u, v, n, m;
     npy_intp dims[2];
 
     // Parse input arguments
-    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
+    if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &image, &iblocksize, &istride)) {
         return NULL;
     }
+    matin = prepare_image(image, iblocksize, istride);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -224,6 +244,7 @@ static PyObject
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
+    Py_DECREF(matin);
 
     // Return output arrays as Python tuple
     return PyTuple_Pack(3, stdevout, skwout, krtout);
-- 
2.43.0


From b78ba8a08e2825bdf198409f070e9fb6728993a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 03/62] fix: release the arrays allocated by the block
 statistics

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 6aab448..2e7f9e2 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -152,6 +152,7 @@ static PyObject
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
     Py_DECREF(matin);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -247,7 +248,7 @@ static PyObject
     Py_DECREF(matin);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    return Py_BuildValue("NNN", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From 60a881ad7c878c5070b19761b336ab63cabd112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:45 +0000
Subject: [PATCH 04/62] fix: do not return uninitialized memory from the block
 statistics

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 2e7f9e2..5df933b 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -85,8 +85,8 @@ static PyObject
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    tmp=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    matout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    tmp=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     tmp_data=pymatrix_to_Carrayptrs(tmp);
@@ -180,9 +180,9 @@ static PyObject
     m = dims[1] = matin->dimensions[1];
 
     // Create output arrays
-    stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    skwout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-    krtout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
+    stdevout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    skwout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
+    krtout=(PyArrayObject *) PyArray_ZEROS(2, dims, NPY_DOUBLE, 0);
 
     // Convert input and output arrays to C pointers
     cin=pymatrix_to_Carrayptrs(matin);
-- 
2.43.0


From 3ac7ca064cd54e7805d995b377dcd4f8b0cbab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:14 +0000
Subject: [PATCH 05/62] fix: assign MAD block statistics to their own blocks
 for every size

The loop assumed an overlap of 0.75 and sizes that fit the stride. Other
sizes raised an IndexError or used the statistics of other blocks.
---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..ce233d5 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -646,8 +646,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
+    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
+        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
             mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
             std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From 4b906bc9310497e37716455f4b55a4376fa0c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:14 +0000
Subject: [PATCH 06/62] fix: do not change the weights passed to MAD

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index ce233d5..a36f490 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -740,7 +740,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = weights / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From ad2d3dbaa9f242685fdd8471f6914ad830da2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:37 +0000
Subject: [PATCH 07/62] fix: make MAD independent of concurrent and earlier
 calls

---
 src/viqa/fr_metrics/mad.py | 84 +++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index a36f490..b1a35f0 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,17 +487,13 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
-    M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
-    if block_size > M or block_size > N:
+    # Check block parameters
+    if block_size > img_r.shape[0] or block_size > img_r.shape[1]:
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
-        BLOCK_SIZE = block_size
         if block_overlap >= 1 or block_overlap < 0:
             raise ValueError("block_overlap must be between 0 and smaller than 1.")
-        STRIDE = BLOCK_SIZE - int(block_overlap * BLOCK_SIZE)
+        stride = block_size - int(block_overlap * block_size)
     else:
         raise ValueError("block_size must be positive.")
 
@@ -524,9 +514,18 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r,
+        img_m,
+        data_range=data_range,
+        block_size=block_size,
+        stride=stride,
+        **kwargs,
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(
+        img_r, img_m, block_size=block_size, stride=stride, **kwargs
+    )
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -569,6 +568,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    block_size = kwargs.pop("block_size", 16)
+    stride = kwargs.pop("stride", 4)
     account_monitor = kwargs.pop("account_monitor", False)
     # Account for display function of monitor
     if account_monitor:
@@ -588,8 +589,7 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     csf_function = kwargs.pop("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909})
     # Calculate contrast sensitivity function
     csf = _contrast_sensitivity_function(
-        M,
-        N,
+        *img_r.shape,
         cycles_per_degree,
         lambda_csf=csf_function["lambda_csf"],
         f_peak=csf_function["f_peak"],
@@ -616,8 +616,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # i_org_blocks = np.fromiter(
     #     _extract_blocks(
     #         i_org,
-    #         block_size=BLOCK_SIZE,
-    #         stride=STRIDE
+    #         block_size=block_size,
+    #         stride=stride
     #     ),
     #     dtype=np.float32,
     #     count=-1
@@ -625,31 +625,31 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # i_err_blocks = np.fromiter(
     #     _extract_blocks(
     #         i_err,
-    #         block_size=BLOCK_SIZE,
-    #         stride=STRIDE
+    #         block_size=block_size,
+    #         stride=stride
     #     ),
     #     dtype=np.float32,
     #     count=-1
     # )
-    i_org_blocks = _extract_blocks(i_org, block_size=BLOCK_SIZE, stride=STRIDE)
-    i_err_blocks = _extract_blocks(i_err, block_size=BLOCK_SIZE, stride=STRIDE)
+    i_org_blocks = _extract_blocks(i_org, block_size=block_size, stride=stride)
+    i_err_blocks = _extract_blocks(i_err, block_size=block_size, stride=stride)
 
     # Calculate local statistics
     mu_org_p = np.mean(i_org_blocks, axis=(1, 2))
     std_err_p = np.std(i_err_blocks, axis=(1, 2), ddof=1)
 
-    # std_org = _min_std(i_org, block_size=BLOCK_SIZE, stride=STRIDE)  # Legacy function
-    std_org = statisticscalc.minstd(i_org, BLOCK_SIZE, STRIDE)
+    # std_org = _min_std(i_org, block_size=block_size, stride=stride)  # Legacy function
+    std_org = statisticscalc.minstd(i_org, block_size, stride)
 
     mu_org = np.zeros(i_org.shape)
     std_err = np.zeros(i_err.shape)
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - (BLOCK_SIZE - 1), STRIDE):
-        for y in range(0, i_org.shape[1] - (BLOCK_SIZE - 1), STRIDE):
-            mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
-            std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
+    for x in range(0, i_org.shape[0] - (block_size - 1), stride):
+        for y in range(0, i_org.shape[1] - (block_size - 1), stride):
+            mu_org[x : x + stride, y : y + stride] = mu_org_p[block_n]
+            std_err[x : x + stride, y : y + stride] = std_err_p[block_n]
             block_n += 1
     del mu_org_p, std_err_p  # free memory
 
@@ -688,12 +688,12 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     msk /= ms_scale
 
     # Use lum_mse and weight by distortion mask
-    win = np.ones((BLOCK_SIZE, BLOCK_SIZE)) / BLOCK_SIZE**2
+    win = np.ones((block_size, block_size)) / block_size**2
     lum_mse = convolve((_to_float(img_r) - _to_float(img_m)) ** 2, win, mode="reflect")
 
     # Kill the edges
     mp = msk * lum_mse
-    mp2 = mp[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = mp[block_size:-block_size, block_size:-block_size]
 
     # Calculate high quality index by using the 2-norm
     d_detect = (
@@ -737,6 +737,8 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    block_size = kwargs.pop("block_size", 16)
+    stride = kwargs.pop("stride", 4)
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
@@ -765,30 +767,30 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     )
 
     # Calculate statistics for each filterband
-    stats = np.zeros((M, N))
+    stats = np.zeros(img_r.shape)
     for scale_n in range(scales_num):
         for orientation_n in range(orientations_num):
             # Legacy function
             # std_ref, skw_ref, krt_ref = _get_statistics(
             #     np.abs(gabor_org[scale_n, orientation_n]),
-            #     block_size=BLOCK_SIZE,
-            #     stride=STRIDE,
+            #     block_size=block_size,
+            #     stride=stride,
             # )
             # std_dst, skw_dst, krt_dst = _get_statistics(
             #     np.abs(gabor_dst[scale_n, orientation_n]),
-            #     block_size=BLOCK_SIZE,
-            #     stride=STRIDE,
+            #     block_size=block_size,
+            #     stride=stride,
             # )
 
             std_ref, skw_ref, krt_ref = statisticscalc.getstatistics(
                 np.abs(gabor_org[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             std_dst, skw_dst, krt_dst = statisticscalc.getstatistics(
                 np.abs(gabor_dst[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             # Combine statistics
             stats += weights[scale_n] * (
@@ -798,7 +800,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
             )
 
     # Kill the edges
-    mp2 = stats[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = stats[block_size:-block_size, block_size:-block_size]
 
     # Calculate low quality index by using the 2-norm
     d_appear = np.linalg.norm(mp2) / np.sqrt(np.prod(mp2.shape))
-- 
2.43.0


From f4e6122281d3848cf0927a67d5fc83dd84c4ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 08/62] fix: normalize integer images without wrapping around

---
 src/viqa/utils/loading.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..842097b 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -850,7 +850,7 @@ def normalize_data(
         raise ValueError("Data type not supported")
 
     # Check if data is already normalized
-    if info.max is not data_range_output[1] or info.min is not data_range_output[0]:
+    if info.max != data_range_output[1] or info.min != data_range_output[0]:
         # Normalize data
         if automatic_data_range:
             img_min = np.min(img)  # Get minimum value of numpy array
@@ -863,11 +863,12 @@ def normalize_data(
             else:
                 img_min = data_range_input[0]
                 img_max = data_range_input[1]
-        # Normalize numpy array
+        # Normalize numpy array in double precision to avoid overflows
+        img_min, img_max = np.float64(img_min), np.float64(img_max)
         img = (
-            (img - img_min)
-            * (data_range_output[1] - data_range_output[0])
+            (img.astype(np.float64) - img_min)
             / (img_max - img_min)
+            * (data_range_output[1] - data_range_output[0])
         ) + data_range_output[0]
 
         # Change data type
-- 
2.43.0


From 96c731e03c770a493279fe6b4b12dcef5408f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 09/62] fix: keep the histogram of integer images

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 842097b..022d86a 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -218,7 +218,7 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From c956274310ea437d1328047a044ab9b6c2bb2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 10/62] fix: crop RGB images and ranges that span a whole axis

---
 src/viqa/utils/loading.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 022d86a..ad19799 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -933,22 +933,24 @@ def crop_image(
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        if (crop_shape == img_shape[:2]).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        # If cropping is not larger than original image
+        elif (crop_shape <= img_shape[:2]).all():
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        # If cropping is not larger than original image
+        elif (crop_shape <= img_shape).all():
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From 96fe06834b6d60c1f988cf4cf516e66f3b728cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 11/62] fix: read every line of an MHD header

---
 src/viqa/utils/loading.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ad19799..0eab66b 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -429,14 +429,14 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     """
     file_path = os.path.join(file_dir, file_name)  # Complete file path
 
-    f = open(file=file_path)  # Open header file
-
-    file_header_txt = f.read().split("\n")  # Extract header lines
+    with open(file=file_path) as f:  # Open header file
+        file_header_txt = f.read().split("\n")  # Extract header lines
     # Create dictionary from lines
     file_header = {
-        key: value
-        for line in file_header_txt[0:-1]
-        for key, value in [line.split(" = ")]
+        key.strip(): value.strip()
+        for line in file_header_txt
+        if line.strip()
+        for key, _, value in [line.partition("=")]
     }
 
     data_file_path = os.path.join(
-- 
2.43.0


From 6a1f015871fbfe63e9e70af9098e73fc3c51269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 12/62] fix: refuse MHD headers without size or type with a
 ValueError

---
 src/viqa/utils/loading.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 0eab66b..4ede12d 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -439,6 +439,11 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
         for key, _, value in [line.partition("=")]
     }
 
+    # Check if all needed entries are given
+    for key in ("ElementDataFile", "DimSize", "ElementType"):
+        if key not in file_header:
+            raise ValueError(f"No {key} found in header")
+
     data_file_path = os.path.join(
         file_dir, file_header["ElementDataFile"]
     )  # Get data file path from header
-- 
2.43.0


From 122b440d88a37b28a4e3bde987c74d679b904c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 13/62] fix: refuse data files with a few bytes too many

---
 src/viqa/utils/loading.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 4ede12d..b02bff7 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -601,7 +601,8 @@ def _load_binary(data_file_path, data_type, dim_size):
             file=f, dtype=data_type
         )  # Read data file into numpy array according to data type
 
-    if img_arr_orig.size != np.prod(np.array(dim_size).astype(np.int64)):
+    num_bytes = np.prod(np.array(dim_size).astype(np.int64)) * img_arr_orig.itemsize
+    if os.path.getsize(data_file_path) != num_bytes:
         raise ValueError(
             "Size of data file ("
             + data_file_path
-- 
2.43.0


From 441af1dad37c9e99dc09c68073fa8b34706032c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 14/62] fix: do not clip the luminance of images with more than
 8 bit

---
 src/viqa/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..3fa6301 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -33,7 +33,8 @@ def _to_grayscale(img):
     """Convert an image to grayscale."""
     img = _to_float(img)
     img_gray = ski.color.rgb2gray(img)
-    img_gray[img_gray > 255] = 255
+    img_max = np.max(img)
+    img_gray[img_gray > img_max] = img_max
     return img_gray
 
 
-- 
2.43.0


From bd573b39961b2d17bb4ad078e6d672677078815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 15/62] fix: convert RGB to YUV with the documented matrix

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 3fa6301..7f09ee0 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -47,7 +47,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From efcb5f5fe04f03c387d2e20357e0898a84f327f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:04 +0000
Subject: [PATCH 16/62] fix: center the absolute correlation on each pixel

---
 src/viqa/utils/misc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 7f09ee0..ffcf586 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -123,20 +123,21 @@ def correlate_convolve_abs(
         kernel = np.flip(kernel)  # Flip kernel
 
     kernel_size = kernel.shape[0]  # Get kernel size
+    pad_size = kernel_size // 2  # Center kernel on each pixel
     ndim = len(img.shape)  # Get number of dimensions
 
     # Pad image
     match border_mode:
         case "constant":
-            origin = np.pad(img, kernel_size, mode="constant", constant_values=value)
+            origin = np.pad(img, pad_size, mode="constant", constant_values=value)
         case "reflect":
-            origin = np.pad(img, kernel_size, mode="reflect")
+            origin = np.pad(img, pad_size, mode="reflect")
         case "nearest":
-            origin = np.pad(img, kernel_size, mode="edge")
+            origin = np.pad(img, pad_size, mode="edge")
         case "mirror":
-            origin = np.pad(img, kernel_size, mode="symmetric")
+            origin = np.pad(img, pad_size, mode="symmetric")
         case "wrap":
-            origin = np.pad(img, kernel_size, mode="wrap")
+            origin = np.pad(img, pad_size, mode="wrap")
         case _:
             raise ValueError("Border mode not supported")
 
-- 
2.43.0


From 32e5a14dc3b8a93d9a920528c70fcc122824015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:04 +0000
Subject: [PATCH 17/62] fix: calculate GSM of integer images without overflow

---
 src/viqa/fr_metrics/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..933899d 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -405,6 +405,10 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
         gradient similarity. IEEE Transactions on Image Processing, 21(4), 1500–1512.
         https://doi.org/10.1109/TIP.2011.2175935
     """
+    # Prevent integer overflows
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
+
     gradients_r = []
     gradients_m = []
 
-- 
2.43.0


From 687dd9a0b9d052fb259f440e5631015f2eca2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:52 +0000
Subject: [PATCH 18/62] fix: calculate volume scores along the given dimension

---
 src/viqa/fr_metrics/fsim.py   | 6 ++++--
 src/viqa/fr_metrics/msssim.py | 6 ++++--
 src/viqa/fr_metrics/vif.py    | 6 ++++--
 src/viqa/fr_metrics/vsi.py    | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..9d56514 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -242,9 +242,11 @@ class FSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..20f89e3 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -245,9 +245,11 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..022a015 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -218,9 +218,11 @@ class VIFp(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..20a851e 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -239,9 +239,11 @@ class VSI(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError("Invalid dim value. Must be integer of 0, 1 or 2.")
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From 03efc45dc598ae42f66a985c556eead7e5de3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 19/62] fix: score RGB images with VSI

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 20a851e..31a1b6f 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -258,7 +258,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim or im_slice:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From 0b12d3a08aa9012a44d2b3c87408be7a130c32e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 20/62] fix: warn when printing a missing VSI, VIFp or MS-SSIM
 score

---
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 20f89e3..8c4079b 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -301,4 +301,4 @@ class MSSSIM(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("MS-SSIM: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for MS-SSIM. Run score() first.")
+            warn("No score value for MS-SSIM. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index 022a015..466252d 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -274,4 +274,4 @@ class VIFp(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VIFp: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VIFp. Run score() first.")
+            warn("No score value for VIFp. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 31a1b6f..4ae5c6d 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -295,4 +295,4 @@ class VSI(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VSI: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VSI. Run score() first.")
+            warn("No score value for VSI. Run score() first.", RuntimeWarning)
-- 
2.43.0


From 35765bc365c40252066643cf7a7a54457c4cccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 21/62] fix: give SNR a name for reports and exports

---
 src/viqa/nr_metrics/snr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..b2d73f9 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
-- 
2.43.0


From ad24bc88fe461a67bd10f28e2fca8dc98c2b29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 22/62] fix: return the SNR value instead of a tuple

---
 src/viqa/nr_metrics/snr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index b2d73f9..e855a93 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -145,6 +145,8 @@ class SNR(NoReferenceMetricsInterface):
         self.parameters.update(kwargs)
 
         score_val = signal_to_noise_ratio(img, **kwargs)
+        if isinstance(score_val[-1], dict):  # grayscale images
+            score_val = score_val[0]
         self.score_val = score_val
         return score_val
 
@@ -1072,7 +1074,7 @@ def signal_to_noise_ratio(
                     region_type,
                     auto_center=False,
                     yuv=False,
-                )
+                )[0]
             )
             snr_val = [
                 np.float64(np.mean(signal[..., i]) / sdev[i]) if sdev[i] != 0 else 0
-- 
2.43.0


From 484a7f7c0197170f0ff29b2ee676cdc60cb74a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 23/62] fix: select cubic regions of color images

---
 src/viqa/utils/misc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index ffcf586..6aaf1e3 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -624,9 +624,6 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From ed0e44fbf75e1afb21361f990edfd17a00e79089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 24/62] fix: refuse regions that reach over the far border

---
 src/viqa/nr_metrics/cnr.py | 9 +++++----
 src/viqa/nr_metrics/snr.py | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..cb23f3e 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -795,18 +795,19 @@ def contrast_to_noise_ratio(
 
     # check if signal_center and background_center are tuples of integers and radius is
     # an integer
-    for center in signal_center:
+    for center, size in zip(signal_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Signal center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        # check if center is too close to the border
+        if abs(center) - radius < 0 or center + radius > size:
             raise ValueError(
                 "Signal center has to be at least the radius away from the border."
             )
 
-    for center in background_center:
+    for center, size in zip(background_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Background center has to be a tuple of integers.")
-        if abs(center) - radius < 0:
+        if abs(center) - radius < 0 or center + radius > size:
             raise ValueError(
                 "Background center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index e855a93..495b394 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1021,10 +1021,11 @@ def signal_to_noise_ratio(
             signal = img
 
     # Check if signal_center is a tuple of integers and radius is an integer
-    for center in signal_center:
+    for center, size in zip(signal_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if abs(center) - radius < 0:  # check if center is too close to the border
+        # check if center is too close to the border
+        if abs(center) - radius < 0 or center + radius > size:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
-- 
2.43.0


From 3fb8cf9df6f3844748523e57d74b0a516160bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:23 +0000
Subject: [PATCH 25/62] fix: use only the eroded object as automatic full
 region

---
 src/viqa/nr_metrics/cnr.py | 8 ++++++--
 src/viqa/nr_metrics/snr.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index cb23f3e..9363509 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -787,8 +787,12 @@ def contrast_to_noise_ratio(
             "sphere",
             "circle",
         }:
-            signal = np.ma.array(img, mask=~signal_region, copy=True)
-            background = np.ma.array(img, mask=~background_region, copy=True)
+            signal = np.ma.array(
+                img, mask=~np.ma.filled(signal_region, False), copy=True
+            )
+            background = np.ma.array(
+                img, mask=~np.ma.filled(background_region, False), copy=True
+            )
         elif region_type == "original":
             signal = img
             background = img
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 495b394..4d6b64a 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -477,7 +477,9 @@ class SNR(NoReferenceMetricsInterface):
                 iterations=iterations_slider.value,
             )
 
-            glob_signal = np.ma.array(img, mask=~signal_region, copy=True)
+            glob_signal = np.ma.array(
+                img, mask=~np.ma.filled(signal_region, False), copy=True
+            )
             glob_iterations = iterations_slider.value
             glob_lower_threshold = lower_threshold_slider.value
             glob_upper_threshold = upper_threshold_slider.value
@@ -1016,7 +1018,9 @@ def signal_to_noise_ratio(
             "sphere",
             "circle",
         }:
-            signal = np.ma.array(img, mask=~signal_region, copy=True)
+            signal = np.ma.array(
+                img, mask=~np.ma.filled(signal_region, False), copy=True
+            )
         elif region_type == "original":
             signal = img
 
-- 
2.43.0


From 769ee451253826ebb4d5e44cf2b75fb01e49fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:48 +0000
Subject: [PATCH 26/62] fix: visualize CNR regions without an explicit region
 type

---
 src/viqa/nr_metrics/cnr.py      | 3 +++
 src/viqa/utils/visualization.py | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 9363509..79024e7 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -239,6 +239,9 @@ class CNR(NoReferenceMetricsInterface):
         _check_border_too_close(signal_center, radius)
         _check_border_too_close(background_center, radius)
 
+        # Use the region type of the calculation if not given
+        kwargs.setdefault("region_type", self.parameters.get("region_type", "cubic"))
+
         # Visualize centers
         if img.ndim == 3 and img.shape[-1] != 3:  # 3D image
             _visualize_cnr_3d(
diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..5907212 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -46,11 +46,12 @@ def _visualize_cnr_2d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
 ):
+    patch_1 = patch_2 = None
     figsize = kwargs.pop("figsize", FIGSIZE_CNR_2D)
     dpi = kwargs.pop("dpi", 300)
 
@@ -127,11 +128,12 @@ def _visualize_cnr_3d(
     signal_center,
     background_center,
     radius,
-    region_type,
+    region_type="cubic",
     export_path=None,
     show=True,
     **kwargs,
 ):
+    patch_1 = patch_2 = patch_3 = patch_4 = patch_5 = patch_6 = None
     figsize = kwargs.pop("figsize", FIGSIZE_CNR_3D)
     dpi = kwargs.pop("dpi", 300)
 
-- 
2.43.0


From 11f25c66dac9be343af495e8cef774c9aacb6179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 27/62] fix: save figures before they are shown and closed

---
 src/viqa/utils/visualization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 5907212..6ee4456 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -117,10 +117,10 @@ def _visualize_cnr_2d(
     if patch_2:
         axs[1].add_patch(patch_2)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_cnr_3d(
@@ -335,10 +335,10 @@ def _visualize_cnr_3d(
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_2d(
@@ -409,10 +409,10 @@ def _visualize_snr_2d(
     if patch:
         ax.add_patch(patch)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_3d(
@@ -568,10 +568,10 @@ def _visualize_snr_3d(
     if patch_3:
         axs[2].add_patch(patch_3)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _create_slider_widget(**kwargs):
@@ -633,9 +633,9 @@ def visualize_2d(img, export_path=None, **kwargs):
     plt.xlabel("x")
     plt.ylabel("y")
     plt.gca().invert_yaxis()
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
 
 
 def visualize_3d(img, slices, export_path=None, **kwargs):
@@ -713,6 +713,6 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     axs[2].axvline(x=x, color="#1b9e77", linestyle="--")
     axs[2].set_title(f"z-axis, slice: {z}", c="#7570b3")
 
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
-- 
2.43.0


From d8a36b8cc0a0afce6e345db4c0d57641e3cbd5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 28/62] fix: refuse slice indices one past the end

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6ee4456..d3f4710 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -676,7 +676,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     if img.ndim != 3:
         raise ValueError("The image must be 3D.")
     if not all(
-        -img.shape[i] <= slice_ <= img.shape[i] for i, slice_ in enumerate(slices)
+        -img.shape[i] <= slice_ < img.shape[i] for i, slice_ in enumerate(slices)
     ):
         raise ValueError("The slices are out of bounds.")
 
-- 
2.43.0


From eb4c436d65d65a24a7e638de96cb200146864237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 29/62] fix: visualize RGB images

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index d3f4710..da9fef7 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -619,7 +619,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     -------
     None
     """
-    if img.ndim != 2:
+    if img.ndim != 2 and not (img.ndim == 3 and img.shape[-1] == 3):
         raise ValueError("The image must be 2D.")
 
     figsize = kwargs.pop("figsize", (6, 6))
-- 
2.43.0


From e70094e55fc4d4462edfbd5b46a097c8980c55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 30/62] fix: reuse batch results only for the same region and
 size

---
 src/viqa/multiple.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..939585a 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -254,31 +254,45 @@ class BatchMetrics(_MultipleInterface):
         prev_ref_path = None
         modified_img = None
         prev_mod_path = None
+        prev_roi = None
         metric_results = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Results can only be reused if they were calculated for the same region
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+                and same_roi
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
             # Load the images only once if it is the same for multiple pairs
+            prev_reference_img = reference_img
             if reference_path != prev_ref_path:
                 reference_img = load_data(reference_path, **kwargs)
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
-            else:
+            elif (
+                same_roi
+                and reference_img.shape == prev_reference_img.shape
+                and reference_img.dtype == prev_reference_img.dtype
+            ):
                 prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+            else:  # Modified image is resized differently or another region is used
+                prev_result_modified = None
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From 9072c10462a5d44a916d375c62d9c96907b8a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 31/62] fix: do not change metrics when exporting them

---
 src/viqa/utils/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..7ed0f1d 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -95,10 +95,10 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
             if metric.score_val is None:
-                metric.score_val = "n/a"
+                results_dict[metric._name] = "n/a"
             else:
                 writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                results_dict[metric._name] = metric.score_val
     if return_dict:
         return results_dict
 
-- 
2.43.0


From 9223f235f92e6d8e8f14bf879fe7a91891fb573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:14 +0000
Subject: [PATCH 32/62] fix: crop non-square volumes without mixing rows

---
 src/scripts/crop_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 967a369..24518cc 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -46,7 +46,7 @@ def load_volume(file, size, bitdepth):
     slices = []
     for i in range(size[2]):
         slice = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        slice = slice.reshape(size[0], size[1])
+        slice = slice.reshape(size[1], size[0])
         slices.append(slice)
     return np.stack(slices, axis=0)
 
-- 
2.43.0


From 0d5264960f477169c33f615a7001f1122569f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 33/62] fix: combine image stacks in file-name order

---
 src/scripts/combine_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index c6184d3..37490b3 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,7 +27,7 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = glob.glob(os.path.join(input_path, f"*.{file_type}"))
+    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
-- 
2.43.0


From c4888b72159bcf1b39f438f5c011ca792c72b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 34/62] fix: do not swap x and y when combining image stacks

---
 src/scripts/combine_stack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index 37490b3..1403f0c 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -33,9 +33,10 @@ def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     if len(files) != 0:
         vol = []
         for file in files:
-            vol.append(_load_binary(file, data_type, size))
+            # Keep order of axes (z, y, x) for saving
+            vol.append(_load_binary(file, data_type, size).transpose())
 
-        vol = np.array(vol)
+        vol = np.concatenate(vol, axis=0)
         return vol
 
 
-- 
2.43.0


From 8f0dcf66ec02afa9a74ca59fce8450d4f1558d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:24 +0000
Subject: [PATCH 35/62] fix: write image pairs to existing folders and without
 copying

---
 src/scripts/write_to_csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1228d99..1f02dd2 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -27,8 +27,8 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
     if not os.path.exists(path_csv):
         os.makedirs(path_csv)
-        if copy:
-            os.makedirs(os.path.join(path_csv, "images"))
+    if copy:
+        os.makedirs(os.path.join(path_csv, "images"), exist_ok=True)
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
@@ -62,7 +62,7 @@ if __name__ == "__main__":
         path_modified = sys.argv[1]
         path_reference = sys.argv[2]
         path_csv = sys.argv[3]
-        if sys.argv[4] == "copy":
+        if len(sys.argv) > 4 and sys.argv[4] == "copy":
             copy = True
             print(
                 f"Copying images from {path_modified} and {path_reference} "
-- 
2.43.0


From 708c1b5d78b1329b4f4f7ae967436e183d8153d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:15 +0000
Subject: [PATCH 36/62] fix: score nearly constant regions with SSIM

Rounding in single precision made the variance of nearly constant regions
negative, so that contrast and structure became nan and were counted as 1.
---
 src/viqa/fr_metrics/ssim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/ssim.py b/src/viqa/fr_metrics/ssim.py
index 16c211e..6bea78b 100644
--- a/src/viqa/fr_metrics/ssim.py
+++ b/src/viqa/fr_metrics/ssim.py
@@ -381,10 +381,10 @@ def structural_similarity(
 
     del img_r, img_m
 
-    vx = cov_norm * (uxx - ux * ux)
+    vx = np.maximum(cov_norm * (uxx - ux * ux), 0)  # no negative variance
     del uxx
 
-    vy = cov_norm * (uyy - uy * uy)
+    vy = np.maximum(cov_norm * (uyy - uy * uy), 0)  # no negative variance
     del uyy
 
     vxy = cov_norm * (uxy - ux * uy)
-- 
2.43.0


From df91f6f8636ec15815d2d1e5ee669518352ae7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 37/62] fix: score float images with negative strides

torch.tensor() refuses flipped or rotated views, so FSIM, VSI, VIFp and
MS-SSIM failed for them.
---
 src/viqa/utils/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 6aaf1e3..953182c 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -421,8 +421,8 @@ def gabor_convolve(
 
 def _check_chromatic(img_r, img_m, chromatic):
     """Permute image based on dimensions and chromaticity."""
-    img_r = _to_float(img_r, np.float32)
-    img_m = _to_float(img_m, np.float32)
+    img_r = np.ascontiguousarray(_to_float(img_r, np.float32))
+    img_m = np.ascontiguousarray(_to_float(img_m, np.float32))
     # check if chromatic
     if chromatic is False:
         if img_r.ndim == 3:
-- 
2.43.0


From 97fd8017c3002cd6b53da4684ed6a5b80cf95bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:11 +0000
Subject: [PATCH 38/62] fix: zero skewness and kurtosis for every constant
 block

The mean of equal values may differ from them by a rounding error, so
that skewness and kurtosis of blocks of e.g. 0.1 became 1 or -1.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 5df933b..db100da 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -165,7 +165,7 @@ static PyObject
     PyObject *image;
     PyArrayObject *matin, *stdevout, *skwout, *krtout;
     double **cin, **stdev_data, **skw_data, **krt_data, tmp, stmp, mean, stdev, krt, skw;
-    int iblocksize, istride, i, j, u, v, n, m;
+    int iblocksize, istride, i, j, u, v, n, m, constant;
     npy_intp dims[2];
 
     // Parse input arguments
@@ -206,8 +206,10 @@ static PyObject
             stdev = 0;
             skw = 0;
             krt = 0;
+            constant = 1;
             for (u = i; u < i+iblocksize; u++) {
                 for (v = j; v < j+iblocksize; v++) {
+                    if (cin[u][v] != cin[i][j]) constant = 0;
                     // Calculate numerators
                     tmp = cin[u][v]-mean;
                     stdev += pow(tmp, 2);
@@ -215,6 +217,7 @@ static PyObject
                     krt += pow(tmp, 4);
                 }
             }
+            if (constant) stdev = 0; // The mean of equal values may be rounded
             stmp = sqrt(stdev/((iblocksize*iblocksize))); // Temporary variable for denominator calculation
             stdev = sqrt(stdev/((iblocksize*iblocksize)-1)); // No denominator needed for standard deviation
 
-- 
2.43.0


From 6130c4479cd2f4d1ec6bfdbb7fbd51957a25872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:21 +0000
Subject: [PATCH 39/62] fix: refuse region centres outside the image

Negative centres passed the border check; balls around them hold no
pixel and cubes wrap around to the other side of the image.
---
 src/viqa/nr_metrics/cnr.py | 4 ++--
 src/viqa/nr_metrics/snr.py | 2 +-
 src/viqa/utils/misc.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 79024e7..1d51f32 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -806,7 +806,7 @@ def contrast_to_noise_ratio(
         if not isinstance(center, int):
             raise TypeError("Signal center has to be a tuple of integers.")
         # check if center is too close to the border
-        if abs(center) - radius < 0 or center + radius > size:
+        if center - radius < 0 or center + radius > size:
             raise ValueError(
                 "Signal center has to be at least the radius away from the border."
             )
@@ -814,7 +814,7 @@ def contrast_to_noise_ratio(
     for center, size in zip(background_center, img.shape, strict=False):
         if not isinstance(center, int):
             raise TypeError("Background center has to be a tuple of integers.")
-        if abs(center) - radius < 0 or center + radius > size:
+        if center - radius < 0 or center + radius > size:
             raise ValueError(
                 "Background center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4d6b64a..60665b2 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1029,7 +1029,7 @@ def signal_to_noise_ratio(
         if not isinstance(center, int):
             raise TypeError("Center has to be a tuple of integers.")
         # check if center is too close to the border
-        if abs(center) - radius < 0 or center + radius > size:
+        if center - radius < 0 or center + radius > size:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 953182c..fee8185 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -445,7 +445,7 @@ def _check_border_too_close(center, radius):
     for center_coordinate in center:
         if not isinstance(center_coordinate, int):
             raise TypeError("Center has to be a tuple of integers.")
-        if abs(center_coordinate) - radius < 0:
+        if center_coordinate - radius < 0:
             raise ValueError(
                 "Center has to be at least the radius away from the border."
             )
-- 
2.43.0


From cfd4cf01701a8ec3d1d2797eba56faeb770ff69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:30 +0000
Subject: [PATCH 40/62] fix: score regions of equal floating-point values as 0

The mean of equal values may be rounded, so that their standard
deviation is tiny instead of zero and CNR and SNR become huge.
---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 1d51f32..8d6993d 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -842,7 +842,7 @@ def contrast_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate CNR
-    if np.std(background) == 0:
+    if np.min(background) == np.max(background):
         cnr_val = 0
     else:
         cnr_val = (np.mean(signal) - np.mean(background)) / np.std(background)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 60665b2..1ef0a9c 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1063,6 +1063,7 @@ def signal_to_noise_ratio(
                 raise ValueError("Region type not valid.")
 
         sdev = np.std(signal, axis=(0, 1))
+        sdev[np.min(signal, axis=(0, 1)) == np.max(signal, axis=(0, 1))] = 0
 
         if yuv:
             snr_val = [
@@ -1101,7 +1102,7 @@ def signal_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate SNR
-    if np.std(signal) == 0:
+    if np.min(signal) == np.max(signal):
         snr_val = 0
     else:
         snr_val = np.mean(signal) / np.std(signal)
-- 
2.43.0


From 6a80e79cff0033aeae30e4a6bdb5f36bec0e6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 41/62] fix: give color images to chromatic metrics in
 multi-metric evaluation

---
 src/viqa/multiple.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 939585a..afe388e 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -696,6 +696,8 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
         img_r = crop_image(img_r, *roi)
         img_m = crop_image(img_m, *roi)
 
+    # Keep the color channels for metrics which are set to chromatic
+    img_r_color, img_m_color = img_r, img_m
     img_r, img_m = _check_imgs(img_r, img_m, **kwargs)
 
     metric_results = {}
@@ -720,6 +722,9 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
                 result_m = metric.score(img_m, **parameters)
                 metric_results[metric._name + "_m"] = float(result_m)
         elif metric.type == "full-reference":
-            result = metric.score(img_r, img_m, **parameters)
+            if metric.parameters["chromatic"]:
+                result = metric.score(img_r_color, img_m_color, **parameters)
+            else:
+                result = metric.score(img_r, img_m, **parameters)
             metric_results[metric._name] = float(result)
     return metric_results
-- 
2.43.0


From 4c885466063cfc64c49b543264dd5871fe16c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 42/62] fix: accept a signal region array in
 SNR.visualize_centers

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 1ef0a9c..00fdec5 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -236,7 +236,7 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        if signal is None:
             try:
                 signal = self._region
             except AttributeError:
-- 
2.43.0


From 72ae0b535675397f90d96be8d881c22847364e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:20 +0000
Subject: [PATCH 43/62] fix: refuse an empty list of ROIs for a batch with
 pairs

---
 src/viqa/multiple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index afe388e..282b1ec 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -205,7 +205,7 @@ class BatchMetrics(_MultipleInterface):
         self.file_dir = file_dir
         self.pairs_file = pairs_file
         self.pairs = _read_pairs(self.pairs_file)
-        if rois and len(self.pairs) != len(rois):
+        if rois is not None and len(self.pairs) != len(rois):
             raise ValueError(
                 "The number of pairs and ROIs must be equal. "
                 f"Got {len(self.pairs)} pairs and {len(rois)} ROIs."
-- 
2.43.0


From 35661e5cfe602b0f2733ab3b4c89f5aa2f8f0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:27 +0000
Subject: [PATCH 44/62] fix: accept image arrays as where mask of ufuncs

---
 src/viqa/utils/loading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index b02bff7..e0db849 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -177,6 +177,8 @@ class ImageArray(np.ndarray):
             )
         else:
             outputs = (None,) * ufunc.nout
+        if isinstance(kwargs.get("where"), ImageArray):
+            kwargs["where"] = kwargs["where"].view(np.ndarray)
         # call numpys implementation of __array_ufunc__
         results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
         if results is NotImplemented:
-- 
2.43.0


From 3464b044cfe237dc39c8d52f8c45d8dcfb5b76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:44 +0000
Subject: [PATCH 45/62] fix: refuse two axes with the same slice index in
 export_image

---
 src/viqa/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 7ed0f1d..61c55fe 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -229,7 +229,7 @@ def export_image(
     elif img_r.ndim == 3:
         if {x, y, z} == {None}:
             raise ValueError("One axis must be specified")
-        if len({x, y, z} - {None}) != 1:
+        if [x, y, z].count(None) != 2:
             raise ValueError("Only one axis can be specified")
 
         # For 3D images, plot the specified area
-- 
2.43.0


From 0782a69fda93582fe7033fde421cb56928ca6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:48 +0000
Subject: [PATCH 46/62] fix: write reduced projections to the current folder

---
 src/scripts/reduce_projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index bf41956..3fbc566 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -63,7 +63,7 @@ def get_n_projections(slices, reducing_factor):
 def save_volume(output, vol, bitdepth):
     """Save the volume to a binary file."""
     output_folder = os.path.dirname(output)
-    if not os.path.exists(output_folder):
+    if output_folder and not os.path.exists(output_folder):
         os.makedirs(output_folder)
     data_type = _parse_bitdepth(bitdepth)
     vol = vol.astype(data_type)
-- 
2.43.0


From 61b547b2c1f4f5caa555979a4e7a8c6327419916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 47/62] fix: keep the values of every set_centers dialog apart

---
 src/viqa/nr_metrics/cnr.py | 17 +++++++----------
 src/viqa/nr_metrics/snr.py | 33 ++++++++-------------------------
 2 files changed, 15 insertions(+), 35 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 8d6993d..61a7693 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -58,10 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_background_center = ()
-glob_radius = None
-
 FIGSIZE_CNR_2D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_2D)
 FIGSIZE_CNR_3D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_3D)
 
@@ -335,6 +331,9 @@ class CNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values shown in this dialog
+        glob_signal_center = glob_background_center = glob_radius = None
+
         # Define output layout
         def _output_layout(out, figsize_variable):
             figsize = kwargs.get("figsize", figsize_variable)
@@ -345,9 +344,9 @@ class CNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Define function to save values of this dialog to .parameters attribute
         def _save_values(_):
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             self.parameters.update(
                 {
                     "signal_center": glob_signal_center,
@@ -356,10 +355,9 @@ class CNR(NoReferenceMetricsInterface):
                 }
             )
 
-        # Define function to save values to global variables
+        # Define function to keep the values shown in this dialog
         def _write_values_to_global(signal_value, background_value, radius_value):
-            # Set global variables
-            global glob_signal_center, glob_background_center, glob_radius
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             glob_signal_center = signal_value
             glob_background_center = background_value
             glob_radius = radius_value
@@ -434,7 +432,6 @@ class CNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-        global glob_signal_center, glob_background_center, glob_radius
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if img.ndim != len(glob_signal_center) or img.ndim != len(
             glob_background_center
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 00fdec5..44de607 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -58,14 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_radius = None
-glob_region_type = None
-glob_iterations = None
-glob_lower_threshold = None
-glob_upper_threshold = None
-glob_signal = None
-
 
 class SNR(NoReferenceMetricsInterface):
     """Class to calculate the signal-to-noise ratio (SNR) for an image.
@@ -394,6 +386,10 @@ class SNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Values shown in this dialog
+        glob_signal_center = glob_radius = glob_region_type = glob_signal = None
+        glob_iterations = glob_lower_threshold = glob_upper_threshold = None
+
         # Define output layout
         def _output_layout(out, figsize):
             figsize = list(vis_kwargs.get("figsize", figsize))
@@ -406,16 +402,8 @@ class SNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Define function to save values of this dialog to .parameters attribute
         def _save_values(_):
-            global \
-                glob_signal, \
-                glob_signal_center, \
-                glob_radius, \
-                glob_region_type, \
-                glob_iterations, \
-                glob_lower_threshold, \
-                glob_upper_threshold
             if glob_region_type == "full":
                 parameters = {
                     "region_type": glob_region_type,
@@ -457,8 +445,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Calculate region
         def _calculate_region(_):
-            global \
-                glob_region_type, \
+            nonlocal \
                 glob_signal, \
                 glob_iterations, \
                 glob_lower_threshold, \
@@ -486,10 +473,9 @@ class SNR(NoReferenceMetricsInterface):
             # TODO: Change to automatic visualization update
             dropdown_region_type.value = "full"
 
-        # Define function to save values to global variables
+        # Define function to keep the values shown in this dialog
         def _write_values_to_global(signal_value, radius_value, region_type):
-            # Set global variables
-            global glob_signal_center, glob_radius, glob_region_type
+            nonlocal glob_signal_center, glob_radius, glob_region_type
             glob_signal_center = signal_value
             glob_radius = radius_value
             glob_region_type = region_type
@@ -507,7 +493,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_2d(
                 img=img,
                 signal_center=signal_center,
@@ -534,7 +519,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_3d(
                 img=img,
                 signal_center=signal_center,
@@ -596,7 +580,6 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global glob_signal_center, glob_radius, glob_region_type
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
             raise ValueError("Signal center has to be in the same dimension as img.")
-- 
2.43.0


From a0ab2c85f388d1acaf6e644a2ab00e20d4ef883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 48/62] fix: limit the radius of set_centers to regions inside
 the image

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 61a7693..6854cc7 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -452,7 +452,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=max(min(img.shape) // 2 - 1, 1),
             min=1,
             value=radius_start,
             description="Radius",
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 44de607..a6172a4 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -613,7 +613,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=max(min(img.shape) // 2 - 1, 1),
             min=1,
             value=radius_start,
             description="Radius",
-- 
2.43.0


From 4c373f8cfe5e26df781a0ea2269c675e82760a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 49/62] fix: let the radius of a 2D SNR region be changed in
 set_centers

---
 src/viqa/nr_metrics/snr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index a6172a4..d66c1f4 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -649,11 +649,9 @@ class SNR(NoReferenceMetricsInterface):
             slider_signal_center_x.max = img.shape[0] - (change.new + 1)
             slider_signal_center_y.min = change.new + 1
             slider_signal_center_y.max = img.shape[1] - (change.new + 1)
-            try:
+            if slider_signal_center_z is not None:
                 slider_signal_center_z.min = change.new + 1
                 slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
-                pass
 
         slider_radius.observe(_update_values, "value")
 
-- 
2.43.0


From affb01b9b7b8f1b16a56fef17deb489d97a7d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 50/62] fix: let SNR.set_centers be used again after saving a
 region

---
 src/viqa/nr_metrics/snr.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index d66c1f4..4b7d0af 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -578,7 +578,19 @@ class SNR(NoReferenceMetricsInterface):
         else:
             upper_threshold_start = kwargs.pop("upper_threshold")
 
+        # Parameters that do not apply to the saved region type are None
+        signal_start = center_point if signal_start is None else signal_start
+        radius_start = 1 if radius_start is None else radius_start
+        iterations_start = 2 if iterations_start is None else iterations_start
+        if lower_threshold_start is None:
+            lower_threshold_start = 90
+        if upper_threshold_start is None:
+            upper_threshold_start = 99
+
         _write_values_to_global(signal_start, radius_start, region_type_start)
+        glob_iterations = iterations_start
+        glob_lower_threshold = lower_threshold_start
+        glob_upper_threshold = upper_threshold_start
 
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
-- 
2.43.0


From da22a3882664308d0338e69db71620a87208a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 51/62] fix: calculate the full region in SNR.set_centers
 whatever region is shown

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4b7d0af..1c69837 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -460,7 +460,7 @@ class SNR(NoReferenceMetricsInterface):
 
             _, _, signal_region = find_largest_region(
                 img=binary_foreground,
-                region_type=glob_region_type,
+                region_type="full",
                 iterations=iterations_slider.value,
             )
 
-- 
2.43.0


From d177e70c1bd5a741bf3a365ecb40156fb3d820f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 52/62] fix: accept starting points in CNR.set_centers when
 regions are already set

---
 src/viqa/nr_metrics/cnr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 6854cc7..f7d272c 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -418,6 +418,9 @@ class CNR(NoReferenceMetricsInterface):
             img = _to_grayscale(img)
 
         center_point = tuple(val // 2 for val in img.shape)
+        background_start = kwargs.pop("background_center", center_point)
+        signal_start = kwargs.pop("signal_center", center_point)
+        radius_start = kwargs.pop("radius", 1)
         # Check if background_center and signal_center are provided
         if {"background_center", "signal_center", "radius"}.issubset(
             self.parameters.keys()
@@ -425,10 +428,6 @@ class CNR(NoReferenceMetricsInterface):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
-        else:
-            background_start = kwargs.pop("background_center", center_point)
-            signal_start = kwargs.pop("signal_center", center_point)
-            radius_start = kwargs.pop("radius", 1)
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-- 
2.43.0


From f7b6d12dc16d68e7930e333175f4f10aa2c47f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 53/62] fix: accept a figure size in CNR.set_centers

---
 src/viqa/nr_metrics/cnr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index f7d272c..3e57481 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -336,7 +336,10 @@ class CNR(NoReferenceMetricsInterface):
 
         # Define output layout
         def _output_layout(out, figsize_variable):
-            figsize = kwargs.get("figsize", figsize_variable)
+            if "figsize" in kwargs:
+                figsize = tuple(f"{val}in" for val in kwargs["figsize"])
+            else:
+                figsize = figsize_variable
             width = figsize[0]
             height = figsize[1]
             out.layout = {
-- 
2.43.0


From dd8d7f83babfc9700fd05d0e0bee0e257ebf0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 54/62] fix: keep the regions given to CNR and SNR when only
 part of them is given

---
 src/viqa/nr_metrics/cnr.py | 6 +++---
 src/viqa/nr_metrics/snr.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 3e57481..a552763 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -126,9 +126,9 @@ class CNR(NoReferenceMetricsInterface):
             ):
                 raise ValueError("No center or radius provided.")
 
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["background_center"] = self.parameters["background_center"]
-            kwargs["radius"] = self.parameters["radius"]
+            kwargs.setdefault("signal_center", self.parameters["signal_center"])
+            kwargs.setdefault("background_center", self.parameters["background_center"])
+            kwargs.setdefault("radius", self.parameters["radius"])
 
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 1c69837..3e98c88 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -127,8 +127,8 @@ class SNR(NoReferenceMetricsInterface):
             if not {"signal_center", "radius"}.issubset(self.parameters.keys()):
                 raise ValueError("No center or radius provided.")
 
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["radius"] = self.parameters["radius"]
+            kwargs.setdefault("signal_center", self.parameters["signal_center"])
+            kwargs.setdefault("radius", self.parameters["radius"])
 
         # TODO: Write standard params of signal to noise ratio to .parameters attribute
         #  if not already done
-- 
2.43.0


From f18dae6d96a5b51c82483914c8d63fce034b4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 55/62] fix: keep the stored regions of CNR and SNR when a
 scoring is refused

---
 src/viqa/nr_metrics/cnr.py | 3 ++-
 src/viqa/nr_metrics/snr.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index a552763..41cf636 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -130,10 +130,11 @@ class CNR(NoReferenceMetricsInterface):
             kwargs.setdefault("background_center", self.parameters["background_center"])
             kwargs.setdefault("radius", self.parameters["radius"])
 
+        score_val = contrast_to_noise_ratio(img, **kwargs)
+
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
 
-        score_val = contrast_to_noise_ratio(img, **kwargs)
         self.score_val = score_val
         return score_val
 
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 3e98c88..896b292 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -133,12 +133,13 @@ class SNR(NoReferenceMetricsInterface):
         # TODO: Write standard params of signal to noise ratio to .parameters attribute
         #  if not already done
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
-
         score_val = signal_to_noise_ratio(img, **kwargs)
         if isinstance(score_val[-1], dict):  # grayscale images
             score_val = score_val[0]
+
+        # write kwargs to .parameters attribute
+        self.parameters.update(kwargs)
+
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From dbe661c3fedfefbc1ebcd02b1a0e95f48cc48c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:56 +0000
Subject: [PATCH 56/62] fix: do not keep the loading settings of one CNR or SNR
 scoring for later ones

---
 src/viqa/nr_metrics/cnr.py | 11 +++++++++--
 src/viqa/nr_metrics/snr.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 41cf636..a963bfa 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -132,8 +132,15 @@ class CNR(NoReferenceMetricsInterface):
 
         score_val = contrast_to_noise_ratio(img, **kwargs)
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
+        # write kwargs to .parameters attribute (settings for data loading only apply
+        # to this call)
+        self.parameters.update(
+            {
+                key: value
+                for key, value in kwargs.items()
+                if key not in ("data_range", "normalize", "batch", "roi")
+            }
+        )
 
         self.score_val = score_val
         return score_val
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 896b292..8d3159a 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -137,8 +137,15 @@ class SNR(NoReferenceMetricsInterface):
         if isinstance(score_val[-1], dict):  # grayscale images
             score_val = score_val[0]
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
+        # write kwargs to .parameters attribute (settings for data loading only apply
+        # to this call)
+        self.parameters.update(
+            {
+                key: value
+                for key, value in kwargs.items()
+                if key not in ("data_range", "normalize", "batch", "roi")
+            }
+        )
 
         self.score_val = score_val
         return score_val
-- 
2.43.0


From d14c5f23baeb1747860246d31cb1814193762485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 57/62] fix: refuse .gz files that are not .nii.gz with a
 ValueError

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index e0db849..54026b0 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -380,7 +380,7 @@ def _load_data_from_disk(file_dir: str | os.PathLike, file_name: str) -> ImageAr
         img_arr = load_nifti(file_path)
         return ImageArray(img_arr)
     elif file_ext == ".gz":
-        if re.search(".nii", file_name):
+        if file_name.endswith(".nii.gz"):
             img_arr = load_nifti(file_path)
             return ImageArray(img_arr)
         else:
-- 
2.43.0


From c9c2f74be1b9fa242d221f58f777ed23e780f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:21 +0000
Subject: [PATCH 58/62] fix: draw the regions given to CNR.visualize_centers
 when only part of them is given

---
 src/viqa/nr_metrics/cnr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index a963bfa..eacfe4e 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -219,9 +219,11 @@ class CNR(NoReferenceMetricsInterface):
             ):
                 raise ValueError("No center or radius provided.")
 
-            signal_center = self.parameters["signal_center"]
-            background_center = self.parameters["background_center"]
-            radius = self.parameters["radius"]
+            signal_center = signal_center or self.parameters["signal_center"]
+            background_center = (
+                background_center or self.parameters["background_center"]
+            )
+            radius = radius or self.parameters["radius"]
 
         # Check if img and signal_center have the same dimension
         if img.shape[-1] == 3:
-- 
2.43.0


From 242b35c9d7ac3fd361b8a8b6101916029212b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:54 +0000
Subject: [PATCH 59/62] fix: convert equal colors to exactly equal luminances

---
 src/viqa/utils/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index fee8185..db23053 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -22,7 +22,6 @@ import math
 import numpy as np
 import scipy.fft as fft
 import scipy.ndimage as ndi
-import skimage as ski
 import torch
 from scipy.ndimage import distance_transform_edt
 
@@ -32,7 +31,9 @@ from .visualization import visualize_2d, visualize_3d
 def _to_grayscale(img):
     """Convert an image to grayscale."""
     img = _to_float(img)
-    img_gray = ski.color.rgb2gray(img)
+    # Same weights as skimage.color.rgb2gray, but added pixel by pixel, so that equal
+    # colors have exactly equal luminances
+    img_gray = 0.2125 * img[..., 0] + 0.7154 * img[..., 1] + 0.0721 * img[..., 2]
     img_max = np.max(img)
     img_gray[img_gray > img_max] = img_max
     return img_gray
-- 
2.43.0


From f44c25e9f94fed3a35b00b5dec32f418478530d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:54 +0000
Subject: [PATCH 60/62] fix: pad integer images with the given value in
 correlate_convolve_abs

---
 src/viqa/utils/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index db23053..8006e22 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -130,7 +130,10 @@ def correlate_convolve_abs(
     # Pad image
     match border_mode:
         case "constant":
-            origin = np.pad(img, pad_size, mode="constant", constant_values=value)
+            # The data type of the image may not be able to hold the value
+            origin = np.pad(
+                _to_float(img), pad_size, mode="constant", constant_values=value
+            )
         case "reflect":
             origin = np.pad(img, pad_size, mode="reflect")
         case "nearest":
-- 
2.43.0


From 98f2cadfe467155125a70dcf958dc48b7bbcaba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 61/62] fix: close comparison figures that are saved without
 being shown

With show_image=False (as in the reports of batches) the figures stayed open: they
were shown by the next plt.show() and their memory was never released.
---
 src/viqa/utils/export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 61c55fe..36bcf6a 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -314,5 +314,7 @@ def export_image(
         plt.savefig(file_path, bbox_inches="tight", pad_inches=0.5)
         if show_image:
             plt.show()
+        else:
+            plt.close(fig)
     else:
         plt.show()
-- 
2.43.0


From 3e63c1830e552e2fdbfb1f66280b25c64dd7813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:51 +0000
Subject: [PATCH 62/62] fix: check the file name before drawing the comparison
 figure

A refused file name left the drawn figure open, to be shown by the next plt.show().
---
 src/viqa/utils/export.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 36bcf6a..eb6f16e 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -204,6 +204,10 @@ def export_image(
     UserWarning
         If no results are available to plot.
     """
+    # Check if filename has the correct extension
+    if os.path.splitext(file_name)[1] != ".png":
+        raise ValueError(f"The file name {file_name} must have the extension '.png'.")
+
     if len(results) == 0:
         warn("No results to plot. Only the images are plotted.", UserWarning)
 
@@ -305,10 +309,6 @@ def export_image(
     axs[0].axis("off")
     axs[1].axis("off")
 
-    # Check if filename has the correct extension
-    if os.path.splitext(file_name)[1] != ".png":
-        raise ValueError(f"The file name {file_name} must have the extension '.png'.")
-
     if file_path:
         file_path = os.path.join(file_path, file_name)
         plt.savefig(file_path, bbox_inches="tight", pad_inches=0.5)
-- 
2.43.0

