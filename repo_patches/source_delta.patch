From b94e02bd2d7a1400e2b5c760cd3950e093aab9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:09 +0000
Subject: [PATCH 01/46] fix: clamp the double thresholds of Otsu to 0..255

For optimal thresholds below 16 or above 239 the lower or upper threshold
wrapped around when it was narrowed to uint8_t, which turned whole images
black or white.
---
 src/conversion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index fb47d7c..aee145e 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -315,11 +315,14 @@ uint8_t *fcv_otsu_threshold_rgba(
   const int32_t threshold_range_offset = 16;
 
   if (use_double_threshold) {
+    // Clamp to [0, 255] as the thresholds would otherwise wrap around
+    int32_t lower_threshold = optimal_threshold - threshold_range_offset;
+    int32_t upper_threshold = optimal_threshold + threshold_range_offset;
     apply_double_threshold(
       img_length_px,
       grayscale_img,
-      optimal_threshold - threshold_range_offset,
-      optimal_threshold + threshold_range_offset
+      lower_threshold < 0 ? 0 : lower_threshold,
+      upper_threshold > 255 ? 255 : upper_threshold
     );
   }
   else {
-- 
2.43.0


From f4d78a7b6f3b890327df3458cecec23ba0cf3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:43 +0000
Subject: [PATCH 02/46] fix: compute the Otsu variance in double precision

With floats the rounding error of the cumulative sum exceeded the variance
of large, nearly flat images, so that an arbitrary threshold won and the
few differing pixels disappeared.
---
 src/conversion.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index aee145e..ab2bacf 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -276,20 +276,20 @@ uint8_t *fcv_otsu_threshold_rgba(
     histogram[grayscale_img[i]]++;
   }
 
-  float histogram_norm[256] = {0};
+  double histogram_norm[256] = {0};
   for (uint32_t i = 0; i < 256; i++) {
-    histogram_norm[i] = (float)histogram[i] / img_length_px;
+    histogram_norm[i] = (double)histogram[i] / img_length_px;
   }
 
-  float global_mean = 0.0;
+  double global_mean = 0.0;
 
   for (uint32_t i = 0; i < 256; i++) {
     global_mean += i * histogram_norm[i];
   }
 
-  float cumulative_sum = 0.0;
-  float cumulative_mean = 0.0;
-  float max_variance = 0.0;
+  double cumulative_sum = 0.0;
+  double cumulative_mean = 0.0;
+  double max_variance = 0.0;
   int32_t optimal_threshold = 0;
 
   for (uint32_t i = 0; i < 256; i++) {
@@ -300,10 +300,10 @@ uint8_t *fcv_otsu_threshold_rgba(
       continue;
     }
 
-    float mean1 = cumulative_mean / cumulative_sum;
-    float mean2 = (global_mean - cumulative_mean) / (1 - cumulative_sum);
+    double mean1 = cumulative_mean / cumulative_sum;
+    double mean2 = (global_mean - cumulative_mean) / (1 - cumulative_sum);
 
-    float class_variance =
+    double class_variance =
       cumulative_sum * (1 - cumulative_sum) * (mean1 - mean2) * (mean1 - mean2);
 
     if (class_variance > max_variance) {
-- 
2.43.0


From c1c2055073e0848ba3d3eaf6bc938df45f1992bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:58 +0000
Subject: [PATCH 03/46] fix: blur with a tiny radius divided infinity by
 infinity

For radii below about 1e-19 the kernel weight became infinite or NaN and
every pixel was converted from NaN.
---
 src/conversion.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index ab2bacf..b5751b3 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -397,7 +397,9 @@ uint8_t *fcv_apply_gaussian_blur(
     return NULL;
   }
 
-  float sigma = radius / 3.0;
+  // Below a radius of 1 the window only contains the pixel itself,
+  // but a tiny sigma would make its weight infinite
+  float sigma = (radius < 1 ? 1 : radius) / 3.0;
   float sigma_sq = sigma * sigma;
   float two_sigma_sq = 2 * sigma_sq;
   float sqrt_two_pi_sigma = sqrt(2 * M_PI) * sigma;
-- 
2.43.0


From 29c76bb31b4c90a58d9ff369ed652ffedccf116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 04/46] fix: resize lost a pixel to the rounding error of the
 scale factor

100 px * 29 % gave 28 px and 49 px * (1 / 49) gave an empty image.
---
 src/conversion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index b5751b3..3212d24 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -633,8 +633,11 @@ uint8_t *fcv_resize(
   }
 
   // Check for overflow in output dimensions
-  double new_width_d = (double)width * resize_x;
-  double new_height_d = (double)height * resize_y;
+  // (factors like 1.0 / 49 or 0.29 can't be represented exactly, so allow for
+  // the rounding error of the product before it is truncated)
+  const double rounding = 1.0 + 1e-12;
+  double new_width_d = (double)width * resize_x * rounding;
+  double new_height_d = (double)height * resize_y * rounding;
 
   if (new_width_d > UINT32_MAX || new_height_d > UINT32_MAX) {
     return NULL;
-- 
2.43.0


From b557d48db6d870d8c37036bf56afc97db1eb5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 05/46] fix: resize painted black or shifted pixels when only
 one axis shrinks

The area window was moved by half a source pixel along the enlarged axis
too, so its first columns or rows covered nothing and became black.
---
 src/conversion.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 3212d24..6a36186 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -669,8 +669,10 @@ uint8_t *fcv_resize(
   for (uint32_t out_y = 0; out_y < *out_height; out_y++) {
     for (uint32_t out_x = 0; out_x < *out_width; out_x++) {
       if (resize_x < 1.0 || resize_y < 1.0) {
-        double src_x = (out_x + 0.5) / resize_x - 0.5;
-        double src_y = (out_y + 0.5) / resize_y - 0.5;
+        // An axis which isn't shrunk must not be shifted, as the window
+        // would leave the image or cover the wrong pixels
+        double src_x = (out_x + 0.5) / resize_x - (resize_x < 1.0 ? 0.5 : 0.0);
+        double src_y = (out_y + 0.5) / resize_y - (resize_y < 1.0 ? 0.5 : 0.0);
 
         double filter_size_x = 1.0 / resize_x;
         double filter_size_y = 1.0 / resize_y;
-- 
2.43.0


From 5294b4af4304a9e8d63b9b93f9443b18bfbd3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:22 +0000
Subject: [PATCH 06/46] fix: Sobel edge detection of RGB images read beyond the
 buffer

Three channels are documented, but the data was always read as RGBA.
Other channel counts are rejected.
---
 src/sobel_edge_detection.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..55a92f2 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -34,7 +34,11 @@ uint8_t *fcv_sobel_edge_detection(
   uint32_t channels,
   uint8_t const *const data
 ) {
-  if (!data || width == 0 || height == 0 || channels == 0) {
+  if (!data || width == 0 || height == 0) {
+    return NULL;
+  }
+
+  if (channels != 1 && channels != 3 && channels != 4) {
     return NULL;
   }
 
@@ -57,8 +61,22 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input, convert to grayscale (there is no alpha channel to skip)
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    for (size_t i = 0; i < img_length_px; i++) {
+      uint8_t r = data[i * 3];
+      uint8_t g = data[i * 3 + 1];
+      uint8_t b = data[i * 3 + 2];
+      grayscale_data[i] = (r * R_WEIGHT + g * G_WEIGHT + b * B_WEIGHT) >> 8;
+    }
+    allocated_grayscale = true;
+  }
   else {
-    // Multi-channel input, convert to grayscale
+    // RGBA input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
     if (!grayscale_data) {
       return NULL;
-- 
2.43.0


From 5690cf40e419d5047161ea2bd12b9875c4fcff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 07/46] fix: repeated watershed markers overflowed the queue

Markers on the same pixel took up several queue slots, so that pixels of
the first layer were dropped and claimed by another region later.
---
 src/watershed_segmentation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 5457a4f..6f3fa4f 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -177,14 +177,14 @@ uint8_t *fcv_watershed_segmentation(
     return NULL;
   }
 
-  // Initialize markers and add to queue
+  // Initialize markers. They must not be added to the queue, as its capacity
+  // is only sufficient if each pixel is enqueued at most once.
   for (uint32_t m = 0; m < num_markers; m++) {
     int32_t marker_x = (int32_t)markers[m].x;
     int32_t marker_y = (int32_t)markers[m].y;
     int32_t idx = marker_y * width + marker_x;
     int32_t label = (int32_t)m; // Label starts from 0
     labels[idx] = label;
-    enqueue(queue, marker_x, marker_y, label);
   }
 
   // Level-wise watershed algorithm - process pixels in elevation order
-- 
2.43.0


From 7a17866ecf960d034d8fe9e76aac96d082ff6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:02 +0000
Subject: [PATCH 08/46] fix: histogram bar heights overflowed for more than 21
 million pixels

---
 src/histogram.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 398f17c..60dce3f 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = ((uint64_t)hist_gray[x] * hist_height) / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = ((uint64_t)hist_r[x] * hist_height) / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_g[x] * hist_height) / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_b[x] * hist_height) / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 098b6672b7aa821c9672b456a7661fbc37f0737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:10 +0000
Subject: [PATCH 09/46] fix: a circle or disk of radius 0 painted diagonal
 neighbours

The Bresenham loop ran one step beyond the octant, which for radius 0
painted pixels at a distance of 1.4 around the center. All other radii are
unchanged, as the extra step only repeated mirrored points.
---
 src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 7c0375c..eb29c57 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -163,7 +163,7 @@ void fcv_draw_circle(
   // Initial points
   fcv_draw_circle_points(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
+  while (y > x) {
     x++;
     if (d > 0) {
       y--;
@@ -243,7 +243,7 @@ void fcv_draw_disk(
   // Initial filled lines
   fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
+  while (y > x) {
     x++;
     if (d > 0) {
       y--;
-- 
2.43.0


From 1c5f1e006f5bfe0e04f3095f966e2b17be889ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:10 +0000
Subject: [PATCH 10/46] fix: drawing with a huge radius or center overflowed
 and did not end

The center was converted to int32_t without a range check, 4 * radius
overflowed in the Bresenham algorithm, and disks visited every pixel of
lines which are far longer than the image.
---
 src/draw.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index eb29c57..061d4db 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -92,8 +92,13 @@ void fcv_fill_disk_lines(
   uint8_t g,
   uint8_t b
 ) {
+  // Clip the lines to the image, as they could be billions of pixels long
+  int32_t last = width > INT32_MAX ? INT32_MAX - 1 : (int32_t)width - 1;
+
   // Fill horizontal lines at y offsets
-  for (int32_t i = cx - x; i <= cx + x; i++) {
+  int32_t start = cx - x < 0 ? 0 : cx - x;
+  int32_t end = cx + x > last ? last : cx + x;
+  for (int32_t i = start; i <= end; i++) {
     fcv_set_circle_pixel(data, width, height, channels, i, cy + y, r, g, b);
     fcv_set_circle_pixel(data, width, height, channels, i, cy - y, r, g, b);
   }
@@ -101,7 +106,9 @@ void fcv_fill_disk_lines(
   // Fill horizontal lines at x offsets
   // (avoid duplicating center line when x == y)
   if (x != y) {
-    for (int32_t i = cx - y; i <= cx + y; i++) {
+    start = cx - y < 0 ? 0 : cx - y;
+    end = cx + y > last ? last : cx + y;
+    for (int32_t i = start; i <= end; i++) {
       fcv_set_circle_pixel(data, width, height, channels, i, cy + x, r, g, b);
       fcv_set_circle_pixel(data, width, height, channels, i, cy - x, r, g, b);
     }
@@ -143,7 +150,12 @@ void fcv_draw_circle(
   }
 
   // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  if (radius > INT32_MAX / 16) {
+    return;
+  }
+
+  // No part of the shape can be visible, and it would overflow an int32_t
+  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
@@ -223,7 +235,12 @@ void fcv_draw_disk(
   }
 
   // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  if (radius > INT32_MAX / 16) {
+    return;
+  }
+
+  // No part of the shape can be visible, and it would overflow an int32_t
+  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
-- 
2.43.0


From c79d76977870c3570bd92171492504704adc285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:05 +0000
Subject: [PATCH 11/46] fix: corner response of an image smaller than the
 window read out of bounds

---
 src/foerstner_corner.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..c77652e 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -23,7 +23,7 @@ uint8_t *fcv_foerstner_corner(
   uint8_t const *const gray_data,
   double sigma
 ) {
-  if (!gray_data || width == 0 || height == 0) {
+  if (!gray_data || width == 0 || height == 0 || !isfinite(sigma)) {
     return NULL;
   }
 
@@ -87,7 +87,9 @@ uint8_t *fcv_foerstner_corner(
 
   // Apply Gaussian smoothing to structure tensor elements
   // For simplicity, use a basic box filter approximation when sigma is small
-  int32_t kernel_size = (int32_t)(3 * sigma) | 1; // Ensure odd size
+  // (a larger window than any image has the same effect as any other such one)
+  double window = fmin(fmax(3 * sigma, 0.0), INT32_MAX / 2);
+  int32_t kernel_size = (int32_t)window | 1; // Ensure odd size
   if (kernel_size < 3) {
     kernel_size = 3;
   }
@@ -110,8 +112,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
+    for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
-- 
2.43.0


From 84b2ee96132655fb8e1f898d2866261a7e49196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:56 +0000
Subject: [PATCH 12/46] fix: corner response amplified rounding errors of
 straight edges

---
 src/foerstner_corner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index c77652e..e66bedd 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -174,7 +174,8 @@ uint8_t *fcv_foerstner_corner(
 
     double w = 0.0, q = 0.0;
 
-    if (fabs(trace_A) > 1e-10) { // Avoid division by zero
+    // Avoid division by zero and do not amplify the rounding error of det_A
+    if (fabs(trace_A) > 1e-10 && det_A > 1e-12 * trace_A * trace_A) {
       w = det_A / trace_A;
       q = 4.0 * det_A / (trace_A * trace_A);
     }
-- 
2.43.0


From 556c84f620d608d783a75b26adcad81545a43f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 13/46] fix: callers freed the static identity matrix, and its
 allocation was unchecked

---
 src/extract_document.c     | 20 ++------------------
 src/perspectivetransform.c | 31 ++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..1e1a967 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -56,15 +56,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
@@ -151,15 +143,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..842b392 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -100,9 +100,21 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
   return 1;
 }
 
+/**
+ * Allocate an identity matrix as fallback
+ */
+static Matrix3x3 *identity_matrix(void) {
+  Matrix3x3 *identity = malloc(sizeof(Matrix3x3));
+  if (identity) {
+    *identity = (Matrix3x3){1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
+  }
+  return identity;
+}
+
 /**
  * Calculate the perspective transformation matrix
  * from the source and destination corner coordinates.
+ * The caller must free the returned matrix.
  */
 Matrix3x3 *fcv_calculate_perspective_transform(
   Corners *src_corners,
@@ -113,12 +125,9 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   double b[8] = {0};
   double x[8] = {0};
 
-  // Identity matrix as fallback
-  static Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
-
   if (!src_corners || !dst_corners) {
     log("Error: NULL pointer passed to calculate_perspective_transform\n");
-    return &identity;
+    return identity_matrix();
   }
 
 #ifdef DEBUG_LOGGING
@@ -159,7 +168,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isnan(dst_corners->br_x) || isnan(dst_corners->br_y) ||
       isnan(dst_corners->bl_x) || isnan(dst_corners->bl_y)) {
     log("Error: Invalid coordinates (NaN) detected\n");
-    return &identity;
+    return identity_matrix();
   }
 
   // Set up the system of equations
@@ -197,7 +206,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
     // Validate extracted coordinates
     if (isinf(srcX) || isinf(srcY) || isinf(dstX) || isinf(dstY)) {
       log("Error: Invalid coordinates (Inf) detected\n");
-      return &identity;
+      return identity_matrix();
     }
 
     // First four equations for x coordinates
@@ -220,18 +229,21 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   log("Solve the system of equations …\n");
   if (!solve_linear_system(A, b, x)) {
     log("Failed to solve system, returning identity matrix\n");
-    return &identity;
+    return identity_matrix();
   }
 
   // Validate solution
   for (int32_t i = 0; i < 8; i++) {
     if (isnan(x[i]) || isinf(x[i]) || fabs(x[i]) > 1e6) {
       log("Error: Invalid solution values detected\n");
-      return &identity;
+      return identity_matrix();
     }
   }
 
   Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (!result) {
+    return NULL;
+  }
   *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
 
 #ifdef DEBUG_LOGGING
@@ -249,7 +261,8 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isinf(result->m10) || isinf(result->m11) || isinf(result->m12) ||
       isinf(result->m20) || isinf(result->m21) || isinf(result->m22)) {
     log("Error: Invalid values in result matrix\n");
-    return &identity;
+    free(result);
+    return identity_matrix();
   }
 
   return result;
-- 
2.43.0


From 7483b36a775efa34933be0168ca96747c2e32811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 14/46] fix: warping changed the flip matrix of the caller

---
 src/perspectivetransform.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 842b392..c73b6bb 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -299,7 +299,9 @@ uint8_t *fcv_apply_matrix_3x3(
     return NULL;
   }
 
-  // Patch flip matrix if needed
+  // Patch flip matrix if needed (in a copy, as the matrix is the caller's)
+  Matrix3x3 matrix = *tmat;
+  tmat = &matrix;
   if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
       tmat->m02 == 0.0 && tmat->m12 == 0.0) {
     tmat->m02 = in_width - 1;
-- 
2.43.0


From a3e3589cadc0968d9618eb36a9619134cf9f9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 15/46] fix: warping converted far-away source positions to
 integers out of range

---
 src/perspectivetransform.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index c73b6bb..01fba9a 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -326,6 +326,11 @@ uint8_t *fcv_apply_matrix_3x3(
       double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
       double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
 
+      // Skip positions outside of the source image (and NaN)
+      if (!(srcX >= 0 && srcX < in_width && srcY >= 0 && srcY < in_height)) {
+        continue;
+      }
+
       // Convert source coordinates to integers
       int32_t x0 = (int32_t)floor(srcX);
       int32_t y0 = (int32_t)floor(srcY);
@@ -351,13 +356,13 @@ uint8_t *fcv_apply_matrix_3x3(
           dy = 0.0;
         }
 
-        uint8_t *p00 = &in_data[(y0 * in_width + x0) * 4];
-        uint8_t *p01 = &in_data[(y0 * in_width + x1c) * 4];
-        uint8_t *p10 = &in_data[(y1c * in_width + x0) * 4];
-        uint8_t *p11 = &in_data[(y1c * in_width + x1c) * 4];
+        uint8_t *p00 = &in_data[((size_t)y0 * in_width + x0) * 4];
+        uint8_t *p01 = &in_data[((size_t)y0 * in_width + x1c) * 4];
+        uint8_t *p10 = &in_data[((size_t)y1c * in_width + x0) * 4];
+        uint8_t *p11 = &in_data[((size_t)y1c * in_width + x1c) * 4];
 
         for (int32_t c = 0; c < 4; ++c) {
-          out_data[(out_y * out_width + out_x) * 4 + c] =
+          out_data[((size_t)out_y * out_width + out_x) * 4 + c] =
             (uint8_t)(p00[c] * (1 - dx) * (1 - dy) + p01[c] * dx * (1 - dy) +
                       p10[c] * (1 - dx) * dy + p11[c] * dx * dy);
         }
-- 
2.43.0


From b9b2e32d647115c138e482bd50806c939fd9081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 16/46] fix: degenerate corners with large coordinates were not
 recognised

---
 src/perspectivetransform.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 01fba9a..dd32731 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -26,7 +26,7 @@
  */
 int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
   const int32_t n = 8;
-  const double epsilon = 1e-10;
+  double epsilon[8]; // Smallest accepted pivot of each column
   int32_t i, j, k;
 
   // Create augmented matrix [A|b] with extra safety margin
@@ -40,6 +40,14 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
     aug[i][n] = b[i];
   }
 
+  // A pivot is only rounding noise if it is tiny compared to its column
+  for (j = 0; j < n; j++) {
+    epsilon[j] = 0.0;
+    for (i = 0; i < n; i++) {
+      epsilon[j] = fmax(epsilon[j], 1e-12 * fabs(A[i][j]));
+    }
+  }
+
   // Gaussian elimination with partial pivoting
   for (i = 0; i < n; i++) {
     // Find pivot
@@ -54,7 +62,7 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
     }
 
     // Check for singularity
-    if (max_val < epsilon) {
+    if (max_val <= epsilon[i]) {
       log("Warning: Matrix is nearly singular\n");
       return 0;
     }
@@ -79,7 +87,7 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
 
   // Back substitution
   for (i = n - 1; i >= 0; i--) {
-    if (fabs(aug[i][i]) < epsilon) {
+    if (fabs(aug[i][i]) <= epsilon[i]) {
       log("Warning: Zero pivot encountered\n");
       return 0;
     }
-- 
2.43.0


From aa287a238b283f8db0d7c61407f8c59cba19a4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 17/46] fix: corner detection leaked the peak list

---
 src/corner_detection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..69d77e4 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -602,6 +602,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
   return sorted_corners;
 }
-- 
2.43.0


From 71773f14fc366597b7219134444703891187b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 18/46] fix: corner detection crashed if it found fewer than
 four peaks

---
 src/corner_detection.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 69d77e4..ae26100 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -384,8 +384,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     exit(EXIT_FAILURE);
   }
 
+  // Without a document use the whole image
+  if (peaks->count < 3) {
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
+  // (a fourth corner is added if there are only three)
+  Point2D *sorted_result =
+    malloc((peaks->count < 4 ? 4 : peaks->count) * sizeof(Point2D));
   sort_corners(
     width,
     height,
@@ -494,17 +503,16 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     free(angle_indices);
   }
   else {
-    // Use all available corners if we have 4 or fewer, already in clockwise
-    // order
+    // Use all 4 corners, already in clockwise order
     sorted_corners =
       (Corners){.tl_x = sorted_result[0].x * scale_x,
                 .tl_y = sorted_result[0].y * scale_y,
-                .tr_x = sorted_result[1 % peaks->count].x * scale_x,
-                .tr_y = sorted_result[1 % peaks->count].y * scale_y,
-                .br_x = sorted_result[2 % peaks->count].x * scale_x,
-                .br_y = sorted_result[2 % peaks->count].y * scale_y,
-                .bl_x = sorted_result[3 % peaks->count].x * scale_x,
-                .bl_y = sorted_result[3 % peaks->count].y * scale_y};
+                .tr_x = sorted_result[1].x * scale_x,
+                .tr_y = sorted_result[1].y * scale_y,
+                .br_x = sorted_result[2].x * scale_x,
+                .br_y = sorted_result[2].y * scale_y,
+                .bl_x = sorted_result[3].x * scale_x,
+                .bl_y = sorted_result[3].y * scale_y};
   }
 
   free(sorted_result);
-- 
2.43.0


From 227f3252db29512c516da02ea28d315274578f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 19/46] fix: corner detection ended the process, leaked the
 segmentation and missed failures

---
 src/corner_detection.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ae26100..c1929ca 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -147,7 +147,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +168,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +177,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +208,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +225,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -242,13 +242,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   );
   free((void *)bordered_elevation_map);
   free((void *)markers);
+  if (!segmented_image_wide) {
+    fprintf(stderr, "Error: Failed to segment image\n");
+    return default_corners;
+  }
 
   // Remove 1 pixel border from segmented image
   uint8_t *segmented_image = malloc(out_width * out_height * 4);
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -257,6 +261,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       out_width * 4
     );
   }
+  free(segmented_image_wide);
 
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
@@ -271,7 +276,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -284,6 +289,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     "00FF00"  // green -> black
   );
   free((void *)segmented_image);
+  if (!segmented_binary) {
+    fprintf(stderr, "Error: Failed to convert regions to binary image\n");
+    return default_corners;
+  }
 
 #ifdef DEBUG_LOGGING
   out_img.data = segmented_binary;
@@ -301,7 +310,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -319,7 +328,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -327,7 +336,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -381,7 +390,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Without a document use the whole image
-- 
2.43.0


From eb7767efdb601f3222abe2de99269cbdac46d4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 20/46] fix: corner detection and extraction reported success
 when memory ran out or the image was empty

---
 src/corner_detection.c | 96 +++++++++++++++++++++++++++++-------------
 src/extract_document.c | 16 ++++++-
 2 files changed, 81 insertions(+), 31 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index c1929ca..bbfca3e 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <math.h>
+#include <stdbool.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -107,14 +108,22 @@ void write_debug_img(Image img, const char *filename) {
 
 /**
  * Detect corners in the input image.
+ * Returns false if it failed, e.g. because of missing memory.
+ * The corners are then those of the image itself.
  */
-Corners
-fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
+static bool detect_corners(
+  const uint8_t *image,
+  int32_t width,
+  int32_t height,
+  Corners *corners
+) {
+  if (!image || width <= 0 || height <= 0) {
+    *corners = (Corners){0, 0, 0, 0, 0, 0, 0, 0};
+    return false;
+  }
 
-  Corners default_corners = {
+  // Without a document use the whole image
+  *corners = (Corners){
     .tl_x = 0,
     .tl_y = 0,
     .tr_x = width - 1,
@@ -129,7 +138,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   uint8_t const *grayscale_image = fcv_grayscale(width, height, image);
   if (!grayscale_image) {
     fprintf(stderr, "Error: Failed to convert image to grayscale\n");
-    return default_corners;
+    return false;
   }
 
   // 2. Resize image to 256x256
@@ -147,7 +156,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    return default_corners;
+    return false;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +177,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    return default_corners;
+    return false;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +186,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    return default_corners;
+    return false;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +217,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    return default_corners;
+    return false;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +234,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    return default_corners;
+    return false;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -244,7 +253,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)markers);
   if (!segmented_image_wide) {
     fprintf(stderr, "Error: Failed to segment image\n");
-    return default_corners;
+    return false;
   }
 
   // Remove 1 pixel border from segmented image
@@ -252,7 +261,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    return default_corners;
+    return false;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -276,7 +285,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    return default_corners;
+    return region_count >= 0;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -291,7 +300,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_image);
   if (!segmented_binary) {
     fprintf(stderr, "Error: Failed to convert regions to binary image\n");
-    return default_corners;
+    return false;
   }
 
 #ifdef DEBUG_LOGGING
@@ -310,7 +319,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    return default_corners;
+    return false;
   }
 
 #ifdef DEBUG_LOGGING
@@ -328,7 +337,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    return default_corners;
+    return false;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -336,7 +345,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    return default_corners;
+    return false;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -390,21 +399,25 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    return default_corners;
+    return false;
   }
 
-  // Without a document use the whole image
   if (peaks->count < 3) {
     free(peaks->points);
     free(peaks);
-    return default_corners;
+    return true;
   }
 
   // First, sort all corners to get them in clockwise order
   // (a fourth corner is added if there are only three)
   Point2D *sorted_result =
     malloc((peaks->count < 4 ? 4 : peaks->count) * sizeof(Point2D));
-  sort_corners(
+  if (!sorted_result) {
+    free(peaks->points);
+    free(peaks);
+    return false;
+  }
+  Corners sorted_corners = sort_corners(
     width,
     height,
     out_width,
@@ -413,13 +426,18 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     peaks->count,
     sorted_result
   );
+  if (sorted_corners.br_x == 0 && sorted_corners.br_y == 0) {
+    fprintf(stderr, "Error: Failed to sort corners\n");
+    free(sorted_result);
+    free(peaks->points);
+    free(peaks);
+    return false;
+  }
 
   // Scale corners back to original image dimensions
   double scale_x = (double)width / out_width;
   double scale_y = (double)height / out_height;
 
-  Corners sorted_corners;
-
   if (peaks->count > 4) {
     // Calculate angles for each corner using cross product method
     double *angles = malloc(peaks->count * sizeof(double));
@@ -428,6 +446,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for angles\n");
+      free(angles);
+      free(angle_indices);
+      free(sorted_result);
+      free(peaks->points);
+      free(peaks);
+      return false;
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
@@ -621,19 +648,30 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 
   free(peaks->points);
   free(peaks);
-  return sorted_corners;
+  *corners = sorted_corners;
+  return true;
+}
+
+/**
+ * Detect corners in the input image.
+ */
+Corners
+fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
+  Corners corners;
+  detect_corners(image, width, height, &corners);
+  return corners;
 }
 
 /**
  * Wrapper function that allocates corners on heap for FFI.
+ * Returns NULL if the detection failed.
  */
 Corners *
 fcv_detect_corners_ptr(const uint8_t *image, int32_t width, int32_t height) {
-  Corners corners = fcv_detect_corners(image, width, height);
   Corners *result = malloc(sizeof(Corners));
-  if (result == NULL) {
+  if (result && !detect_corners(image, width, height, result)) {
+    free(result);
     return NULL;
   }
-  *result = corners;
   return result;
 }
diff --git a/src/extract_document.c b/src/extract_document.c
index 1e1a967..08fe1df 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -22,7 +22,13 @@ uint8_t *fcv_extract_document(
   }
 
   // Step 1: Detect corners of the document
-  Corners detected_corners = fcv_detect_corners(data, width, height);
+  Corners *corners = fcv_detect_corners_ptr(data, width, height);
+  if (!corners) {
+    fprintf(stderr, "Error: Failed to detect corners\n");
+    return NULL;
+  }
+  Corners detected_corners = *corners;
+  free(corners);
 
   // Step 2: Define destination corners (rectangular output)
   Corners dst_corners = {
@@ -74,7 +80,13 @@ uint8_t *fcv_extract_document_auto(
   }
 
   // Step 1: Detect corners of the document
-  Corners detected_corners = fcv_detect_corners(data, width, height);
+  Corners *corners = fcv_detect_corners_ptr(data, width, height);
+  if (!corners) {
+    fprintf(stderr, "Error: Failed to detect corners\n");
+    return NULL;
+  }
+  Corners detected_corners = *corners;
+  free(corners);
 
   // Step 2: Calculate optimal output dimensions based on detected corners
   // Calculate distances between corners to determine aspect ratio
-- 
2.43.0


From be596446995d9ce5e63541a0c8be1cab56a63c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 21/46] fix: invalid EXIF orientation values were returned to
 the caller

---
 src/exif.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif.c b/src/exif.c
index 50415a2..f08e54f 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -23,9 +23,9 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
     return 0;
   }
   if (is_little_endian) {
-    return (uint32_t)(buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24));
+    return buf[0] | (buf[1] << 8) | (buf[2] << 16) | ((uint32_t)buf[3] << 24);
   }
-  return (uint32_t)((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+  return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
 }
 
 int32_t fcv_get_exif_orientation(char const *filename) {
@@ -96,7 +96,7 @@ int32_t fcv_get_exif_orientation(char const *filename) {
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
           fclose(file);
-          return (int32_t)orientation;
+          return (orientation >= 1 && orientation <= 8) ? orientation : 1;
         }
         else {
           fseek(file, 4, SEEK_CUR); // Skip value/offset
-- 
2.43.0


From 0b99f4a2a9b7d9a06e9ed21018d775971000b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 22/46] fix: EXIF orientation was read from outside of its
 segment and not behind fill bytes

---
 src/exif.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/exif.c b/src/exif.c
index f08e54f..b82ef61 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -47,11 +47,21 @@ int32_t fcv_get_exif_orientation(char const *filename) {
       break;
     }
 
+    if (marker[1] == 0xFF) { // Fill byte in front of a marker
+      fseek(file, -1, SEEK_CUR);
+      continue;
+    }
+
     if (marker[1] == 0xD9 || marker[1] == 0xDA) { // EOI or SOS
       break;
     }
 
+    long segment_start = ftell(file);
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) {
+      break;
+    }
+    long segment_end = segment_start + size;
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
@@ -60,7 +70,7 @@ int32_t fcv_get_exif_orientation(char const *filename) {
       }
 
       if (memcmp(exif_header, "Exif\0\0", 6) != 0) {
-        fseek(file, size - 2 - 6, SEEK_CUR);
+        fseek(file, segment_end, SEEK_SET);
         continue;
       }
 
@@ -84,11 +94,18 @@ int32_t fcv_get_exif_orientation(char const *filename) {
 
       uint32_t ifd_offset = read_u32(file, is_little_endian);
 
-      fseek(file, tiff_start + ifd_offset, SEEK_SET);
+      long ifd_start = tiff_start + (long)ifd_offset;
+      if (ifd_offset > UINT16_MAX || ifd_start + 2 > segment_end) {
+        break;
+      }
+      fseek(file, ifd_start, SEEK_SET);
 
       uint16_t num_entries = read_u16(file, is_little_endian);
 
       for (uint16_t i = 0; i < num_entries; i++) {
+        if (ifd_start + 2 + 12L * (i + 1) > segment_end) {
+          break; // Entry is not part of the segment
+        }
         uint16_t tag = read_u16(file, is_little_endian);
         (void)read_u16(file, is_little_endian); // Skip type
         (void)read_u32(file, is_little_endian); // Skip count
@@ -105,7 +122,7 @@ int32_t fcv_get_exif_orientation(char const *filename) {
       break; // IFD0 done
     }
     else {
-      fseek(file, size - 2, SEEK_CUR);
+      fseek(file, segment_end, SEEK_SET);
     }
   }
 
-- 
2.43.0


From 3b65ab5ecb2c74a2804c6cce9470fba53b3011f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:13 +0000
Subject: [PATCH 23/46] fix: the CLI reported success if the output file could
 not be written

---
 src/cli.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..f186d20 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1507,6 +1507,50 @@ uint8_t *execute_pipeline(
   return current_data;
 }
 
+typedef struct {
+  FILE *file;
+  int32_t failed;
+} OutputFile;
+
+static void write_chunk(void *context, void *data, int size) {
+  OutputFile *output = context;
+  if (fwrite(data, 1, (size_t)size, output->file) != (size_t)size) {
+    output->failed = 1;
+  }
+}
+
+/**
+ * Save the image. The file writers of stb_image_write ignore write errors.
+ * Returns 1 on success, 0 on failure
+ */
+static int32_t save_image(
+  const char *path,
+  int32_t as_jpeg,
+  int32_t width,
+  int32_t height,
+  const uint8_t *data
+) {
+  OutputFile output = {fopen(path, "wb"), 0};
+  if (!output.file) {
+    return 0;
+  }
+
+  int32_t encoded =
+    as_jpeg
+      ? stbi_write_jpg_to_func(write_chunk, &output, width, height, 4, data, 90)
+      : stbi_write_png_to_func(
+          write_chunk,
+          &output,
+          width,
+          height,
+          4,
+          data,
+          width * 4
+        );
+
+  return fclose(output.file) == 0 && encoded && !output.failed;
+}
+
 int32_t main(int32_t argc, char *argv[]) {
   if (argc < 3) {
     print32_t_usage(argv[0]);
@@ -1626,8 +1670,7 @@ int32_t main(int32_t argc, char *argv[]) {
     int32_t write_result;
     const char *ext = strrchr(output_path, '.');
     if (ext && strcmp(ext, ".png") == 0) {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, 0, width, height, result_data);
     }
     else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0)) {
       if (pipeline_has_binarization(pipeline)) {
@@ -1638,12 +1681,10 @@ int32_t main(int32_t argc, char *argv[]) {
           "Please use PNG format instead.\n"
         );
       }
-      write_result =
-        stbi_write_jpg(output_path, width, height, 4, result_data, 90);
+      write_result = save_image(output_path, 1, width, height, result_data);
     }
     else {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, 0, width, height, result_data);
     }
 
     if (!write_result) {
-- 
2.43.0


From e670eb6f02f00d8eb67176e77fc3ac574614c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:37 +0000
Subject: [PATCH 24/46] fix: the CLI cut off marker lists after 63 characters

---
 src/cli.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index f186d20..cb04f2b 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -38,7 +38,7 @@ typedef struct {
   double param2;
   double param3;
   double param4;
-  char param_str[64]; // For string parameters like "50%" or "200x300"
+  char *param_str; // For string parameters like "50%" or "200x300"
   int32_t has_param;
   int32_t has_param2;
   int32_t has_param3;
@@ -156,6 +156,9 @@ Pipeline *create_pipeline(void) {
 
 void free_pipeline(Pipeline *p) {
   if (p) {
+    for (int32_t i = 0; i < p->count; i++) {
+      free(p->ops[i].param_str);
+    }
     free(p->ops);
     free(p);
   }
@@ -206,17 +209,9 @@ void add_operation(
   p->ops[p->count].param4 = param4;
   p->ops[p->count].has_param4 = has_param4;
 
-  if (has_string_param && param_str) {
-    strncpy(
-      p->ops[p->count].param_str,
-      param_str,
-      sizeof(p->ops[p->count].param_str) - 1
-    );
-    p->ops[p->count].param_str[sizeof(p->ops[p->count].param_str) - 1] = '\0';
-  }
-  else {
-    p->ops[p->count].param_str[0] = '\0';
-  }
+  // Marker lists can be arbitrarily long
+  p->ops[p->count].param_str =
+    strdup(has_string_param && param_str ? param_str : "");
   p->ops[p->count].has_string_param = has_string_param;
 
   p->count++;
-- 
2.43.0


From 6a630545a5b83e41a358dcba549e31ba2e7c64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:42 +0000
Subject: [PATCH 25/46] fix: the CLI misread the first of several quoted
 watershed markers

---
 src/cli.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index cb04f2b..09f1696 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -575,7 +575,14 @@ int32_t parse_pipeline(
         }
       }
       else if (strcmp(piece, "watershed") == 0) {
-        /* Watershed operation requires: x1×y1,x2×y2,... */
+        /* Watershed operation requires: x1×y1 x2×y2 ...
+         * (optionally quoted, e.g. as part of a quoted pipeline) */
+        size_t params_len = strlen(params_str);
+        if (params_len >= 2 && (*params_str == '\'' || *params_str == '"') &&
+            params_str[params_len - 1] == *params_str) {
+          params_str[params_len - 1] = '\0';
+          params_str++;
+        }
         add_operation(
           pipeline,
           piece,
-- 
2.43.0


From 25cad536d808443d1ba8a66144a31a14e40008c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 26/46] fix: the CLI truncated rotation angles to whole degrees

---
 src/cli.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 09f1696..469c492 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1221,9 +1221,9 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: rotate requires an angle parameter\n");
       return NULL;
     }
-    int angle = (int)param;
     // Normalize angle to 0-359 range
-    angle = ((angle % 360) + 360) % 360;
+    // (keeping its fraction, as e.g. 90.5 isn't a multiple of 90)
+    double angle = fmod(fmod(param, 360) + 360, 360);
     if (angle != 0 && angle != 90 && angle != 180 && angle != 270) {
       fprintf(stderr, "Error: rotate angle must be a multiple of 90\n");
       return NULL;
-- 
2.43.0


From 2b11a76f065c2dd8ee00c754feda4b7fca13a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:59 +0000
Subject: [PATCH 27/46] fix: the CLI took malformed numbers for 0 or ignored
 them

---
 src/cli.c | 166 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 132 insertions(+), 34 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 469c492..f86d8ad 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -241,6 +241,40 @@ char *skip_whitespace(char *str) {
   return str;
 }
 
+/**
+ * Parse a string that must consist of exactly one finite number
+ * Returns 1 on success, 0 on failure
+ */
+static int32_t parse_number(char *str, double *number) {
+  char *end_ptr;
+  str = trim_whitespace(str);
+  *number = strtod(str, &end_ptr);
+  if (end_ptr == str || *end_ptr != '\0' || !isfinite(*number)) {
+    fprintf(stderr, "Error: Invalid number '%s'\n", str);
+    return 0;
+  }
+  return 1;
+}
+
+/**
+ * Parse a number with an optional percent sign (e.g., "50%" or "50")
+ * Returns 1 on success, 0 on failure
+ */
+static int32_t parse_percentage(char *str, double *number) {
+  char *percent_sign = strrchr(str, '%');
+  if (percent_sign && percent_sign[1] == '\0') {
+    *percent_sign = '\0';
+  }
+  return parse_number(str, number);
+}
+
+/**
+ * Convert to a pixel count, or to an invalid one if it can't be represented
+ */
+static int32_t to_pixel_count(double number) {
+  return fabs(number) < INT32_MAX ? (int32_t)number : -1;
+}
+
 /**
  * Parse geometry string (e.g., "50x50+10+20")
  * Returns 1 on success, 0 on failure
@@ -386,8 +420,12 @@ int32_t parse_pipeline(
           char *space2 = strchr(params_str, ' ');
           if (space2) {
             *space2 = '\0';
-            double param1 = atof(trim_whitespace(params_str));
-            double param2 = atof(trim_whitespace(space2 + 1));
+            double param1, param2;
+            if (!parse_number(params_str, &param1) ||
+                !parse_number(space2 + 1, &param2)) {
+              free(combined);
+              return 0;
+            }
             add_operation(
               pipeline,
               piece,
@@ -404,7 +442,11 @@ int32_t parse_pipeline(
             );
           }
           else {
-            double param = atof(params_str);
+            double param;
+            if (!parse_number(params_str, &param)) {
+              free(combined);
+              return 0;
+            }
             add_operation(
               pipeline,
               piece,
@@ -432,7 +474,11 @@ int32_t parse_pipeline(
           char *space3 = strchr(remaining, ' ');
           if (space3) {
             *space3 = '\0';
-            double radius = atof(trim_whitespace(remaining));
+            double radius;
+            if (!parse_number(remaining, &radius)) {
+              free(combined);
+              return 0;
+            }
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
@@ -440,8 +486,13 @@ int32_t parse_pipeline(
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
-              double center_x = atof(trim_whitespace(pos_copy));
-              double center_y = atof(trim_whitespace(x_pos + 1));
+              double center_x, center_y;
+              if (!parse_number(pos_copy, &center_x) ||
+                  !parse_number(x_pos + 1, &center_y)) {
+                free(pos_copy);
+                free(combined);
+                return 0;
+              }
 
               // Store color in param_str, radius in param, x,y in param2,param3
               char combined_params[128];
@@ -508,7 +559,11 @@ int32_t parse_pipeline(
           char *space3 = strchr(remaining, ' ');
           if (space3) {
             *space3 = '\0';
-            double radius = atof(trim_whitespace(remaining));
+            double radius;
+            if (!parse_number(remaining, &radius)) {
+              free(combined);
+              return 0;
+            }
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
@@ -516,8 +571,13 @@ int32_t parse_pipeline(
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
-              double center_x = atof(trim_whitespace(pos_copy));
-              double center_y = atof(trim_whitespace(x_pos + 1));
+              double center_x, center_y;
+              if (!parse_number(pos_copy, &center_x) ||
+                  !parse_number(x_pos + 1, &center_y)) {
+                free(pos_copy);
+                free(combined);
+                return 0;
+              }
 
               // Store color in param_str, radius in param, x,y in param2,param3
               char combined_params[128];
@@ -639,16 +699,16 @@ int32_t parse_pipeline(
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
-          uint32_t out_width = (uint32_t)atoi(trim_whitespace(params_copy));
-          uint32_t out_height = (uint32_t)atoi(trim_whitespace(x_pos + 1));
-
-          if (out_width > 0 && out_height > 0) {
+          double out_width, out_height;
+          if (parse_number(params_copy, &out_width) &&
+              parse_number(x_pos + 1, &out_height) &&
+              to_pixel_count(out_width) > 0 && to_pixel_count(out_height) > 0) {
             add_operation(
               pipeline,
               piece,
-              (double)out_width,
+              out_width,
               1,
-              (double)out_height,
+              out_height,
               1,
               0.0,
               0,
@@ -690,9 +750,10 @@ int32_t parse_pipeline(
         if (space2) {
           *space2 = '\0';
           char *color = trim_whitespace(params_str);
-          double border_width = atof(trim_whitespace(space2 + 1));
+          double border_width;
 
-          if (border_width > 0) {
+          if (parse_number(space2 + 1, &border_width) &&
+              to_pixel_count(border_width) > 0) {
             add_operation(
               pipeline,
               piece,
@@ -727,6 +788,14 @@ int32_t parse_pipeline(
         /* Trim operation with optional threshold percentage */
         if (strchr(params_str, '%')) {
           /* Percentage format: 2% */
+          char *threshold_copy = strdup(params_str);
+          double threshold;
+          if (!parse_percentage(threshold_copy, &threshold)) {
+            free(threshold_copy);
+            free(combined);
+            return 0;
+          }
+          free(threshold_copy);
           add_operation(
             pipeline,
             piece,
@@ -744,7 +813,11 @@ int32_t parse_pipeline(
         }
         else {
           /* Numeric threshold (interpreted as percentage) */
-          double param = atof(params_str);
+          double param;
+          if (!parse_number(params_str, &param)) {
+            free(combined);
+            return 0;
+          }
           add_operation(
             pipeline,
             piece,
@@ -766,8 +839,12 @@ int32_t parse_pipeline(
         char *space2 = strchr(params_str, ' ');
         if (space2) {
           *space2 = '\0';
-          double param1 = atof(trim_whitespace(params_str));
-          double param2 = atof(trim_whitespace(space2 + 1));
+          double param1, param2;
+          if (!parse_number(params_str, &param1) ||
+              !parse_number(space2 + 1, &param2)) {
+            free(combined);
+            return 0;
+          }
           add_operation(
             pipeline,
             piece,
@@ -784,7 +861,11 @@ int32_t parse_pipeline(
           );
         }
         else {
-          double param = atof(params_str);
+          double param;
+          if (!parse_number(params_str, &param)) {
+            free(combined);
+            return 0;
+          }
           add_operation(
             pipeline,
             piece,
@@ -855,19 +936,33 @@ uint8_t *apply_operation(
 
         if (strchr(first_part, '%')) {
           // Percentage format: 50%x80%
-          resize_x = atof(first_part) / 100.0;
-          resize_y = strchr(second_part, '%') ? atof(second_part) / 100.0
-                                              : atof(second_part) / 100.0;
+          if (!parse_percentage(first_part, &resize_x) ||
+              !parse_percentage(second_part, &resize_y)) {
+            free(param_copy);
+            return NULL;
+          }
+          resize_x /= 100.0;
+          resize_y /= 100.0;
         }
         else {
           // Absolute size format: 200x300
-          resize_x = atof(first_part) / *width;
-          resize_y = atof(second_part) / *height;
+          if (!parse_number(first_part, &resize_x) ||
+              !parse_number(second_part, &resize_y)) {
+            free(param_copy);
+            return NULL;
+          }
+          resize_x /= *width;
+          resize_y /= *height;
         }
       }
       else if (strchr(param_copy, '%')) {
         // Uniform percentage format: 50%
-        resize_x = resize_y = atof(param_copy) / 100.0;
+        if (!parse_percentage(param_copy, &resize_x)) {
+          free(param_copy);
+          return NULL;
+        }
+        resize_x /= 100.0;
+        resize_y = resize_x;
       }
       else {
         fprintf(stderr, "Error: Invalid resize format '%s'\n", param_str);
@@ -1082,10 +1177,13 @@ uint8_t *apply_operation(
       char *x_pos = strchr(token, 'x');
       if (x_pos) {
         *x_pos = '\0';
-        markers[marker_idx].x = atof(trim_whitespace(token));
-        markers[marker_idx].y = atof(trim_whitespace(x_pos + 1));
-        marker_idx++;
       }
+      if (!x_pos || !parse_number(token, &markers[marker_idx].x) ||
+          !parse_number(x_pos + 1, &markers[marker_idx].y)) {
+        marker_idx = 0;
+        break;
+      }
+      marker_idx++;
       token = strtok(NULL, " ");
     }
 
@@ -1336,7 +1434,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *eroded =
-      fcv_binary_erosion_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_erosion_disk(grayscale_data, *width, *height, to_pixel_count(param));
     free(grayscale_data);
 
     if (!eroded) {
@@ -1362,7 +1460,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *dilated =
-      fcv_binary_dilation_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_dilation_disk(grayscale_data, *width, *height, to_pixel_count(param));
     free(grayscale_data);
 
     if (!dilated) {
@@ -1388,7 +1486,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *closed =
-      fcv_binary_closing_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_closing_disk(grayscale_data, *width, *height, to_pixel_count(param));
     free(grayscale_data);
 
     if (!closed) {
@@ -1414,7 +1512,7 @@ uint8_t *apply_operation(
     }
 
     uint8_t *opened =
-      fcv_binary_opening_disk(grayscale_data, *width, *height, (int32_t)param);
+      fcv_binary_opening_disk(grayscale_data, *width, *height, to_pixel_count(param));
     free(grayscale_data);
 
     if (!opened) {
-- 
2.43.0


From ce71326425dfd3e443b924fce1b694934ee58782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:08 +0000
Subject: [PATCH 28/46] fix: the CLI drew malformed colors as white

---
 src/cli.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index f86d8ad..be2b64e 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -268,6 +268,20 @@ static int32_t parse_percentage(char *str, double *number) {
   return parse_number(str, number);
 }
 
+/**
+ * Check for a color like "FF0000" or "#FF0000"
+ * (drawing functions would silently use white for everything else)
+ */
+static int32_t is_hex_color(const char *str) {
+  size_t start = *str == '#' ? 1 : 0;
+  if (strlen(str) != start + 6 ||
+      strspn(str + start, "0123456789abcdefABCDEF") != 6) {
+    fprintf(stderr, "Error: Invalid color '%s'\n", str);
+    return 0;
+  }
+  return 1;
+}
+
 /**
  * Convert to a pixel count, or to an invalid one if it can't be represented
  */
@@ -475,7 +489,7 @@ int32_t parse_pipeline(
           if (space3) {
             *space3 = '\0';
             double radius;
-            if (!parse_number(remaining, &radius)) {
+            if (!is_hex_color(color) || !parse_number(remaining, &radius)) {
               free(combined);
               return 0;
             }
@@ -560,7 +574,7 @@ int32_t parse_pipeline(
           if (space3) {
             *space3 = '\0';
             double radius;
-            if (!parse_number(remaining, &radius)) {
+            if (!is_hex_color(color) || !parse_number(remaining, &radius)) {
               free(combined);
               return 0;
             }
@@ -752,6 +766,10 @@ int32_t parse_pipeline(
           char *color = trim_whitespace(params_str);
           double border_width;
 
+          if (!is_hex_color(color)) {
+            free(combined);
+            return 0;
+          }
           if (parse_number(space2 + 1, &border_width) &&
               to_pixel_count(border_width) > 0) {
             add_operation(
-- 
2.43.0


From 6d2cc1dece48cf59b242c0aeba5fc32e219d07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:43 +0000
Subject: [PATCH 29/46] fix: the CLI crashed or went on with wrong results when
 memory ran out

---
 src/cli.c | 58 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index be2b64e..3b93510 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -6,6 +6,20 @@
 #include <string.h>
 #include <time.h>
 
+// Without memory there is nothing left to do for the CLI
+static void *check_memory(void *ptr) {
+  if (!ptr) {
+    fprintf(stderr, "Error: out of memory\n");
+    exit(1);
+  }
+  return ptr;
+}
+
+// stb_image_write only asserts that its buffers could be enlarged
+#define STBIW_MALLOC(size) check_memory(malloc(size))
+#define STBIW_REALLOC(ptr, size) check_memory(realloc(ptr, size))
+#define STBIW_FREE(ptr) free(ptr)
+
 #define STB_IMAGE_IMPLEMENTATION
 #include "stb_image.h"
 
@@ -147,10 +161,10 @@ void print32_t_usage(const char *program_name) {
 }
 
 Pipeline *create_pipeline(void) {
-  Pipeline *p = malloc(sizeof(Pipeline));
+  Pipeline *p = check_memory(malloc(sizeof(Pipeline)));
   p->capacity = 8;
   p->count = 0;
-  p->ops = malloc(sizeof(PipelineOp) * p->capacity);
+  p->ops = check_memory(malloc(sizeof(PipelineOp) * p->capacity));
   return p;
 }
 
@@ -191,7 +205,7 @@ void add_operation(
 ) {
   if (p->count >= p->capacity) {
     p->capacity *= 2;
-    p->ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
+    p->ops = check_memory(realloc(p->ops, sizeof(PipelineOp) * p->capacity));
   }
 
   strncpy(
@@ -211,7 +225,7 @@ void add_operation(
 
   // Marker lists can be arbitrarily long
   p->ops[p->count].param_str =
-    strdup(has_string_param && param_str ? param_str : "");
+    check_memory(strdup(has_string_param && param_str ? param_str : ""));
   p->ops[p->count].has_string_param = has_string_param;
 
   p->count++;
@@ -496,7 +510,7 @@ int32_t parse_pipeline(
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
-            char *pos_copy = strdup(position_str);
+            char *pos_copy = check_memory(strdup(position_str));
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -581,7 +595,7 @@ int32_t parse_pipeline(
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
-            char *pos_copy = strdup(position_str);
+            char *pos_copy = check_memory(strdup(position_str));
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -709,7 +723,7 @@ int32_t parse_pipeline(
       }
       else if (strcmp(piece, "extract_document_to") == 0) {
         // Parse output dimensions in format "widthxheight"
-        char *params_copy = strdup(params_str);
+        char *params_copy = check_memory(strdup(params_str));
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
@@ -806,7 +820,7 @@ int32_t parse_pipeline(
         /* Trim operation with optional threshold percentage */
         if (strchr(params_str, '%')) {
           /* Percentage format: 2% */
-          char *threshold_copy = strdup(params_str);
+          char *threshold_copy = check_memory(strdup(params_str));
           double threshold;
           if (!parse_percentage(threshold_copy, &threshold)) {
             free(threshold_copy);
@@ -943,7 +957,7 @@ uint8_t *apply_operation(
 
     if (has_string_param) {
       // Parse new resize formats: 50%, 50%x80%, 200x300
-      char *param_copy = strdup(param_str);
+      char *param_copy = check_memory(strdup(param_str));
       char *x_pos = strchr(param_copy, 'x');
 
       if (x_pos) {
@@ -1030,7 +1044,12 @@ uint8_t *apply_operation(
     return (uint8_t *)fcv_bw_smart(*width, *height, true, input_data);
   }
   else if (strcmp(operation, "detect_corners") == 0) {
-    Corners corners = fcv_detect_corners(input_data, *width, *height);
+    Corners *detected = fcv_detect_corners_ptr(input_data, *width, *height);
+    if (!detected) {
+      return NULL;
+    }
+    Corners corners = *detected;
+    free(detected);
     printf("  {\n");
     printf("    \"corners\": {\n");
     printf("      \"top_left\": [%.0f, %.0f],\n", corners.tl_x, corners.tl_y);
@@ -1052,7 +1071,12 @@ uint8_t *apply_operation(
     return result;
   }
   else if (strcmp(operation, "draw_corners") == 0) {
-    Corners cs = fcv_detect_corners(input_data, *width, *height);
+    Corners *detected = fcv_detect_corners_ptr(input_data, *width, *height);
+    if (!detected) {
+      return NULL;
+    }
+    Corners cs = *detected;
+    free(detected);
     printf("  Detected corners:\n");
     printf("    Top-left:     (%.0f, %.0f)\n", cs.tl_x, cs.tl_y);
     printf("    Top-right:    (%.0f, %.0f)\n", cs.tr_x, cs.tr_y);
@@ -1099,7 +1123,7 @@ uint8_t *apply_operation(
       return NULL;
     }
     // Parse color and coordinates from param_str
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_memory(strdup(param_str));
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1133,7 +1157,7 @@ uint8_t *apply_operation(
       return NULL;
     }
     // Parse color and coordinates from param_str
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_memory(strdup(param_str));
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1171,7 +1195,7 @@ uint8_t *apply_operation(
     }
 
     // Parse marker coordinates from param_str: "x1×y1 x2×y2 ..."
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_memory(strdup(param_str));
 
     // Count number of markers by counting spaces + 1
     int32_t num_markers = 1;
@@ -1756,10 +1780,8 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
-        stbi_image_free(image_data);
-        image_data = rotated_data;
-      }
+      stbi_image_free(image_data);
+      image_data = check_memory(rotated_data);
     }
   }
 
-- 
2.43.0


From f02a649ab194c7fa928fb7cad994cecc254670bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:14 +0000
Subject: [PATCH 30/46] fix: the CLI accepted partially read input files

---
 include/exif.h | 10 ++++++++++
 src/cli.c      | 25 ++++++++++++++++++++++---
 src/exif.c     | 21 ++++++++++++---------
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/include/exif.h b/include/exif.h
index 5b7c4f9..1b16ff0 100644
--- a/include/exif.h
+++ b/include/exif.h
@@ -3,6 +3,7 @@
 #endif
 
 #include <stdint.h>
+#include <stdio.h>
 
 /**
  * Get EXIF orientation from a JPEG file.
@@ -11,3 +12,12 @@
  * @return Orientation value (1-8), or 1 if not found or error.
  */
 int32_t fcv_get_exif_orientation(char const *filename);
+
+/**
+ * Get EXIF orientation from an opened JPEG file. In contrast to
+ * `fcv_get_exif_orientation`, read errors can be detected with `ferror`.
+ *
+ * @param file JPEG file, positioned at its start.
+ * @return Orientation value (1-8), or 1 if not found or error.
+ */
+int32_t fcv_read_exif_orientation(FILE *file);
diff --git a/src/cli.c b/src/cli.c
index 3b93510..5216d2d 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1729,10 +1729,19 @@ int32_t main(int32_t argc, char *argv[]) {
   }
 
   int32_t width, height, channels;
-  uint8_t *image_data = stbi_load(input_path, &width, &height, &channels, 4);
+  uint8_t *image_data = NULL;
+  FILE *input_file = fopen(input_path, "rb");
+  if (input_file) {
+    image_data = stbi_load_from_file(input_file, &width, &height, &channels, 4);
+  }
 
-  if (!image_data) {
+  // JPEGs are also decoded if their end is missing, e.g. due to a read error
+  if (!image_data || ferror(input_file)) {
     fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
+    stbi_image_free(image_data);
+    if (input_file) {
+      fclose(input_file);
+    }
     free_pipeline(pipeline);
     return 1;
   }
@@ -1741,7 +1750,15 @@ int32_t main(int32_t argc, char *argv[]) {
   const char *ext_in = strrchr(input_path, '.');
   if (ext_in && (strcmp(ext_in, ".jpg") == 0 || strcmp(ext_in, ".jpeg") == 0 ||
                  strcmp(ext_in, ".JPG") == 0 || strcmp(ext_in, ".JPEG") == 0)) {
-    int32_t orientation = fcv_get_exif_orientation(input_path);
+    rewind(input_file);
+    int32_t orientation = fcv_read_exif_orientation(input_file);
+    if (ferror(input_file)) {
+      fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
+      stbi_image_free(image_data);
+      fclose(input_file);
+      free_pipeline(pipeline);
+      return 1;
+    }
     if (orientation > 1 && orientation <= 8) {
       fprintf(stderr, "Applying EXIF orientation: %d\n", orientation);
       uint8_t *rotated_data = NULL;
@@ -1785,6 +1802,8 @@ int32_t main(int32_t argc, char *argv[]) {
     }
   }
 
+  fclose(input_file);
+
   fprintf(
     stderr,
     "Loaded image: %dx%d with %d channels\n",
diff --git a/src/exif.c b/src/exif.c
index b82ef61..b069826 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -28,16 +28,10 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
   return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
 }
 
-int32_t fcv_get_exif_orientation(char const *filename) {
-  FILE *file = fopen(filename, "rb");
-  if (!file) {
-    return 1;
-  }
-
+int32_t fcv_read_exif_orientation(FILE *file) {
   uint8_t header[2];
   if (fread(header, 1, 2, file) != 2 || header[0] != 0xFF ||
       header[1] != 0xD8) {
-    fclose(file);
     return 1;
   }
 
@@ -112,7 +106,6 @@ int32_t fcv_get_exif_orientation(char const *filename) {
 
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
-          fclose(file);
           return (orientation >= 1 && orientation <= 8) ? orientation : 1;
         }
         else {
@@ -126,6 +119,16 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
   }
 
-  fclose(file);
   return 1;
 }
+
+int32_t fcv_get_exif_orientation(char const *filename) {
+  FILE *file = fopen(filename, "rb");
+  if (!file) {
+    return 1;
+  }
+
+  int32_t orientation = fcv_read_exif_orientation(file);
+  fclose(file);
+  return orientation;
+}
-- 
2.43.0


From e95886c84a324865c73e5d8ae7d94066bac53bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:34 +0000
Subject: [PATCH 31/46] fix: the CLI reported success if detected corners could
 not be printed

---
 src/cli.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 5216d2d..0231cbe 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1868,5 +1868,11 @@ int32_t main(int32_t argc, char *argv[]) {
     free(result_data);
   }
   free_pipeline(pipeline);
+
+  // Detected corners
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "Error: Could not write to standard output\n");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 88dc8c46930dddbe7becdc2e3544f161d41d3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:23 +0000
Subject: [PATCH 32/46] fix: watershed converted far-away markers to integers
 out of range

---
 src/watershed_segmentation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 6f3fa4f..78c64bb 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -125,12 +125,10 @@ uint8_t *fcv_watershed_segmentation(
       return NULL;
     }
 
-    int32_t marker_x = (int32_t)markers[m].x;
-    int32_t marker_y = (int32_t)markers[m].y;
-
     // Check bounds - if any marker is invalid, fail the entire operation
-    if (marker_x < 0 || marker_x >= (int32_t)width || marker_y < 0 ||
-        marker_y >= (int32_t)height) {
+    // (before the conversion to int32_t, as it could be out of range)
+    if (markers[m].x <= -1 || markers[m].x >= width || markers[m].y <= -1 ||
+        markers[m].y >= height) {
       return NULL;
     }
   }
-- 
2.43.0


From 936ef3005e2fee5053505fc3a99f9242c29accd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:33 +0000
Subject: [PATCH 33/46] fix: morphology with a huge radius overflowed and did
 not end

---
 src/binary_closing_disk.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/binary_closing_disk.c b/src/binary_closing_disk.c
index 5e2fcbd..69e0723 100644
--- a/src/binary_closing_disk.c
+++ b/src/binary_closing_disk.c
@@ -45,12 +45,17 @@ uint8_t *fcv_binary_dilation_disk(
       // If current pixel is white (255), dilate it
       if (image_data[idx] == 255) {
         // Apply disk-shaped structuring element
-        for (int32_t dy = -radius; dy <= radius; dy++) {
-          for (int32_t dx = -radius; dx <= radius; dx++) {
+        // (limited to the image, as it could be arbitrarily large)
+        int32_t dy_min = radius < y ? -radius : -y;
+        int32_t dy_max = radius < height - y ? radius : height - y - 1;
+        int32_t dx_min = radius < x ? -radius : -x;
+        int32_t dx_max = radius < width - x ? radius : width - x - 1;
+        for (int32_t dy = dy_min; dy <= dy_max; dy++) {
+          for (int32_t dx = dx_min; dx <= dx_max; dx++) {
             // Check if point32_t is within disk (use slightly larger radius for
             // better connectivity)
             double r_eff = radius + 0.5;
-            if (dx * dx + dy * dy <= r_eff * r_eff) {
+            if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
               int32_t ny = y + dy;
               int32_t nx = x + dx;
 
@@ -102,12 +107,19 @@ static uint8_t *binary_erosion_disk_internal(
       // Check if structuring element fits entirely within white pixels
       bool can_erode = true;
 
-      for (int32_t dy = -radius; dy <= radius && can_erode; dy++) {
-        for (int32_t dx = -radius; dx <= radius && can_erode; dx++) {
+      // Its part beyond the pixels next to the image makes no difference
+      // (limited to them, as it could be arbitrarily large)
+      int32_t dy_min = radius <= y ? -radius : -y - 1;
+      int32_t dy_max = radius < height - y ? radius : height - y;
+      int32_t dx_min = radius <= x ? -radius : -x - 1;
+      int32_t dx_max = radius < width - x ? radius : width - x;
+
+      for (int32_t dy = dy_min; dy <= dy_max && can_erode; dy++) {
+        for (int32_t dx = dx_min; dx <= dx_max && can_erode; dx++) {
           // Check if point32_t is within disk (use slightly larger radius for
           // better connectivity)
           double r_eff = radius + 0.5;
-          if (dx * dx + dy * dy <= r_eff * r_eff) {
+          if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
             int32_t ny = y + dy;
             int32_t nx = x + dx;
 
-- 
2.43.0


From 0ae6335866f070515d9b2247951a0b0e4fd1d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:22 +0000
Subject: [PATCH 34/46] fix: EXIF orientation was ignored for other file
 extensions

---
 src/cli.c | 100 ++++++++++++++++++++++++++----------------------------
 1 file changed, 48 insertions(+), 52 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 0231cbe..def2fa8 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1746,60 +1746,56 @@ int32_t main(int32_t argc, char *argv[]) {
     return 1;
   }
 
-  // Handle EXIF orientation for JPEGs
-  const char *ext_in = strrchr(input_path, '.');
-  if (ext_in && (strcmp(ext_in, ".jpg") == 0 || strcmp(ext_in, ".jpeg") == 0 ||
-                 strcmp(ext_in, ".JPG") == 0 || strcmp(ext_in, ".JPEG") == 0)) {
-    rewind(input_file);
-    int32_t orientation = fcv_read_exif_orientation(input_file);
-    if (ferror(input_file)) {
-      fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
-      stbi_image_free(image_data);
-      fclose(input_file);
-      free_pipeline(pipeline);
-      return 1;
+  // Handle EXIF orientation for JPEGs, whatever their file extension is
+  rewind(input_file);
+  int32_t orientation = fcv_read_exif_orientation(input_file);
+  if (ferror(input_file)) {
+    fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
+    stbi_image_free(image_data);
+    fclose(input_file);
+    free_pipeline(pipeline);
+    return 1;
+  }
+  if (orientation > 1 && orientation <= 8) {
+    fprintf(stderr, "Applying EXIF orientation: %d\n", orientation);
+    uint8_t *rotated_data = NULL;
+    uint32_t old_width = (uint32_t)width;
+    uint32_t old_height = (uint32_t)height;
+
+    switch (orientation) {
+    case 2: // Flip Horizontal
+      rotated_data = fcv_flip_x(old_width, old_height, image_data);
+      break;
+    case 3: // 180 degrees
+      rotated_data = fcv_rotate_180(old_width, old_height, image_data);
+      break;
+    case 4: // Flip Vertical
+      rotated_data = fcv_flip_y(old_width, old_height, image_data);
+      break;
+    case 5: // Transpose
+      rotated_data = fcv_transpose(old_width, old_height, image_data);
+      width = (int32_t)old_height;
+      height = (int32_t)old_width;
+      break;
+    case 6: // 90 degrees CW
+      rotated_data = fcv_rotate_90_cw(old_width, old_height, image_data);
+      width = (int32_t)old_height;
+      height = (int32_t)old_width;
+      break;
+    case 7: // Transverse
+      rotated_data = fcv_transverse(old_width, old_height, image_data);
+      width = (int32_t)old_height;
+      height = (int32_t)old_width;
+      break;
+    case 8: // 270 degrees CW
+      rotated_data = fcv_rotate_270_cw(old_width, old_height, image_data);
+      width = (int32_t)old_height;
+      height = (int32_t)old_width;
+      break;
     }
-    if (orientation > 1 && orientation <= 8) {
-      fprintf(stderr, "Applying EXIF orientation: %d\n", orientation);
-      uint8_t *rotated_data = NULL;
-      uint32_t old_width = (uint32_t)width;
-      uint32_t old_height = (uint32_t)height;
 
-      switch (orientation) {
-      case 2: // Flip Horizontal
-        rotated_data = fcv_flip_x(old_width, old_height, image_data);
-        break;
-      case 3: // 180 degrees
-        rotated_data = fcv_rotate_180(old_width, old_height, image_data);
-        break;
-      case 4: // Flip Vertical
-        rotated_data = fcv_flip_y(old_width, old_height, image_data);
-        break;
-      case 5: // Transpose
-        rotated_data = fcv_transpose(old_width, old_height, image_data);
-        width = (int32_t)old_height;
-        height = (int32_t)old_width;
-        break;
-      case 6: // 90 degrees CW
-        rotated_data = fcv_rotate_90_cw(old_width, old_height, image_data);
-        width = (int32_t)old_height;
-        height = (int32_t)old_width;
-        break;
-      case 7: // Transverse
-        rotated_data = fcv_transverse(old_width, old_height, image_data);
-        width = (int32_t)old_height;
-        height = (int32_t)old_width;
-        break;
-      case 8: // 270 degrees CW
-        rotated_data = fcv_rotate_270_cw(old_width, old_height, image_data);
-        width = (int32_t)old_height;
-        height = (int32_t)old_width;
-        break;
-      }
-
-      stbi_image_free(image_data);
-      image_data = check_memory(rotated_data);
-    }
+    stbi_image_free(image_data);
+    image_data = check_memory(rotated_data);
   }
 
   fclose(input_file);
-- 
2.43.0


From c1bf83a42d26326ab957fa87a432f9c9741ef51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:11 +0000
Subject: [PATCH 35/46] fix: the CLI ignored EXIF orientation if the input
 could not be rewound

---
 src/cli.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index def2fa8..dcf13bd 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <errno.h>
 #include <math.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -1747,9 +1748,11 @@ int32_t main(int32_t argc, char *argv[]) {
   }
 
   // Handle EXIF orientation for JPEGs, whatever their file extension is
-  rewind(input_file);
-  int32_t orientation = fcv_read_exif_orientation(input_file);
-  if (ferror(input_file)) {
+  // (pipes can't be read twice)
+  int32_t is_rewound = fseek(input_file, 0, SEEK_SET) == 0;
+  int32_t orientation =
+    is_rewound ? fcv_read_exif_orientation(input_file) : 1;
+  if ((!is_rewound && errno != ESPIPE) || ferror(input_file)) {
     fprintf(stderr, "Error: Could not load image '%s'\n", input_path);
     stbi_image_free(image_data);
     fclose(input_file);
-- 
2.43.0


From 21c87d4388a635fa819bddc6288db306a1192fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:39 +0000
Subject: [PATCH 36/46] fix: foerstnerCorner (Haskell) returned a vector beyond
 the C buffer

---
 bindings/flatcv-hs/src/FlatCV.hs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index c62d8d1..8ff7c5d 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -351,9 +351,10 @@ sobelEdgeDetection width height channels input =
   withImageData input (\p -> Raw.fcv_sobel_edge_detection width height channels p) (width * height * channels)
 
 -- | Foerstner corner detection with given sigma
+-- (output has 2 channels: corner size and roundness)
 foerstnerCorner :: Word32 -> Word32 -> Double -> V.Vector Word8 -> IO (V.Vector Word8)
 foerstnerCorner width height sigma input =
-  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 4)
+  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 2)
 
 --------------------------------------------------------------------------------
 -- Morphological operations
-- 
2.43.0


From 7b6ac028255f47d6f274124e8d69b08230ed583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:40 +0000
Subject: [PATCH 37/46] fix: watershedSegmentation (Haskell) leaked the markers
 if the call failed

---
 bindings/flatcv-hs/src/FlatCV.hs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index 8ff7c5d..4899166 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -148,8 +148,8 @@ import qualified Data.Vector.Storable.Mutable as MV
 import Foreign.C.String (withCString)
 import Foreign.C.Types (CUChar)
 import Foreign.ForeignPtr (newForeignPtr, FinalizerPtr, castForeignPtr)
-import Foreign.Marshal.Alloc (alloca, free, mallocBytes)
-import Foreign.Marshal.Array (pokeArray)
+import Foreign.Marshal.Alloc (alloca, free)
+import Foreign.Marshal.Array (withArrayLen)
 import Foreign.Ptr (Ptr, castPtr, nullPtr)
 import Foreign.Storable (Storable(..), peek, poke, sizeOf, alignment)
 import Text.Printf (printf)
@@ -599,16 +599,11 @@ generateHistogram width height channels input = do
 
 -- | Watershed segmentation with markers
 watershedSegmentation :: Word32 -> Word32 -> [Point2D] -> Bool -> V.Vector Word8 -> IO (V.Vector Word8)
-watershedSegmentation width height markers createBoundaries input = do
-  let numMarkers = fromIntegral $ length markers
-      markerSize = numMarkers * sizeOf (undefined :: Point2D)
-  markersPtr <- mallocBytes markerSize
-  pokeArray markersPtr markers
-  result <- withImageData input
-    (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
-    (width * height * 4)
-  free markersPtr
-  return result
+watershedSegmentation width height markers createBoundaries input =
+  withArrayLen markers $ \numMarkers markersPtr ->
+    withImageData input
+      (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
+      (width * height * 4)
 
 --------------------------------------------------------------------------------
 -- EXIF
-- 
2.43.0


From 3eb83ee8ca2b0b7bec8858ea6517c428cba8f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 38/46] fix: drawing and detecting corners in images beyond 4
 GB crashed the CLI

Their sizes were computed with 32 bits.
---
 src/cli.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index dcf13bd..1fe0663 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1065,9 +1065,10 @@ uint8_t *apply_operation(
     printf("  }\n");
 
     // Return a copy of the input data without modification
-    uint8_t *result = malloc(*width * *height * 4);
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
+    uint8_t *result = malloc(img_length_byte);
     if (result) {
-      memcpy(result, input_data, *width * *height * 4);
+      memcpy(result, input_data, img_length_byte);
     }
     return result;
   }
@@ -1085,7 +1086,7 @@ uint8_t *apply_operation(
     printf("    Bottom-left:  (%.0f, %.0f)\n", cs.bl_x, cs.bl_y);
 
     // Create a copy of the input data and draw disks at detected corners
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       return NULL;
@@ -1130,7 +1131,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
@@ -1164,7 +1165,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)(*width) * (*height) * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
-- 
2.43.0


From e96e279c22ab38881b4cc730da14faf17aa377ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:58 +0000
Subject: [PATCH 39/46] fix: too large images were saved with truncated sizes
 or crashed the CLI

JPEG files of more than 65535 pixels per line got a wrong size in their
header, and images of more than 2 GB overflowed stb_image_write.
---
 src/cli.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 1fe0663..ae4a6b9 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1674,6 +1674,14 @@ static int32_t save_image(
   int32_t height,
   const uint8_t *data
 ) {
+  // JPEG stores sizes with 16 bits and stb_image_write uses 32 bit integers
+  if (width <= 0 || height <= 0 ||
+      (int64_t)height * ((int64_t)width * 4 + 1) > INT32_MAX ||
+      (as_jpeg && (width > 65535 || height > 65535))) {
+    fprintf(stderr, "Error: Image is too large for the output format\n");
+    return 0;
+  }
+
   OutputFile output = {fopen(path, "wb"), 0};
   if (!output.file) {
     return 0;
-- 
2.43.0


From ac22746b64766c3311d1dff63f4512d4df064a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 40/46] fix: grayscale, blur, Otsu and resize of images beyond
 4 GB left pixels unset or never ended

---
 src/conversion.c | 113 +++++++++++++++++++++++++----------------------
 1 file changed, 59 insertions(+), 54 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 6a36186..2a64346 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -54,8 +54,8 @@ fcv_grayscale(uint32_t width, uint32_t height, uint8_t const *const data) {
   }
 
   // Process each pixel row by row
-  for (uint32_t i = 0; i < width * height; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < num_pixels; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -110,7 +110,7 @@ uint8_t *fcv_grayscale_stretch(
     return NULL;
   }
   // Ignore 1.5625 % of the pixels
-  uint32_t num_pixels_to_ignore = img_length_px >> 6;
+  size_t num_pixels_to_ignore = img_length_px >> 6;
 
   uint8_t *gray_values = malloc(img_length_px);
   if (!gray_values) { // Memory allocation failed
@@ -119,8 +119,8 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Process each pixel row by row to get grayscale values
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -130,12 +130,12 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Use counting sort to find the 1.5625% darkest and brightest pixels
-  uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  size_t histogram[256] = {0};
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[gray_values[i]]++;
   }
 
-  uint32_t cumulative_count = 0;
+  size_t cumulative_count = 0;
   uint8_t min_val = 0;
   for (uint32_t i = 0; i < 256; i++) {
     cumulative_count += histogram[i];
@@ -161,7 +161,7 @@ uint8_t *fcv_grayscale_stretch(
 
   // Process each pixel row by row
   for (size_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -222,12 +222,12 @@ void fcv_apply_global_threshold(
  *
  */
 void apply_double_threshold(
-  uint32_t img_length_px,
+  size_t img_length_px,
   uint8_t *data,
   uint8_t lower_threshold,
   uint8_t upper_threshold
 ) {
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     if (data[i] < lower_threshold) {
       data[i] = 0;
     }
@@ -271,8 +271,8 @@ uint8_t *fcv_otsu_threshold_rgba(
   }
   size_t img_length_px = (size_t)width * height;
 
-  uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  size_t histogram[256] = {0};
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[grayscale_img[i]]++;
   }
 
@@ -326,7 +326,14 @@ uint8_t *fcv_otsu_threshold_rgba(
     );
   }
   else {
-    fcv_apply_global_threshold(img_length_px, grayscale_img, optimal_threshold);
+    // Row by row as the whole image can have more than 2^32 pixels
+    for (uint32_t y = 0; y < height; y++) {
+      fcv_apply_global_threshold(
+        width,
+        grayscale_img + (size_t)y * width,
+        optimal_threshold
+      );
+    }
   }
 
   uint8_t *monochrome_data =
@@ -418,13 +425,13 @@ uint8_t *fcv_apply_gaussian_blur(
       float weight_sum = 0.0;
 
       for (int32_t k = -radius; k <= radius; k++) {
-        int32_t x_offset = x + k;
-        if (x_offset < 0 || (uint32_t)x_offset >= width) {
+        int64_t x_offset = (int64_t)x + k;
+        if (x_offset < 0 || x_offset >= width) {
           continue;
         }
 
-        uint32_t img_index = y * width + x_offset;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y * width + x_offset;
+        size_t img_rgba_index = img_index * 4;
 
         // Bounds check for array access
         if (img_rgba_index + 2 >= img_length_px * 4) {
@@ -439,7 +446,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum;
       blurred_data[rgba_index + 1] = g_sum / weight_sum;
       blurred_data[rgba_index + 2] = b_sum / weight_sum;
@@ -468,13 +475,13 @@ uint8_t *fcv_apply_gaussian_blur(
       float weight_sum = 0.0;
 
       for (int32_t k = -radius; k <= radius; k++) {
-        int32_t y_offset = y + k;
-        if (y_offset < 0 || (uint32_t)y_offset >= height) {
+        int64_t y_offset = (int64_t)y + k;
+        if (y_offset < 0 || y_offset >= height) {
           continue;
         }
 
-        uint32_t img_index = y_offset * width + x;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y_offset * width + x;
+        size_t img_rgba_index = img_index * 4;
 
         float weight = kernel[k + (int32_t)radius];
         weight_sum += weight;
@@ -484,7 +491,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += temp_data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum;
       blurred_data[rgba_index + 1] = g_sum / weight_sum;
       blurred_data[rgba_index + 2] = b_sum / weight_sum;
@@ -564,8 +571,8 @@ uint8_t *fcv_bw_smart(
 
   // Subtract blurred image from the original image to get the high frequencies
   // and invert the high frequencies to get a white background.
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_idx = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_idx = i * 4;
     int32_t high_freq_val =
       127 + grayscale_data[rgba_idx] - blurred_data[rgba_idx];
 
@@ -668,6 +675,8 @@ uint8_t *fcv_resize(
 
   for (uint32_t out_y = 0; out_y < *out_height; out_y++) {
     for (uint32_t out_x = 0; out_x < *out_width; out_x++) {
+      size_t out_idx = ((size_t)out_y * *out_width + out_x) * 4;
+
       if (resize_x < 1.0 || resize_y < 1.0) {
         // An axis which isn't shrunk must not be shifted, as the window
         // would leave the image or cover the wrong pixels
@@ -682,10 +691,10 @@ uint8_t *fcv_resize(
         double x_end = src_x + filter_size_x * 0.5;
         double y_end = src_y + filter_size_y * 0.5;
 
-        int32_t ix_start = (int32_t)floor(x_start);
-        int32_t iy_start = (int32_t)floor(y_start);
-        int32_t ix_end = (int32_t)ceil(x_end);
-        int32_t iy_end = (int32_t)ceil(y_end);
+        int64_t ix_start = (int64_t)floor(x_start);
+        int64_t iy_start = (int64_t)floor(y_start);
+        int64_t ix_end = (int64_t)ceil(x_end);
+        int64_t iy_end = (int64_t)ceil(y_end);
 
         if (ix_start < 0) {
           ix_start = 0;
@@ -693,18 +702,18 @@ uint8_t *fcv_resize(
         if (iy_start < 0) {
           iy_start = 0;
         }
-        if (ix_end > (int32_t)width) {
+        if (ix_end > width) {
           ix_end = width;
         }
-        if (iy_end > (int32_t)height) {
+        if (iy_end > height) {
           iy_end = height;
         }
 
         double r_sum = 0.0, g_sum = 0.0, b_sum = 0.0;
         double total_weight = 0.0;
 
-        for (int32_t sy = iy_start; sy < iy_end; sy++) {
-          for (int32_t sx = ix_start; sx < ix_end; sx++) {
+        for (int64_t sy = iy_start; sy < iy_end; sy++) {
+          for (int64_t sx = ix_start; sx < ix_end; sx++) {
             double left = sx;
             double right = sx + 1;
             double top = sy;
@@ -720,7 +729,7 @@ uint8_t *fcv_resize(
                 (overlap_right - overlap_left) * (overlap_bottom - overlap_top);
               total_weight += weight;
 
-              uint32_t src_idx = (sy * width + sx) * 4;
+              size_t src_idx = ((size_t)sy * width + sx) * 4;
               r_sum += data[src_idx] * weight;
               g_sum += data[src_idx + 1] * weight;
               b_sum += data[src_idx + 2] * weight;
@@ -729,28 +738,25 @@ uint8_t *fcv_resize(
         }
 
         if (total_weight > 0.0) {
-          resized_data[(out_y * *out_width + out_x) * 4] =
-            (uint8_t)(r_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] =
-            (uint8_t)(g_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] =
-            (uint8_t)(b_sum / total_weight + 0.5);
+          resized_data[out_idx] = (uint8_t)(r_sum / total_weight + 0.5);
+          resized_data[out_idx + 1] = (uint8_t)(g_sum / total_weight + 0.5);
+          resized_data[out_idx + 2] = (uint8_t)(b_sum / total_weight + 0.5);
         }
         else {
-          resized_data[(out_y * *out_width + out_x) * 4] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;
+          resized_data[out_idx] = 0;
+          resized_data[out_idx + 1] = 0;
+          resized_data[out_idx + 2] = 0;
         }
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[out_idx + 3] = 255;
       }
       else {
         double src_x = (out_x + 0.5) / resize_x - 0.5;
         double src_y = (out_y + 0.5) / resize_y - 0.5;
 
-        int32_t x0 = (int32_t)floor(src_x);
-        int32_t y0 = (int32_t)floor(src_y);
-        int32_t x1 = x0 + 1;
-        int32_t y1 = y0 + 1;
+        int64_t x0 = (int64_t)floor(src_x);
+        int64_t y0 = (int64_t)floor(src_y);
+        int64_t x1 = x0 + 1;
+        int64_t y1 = y0 + 1;
 
         if (x0 < 0) {
           x0 = 0;
@@ -758,10 +764,10 @@ uint8_t *fcv_resize(
         if (y0 < 0) {
           y0 = 0;
         }
-        if (x1 >= (int32_t)width) {
+        if (x1 >= width) {
           x1 = width - 1;
         }
-        if (y1 >= (int32_t)height) {
+        if (y1 >= height) {
           y1 = height - 1;
         }
 
@@ -791,11 +797,10 @@ uint8_t *fcv_resize(
                                 p01 * dx * (1 - dy) + p10 * (1 - dx) * dy +
                                 p11 * dx * dy;
 
-          resized_data[(out_y * *out_width + out_x) * 4 + c] =
-            (uint8_t)(interpolated + 0.5);
+          resized_data[out_idx + c] = (uint8_t)(interpolated + 0.5);
         }
 
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[out_idx + 3] = 255;
       }
     }
   }
-- 
2.43.0


From 9756d5f43a186dd446974a3c844c1e34a427f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 41/46] fix: corner response of images with 2^32 or more pixels
 wrote beyond its buffers

---
 src/foerstner_corner.c | 64 +++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index e66bedd..a987780 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,9 +27,15 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Check for overflow: width * height * sizeof(double)
+  if (width > SIZE_MAX / sizeof(double) / height) {
+    return NULL;
+  }
+  size_t img_length_px = (size_t)width * height;
+
   // Allocate memory for gradient images
-  double *grad_x = calloc(width * height, sizeof(double));
-  double *grad_y = calloc(width * height, sizeof(double));
+  double *grad_x = calloc(img_length_px, sizeof(double));
+  double *grad_y = calloc(img_length_px, sizeof(double));
 
   if (!grad_x || !grad_y) {
     free(grad_x);
@@ -40,25 +46,25 @@ uint8_t *fcv_foerstner_corner(
   // Compute image gradients using Sobel-like operators
   for (uint32_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // Sobel X kernel: [-1 0 1; -2 0 2; -1 0 1]
       double gx = 0.0;
-      gx += -1.0 * gray_data[(y - 1) * width + (x - 1)];
-      gx += 1.0 * gray_data[(y - 1) * width + (x + 1)];
-      gx += -2.0 * gray_data[y * width + (x - 1)];
-      gx += 2.0 * gray_data[y * width + (x + 1)];
-      gx += -1.0 * gray_data[(y + 1) * width + (x - 1)];
-      gx += 1.0 * gray_data[(y + 1) * width + (x + 1)];
+      gx += -1.0 * gray_data[(size_t)(y - 1) * width + (x - 1)];
+      gx += 1.0 * gray_data[(size_t)(y - 1) * width + (x + 1)];
+      gx += -2.0 * gray_data[(size_t)y * width + (x - 1)];
+      gx += 2.0 * gray_data[(size_t)y * width + (x + 1)];
+      gx += -1.0 * gray_data[(size_t)(y + 1) * width + (x - 1)];
+      gx += 1.0 * gray_data[(size_t)(y + 1) * width + (x + 1)];
 
       // Sobel Y kernel: [-1 -2 -1; 0 0 0; 1 2 1]
       double gy = 0.0;
-      gy += -1.0 * gray_data[(y - 1) * width + (x - 1)];
-      gy += -2.0 * gray_data[(y - 1) * width + x];
-      gy += -1.0 * gray_data[(y - 1) * width + (x + 1)];
-      gy += 1.0 * gray_data[(y + 1) * width + (x - 1)];
-      gy += 2.0 * gray_data[(y + 1) * width + x];
-      gy += 1.0 * gray_data[(y + 1) * width + (x + 1)];
+      gy += -1.0 * gray_data[(size_t)(y - 1) * width + (x - 1)];
+      gy += -2.0 * gray_data[(size_t)(y - 1) * width + x];
+      gy += -1.0 * gray_data[(size_t)(y - 1) * width + (x + 1)];
+      gy += 1.0 * gray_data[(size_t)(y + 1) * width + (x - 1)];
+      gy += 2.0 * gray_data[(size_t)(y + 1) * width + x];
+      gy += 1.0 * gray_data[(size_t)(y + 1) * width + (x + 1)];
 
       grad_x[idx] = gx / 8.0; // Normalize
       grad_y[idx] = gy / 8.0;
@@ -66,9 +72,9 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute gradient products for structure tensor
-  double *Axx = malloc(width * height * sizeof(double));
-  double *Axy = malloc(width * height * sizeof(double));
-  double *Ayy = malloc(width * height * sizeof(double));
+  double *Axx = malloc(img_length_px * sizeof(double));
+  double *Axy = malloc(img_length_px * sizeof(double));
+  double *Ayy = malloc(img_length_px * sizeof(double));
 
   if (!Axx || !Axy || !Ayy) {
     free(grad_x);
@@ -79,7 +85,7 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     Axx[i] = grad_x[i] * grad_x[i];
     Axy[i] = grad_x[i] * grad_y[i];
     Ayy[i] = grad_y[i] * grad_y[i];
@@ -95,9 +101,9 @@ uint8_t *fcv_foerstner_corner(
   }
   int32_t half_kernel = kernel_size / 2;
 
-  double *Axx_smooth = calloc(width * height, sizeof(double));
-  double *Axy_smooth = calloc(width * height, sizeof(double));
-  double *Ayy_smooth = calloc(width * height, sizeof(double));
+  double *Axx_smooth = calloc(img_length_px, sizeof(double));
+  double *Axy_smooth = calloc(img_length_px, sizeof(double));
+  double *Ayy_smooth = calloc(img_length_px, sizeof(double));
 
   if (!Axx_smooth || !Axy_smooth || !Ayy_smooth) {
     free(grad_x);
@@ -114,13 +120,13 @@ uint8_t *fcv_foerstner_corner(
   // Simple box filter smoothing
   for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
     for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
 
       for (int32_t ky = -half_kernel; ky <= half_kernel; ky++) {
         for (int32_t kx = -half_kernel; kx <= half_kernel; kx++) {
-          int32_t sample_idx = (y + ky) * width + (x + kx);
+          size_t sample_idx = (size_t)(y + ky) * width + (x + kx);
           sum_xx += Axx[sample_idx];
           sum_xy += Axy[sample_idx];
           sum_yy += Ayy[sample_idx];
@@ -135,7 +141,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute Foerstner measures w and q
-  uint8_t *result = malloc(width * height * 2); // 2 channels: w, q
+  uint8_t *result = malloc(img_length_px * 2); // 2 channels: w, q
   if (!result) {
     free(grad_x);
     free(grad_y);
@@ -149,8 +155,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   double max_w = 0.0, max_q = 0.0;
-  double *w_values = malloc(width * height * sizeof(double));
-  double *q_values = malloc(width * height * sizeof(double));
+  double *w_values = malloc(img_length_px * sizeof(double));
+  double *q_values = malloc(img_length_px * sizeof(double));
   if (!w_values || !q_values) {
     free(result);
     free(w_values);
@@ -167,7 +173,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // First pass: compute w and q values and find maximum for normalization
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     double det_A =
       Axx_smooth[i] * Ayy_smooth[i] - Axy_smooth[i] * Axy_smooth[i];
     double trace_A = Axx_smooth[i] + Ayy_smooth[i];
@@ -192,7 +198,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Second pass: normalize and convert to bytes
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     uint8_t w_byte = 0, q_byte = 0;
 
     if (max_w > 0.0) {
-- 
2.43.0


From c60e84123538e2055c90ae033b6f9c9d98154d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 42/46] fix: morphology on images with more than 2^31 pixels
 accessed memory before them

---
 src/binary_closing_disk.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary_closing_disk.c b/src/binary_closing_disk.c
index 69e0723..03067f9 100644
--- a/src/binary_closing_disk.c
+++ b/src/binary_closing_disk.c
@@ -40,7 +40,7 @@ uint8_t *fcv_binary_dilation_disk(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // If current pixel is white (255), dilate it
       if (image_data[idx] == 255) {
@@ -61,7 +61,7 @@ uint8_t *fcv_binary_dilation_disk(
 
               // Check bounds
               if (ny >= 0 && ny < height && nx >= 0 && nx < width) {
-                int32_t nidx = ny * width + nx;
+                size_t nidx = (size_t)ny * width + nx;
                 result[nidx] = 255;
               }
             }
@@ -102,7 +102,7 @@ static uint8_t *binary_erosion_disk_internal(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // Check if structuring element fits entirely within white pixels
       bool can_erode = true;
@@ -132,7 +132,8 @@ static uint8_t *binary_erosion_disk_internal(
                 int32_t clamped_y =
                   ny < 0 ? 0 : (ny >= height ? height - 1 : ny);
                 int32_t clamped_x = nx < 0 ? 0 : (nx >= width ? width - 1 : nx);
-                neighbor_value = image_data[clamped_y * width + clamped_x];
+                neighbor_value =
+                  image_data[(size_t)clamped_y * width + clamped_x];
               }
               else {
                 // Default: treat out-of-bounds as black
@@ -140,7 +141,7 @@ static uint8_t *binary_erosion_disk_internal(
               }
             }
             else {
-              neighbor_value = image_data[ny * width + nx];
+              neighbor_value = image_data[(size_t)ny * width + nx];
             }
 
             if (neighbor_value != 255) {
-- 
2.43.0


From d49fd34c7417b7b98a9abc364493d442d387a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 43/46] fix: borders around images beyond 4 GB left most of the
 result unset

---
 src/draw.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 061d4db..489ab36 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -239,8 +239,9 @@ void fcv_draw_disk(
     return;
   }
 
-  // No part of the shape can be visible, and it would overflow an int32_t
-  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
+  // The coordinates of its points would overflow an int32_t
+  if (fabs(center_x) > INT32_MAX - INT32_MAX / 16 ||
+      fabs(center_y) > INT32_MAX - INT32_MAX / 16) {
     return;
   }
 
@@ -339,7 +340,7 @@ uint8_t *fcv_add_border(
   // Fill the entire output image with border color
   for (uint32_t y = 0; y < *output_height; y++) {
     for (uint32_t x = 0; x < *output_width; x++) {
-      uint32_t pixel_index = (y * *output_width + x) * channels;
+      size_t pixel_index = ((size_t)y * *output_width + x) * channels;
 
       if (channels == 1) {
         // Grayscale: use luminance formula
@@ -359,9 +360,10 @@ uint8_t *fcv_add_border(
   // Copy the original image into the center
   for (uint32_t y = 0; y < height; y++) {
     for (uint32_t x = 0; x < width; x++) {
-      uint32_t src_index = (y * width + x) * channels;
-      uint32_t dst_index =
-        ((y + border_width) * *output_width + (x + border_width)) * channels;
+      size_t src_index = ((size_t)y * width + x) * channels;
+      size_t dst_index =
+        ((size_t)(y + border_width) * *output_width + (x + border_width)) *
+        channels;
 
       for (uint32_t c = 0; c < channels; c++) {
         output_data[dst_index + c] = input_data[src_index + c];
-- 
2.43.0


From 5dc58a61c150c084cec4cf3fcf077fe69896d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 44/46] fix: circles and disks right of column 2^30 were not
 drawn

---
 src/draw.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 489ab36..9830d22 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -154,8 +154,9 @@ void fcv_draw_circle(
     return;
   }
 
-  // No part of the shape can be visible, and it would overflow an int32_t
-  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
+  // The coordinates of its points would overflow an int32_t
+  if (fabs(center_x) > INT32_MAX - INT32_MAX / 16 ||
+      fabs(center_y) > INT32_MAX - INT32_MAX / 16) {
     return;
   }
 
-- 
2.43.0


From ecbf128675eb72e17169774c2d8feac6fb7a7772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 45/46] fix: histogram counts wrapped around at 2^32 pixels

---
 src/histogram.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 60dce3f..2583bb8 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -73,10 +73,10 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Count histograms for each channel
-  uint32_t hist_r[256] = {0};
-  uint32_t hist_g[256] = {0};
-  uint32_t hist_b[256] = {0};
-  uint32_t hist_gray[256] = {0};
+  size_t hist_r[256] = {0};
+  size_t hist_g[256] = {0};
+  size_t hist_b[256] = {0};
+  size_t hist_gray[256] = {0};
 
   bool is_grayscale = (channels == 1);
   if (channels == 4) {
@@ -117,7 +117,7 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Find maximum count for scaling
-  uint32_t max_count = 0;
+  size_t max_count = 0;
   if (is_grayscale) {
     for (int i = 0; i < 256; i++) {
       if (hist_gray[i] > max_count) {
-- 
2.43.0


From 51f7a039c8b00c0d5b48b919cd5f99dd317cbdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 46/46] fix: corner peaks of responses with more than 2^31
 pixels were wrong

---
 src/corner_peaks.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/corner_peaks.c b/src/corner_peaks.c
index 1e2c43c..a4b3ed9 100644
--- a/src/corner_peaks.c
+++ b/src/corner_peaks.c
@@ -26,7 +26,7 @@ static bool is_local_maximum(
     return false;
   }
 
-  uint32_t center_idx = (y * width + x) * 2 + channel;
+  size_t center_idx = ((size_t)y * width + x) * 2 + channel;
   uint8_t center_val = data[center_idx];
 
   if (center_val == 0) {
@@ -39,7 +39,7 @@ static bool is_local_maximum(
         continue;
       }
 
-      uint32_t neighbor_idx = ((y + dy) * width + (x + dx)) * 2 + channel;
+      size_t neighbor_idx = ((size_t)(y + dy) * width + (x + dx)) * 2 + channel;
       if (data[neighbor_idx] > center_val) {
         return false;
       }
@@ -104,7 +104,7 @@ CornerPeaks *fcv_corner_peaks(
 
   for (uint32_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = (y * width + x) * 2;
+      size_t idx = ((size_t)y * width + x) * 2;
 
       // Convert normalized values (0-255) back to 0-1 range
       double w = data[idx] / 255.0;     // accuracy measure
@@ -146,10 +146,10 @@ CornerPeaks *fcv_corner_peaks(
       }
 
       if (euclidean_distance(candidates[i], candidates[j]) < min_distance) {
-        uint32_t i_idx =
-          ((uint32_t)candidates[i].y * width + (uint32_t)candidates[i].x) * 2;
-        uint32_t j_idx =
-          ((uint32_t)candidates[j].y * width + (uint32_t)candidates[j].x) * 2;
+        size_t i_idx =
+          ((size_t)candidates[i].y * width + (size_t)candidates[i].x) * 2;
+        size_t j_idx =
+          ((size_t)candidates[j].y * width + (size_t)candidates[j].x) * 2;
 
         if (data[i_idx] >= data[j_idx]) {
           rejected[j] = true;
-- 
2.43.0

