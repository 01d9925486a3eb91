From aa0969140395a830fb1a4444cc330b32e28b904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:15 +0000
Subject: [PATCH 01/99] fix: release the array of spline lists with its lists

at_splines_free released every spline list and the result itself, but not
the array holding the lists, so each traced image leaked it.
---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From f9bd851402026699aa234d715e8bab94338dc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:15 +0000
Subject: [PATCH 02/99] fix: count the background when choosing the reduced
 palette

The palette was chosen from the non-background pixels only, yet every pixel
sharing the palette entry nearest to the background is then painted with the
background.  A black drawing on a white background reduced to two colours
had only black in its palette, so the drawing became background and vanished.
An image holding nothing but background had an empty histogram and died with
a division by zero.
---
 src/median.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..ac2bfa7 100644
--- a/src/median.c
+++ b/src/median.c
@@ -841,7 +841,7 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
   if (iQuant) {
     if (*iQuant == NULL) {
       quantobj = initialize_median_cut(ncolors);
-      median_cut_pass1_rgb(quantobj, image, bgColor);
+      median_cut_pass1_rgb(quantobj, image, NULL);
       *iQuant = quantobj;
     } else
       quantobj = *iQuant;
-- 
2.43.0


From dad6753d1b40881ecc07970dbec7d1d1a2ead014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:15 +0000
Subject: [PATCH 03/99] fix: limit colour reduction to the size of the palette

Asking for more than 256 colours wrote past the end of the colour map.
---
 src/median.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/median.c b/src/median.c
index ac2bfa7..00895ec 100644
--- a/src/median.c
+++ b/src/median.c
@@ -837,6 +837,10 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
     return;
   }
 
+  /* The palette has room for this many colors. */
+  if (ncolors > MAXNUMCOLORS)
+    ncolors = MAXNUMCOLORS;
+
   /* If a pointer was sent in, let's use it. */
   if (iQuant) {
     if (*iQuant == NULL) {
-- 
2.43.0


From a982d57a2c381b71aabe1828263f99da093517b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:14 +0000
Subject: [PATCH 04/99] fix: release the pixel outlines when tracing is
 cancelled after finding them

A cancellation noticed between finding the outlines and fitting them skipped
the code that releases the outlines.
---
 src/autotrace.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..0ce60e9 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -247,7 +247,6 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
 #define FATALP  (at_exception_got_fatal(&exp))
 #define FREE_SPLINE() do {if (splines) {at_splines_free(splines); splines = NULL;}} while(0)
 
-#define CANCEL_THEN_CLEANUP_DIST() if (CANCELP) goto cleanup_dist;
 #define CANCEL_THEN_CLEANUP_PIXELS() if (CANCELP) {FREE_SPLINE(); goto cleanup_pixels;}
 
 #define FATAL_THEN_RETURN() if (FATALP) return splines;
@@ -294,7 +293,7 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
@@ -313,7 +312,6 @@ cleanup_dist:
 #undef CANCELP
 #undef FATALP
 #undef FREE_SPLINE
-#undef CANCEL_THEN_CLEANUP_DIST
 #undef CANCEL_THEN_CLEANUP_PIXELS
 
 #undef FATAL_THEN_RETURN
-- 
2.43.0


From 681de204bfd70840274b6fd70e1a3554b711748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:14 +0000
Subject: [PATCH 05/99] fix: a cancelled trace returns no result

The answer of the cancel test was forgotten between the stages.  A client
that answered yes once got an empty or half-fitted result instead of NULL.
---
 src/autotrace.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index 0ce60e9..68830cb 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -229,6 +229,23 @@ at_splines_type *at_splines_new(at_bitmap * bitmap, at_fitting_opts_type * opts,
   return at_splines_new_full(bitmap, opts, msg_func, msg_data, NULL, NULL, NULL, NULL);
 }
 
+/* Once the client has asked to cancel, the request stands: the stages
+   below see it again without asking the client a second time. */
+typedef struct {
+  at_testcancel_func func;
+  void *data;
+  bool canceled;
+} cancel_state;
+
+static bool test_cancel_state(void *client_data)
+{
+  cancel_state *state = (cancel_state *) client_data;
+
+  if (!state->canceled)
+    state->canceled = state->func(state->data);
+  return state->canceled;
+}
+
 /* at_splines_new_full modify its argument: BITMAP
    when despeckle, quantize and/or thin_image are invoked. */
 at_splines_type *
@@ -242,6 +259,12 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   QuantizeObj *myQuant = NULL;  /* curently not used */
   at_exception_type exp = at_exception_new(msg_func, msg_data);
   at_distance_map dist_map, *dist = NULL;
+  cancel_state state = { test_cancel, testcancel_data, false };
+
+  if (test_cancel) {
+    test_cancel = test_cancel_state;
+    testcancel_data = &state;
+  }
 
 #define CANCELP (test_cancel && test_cancel(testcancel_data))
 #define FATALP  (at_exception_got_fatal(&exp))
-- 
2.43.0


From 8d636a188258f3a294200a8d2bb1065d6d32a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:14 +0000
Subject: [PATCH 06/99] fix: progress does not step back between the stages

The stages start at one third and two thirds; with 0.333 and 0.666 the
reported progress decreased for images of more than a thousand pixels.
---
 src/curve.c | 2 +-
 src/fit.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve.c b/src/curve.c
index 7828c6a..2f3b131 100644
--- a/src/curve.c
+++ b/src/curve.c
@@ -224,7 +224,7 @@ void free_curve_list_array(curve_list_array_type *curve_list_array, at_progress_
 
   for (this_list = 0; this_list < CURVE_LIST_ARRAY_LENGTH(*curve_list_array); this_list++) {
     if (notify_progress)
-      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 0.666,
+      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) (2.0 / 3.0),
                       client_data);
     free_curve_list(&CURVE_LIST_ARRAY_ELT(*curve_list_array, this_list));
   }
diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..91054a3 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -141,7 +141,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     curve_list_type curves = CURVE_LIST_ARRAY_ELT(curve_array, this_list);
 
     if (notify_progress)
-      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
+      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) (1.0 / 3.0)), progress_data);
     if (test_cancel && test_cancel(testcancel_data))
       goto cleanup;
 
-- 
2.43.0


From 88a7e3357ae08cd11e81ca965461821a0e0d76e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:14 +0000
Subject: [PATCH 07/99] fix: a warning does not hide an earlier fatal error

---
 src/exception.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exception.c b/src/exception.c
index eb05cd9..6dd8652 100644
--- a/src/exception.c
+++ b/src/exception.c
@@ -31,7 +31,8 @@ void at_exception_warning(at_exception_type *exception, const char *message)
 {
   if (!exception)
     return;
-  exception->msg_type = AT_MSG_WARNING;
+  if (exception->msg_type != AT_MSG_FATAL)
+    exception->msg_type = AT_MSG_WARNING;
   if (exception->client_func) {
     exception->client_func(message, AT_MSG_WARNING, exception->client_data);
   }
-- 
2.43.0


From 64cdd2d2a0d22e3e0f496d6f52f2a157d74a1ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:14 +0000
Subject: [PATCH 08/99] fix: thinning without a background colour always uses
 white

The background of an earlier call was kept, so the result of thinning
depended on what the process had thinned before.
---
 src/thin-image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..41de529 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -99,7 +99,7 @@ static unsigned char todelete[512] = {
   1, 0, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1
 };
 
-static at_color background = { 0xff, 0xff, 0xff };
+static at_color background;
 
 void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 {
@@ -114,6 +114,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 
   if (bg)
     background = *bg;
+  else
+    at_color_set(&background, 0xff, 0xff, 0xff);
 
   bm.height = image->height;
   bm.width = image->width;
-- 
2.43.0


From c73af7243dc6c566cec68d7dc617ee21e6399e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:58 +0000
Subject: [PATCH 09/99] fix: release the background colour of a failed fit only
 once

The caller releases the whole spline array after a fatal error, including the
background colour that was already released here.
---
 src/fit.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 91054a3..2985bef 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -148,11 +148,8 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     LOG("\nFitting curve list #%u:\n", this_list);
 
     curve_list_splines = fit_curve_list(curves, fitting_opts, dist, exception);
-    if (at_exception_got_fatal(exception)) {
-      if (char_splines.background_color)
-        at_color_free(char_splines.background_color);
+    if (at_exception_got_fatal(exception))
       goto cleanup;
-    }
     curve_list_splines.clockwise = curves.clockwise;
 
     memcpy(&(curve_list_splines.color), &(O_LIST_OUTLINE(pixel_outline_list, this_list).color), sizeof(at_color));
-- 
2.43.0


From 23dae5c9b9ed678cf8071f1e526603448bc196b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:58 +0000
Subject: [PATCH 10/99] fix: accept a perfect fit whatever the error threshold

With an error threshold of zero a curve that was fitted without any error was
subdivided at the sentinel index, outside the curve.
---
 src/fit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index 2985bef..601435d 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -941,7 +941,9 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
   spline = best_spline;
   error = best_error;
 
-  if (error < fitting_opts->error_threshold && CURVE_CYCLIC(curve) == false) {
+  /* A fit without any error leaves no worst point to subdivide at.  */
+  if ((error < fitting_opts->error_threshold && CURVE_CYCLIC(curve) == false)
+      || worst_point > CURVE_LENGTH(curve)) {
     /* The points were fitted with a
        spline.  We end up here whenever a fit is accepted.  We have
        one more job: see if the ``curve'' that was fit should really
-- 
2.43.0


From dbbeea8879c7434ad26f79507517787927fa2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:08 +0000
Subject: [PATCH 11/99] fix: do not read beyond the right and bottom edge when
 following centre lines

---
 src/pxl-outline.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..473ad37 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -218,13 +218,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0)
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+	return false;	// Must not call at_bitmap_get_color() outside the bitmap.
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
-                  && at_bitmap_equal_color(bitmap, row, col, &c)));
+                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
 pixel_outline_list_type
-- 
2.43.0


From 73ac68ae879eb9ba61371b34310fc4791ac17db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:29 +0000
Subject: [PATCH 12/99] fix: follow centre lines in the top row and the left
 column

Steps into row 0 or column 0 were never taken, so strokes along these edges
were lost.
---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 473ad37..74e3942 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -224,7 +224,7 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && at_bitmap_equal_color(bitmap, row, col, &c)));
+                  && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
 pixel_outline_list_type
-- 
2.43.0


From 8ada286594bb94bf877ddc9fd39ddefff0c3aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:16 +0000
Subject: [PATCH 13/99] fix: despeckle images of more than 32767 pixels width
 or height

The size was kept in a signed short, so such images were not despeckled
at all (or only by accident of the product of both).
---
 src/despeckle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..d59da60 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -681,7 +681,7 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
                /* exception handling */ at_exception_type * excep)
 {
   int i, planes, max_level;
-  short width, height;
+  int width, height;
   unsigned char *bits;
   double noise_max, adaptive_tightness;
 
-- 
2.43.0


From f78ecc27a7b020c161c663785c650fc593963c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:16 +0000
Subject: [PATCH 14/99] fix: follow centre lines beyond row and column 32767

The scan position was a signed short. In larger images it wrapped round
to negative values and memory before the bitmap was read.
---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 74e3942..e55bce3 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -232,7 +232,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From ce641de89082d0861a94f32e46c90312ef2468f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:39 +0000
Subject: [PATCH 15/99] fix: reducing the colours of an image without pixels
 divided by zero

---
 src/median.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/median.c b/src/median.c
index 00895ec..d640d3f 100644
--- a/src/median.c
+++ b/src/median.c
@@ -837,6 +837,10 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
     return;
   }
 
+  /* Without pixels there are no colors to choose from. */
+  if (AT_BITMAP_WIDTH(image) == 0 || AT_BITMAP_HEIGHT(image) == 0)
+    return;
+
   /* The palette has room for this many colors. */
   if (ncolors > MAXNUMCOLORS)
     ncolors = MAXNUMCOLORS;
-- 
2.43.0


From 447435dd37214f00b8c594998c7f3efa6c1d2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 16/99] fix: plain PNM files lost their last character or read
 stale bytes at the end

The buffered scanner flagged the end of the file together with the last
character, so a file without a trailing newline lost its last sample, and a
file ending exactly with the buffer delivered an old byte. A sample missing
at the end was taken from the previous token.
---
 src/input-pnm.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..a912890 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -243,16 +243,17 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
   for (i = 0; i < scanlines; i++)
     for (x = 0; x < info->xres; x++) {
       for (b = 0; b < np; b++) {
+        *buf = '\0';
+        if (info->np)
+          pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
+        else
+          pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
         /* Truncated files will just have all 0's at the end of the images */
-        if (pnmscanner_eof(scan)) {
+        if (!*buf) {
           LOG("pnm filter: premature end of file\n");
           at_exception_fatal(excep, "pnm filter: premature end of file");
           return;
         }
-        if (info->np)
-          pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
-        else
-          pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
         switch (info->maxval) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
@@ -411,14 +412,14 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
     }
+    if (s->inbufvalidsize > 0)
+      s->cur = s->inbuf[s->inbufpos++];
+    else
+      s->eof = 1;
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From 89d12b7f38038bb61959db858dad97ac5566dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 17/99] fix: PNM token buffer overflowed by one byte on long
 tokens

---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index a912890..9db48a3 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -387,7 +387,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr + 1 < bufsize)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
-- 
2.43.0


From a5903747e28a2aba308d45a3ea094b5991b68646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 18/99] fix: unknown PNM types were loaded through an
 uninitialised pointer

---
 src/input-pnm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 9db48a3..f300b6e 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -129,6 +129,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
 
   /* allocate the necessary structures */
   pnminfo = (PNMInfo *) malloc(sizeof(PNMInfo));
+  pnminfo->loader = NULL;
 
   scan = NULL;
   /* set error handling */
@@ -142,7 +143,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
   }
-  if (buf[0] != 'P' || buf[2]) {
+  if (buf[0] != 'P' || !buf[1] || buf[2]) {
     LOG("pnm filter: %s is not a valid file\n", filename);
     at_exception_fatal(&excep, "pnm filter: invalid file");
     goto cleanup;
-- 
2.43.0


From f0626c08a8d17e89bce04aafa2abe59535ec64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 19/99] fix: plain PGM and PPM files with maximum value 1 were
 inverted

---
 src/input-pnm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index f300b6e..3e4b16e 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -260,8 +260,11 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
           break;
         case 1:
-          d[b] = (*buf == '0') ? 0xff : 0x00;
-          break;
+          if (!info->np) {      /* bitmaps are black on white */
+            d[b] = (*buf == '0') ? 0xff : 0x00;
+            break;
+          }
+          /* fall through */
         default:
           d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
                                           / (double)(info->maxval)));
-- 
2.43.0


From 627b38171fc124684bbd08e1be84ea982d80a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 20/99] fix: PNM samples above the maximum value wrapped around

---
 src/input-pnm.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 3e4b16e..b005937 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -222,6 +222,14 @@ cleanup:
   return (bitmap);
 }
 
+/* A sample of a plain file, at most MAXVAL */
+static int pnm_sample(const char *buf, int maxval)
+{
+  long value = isdigit((unsigned char)*buf) ? strtol(buf, NULL, 10) : 0;
+
+  return value < maxval ? (int)value : maxval;
+}
+
 static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *data, at_exception_type * excep)
 {
   unsigned char *d;
@@ -257,7 +265,7 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
         }
         switch (info->maxval) {
         case 255:
-          d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
+          d[b] = (unsigned char)pnm_sample(buf, info->maxval);
           break;
         case 1:
           if (!info->np) {      /* bitmaps are black on white */
@@ -266,7 +274,7 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           }
           /* fall through */
         default:
-          d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
+          d[b] = (unsigned char)(255.0 * (((double)pnm_sample(buf, info->maxval))
                                           / (double)(info->maxval)));
         }
       }
@@ -298,7 +306,7 @@ static void pnm_load_raw(PNMScanner * scan, PNMInfo * info, unsigned char *data,
 
     if (info->maxval != 255) {  /* Normalize if needed */
       for (x = 0; x < info->xres * info->np; x++)
-        d[x] = (unsigned char)(255.0 * (double)(d[x]) / (double)(info->maxval));
+        d[x] = (unsigned char)(255.0 * (double)(d[x] < info->maxval ? d[x] : info->maxval) / (double)(info->maxval));
     }
 
     d += info->xres * info->np;
-- 
2.43.0


From 903ab2a015ba3d4141b136e1df07e08a44d90b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 21/99] fix: PNM files larger than 65535 pixels overran the
 bitmap

The size was cut to 16 bits for the allocation but not for loading.
---
 src/input-pnm.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index b005937..3b8efa0 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -35,6 +35,8 @@
 
 #include <math.h>
 #include <ctype.h>
+#include <limits.h>
+#include <stdlib.h>
 
 /* Declare local data types
  */
@@ -107,6 +109,14 @@ static struct struct_pnm_types {
   0, 0, 0, 0, NULL}
 };
 
+/* A number of the header, 0 unless it is between 1 and LIMIT */
+static int pnm_header_value(const char *buf, long limit)
+{
+  long value = isdigit((unsigned char)*buf) ? strtol(buf, NULL, 10) : 0;
+
+  return value <= limit ? (int)value : 0;
+}
+
 at_bitmap
 input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func, void *msg_data, void *user_data)
 {
@@ -169,7 +179,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
   }
-  pnminfo->xres = isdigit(*buf) ? atoi(buf) : 0;
+  pnminfo->xres = pnm_header_value(buf, USHRT_MAX);
   if (pnminfo->xres <= 0) {
     LOG("pnm filter: invalid xres while loading\n");
     at_exception_fatal(&excep, "pnm filter: premature end of file");
@@ -182,7 +192,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
   }
-  pnminfo->yres = isdigit(*buf) ? atoi(buf) : 0;
+  pnminfo->yres = pnm_header_value(buf, USHRT_MAX);
   if (pnminfo->yres <= 0) {
     LOG("pnm filter: invalid yres while loading\n");
     at_exception_fatal(&excep, "pnm filter: invalid yres while loading");
@@ -197,7 +207,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       goto cleanup;
     }
 
-    pnminfo->maxval = isdigit(*buf) ? atoi(buf) : 0;
+    pnminfo->maxval = pnm_header_value(buf, 65535);
     if ((pnminfo->maxval <= 0)
         || (pnminfo->maxval > 255 && !pnminfo->asciibody)) {
       LOG("pnm filter: invalid maxval while loading\n");
-- 
2.43.0


From 27dd5ce2e008e26cd9ccf94028b26e3af799162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:01 +0000
Subject: [PATCH 22/99] fix: bitmaps of more than 4 GB were allocated too small

---
 src/autotrace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index 68830cb..80980e8 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -154,7 +154,7 @@ at_bitmap *at_bitmap_copy(const at_bitmap * src)
   planes = at_bitmap_get_planes(src);
 
   dist = at_bitmap_new(width, height, planes);
-  memcpy(dist->bitmap, src->bitmap, width * height * planes * sizeof(unsigned char));
+  memcpy(dist->bitmap, src->bitmap, (size_t) width * height * planes * sizeof(unsigned char));
   return dist;
 }
 
@@ -165,10 +165,10 @@ at_bitmap at_bitmap_init(unsigned char *area, unsigned short width, unsigned sho
   if (area)
     bitmap.bitmap = area;
   else {
-    if (0 == (width * height))
+    if (width == 0 || height == 0)
       bitmap.bitmap = NULL;
     else
-      XCALLOC(bitmap.bitmap, width * height * planes * sizeof(unsigned char));
+      XCALLOC(bitmap.bitmap, (size_t) width * height * planes * sizeof(unsigned char));
   }
 
   bitmap.width = width;
-- 
2.43.0


From e3e170979f381dad2ef70a097ec25b9dade24538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 23/99] fix: BMP files with a palette were read as empty images

Reading the palette reported failure even when it had succeeded.
---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..d0971f9 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -492,6 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
+  return 1;
 cleanup:
   return 0;
 }
-- 
2.43.0


From ed8b33c0792580d7e2925cdfaf62d33a0568129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 24/99] fix: uninitialised grey flag and palette entries in the
 BMP reader

---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index d0971f9..6d7665c 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,8 +137,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[64];
-  int ColormapSize, rowbytes, Maps, Grey;
-  unsigned char ColorMap[256][3];
+  int ColormapSize, rowbytes, Maps, Grey = 0;
+  unsigned char ColorMap[256][3] = { { 0 } };
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
   at_exception_type exp = at_exception_new(msg_func, msg_data);
-- 
2.43.0


From 327c3aec58dfd19964f70e91cfd85c3a8031785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 25/99] fix: version 4 and 5 BMP headers overran the header
 buffer

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 6d7665c..d899794 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -136,7 +136,7 @@ static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, in
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
+  unsigned char buffer[124];    /* the largest header */
   int ColormapSize, rowbytes, Maps, Grey = 0;
   unsigned char ColorMap[256][3] = { { 0 } };
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
-- 
2.43.0


From cb6350dd4a05dac9f5933d16a3b648086b236505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 26/99] fix: BMP channel masks are 12 bytes, not 24

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index d899794..29ea672 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -259,7 +259,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 3 * 4))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
-- 
2.43.0


From d51d88931eb75031f2d40ce0408b2031b854d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 27/99] fix: BMP masks of extended headers only count for
 bit-field files

---
 src/input-bmp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 29ea672..b48cd93 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -313,7 +313,11 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  memset(masks, 0, sizeof(masks));
+	  if (Bitmap_Head.biCompr == BI_BITFIELDS)
+	    ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  else if (Bitmap_Head.biCompr == BI_RGB)
+	    setMasksDefault(Bitmap_Head.biBitCnt, masks);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
@@ -343,6 +347,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	Bitmap_Head.masks[3] = ToL(&buffer[0x30]);
 
 	Maps = 4;
+	memset(masks, 0, sizeof(masks));
 
 	if (Bitmap_Head.biCompr == BI_BITFIELDS)
 	{
-- 
2.43.0


From 373468ed0901ddf5d8ee436e886f3675b6a5e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 28/99] fix: BMP channel masks that are empty or 32 bits wide

An empty mask divided by zero and both shifted by more than the width of
the type.
---
 src/input-bmp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index b48cd93..82f914d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -531,8 +531,9 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		/* an absent channel is always zero */
+		masks[i].shiftin = nbits ? offset : 0;
+		masks[i].max_value = nbits ? (float)((1ULL << nbits) - 1) : (float)1.0;
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
-- 
2.43.0


From d83054dddf89fa4eecb4eab131e6567838fad37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 29/99] fix: BMP files with an alpha channel wrote outside the
 image

---
 src/input-bmp.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 82f914d..fbe161a 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -572,14 +572,8 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   if (bpp >= 16) /* color image */
     {
       XMALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
+	  /* an alpha channel is ignored */
+	  channels = 3;
   }
   else if (Grey) /* Grey image */
     {
-- 
2.43.0


From 7c57b2666aacdbb266145753081a8ff7a8270697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 30/99] fix: bytes after the pixels of a 24 bit BMP file were
 written before the image

---
 src/input-bmp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index fbe161a..9de7e6d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -632,6 +632,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
+
+          if (ypos == 0)
+            break;
+
           --ypos; /* next line */
         }
 	}
-- 
2.43.0


From 8d83e60eae1c89ea8ca0cd92013bb086856e2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 31/99] fix: run-length coded BMP files were decoded into a
 discarded buffer

---
 src/input-bmp.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9de7e6d..d38bd3e 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -550,7 +550,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   int xpos = 0;
   int ypos = 0;
   unsigned char * image;
-  unsigned char *dest, *temp, *row_buf;
+  unsigned char *temp, *row_buf;
   long rowstride, channels;
   unsigned short rgb;
   int i, i_max, j;
@@ -575,21 +575,15 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	  /* an alpha channel is ignored */
 	  channels = 3;
   }
-  else if (Grey) /* Grey image */
-    {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
-	  channels = 1;
-	}
-  else /* indexed image */
+  else /* Grey or indexed image */
 	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+	  /* use XCALLOC to initialize the image so that unspecified
+	     pixels in RLE bitmaps show up as the zeroth element in the palette.
+	  */
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
 
-  /* use XCALLOC to initialize the dest row_buf so that unspecified
-	 pixels in RLE bitmaps show up as the zeroth element in the palette.
-  */
-  XCALLOC(dest, width * height * channels);
   XMALLOC (row_buf, rowbytes); 
   rowstride = width * channels;
 
@@ -723,7 +717,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			             ((unsigned char) j < (unsigned char) row_buf[0]));
 			             i++, xpos++, j++)
 			          {
-			            temp = dest + (ypos * rowstride) + (xpos * channels);
+			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
 				        if (Grey)
 					      *temp = cmap[*temp][0];
@@ -759,7 +753,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				while ((i <= i_max) && (xpos < width))
 				{
 					temp =
-						dest + (ypos * rowstride) + (xpos * channels);
+						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
 					if (Grey)
 						*temp = cmap[*temp][0];
@@ -828,7 +822,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   }
 
   free (row_buf);
-  free(dest);
   return image;
 }
 
-- 
2.43.0


From 17f9a9d1906887531a3d19ac8cf5fa5523bbf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 32/99] fix: palette of grey BMP files was applied twice

---
 src/input-bmp.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index d38bd3e..3e58c26 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -671,8 +671,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + (ypos * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
@@ -719,8 +717,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			          {
 			            temp = image + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -755,8 +751,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 					temp =
 						image + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
-- 
2.43.0


From 02a66c3b8cb3b1502100329cc25a21eab0a2bc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 33/99] fix: pixels of 2 bit BMP files were left uninitialised

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 3e58c26..697b8fc 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -661,6 +661,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
-- 
2.43.0


From f27d246d068a8409fd86f6f48ae35fa784c5a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 34/99] fix: BMP files larger than 65535 pixels were cut to a
 wrong size

---
 src/input-bmp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 697b8fc..f431a41 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -419,6 +419,15 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  goto cleanup;
   }
 
+  /* the size of a bitmap has 16 bits */
+  if (Bitmap_Head.biWidth > 0xffff ||
+	  abs((int)Bitmap_Head.biHeight) > 0xffff)
+  {
+	  LOG("%s is not a valid BMP file", filename);
+	  at_exception_fatal(&exp, "bmp: image too large");
+	  goto cleanup;
+  }
+
   if (Bitmap_Head.biPlanes != 1)
   {
 	  LOG("%s is not a valid BMP file", filename);
-- 
2.43.0


From 36d515c34a5899db29c96ebf1d8b448d0edb0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 35/99] fix: BMP files stored top row first aborted the reader

---
 src/input-bmp.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f431a41..c8f16be 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -479,8 +479,25 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   fseek(fd, Bitmap_File_Head.bfOffs, SEEK_SET);
   
   /* Get the Image and return the ID or -1 on error */
-  image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
-  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
+  image_storage = ReadImage(fd, Bitmap_Head.biWidth, abs((int)Bitmap_Head.biHeight), ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)abs((int)Bitmap_Head.biHeight), Grey ? 1 : 3);
+
+  /* With a negative height the top row comes first */
+  if (image_storage && (int)Bitmap_Head.biHeight < 0)
+  {
+	  size_t stride = (size_t)AT_BITMAP_WIDTH(&image) * AT_BITMAP_PLANES(&image);
+	  unsigned char *top = image_storage;
+	  unsigned char *bottom = image_storage + (AT_BITMAP_HEIGHT(&image) - 1) * stride;
+	  size_t i;
+
+	  for (; top < bottom; top += stride, bottom -= stride)
+		  for (i = 0; i < stride; i++)
+		  {
+			  unsigned char tmp = top[i];
+			  top[i] = bottom[i];
+			  bottom[i] = tmp;
+		  }
+  }
 cleanup:
   fclose(fd);
   return (image);
-- 
2.43.0


From 56a8e6354e53665eb0dca6d76567380d4fb326fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 36/99] fix: truncated BMP files gave uninitialised pixels
 without a message

---
 src/input-bmp.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index c8f16be..ea69434 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -597,7 +597,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   if (bpp >= 16) /* color image */
     {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  /* an alpha channel is ignored */
 	  channels = 3;
   }
@@ -637,6 +637,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			  break;
 
 		  --ypos; /* next line */
+		  xpos = 0;
         }
     }
 	break;
@@ -657,6 +658,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
             break;
 
           --ypos; /* next line */
+          xpos = 0;
         }
 	}
     break;
@@ -681,6 +683,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			  break;
 
 		  --ypos; /* next line */
+		  xpos = 0;
         }
     }
 	break;
@@ -819,6 +822,13 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 	break;
   }
 
+  /* the rows of an uncompressed image are all there when the last one was filled */
+  if (compression != BI_RLE8 && compression != BI_RLE4 && (bpp <= 8 ? ypos >= 0 : (ypos > 0 || xpos < width)))
+    {
+      LOG("The bitmap ends unexpectedly.");
+      at_exception_fatal(exp, "bmp: the bitmap ends unexpectedly");
+    }
+
   if (bpp <= 8)
     {
       unsigned char *temp2, *temp3;
-- 
2.43.0


From 53f397124405551ad53479a769bc221045944f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:55 +0000
Subject: [PATCH 37/99] fix: sizes above 32767 in OS/2 BMP headers are not
 negative

---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index ea69434..9c9e29e 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -217,8 +217,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
-- 
2.43.0


From 3511155175320dbd4de51cf81254e5afc061c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:04 +0000
Subject: [PATCH 38/99] fix: 16 and 32 bit BMP files with an OS/2 header
 divided by zero

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9c9e29e..8c6d1d9 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -231,6 +231,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     Bitmap_Head.masks[3] = 0;
 
     memset(masks, 0, sizeof(masks));
+    setMasksDefault(Bitmap_Head.biBitCnt, masks);
     Maps = 3;
   } else if (Bitmap_File_Head.biSize == 40) { /* Windows 3.x */
     if (!ReadOK(fd, buffer, 36))
-- 
2.43.0


From eb308d9d68890cf4d532336e85635c7c30e0088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 39/99] fix: a missing TGA file was read through a null stream

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..2593127 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -117,6 +117,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
   /* Check the footer. */
-- 
2.43.0


From f423fc6e6217a1a03518bd195adb42fb3c789177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 40/99] fix: TGA files smaller than a footer were refused

---
 src/input-tga.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2593127..03bd3f4 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -120,17 +111,8 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
-
-  if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
+  /* The footer is optional and nothing in it is needed. */
+  if (fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
     at_exception_fatal(&exp, "TGA: Cannot read header");
     goto cleanup;
-- 
2.43.0


From 8c2b5fa0ada6ccd516f717bb40e1696bd72bc6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 41/99] fix: run-length state of one TGA file leaked into the
 next

The buffer kept the size of the first file's pixels, and a packet reaching
beyond the end of an image was continued in the next image.
---
 src/input-tga.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 03bd3f4..41c6f60 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -142,9 +142,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char statebuf[RLE_PACKETSIZE * 4];   /* at most four bytes per pixel */
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -185,12 +185,8 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
     if (j + bytes <= buflen) {
       /* We can copy directly into the image buffer. */
       p = buf + j;
-    } else {
-      /* Allocate the state buffer if we haven't already. */
-      if (!statebuf)
-        statebuf = (unsigned char *)malloc(RLE_PACKETSIZE * datasize);
+    } else
       p = statebuf;
-    }
 
     if (count & RLE_PACKETSIZE) {
       /* Fill the buffer with the next value. */
-- 
2.43.0


From 8fc60c99bd93d10feed60bde6181086f106380df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 42/99] fix: TGA files starting in the lower right corner were
 only flipped vertically

---
 src/input-tga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 41c6f60..6f057c1 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -471,11 +471,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
-- 
2.43.0


From 19121d85f90c739a7faca5bb04f77a23bb6fa9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 43/99] fix: TGA palettes with an alpha channel garbled the
 image

The alpha values were written over the neighbouring pixels.  The bitmap has
no alpha channel, so they are now ignored.
---
 src/input-tga.c | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 6f057c1..a13e6ae 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -221,9 +221,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
@@ -346,7 +345,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index, colors;
@@ -375,11 +373,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
       /* Swap from BGR to RGB. */
@@ -387,17 +380,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
 
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
-
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
     pbpp = 8;
@@ -441,17 +425,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     /* Fill the rest of this tile with zeros. */
     memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
   }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
-  }
-
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
@@ -519,7 +492,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From 6ee7a2b178b320c6f8ccaf7f10efe765d8028f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 44/99] fix: TGA pixels beyond the end of the palette read
 outside of it

---
 src/input-tga.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index a13e6ae..0878a19 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -361,15 +361,14 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
     pelbytes = ROUNDUP_DIVIDE(hdr->colorMapSize, 8);
     colors = length + index;
-    cmap = (unsigned char *)malloc(colors * pelbytes);
-
-    /* Zero the entries up to the beginning of the map. */
-    memset(cmap, 0, index * pelbytes);
+    /* The entries the file does not define are black. */
+    cmap = (unsigned char *)calloc(MAX(colors, 256), pelbytes);
 
     /* Read in the rest of the colormap. */
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From 64d1a8634cc3ac3d4c48fb3db0078e2ab5af1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 45/99] fix: TGA files with an alpha channel wrote outside the
 bitmap

---
 src/input-tga.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 0878a19..27f0d09 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -221,6 +221,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
+  unsigned char *data;
 
   unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
@@ -393,6 +394,12 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   /* Calculate TGA bytes per pixel. */
   bpp = ROUNDUP_DIVIDE(pbpp + abpp, 8);
 
+  /* The bitmap has no room for an alpha channel. */
+  if (abpp)
+    data = (unsigned char *)malloc(width * height * bpp);
+  else
+    data = image.bitmap;
+
   /* Maybe we need to reverse the data. */
   if (horzrev || vertrev)
     buffer = (unsigned char *)malloc(width * height * pelbytes * sizeof(unsigned char));
@@ -411,7 +418,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   if (badread)
     pels = 0;
   else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+    pels = (*myfread) (data, bpp, npels, fp);
 
   if (pels != npels) {
     if (!badread) {
@@ -422,7 +429,14 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     }
 
     /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
+    memset(data + (pels * bpp), 0, ((npels - pels) * bpp));
+  }
+
+  /* Drop the alpha channel. */
+  if (abpp) {
+    for (j = 0; j < npels; j++)
+      memcpy(image.bitmap + j * (bpp - 1), data + j * bpp, bpp - 1);
+    free(data);
   }
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
-- 
2.43.0


From bc54890ccf74b52721e056b55baeaf8f00792c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 46/99] fix: TGA files without pixels or with too many are
 refused

---
 src/input-tga.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 27f0d09..200b9b0 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -26,6 +26,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include <sys/param.h>
 /* #include <unistd.h> */
 
@@ -389,6 +390,13 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   } else
     pelbytes = 3;
 
+  if (width == 0 || height == 0 || width > INT_MAX / 4 / height) {
+    LOG("TGA: invalid image size %d x %d\n", width, height);
+    at_exception_fatal(exp, "TGA: invalid image size");
+    free(cmap);
+    return image;
+  }
+
   image = at_bitmap_init(NULL, width, height, 3);
 
   /* Calculate TGA bytes per pixel. */
-- 
2.43.0


From e38eb62bb2fe56661ce93540ed6bf9eb0587e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:13 +0000
Subject: [PATCH 47/99] fix: truncated run-length coded BMP files were accepted
 silently

---
 src/input-bmp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 8c6d1d9..13bb696 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -725,6 +725,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			if (!ReadOK(fd, row_buf, 2))
 			{
 				LOG("The bitmap ends unexpectedly.");
+				at_exception_warning(exp, "bmp: the bitmap ends unexpectedly");
 				break;
 			}
 
@@ -764,6 +765,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 				if (!ReadOK(fd, &v, 1))
 				{
 					LOG("The bitmap ends unexpectedly.");
+					at_exception_warning(exp, "bmp: the bitmap ends unexpectedly");
 					break;
 				} 
 
@@ -808,6 +810,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			if (!ReadOK(fd, row_buf, 2))
 			  {
 				LOG("The bitmap ends unexpectedly.");
+				at_exception_warning(exp, "bmp: the bitmap ends unexpectedly");
 				break;
 			  }
 			xpos += (unsigned char) row_buf[0];
-- 
2.43.0


From de4a374f55cf1e1c1ff2db6d19cd863d97ca3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:43 +0000
Subject: [PATCH 48/99] fix: a damaged PNG file aborted the process

---
 src/input-png.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..2a7a456 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -54,6 +54,8 @@ static void handle_error(png_structp png, const char * message)
   /* at_exception_fatal((at_exception_type *)at_png->error_ptr,
      "PNG error"); */
 
+  /* The library gives up the process if this function returns. */
+  longjmp(png_jmpbuf(png), 1);
 }
 
 static void finalize_structs(png_structp png, png_infop info, png_infop end_info)
@@ -98,6 +100,11 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   if (!init_structs(&png, &info, &end_info, exp))
     return 0;
 
+  if (setjmp(png_jmpbuf(png))) {
+    finalize_structs(png, info, end_info);
+    return 0;
+  }
+
   png_init_io(png, stream);
   CHECK_ERROR();
 
-- 
2.43.0


From d694d8aaf41d8389b6788ad80fe6520e1e8e728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:43 +0000
Subject: [PATCH 49/99] fix: PNG files with transparency were garbled

The rows of the library have an alpha channel which the bitmap has not.
---
 src/input-png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index 2a7a456..1d7d888 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -108,7 +108,7 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   png_init_io(png, stream);
   CHECK_ERROR();
 
-  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
+  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_STRIP_ALPHA | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
   
   width = (unsigned short)png_get_image_width(png, info);
-- 
2.43.0


From 31b4256d67d3125bd73a1e421c01d6401b9e35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:43 +0000
Subject: [PATCH 50/99] fix: PNG files larger than 65535 pixels were cut to a
 wrong size

---
 src/input-png.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-png.c b/src/input-png.c
index 1d7d888..5e1ebec 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -105,6 +105,9 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
     return 0;
   }
 
+  /* the size of a bitmap has 16 bits */
+  png_set_user_limits(png, 65535, 65535);
+
   png_init_io(png, stream);
   CHECK_ERROR();
 
-- 
2.43.0


From 8f1762fd290fceb727002ded30a0ce41a1c97e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:46 +0000
Subject: [PATCH 51/99] fix: a damaged GF font ended the process

The reader called exit() for every file that is too short or has a wrong
command; now the error is reported to the caller.
---
 src/input-gf.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..d9c5ada 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -81,6 +81,7 @@ typedef struct _gf_char_t {
 typedef struct _gf_font_t {
   char *input_filename;
   FILE *input_file;
+  int failed;                   /* A read or a seek failed.  */
   double design_size;
   unsigned long checksum;
   double h_pixels_per_point, v_pixels_per_point;
@@ -113,9 +114,13 @@ static unsigned char get_byte(gf_font_t * font)
 {
   unsigned char b;
 
+  /* After an error, everything is read as zero. */
+  if (font->failed)
+    return 0;
   if (fread(&b, 1, 1, font->input_file) != 1) {
     fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    font->failed = 1;
+    return 0;
   }
   return b;
 }
@@ -156,9 +161,11 @@ static unsigned long get_four(gf_font_t * font)
 
 static void move_relative(gf_font_t * font, long count)
 {
+  if (font->failed)
+    return;
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
     fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    font->failed = 1;
   }
 }
 
@@ -260,7 +267,7 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->failed = 1;
     }
     return;
   }
@@ -270,12 +277,13 @@ static void get_character_bitmap(gf_char_t * sym)
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    sym->font->failed = 1;
+    return;
   }
 
   for (;;) {
     c = get_byte(sym->font);
-    if (c == EOC)
+    if (c == EOC || sym->font->failed)
       break;
 
     if ( /* PAINT_0 <= c && */ c <= PAINT3) {
@@ -302,7 +310,8 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          sym->font->failed = 1;
+          return;
         }
       }
 
@@ -344,7 +353,8 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        sym->font->failed = 1;
+        return;
       }
       cur_y -= rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
@@ -365,7 +375,8 @@ static void get_character_bitmap(gf_char_t * sym)
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      sym->font->failed = 1;
+      return;
     }
   }
 }
@@ -448,7 +459,8 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        sym->font->failed = 1;
+        return;
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -469,6 +481,7 @@ static int gf_open(gf_font_t * font, char *filename)
   unsigned char b, c;
   unsigned long post_ptr;
 
+  font->failed = 0;
   font->input_filename = filename;
   font->input_file = fopen(filename, "r");
   if (!font->input_file) {
@@ -631,8 +644,12 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
   }
 
   get_character_bitmap(sym);
-
-  deblank(sym);
+  if (!font->failed)
+    deblank(sym);
+  if (font->failed) {
+    free(sym->bitmap);
+    return 0;
+  }
   return 1;
 }
 
-- 
2.43.0


From 4fa69253da325464e4ebc00f50d4039b95cb849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:46 +0000
Subject: [PATCH 52/99] fix: GF characters with a blank edge were garbled

The blank rows and columns were taken out of the pixels, but not out of
the size, and the pixels were read beyond their end.
---
 src/input-gf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index d9c5ada..2d69640 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -470,6 +470,8 @@ static void deblank(gf_char_t * sym)
       sym->bbox_max_row -= white_on_top;
       sym->bbox_min_col += white_on_left;
       sym->bbox_max_col -= white_on_right;
+      sym->width = condensed.width;
+      sym->height = condensed.height;
     }
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
-- 
2.43.0


From 46ef7cf391c641bf2db731ecc0150ad3ae6aeb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:46 +0000
Subject: [PATCH 53/99] fix: GF characters painting outside of their bounding
 box overflowed it

---
 src/input-gf.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 2d69640..9052708 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -242,8 +242,9 @@ static void get_character_bitmap(gf_char_t * sym)
   /* We expect these to be >= 0, but if the GF file is improper,
    * they might turn to be negative.
    */
-  int height, width, painting_black = 0;
-  int cur_x, cur_y;             /* This will be the GF position. */
+  int painting_black = 0;
+  long height, width;
+  long cur_x, cur_y;            /* This will be the GF position. */
 
   cur_x = sym->bbox_min_col;
   cur_y = sym->bbox_max_row;
@@ -272,6 +273,13 @@ static void get_character_bitmap(gf_char_t * sym)
     return;
   }
 
+  if (width > 65535 || height > 65535) {
+    fprintf(stderr, "%s: character too large\n", sym->font->input_filename);
+    sym->bitmap = 0;
+    sym->font->failed = 1;
+    return;
+  }
+
   sym->height = height;
   sym->width = width;
   sym->bitmap = calloc(width, height);
@@ -293,7 +301,7 @@ static void get_character_bitmap(gf_char_t * sym)
       /* The paint commands come in two varieties -- either
        * with the length implicitly part of the command,
        * or where it is specified as a separate parameter. */
-      unsigned length;
+      long length;
 
       if ( /* PAINT_0 <= c && */ c <= PAINT_63)
         length = c - PAINT_0;
@@ -321,6 +329,11 @@ static void get_character_bitmap(gf_char_t * sym)
       if (painting_black) {
         unsigned matrix_x, matrix_y;
 
+        if (length != 0 && (cur_x < sym->bbox_min_col || length > sym->bbox_max_col - cur_x || cur_y < sym->bbox_min_row)) {
+          fprintf(stderr, "%s: pixels outside of the bounding box\n", sym->font->input_filename);
+          sym->font->failed = 1;
+          return;
+        }
         matrix_y = sym->bbox_max_row - cur_y;
         for (; length != 0; length--) {
           matrix_x = cur_x - sym->bbox_min_col;
@@ -336,7 +349,7 @@ static void get_character_bitmap(gf_char_t * sym)
     } else if (SKIP0 <= c && c <= SKIP3) {
       /* Skip commands move down in the GF character,
        * leaving blank rows. */
-      unsigned rows_to_skip;
+      long rows_to_skip;
 
       switch (c) {
       case SKIP0:
-- 
2.43.0


From 0bdba2b7ee9501cc8ec36feb996e87e5a79e1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:46 +0000
Subject: [PATCH 54/99] fix: negative numbers in GF fonts were read as large
 positive ones

Four bytes of a long with eight bytes never are negative: characters with
pixels below the baseline or left of the origin had a wrong size.
---
 src/input-gf.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 9052708..7a54e7b 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -148,6 +148,17 @@ static unsigned long get_three(gf_font_t * font)
   return b;
 }
 
+static long get_signed_four(gf_font_t * font)
+{
+  long b;
+
+  b = (signed char)get_byte(font) * (1L << 24);
+  b += (long)get_byte(font) << 16;
+  b += (long)get_byte(font) << 8;
+  b += get_byte(font);
+  return b;
+}
+
 static unsigned long get_four(gf_font_t * font)
 {
   unsigned long b;
@@ -548,10 +559,10 @@ static int gf_open(gf_font_t * font, char *filename)
   font->h_pixels_per_point = get_four(font) / (double)(1L << 16);
   font->v_pixels_per_point = get_four(font) / (double)(1L << 16);
 
-  font->bbox_min_col = (signed long)get_four(font);
-  font->bbox_max_col = (signed long)get_four(font);
-  font->bbox_min_row = (signed long)get_four(font);
-  font->bbox_max_row = (signed long)get_four(font);
+  font->bbox_min_col = get_signed_four(font);
+  font->bbox_max_col = get_signed_four(font);
+  font->bbox_min_row = get_signed_four(font);
+  font->bbox_max_row = get_signed_four(font);
 
   /* We do not know in advance how many character locators exist,
    * but we do place a maximum on it (contrary to what the GF format
@@ -564,7 +575,7 @@ static int gf_open(gf_font_t * font, char *filename)
     c = get_byte(font);
 
     if (b == CHAR_LOC) {
-      font->char_loc[c].h_escapement = (double)get_four(font) / (1 << 16) + .5;
+      font->char_loc[c].h_escapement = (double)get_signed_four(font) / (1 << 16) + .5;
       /* Ignore vertical escapement. */
       (void)get_four(font);
 
@@ -577,7 +588,7 @@ static int gf_open(gf_font_t * font, char *filename)
     }
 
     font->char_loc[c].tfm_width = get_four(font);
-    font->char_loc[c].char_pointer = get_four(font);
+    font->char_loc[c].char_pointer = get_signed_four(font);
   }
   return 1;
 }
@@ -616,7 +627,7 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
      * this character is a ``residue'', and the font
      * is probably too big.
      */
-    lcode = (long)get_four(font);
+    lcode = get_signed_four(font);
     if (lcode < 0 || lcode > 255) {
       /* Someone is trying to use a font with character codes
        * that are out of our range. */
@@ -625,14 +636,14 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
     }
     sym->charcode = lcode;
 
-    back_pointer = (long)get_four(font);
+    back_pointer = get_signed_four(font);
     if (back_pointer != -1)
       fprintf(stderr, "%s: warning: character %u has a non-null back pointer (to %#lx)\n", font->input_filename, sym->charcode, back_pointer);
 
-    sym->bbox_min_col = (long)get_four(font);
-    sym->bbox_max_col = (long)get_four(font);
-    sym->bbox_min_row = (long)get_four(font);
-    sym->bbox_max_row = (long)get_four(font);
+    sym->bbox_min_col = get_signed_four(font);
+    sym->bbox_max_col = get_signed_four(font);
+    sym->bbox_min_row = get_signed_four(font);
+    sym->bbox_max_row = get_signed_four(font);
     break;
 
   case BOC1:
-- 
2.43.0


From 5e3a4ebec037409f773ca5b05cc7d9d67c7c513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:46 +0000
Subject: [PATCH 55/99] fix: specials inside of a GF character were taken for
 pixels

The command had been read already when skip_specials looked for it, and
the long form of the command and no-ops were not skipped at all.
---
 src/input-gf.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 7a54e7b..75f82fc 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -217,9 +217,14 @@ static void skip_specials(gf_font_t * font)
     case XXX3:
       move_relative(font, get_three(font));
       continue;
+    case XXX4:
+      move_relative(font, get_four(font));
+      continue;
     case YYY:
       (void)get_four(font);
       continue;
+    case NO_OP:
+      continue;
     default:
       move_relative(font, -1);
       return;
@@ -274,9 +279,9 @@ static void get_character_bitmap(gf_char_t * sym)
     sym->width = 0;
     sym->bitmap = 0;
 
-    /* The next non-NO_OP byte should be EOC. */
-    while ((c = get_byte(sym->font)) == NO_OP)
-      continue;                 /* do nothing */
+    /* The next byte that is not special should be EOC. */
+    skip_specials(sym->font);
+    c = get_byte(sym->font);
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
       sym->font->failed = 1;
@@ -395,6 +400,7 @@ static void get_character_bitmap(gf_char_t * sym)
       /* do nothing */
 
     } else if ((XXX1 <= c && c <= XXX4) || c == YYY) {
+      move_relative(sym->font, -1);
       skip_specials(sym->font);
 
     } else {
-- 
2.43.0


From fa8e2224e905eddba424b5ec47c0427ecab33a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:47 +0000
Subject: [PATCH 56/99] fix: reading a GF font changed the options of the
 caller

The next font read with the same options was asked for the character of
the first one.
---
 src/input-gf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 75f82fc..36bfd50 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -692,13 +692,13 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   at_bitmap bitmap = at_bitmap_init(NULL, 0, 0, 0);
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
-  unsigned int i, j, ptr;
+  unsigned int i, j, ptr, charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
-  if (opts->charcode == 0) {
+  if (charcode == 0) {
     /* Find a first character in font file. */
     for (i = 0; i < 256; ++i)
       if (font->char_loc[i].char_pointer != -1)
@@ -707,16 +707,16 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-    opts->charcode = i;
+    charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From 21590f19bf84b42a618697d5e14549188d48f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:47 +0000
Subject: [PATCH 57/99] fix: GF fonts without a readable character were left
 open

---
 src/input-gf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 36bfd50..3a17e3f 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -695,6 +695,8 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   unsigned int i, j, ptr, charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
+    if (font->input_file)
+      fclose(font->input_file);
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
@@ -704,6 +706,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       if (font->char_loc[i].char_pointer != -1)
         break;
     if (i >= 256) {
+      fclose(font->input_file);
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-- 
2.43.0


From 88b525683712dddf8f9236d8d753db99aaea3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:47 +0000
Subject: [PATCH 58/99] fix: a GF character beyond 255 was read as another one

---
 src/input-gf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 3a17e3f..b5225a8 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -712,7 +712,7 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     }
     charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
+  if (charcode > 255 || !gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
-- 
2.43.0


From 459f3fcd68bad950fa2b052ae69319e3a7d231db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:48 +0000
Subject: [PATCH 59/99] fix: looking up a format for a file name without a dot
 crashed

strrchr returns NULL for such names. The pointer was advanced before it was
compared with NULL, so the lookup then read from address 1.
---
 src/input.cpp  | 3 ++-
 src/output.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..85742c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -68,9 +68,10 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_input_get_handler_by_suffix(dot_pos);
 }
diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..9ca21a8 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -66,9 +66,10 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 
 at_spline_writer *at_output_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_output_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From e626d0c11291416f07736abaf76a8965a3cae65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:46 +0000
Subject: [PATCH 60/99] fix: colours with a component of 0 or 255 survive JSON,
 others out of range do not

White, black and the like were dropped when options were read from JSON, since
the limits 0 and 255 themselves counted as out of range. A colour with only one
or two components out of range was accepted and cut down to eight bits.
---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..3566671 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorsInRange = [](const auto colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorsInRange(*maybeRed) || !colorsInRange(*maybeGreen) || !colorsInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From 10af4b66761a8013d8eb7cb37c8baca2b882be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:46 +0000
Subject: [PATCH 61/99] fix: assigned options no longer share their background
 colour

The default assignment copied the pointer to the colour. Both objects then
deleted it, and the colour the target had before was lost.
---
 src/wrapper/FittingOptions.cpp | 8 ++++++++
 src/wrapper/FittingOptions.h   | 2 +-
 src/wrapper/InputOptions.cpp   | 8 ++++++++
 src/wrapper/InputOptions.h     | 2 +-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..54accec 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -137,3 +137,11 @@ FittingOptions::FittingOptions(const FittingOptions &other) : _at_fitting_opts_t
   preserve_width = other.preserve_width;
   width_weight_factor = other.width_weight_factor;
 }
+
+FittingOptions &FittingOptions::operator=(const FittingOptions &other) {
+  const auto color = background_color;
+  fitting_opts_type::operator=(other);
+  background_color = color;
+  *background_color = *other.background_color;
+  return *this;
+}
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..57bd0d3 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -55,3 +55,11 @@ InputOptions::InputOptions(const InputOptions &other) : _at_input_opts_type(othe
 
   charcode = other.charcode;
 }
+
+InputOptions &InputOptions::operator=(const InputOptions &other) {
+  const auto color = background_color;
+  at_input_opts_type::operator=(other);
+  background_color = color;
+  *background_color = *other.background_color;
+  return *this;
+}
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
-- 
2.43.0


From 03b679c2ba3e1bae4e13b000e3df3bfb00eca3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:46 +0000
Subject: [PATCH 62/99] fix: the builder of input options sets the background
 colour in place

It replaced the colour object with one from malloc. The object it had before
was lost, and the new one was later released with delete.
---
 src/wrapper/InputOptionsBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrapper/InputOptionsBuilder.cpp b/src/wrapper/InputOptionsBuilder.cpp
index d3ceeca..4826119 100644
--- a/src/wrapper/InputOptionsBuilder.cpp
+++ b/src/wrapper/InputOptionsBuilder.cpp
@@ -13,7 +13,7 @@ InputOptions InputOptionsBuilder::build() {
 }
 
 InputOptionsBuilder &InputOptionsBuilder::setBackgroudColor(_at_color color) {
-  inputOptions.background_color = at_color_copy(&color);
+  *inputOptions.background_color = color;
   return *this;
 }
 
-- 
2.43.0


From 51c912bd4fb0e21d496f76d79e4f349b09d56e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:46 +0000
Subject: [PATCH 63/99] fix: the option to remove knees survives JSON

It was the only fitting option neither written to nor read from JSON.
---
 src/wrapper/FittingOptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 54accec..603cfff 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -78,6 +78,7 @@ FittingOptions::FittingOptions(json11::Json fittingOptionsJson) : FittingOptions
   setDecimal(noise_removal, "noise_removal");
   setDecimal(width_weight_factor, "width_weight_factor");
   setBoolean(remove_adjacent_corners, "remove_adjacent_corners");
+  setBoolean(remove_knees, "remove_knees");
   setBoolean(centerline, "centerline");
   setBoolean(preserve_width, "preserve_width");
 }
@@ -107,6 +108,7 @@ json11::Json FittingOptions::toJson() const {
   fittingOptionsJson.emplace("noise_removal", noise_removal);
   fittingOptionsJson.emplace("width_weight_factor", width_weight_factor);
   fittingOptionsJson.emplace("remove_adjacent_corners", remove_adjacent_corners);
+  fittingOptionsJson.emplace("remove_knees", remove_knees);
   fittingOptionsJson.emplace("centerline", centerline);
   fittingOptionsJson.emplace("preserve_width", preserve_width);
 
-- 
2.43.0


From 1c9473dcf8f2237dfe7b9164b8173ca0b8a2fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 64/99] fix: the options of a conversion have background
 colours of their own

Only the pointers were copied, so a conversion set up from temporary option
objects read released memory.
---
 src/wrapper/Options.cpp | 22 ++++++++++++++++++++--
 src/wrapper/Options.h   |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Options.cpp b/src/wrapper/Options.cpp
index 2db88e1..4ab554e 100644
--- a/src/wrapper/Options.cpp
+++ b/src/wrapper/Options.cpp
@@ -4,9 +4,27 @@
 
 #include "Options.h"
 
+#include <cstdlib>
+
+// The options with a background colour of their own.
+template<typename OptionsType>
+static OptionsType deepCopy(OptionsType options) {
+  options.background_color = at_color_copy(options.background_color);
+  return options;
+}
+
 Options::Options(const at_fitting_opts_type &fittingOptions, const at_input_opts_type &inputOptions,
-                 const at_output_opts_type &outputOptions) : fittingOptions(fittingOptions),
-                                                             inputOptions(inputOptions),
+                 const at_output_opts_type &outputOptions) : fittingOptions(deepCopy(fittingOptions)),
+                                                             inputOptions(deepCopy(inputOptions)),
                                                              outputOptions(outputOptions) {
 
 }
+
+Options::Options(const Options &other) : Options(other.fittingOptions, other.inputOptions, other.outputOptions) {
+
+}
+
+Options::~Options() {
+  std::free(fittingOptions.background_color);
+  std::free(inputOptions.background_color);
+}
diff --git a/src/wrapper/Options.h b/src/wrapper/Options.h
index 688c3a1..5d3e41c 100644
--- a/src/wrapper/Options.h
+++ b/src/wrapper/Options.h
@@ -12,6 +12,8 @@ public:
   Options(const at_fitting_opts_type &fittingOptions,
           const at_input_opts_type &inputOptions,
           const at_output_opts_type &outputOptions);
+  Options(const Options &other);
+  ~Options();
 
   const at_fitting_opts_type fittingOptions;
   const at_input_opts_type inputOptions;
-- 
2.43.0


From 860a446ebb403d07fe9548e809d1e22f378d557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:09 +0000
Subject: [PATCH 65/99] fix: a conversion that fails leaves the output file
 alone and leaks nothing

The output file was emptied before the input was read. An input that cannot be
read left the file and the bitmap open, and an input that cannot be traced was
passed on without a result.
---
 src/wrapper/autotrace.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 57c9b89..67a8daf 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -20,20 +20,26 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Output writer cannot be determined for " + outputFilePath);
   }
 
-  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
-  if (outputFile == nullptr) {
-    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
-  }
-
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
                                      const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
 
-    if (bitmap->bitmap == nullptr) {
-        return nonstd::make_unexpected("Unable to open file " + inputFile);
-    }
+  if (bitmap->bitmap == nullptr) {
+    at_bitmap_free(bitmap);
+    return nonstd::make_unexpected("Unable to open file " + inputFile);
+  }
 
   const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
                                            nullptr, nullptr, nullptr, nullptr, nullptr);
+  at_bitmap_free(bitmap);
+  if (splines == nullptr) {
+    return nonstd::make_unexpected("Unable to trace " + inputFile);
+  }
+
+  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
+  if (outputFile == nullptr) {
+    at_splines_free(splines);
+    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
+  }
 
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
                    const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
@@ -41,7 +47,6 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
   fclose(outputFile);
 
   at_splines_free(splines);
-  at_bitmap_free(bitmap);
 
   return nonstd::expected<void, std::string>();
 }
-- 
2.43.0


From 7ee2410105964018d747d6267ca564abb356570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:08 +0000
Subject: [PATCH 66/99] fix: an SVG file without any path has no stray z

Whether the z was written depended on a variable that is not set when there is
no path.
---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From bb8a81334182e094dcd41ae0e577908dd2050768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:08 +0000
Subject: [PATCH 67/99] fix: P2E files keep all paths of a colour

Shapes of the same colour in a row are painted together, but every one started
with newpath. That dropped the ones before it.
---
 src/output-p2e.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-p2e.c b/src/output-p2e.c
index 9ce7875..6350bc8 100644
--- a/src/output-p2e.c
+++ b/src/output-p2e.c
@@ -171,9 +171,9 @@ static void out_splines(FILE * ps_file, spline_list_array_type shape)
       OUT("%.3f %.3f %.3f %.3f %s\n", (double)c / 255.0, (double)m / 255.0, (double)y / 255.0, (double)k / 255.0, "setcmykcolor");
 #endif
       last_color = list.color;
+      OUT_LINE("newpath");
     }
 
-    OUT_LINE("newpath");
     OUT_COMMAND2(START_POINT(first).x, START_POINT(first).y, "moveto");
 
     for (this_spline = 0; this_spline < SPLINE_LIST_LENGTH(list); this_spline++) {
-- 
2.43.0


From a5411bb1c9f09c23f3bf605ba478249259f1d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:08 +0000
Subject: [PATCH 68/99] fix: writing centre lines as Povray reports an error
 instead of ending the process

---
 src/output-pov.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..c72d486 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -27,6 +27,7 @@
 #include "output-pov.h"
 #include "logreport.h"
 #include "autotrace.h"
+#include "exception.h"
 #include <string.h>
 #include <math.h>
 
@@ -107,8 +108,11 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From 5642c31d3e299c538a54c5f956d291cb690f2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:37 +0000
Subject: [PATCH 69/99] fix: every ILDA file has its own points

The frame was kept from one file to the next, so all files after the first one
had no frame at all. The points were never released.
---
 src/output-ild.c | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..a71bd66 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -498,6 +498,25 @@ pLaserFrame sequence_frame_add(pLaserSequence seq)
   return frame2;
 };
 
+static void freeLaserSequence(pLaserSequence seq)
+{
+  pLaserFrame frame = seq->frame_first;
+
+  while (frame) {
+    pLaserFrame next_frame = frame->next;
+    pLaserPoint point = frame->point_first;
+
+    while (point) {
+      pLaserPoint next_point = point->next;
+      free(point);
+      point = next_point;
+    }
+    free(frame);
+    frame = next_frame;
+  }
+  free(seq);
+}
+
 /** write 2D/3D Frame to file */
 int writeILDAFrame(FILE * file, LaserFrame * f, int format)
 {
@@ -969,6 +988,8 @@ static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_l
   if (fdes == NULL)
     return;
 
+  drawframe = NULL;
+  inserted_anchor_points = 0;
   drawsequence = newLaserSequence();
 
   LastPoint.x = 0;
@@ -1030,14 +1051,17 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
-    return 0;
+  if (file != stdout) {
+    printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
+    if (trueColorWrite)
+      printf(", True Color Header");
+    if (writeTable)
+      printf(", Color Table");
+    printf(").\n");
+  }
 
-  printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
-  if (trueColorWrite)
-    printf(", True Color Header");
-  if (writeTable)
-    printf(", Color Table");
-  printf(").\n");
+  freeLaserSequence(drawsequence);
+  drawsequence = NULL;
+  drawframe = NULL;
   return 0;
 }
-- 
2.43.0


From 6981f877a41e874e08b3a53f7d2d415fa85ccb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:26 +0000
Subject: [PATCH 70/99] fix: FIG files do not depend on the ones written before

The number of colours and the area covered so far were kept from one file to
the next. Later files listed colours of earlier ones, and after 511 colours the
table overflowed.
---
 src/output-fig.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..739582e 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -369,6 +369,9 @@ static void fig_col_init(void)
 {
   int i;
 
+  LAST_FIG_COLOUR = 32;
+  glo_bbox_flag = 0;
+
   for (i = 0; i < 544; i++) {
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
-- 
2.43.0


From d1edffe9f2e5cefd1ae7b9c5cb35cd30ef309f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:26 +0000
Subject: [PATCH 71/99] fix: stop writing a FIG file with too many colours

After the error was reported, further colours were put behind the end of the
table.
---
 src/output-fig.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 739582e..05e68ee 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -161,6 +161,10 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     at_color curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
     spline_colours[this_list] = get_fig_colour(curr_color, exp);
+    if (at_exception_got_fatal(exp)) {
+      free(spline_colours);
+      return;
+    }
   }
   /* Output colours */
   if (LAST_FIG_COLOUR > 32) {
-- 
2.43.0


From 5d4bee286c7e82bfca5c8786e652c3b6ad06a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:26 +0000
Subject: [PATCH 72/99] fix: holes in FIG files have the background colour

The colour was worked out like in the other formats that paint holes, but then
white was used whatever the background.
---
 src/output-fig.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 05e68ee..99d1e44 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -192,11 +192,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     XMALLOC(pointy, maxlength * sizeof(int));
     XMALLOC(contrl, maxlength * sizeof(float));
 
-    if (list.clockwise) {
-      fig_colour = FIG_WHITE;
-    } else {
-      fig_colour = spline_colours[this_list];
-    }
+    fig_colour = spline_colours[this_list];
 
     fig_spline_close = 5;
 
-- 
2.43.0


From 587981c0cfe7c7825ca0e554175d63b4c38222ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:44 +0000
Subject: [PATCH 73/99] fix: shapes in MIF files have their own colours

All of them were given the colour of the last one.
---
 src/output-mif.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..d0bb044 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -158,6 +158,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
 
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
+
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
         break;
-- 
2.43.0


From a00f8311da28ed0ded73a72e0b4801ffa3e60e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:44 +0000
Subject: [PATCH 74/99] fix: curves in MIF files reach their end points

A curve is written as a row of points on it, and the last one was left out.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index d0bb044..c4ebf24 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -181,6 +181,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From cf739dfb64e6216de405d2a05ff77e8529fa9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:50 +0000
Subject: [PATCH 75/99] fix: MIF files with more than 256 colours, and leaked
 colour names

The table of colours had a fixed size, and the names in it were not released.
---
 src/output-mif.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index c4ebf24..1a596b0 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -107,7 +107,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
@@ -117,6 +117,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
   cbox.ury = ury;
   cbox.dpi = (float) opts->dpi;
 
+  XMALLOC(col_tbl, (SPLINE_LIST_ARRAY_LENGTH(shape) + 1) * sizeof(ColorT));
+
   fprintf(ps_file, "<MIFFile 4.00> #%s\n<Units Upt>\n<ColorCatalog\n", at_version(true));
 
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
@@ -188,5 +190,9 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From 94abe7b90eb70dc6a6b4feed7b58469f751253b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:31 +0000
Subject: [PATCH 76/99] fix: black shapes in DXF files get their own layer

The colour before was forgotten with every shape and taken for black. A black
shape after a coloured one went to the layer of that colour.
---
 src/output-dxf.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..d34281a 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,12 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
-
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
     at_color curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
-- 
2.43.0


From b12fdd5d0d368cbfdd676954a87fd026d6105bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:31 +0000
Subject: [PATCH 77/99] fix: DXF files have as many polylines as they begin

The first shape was preceded by a polyline of one point, and a file without any
shape ended a polyline it had not begun.
---
 src/output-dxf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index d34281a..341d867 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -611,6 +611,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.yp = lround(starty * RESOLUTION);
       }
     } else {
+      new_layer = 0;
       fprintf(dxf_file, "  0\nPOLYLINE\n  8\n%s\n  66\n1\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       fprintf(dxf_file, "  0\nVERTEX\n  8\n%s\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       pnt_old.xp = lround(startx * RESOLUTION);
@@ -689,7 +690,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
     last_color = curr_color;
   }
 
-  fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
+  if (!first_seg)
+    fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
 
 }
 
-- 
2.43.0


From a3d9e1b4511ca860a1c0238b856f16dafaf318d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:31 +0000
Subject: [PATCH 78/99] fix: curves shorter than half a pixel do not break a
 DXF polyline

They were cut into no segments at all, so the polyline was ended and a new one
was begun at the end of the curve.
---
 src/output-dxf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 341d867..26ae2b4 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -529,6 +529,8 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
     total_length = get_total_length(vtx_list);
     r = (spline_resolution == 0) ? sqrt(total_length) : total_length / spline_resolution;
     number_of_segments = lround(r);
+    if (number_of_segments < 1)
+      number_of_segments = 1;
     spline_step = ((double)knot[vtx_count + spline_order - 1]) / number_of_segments;
     for (knot_index = spline_order - 1; knot_index < vtx_count; knot_index++) {
       for (i = 0; i <= vtx_count + spline_order - 2; i++)
-- 
2.43.0


From c42303e5ae119d24a47b3f7a4c6f26578e84ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:03 +0000
Subject: [PATCH 79/99] fix: the last point of open shapes in Elastic Reality
 files

---
 src/output-er.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/output-er.c b/src/output-er.c
index 2d2eab9..ad82370 100644
--- a/src/output-er.c
+++ b/src/output-er.c
@@ -114,8 +114,13 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
     }
 
     if (list.open || length == 1) {
-      x0 = CONTROL2(prev).x;
-      y0 = CONTROL2(prev).y;
+      if (SPLINE_DEGREE(prev) == CUBICTYPE) {
+        x0 = CONTROL2(prev).x;
+        y0 = CONTROL2(prev).y;
+      } else {
+        x0 = END_POINT(prev).x;
+        y0 = END_POINT(prev).y;
+      }
       x2 = x1 = END_POINT(prev).x;
       y2 = y1 = END_POINT(prev).y;
 
@@ -156,7 +161,10 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
         prev = s;
       }
       if (list.open || length == 1) {
-        x0 = CONTROL2(prev).z;
+        if (SPLINE_DEGREE(prev) == CUBICTYPE)
+          x0 = CONTROL2(prev).z;
+        else
+          x0 = END_POINT(prev).z;
         x2 = x1 = END_POINT(prev).z;
         fprintf(er_file, "\t\t\t%g, %g, %g,\n", x0 * w, x1 * w, x2 * w);
       }
-- 
2.43.0


From 4bb76ef6cb6aaab565c2ac55b33afe9499f8a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:03 +0000
Subject: [PATCH 80/99] fix: extent of CGM files of images that are not square

---
 src/output-cgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..c257ca4 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -161,8 +161,8 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
 
   write16(cgm_file, 0x20C8);    /* vdc extend */
   write16(cgm_file, (uint16_t) llx /*0x0000 */ );
-  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) ury /*0x7FFF */ );
+  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) lly /*0x0000 */ );
 
   write16(cgm_file, 0x0080);    /* begin picture body */
-- 
2.43.0


From 415e56c29739a94b0f6c59fdcd609d99c46d8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:34 +0000
Subject: [PATCH 81/99] fix: an EMF file without any path deletes no objects

---
 src/output-emf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..0c69318 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From e1ed44a0d17cc565c677649edf8787549a0a92d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:34 +0000
Subject: [PATCH 82/99] fix: bounding boxes in DR2D files start at the flipped
 point

---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..c54daf2 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From ad9dcb00aef1ed9a03f44a366770f40bda60ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:34 +0000
Subject: [PATCH 83/99] fix: writing a DR2D file leaked the list of chunks

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index c54daf2..cf2e410 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From e0cde0ed0e31805db0398d6da51df3b2de022d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:54 +0000
Subject: [PATCH 84/99] fix: DR2D line thickness was always written as zero

Lengths are scaled by 1024 before they are converted to the file's number
format, but the line thickness was not, so 1/dpi inch was cut down to 0.
---
 src/output-dr2d.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index cf2e410..eb1289d 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -605,7 +605,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
     XFactor = YFactor;
   }
 
-  LineThickness = (float)1.0 / opts->dpi;
+  LineThickness = (float)(1 << FIXOFFS) / opts->dpi;
 
   DRHDChunk = BuildDRHD(llx, lly, urx, ury);
   PPRFChunk = BuildPPRF("Inch", Portrait, "A4", 1.0);
-- 
2.43.0


From 1691d44b7f1929b8f080de4b92ceb5858d45e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:33 +0000
Subject: [PATCH 85/99] fix: CGM metafile names of 255 characters and more were
 given a wrong length

---
 src/output-cgm.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index c257ca4..407a10a 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -62,15 +62,21 @@ static bool write8(FILE *fdes, uint8_t data)
 static bool output_beginmetafilename(FILE *fdes, const char *string)
 {
   size_t len = strlen(string);
+  size_t count = len < 255 ? 1 : 3; /* bytes holding the length of the string */
 
-  if (len + 1 < 0x001F)
-    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
+  if (len + count < 0x001F)
+    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + count));
   else {
     write16(fdes, CGM_BEGINMETAFILE + 0x001F);
-    write16(fdes, (uint16_t) (len + 1));
+    write16(fdes, (uint16_t) (len + count));
   }
 
-  write8(fdes, (uint8_t) len);
+  if (len < 255)
+    write8(fdes, (uint8_t) len);
+  else {
+    write8(fdes, 255);
+    write16(fdes, (uint16_t) len);
+  }
 
   while (*string != '\0') {
     write8(fdes, *string);
-- 
2.43.0


From 6a3b5120612c7303a6f03b0c955671bc4f7b613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:09 +0000
Subject: [PATCH 86/99] fix: command-line flags were stored through int
 pointers to bool

getopt writes an int for each flag; the variables were single bytes, so
the neighbouring variables were overwritten.
---
 src/main.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 811d213..f80f216 100644
--- a/src/main.c
+++ b/src/main.c
@@ -41,13 +41,13 @@ static char *output_name = (char *)"";
 static at_spline_writer *output_writer = NULL;
 
 /* Whether to print version information */
-static bool printed_version;
+static int printed_version;
 
 /* Whether to dump a bitmap file */
-static bool dumping_bitmap = false;
+static int dumping_bitmap = 0;
 
 /* Report tracing status in real time (--report-progress) */
-static bool report_progress = false;
+static int report_progress = 0;
 #define dot_printer_max_column 50
 #define dot_printer_char '|'
 static void dot_printer(float percentage, void *client_data);
@@ -264,7 +264,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, &dumping_bitmap, 1},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +282,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, 0, 0},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +291,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, &report_progress, 1},
+  {"version", 0, &printed_version, 1},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
@@ -395,6 +395,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       exit(0);
     }
 
+    else if (ARGUMENT_IS("log"))
+      logging = true;
+
     else if (ARGUMENT_IS("output-file"))
       output_name = optarg;
 
-- 
2.43.0


From a04dbb8908da050ab840046af1fc2221e69c8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:09 +0000
Subject: [PATCH 87/99] fix: -help freed uninitialised pointers and printed
 half of the options

---
 src/main.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index f80f216..c574158 100644
--- a/src/main.c
+++ b/src/main.c
@@ -363,12 +363,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
-      /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
+      fprintf(stderr, USAGE2, "see list-input-formats", "see list-output-formats");
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
-- 
2.43.0


From c5815279ec91950cf5b49de67d6d0d07fe961173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:09 +0000
Subject: [PATCH 88/99] fix: the -preserve-width option was ignored

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c574158..5f0c012 100644
--- a/src/main.c
+++ b/src/main.c
@@ -402,7 +402,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
-- 
2.43.0


From 0840b8460492fa82be45691808f35b8cd2b66d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 89/99] fix: malformed background colours were accepted

Wrong digits were used as the digit value 255, strings of a wrong length
meant no background; both are refused now.  The messages go to stderr
instead of into the output.
---
 src/color.c | 8 +++++---
 src/main.c  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..1f799d1 100644
--- a/src/color.c
+++ b/src/color.c
@@ -47,7 +47,7 @@ at_color *at_color_new(unsigned char r, unsigned char g, unsigned char b)
 
 at_color *at_color_parse(const char *string, struct GError **err) {
   struct GError *local_err = NULL;
-  unsigned char c[6];
+  unsigned int c[6];
   int i;
 
   if (!string)
@@ -55,7 +55,7 @@ at_color *at_color_parse(const char *string, struct GError **err) {
   else if (string[0] == '\0')
     return NULL;
   else if (strlen(string) != 6) {
-    printf("color string is too short: %s", string);
+    fprintf(stderr, "color string must have six digits: %s\n", string);
     return NULL;
   }
 
@@ -67,6 +67,8 @@ at_color *at_color_parse(const char *string, struct GError **err) {
       }
       return NULL;
     }
+    if (c[i] == (unsigned int)-1)
+      return NULL;
   }
   return at_color_new((unsigned char)(16 * c[0] + c[1]), (unsigned char)(16 * c[2] + c[3]), (unsigned char)(16 * c[4] + c[5]));
 }
@@ -151,7 +153,7 @@ static unsigned int hctoi(char c, struct GError **err)
   else if (c == 'F')
     return (15);
   else {
-    printf("wrong char in color string: %c", c);
+    fprintf(stderr, "wrong char in color string: %c\n", c);
     return (unsigned int)-1;
   }
 }
diff --git a/src/main.c b/src/main.c
index 5f0c012..3d7c630 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,6 +311,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
 
     if (ARGUMENT_IS("background-color")) {
       fitting_opts->background_color = at_color_parse(optarg, NULL);
+      if (fitting_opts->background_color == NULL)
+        FATAL(_("Not a valid color %s"), optarg);
       input_opts->background_color = at_color_copy(fitting_opts->background_color);
     } else if (ARGUMENT_IS("centerline"))
       fitting_opts->centerline = true;
-- 
2.43.0


From 383e5a3a7780343c3797493ad3f374da005ed269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 90/99] fix: a failing conversion destroyed the existing output
 file

The output was opened, and so emptied, before the input was read.  Open it
once there is something to write.
---
 src/main.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3d7c630..6278938 100644
--- a/src/main.c
+++ b/src/main.c
@@ -133,17 +133,6 @@ int main(int argc, char *argv[])
       FATAL(_("Default format %s is not supported"), DEFAULT_FORMAT);
   }
 
-  /* Open output file */
-  if (!strcmp(output_name, ""))
-    output_file = stdout;
-  else {
-    output_file = fopen(output_name, "wb");
-    if (output_file == NULL) {
-      perror(output_name);
-      exit(errno);
-    }
-  }
-
   /* Open the main input file.  */
   if (input_reader != NULL) {
     bitmap = at_bitmap_read(input_reader, input_name, input_opts, exception_handler, NULL);
@@ -181,6 +170,17 @@ int main(int argc, char *argv[])
     fclose(dump_file);
   }
 
+  /* Open output file */
+  if (!strcmp(output_name, ""))
+    output_file = stdout;
+  else {
+    output_file = fopen(output_name, "wb");
+    if (output_file == NULL) {
+      perror(output_name);
+      exit(errno);
+    }
+  }
+
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-- 
2.43.0


From 1ef0378c724dc989a0835570f107e258d613b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 91/99] fix: failures while writing the output went unnoticed

With a full disk a truncated file was left behind and the exit status was 0.
---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6278938..c125a20 100644
--- a/src/main.c
+++ b/src/main.c
@@ -184,8 +184,10 @@ int main(int argc, char *argv[])
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-  if (output_file != stdout)
-    fclose(output_file);
+  if (ferror(output_file) || (output_file != stdout ? fclose(output_file) : fflush(output_file)) != 0) {
+    perror(output_file != stdout ? output_name : "stdout");
+    exit(1);
+  }
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
-- 
2.43.0


From b1f4d2501384ff1621a4e41f6aee639aab7d1c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 92/99] fix: -log mixed the log into output written to stdout

---
 src/logreport.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logreport.h b/src/logreport.h
index 4c58f08..16948ac 100644
--- a/src/logreport.h
+++ b/src/logreport.h
@@ -20,7 +20,7 @@
 extern bool logging;
 
 #define LOG(...)								\
-  do { if (logging) fprintf (stdout, __VA_ARGS__); } while (0)
+  do { if (logging) fprintf (stderr, __VA_ARGS__); } while (0)
 
 /* Define common sorts of messages.  */
 
-- 
2.43.0


From 6f5b13937cbf57c56f06b6feefc3598c29855ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 93/99] fix: -debug-bitmap overwrote a file for input names
 with two dots

The image a.b.pbm was dumped into the file a.b.
---
 src/main.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index c125a20..6b76037 100644
--- a/src/main.c
+++ b/src/main.c
@@ -150,10 +150,9 @@ int main(int argc, char *argv[])
 
   /* Dump loaded bitmap if needed */
   if (dumping_bitmap) {
-    if (at_bitmap_get_planes(bitmap) == 1)
-      dumpfile_name = extend_filename(input_rootname, "dump.pgm");
-    else
-      dumpfile_name = extend_filename(input_rootname, "dump.ppm");
+    XMALLOC(dumpfile_name, strlen(input_rootname) + sizeof(".dump.pgm"));
+    strcpy(dumpfile_name, input_rootname);
+    strcat(dumpfile_name, at_bitmap_get_planes(bitmap) == 1 ? ".dump.pgm" : ".dump.ppm");
     dump_file = fopen(dumpfile_name, "wb");
     if (dump_file == NULL) {
       perror(dumpfile_name);
-- 
2.43.0


From 5c08d3cb65ff00bbcc3be58613a0cc8abf8fe8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:32 +0000
Subject: [PATCH 94/99] fix: the C++ interface reported success for output that
 was not written

Refusals of the output format and failures while writing were dropped.
---
 src/wrapper/autotrace.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 67a8daf..bc7510d 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -9,6 +9,12 @@ Autotrace::Autotrace(const std::string &inputFile, const std::string &outputFile
   autotrace_init();
 }
 
+static void keepMessage(const char *msg, at_msg_type type, void *data) {
+  if (type == AT_MSG_FATAL) {
+    *static_cast<std::string *>(data) = msg;
+  }
+}
+
 nonstd::expected<void, std::string> Autotrace::produceOutput() {
   const auto inputReader = at_input_get_handler(const_cast<char *>(inputFile.c_str()));
   if (inputReader == nullptr) {
@@ -41,13 +47,20 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Unable to open file " + outputFilePath);
   }
 
+  std::string message;
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
-                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
-
-  fclose(outputFile);
+                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepMessage, &message);
 
   at_splines_free(splines);
 
+  const auto failed = ferror(outputFile) != 0;
+  if ((fclose(outputFile) != 0 || failed) && message.empty()) {
+    message = "Unable to write file " + outputFilePath;
+  }
+  if (!message.empty()) {
+    return nonstd::make_unexpected(message);
+  }
+
   return nonstd::expected<void, std::string>();
 }
 
-- 
2.43.0


From 54ebce698be9447d08ab0378c772e14dcfcc1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:40 +0000
Subject: [PATCH 95/99] fix: the C++ interface converted truncated images and
 refused blank characters

Whether the image was read is known from the messages of the reader, not
from there being any pixels.
---
 src/wrapper/autotrace.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index bc7510d..17c28c2 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -26,12 +26,14 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Output writer cannot be determined for " + outputFilePath);
   }
 
+  std::string message;
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
-                                     const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
+                                     const_cast<at_input_opts_type *>(&options.inputOptions), keepMessage,
+                                     &message);
 
-  if (bitmap->bitmap == nullptr) {
+  if (!message.empty()) {
     at_bitmap_free(bitmap);
-    return nonstd::make_unexpected("Unable to open file " + inputFile);
+    return nonstd::make_unexpected("Unable to read file " + inputFile + ": " + message);
   }
 
   const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
@@ -47,7 +49,6 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Unable to open file " + outputFilePath);
   }
 
-  std::string message;
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
                    const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepMessage, &message);
 
-- 
2.43.0


From 99ff2fdd96b2be3520a7155c4c4022dd4830c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 96/99] fix: -log printed curves into output written to stdout

---
 src/spline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spline.c b/src/spline.c
index cfb2c00..bfe313b 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -18,10 +18,10 @@ void print_spline(spline_type s)
   assert(SPLINE_DEGREE(s) == LINEARTYPE || SPLINE_DEGREE(s) == CUBICTYPE);
 
   if (SPLINE_DEGREE(s) == LINEARTYPE)
-    fprintf(stdout, "(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
+    fprintf(stderr, "(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
 
   else if (SPLINE_DEGREE(s) == CUBICTYPE)
-    fprintf(stdout, "(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
+    fprintf(stderr, "(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
 }
 
 /* Evaluate the spline S at a given T value.  This is an implementation
-- 
2.43.0


From 3fff61d7a13f0bca8fd5b6863b84f286da55acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:31 +0000
Subject: [PATCH 97/99] fix: do not look for corners past the end of an open
 line

The search for the best corner near a candidate ran on to the last point
of the outline.  Near the end of an open line the surrounding points then
wrap around to its beginning, and the end itself could become a corner,
which leaves a curve of a single point behind.
---
 src/fit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index 601435d..4c1a163 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -524,7 +524,7 @@ static index_list_type find_corners(pixel_outline_type pixel_outline, fitting_op
         /* Exit the loop if we've looked at `corner_surround'
            pixels past the best one we found, or if we've looked
            at all the pixels.  */
-        if (i >= best_corner_index + fitting_opts->corner_surround || i >= O_LENGTH(pixel_outline))
+        if (i >= best_corner_index + fitting_opts->corner_surround || i > end_p)
           break;
 
         /* Check the angle.  */
-- 
2.43.0


From 5c7e430a78b121d2cb153b825dbc01661a4258ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:31 +0000
Subject: [PATCH 98/99] fix: look at all neighbours for the stroke width on the
 top row

The left and right neighbours of a pixel on the first row were left out of
the maximum that gives the local stroke width.
---
 src/fit.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 4c1a163..22d064d 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -201,21 +201,17 @@ static spline_list_type fit_curve_list(curve_list_type curve_list, fitting_opts_
            is maximal.  Therefore, use as the local line width the
            maximum distance over the neighborhood of (x, y).  */
         width = dist->d[y][x];
+        if (x >= 1 && (w = dist->d[y][x - 1]) > width)
+          width = w;
+        if (x + 1 < dist->width && (w = dist->d[y][x + 1]) > width)
+          width = w;
         if (y >= 1) {
           if ((w = dist->d[y - 1][x]) > width)
             width = w;
-          if (x >= 1) {
-            if ((w = dist->d[y][x - 1]) > width)
-              width = w;
-            if ((w = dist->d[y - 1][x - 1]) > width)
-              width = w;
-          }
-          if (x + 1 < dist->width) {
-            if ((w = dist->d[y][x + 1]) > width)
-              width = w;
-            if ((w = dist->d[y - 1][x + 1]) > width)
-              width = w;
-          }
+          if (x >= 1 && (w = dist->d[y - 1][x - 1]) > width)
+            width = w;
+          if (x + 1 < dist->width && (w = dist->d[y - 1][x + 1]) > width)
+            width = w;
         }
         if (y + 1 < height) {
           if ((w = dist->d[y + 1][x]) > width)
-- 
2.43.0


From 960cabd0608e52cbca19d6e248061496655bcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:22:45 +0000
Subject: [PATCH 99/99] fix: take the ends of lines into the box that decides a
 FIG object's depth

---
 src/output-fig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 99d1e44..fa3a267 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -212,7 +212,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
         pointx[pointcount] = FIG_X(END_POINT(s).x);
         pointy[pointcount] = FIG_Y(END_POINT(s).y);
         contrl[pointcount] = (float) 0.0;
-        fig_addtobbox(START_POINT(s).x, START_POINT(s).y);
+        fig_addtobbox(END_POINT(s).x, END_POINT(s).y);
         pointcount++;
       } else {                  /* Assume Bezier like spline */
 
-- 
2.43.0

