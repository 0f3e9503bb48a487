From 91e9953c6e37c8c991677136f7164704fd97bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 01/48] fix: keep the dirty boxes of earlier dabs of a
 transaction

The number of bounding boxes in use was overwritten by each dab, so a
final dab that changed nothing, or used fewer symmetry boxes, made
end_atomic report too few rectangles and left stale boxes behind for the
next transaction. The counter was also read uninitialised by the first
begin_atomic.
---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..69fd04c 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Earlier dabs of the same transaction may have used more boxes than this one.
+    self->num_bboxes_dirtied = MAX(self->num_bboxes_dirtied, MIN(self->num_bboxes, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -949,6 +950,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From 9d897c957867ccfc44f209012982833a6daa8425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 02/48] fix: do not write rectangles into an empty array in
 end_atomic

With num_rectangles == 0 the merging code wrote to rectangles[-1].
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 69fd04c..57a3874 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -120,7 +120,7 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
 
     operation_queue_clear_dirty_tiles(self->operation_queue);
 
-    if (roi) {
+    if (roi && roi->num_rectangles > 0) {
         const int roi_rects = roi->num_rectangles;
         const int num_dirty = self->num_bboxes_dirtied;
         // Clear out the input rectangles that will be overwritten
-- 
2.43.0


From 8243290ef98df3b21d080da71e50365650a5bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 03/48] fix: keep colorize luminance arithmetic in range

The luminance difference of two 15 bit values does not fit in an int16_t,
and a rounded luminance equal to the extreme channel divided by zero.
---
 brushmodes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..ecbc2a0 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -209,7 +209,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = botlum - toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
@@ -217,6 +217,7 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // Spec: ClipColor()
     // Clip out of band values
     int32_t lum = LUMA(r, g, b) / (1<<15);
+    lum = CLAMP(lum, 0, (1<<15)); // rounding may push it out, to cmin or cmax
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
     if (cmin < 0) {
-- 
2.43.0


From eae707d21317517a2e33b0cef389575210c4e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/48] fix: keep posterized colors within alpha

---
 brushmodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brushmodes.c b/brushmodes.c
index ecbc2a0..3c4f145 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -147,8 +147,11 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       float b = (float)rgba[2] / (1<<15);
 
       uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
+      post_r = MIN(post_r, rgba[3]);
       uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
+      post_g = MIN(post_g, rgba[3]);
       uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+      post_b = MIN(post_b, rgba[3]);
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From b38a67951fefc30365bcb7d2407951bedcce163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 05/48] fix: clamp posterize_num before converting it to an
 integer

---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 57a3874..45ee197 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -637,7 +637,7 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
     op->lock_alpha = CLAMP(lock_alpha, 0.0f, 1.0f);
     op->colorize = CLAMP(colorize, 0.0f, 1.0f);
     op->posterize = CLAMP(posterize, 0.0f, 1.0f);
-    op->posterize_num= CLAMP(ROUND(posterize_num * 100.0), 1, 128);
+    op->posterize_num= ROUND(CLAMP(posterize_num * 100.0, 1, 128));
     op->paint = CLAMP(paint, 0.0f, 1.0f);
     if (op->radius < 0.1f) return FALSE; // don't bother with dabs smaller than 0.1 pixel
     if (op->hardness == 0.0f) return FALSE; // infintly small center point, fully transparent outside
-- 
2.43.0


From 5afe6aad08cb2d00b4c42d466a3b3bcbc9b089d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 06/48] fix: start fixed surfaces with valid (opaque white)
 pixels

---
 mypaint-fixed-tiled-surface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..3c20783 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -123,7 +123,10 @@ mypaint_fixed_tiled_surface_new(int width, int height)
         free(self);
         return NULL;
     }
-    memset(buffer, 255, buffer_size);
+    // Opaque white
+    for (size_t i = 0; i < buffer_size / sizeof(uint16_t); i++) {
+        buffer[i] = 1 << 15;
+    }
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-- 
2.43.0


From ac70db51ac59445cc7ddfe41ef67ee432bca9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 07/48] fix: compute the size of large fixed surfaces without
 int overflow

---
 mypaint-fixed-tiled-surface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 3c20783..e840510 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -111,11 +111,11 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     const int tiles_width = ceil((float)width / tile_size_pixels);
     const int tiles_height = ceil((float)height / tile_size_pixels);
     const size_t tile_size = tile_size_pixels * tile_size_pixels * 4 * sizeof(uint16_t);
-    const size_t buffer_size = tiles_width * tiles_height * tile_size;
+    const size_t buffer_size = (size_t)tiles_width * tiles_height * tile_size;
 
     assert(tile_size_pixels*tiles_width >= width);
     assert(tile_size_pixels*tiles_height >= height);
-    assert(buffer_size >= width*height*4*sizeof(uint16_t));
+    assert(buffer_size >= (size_t)width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     if (!buffer) {
-- 
2.43.0


From bc232af77cf6dbfdcec4380e0afc7d137c07419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 08/48] fix: fail cleanly when a fixed surface cannot be
 allocated

---
 mypaint-fixed-tiled-surface.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index e840510..e471f43 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -100,6 +100,9 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(height > 0);
 
     MyPaintFixedTiledSurface *self = (MyPaintFixedTiledSurface *)malloc(sizeof(MyPaintFixedTiledSurface));
+    if (!self) {
+        return NULL;
+    }
 
     mypaint_tiled_surface_init(&self->parent, tile_request_start, tile_request_end);
 
@@ -118,8 +121,12 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     assert(buffer_size >= (size_t)width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
-    if (!buffer) {
+    self->null_tile = (uint16_t *)malloc(tile_size);
+    if (!buffer || !self->null_tile) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        free(buffer);
+        free(self->null_tile);
+        mypaint_tiled_surface_destroy(&self->parent);
         free(self);
         return NULL;
     }
@@ -130,7 +137,6 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-    self->null_tile = (uint16_t *)malloc(tile_size);
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 1fefe1b0e2c3d78cf3076f7c8815c9189325384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 09/48] fix: free the payloads, not just the items, of a
 discarded fifo

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 24b7c91ac6185d921c3439128d788cf94f5a45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 10/48] fix: do not abort when a tile is queued again while all
 tiles are dirty

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..e711ea7 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the pruned list is still full, then it already holds every tile of the map
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 31227b0f04d5cda37218bb28f9e4b1f8964de843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 11/48] fix: keep the box index of snowflake dabs in range

The boxes can be fewer than the dabs when growing their array failed.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 45ee197..7399038 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From a841f84e0bfe70e823d7d4e125bb5ac094b31d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 12/48] fix: avoid 0/0 in the lock-alpha spectral blend of
 nearly transparent pixels

---
 brushmodes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 3c4f145..38c47d3 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -462,7 +462,8 @@ void draw_dab_pixels_BlendMode_LockAlpha_Paint (uint16_t * mask,
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
       opa_a *= rgba[3];
       opa_a /= (1<<15);
-      if (rgba[3] <= 0) {
+      // There is also nothing to mix when both weights round down to zero
+      if (rgba[3] <= 0 || opa_a + opa_b * rgba[3] / (1<<15) == 0) {
         rgba[0] = (opa_a*color_r + opa_b*rgba[0])/(1<<15);
         rgba[1] = (opa_a*color_g + opa_b*rgba[1])/(1<<15);
         rgba[2] = (opa_a*color_b + opa_b*rgba[2])/(1<<15);
-- 
2.43.0


From b60d169b8eb58da40ce7fdba8ca087892a6e0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:21 +0000
Subject: [PATCH 13/48] fix: keep the sampling interval of huge radii within 16
 bits

It is passed as uint16_t, and an interval of 0 divides by zero.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 7399038..6591c78 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -853,7 +853,7 @@ void get_color (MyPaintSurface *surface, float x, float y,
     //
     // For really small radii we'll sample every pixel
     // in the dab to avoid biasing.
-    const int sample_interval = radius <= 2.0f ? 1 : (int)(radius * 7);
+    const int sample_interval = radius <= 2.0f ? 1 : (int)MIN(radius * 7, UINT16_MAX);
     const float random_sample_rate = 1.0f / (7 * radius);
 
     #pragma omp parallel for schedule(static) if(self->threadsafe_tile_requests && tiles_n > 3)
-- 
2.43.0


From b3c185e9222ebfb3bd5c711f7a966192f7632725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 14/48] fix: ignore dabs and samples at coordinates no tile map
 can hold

Their tile indices overflow int, and the map outgrows all memory.
---
 mypaint-tiled-surface.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 6591c78..83dbef7 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -607,6 +607,16 @@ update_dirty_bbox(MyPaintRectangle *bbox, OperationDataDrawDab *op)
     mypaint_rectangle_expand_to_include_point(bbox, bb_x+bb_w-1, bb_y+bb_h-1);
 }
 
+// The tile map cannot grow far enough to hold tiles beyond this distance (in pixels)
+#define MAX_DISTANCE (20000.0f * MYPAINT_TILE_SIZE)
+
+// Also false for coordinates that are not numbers
+static gboolean
+area_is_addressable(float x, float y, float r)
+{
+    return fabsf(x) + r < MAX_DISTANCE && fabsf(y) + r < MAX_DISTANCE;
+}
+
 // returns TRUE if the surface was modified
 gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
                float radius,
@@ -665,7 +675,8 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
 
     // Determine the tiles influenced by operation, and queue it for processing for each tile
     float r_fringe = radius + 1.0f; // +1.0 should not be required, only to be sure
-      
+    if (!area_is_addressable(x, y, r_fringe)) return FALSE;
+
     int tx1 = floor(floor(x - r_fringe) / MYPAINT_TILE_SIZE);
     int tx2 = floor(floor(x + r_fringe) / MYPAINT_TILE_SIZE);
     int ty1 = floor(floor(y - r_fringe) / MYPAINT_TILE_SIZE);
@@ -826,6 +837,10 @@ void get_color (MyPaintSurface *surface, float x, float y,
     // WARNING: some code duplication with draw_dab
 
     float r_fringe = radius + 1.0f; // +1 should not be required, only to be sure
+    if (!area_is_addressable(x, y, r_fringe)) {
+        *color_a = 0.0f;
+        return;
+    }
 
     int tx1 = floor(floor(x - r_fringe) / MYPAINT_TILE_SIZE);
     int tx2 = floor(floor(x + r_fringe) / MYPAINT_TILE_SIZE);
-- 
2.43.0


From 52eab5aa35eaa626f80fcc6bb1cb40e6d889dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:12 +0000
Subject: [PATCH 15/48] fix: index whole smudge buckets, and only existing ones

The bucket accessors and the reset took the index of a bucket for the index
of a float, negative indices passed the check, and buckets that were set
rather than painted with were not cleared by a reset.
---
 mypaint-brush.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..21df89f 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
@@ -443,6 +443,18 @@ mypaint_brush_set_state(MyPaintBrush *self, MyPaintBrushState i, float value)
     assert (i < MYPAINT_BRUSH_STATES_COUNT);
     self->states[i] = value;
 }
+
+static void
+mark_smudge_bucket_used(MyPaintBrush *self, int bucket_index)
+{
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
+}
+
 /**
  * mypaint_brush_set_smudge_bucket_state: (skip)
  *
@@ -459,8 +471,9 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    mark_smudge_bucket_used(self, bucket_index);
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +504,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    const float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
@@ -908,12 +921,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
       return &STATE(self, SMUDGE_RA);
     }
     const int bucket_index = CLAMP(roundf(SETTING(self, SMUDGE_BUCKET)), 0, self->num_buckets - 1);
-    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
-      self->min_bucket_used = bucket_index;
-    }
-    if (self->max_bucket_used < bucket_index) {
-      self->max_bucket_used = bucket_index;
-    }
+    mark_smudge_bucket_used(self, bucket_index);
     return &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
   }
 
-- 
2.43.0


From 1f462f11a4af981ff7861a011dc6a74343d3ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 16/48] fix: do not return mixed colors in a buffer shared by
 all brushes

Threads raced on it, and for paint modes outside of 0..1 its previous
content ended up in the result.
---
 helpers.c       | 8 +++-----
 helpers.h       | 2 +-
 mypaint-brush.c | 6 ++++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/helpers.c b/helpers.c
index d0a227c..91efffb 100644
--- a/helpers.c
+++ b/helpers.c
@@ -561,10 +561,10 @@ spectral_to_rgb (float *spectral, float *rgb_) {
 
 //function to make it easy to blend two spectral colors via weighted geometric mean
 //a is the current smudge state, b is the get_color or brush color
-float * mix_colors(float *a, float *b, float fac, float paint_mode)
+void mix_colors(float *a, float *b, float fac, float paint_mode, float *result)
 {
-  static float result[4] = {0};  
-  
+  result[0] = result[1] = result[2] = 0.0f;
+
   float opa_a = fac;
   float opa_b = 1.0-opa_a;
   result[3] = CLAMP(opa_a * a[3] + opa_b * b[3], 0.0f, 1.0f);
@@ -601,8 +601,6 @@ float * mix_colors(float *a, float *b, float fac, float paint_mode)
       result[i] = result[i] * paint_mode + (1-paint_mode) * (a[i] * opa_a + b[i] * opa_b);
     }
   }
-
-  return result;
 }
 
 #endif //HELPERS_C
diff --git a/helpers.h b/helpers.h
index 0cb252c..d457627 100644
--- a/helpers.h
+++ b/helpers.h
@@ -41,7 +41,7 @@ float mod_arith(float a, float N);
 
 float smallest_angular_difference(float angleA, float angleB);
 
-float * mix_colors(float *a, float *b, float fac, float paint_mode);
+void mix_colors(float *a, float *b, float fac, float paint_mode, float *result);
 
 void
 rgb_to_spectral (float r, float g, float b, float *spectral_);
diff --git a/mypaint-brush.c b/mypaint-brush.c
index 21df89f..1a978ed 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -991,7 +991,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
                                         smudge_bucket[SMUDGE_A]};
           float sampled_color[4] = {r, g, b, a};
 
-          float* smudge_new = mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor);
+          float smudge_new[4];
+          mix_colors(prev_smudge_color, sampled_color, update_factor, paint_factor, smudge_new);
           smudge_bucket[SMUDGE_R] = smudge_new[SMUDGE_R];
           smudge_bucket[SMUDGE_G] = smudge_new[SMUDGE_G];
           smudge_bucket[SMUDGE_B] = smudge_new[SMUDGE_B];
@@ -1027,7 +1028,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               float smudge_color[4] = {smudge_bucket[SMUDGE_R], smudge_bucket[SMUDGE_G], smudge_bucket[SMUDGE_B],
                                        smudge_bucket[SMUDGE_A]};
               float brush_color[4] = {*color_r, *color_g, *color_b, 1.0};
-              float* color_new = mix_colors(smudge_color, brush_color, smudge_factor, paint_factor);
+              float color_new[4];
+              mix_colors(smudge_color, brush_color, smudge_factor, paint_factor, color_new);
               *color_r = color_new[SMUDGE_R];
               *color_g = color_new[SMUDGE_G];
               *color_b = color_new[SMUDGE_B];
-- 
2.43.0


From 0013ee2750ae47a85b458bd8e51699274203d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 17/48] fix: initialize the setting values of a new brush

The grid map inputs use the values of the previous step, of which there is
none for the first one.
---
 mypaint-brush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 1a978ed..ad8b659 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -215,6 +215,7 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
     }
     self->rng = rng_double_new(1000);
+    memset(self->settings_value, 0, sizeof(self->settings_value));
     self->random_input = 0;
     self->print_inputs = FALSE;
 
-- 
2.43.0


From 8bbc219698f02e6a52b0a83e43300d9c48e90be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 18/48] fix: keep a usable zoom level when ignoring insane
 coordinates

A zoom of zero is divided by, making the dab position infinite or NaN.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index ad8b659..d6c2555 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1344,7 +1344,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0;
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
-- 
2.43.0


From d77cc0b54b25fa3edbd85ce96552c832d19078cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 19/48] fix: shield against all coordinates that fail the
 assertion

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index d6c2555..e40c46e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1338,7 +1338,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
 
     if (pressure <= 0.0) pressure = 0.0;
     if (!isfinite(x) || !isfinite(y) ||
-        (x > 1e10 || y > 1e10 || x < -1e10 || y < -1e10)) {
+        (x >= 1e8 || y >= 1e8 || x <= -1e8 || y <= -1e8)) {
       // workaround attempt for https://gna.org/bugs/?14372
       printf("Warning: ignoring brush::stroke_to with insane inputs (x = %f, y = %f)\n", (double)x, (double)y);
       x = 0.0;
-- 
2.43.0


From 1086d8482c57a84b5a803c096af24cf7b8ebc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 20/48] fix: shield against pressure, tilt, view and time that
 are not finite

They abort, or turn brush states into NaN, which those never recover from.
---
 mypaint-brush.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index e40c46e..4deba14 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1318,6 +1318,14 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     float tilt_declination = 90.0;
     float tilt_declinationx = 90.0;
     float tilt_declinationy = 90.0;
+    // shield us from insane input
+    if (!isfinite(pressure)) pressure = 0.0;
+    if (!isfinite(xtilt) || !isfinite(ytilt)) xtilt = ytilt = 0.0;
+    if (!isfinite(viewzoom) || viewzoom <= 0.0) viewzoom = 1.0;
+    if (!isfinite(viewrotation)) viewrotation = 0.0;
+    if (!isfinite(barrel_rotation)) barrel_rotation = 0.0;
+    if (!isfinite(dtime)) dtime = 0.0;
+
     if (xtilt != 0 || ytilt != 0) {
       // shield us from insane tilt input
       xtilt = CLAMP(xtilt, -1.0, 1.0);
-- 
2.43.0


From d5e889f173287d400cbe1e99e4a27123052847a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 21/48] fix: always make progress towards the next event

At large coordinates, a small step is lost to rounding, and the loop drawing
the dabs never ended.
---
 mypaint-brush.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 4deba14..5fb117d 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1459,6 +1459,13 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         frac = step_ddab / dabs_todo;
         step_dx        = frac * (x - STATE(self, X));
         step_dy        = frac * (y - STATE(self, Y));
+        // don't let rounding keep us from getting there
+        if (step_dx && STATE(self, X) + step_dx == STATE(self, X)) {
+            step_dx = nextafterf(STATE(self, X), x) - STATE(self, X);
+        }
+        if (step_dy && STATE(self, Y) + step_dy == STATE(self, Y)) {
+            step_dy = nextafterf(STATE(self, Y), y) - STATE(self, Y);
+        }
         step_dpressure = frac * (pressure - STATE(self, PRESSURE));
         step_dtime     = frac * (dtime_left - 0.0);
         // Though it looks different, time is interpolated exactly like x/y/pressure.
-- 
2.43.0


From c43782e5bd3a8b29e7451e8bc457fa15b00cbe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 22/48] fix: give the event inserted before a late press the
 tilt of the press

It got an x tilt of 90 and no barrel rotation, from the time when these
arguments were angles. Only the pressure shall be kept from interpolation.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 5fb117d..1d9e61d 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1365,7 +1365,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
     if (dtime > 0.100 && pressure && STATE(self, PRESSURE) == 0) {
       // Workaround for tablets that don't report motion events without pressure.
       // This is to avoid linear interpolation of the pressure between two events.
-      mypaint_brush_stroke_to (self, surface, x, y, 0.0, 90.0, 0.0, dtime-0.0001, viewzoom, viewrotation, 0.0, linear);
+      mypaint_brush_stroke_to (self, surface, x, y, 0.0, xtilt, ytilt, dtime-0.0001, viewzoom, viewrotation, barrel_rotation, linear);
       dtime = 0.0001;
     }
 
-- 
2.43.0


From 4a8c7978ca4c0f9da77fb58ac86bdf2d33decbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 23/48] fix: reject brush files with malformed settings, inputs
 or curves

Values that are not objects were dereferenced as such, and curves with one,
more than 64 or unordered points failed assertions of the mapping.
---
 mypaint-brush.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 1d9e61d..59a0a3f 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1587,6 +1587,29 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// Check that the points can be used for a mapping, see mypaint_mapping_set_n and _set_point
+static gboolean
+mapping_points_are_valid(json_object *points)
+{
+    const int n = json_object_array_length(points);
+    if (n == 1 || n > 64) {
+        return FALSE;
+    }
+    float prev_x = 0.0;
+    for (int i = 0; i < n; i++) {
+        json_object *point = json_object_array_get_idx(points, i);
+        if (!json_object_is_type(point, json_type_array)) {
+            return FALSE;
+        }
+        const float x = json_object_get_double(json_object_array_get_idx(point, 0));
+        if (isnan(x) || (i > 0 && x < prev_x)) {
+            return FALSE;
+        }
+        prev_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1620,6 +1643,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong type of 'inputs' for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1636,6 +1663,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
 
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
+        if (!mapping_points_are_valid(input_obj)) {
+            fprintf(stderr, "Warning: Invalid points for input: %s of setting: %s\n", input_name, setting_name);
+            return FALSE;
+        }
+
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
 
         for (int i=0; i<number_of_mapping_points; i++) {
@@ -1675,6 +1707,11 @@ update_brush_from_json_object(MyPaintBrush *self)
         return FALSE;
     }
 
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type of 'settings' field for brush\n");
+        return FALSE;
+    }
+
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
       updated_any |= update_brush_setting_from_json_object(self, setting_name, setting_obj);
-- 
2.43.0


From 6a16246750e130b75cacf94cf4dbfe04c4dbc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:11 +0000
Subject: [PATCH 24/48] fix: fail cleanly when a brush cannot be allocated

---
 mypaint-brush.c   | 14 +++++++++++---
 mypaint-mapping.c |  7 +++++++
 rng-double.c      |  3 +++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 59a0a3f..0b2435d 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -137,6 +137,7 @@ struct MyPaintBrush {
 #define INPUT(input_name) (inputs[MYPAINT_BRUSH_INPUT_##input_name])
 
 void settings_base_values_have_changed (MyPaintBrush *self);
+void brush_free(MyPaintBrush *self);
 
 
 #include "glib/mypaint-brush.c"
@@ -211,10 +212,17 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     }
 
     self->refcount = 1;
+    gboolean allocated = TRUE;
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
+      allocated = allocated && self->settings[i];
     }
     self->rng = rng_double_new(1000);
+    self->brush_json = json_object_new_object();
+    if (!allocated || !self->rng || !self->brush_json) {
+      brush_free(self);
+      return NULL;
+    }
     memset(self->settings_value, 0, sizeof(self->settings_value));
     self->random_input = 0;
     self->print_inputs = FALSE;
@@ -226,8 +234,6 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
 
     self->reset_requested = TRUE;
 
-    self->brush_json = json_object_new_object();
-
     return self;
 }
 
@@ -235,7 +241,9 @@ void
 brush_free(MyPaintBrush *self)
 {
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
-        mypaint_mapping_free(self->settings[i]);
+        if (self->settings[i]) {
+            mypaint_mapping_free(self->settings[i]);
+        }
     }
     rng_double_free (self->rng);
     self->rng = NULL;
diff --git a/mypaint-mapping.c b/mypaint-mapping.c
index 347d0fe..58b3683 100644
--- a/mypaint-mapping.c
+++ b/mypaint-mapping.c
@@ -54,9 +54,16 @@ MyPaintMapping *
 mypaint_mapping_new(int inputs_)
 {
     MyPaintMapping *self = (MyPaintMapping *)malloc(sizeof(MyPaintMapping));
+    if (!self) {
+        return NULL;
+    }
 
     self->inputs = inputs_;
     self->pointsList = (ControlPoints *)malloc(sizeof(ControlPoints)*self->inputs);
+    if (!self->pointsList) {
+        free(self);
+        return NULL;
+    }
     int i = 0;
     for (i=0; i<self->inputs; i++) self->pointsList[i].n = 0;
 
diff --git a/rng-double.c b/rng-double.c
index be79683..bcdea76 100644
--- a/rng-double.c
+++ b/rng-double.c
@@ -72,6 +72,9 @@ RngDouble *
 rng_double_new(long seed)
 {
   RngDouble *self = (RngDouble *)malloc(sizeof(RngDouble));
+  if (!self) {
+    return NULL;
+  }
 
   self->ranf_arr_ptr=(double *)&ranf_arr_dummy;
 
-- 
2.43.0


From 35f8d7df29a13bf19c97d7584185fb1e09a5df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 25/48] fix: fail cleanly when the queue of a new surface
 cannot be allocated

---
 mypaint-fixed-tiled-surface.c |  2 +-
 mypaint-tiled-surface.c       |  4 +++-
 operationqueue.c              | 12 ++++++++++++
 tilemap.c                     |  7 +++++++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index e471f43..0544c61 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -122,7 +122,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     self->null_tile = (uint16_t *)malloc(tile_size);
-    if (!buffer || !self->null_tile) {
+    if (!buffer || !self->null_tile || !self->parent.operation_queue) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
         free(buffer);
         free(self->null_tile);
diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 83dbef7..bd67369 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -983,7 +983,9 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
 void
 mypaint_tiled_surface_destroy(MyPaintTiledSurface *self)
 {
-    operation_queue_free(self->operation_queue);
+    if (self->operation_queue) {
+        operation_queue_free(self->operation_queue);
+    }
     if (self->bboxes != self->default_bboxes) {
       free(self->bboxes);
     }
diff --git a/operationqueue.c b/operationqueue.c
index e711ea7..46b57e5 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -92,6 +92,9 @@ OperationQueue *
 operation_queue_new(void)
 {
     OperationQueue *self = (OperationQueue *)malloc(sizeof(OperationQueue));
+    if (!self) {
+        return NULL;
+    }
 
     self->tile_map = NULL;
     self->dirty_tiles_n = 0;
@@ -103,6 +106,15 @@ operation_queue_new(void)
     operation_queue_resize(self, 10);
 #endif
 
+    if (!self->tile_map || !self->dirty_tiles) {
+        if (self->tile_map) {
+            tile_map_free(self->tile_map, FALSE);
+        }
+        free(self->dirty_tiles);
+        free(self);
+        return NULL;
+    }
+
     return self;
 }
 
diff --git a/tilemap.c b/tilemap.c
index efc29a0..84b2074 100644
--- a/tilemap.c
+++ b/tilemap.c
@@ -25,12 +25,19 @@ TileMap *
 tile_map_new(int size, size_t item_size, TileMapItemFreeFunc item_free_func)
 {
     TileMap *self = (TileMap *)malloc(sizeof(TileMap));
+    if (!self) {
+        return NULL;
+    }
 
     self->size = size;
     self->item_size = item_size;
     self->item_free_func = item_free_func;
     const int map_size = 2*self->size*2*self->size;
     self->map = malloc(map_size*self->item_size);
+    if (!self->map) {
+        free(self);
+        return NULL;
+    }
     for(int i = 0; i < map_size; i++) {
         self->map[i] = NULL;
     }
-- 
2.43.0


From 81b63df9867e9b56b9e148130cd6ad7965ff9a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 26/48] fix: do not choose the sampled pixels with the global
 random generator

The sequence of rand() depends on whatever else uses it, so that the same
stroke came out differently, and differently again with more threads.
---
 brushmodes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brushmodes.c b/brushmodes.c
index 38c47d3..b34c5f0 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -582,13 +582,15 @@ void get_color_pixels_accumulate (uint16_t * mask,
   // Ideally, the selection of pixels to be sampled should
   // be determined before this function is called.
   uint16_t interval_counter = 0;
-  const int random_sample_threshold = (int)(random_sample_rate * RAND_MAX);
+  const uint32_t random_sample_threshold = (uint32_t)(random_sample_rate * (1 << 24));
+  uint32_t random_state = 1;
 
   while (1) {
     for (; mask[0]; mask++, rgba+=4) {
       // Sample every n pixels, and a percentage of the rest.
       // At least one pixel (the first) will always be sampled.
-      if (interval_counter == 0 || rand() < random_sample_threshold) {
+      random_state = random_state * 1664525u + 1013904223u;
+      if (interval_counter == 0 || (random_state >> 8) < random_sample_threshold) {
 
         float a = (float)mask[0] * rgba[3] / (1 << 30);
         float alpha_sums = a + *sum_a;
-- 
2.43.0


From dce55fb7f5ac6a290b39adcf009fc5140e937202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 27/48] fix: do not call an uninitialized save_png

---
 mypaint-tiled-surface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index bd67369..39500b4 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -957,6 +957,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->parent.get_color = get_color;
     self->parent.begin_atomic = begin_atomic_default;
     self->parent.end_atomic = end_atomic_default;
+    self->parent.save_png = NULL;
 
     self->tile_request_end = tile_request_end;
     self->tile_request_start = tile_request_start;
-- 
2.43.0


From c5c65b29c08b3e3425b0cbc5c0b74ff9955d0b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:16 +0000
Subject: [PATCH 28/48] fix: do not treat a suppressed smudge sample as the
 current colour

The sample was marked as recent although its colour was dropped, so the
following dabs that reuse the last sample painted with a stale colour, or
erased the canvas when nothing had been picked up yet.
---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0b2435d..fd2c450 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -960,7 +960,6 @@ void print_inputs(MyPaintBrush *self, float* inputs)
               // first initialization of smudge color (initiate with color sampled from canvas)
               update_factor = 0.0;
           }
-          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
 
           const float radius_log = SETTING(self, SMUDGE_RADIUS_LOG);
           const float smudge_radius = CLAMP(radius * expf(radius_log), ACTUAL_RADIUS_MIN, ACTUAL_RADIUS_MAX);
@@ -977,6 +976,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
           if ((smudge_op_lim > 0.0 && a < smudge_op_lim) || (smudge_op_lim < 0.0 && a > -smudge_op_lim)) {
               return TRUE; // signals the caller to return early
           }
+          smudge_bucket[PREV_COL_RECENTNESS] = 1.0;
           smudge_bucket[PREV_COL_R] = r;
           smudge_bucket[PREV_COL_G] = g;
           smudge_bucket[PREV_COL_B] = b;
-- 
2.43.0


From 70d10f3f1d3087bda6954485c27210cfad6dc148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:34 +0000
Subject: [PATCH 29/48] fix: colour sampling in mixed mode no longer depends on
 tile order

Each tile mixed the spectral with the additive average and fed the mix into
the next tile, so the result depended on the order of the tiles, which is
not fixed when they are processed in parallel. Average both separately and
mix the results once.
---
 mypaint-tiled-surface.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 39500b4..e48b486 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -829,6 +829,12 @@ void get_color (MyPaintSurface *surface, float x, float y,
     float sum_weight, sum_r, sum_g, sum_b, sum_a;
     sum_weight = sum_r = sum_g = sum_b = sum_a = 0.0f;
 
+    // When mixing additive and spectral sampling, the spectral average is accumulated
+    // separately, so that the result does not depend on the order of the tiles.
+    const gboolean mixed_sampling = paint > 0.0f && paint < 1.0f;
+    float spectral_weight, spectral_r, spectral_g, spectral_b, spectral_a;
+    spectral_weight = spectral_r = spectral_g = spectral_b = spectral_a = 0.0f;
+
     // in case we return with an error
     *color_r = 0.0f;
     *color_g = 1.0f;
@@ -905,8 +911,13 @@ void get_color (MyPaintSurface *surface, float x, float y,
         #pragma omp critical
         {
         get_color_pixels_accumulate (
-          mask, rgba_p, &sum_weight, &sum_r, &sum_g, &sum_b, &sum_a, paint,
+          mask, rgba_p, &sum_weight, &sum_r, &sum_g, &sum_b, &sum_a, mixed_sampling ? 0.0f : paint,
           sample_interval, random_sample_rate);
+        if (mixed_sampling) {
+          get_color_pixels_accumulate (
+            mask, rgba_p, &spectral_weight, &spectral_r, &spectral_g, &spectral_b, &spectral_a, 1.0f,
+            sample_interval, random_sample_rate);
+        }
         }
 
         mypaint_tiled_surface_tile_request_end(self, &request_data);
@@ -916,6 +927,12 @@ void get_color (MyPaintSurface *surface, float x, float y,
     assert(sum_weight > 0.0f);
     sum_a /= sum_weight;
 
+    if (mixed_sampling) {
+        sum_r = spectral_r * paint + (1.0f - paint) * sum_r;
+        sum_g = spectral_g * paint + (1.0f - paint) * sum_g;
+        sum_b = spectral_b * paint + (1.0f - paint) * sum_b;
+    }
+
     // For legacy sampling, we need to divide
     // by the total after the accumulation.
     if (paint < 0.0) {
-- 
2.43.0


From a49396b8132801a5dfcd4aa7350cb83bfe57308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:49 +0000
Subject: [PATCH 30/48] fix: evaluate the grid map with the base scale on the
 first step after a reset

The grid position is computed with the setting values of the step before.
On the first step of a new brush these were all zero, which put it at grid
position 0 wherever it was, and after a reset they were those of the last
step of an unrelated stroke. Start from the base values instead.
---
 mypaint-brush.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index fd2c450..7ea71d2 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -154,6 +154,10 @@ brush_reset(MyPaintBrush *self)
     // Set the flip state such that it will be at "1" for the first
     // dab, and then switch between -1 and 1 for the subsequent dabs.
     STATE(self, FLIP) = -1;
+    // Settings have their base values until the first step is made
+    for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
+      self->settings_value[i] = mypaint_mapping_get_base_value(self->settings[i]);
+    }
     // Clear smudge buckets
     if (self->smudge_buckets) {
       int min_index = self->min_bucket_used;
@@ -223,7 +227,6 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
       brush_free(self);
       return NULL;
     }
-    memset(self->settings_value, 0, sizeof(self->settings_value));
     self->random_input = 0;
     self->print_inputs = FALSE;
 
-- 
2.43.0


From 948842f67c28b81f946ee0d05adb6d6ad4186a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 31/48] fix: ignore dabs with parameters that are not numbers

Clamping does not catch NaN, and a posterize_num of NaN turned into zero
levels, by which the posterize mode then divided.
---
 mypaint-tiled-surface.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index e48b486..1c15a06 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -636,6 +636,15 @@ gboolean draw_dab_internal (MyPaintTiledSurface *self, float x, float y,
     OperationDataDrawDab op_struct;
     OperationDataDrawDab *op = &op_struct;
 
+    // NaN passes through all the clamping below, and there is nothing sensible to paint from it
+    if (isnan(color_r) || isnan(color_g) || isnan(color_b) || isnan(color_a) ||
+        isnan(opaque) || isnan(hardness) || isnan(softness) ||
+        !isfinite(aspect_ratio) || !isfinite(angle) ||
+        isnan(lock_alpha) || isnan(colorize) || isnan(posterize) ||
+        isnan(posterize_num) || isnan(paint)) {
+        return FALSE;
+    }
+
     op->x = x;
     op->y = y;
     op->radius = radius;
-- 
2.43.0


From 57811f446e09d1410df86421fed13aa5e509de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 32/48] fix: keep NaN out of the brush states when dynamics
 overflow

A grid map scale or stroke duration driven far out of range, or a curve
overflowing to infinity, put NaN into the grid map and stroke inputs and
from there into any setting, and some states then stayed NaN for good.
---
 mypaint-brush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 7ea71d2..60cbffa 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -756,7 +756,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     { // Gridmap state update
         const float x = STATE(self, ACTUAL_X);
         const float y = STATE(self, ACTUAL_Y);
-        const float scale = expf(SETTING(self, GRIDMAP_SCALE));
+        const float scale = expf(CLAMP(SETTING(self, GRIDMAP_SCALE), -50.0f, 50.0f));
         const float scale_x = SETTING(self, GRIDMAP_SCALE_X);
         const float scale_y = SETTING(self, GRIDMAP_SCALE_Y);
         const float scaled_size = scale * GRID_SIZE;
@@ -841,7 +841,9 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     }
 
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
-      self->settings_value[i] = mypaint_mapping_calculate(self->settings[i], (inputs));
+      const float value = mypaint_mapping_calculate(self->settings[i], (inputs));
+      // ignore dynamics that overflow
+      self->settings_value[i] = isfinite(value) ? value : mypaint_mapping_get_base_value(self->settings[i]);
     }
 
     STATE(self, DABS_PER_BASIC_RADIUS) = SETTING(self, DABS_PER_BASIC_RADIUS);
@@ -902,7 +904,7 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     }
 
     { // stroke length
-      const float frequency = expf(-SETTING(self, STROKE_DURATION_LOGARITHMIC));
+      const float frequency = expf(-CLAMP(SETTING(self, STROKE_DURATION_LOGARITHMIC), -50.0f, 50.0f));
       const float stroke = MAX(0, STATE(self, STROKE) + norm_dist * frequency);
       const float wrap = 1.0 + MAX(0, SETTING(self, STROKE_HOLDTIME));
       // If the hold time is above 9.9, it is considered infinite, and if the stroke value has reached
-- 
2.43.0


From 5afa7c45207f012ae2c97ad89dc60e0f4504175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:33 +0000
Subject: [PATCH 33/48] fix: brush without smudge buckets reports no bucket as
 used

---
 mypaint-brush.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 60cbffa..1a05213 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -213,6 +213,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     } else {
       self->smudge_buckets = NULL;
       self->num_buckets = 0;
+      self->min_bucket_used = -1;
+      self->max_bucket_used = -1;
     }
 
     self->refcount = 1;
-- 
2.43.0


From fde76a8448f5f4ccac549c11b123b608e9c9eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:16 +0000
Subject: [PATCH 34/48] fix: painting on a replaced GEGL buffer keeps the
 buffer's own extent

The extent of the earlier buffer was used, which cut off the content of the new one.
---
 gegl/mypaint-gegl-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 0057d42..c921a38 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -77,7 +77,7 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
         read_write_flags = GEGL_BUFFER_READWRITE;
 
         // Extend the bounding box
-        gegl_rectangle_bounding_box(&self->extent_rect, &self->extent_rect, &tile_bbox);
+        gegl_rectangle_bounding_box(&self->extent_rect, gegl_buffer_get_extent(self->buffer), &tile_bbox);
         gboolean success = gegl_buffer_set_extent(self->buffer, &self->extent_rect);
         g_assert(success);
     }
-- 
2.43.0


From 84f168994dbb29621727a87838518c7f0a49a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 35/48] fix: sampling does not write to a GEGL buffer

Tiles requested for reading were written back to buffers of another format or tile size.
---
 gegl/mypaint-gegl-surface.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index c921a38..5645a43 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -133,14 +133,17 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
             request->context = NULL;
         }
     } else {
-        // Push our linear buffer back into the GeglBuffer
-        const int tile_size = tiled_surface->tile_size;
-        GeglRectangle tile_bbox;
-
         g_assert(request->buffer);
-        gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
-        gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
-                        request->buffer, GEGL_AUTO_ROWSTRIDE);
+
+        if (!request->readonly) {
+            // Push our linear buffer back into the GeglBuffer
+            const int tile_size = tiled_surface->tile_size;
+            GeglRectangle tile_bbox;
+
+            gegl_rectangle_set(&tile_bbox, request->tx*tile_size, request->ty*tile_size, tile_size, tile_size);
+            gegl_buffer_set(self->buffer, &tile_bbox, 0, self->format,
+                            request->buffer, GEGL_AUTO_ROWSTRIDE);
+        }
         gegl_free(request->buffer);
     }
 
-- 
2.43.0


From 65e3092a5e240d347490b0ee874cc31463940013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:30 +0000
Subject: [PATCH 36/48] fix: parallel tile requests of a GEGL surface do not
 lose paint

The extent of the buffer was grown by several threads at once.
---
 gegl/mypaint-gegl-surface.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index 5645a43..d55d1bd 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -61,7 +61,7 @@ alloc_for_format(const Babl *format, int pixels) {
 }
 
 static void
-tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
+locked_tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
 {
     MyPaintGeglTiledSurface *self = (MyPaintGeglTiledSurface *)tiled_surface;
 
@@ -121,7 +121,7 @@ tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *reque
 }
 
 static void
-tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
+locked_tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
 {
     MyPaintGeglTiledSurface *self = (MyPaintGeglTiledSurface *)tiled_surface;
 
@@ -149,6 +149,22 @@ tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request
 
 }
 
+// Tiles are processed in parallel, but neither growing the extent of the buffer
+// nor setting up and finishing the access to its tiles may be.
+static void
+tile_request_start(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
+{
+    #pragma omp critical (mypaint_gegl_buffer)
+    locked_tile_request_start(tiled_surface, request);
+}
+
+static void
+tile_request_end(MyPaintTiledSurface *tiled_surface, MyPaintTileRequest *request)
+{
+    #pragma omp critical (mypaint_gegl_buffer)
+    locked_tile_request_end(tiled_surface, request);
+}
+
 void
 save_png(MyPaintSurface *surface, const char *path,
          int x, int y, int width, int height)
-- 
2.43.0


From c7a1ce07441923b5ff04815112defcb3c10a91b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 37/48] fix: GEGL buffers shifted off the tile grid are painted
 on and sampled

Their tiles are not aligned with ours, so they need the copying access.
---
 gegl/mypaint-gegl-surface.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gegl/mypaint-gegl-surface.c b/gegl/mypaint-gegl-surface.c
index d55d1bd..eaf3783 100644
--- a/gegl/mypaint-gegl-surface.c
+++ b/gegl/mypaint-gegl-surface.c
@@ -44,14 +44,18 @@ buffer_is_native(MyPaintGeglTiledSurface *self) {
 
     int tile_height = -1;
     int tile_width = -1;
-    g_object_get(self->buffer, "tile-width", &tile_width, "tile-height", &tile_height, NULL);
+    int shift_x = 0;
+    int shift_y = 0;
+    g_object_get(self->buffer, "tile-width", &tile_width, "tile-height", &tile_height,
+                 "shift-x", &shift_x, "shift-y", &shift_y, NULL);
     g_assert(tile_height != -1);
     g_assert(tile_width != -1);
 
     const gboolean correct_format = gegl_buffer_get_format(self->buffer) == self->format;
     const gboolean correct_tile_size = tile_height == tile_size && tile_width == tile_size;
+    const gboolean aligned = shift_x % tile_size == 0 && shift_y % tile_size == 0;
 
-    return correct_format && correct_tile_size;
+    return correct_format && correct_tile_size && aligned;
 }
 
 void *
-- 
2.43.0


From 4d0749d7c36e73231c9ed128bd122f0bc038595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 38/48] fix: dabs of a tile that cannot be had are dropped

The first was leaked, the others kept later dabs on that tile from being processed.
---
 mypaint-tiled-surface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 1c15a06..a91acfa 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,10 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
         return;
     }
 
-- 
2.43.0


From 74c44ad3dcfa88df03f92f4fa18da74acbc61dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 39/48] fix: sampling where no tile can be had gives
 transparency instead of aborting

---
 mypaint-tiled-surface.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index a91acfa..d027719 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -937,7 +937,11 @@ void get_color (MyPaintSurface *surface, float x, float y,
       }
     }
 
-    assert(sum_weight > 0.0f);
+    if (sum_weight <= 0.0f) {
+        // None of the tiles was available
+        *color_a = 0.0f;
+        return;
+    }
     sum_a /= sum_weight;
 
     if (mixed_sampling) {
-- 
2.43.0


From 110c32ce733dce2fec69afcdc3060875dfc71c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 40/48] fix: anti-aliasing of tiny dabs does not make their
 hardness negative

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 1a05213..1d499ab 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1236,7 +1236,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       // Using Equation 1:
       float radius_new = (min_fadeout_in_pixels/(1.0 - hardness_new));
 
-      hardness = hardness_new;
+      hardness = MAX(hardness_new, 0.0f);
       radius = radius_new;
     }
 
-- 
2.43.0


From d89435b63775c0e000da4b9cb93fe9206badc366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 41/48] fix: tiny anti-aliasing amounts do not give dabs of
 infinite radius

---
 mypaint-brush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 1d499ab..92709e7 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1233,8 +1233,8 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       //
       // Solved Equation 1 for hardness_new, using Equation 2: (thanks to mathomatic)
       float hardness_new = ((current_optical_radius - (min_fadeout_in_pixels/2.0))/(current_optical_radius + (min_fadeout_in_pixels/2.0)));
-      // Using Equation 1:
-      float radius_new = (min_fadeout_in_pixels/(1.0 - hardness_new));
+      // Using Equation 1, with hardness_new substituted (it may round to 1.0):
+      float radius_new = current_optical_radius + (min_fadeout_in_pixels/2.0);
 
       hardness = MAX(hardness_new, 0.0f);
       radius = radius_new;
-- 
2.43.0


From f8e8d2a7f8baa8805448060b6574ea089e5779f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 42/48] fix: events of vanishing duration do not put NaN into
 the speed states

---
 mypaint-brush.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 92709e7..243ebbe 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -737,8 +737,9 @@ void print_inputs(MyPaintBrush *self, float* inputs)
     if (step_dtime < 0.0) {
       printf("Time is running backwards!\n");
       step_dtime = 0.001;
-    } else if (step_dtime == 0.0) {
-      // FIXME: happens about every 10th start, workaround (against division by zero)
+    } else if (step_dtime < 1e-20) {
+      // FIXME: happens about every 10th start, workaround (against division by zero,
+      // or by something so small that the speed overflows)
       step_dtime = 0.001;
     }
 
-- 
2.43.0


From 6ffcdb54253634bce6c867611cc7170e77b9540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:32 +0000
Subject: [PATCH 43/48] fix: smudge sampling far from the canvas does not
 overflow an int

The position of the dab was converted to int before it was handed to
get_color(), which is undefined when speed or random offsets put the dab
more than 2^31 pixels away.  Round without leaving floating point.
---
 mypaint-brush.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 243ebbe..7873fe4 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -944,8 +944,8 @@ void print_inputs(MyPaintBrush *self, float* inputs)
 
   gboolean
   update_smudge_color(
-      const MyPaintBrush* self, MyPaintSurface* surface, float* const smudge_bucket, const float smudge_length, int px,
-      int py, const float radius, const float legacy_smudge, const float paint_factor)
+      const MyPaintBrush* self, MyPaintSurface* surface, float* const smudge_bucket, const float smudge_length, float px,
+      float py, const float radius, const float legacy_smudge, const float paint_factor)
   {
 
       // Value between 0.01 and 1.0 that determines how often the canvas should be resampled
@@ -1152,7 +1152,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
         (SETTING(self, SMUDGE) != 0.0 || !mypaint_mapping_is_constant(self->settings[MYPAINT_BRUSH_SETTING_SMUDGE]))) {
         float* const bucket = fetch_smudge_bucket(self);
         gboolean return_early = update_smudge_color(
-            self, surface, bucket, smudge_length, ROUND(x), ROUND(y), radius, legacy_smudge, paint_factor);
+            self, surface, bucket, smudge_length, trunc(x + 0.5), trunc(y + 0.5), radius, legacy_smudge, paint_factor);
         if (return_early) {
           return FALSE;
         }
-- 
2.43.0


From e661d6870bc7552d084c23baddc024cb211bc634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:03 +0000
Subject: [PATCH 44/48] fix: huge line counts do not overflow the sizes of
 symmetry allocations

The number of symmetry lines only matters for rotational and snowflake
symmetry, but boxes were allocated for it with any type, with the size in
an int: after a type without lines was given 2^28 of them, the array was
far smaller than num_bboxes said.  The size of the matrices could wrap
around in the same way.
---
 mypaint-symmetry.c      | 6 ++++--
 mypaint-tiled-surface.c | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mypaint-symmetry.c b/mypaint-symmetry.c
index 76c870e..0ad4cd2 100644
--- a/mypaint-symmetry.c
+++ b/mypaint-symmetry.c
@@ -1,6 +1,7 @@
 #include "mypaint-symmetry.h"
 #include "helpers.h"
 
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -15,7 +16,7 @@ allocation_failure_warning(int num)
 gboolean
 allocate_symmetry_matrices(MyPaintSymmetryData* data, int num_matrices)
 {
-    int bytes = num_matrices * sizeof(MyPaintTransform);
+    const size_t bytes = num_matrices * sizeof(MyPaintTransform);
     void* allocated = realloc(data->symmetry_matrices, bytes);
     if (!allocated) {
         allocation_failure_warning(num_matrices);
@@ -154,7 +155,8 @@ mypaint_symmetry_set_pending(
     data->state_pending.center_x = center_x;
     data->state_pending.center_y = center_y;
     data->state_pending.type = symmetry_type;
-    data->state_pending.num_lines = MAX(2, rot_symmetry_lines);
+    // the upper limit keeps the number of dabs representable
+    data->state_pending.num_lines = CLAMP(rot_symmetry_lines, 2, INT_MAX / 4);
     data->state_pending.angle = symmetry_angle;
 
     data->pending_changes = TRUE;
diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index d027719..ea0ee42 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -51,14 +51,15 @@ void
 prepare_bounding_boxes(MyPaintTiledSurface *self) {
     MyPaintSymmetryState symm_state = self->symmetry_data.state_current;
     const gboolean snowflake = symm_state.type == MYPAINT_SYMMETRY_TYPE_SNOWFLAKE;
-    const int num_bboxes_desired = symm_state.num_lines * (snowflake ? 2 : 1);
+    const gboolean rotational = symm_state.type == MYPAINT_SYMMETRY_TYPE_ROTATIONAL;
+    const int num_bboxes_desired = snowflake ? 2 * symm_state.num_lines : rotational ? symm_state.num_lines : 4;
     // If the bounding box array cannot fit one rectangle per symmetry dab,
     // try to allocate enough space for that to be possible.
     // Failure is ok, as the bounding box assignments will be functional anyway.
     if (num_bboxes_desired > self->num_bboxes) {
         const int margin = 10; // Add margin to avoid unnecessary reallocations.
         const int num_to_allocate = num_bboxes_desired + margin;
-        int bytes_to_allocate = num_to_allocate * sizeof(MyPaintRectangle);
+        const size_t bytes_to_allocate = num_to_allocate * sizeof(MyPaintRectangle);
         MyPaintRectangle* new_bboxes = malloc(bytes_to_allocate);
         if (new_bboxes) {
             if (self->num_bboxes > NUM_BBOXES_DEFAULT) {
-- 
2.43.0


From ca14b94df09e1c7a58372b6bb7c595c67b57ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:46 +0000
Subject: [PATCH 45/48] fix: hues that are not finite are not converted to int

Conversion of the resulting NaN is undefined.
---
 helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.c b/helpers.c
index 91efffb..a40f746 100644
--- a/helpers.c
+++ b/helpers.c
@@ -159,7 +159,7 @@ hsv_to_rgb_float (float *h_, float *s_, float *v_)
   s = *s_;
   v = *v_;
 
-  h = h - floor(h);
+  h = isfinite(h) ? h - floor(h) : 0.0;
   s = CLAMP(s, 0.0, 1.0);
   v = CLAMP(v, 0.0, 1.0);
 
-- 
2.43.0


From 516d76bea976743349cf4f80d501aa14acf417a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:26 +0000
Subject: [PATCH 46/48] fix: registering the GObject types from several threads
 at once

---
 glib/mypaint-brush.c     | 44 ++++++++++++++++++++++------------------
 glib/mypaint-gegl-glib.c | 11 +++++-----
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index d351c68..e4d48bb 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -6,12 +6,13 @@
 GType
 mypaint_brush_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintBrush",
-                                            (GBoxedCopyFunc) mypaint_brush_ref,
-                                            (GBoxedFreeFunc) mypaint_brush_unref);
+    if (g_once_init_enter(&type)) {
+        g_once_init_leave(&type,
+            g_boxed_type_register_static("MyPaintBrush",
+                                         (GBoxedCopyFunc) mypaint_brush_ref,
+                                         (GBoxedFreeFunc) mypaint_brush_unref));
     }
 
     return type;
@@ -20,12 +21,13 @@ mypaint_brush_get_type (void)
 GType
 mypaint_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        g_once_init_leave(&type,
+            g_boxed_type_register_static("MyPaintSurface",
+                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
     return type;
@@ -34,12 +36,13 @@ mypaint_surface_get_type (void)
 GType
 mypaint_fixed_tiled_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        g_once_init_leave(&type,
+            g_boxed_type_register_static("MyPaintFixedTiledSurface",
+                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
     return type;
@@ -48,12 +51,13 @@ mypaint_fixed_tiled_surface_get_type (void)
 GType
 mypaint_rectangle_get_type(void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintRectangle",
-                                            (GBoxedCopyFunc) mypaint_rectangle_copy,
-                                            (GBoxedFreeFunc) free);
+    if (g_once_init_enter(&type)) {
+        g_once_init_leave(&type,
+            g_boxed_type_register_static("MyPaintRectangle",
+                                         (GBoxedCopyFunc) mypaint_rectangle_copy,
+                                         (GBoxedFreeFunc) free));
     }
 
     return type;
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 09ac3cb..7fd6a03 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -11,12 +11,13 @@
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
-    static GType type = 0;
+    static gsize type = 0;
 
-    if (!type) {
-        type = g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                            (GBoxedCopyFunc) mypaint_surface_ref,
-                                            (GBoxedFreeFunc) mypaint_surface_unref);
+    if (g_once_init_enter(&type)) {
+        g_once_init_leave(&type,
+            g_boxed_type_register_static("MyPaintGeglTiledSurface",
+                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
     return type;
-- 
2.43.0


From adc6c74022fa11c7b7ba7be35caaba0809b6d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:46 +0000
Subject: [PATCH 47/48] fix: HCY conversion with luma weights that do not add
 up to one, near-white colours giving NaN

---
 helpers.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers.c b/helpers.c
index a40f746..9b5ef82 100644
--- a/helpers.c
+++ b/helpers.c
@@ -369,7 +369,7 @@ hsl_to_rgb_float (float *h_, float *s_, float *l_)
 void
 rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 	
-	float _HCY_RED_LUMA = 0.2162;
+	float _HCY_RED_LUMA = 0.2126;
 	float _HCY_GREEN_LUMA = 0.7152;
 	float _HCY_BLUE_LUMA = 0.0722;
 	float h, c, y;
@@ -405,7 +405,7 @@ rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 	h = fmod(h,1.0);
 
 	// Chroma, relative to the RGB gamut envelope.
-	if ((r == g) && (g == b)){
+	if (((r == g) && (g == b)) || y <= 0 || y >= 1){
 		// Avoid a division by zero for the achromatic case.
 		c = 0.0;
 	} else {
@@ -421,7 +421,7 @@ rgb_to_hcy_float (float *r_, float *g_, float *b_) {
 void
 hcy_to_rgb_float (float *h_, float *c_, float *y_) {
 	
-	float _HCY_RED_LUMA = 0.2162;
+	float _HCY_RED_LUMA = 0.2126;
 	float _HCY_GREEN_LUMA = 0.7152;
 	float _HCY_BLUE_LUMA = 0.0722;
 	float h, c, y;
-- 
2.43.0


From 6e8d3ed27586f933b3add28f6e7c65928bcd1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:05 +0000
Subject: [PATCH 48/48] fix: return the object when copying a boxed brush or
 surface

---
 glib/mypaint-brush.c     | 21 ++++++++++++++++++---
 glib/mypaint-gegl-glib.c | 10 +++++++++-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/glib/mypaint-brush.c b/glib/mypaint-brush.c
index e4d48bb..bc777cb 100644
--- a/glib/mypaint-brush.c
+++ b/glib/mypaint-brush.c
@@ -3,6 +3,21 @@
 
 #include <glib-object.h>
 
+/* GBoxedCopyFunc has to return the copy, and the functions taking references return nothing. */
+static gpointer
+boxed_brush_ref (gpointer brush)
+{
+    mypaint_brush_ref(brush);
+    return brush;
+}
+
+static gpointer
+boxed_surface_ref (gpointer surface)
+{
+    mypaint_surface_ref(surface);
+    return surface;
+}
+
 GType
 mypaint_brush_get_type (void)
 {
@@ -11,7 +26,7 @@ mypaint_brush_get_type (void)
     if (g_once_init_enter(&type)) {
         g_once_init_leave(&type,
             g_boxed_type_register_static("MyPaintBrush",
-                                         (GBoxedCopyFunc) mypaint_brush_ref,
+                                         boxed_brush_ref,
                                          (GBoxedFreeFunc) mypaint_brush_unref));
     }
 
@@ -26,7 +41,7 @@ mypaint_surface_get_type (void)
     if (g_once_init_enter(&type)) {
         g_once_init_leave(&type,
             g_boxed_type_register_static("MyPaintSurface",
-                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         boxed_surface_ref,
                                          (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
@@ -41,7 +56,7 @@ mypaint_fixed_tiled_surface_get_type (void)
     if (g_once_init_enter(&type)) {
         g_once_init_leave(&type,
             g_boxed_type_register_static("MyPaintFixedTiledSurface",
-                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         boxed_surface_ref,
                                          (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
diff --git a/glib/mypaint-gegl-glib.c b/glib/mypaint-gegl-glib.c
index 7fd6a03..da4ffd8 100644
--- a/glib/mypaint-gegl-glib.c
+++ b/glib/mypaint-gegl-glib.c
@@ -8,6 +8,14 @@
 
 #include "mypaint-surface.h"
 
+/* GBoxedCopyFunc has to return the copy, and mypaint_surface_ref() returns nothing. */
+static gpointer
+boxed_surface_ref (gpointer surface)
+{
+    mypaint_surface_ref(surface);
+    return surface;
+}
+
 GType
 mypaint_gegl_tiled_surface_get_type (void)
 {
@@ -16,7 +24,7 @@ mypaint_gegl_tiled_surface_get_type (void)
     if (g_once_init_enter(&type)) {
         g_once_init_leave(&type,
             g_boxed_type_register_static("MyPaintGeglTiledSurface",
-                                         (GBoxedCopyFunc) mypaint_surface_ref,
+                                         boxed_surface_ref,
                                          (GBoxedFreeFunc) mypaint_surface_unref));
     }
 
-- 
2.43.0

