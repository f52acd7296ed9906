From 13a493e5226970089059e992376cb5ceeaa20931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 01/46] fix: count references correctly with TG_NOATOMICS

The increment and decrement applied to the pointer, not to the counter, so
nothing was ever freed and the release read memory before the object.
---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..bb6c2fc 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From 7e05de1988815d1744258eecee11864c503bc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 02/46] fix: do not read past the end of the children in the
 *_at accessors

---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index bb6c2fc..d81688f 100644
--- a/tg.c
+++ b/tg.c
@@ -5407,7 +5407,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5424,7 +5424,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5441,7 +5441,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5463,7 +5463,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 8c4842bce687e81e2677a6c9eb5cc68d22d8634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 03/46] fix: check every turn of a ring before calling it
 convex

The turn at the first vertex of a closed ring, and turns at repeated points,
were never looked at. A ring that is concave only there was taken for convex,
and the predicates then skipped the tests that a concave ring needs.
---
 tg.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index d81688f..366ede1 100644
--- a/tg.c
+++ b/tg.c
@@ -1882,6 +1882,36 @@ static void fill_in_upper_index_levels(struct index *index) {
 #define stack_ring() \
 (struct tg_ring*)(&(char[sizeof(struct tg_ring)+sizeof(struct tg_point)*5]){0})
 
+// turns_both_ways returns true when a ring has a left turn and a right turn.
+// Repeated points, and the closing point of the ring, are skipped.
+static bool turns_both_ways(const struct tg_point *points, int npoints) {
+    while (npoints > 1 && pteq(points[npoints-1], points[0])) {
+        npoints--;
+    }
+    int dir = 0;
+    struct tg_point a = points[npoints-1];
+    for (int i = 0; i < npoints; i++) {
+        struct tg_point b = points[i];
+        if (pteq(a, b)) {
+            continue;
+        }
+        int j = i+1 < npoints ? i+1 : 0;
+        while (j != i && pteq(points[j], b)) {
+            j = j+1 < npoints ? j+1 : 0;
+        }
+        struct tg_point c = points[j];
+        double z = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x);
+        if ((z < 0 && dir > 0) || (z > 0 && dir < 0)) {
+            return true;
+        }
+        if (z != 0) {
+            dir = z < 0 ? -1 : 1;
+        }
+        a = b;
+    }
+    return false;
+}
+
 static struct tg_rect process_points(const struct tg_point *points,
     int npoints, struct tg_point *ring_points, struct index *index,
     bool *convex, bool *clockwise, double *area)
@@ -1967,7 +1997,7 @@ static struct tg_rect process_points(const struct tg_point *points,
     #define step_calc_concave(label) { \
         double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); \
         if (dir == 0) { \
-            dir = z_cross_product < 0 ? -1 : 1; \
+            dir = z_cross_product < 0 ? -1 : z_cross_product > 0 ? 1 : 0; \
         } else if (z_cross_product < 0) { \
             if (dir == 1) { \
                 concave = true; \
@@ -2092,7 +2122,9 @@ lconcave:
     }
 
     *area = fabs(cwc / 2.0);
-    *convex = !concave;
+    // The loop only sees the turns at consecutive points, which leaves out the
+    // turn at the closing point and the turns at repeated points.
+    *convex = !concave && !turns_both_ways(points, npoints);
     *clockwise = cwc > 0;
 
     return rect;
-- 
2.43.0


From e486643e12a511bf6ef536486a309e4b6467f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 04/46] fix: decide line covers line for every pair of lines

The walk over the two lines never ended when neither of its branches applied,
answered true when it ran off the end of the first line, and missed segments
that span several segments of the first line.
---
 tg.c | 86 ++++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/tg.c b/tg.c
index 366ede1..05a3b37 100644
--- a/tg.c
+++ b/tg.c
@@ -3490,6 +3490,58 @@ bool tg_line_intersects_rect(const struct tg_line *line, struct tg_rect rect) {
     return tg_rect_intersects_line(rect, line);
 }
 
+struct line_covers_segment_ctx {
+    struct tg_segment seg;  // the part that has yet to be covered
+    struct tg_point reach;  // how far it's covered, starting at seg.a
+    double dist;
+    bool done;
+};
+
+static bool line_covers_segment_iter(struct tg_segment aseg, int index,
+    void *udata)
+{
+    (void)index;
+    struct line_covers_segment_ctx *ctx = udata;
+    if (!tg_segment_covers_point(aseg, ctx->seg.a)) {
+        return true;
+    }
+    if (tg_segment_covers_point(aseg, ctx->seg.b)) {
+        ctx->done = true;
+        return false;
+    }
+    for (int i = 0; i < 2; i++) {
+        struct tg_point p = i == 0 ? aseg.a : aseg.b;
+        if (tg_segment_covers_point(ctx->seg, p)) {
+            double dist = fabs(p.x - ctx->seg.a.x) + fabs(p.y - ctx->seg.a.y);
+            if (dist > ctx->dist) {
+                ctx->dist = dist;
+                ctx->reach = p;
+            }
+        }
+    }
+    return true;
+}
+
+// line_covers_segment returns true when every part of the segment is on some
+// segment of the line.
+static bool line_covers_segment(const struct tg_line *line,
+    struct tg_segment seg)
+{
+    struct line_covers_segment_ctx ctx = { .seg = seg };
+    while (1) {
+        ctx.dist = 0;
+        struct tg_rect rect = { ctx.seg.a, ctx.seg.a };
+        tg_line_search(line, rect, line_covers_segment_iter, &ctx);
+        if (ctx.done) {
+            return true;
+        }
+        if (!(ctx.dist > 0)) {
+            return false;
+        }
+        ctx.seg.a = ctx.reach;
+    }
+}
+
 /// Tests whether a line contains another line
 /// @see LineFuncs
 bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
@@ -3498,38 +3550,10 @@ bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
     if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
         return false;
     }
-    // locate the first "other" segment that contains the first "line" segment.
-    int ansegs = tg_line_num_segments(a);
-    int j = -1;
-    for (int k = 0; k < ansegs; k++) {
-        if (tg_segment_covers_segment(tg_line_segment_at(a, k),
-            tg_line_segment_at(b, 0)))
-        {
-            j = k;
-            break;
-        }
-    }
-    if (j == -1) {
-        return false;
-    }
     int bnsegs = tg_line_num_segments(b);
-    for (int i = 1; i < bnsegs && j < ansegs; i++) {
-        struct tg_segment aseg = tg_line_segment_at(a, j);
-        struct tg_segment bseg = tg_line_segment_at(b, i);
-        if (tg_segment_covers_segment(aseg, bseg)) {
-            continue;
-        }
-        if (pteq(bseg.a, aseg.a)) {
-            // reverse it
-            if (j == 0) {
-                return false;
-            }
-            j--;
-            i--;
-        } else if (pteq(bseg.a, aseg.b)) {
-            // forward it
-            j++;
-            i--;
+    for (int i = 0; i < bnsegs; i++) {
+        if (!line_covers_segment(a, tg_line_segment_at(b, i))) {
+            return false;
         }
     }
     return true;
-- 
2.43.0


From b037abcc4aa83ce3e91497788b0d2ad2db15019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 05/46] fix: follow a segment along a ring before saying which
 side it is on

Whether a concave ring contains a segment, and whether a segment enters a ring,
was guessed from the winding order and from the number of edges that are met.
Segments through ring vertices, or with both ends on the boundary, came out
wrong both ways. Split the segment at the ring vertices instead.
---
 tg.c | 327 ++++++++++++++++++++++++++---------------------------------
 1 file changed, 146 insertions(+), 181 deletions(-)

diff --git a/tg.c b/tg.c
index 05a3b37..7cb3286 100644
--- a/tg.c
+++ b/tg.c
@@ -2853,65 +2853,154 @@ struct contsegiterctx {
     bool intersects;
 };
 
-static bool contsegiter1(struct tg_segment seg2, int index, void *udata) {
+static bool contsegiter3(struct tg_segment seg2, int index, void *udata) {
     (void)index;
     struct contsegiterctx *ctx = udata;
     if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON && 
-            tg_raycast(seg2, ctx->seg.b) != TG_ON)
-        {
             ctx->intersects = true;
             return false;
-        }
     }
     return true;
 }
 
-static bool contsegiter4(struct tg_segment seg2, int index, void *udata) {
+static bool poly_contains_point(const struct tg_poly *poly, 
+    struct tg_point point, bool allow_on_edge);
+
+struct segparts_ctx {
+    struct tg_segment seg;
+    struct tg_point next;
+    double dist;
+    bool crosses;
+    bool along;
+};
+
+// segparts_iter_cross checks if the segment properly crosses a ring segment.
+static bool segparts_iter_cross(struct tg_segment rseg, int index, void *udata)
+{
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.a) != TG_ON) {
-            ctx->intersects = true;
-            return false;
-        }
+    struct segparts_ctx *ctx = udata;
+    if (tg_segment_intersects_segment(ctx->seg, rseg) &&
+        !tg_segment_covers_point(ctx->seg, rseg.a) &&
+        !tg_segment_covers_point(ctx->seg, rseg.b) &&
+        !tg_segment_covers_point(rseg, ctx->seg.a) &&
+        !tg_segment_covers_point(rseg, ctx->seg.b))
+    {
+        ctx->crosses = true;
+        return false;
     }
     return true;
 }
 
-static bool contsegiter2(struct tg_segment seg2, int index, void *udata) {
+// segparts_iter_next finds the first ring vertex on the segment after seg.a
+static bool segparts_iter_next(struct tg_segment rseg, int index, void *udata)
+{
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(seg2, ctx->seg.b) != TG_ON) {
-            ctx->intersects = true;
-            return false;
+    struct segparts_ctx *ctx = udata;
+    for (int i = 0; i < 2; i++) {
+        struct tg_point p = i == 0 ? rseg.a : rseg.b;
+        if (tg_segment_covers_point(ctx->seg, p)) {
+            double dist = fabs(p.x - ctx->seg.a.x) + fabs(p.y - ctx->seg.a.y);
+            if (dist > 0 && dist < ctx->dist) {
+                ctx->dist = dist;
+                ctx->next = p;
+            }
         }
     }
     return true;
 }
-static bool contsegiter5(struct tg_segment seg2, int index, void *udata) {
+
+// segparts_iter_along checks if the part from seg.a to next is on a ring
+// segment.
+static bool segparts_iter_along(struct tg_segment rseg, int index, void *udata)
+{
     (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-        if (tg_raycast(ctx->seg, seg2.a) != TG_ON && 
-            tg_raycast(ctx->seg, seg2.b) != TG_ON)
-        {
-            ctx->intersects = true;
-            return false;
-        }
+    struct segparts_ctx *ctx = udata;
+    if (tg_segment_covers_point(rseg, ctx->seg.a) &&
+        tg_segment_covers_point(rseg, ctx->next))
+    {
+        ctx->along = true;
+        return false;
     }
     return true;
 }
 
-static bool contsegiter3(struct tg_segment seg2, int index, void *udata) {
-    (void)index;
-    struct contsegiterctx *ctx = udata;
-    if (tg_segment_intersects_segment(ctx->seg, seg2)) {
-            ctx->intersects = true;
-            return false;
+static void poly_rings_search(const struct tg_poly *poly, struct tg_rect rect,
+    bool(*iter)(struct tg_segment seg, int index, void *udata), void *udata)
+{
+    tg_ring_search(tg_poly_exterior(poly), rect, iter, udata);
+    int nholes = tg_poly_num_holes(poly);
+    for (int i = 0; i < nholes; i++) {
+        tg_ring_search(tg_poly_hole_at(poly, i), rect, iter, udata);
+    }
+}
+
+// poly_segment_parts determines if some part of the segment passes through the
+// interior of the polygon and if some part passes through the exterior. Single
+// points where the segment only touches the boundary are not parts.
+// The poly param may be an upcasted tg_ring.
+static void poly_segment_parts(const struct tg_poly *poly, 
+    struct tg_segment seg, bool *inside, bool *outside)
+{
+    *inside = false;
+    *outside = false;
+    struct segparts_ctx ctx = { .seg = seg };
+    poly_rings_search(poly, tg_segment_rect(seg), segparts_iter_cross, &ctx);
+    if (ctx.crosses) {
+        *inside = true;
+        *outside = true;
+        return;
+    }
+    // There's no crossing, thus the boundary is only met at the ends of the
+    // segment and at ring vertices. Everything between two such neighboring
+    // points is on the same side.
+    while (!pteq(ctx.seg.a, ctx.seg.b) && !(*inside && *outside)) {
+        ctx.next = ctx.seg.b;
+        ctx.dist = INFINITY;
+        ctx.along = false;
+        poly_rings_search(poly, tg_segment_rect(ctx.seg), segparts_iter_next,
+            &ctx);
+        struct tg_segment part = { ctx.seg.a, ctx.next };
+        poly_rings_search(poly, tg_segment_rect(part), segparts_iter_along, 
+            &ctx);
+        if (!ctx.along) {
+            struct tg_point mid = {
+                .x = part.a.x * 0.5 + part.b.x * 0.5,
+                .y = part.a.y * 0.5 + part.b.y * 0.5,
+            };
+            if (poly_contains_point(poly, mid, false)) {
+                *inside = true;
+            } else if (!poly_contains_point(poly, mid, true)) {
+                *outside = true;
+            }
+        }
+        ctx.seg.a = ctx.next;
+    }
+}
+
+// poly_boundary_parts determines if some part of the boundary of the second
+// polygon passes through the interior of the first polygon and if some part
+// passes through its exterior. The params may be upcasted tg_rings.
+static void poly_boundary_parts(const struct tg_poly *poly,
+    const struct tg_poly *other, bool *inside, bool *outside)
+{
+    *inside = false;
+    *outside = false;
+    int nholes = tg_poly_num_holes(other);
+    for (int i = -1; i < nholes; i++) {
+        const struct tg_ring *ring = i == -1 ? tg_poly_exterior(other) : 
+            tg_poly_hole_at(other, i);
+        int nsegs = tg_ring_num_segments(ring);
+        for (int j = 0; j < nsegs; j++) {
+            bool seg_inside, seg_outside;
+            poly_segment_parts(poly, tg_ring_segment_at(ring, j), &seg_inside,
+                &seg_outside);
+            *inside = *inside || seg_inside;
+            *outside = *outside || seg_outside;
+            if (*inside && *outside) {
+                return;
+            }
+        }
     }
-    return true;
 }
 
 bool tg_ring_contains_segment(const struct tg_ring *ring, 
@@ -2944,93 +3033,9 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
     // The ring is concave so it's possible that the segment crosses over the
     // edge of the ring.
     if (allow_on_edge) {
-        // do some logic around seg points that are on the edge of the ring.
-        if (res_a.idx != -1) {
-           // seg A is on a ring segment
-            if (res_b.idx != -1) {
-                // seg B is on a ring segment
-                if (res_b.idx == res_a.idx) {
-                    // seg A and B share the same ring segment, so it must be
-                    // on the inside.
-                    return true;
-                }
-
-                // seg A and seg B are on different segments.
-                // determine if the space that the seg passes over is inside or
-                // outside of the ring. To do so we create a ring from the two
-                // ring segments and check if that ring winding order matches
-                // the winding order of the ring.
-                // -- create a ring
-
-                struct tg_segment r_seg_a = ring_segment_at(ring, res_a.idx);
-                struct tg_segment r_seg_b = ring_segment_at(ring, res_b.idx);
-                if (pteq(r_seg_a.a, seg.a) || pteq(r_seg_a.b, seg.a) ||
-                    pteq(r_seg_b.a, seg.a) || pteq(r_seg_b.b, seg.a) ||
-                    pteq(r_seg_a.a, seg.b) || pteq(r_seg_a.b, seg.b) ||
-                    pteq(r_seg_b.a, seg.b) || pteq(r_seg_b.b, seg.b))
-                {
-                    return true;
-                }
-
-                // fix the order of the
-                if (res_b.idx < res_a.idx) {
-                    struct tg_segment tmp = r_seg_a;
-                    r_seg_a = r_seg_b;
-                    r_seg_b = tmp;
-                }
-
-                struct tg_point pts[] = {
-                    r_seg_a.a, r_seg_a.b, r_seg_b.a, r_seg_b.b, r_seg_a.a
-                };
-                // -- calc winding order
-                double cwc = 0.0;
-                for (int i = 0; i < 4; i++) {
-                    struct tg_point a = pts[i];
-                    struct tg_point b = pts[i+1];
-                    cwc += (b.x - a.x) * (b.y + a.y);
-                }
-                bool clockwise = cwc > 0;
-                if (clockwise != ring->clockwise) {
-                    // -- on the outside
-                    return false;
-                }
-                // the passover space is on the inside of the ring.
-                // check if seg intersects any ring segments where A and B are
-                // not on.
-                struct contsegiterctx ctx = {
-                    .intersects = false,
-                    .seg = seg,
-                };
-                tg_ring_search(ring, tg_segment_rect(seg), contsegiter1, &ctx);
-                return !ctx.intersects;
-            }
-            // case (4)
-            // seg A is on a ring segment, but seg B is not.
-            // check if seg intersects any ring segments where A is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter4, &ctx);
-            return !ctx.intersects;
-        } else if (res_b.idx != -1) {
-            // case (2)
-            // seg B is on a ring segment, but seg A is not.
-            // check if seg intersects any ring segments where B is not on.
-            struct contsegiterctx ctx = {
-                .intersects = false,
-                .seg = seg,
-            };
-            tg_ring_search(ring, tg_segment_rect(seg), contsegiter2, &ctx);
-            return !ctx.intersects;
-        }
-        // case (5) (15)
-        struct contsegiterctx ctx = {
-            .intersects = false,
-            .seg = seg,
-        };
-        tg_ring_search(ring, tg_segment_rect(seg), contsegiter5, &ctx);
-        return !ctx.intersects;
+        bool inside, outside;
+        poly_segment_parts((const struct tg_poly*)ring, seg, &inside, &outside);
+        return !outside;
     }
     // allow_on_edge is false. (not allow on edge)
     struct contsegiterctx ctx = {
@@ -3041,58 +3046,6 @@ bool tg_ring_contains_segment(const struct tg_ring *ring,
     return !ctx.intersects;
 }
 
-struct intersegiterctx {
-    struct tg_segment seg;
-    int count;
-    bool allow_on_edge;
-    bool seg_a_on;
-    bool seg_b_on;
-    // bool yes;
-};
-
-static bool intersegiter(struct tg_segment seg, int index, void *udata) {
-    (void)index;
-    struct intersegiterctx *ctx = udata;
-
-    if (!tg_segment_intersects_segment(ctx->seg, seg)) {
-        return true;
-    }
-    if (ctx->allow_on_edge) {
-        ctx->count++;
-        return ctx->count < 2;
-    }
-
-    struct tg_point a = ctx->seg.a;
-    struct tg_point b = ctx->seg.b;
-    struct tg_point c = seg.a;
-    struct tg_point d = seg.b;
-
-    // bool acol = collinear(c.x, c.y, d.x, d.y, a.x, a.y);
-    // bool bcol = collinear(c.x, c.y, d.x, d.y, b.x, b.y);
-    bool ccol = collinear(a.x, a.y, b.x, b.y, c.x, c.y);
-    bool dcol = collinear(a.x, a.y, b.x, b.y, d.x, d.y);
-
-    if (ccol && dcol) {
-        // lines are parallel.
-        ctx->count = 0;
-    } else if (!ccol || !dcol) {
-        if (!ctx->seg_a_on) {
-            if (pteq(a, c) || pteq(a, d)) {
-                ctx->seg_a_on = true;
-                return true;
-            }
-        }
-        if (!ctx->seg_b_on) {
-            if (pteq(b, c) || pteq(b, d)) {
-                ctx->seg_b_on = true;
-                return true;
-            }
-        }
-        ctx->count++;
-    }
-    return ctx->count < 2;
-}
-
 bool tg_ring_intersects_segment(const struct tg_ring *ring, 
     struct tg_segment seg, bool allow_on_edge)
 {
@@ -3107,14 +3060,16 @@ bool tg_ring_intersects_segment(const struct tg_ring *ring,
     }
 
     // Neither point A or B is inside of the ring. It's possible that both
-    // are on the outside and are passing over segments. If the segment passes
-    // over at least two ring segments then it's intersecting.
-    struct intersegiterctx ctx = { 
-        .seg = seg,
-        .allow_on_edge = allow_on_edge,
-    };
-    tg_ring_search(ring, tg_segment_rect(seg), intersegiter, &ctx);
-    return ctx.count >= 2;
+    // are on the outside, or on the edge, and that the segment passes through
+    // the ring.
+    if (allow_on_edge) {
+        struct contsegiterctx ctx = { .seg = seg };
+        tg_ring_search(ring, tg_segment_rect(seg), contsegiter3, &ctx);
+        return ctx.intersects;
+    }
+    bool inside, outside;
+    poly_segment_parts((const struct tg_poly*)ring, seg, &inside, &outside);
+    return inside;
 }
 
 // tg_ring_empty returns true when the ring is NULL, or does not form a closed
@@ -3180,6 +3135,16 @@ bool tg_ring_intersects_ring(const struct tg_ring *ring,
     if (!tg_rect_intersects_rect(ring->rect, other->rect)) {
         return false;
     }
+    if (!allow_on_edge) {
+        bool inside, outside;
+        poly_boundary_parts((const struct tg_poly*)ring, 
+            (const struct tg_poly*)other, &inside, &outside);
+        if (!inside) {
+            poly_boundary_parts((const struct tg_poly*)other, 
+                (const struct tg_poly*)ring, &inside, &outside);
+        }
+        return inside;
+    }
     double a1 = rect_area(tg_ring_rect(ring));
     double a2 = rect_area(tg_ring_rect(other));
     if (a2 > a1) {
-- 
2.43.0


From f8dd56f13640e8c08cd87c0c36a06cde8d09ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 06/46] fix: a polygon contains a line that is inside except
 along its boundary

Every segment of the line had to enter the interior, and no hole boundary was
taken into account. One interior point is enough.
---
 tg.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/tg.c b/tg.c
index 7cb3286..f13753b 100644
--- a/tg.c
+++ b/tg.c
@@ -3991,20 +3991,28 @@ bool tg_poly_covers_line(const struct tg_poly *a, const struct tg_line *b) {
     return true;
 }
 
-bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
-    if (tg_poly_empty(a) || tg_line_empty(b)) {
-        return false;
-    }
-    if (!tg_ring_contains_line(tg_poly_exterior(a), b, false, true)) {
-        return false;
-    }
-    int nholes = tg_poly_num_holes(a);
-    for (int i = 0; i < nholes; i++) {
-        if (tg_ring_intersects_line(tg_poly_hole_at(a, i), b, false)) {
-            return false;
+// poly_interior_intersects_line returns true when the line has a point inside
+// of the polygon that is not on the boundary of the polygon.
+static bool poly_interior_intersects_line(const struct tg_poly *poly, 
+    const struct tg_line *line)
+{
+    int nsegs = tg_line_num_segments(line);
+    for (int i = 0; i < nsegs; i++) {
+        struct tg_segment seg = tg_line_segment_at(line, i);
+        if (tg_poly_contains_point(poly, seg.a)) {
+            return true;
+        }
+        bool inside, outside;
+        poly_segment_parts(poly, seg, &inside, &outside);
+        if (inside) {
+            return true;
         }
     }
-    return true;
+    return false;
+}
+
+bool tg_poly_contains_line(const struct tg_poly *a, const struct tg_line *b) {
+    return tg_poly_covers_line(a, b) && poly_interior_intersects_line(a, b);
 }
 
 /// Tests whether a polygon intersects a line.
-- 
2.43.0


From 32d1e5b3036d0498608ee84ecdabda9f12e2aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 07/46] fix: a closed line does not have a boundary

The point where a closed line starts and ends was taken for a boundary point,
so that the line touched it and did not contain it.
---
 tg.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/tg.c b/tg.c
index f13753b..91148cd 100644
--- a/tg.c
+++ b/tg.c
@@ -1112,14 +1112,11 @@ bool tg_point_intersects_line(struct tg_point point,
     return tg_line_intersects_point(line, point);
 }
 
+static bool line_boundary_has_point(const struct tg_line *line, 
+    struct tg_point point);
+
 bool tg_point_touches_line(struct tg_point point, const struct tg_line *line) {
-    int nsegs = tg_line_num_segments(line);
-    if (nsegs == 0) {
-        return false;
-    }
-    struct tg_segment s0 = tg_line_segment_at(line, 0);
-    struct tg_segment sN = tg_line_segment_at(line, nsegs-1);
-    return pteq(point, s0.a) || pteq(point, sN.b);
+    return line_boundary_has_point(line, point);
 }
 
 /// Tests whether a point fully contains a polygon.
@@ -3414,17 +3411,25 @@ bool tg_line_covers_point(const struct tg_line *line, struct tg_point point) {
     return ctx.covers;
 }
 
-bool tg_line_contains_point(const struct tg_line *line, struct tg_point point) {
-    if (!tg_line_covers_point(line, point)) {
+// line_boundary_has_point returns true when the point is one of the two ends
+// of the line. A closed line does not have a boundary.
+static bool line_boundary_has_point(const struct tg_line *line, 
+    struct tg_point point)
+{
+    int nsegs = tg_line_num_segments(line);
+    if (nsegs == 0) {
         return false;
     }
-    int nsegs = tg_line_num_segments(line);
-    if (pteq(point, tg_line_segment_at(line, 0).a) || 
-        pteq(point, tg_line_segment_at(line, nsegs-1).b))
-    {
+    struct tg_point first = tg_line_segment_at(line, 0).a;
+    struct tg_point last = tg_line_segment_at(line, nsegs-1).b;
+    return !pteq(first, last) && (pteq(point, first) || pteq(point, last));
+}
+
+bool tg_line_contains_point(const struct tg_line *line, struct tg_point point) {
+    if (!tg_line_covers_point(line, point)) {
         return false;
     }
-    return true;
+    return !line_boundary_has_point(line, point);
 }
 
 /// Tests whether a line intersects a point
-- 
2.43.0


From 0e99820c5eaa8b91cebd7876f7c73bcc35778174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 08/46] fix: touches means intersecting without a common
 interior point

Lines that cross after touching, lines and polygons that share an edge or meet
at the middle of a segment, and polygons that overlap along their boundaries
came out wrong both ways.
---
 tg.c | 240 ++++++++++++++++++-----------------------------------------
 1 file changed, 74 insertions(+), 166 deletions(-)

diff --git a/tg.c b/tg.c
index 91148cd..9491176 100644
--- a/tg.c
+++ b/tg.c
@@ -3535,84 +3535,81 @@ bool tg_line_contains_line(const struct tg_line *line,
     return tg_line_covers_line(line, other);
 }
 
-enum segment_intersects_kind {
-    SI_INTERSECTS, 
-    SI_TOUCHES,
-};
-
-struct segment_intersects_iter_ctx {
-    bool yes;
-    int ansegs;
-    int bnsegs;
-    enum segment_intersects_kind kind;
-};
-
-static bool segment_touches0(struct tg_segment seg,
-    struct tg_point a, struct tg_point b)
+static bool line_intersects_iter(struct tg_segment a, int aidx, 
+    struct tg_segment b, int bidx, void *udata)
 {
-    if (!tg_segment_covers_point(seg, a)) {
-        return false;
-    }
-    if (!collinear(seg.a.x, seg.a.y, seg.b.x, seg.b.y, b.x, b.y)) {
-        return true;
-    }
-    if (pteq(seg.a, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.b);
-    }
-    if (pteq(seg.b, a)) {
-        return !tg_segment_covers_point((struct tg_segment){ a, b }, seg.a);
-    }
+    (void)a; (void)aidx; (void)b; (void)bidx;
+    bool *yes = udata;
+    *yes = true;
     return false;
 }
 
-static bool any_touching(struct tg_segment a, int aidx, int ansegs,
-    struct tg_segment b, int bidx, int bnsegs)
-{
-    return (aidx == 0 && segment_touches0(b, a.a, a.b)) ||
-           (aidx == ansegs-1 && segment_touches0(b, a.b, a.a)) ||
-           (bidx == 0 && segment_touches0(a, b.a, b.b)) ||
-           (bidx == bnsegs-1 && segment_touches0(a, b.b, b.a));
+/// Tests whether a line intersects another line
+/// @see LineFuncs
+bool tg_line_intersects_line(const struct tg_line *a, const struct tg_line *b) {
+    bool yes = false;
+    tg_line_line_search(a, b, line_intersects_iter, &yes);
+    return yes;
 }
 
-static bool segment_intersects_iter(struct tg_segment a, int aidx, 
+struct line_touches_iter_ctx {
+    const struct tg_line *a;
+    const struct tg_line *b;
+    bool boundary;  // the lines share a point that is an end of either line
+    bool interior;  // the lines share a point that is not
+};
+
+static bool line_touches_iter(struct tg_segment a, int aidx, 
     struct tg_segment b, int bidx, void *udata)
 {
-    struct segment_intersects_iter_ctx *ctx = udata;
-    switch (ctx->kind) {
-    case SI_INTERSECTS:
-        ctx->yes = true;
-        break;
-    case SI_TOUCHES:
-        if (any_touching(a, aidx, ctx->ansegs, b, bidx, ctx->bnsegs)) {
-            ctx->yes = true;
-            return true;
+    (void)aidx; (void)bidx;
+    struct line_touches_iter_ctx *ctx = udata;
+    // Segments that have two different points in common overlap.
+    struct tg_point points[] = { a.a, a.b, b.a, b.b };
+    int nshared = 0;
+    struct tg_point shared = { 0 };
+    for (int i = 0; i < 4; i++) {
+        if (tg_segment_covers_point(a, points[i]) && 
+            tg_segment_covers_point(b, points[i]) &&
+            (nshared == 0 || !pteq(shared, points[i])))
+        {
+            shared = points[i];
+            nshared++;
         }
-        ctx->yes = false;
-        break;
     }
+    if (nshared == 1 && (line_boundary_has_point(ctx->a, shared) ||
+        line_boundary_has_point(ctx->b, shared)))
+    {
+        ctx->boundary = true;
+        return true;
+    }
+    if (nshared == 0) {
+        // The segments cross. This point may still be an end of either line,
+        // when that line crosses itself there.
+        const struct tg_line *lines[] = { ctx->a, ctx->b };
+        for (int i = 0; i < 2; i++) {
+            int nsegs = tg_line_num_segments(lines[i]);
+            struct tg_point first = tg_line_segment_at(lines[i], 0).a;
+            struct tg_point last = tg_line_segment_at(lines[i], nsegs-1).b;
+            if (!pteq(first, last) && (
+                (tg_segment_covers_point(a, first) && 
+                 tg_segment_covers_point(b, first)) ||
+                (tg_segment_covers_point(a, last) && 
+                 tg_segment_covers_point(b, last))))
+            {
+                ctx->boundary = true;
+                return true;
+            }
+        }
+    }
+    ctx->interior = true;
     return false;
 }
 
-static bool line_intersects_line(const struct tg_line *a, 
-    const struct tg_line *b, enum segment_intersects_kind kind)
-{
-    struct segment_intersects_iter_ctx ctx = { 
-        .kind = kind,
-        .ansegs = tg_line_num_segments(a),
-        .bnsegs = tg_line_num_segments(b),
-     };
-    tg_line_line_search(a, b, segment_intersects_iter, &ctx);
-    return ctx.yes;
-}
-
-/// Tests whether a line intersects another line
-/// @see LineFuncs
-bool tg_line_intersects_line(const struct tg_line *a, const struct tg_line *b) {
-    return line_intersects_line(a, b, SI_INTERSECTS);
-}
-
 bool tg_line_touches_line(const struct tg_line *a,const struct tg_line *b) {    
-    return line_intersects_line(a, b, SI_TOUCHES);
+    struct line_touches_iter_ctx ctx = { .a = a, .b = b };
+    tg_line_line_search(a, b, line_touches_iter, &ctx);
+    return ctx.boundary && !ctx.interior;
 }
 
 /// Tests whether a line fully contains a polygon
@@ -4143,115 +4140,26 @@ bool tg_poly_intersects_poly(const struct tg_poly *poly,
 }
 
 bool tg_poly_touches_line(const struct tg_poly *a, const struct tg_line *b) {
-    if (!tg_rect_intersects_rect(tg_poly_rect(a), tg_line_rect(b))) {
-        return false;
-    }
-
-    // Check if the line is inside any of the polygon holes
-    int npoints = tg_line_num_points(b);
-    int nholes = tg_poly_num_holes(a);
-    for (int i = 0; i < nholes; i++) {
-        const struct tg_ring *hole = tg_poly_hole_at(a, i);
-        if (tg_ring_contains_line(hole, b, true, false)) {
-            // Yes, now check if any of the points touch the hole boundary.
-            for (int j = 0; j < npoints; j++) {
-                struct tg_point point = tg_line_point_at(b, j);
-                if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                    return true;
-                }
-            }
-            return false;
-        }
-    }
-
-    // Check if at least one line point touches the polygon exterior.
-    const struct tg_ring *ring = tg_poly_exterior(a);
-    bool touches = false;
-    for (int i = 0; i < npoints; i++) {
-        struct tg_point point = tg_line_point_at(b, i);
-        // Cast the exterior ring to a polygon to avoid holes.
-        if (tg_poly_touches_point((struct tg_poly*)ring, point)) {
-            touches = true;
-            break;
-        }
-    }
-    if (!touches) {
-        return false;
-    }
-    int nsegs = tg_line_num_segments(b);
-    for (int i = 0; i < nsegs; i++) {
-        struct tg_segment seg = tg_line_segment_at(b, i);
-        if (tg_ring_intersects_segment(ring, seg, false)) {
-            return false;
-        }
-    }
-    return true;
+    return tg_poly_intersects_line(a, b) && 
+        !poly_interior_intersects_line(a, b);
 }
 
 bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
-    if (!tg_rect_intersects_rect(tg_poly_rect(a), tg_poly_rect(b))) {
+    if (!tg_poly_intersects_poly(a, b)) {
         return false;
     }
-    
-    const struct tg_ring *aext = tg_poly_exterior(a);
-    const struct tg_ring *bext = tg_poly_exterior(b);
-
-    // Check if one polygon is fully inside a hole of the other and touching
-    // the hole boundary.
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_poly *poly = ii == 0 ? a : b; 
-        const struct tg_ring *ring = ii == 0 ? bext : aext; 
-        int nholes = tg_poly_num_holes(poly);
-        for (int i = 0; i < nholes; i++) {
-            const struct tg_ring *hole = tg_poly_hole_at(poly, i);
-            if (tg_ring_contains_ring(hole, ring, true)) {
-                // Yes, now check if any exterior points are on the other 
-                // hole boundary.
-                int npoints = tg_ring_num_points(ring);
-                for (int j = 0; j < npoints; j++) {
-                    struct tg_point point = tg_ring_point_at(ring, j);
-                    if (tg_line_covers_point((struct tg_line*)hole, point)) {
-                        // Touching
-                        return true;
-                    }
-                }
-                // Not touching and full enclosed in a hole.
-                return false;
-            }
-        }
-    }
-    
-    // Now we can work with the exterior rings only.
-    // Check if one polygon is touching the other
-    int ansegs = tg_ring_num_segments(aext);
-    int bnsegs = tg_ring_num_segments(bext);
-    int atouches = 0;
-    int btouches = 0;
-    for (int ii = 0; ii < 2; ii++) {
-        const struct tg_ring *a = ii == 0 ? aext : bext; 
-        const struct tg_ring *b = ii == 0 ? bext : aext; 
-        int nsegs = ii == 0 ? bnsegs : ansegs;
-        int touches = 0;
-        for (int i = 0; i < nsegs; i++) {
-            struct tg_segment seg = tg_ring_segment_at(b, i);
-            bool isects0 = tg_ring_intersects_segment(a, seg, true);
-            bool isects1 = tg_ring_intersects_segment(a, seg, false);
-            if (isects0 && !isects1) {
-                touches++;
-            } else if (isects0 || isects1) {
-                return false;
-            }
-        }
-        if (ii == 0) {
-            btouches = touches;
-        } else {
-            atouches = touches;
-        }
+    bool ainside, aoutside, binside, boutside;
+    poly_boundary_parts(a, b, &binside, &boutside);
+    if (binside) {
+        return false;
     }
-    if (atouches > 0 || btouches > 0) {
-        return !(atouches == ansegs && btouches == bnsegs);
+    poly_boundary_parts(b, a, &ainside, &aoutside);
+    if (ainside) {
+        return false;
     }
-    return false;
+    // Neither boundary enters the other interior, so the interiors are either
+    // disjoint or the same.
+    return aoutside || boutside;
 }
 
 struct tg_poly *tg_poly_move(const struct tg_poly *poly, double delta_x, 
-- 
2.43.0


From 514fcbe1be73daf98a835e215a0af7b51a65b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 09/46] fix: a copy owns its index

A copied ring, line or multi geometry kept using the index memory of the
original, also after the original was freed.
---
 tg.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tg.c b/tg.c
index 9491176..4251b4d 100644
--- a/tg.c
+++ b/tg.c
@@ -14989,6 +14989,15 @@ int tg_geom_de9im_dims(const struct tg_geom *geom) {
     return dims;
 }
 
+// index_rebase makes the levels of a copied index refer to the rectangles of
+// the copy.
+static void index_rebase(struct index *index, const struct index *orig) {
+    for (int i = 0; i < orig->nlevels; i++) {
+        index->levels[i].rects = (struct ixrect*)(((char*)index)+
+            (((char*)orig->levels[i].rects)-((char*)orig)));
+    }
+}
+
 /// Copies a ring
 /// @param ring Input ring, caller retains ownership.
 /// @return A duplicate of the provided ring. 
@@ -15009,6 +15018,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        // the index is in the same allocation as the ring
+        ring2->index = (struct index *)(((char*)ring2)+
+            (((char*)ring->index)-((char*)ring)));
+        index_rebase(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15016,6 +15031,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            ring2->ystripes->stripes[i].indexes = (int*)(
+                ((char*)ring2->ystripes)+
+                (((char*)ring->ystripes->stripes[i].indexes)-
+                 ((char*)ring->ystripes)));
+        }
     }
     return ring2;
 }
@@ -15141,6 +15162,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 }
                 memcpy(geom2->multi->index, geom->multi->index, 
                     geom->multi->index->memsz);
+                index_rebase(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From b9680e80e80698800d1293721914c31703db5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 10/46] fix: do not stripe a ring that has no height

The stripe numbers came from a division by zero, so that points on such a ring
were found or not depending on the index.
---
 tg.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 4251b4d..62bab73 100644
--- a/tg.c
+++ b/tg.c
@@ -1669,10 +1669,19 @@ struct ystripes {
 };
 
 static bool process_ystripes(struct tg_ring *ring) {
+    double height = ring->rect.max.y - ring->rect.min.y;
+    if (!(height > 0) || !isfinite(height)) {
+        // There's no room for stripes. Use the natural index only.
+        return true;
+    }
     double score = tg_ring_polsby_popper_score(ring);
+    if (!(score >= 0)) {
+        score = 0;
+    } else if (score > 1) {
+        score = 1;
+    }
     int nstripes = ring->nsegs * score;
     nstripes = fmax0(nstripes, 32);
-    double height = ring->rect.max.y - ring->rect.min.y;
 
     // ycounts is used to log the number of segments in each stripe.
     int *ycounts = tg_malloc(nstripes*sizeof(int));
-- 
2.43.0


From 054146078627aad3086a998605bdb1d845f7f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 11/46] fix: copy empty linestrings and polygons

The missing line or polygon was taken for a failed allocation.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 62bab73..94465cb 100644
--- a/tg.c
+++ b/tg.c
@@ -15127,13 +15127,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From d5fa89afb0d69a616567a62408d9407a93d12907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 12/46] fix: do not overflow the size of the WKB points

A point count of 0x10000000 or more wrapped around to a small size, so that the
points were read from past the end of the input.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 94465cb..d7a75a5 100644
--- a/tg.c
+++ b/tg.c
@@ -13284,11 +13284,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && (len-i)/16 >= count) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From 466943d060b2f542204f4f4955a652e8c6acf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 13/46] fix: count the nesting of WKT, not its parentheses

A WKT geometry with more than 1024 opening parentheses anywhere in it, such as
a multilinestring with many lines, was rejected.
---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index d7a75a5..3ec4a8b 100644
--- a/tg.c
+++ b/tg.c
@@ -11970,7 +11970,9 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) {
+                maxdepth = depth;
+            }
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From 5d3f9a3c22b1f0c3fed4418a87abae38363be7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 14/46] fix: leave empty children out of a WKB multi geometry

An empty linestring or polygon left a NULL child behind, which crashed most
functions. An empty point became a point at 0,0.
---
 tg.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tg.c b/tg.c
index 3ec4a8b..e708849 100644
--- a/tg.c
+++ b/tg.c
@@ -13517,6 +13517,15 @@ static bool wkb_type_match(const struct tg_geom *child, enum tg_geom_type type,
     return child->head.type == type && child_has_z == z && child_has_m == m;
 }
 
+// wkb_empty_child returns true when the child of a multi geometry has nothing
+// to add to the multi geometry.
+static bool wkb_empty_child(const struct tg_geom *child, 
+    enum tg_geom_type type)
+{
+    return child->head.type == type && 
+        (child->head.flags&IS_EMPTY) == IS_EMPTY;
+}
+
 static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
     bool swap, bool z, bool m, int depth, enum tg_index ix, 
     struct tg_geom **gout)
@@ -13538,6 +13547,11 @@ static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
             point = NULL;
             goto fail;
         }
+        if (wkb_empty_child(point, TG_POINT)) {
+            tg_geom_free(point);
+            point = NULL;
+            continue;
+        }
         if (!wkb_type_match(point, TG_POINT, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
@@ -13617,6 +13631,11 @@ static size_t parse_wkb_multilinestring(const uint8_t *wkb, size_t len,
             child = NULL;
             goto fail;
         }
+        if (wkb_empty_child(child, TG_LINESTRING)) {
+            tg_geom_free(child);
+            child = NULL;
+            continue;
+        }
         if (!wkb_type_match(child, TG_LINESTRING, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
@@ -13698,6 +13717,11 @@ static size_t parse_wkb_multipolygon(const uint8_t *wkb, size_t len,
             child = NULL;
             goto fail;
         }
+        if (wkb_empty_child(child, TG_POLYGON)) {
+            tg_geom_free(child);
+            child = NULL;
+            continue;
+        }
         if (!wkb_type_match(child, TG_POLYGON, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
-- 
2.43.0


From 5e5064fb31b3ba56aba4331a6ab136156093c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 15/46] fix: reject WKB rings that have no points

The other formats, and WKB rings of one or two points, were rejected already.
---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index e708849..0af30e9 100644
--- a/tg.c
+++ b/tg.c
@@ -13285,7 +13285,7 @@ static size_t parse_wkb_posns(enum base base, int dims,
     double posn[4];
     uint32_t count;
     read_uint32(count);
-    if (count == 0) return i;
+    if (count == 0 && base != BASE_RING) return i;
     if (dims == 2 && !swap && (len-i)/16 >= count) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
-- 
2.43.0


From 61368c356d92687b40a534246e6141661a20cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 16/46] fix: leave empty children out of the rect of a
 collection

---
 tg.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index 0af30e9..982aab2 100644
--- a/tg.c
+++ b/tg.c
@@ -4475,7 +4475,7 @@ static int hilsort(const void *a, const void *b) {
 }
 
 static bool multi_geom_inflate_index(struct multi *multi) {
-    // inflate multi index base level and mbr in one pass
+    // inflate multi index base level
     struct index *index = multi->index;
     int nlevels = index->nlevels;
     int spread = index->spread;
@@ -4503,7 +4503,6 @@ static bool multi_geom_inflate_index(struct multi *multi) {
     int k = 0;
     for (int i = 1; i < multi->ngeoms; i++) {
         struct tg_rect rect = tg_geom_rect(multi->geoms[multi->ixgeoms[i]]);
-        multi->rect = tg_rect_expand(multi->rect, rect);
         struct ixrect ixrect2;
         tg_rect_to_ixrect(&rect, &ixrect2);
         if (j == spread) {
@@ -4549,10 +4548,15 @@ static struct tg_geom *multi_geom_inflate_rect(struct tg_geom *geom) {
         geom->multi->rect = (struct tg_rect){ 0 };
         return geom;
     }
-    geom->multi->rect = tg_geom_rect(geom->multi->geoms[0]);
-    for (int i = 1; i < geom->multi->ngeoms; i++) {
+    bool first = true;
+    geom->multi->rect = (struct tg_rect){ 0 };
+    for (int i = 0; i < geom->multi->ngeoms; i++) {
+        // an empty child takes no space
+        if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
         struct tg_rect rect = tg_geom_rect(geom->multi->geoms[i]);
-        geom->multi->rect = tg_rect_expand(geom->multi->rect, rect);
+        geom->multi->rect = first ? rect :
+            tg_rect_expand(geom->multi->rect, rect);
+        first = false;
     }
     if (geom->multi->index) {
         if (!multi_geom_inflate_index(geom->multi)) {
-- 
2.43.0


From 1d618e37a5285badb0e8ba7545c83ef7ade34c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 17/46] fix: a multi geometry without positions is two
 dimensional

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index 982aab2..d95fc67 100644
--- a/tg.c
+++ b/tg.c
@@ -8271,6 +8271,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -8321,6 +8322,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -8380,6 +8382,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
@@ -12362,6 +12365,7 @@ static struct tg_geom *parse_wkt_multipoint(const char *wkt, long len,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -12437,6 +12441,7 @@ static struct tg_geom *parse_wkt_multilinestring(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -12522,6 +12527,7 @@ static struct tg_geom *parse_wkt_multipolygon(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
-- 
2.43.0


From 65b1dbb36a609d3994e4765128303a99ff12c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:24 +0000
Subject: [PATCH 18/46] fix: a FeatureCollection of GeoBIN takes only features
 that were read

---
 tg.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index d95fc67..869b5b6 100644
--- a/tg.c
+++ b/tg.c
@@ -15519,16 +15519,21 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
+        if (nfeats > len-i) {
+            // each feature needs at least one byte
+            goto invalid;
+        }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
-            return 0;
+            *g = 0;
+            return PARSE_FAIL;
         }
         memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
         uint32_t j = 0;
         for (; j < nfeats; j++) {
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat || tg_geom_error(feat)) {
                 break;
             }
             feats[j] = feat;
@@ -15552,7 +15557,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     } else {
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From 2b571c226474b8ee7ec0deef8941de1f7c047216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 19/46] fix: tg_geobin_fullrect writes four dimensions at most

---
 tg.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tg.c b/tg.c
index 869b5b6..4eb7159 100644
--- a/tg.c
+++ b/tg.c
@@ -14503,7 +14503,7 @@ static struct tg_geom *parse_hex(const char *hex, size_t len, enum tg_index ix)
         dst[j] = ((b0-1)<<4)|(b1-1);
         j++;
     }
-    struct tg_geom *geom;
+    struct tg_geom *geom = NULL;
     len /= 2;
     size_t n;
     if (len > 0 && dst[0] >= 0x2 && dst[0] <= 0x4) {
@@ -15869,11 +15869,14 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 2001: dims = 3; break;
             case 3001: dims = 4; break;
             }
-            if (dims > 0 && len >= 5+8*dims) {
-                memcpy(min, geobin+5, 8*dims);
-                memcpy(max, geobin+5, 8*dims);
+            if (len < 5+8*dims) {
+                return 0;
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+            memcpy(min, geobin+5, 8*dims);
+            memcpy(max, geobin+5, 8*dims);
+        } else if (geobin[0] != 0x01 && geobin[1] <= 4 && 
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             dims = geobin[1];
             memcpy(min, geobin+2, 8*dims);
-- 
2.43.0


From d46b4bdaddfb2540675a576d04dd95f3b64ee9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 20/46] fix: nothing follows EMPTY in WKT

---
 tg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tg.c b/tg.c
index 4eb7159..872a684 100644
--- a/tg.c
+++ b/tg.c
@@ -12665,6 +12665,10 @@ static struct tg_geom *parse_wkt(const char *wkt, long len, enum tg_index ix) {
         }
     }
     if (is_empty) {
+        if (i < len) {
+            return make_parse_error(
+                wkt_invalid_err("too much data after 'EMPTY'"));
+        }
         switch (type) {
         case TG_POINT: return tg_geom_new_point_empty();
         case TG_LINESTRING: return tg_geom_new_linestring_empty();
-- 
2.43.0


From 39a764e3371ed18230515051c72e80ac45f01f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 21/46] fix: the rects of an index enclose tiny and huge
 coordinates

---
 tg.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 872a684..91f794d 100644
--- a/tg.c
+++ b/tg.c
@@ -1522,13 +1522,26 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// fltdown/fltup returns a 32-bit float that is not larger or not smaller. 
+// The result of fdown/fup rounds past the value where the 32-bit floats are
+// far apart, which is for values that are tiny or too large for them.
+static float fltdown(double d) {
+    float f = fdown(d);
+    return f > d ? nextafterf(f, -INFINITY) : f;
+}
+
+static float fltup(double d) {
+    float f = fup(d);
+    return f < d ? nextafterf(f, INFINITY) : f;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = fltdown(rect->min.x);
+    ixrect->min.y = fltdown(rect->min.y);
+    ixrect->max.x = fltup(rect->max.x);
+    ixrect->max.y = fltup(rect->max.y);
 }
 
 #else
-- 
2.43.0


From 4adb9811ff6e9b349b84cc8d8c9b37bbe616e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 22/46] fix: put the topmost horizontal segments into a stripe

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 91f794d..6a08f99 100644
--- a/tg.c
+++ b/tg.c
@@ -1715,7 +1715,7 @@ static bool process_ystripes(struct tg_ring *ring) {
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
         int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
         int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
+        min = fclamp0(min, 0, nstripes-1);
         max = fmin0(max, nstripes-1);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
@@ -1748,7 +1748,7 @@ static bool process_ystripes(struct tg_ring *ring) {
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
         int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
         int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
+        min = fclamp0(min, 0, nstripes-1);
         max = fmin0(max, nstripes-1);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
-- 
2.43.0


From 00ceabfda3d68ef7cae8c665d34e87783da3dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 23/46] fix: a ring edge is not crossed where another ring
 touches it

---
 tg.c | 55 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/tg.c b/tg.c
index 6a08f99..0d10575 100644
--- a/tg.c
+++ b/tg.c
@@ -2886,14 +2886,43 @@ static bool poly_contains_point(const struct tg_poly *poly,
     struct tg_point point, bool allow_on_edge);
 
 struct segparts_ctx {
+    const struct tg_poly *poly;
     struct tg_segment seg;
+    struct tg_segment rseg;
     struct tg_point next;
     double dist;
+    bool meets;
     bool crosses;
     bool along;
 };
 
-// segparts_iter_cross checks if the segment properly crosses a ring segment.
+static void poly_rings_search(const struct tg_poly *poly, struct tg_rect rect,
+    bool(*iter)(struct tg_segment seg, int index, void *udata), void *udata)
+{
+    tg_ring_search(tg_poly_exterior(poly), rect, iter, udata);
+    int nholes = tg_poly_num_holes(poly);
+    for (int i = 0; i < nholes; i++) {
+        tg_ring_search(tg_poly_hole_at(poly, i), rect, iter, udata);
+    }
+}
+
+// segparts_iter_meet checks if a ring vertex is where the segment crosses the
+// ring segment
+static bool segparts_iter_meet(struct tg_segment rseg, int index, void *udata)
+{
+    (void)index;
+    struct segparts_ctx *ctx = udata;
+    if (tg_segment_covers_point(ctx->rseg, rseg.a) &&
+        tg_segment_covers_point(ctx->seg, rseg.a))
+    {
+        ctx->meets = true;
+        return false;
+    }
+    return true;
+}
+
+// segparts_iter_cross checks if the segment properly crosses a ring segment,
+// other than where a vertex of another ring touches that ring segment.
 static bool segparts_iter_cross(struct tg_segment rseg, int index, void *udata)
 {
     (void)index;
@@ -2904,8 +2933,16 @@ static bool segparts_iter_cross(struct tg_segment rseg, int index, void *udata)
         !tg_segment_covers_point(rseg, ctx->seg.a) &&
         !tg_segment_covers_point(rseg, ctx->seg.b))
     {
-        ctx->crosses = true;
-        return false;
+        ctx->meets = false;
+        if (tg_poly_num_holes(ctx->poly) > 0) {
+            ctx->rseg = rseg;
+            poly_rings_search(ctx->poly, tg_segment_rect(rseg), 
+                segparts_iter_meet, ctx);
+        }
+        if (!ctx->meets) {
+            ctx->crosses = true;
+            return false;
+        }
     }
     return true;
 }
@@ -2943,16 +2980,6 @@ static bool segparts_iter_along(struct tg_segment rseg, int index, void *udata)
     return true;
 }
 
-static void poly_rings_search(const struct tg_poly *poly, struct tg_rect rect,
-    bool(*iter)(struct tg_segment seg, int index, void *udata), void *udata)
-{
-    tg_ring_search(tg_poly_exterior(poly), rect, iter, udata);
-    int nholes = tg_poly_num_holes(poly);
-    for (int i = 0; i < nholes; i++) {
-        tg_ring_search(tg_poly_hole_at(poly, i), rect, iter, udata);
-    }
-}
-
 // poly_segment_parts determines if some part of the segment passes through the
 // interior of the polygon and if some part passes through the exterior. Single
 // points where the segment only touches the boundary are not parts.
@@ -2962,7 +2989,7 @@ static void poly_segment_parts(const struct tg_poly *poly,
 {
     *inside = false;
     *outside = false;
-    struct segparts_ctx ctx = { .seg = seg };
+    struct segparts_ctx ctx = { .poly = poly, .seg = seg };
     poly_rings_search(poly, tg_segment_rect(seg), segparts_iter_cross, &ctx);
     if (ctx.crosses) {
         *inside = true;
-- 
2.43.0


From 6385ff715a6eb91f65bf6d33027c7e6bbfb24f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:38 +0000
Subject: [PATCH 24/46] fix: an empty child does not undo covers and contains

---
 tg.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tg.c b/tg.c
index 0d10575..d094dec 100644
--- a/tg.c
+++ b/tg.c
@@ -5732,6 +5732,8 @@ bool tg_geom_intersects(const struct tg_geom *geom,
 ////////////////////////////////////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////////////////
 
+bool tg_geom_is_empty(const struct tg_geom *geom);
+
 static bool point_covers_geom(struct tg_point point,
     const struct tg_geom *geom);
 
@@ -5750,8 +5752,9 @@ static bool point_covers_base_geom(struct tg_point point,
         case TG_MULTILINESTRING:
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
+                if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                 if (!point_covers_geom(point, geom->multi->geoms[i])) {
                     return false;
                 }
@@ -5801,8 +5804,9 @@ static bool line_covers_base_geom(struct tg_line *line,
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
+                if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                 if (!line_covers_geom(line, geom->multi->geoms[i])) {
                     return false;
                 }
@@ -5852,8 +5856,9 @@ static bool poly_covers_base_geom(struct tg_poly *poly,
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: 
-            if (!geom->multi || geom->multi->ngeoms == 0) return false;
+            if (tg_geom_is_empty(geom)) return false;
             for (int i = 0; i < geom->multi->ngeoms; i++) {
+                if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                 if (!poly_covers_geom(poly, geom->multi->geoms[i])) {
                     return false;
                 }
@@ -6037,9 +6042,10 @@ static bool poly_contains_base_geom(struct tg_poly *poly,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!poly_contains_geom(poly, geom->multi->geoms[i])) {
                         contains = false;
                         break;
@@ -6092,9 +6098,10 @@ static bool line_contains_base_geom(struct tg_line *line,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!line_contains_geom(line, geom->multi->geoms[i])) {
                         contains = false;
                         break;
@@ -6148,9 +6155,10 @@ static bool point_contains_base_geom(struct tg_point point,
         case TG_MULTIPOLYGON:
         case TG_GEOMETRYCOLLECTION: {
             bool contains = false;
-            if (geom->multi && geom->multi->ngeoms > 0) {
+            if (!tg_geom_is_empty(geom)) {
                 contains = true;
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
+                    if (tg_geom_is_empty(geom->multi->geoms[i])) continue;
                     if (!point_contains_geom(point, geom->multi->geoms[i])) {
                         contains = false;
                         break;
-- 
2.43.0


From 53341363bb1c870955f6bd9a748f073b806b4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 25/46] fix: a collection that meets a point or line inside
 does not touch it

---
 tg.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index d094dec..7f3d1a0 100644
--- a/tg.c
+++ b/tg.c
@@ -6311,16 +6311,20 @@ static bool point_touches_base_geom(struct tg_point point,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION:
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (point_touches_geom(point, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (point_touches_geom(point, child)) {
+                        touches = true;
+                    } else if (point_intersects_geom(point, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
@@ -6363,16 +6367,20 @@ static bool line_touches_base_geom(struct tg_line *line,
         case TG_MULTIPOINT: 
         case TG_MULTILINESTRING: 
         case TG_MULTIPOLYGON:
-        case TG_GEOMETRYCOLLECTION: 
+        case TG_GEOMETRYCOLLECTION: {
+            bool touches = false;
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (line_touches_geom(line, geom->multi->geoms[i])) {
-                        return true;
+                    const struct tg_geom *child = geom->multi->geoms[i];
+                    if (line_touches_geom(line, child)) {
+                        touches = true;
+                    } else if (line_intersects_geom(line, child)) {
+                        return false;
                     }
                 }
             }
-            return false;
-        }
+            return touches;
+        }}
     }
     return false;
 }
-- 
2.43.0


From 3d0e0d10853a8acdc87b539bd79e67779b8b61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 26/46] fix: covers and contains look into nested collections

---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 7f3d1a0..0565e5b 100644
--- a/tg.c
+++ b/tg.c
@@ -5480,7 +5480,9 @@ static bool geom_foreach(const struct tg_geom *geom,
         case TG_GEOMETRYCOLLECTION:
             if (geom->multi) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
-                    if (!iter(geom->multi->geoms[i], udata)) return false;
+                    if (!geom_foreach(geom->multi->geoms[i], iter, udata)) {
+                        return false;
+                    }
                 }
             }
             return true;
-- 
2.43.0


From 0011d5c8763115b97ce28b338c5dc8c2e8c17e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:29 +0000
Subject: [PATCH 27/46] fix: the index of an unclosed ring includes the closing
 segment

---
 tg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 0565e5b..e6aac7b 100644
--- a/tg.c
+++ b/tg.c
@@ -1932,7 +1932,7 @@ static bool turns_both_ways(const struct tg_point *points, int npoints) {
 }
 
 static struct tg_rect process_points(const struct tg_point *points,
-    int npoints, struct tg_point *ring_points, struct index *index,
+    int npoints, int nsegs, struct tg_point *ring_points, struct index *index,
     bool *convex, bool *clockwise, double *area)
 {
     struct tg_rect rect = { 0 };
@@ -2135,6 +2135,10 @@ lconcave:
         // Fill in the final indexing rectangles
         if (r != index->levels[index->nlevels-1].nrects) {
             // There's one last index rectangle remaining.
+            if (nsegs == npoints) {
+                // It includes the segment back to the first point.
+                rect_inflate_point(&spreadrect, &ring_points[0]);
+            }
             inflate_mbr_and_copy_next_index_rect();
         }
         fill_in_upper_index_levels(index);
@@ -2248,8 +2252,8 @@ static struct tg_ring *series_new(const struct tg_point *points, int npoints,
         fill_index_struct(ring->index, nlevels, nsegs, ixspread, ixsize);
     }
 
-    ring->rect = process_points(points, npoints, ring->points, ring->index,
-        &ring->convex, &ring->clockwise, &ring->area);
+    ring->rect = process_points(points, npoints, nsegs, ring->points,
+        ring->index, &ring->convex, &ring->clockwise, &ring->area);
     
     // Fill extra point to ensure perfect close.
     ring->points[npoints] = ring->points[0];
-- 
2.43.0


From 8e8d594f7ede71b73dfebf6bd4d9a39418ba77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 28/46] fix: a LineString or Polygon with Z/M made from NULL is
 empty

The Z, M and ZM constructors accept a NULL line or polygon, and the geometry
was then not marked as empty, so that the writers dereferenced the NULL.
---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index e6aac7b..6577e91 100644
--- a/tg.c
+++ b/tg.c
@@ -4770,6 +4770,12 @@ static struct tg_geom *fill_extra_coords(struct tg_geom *geom,
     ncoords = ncoords < 0 ? 0 : ncoords;
     // if (!geom) return NULL; // already checked
     geom->head.flags = flags;
+    if ((geom->head.type == TG_LINESTRING && !geom->line) ||
+        (geom->head.type == TG_POLYGON && !geom->poly))
+    {
+        // There are no points. This is the same as an empty geometry.
+        geom->head.flags |= IS_EMPTY;
+    }
     geom->ncoords = ncoords;
     if (ncoords == 0) {
         geom->coords = NULL;
-- 
2.43.0


From a1e66ea5d710f64745adc2ff85f2d1c25f05e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 29/46] fix: reject a bad escape at the end of a JSON string

---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..a9beb73 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -138,7 +138,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
diff --git a/tg.c b/tg.c
index 6577e91..f8f559e 100644
--- a/tg.c
+++ b/tg.c
@@ -6897,7 +6897,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
-- 
2.43.0


From 3f5149591e703bee8bd830d07802f0cd4bcd86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:41 +0000
Subject: [PATCH 30/46] fix: accept exactly the UTF-8 of Unicode in JSON
 strings

---
 deps/json.c | 4 +++-
 tg.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index a9beb73..33db822 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -65,7 +65,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // don't allow overlong sequences
+    if (n == 4 && cp < 0x10000) goto fail; // don't allow overlong sequences
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
diff --git a/tg.c b/tg.c
index f8f559e..592bd04 100644
--- a/tg.c
+++ b/tg.c
@@ -6824,7 +6824,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
         goto fail;
     }
     if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    if (n == 3 && cp < 0x800) goto fail; // don't allow overlong sequences
+    if (n == 4 && cp < 0x10000) goto fail; // don't allow overlong sequences
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
-- 
2.43.0


From 002b4e2fce17fb29ed87ffdc904e2049386a9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 31/46] fix: a null character does not end a GeoJSON type

---
 tg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 592bd04..f841596 100644
--- a/tg.c
+++ b/tg.c
@@ -8629,7 +8629,11 @@ static struct tg_geom *parse_geojson(struct json json, bool req_geom,
         return make_parse_error("'type' is required");
     }
     char type[24];
-    json_string_copy(jtype, type, sizeof(type));
+    size_t typelen = json_string_copy(jtype, type, sizeof(type));
+    if (typelen != strlen(type)) {
+        // too long, or includes a null character
+        return make_parse_error("unknown type '%s'", type);
+    }
     struct tg_geom *geom = NULL;
     if (strcmp(type, "Point") == 0) {
         geom = parse_geojson_point(json, req_geom, ix);
-- 
2.43.0


From 7ce272c2d2520f7dc4b0d7bb345b27358fadcd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 32/46] fix: a null character does not end a WKT type

---
 tg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tg.c b/tg.c
index f841596..41728e2 100644
--- a/tg.c
+++ b/tg.c
@@ -11989,6 +11989,8 @@ static enum tg_geom_type wkt2type(const char *wkt, long len,
             name[j] = ' ';
             nws++;
             if (nws > 2) return -1;
+        } else if (wkt[i] == '\0') {
+            goto bad_type;
         } else if (wkt[i] >= 'a' && wkt[i] <= 'z') {
             name[j] = wkt[i]-32;
         } else {
-- 
2.43.0


From ca70cbfd8af991755c5a0467509b0a34c57c1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 33/46] fix: a WKT number may begin with its decimal point in
 every geometry

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 41728e2..82dc6f7 100644
--- a/tg.c
+++ b/tg.c
@@ -11959,7 +11959,7 @@ static bool isws(char c) {
 }
 
 static bool isnum(char c) {
-    return c == '-' || (c >= '0' && c <= '9');
+    return c == '-' || c == '.' || (c >= '0' && c <= '9');
 }
 
 static long wkt_trim_ws(const char *wkt, long len, long i) {
-- 
2.43.0


From 67ff34ce69d4f3dc4aab1cd588cdc0200535b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 34/46] fix: read the Z and M flags of extended WKB

---
 tg.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tg.c b/tg.c
index 82dc6f7..9fd4bc0 100644
--- a/tg.c
+++ b/tg.c
@@ -13940,6 +13940,15 @@ static size_t parse_wkb(const uint8_t *wkb, size_t len, size_t i, int depth,
     read_uint32(type);
 
     bool has_srid = !!(type & 0x20000000);
+    if (type & 0xC0000000) {
+        // The extended wkb format flags the Z and M dimensions.
+        bool has_z = !!(type & 0x80000000);
+        bool has_m = !!(type & 0x40000000);
+        type &= 0x3FFFFFFF;
+        if ((type & 0x1FFFFFFF) > 7) goto invalid;
+        type += (has_z ? 1000 : 0) + (has_m ? 2000 : 0);
+    }
+    if ((type & 0x1FFFFFFF) > 0xFFFF) goto invalid;
     type &= 0xFFFF;
     int srid = 0;
     if (has_srid) {
-- 
2.43.0


From 2ad557b2921fc9ba3d473e62e595299158d4a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 35/46] fix: read GeoJSON numbers of 512 characters and more

---
 deps/json.c | 5 +++++
 tg.c        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/deps/json.c b/deps/json.c
index 33db822..611748c 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -849,6 +849,11 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
+        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
+            // Too long for the buffer of parse_double. What follows the number 
+            // inside of an array or object, terminates it for strtod.
+            return strtod((char*)jraw(json), NULL);
+        }
         return parse_double(jraw(json), jlen(json));
     default:
         return 0.0;
diff --git a/tg.c b/tg.c
index 9fd4bc0..68203ea 100644
--- a/tg.c
+++ b/tg.c
@@ -7608,6 +7608,11 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
+        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
+            // Too long for the buffer of parse_double. What follows the number 
+            // inside of an array or object, terminates it for strtod.
+            return strtod((char*)jraw(json), NULL);
+        }
         return parse_double(jraw(json), jlen(json));
     default:
         return 0.0;
-- 
2.43.0


From 36f70bfaaa2114883b073e171f4bc255ba87bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 36/46] fix: order the children of an index by a position
 inside of its rect

---
 tg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 68203ea..0b8408e 100644
--- a/tg.c
+++ b/tg.c
@@ -4501,9 +4501,16 @@ static uint32_t hilbert_xy_to_index(uint32_t x, uint32_t y) {
     return (i1 << 1) | i0;
 }
 
+// Returns the position of x between min and max as a 16 bit integer.
+static uint32_t hilbert_scale(double x, double min, double max) {
+    double v = ((x - min) / (max - min)) * 0xFFFF;
+    // The value is not a number when min and max are equal.
+    return v > 0 ? v < 0xFFFF ? (uint32_t)v : 0xFFFF : 0;
+}
+
 uint32_t tg_point_hilbert(struct tg_point point, struct tg_rect rect) {
-    uint32_t ix = ((point.x - rect.min.x) / (rect.max.x - rect.min.x)) * 0xFFFF;
-    uint32_t iy = ((point.y - rect.min.y) / (rect.max.y - rect.min.y)) * 0xFFFF;
+    uint32_t ix = hilbert_scale(point.x, rect.min.x, rect.max.x);
+    uint32_t iy = hilbert_scale(point.y, rect.min.y, rect.max.y);
     return hilbert_xy_to_index(ix, iy);
 }
 
-- 
2.43.0


From bc61b0544b5388ac8cbe330b4c8868cc5b28de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 37/46] fix: clamp the stripe of a coordinate before converting
 it to an integer

---
 tg.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index 0b8408e..d356deb 100644
--- a/tg.c
+++ b/tg.c
@@ -1681,6 +1681,15 @@ struct ystripes {
     struct ystripe stripes[];
 };
 
+// Returns the stripe for y. The value is clamped before it's converted because
+// it can be out of the range of an integer.
+static int ystripe_at(const struct tg_ring *ring, double y, double height,
+    int nstripes)
+{
+    double stripe = (y - ring->rect.min.y) / height * (double)nstripes;
+    return fclamp0(stripe, 0, nstripes-1);
+}
+
 static bool process_ystripes(struct tg_ring *ring) {
     double height = ring->rect.max.y - ring->rect.min.y;
     if (!(height > 0) || !isfinite(height)) {
@@ -1713,10 +1722,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fclamp0(min, 0, nstripes-1);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ring, ymin, height, nstripes);
+        int max = ystripe_at(ring, ymax, height, nstripes);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
             nmap++;
@@ -1746,10 +1753,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fclamp0(min, 0, nstripes-1);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ring, ymin, height, nstripes);
+        int max = ystripe_at(ring, ymax, height, nstripes);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
             stripe->indexes[stripe->count++] = i;
@@ -2753,8 +2758,7 @@ static struct ring_result ystripes_pip(const struct tg_ring *ring,
     int idx = -1;
     struct ystripes *ystripes = ring->ystripes;
     double height = ring->rect.max.y-ring->rect.min.y;
-    int y = (point.y - ring->rect.min.y) / height * (double)ystripes->nstripes;
-    y = fclamp0(y, 0, ystripes->nstripes-1);
+    int y = ystripe_at(ring, point.y, height, ystripes->nstripes);
     struct ystripe *ystripe = &ystripes->stripes[y];
     for (int i = 0; i < ystripe->count; i++) {
         int j = ystripe->indexes[i];
-- 
2.43.0


From b16f2486e5231ec3483c657fc9a01fac99c746f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 38/46] fix: a Feature's escaped "id" or "properties" member is
 not written twice as GeoJSON

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index d356deb..1b54bf2 100644
--- a/tg.c
+++ b/tg.c
@@ -11797,13 +11797,13 @@ static void write_base_geom_geojson(const struct tg_geom *geom,
             struct json key = json_first(fjson);
             struct json val = json_next(key);
             while (json_exists(key)) {
-                if (json_raw_compare(key, "\"id\"") != 0) {
+                if (json_string_compare(key, "id") != 0) {
                     write_char(wr, ',');
                     write_stringn(wr, json_raw(key), json_raw_length(key));
                     write_char(wr, ':');
                     write_stringn(wr, json_raw(val), json_raw_length(val));
                     if (!wrote_props && 
-                        json_raw_compare(key, "\"properties\"") == 0)
+                        json_string_compare(key, "properties") == 0)
                     {
                         wrote_props = true;
                     }
-- 
2.43.0


From c5d3842e83bb4929aed6650c34dd9bb1f26a74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 39/46] fix: a GeoBIN header with one or more than four
 dimensions gives no rectangle or centre

---
 tg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 1b54bf2..f1f0f56 100644
--- a/tg.c
+++ b/tg.c
@@ -15979,8 +15979,8 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             }
             memcpy(min, geobin+5, 8*dims);
             memcpy(max, geobin+5, 8*dims);
-        } else if (geobin[0] != 0x01 && geobin[1] <= 4 && 
-            len >= 2+8*(size_t)geobin[1]*2)
+        } else if (geobin[0] != 0x01 && geobin[1] >= 2 && 
+            geobin[1] <= 4 && len >= 2+8*(size_t)geobin[1]*2)
         {
             // Read MBR
             dims = geobin[1];
@@ -16008,7 +16008,9 @@ struct tg_rect tg_geobin_rect(const uint8_t *geobin, size_t len) {
                 rect.max.x = rect.min.x;
                 rect.max.y = rect.min.y;
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+        } else if (geobin[0] != 0x01 && geobin[1] <= 4 && 
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             int dims = geobin[1];
             if (dims >= 2) {
@@ -16037,7 +16039,9 @@ struct tg_point tg_geobin_point(const uint8_t *geobin, size_t len) {
                 memcpy(&point.x, geobin+5, 8);
                 memcpy(&point.y, geobin+5+8, 8);
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+        } else if (geobin[0] != 0x01 && geobin[1] <= 4 && 
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             struct tg_rect rect = { 0 };
             int dims = geobin[1];
-- 
2.43.0


From 34fa757be3d843b8d1c7f77aafe55cd2fd127642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 40/46] fix: a polygon is not made of missing holes

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index f1f0f56..9fe256a 100644
--- a/tg.c
+++ b/tg.c
@@ -3861,6 +3861,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
-- 
2.43.0


From 9426e5cd9a7e78a2efcc6356b965f18c16e454be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 41/46] fix: a polygon does not cover a rectangle of one point
 in its hole

---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 9fe256a..7908345 100644
--- a/tg.c
+++ b/tg.c
@@ -4020,6 +4020,9 @@ bool tg_poly_touches_point(const struct tg_poly *poly, struct tg_point point) {
 /// Tests whether a polygon fully contains a rectangle.
 /// @see PolyFuncs
 bool tg_poly_covers_rect(const struct tg_poly *poly, struct tg_rect rect) {
+    if (pteq(rect.min, rect.max)) {
+        return tg_poly_covers_point(poly, rect.min);
+    }
     // Convert rect into a poly
     struct tg_ring *other = stack_ring();
     rect_to_ring(rect, other);
-- 
2.43.0


From cf19ca5b335e78c3e36a87dd11afc66c9fb1813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 42/46] fix: a diagonal segment does not cover the rectangle
 between its ends

---
 tg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 7908345..cd297fa 100644
--- a/tg.c
+++ b/tg.c
@@ -1418,7 +1418,8 @@ bool tg_segment_intersects_segment(struct tg_segment seg_a,
 /// @see SegmentFuncs
 bool tg_segment_covers_rect(struct tg_segment seg, struct tg_rect rect) {
     return tg_segment_covers_point(seg, rect.min) && 
-           tg_segment_covers_point(seg, rect.max);
+           tg_segment_covers_point(seg, rect.max) &&
+           (rect.min.x == rect.max.x || rect.min.y == rect.max.y);
 }
 
 //////////////////
-- 
2.43.0


From 4e49606ead06356a8a8359323316d7a3f3f3e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 43/46] fix: count the pointers to a polygon's holes, not whole
 rings, in its memory size

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index cd297fa..fc22baa 100644
--- a/tg.c
+++ b/tg.c
@@ -4277,7 +4277,7 @@ size_t tg_poly_memsize(const struct tg_poly *poly) {
     if (poly->exterior) {
         size += tg_ring_memsize(poly->exterior);
     }
-    size += poly->nholes*sizeof(struct tg_ring);
+    size += poly->nholes*sizeof(struct tg_ring*);
     for (int i = 0; i < poly->nholes; i++) {
         size += tg_ring_memsize(poly->holes[i]);
     }
-- 
2.43.0


From 01100888b9fe59abf763a6e4156504a18ba6c541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 44/46] fix: do not take an empty collection for out of memory
 when an allocator gives NULL for no bytes

---
 tg.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tg.c b/tg.c
index fc22baa..50a83ab 100644
--- a/tg.c
+++ b/tg.c
@@ -2285,7 +2285,8 @@ static struct tg_ring *series_move(const struct tg_ring *ring, bool closed,
     double delta_x, double delta_y)
 {
     if (!ring) return NULL;
-    struct tg_point *points = tg_malloc(ring->npoints*sizeof(struct tg_point));
+    size_t npoints = ring->npoints > 0 ? ring->npoints : 1;
+    struct tg_point *points = tg_malloc(npoints*sizeof(struct tg_point));
     if (!points) return NULL;
     for (int i = 0; i < ring->npoints; i++) {
         points[i] = tg_point_move(ring->points[i], delta_x, delta_y);
@@ -4433,14 +4434,17 @@ static struct tg_geom *geom_new_multi(enum tg_geom_type type, int ngeoms) {
         return NULL;
     }
     memset(geom->multi, 0, sizeof(struct multi));
-    geom->multi->geoms = tg_malloc(ngeoms*sizeof(struct tg_geom*));
-    if (!geom->multi->geoms) {
-        tg_free(geom->multi);
-        tg_free(geom);
-        return NULL;
+    if (ngeoms > 0) {
+        // Asking for zero bytes may return NULL without being out of memory.
+        geom->multi->geoms = tg_malloc(ngeoms*sizeof(struct tg_geom*));
+        if (!geom->multi->geoms) {
+            tg_free(geom->multi);
+            tg_free(geom);
+            return NULL;
+        }
+        memset(geom->multi->geoms, 0, ngeoms*sizeof(struct tg_geom*));
+        geom->multi->ngeoms = ngeoms;
     }
-    memset(geom->multi->geoms, 0, ngeoms*sizeof(struct tg_geom*));
-    geom->multi->ngeoms = ngeoms;
 
     const int spread = 32;
     if (ngeoms >= spread*2) {
@@ -15635,7 +15639,8 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
             // each feature needs at least one byte
             goto invalid;
         }
-        struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
+        struct tg_geom **feats = tg_malloc(
+            (nfeats > 0 ? nfeats : 1)*sizeof(struct tg_geom*));
         if (!feats) {
             *g = 0;
             return PARSE_FAIL;
-- 
2.43.0


From 52136995bc4da3aa525abd3685face5029ca5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:49 +0000
Subject: [PATCH 45/46] fix: read decimal numbers the same whatever the locale
 is

strtod uses the decimal point of the current locale. With a locale that has
a comma there, "POINT(1.5 2.5)" was read as POINT(1 2),
"LINESTRING(1 2,3 4)" as LINESTRING(1 2.3,3 4), and the GeoJSON number 1.5
as 0.
---
 deps/json.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++----
 deps/json.h |  3 +++
 tg.c        | 58 +++++++++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 106 insertions(+), 10 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index 611748c..8c42f5c 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -4,6 +4,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 #include <limits.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -779,6 +780,52 @@ JSON_EXTERN struct json json_object_get(struct json json, const char *key) {
     return json_object_getn(json, key, key?strlen(key):0);
 }
 
+// json_number returns the value of a number that was already validated.
+// The result does not depend on the decimal point of the current locale.
+// What follows the number must end it for strtod, or str[len] must be '\0'.
+JSON_EXTERN double json_number(const char *str, size_t len) {
+    char *end;
+    double x = strtod(str, &end);
+    if ((size_t)(end-str) == len) return x;
+    // The locale has another decimal point than '.'. Write the number again as
+    // an integer and an exponent. Digits beyond those which can matter to a
+    // double only tell if there is something other than zero.
+    char buf[840];
+    size_t i = 0, n = 0, ndigits = 0;
+    long long exp = 0, exp10 = 0;
+    bool frac = false, rest = false, neg = false;
+    if (i < len && str[i] == '-') buf[n++] = str[i++];
+    for (; i < len && str[i] != 'e' && str[i] != 'E'; i++) {
+        if (str[i] == '.') {
+            frac = true;
+        } else if (ndigits == 0 && str[i] == '0') {
+            exp -= frac;
+        } else if (ndigits < 800) {
+            buf[n++] = str[i];
+            ndigits++;
+            exp -= frac;
+        } else {
+            rest = rest || str[i] != '0';
+            exp += !frac;
+        }
+    }
+    if (rest) {
+        buf[n++] = '1';
+        exp--;
+    }
+    if (ndigits == 0) buf[n++] = '0';
+    for (i++; i < len; i++) {
+        if (str[i] == '-') {
+            neg = true;
+        } else if (str[i] != '+' && exp10 < 1000000000000000) {
+            exp10 = exp10*10 + (str[i]-'0');
+        }
+    }
+    exp += neg ? -exp10 : exp10;
+    snprintf(buf+n, sizeof(buf)-n, "e%lld", exp);
+    return strtod(buf, NULL);
+}
+
 static double stod(const uint8_t *str, size_t len, char *buf) {
     memcpy(buf, str, len);
     buf[len] = '\0';
@@ -849,10 +896,10 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
-        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
-            // Too long for the buffer of parse_double. What follows the number 
-            // inside of an array or object, terminates it for strtod.
-            return strtod((char*)jraw(json), NULL);
+        if (jraw(json)+jlen(json) < jend(json)) {
+            // What follows the number, inside of an array or object, terminates
+            // it for strtod.
+            return json_number((char*)jraw(json), jlen(json));
         }
         return parse_double(jraw(json), jlen(json));
     default:
diff --git a/deps/json.h b/deps/json.h
index 28643d7..4ecc41a 100644
--- a/deps/json.h
+++ b/deps/json.h
@@ -177,6 +177,9 @@ struct json json_getn(const char *json_str, size_t len, const char *path);
 // json_double returns a json's double value.
 double json_double(struct json json);
 
+// json_number returns the value of a number that was already validated.
+double json_number(const char *str, size_t len);
+
 // json_int returns a json's int value.
 int json_int(struct json json);
 
diff --git a/tg.c b/tg.c
index 50a83ab..149f159 100644
--- a/tg.c
+++ b/tg.c
@@ -7560,6 +7560,52 @@ JSON_EXTERN struct json json_object_get(struct json json, const char *key) {
     return json_object_getn(json, key, key?strlen(key):0);
 }
 
+// json_number returns the value of a number that was already validated.
+// The result does not depend on the decimal point of the current locale.
+// What follows the number must end it for strtod, or str[len] must be '\0'.
+JSON_EXTERN double json_number(const char *str, size_t len) {
+    char *end;
+    double x = strtod(str, &end);
+    if ((size_t)(end-str) == len) return x;
+    // The locale has another decimal point than '.'. Write the number again as
+    // an integer and an exponent. Digits beyond those which can matter to a
+    // double only tell if there is something other than zero.
+    char buf[840];
+    size_t i = 0, n = 0, ndigits = 0;
+    long long exp = 0, exp10 = 0;
+    bool frac = false, rest = false, neg = false;
+    if (i < len && str[i] == '-') buf[n++] = str[i++];
+    for (; i < len && str[i] != 'e' && str[i] != 'E'; i++) {
+        if (str[i] == '.') {
+            frac = true;
+        } else if (ndigits == 0 && str[i] == '0') {
+            exp -= frac;
+        } else if (ndigits < 800) {
+            buf[n++] = str[i];
+            ndigits++;
+            exp -= frac;
+        } else {
+            rest = rest || str[i] != '0';
+            exp += !frac;
+        }
+    }
+    if (rest) {
+        buf[n++] = '1';
+        exp--;
+    }
+    if (ndigits == 0) buf[n++] = '0';
+    for (i++; i < len; i++) {
+        if (str[i] == '-') {
+            neg = true;
+        } else if (str[i] != '+' && exp10 < 1000000000000000) {
+            exp10 = exp10*10 + (str[i]-'0');
+        }
+    }
+    exp += neg ? -exp10 : exp10;
+    snprintf(buf+n, sizeof(buf)-n, "e%lld", exp);
+    return strtod(buf, NULL);
+}
+
 static double stod(const uint8_t *str, size_t len, char *buf) {
     memcpy(buf, str, len);
     buf[len] = '\0';
@@ -7630,10 +7676,10 @@ JSON_EXTERN double json_double(struct json json) {
         if (jlen(json) < 3) return 0.0;
         return parse_double(jraw(json)+1, jlen(json)-2);
     case JSON_NUMBER:
-        if (jlen(json) >= 512 && jraw(json)+jlen(json) < jend(json)) {
-            // Too long for the buffer of parse_double. What follows the number 
-            // inside of an array or object, terminates it for strtod.
-            return strtod((char*)jraw(json), NULL);
+        if (jraw(json)+jlen(json) < jend(json)) {
+            // What follows the number, inside of an array or object, terminates
+            // it for strtod.
+            return json_number((char*)jraw(json), jlen(json));
         }
         return parse_double(jraw(json), jlen(json));
     default:
@@ -12165,7 +12211,7 @@ static struct tg_geom *parse_wkt_point(const char *wkt, long len,
             return make_parse_error(wkt_invalid_err("invalid number"));
         }
         if (pdims < 4) {
-            posn[pdims++] = strtod(wkt+s, NULL);
+            posn[pdims++] = json_number(wkt+s, i-s);
         } else goto bad_dims;
         if (i == len) break;
         if (isws(wkt[i])) {
@@ -12238,7 +12284,7 @@ static int parse_wkt_posns(enum base base, int dims, int depth, const char *wkt,
                     *err = wkt_invalid_err("invalid number");
                     return -1;
                 }
-                num = strtod(wkt+s, NULL);
+                num = json_number(wkt+s, i-s);
             } else if (wkt[i] == ')') {
                 // err: expected a number, got ')'
                 *err = wkt_invalid_err("expected number, got '('");
-- 
2.43.0


From 7e30cc9e51cbb624ff72372cd2a1d0b30639b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:30 +0000
Subject: [PATCH 46/46] fix: detect the format of input the same whatever the
 locale is

isspace, isalpha and isxdigit were called with char values above 127, which
is undefined where char is signed, and answer differently per locale.
---
 tg.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 149f159..90c045a 100644
--- a/tg.c
+++ b/tg.c
@@ -15545,6 +15545,20 @@ struct tg_geom *tg_parse(const void *data, size_t len) {
     return tg_parse_ix(data, len, 0);
 }
 
+// Character classes of the "C" locale, whatever the current locale is.
+static bool c_isspace(char c) {
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+static bool c_isalpha(char c) {
+    return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+}
+
+static bool c_isxdigit(char c) {
+    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || 
+        (c >= 'a' && c <= 'f');
+}
+
 /// Parse data using provided indexing option.
 /// @param data Data
 /// @param len Length of data
@@ -15560,9 +15574,9 @@ struct tg_geom *tg_parse_ix(const void *data, size_t len, enum tg_index ix) {
     if (src[0] == '{') {
         goto geojson;
     }
-    if (isspace(src[0])) {
+    if (c_isspace(src[0])) {
         for (size_t i = 1; i < len; i++) {
-            if (isspace(src[i])) {
+            if (c_isspace(src[i])) {
                 continue;
             } else if (src[i] == '{') {
                 goto geojson;
@@ -15572,10 +15586,10 @@ struct tg_geom *tg_parse_ix(const void *data, size_t len, enum tg_index ix) {
         }
         goto wkt;
     }
-    if (isalpha(src[0]) || isxdigit(src[0])) {
+    if (c_isalpha(src[0]) || c_isxdigit(src[0])) {
         bool ishex = true;
         for (size_t i = 0; i < len && i < 16; i++) {
-            if (!isxdigit(src[i])) {
+            if (!c_isxdigit(src[i])) {
                 ishex = false;
                 break;
             }
-- 
2.43.0

